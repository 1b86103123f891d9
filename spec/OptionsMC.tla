------------------------------ MODULE OptionsMC ------------------------------
(***************************************************************************)
(* Invocations of the console applications, built option by option: every  *)
(* one with at most MaxSet options (exhaustive), or random ones            *)
(* (simulation).  Emits invocation and denoted configuration, which are    *)
(* replayed into the real applications and the real library.               *)
(***************************************************************************)
EXTENDS Options, FiniteSets, Json
CONSTANTS MaxSet, Emit
VARIABLES inv, rest
vars == <<inv, rest>>
Order == <<"topics", "iterations", "e_step_iterations", "e_step_tolerance", "random_state", "compute_likelihood", "initialize", "quiet",
           "snapshot_every", "workers", "continue", "continue_from_unsupervised", "regularization_penalty", "fixed_point_iterations",
           "supervised_weight", "m_step_iterations", "m_step_tolerance", "batch_size", "momentum", "learning_rate", "beta_weight">>
Values(o) ==
    CASE o = "topics" -> {"1", "2", "3", "5", "40"}
      [] o = "iterations" -> {"0", "1", "2", "3", "6", "12"}
      [] o = "e_step_iterations" -> {"0", "1", "3", "40"}
      [] o = "e_step_tolerance" -> {"0", "1e-6", "0.05"}
      [] o = "random_state" -> {"1", "42", "-3", "2147483647"}
      [] o = "compute_likelihood" -> {"0", "1.0", "1", "0.5"}
      [] o = "initialize" -> {"seeded", "random"}
      [] o = "quiet" -> {"-q", "--quiet"}
      [] o = "snapshot_every" -> {"0", "1", "2", "3"}
      [] o = "workers" -> {"1", "2", "4", "20"}
      [] o = "continue" -> {"A", "B"}
      [] o = "continue_from_unsupervised" -> {"A", "U"}
      [] o = "regularization_penalty" -> {"0", "0.5", "2"}
      [] o = "fixed_point_iterations" -> {"1", "3", "30"}
      [] o = "supervised_weight" -> {"0", "0.3", "0.8", "2.5"}
      [] o = "m_step_iterations" -> {"0", "1", "5"}
      [] o = "m_step_tolerance" -> {"1e-6", "0.1"}
      [] o = "batch_size" -> {"8", "16"}      \* whole passes over the documents used: see C12
      [] o = "momentum" -> {"0", "0.1", "0.5"}
      [] o = "learning_rate" -> {"0", "0.1", "0.3"}
      [] o = "beta_weight" -> {"0", "0.4", "0.7", "1"}
Apps == {<<"lda", "train">>, <<"slda", "train">>, <<"fslda", "train">>, <<"fslda", "online_train">>,
         <<"lda", "transform">>, <<"slda", "transform">>, <<"fslda", "transform">>}
NoOpts == [o \in {} |-> ""]
Init == \E a \in Apps : inv = [app |-> a[1], cmd |-> a[2], opts |-> NoOpts] /\ rest = Order
Allowed(o) == /\ o \in OptionsOf(inv.app, inv.cmd)
              /\ Cardinality(DOMAIN inv.opts) < MaxSet
              /\ o = "continue_from_unsupervised" => "continue" \notin DOMAIN inv.opts
Next == /\ rest # <<>>
        /\ rest' = Tail(rest)
        /\ \/ UNCHANGED inv
           \/ Allowed(Head(rest)) /\ \E v \in Values(Head(rest)) :
                 inv' = [inv EXCEPT !.opts = (Head(rest) :> v) @@ @]
Spec == Init /\ [][Next]_vars
(* an option changes what it names and nothing else; training steps belong to their application *)
C == Config(inv)
OwnSteps == inv.cmd # "transform" =>
    /\ C.e.kind = (CASE inv.app = "lda" -> "classic" [] inv.app = "slda" -> "sup" [] OTHER -> "fast")
    /\ C.m.kind = (CASE inv.app = "lda" -> "classic" [] inv.app = "slda" -> "sup" [] inv.cmd = "train" -> "fast" [] OTHER -> "online")
InferenceIsClassic == inv.cmd = "transform" => C.e.kind = "classic"
NamedModelWins == inv.cmd # "transform" /\ "continue" \in DOMAIN inv.opts => C.init.topics = "model" /\ C.init.from = inv.opts["continue"]
FreshClasses == inv.cmd # "transform" /\ C.init.eta = "model" => "continue" \in DOMAIN inv.opts
Sensible == inv.cmd # "transform" => (C.iterations = (IF "iterations" \in DOMAIN inv.opts THEN inv.opts["iterations"] ELSE "20"))
Dump == (Emit /\ rest = <<>>) => PrintT(<<"INV", ToJson([app |-> inv.app, cmd |-> inv.cmd, opts |-> inv.opts, config |-> C])>>)
=============================================================================
