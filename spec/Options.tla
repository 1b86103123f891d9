------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* What the options of the console applications mean, as the library       *)
(* configuration they denote.  An invocation is [app, cmd, opts]; opts     *)
(* maps option names to values (strings as typed, "" for a plain flag);    *)
(* options that are not given are not in its domain.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Common  == {"topics", "iterations", "e_step_iterations", "e_step_tolerance", "random_state", "compute_likelihood",
            "initialize", "quiet", "snapshot_every", "workers", "continue"}
TrainOptions(app, cmd) ==
    Common \cup (IF app = "lda" THEN {} ELSE {"continue_from_unsupervised", "regularization_penalty"})
           \cup (IF app = "slda" THEN {"fixed_point_iterations"} ELSE {})
           \cup (IF app = "fslda" THEN {"supervised_weight"} ELSE {})
           \cup (IF app # "lda" /\ cmd = "train" THEN {"m_step_iterations", "m_step_tolerance"} ELSE {})
           \cup (IF cmd = "online_train" THEN {"batch_size", "momentum", "learning_rate", "beta_weight"} ELSE {})
TransformOptions == {"quiet", "e_step_iterations", "e_step_tolerance", "workers"}
OptionsOf(app, cmd) == IF cmd = "transform" THEN TransformOptions ELSE TrainOptions(app, cmd)

(* documented defaults *)
Default(app, o) ==
    CASE o = "topics" -> "100"
      [] o = "iterations" -> "20"
      [] o = "e_step_iterations" -> (IF app = "lda" THEN "30" ELSE "10")
      [] o = "e_step_tolerance" -> (IF app = "lda" THEN "1e-3" ELSE "1e-4")
      [] o = "random_state" -> "0"
      [] o = "compute_likelihood" -> "0.0"
      [] o = "initialize" -> "seeded"
      [] o = "quiet" -> "no"
      [] o = "snapshot_every" -> "-1"
      [] o = "workers" -> "1"
      [] o = "continue" -> "-"
      [] o = "continue_from_unsupervised" -> "-"
      [] o = "regularization_penalty" -> "0.05"
      [] o = "fixed_point_iterations" -> "20"
      [] o = "supervised_weight" -> "1"
      [] o = "m_step_iterations" -> "200"
      [] o = "m_step_tolerance" -> "1e-4"
      [] o = "batch_size" -> "128"
      [] o = "momentum" -> "0.9"
      [] o = "learning_rate" -> "0.01"
      [] o = "beta_weight" -> "0.9"
Get(inv, o) == IF o \in DOMAIN inv.opts THEN inv.opts[o] ELSE Default(inv.app, o)

(* the model training starts from; a named model wins over an initialisation *)
InitOf(inv) ==
    LET cont == Get(inv, "continue")
        unsup == IF inv.app = "lda" THEN "-" ELSE Get(inv, "continue_from_unsupervised")
        sup == inv.app # "lda"
    IN IF cont # "-" THEN [topics |-> "model", from |-> cont, eta |-> (IF sup THEN "model" ELSE "zeros1")]
       ELSE IF unsup # "-" THEN [topics |-> "model", from |-> unsup, eta |-> "zeros"]
       ELSE [topics |-> Get(inv, "initialize"), from |-> "-", eta |-> (IF sup THEN "zeros" ELSE "zeros1")]

EStepOf(inv) ==
    CASE inv.cmd = "transform" \/ inv.app = "lda" ->
            [kind |-> "classic", it |-> Get(inv, "e_step_iterations"), tol |-> Get(inv, "e_step_tolerance"), x |-> "0"]
      [] inv.app = "slda" ->
            [kind |-> "sup", it |-> Get(inv, "e_step_iterations"), tol |-> Get(inv, "e_step_tolerance"), x |-> Get(inv, "fixed_point_iterations")]
      [] OTHER ->
            [kind |-> "fast", it |-> Get(inv, "e_step_iterations"), tol |-> Get(inv, "e_step_tolerance"), x |-> Get(inv, "supervised_weight")]
MStepOf(inv) ==
    CASE inv.app = "lda" \/ inv.cmd = "transform" -> [kind |-> "classic"]
      [] inv.cmd = "online_train" ->
            [kind |-> "online", L |-> Get(inv, "regularization_penalty"), batch |-> Get(inv, "batch_size"), momentum |-> Get(inv, "momentum"),
             rate |-> Get(inv, "learning_rate"), weight |-> Get(inv, "beta_weight")]
      [] OTHER ->
            [kind |-> (IF inv.app = "slda" THEN "sup" ELSE "fast"), it |-> Get(inv, "m_step_iterations"), tol |-> Get(inv, "m_step_tolerance"),
             L |-> Get(inv, "regularization_penalty")]
Config(inv) ==
    IF inv.cmd = "transform" THEN [workers |-> Get(inv, "workers"), e |-> EStepOf(inv), m |-> MStepOf(inv), quiet |-> Get(inv, "quiet") # "no"]
    ELSE [iterations |-> Get(inv, "iterations"), workers |-> Get(inv, "workers"), e |-> EStepOf(inv), m |-> MStepOf(inv),
          init |-> InitOf(inv), topics |-> Get(inv, "topics"), state |-> Get(inv, "random_state"), likelihood |-> Get(inv, "compute_likelihood"),
          quiet |-> Get(inv, "quiet") # "no", snapshots |-> Get(inv, "snapshot_every")]
=============================================================================
