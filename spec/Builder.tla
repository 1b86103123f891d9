------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The LDA builder as a state machine.  State:                             *)
(*   it, wk    iterations and workers (wk = 0: one per processor)          *)
(*   e, m      the selected steps [kind, p (which arguments), via]; via is *)
(*             "set" for set_<kind>_step and "get" for set_e / set_m with  *)
(*             a step made elsewhere, about which the builder knows nothing*)
(*   topics    [K, id]: number of topics (0: none), id names the call that *)
(*             provided them                                               *)
(*   eta       [K, C, how, id]: class parameters (K = 0: none)             *)
(* An operation is a record with op in                                     *)
(*   "it" n, "wk" n, "E"/"M" kind p via, "T" K id, "H" how C K id, "build" *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoTopics == [K |-> 0, id |-> 0]
NoEta    == [K |-> 0, C |-> 0, how |-> "none", id |-> 0]
Start == [it |-> 20, wk |-> 0,
          e |-> [kind |-> "classic", p |-> 0, via |-> "set"],
          m |-> [kind |-> "classic", p |-> 0, via |-> "set"],
          topics |-> NoTopics, eta |-> NoEta]

NeedsClasses(step) == step.via = "set" /\ step.kind # "classic"
Refused(s, op) ==
    \/ op.op = "H" /\ op.how \in {"zero", "unif"} /\ s.topics.K = 0
    \/ op.op = "build" /\ \/ s.topics.K = 0
                          \/ s.eta.K = 0 /\ (NeedsClasses(s.e) \/ NeedsClasses(s.m))
After(s, op) ==
    IF Refused(s, op) THEN s
    ELSE CASE op.op = "it" -> [s EXCEPT !.it = op.n]
           [] op.op = "wk" -> [s EXCEPT !.wk = op.n]
           [] op.op = "E"  -> [s EXCEPT !.e = [kind |-> op.kind, p |-> op.p, via |-> op.via]]
           [] op.op = "M"  -> [s EXCEPT !.m = [kind |-> op.kind, p |-> op.p, via |-> op.via]]
           [] op.op = "T"  -> [s EXCEPT !.topics = [K |-> op.K, id |-> op.id]]
           [] op.op = "H"  -> [s EXCEPT !.eta = IF op.how = "copy" THEN [K |-> op.K, C |-> op.C, how |-> "copy", id |-> op.id]
                                                ELSE [K |-> s.topics.K, C |-> op.C, how |-> op.how, id |-> op.id]]
           [] OTHER        -> s
=============================================================================
