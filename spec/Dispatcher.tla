------------------------------ MODULE Dispatcher ------------------------------
(***************************************************************************)
(* The three event dispatchers, as a user sees them.                       *)
(*   plain : delivers when dispatched                                      *)
(*   safe  : dispatch queues, process delivers                             *)
(*   same  : as safe, but what the owning thread dispatches is processed   *)
(*           at once (together with anything still queued)                 *)
(* State: [ls : registered listeners in order, q : queued events].         *)
(* "flood" is a dispatch of the op.n events x, x+1, ... one after another.  *)
(* An operation is [op, x, own]; Out gives the deliveries <<listener,event>>*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Start == [ls |-> <<>>, q |-> <<>>]
Has(s, l) == \E i \in 1..Len(s.ls) : s.ls[i] = l
Without(seq, l) == SelectSeq(seq, LAMBDA m : m # l)
Flushes(kind, op) == \/ op.op = "process" /\ kind # "plain"
                     \/ op.op \in {"dispatch", "flood"} /\ (kind = "plain" \/ (kind = "same" /\ op.own = 1))
After(kind, s, op) ==
    CASE op.op = "add"      -> IF Has(s, op.x) THEN s ELSE [s EXCEPT !.ls = Append(@, op.x)]
      [] op.op = "remove"   -> [s EXCEPT !.ls = Without(@, op.x)]
      [] op.op = "dispatch" -> IF Flushes(kind, op) THEN [s EXCEPT !.q = <<>>] ELSE [s EXCEPT !.q = Append(@, op.x)]
      [] op.op = "flood"    -> IF Flushes(kind, op) THEN [s EXCEPT !.q = <<>>] ELSE [s EXCEPT !.q = @ \o [i \in 1..op.n |-> op.x + i - 1]]
      [] op.op = "process"  -> [s EXCEPT !.q = <<>>]
Events(kind, s, op) == IF op.op = "dispatch" THEN Append(s.q, op.x)
                       ELSE IF op.op = "flood" THEN s.q \o [i \in 1..op.n |-> op.x + i - 1] ELSE s.q
Pairs(es, ls) == [k \in 1..Len(es) * Len(ls) |-> <<ls[((k - 1) % Len(ls)) + 1], es[((k - 1) \div Len(ls)) + 1]>>]
Out(kind, s, op) == IF ~Flushes(kind, op) \/ s.ls = <<>> THEN <<>> ELSE LET es == TLCEval(Events(kind, s, op)) IN Pairs(es, s.ls)
=============================================================================
