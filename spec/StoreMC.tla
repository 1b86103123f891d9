------------------------------- MODULE StoreMC -------------------------------
(***************************************************************************)
(* All histories of a few runs; emits them (as runs with the point they    *)
(* crash at and the models each file must hold afterwards) for replay.     *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxRuns, MaxTotal, Emit
VARIABLES hist
vars == <<disk, run, hist>>
Init == StoreInit /\ hist = <<>>
(* where the current run stands, as the point to end the process at *)
Point == CASE run.st = "snap" -> [at |-> "write", k |-> run.epoch]
           [] run.st = "final" -> [at |-> "write", k |-> 0]
           [] run.st = "training" /\ Due(run, run.epoch) /\ run.snapped # run.epoch -> [at |-> "open", k |-> run.epoch]
           [] run.st = "training" /\ run.epoch < run.its -> [at |-> "iter", k |-> run.epoch + 1]
           [] OTHER -> [at |-> "open", k |-> 0]
LeftSeq == LET S == {g \in Files : disk[g].is # "none"}
               RECURSIVE Q(_)
               Q(s) == IF s = {} THEN <<>> ELSE LET g == CHOOSE g \in s : TRUE IN <<[o |-> g[1], k |-> g[2], is |-> disk[g].is, n |-> disk[g].n]>> \o Q(s \ {g})
           IN Q(S)
Opened(base, from, its, every, o) == hist' = Append(hist, [from |-> from, its |-> its, every |-> every, out |-> o, end |-> "-", at |-> "-", k |-> 0])
Ended(e, at, k) == hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.end = e, !.at = at, !.k = k]]
Next ==
    \/ /\ run.st \in {"training", "snap", "final"} /\ Begin /\ UNCHANGED hist
    \/ run.st # "done" /\ (OpenSnap \/ CloseSnap \/ OpenModel) /\ (Due(run, run.epoch) /\ run.snapped = run.epoch => run'.st # "snap") /\ UNCHANGED hist
    \/ CloseModel /\ Ended("done", "-", 0)
    \/ Crash /\ Ended("crash", Point.at, Point.k)
    \/ /\ Len(hist) < MaxRuns
       /\ \/ \E its \in 0..MaxIts, every \in Everys, o \in Outs :
                Start(0, its, every, o) /\ Opened(0, <<0, 0>>, its, every, o)
          \/ \E f \in Files, its \in 0..MaxIts, every \in Everys, o \in Outs :
                disk[f].is = "whole" /\ disk[f].n + its <= MaxTotal /\ Start(disk[f].n, its, every, o) /\ Opened(disk[f].n, f, its, every, o)
Spec == Init /\ [][Next]_vars
Dump == (Emit /\ run.st \in {"done", "crashed"} /\ (Len(hist) = MaxRuns \/ \A f \in Files : disk[f].is # "whole"))
            => PrintT(<<"HIST", ToJson([runs |-> hist, left |-> LeftSeq])>>)
=============================================================================
