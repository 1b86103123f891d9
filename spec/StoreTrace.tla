------------------------------ MODULE StoreTrace ------------------------------
(***************************************************************************)
(* What real training runs did to the files of a directory, against Store. *)
(* A line of $TRACE: ref, the models the library has after 0, 1, 2, ...    *)
(* iterations without interruption, and runs, each                         *)
(*   from (<<0, 0>>: from nothing), its, every, out                        *)
(*   heard  1 if the run announced its iterations                          *)
(*   ev     [op, o, k] in order: iter, open, close, killed, end, failed    *)
(*   dir    what the directory holds afterwards: [o, k, is, m]             *)
(***************************************************************************)
EXTENDS Store, Real64, Json, IOUtils, TLC
VARIABLES tr, r, pos, status, why
vars == <<disk, run, tr, r, pos, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
R == T.runs[r]
E == R.ev[pos]
Tol == RDec(1, -9)
Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RNear(a, b, Tol, Tol) \/ a = b
VSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
MSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VSame(a[i], b[i])
Holds(m, n) == n + 1 <= Len(T.ref) /\ LET x == T.ref[n + 1] IN m.alpha = x.alpha /\ MSame(m.beta, x.beta) /\ MSame(m.eta, x.eta)
There(f) == {i \in 1..Len(R.dir) : R.dir[i].o = f[1] /\ R.dir[i].k = f[2]}
FileOk(f, d) ==
    CASE d.is = "none" -> There(f) = {}
      [] d.is = "whole" -> \E i \in There(f) : R.dir[i].is = "whole" /\ Holds(R.dir[i].m, d.n)
      [] OTHER -> TRUE
DirOk == \A f \in Files : FileOk(f, disk[f])
Quiet == R.heard = 0
----
Init == /\ StoreInit /\ tr \in 1..Len(Traces) /\ r = 1 /\ pos = 0 /\ status = "ok" /\ why = "-"
Fail(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<disk, run, tr, r, pos>>
Go == pos' = pos + 1 /\ UNCHANGED <<tr, r, status, why>>
StartRun ==
    IF R.from = <<0, 0>> THEN Start(0, R.its, R.every, R.out) /\ Go
    ELSE IF R.from \in Files /\ disk[R.from].is = "whole" THEN Start(disk[R.from].n, R.its, R.every, R.out) /\ Go
    ELSE Fail("continues from a file that is not whole")
(* events of files *)
IsSnap == E.k > 0
Mine == E.o = run.out
Open ==
    IF ~Mine THEN Fail("writes another run's file")
    ELSE IF IsSnap
         THEN IF run.st = "snap" /\ E.k = run.epoch THEN UNCHANGED <<disk, run>> /\ Go
              ELSE IF E.k = run.epoch /\ ENABLED OpenSnap THEN OpenSnap /\ Go
              ELSE IF Quiet /\ ENABLED Begin THEN Begin /\ UNCHANGED <<tr, r, pos, status, why>>
              ELSE Fail("writes a snapshot it should not write now")
         ELSE IF run.st = "final" THEN UNCHANGED <<disk, run>> /\ Go
              ELSE IF ENABLED OpenModel THEN OpenModel /\ Go
              ELSE IF Quiet /\ ENABLED Begin THEN Begin /\ UNCHANGED <<tr, r, pos, status, why>>
              ELSE Fail("writes the model before training is over")
Close ==
    IF IsSnap THEN (IF run.st = "snap" /\ E.k = run.epoch THEN CloseSnap /\ Go ELSE UNCHANGED <<disk, run>> /\ Go)
    ELSE (IF run.st = "final" THEN CloseModel /\ Go ELSE UNCHANGED <<disk, run>> /\ Go)
Iter == IF ENABLED Begin /\ E.k = run.epoch + 1 THEN Begin /\ Go
        ELSE Fail(IF E.k = run.epoch + 1 /\ run.epoch < run.its THEN "goes on without the snapshot" ELSE "announces another iteration")
NextRun == /\ IF r < Len(T.runs) THEN r' = r + 1 /\ pos' = 0 /\ status' = status
              ELSE status' = "done" /\ UNCHANGED <<r, pos>>
           /\ UNCHANGED <<tr, why>>
Finish ==
    CASE E.op = "failed" -> Fail("the application failed")
      [] E.op = "end" /\ run.st # "done" -> Fail("ended without writing the model")
      [] ~DirOk -> Fail("a file does not hold what it should")
      [] E.op = "end" -> UNCHANGED <<disk, run>> /\ NextRun
      [] run.st = "done" -> UNCHANGED <<disk, run>> /\ NextRun
      [] OTHER -> Crash /\ NextRun
Next == /\ status = "ok"
        /\ IF pos = 0 THEN StartRun
           ELSE CASE E.op = "iter" -> Iter
                  [] E.op = "open" -> Open
                  [] E.op = "close" -> Close
                  [] OTHER -> Finish
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
(* the specification's own invariants along what really happened *)
Along == status = "ok" => SnapshotsIntact /\ LittleLost
=============================================================================
