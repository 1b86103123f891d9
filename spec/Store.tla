-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* What training runs of the console applications do to the files of a     *)
(* directory, run after run, with crashes in between.                      *)
(*                                                                         *)
(* A run starts from nothing or from a model file, trains `its` iterations *)
(* one after another, writes a snapshot after every `every`-th (0: never), *)
(* and writes its model file after the last.  Training is a function of    *)
(* the model it starts from, so a model is identified by the number of     *)
(* iterations behind it: a run that continues from a file holding n ends   *)
(* its k-th iteration with n + k.                                          *)
(*                                                                         *)
(* File <<o, 0>> is the model file of output name o, <<o, k>> its snapshot *)
(* of iteration k.  A file being written is torn until it is closed.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Outs, MaxIts, Everys
VARIABLES disk,   \* file -> [is, n]: is in {"none", "torn", "whole"}
          run     \* the current run
Files == Outs \X (0..MaxIts)
None == [is |-> "none", n |-> 0]
Torn == [is |-> "torn", n |-> 0]
Whole(n) == [is |-> "whole", n |-> n]
Idle == [st |-> "idle", base |-> 0, its |-> 0, every |-> 0, out |-> CHOOSE o \in Outs : TRUE, epoch |-> 0, snapped |-> 0]
StoreInit == disk = [f \in Files |-> None] /\ run = Idle
(* iteration k of a run is due a snapshot *)
Due(r, k) == r.every > 0 /\ k > 0 /\ k % r.every = 0
(* everything iteration `epoch` asks for is done *)
Settled(r) == r.st = "training" /\ (Due(r, r.epoch) => r.snapped = r.epoch)
(* start from nothing: from = 0; or from a whole file *)
Start(base, its, every, out) ==
    /\ run.st \in {"idle", "done", "crashed"}
    /\ run' = [st |-> "training", base |-> base, its |-> its, every |-> every, out |-> out, epoch |-> 0, snapped |-> 0]
    /\ UNCHANGED disk
Begin ==    \* the next iteration
    /\ Settled(run) /\ run.epoch < run.its
    /\ run' = [run EXCEPT !.epoch = @ + 1]
    /\ UNCHANGED disk
Snap == <<run.out, run.epoch>>
OpenSnap == /\ run.st = "training" /\ Due(run, run.epoch)
            /\ run' = [run EXCEPT !.st = "snap"]
            /\ disk' = [disk EXCEPT ![Snap] = Torn]
CloseSnap == /\ run.st = "snap"
             /\ run' = [run EXCEPT !.st = "training", !.snapped = run.epoch]
             /\ disk' = [disk EXCEPT ![Snap] = Whole(run.base + run.epoch)]
OpenModel == /\ (Settled(run) /\ run.epoch = run.its) \/ run.st = "done"
             /\ run' = [run EXCEPT !.st = "final"]
             /\ disk' = [disk EXCEPT ![<<run.out, 0>>] = Torn]
CloseModel == /\ run.st = "final"
              /\ run' = [run EXCEPT !.st = "done"]
              /\ disk' = [disk EXCEPT ![<<run.out, 0>>] = Whole(run.base + run.its)]
Running(r) == r.st \in {"training", "snap", "final"}
Crash == Running(run) /\ run' = [run EXCEPT !.st = "crashed"] /\ UNCHANGED disk
Work == Begin \/ OpenSnap \/ CloseSnap \/ OpenModel \/ CloseModel
StoreNext == \/ Work \/ Crash
             \/ \E its \in 0..MaxIts, every \in Everys, o \in Outs : Start(0, its, every, o)
             \/ \E f \in Files, its \in 0..MaxIts, every \in Everys, o \in Outs : disk[f].is = "whole" /\ Start(disk[f].n, its, every, o)
----
(* after the iteration following it has begun, and whatever happens then, a snapshot is whole and holds its iteration *)
SnapshotsIntact == run.st # "idle" => \A k \in 1..MaxIts : Due(run, k) /\ k < run.epoch => disk[<<run.out, k>>] = Whole(run.base + k)
(* a crash costs no more than what was trained since the last multiple of `every` *)
LittleLost == run.st = "crashed" /\ run.every > 0 /\ run.epoch > run.every =>
              \E k \in 1..run.epoch : run.epoch - 1 - k < run.every /\ disk[<<run.out, k>>] = Whole(run.base + k)
FinalModel == run.st = "done" => disk[<<run.out, 0>>] = Whole(run.base + run.its)
(* steps touch only what they may *)
OnlyOwn == [][\A f \in Files : disk'[f] # disk[f] => /\ f[1] = run.out
                                                     /\ f[2] # 0 => Due(run, f[2]) /\ f[2] = run.epoch
                                                     /\ f[2] = 0 => run.epoch = run.its]_<<disk, run>>
=============================================================================
