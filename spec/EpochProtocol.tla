---------------------------- MODULE EpochProtocol ----------------------------
(***************************************************************************)
(* What a user of an LDA object sees of training and transforming: the     *)
(* order in which documents go through the expectation and maximization    *)
(* steps and in which listeners are told about it.  One action per         *)
(* observable event.  Every action X is XOK (what the properties demand,   *)
(* each conjunct tagged with the property it belongs to) and XDo (how the  *)
(* state evolves), so the same actions serve                               *)
(*   - as the abstract system that WorkerPool.tla is checked to refine,    *)
(*   - as a monitor of executions recorded from the real code (PoolTrace). *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Focus,       \* the properties that are enforced
          Caller,      \* the thread that created the LDA and calls it
          NL           \* number of listeners

VARIABLES kind,        \* "none", "pass" or "transform": the running call
          n,           \* its number of documents
          lab,         \* 1 iff its documents carry labels
          passes,      \* passes the call still has to complete
          phase,       \* "idle", "docs", "estep", "mstep"
          begun,       \* documents whose E step has begun in this pass
          vp,          \* document -> variational parameters, for finished E steps
          handed,      \* documents given to the M step in this pass
          version,     \* number of batch M steps so far (stands for the model)
          emitted,     \* progress events published in this pass
          got,         \* listener -> events it received in this pass
          epochs,      \* listeners that received this pass's epoch event
          cols         \* transform: columns of the result already inspected

abs == <<kind, n, lab, passes, phase, begun, vp, handed, version, emitted, got, epochs, cols>>

G(p, cond) == p \notin Focus \/ cond
Listeners == 1..NL
Label(d) == IF lab = 1 THEN (d * 5 + 1) % 4 ELSE -1
Docs == 1..n
NoneGot == [l \in Listeners |-> {}]

AInit == /\ kind = "none" /\ n = 0 /\ lab = 0 /\ passes = 0 /\ phase = "idle"
         /\ begun = {} /\ vp = <<>> /\ handed = {} /\ version = 0
         /\ emitted = {} /\ got = NoneGot /\ epochs = {} /\ cols = {}

-----------------------------------------------------------------------------
(* A call of fit, partial_fit (kind "pass") or transform *)
StartOK == G("C02", kind = "none")
StartDo(k, docs, ps, l) ==
    /\ kind' = k /\ n' = docs /\ passes' = ps /\ lab' = l
    /\ phase' = IF k = "pass" /\ ps = 0 THEN "idle" ELSE "docs"
    /\ begun' = {} /\ vp' = <<>> /\ handed' = {} /\ emitted' = {}
    /\ got' = NoneGot /\ epochs' = {} /\ cols' = {}
    /\ UNCHANGED version
Start(k, docs, ps, l) == StartOK /\ StartDo(k, docs, ps, l)

(* A worker starts the expectation step of document d under model ver *)
EBeginOK(d, ver, y) ==
    /\ G("C01", kind = "pass" => d \in Docs /\ d \notin begun /\ y = Label(d))
    /\ G("C02", phase = "docs" /\ ver = version)
    /\ G("C03", kind = "transform" => d \in Docs /\ ver = version)
EBeginDo(d) == /\ begun' = begun \cup {d}
               /\ UNCHANGED <<kind, n, lab, passes, phase, vp, handed, version, emitted, got, epochs, cols>>
EBegin(d, ver, y) == EBeginOK(d, ver, y) /\ EBeginDo(d)

(* The expectation step publishes its progress event *)
EEmitDo(d) == /\ emitted' = emitted \cup {<<"E", d>>}
              /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, handed, version, got, epochs, cols>>
EEmit(d) == EEmitDo(d)

(* The expectation step of d ends with the variational parameters id *)
EEndOK(d, id, ver) ==
    /\ G("C01", kind = "pass" => d \in begun /\ d \notin DOMAIN vp)
    /\ G("C02", phase = "docs" /\ ver = version)
EEndDo(d, id) == /\ vp' = (d :> id) @@ vp
                 /\ UNCHANGED <<kind, n, lab, passes, phase, begun, handed, version, emitted, got, epochs, cols>>
EEnd(d, id, ver) == EEndOK(d, id, ver) /\ EEndDo(d, id)

(* Document d and parameters id are handed to the maximization step *)
MDocOK(t, d, id, y) ==
    /\ G("C01", /\ d \in Docs /\ d \notin handed /\ d \in DOMAIN vp
                /\ vp[d] = id /\ y = Label(d))
    /\ G("C02", kind = "pass" /\ phase = "docs" /\ t = Caller /\ d \in DOMAIN vp)
    /\ G("C03", kind # "transform")
    /\ G("C04", \A l \in Listeners : <<"E", d>> \in got[l])
MDocDo(d) == /\ handed' = handed \cup {d}
             /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, version, emitted, got, epochs, cols>>
MDoc(t, d, id, y) == MDocOK(t, d, id, y) /\ MDocDo(d)

(* The maximization step publishes an event *)
MEmitDo(id) == /\ emitted' = emitted \cup {<<"M", id>>}
               /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, handed, version, got, epochs, cols>>
MEmit(id) == MEmitDo(id)

(* The corpus-wide part of the expectation step *)
CorpusEOK == /\ G("C01", handed = Docs)
             /\ G("C02", kind = "pass" /\ phase = "docs" /\ handed = Docs)
             /\ G("C03", kind # "transform")
CorpusEDo == /\ phase' = "estep"
             /\ UNCHANGED <<kind, n, lab, passes, begun, vp, handed, version, emitted, got, epochs, cols>>
CorpusE == CorpusEOK /\ CorpusEDo

(* The batch part of the maximization step *)
BatchMOK == /\ G("C01", handed = Docs)
            /\ G("C02", phase = "estep")
            /\ G("C03", kind # "transform")
BatchMDo == /\ phase' = "mstep" /\ version' = version + 1
            /\ UNCHANGED <<kind, n, lab, passes, begun, vp, handed, emitted, got, epochs, cols>>
BatchM == BatchMOK /\ BatchMDo

(* Listener l is told about an expectation or maximization event *)
DeliverOK(t, l, e) ==
    G("C04", /\ t = Caller /\ kind # "none"
             /\ e \in emitted /\ e \notin got[l] /\ l \notin epochs)
DeliverDo(l, e) == /\ got' = [got EXCEPT ![l] = @ \cup {e}]
                   /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, handed, version, emitted, epochs, cols>>
Deliver(t, l, e) == DeliverOK(t, l, e) /\ DeliverDo(l, e)

(* Listener l is told that the epoch is over and sees model ver *)
EpochOK(t, l, ver) ==
    /\ G("C01", handed = Docs)
    /\ G("C02", phase = "mstep" /\ ver = version /\ l \notin epochs)
    /\ G("C03", kind # "transform")
    /\ G("C04", t = Caller /\ kind = "pass" /\ l \notin epochs /\ got[l] = emitted)
EpochDo(l) ==
    IF epochs \cup {l} = Listeners
      THEN /\ passes' = passes - 1
           /\ phase' = IF passes > 1 THEN "docs" ELSE "idle"
           /\ begun' = {} /\ vp' = <<>> /\ handed' = {} /\ emitted' = {}
           /\ got' = NoneGot /\ epochs' = {}
           /\ UNCHANGED <<kind, n, lab, version, cols>>
      ELSE /\ epochs' = epochs \cup {l}
           /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, handed, version, emitted, got, cols>>
Epoch(t, l, ver) == EpochOK(t, l, ver) /\ EpochDo(l)

(* The result of a transform: its shape and whether the model is unchanged *)
ShapeOK(columns, same) == G("C03", kind = "transform" /\ columns = n /\ same = 1)
Shape(columns, same) == ShapeOK(columns, same) /\ UNCHANGED abs

(* Column i of the result is the mixture computed for document d as id *)
ColOK(i, d, id) == G("C03", d = i /\ d \in DOMAIN vp /\ vp[d] = id)
ColDo(i) == /\ cols' = cols \cup {i}
            /\ UNCHANGED <<kind, n, lab, passes, phase, begun, vp, handed, version, emitted, got, epochs>>
Col(i, d, id) == ColOK(i, d, id) /\ ColDo(i)

(* The call returns *)
ReturnOK ==
    /\ G("C01", kind = "pass" => begun = {} /\ handed = {})
    /\ G("C02", kind = "pass" => passes = 0 /\ phase = "idle")
    /\ G("C03", kind = "transform" => cols = Docs)
    /\ G("C04", /\ kind = "pass" => passes = 0
                /\ epochs = {}
                /\ \A l \in Listeners : got[l] = emitted
                /\ kind = "transform" => emitted = {<<"E", d>> : d \in Docs})
ReturnDo == /\ kind' = "none" /\ n' = 0 /\ passes' = 0 /\ phase' = "idle"
            /\ begun' = {} /\ vp' = <<>> /\ handed' = {} /\ emitted' = {}
            /\ got' = NoneGot /\ epochs' = {} /\ cols' = {}
            /\ UNCHANGED <<version, lab>>
Return == ReturnOK /\ ReturnDo

(* A call that can never return: no thread can make a step *)
StuckOK == /\ G("C01", kind # "pass" \/ handed = Docs)
           /\ G("C02", FALSE)
           /\ G("C03", kind # "transform")
Stuck == StuckOK /\ UNCHANGED abs

-----------------------------------------------------------------------------
(* The abstract system, for bounded exploration and as refinement target *)
CONSTANTS Threads, MaxDocs, MaxPasses, Ids, MaxCalls

Step ==
    \/ \E k \in {"pass", "transform"}, m \in 0..MaxDocs, ps \in 0..MaxPasses, l \in {0, 1} :
          kind = "none" /\ Start(k, m, ps, l)
    \/ \E d \in 1..MaxDocs : EBegin(d, version, Label(d))
    \/ \E d \in 1..MaxDocs : d \in begun /\ d \notin DOMAIN vp /\ <<"E", d>> \notin emitted /\ EEmit(d)
    \/ \E d \in 1..MaxDocs, id \in Ids : <<"E", d>> \in emitted /\ EEnd(d, id, version)
    \/ \E d \in 1..MaxDocs, id \in Ids, t \in Threads : MDoc(t, d, id, Label(d))
    \/ \E id \in Ids : kind = "pass" /\ phase = "docs" /\ <<"M", id>> \notin emitted /\ MEmit(id)
    \/ \E id \in Ids : phase = "mstep" /\ epochs = {} /\ <<"M", id>> \notin emitted /\ MEmit(id)
    \/ CorpusE
    \/ BatchM
    \/ \E t \in Threads, l \in Listeners, e \in emitted : Deliver(t, l, e)
    \/ \E t \in Threads, l \in Listeners : Epoch(t, l, version)
    \/ \E i \in 1..MaxDocs, id \in Ids : kind = "transform" /\ i \in Docs /\ Col(i, i, id)
    \/ Return

AbsSpec == AInit /\ [][Step]_abs

VersionBound == version <= MaxCalls

(* What the protocol guarantees *)
TypeOK == /\ kind \in {"none", "pass", "transform"} /\ phase \in {"idle", "docs", "estep", "mstep"}
          /\ begun \subseteq Docs /\ DOMAIN vp \subseteq begun /\ handed \subseteq DOMAIN vp
AllBeforeBatch == phase \in {"estep", "mstep"} => begun = Docs /\ DOMAIN vp = Docs /\ handed = Docs
EventsBeforeM  == \A d \in handed : \A l \in Listeners : <<"E", d>> \in got[l]
OnlyEmitted    == \A l \in Listeners : got[l] \subseteq emitted
EpochIsLast    == \A l \in epochs : got[l] = emitted
QuietWhenIdle  == kind = "none" => emitted = {} /\ handed = {} /\ begun = {}
TransformPure  == [][kind = "transform" => version' = version /\ handed' = {}]_abs
ModelOnlyByBatch == [][version' # version => handed = Docs /\ DOMAIN vp = Docs /\ version' = version + 1]_abs
=============================================================================
