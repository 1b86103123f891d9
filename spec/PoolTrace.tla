------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Executions recorded from the real LDA object, checked against           *)
(* EpochProtocol: one line of the file named by $TRACE per execution, one  *)
(* array per observed event <<name, thread, a, b, c, d>>.                  *)
(***************************************************************************)
EXTENDS EpochProtocol, Json, IOUtils

VARIABLES tr, pos, status

Traces == ndJsonDeserialize(IOEnv.TRACE)
Events == Traces[tr].ev

TraceInit == AInit /\ tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok"

Ev == Events[pos]
Is(name) == Ev[1] = name

(* documents of another call, or results of another document, are not in Docs *)
Doc(c, d) == d
CallNo == Cardinality({p \in 1..(pos - 1) : Events[p][1] = "Op"})

Consume ==
    \/ Is("Setup")   /\ UNCHANGED abs
    \/ Is("Op")      /\ Start(IF Ev[3] = 1 THEN "pass" ELSE "transform", Ev[4], Ev[5], Ev[6])
    \/ Is("EBegin")  /\ EBegin(IF Ev[3] = CallNo THEN Ev[4] ELSE -1, Ev[5], Ev[6])
    \/ Is("EEmit")   /\ EEmit(Ev[4])
    \/ Is("EEnd")    /\ EEnd(Ev[4], Ev[5], Ev[6])
    \/ Is("MDoc")    /\ MDoc(Ev[2], IF Ev[3] = CallNo THEN Ev[4] ELSE -1, Ev[5], Ev[6])
    \/ Is("MEmit")   /\ MEmit(Ev[3])
    \/ Is("CorpusE") /\ CorpusE
    \/ Is("BatchM")  /\ BatchM
    \/ Is("Deliver") /\ Ev[4] = 1 /\ Deliver(Ev[2], Ev[3], <<"E", IF Ev[5] = CallNo THEN Ev[6] ELSE -1>>)
    \/ Is("Deliver") /\ Ev[4] = 2 /\ Deliver(Ev[2], Ev[3], <<"M", Ev[5]>>)
    \/ Is("Deliver") /\ Ev[4] = 3 /\ Epoch(Ev[2], Ev[3], Ev[5])
    \/ Is("Deliver") /\ Ev[4] = 9 /\ G("C04", FALSE) /\ UNCHANGED abs
    \/ Is("Shape")   /\ Shape(Ev[4], Ev[5])
    \/ Is("Col")     /\ Col(Ev[3], Ev[4], Ev[5])
    \/ Is("Return")  /\ Return
    \/ Is("Stuck")   /\ Stuck

TraceNext ==
    /\ status = "ok" /\ pos <= Len(Events)
    /\ \/ Consume /\ pos' = pos + 1 /\ UNCHANGED <<tr, status>>
       \/ ~ENABLED Consume /\ status' = "rejected" /\ UNCHANGED <<abs, tr, pos>>

TraceSpec == TraceInit /\ [][TraceNext]_<<abs, tr, pos, status>>

(* violated by the first observed event the specification does not allow *)
Accepted == status # "rejected"
TInv == /\ ("C01" \in Focus /\ "C02" \in Focus /\ "C03" \in Focus => TypeOK)
        /\ ("C02" \in Focus => (phase \in {"estep", "mstep"} => handed = Docs))
=============================================================================
