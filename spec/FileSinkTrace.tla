---------------------------- MODULE FileSinkTrace ----------------------------
EXTENDS FileSink, Json, IOUtils
VARIABLES tr, i
Traces == JsonDeserialize(IOEnv.TRACEFILE)
Init == FInit /\ tr \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[tr])
        /\ Do(Traces[tr][i][1])
        /\ Ok(Traces[tr][i][2], Traces[tr][i][1])
        /\ i' = i + 1 /\ tr' = tr
        /\ i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
=============================================================================
