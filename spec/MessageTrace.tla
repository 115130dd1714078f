----------------------------- MODULE MessageTrace -----------------------------
EXTENDS Message, Json, IOUtils
VARIABLES tr, i
Traces == JsonDeserialize(IOEnv.TRACEFILE)
Init == CInit /\ tr \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Traces[tr])
        /\ Do(Traces[tr][i][1])
        /\ ObsOK(Traces[tr][i][1], Traces[tr][i][2], slot, slot')
        /\ i' = i + 1 /\ tr' = tr
        /\ i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
=============================================================================
