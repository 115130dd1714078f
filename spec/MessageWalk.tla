----------------------------- MODULE MessageWalk -----------------------------
EXTENDS Message, Json
VARIABLE ops
Init == CInit /\ ops = <<>>
Next == Len(ops) < 40 /\ \E o \in Ops \cup Each : Enabled(o) /\ Do(o) /\ ops' = Append(ops, o) /\ (Len(ops') = 40 => PrintT(ToJson(ops')))
=============================================================================
