----------------------------- MODULE MessageGen -----------------------------
EXTENDS Message, Json
VARIABLE ops
Init == CInit /\ ops = <<>>
Next == \E o \in Ops : Enabled(o) /\ Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
View == slot
Bound == \A s \in Slots : Is(s) => Len(slot[s].txt) <= Len("100% %s \\") + 1 /\ \E k \in 1..Len(Proto) : StartsWith(slot[s].txt, Proto[k].txt) /\ slot[s].path = Proto[k].path /\ Len(slot[s].txt) <= Len(Proto[k].txt) + 1
TypeOK == \A s \in Slots : slot[s].live \in 0..2
=============================================================================
