----------------------------- MODULE CaptureGen -----------------------------
EXTENDS Capture, Json
VARIABLE ops
Init == KInit /\ ops = <<>>
Next == \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
View == limit
=============================================================================
