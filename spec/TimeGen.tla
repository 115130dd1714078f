------------------------------ MODULE TimeGen ------------------------------
EXTENDS Time, Json
VARIABLE op
Init == op = <<>>
Next == op = <<>> /\ op' \in Ops /\ PrintT(ToJson(<<op'>>))
=============================================================================
