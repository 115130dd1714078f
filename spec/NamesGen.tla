------------------------------ MODULE NamesGen ------------------------------
EXTENDS Names, Json
VARIABLE op
Init == op = <<>>
Next == op = <<>> /\ op' \in Ops /\ PrintT(ToJson(<<op'>>))
=============================================================================
