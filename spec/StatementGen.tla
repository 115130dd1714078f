---------------------------- MODULE StatementGen ----------------------------
EXTENDS Statement, Json
VARIABLE op
Init == op = <<>>
Next == op = <<>> /\ op' \in Ops /\ PrintT(ToJson(<<op'>>))
=============================================================================
