------------------------------ MODULE MacrosGen ------------------------------
(* Prints, for every level setting, a sequence that reaches it and then one with every statement there. *)
EXTENDS Macros, Json
VARIABLE ops
Init == MInit /\ ops = <<>>
Next == \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
View == on
TypeOK == Dynamic => ~on[700]
=============================================================================
