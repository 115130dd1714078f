------------------------------ MODULE LevelsWalk ------------------------------
(* Random long sequences (TLC -simulate). *)
EXTENDS Levels, Json
VARIABLE ops
Init == LInit /\ ops = <<>>
Next == Len(ops) < 30 /\ \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ (Len(ops') = 30 => PrintT(ToJson(ops')))
=============================================================================
