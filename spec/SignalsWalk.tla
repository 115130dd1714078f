----------------------------- MODULE SignalsWalk -----------------------------
EXTENDS Signals, Json
CONSTANT Depth
VARIABLE ops
Init == SInit /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \E o \in IF Len(ops) = Depth - 1 THEN {o \in Ops : o[1] \in {"raise", "fatal"}} ELSE {o \in Ops : o[1] \notin {"raise", "fatal"}} :
             Do(o) /\ ops' = Append(ops, o) /\ (Len(ops') = Depth => PrintT(ToJson(ops')))
=============================================================================
