----------------------------- MODULE FileSinkWalk -----------------------------
EXTENDS FileSink, Json
CONSTANT Depth
VARIABLE ops
Init == FInit /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \E o \in IF Len(ops) = Depth - 1 THEN {<<"destroy", 0, "", "">>} ELSE Ops \ {<<"destroy", 0, "", "">>} :
             Do(o) /\ (live' => Len(buf') = cnt' % n') /\ ops' = Append(ops, o) /\ (Len(ops') = Depth => PrintT(ToJson(ops')))
=============================================================================
