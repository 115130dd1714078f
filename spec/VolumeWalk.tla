------------------------------ MODULE VolumeWalk ------------------------------
EXTENDS Volume, Json
VARIABLE ops
Init == VInit /\ ops = <<>>
\* walks that begin with a sink and end with "end"
Next == \E o \in Ops : /\ n = 0 => o[1] = "add"
                       /\ (n = MaxOps - 1) <=> (o[1] = "end")
                       /\ o[1] \in {"remove", "removing"} => Cardinality(DOMAIN since) > 1
                       /\ Do(o) /\ ops' = Append(ops, o) /\ (over' => PrintT(ToJson(ops')))
=============================================================================
