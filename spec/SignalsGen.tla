----------------------------- MODULE SignalsGen -----------------------------
EXTENDS Signals, Json
CONSTANT Small
VARIABLE ops
Init == SInit /\ ops = <<>>
Next == \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
View == vars
\* the application's handlers vary less
Few == Small => /\ app["TERM"] \in {"default", "handler"} /\ app["ABRT"] \in {"default"} /\ app["USR1"] \in {"default", "siginfo"} /\ app["SEGV"] \in {"default", "ignore", "siginfo"}
Sound == taken \subseteq chosen
=============================================================================
