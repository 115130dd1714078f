-------------------------------- MODULE Signals --------------------------------
(* Which signals the crash handler has taken over, and what the application had set before.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  app,       \* signal -> the application's disposition
  taken,     \* signals that go to the crash handler
  chosen,    \* the set the crash handler is to handle
  inited,    \* logging has been initialized (at least once)
  over       \* the process has ended
vars == <<app, taken, chosen, inited, over>>

Sigs == {"ABRT", "FPE", "ILL", "SEGV", "TERM", "USR1"}
Default == Sigs \ {"USR1"}
Sets == {Default, {"SEGV"}, {"SEGV", "TERM", "USR1"}, {"USR1"}, {}, {"ABRT", "ILL", "USR1"}}
Dispositions == {"default", "ignore", "handler", "siginfo"}
Vary == {"SEGV", "TERM", "USR1", "ABRT"}

SInit == app = [s \in Sigs |-> "default"] /\ taken = {} /\ chosen = Default /\ inited = FALSE /\ over = FALSE

\* a signal set as a string, for the driver
RECURSIVE Str(_)
Str(q) == IF q = {} THEN "" ELSE LET s == CHOOSE s \in q : TRUE IN s \o " " \o Str(q \ {s})

Do(o) ==
  LET k == o[1] s == o[2] IN
  /\ ~over
  /\ CASE k = "app" -> s \notin taken /\ app' = [app EXCEPT ![s] = o[3]] /\ UNCHANGED <<taken, chosen, inited, over>>
       [] k = "init" -> /\ taken' = IF inited THEN taken ELSE taken \cup chosen
                        /\ inited' = TRUE /\ UNCHANGED <<app, chosen, over>>
       [] k = "install" -> taken' = taken \cup chosen /\ UNCHANGED <<app, chosen, inited, over>>
       [] k = "override" -> /\ chosen' \in Sets /\ Str(chosen') = s /\ taken' = chosen' /\ UNCHANGED <<app, inited, over>>
       [] k = "default" -> chosen' = Default /\ taken' = Default /\ UNCHANGED <<app, inited, over>>
       [] k = "restore" -> taken' = taken \ {s} /\ UNCHANGED <<app, chosen, inited, over>>
       [] k \in {"raise", "fatal"} -> over' = TRUE /\ UNCHANGED <<app, taken, chosen, inited>>

Ops == {<<"app", s, d>> : s \in Vary, d \in Dispositions}
       \cup {<<k, "", "">> : k \in {"init", "install", "default", "fatal"}}
       \cup {<<"override", Str(q), "">> : q \in Sets}
       \cup {<<"restore", s, "">> : s \in Sigs}
       \cup {<<"raise", s, "">> : s \in Vary}

\* how a process ends that gets signal s with disposition d; for = returned from it
Ends(s, d, end) == CASE d = "default" -> end = <<1, s>>
                     [] d = "handler" -> end = <<0, 41>>
                     [] d = "siginfo" -> end = <<0, 42>>
                     [] OTHER -> FALSE
Num == [ABRT |-> 6, FPE |-> 8, ILL |-> 4, SEGV |-> 11, TERM |-> 15, USR1 |-> 10]
\* obs: <<signal, disposition>> pairs, or how the process ended: <<kind, code>>
ObsOK(o, obs) ==
  IF ~over' THEN {obs[j] : j \in 1..Len(obs)} = {<<s, IF s \in taken' THEN "crash handler" ELSE app'[s]>> : s \in Sigs}
  ELSE LET s == IF o[1] = "fatal" THEN "ABRT" ELSE o[2]
           end == <<obs[1], obs[2]>>
           crash == o[1] = "fatal" \/ s \in taken
       IN CASE app[s] # "ignore" -> Ends(Num[s], app[s], end)
            [] crash -> end[1] = 0        \* the signal, ignored by the application, does not end it: it exits, or goes on (docs: PID1)
            [] OTHER -> end = <<0, 50>>                    \* ignored
=============================================================================
