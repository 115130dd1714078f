------------------------------ MODULE QueueTrace ------------------------------
(* Traces recorded from shared_queue, Active and spawn_task, checked against Queue.
   An event: <<kind, thread, op, x, y, result>>; kinds: 1 call, 2 return, 3 task begins, 4 task ends, 5 end of a thread's script *)
EXTENDS Queue, Json, IOUtils
VARIABLES tr, i
Traces == JsonDeserialize(IOEnv.TRACEFILE)
Ev == Traces[tr].ev
OpName == <<"push", "try", "wait", "empty", "size", "send", "spawn", "null", "get", "del">>
Init == /\ tr \in 1..Len(Traces) /\ i = 1
        /\ QInit(Range(Traces[tr].queues), Range(Traces[tr].actives), Range(Traces[tr].tasks))
Step ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN
     CASE e[1] = 1 -> Call(e[2], OpName[e[3]], e[4], e[5])
       [] e[1] = 2 -> Ret(e[2], OpName[e[3]], e[6])
       [] e[1] = 3 -> Begin(e[2], e[4], e[5])
       [] e[1] = 4 -> End(e[2], e[4], e[5], e[6] = 2)
       [] e[1] = 5 -> Idle(e[2]) /\ UNCHANGED vars
       [] OTHER -> FALSE
  /\ i' = i + 1 /\ tr' = tr
\* effects are needed only before a return, the beginning of a task, or the end: later than that is never too late
Silent ==
  /\ IF i > Len(Ev) THEN TRUE ELSE Ev[i][1] \in {2, 3}
  /\ \/ \E t \in DOMAIN pend : Lin(t)
     \/ \E a \in DOMAIN life : Gone(a)
  /\ UNCHANGED <<tr, i>>
Finished ==
  /\ i = Len(Ev) + 1
  /\ \/ Traces[tr].end = <<0, 0>> /\ \A t \in DOMAIN pend : Idle(t)
     \/ Traces[tr].end = <<2, 1>> /\ Stuck
  /\ PrintT(<<"ACC", tr>>)
  /\ i' = i + 1 /\ tr' = tr /\ UNCHANGED vars
Next == Step \/ Silent \/ Finished
\* for prefixes of rejected traces
Reached == i = Len(Ev) + 1 => PrintT(<<"PRE", tr>>)
=============================================================================
