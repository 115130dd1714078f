------------------------------- MODULE QueueMC -------------------------------
(* The specification by itself: every history of a few threads with any operations, and what must be true of all of them. *)
EXTENDS Queue
CONSTANTS Threads, Bg, Items, Tasks, MaxOps
VARIABLES pushed, popped, began, ended, left, tofut
\* pushed, popped: items in the order of their effects; began, ended: tasks in order; left: operations each thread may still call
hist == <<pushed, popped, began, ended, left, tofut>>
Q1 == 0
A1 == 0
Init == /\ QInit({Q1}, {A1}, Tasks) /\ pushed = <<>> /\ popped = <<>> /\ began = <<>> /\ ended = <<>>
        /\ left = [t \in Threads |-> MaxOps] /\ tofut = {}
Used == {pend[t][3] : t \in {t \in DOMAIN pend : ~Idle(t)}} \cup Range(pushed)
Handed == Range(aq[A1]) \cup Range(began) \cup {pend[t][3] : t \in {t \in DOMAIN pend : ~Idle(t)}} \cup tofut
Calls(t) ==
  /\ left[t] > 0
  /\ \/ \E v \in Items : v \notin Used /\ Call(t, "push", Q1, v)
     \/ \E op \in {"try", "wait", "size"} : Call(t, op, Q1, 0)
     \/ life[A1] = "alive" /\ \E f \in Tasks : f \notin Handed /\ \E op \in {"send", "spawn"} : Call(t, op, A1, f)
     \/ \E f \in Tasks : fut[f] # "none" /\ Call(t, "get", 0, f)
     \/ life[A1] = "alive" /\ {u \in DOMAIN pend : ~Idle(u) /\ pend[u][1] \in {"send", "spawn"}} = {} /\ Call(t, "del", A1, 0)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ tofut' = tofut \cup (IF pend'[t][1] \in {"send", "spawn"} THEN {pend'[t][3]} ELSE {})
  /\ UNCHANGED <<pushed, popped, began, ended>>
Effect(t) ==
  /\ Lin(t)
  /\ pushed' = IF pend[t][1] = "push" THEN Append(pushed, pend[t][3]) ELSE pushed
  /\ popped' = IF pend[t][1] \in {"try", "wait"} /\ pend'[t][5] # 0 THEN Append(popped, pend'[t][5]) ELSE popped
  /\ UNCHANGED <<began, ended, left, tofut>>
Returns(t) == ~Idle(t) /\ Ret(t, pend[t][1], pend[t][5]) /\ UNCHANGED hist
Next == \/ \E t \in Threads : Calls(t) \/ Effect(t) \/ Returns(t)
        \/ \E f \in Tasks : Begin(Bg, A1, f) /\ began' = Append(began, f) /\ UNCHANGED <<pushed, popped, ended, left, tofut>>
        \/ \E f \in Tasks, x \in BOOLEAN : End(Bg, A1, f, x) /\ ended' = Append(ended, f) /\ UNCHANGED <<pushed, popped, began, left, tofut>>
        \/ Gone(A1) /\ UNCHANGED hist
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Once(s) == Len(s) = Cardinality(Range(s))
FIFO == pushed = popped \o q[Q1] /\ Once(popped)
Tasking == Once(began) /\ IsPrefix(ended, began) /\ Len(began) <= Len(ended) + 1
Kept == life[A1] = "gone" => /\ began = ended /\ must[A1] = {} /\ aq[A1] = <<>>
                             /\ \A f \in Tasks : fut[f] # "unset"
Futures == \A f \in Tasks : fut[f] \in {"value", "exception"} => f \in Range(ended)
\* everything handed over before the end is run: here nothing is handed over later
NothingLost == life[A1] = "gone" => Range(began) = tofut
=============================================================================
