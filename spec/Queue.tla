-------------------------------- MODULE Queue --------------------------------
(* The concurrency building blocks as a linearizable object: shared queues, active objects, spawned tasks and their futures.
   An operation is called, takes effect at one moment (Lin) and returns.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  q,        \* queue -> its items
  aq,       \* active object -> tasks handed over and not begun
  run,      \* active object -> task being run, 0: none
  bt,       \* active object -> its background thread, -1: not seen yet
  must,     \* active object -> tasks that have to be run before it is gone
  life,     \* active object -> "alive", "ending" or "gone"
  fut,      \* task -> "none", "unset", "value", "exception", "broken", "null"
  pend      \* thread -> operation in progress <<op, arg1, arg2, done, result>>, or <<>>
vars == <<q, aq, run, bt, must, life, fut, pend>>

Range(s) == {s[j] : j \in 1..Len(s)}
Idle(t) == IF t \in DOMAIN pend THEN pend[t] = <<>> ELSE TRUE
SetPend(t, p) == pend' = [x \in DOMAIN pend \cup {t} |-> IF x = t THEN p ELSE pend[x]]
ActiveOf(f, qs) == {a \in DOMAIN qs : f \in Range(qs[a])}

QInit(Queues, Actives, Tasks) ==
  /\ q = [k \in Queues |-> <<>>] /\ aq = [a \in Actives |-> <<>>] /\ run = [a \in Actives |-> 0] /\ bt = [a \in Actives |-> -1]
  /\ must = [a \in Actives |-> {}] /\ life = [a \in Actives |-> "alive"] /\ fut = [f \in Tasks |-> "none"] /\ pend = <<>>

Call(t, op, x, y) ==
  /\ Idle(t)
  /\ SetPend(t, <<op, x, y, FALSE, 0>>)
  /\ IF op = "del" THEN life' = [life EXCEPT ![x] = "ending"] /\ must' = [must EXCEPT ![x] = Range(aq[x])]
                   ELSE UNCHANGED <<life, must>>
  /\ UNCHANGED <<q, aq, run, bt, fut>>

Outcome == [value |-> 1, exception |-> 2, broken |-> 3, null |-> 4]

\* the moment the operation of thread t takes effect
Lin(t) ==
  /\ ~Idle(t) /\ ~pend[t][4]
  /\ LET op == pend[t][1] x == pend[t][2] y == pend[t][3]
         Done(r) == pend' = [pend EXCEPT ![t] = <<op, x, y, TRUE, r>>]
         Hand(state) == /\ Done(0)
                        /\ IF life[x] = "gone" THEN aq' = aq /\ fut' = [fut EXCEPT ![y] = IF state = "unset" THEN "broken" ELSE state]
                                               ELSE aq' = [aq EXCEPT ![x] = Append(@, y)] /\ fut' = [fut EXCEPT ![y] = state]
                        /\ UNCHANGED <<q, run, bt, must, life>>
     IN CASE op = "push" -> Done(0) /\ q' = [q EXCEPT ![x] = Append(@, y)] /\ UNCHANGED <<aq, run, bt, must, life, fut>>
          [] op = "try" -> /\ IF q[x] = <<>> THEN Done(0) /\ q' = q ELSE Done(Head(q[x])) /\ q' = [q EXCEPT ![x] = Tail(@)]
                           /\ UNCHANGED <<aq, run, bt, must, life, fut>>
          [] op = "wait" -> q[x] # <<>> /\ Done(Head(q[x])) /\ q' = [q EXCEPT ![x] = Tail(@)] /\ UNCHANGED <<aq, run, bt, must, life, fut>>
          [] op = "empty" -> Done(IF q[x] = <<>> THEN 1 ELSE 0) /\ UNCHANGED <<q, aq, run, bt, must, life, fut>>
          [] op = "size" -> Done(Len(q[x])) /\ UNCHANGED <<q, aq, run, bt, must, life, fut>>
          [] op = "send" -> Hand("none")
          [] op = "spawn" -> Hand("unset")
          [] op = "null" -> Done(0) /\ fut' = [fut EXCEPT ![y] = "null"] /\ UNCHANGED <<q, aq, run, bt, must, life>>
          [] op = "get" -> fut[y] \notin {"none", "unset"} /\ Done(Outcome[fut[y]]) /\ UNCHANGED <<q, aq, run, bt, must, life, fut>>
          [] op = "del" -> life[x] = "gone" /\ Done(0) /\ UNCHANGED <<q, aq, run, bt, must, life, fut>>

Ret(t, op, r) == /\ ~Idle(t) /\ pend[t][1] = op /\ pend[t][4] /\ pend[t][5] = r
                 /\ SetPend(t, <<>>) /\ UNCHANGED <<q, aq, run, bt, must, life, fut>>

\* the background thread begins task f, the oldest one
Begin(t, a, f) ==
  /\ life[a] # "gone" /\ run[a] = 0 /\ aq[a] # <<>> /\ Head(aq[a]) = f
  /\ Idle(t) /\ bt[a] \in {-1, t} /\ \A b \in DOMAIN bt \ {a} : bt[b] # t
  /\ aq' = [aq EXCEPT ![a] = Tail(@)] /\ run' = [run EXCEPT ![a] = f] /\ bt' = [bt EXCEPT ![a] = t]
  /\ UNCHANGED <<q, must, life, fut, pend>>

\* and is done with it; with a future: throws or not
End(t, a, f, throws) ==
  /\ run[a] = f /\ bt[a] = t /\ Idle(t)
  /\ run' = [run EXCEPT ![a] = 0] /\ must' = [must EXCEPT ![a] = @ \ {f}]
  /\ fut' = IF fut[f] = "unset" THEN [fut EXCEPT ![f] = IF throws THEN "exception" ELSE "value"] ELSE fut
  /\ UNCHANGED <<q, aq, bt, life, pend>>

\* the active object is gone; what was handed over while it was ending may be lost
Gone(a) ==
  /\ life[a] = "ending" /\ must[a] = {} /\ run[a] = 0
  /\ life' = [life EXCEPT ![a] = "gone"] /\ aq' = [aq EXCEPT ![a] = <<>>]
  /\ fut' = [f \in DOMAIN fut |-> IF f \in Range(aq[a]) /\ fut[f] = "unset" THEN "broken" ELSE fut[f]]
  /\ UNCHANGED <<q, run, bt, must, pend>>

\* nothing can happen any more: every operation in progress waits for something that does not come
Stuck ==
  /\ \A t \in DOMAIN pend : ~Idle(t) =>
       /\ ~pend[t][4]
       /\ CASE pend[t][1] = "wait" -> q[pend[t][2]] = <<>>
            [] pend[t][1] = "get" -> fut[pend[t][3]] \in {"none", "unset"}
            [] pend[t][1] = "del" -> life[pend[t][2]] # "gone"
            [] OTHER -> FALSE
  /\ \A a \in DOMAIN aq : /\ run[a] # 0 => ~Idle(bt[a])
                          /\ run[a] = 0 => aq[a] = <<>> \/ (life[a] = "ending" /\ must[a] = {})
                          /\ ~(life[a] = "ending" /\ must[a] = {} /\ run[a] = 0)
=============================================================================
