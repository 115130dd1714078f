------------------------------- MODULE Levels -------------------------------
(* Run-time levels (dynamic logging): which levels are registered and enabled, and what a logging statement does.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Small             \* leave out one custom level

VARIABLE tab               \* value -> [st |-> 0 absent, 1 disabled, 2 enabled; t |-> the names it may be known by]

Absent == [st |-> 0, t |-> {}]
DefaultTexts == [v \in {100, 300, 500, 1000} |-> IF v = 100 THEN "DEBUG" ELSE IF v = 300 THEN "INFO" ELSE IF v = 500 THEN "WARNING" ELSE "FATAL"]
Custom == {<<-50, "C50">>, <<400, "C400">>, <<70000, "C1500">>}
Never  == <<700, "U700">>
Levels == {<<v, DefaultTexts[v]>> : v \in DOMAIN DefaultTexts} \cup Custom \cup {Never}
Vals   == {l[1] : l \in Levels}
Alias  == <<300, "INFOX">>        \* another level of the same value

Defaults == [v \in Vals |-> IF v \in DOMAIN DefaultTexts THEN [st |-> 2, t |-> {DefaultTexts[v]}] ELSE Absent]
LInit == tab = Defaults

St(b) == IF b THEN 2 ELSE 1
Reg(v) == tab[v].st # 0
\* whether a level that is set under another name than it was registered with keeps its name is not specified
SetTo(v, t, b) == IF Reg(v) THEN [tab EXCEPT ![v] = [st |-> St(b), t |-> @.t \cup {t}]] ELSE tab

\* operations: <<name, value, text, flag>>
Do(o) ==
  LET k == o[1] v == o[2] t == o[3] b == o[4] IN
  tab' = CASE k = "peek" -> tab
           [] k = "add" -> [tab EXCEPT ![v] = [st |-> St(b), t |-> {t}]]
           [] k = "add1" -> [tab EXCEPT ![v] = [st |-> 2, t |-> {t}]]
           [] k = "set" -> SetTo(v, t, b)
           [] k = "enable" -> SetTo(v, t, TRUE)
           [] k = "disable" -> SetTo(v, t, FALSE)
           [] k = "highest" -> IF Reg(v) THEN [u \in Vals |-> IF Reg(u) THEN [tab[u] EXCEPT !.st = St(u >= v)] ELSE Absent] ELSE tab
           [] k = "enableAll" -> [u \in Vals |-> IF Reg(u) THEN [tab[u] EXCEPT !.st = 2] ELSE Absent]
           [] k = "disableAll" -> [u \in Vals |-> IF Reg(u) THEN [tab[u] EXCEPT !.st = 1] ELSE Absent]
           [] k = "reset" -> Defaults

Used == IF Small THEN Levels \ {<<70000, "C1500">>} ELSE Levels
Ops == {<<"add", l[1], l[2], b>> : l \in (Used \ {Never}) \cup {Alias}, b \in BOOLEAN}
       \cup {<<"add1", l[1], l[2], TRUE>> : l \in Custom \cap Used}
       \cup {<<"set", l[1], l[2], b>> : l \in Used \cup {Alias}, b \in BOOLEAN}
       \cup {<<k, l[1], l[2], TRUE>> : k \in {"enable", "disable", "highest"}, l \in Used \cup {Alias}}
       \cup {<<k, 0, "", TRUE>> : k \in {"peek", "enableAll", "disableAll", "reset"}}

\* ---- what can be seen of a state
Num(b) == IF b THEN 1 ELSE 0
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : \A x \in s : m <= x IN <<m>> \o SortedSeq(s \ {m})
TableOK(r, t) == LET q == SortedSeq({v \in Vals : t[v].st # 0}) IN
                 /\ Len(r) = Len(q)
                 /\ \A j \in 1..Len(q) : r[j][1] = q[j] /\ r[j][2] \in t[q[j]].t /\ r[j][3] = Num(t[q[j]].st = 2)
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE "name: " \o q[1][2] \o " level: " \o ToString(q[1][1]) \o " status: " \o ToString(q[1][3]) \o "\n" \o Text(Tail(q))
\* obs: <<table, text, queries, table after the queries, levels whose statement logged, levels whose statement was fatal, table after logging>>
ObsOK(obs, t) == IF obs = <<>> THEN TRUE ELSE
     /\ TableOK(obs[1], t) /\ obs[4] = obs[1] /\ obs[7] = obs[1]
     /\ obs[2] = Text(obs[1])
     /\ \A j \in 1..Len(obs[3]) : LET q == obs[3][j] IN q[2] = Num(t[q[1]].st = 2) /\ q[3] = t[q[1]].st
     /\ {obs[3][j][1] : j \in 1..Len(obs[3])} = Vals
     /\ obs[5] = SortedSeq({v \in Vals : v < 1000 /\ t[v].st = 2})
     /\ obs[6] = SortedSeq({v \in Vals : v >= 1000 /\ t[v].st = 2})
=============================================================================
