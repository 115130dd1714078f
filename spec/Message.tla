------------------------------- MODULE Message -------------------------------
(* Messages as values: what constructing, copying, assigning, moving and swapping them does to their facts, and what    *)
(* they look like as text.                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Slots                 \* 1..n

VARIABLE slot                  \* slot -> message, None, or Moved (valid, unspecified)

\* what the prototypes are constructed from
Proto == <<
  [path |-> "/src/a.cpp",      line |-> 1,          func |-> "f",            lev |-> <<300, "INFO">>,     th |-> 1, at |-> "1970/01/02 00:00:00", txt |-> "one",        expr |-> ""],
  [path |-> "win\\dir\\b.cpp", line |-> 2147483647, func |-> "operator()",   lev |-> <<2000, "CONTRACT">>, th |-> 2, at |-> "2001/09/09 01:46:40", txt |-> "two\nlines", expr |-> "x == 1 && the_rest_of(this, expression) >= 'rather long' || !that"],
  [path |-> "c.cpp",           line |-> 0,          func |-> "",             lev |-> <<1000, "FATAL">>,   th |-> 1, at |-> "2033/05/18 03:33:20", txt |-> "",           expr |-> ""],
  [path |-> "/a b/c/a directory with quite a long name/and another one of those, below it/",           line |-> 77,         func |-> "std::vector<int> my::ns::g<int, std::string>(const T&) const", lev |-> <<1500, "LEVEL OF THE USER'S OWN, called by a long name">>,  th |-> 2, at |-> "1999/12/31 23:59:59", txt |-> "100% %s \\", expr |-> "a"],
  [path |-> "",                line |-> 3,          func |-> "h",            lev |-> <<2001, "FATAL_SIGNAL">>, th |-> 2, at |-> "2024/02/29 12:00:00", txt |-> "signal", expr |-> ""] >>

Base(s) == LET cut == {k \in 1..Len(s) : SubSeq(s, k, k) \in {"/", "\\"}} IN
           IF cut = {} THEN s ELSE SubSeq(s, (CHOOSE k \in cut : \A j \in cut : j <= k) + 1, Len(s))
None == [live |-> 0]
Moved == [live |-> 1]
Make(k) == LET p == Proto[k] IN
  [live |-> 2, path |-> p.path, line |-> p.line, func |-> p.func, lev |-> p.lev, th |-> p.th, at |-> p.at, txt |-> p.txt, expr |-> p.expr, fmt |-> "default"]

Is(s) == slot[s].live = 2
Fmts == {"default", "full", "custom"}
CInit == slot = [s \in Slots |-> None]

\* operations: <<name, slot, slot, text>>
Enabled(o) ==
  LET k == o[1] d == o[2] s == o[3] IN
  CASE k = "new" -> TRUE
    [] k = "drop" -> slot[d].live > 0
    [] k \in {"copy", "fatal", "movon", "vector", "heap"} -> Is(s) /\ d # s       \* copy construction, in different guises
    [] k = "moved" -> Is(s) /\ d # s
    [] k = "assign" -> Is(s) /\ slot[d].live > 0
    [] k = "massign" -> Is(s) /\ slot[d].live > 0 /\ d # s
    [] k = "swap" -> Is(s) /\ Is(d)
    [] k \in {"override", "text", "write", "expr"} -> Is(d)
    [] k = "each" -> \E a, b \in Slots : a # b /\ Is(a) /\ Is(b)

Do(o) ==
  LET k == o[1] d == o[2] s == o[3] t == o[4] IN
  slot' = CASE k = "new" -> [slot EXCEPT ![d] = Make(s)]
            [] k = "drop" -> [slot EXCEPT ![d] = None]
            [] k \in {"copy", "fatal", "movon", "vector", "heap", "assign"} -> [slot EXCEPT ![d] = slot[s]]
            [] k \in {"moved", "massign"} -> [slot EXCEPT ![d] = slot[s], ![s] = Moved]
            [] k = "swap" -> [slot EXCEPT ![d] = slot[s], ![s] = slot[d]]
            [] k \in {"override", "text"} -> [slot EXCEPT ![d].fmt = t]
            [] k = "write" -> [slot EXCEPT ![d].txt = @ \o t]
            [] k = "expr" -> [slot EXCEPT ![d].expr = t]
            [] k = "each" -> slot                             \* copies of all are turned into text by threads of their own, at once

Ops == {<<"new", d, p, "">> : d \in Slots, p \in 1..Len(Proto)}
       \cup {<<"drop", d, d, "">> : d \in Slots}
       \cup {<<k, d, s, "">> : k \in {"copy", "fatal", "movon", "vector", "heap", "moved", "assign", "massign", "swap"}, d \in Slots, s \in Slots}
       \cup {<<k, d, d, f>> : k \in {"override", "text"}, d \in Slots, f \in Fmts}
       \cup {<<"write", d, d, "+">> : d \in {d \in Slots : Is(d) /\ Len(slot[d].txt) < 12}}
       \cup {<<"expr", d, d, "e">> : d \in Slots}

\* only in the random walks
Each == {<<"each", 1, 1, f>> : f \in Fmts}

Fatal(m) == m.lev[1] >= 1000
Where(m) == Base(m.path) \o "->" \o m.func \o ":" \o ToString(m.line)
\* "@" stands for the message's own time stamp text
Details(m, f) == CASE f = "default" -> "@\t" \o m.lev[2] \o " [" \o Where(m) \o "]\t"
                   [] f = "full" -> "@\t" \o m.lev[2] \o " [T" \o ToString(m.th) \o " " \o Where(m) \o "]\t"
                   [] f = "custom" -> "<" \o ToString(m.line) \o "|" \o m.txt \o ">"
Normal(m, f) == Details(m, f) \o m.txt \o "\n"
Contains(big, s) == \E k \in 0..(Len(big) - Len(s)) : SubSeq(big, k + 1, k + Len(s)) = s
StartsWith(big, s) == Len(big) >= Len(s) /\ SubSeq(big, 1, Len(s)) = s

\* toString(f) of a message
TextOK(x, m, f) ==
  IF ~Fatal(m) THEN x = Normal(m, f)
  ELSE IF m.lev[1] = 2001 THEN StartsWith(x, "@") /\ Contains(x, m.txt)
  ELSE StartsWith(x, Details(m, f)) /\ Contains(SubSeq(x, Len(Details(m, f)) + 1, Len(x)), m.txt)
       /\ m.lev[1] = 2000 => Contains(x, m.expr)

SlotOK(x, m) ==
  IF m.live # 2 THEN x = <<m.live>>
  ELSE x = <<2, Base(m.path), m.path, ToString(m.line), m.func, m.lev[2], m.lev[1], "T" \o ToString(m.th), m.at, m.txt, m.expr, Fatal(m), Normal(m, m.fmt)>>

\* obs: <<text returned by the operation, one entry per slot>>
ObsOK(o, obs, before, after) ==
  /\ o[1] = "each" => \A s \in Slots : Is(s) => Len(obs[1][s]) = 1 /\ TextOK(obs[1][s][1], before[s], o[4])
  /\ o[1] = "text" => TextOK(obs[1], before[o[2]], o[4])
  /\ IF Len(obs) = 1 THEN TRUE ELSE \A s \in Slots : SlotOK(obs[2][s], after[s])
=============================================================================
