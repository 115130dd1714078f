------------------------------- MODULE Capture -------------------------------
(* Printf-style messages and the size limit; stream-style messages have none.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Settable              \* the limit can be changed (G3_DYNAMIC_MAX_MESSAGE_SIZE)

VARIABLE limit

KInit == limit = 2048

Limits == {0, 1, 2, 3, 10, 17, 18, 100, 2047, 2048, 2049, 5000, 70000}
Marker == "[...truncated...]"

RECURSIVE Dbl(_, _)
Dbl(s, n) == IF n = 0 THEN s ELSE Dbl(s \o s, n - 1)
Big == Dbl("abcdefghijklmnopqrstuvwxyz", 13)             \* 212992 characters
Pat(n) == SubSeq(Big, 1, n)
Pct == Dbl("%", 18)
Spaces == Dbl(" ", 18)

\* the text the standard formatting produces for a form and a size
Forms == {"s", "lit", "two", "num", "width", "pct"}
Text(f, n) == CASE f \in {"s", "lit", "two"} -> Pat(n)
                [] f = "num" -> "-42|" \o Pat(n)
                [] f = "width" -> SubSeq(Spaces, 1, n) \o "x"
                [] f = "pct" -> SubSeq(Pct, 1, n)

Threads == 4                   \* log together ...
Rounds == 40                   \* ... that many messages each

Macros == {"LOGF", "LOGF_IF", "CHECKF", "CHECK_F", "LOGF_FATAL"}
Near(l) == {n \in ({l + d : d \in {-20, -5, -4, -3, -2, -1, 0, 1, 2, 3, 16, 17, 18, 40}} \cup {0, 1, 2100, 3 * l}) : n >= 0 /\ n < 100000}

Ops == (IF Settable THEN {<<"limit", l, 0, "", 0>> : l \in Limits} ELSE {})
       \cup {<<f, n, 0, "LOGF", 0>> : f \in Forms, n \in Near(limit)}
       \cup {<<"s", n, 0, m, t>> : n \in Near(limit), m \in Macros, t \in {0, 1}}
       \cup {<<"together", n, 0, m, 0>> : n \in {n \in Near(limit) : n > 0 /\ n \notin {limit - 20, limit + 40}}, m \in {"LOGF", "LOGF_IF", "LOG"}}
       \cup {<<"stream", n, 0, m, t>> : n \in Near(limit) \cup {200000}, m \in {"LOG", "LOG_IF", "CHECK"}, t \in {0, 1}}

Do(o) == limit' = IF o[1] = "limit" THEN o[2] ELSE limit

\* x is what a printf-style message with the text t may look like
Printed(x, t) == LET n == Len(t)
                     cut(k) == k >= 0 /\ x = SubSeq(t, 1, k) \o Marker
                 IN IF n < limit \/ (n = 0 /\ limit = 0) THEN x = t
                    ELSE IF n = limit THEN x = t \/ cut(limit - 1)
                    ELSE cut(limit) \/ cut(limit - 1)
\* the text of the k-th of several threads that log at the same time
Shifted(k, n) == SubSeq(Big, k + 1, k + n)

\* obs: <<text>>; for threads that log together: for each thread <<number of its messages, their different texts>>
ObsOK(o, obs) ==
  CASE o[1] = "limit" -> TRUE
    [] o[1] = "stream" -> obs[1] = Pat(o[2])
    [] o[1] = "together" -> /\ Len(obs) = Threads
                            /\ \A k \in 1..Threads : /\ obs[k][1] = Rounds
                                                      /\ \A j \in 1..Len(obs[k][2]) :
                                                            IF o[4] = "LOG" THEN obs[k][2][j] = Shifted(k, o[2]) ELSE Printed(obs[k][2][j], Shifted(k, o[2]))
    [] OTHER -> Printed(obs[1], Text(o[1], o[2]))
=============================================================================
