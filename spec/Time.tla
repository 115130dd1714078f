--------------------------------- MODULE Time ---------------------------------
(* Time stamps: fraction directives, the rest of the format, order.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Deep               \* more formats

At(s, k) == SubSeq(s, k, k)
Rest(s, k) == SubSeq(s, k, Len(s))

\* nine digits of n
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN "" ELSE Digits(n \div 10, k - 1) \o ToString(n % 10)
Nano(ns) == Digits(ns, 9)

\* what the standard date formatting is left to do: fraction directives replaced, everything else kept
RECURSIVE Expand(_, _)
Expand(f, ns) ==
  IF f = "" THEN ""
  ELSE IF At(f, 1) # "%" \/ Len(f) = 1 THEN At(f, 1) \o Expand(Rest(f, 2), ns)
  ELSE IF At(f, 2) # "f" THEN SubSeq(f, 1, 2) \o Expand(Rest(f, 3), ns)
  ELSE IF Len(f) > 2 /\ At(f, 3) \in {"3", "6", "9"}
       THEN SubSeq(Nano(ns), 1, CASE At(f, 3) = "3" -> 3 [] At(f, 3) = "6" -> 6 [] OTHER -> 9) \o Expand(Rest(f, 4), ns)
  ELSE Nano(ns) \o Expand(Rest(f, 3), ns)

Pieces == {"%f", "%f3", "%f6", "%f9", "%H:%M", "%%", "f", "3", "60", "9", " ", "x", "%S", "%j"}
Formats == Pieces \cup {a \o b : a \in Pieces, b \in Pieces}
           \cup (IF Deep THEN {a \o b \o c : a \in Pieces, b \in Pieces, c \in Pieces} ELSE {a \o b \o c : a \in {"%f", "%f3", "%%", "f", "9"}, b \in Pieces, c \in {"%f6", "%f", "f9", "%%", "3"}})
\* what comes right after a fraction directive, or looks like one
Next1 == {"0", "1", "2", "4", "5", "7", "8", "a", "f", "F", "n", "u", "E", "O", "-", "_", "+", ".", "#", "^", "%%", "%f", "\n", "\t", " "}
Near == {"%f" \o a \o b : a \in Next1, b \in {"", "3", "x", "6", "%f6", "9"}} \cup {a \o b : a \in {"%f3", "%f6", "%f9", "%F", "%%f", "%3f", "%Ef"}, b \in Next1 \cup {"3", "6", "9"}}
Long == {"%Y/%m/%d %H:%M:%S %f6", "%Y-%m-%dT%H:%M:%S.%f3%z", "%a %b %d %H:%M:%S %Y", "%c|%x|%X|%p|%Z|%s", "%f3.%f6.%f9.%f", "%e %U %W %V %G %g %u %w %y %C %h %n%t%R %T %D %F %I %k %l %M %P %r",
         "%Ey %Od %EY", "%%%f3%%%%f%%%%%f", "%-d %_d %010Y", "text without any"}
Nanos == {0, 1, 9, 10, 999, 1000, 1001, 99999, 999999, 1000000, 1000999, 12345678, 100000000, 123456789, 499999999, 500000000, 999000000, 999999000, 999999999}
Days == {0, 1, 58, 59, 365, 10956, 11016, 11017, 16617, 19782, 19816, 24855, 47540, 106750}
Secs == {0, 1, 59, 60, 3599, 7200, 43199, 43200, 86398, 86399}
Zones == {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "<-12>12", "<+14>-14"}

\* <<"fmt", format, what is left of it, day, second, nanosecond, zone>>
F(f, d, s, n, z) == <<"fmt", f, Expand(f, n), d, s, n, z>>
Orders == {"%Y/%m/%d %H:%M:%S %f6", "%Y/%m/%d %H:%M:%S %f3", "%Y/%m/%d %H:%M:%S %f", "%Y%m%d-%H%M%S.%f9"}
Ops == {F(f, 11017, 43199, n, "UTC") : f \in Formats \cup Near, n \in {7, 987654321, 90000000}}
       \cup {F(f, d, s, 1000001, z) : f \in Long, d \in Days, s \in Secs, z \in Zones}
       \cup {F(f, 19782, 60, n, "UTC") : f \in Long \cup {"%f", "%f3", "%f6", "%f9"}, n \in Nanos}
       \cup {<<"cmp", f, "", d1, s1, n1, "NPT-5:45", d2, s2, n2>> : f \in Orders, d1 \in {0, 10956}, s1 \in {0, 86399}, n1 \in Nanos, d2 \in {1, 10956}, s2 \in {0, 59, 86399}, n2 \in {0, 1, 999999, 1000000, 123456789, 999999999}}
       \cup {<<"par", f, "", 11017, 43199, 5, z>> : f \in Orders, z \in {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3"}}

Cut(f, n) == LET k == CASE f = "%Y/%m/%d %H:%M:%S %f6" -> 1000 [] f = "%Y/%m/%d %H:%M:%S %f3" -> 1000000 [] OTHER -> 1 IN n \div k
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Cmp(f, o) == LET d == Sign(o[4], o[8]) s == Sign(o[5], o[9]) n == Sign(Cut(f, o[6]), Cut(f, o[10])) IN IF d # 0 THEN d ELSE IF s # 0 THEN s ELSE n

\* obs of "fmt": <<formatted, the standard function's result for the expanded format>>; "cmp": <<order of the texts>>; "par": <<differing results of concurrent calls>>
ObsOK(o, obs) == CASE o[1] = "fmt" -> o[3] = Expand(o[2], o[6]) /\ obs[1] = obs[2]
                   [] o[1] = "cmp" -> obs[1] = Cmp(o[2], o)
                   [] o[1] = "par" -> obs[1] = 0
=============================================================================
