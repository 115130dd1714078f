------------------------------ MODULE Statement ------------------------------
(* The facts a delivered message carries about the statement that logged it.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT FullName              \* G3_LOG_FULL_FILENAME

Files == {"", "a.cpp", "/x/y/z.cpp", "..\\win\\f.cpp", "dir/", "mixed/dir\\f name(2).cpp", "no_ext", "/", "a.b.c/..hidden", "LONG"}
Lines == {0, 1, 4711, 2147483647}
Funcs == {"", "f", "operator()", "ns::C<int>::g(const T&) [with T = X]", "LONG"}
Levs  == {<<300, "INFO">>, <<0, "">>, <<-5, "a negative level, with a long name: longer than any short string">>, <<999, "almost fatal">>, <<1000, "FATAL">>, <<2000, "CONTRACT">>, <<5000, "very fatal">>}
Exprs == {"", "a == b && \"x\" != y", "LONG"}
Texts == {"", "t", "two\nlines\n", "100% %s %n \\ \"q\"", " tab\t ", "LONG"}

\* <<"stmt", file, line, function, level, level name, expression, text, thread>>: a capture made of strings that are gone afterwards
\* <<"late", ..., milliseconds>>: the same, but logged while the worker is busy for that long with taking a sink out
Ops == {<<"stmt", f, n, g, l[1], l[2], e, t, th>> : f \in Files, n \in {4711}, g \in Funcs, l \in Levs, e \in Exprs, t \in Texts, th \in {0, 1}}
       \cup {<<"stmt", "/x/y.cpp", n, "f", l[1], l[2], e, t, 0>> : n \in Lines, l \in Levs, e \in Exprs, t \in Texts}
       \cup {<<"late", f, n, "f", 300, "INFO", e, t, ms>> : f \in {"/x/y.cpp"}, n \in {0, 4711}, e \in {"", "a == b"}, t \in {"t", "LONG"}, ms \in {30, 150}}
       \cup {<<"late", "a.cpp", 1, "f", 999, "almost fatal", "", "t", 1300>>}
       \cup {<<"site", k, 0, "", 0, "", "", "", th>> : k \in {"LOG", "LOG_IF", "LOGF", "LOGF_IF", "CHECK", "CHECKF", "CHECK_F", "FATAL"}, th \in {0, 1}}

Base(s) == LET cut == {k \in 1..Len(s) : SubSeq(s, k, k) \in {"/", "\\"}} IN
           IF cut = {} THEN s ELSE SubSeq(s, (CHOOSE k \in cut : \A j \in cut : j <= k) + 1, Len(s))
File(s) == IF FullName THEN s ELSE Base(s)

\* the statements compiled into the driver: what they write, and the text of the contract
SiteText(k) == CASE k \in {"LOG", "LOG_IF", "LOGF", "LOGF_IF", "CHECK", "CHECKF", "CHECK_F", "FATAL"} -> "site " \o k
SiteExpr(k) == CASE k = "CHECK" -> "1 == 2 || !yes" [] k = "CHECKF" -> "no" [] k = "CHECK_F" -> "yes && no" [] OTHER -> ""
SiteLevel(k) == CASE k \in {"CHECK", "CHECKF", "CHECK_F"} -> <<2000, "CONTRACT">> [] k = "FATAL" -> <<1000, "FATAL">> [] k \in {"LOG", "LOGF"} -> <<300, "INFO">> [] OTHER -> <<500, "WARNING">>

\* obs: <<number of messages, file(), path, line, function, level, level name, expression, text, same thread, stamp taken during the statement>>
\* LONG stands for a text of 5000 characters; for a site the driver's own name, line and function are reported as "HERE"
ObsOK(o, obs) ==
  /\ obs[1] = 1 /\ obs[10] = 1 /\ obs[11] = 1
  /\ IF o[1] \in {"stmt", "late"}
     THEN SubSeq(obs, 2, 9) = <<File(o[2]), o[2], ToString(o[3]), o[4], o[5], o[6], o[7], o[8]>>
     ELSE SubSeq(obs, 2, 9) = <<"HERE", "HERE", "HERE", "HERE", SiteLevel(o[2])[1], SiteLevel(o[2])[2], SiteExpr(o[2]), SiteText(o[2])>>
=============================================================================
