------------------------------- MODULE Macros -------------------------------
(* What a logging or contract statement evaluates and sends, in every statement context.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Dynamic               \* run-time levels compiled in

VARIABLE on                    \* level value -> enabled

Lv == {300, 500, 700, 1000, 1500}     \* 700 is never registered, 1500 is registered and fatal (above FATAL)
MInit == on = [v \in Lv |-> v # 700 \/ ~Dynamic]

Kinds == {"LOG", "LOG2", "LOGF", "LOGF0", "LOGN", "LOGD"}            \* unconditional
CKinds == {"LOG_IF", "LOGF_IF"}
Contracts == {"CHECK", "CHECKF", "CHECK_F"}
Shapes == {"plain", "or", "and", "ne", "int", "tern", "less"}     \* form of the condition, always written without parentheses
Ctx == {"plain", "then", "else", "thenelse", "for", "while", "do", "switch", "nested", "lambda", "label", "range"}

\* <<"stmt", kind, shape, level, condition's value, context, the surrounding branch is taken>>
Ops == {<<"stmt", k, "-", v, TRUE, x, t>> : k \in Kinds, v \in Lv, x \in Ctx, t \in BOOLEAN}
       \cup {<<"stmt", k, s, v, c, x, t>> : k \in CKinds, s \in Shapes, v \in Lv, c \in BOOLEAN, x \in Ctx, t \in BOOLEAN}
       \cup {<<"stmt", k, s, 0, c, x, t>> : k \in Contracts, s \in Shapes, c \in BOOLEAN, x \in Ctx, t \in BOOLEAN}
       \cup (IF Dynamic THEN {<<"level", v, b>> : v \in Lv \ {700}, b \in BOOLEAN} ELSE {})

\* how often the statement runs, and how often the other branch does
Runs(x, t) == CASE x \in {"for", "while", "range"} -> IF t THEN 3 ELSE 0
                [] x \in {"plain", "do", "lambda", "label"} -> 1
                [] x \in {"then", "thenelse", "nested", "switch"} -> IF t THEN 1 ELSE 0
                [] x = "else" -> IF t THEN 0 ELSE 1
Other(x, t) == CASE x \in {"thenelse", "nested", "switch"} -> IF t THEN 0 ELSE 1
                 [] x = "else" -> IF t THEN 1 ELSE 0
                 [] OTHER -> 0

Args(k) == CASE k = "LOG2" -> 2 [] k = "LOGF0" -> 0 [] OTHER -> 1
Text(k) == CASE k = "LOG2" -> "a7b7" [] k = "LOGF0" -> "text" [] k = "LOGF" -> "a7" [] OTHER -> "a7"

\* LOGN's argument logs a message itself (level INFO), LOGD's argument disables the statement's own level
Do(o) == on' = IF o[1] = "level" THEN [on EXCEPT ![o[2]] = o[3]]
               ELSE IF o[2] = "LOGD" /\ Dynamic /\ on[o[4]] /\ Runs(o[6], o[7]) > 0 THEN [on EXCEPT ![o[4]] = FALSE]
               ELSE on

Rep(n, q) == LET F[m \in 0..n] == IF m = 0 THEN <<>> ELSE F[m - 1] \o q IN F[n]

\* obs: <<condition evaluations, argument evaluations, messages <<level, text>>, fatal events <<level, text>>, other branch, after the statement>>
ObsOK(o, obs) ==
  IF o[1] = "level" THEN TRUE ELSE
  LET k == o[2] v == o[4] c == o[5] x == o[6]
      n0 == Runs(x, o[7])
      contract == k \in Contracts
      n == IF k = "LOGD" /\ Dynamic THEN IF n0 > 0 THEN 1 ELSE 0 ELSE n0    \* disabled after its first run
      enabled == contract \/ on[v]
      fires == IF contract THEN ~c ELSE IF k \in CKinds THEN enabled /\ c ELSE enabled
      lev == IF contract THEN 2000 ELSE v
      m == IF fires THEN n ELSE 0
      inner == IF k = "LOGN" /\ fires /\ on[300] THEN <<<<300, "inner">>>> ELSE <<>>
      own == <<<<lev, Text(k)>>>>
  IN /\ IF k \in Kinds THEN obs[1] = 0
        ELSE IF enabled THEN obs[1] = n0 ELSE obs[1] \in 0..n0
     /\ obs[2] = m * Args(k)
     /\ obs[3] = Rep(m, inner \o (IF lev < 1000 THEN own ELSE <<>>))
     /\ obs[4] = Rep(m, IF lev >= 1000 THEN own ELSE <<>>)
     /\ obs[5] = Other(x, o[7])
     /\ obs[6] = 1
=============================================================================
