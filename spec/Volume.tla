-------------------------------- MODULE Volume --------------------------------
(* The pipeline with numbers of messages far beyond what single messages can be followed in: only counts are kept.
   Message k of producer p is <<p, k>>; what a sink received from a producer is a list of runs <<first, last>>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Producers, SinkIds, Counts, Sizes, MaxTotal, CallCounts, MaxOps

VARIABLES
  same,      \* messages sent that are all alike (one text for a history)
  sameSince, \* sink -> such messages sent before it was added
  alike,     \* that text, "?": none yet
  sent,      \* producer -> messages sent so far
  since,     \* sink -> (producer -> messages sent before the sink was added), for the sinks there are
  total, n,
  over
vars == <<same, sameSince, alike, sent, since, total, n, over>>

VInit == sent = [p \in Producers |-> 0] /\ since = <<>> /\ same = 0 /\ sameSince = <<>> /\ alike = "?" /\ total = 0 /\ n = 0 /\ over = FALSE

Holds == {"free", "all", "one"}
Do(o) ==
  /\ ~over /\ n < MaxOps /\ n' = n + 1
  /\ sameSince' = IF o[1] = "add" THEN [s \in DOMAIN since \cup {o[2]} |-> IF s = o[2] THEN same ELSE sameSince[s]] ELSE sameSince
  /\ IF o[1] = "same" THEN alike \in {"?", o[3]} /\ alike' = o[3] /\ same' = same + o[2] ELSE UNCHANGED <<alike, same>>
  /\ CASE o[1] = "add" -> /\ o[2] \notin DOMAIN since
                          /\ since' = [s \in DOMAIN since \cup {o[2]} |-> IF s = o[2] THEN sent ELSE since[s]]
                          /\ UNCHANGED <<sent, total, over>>
       \* <<"burst", producers 1..k, messages each, size, held>>: all the calls return, whatever the sinks do
       [] o[1] = "burst" -> /\ DOMAIN since # {}
                            /\ o[5] = "one" => Cardinality(DOMAIN since) > 1
                            /\ total + o[2] * o[3] <= MaxTotal
                            /\ sent' = [p \in Producers |-> IF p <= o[2] THEN sent[p] + o[3] ELSE sent[p]]
                            /\ total' = total + o[2] * o[3] /\ UNCHANGED <<since, over>>
       [] o[1] = "same" -> DOMAIN since # {} /\ total' = total + o[2] /\ UNCHANGED <<sent, since, over>>
       \* <<"calls", sink, number, held>>: so do handle calls
       [] o[1] = "calls" -> o[2] \in DOMAIN since /\ UNCHANGED <<sent, since, total, over>>
       [] o[1] = "remove" -> /\ o[2] \in DOMAIN since
                             /\ since' = [s \in DOMAIN since \ {o[2]} |-> since[s]] /\ UNCHANGED <<sent, total, over>>
       \* <<"removing", sink, producers 1..k, messages each, size>>: the sink is held with a message, its removal begins, the
       \* worker waits for it; all the calls return nevertheless
       [] o[1] = "removing" -> /\ o[2] \in DOMAIN since
                               /\ since' = [s \in DOMAIN since \ {o[2]} |-> since[s]]
                               /\ total + 1 + o[3] * o[4] <= MaxTotal
                               /\ sent' = [p \in Producers |-> sent[p] + (IF p = 1 THEN 1 ELSE 0) + (IF p <= o[3] THEN o[4] ELSE 0)]
                               /\ total' = total + 1 + o[3] * o[4] /\ UNCHANGED over
       [] o[1] = "end" -> over' = TRUE /\ UNCHANGED <<sent, since, total>>

Ops == {<<"add", s>> : s \in SinkIds} \cup {<<"remove", s>> : s \in SinkIds}
       \cup {<<"burst", k, c, z, h>> : k \in Producers, c \in Counts, z \in Sizes, h \in Holds}
       \cup {<<"same", c, x>> : c \in {2, 3, 500}, x \in {"", "a"}}
       \cup {<<"calls", s, c, h>> : s \in SinkIds, c \in CallCounts, h \in {"free", "all"}}
       \cup {<<"removing", s, k, c, 0>> : s \in SinkIds, k \in {1, 3}, c \in {10, 1500, 20000}}
       \cup {<<"end">>}

\* what sink s has received when everything is delivered: everything since it was added, once and in order
Runs(s) == [p \in Producers |-> IF sent[p] > since[s][p] THEN <<<<since[s][p] + 1, sent[p]>>>> ELSE <<>>]

\* a sink whose removal began after <<1, sent[1] + 1>> and before the others: all before, in order and once, and some of the others
Reach(s, k, c, got) == \A p \in Producers :
  LET least == sent[p] + (IF p = 1 THEN 1 ELSE 0)
      most == least + (IF p <= k THEN c ELSE 0)
  IN IF got[p] = <<>> THEN least = since[s][p]
     ELSE Len(got[p]) = 1 /\ got[p][1][1] = since[s][p] + 1 /\ got[p][1][2] >= least /\ got[p][1][2] <= most
\* obs of "burst": calls returned while the sinks were held; the sinks not held got everything meanwhile.
\* "calls": returned while held; right results.  "remove", "end": per sink that goes: <<sink, runs of each producer, messages alike>>
ObsOK(o, obs) ==
  CASE o[1] = "add" -> TRUE
    [] o[1] = "burst" -> obs = <<1, 1>>
    [] o[1] = "same" -> TRUE
    [] o[1] = "calls" -> obs = <<1, o[3]>>
    [] o[1] = "remove" -> obs = <<<<o[2], Runs(o[2]), same - sameSince[o[2]]>>>>
    [] o[1] = "removing" -> obs[1] = 1 /\ obs[2][1] = o[2] /\ Reach(o[2], o[3], o[4], obs[2][2]) /\ obs[2][3] = same - sameSince[o[2]]
    [] o[1] = "end" -> {obs[j] : j \in 1..Len(obs)} = {<<s, Runs(s), same - sameSince[s]>> : s \in DOMAIN since} /\ Len(obs) = Cardinality(DOMAIN since)
=============================================================================
