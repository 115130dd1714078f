------------------------------- MODULE G3LogMC -------------------------------
(* The pipeline specification by itself: every behaviour of G3Log under the most general client of bounded length, and  *)
(* the properties C01-C10, C12 and C20 stated on it.  The client is a set of threads, each of which may begin up to     *)
(* MaxOps operations of the kinds in Ops, in any order, including from hooks, handlers and sinks' own code.             *)
(* The state graph has no cycle, so that "never blocks" is: no state without a successor other than a proper end.       *)
EXTENDS G3Log

CONSTANTS Apps, Workers, Sinks,
          Pre,               \* sinks attached at the start (to worker 0), if Started
          Started,           \* worker 0 is there and initialized
          Ops,               \* kinds of operations
          MaxOps, SinkOps,   \* operations each application thread may begin; messages and calls a sink may send altogether
          StuckSinks,        \* sinks whose code never returns
          HandlerKinds

VARIABLES left, M
mcvars == <<G, W, S, th, fut, hist, left, M>>

SinkThread(s) == 100 + s
SinkThreads == {SinkThread(s) : s \in Sinks}
Ids == {t * 10 + k : t \in Apps \cup SinkThreads, k \in 1..(MaxOps + SinkOps)}
Id(t) == t * 10 + left[t]
Range(q) == {q[j] : j \in 1..Len(q)}

(* What the client has seen, in terms of calls and returns only:                                                        *)
(*  recv     what each sink received, <<kind, id, content>>                                                              *)
(*  ret      messages whose log call has returned;  aft: <<m, n>>: m's call returned before n's began                    *)
(*  sure     sinks whose attaching returned and whose detaching has not begun;  up: likewise, a logger is active         *)
(*  cand     sinks whose attaching is in progress, and no detaching of them                                              *)
(*  at       <<m, s>>: since m's call began, a logger has been active and s attached;  must: ... until it returned        *)
(*  nope     <<m, s>>: m's call returned before s's attaching began, or began after its detaching returned               *)
(*  need     per thread, what a detaching in progress has to see through                                                  *)
MInit == M = [recv |-> [s \in Sinks |-> <<>>], ret |-> {}, aft |-> {}, sure |-> IF Started THEN Pre ELSE {}, cand |-> {}, up |-> Started,
              at |-> {}, must |-> {}, nope |-> {}, need |-> [t \in Apps |-> {}], known |-> IF Started THEN Pre ELSE {}, out |-> {},
              held |-> {}, hcalls |-> {}, hat |-> {}, hmust |-> {}, hord |-> {}, hret |-> {}, exec |-> {},
              due |-> 0, ran |-> {}, owed |-> {}, nf |-> 0, fatals |-> {}, flush |-> {}, handled |-> {},
              early |-> {}, earlyRet |-> {}, inits |-> 0, firstSure |-> {}, shown |-> {}, bad |-> {}]

MCInit ==
  /\ G = [InitG EXCEPT !.active = IF Started THEN 0 ELSE NoW, !.firstInit = Started]
  /\ W = [w \in Workers |-> [st |-> "up", q |-> <<>>, cur |-> Idle, att |-> IF Started /\ w = 0 THEN Pre ELSE {}]]
  /\ S = [s \in Sinks |-> [st |-> IF Started /\ s \in Pre THEN "live" ELSE "none", q |-> <<>>, cur |-> NoItem, pin |-> 0, n |-> 0]]
  /\ th = [t \in Apps \cup SinkThreads |-> <<>>]
  /\ fut = [c \in Ids |-> "none"]
  /\ hist = <<>>
  /\ left = [t \in Apps \cup SinkThreads |-> IF t \in Apps THEN MaxOps ELSE SinkOps]
  /\ MInit

Blame(cond, p) == IF cond THEN {} ELSE {p}
May(t, op) == op \in Ops /\ left[t] > 0 /\ AppCode(t) /\ (t \in SinkThreads => th[t] # <<>>)
Spend(t) == left' = [left EXCEPT ![t] = @ - 1]
Keep == left' = left
Usable(w) == W[w].st = "up" /\ ~\E t \in DOMAIN th : \E j \in 1..Len(th[t]) : th[t][j].op = "destroy" /\ th[t][j].b = w
WorkerOf(t, w) == \E j \in 1..Len(th[t]) : th[t][j].op \in {"add", "rm", "clr"} /\ th[t][j].b = w
Busy(op) == \E t \in DOMAIN th : \E j \in 1..Len(th[t]) : th[t][j].op = op
MsgsOf(s) == SelectSeq(M.recv[s], LAMBDA x : x[1] = "msg")
Times(m, s) == Cardinality({j \in 1..Len(M.recv[s]) : M.recv[s][j][1] = "msg" /\ M.recv[s][j][2] = m})
\* nobody else holds on to s or is in the middle of an operation on it
Alone(t, s) == /\ S[s].pin = 0
               /\ ~\E u \in DOMAIN th \ {t} : \E j \in 1..Len(th[u]) :
                     (th[u][j].op \in {"rm", "hold", "drop", "add"} /\ th[u][j].a = s) \/ (th[u][j].op = "hc" /\ th[u][j].b = s)
Got(pairs) == \A p \in pairs : Times(p[1], p[2]) = 1

\* ---------------------------------------------------------------- operations of the client, with what they mean to it
Logs(t) ==
  \/ /\ May(t, "log") /\ LogCall(t, Id(t)) /\ Spend(t)
     /\ M' = [M EXCEPT !.aft = @ \cup {<<m, Id(t)>> : m \in M.ret}, !.at = @ \cup (IF M.up THEN {<<Id(t), s>> : s \in M.sure} ELSE {}),
                       !.nope = @ \cup {<<Id(t), s>> : s \in M.out}, !.early = IF M.inits = 0 /\ ~Started THEN @ \cup {Id(t)} ELSE @]
  \/ /\ IsTop(t, "log", "p") /\ LogRet(t, Top(t).a) /\ Keep
     /\ LET m == Top(t).a IN M' = [M EXCEPT !.ret = @ \cup {m}, !.must = @ \cup {p \in M.at : p[1] = m}, !.at = {p \in @ : p[1] # m},
                                            !.earlyRet = IF M.inits = 0 /\ ~Started THEN @ \cup {m} ELSE @]
  \/ /\ IsTop(t, "log", "u") /\ EarlyShow(t, Top(t).a) /\ Keep
     /\ M' = [M EXCEPT !.shown = @ \cup {Top(t).a}]
Members(t) ==
  \/ \E s \in Sinks, w \in Workers :
     /\ May(t, "add") /\ Usable(w) /\ AddCall(t, s, w) /\ Spend(t)
     /\ M' = [M EXCEPT !.nope = @ \cup {<<m, s>> : m \in M.ret}, !.cand = @ \cup (IF Busy("clr") THEN {} ELSE {s})]
  \/ \E s \in Sinks : /\ AddRet(t, s) /\ Keep
                      /\ M' = [M EXCEPT !.sure = @ \cup (M.cand \cap {s}), !.cand = @ \ {s}, !.known = @ \cup {s}]
  \/ \E s \in M.known, w \in Workers :
     /\ May(t, "rm") /\ Usable(w) /\ (Cardinality(Workers) = 1) /\ RmCall(t, s, w) /\ Spend(t)
     /\ M' = [M EXCEPT !.sure = @ \ {s}, !.at = {p \in @ : p[2] # s}, !.need[t] = {p \in M.must : p[2] = s}, !.hat = {p \in @ : p[2] # s},
                       !.flush = @ \ {s}, !.firstSure = IF Busy("init") THEN @ \ {s} ELSE @]
  \/ \E s \in Sinks : /\ RmRet(t, s) /\ Keep
                      /\ M' = [M EXCEPT !.need[t] = {}, !.out = @ \cup {s},
                                        !.bad = @ \cup Blame(Alone(t, s) => S[s].st = "dead" /\ Got(M.need[t]), "C04")]
  \/ \E w \in Workers :
     /\ May(t, "clr") /\ Usable(w) /\ ClrCall(t, w) /\ Spend(t)
     /\ M' = [M EXCEPT !.sure = {}, !.cand = {}, !.at = {}, !.need[t] = M.must, !.hat = {}, !.flush = {},
                       !.firstSure = IF Busy("init") THEN {} ELSE @]
  \/ \E w \in Workers : /\ ClrRet(t, w) /\ Keep
                        /\ M' = [M EXCEPT !.need[t] = {}, !.out = @ \cup {s \in Sinks : \E p \in M.need[t] : p[2] = s},
                                          !.bad = @ \cup Blame(\A p \in M.need[t] : Alone(t, p[2]) => S[p[2]].st = "dead" /\ Times(p[1], p[2]) = 1, "C04")]
Handles(t) ==
  \* (a sink that calls itself or, in a circle, another one, while they are detached, is destroyed on a sink's thread:
  \*  known finding own-handle)
  \/ \E s \in M.known : /\ May(t, "hc") /\ (t \in SinkThreads /\ Ops \cap {"rm", "clr", "destroy", "fatal"} # {} => t < SinkThread(s)) /\ HcCall(t, Id(t), s) /\ Spend(t)
                        /\ M' = [M EXCEPT !.hcalls = @ \cup {<<Id(t), s>>}, !.hat = @ \cup (IF s \in M.sure THEN {<<Id(t), s>>} ELSE {}),
                                          !.hord = @ \cup {<<c, Id(t)>> : c \in M.hret}]
  \/ \E c \in Ids : /\ HcRet(t, c) /\ Keep
                    /\ M' = [M EXCEPT !.hmust = @ \cup {p \in M.hat : p[1] = c}, !.hat = {p \in @ : p[1] # c}, !.hret = @ \cup {c}]
  \/ \E p \in M.hcalls : /\ t \in Apps /\ May(t, "fut") /\ p[1] \in M.hret /\ fut[p[1]] # "got" /\ p[2] \notin StuckSinks
                         /\ ~\E u \in DOMAIN th : \E j \in 1..Len(th[u]) : th[u][j].op = "fut" /\ th[u][j].a = p[1]
                         /\ FutCall(t, p[1]) /\ Spend(t) /\ M' = M
  \/ \E c \in Ids, k \in {0, 2} : /\ FutRet(t, c, k, FALSE) /\ Keep
                                  /\ M' = [M EXCEPT !.bad = @ \cup Blame(k = IF c \in M.exec THEN 0 ELSE 2, "C05")]
  \/ \E s \in M.known : t \in Apps /\ May(t, "hold") /\ HoldCall(t, s) /\ Spend(t) /\ M' = M
  \/ \E s \in Sinks, g \in BOOLEAN : HoldRet(t, s, g) /\ Keep /\ M' = [M EXCEPT !.held = @ \cup (IF g THEN {<<t, s>>} ELSE {})]
  \/ \E s \in Sinks : AppCode(t) /\ <<t, s>> \in M.held /\ DropCall(t, s, TRUE) /\ Keep /\ M' = [M EXCEPT !.held = @ \ {<<t, s>>}]
  \/ \E s \in Sinks : DropRet(t, s) /\ Keep /\ M' = M
Down == [M EXCEPT !.up = FALSE, !.at = {}]
Lifecycle(t) ==
  \/ \E w \in Workers : /\ May(t, "init") /\ Usable(w) /\ ~Busy("init") /\ ~Busy("shut") /\ InitCall(t, w) /\ Spend(t)
                        /\ M' = [M EXCEPT !.inits = @ + 1, !.firstSure = IF M.inits = 0 /\ G.active = NoW THEN M.sure ELSE @, !.due = 0]
  \/ \E w \in Workers : InitRet(t, w) /\ Keep /\ M' = [M EXCEPT !.up = (Cardinality(Workers) = 1) /\ ~Busy("destroy")]
  \/ /\ May(t, "init") /\ G.active # NoW /\ ~Busy("init") /\ InitCall(t, NoW) /\ Spend(t) /\ M' = M
  \/ InitComplain(t) /\ Keep /\ M' = M
  \/ May(t, "shut") /\ ~Busy("init") /\ ShutCall(t) /\ Spend(t) /\ M' = [Down EXCEPT !.flush = {}]
  \/ ShutRet(t) /\ Keep /\ M' = M
  \* a worker is destroyed only when nobody else uses it, nor will
  \/ \E w \in Workers : /\ May(t, "destroy") /\ th[t] = <<>> /\ \A u \in Apps : u = t \/ (th[u] = <<>> /\ (left[u] = 0 \/ Cardinality(Workers) > 1))
                        /\ Cardinality(Workers) > 1 => G.active # w \/ \A u \in Apps : u = t \/ left[u] = 0
                        /\ DestroyCall(t, w) /\ Spend(t)
                        /\ M' = [(IF G.active = w \/ G.active = NoW THEN Down ELSE M) EXCEPT !.need[t] = M.must, !.sure = IF Cardinality(Workers) = 1 THEN {} ELSE @, !.hat = {}, !.cand = {}, !.flush = {}]
  \/ \E w \in Workers : /\ DestroyRet(t, w) /\ Keep
                        /\ M' = [M EXCEPT !.bad = @ \cup Blame(Cardinality(Workers) = 1 => \A p \in M.need[t] : S[p[2]].pin = 0 => Times(p[1], p[2]) = 1, "C06")
                                                     \cup Blame(Cardinality(Workers) = 1 => \A s \in Sinks : S[s].st = "live" => S[s].pin > 0, "C06"),
                                          !.need[t] = {}]
Default == G.handler.kind \in {"default", "default+"}
Fatals(t) ==
  \/ /\ May(t, "hook") /\ ~Busy("sethook") /\ SetHookCall(t, Id(t)) /\ Spend(t) /\ M' = [M EXCEPT !.due = 0, !.owed = {}]
  \/ \E h \in Ids : SetHookRet(t, h) /\ Keep /\ M' = [M EXCEPT !.due = IF Busy("fatal") \/ h \in M.ran THEN 0 ELSE h]
  \/ \E k \in HandlerKinds : /\ May(t, "handler") /\ ~Busy("fatal") /\ ~Busy("sethand") /\ SetHandlerCall(t, Id(t), k) /\ Spend(t) /\ M' = M
  \/ \E h \in Ids : SetHandlerRet(t, h) /\ Keep /\ M' = M
  \/ \E sig \in BOOLEAN :
     /\ May(t, "fatal") /\ ~Busy("sethand") /\ t \in Apps
     \* (a signal on another thread after one that a handler of the application let go on is not handled: excluded)
     /\ sig => /\ ~Default => ~\E u \in DOMAIN th \ {t} : \E j \in 1..Len(th[u]) : th[u][j].op = "fatal" /\ th[u][j].c = 1
               /\ G.sigTaken \subseteq {t} \/ (Default /\ Busy("fatal"))
     /\ FatalCall(t, Id(t), IF sig THEN 11 ELSE 6, sig) /\ Spend(t)
     /\ M' = [(IF Default THEN Down ELSE M) EXCEPT !.nf = @ + 1, !.fatals = @ \cup {Id(t)}, !.due = 0,
                      !.owed = IF Busy("fatal") THEN {} ELSE IF M.due # 0 THEN {<<Id(t), M.due>>} ELSE @,   \* (of simultaneous events any is the first)
                      !.flush = IF M.up /\ Default THEN M.sure ELSE @]
  \/ \E h \in Ids : /\ HookBegin(t, h) /\ Keep
                    /\ M' = [M EXCEPT !.ran = @ \cup {h}, !.owed = {p \in @ : p # <<Top(t).a, h>>},
                                      !.bad = @ \cup Blame(h \notin M.ran, "C10")]
  \/ \E h \in Ids : HookEnd(t, h) /\ Keep /\ M' = M
  \/ /\ IsTop(t, "fatal", "hand") /\ Keep
     /\ LET o == Top(t) IN
        /\ HandlerBegin(t, o.h, o.a, BitsHandler(o.rec), o.b)
        /\ M' = [M EXCEPT !.handled = @ \cup {o.a}, !.bad = @ \cup Blame(o.a \notin M.handled /\ ~\E p \in M.owed : p[1] = o.a, "C10")]
  \/ IsTop(t, "fatal", "handler") /\ HandlerEnd(t, Top(t).h, Top(t).a) /\ Keep /\ M' = M
  \/ \E how \in {0, 1} : /\ Top(t).op = "fatal" /\ FatalRet(t, Top(t).a, how) /\ Keep
                         /\ M' = [M EXCEPT !.bad = @ \cup Blame(~Default /\ Top(t).a \in M.handled, "C09") \cup Blame(~\E p \in M.owed : p[1] = Top(t).a, "C10")]
  \/ IsTop(t, "fatal", "alone") /\ FatalAlone(t, Top(t).a) /\ Keep /\ M' = [M EXCEPT !.shown = @ \cup {Top(t).a}]

\* ---------------------------------------------------------------- the library
SinkSteps(s) ==
  \/ /\ S[s].q # <<>> /\ SBegin(SinkThread(s), s, Head(S[s].q).k, Head(S[s].q).id, Head(S[s].q).b) /\ Keep
     /\ LET x == Head(S[s].q) IN
        M' = [M EXCEPT !.recv[s] = Append(@, <<x.k, x.id, x.b>>),
                       !.bad = @ \cup (IF x.k = "msg" THEN Blame(x.id = WARN \/ Times(x.id, s) = 0, "C01") \cup Blame(x.b = BitsEarly \/ <<x.id, s>> \notin M.nope, "C04")
                                       ELSE Blame(~\E j \in 1..Len(M.recv[s]) : M.recv[s][j][1] = "call" /\ M.recv[s][j][2] = x.id, "C05"))]
  \/ s \notin StuckSinks /\ SEndMsg(SinkThread(s), s, S[s].cur.id) /\ Keep /\ M' = M
  \/ s \notin StuckSinks /\ SEndCall(SinkThread(s), s, S[s].cur.id) /\ Keep /\ M' = [M EXCEPT !.exec = @ \cup {S[s].cur.id}]
  \/ SDie(s) /\ Keep /\ M' = M
Silent(t) ==
  /\ \/ LogRead(t) \/ LogPush(t) \/ EarlyKeep(t) \/ LogDrop(t) \/ AddPush(t) \/ AddRelease(t) \/ RmPeek(t) \/ RmUnpeek(t) \/ RmPush(t)
     \/ ClrPush(t) \/ HcLock(t) \/ HcPush(t) \/ HcRelease(t) \/ HoldPeek(t) \/ HoldUnpeek(t) \/ HoldLock(t) \/ DropRelease(t)
     \/ InitEarly(t) \/ InitEffect(t) \/ InitHook(t) \/ ShutEffect(t) \/ DestroyShut(t) \/ DestroyStop(t) \/ SetHookEffect(t)
     \/ FatalTake(t) \/ FatalCount(t) \/ FatalCompose(t) \/ FatalPush(t)
  /\ Keep /\ M' = M
WorkerSteps(w) ==
  /\ \/ WPopMsg(w) \/ WAdd(w) \/ WRemove(w) \/ WClear(w) \/ WDetached(w) \/ WStop(w) \/ WFatal(w) \/ WFatalClear(w) \/ WFatalDie(w)
     \/ \E s \in W[w].cur.rem : WSend(w, s) \/ WRelease(w, s)
     \/ WNoSinkWarn(w)
  /\ Keep /\ M' = M
Shows(w) ==
  /\ \E m \in Ids : (WNoSink(w, m) \/ WFatalShow(w, m)) /\ M' = [M EXCEPT !.shown = @ \cup {m}]
  /\ Keep

SinkClient(t) == t \in SinkThreads /\ (Logs(t) \/ Handles(t))
Step == \/ \E t \in Apps : Logs(t) \/ Members(t) \/ Handles(t) \/ Lifecycle(t) \/ Fatals(t)
        \/ \E t \in SinkThreads : SinkClient(t)
        \/ \E t \in Apps \cup SinkThreads : Silent(t)
        \/ \E s \in Sinks : SinkSteps(s)
        \/ \E w \in Workers : WorkerSteps(w) \/ Shows(w)

\* ---------------------------------------------------------------- ends
Still == /\ \A t \in Apps : th[t] = <<>>
         /\ \A w \in Workers : W[w].q = <<>> /\ W[w].cur = Idle
         /\ \A s \in Sinks \ StuckSinks : th[SinkThread(s)] = <<>> /\ S[s].q = <<>> /\ S[s].cur = NoItem /\ S[s].st # "closing"
\* with sinks that are stuck: everybody who does not wait for one of them has got on
StillBut == /\ StuckSinks # {}
            /\ \A t \in Apps : th[t] = <<>> \/ Top(t).op \in {"rm", "clr", "destroy"} \/ (Top(t).op \in {"add", "hc", "hold", "drop"} /\ Top(t).ph \in {"w", "x"})
            /\ \A w \in Workers : (W[w].q = <<>> /\ W[w].cur = Idle) \/ W[w].cur.ws \cap StuckSinks # {}
            /\ \A s \in Sinks \ StuckSinks : th[SinkThread(s)] = <<>> /\ S[s].q = <<>> /\ S[s].cur = NoItem
Ended == Still \/ StillBut \/ ~Running
MCNext == (Running /\ Step) \/ (Ended /\ UNCHANGED mcvars)
MCSpec == MCInit /\ [][MCNext]_mcvars

\* ---------------------------------------------------------------- properties
NothingBad == M.bad = {}
MsgSeq(s) == LET q == MsgsOf(s) IN [j \in 1..Len(q) |-> q[j][2]]
Rt == UNION {LET q == MsgSeq(s) IN UNION {{<<q[j], q[k]>> : k \in (j + 1)..Len(q)} : j \in 1..Len(q)} : s \in Sinks}
RECURSIVE Acyclic(_, _)
Acyclic(nodes, r) ==
  LET first == {n \in nodes : \A p \in r : p[2] = n => p[1] \notin nodes}
  IN nodes = {} \/ (first # {} /\ Acyclic(nodes \ first, r))
\* C01: at the end, what had to be delivered has been, once; nothing was ever invented, and nothing altered
Delivered == Running /\ Still => \A p \in M.must : p[2] \notin StuckSinks => Times(p[1], p[2]) = 1
Genuine == \A s \in Sinks : \A j \in 1..Len(M.recv[s]) :
             LET x == M.recv[s][j] IN x[1] = "msg" => x[2] = WARN \/ x[2] \in Ids \/ x[2] \in M.fatals
\* C02: what the sinks saw, what one thread did in order and what happened one after the other agree
OneOrder == LET r == {p \in Rt : p[1] # WARN /\ p[2] # WARN} \cup M.aft IN Acyclic({p[1] : p \in r}, r)
\* C03: one thing at a time, never after the end
OneAtATime == \A s \in Sinks : S[s].st = "dead" => S[s].cur = NoItem /\ S[s].q = <<>>
\* C05: accepted calls are executed in the order in which they were made, and those on sinks that stayed are
CallSeq(s) == LET q == SelectSeq(M.recv[s], LAMBDA x : x[1] = "call") IN [j \in 1..Len(q) |-> q[j][2]]
CallsInOrder == \A s \in Sinks : \A j, k \in 1..Len(CallSeq(s)) : j < k => <<CallSeq(s)[k], CallSeq(s)[j]>> \notin M.hord
CallsDone == Running /\ Still => \A p \in M.hmust : p[2] \notin StuckSinks => p[1] \in M.exec
\* C06/C08: at the death of the process, everything logged before the (first) fatal event is with the sinks, which are gone
LastMsg(s) == LET q == MsgsOf(s) IN q[Len(q)]
Flushed == G.end = "dying" =>
             /\ \A p \in M.must : p[2] \in M.flush /\ Alone(0, p[2]) => Times(p[1], p[2]) = 1
             /\ \A s \in M.flush : Alone(0, s) => /\ S[s].st = "dead"
                                                   /\ MsgsOf(s) # <<>> /\ LastMsg(s)[2] \in M.fatals
                                                   /\ LastMsg(s)[3] \in {BitsFatal(TRUE), BitsFatal(FALSE)}
                                                   /\ Cardinality({j \in 1..Len(MsgsOf(s)) : MsgsOf(s)[j][2] \in M.fatals}) = 1
             /\ \A s, u \in M.flush : Alone(0, s) /\ Alone(0, u) => LastMsg(s) = LastMsg(u)
FatalShown == G.end = "dying" => M.shown \cap M.fatals # {}
\* C09: the end of a process with default handling of a fatal event is its death; it is never still alive when all is still
AlwaysDies == Running /\ Still /\ StuckSinks = {} => \A m \in M.fatals : m \in M.handled
\* C10: the hook that was set runs for the event, before the end
HookRuns == G.end = "dying" /\ M.nf = 1 => M.owed = {}
\* ... and the handler that was set decides: without its doing no fatal event is the end
HandlerDecides == G.end = "dying" => Default /\ (G.handler.kind = "default+" => M.handled # {})
NoHookWithoutEvent == M.nf = 0 => M.ran = {} /\ M.handled = {}
\* C07: the first message without a logger: one, one of those not preceded by another, ahead of everything else
EarlyOnes == {m \in M.early : ~\E n \in M.early : <<n, m>> \in M.aft}
EarlyRules == Running /\ Still /\ ~Started =>
   /\ \A s \in M.firstSure : (M.earlyRet # {} /\ S[s].st \in {"live", "dead"}) =>
        LET q == MsgsOf(s) IN q # <<>> /\ q[1][3] = BitsEarly /\ q[1][2] \in EarlyOnes /\ q[1][2] \in M.shown
   /\ \A s \in Sinks : Cardinality({j \in 1..Len(MsgsOf(s)) : MsgsOf(s)[j][3] = BitsEarly}) <= 1
   /\ \A s \in Sinks : \A j \in 1..Len(MsgsOf(s)) : MsgsOf(s)[j][2] \in M.earlyRet => MsgsOf(s)[j][3] = BitsEarly
\* C12: the marker of a recurring fatal event is there only if there was another one
Recurs == \A s \in Sinks : \A j \in 1..Len(M.recv[s]) : M.recv[s][j][3] \in {BitsFatal(TRUE), BitsHandler(TRUE)} => M.nf > 1
\* C20: whatever the sinks do, an operation that does not wait for a sink goes on: see StillBut and the absence of deadlocks
=============================================================================
