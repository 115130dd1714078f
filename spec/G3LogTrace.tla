----------------------------- MODULE G3LogTrace -----------------------------
(* Checks a batch of traces recorded from the real code against G3Log: a trace is accepted if some run of the           *)
(* specification has exactly these visible actions, in this order, and allows the end the process came to.               *)
(* Accepted traces are reported by <<"ACC", index>>; a trace without such a line is rejected.                            *)
EXTENDS G3Log, Json, IOUtils

CONSTANT Single            \* TRUE: one trace, report how far it can be explained

VARIABLES tr, i,           \* trace, next event
          role             \* what a thread is: 0 not known yet, -1 an application thread, s the thread of sink s

tvars == <<G, W, S, th, fut, hist, tr, i, role>>

Traces == JsonDeserialize(IOEnv.TRACEFILE)
T == Traces[tr]
Rng(q) == {q[j] : j \in 1..Len(q)}
\* T.sinks: <<id, isFile, worker>>; domains are given as sequences
SinkIds == {T.sinks[j][1] : j \in 1..Len(T.sinks)}
IsF(s) == \E j \in 1..Len(T.sinks) : T.sinks[j][1] = s /\ T.sinks[j][2] = 1
\* what sink s received in this trace, in order, as <<isCall, id>>; for file sinks: what was found in the file
ObsOf(s) == LET j == CHOOSE j \in 1..Len(T.sinks) : T.sinks[j][1] = s IN T.obs[j]
FileOf(s) == LET j == CHOOSE j \in 1..Len(T.sinks) : T.sinks[j][1] = s IN T.files[j]   \* <<complete, <<ids>>>>
Throws(c) == InSeq(c, T.throws)

\* ---- pruning, without loss: the order in which a sink takes its items is the order of its queue
ObsOK(s, isCall, id) ==
  IF IsF(s) THEN FileOf(s)[1] = 0 \/ (Len(S[s].q) < Len(FileOf(s)[2]) /\ FileOf(s)[2][Len(S[s].q) + 1] = id)
  ELSE LET q == ObsOf(s)
           k == S[s].n + Len(S[s].q) + 1
       IN IF k <= Len(q) THEN q[k] = <<isCall, id>> ELSE ~InSeq(<<isCall, id>>, q)
\* T.pred: <<m, p>>: some sink received p right before m (both plain messages), so p was put in the worker's queue before m
Pending(m) == \E t \in DOMAIN th : /\ HasTop(t) /\ Top(t).op = "log" /\ Top(t).a = m
                                   /\ Top(t).ph = "g" \/ (Top(t).ph = "c" /\ ~InSeq(m, T.free))
\* T.unobs: messages seen nowhere, by the time their calls returned: of those that wait, the first to return goes first
UnobsOK(m) == \A j \in 1..Len(T.unobs) : T.unobs[j] = m => \A k \in 1..(j - 1) : ~Pending(T.unobs[k])
PredOK(m) == \A j \in 1..Len(T.pred) :
               T.pred[j][1] = m => LET p == T.pred[j][2] IN T.pred[j][3] < i /\ ~Pending(p)
\* m goes behind the attaching of all sinks that take it, and before that of the sinks that do not (T.detach: where the
\* first detaching that concerns the sink begins, if the sink is destroyed in this trace)
Adding(s) == \E t \in DOMAIN th : IsTop(t, "add", "c") /\ Top(t).a = s
AddOK(m, w) == \A j \in 1..Len(T.sinks) :
              LET s == T.sinks[j][1]
                  put == S[s].st # "none" /\ ~Adding(s)
              IN IF T.obsn[j] > 0 /\ InSeq(<<0, m>>, T.obs[j]) THEN put
                 ELSE IF put /\ i <= T.detach[j] /\ w = T.sinks[j][3] /\ ~FatalSeen(w) THEN FALSE ELSE TRUE

TInit ==
  /\ tr \in 1..Len(Traces)
  /\ i = 1
  /\ role = [t \in Rng(T.tids) |-> 0]
  /\ InitState(Rng(T.workers), SinkIds, Rng(T.tids), Rng(T.calls))

\* ---- lookahead, without loss: what is known about an operation from later events of the same trace.
\* T.last: operations <<name, id>> that hold a reference to a sink while it may be detached; of all others it does not
\* matter when they give it up.  T.lock: <<id, 1>> a call that got hold of its sink, <<id, 0>> that did not.
\* T.free: messages during whose log call the active logger may change.
MayBeLast(o) == InSeq(<<o.op, o.a>>, T.last)
Locked(id, v) == InSeq(<<id, v>>, T.lock)
LockReady(t) ==
  IF IsTop(t, "hc", "c") THEN LET o == Top(t) IN (Locked(o.a, 1) /\ S[o.b].st = "live") \/ (Locked(o.a, 0) /\ S[o.b].st # "live")
  ELSE IF IsTop(t, "log", "c") THEN ~InSeq(Top(t).a, T.free)    \* the logger does not change during the call
  ELSE FALSE
LockFree(t) == ~Locked(Top(t).a, 0) /\ ~Locked(Top(t).a, 1)
RelReady(t) == /\ <<Top(t).op, Top(t).ph>> \in {<<"add", "d">>, <<"hc", "u">>, <<"drop", "c">>}
               /\ ~MayBeLast(Top(t))
               /\ ~LastRef(IF Top(t).op = "hc" THEN Top(t).b ELSE Top(t).a)
PushReady(t) == IsTop(t, "hc", "l") /\ ObsOK(Top(t).b, 1, Top(t).a)

\* T.lone: there is one fatal event, and nothing that it can depend on changes during it
FatalReady(t) == T.lone = 1 /\ Top(t).op = "fatal" /\ Top(t).ph \in {"c", "t", "hd"}

\* ---- silent steps that commute with everything else, given the pruning: always done first
WReady(w) ==
  \/ /\ W[w].cur.k = "idle" /\ W[w].st = "up" /\ W[w].q # <<>>
     /\ \/ Head(W[w].q).k = "msg" /\ W[w].att # {}
        \/ Head(W[w].q).k \in {"add", "stop"}
  \/ W[w].cur.k \in {"msg", "fsend"} /\ \E s \in W[w].cur.rem : ObsOK(s, 0, W[w].cur.task.m)
  \/ W[w].cur.k = "rel" /\ W[w].cur.rem = {} /\ \A s \in W[w].cur.ws : S[s].st = "dead"
FReady(s) == IsF(s) /\ S[s].st = "closing"
RmReady(t) == Top(t).op = "rm" /\ Top(t).ph \in {"c", "k"} /\ ~MayBeLast(Top(t))
TReady(t) == RmReady(t) \/ LockReady(t) \/ RelReady(t) \/ PushReady(t) \/ FatalReady(t)

Safe == \/ \E w \in DOMAIN W : WReady(w)
        \/ \E s \in DOMAIN S : FReady(s)
        \/ \E t \in DOMAIN th : TReady(t)
SafeStep ==
  IF \E w \in DOMAIN W : WReady(w)
  THEN LET w == CHOOSE w \in DOMAIN W : WReady(w)
       IN \/ WPopMsg(w) \/ WAdd(w) \/ WDetached(w) \/ WStop(w)
          \/ /\ (\E s \in W[w].cur.rem : ObsOK(s, 0, W[w].cur.task.m)) = TRUE
             /\ WSend(w, CHOOSE s \in W[w].cur.rem : ObsOK(s, 0, W[w].cur.task.m))
  ELSE IF \E s \in DOMAIN S : FReady(s)
  THEN LET s == CHOOSE s \in DOMAIN S : FReady(s)
       IN /\ S' = [S EXCEPT ![s].st = "dead"]
          /\ Quiet /\ UNCHANGED <<G, W, th, fut>>
  ELSE LET t == CHOOSE t \in DOMAIN th : TReady(t)
       IN RmPeek(t) \/ RmUnpeek(t) \/ LogRead(t) \/ HcLock(t) \/ HcPush(t) \/ HcRelease(t) \/ AddRelease(t) \/ DropRelease(t)
          \/ FatalTake(t) \/ FatalCount(t) \/ FatalCompose(t)

\* ---- fatal events: one that is seen nowhere (no message, no hook; T.fobs: those that are) can only take the hook away
\* or count, which is of interest only if a message says that it is not the first (T.rec)
FatalCounts(t) == InSeq(Top(t).a, T.fobs) \/ G.hook # 0 \/ Top(t).h # 0 \/ (T.rec = 1 /\ G.nfatal < 2)

\* ---- silent steps whose order matters
ThreadSilent(t) ==
  /\ HasTop(t)
  /\ \/ IsTop(t, "log", "g") /\ PredOK(Top(t).a) /\ UnobsOK(Top(t).a) /\ AddOK(Top(t).a, Top(t).b) /\ LogPush(t)
     \/ LogRead(t)
     \/ EarlyKeep(t) \/ LogDrop(t)
     \/ AddPush(t) \/ RmPush(t) \/ ClrPush(t) \/ RmPeek(t) \/ RmUnpeek(t)
     \/ Top(t).op = "hc" /\ LockFree(t) /\ HcLock(t)
     \/ HoldPeek(t) \/ HoldUnpeek(t) \/ HoldLock(t)
     \/ MayBeLast(Top(t)) /\ (AddRelease(t) \/ HcRelease(t) \/ DropRelease(t))
     \/ InitEarly(t) \/ InitEffect(t) \/ InitHook(t) \/ ShutEffect(t) \/ DestroyShut(t) \/ DestroyStop(t)
     \/ SetHookEffect(t) \/ (Top(t).op = "fatal" /\ PredOK(Top(t).a) /\ FatalPush(t))
     \/ Top(t).op = "fatal" /\ FatalCounts(t) /\ (FatalTake(t) \/ FatalCount(t))
     \/ Top(t).op = "fatal" /\ InSeq(Top(t).a, T.fobs) /\ FatalCompose(t)
\* T.die: where the sink's destruction is seen
DieAt(s) == LET j == CHOOSE j \in 1..Len(T.sinks) : T.sinks[j][1] = s IN T.die[j]
NextToDie(s, rem) == S[s].pin = 0 => \A u \in rem : S[u].pin = 0 => DieAt(s) <= DieAt(u)
WorkerSilent(w) == \/ WNoSinkWarn(w) \/ WRemove(w) \/ WClear(w) \/ WFatal(w) \/ WFatalClear(w) \/ WFatalDie(w)
                   \/ \E s \in W[w].cur.rem : NextToDie(s, W[w].cur.rem) /\ WRelease(w, s)

SilentStep == (\E t \in DOMAIN th : ThreadSilent(t)) \/ (\E w \in DOMAIN W : WorkerSilent(w))

\* ---- visible steps
AppEvents == {LOGC, ADDC, RMC, CLRC, DC, INITC, HCC, FUTC, FATC, SETHOOKC, SETHANDC, SHUTC, HOLDC, DROPC, WORKER}
IsApp(t) == role[t] \in {0, -1} /\ role' = [role EXCEPT ![t] = -1]
IsSink(t, s) == role[t] \in {0, s} /\ (\A u \in DOMAIN role : u = t \/ role[u] # s) /\ role' = [role EXCEPT ![t] = s]

\* what is shown on the standard error stream is the text that was logged (b = 1)
CerrOK(a, b) == a >= 700000 \/ b = 1
CerrMatch(t, a) ==
  \/ EarlyShow(t, a)
  \/ \E w \in DOMAIN W : WNoSink(w, a) \/ WFatalShow(w, a)
  \/ FatalAlone(t, a)
  \/ a = INITERR /\ InitComplain(t)

Match(e) ==
  LET k == e[1] t == e[2] a == e[3] b == e[4] c == e[5] d == e[6] IN
  \/ k = LOGC /\ LogCall(t, a)
  \/ k = LOGR /\ LogRet(t, a)
  \/ k = ADDC /\ AddCall(t, a, b)
  \/ k = ADDR /\ AddRet(t, a)
  \/ k = RMC /\ RmCall(t, a, b)
  \/ k = RMR /\ RmRet(t, a)
  \/ k = CLRC /\ ClrCall(t, a)
  \/ k = CLRR /\ ClrRet(t, a)
  \/ k = DC /\ DestroyCall(t, a)
  \/ k = DR /\ DestroyRet(t, a)
  \/ k = INITC /\ InitCall(t, a)
  \/ k = INITR /\ InitRet(t, a)
  \/ k = RECVB /\ SBegin(t, a, "msg", b, c)
  \/ k = RECVE /\ SEndMsg(t, a, b)
  \/ k = EXECB /\ c = 1 /\ SBegin(t, a, "call", b, 0)
  \/ k = EXECE /\ SEndCall(t, a, b)
  \/ k = SDTOR /\ SDie(a)
  \/ k = HCC /\ HcCall(t, a, b)
  \/ k = HCR /\ c = 0 /\ HcRet(t, a)                    \* c: what the caller gave was changed
  \/ k = FUTC /\ FutCall(t, a)
  \/ k = FUTR /\ c = 1 /\ FutRet(t, a, b, Throws(a))
  \/ k = CERR /\ CerrOK(a, b) /\ CerrMatch(t, a)
  \/ k = FATC /\ FatalCall(t, a, b, a >= 800000)
  \/ k = FATR /\ FatalRet(t, a, b)
  \/ k = HOOKB /\ HookBegin(t, a)
  \/ k = HOOKE /\ HookEnd(t, a)
  \/ k = HANDB /\ HandlerBegin(t, a, b, c, d)
  \/ k = HANDE /\ HandlerEnd(t, a, b)
  \/ k = WORKER /\ CreateWorker(a)
  \/ k = SETHOOKC /\ SetHookCall(t, a)
  \/ k = SETHOOKR /\ SetHookRet(t, a)
  \/ k = SETHANDC /\ SetHandlerCall(t, a, IF b = 1 THEN "default" ELSE IF b = 2 THEN "throw" ELSE IF b = 3 THEN "default+" ELSE "ret")
  \/ k = SETHANDR /\ SetHandlerRet(t, a)
  \/ k = SHUTC /\ ShutCall(t)
  \/ k = SHUTR /\ ShutRet(t)
  \/ k = HOLDC /\ HoldCall(t, a)
  \/ k = HOLDR /\ HoldRet(t, a, b = 1)
  \/ k = DROPC /\ DropCall(t, a, b = 1)
  \/ k = DROPR /\ DropRet(t, a)
  \/ k = CONT /\ G.end = "run" /\ (\A u \in DOMAIN th : IF th[u] = <<>> THEN TRUE ELSE th[u][1].op = "sinkcode") /\ Quiet /\ UNCHANGED <<G, W, S, th, fut>>

VisibleStep ==
  /\ i <= Len(T.ev)
  /\ LET e == T.ev[i] IN
     /\ Match(e)
     /\ IF e[1] \in AppEvents /\ th[e[2]] = <<>> THEN IsApp(e[2])
        ELSE IF e[1] \in {RECVB, EXECB} THEN IsSink(e[2], e[3])
        ELSE role' = role
  /\ i' = i + 1
  /\ tr' = tr

\* the end of the process: <<0, code>> exited, <<1, sig>> died from a signal, <<2, why>> did not end by itself
FileOK(s) == LET f == FileOf(s)
                 q == [j \in 1..Len(S[s].q) |-> S[s].q[j].id]
             IN IF S[s].st = "dead" THEN f = <<1, q>>
                ELSE f[1] = 0 /\ Len(f[2]) <= Len(q) /\ f[2] = SubSeq(q, 1, Len(f[2]))
EndOK ==
  /\ \/ T.end = <<0, 0>> /\ G.end = "run" /\ T.ev # <<>> /\ T.ev[Len(T.ev)][1] = CONT
     \/ T.end = <<0, 1>> /\ G.end = "exit1"
     \/ T.end[1] = 1 /\ G.end = "dying" /\ T.end[2] \in EndSigs
  /\ \A s \in SinkIds : IsF(s) => FileOK(s)

Accept ==
  /\ i = Len(T.ev) + 1
  /\ EndOK
  /\ PrintT(<<"ACC", tr>>)
  /\ TLCSet(2, TLCGet(2) \cup {tr})
  /\ i' = i + 1
  /\ UNCHANGED <<G, W, S, th, fut, hist, tr, role>>

TNext ==
  \* (= TRUE: evaluated as a value, not as alternatives)
  \/ Safe = TRUE /\ SafeStep /\ UNCHANGED <<tr, i, role>>
  \/ ~Safe /\ SilentStep /\ UNCHANGED <<tr, i, role>>
  \/ ~Safe /\ VisibleStep
  \/ ~Safe /\ Accept

\* a constraint only to stop exploring traces that are already accepted, and to note how far a single trace gets
ASSUME TLCSet(1, 0) /\ TLCSet(2, {})
\* a worker that can only go on when a sink takes something else first, which no call can provide, is in a dead end;
\* so is a sink that is to be destroyed without having been sent all it takes in this trace
Stuck(s, m) == IF IsF(s) THEN ~ObsOK(s, 0, m)
               ELSE LET q == ObsOf(s) k == S[s].n + Len(S[s].q) + 1
                    IN IF k <= Len(q) THEN q[k][1] = 0 /\ q[k][2] # m ELSE InSeq(<<0, m>>, q)
DeadEnd == \/ \E w \in DOMAIN W : W[w].cur.k \in {"msg", "fsend"} /\ \E s \in W[w].cur.rem : Stuck(s, W[w].cur.task.m)
           \/ \E s \in DOMAIN S : S[s].st = "closing" /\ ~IsF(s) /\ S[s].n + Len(S[s].q) < Len(ObsOf(s))
Explore == /\ tr \notin TLCGet(2)
           /\ ~DeadEnd
           /\ Single => (IF TLCGet(1) < i THEN TLCSet(1, i) /\ PrintT(<<"REACHED", i>>) ELSE TRUE)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
