------------------------------- MODULE G3Log -------------------------------
(* The g3log pipeline: application threads -> active logger (worker) -> sinks, with membership changes, handle calls,   *)
(* lifecycle (early message, initialization, several workers, shutdown) and fatal event handling up to the death of the *)
(* process.  Every action is either VISIBLE (it corresponds to one event recorded from the real code, its name is in    *)
(* the comment) or SILENT (it happens inside the library between two events).                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT KeepHist          \* keep the history of visible events (model checking of the trace-level properties)

VARIABLES G,      \* global state of the library
          W,      \* workers:  st, q (queue), cur (task in progress), att (attached sinks)
          S,      \* sinks:    st, q (queue), cur (item in progress), pin (references held outside the sink list)
          th,     \* threads:  stack of operations in progress
          fut,    \* futures of handle calls
          hist

vars == <<G, W, S, th, fut, hist>>

\* ---------------------------------------------------------------- visible events: <<kind, thread, a, b, c, d>>
LOGC == 1 LOGR == 2 ADDC == 3 ADDR == 4 RMC == 5 RMR == 6 CLRC == 7 CLRR == 8 DC == 9 DR == 10 INITC == 11 INITR == 12
RECVB == 13 RECVE == 14 EXECB == 15 EXECE == 16 SDTOR == 17 HCC == 18 HCR == 19 FUTC == 20 FUTR == 21 CERR == 22
FATC == 23 FATR == 24 HOOKB == 25 HOOKE == 26 HANDB == 27 HANDE == 28 WORKER == 29 SETHOOKC == 30 SETHOOKR == 31
SETHANDC == 32 SETHANDR == 33 SHUTC == 34 SHUTR == 35 HOLDC == 36 HOLDR == 37 DROPC == 38 DROPR == 39 CONT == 40 CATCH == 41

NoW    == -1
WARN   == 900000     \* the warning logged when a non-active worker is destroyed
INITERR == 700000    \* explanation printed at an illegal initialization

\* ---------------------------------------------------------------- content of a received message
BText == 1  BMeta == 2  BStack == 4  BReason == 8  BFlush == 16  BRecur == 32  BEarly == 64  BKind == 128
BitsPlain == BText + BMeta
BitsEarly == BText + BMeta + BEarly
BitsFatal(rec)   == BText + BMeta + BStack + BReason + BFlush + BKind + (IF rec THEN BRecur ELSE 0)
BitsHandler(rec) == BText + BMeta + BStack + BKind + (IF rec THEN BRecur ELSE 0)

\* ---------------------------------------------------------------- records (uniform, so that TLC can compare them)
Task(k, m, s, t, sig, b) == [k |-> k, m |-> m, s |-> s, t |-> t, sig |-> sig, b |-> b]
Idle == [k |-> "idle", rem |-> {}, ws |-> {}, task |-> Task("none", 0, 0, 0, 0, 0)]
NoItem == [k |-> "none", id |-> 0, b |-> 0]
Msg(m, b) == [k |-> "msg", id |-> m, b |-> b]
Call(c)   == [k |-> "call", id |-> c, b |-> 0]
Op(op, a, b, c, ph) == [op |-> op, a |-> a, b |-> b, c |-> c, ph |-> ph, rec |-> FALSE, h |-> 0]

InitG == [active |-> NoW, early |-> "none", earlyM |-> 0, firstInit |-> FALSE, hook |-> 0, handler |-> [id |-> 0, kind |-> "default"],
          nfatal |-> 0, handed |-> FALSE, sigTaken |-> {}, end |-> "run", endSig |-> 0]

InitState(workers, sinks, threads, calls) ==
  /\ G = InitG
  /\ W = [w \in workers |-> [st |-> "none", q |-> <<>>, cur |-> Idle, att |-> {}]]
  /\ S = [s \in sinks |-> [st |-> "none", q |-> <<>>, cur |-> NoItem, pin |-> 0, n |-> 0]]
  /\ th = [t \in threads |-> <<>>]
  /\ fut = [c \in calls |-> "none"]
  /\ hist = <<>>

Emit(e) == hist' = IF KeepHist THEN Append(hist, e) ELSE hist
Quiet   == hist' = hist
Running == G.end = "run"

\* ---------------------------------------------------------------- helpers
NoOp        == Op("none", 0, 0, 0, "none")
Top(t)      == IF th[t] = <<>> THEN NoOp ELSE th[t][Len(th[t])]
HasTop(t)   == th[t] # <<>>
IsTop(t, op, ph) == HasTop(t) /\ Top(t).op = op /\ Top(t).ph = ph
PushOp(t, o) == th' = [th EXCEPT ![t] = Append(@, o)]
PopOp(t)    == th' = [th EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Phase(t, p) == [th EXCEPT ![t][Len(th[t])].ph = p]
SetPhase(t, p) == th' = Phase(t, p)
\* phase of the bottom-most operation of thread t with the given name (the one waiting for the worker)
MarkDone(t, p) == [th EXCEPT ![t][Len(th[t])].ph = p]

InSeq(x, q) == \E j \in 1..Len(q) : q[j] = x
Attached(s) == \E w \in DOMAIN W : s \in W[w].att
\* a thread may start an operation of its own only when the innermost thing it does is application code
AppCode(t) == <<Top(t).op, Top(t).ph>> \in {<<"none", "none">>, <<"fatal", "hook">>, <<"fatal", "handler">>, <<"sinkcode", "c">>}

\* the worker ends the process after a fatal message: what comes behind it in the queue is never looked at
FatalSeen(w) == W[w].cur.k \in {"fshow", "fsend", "fclear", "died"} \/ \E j \in 1..Len(W[w].q) : W[w].q[j].k = "fatal"

\* =================================================================== logging
LogCall(t, m) ==                                        \* event LOGC
  /\ AppCode(t)
  /\ PushOp(t, Op("log", m, 0, 0, "c"))
  /\ Emit(<<LOGC, t, m, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

LogRead(t) ==                                           \* silent: the logger pointer is read
  /\ IsTop(t, "log", "c")
  /\ IF G.active = NoW THEN SetPhase(t, "u")
     ELSE th' = [th EXCEPT ![t][Len(th[t])].ph = "g", ![t][Len(th[t])].b = G.active]
  /\ Quiet
  /\ UNCHANGED <<G, W, S, fut>>

LogPush(t) ==                                           \* silent: the message is put in the queue of that worker
  /\ IsTop(t, "log", "g")
  /\ LET w == Top(t).b IN
     /\ W[w].st = "up"
     /\ W' = IF FatalSeen(w) THEN W ELSE [W EXCEPT ![w].q = Append(@, Task("msg", Top(t).a, 0, 0, 0, BitsPlain))]
  /\ SetPhase(t, "p")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

EarlyShow(t, m) ==                                      \* event CERR: the first message without a logger is shown
  /\ IsTop(t, "log", "u") /\ Top(t).a = m
  /\ G.early = "none"
  /\ G' = [G EXCEPT !.early = "making", !.earlyM = m]
  /\ SetPhase(t, "e")
  /\ Emit(<<CERR, t, m, 1, 0, 0>>)
  /\ UNCHANGED <<W, S, fut>>

EarlyKeep(t) ==                                         \* silent: ... and kept
  /\ IsTop(t, "log", "e")
  /\ G' = [G EXCEPT !.early = "held"]
  /\ SetPhase(t, "p")
  /\ Quiet
  /\ UNCHANGED <<W, S, fut>>

LogDrop(t) ==                                           \* silent: later messages without a logger are discarded
  /\ IsTop(t, "log", "u")
  /\ G.early \in {"held", "gone"}
  /\ SetPhase(t, "p")
  /\ Quiet
  /\ UNCHANGED <<G, W, S, fut>>

LogRet(t, m) ==                                         \* event LOGR
  /\ IsTop(t, "log", "p") /\ Top(t).a = m
  /\ PopOp(t)
  /\ Emit(<<LOGR, t, m, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* =================================================================== the worker thread
WPopMsg(w) ==                                           \* silent
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "msg"
  /\ W[w].att # {}
  /\ W' = [W EXCEPT ![w].q = Tail(@), ![w].cur = [k |-> "msg", rem |-> W[w].att, ws |-> {}, task |-> Head(W[w].q)]]
  /\ Quiet
  /\ UNCHANGED <<G, S, th, fut>>

WSend(w, s) ==                                          \* silent: forward to one of the attached sinks
  /\ W[w].cur.k \in {"msg", "fsend"}
  /\ s \in W[w].cur.rem
  /\ LET b == IF W[w].cur.k = "msg" THEN W[w].cur.task.b ELSE BitsFatal(W[w].cur.task.b = 1)
         last == W[w].cur.rem = {s}
     IN /\ S' = [S EXCEPT ![s].q = Append(@, Msg(W[w].cur.task.m, b))]
        /\ W' = [W EXCEPT ![w].cur = IF last /\ W[w].cur.k = "msg" THEN Idle ELSE [@ EXCEPT !.rem = @ \ {s}]]
  /\ Quiet
  /\ UNCHANGED <<G, th, fut>>

WNoSink(w, m) ==                                        \* event CERR: no sinks, the message is shown
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "msg" /\ Head(W[w].q).m = m
  /\ W[w].att = {}
  /\ W' = [W EXCEPT ![w].q = Tail(@)]
  /\ Emit(<<CERR, -1, m, 1, 0, 0>>)
  /\ UNCHANGED <<G, S, th, fut>>

WNoSinkWarn(w) ==                                       \* the warning carries no tag on standard error
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "msg" /\ Head(W[w].q).m = WARN
  /\ W[w].att = {}
  /\ W' = [W EXCEPT ![w].q = Tail(@)]
  /\ Quiet
  /\ UNCHANGED <<G, S, th, fut>>

WAdd(w) ==                                              \* silent
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ LET k == Head(W[w].q) IN
     /\ k.k = "add"
     /\ W' = [W EXCEPT ![w].q = Tail(@), ![w].att = @ \cup {k.s}]
     /\ th' = MarkDone(k.t, "d")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

\* Detaching: the references of the sink list are given up one after the other (in any order); a sink nobody else holds
\* on to is destroyed before the next one is released.  cur.rem: sinks still to be released; cur.ws: the one that is dying.
\* Detaching one sink: the worker holds on to the sink, if it is alive, while it takes it out of the list.
WRemove(w) ==                                           \* silent
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "rm"
  /\ LET s == Head(W[w].q).s
         live == S[s].st = "live" /\ Head(W[w].q).b = 1
     IN /\ W' = [W EXCEPT ![w].q = Tail(@), ![w].att = @ \ {s},
                          ![w].cur = [k |-> "rel", rem |-> IF live THEN {s} ELSE {}, ws |-> {}, task |-> Head(W[w].q)]]
        /\ S' = IF live THEN [S EXCEPT ![s].pin = @ + 1] ELSE S
  /\ Quiet
  /\ UNCHANGED <<G, th, fut>>

WClear(w) ==                                            \* silent
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "clr"
  /\ W' = [W EXCEPT ![w].q = Tail(@), ![w].cur = [k |-> "rel", rem |-> W[w].att, ws |-> {}, task |-> Head(W[w].q)]]
  /\ Quiet
  /\ UNCHANGED <<G, S, th, fut>>

WRelease(w, s) ==                                       \* silent
  /\ W[w].cur.k \in {"rel", "fclear"} /\ s \in W[w].cur.rem
  /\ \A d \in W[w].cur.ws : S[d].st = "dead"
  /\ LET mine == IF W[w].cur.k = "rel" /\ W[w].cur.task.k = "rm" THEN 1 ELSE 0      \* the reference taken by WRemove
         gone == S[s].pin = mine /\ S[s].st = "live"
     IN /\ S' = [S EXCEPT ![s].st = IF gone THEN "closing" ELSE @, ![s].pin = @ - mine]
        /\ W' = [W EXCEPT ![w].att = @ \ {s}, ![w].cur.rem = @ \ {s}, ![w].cur.ws = IF gone THEN {s} ELSE {}]
  /\ Quiet
  /\ UNCHANGED <<G, th, fut>>

WDetached(w) ==                                         \* silent: all released, those to be destroyed are gone, the caller may go on
  /\ W[w].cur.k = "rel" /\ W[w].cur.rem = {}
  /\ \A s \in W[w].cur.ws : S[s].st = "dead"
  /\ W' = [W EXCEPT ![w].cur = Idle]
  /\ th' = MarkDone(W[w].cur.task.t, "d")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

WStop(w) ==                                             \* silent: the worker thread ends
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "stop"
  /\ W' = [W EXCEPT ![w].st = "down", ![w].q = <<>>]
  /\ Quiet
  /\ UNCHANGED <<G, S, th, fut>>

\* ---- a fatal message: shut down logging, show it, forward it, destroy all sinks, end the process
WFatal(w) ==                                            \* silent
  /\ W[w].st = "up" /\ W[w].cur = Idle /\ W[w].q # <<>>
  /\ Head(W[w].q).k = "fatal"
  /\ G' = [G EXCEPT !.active = NoW]
  /\ W' = [W EXCEPT ![w].q = Tail(@), ![w].cur = [k |-> "fshow", rem |-> W[w].att, ws |-> {}, task |-> Head(W[w].q)]]
  /\ Quiet
  /\ UNCHANGED <<S, th, fut>>

WFatalShow(w, m) ==                                     \* event CERR
  /\ W[w].cur.k = "fshow" /\ W[w].cur.task.m = m
  /\ W' = [W EXCEPT ![w].cur.k = "fsend"]
  /\ Emit(<<CERR, -1, m, 1, 0, 0>>)
  /\ UNCHANGED <<G, S, th, fut>>

WFatalClear(w) ==                                       \* silent
  /\ W[w].cur.k = "fsend" /\ W[w].cur.rem = {}
  /\ W' = [W EXCEPT ![w].cur.k = "fclear", ![w].cur.rem = W[w].att]
  /\ Quiet
  /\ UNCHANGED <<G, S, th, fut>>

WFatalDie(w) ==                                         \* silent: everything flushed
  /\ W[w].cur.k = "fclear" /\ W[w].cur.rem = {} /\ \A s \in W[w].cur.ws : S[s].st = "dead"
  /\ G' = [G EXCEPT !.end = "dying", !.endSig = W[w].cur.task.sig]
  /\ W' = [W EXCEPT ![w].cur.k = "died"]
  /\ Quiet
  /\ UNCHANGED <<S, th, fut>>

\* =================================================================== sinks
SBegin(t, s, k, id, b) ==                               \* events RECVB, EXECB; t is the thread it happens on: one that
  /\ S[s].st \in {"live", "closing"} /\ S[s].cur = NoItem /\ S[s].q # <<>>      \* does nothing else
  /\ Head(S[s].q).k = k /\ Head(S[s].q).id = id /\ Head(S[s].q).b = b
  /\ th[t] = <<>>
  /\ S' = [S EXCEPT ![s].cur = Head(S[s].q), ![s].q = Tail(@), ![s].n = @ + 1]
  /\ PushOp(t, Op("sinkcode", s, 0, 0, "c"))
  /\ Emit(IF k = "msg" THEN <<RECVB, t, s, id, b, 0>> ELSE <<EXECB, t, s, id, 1, 0>>)
  /\ UNCHANGED <<G, W, fut>>

SEndMsg(t, s, m) ==                                     \* event RECVE
  /\ S[s].cur.k = "msg" /\ S[s].cur.id = m
  /\ IsTop(t, "sinkcode", "c") /\ Top(t).a = s
  /\ S' = [S EXCEPT ![s].cur = NoItem]
  /\ PopOp(t)
  /\ Emit(<<RECVE, t, s, m, 0, 0>>)
  /\ UNCHANGED <<G, W, fut>>

SEndCall(t, s, c) ==                                    \* event EXECE
  /\ S[s].cur.k = "call" /\ S[s].cur.id = c
  /\ IsTop(t, "sinkcode", "c") /\ Top(t).a = s
  /\ S' = [S EXCEPT ![s].cur = NoItem]
  /\ fut' = [fut EXCEPT ![c] = "run"]
  /\ PopOp(t)
  /\ Emit(<<EXECE, t, s, c, 0, 0>>)
  /\ UNCHANGED <<G, W>>

SDie(s) ==                                              \* event SDTOR
  /\ S[s].st = "closing" /\ S[s].cur = NoItem /\ S[s].q = <<>>
  /\ S' = [S EXCEPT ![s].st = "dead"]
  /\ Emit(<<SDTOR, -1, s, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, th, fut>>

\* ---- a reference that keeps sink s alive is given up by thread t; the last one destroys it, in that thread
LastRef(s) == S[s].pin = 1 /\ ~Attached(s) /\ S[s].st = "live"
Release(s) == S' = [S EXCEPT ![s].pin = @ - 1, ![s].st = IF LastRef(s) THEN "closing" ELSE @]

\* =================================================================== membership
AddCall(t, s, w) ==                                     \* event ADDC
  /\ AppCode(t) /\ S[s].st = "none"
  /\ S' = [S EXCEPT ![s].st = "live", ![s].pin = 1]
  /\ PushOp(t, Op("add", s, w, 0, "c"))
  /\ Emit(<<ADDC, t, s, w, 0, 0>>)
  /\ UNCHANGED <<G, W, fut>>

AddPush(t) ==                                           \* silent
  /\ IsTop(t, "add", "c")
  /\ W' = [W EXCEPT ![Top(t).b].q = Append(@, Task("add", 0, Top(t).a, t, 0, 0))]
  /\ SetPhase(t, "w")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

AddRelease(t) ==                                        \* silent: the references of the call are given up
  /\ IsTop(t, "add", "d")
  /\ SetPhase(t, IF LastRef(Top(t).a) THEN "x" ELSE "r") /\ Release(Top(t).a)
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

AddRet(t, s) ==                                         \* event ADDR
  /\ HasTop(t) /\ Top(t).op = "add" /\ Top(t).a = s
  /\ Top(t).ph = "r" \/ (Top(t).ph = "x" /\ S[s].st = "dead")
  /\ PopOp(t)
  /\ Emit(<<ADDR, t, s, Top(t).b, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

RmCall(t, s, w) ==                                      \* event RMC
  /\ AppCode(t)
  /\ PushOp(t, Op("rm", s, w, 0, "c"))
  /\ Emit(<<RMC, t, s, w, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* the handle looks whether the sink is alive, and holds on to it while it does
RmPeek(t) ==                                            \* silent
  /\ IsTop(t, "rm", "c")
  /\ LET s == Top(t).a IN
     IF S[s].st = "live"
     THEN S' = [S EXCEPT ![s].pin = @ + 1] /\ SetPhase(t, "k")
     ELSE S' = S /\ SetPhase(t, "n")
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

RmUnpeek(t) ==                                          \* silent
  /\ IsTop(t, "rm", "k")
  /\ SetPhase(t, IF LastRef(Top(t).a) THEN "x" ELSE "l") /\ Release(Top(t).a)
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

RmPush(t) ==                                            \* silent
  /\ IsTop(t, "rm", "l") \/ IsTop(t, "rm", "n") \/ (IsTop(t, "rm", "x") /\ S[Top(t).a].st = "dead")
  /\ W' = [W EXCEPT ![Top(t).b].q = Append(@, Task("rm", 0, Top(t).a, t, 0, IF Top(t).ph = "n" THEN 0 ELSE 1))]
  /\ SetPhase(t, "w")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

RmRet(t, s) ==                                          \* event RMR
  /\ IsTop(t, "rm", "d") /\ Top(t).a = s
  /\ PopOp(t)
  /\ Emit(<<RMR, t, s, Top(t).b, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

ClrCall(t, w) ==                                        \* event CLRC
  /\ AppCode(t)
  /\ PushOp(t, Op("clr", 0, w, 0, "c"))
  /\ Emit(<<CLRC, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

ClrPush(t) ==                                           \* silent; also the first half of the worker's destruction
  /\ HasTop(t) /\ <<Top(t).op, Top(t).ph>> \in {<<"clr", "c">>, <<"destroy", "s">>}
  /\ W' = [W EXCEPT ![Top(t).b].q = Append(@, Task("clr", 0, 0, t, 0, 0))]
  /\ SetPhase(t, "w")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

ClrRet(t, w) ==                                         \* event CLRR
  /\ IsTop(t, "clr", "d") /\ Top(t).b = w
  /\ PopOp(t)
  /\ Emit(<<CLRR, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* =================================================================== handle calls
HcCall(t, c, s) ==                                      \* event HCC
  /\ AppCode(t)
  /\ PushOp(t, Op("hc", c, s, 0, "c"))
  /\ Emit(<<HCC, t, c, s, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

HcLock(t) ==                                            \* silent: promote the weak reference, or fail
  /\ IsTop(t, "hc", "c")
  /\ LET s == Top(t).b c == Top(t).a IN
     IF S[s].st = "live"
     THEN /\ S' = [S EXCEPT ![s].pin = @ + 1]
          /\ SetPhase(t, "l")
          /\ UNCHANGED fut
     ELSE /\ fut' = [fut EXCEPT ![c] = "expired"]
          /\ SetPhase(t, "d")
          /\ UNCHANGED S
  /\ Quiet
  /\ UNCHANGED <<G, W>>

HcPush(t) ==                                            \* silent
  /\ IsTop(t, "hc", "l")
  /\ S' = [S EXCEPT ![Top(t).b].q = Append(@, Call(Top(t).a))]
  /\ SetPhase(t, "u")
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

HcRelease(t) ==                                         \* silent
  /\ IsTop(t, "hc", "u")
  /\ LET s == Top(t).b IN
     SetPhase(t, IF LastRef(s) THEN "x" ELSE "d") /\ Release(s)
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

HcRet(t, c) ==                                          \* event HCR
  /\ HasTop(t) /\ Top(t).op = "hc" /\ Top(t).a = c
  /\ Top(t).ph = "d" \/ (Top(t).ph = "x" /\ S[Top(t).b].st = "dead")
  /\ PopOp(t)
  /\ Emit(<<HCR, t, c, Top(t).b, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

FutCall(t, c) ==                                        \* event FUTC
  /\ AppCode(t)
  /\ PushOp(t, Op("fut", c, 0, 0, "c"))
  /\ Emit(<<FUTC, t, c, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* kind: 0 value, 1 the exception thrown by the function, 2 expired sink; throws: what the function does
FutRet(t, c, kind, throws) ==                           \* event FUTR
  /\ IsTop(t, "fut", "c") /\ Top(t).a = c
  /\ \/ fut[c] = "run" /\ kind = (IF throws THEN 1 ELSE 0)
     \/ fut[c] = "expired" /\ kind = 2
  /\ fut' = [fut EXCEPT ![c] = "got"]
  /\ PopOp(t)
  /\ Emit(<<FUTR, t, c, kind, 1, 0>>)
  /\ UNCHANGED <<G, W, S>>

\* ---- a client may hold on to a sink through its handle
HoldCall(t, s) ==                                       \* event HOLDC
  /\ AppCode(t)
  /\ PushOp(t, Op("hold", s, 0, 0, "c"))
  /\ Emit(<<HOLDC, t, s, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* SinkHandle::sink() looks whether the sink is alive, and holds on to it while it does; then the client locks it
HoldPeek(t) ==                                          \* silent
  /\ IsTop(t, "hold", "c")
  /\ LET s == Top(t).a IN
     IF S[s].st = "live"
     THEN S' = [S EXCEPT ![s].pin = @ + 1] /\ SetPhase(t, "k")
     ELSE S' = S /\ SetPhase(t, "n")
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

HoldUnpeek(t) ==                                        \* silent
  /\ IsTop(t, "hold", "k")
  /\ SetPhase(t, IF LastRef(Top(t).a) THEN "x" ELSE "l") /\ Release(Top(t).a)
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

HoldLock(t) ==                                          \* silent
  /\ IsTop(t, "hold", "l") \/ (IsTop(t, "hold", "x") /\ S[Top(t).a].st = "dead")
  /\ LET s == Top(t).a IN
     IF S[s].st = "live"
     THEN S' = [S EXCEPT ![s].pin = @ + 1] /\ SetPhase(t, "y")
     ELSE S' = S /\ SetPhase(t, "n")
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

HoldRet(t, s, got) ==                                   \* event HOLDR
  /\ IsTop(t, "hold", IF got THEN "y" ELSE "n") /\ Top(t).a = s
  /\ PopOp(t)
  /\ Emit(<<HOLDR, t, s, IF got THEN 1 ELSE 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

DropCall(t, s, held) ==                                 \* event DROPC
  /\ AppCode(t)
  /\ PushOp(t, Op("drop", s, 0, 0, IF held THEN "c" ELSE "d"))
  /\ Emit(<<DROPC, t, s, IF held THEN 1 ELSE 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

DropRelease(t) ==                                       \* silent
  /\ IsTop(t, "drop", "c")
  /\ LET s == Top(t).a IN
     SetPhase(t, IF LastRef(s) THEN "x" ELSE "d") /\ Release(s)
  /\ Quiet
  /\ UNCHANGED <<G, W, fut>>

DropRet(t, s) ==                                        \* event DROPR
  /\ HasTop(t) /\ Top(t).op = "drop" /\ Top(t).a = s
  /\ Top(t).ph = "d" \/ (Top(t).ph = "x" /\ S[s].st = "dead")
  /\ PopOp(t)
  /\ Emit(<<DROPR, t, s, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* =================================================================== lifecycle
CreateWorker(w) ==                                      \* event WORKER
  /\ W[w].st = "none"
  /\ W' = [W EXCEPT ![w].st = "up"]
  /\ Emit(<<WORKER, -1, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, S, th, fut>>

InitCall(t, w) ==                                       \* event INITC   (w = NoW: no logger given)
  /\ AppCode(t)
  /\ PushOp(t, Op("init", 0, w, 0, "c"))
  /\ Emit(<<INITC, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

InitEarly(t) ==                                         \* silent: the rules are checked; a kept message goes ahead of all others
  /\ IsTop(t, "init", "c")
  /\ LET w == Top(t).b IN
     IF G.active # NoW \/ w = NoW
     THEN SetPhase(t, "bad") /\ UNCHANGED <<G, W>>
     ELSE /\ G' = [G EXCEPT !.firstInit = TRUE, !.early = IF ~G.firstInit /\ @ = "held" THEN "gone" ELSE @]
          /\ W' = IF ~G.firstInit /\ G.early = "held"
                  THEN [W EXCEPT ![w].q = Append(@, Task("msg", G.earlyM, 0, 0, 0, BitsEarly))] ELSE W
          /\ SetPhase(t, "e")
  /\ Quiet
  /\ UNCHANGED <<S, fut>>

InitEffect(t) ==                                        \* silent: logging goes to this worker from now on
  /\ IsTop(t, "init", "e")
  /\ G' = [G EXCEPT !.active = Top(t).b]
  /\ SetPhase(t, "h")
  /\ Quiet
  /\ UNCHANGED <<W, S, fut>>

InitHook(t) ==                                          \* silent: a fresh hook, and no fatal event yet
  /\ IsTop(t, "init", "h")
  /\ G' = [G EXCEPT !.hook = 0, !.nfatal = 0]
  /\ SetPhase(t, "p")
  /\ Quiet
  /\ UNCHANGED <<W, S, fut>>

InitComplain(t) ==                                      \* event CERR
  /\ IsTop(t, "init", "bad")
  /\ SetPhase(t, "exit")
  /\ G' = [G EXCEPT !.end = "exit1"]
  /\ Emit(<<CERR, t, INITERR, 0, 0, 0>>)
  /\ UNCHANGED <<W, S, fut>>

InitRet(t, w) ==                                        \* event INITR
  /\ IsTop(t, "init", "p") /\ Top(t).b = w
  /\ PopOp(t)
  /\ Emit(<<INITR, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

ShutCall(t) == /\ AppCode(t) /\ PushOp(t, Op("shut", 0, 0, 0, "c")) /\ Emit(<<SHUTC, t, 0, 0, 0, 0>>) /\ UNCHANGED <<G, W, S, fut>>     \* event SHUTC
ShutEffect(t) == /\ IsTop(t, "shut", "c") /\ G' = [G EXCEPT !.active = NoW] /\ SetPhase(t, "p") /\ Quiet /\ UNCHANGED <<W, S, fut>>  \* silent
ShutRet(t) == /\ IsTop(t, "shut", "p") /\ PopOp(t) /\ Emit(<<SHUTR, t, 0, 0, 0, 0>>) /\ UNCHANGED <<G, W, S, fut>>     \* event SHUTR

DestroyCall(t, w) ==                                    \* event DC
  /\ AppCode(t) /\ W[w].st = "up"
  /\ PushOp(t, Op("destroy", 0, w, 0, "c"))
  /\ Emit(<<DC, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

DestroyShut(t) ==                                       \* silent: only the active worker ends logging, others warn
  /\ IsTop(t, "destroy", "c")
  /\ LET w == Top(t).b IN
     IF G.active \notin {NoW, w}
     THEN W' = [W EXCEPT ![G.active].q = Append(@, Task("msg", WARN, 0, 0, 0, BitsPlain))] /\ UNCHANGED G
     ELSE G' = [G EXCEPT !.active = NoW] /\ UNCHANGED W
  /\ SetPhase(t, "s")
  /\ Quiet
  /\ UNCHANGED <<S, fut>>

DestroyStop(t) ==                                       \* silent
  /\ IsTop(t, "destroy", "d")
  /\ W' = [W EXCEPT ![Top(t).b].q = Append(@, Task("stop", 0, 0, t, 0, 0))]
  /\ SetPhase(t, "j")
  /\ Quiet
  /\ UNCHANGED <<G, S, fut>>

DestroyRet(t, w) ==                                     \* event DR
  /\ IsTop(t, "destroy", "j") /\ Top(t).b = w
  /\ W[w].st = "down" /\ W[w].att = {}
  /\ PopOp(t)
  /\ Emit(<<DR, t, w, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

\* =================================================================== fatal events
SetHookCall(t, h) == AppCode(t) /\ PushOp(t, Op("sethook", h, 0, 0, "c")) /\ Emit(<<SETHOOKC, t, h, 0, 0, 0>>) /\ UNCHANGED <<G, W, S, fut>>
SetHookEffect(t)  == IsTop(t, "sethook", "c") /\ G' = [G EXCEPT !.hook = Top(t).a] /\ SetPhase(t, "p") /\ Quiet /\ UNCHANGED <<W, S, fut>>
SetHookRet(t, h)  == IsTop(t, "sethook", "p") /\ Top(t).a = h /\ PopOp(t) /\ Emit(<<SETHOOKR, t, h, 0, 0, 0>>) /\ UNCHANGED <<G, W, S, fut>>

SetHandlerCall(t, h, k) == AppCode(t) /\ th' = [th EXCEPT ![t] = Append(@, [Op("sethand", h, 0, 0, "c") EXCEPT !.ph = k])] /\ Emit(<<SETHANDC, t, h, IF k = "default" THEN 1 ELSE IF k = "throw" THEN 2 ELSE IF k = "default+" THEN 3 ELSE 0, 0, 0>>) /\ UNCHANGED <<G, W, S, fut>>
SetHandlerRet(t, h) ==
  /\ HasTop(t) /\ Top(t).op = "sethand" /\ Top(t).a = h
  /\ G' = [G EXCEPT !.handler = [id |-> h, kind |-> Top(t).ph]]
  /\ PopOp(t) /\ Emit(<<SETHANDR, t, h, 0, 0, 0>>) /\ UNCHANGED <<W, S, fut>>

\* m: the message, sig: the signal of the event, viaSignal: it is an operating system signal (not a log or contract)
FatalCall(t, m, sig, viaSignal) ==                      \* event FATC
  /\ AppCode(t)
  /\ PushOp(t, Op("fatal", m, sig, IF viaSignal THEN 1 ELSE 0, "c"))
  /\ Emit(<<FATC, t, m, sig, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

FatalTake(t) ==                                         \* silent: the hook is taken; of the signals only the first goes on,
  /\ IsTop(t, "fatal", "c")                             \*         unless it is raised while handling one in the same thread
  /\ Top(t).c = 1 => G.sigTaken \subseteq {t}
  /\ G' = [G EXCEPT !.hook = 0, !.sigTaken = IF Top(t).c = 1 THEN @ \cup {t} ELSE @]
  /\ th' = [th EXCEPT ![t][Len(th[t])].ph = "t", ![t][Len(th[t])].h = G.hook]
  /\ Quiet
  /\ UNCHANGED <<W, S, fut>>

FatalCount(t) ==                                        \* silent: ... and the event is counted
  /\ IsTop(t, "fatal", "t")
  /\ G' = [G EXCEPT !.nfatal = @ + 1]
  /\ SetPhase(t, IF Top(t).h = 0 THEN "hd" ELSE "hp")
  /\ Quiet
  /\ UNCHANGED <<W, S, fut>>

HookBegin(t, h) ==                                      \* event HOOKB
  /\ IsTop(t, "fatal", "hp") /\ Top(t).h = h
  /\ SetPhase(t, "hook")
  /\ Emit(<<HOOKB, t, h, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

HookEnd(t, h) ==                                        \* event HOOKE
  /\ IsTop(t, "fatal", "hook") /\ Top(t).h = h
  /\ SetPhase(t, "hd")
  /\ Emit(<<HOOKE, t, h, 0, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

FatalCompose(t) ==                                      \* silent
  /\ IsTop(t, "fatal", "hd")
  /\ th' = [th EXCEPT ![t][Len(th[t])].ph = IF G.handler.kind = "default" THEN "push" ELSE "hand",
                      ![t][Len(th[t])].rec = (G.nfatal > 1), ![t][Len(th[t])].h = G.handler.id]
  /\ Quiet
  /\ UNCHANGED <<G, W, S, fut>>

HandlerBegin(t, h, m, b, sig) ==                        \* event HANDB
  /\ IsTop(t, "fatal", "hand") /\ Top(t).h = h /\ Top(t).a = m /\ Top(t).b = sig
  /\ b = BitsHandler(Top(t).rec)
  /\ SetPhase(t, IF G.handler.kind = "default+" THEN "push" ELSE "handler")
  /\ Emit(<<HANDB, t, h, m, b, sig>>)
  /\ UNCHANGED <<G, W, S, fut>>

HandlerEnd(t, h, m) ==                                  \* event HANDE
  /\ IsTop(t, "fatal", "handler") /\ Top(t).h = h /\ Top(t).a = m
  /\ SetPhase(t, IF G.handler.kind = "throw" /\ Top(t).c = 0 THEN "thrown" ELSE "done")
  /\ Emit(<<HANDE, t, h, m, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

FatalRet(t, m, how) ==                                  \* event FATR: only a custom handler lets the program go on
  /\ HasTop(t) /\ Top(t).op = "fatal" /\ Top(t).a = m
  /\ Top(t).ph = IF how = 1 THEN "thrown" ELSE "done"
  /\ PopOp(t)
  /\ Emit(<<FATR, t, m, how, 0, 0>>)
  /\ UNCHANGED <<G, W, S, fut>>

FatalPush(t) ==                                         \* silent: default handling
  /\ IsTop(t, "fatal", "push")
  /\ IF G.active # NoW
     THEN /\ W' = [W EXCEPT ![G.active].q = Append(@, Task("fatal", Top(t).a, 0, t, Top(t).b, IF Top(t).rec THEN 1 ELSE 0))]
          /\ G' = [G EXCEPT !.handed = TRUE]
          /\ SetPhase(t, "blocked")
     ELSE /\ SetPhase(t, IF G.handed THEN "blocked" ELSE "alone")
          /\ UNCHANGED <<W, G>>
  /\ Quiet
  /\ UNCHANGED <<S, fut>>

FatalAlone(t, m) ==                                     \* event CERR: no logger; the message is shown and the process dies
  /\ IsTop(t, "fatal", "alone") /\ Top(t).a = m
  /\ G' = [G EXCEPT !.end = "dying", !.endSig = Top(t).b]
  /\ SetPhase(t, "blocked")
  /\ Emit(<<CERR, t, m, 1, 0, 0>>)
  /\ UNCHANGED <<W, S, fut>>

\* the signals that may be seen to end the process: that of the fatal message being acted upon, or a signal raised by
\* another thread after the original dispositions were restored
EndSigs == {G.endSig} \cup {Top(t).b : t \in {u \in DOMAIN th : HasTop(u) /\ Top(u).op = "fatal" /\ Top(u).c = 1 /\ Top(u).ph = "c"}}
=============================================================================
