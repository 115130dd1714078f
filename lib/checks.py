"""What each property's check runs."""
import os, re
import build, pcheck, ptrace, scheck, qcheck

SC = "sequential consistency: preemption at instrumented accesses and synchronisation operations, no weak memory effects"

# family, scenarios, runs per scenario: (quick), (thorough)
PIPE = {
    "C01": ([("plain", 10, 10), ("mix", 14, 10), ("nosink", 8, 8), ("sizes", 14, 3), ("burst", 6, 3), ("many", 4, 3)],
            [("plain", 60, 40), ("mix", 120, 40), ("nosink", 40, 25), ("sizes", 60, 6), ("burst", 30, 12), ("many", 25, 8)]),
    "C02": ([("plain", 24, 12), ("mix", 14, 10), ("burst", 3, 3)],
            [("plain", 160, 40), ("mix", 100, 40), ("burst", 25, 10)]),
    "C03": ([("own", 18, 10), ("handle", 14, 10), ("inner", 10, 6), ("member", 6, 6)],
            [("own", 120, 30), ("handle", 100, 30), ("inner", 60, 20), ("member", 50, 20)]),
    "C04": ([("member", 26, 12), ("mix", 8, 8), ("many", 5, 4)],
            [("member", 160, 30), ("mix", 60, 30), ("many", 25, 8)]),
    "C05": ([("handle", 30, 12), ("inner", 20, 8), ("own", 6, 8), ("asynch", 6, 6)],
            [("handle", 180, 40), ("inner", 120, 30), ("own", 60, 20), ("asynch", 40, 12)]),
    "C06": ([("shutdown", 28, 12), ("burst", 8, 4), ("life", 6, 6)],
            [("shutdown", 180, 40), ("burst", 30, 12), ("life", 60, 20)]),
    "C07": ([("life", 60, 16), ("shutdown", 8, 8), ("fagain", 20, 4)],
            [("life", 300, 40), ("shutdown", 40, 20), ("fagain", 120, 12)]),
    "C08": ([("fatal", 34, 10), ("fatals", 10, 8), ("fnolog", 10, 5)],
            [("fatal", 240, 40), ("fatals", 80, 25), ("fnolog", 60, 20)]),
    "C09": ([("fatals", 22, 10), ("fhook", 24, 8), ("fatal", 8, 8), ("fnolog", 8, 5)],
            [("fatals", 150, 30), ("fhook", 160, 25), ("fatal", 60, 20), ("fnolog", 60, 20)]),
    "C10": ([("fhand", 40, 10), ("fhook", 40, 10), ("fagain", 30, 6)],
            [("fhand", 240, 30), ("fhook", 240, 30), ("fagain", 160, 20)]),
    "C12": ([("fatal", 18, 6), ("fhook", 26, 6), ("fhand", 26, 6), ("fatals", 6, 6), ("fagain", 30, 5)],
            [("fatal", 120, 20), ("fhook", 160, 20), ("fhand", 160, 20), ("fatals", 40, 15), ("fagain", 160, 15)]),
    "C20": ([("asynch", 26, 10), ("burst", 5, 3)],
            [("asynch", 150, 30), ("burst", 25, 10)]),
}


# The specification by itself (G3LogMC, exhaustively; "Any..." by random walks): configurations for (quick), (thorough)
MC = {
    "C01": (["MemberQ"], ["Member", "Inside"]),
    "C02": (["MemberQ"], ["Two", "Member"]),
    "C03": (["HandleQ"], ["Hold", "InsideQ"]),
    "C04": (["MemberQ"], ["Member", "Hold"]),
    "C05": (["HandleQ"], ["Handle", "Inside"]),
    "C06": (["ShutQ"], ["Shut"]),
    "C07": (["LifeQ"], ["Life", "Two", "AnyLife"]),
    "C08": (["FatalQ"], ["Fatal"]),
    "C09": (["FatalQ"], ["Fatal", "Handler"]),
    "C10": (["HandlerQ"], ["Handler"]),
    "C12": (["HandlerQ"], ["Handler", "Fatal"]),
    "C20": (["StuckQ"], ["Stuck", "AnyStuck"]),
}


def model(c, prop, work):
    for name in MC[prop][c.thorough] + (["Any"] if c.thorough else []):
        walk = name.startswith("Any")
        out, fin = ptrace.tlc("G3LogMC", "G3LogMC%s.cfg" % name, os.path.join(work, "mc" + name), xmx="10g", timeout=300 if not c.thorough else 600 if walk else 3000,
                              workers=8, extra=["-simulate", "num=100000000", "-depth", "130", "-seed", str(c.seed)] if walk else [])
        if walk and not fin and "Error:" not in out:
            m = re.findall(r"(\d+) states checked, (\d+) traces generated", out.replace(",", ""))
            if m:
                c.count("specification_walks", int(m[-1][1]))
                c.count("specification_walk_states", int(m[-1][0]))
            continue
        if not fin or "No error has been found" not in out:
            raise RuntimeError("TLC on G3LogMC%s:\n%s" % (name, out[-4000:]))
        g, d = ptrace.states(out)
        c.count("states", d)
        c.count("transitions", g)
        c.count("specification_states", d)


def pipeline(prop):
    def f(c):
        q, t = PIPE[prop]
        model(c, prop, build.scratch("mc"))
        pcheck.check(c, t if c.thorough else q)
        c.assume += [SC]
        if prop in ("C01", "C05", "C06", "C20"):
            scheck.volume(c)
            c.assume.append("volume: natural schedules, at most a few million messages")
        return "model_checking"
    return f


SINKFATAL = """scn sf%(n)d
S 1 S fatal=1:%(kind)s
T 0 W 0
T 0 A 1 0
T 0 install
T 0 I 0
T 0 L 1 i
T 0 VR 1 2

"""


class Fixed:
    def __init__(self, sid, text):
        self.id, self.t = sid, text

    def text(self):
        return self.t


def c09(c):
    q, t = PIPE["C09"]
    model(c, "C09", build.scratch("mc"))
    exe, work = pcheck.check(c, t if c.thorough else q)
    c.assume += [SC]
    # a fatal event on a sink's own thread (known finding): it may hang, but it must not return or end the process otherwise
    kinds = ["LOG", "CHECK", "segv"]
    scens = [(Fixed("sf%d" % n, SINKFATAL % {"n": n, "kind": k}), 2) for n, k in enumerate(kinds)]
    traces, _ = pcheck.run_driver(exe, scens, c.seed, work, 60, "sf")
    hung = 0
    for t in traces:
        returned = any(e[0] == ptrace.K["FATR"] for e in t["ev"])
        if t["end"][0] == 2 and not returned and c.listed("sink-thread-fatal"):
            hung += 1
        elif t["end"][0] != 1 or returned:
            c.violation("a fatal event on a sink's thread: %s, end: %s" % ("it returned" if returned else "it did not return", pcheck.describe_end(t["end"])),
                        {"scenario": scens[t["sc"]][0].text().split("\n"), "run": t["run"], "events": [ptrace.pretty(e) for e in t["ev"]], "end": t["end"]})
            break
    c.count("sink_thread_fatals_hung", hung)
    c.count("sink_thread_fatals", len(traces))
    if hung:
        c.finding(c.listed("sink-thread-fatal"))
    return "model_checking"


OWNHANDLE = """scn oh%(n)d
sys 2 %(cap)d
S 1 %(kind)s
T 0 W 0
T 0 A 1 0
T 0 I 0
T 0 H 1 1 h 2 1
%(more)sT 0 R 1 0
T 0 D 0

"""


def c05(c):
    level = pipeline("C05")(c)
    # a sink that calls itself through its handle while it is detached (known finding): that may end the process in the one
    # way described, and in no other
    work = build.scratch("p5")
    exe = build.pdrv(os.path.join(work, "b"))
    cap = 3000 if not c.thorough else 60000
    scens = [(Fixed("oh%d" % n, OWNHANDLE % {"n": n, "kind": k, "more": m, "cap": cap}), 1)
             for n, (k, m) in enumerate([("S", ""), ("M", "T 0 L 1 s\n"), ("X", "T 0 VX 1 1\n")])]
    traces, stats = pcheck.run_driver(exe, scens, c.seed, work, 120 if not c.thorough else 900, "oh")
    encs = [ptrace.encode(t, set()) for t in traces]
    verdict, gen, dis = ptrace.validate(encs, work, limit=100 if not c.thorough else 900)
    c.count("systematic_executions", stats.get("systematic", 0))
    c.count("states", dis)
    c.count("transitions", gen)
    hit = 0
    for t, v in zip(traces, verdict):
        if v != 0:
            continue
        open_ = {}
        for e in t["ev"]:
            if e[0] == ptrace.K["HCC"]:
                open_[e[1]] = e[2]
            elif e[0] == ptrace.K["HCR"]:
                open_.pop(e[1], None)
        last = t["ev"][-1]
        if c.listed("own-handle") and t["end"] == [0, 78] and last[0] == ptrace.K["CATCH"] and open_.get(last[1]) == 2:
            hit += 1
            continue
        c.violation("a sink that calls itself while it is detached: not a behaviour of the specification, nor the known finding; end: %s" % pcheck.describe_end(t["end"]),
                    {"scenario": scens[t["sc"]][0].text().split("\n"), "run": t["run"], "events": [ptrace.pretty(e) for e in t["ev"]], "end": t["end"]})
        break
    c.count("own_handle_traces", len(traces))
    c.count("own_handle_deaths", hit)
    if hit:
        c.finding(c.listed("own-handle"))
    return level


CHECKS = {p: pipeline(p) for p in PIPE}
CHECKS["C09"] = c09
CHECKS["C05"] = c05
SEQ = ["C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21"]
for _p in SEQ:
    CHECKS[_p] = getattr(scheck, _p.lower())



def c22(c):
    level = qcheck.c22(c)
    scheck.volume(c)
    return level


CHECKS["C22"] = c22
NOT_YET = "machinery under construction"
PIPE_TECH = "TLA+ specification G3Log (TLC); traces of the real code under a controlled scheduler checked against it (trace validation)"
PIPE_NOTE = ("Every trace recorded from the real, instrumented library (random and PCT schedules, preemption at memory accesses and synchronisation) is decided "
             "by TLC against G3Log.tla; trusts the scheduler runtime and the recorder, assumes sequential consistency; sampled schedules, not all of them.")


def technique(p):
    return TECH.get(p, PIPE_TECH)


def level(p):
    return LEVEL.get(p, "model_checking")


def note(p):
    return NOTE.get(p, PIPE_NOTE)


TECH, LEVEL, NOTE = {}, {}, {}
TECH["C22"] = "TLA+ specification Queue (TLC, exhaustive); traces of the real templates under a controlled scheduler, systematic and sampled, checked against it (trace validation)"
NOTE["C22"] = PIPE_NOTE.replace("G3Log.tla", "Queue.tla").replace("sampled schedules, not all of them", "all schedules with a bounded number of preemptions for ten small scripts, sampled ones otherwise")
SEQ_TECH = "TLA+ specification %s (TLC): operation sequences covering every transition of its state graph replayed on the real code, recorded traces checked against it"
SEQ_NOTE = "Exhaustive over the specification's bounded state graph (every transition at least once, shortest histories, plus random long ones), not over all inputs; trusts driver and TLC."
MODULES = {"C11": "Signals", "C13": "Levels", "C14": "Macros", "C15": "Capture", "C16": "Message, Statement", "C17": "FileSink", "C18": "FileSink", "C19": "Names", "C21": "Time"}
for _p in SEQ:
    TECH[_p], NOTE[_p] = SEQ_TECH % MODULES[_p], SEQ_NOTE
