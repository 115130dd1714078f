"""Check of the concurrency building blocks (C22): scripts run on the real templates under the controlled scheduler, traces decided by QueueTrace."""
import concurrent.futures as cf, json, os, random, re
import build, pcheck, ptrace

OPS = "push try wait empty size send spawn null get del".split()
KINDS = ["", "call", "return", "begin", "end of task", "end of script"]


class Sc:
    def __init__(self, sid, queues, actives):
        self.id, self.q, self.a = sid, queues, actives
        self.th, self.tasks, self.sys = {}, {}, None

    def op(self, t, *a):
        self.th.setdefault(t, []).append(" ".join(map(str, a)))

    def task(self, kind, ops=()):
        f = len(self.tasks) + 1
        self.tasks[f] = (kind, list(ops))
        return f

    def text(self):
        out = ["scn %s %d %d" % (self.id, self.q, self.a)]
        if self.sys:
            out.append("sys %d %d" % self.sys)
        for f, (k, ops) in sorted(self.tasks.items()):
            out.append("K %d %s %s" % (f, k, " | ".join(ops)))
        for t in sorted(self.th):
            out += ["T %d %s" % (t, o) for o in self.th[t]]
        return "\n".join(out) + "\n"


def drain(sc):
    for k in range(sc.q):
        sc.op(100, "size", k)
        sc.op(100, "try", k)
        sc.op(100, "try", k)
        sc.op(100, "empty", k)


def queues(sid, rng):
    """producers and consumers; sometimes more blocking pops than items"""
    sc = Sc(sid, rng.choice([1, 1, 1, 2]), 0)
    np, nc = rng.randint(1, 3), rng.randint(1, 3)
    item, left = 0, [0, 0]
    for t in range(1, np + 1):
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.75:
                item += 1
                k = rng.randrange(sc.q)
                left[k] += 1
                sc.op(t, "push", k, item)
            else:
                sc.op(t, rng.choice(["empty", "size", "try", "P"]), rng.randrange(sc.q))
    for t in range(np + 1, np + nc + 1):
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(sc.q)
            w = rng.random()
            if w < 0.6:
                if left[k] > 0 or rng.random() < 0.1:
                    left[k] -= 1
                    sc.op(t, "wait", k)
                else:
                    sc.op(t, "try", k)
            else:
                sc.op(t, rng.choice(["try", "empty", "size", "size"]), k)
    if any(" try " in " " + o for t in sc.th for o in sc.th[t]):
        pass   # a blocking pop may then find nothing for ever: the specification decides whether that is right
    drain(sc)
    return sc


def actives(sid, rng):
    """tasks handed over from several threads and from tasks, futures read anywhere, the objects ended at the end, or early by one thread"""
    na = rng.choice([1, 1, 2])
    sc = Sc(sid, 1, na)
    nt = rng.randint(1, 3)
    early = rng.random() < 0.3 and nt == 1
    fs = []
    item = [0]

    def body(a, deep):
        ops = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            w = rng.random()
            if w < 0.35:
                item[0] += 1
                ops.append("push 0 %d" % item[0])
            elif w < 0.55:
                ops.append("P %d" % rng.randint(1, 3))
            elif w < 0.7:
                ops.append(rng.choice(["try 0", "size 0", "empty 0"]))
            elif w < 0.9 and deep:
                b = rng.choice([a, a, a] + ([a - 1] if a else []))   # to itself, or to an object that is ended later
                k = rng.choice("nvpx")
                f = sc.task(k, body(b, False))
                ops.append("%s %d %d" % (rng.choice(["send", "spawn"]) if k == "n" else "spawn", b, f))
            elif w < 0.95:
                ops.append("null %d" % sc.task(rng.choice("nvpx")))
        return ops
    for t in range(1, nt + 1):
        mine = []
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(na)
            w = rng.random()
            if w < 0.4:
                sc.op(t, "send", a, sc.task("n", body(a, True)))
            elif w < 0.85:
                f = sc.task(rng.choice("nvpx"), body(a, True))
                sc.op(t, "spawn", a, f)
                mine.append(f)
            else:
                f = sc.task(rng.choice("nvpx"))
                sc.op(t, "null", f)
                mine.append(f)
            if mine and rng.random() < 0.4:
                sc.op(t, "get", rng.choice(mine))
        fs += mine
        if early:
            for a in reversed(range(na)):
                sc.op(t, "del", a)
    if not early:
        for f in fs[:2]:
            sc.op(0, "get", f)
        for a in reversed(range(na)):
            if rng.random() < 0.9:
                sc.op(100, "del", a)
            else:
                sc.op(100, "get", fs[0] if fs else 1)
                sc.op(100, "del", a)
    for f in list(sc.tasks)[:6]:
        if sc.tasks[f][0] != "n" or f in fs:
            sc.op(100, "get", f)
    drain(sc)
    return sc


def small(sid, k, bound, cap):
    """small scripts, explored systematically"""
    scripts = [
        (1, 0, {1: ["push 0 1", "push 0 2"], 2: ["wait 0"], 3: ["wait 0"]}, {}),
        (1, 0, {1: ["push 0 1"], 2: ["push 0 2"], 3: ["wait 0", "wait 0"]}, {}),
        (1, 0, {1: ["push 0 1"], 2: ["try 0", "size 0"], 3: ["wait 0"]}, {}),
        (1, 0, {1: ["push 0 1", "empty 0"], 2: ["try 0"], 3: ["size 0", "try 0"]}, {}),
        (1, 0, {1: ["push 0 1", "push 0 2", "push 0 3"], 2: ["wait 0", "wait 0"], 3: ["wait 0"]}, {}),
        (1, 1, {1: ["send 0 1", "send 0 2"], 2: ["send 0 3"], 100: ["del 0"]}, {1: ("n", []), 2: ("n", []), 3: ("n", [])}),
        (1, 1, {1: ["spawn 0 1", "get 1"], 2: ["spawn 0 2", "get 2"], 100: ["del 0"]}, {1: ("p", []), 2: ("x", [])}),
        (1, 1, {1: ["send 0 1", "del 0"]}, {1: ("n", ["send 0 2", "P 1"]), 2: ("n", [])}),
        (1, 1, {1: ["send 0 1", "spawn 0 2", "get 2"], 100: ["del 0"]}, {1: ("n", ["wait 0"]), 2: ("v", ["size 0"])}),
        (1, 2, {1: ["send 1 1"], 2: ["send 0 2"], 100: ["del 1", "del 0"]}, {1: ("n", ["send 0 3", "push 0 1"]), 2: ("n", ["P 1"]), 3: ("n", ["try 0"])}),
    ]
    q, a, th, tasks = scripts[k]
    sc = Sc(sid, q, a)
    for f, (kind, ops) in tasks.items():
        sc.tasks[f] = (kind, ops)
    for t, ops in th.items():
        for o in ops:
            sc.op(t, o)
    drain(sc)
    sc.sys = (bound, cap)
    return sc


SMALL = 10


def encode(t, sc):
    return {"ev": t["ev"], "end": t["end"], "queues": list(range(sc.q)), "actives": list(range(sc.a)), "tasks": sorted(sc.tasks)}


def validate(encs, work, limit):
    n = max(1, min(8, (len(encs) + 49) // 50))
    parts = [list(range(j, len(encs), n)) for j in range(n)]

    def one(j):
        d = os.path.join(work, "qv%d" % j)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "traces.json")
        json.dump([encs[k] for k in parts[j]], open(f, "w"))
        out, fin = ptrace.tlc("QueueTrace", "QueueTrace.cfg", d, {"TRACEFILE": f}, timeout=limit, xmx="3g")
        if not fin or "Model checking completed" not in out:
            raise RuntimeError("TLC failed on QueueTrace:\n" + out[-3000:])
        return {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}, ptrace.states(out)
    ok = [False] * len(encs)
    gen = dis = 0
    with cf.ThreadPoolExecutor(n) as ex:
        for j, (acc, (g, d)) in enumerate(ex.map(one, range(n))):
            gen, dis = gen + g, dis + d
            for p, k in enumerate(parts[j]):
                ok[k] = p + 1 in acc
    return ok, gen, dis


def pretty(e):
    return "t%d %s %s" % (e[1], KINDS[e[0]], {1: lambda: "%s(%d, %d)" % (OPS[e[2] - 1], e[3], e[4]), 2: lambda: "%s = %d" % (OPS[e[2] - 1], e[5]),
                                              3: lambda: "task %d on %d" % (e[4], e[3]), 4: lambda: "%d on %d" % (e[4], e[3]), 5: lambda: ""}[e[0]]())


def explained(enc, work):
    """how many events of a rejected trace can be explained"""
    n = 0
    encs = [dict(enc, ev=enc["ev"][:k], end=[0, 0]) for k in range(1, len(enc["ev"]) + 1)]
    # a prefix is explained if TLC reaches its end; that operations are still in progress there does not count
    d = os.path.join(work, "qexp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "traces.json")
    json.dump(encs, open(f, "w"))
    out, fin = ptrace.tlc("QueueTrace", "QueueTracePrefix.cfg", d, {"TRACEFILE": f}, timeout=120, xmx="3g")
    acc = {int(x) for x in re.findall(r'<<"PRE", (\d+)>>', out)}
    while n + 1 in acc:
        n += 1
    return n


def c22(c):
    work = build.scratch("C22")
    # the specification itself, exhaustively, with three threads
    out, fin = ptrace.tlc("QueueMC", "QueueMC.cfg" if not c.thorough else "QueueMCDeep.cfg", os.path.join(work, "mc"), xmx="8g", timeout=200 if not c.thorough else 3000, workers=8)
    if not fin or "No error has been found" not in out:
        raise RuntimeError("TLC on QueueMC:\n" + out[-3000:])
    g, d = ptrace.states(out)
    c.count("states", d)
    c.count("transitions", g)
    c.count("specification_states", d)
    exe = build.build(["qdrv.cpp"], os.path.join(work, "b"), "plain", build.TSAN, plain=["rt.cpp"])
    scens = [(small("s%d" % k, k, 3 if c.thorough else 1, 400000 if c.thorough else 4000), 1) for k in range(SMALL)]
    if not c.thorough:
        scens += [(small("d%d" % k, k, 2, 3000), 1) for k in range(SMALL)]
    for fam, n in ((queues, 60), (actives, 80)):
        for i in range(n * (8 if c.thorough else 1)):
            scens.append((fam("%s%d" % (fam.__name__, i), random.Random("%s|%d|%d" % (fam.__name__, c.seed, i))), 40 if not c.thorough else 300))
    traces, stats = pcheck.run_driver(exe, scens, c.seed, work, 300 if not c.thorough else 3000)
    if stats.get("cut_short"):
        raise RuntimeError("the driver did not finish")
    encs = [encode(t, scens[t["sc"]][0]) for t in traces]
    ok, gen, dis = validate(encs, work, 400 if not c.thorough else 4000)
    c.count("scenarios", len(scens))
    c.count("executions", stats["runs"])
    c.count("systematic_executions", stats["systematic"])
    c.count("systematic_scenarios_completed", stats["complete"])
    c.count("scheduling_points", stats["points"])
    c.count("distinct_traces", len(traces))
    c.count("events", sum(len(t["ev"]) for t in traces))
    c.count("blocked_for_ever_rightly", sum(t["end"] == [2, 1] and o for t, o in zip(traces, ok)))
    c.count("states", dis)
    c.count("transitions", gen)
    c.count("traces_validated_against_impl", sum(ok))
    c.count("traces_rejected", len(ok) - sum(ok))
    mid = len(traces) // 2
    c.sample({"scenario": scens[traces[mid]["sc"]][0].text().split("\n"), "events": [pretty(e) for e in traces[mid]["ev"]][:60], "end": pcheck.describe_end(traces[mid]["end"]), "accepted": ok[mid]})
    reported = set()
    for j in sorted((j for j in range(len(traces)) if not ok[j]), key=lambda j: (len(traces[j]["ev"]), j)):
        t = traces[j]
        if t["sc"] in reported or len(reported) >= 3:
            continue
        reported.add(t["sc"])
        sc = scens[t["sc"]][0]
        again = pcheck.rerun(exe, sc, t, c.seed, work)
        same = again is not None and again["ev"] == t["ev"] and again["end"] == t["end"]
        n = explained(encs[j], work)
        ev = [pretty(e) for e in t["ev"]]
        c.violation("not a behaviour of the specification: %d of %d events can be explained; then %s; end: %s%s" % (
            n, len(ev), ev[n] if n < len(ev) else "the end", pcheck.describe_end(t["end"]), "" if same else " (schedule not reproduced on the second run)"),
            {"scenario": sc.text().split("\n"), "run": t["run"], "driver_seed": c.seed, "reproduced": same, "explained": n, "end": t["end"], "events": ev})
    c.assume.append("nobody hands over tasks to an active object that is being destroyed, other than the object's own tasks")
    c.assume.append("sequential consistency; systematic: all schedules of %d small scripts with at most %d preemption(s) at synchronisation operations where completed" % (SMALL, 3 if c.thorough else 1))
    return "model_checking"
