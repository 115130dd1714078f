"""Scenario generators for the pipeline driver.  All randomness comes from the generator passed in."""
STYLES = "sssfidcj"


class Sc:
    def __init__(self, sid, focus):
        self.id, self.focus = sid, focus
        self.sinks, self.ops, self.size = {}, {}, {}
        self.m = 0
        self.c = 0
        self.t = 0

    def op(self, t, *a):
        self.ops.setdefault(t, []).append(" ".join(map(str, a)))

    def sink(self, s, kind, **kw):
        self.sinks[s] = (kind, kw)

    def msg(self):
        self.m += 1
        return self.m

    def call(self):
        self.c += 1
        return self.c

    def thread(self):
        self.t += 1
        return self.t

    def log(self, t, rng, n=1):
        if n > 1:
            a = self.m + 1
            self.m += n
            self.op(t, "LB", a, n, rng.choice(STYLES))
        elif rng.random() < 0.12:  # a message whose expression logs another one
            self.op(t, "L", self.msg(), rng.choice("nm"), self.msg())
        else:
            self.op(t, "L", self.msg(), rng.choice(STYLES))

    def same(self, t, rng):
        """several messages with one and the same text"""
        self.size.setdefault(0, rng.choice([0, 3, 60, 300, 300, 5000]))
        n = rng.randint(2, 7)
        a = self.m + 1
        self.m += n
        self.op(t, "LB", a, n, "q")

    def text(self):
        out = ["scn " + self.id]
        for s, (k, kw) in sorted(self.sinks.items()):
            out.append("S %d %s %s" % (s, k, " ".join("%s=%s" % x for x in kw.items())))
        for m, n in sorted(self.size.items()):
            out.append("size %d %d" % (m, n))
        for t in sorted(self.ops):
            for o in self.ops[t]:
                out.append("T %d %s" % (t, o))
        return "\n".join(out) + "\n"

    def filesinks(self):
        return {s for s, (k, kw) in self.sinks.items() if k == "F"}


def kinds(rng, n, file_ok=True):
    return [rng.choice("SSMMXXLF" if file_ok else "SSMMXXL") for _ in range(n)]


def add(sc, t, rng, s, w):
    if sc.sinks[s][0] == "F":
        sc.op(t, "A", s, w, rng.choice([0, 1, 2, 4, 9]))
    else:
        sc.op(t, "A", s, w)


def add_initial(sc, rng, n, w=0, init=True, gates=()):
    """sinks 1..n, some attached before and some after the initialization"""
    ks = kinds(rng, n)
    for j, k in enumerate(ks):
        s = j + 1
        if s in gates and k == "F":
            k = "S"
        sc.sink(s, k, **({"gate": gates[s]} if s in gates else {}))
    before = rng.randint(0, n) if init else n
    for s in range(1, before + 1):
        add(sc, 0, rng, s, w)
    if init:
        sc.op(0, "I", w)
    for s in range(before + 1, n + 1):
        add(sc, 0, rng, s, w)
    return n


def real(sc):
    return [s for s, (k, kw) in sc.sinks.items() if k != "F"]


def finish(sc, rng, w=0, calls=()):
    if sc.m > 12 or rng.random() < 0.9:
        sc.op(0, "D", w)
        if rng.random() < 0.5:
            sc.log(0, rng)
    for c in calls:
        sc.op(0, "G", c)


# ------------------------------------------------------------------------------------------------ families
def mix(sid, rng, focus):
    """threads log while sinks come and go and are called"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = add_initial(sc, rng, rng.choice([1, 1, 2, 2, 3, 4]))
    nt = rng.choice([1, 2, 2, 3])
    nxt = n + 1
    ths = [sc.thread() for _ in range(nt)]
    for t in ths:
        sc.op(0, "spawn", t)
    calls = []
    fixed = real(sc)
    for t in ths:
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.05:
                sc.same(t, rng)
            elif r < 0.7 or not fixed:
                sc.log(t, rng, rng.choice([1, 1, 2, 3]))
            elif r < 0.85:
                c = sc.call()
                sc.op(t, "H", c, rng.choice(fixed), rng.choice("vsnxl"))
                if rng.random() < 0.4:
                    sc.op(t, "G", c)
                else:
                    calls.append(c)
            else:
                sc.op(t, "P", rng.randint(1, 4))
    attached = list(sc.sinks)
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.45:
            sc.log(0, rng, rng.choice([1, 2, 3]))
        elif r < 0.65:
            k = kinds(rng, 1)[0]
            sc.sink(nxt, k)
            add(sc, 0, rng, nxt, 0)
            attached.append(nxt)
            nxt += 1
        elif r < 0.8:
            c = [s for s in attached if sc.sinks[s][0] != "F"]
            if c:
                sc.op(0, "R", rng.choice(c), 0)
        elif r < 0.86:
            sc.op(0, "K", 0)
            attached = []
        else:
            f = [s for s in attached if sc.sinks[s][0] != "F"]
            if f:
                c = sc.call()
                sc.op(0, "H", c, rng.choice(f), rng.choice("vsnx"))
                sc.op(0, "G", c)
    for t in ths:
        sc.op(0, "join", t)
    if rng.random() < 0.4:
        sc.log(0, rng)
    finish(sc, rng, 0, calls)
    if rng.random() < 0.3 and sc.ops[0][-1].split()[0] != "I" and any(o == "D 0" for o in sc.ops[0]):
        sc.op(0, "W", 1)
        sc.sink(nxt, kinds(rng, 1)[0])
        add(sc, 0, rng, nxt, 1)
        sc.op(0, "I", 1)
        sc.log(0, rng, rng.randint(1, 4))
        sc.op(0, "D", 1)
    return sc


def plain(sid, rng, focus):
    """fixed sinks, several threads logging"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([1, 2, 2, 3, 5])
    add_initial(sc, rng, n)
    ths = [sc.thread() for _ in range(rng.choice([2, 3, 3, 4]))]
    early = rng.random() < 0.5
    if early:
        sc.log(0, rng, 2)
    for t in ths:
        sc.op(0, "spawn", t)
        for _ in range(rng.randint(1, 4)):
            sc.log(t, rng, rng.choice([1, 2, 3, 4]))
            if rng.random() < 0.3:
                sc.op(t, "P", rng.randint(1, 3))
    if rng.random() < 0.35:
        sc.same(rng.choice(ths), rng)
    # one thread hands over to another one: real-time order across threads
    if rng.random() < 0.6:
        a, b = ths[0], ths[1]
        sc.op(a, "O", 7)
        sc.ops[b].insert(rng.randint(0, len(sc.ops[b])), "V 7")
        sc.log(a, rng, 2)
    for t in ths:
        sc.op(0, "join", t)
    sc.log(0, rng, rng.randint(1, 2))
    finish(sc, rng)
    return sc


def burst(sid, rng, focus, n=None):
    """a large backlog builds up behind a stuck sink"""
    sc = Sc(sid, focus)
    n = n or rng.choice([130, 270, 400])
    sc.op(0, "W", 0)
    sc.sink(1, rng.choice("SML"), **{rng.choice(["gate", "gate1"]): 1})
    sc.sink(2, rng.choice("SMX"))
    sc.op(0, "A", 1, 0)
    if rng.random() < 0.6:
        sc.op(0, "A", 2, 0)
    else:
        del sc.sinks[2]
    sc.op(0, "I", 0)
    sc.op(0, "spawn", 1)
    sc.thread()
    k = n // 2
    sc.log(0, rng, n - k)
    if rng.random() < 0.4:
        sc.same(0, rng)
    sc.log(1, rng, k)
    if rng.random() < 0.5:
        c = sc.call()
        sc.op(1, "H", c, 1, "v")
    sc.op(0, "join", 1)
    if 2 in sc.sinks and rng.random() < 0.5:
        sc.op(0, "VR", 2, n)
    how = rng.choice(["before", "thread"])
    if how == "before":
        sc.op(0, "O", 1)
    else:
        sc.op(0, "spawn", 2)
        sc.op(2, "P", rng.randint(1, 30))
        sc.op(2, "O", 1)
    r = rng.random()
    if r < 0.3:
        sc.op(0, "R", 1, 0)
    elif r < 0.4:
        sc.op(0, "K", 0)
    sc.op(0, "D", 0)
    if how != "before":
        sc.op(0, "join", 2)
    return sc


def many(sid, rng, focus):
    """many sinks"""
    sc = Sc(sid, focus)
    n = rng.choice([9, 12, 17, 24, 33])
    sc.op(0, "W", 0)
    for s in range(1, n + 1):
        sc.sink(s, rng.choice("SMLX"))
    for s in range(1, n + 1):
        sc.op(0, "A", s, 0)
        if s == n // 2:
            sc.op(0, "I", 0)
            sc.log(0, rng)
    sc.log(0, rng, rng.randint(2, 4))
    for s in rng.sample(range(1, n + 1), rng.randint(1, 4)):
        sc.op(0, "R", s, 0)
        if rng.random() < 0.5:
            sc.log(0, rng)
    sc.log(0, rng, 2)
    if rng.random() < 0.3:
        sc.op(0, "K", 0)
        sc.log(0, rng)
    finish(sc, rng)
    return sc


def sizes(sid, rng, focus):
    """message sizes around every plausible boundary"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    add_initial(sc, rng, rng.choice([1, 2, 3]))
    for _ in range(rng.randint(2, 4)):
        m = sc.msg()
        sc.size[m] = rng.choice([1, 15, 16, 31, 100, 255, 256, 511, 1000, 1023, 1024, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 262144, 1048576])
        sc.op(0, "L", m, rng.choice("sidc"))
        if rng.random() < 0.3:
            sc.log(0, rng)
    finish(sc, rng)
    return sc


def nosink(sid, rng, focus):
    """there are times without any sink"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    sc.op(0, "I", 0)
    sc.op(0, "spawn", 1)
    sc.thread()
    sc.log(1, rng, rng.randint(1, 3))
    sc.log(0, rng, rng.randint(1, 2))
    s = 0
    for _ in range(rng.randint(0, 3)):
        s += 1
        sc.sink(s, rng.choice("SMX"))
        sc.op(0, "A", s, 0)
        sc.log(0, rng, rng.randint(1, 2))
        sc.op(0, *rng.choice([("R", s, 0), ("K", 0)]))
        sc.log(0, rng, rng.randint(0, 2) or 1)
        if rng.random() < 0.3:
            sc.same(0, rng)
    sc.op(0, "join", 1)
    finish(sc, rng)
    return sc


def member(sid, rng, focus):
    """attach and detach from several threads, under traffic, with backlogs and stale handles"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([1, 2, 3])
    gated = {1: 1} if rng.random() < 0.5 else {}
    add_initial(sc, rng, n, gates=gated)
    traffic = sc.thread()
    sc.op(0, "spawn", traffic)
    for _ in range(rng.randint(2, 5)):
        sc.log(traffic, rng, rng.choice([1, 2]))
        sc.op(traffic, "P", rng.randint(1, 5))
    ths = [sc.thread() for _ in range(rng.choice([0, 1, 1, 2]))]
    if gated:
        o = sc.thread()
        sc.op(0, "spawn", o)
        sc.op(o, "P", rng.randint(1, 40))
        if rng.random() < 0.5:
            sc.log(o, rng)
        sc.op(o, "O", 1)
    else:
        o = None
    nxt = [n + 1]

    def some(t, mine):
        r = rng.random()
        if r < 0.35:
            s = nxt[0]
            nxt[0] += 1
            sc.sink(s, kinds(rng, 1)[0])
            add(sc, t, rng, s, 0)
            mine.append(s)
            if rng.random() < 0.5:
                sc.log(t, rng)
        elif r < 0.65:
            c = [s for s in mine if sc.sinks[s][0] != "F"]
            if c:
                s = rng.choice(c)
                sc.op(t, "R", s, 0)
                if rng.random() < 0.3:
                    sc.op(t, "R", s, 0)
                if rng.random() < 0.4:
                    sc.log(t, rng)
                if rng.random() < 0.3:
                    c = sc.call()
                    sc.op(t, "H", c, s, rng.choice("vsn"))
                    sc.op(t, "G", c)
        elif r < 0.7:
            sc.op(t, "K", 0)
        elif r < 0.85:
            c = [s for s in mine if sc.sinks[s][0] != "F" and s not in gated]
            if c:
                s = rng.choice(c)
                sc.op(t, "hold", s)
                if rng.random() < 0.7:
                    sc.op(t, "R", s, 0)
                    sc.log(t, rng)
                    if rng.random() < 0.6:   # removed once more, while it is still there
                        if rng.random() < 0.4:
                            sc.sink(nxt[0], kinds(rng, 1)[0])
                            add(sc, t, rng, nxt[0], 0)
                            mine.append(nxt[0])
                            nxt[0] += 1
                        sc.op(t, "R", s, 0)
                        sc.log(t, rng)
                sc.op(t, "drop", s)
        else:
            sc.log(t, rng, rng.choice([1, 2]))

    for t in ths:
        mine = list(range(1, n + 1)) if rng.random() < 0.5 else []
        for _ in range(rng.randint(1, 4)):
            some(t, mine)
        sc.op(0, "spawn", t)
        sc.ops.setdefault(t, ["P 1"])
    mine = list(range(1, n + 1))
    for _ in range(rng.randint(2, 6)):
        some(0, mine)
    for t in [traffic] + ths + ([o] if o else []):
        sc.op(0, "join", t)
    if rng.random() < 0.5:
        sc.log(0, rng)
    finish(sc, rng)
    return sc


def handle(sid, rng, focus):
    """calls through handles, also on sinks that are being or have been detached"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([1, 1, 2, 3])
    gates = {1: 1} if rng.random() < 0.4 else {}
    ks = kinds(rng, n, file_ok=False)
    for s in range(1, n + 1):
        sc.sink(s, ks[s - 1], **({"gate": 1} if s in gates else {}))
        sc.op(0, "A", s, 0)
    sc.op(0, "I", 0)
    ths = [sc.thread() for _ in range(rng.choice([1, 2, 3]))]
    later = []
    for t in ths:
        sc.op(0, "spawn", t)
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.3:
                sc.log(t, rng)
            else:
                c = sc.call()
                sc.op(t, "H", c, rng.randint(1, n), rng.choice("vvssnxl"))
                if rng.random() < 0.4:
                    sc.op(t, "G", c)
                else:
                    later.append(c)
    o = None
    if gates:
        o = sc.thread()
        sc.op(0, "spawn", o)
        sc.op(o, "P", rng.randint(1, 40))
        sc.op(o, "O", 1)
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        s = rng.randint(1, n)
        if r < 0.4:
            c = sc.call()
            sc.op(0, "H", c, s, rng.choice("vsnx"))
            later.append(c)
        elif r < 0.7:
            sc.op(0, "R", s, 0)
        elif r < 0.8:
            sc.op(0, "hold", s)
            sc.op(0, *rng.choice([("R", s, 0), ("K", 0)]))
            c = sc.call()
            sc.op(0, "H", c, s, rng.choice("vsnx"))
            if s not in gates and rng.random() < 0.5:
                sc.op(0, "G", c)
            else:
                later.append(c)
            sc.op(0, "drop", s)
        else:
            sc.log(0, rng)
    for t in ths + ([o] if o else []):
        sc.op(0, "join", t)
    rng.shuffle(later)
    cut = rng.randint(0, len(later))
    for c in later[:cut]:
        sc.op(0, "G", c)
    sc.op(0, "D", 0)
    c = sc.call()
    sc.op(0, "H", c, rng.randint(1, n), "v")
    for c in later[cut:] + [c]:
        sc.op(0, "G", c)
    return sc


def own(sid, rng, focus):
    """sinks that change what they receive, that log themselves, that are called while messages come in"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([2, 3, 4, 5])
    for s in range(1, n + 1):
        k = rng.choice("XXMSL")
        kw = {}
        if rng.random() < 0.25:
            kw["logs"] = rng.randint(1, 3)
        sc.sink(s, k, **kw)
    # only one sink may log for a given message
    used = set()
    for s in list(sc.sinks):
        k, kw = sc.sinks[s]
        if "logs" in kw and kw["logs"] in used:
            kw.pop("logs")
        used.add(kw.get("logs"))
    for s in sc.sinks:
        sc.op(0, "A", s, 0)
    sc.op(0, "I", 0)
    ths = [sc.thread() for _ in range(rng.choice([1, 2]))]
    calls = []
    for t in ths:
        sc.op(0, "spawn", t)
    for t in [0] + ths:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.6:
                sc.log(t, rng, rng.choice([1, 2]))
            else:
                c = sc.call()
                sc.op(t, "H", c, rng.randint(1, n), rng.choice("vsnl"))
                calls.append(c)
    if rng.random() < 0.5:
        sc.op(0, "R", rng.randint(1, n), 0)
    for t in ths:
        sc.op(0, "join", t)
    for c in calls:
        sc.op(0, "G", c)
    finish(sc, rng)
    return sc


def inner(sid, rng, focus):
    """handle calls that make handle calls, on sinks of a higher number (which may be detached meanwhile), or on their own
    sink, when that is not being detached (see known-findings.txt: own-handle)"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([1, 2, 2, 3])
    for s in range(1, n + 1):
        sc.sink(s, rng.choice("SMXL"))
        sc.op(0, "A", s, 0)
    sc.op(0, "I", 0)
    detach = n > 1 and rng.random() < 0.6
    ths = [sc.thread() for _ in range(rng.choice([1, 2]))]
    for t in ths:
        sc.op(0, "spawn", t)
    outer, deep = [], []
    for t in ths:
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.4:
                sc.log(t, rng)
            s = rng.randint(1, n)
            s2 = rng.randint(s + 1, n) if s < n and (detach or rng.random() < 0.5) else s
            c = sc.call()
            if detach and s2 == s:
                sc.op(t, "H", c, s, rng.choice("vsnxl"))
            else:
                c2 = sc.call()
                sc.op(t, "H", c, s, "h", c2, s2)
                deep.append(c2)
            outer.append(c)
    if detach:
        s = rng.randint(2, n)
        sc.op(0, "P", rng.randint(1, 30))
        sc.op(0, *rng.choice([("R", s, 0), ("R", s, 0), ("R", n, 0)]))
        if rng.random() < 0.5:
            sc.op(0, "H", sc.call(), s, "v")
    for t in ths:
        sc.op(0, "join", t)
    for c in outer:
        sc.op(0, "G", c)
    if not detach or rng.random() < 0.5:
        for c in deep:
            sc.op(0, "G", c)
    finish(sc, rng)
    return sc


def shutdown(sid, rng, focus):
    """destruction of the logger with whatever is still queued"""
    sc = Sc(sid, focus)
    rounds = rng.choice([1, 1, 2])
    nxt = 1
    for w in range(rounds):
        sc.op(0, "W", w)
        n = rng.choice([0, 1, 2, 3])
        gated = None
        mine = []
        for _ in range(n):
            k = kinds(rng, 1)[0]
            kw = {}
            if gated is None and k != "F" and rng.random() < 0.5:
                gated = nxt
                kw[rng.choice(["gate", "gate1"])] = 10 + w
            sc.sink(nxt, k, **kw)
            add(sc, 0, rng, nxt, w)
            mine.append(nxt)
            nxt += 1
        sc.op(0, "I", w)
        ths = [sc.thread() for _ in range(rng.choice([0, 1, 2]))]
        for t in ths:
            sc.op(0, "spawn", t)
            sc.log(t, rng, rng.randint(1, 8))
        sc.log(0, rng, rng.choice([1, 3, 6, 15]))
        calls = []
        f = [s for s in mine if sc.sinks[s][0] != "F"]
        for _ in range(rng.randint(0, 2)):
            if f:
                c = sc.call()
                sc.op(0, "H", c, rng.choice(f), rng.choice("vsn"))
                calls.append(c)
        for t in ths:
            sc.op(0, "join", t)
        o = None
        if gated:
            o = sc.thread()
            sc.op(0, "spawn", o)
            sc.op(o, "P", rng.randint(1, 60))
            sc.op(o, "O", 10 + w)
        sc.op(0, "D", w)
        if o:
            sc.op(0, "join", o)
        for c in calls:
            sc.op(0, "G", c)
        for _ in range(rng.randint(0, 3)):
            sc.log(0, rng)
        if rng.random() < 0.4:
            t = sc.thread()
            sc.op(0, "spawn", t)
            sc.log(t, rng, 2)
            sc.op(0, "join", t)
    return sc


def life(sid, rng, focus):
    """early messages, initialization rules, several loggers"""
    sc = Sc(sid, focus)
    early = [sc.thread() for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    sc.op(0, "W", 0)
    sc.sink(1, rng.choice("SMXL"))
    before = rng.random() < 0.7
    if before:
        sc.op(0, "A", 1, 0)
    for t in early:
        sc.op(0, "spawn", t)
        sc.log(t, rng, rng.randint(1, 3))
    if rng.random() < 0.4:
        sc.log(0, rng)
    if rng.random() < 0.3:
        sc.op(0, "P", rng.randint(1, 20))
    r = rng.random()
    if r < 0.12:                               # ended before it began
        sc.op(0, "shut")
    elif r < 0.3:                              # a logger that is never used
        sc.op(0, "W", 3)
        if rng.random() < 0.5:
            sc.log(0, rng)
        sc.op(0, "D", 3)
        if rng.random() < 0.5:
            sc.log(0, rng)
    what = rng.choice(["ok"] * 6 + ["null", "twice", "two"])
    if what == "null":
        sc.op(0, "I", -1)
        return sc
    sc.op(0, "I", 0)
    if not before:
        sc.op(0, "A", 1, 0)
    sc.log(0, rng, rng.randint(1, 2))
    if what == "twice":
        sc.op(0, "I", 0)
        return sc
    if what == "two":
        sc.op(0, "W", 1)
        sc.op(0, "I", 1)
        return sc
    other = rng.random() < 0.5
    if other:
        sc.op(0, "W", 1)
        sc.sink(2, rng.choice("SMX"))
        sc.op(0, "A", 2, 1)
        if rng.random() < 0.5:
            t = sc.thread()
            sc.op(0, "spawn", t)
            sc.log(t, rng, rng.randint(1, 3))
        else:
            t = None
        if rng.random() < 0.7:
            sc.op(0, "D", 1)
            gone = True
        else:
            gone = False
        sc.log(0, rng)
        if t:
            sc.op(0, "join", t)
    for w in range(10, 10 + rng.choice([0, 0, 1, 2, 3])):     # more loggers that come and go unused
        sc.op(0, "W", w)
        sc.op(0, "D", w)
    for t in early:
        sc.op(0, "join", t)
    r = rng.random()
    if r < 0.3:
        sc.op(0, "shut")
        sc.log(0, rng, 2)
        sc.op(0, "I", 0)
        sc.log(0, rng)
    sc.op(0, "D", 0)
    sc.log(0, rng)
    if other and not gone:
        if rng.random() < 0.7:
            sc.op(0, "I", 1)
            sc.log(0, rng, 2)
        sc.op(0, "D", 1)
        sc.log(0, rng)
    if rng.random() < 0.5:
        w = 2
        sc.op(0, "W", w)
        sc.sink(5, rng.choice("SMX"))
        sc.op(0, "A", 5, w)
        sc.op(0, "I", w)
        sc.log(0, rng, 2)
        sc.op(0, "D", w)
    return sc


def asynch(sid, rng, focus):
    """everything is asked for while sinks are stuck; the gate opens only afterwards"""
    sc = Sc(sid, focus)
    sc.op(0, "W", 0)
    n = rng.choice([2, 2, 3, 4])
    stuck = set(rng.sample(range(1, n + 1), rng.randint(1, n)))
    for s in range(1, n + 1):
        kw = {"gate": 1} if s in stuck else {}
        sc.sink(s, rng.choice("SMXL"), **kw)
        sc.op(0, "A", s, 0)
    sc.op(0, "I", 0)
    free = [s for s in range(1, n + 1) if s not in stuck]
    calls = []
    total = 0

    def some(t):
        k = rng.choice([1, 2, 5, 12, 30])
        sc.log(t, rng, k)
        if rng.random() < 0.6:
            c = sc.call()
            sc.op(t, "H", c, rng.choice(sorted(stuck)), rng.choice("vsn"))
            calls.append(c)
        if free and rng.random() < 0.7:
            c = sc.call()
            sc.op(t, "H", c, rng.choice(free), rng.choice("vsn"))
            sc.op(t, "G", c)
        return k

    ths = [sc.thread() for _ in range(rng.choice([0, 1, 2]))]
    for t in ths:
        sc.op(0, "spawn", t)
        total += some(t)
    for _ in range(rng.randint(1, 3)):
        total += some(0)
    for t in ths:
        sc.op(0, "join", t)
    for s in free:
        sc.op(0, "VR", s, total)
    if free and rng.random() < 0.4:
        sc.op(0, "R", free[0], 0)  # detaching a sink does not wait for the other ones
        sc.log(0, rng, 2)
    if rng.random() < 0.3:
        s = n + 1
        sc.sink(s, rng.choice("SM"))
        sc.op(0, "A", s, 0)  # nor does attaching one
        sc.log(0, rng, 2)
        sc.op(0, "VR", s, 2)
    sc.op(0, "O", 1)
    for c in calls:
        sc.op(0, "G", c)
    sc.op(0, "D", 0)
    return sc


# ------------------------------------------------------------------------------------------------ fatal events
LOGKINDS = ["LOG", "LOGF", "LOGIF", "CHECK", "CHECKF", "CHECKL", "XLOG", "XLOG"]
SIGKINDS = ["segv", "ABRT", "RABRT", "FPE", "ILL", "TERM"]
SIGOF = {"segv": 11, "SEGV": 11, "ABRT": 6, "RABRT": 6, "FPE": 8, "ILL": 4, "TERM": 15}


class Fatals:
    """hands out fatal events; signals that could be confused (same number) are not used twice"""

    def __init__(self, sc, rng, kinds=None):
        self.sc, self.rng, self.used = sc, rng, set()
        self.kinds = kinds or LOGKINDS + SIGKINDS
        self.n = 0

    def make(self, sig=None):
        c = [k for k in self.kinds if SIGOF.get(k) not in self.used and (sig is None or (k in SIGOF) == sig)]
        if not c:
            c = LOGKINDS
        k = self.rng.choice(c)
        if k in SIGOF:
            self.used.add(SIGOF[k])
            self.n += 1
            return k, 800000 + self.n
        return k, self.sc.msg()

    def op(self, t, sig=None):
        k, m = self.make(sig)
        self.sc.op(t, "F", k, m)
        return m


def fatal(sid, rng, focus, kinds_=None):
    """a fatal event while messages are under way"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng, kinds_)
    if rng.random() < 0.15:
        sc.log(0, rng)  # the early message
    sc.op(0, "W", 0)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    gated = {}
    if n and rng.random() < 0.35:
        gated = {rng.randint(1, n): 1}
    add_initial(sc, rng, n, gates=gated)
    ths = [sc.thread() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    for t in ths:
        sc.op(0, "spawn", t)
        sc.log(t, rng, rng.randint(1, 6))
    sc.log(0, rng, rng.choice([1, 1, 3, 8]))
    if gated:
        o = sc.thread()
        sc.op(0, "spawn", o)
        sc.op(o, "P", rng.randint(1, 60))
        sc.op(o, "O", 1)
    if real(sc) and rng.random() < 0.25:
        c = sc.call()
        sc.op(0, "H", c, rng.choice(real(sc)), rng.choice("vsn"))
    if real(sc) and not gated and rng.random() < 0.15:
        sc.op(0, "R", rng.choice(real(sc)), 0)
    who = rng.choice([0] + ths)
    if who and rng.random() < 0.3:
        sc.op(0, "join", who) if False else None
    fa.op(who)
    if who == 0:
        sc.log(0, rng)  # never happens
    else:
        for _ in range(rng.randint(0, 3)):
            sc.log(0, rng)
        for t in ths:
            sc.op(0, "join", t)
    return sc


def fatals(sid, rng, focus):
    """several threads raise fatal events at the same time"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng)
    sc.op(0, "W", 0)
    n = rng.choice([0, 1, 2, 3])
    add_initial(sc, rng, n)
    ths = [sc.thread() for _ in range(rng.choice([2, 2, 3, 4]))]
    hook = rng.random() < 0.3
    if hook:
        sc.op(0, "hook", 1, *rng.choice([("",), ("log", sc.msg())]))
    for t in ths:
        sc.op(0, "spawn", t)
        for _ in range(rng.randint(0, 2)):
            sc.log(t, rng)
        if rng.random() < 0.3:
            sc.op(t, "P", rng.randint(1, 20))
        if rng.random() < 0.8:
            fa.op(t)
    if rng.random() < 0.5:
        sc.log(0, rng, rng.randint(1, 3))
        fa.op(0)
    else:
        for _ in range(rng.randint(0, 4)):
            sc.log(0, rng)
        for t in ths:
            sc.op(0, "join", t)
        fa.op(0)
    return sc


def fhook(sid, rng, focus):
    """pre-fatal hooks: replaced, reset by a new initialization, logging, crashing, set by themselves, several fatal events"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng)
    h = 0
    w = 0

    def hook(t):
        nonlocal h
        h += 1
        what = rng.choice(["", "", "log", "fatal", "fatal", "sethook"])
        if what == "log":
            sc.op(t, "hook", h, "log", sc.msg())
        elif what == "fatal":
            k, m = fa.make()
            sc.op(t, "hook", h, "fatal", m, k)
        elif what == "sethook":
            sc.op(t, "hook", h, "sethook", h + 50)
        else:
            sc.op(t, "hook", h)
    if rng.random() < 0.3:
        hook(0)  # forgotten by the initialization
    sc.op(0, "W", 0)
    add_initial(sc, rng, rng.choice([0, 1, 2]))
    for _ in range(rng.choice([0, 1, 1, 2])):
        hook(0)
    if rng.random() < 0.25:
        sc.log(0, rng)
        sc.op(0, "D", 0)
        sc.op(0, "W", 1)
        sc.sink(9, "S")
        sc.op(0, "A", 9, 1)
        sc.op(0, "I", 1)
        if rng.random() < 0.4:
            hook(0)
    t = 0
    if rng.random() < 0.4:
        t = sc.thread()
        sc.op(0, "spawn", t)
    sc.log(t, rng)
    if rng.random() < 0.85:
        fa.op(t)
    if t:
        if rng.random() < 0.5:
            hook(0)
        for _ in range(rng.randint(0, 2)):
            sc.log(0, rng)
        sc.op(0, "join", t)
    if rng.random() < 0.3:
        fa.op(0)
    return sc


def hook_that(sc, rng, fa, hk):
    """a hook for a program that survives its fatal events"""
    what = rng.choice(["", "", "log", "sethook", "sethook", "fatal"])
    if what == "log":
        sc.op(0, "hook", hk, "log", sc.msg())
    elif what == "sethook":
        sc.op(0, "hook", hk, "sethook", hk + 50)
    elif what == "fatal":
        k, m = fa.make(False)
        sc.op(0, "hook", hk, "fatal", m, k)
    else:
        sc.op(0, "hook", hk)


def fhand(sid, rng, focus):
    """custom fatal exit handlers: return, throw, hand over to the default handling; the program goes on"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng, LOGKINDS + ["RABRT", "FPE", "ILL", "TERM", "SEGV"])
    sc.op(0, "W", 0)
    add_initial(sc, rng, rng.choice([0, 1, 2]))
    h = hk = 0
    sigthread = rng.choice([0, 0, 1])
    mode = None

    def handler():
        nonlocal h, mode
        h += 1
        mode = rng.choice(["ret", "ret", "ret", "throw", "throw", "default", "default+"])
        sc.op(0, "hand", h, mode)
    handler()
    ths = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.25:
            handler()
        if rng.random() < 0.35:
            hk += 1
            hook_that(sc, rng, fa, hk)
        sc.log(0, rng)
        sig = None if (mode != "throw" and sigthread == 0) else False
        if rng.random() < 0.3 and mode in ("ret", "throw"):
            t = sc.thread()
            sc.log(t, rng)
            fa.op(t, None if (mode == "ret" and sigthread == 1) else False)
            sigthread = 2 if sigthread == 1 else sigthread
            sc.log(t, rng)
            sc.op(0, "spawn", t)
            if rng.random() < 0.6:
                fa.op(0, False)
            sc.op(0, "join", t)
        else:
            fa.op(0, sig)
        if mode in ("default", "default+"):
            return sc
        sc.log(0, rng)
    finish(sc, rng)
    if rng.random() < 0.5 and any(o == "D 0" for o in sc.ops[0]):
        fa.op(0, False)
        sc.log(0, rng)
    return sc


def fagain(sid, rng, focus):
    """several loggers one after the other, fatal events that a custom handler takes under each of them"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng, LOGKINDS)
    h = hk = 0
    for w in range(rng.choice([2, 2, 3])):
        sc.op(0, "W", w)
        if rng.random() < 0.7:
            sc.sink(w + 1, rng.choice("SMF"))
            add(sc, 0, rng, w + 1, w)
        if rng.random() < 0.2:
            sc.log(0, rng)
        sc.op(0, "I", w)
        if h == 0 or rng.random() < 0.4:
            h += 1
            sc.op(0, "hand", h, rng.choice(["ret", "ret", "throw"]))
        if rng.random() < 0.5:
            hk += 1
            hook_that(sc, rng, fa, hk)
        sc.log(0, rng)
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.25:
                t = sc.thread()
                fa.op(t, False)
                sc.log(t, rng)
                sc.op(0, "spawn", t)
                sc.op(0, "join", t)
            else:
                fa.op(0, False)
            sc.log(0, rng)
        # a hook that was set and not used up must not be there under the next logger
        if rng.random() < 0.3:
            hk += 1
            sc.op(0, "hook", hk)
        if rng.random() < 0.8:
            sc.op(0, "D", w)
        else:
            sc.op(0, "shut")
    if rng.random() < 0.5:
        fa.op(0, False)
    return sc


def fnolog(sid, rng, focus):
    """fatal events without an active logger: before the initialization, after the destruction"""
    sc = Sc(sid, focus)
    fa = Fatals(sc, rng)
    inst = rng.random() < 0.6
    if inst:
        sc.op(0, "install")
    if rng.random() < 0.4:
        sc.log(0, rng)
    if rng.random() < 0.3:
        sc.op(0, "hook", 1, *rng.choice([("",), ("log", sc.msg())]))
    if rng.random() < 0.5:
        sc.op(0, "W", 0)
        sc.sink(1, rng.choice("SMF"))
        add(sc, 0, rng, 1, 0)
        if rng.random() < 0.6:
            inst = True
            sc.op(0, "I", 0)
            sc.log(0, rng)
            sc.op(0, *rng.choice([("D", 0), ("shut",)]))
    t = 0
    if rng.random() < 0.3:
        t = sc.thread()
        sc.op(0, "spawn", t)
        sc.log(t, rng)
        fa.op(t, None if inst else False)
        sc.op(0, "join", t)
    else:
        fa.op(0, None if inst else False)
    return sc
