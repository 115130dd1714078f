"""Traces of the pipeline driver: encoding for spec/G3LogTrace.tla and batch validation with TLC."""
import json, os, random, re, subprocess, concurrent.futures as cf

NAMES = ("LOGC LOGR ADDC ADDR RMC RMR CLRC CLRR DC DR INITC INITR RECVB RECVE EXECB EXECE SDTOR HCC HCR FUTC FUTR CERR FATC FATR "
         "HOOKB HOOKE HANDB HANDE WORKER SETHOOKC SETHOOKR SETHANDC SETHANDR SHUTC SHUTR HOLDC HOLDR DROPC DROPR CONT CATCH").split()
K = {n: i + 1 for i, n in enumerate(NAMES)}
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def pretty(e):
    return "%s t%d %s" % (NAMES[e[0] - 1], e[1], " ".join(map(str, e[2:])))


def encode(t, filesinks):
    """A recorded trace as the record G3LogTrace works on: only re-indexing, nothing is judged here."""
    ev = t["ev"]
    sinks = sorted({e[2] for e in ev if e[0] == K["ADDC"]})
    workers = sorted({e[2] for e in ev if e[0] == K["WORKER"]})
    tids = sorted({e[1] for e in ev})
    calls = sorted({e[2] for e in ev if e[0] in (K["HCC"], K["FUTC"])})
    throws = sorted({e[2] for e in ev if e[0] == K["HCC"] and e[4] == 1})
    files = {f[0]: [f[2], f[1]] for f in t["files"]}
    obs, pred, callpos = [], set(), {}
    fatals = {e[2] for e in ev if e[0] == K["FATC"]}
    for p, e in enumerate(ev):
        if e[0] == K["LOGC"] and e[2] not in callpos:
            callpos[e[2]] = p + 1
    for s in sinks:
        if s in filesinks:
            o = [[0, m] for m in files.get(s, [0, []])[1]]
        else:
            o = [[0 if e[0] == K["RECVB"] else 1, e[3]] for e in ev if e[0] in (K["RECVB"], K["EXECB"]) and e[2] == s]
        obs.append(o)
        ms = [x[1] for x in o if x[0] == 0 and (x[1] in callpos or x[1] in fatals)]
        for a, b in zip(ms, ms[1:]):
            if a in callpos:
                pred.add((b, a))
    # messages shown because no sink was there, by the thread that showed them: also in the order of the queue
    shown = {}
    for e in ev:
        if e[0] == K["CERR"] and e[2] in callpos:
            shown.setdefault(e[1], []).append(e[2])
    for ms in shown.values():
        for a, b in zip(ms, ms[1:]):
            pred.add((b, a))
    seen = {x[1] for o in obs for x in o if x[0] == 0} | {e[2] for e in ev if e[0] == K["CERR"]}
    lr = {e[2]: p for p, e in enumerate(ev) if e[0] == K["LOGR"]}
    unobs = sorted((m for m in callpos if m not in seen), key=lambda m: lr.get(m, 1 << 30))
    wof = {e[2]: e[3] for e in ev if e[0] == K["ADDC"]}
    dead = {e[2] for e in ev if e[0] == K["SDTOR"]}

    def detach(s):  # 0: not known to be complete, prune nothing
        if s not in dead:
            return 0
        tookfatal = any(x[1] in fatals for o, t_ in zip(obs, sinks) if t_ == s for x in o)
        none = 1 << 30 if tookfatal else 0
        return next((p + 1 for p, e in enumerate(ev) if (e[0] == K["RMC"] and e[2] == s) or (e[0] in (K["CLRC"], K["DC"]) and e[2] == wof[s]) or (e[0] == K["FATC"] and not tookfatal)), none)

    def detach0(s, but):
        return next((p for p, e in enumerate(ev) if p != but and ((e[0] == K["RMC"] and e[2] == s) or (e[0] in (K["CLRC"], K["DC"]) and e[2] == wof[s]) or e[0] == K["FATC"])), 1 << 30)

    # lookahead: see MayBeLast and Locked in the specification
    die = {e[2]: p for p, e in enumerate(ev) if e[0] == K["SDTOR"]}
    last, lock, open_ = [], [], {}
    executed = {e[3] for e in ev if e[0] == K["EXECB"]}
    futk = {e[2]: e[3] for e in ev if e[0] == K["FUTR"]}
    for p, e in enumerate(ev):
        if e[0] in (K["ADDC"], K["HCC"], K["DROPC"], K["RMC"]):
            name, rk = {K["ADDC"]: ("add", K["ADDR"]), K["HCC"]: ("hc", K["HCR"]), K["DROPC"]: ("drop", K["DROPR"]), K["RMC"]: ("rm", K["RMR"])}[e[0]]
            s = e[3] if name == "hc" else e[2]
            end = next((q for q in range(p, len(ev)) if ev[q][0] == rk and ev[q][1] == e[1] and ev[q][2] == e[2]), None)
            if end is None or detach0(s, p if name == "rm" else -1) <= end:
                last.append([name, e[2]])
            if name == "hc":
                if e[2] in executed:
                    lock.append([e[2], 1])
                elif futk.get(e[2]) == 2:
                    lock.append([e[2], 0])
    # log calls during which the active logger may change
    free, changing = [], False
    intervals, open_ = [], {}
    for p, e in enumerate(ev):
        if e[0] in (K["INITC"], K["SHUTC"], K["DC"]):
            open_[(e[0] + 1, e[1])] = p
        elif e[0] in (K["INITR"], K["SHUTR"], K["DR"]) and (e[0], e[1]) in open_:
            intervals.append((open_.pop((e[0], e[1])), p))
        elif e[0] == K["FATC"]:
            intervals.append((p, 1 << 30))
    intervals += [(p, 1 << 30) for p in open_.values()]
    for m, p in callpos.items():
        r = lr.get(m, 1 << 30)
        if any(a < r and p - 1 < b for a, b in intervals):
            free.append(m)
    fatal = {e[2] for e in ev if e[0] == K["FATC"]}
    fobs = {e[2] for e in ev if e[0] in (K["CERR"], K["FATR"])} | {e[3] for e in ev if e[0] in (K["RECVB"], K["HANDB"])}
    fobs |= {m for f in files.values() for m in f[1]}
    runs = [(e[1], p) for p, e in enumerate(ev) if e[0] == K["HOOKB"]]
    for p, e in enumerate(ev):
        if e[0] == K["FATC"] and any(t == e[1] and q > p for t, q in runs):
            fobs.add(e[2])
    bits = [e[4] for e in ev if e[0] in (K["RECVB"], K["HANDB"]) and e[3] in fatal]
    rec = 1 if not bits or any(b & 32 for b in bits) else 0
    fp = [p for p, e in enumerate(ev) if e[0] == K["FATC"]]
    lone = 1 if len(fp) == 1 and not any(e[0] in (K["SETHOOKC"], K["SETHANDC"], K["INITC"]) and p > fp[0] for p, e in enumerate(ev)) \
        and all(any(g[0] == e[0] + 1 and g[1] == e[1] for g in ev[p:fp[0]]) for p, e in enumerate(ev[:fp[0]]) if e[0] in (K["SETHOOKC"], K["SETHANDC"], K["INITC"])) else 0
    inf = 1 << 30
    deaths = [0 if s in filesinks else die.get(s, inf) for s in sinks]
    return {"lone": lone, "fobs": sorted(fatal & fobs), "rec": rec, "free": free, "die": deaths, "last": last, "lock": lock, "unobs": unobs, "ev": ev, "end": t["end"], "obsn": [len(o) for o in obs],
            "detach": [detach(s) for s in sinks], "sinks": [[s, 1 if s in filesinks else 0, wof[s]] for s in sinks], "workers": workers,
            "tids": tids, "calls": calls, "throws": throws, "obs": obs, "pred": [[b, a, callpos[a]] for b, a in sorted(pred)],
            "files": [files.get(s, [0, []]) for s in sinks]}


def tlc(module, cfg, workdir, env=None, xmx="2g", timeout=800, extra=(), workers=1):
    """-> (output, whether it ended by itself)"""
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m", "-Djava.io.tmpdir=" + workdir, "-cp", CP, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(workdir, "meta"), "-config",
           cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)] + list(extra) + [module if os.path.isabs(module) else os.path.join(SPEC, module + ".tla")]
    log = os.path.join(workdir, "tlc.out")
    with open(log, "w") as fh:
        p = subprocess.Popen(cmd, env=e, cwd=workdir, stdout=fh, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout)
            fin = True
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            fin = False
    with open(log, errors="replace") as fh:
        return fh.read(), fin


def states(out):
    m = re.search(r"(\d+) states generated,? (\d+) distinct states found", out.replace(",", ""))
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate_chunk(args):
    """-> (flags, states, finished): flags are valid for accepted traces in any case, for rejected ones only if finished"""
    k, encs, workdir, limit = args
    d = os.path.join(workdir, "tv%s" % k)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "traces.json")
    with open(f, "w") as fh:
        json.dump(encs, fh)
    out, fin = tlc("G3LogTrace", "G3LogTrace.cfg", d, {"TRACEFILE": f}, timeout=limit)
    acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
    if fin and "Model checking completed" not in out:
        raise RuntimeError("TLC failed:\n" + out[-3000:])
    return [j + 1 in acc for j in range(len(encs))], states(out), fin


def validate(encs, workdir, jobs=8, limit=150, single=30, maxsingle=48):
    """-> (list of verdicts: 1 accepted, 0 rejected, -1 not decided in the time; states generated, distinct states)"""
    if not encs:
        return [], 0, 0
    order = sorted(range(len(encs)), key=lambda j: -len(encs[j]["ev"]))
    n = max(1, min(jobs, (len(encs) + 9) // 10))
    parts = [order[j::n] for j in range(n)]
    verdict = [-1] * len(encs)
    gen = dis = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for idx, (flags, (g, d), fin) in zip(parts, ex.map(validate_chunk, [(k, [encs[i] for i in p], workdir, limit) for k, p in enumerate(parts)])):
            gen, dis = gen + g, dis + d
            for i, ok in zip(idx, flags):
                verdict[i] = 1 if ok else (0 if fin else -1)
        todo = [i for i in range(len(encs)) if verdict[i] == -1]
        random.Random(1).shuffle(todo)
        todo = todo[:maxsingle]
        for i, (flags, (g, d), fin) in zip(todo, ex.map(validate_chunk, [("s%d" % i, [encs[i]], workdir, single) for i in todo])):
            gen, dis = gen + g, dis + d
            verdict[i] = 1 if flags[0] else (0 if fin else -1)
    return verdict, gen, dis


def explain(enc, workdir, limit=60):
    """How far a single rejected trace can be explained: the number of events that fit."""
    d = os.path.join(workdir, "single%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "traces.json")
    with open(f, "w") as fh:
        json.dump([enc], fh)
    out, fin = tlc("G3LogTrace", "G3LogTraceSingle.cfg", d, {"TRACEFILE": f}, timeout=limit)
    r = [int(x) for x in re.findall(r'<<"REACHED", (\d+)>>', out)]
    return '<<"ACC", 1>>' in out, (max(r) - 1 if r else 0)
