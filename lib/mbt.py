"""Sequential parts: operation sequences generated from a specification by TLC, replayed on the real code,
and the recorded traces checked against the same specification by TLC.

A module M has:  M.tla (state, Do(op), ObsOK(op, obs)), MGen.tla (prints sequences), MTrace.tla (checks recorded ones)."""
import concurrent.futures as cf, json, os, random, re, subprocess, time
import ptrace


def generate(module, workdir, cfg=None, consts=None, simulate=None, depth=None, timeout=300, seed=1, xmx="3g"):
    """-> list of operation sequences printed by the module, (generated, distinct)"""
    d = os.path.join(workdir, "gen-%s-%s" % (module, (cfg or "").replace(".cfg", "") + ("sim" if simulate else "")))
    extra = ()
    if simulate:
        extra = ("-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed))
    out, fin = ptrace.tlc(module, cfg or module + ".cfg", d, consts, xmx=xmx, timeout=timeout, extra=extra)
    if not fin or ("Error:" in out) or ("Finished" not in out and not simulate):
        raise RuntimeError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    seqs, seen = [], set()
    for line in out.split("\n"):
        if line.startswith('"') and line.endswith('"') and line not in seen:
            seen.add(line)
            q = json.loads(json.loads(line))
            if simulate:   # TLC prints every possible last step of a walk: one is kept
                walk = json.dumps(q[:-1])
                if walk in seen:
                    continue
                seen.add(walk)
            seqs.append(q)
    return seqs, ptrace.states(out)


def clip(x):
    """long strings shortened"""
    f = lambda v: v if not isinstance(v, (str, list)) else [f(e) for e in v] if isinstance(v, list) else v if len(v) < 200 else v[:100] + "... (%d characters)" % len(v)
    return json.dumps(f(x))


def prefixfree(seqs):
    """leaves out sequences that are prefixes of others"""
    keys = {json.dumps(s)[:-1] for s in seqs}
    pre = set()
    for s in seqs:
        for k in range(1, len(s)):
            pre.add(json.dumps(s[:k])[:-1])
    return [s for s in seqs if json.dumps(s)[:-1] not in pre]


def replay(exe, seqs, workdir, args=(), jobs=8, timeout=300, tag=""):
    """runs the driver on the sequences -> one recorded trace (list of [op, obs]) or None per sequence"""
    parts = [list(range(j, len(seqs), jobs)) for j in range(jobs)]

    def one(j):
        base = os.path.join(workdir, "rep%s%d" % (tag, j))
        os.makedirs(base + ".scr", exist_ok=True)
        with open(base + ".in", "w") as f:
            for k in parts[j]:
                f.write(json.dumps(seqs[k], separators=(",", ":")) + "\n")
        with open(base + ".err", "w") as err:
            try:
                rc = subprocess.run([exe, base + ".in", base + ".out", base + ".scr"] + list(args), stdout=subprocess.DEVNULL, stderr=err, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = "it did not end"
        res = []
        if os.path.exists(base + ".out"):
            for line in open(base + ".out", errors="replace"):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    res.append(None)
        return res, rc
    out = [None] * len(seqs)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for j, (res, rc) in enumerate(ex.map(one, range(jobs))):
            for k, r in zip(parts[j], res):
                out[k] = r
            if rc != 0 and len(res) < len(parts[j]):
                # the driver died while working on the sequence after the last one written
                out[parts[j][len(res)]] = {"died": rc}
    return out


def check(module, traces, workdir, jobs=8, timeout=400, xmx="2g", tag="", cfg=None):
    """-> (per trace: None if accepted, else the number of steps that fit), (generated, distinct)"""
    n = max(1, min(jobs, (len(traces) + 49) // 50))
    parts = [list(range(j, len(traces), n)) for j in range(n)]

    def one(j):
        d = os.path.join(workdir, "chk-%s%s%d" % (module, tag, j))
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "traces.json")
        with open(f, "w") as fh:
            json.dump([traces[k] for k in parts[j]], fh)
        out, fin = ptrace.tlc(module, cfg or module + ".cfg", d, {"TRACEFILE": f}, timeout=timeout, xmx=xmx)
        if not fin or "Model checking completed" not in out:
            raise RuntimeError("TLC failed on %s:\n%s" % (module, out[-3000:]))
        acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        return acc, ptrace.states(out), d
    res = [0] * len(traces)
    gen = dis = 0
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, range(n)))
    for j, (acc, (g, s), d) in enumerate(outs):
        gen, dis = gen + g, dis + s
        for p, k in enumerate(parts[j]):
            if p + 1 in acc:
                res[k] = None
    bad = [k for k in range(len(traces)) if res[k] is not None]
    t0 = time.time()
    for k in sorted(bad, key=lambda k: (len(traces[k]), k))[:3]:   # how far they get: some prefix is accepted, longer ones are not
        lo, hi = 0, len(traces[k])
        d = os.path.join(workdir, "exp-%s" % module)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "traces.json")
        while hi - lo > 1 and time.time() - t0 < 120:
            cuts = sorted({lo + (hi - lo) * j // 9 for j in range(1, 9)} - {lo, hi})
            json.dump([traces[k][:m] for m in cuts], open(f, "w"))
            out, fin = ptrace.tlc(module, cfg or module + ".cfg", d, {"TRACEFILE": f}, timeout=60, xmx=xmx)
            acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
            for j, m in enumerate(cuts):
                if j + 1 in acc:
                    lo = m
                else:
                    hi = m
                    break
        res[k] = lo
    return res, (gen, dis)


def decide(c, module, seqs, traces, workdir, what, maxreport=3, tag="", known=None, cfg=None):
    """checks recorded traces with TLC, reports violations to c.  known(op, obs, trace) -> text of a listed finding or None"""
    died = [k for k, t in enumerate(traces) if isinstance(t, dict)]
    for k in died[:maxreport]:
        c.violation("%s: the process died (%s) in %s" % (what, traces[k]["died"], json.dumps(seqs[k])[:600]), {"operations": seqs[k]})
    live = [k for k, t in enumerate(traces) if isinstance(t, list)]
    lost = len(traces) - len(live) - len(died)
    res, (gen, dis) = check(module, [traces[k] for k in live], workdir, tag=tag, cfg=cfg)
    c.count("states", dis)
    c.count("transitions", gen)
    c.count("traces_validated_against_impl", sum(r is None for r in res))
    c.count("operations_replayed", sum(len(traces[k]) for k in live))
    if lost and not died:
        raise RuntimeError("%d sequences were not replayed" % lost)
    bad = sorted(((k, r) for k, r in zip(live, res) if r is not None), key=lambda x: (len(traces[x[0]]), x[0]))
    c.count("traces_rejected", len(bad))
    seen = 0
    for k, r in bad:
        t = traces[k]
        step = t[r] if r < len(t) else None
        if known and step:
            txt = known(step, t)
            if txt:
                if txt not in c.known:
                    c.finding(txt)
                continue
        if seen < maxreport:
            c.violation("%s: step %d of %d is not allowed by %s: %s" % (what, r + 1, len(t), module, clip(step)[:1500]),
                        {"module": module, "trace": t, "explained": r, "operations": seqs[k]})
        seen += 1
    if live:
        k = live[len(live) // 2]
        c.sample({"module": module, "trace": json.loads(clip(traces[k][:12])), "accepted": res[len(live) // 2] is None})
