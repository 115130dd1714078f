"""Checks of the pipeline: scenarios run on the real code under the controlled scheduler, traces decided by G3LogTrace."""
import concurrent.futures as cf, json, os, random, subprocess
import build, pscen, ptrace


def scenarios(seed, fams, tier):
    """fams: list of (family, number of scenarios, runs per scenario, keyword arguments)"""
    out = []
    for fam, n, runs, *kw in fams:
        for i in range(n):
            sid = "%s%d" % (fam, i)
            rng = random.Random("%s|%d|%d" % (fam, seed, i))
            out.append((getattr(pscen, fam)(sid, rng, "", **(kw[0] if kw else {})), runs))
    return out


def run_driver(exe, scens, seed, workdir, limit, tag=""):
    """-> list of traces (with 'sc': index of the scenario), statistics"""
    slots = 8
    groups = {}
    for k, (sc, runs) in enumerate(scens):
        groups.setdefault(runs, []).append(k)
    jobs = []
    for runs, ks in groups.items():
        for j in range(slots):
            part = ks[j::slots]
            if part:
                jobs.append((len(jobs), runs, part))
    byid = {sc.id: k for k, (sc, runs) in enumerate(scens)}

    def one(job):
        no, runs, part = job
        base = os.path.join(workdir, "run%s%d" % (tag, no))
        os.makedirs(base + ".scr", exist_ok=True)
        with open(base + ".txt", "w") as f:
            f.write("".join(scens[k][0].text() for k in part))
        env = dict(os.environ, PDRV_STATS=base + ".stats")
        try:
            subprocess.run([exe, base + ".txt", base + ".jsonl", base + ".scr", str(runs), str(seed), "-1"], env=env, timeout=limit, stdout=subprocess.DEVNULL)
            st = json.load(open(base + ".stats"))
        except subprocess.TimeoutExpired:
            st = {"cut_short": 1}
        ts = []
        for line in open(base + ".jsonl", errors="replace"):
            try:
                ts.append(json.loads(line))
            except ValueError:
                pass
        return ts, st
    traces, stats = [], {}
    with cf.ThreadPoolExecutor(slots) as ex:
        for ts, st in ex.map(one, jobs):
            for t in ts:
                t["sc"] = byid[t["scn"]]
                traces.append(t)
            for k, v in st.items():
                stats[k] = stats.get(k, 0) + v
    return traces, stats


def rerun(exe, sc, t, seed, workdir):
    """the same scenario and run again -> the trace"""
    n = 0
    base = os.path.join(workdir, "again")
    os.makedirs(base + ".scr", exist_ok=True)
    with open(base + ".txt", "w") as f:
        f.write(sc.text())
    env = dict(os.environ, PDRV_ONLY=str(t["run"]))
    subprocess.run([exe, base + ".txt", base + ".jsonl", base + ".scr", str(t["run"] + 1), str(seed), "-1"], env=env, timeout=300, stdout=subprocess.DEVNULL)
    ts = [json.loads(x) for x in open(base + ".jsonl", errors="replace")]
    return ts[-1] if ts else None


ENDS = {1: "deadlock", 2: "hang", 3: "livelock", 4: "too many threads", 5: "no end within the time limit"}


def describe_end(e):
    if e[0] == 0:
        return "exit with status %d" % e[1]
    if e[0] == 1:
        return "death from signal %d" % e[1]
    return ENDS.get(e[1], "?")


def check(c, fams, attribute=None):
    """fams as for scenarios(); reports violations to c"""
    work = build.scratch("p")
    exe = build.pdrv(os.path.join(work, "b"))
    scens = scenarios(c.seed, fams, c.tier)
    traces, stats = run_driver(exe, scens, c.seed, work, 200 if not c.thorough else 2000)
    encs = [ptrace.encode(t, scens[t["sc"]][0].filesinks()) for t in traces]
    verdict, gen, dis = ptrace.validate(encs, work, limit=200 if not c.thorough else 3000)
    c.count("scenarios", len(scens))
    c.count("executions", stats.get("runs", 0))
    c.count("scheduling_points", stats.get("points", 0))
    c.count("preemptions", stats.get("preempts", 0))
    c.count("distinct_traces", len(traces))
    c.count("events", sum(len(t["ev"]) for t in traces))
    c.count("states", dis)
    c.count("transitions", gen)
    c.count("traces_validated_against_impl", sum(v == 1 for v in verdict))
    c.count("traces_undecided", sum(v == -1 for v in verdict))
    if traces:
        k = min(range(len(traces)), key=lambda j: (abs(len(traces[j]["ev"]) - 40), j))
        t = traces[k]
        c.sample({"scenario": scens[t["sc"]][0].text().strip().split("\n"), "end": describe_end(t["end"]), "accepted": verdict[k] == 1,
                  "events": [ptrace.pretty(e) for e in t["ev"]][:80]})
    bad = sorted((j for j in range(len(traces)) if verdict[j] == 0), key=lambda j: len(traces[j]["ev"]))
    reported = set()
    for j in bad:
        t = traces[j]
        if len(reported) >= 3:
            break
        if t["sc"] in reported:
            continue
        blame = attribute(c.prop, encs[j], t, work) if attribute else True
        if not blame:
            c.count("rejected_for_other_properties")
            continue
        sc = scens[t["sc"]][0]
        again = rerun(exe, sc, t, c.seed, work)
        same = again is not None and again["ev"] == t["ev"] and again["end"] == t["end"]
        ok, n = ptrace.explain(encs[j], work)
        if ok:
            raise RuntimeError("a trace was rejected and accepted")
        ev = [ptrace.pretty(e) for e in t["ev"]]
        what = "not a behaviour of the specification: %d of %d events can be explained; then %s; end: %s%s" % (
            n, len(ev), ev[n] if n < len(ev) else "the end", describe_end(t["end"]), "" if same else " (schedule not reproduced on the second run)")
        if t["end"][0] == 2 and t["end"][1] == 5 and not same:
            c.count("inconclusive_wall_clock")
            continue
        if isinstance(blame, (list, tuple)):
            what += "; false: " + ", ".join(blame)
        reported.add(t["sc"])
        c.violation(what, {"scenario": sc.text().split("\n"), "run": t["run"], "driver_seed": c.seed, "reproduced": same, "explained": n, "end": t["end"],
                           "files": t["files"], "events": ev,
                           "how": "pdrv SCENARIO OUT SCRATCH %d %d -1, last trace (PDRV_ONLY=%d runs only that one)" % (t["run"] + 1, c.seed, t["run"])})
    c.count("traces_rejected", len(bad))
    return exe, work
