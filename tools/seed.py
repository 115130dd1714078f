#!/usr/bin/env python3
"""seed.py verify ID... : does a planted change count (applies, builds, passes the stable tests, demo 0 without / nonzero with it)?
   seed.py catch ID... [-p PROP,PROP] [-t tier]: which checks catch it (default: the check of its property).
Works on a copy of /repo under /tmp, mounted over /repo in a mount namespace of its own: /repo itself is not touched."""
import json, os, subprocess, sys
SEEDED = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy(tag):
    d = "/tmp/seed/%s" % tag
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        r = sh("cp -a /repo %s/repo" % d)
        assert r.returncode == 0, r.stdout
    sh("cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git checkout -q -- ." % d)
    return d


def ns(d, cmd, timeout=1500):
    return sh("exec unshare -m bash -c 'mount --bind %s/repo /repo && cd /repo && %s'" % (d, cmd.replace("'", "'\\''")), timeout=timeout)


def demo(d, i):
    # laid elsewhere, as it will be when it counts
    sh("rm -rf %s/demo && mkdir -p %s/demo && cp -r %s/%s/. %s/demo/ && rm -f %s/demo/*.diff %s/demo/meta.json" % (d, d, SEEDED, i, d, d, d))
    return ns(d, "timeout 300 bash %s/demo/demo.sh" % d)


def verify(i, tag="a", runs=3):
    d = copy(tag)
    p = "%s/%s/patch.diff" % (SEEDED, i)
    r = ns(d, "bash /opt/vp/build.sh")
    if r.returncode:
        return "base does not build"
    for _ in range(runs):
        r = demo(d, i)
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
    r = ns(d, "git apply --check %s && git apply %s" % (p, p))
    if r.returncode:
        return "does not apply: " + r.stdout
    r = ns(d, "bash /opt/vp/test.sh %s/out.json" % d)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = json.load(open(d + "/out.json"))
    miss = base - set(res["passed"])
    if miss:
        return "tests fail: %s\n%s" % (sorted(miss)[:5], r.stdout[-1200:] if len(miss) > 50 else "")
    out = ""
    for _ in range(runs):
        r = demo(d, i)
        out = r.stdout[-300:].strip().replace("\n", " | ")
        if r.returncode == 0:
            return "demo does not fail with the patch: " + out
    return "counts (demo exit %d: %s)" % (r.returncode, out)


def catch(i, props, tier, tag="a"):
    d = copy(tag)
    p = "%s/%s/patch.diff" % (SEEDED, i)
    r = ns(d, "git apply %s" % p)
    if r.returncode:
        return "does not apply: " + r.stdout
    out = []
    for q in props:
        r = ns(d, "VERIF_TIER=%s VERIF_SEED=1 python3 /verif/run.py %s %s" % (tier, q, tier))
        line = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
        nxt = r.stdout.split("VIOLATION", 1)[1].split("\n")[1:2] if line else r.stdout.strip().split("\n")[-1:]
        out.append("%s: rc=%d %s %s" % (q, r.returncode, "CAUGHT" if line and r.returncode == 1 else "missed", " ".join(nxt)[:260]))
    return "\n    ".join(out)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    props, tier, tag = None, "quick", "a"
    ids = []
    while args:
        a = args.pop(0)
        if a == "-p": props = args.pop(0).split(",")
        elif a == "-t": tier = args.pop(0)
        elif a == "-d": tag = args.pop(0)
        else: ids.append(a)
    for i in ids or sorted(os.listdir(SEEDED)):
        meta = json.load(open("%s/%s/meta.json" % (SEEDED, i)))
        if cmd == "verify":
            print(i, verify(i, tag), flush=True)
        else:
            print(i, catch(i, props or [meta["property"]], tier, tag), flush=True)
