"""Builds the harnesses from /repo's current working tree into a scratch directory."""
import concurrent.futures as cf, glob, os, shutil, subprocess, tempfile, atexit

REPO = os.environ.get("G3_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
DEFS = {"plain": "#define G3LOG_DEBUG DEBUG\n",
        "dyn": "#define G3_DYNAMIC_LOGGING\n#define G3LOG_DEBUG DEBUG\n",
        "full": "#define G3_LOG_FULL_FILENAME\n#define G3LOG_DEBUG DEBUG\n",
        "size": "#define G3_DYNAMIC_MAX_MESSAGE_SIZE\n#define G3LOG_DEBUG DEBUG\n"}


class BuildError(Exception):
    pass


def scratch(tag):
    d = tempfile.mkdtemp(prefix="g3v-%s-" % tag)
    atexit.register(shutil.rmtree, d, True)
    return d


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def sources():
    return [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if not f.endswith("_windows.cpp")]


def build(drivers, outdir, variant="plain", flags=(), link=(), plain=(), std="c++17"):
    """drivers: harness files compiled like the library; plain: harness files compiled without the flags; -> path of the binary"""
    inc = os.path.join(outdir, "inc", "g3log")
    os.makedirs(inc, exist_ok=True)
    with open(inc + "/generated_definitions.hpp", "w") as f:
        f.write("#pragma once\n" + DEFS[variant])
    base = ["g++", "-std=" + std, "-O1", "-g", "-w", "-I" + os.path.dirname(inc), "-I" + REPO + "/src", "-I" + HARN]
    jobs, objs = [], []
    for f in sources():
        o = os.path.join(outdir, os.path.basename(f) + ".o")
        jobs.append(base + list(flags) + ["-c", f, "-o", o])
        objs.append(o)
    for f in drivers:
        o = os.path.join(outdir, f + ".o")
        jobs.append(base + list(flags) + ["-c", os.path.join(HARN, f), "-o", o])
        objs.append(o)
    for f in plain:
        o = os.path.join(outdir, f + ".o")
        jobs.append(["g++", "-std=" + std, "-O2", "-w", "-I" + HARN, "-c", os.path.join(HARN, f), "-o", o])
        objs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(outdir, os.path.splitext(drivers[0])[0])
    run(["g++", "-rdynamic"] + objs + list(link) + ["-o", exe, "-ldl", "-lpthread"])
    return exe


TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]


def pdrv(outdir, variant="plain"):
    return build(["pdrv.cpp"], outdir, variant, TSAN, plain=["rt.cpp", "text.cpp"])
