"""The checks of the sequential parts: sequences from TLC, replayed on the real code, traces checked by TLC."""
import os, random
import build, mbt

ASSUME_ONE = "one thread per history; concurrency is the pipeline specification's part"


def c13(c):
    work = build.scratch("C13")
    exe = build.build(["ldrv.cpp"], work + "/b", "dyn")
    cover(c, exe, work, "LevelsGen", "LevelsTrace", "run-time levels")
    walk(c, exe, work, "LevelsWalk", "LevelsTrace", "run-time levels, long histories", 4000 if c.thorough else 300, 31, args=("full",))
    c.assume.append(ASSUME_ONE)
    return "model_checking"


def cover(c, exe, work, gen, trace, what, gcfg=None, tcfg=None, args=(), whole=False):
    """every transition of the specification's state graph, replayed and checked"""
    if c.viol:
        return
    seqs, (g, d) = mbt.generate(gen, work, cfg=gcfg)
    c.count("states", d)
    c.count("transitions", g)
    c.count("specification_transitions_covered", len(seqs))
    if whole:   # everything is observed after every operation: histories that continue others are enough
        seqs = mbt.prefixfree(seqs)
    traces = mbt.replay(exe, seqs, work, args=args, tag=gen, timeout=2000 if c.thorough else 300)
    mbt.decide(c, trace, seqs, traces, work, what, tag=gen, cfg=tcfg)


def walk(c, exe, work, module, trace, what, n, depth, cfg=None, tcfg=None, args=(), salt=0):
    if c.viol:   # one violation is enough
        return
    seqs, _ = mbt.generate(module, work, cfg=cfg, simulate=n, depth=depth, seed=c.seed + salt)
    traces = mbt.replay(exe, seqs, work, args=args, tag=module, timeout=2000 if c.thorough else 300)
    mbt.decide(c, trace, seqs, traces, work, what, tag=module, cfg=tcfg)
    c.count("random_walks", len(seqs))


def c14(c):
    work = build.scratch("C14")
    exe = build.build(["mdrv.cpp"], work + "/dyn", "dyn")
    cover(c, exe, work, "MacrosGen", "MacrosTrace", "statements")
    exe = build.build(["mdrv.cpp"], work + "/st", "plain")
    cover(c, exe, work, "MacrosGen", "MacrosTrace", "statements without run-time levels", "MacrosGenStatic.cfg", "MacrosTraceStatic.cfg")
    c.assume.append(ASSUME_ONE)
    c.assume.append("programs: 6 unconditional, 2 conditional and 3 contract forms, 7 shapes of condition, 12 statement contexts")
    return "model_checking"


def c15(c):
    work = build.scratch("C15")
    exe = build.build(["sdrv.cpp"], work + "/size", "size")
    cover(c, exe, work, "CaptureGen", "CaptureTrace", "message size, settable limit")
    exe = build.build(["sdrv.cpp"], work + "/fix", "plain")
    cover(c, exe, work, "CaptureGen", "CaptureTrace", "message size", "CaptureGenFixed.cfg", "CaptureTraceFixed.cfg")
    c.assume.append("sizes around each of 13 limits, six ways to produce the text; formats the standard functions reject are left out")
    return "model_checking"


def c16(c):
    work = build.scratch("C16")
    exe = build.build(["gdrv.cpp"], work + "/g", "plain")
    cover(c, exe, work, "MessageGen", "MessageTrace", "messages as values", args=("2",))
    walk(c, exe, work, "MessageWalk", "MessageTrace", "messages as values, long histories", 4000 if c.thorough else 300, 41, tcfg="MessageTrace4.cfg", args=("4", "full"))
    exe = build.build(["sdrv.cpp"], work + "/s", "plain")
    cover(c, exe, work, "StatementGen", "StatementTrace", "facts of the statement")
    exe = build.build(["sdrv.cpp"], work + "/f", "full")
    cover(c, exe, work, "StatementGen", "StatementTrace", "facts of the statement, full file names", "StatementGenFull.cfg", "StatementTraceFull.cfg")
    c.assume.append("texts without embedded null characters")
    return "model_checking"


def files(c, changes):
    work = build.scratch(c.prop)
    exe = build.build(["fdrv.cpp"], work + "/f", "plain")
    tcfg = "FileSinkTraceAny.cfg" if changes else "FileSinkTrace.cfg"
    cover(c, exe, work, "FileSinkGen", "FileSinkTrace", "file sink", "FileSinkGenChange.cfg" if changes else "FileSinkGen.cfg", tcfg, whole=True)
    n = 20 if c.thorough else 1
    walk(c, exe, work, "FileSinkWalk", "FileSinkTrace", "file sink, long histories", 250 * n, 27, tcfg=tcfg)
    walk(c, exe, work, "FileSinkWalk", "FileSinkTrace", "file sink, long intervals", 12 * n, 261, "FileSinkWalkLong.cfg", tcfg)
    walk(c, exe, work, "FileSinkWalk", "FileSinkTrace", "several file sinks at once", 500 * n, 27, tcfg=tcfg, args=("4",), salt=1000)
    c.assume.append("the content of the files is read after every operation as a crash would leave it; the clock is the driver's; write interval 0 and failing writes are left out")
    return "model_checking"


def c17(c):
    return files(c, False)


def c18(c):
    return files(c, True)


def c19(c):
    work = build.scratch("C19")
    exe = build.build(["ndrv.cpp"], work + "/n", "plain")
    cover(c, exe, work, "NamesGen", "NamesTrace", "log file names", "NamesGenDeep.cfg" if c.thorough else None)
    c.assume.append("prefixes of up to two characters over an alphabet of 39 (three: thorough) and selected longer ones; the root directory as destination, ids with a slash and names too long for the file system are left out")
    return "model_checking"


def c21(c):
    work = build.scratch("C21")
    exe = build.build(["tdrv.cpp"], work + "/t", "plain")
    cover(c, exe, work, "TimeGen", "TimeTrace", "time stamps", "TimeGenDeep.cfg" if c.thorough else None)
    c.assume.append("the C library's strftime is the reference for everything but fractions; results of 1 to 1023 bytes")
    return "model_checking"


def c11(c):
    work = build.scratch("C11")
    exe = build.build(["xdrv.cpp"], work + "/x", "plain")
    cover(c, exe, work, "SignalsGen", "SignalsTrace", "signal dispositions", "SignalsGenAll.cfg" if c.thorough else None, whole=True)
    walk(c, exe, work, "SignalsWalk", "SignalsTrace", "signal dispositions, long histories", 20000 if c.thorough else 2000, 15)
    c.assume.append("six signals, six sets of them, four dispositions; the application does not change a disposition while the crash handler holds the signal")
    return "model_checking"


def volume(c):
    """numbers of messages that cannot be followed one by one"""
    work = build.scratch(c.prop + "v")
    exe = build.build(["vdrv.cpp"], work + "/v", "plain")
    walk(c, exe, work, "VolumeWalk", "VolumeTrace", "volume", 160 if c.thorough else 16, 9)
    if c.viol:
        return
    big = [[["add", 1], ["add", 2], ["burst", 3, 400000, 0, "all"], ["end"]], [["add", 1], ["same", 20000, "again"], ["burst", 1, 1100000, 10, "free"], ["calls", 1, 150000, "all"], ["end"]],
           [["add", 2], ["add", 3], ["burst", 4, 70000, 10, "one"], ["burst", 2, 2000, 50000, "all"], ["remove", 2], ["end"]],
           [["add", 1], ["add", 2], ["removing", 1, 3, 150000, 0], ["end"]]]
    traces = mbt.replay(exe, big, work, tag="big")
    mbt.decide(c, "VolumeTrace", big, traces, work, "volume", tag="big")
