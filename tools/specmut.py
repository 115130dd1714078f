#!/usr/bin/env python3
"""Are the properties stated on the specification vacuous?  Each entry below is a mutation of spec/G3Log.tla, a design
that breaks a property, with the invariants of spec/G3LogMC.tla one of which it has to violate in a (quick) configuration.
  specmut.py [name...]      prints a line per mutation, exits 1 if one is not noticed
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = ":".join(os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla")) if f.endswith(".jar"))
DEAD = "Deadlock"

# name: (configuration, text, replacement, expected)
MUT = {
 "lose-at-push": ("MemberQ", "W' = IF FatalSeen(w) THEN W ELSE [W EXCEPT ![w].q = Append(@, Task(\"msg\", Top(t).a",
                  "W' = IF FatalSeen(w) \\/ Len(W[w].q) > 1 THEN W ELSE [W EXCEPT ![w].q = Append(@, Task(\"msg\", Top(t).a", {"Delivered", "NothingBad"}),
 "deliver-twice": ("MemberQ", "S' = [S EXCEPT ![s].q = Append(@, Msg(W[w].cur.task.m, b))]",
                   "S' = [S EXCEPT ![s].q = @ \\o <<Msg(W[w].cur.task.m, b), Msg(W[w].cur.task.m, b)>>]", {"NothingBad"}),
 "skip-a-sink": ("Member", "W' = [W EXCEPT ![w].cur = IF last /\\", "W' = [W EXCEPT ![w].cur = IF (last \\/ s = 2) /\\", {"Delivered"}),
 "push-at-the-front": ("MemberQ", "[W EXCEPT ![w].q = Append(@, Task(\"msg\", Top(t).a, 0, 0, 0, BitsPlain))]",
                       "[W EXCEPT ![w].q = <<Task(\"msg\", Top(t).a, 0, 0, 0, BitsPlain)>> \\o @]", {"OneOrder", "NothingBad"}),
 "sink-dies-early": ("MemberQ", "/\\ S[s].st = \"closing\" /\\ S[s].cur = NoItem /\\ S[s].q = <<>>", "/\\ S[s].st = \"closing\" /\\ S[s].cur = NoItem", {"NothingBad", "OneAtATime", "Delivered"}),
 "sink-dies-busy": ("MemberQ", "/\\ S[s].st = \"closing\" /\\ S[s].cur = NoItem /\\ S[s].q = <<>>", "/\\ S[s].st = \"closing\" /\\ S[s].q = <<>>", {"OneAtATime", "NothingBad"}),
 "remove-does-not-wait": ("MemberQ", "/\\ W[w].cur.k = \"rel\" /\\ W[w].cur.rem = {}\n  /\\ \\A s \\in W[w].cur.ws : S[s].st = \"dead\"",
                          "/\\ W[w].cur.k = \"rel\" /\\ W[w].cur.rem = {}", {"NothingBad"}),
 "clear-forgets": ("MemberQ", "![w].cur = [k |-> \"rel\", rem |-> W[w].att, ws |-> {}, task |-> Head(W[w].q)]]\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, th, fut>>",
                   "![w].cur = [k |-> \"rel\", rem |-> {}, ws |-> {}, task |-> Head(W[w].q)]]\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, th, fut>>", {"NothingBad"}),
 "remove-by-other": ("Member", "![w].att = @ \\ {s},\n                          ![w].cur = [k |-> \"rel\"", "![w].att = {},\n                          ![w].cur = [k |-> \"rel\"", {"Delivered", "NothingBad"}),
 "message-not-early": ("MemberQ", "SetPhase(t, \"w\")\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, fut>>\n\nRmRet", "SetPhase(t, \"d\")\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, fut>>\n\nRmRet", {"NothingBad", DEAD}),
 "add-does-not-wait": ("Member", "SetPhase(t, \"w\")\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, fut>>\n\nAddRelease", "SetPhase(t, \"d\")\n  /\\ Quiet\n  /\\ UNCHANGED <<G, S, fut>>\n\nAddRelease", {"Delivered", "NothingBad", DEAD, "Eval"}),
 "call-overtakes": ("HandleQ", "S' = [S EXCEPT ![Top(t).b].q = Append(@, Call(Top(t).a))]", "S' = [S EXCEPT ![Top(t).b].q = <<Call(Top(t).a)>> \\o @]", {"CallsInOrder"}),
 "call-lost": ("HandleQ", "/\\ IsTop(t, \"hc\", \"l\")\n  /\\ S' = [S EXCEPT ![Top(t).b].q = Append(@, Call(Top(t).a))]",
               "/\\ IsTop(t, \"hc\", \"l\")\n  /\\ S' = [S EXCEPT ![Top(t).b].q = IF Len(@) > 1 THEN @ ELSE Append(@, Call(Top(t).a))]", {DEAD, "CallsDone"}),
 "call-expires-late": ("Handle", "IF S[s].st = \"live\"\n     THEN /\\ S' = [S EXCEPT ![s].pin = @ + 1]", "IF S[s].st = \"live\" /\\ Attached(s) /\\ W[0].q = <<>>\n     THEN /\\ S' = [S EXCEPT ![s].pin = @ + 1]", {"CallsDone"}),
 "expired-value": ("HandleQ", "THEN /\\ S' = [S EXCEPT ![s].pin = @ + 1]\n          /\\ SetPhase(t, \"l\")", "THEN /\\ S' = S\n          /\\ SetPhase(t, \"l\")", {DEAD, "CallsDone", "NothingBad", "OneAtATime"}),
 "shut-drops-queue": ("ShutQ", "/\\ IsTop(t, \"shut\", \"c\") /\\ G' = [G EXCEPT !.active = NoW] /\\ SetPhase(t, \"p\") /\\ Quiet /\\ UNCHANGED <<W, S, fut>>",
                      "/\\ IsTop(t, \"shut\", \"c\") /\\ G' = [G EXCEPT !.active = NoW] /\\ SetPhase(t, \"p\") /\\ Quiet /\\ W' = [W EXCEPT ![0].q = SelectSeq(@, LAMBDA x : x.k # \"msg\")] /\\ UNCHANGED <<S, fut>>", {"Delivered", "NothingBad"}),
 "early-behind": ("LifeQ", "/\\ W' = IF ~G.firstInit /\\ G.early = \"held\"\n                  THEN [W EXCEPT ![w].q = Append(@, Task(\"msg\", G.earlyM, 0, 0, 0, BitsEarly))] ELSE W",
                  "/\\ W' = IF ~G.firstInit /\\ G.early = \"held\"\n                  THEN [W EXCEPT ![w].q = @ \\o <<Task(\"msg\", G.earlyM, 0, 0, 0, BitsPlain)>>] ELSE W", {"EarlyRules", "NothingBad"}),
 "early-lost": ("LifeQ", "!.early = IF ~G.firstInit /\\ @ = \"held\" THEN \"gone\" ELSE @]\n          /\\ W' = IF ~G.firstInit /\\ G.early = \"held\"", "!.early = IF ~G.firstInit /\\ @ = \"held\" THEN \"gone\" ELSE @]\n          /\\ W' = IF ~G.firstInit /\\ G.early = \"lost\"", {"EarlyRules"}),
 "early-last": ("LifeQ", "/\\ IsTop(t, \"log\", \"u\")\n  /\\ G.early \\in {\"held\", \"gone\"}\n  /\\ SetPhase(t, \"p\")\n  /\\ Quiet\n  /\\ UNCHANGED <<G, W, S, fut>>",
                "/\\ IsTop(t, \"log\", \"u\")\n  /\\ G.early \\in {\"held\", \"gone\"}\n  /\\ SetPhase(t, \"p\")\n  /\\ Quiet\n  /\\ G' = [G EXCEPT !.earlyM = Top(t).a] /\\ UNCHANGED <<W, S, fut>>", {"EarlyRules"}),
 "fatal-unflushed": ("FatalQ", "/\\ W[w].cur.k = \"fclear\" /\\ W[w].cur.rem = {} /\\ \\A s \\in W[w].cur.ws : S[s].st = \"dead\"", "/\\ W[w].cur.k = \"fclear\"", {"Flushed"}),
 "fatal-overtakes": ("FatalQ", "W' = [W EXCEPT ![G.active].q = Append(@, Task(\"fatal\", Top(t).a, 0, t, Top(t).b, IF Top(t).rec THEN 1 ELSE 0))]",
                     "W' = [W EXCEPT ![G.active].q = <<Task(\"fatal\", Top(t).a, 0, t, Top(t).b, IF Top(t).rec THEN 1 ELSE 0)>> \\o @]", {"Flushed"}),
 "fatal-not-shown": ("FatalQ", "/\\ W[w].cur.k = \"fsend\" /\\ W[w].cur.rem = {}\n  /\\ W' = [W EXCEPT ![w].cur.k = \"fclear\"", "/\\ W[w].cur.k \\in {\"fshow\", \"fsend\"} /\\ (W[w].cur.rem = {} \\/ W[w].cur.k = \"fshow\")\n  /\\ W' = [W EXCEPT ![w].cur.k = \"fclear\"", {"FatalShown", "Flushed"}),
 "fatal-not-forwarded": ("FatalQ", "![w].cur = [k |-> \"fshow\", rem |-> W[w].att,", "![w].cur = [k |-> \"fshow\", rem |-> {},", {"Flushed"}),
 "fatal-stays-up": ("FatalQ", "/\\ Head(W[w].q).k = \"fatal\"\n  /\\ G' = [G EXCEPT !.active = NoW]\n  /\\ W' = [W EXCEPT ![w].q = Tail(@), ![w].cur = [k |-> \"fshow\"", "/\\ Head(W[w].q).k = \"fatal\"\n  /\\ G' = G\n  /\\ W' = [W EXCEPT ![w].q = Tail(@), ![w].cur = IF G.nfatal > 1 THEN Idle ELSE [k |-> \"fshow\"", {DEAD, "AlwaysDies"}),
 "fatal-returns": ("FatalQ", "/\\ SetPhase(t, IF G.handed THEN \"blocked\" ELSE \"alone\")", "/\\ SetPhase(t, \"done\")", {"NothingBad"}),
 "second-fatal-kills": ("FatalQ", "/\\ SetPhase(t, IF G.handed THEN \"blocked\" ELSE \"alone\")", "/\\ SetPhase(t, \"alone\")", {"Flushed"}),
 "signals-wait": ("FatalQ", "/\\ Top(t).c = 1 => G.sigTaken \\subseteq {t}\n", "/\\ Top(t).c = 0 /\\ G.sigTaken = {}\n", {DEAD}),
 "hook-twice": ("HandlerQ", "/\\ G' = [G EXCEPT !.hook = 0, !.sigTaken = IF", "/\\ G' = [G EXCEPT !.sigTaken = IF", {"NothingBad"}),
 "no-hook": ("HandlerQ", "/\\ SetPhase(t, IF Top(t).h = 0 THEN \"hd\" ELSE \"hp\")", "/\\ SetPhase(t, \"hd\")", {"NothingBad", "HookRuns"}),
 "no-handler": ("HandlerQ", "IF G.handler.kind = \"default\" THEN \"push\" ELSE \"hand\"", "IF G.handler.kind \\in {\"default\", \"throw\"} THEN \"push\" ELSE \"hand\"", {"HandlerDecides"}),
 "recurs-always": ("FatalQ", "![t][Len(th[t])].rec = (G.nfatal > 1)", "![t][Len(th[t])].rec = (G.nfatal > 0)", {"Recurs"}),
 "stuck-worker": ("Stuck", "LET b == IF W[w].cur.k = \"msg\"", "S[s].cur = NoItem /\\ LET b == IF W[w].cur.k = \"msg\"", {"Delivered", DEAD}),
 "bounded-queue": ("Stuck", "     /\\ W[w].st = \"up\"\n     /\\ W' = IF FatalSeen(w)", "     /\\ W[w].st = \"up\" /\\ \\A s \\in W[w].att : Len(S[s].q) + Len(W[w].q) < 1\n     /\\ W' = IF FatalSeen(w)", {DEAD}),
}

def one(name):
    conf, a, b, want = MUT[name]
    d = tempfile.mkdtemp(prefix="g3v-specmut-")
    try:
        for f in ("G3Log.tla", "G3LogMC.tla", "G3LogMC%s.cfg" % conf):
            shutil.copy(os.path.join(SPEC, f), d)
        p = os.path.join(d, "G3Log.tla")
        t = open(p).read()
        if t.count(a) != 1:
            return name, False, "the text to replace occurs %d times" % t.count(a)
        open(p, "w").write(t.replace(a, b))
        r = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx4g", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", "2", "-metadir", d + "/m", "-noGenerateSpecTE",
                            "-config", "G3LogMC%s.cfg" % conf, "G3LogMC.tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        out = r.stdout.decode("utf8", "replace")
        m = re.search(r"Invariant (\w+) is violated", out)
        got = m.group(1) if m else DEAD if "Deadlock reached" in out else "Eval" if r.returncode not in (0,) else "none"
        return name, got in want, "%s: violates %s" % (conf, got)
    except subprocess.TimeoutExpired:
        return name, False, "time ran out"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    names = sys.argv[1:] or list(MUT)
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for name, ok, what in ex.map(one, names):
            print("%-22s %s  %s" % (name, "ok    " if ok else "MISSED", what), flush=True)
            bad += not ok
    sys.exit(1 if bad else 0)
