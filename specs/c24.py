"""C24: matching a pattern as a whole finds the longest prefix in its language: the chain of contracts from the pattern to the answer."""
import os, pickle, signal
from engine.spec import *
from specs import c01, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c22, c25
LEVEL = "proof"
TECHNIQUE = "assume-guarantee composition of contracts, each decided by abstract interpretation of MIR (static analysis)"
RULE = ("The answer of matches is composed of steps, each with a contract the next one rests on: the value becomes a pattern and is compiled at state 0 of an empty machine with one accepting state, then freed of overlaps (C22, C08); the calls made on the machine "
        "are recorded (C05) and spell exactly the language of the pattern (C08); pieces replace ranges without changing what any state reads, and leave any two labels equal or disjoint (C01, C03, C04, C07); states are reported with everything they reach through joins (C06); "
        "for such labels the deterministic machine is the subset construction and accepts where some member does (C09, C10), is finished after finitely many steps (C25), keeps its transitions in the table (C11), is run symbol by symbol remembering the last accepting "
        "position (C12), and is fed the input once, in order, until it stops (C13). By induction over the input the state after k symbols stands for the set of states reachable by them, so the remembered position is the longest prefix in the language. "
        "Every one of these contracts is decided here from the current source; one that fails in a way that changes what is matched is reported with the construct that breaks it.")
NOTE = "All patterns, symbol types and inputs (a range pattern with its ends the wrong way round panics, C02). The run of the table is decided under what the earlier contracts give it: a state's ranges are disjoint and in order. A broken contract that cannot change the result of a match (a duplicate in a map, a gap in the state numbers, which of several outputs wins) is reported as undecided here and by the check of its own property."

def outputs(S):
    D = c10.Dfac(S); c10.output_symbol(S, D); c10.anysize(S, D, False); c10.small(S, D)

no = lambda *w: lambda name, why: not any(x in why or x in name for x in w)
# (step, its check, does a failure change what is matched?)
PARTS = [
    ("C09", c09.check, lambda name, why: True),
    ("C04", c04.check, lambda name, why: True),
    ("C10", outputs, lambda name, why: any(x in why for x in ("accepts although no member", " times", "does not accept", "without an output accepts", "reports no output", "reports an output although"))),
    ("C07", c07.check, lambda name, why: True),
    ("C06", c06.check, no("belongs to no reachable state or is reported twice")),
    ("C25", c25.check, lambda name, why: True),
    ("C11", c11.check, lambda name, why: True),
    ("C03", c03.check, no("comes before", "twice", "reported in place of")),
    ("C05", c05.check, no("more than one more")),
    ("C08", c08.check, lambda name, why: True),
    ("C01", c01.check, lambda name, why: True),
    ("C12", lambda S: c12.check(S, ordered=True), no("clone")),
    ("C13", c13.check, no("is_accepted")),
    ("C22", c22.check, lambda name, why: name.startswith("preparing")),
]

def check(S):
    todo = list(PARTS); run = {}; res = {}
    jobs = max(2, min(6, os.cpu_count() or 2))
    try:
        while todo or run:
            while todo and len(run) < jobs:
                p = todo.pop(0); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try: part(S, p, r, w)
                    finally: os._exit(0)
                os.close(w); run[r] = (pid, p[0])
            import select
            for r in select.select(list(run), [], [])[0]:
                pid, name = run.pop(r); data = b""
                while True:
                    x = os.read(r, 1 << 20)
                    if not x: break
                    data += x
                os.close(r); os.waitpid(pid, 0); res[name] = pickle.loads(data) if data else None
    finally:
        for r, (pid, name) in run.items():
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
    for name, f, decisive in PARTS:
        d = res.get(name)
        if d is None: S.unknown("%s: analysis" % name, "-", "the analysis of this step did not come to an end"); continue
        S.funcs |= d["funcs"]; S.sites |= d["sites"]; S.paths += d["paths"]; S.samples += d["samples"]
        for k in S.eng_stats: S.eng_stats[k] += d["stats"].get(k, 0)
        for n, status, where, detail in d["obl"]:
            if status == "discharged": S.ok("%s: %s" % (name, n), where, detail)
        for n, where, why in d["violations"]:
            if decisive(n, why): S.violation("%s: %s" % (name, n), where, why)
            else: S.unknown("%s: %s" % (name, n), where, "the contract fails, but what is matched need not change: %s" % why)
        for n, where, why in d["inconclusive"]: S.unknown("%s: %s" % (name, n), where, why)

def only(names):
    global PARTS
    PARTS = [p for p in PARTS if p[0] in names]
if os.environ.get("VP_ONLY"): only(os.environ["VP_ONLY"].split(","))

def part(S, p, r, w):
    """decide the contract of one step in a process of its own"""
    name, f, decisive = p; os.close(r)
    signal.alarm(0); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(700 if S.tier == "quick" else 10000)
    C = Ctx(S.pid, S.P, S.tier)
    try: f(C)
    except Missing as m: C.unknown("anchor", "-", "the code this step is anchored in is not where it was: %s" % m)
    except Exception as x: C.unknown("analysis", "-", "the analysis could not be completed: %s: %s" % (type(x).__name__, x))
    with os.fdopen(w, "wb") as o:
        pickle.dump({"obl": C.obl, "violations": C.violations, "inconclusive": C.inconclusive, "funcs": set(C.funcs), "sites": set(map(str, C.sites)), "paths": C.paths, "samples": [], "stats": C.eng_stats}, o)
