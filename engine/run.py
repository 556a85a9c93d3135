import importlib, json, os, shutil, signal, sys, tempfile, time
sys.setrecursionlimit(20000)
from .spec import *
from . import lin, scale

class Late(BaseException): pass
def late(*a): raise Late()

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        spec = importlib.import_module("specs." + pid.lower())
        try:
            if os.environ.get("VP_MIR"): P = Program(os.environ["VP_MIR"], os.environ["VP_MODELS"])
            else: P = load(scratch)
        except RuntimeError as x:
            print(x); sys.exit(2)
        S = Ctx(pid, P, tier)
        signal.signal(signal.SIGALRM, late); signal.alarm(720 if tier == "quick" else 10800)
        late_ = False
        try: spec.check(S)
        except Late: late_ = True; S.unknown("analysis", "-", "the analysis takes too long")
        except Missing as m: S.unknown("anchor", "-", "the code this property is anchored in is not where it was, so the property is not decided here: %s" % m)
        except Exception as x:
            if os.environ.get("VP_DEBUG"): raise
            S.unknown("analysis", "-", "the analysis could not be completed: %s: %s" % (type(x).__name__, x))
        if not late_: limits(S, spec, t0)
    finally:
        signal.alarm(0); shutil.rmtree(scratch, ignore_errors=True)
    S.eng_stats["lp"] = lin.STATS["lp"]
    report(S, spec, tier, time.time() - t0)

def limits(S, spec, t0):
    """the program with the size limits in its source made small"""
    kn = known(S.pid); new = lambda X: [v for v in X.violations if "%s|%s" % (v[1].split(" (")[-1].rstrip(")"), v[0]) not in kn]
    if new(S): return
    for k in (3, 2):
        if time.time() - t0 > (330 if S.tier == "quick" else 7000): return
        try: r = scale.scaled(S.P.raw[0], k)
        except Exception: return
        if not r: return
        C = Ctx(S.pid, Program(r[0], S.P.raw[1]), S.tier)
        try: spec.check(C)
        except Late: return
        except Exception as x:
            if os.environ.get("VP_DEBUG"): raise
        fresh = new(C)
        for n, w, d in fresh: S.violation(n, w, "with the size limit %s: %s" % (r[1], d))
        if fresh: return

def report(S, spec, tier, wall):
    kn = known(S.pid)
    vs = []; ks = []
    for n, w, d in S.violations:
        key = "%s|%s" % (w.split(" (")[-1].rstrip(")"), n)
        (ks if key in kn else vs).append((n, w, d, key))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    disch = sum(1 for o in S.obl if o[1] == "discharged")
    ev = {"property": S.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": spec.LEVEL, "wall_s": round(wall, 2),
          "coverage": {"explanation": spec.RULE, "obligations": len(S.obl), "discharged": disch, "violated": len(S.violations), "undecided": len(S.inconclusive),
                       "functions_analysed": len(S.funcs), "call_sites": len(S.sites), "paths": S.paths, "blocks": S.eng_stats["blocks"], "loops_summarised": S.eng_stats["loops"],
                       "constraint_queries": S.eng_stats["lp"], "checker_cmd": "python3 -m engine.run %s" % S.pid,
                       "trusted_base": ["rustc's MIR for /repo's current source (driver/)", "engine/ (abstract interpreter, loop summaries, linear constraint domain)", "models/ (models of the standard library functions used)", "the integer embedding of ordered type parameters; no arithmetic overflow"],
                       "functions": sorted(S.P.bodies[k].path for k in S.funcs)[:60],
                       "obligation_list": [{"name": o[0], "status": o[1], "where": o[2], "detail": o[3][:400]} for o in S.obl][:200]}}
    json.dump(ev, open(os.path.join(ROOT, "evidence", S.pid + ".json"), "w"), indent=1)
    for n, w, d, key in ks: print("KNOWN-FINDING: property=%s %s: %s" % (S.pid, key, kn[key]))
    for n, w, d in S.inconclusive: print("undecided: %s: %s at %s: %s" % (S.pid, n, w, d))
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d paths, %.1fs" % (S.pid, tier, len(S.obl), disch, len(S.inconclusive), len(S.violations), len(S.funcs), S.paths, wall))
    if vs:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "replay", S.pid + ".txt")
        with open(rp, "w") as f:
            for n, w, d, key in vs: f.write("property %s\nobligation: %s\nconstruct: %s\nwhy: %s\nkey: %s\nre-run: cd %s && python3 -m engine.run %s\n\n" % (S.pid, n, w, d, key, ROOT, S.pid))
        for n, w, d, key in vs: print("  %s: %s at %s: %s" % (S.pid, n, w, d))
        print("VIOLATION property=%s replay=%s" % (S.pid, rp))
        sys.exit(1)
    sys.exit(0)
if __name__ == "__main__": main()
