"""Obligations, findings and evidence."""
import json, os, sys, time, tempfile, shutil, subprocess, hashlib
from .lin import *
from .values import *
from .mir import *
from .interp import *
from . import prims, values, cmp as cmpm, prove

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CRATE = "concordance::"

class Missing(Exception): pass
# the fields of the structures the specifications name, in order (a renamed field is recognised by its place)
FIELDS = {
    "symbol_range::SymbolRange": ["lowest", "highest"],
    "overlapping_symbols::SymbolMap": ["ranges"],
    "ndfa::Ndfa": ["max_state", "transitions", "joined_with", "output_symbols"],
    "symbol_range_dfa::SymbolRangeDfa": ["states", "transitions", "accept"],
    "symbol_range_dfa::SymbolRangeState": ["state", "count", "accept", "state_machine"],
    "tokenizer::Tokenizer": ["dfa", "tape"],
    "tape::Tape": ["read_from", "buffer", "read_index", "last_symbol_index", "first_symbol_index", "end_of_reader", "source_position"],
}

class Ctx:
    def __init__(s, pid, P, tier):
        s.pid = pid; s.P = P; s.tier = tier
        s.obl = []          # (name, status, where, detail)
        s.violations = []; s.inconclusive = []; s.funcs = set(); s.sites = set(); s.paths = 0; s.samples = []
        s.notes = []; s.eng_stats = {"blocks": 0, "loops": 0, "lp": 0}
    # ---- locating code
    def adt(s, name):
        k = CRATE + name
        if k not in s.P.adts: raise Missing("type %s not found" % k)
        return k
    def field(s, adt, name, variant=0):
        try: return s.P.field_index(adt, name, variant)
        except KeyError:
            # a private field that was renamed keeps its place
            base = FIELDS.get(adt[len(CRATE):])
            n = len(s.P.adts[adt]["variants"][variant][2])
            if base and name in base and len(base) == n: return base.index(name)
            raise Missing("field %s of %s not found" % (name, adt))
    def variant(s, adt, name):
        try: return s.P.variant_index(adt, name)
        except KeyError: raise Missing("variant %s of %s not found" % (name, adt))
    def inherent(s, adt, name):
        """inherent method of a type"""
        r = []
        for im in s.P.impls:
            if im.get("trait"): continue
            t = im["self"]
            if t[0] == "adt" and t[1] == adt and name in im["itemmap"]: r.append(im["itemmap"][name])
        if len(r) != 1: raise Missing("method %s of %s: %d found" % (name, adt, len(r)))
        return r[0]
    def timpl(s, trait, pred, method):
        """body of a trait method in the impl whose self type satisfies pred (or the provided one)"""
        r = []
        for im in s.P.by_trait.get(trait, []):
            if pred(im["self"]):
                k = im["itemmap"].get(method)
                if k is None: k = trait + "::" + method
                r.append((k, im))
        if len(r) != 1: raise Missing("impl of %s::%s: %d found" % (trait, method, len(r)))
        return r[0]
    def fn(s, path):
        r = [k for k in s.P.crate_bodies if k == CRATE + path]
        if len(r) != 1: raise Missing("function %s: %d found" % (path, len(r)))
        return r[0]
    def body(s, key): return s.P.bodies[key]
    def params(s, key):
        b = s.P.bodies[key]
        return tuple(("lt",) if g.startswith("'") else ("param", i, g) for i, g in enumerate(b.generics))
    def where(s, key): 
        b = s.P.bodies.get(key)
        return "%s (%s)" % (b.span, b.path) if b else key
    # ---- running
    def engine(s):
        e = Engine(s.P); e.S = s; e.limit = 100 if s.tier == "quick" else 1500
        return e
    def argty(s, e, key, i, targs=None):
        b = s.P.bodies[key]
        return e.norm(subst_ty(b.locals[i + 1], targs if targs is not None else s.params(key)))
    def sym_args(s, e, key, targs=None):
        b = s.P.bodies[key]
        return [e.mk(e.sym("arg%d" % i), s.argty(e, key, i, targs)) for i in range(b.argc)]
    def run(s, e, key, targs, args, st=None):
        try: outs = e.run_body(key, targs, args, st or State())
        except (BudgetExceeded, RecursionError) as x:
            e.taint("budget", (key, s.P.bodies[key].span)); outs = []
        except Fork:
            e.taint("undecided", (key, s.P.bodies[key].span)); outs = []
        except Taint as t:
            e.taint(str(t), (key, s.P.bodies[key].span)); outs = []
        s.collect(e)
        s.paths += len(outs)
        return outs
    def collect(s, e):
        s.funcs |= {k for k in e.seen_bodies if k.startswith(CRATE)}
        s.sites |= {(k, sp, n) for k, sp, n in e.stats["callsites"] if k.startswith(CRATE)}
        s.eng_stats["blocks"] += e.stats["blocks"]; s.eng_stats["loops"] += e.stats["loops"]
        e.stats["blocks"] = 0; e.stats["loops"] = 0
    # ---- reporting
    def ok(s, name, where, detail=""):
        s.obl.append((name, "discharged", where, detail))
        if len(s.samples) < 12: s.samples.append({"obligation": name, "where": where, "detail": detail[:300]})
    def violation(s, name, where, detail):
        s.obl.append((name, "violated", where, detail)); s.violations.append((name, where, detail))
    def unknown(s, name, where, detail):
        s.obl.append((name, "undecided", where, detail)); s.inconclusive.append((name, where, detail))
    def judge(s, e, name, key, outs, f, facts_ok=False):
        """f(out) -> None (fine) or a message; an analysis that lost precision never raises an alarm"""
        where = s.where(key)
        if e.obls and not e.taints:
            # obligations recorded at call sites by the environment hooks
            m, sp = e.obls[0]
            s.violation(name, where, "%s [at %s]" % (m, sp[1] if isinstance(sp, tuple) else sp)); return False
        bad = []; n = 0; work = list(reversed(outs)); budget = 400 + 20 * len(outs)
        while work:
            o = work.pop()
            try: r = f(o)
            except Taint as t: e.taint(str(t), (key, None), True); continue
            except Stop: e.taint("undecided", (key, None), True); continue
            except Fork as fk:
                budget -= 1
                if budget < 0: e.taint("undecided", (key, None)); break
                for cond in fk.conds:
                    for con in o.st.con.assume(cond):
                        x = o.st.copy(); x.con = con; work.append(Out(o.kind, x, o.val, o.span, o.msg))
                continue
            except Panic as p: r = "index error: %s" % p
            except (AttributeError, KeyError, IndexError, TypeError, AssertionError) as x:
                if os.environ.get("VP_DEBUG"): raise
                e.taint("value of an unexpected shape (%s: %s)" % (type(x).__name__, x), (key, None), True); continue
            n += 1
            if r: bad.append((r, o))
        if e.taints:
            t = e.taints[0]
            if any(not x[2] for x in e.taints): bad = []
            # paths that were given up leave the others as they are
            if not [b for b in bad if not imprecise(b[1])]:
                s.unknown(name, where, "not followed: %s at %s" % (t[0], t[1])); return None
            facts_ok = False
        if bad and not facts_ok:
            loose = [b for b in bad if imprecise(b[1])]
            if len(loose) == len(bad):
                s.unknown(name, where, "not decided (a loop is only known by its recurrence): %s" % bad[0][0]); return None
            bad = [b for b in bad if not imprecise(b[1])]
        if bad:
            m, o = bad[0]
            sp = o.span[1] if isinstance(o.span, tuple) else o.span
            s.violation(name, where, "%s [path ends at %s; path condition: %s]" % (m, sp, ", ".join(show(c) for c in list(o.st.con.conds())[:12])))
            return False
        if not n and not outs: s.unknown(name, where, "no path reaches an end"); return None
        s.ok(name, where, "%d paths" % n); return True

def imprecise(o):
    """the path goes through a loop whose iterations differ in ways the summary does not keep exactly"""
    return any(len(q.cases) > 1 or any(b for _, b in q.cases) for q in o.st.facts)
def panics(o): return o.kind == 'panic'
def deref(e, o, r): return e.read(o.st, r.cell, r.path)
def nth(e, seq, i):
    """element i of a sequence that is one slice of an unknown array"""
    g, = seq.segs
    return e.mk(values.elem_atom(g[1], L(g[2]) + i), seq.ety)
def same(e, st, a, b): return cmpm.same(e, st, a, b)
def explain(e, st, a, b):
    c = cmpm.Cmp(e, st.con, st.facts)
    return None if c.vals(a, b) else (c.why or "%r is not %r" % (a, b))
def entails(st, c): return c is True or (c is not False and st.con.entails(c))
def beyond(st, limit=3):
    """the path is only possible for sizes or numbers that the small instances do not have"""
    return not st.assume(*[le(L(a), L(limit)) for a in prove.all_atoms(st.con) if a.nonneg or a.k[0] == 'v' and a.k[2] in ("counter", "loop")])
def report_round(S, name, where, fails):
    """failures of a loop invariant: a violation when only a size tells the failing path from the ones followed in full on small instances, otherwise the invariant may simply not fit the code"""
    far = [x for x in fails if x[0].startswith("!") or beyond(x[1])]      # "!": whatever the sizes are
    r, st = (far or fails)[0]; r = r.lstrip("!"); pc = "[path condition: %s]" % ", ".join(show(c) for c in list(st.con.conds())[:12])
    if far: S.violation(name, where, "%s %s" % (r, pc))
    else: S.unknown(name, where, "the invariant is not shown: %s %s" % (r, pc))
def splits(st, *cs):
    """refinements of st by the conditions"""
    return st.assume(*cs)

# ------------------------------------------------------------------ building the facts base
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def sysroot(): return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.decode().strip()
def driver():
    d = os.path.join(ROOT, "driver", "target", "release", "mirdump")
    src = os.path.join(ROOT, "driver", "src", "main.rs")
    if not os.path.exists(d) or os.path.getmtime(d) < os.path.getmtime(src):
        r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "driver"))
        if r.returncode: raise RuntimeError("driver build failed:\n" + r.stdout.decode()[-3000:])
    return d
def dump(crate_dir, crate, out, scratch):
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_OUT=out, MIRDUMP_CRATE=crate, RUSTC_WORKSPACE_WRAPPER=driver(),
               CARGO_TARGET_DIR=os.path.join(scratch, "t-" + crate), RUSTFLAGS="-Awarnings")
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=crate_dir, env=env)
    if r.returncode or not os.path.exists(out): raise RuntimeError("cannot analyse %s:\n%s" % (crate_dir, r.stdout.decode()[-3000:]))
def load(scratch):
    mj = os.path.join(scratch, "mir.json"); md = os.path.join(ROOT, "models", "target", "models.json")
    dump(REPO, "concordance", mj, scratch)
    ms = os.path.join(ROOT, "models", "src", "lib.rs")
    if not os.path.exists(md) or os.path.getmtime(md) < os.path.getmtime(ms):
        md = os.path.join(scratch, "models.json")
        dump(os.path.join(ROOT, "models"), "models", md, scratch)
    return Program(mj, md)

def known(pid):
    """known findings: lines 'known: property=<id> key=<function>|<obligation> text'"""
    r = {}
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                r[key] = text
    return r

# ------------------------------------------------------------------ standard environment assumptions (hooks)
def countable_hook(lo=None, hi=None):
    """Countable on the symbol type is successor / predecessor in the integer embedding (C01 is about the instances)"""
    def h(eng, st, C):
        if C.trait != CRATE + "countable::Countable" or C.targs[0][0] not in ("param", "proj"): return None
        v = prims.rdall(eng, st, C.args[0])
        if not isinstance(v, VInt): raise Taint("symbol %r" % (v,))
        if C.method in ("next", "prev"): return [eng.out(st, VInt(v.l + (1 if C.method == "next" else -1), v.ty))]
        return None
    return h
READER = CRATE + "symbol_reader::SymbolReader"
STREAM = atom('sym', 'stream')
def stream_at(eng, l, ty): return eng.mk(values.elem_atom(STREAM, L(l)), opt(ty))
def reader_hook(symty):
    """an opaque reader is a position in an arbitrary stream of results: reading gives the result there and moves on by one"""
    def h(eng, st, C):
        if C.trait != READER or C.method != "next_symbol": return None
        r, t = prims.peel_iter(eng, st, C.args[0], C.targs[0])
        if t[0] not in ("param", "dyn", "proj"): return None
        v = prims.rd(eng, st, r)
        if isinstance(v, VSym) and not eng.ty_is_enum(v.ty): v = VInt(L(v.t), t)
        if not isinstance(v, VInt): raise Taint("reader %r" % (v,))
        prims.wr(eng, st, r, VInt(v.l + 1, v.ty))
        return [eng.out(st, stream_at(eng, v.l, symty))]
    return h
def bool_is(st, v, want):
    """message unless the boolean v is entailed to be want"""
    if not isinstance(v, VBool): return "result %r" % (v,)
    for c in st.con.assume(want):
        if v.c is False or (v.c is not True and not c.entails(v.c)): return "answers no although it should answer yes (%s)" % show(want)
    for c in st.con.assume(neg(want)):
        if v.c is True or (v.c is not False and not c.entails(neg(v.c))): return "answers yes although it should answer no (%s)" % show(neg(want))
