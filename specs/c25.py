"""C25: compiling a pattern terminates, with a bounded number of states."""
from engine.spec import *
from engine.induct import Induct, leaf
from engine.mir import *
from specs.dfac import *
from specs import c04, c06, c08
from specs.ranges import Ranges
import itertools
from engine import lin
LEVEL = "proof"
TECHNIQUE = "ranking functions: lexicographic measures of worklists, synthesized linear ranks and bounded iteration over abstract interpretation of MIR and the call graph (static analysis)"
RULE = ("Every loop and every recursion of the functions reachable from preparing a pattern or token matcher is given a measure that decreases. Loops over a finite iterator (every cycle passes `next` on an iterator that is not assigned inside the loop and whose type is finite) and loops with a linear rank, synthesized from what one arbitrary round knows, "
        "end by themselves. The worklist of the DFA compiler: in an arbitrary round one pending set is taken and is known afterwards, and a set becomes pending only if it is unknown or the round makes a new set known, so (unknown sets, known pending ones) decreases lexicographically and the number of states built is bounded by the number of sets; sets are finitely many because "
        "merge_states gives every set in ascending order without duplicates and equal lists count as the same set. The closure over joins follows a state only when it was not visited. In to_non_overlapping_map the ranges left cover fewer symbols after every round. Pattern::compile calls itself only on strict parts of the pattern. "
        "Small machines, join graphs and maps are also followed in full and must come to an end within a number of rounds far above what their size allows.")
NOTE = "User supplied iterators and builders are finite, Clone and comparison of symbols terminate; loops inside the standard library end when the iterators and closures they are given do."
ROUNDS = 150

# ------------------------------------------------------------------ loops and calls
FINITE = {"models::" + x for x in ("Iter", "IterMut", "IntoIter", "Map", "Filter", "FilterMap", "FlatMap", "Flatten", "Chain", "Cloned", "Enumerate", "Zip", "Rev", "Take", "Skip", "TakeWhile", "Peekable", "Inspect", "MapWhile", "OptIter", "RangeIncl")} | {RANGE}
def finite(t):
    while t[0] == "ref": t = t[1]
    if t[0] in ("param", "dyn", "proj"): return True        # the user's
    if t[0] == "adt" and t[1] == BOX: return all(finite(a) for a in t[2])
    if t[0] != "adt": return False
    if t[1] in ("models::Take", "models::Zip"): return any(finite(a) for a in t[2])
    inner = [a for a in t[2] if a[0] == "adt" and (a[1] in FINITE or a[1].startswith(("models::", "core::iter::", "core::ops::range::")))]
    if t[1] in FINITE: return all(finite(a) for a in inner)
    return t[1].startswith(("std::collections::hash::", "alloc::collections::", "alloc::string", "core::str::")) and "iter" in t[1].lower() or t[1] in ("std::collections::hash::map::Iter", "std::collections::hash::map::IntoIter", "std::collections::hash::map::Keys", "std::collections::hash::map::Values")

def callees(P, b):
    """(key, direct) of what a body may call inside the crate"""
    crate = set(P.crate_bodies); r = set()
    for st, t in b.blocks:
        if t[0] != "call" or "key" not in t[1]: continue
        f = t[1]
        for k in (f["key"], f.get("resolved")):
            if k in crate: r.add((k, True))
        if f.get("trait") and (f.get("resolved") in (None, f["key"]) or f["key"] in crate):
            t0 = T(f["args"][0]) if f["args"] else ("param", 0, "")
            for im in P.by_trait.get(f["trait"], []):
                k = im["itemmap"].get(f["method"])
                if isinstance(k, str) and k in crate: r.add((k, "dyn" if t0[0] == "dyn" else False))
    for k in crate:
        if k.startswith(b.key + "::{closure"): r.add((k, True))
    return r
def reachable(S):
    P = S.P; work = []
    for tr, m in (("prepare::PrepareToMatch", "prepare_to_match"), ("prepare::ToNdfa", "to_ndfa")):
        for im in P.by_trait.get(CRATE + tr, []):
            k = im["itemmap"].get(m)
            if isinstance(k, str): work.append(k)
    for x, n in (("dfa_compiler::DfaCompiler", "compile"), ("regular_pattern::Pattern", "compile"), ("ndfa::Ndfa", "fix_overlapping_ranges")):
        try: work.append(S.inherent(S.adt(x), n))
        except Missing: pass
    seen = {}; 
    while work:
        k = work.pop()
        if k in seen or k not in P.bodies or k not in P.crate_bodies: continue
        seen[k] = callees(P, P.bodies[k]); work += [x for x, _ in seen[k]]
    return seen

def root(b, p):
    """the local a reference leads to, through reborrows"""
    for _ in range(12):
        d = [s for st, _ in b.blocks for s in st if s[0] == "assign" and s[1] == [p, []]]
        if len(d) != 1: return p
        v = d[0][2]
        if v[0] == "ref" and all(x == ["deref"] for x in v[1][1]): p = v[1][0]
        elif v[0] == "use" and v[1][0] in ("move", "copy") and not v[1][1][1] and b.locals[v[1][1][0]][0] == "ref": p = v[1][1][0]
        else: return p
    return p
def bounded(b, nodes, head, subs):
    """every way round the loop takes one element of a finite iterator that is made outside it"""
    inner = set()
    for c in subs:
        if isinstance(c, tuple) and c[0] == "loop": inner |= c[2]
    made = {s[1][0] for n in nodes for s in b.blocks[n][0] if s[0] == "assign" and not s[1][1]} | {b.blocks[n][1][3][0] for n in nodes if b.blocks[n][1][0] == "call" and not b.blocks[n][1][3][1]}
    cut = set()
    for n in set(nodes) - inner:
        t = b.blocks[n][1]
        if t[0] == "call" and t[1].get("key") == ITER + "::next" and t[2] and t[2][0][0] in ("move", "copy") and not t[2][0][1][1]:
            r = root(b, t[2][0][1][0])
            if r not in made and finite(T(t[1]["args"][0])): cut.add(n)
    if head in cut: return True
    seen = set(); work = [head]
    while work:
        n = work.pop()
        for m in b.succs(n):
            if m not in nodes or m in cut: continue
            if m == head: return False
            if m not in seen: seen.add(m); work.append(m)
    return True
def loops_of(b):
    def go(cs):
        for c in cs:
            if isinstance(c, tuple) and c[0] == "loop": yield c; yield from go(c[3])
    return go(b.wto())

class Stuck(Exception): pass
class OneLoop(Induct):
    def __init__(s, eng, key, block, head, back): super().__init__(eng, key, head, back, None, True); s.want = block
    def hook(s, eng, fr, comp, entry):
        if comp[1] != s.want: return None
        return super().hook(eng, fr, comp, entry)
def ranked(S, key, block):
    """a linear form that every round keeps at zero or above and makes smaller, from what the rounds know"""
    e = S.engine(); e.hooks.append(countable_hook()); back = []
    ind = OneLoop(e, key, block, lambda eng, fr, entry: (entry.copy(), ()), lambda eng, b: back.append((b, dict(ind.locs))))
    st = State(); args = S.sym_args(e, key)
    S.run(e, key, S.params(key), args, st)
    if not ind.done: raise Taint("the loop is not reached")
    if e.taints: raise Taint("not followed: %s" % e.taints[0][0])
    if not back: return "no way round"
    def now(b, locs):
        m = {}
        for (c, p), a in locs.items():
            v = leaf(b.cells[c], p)
            if isinstance(v, VInt): m[a] = v.l
            elif isinstance(v, VSeq): m[atom('len', a, nonneg=True)] = e.seq_len(v)
        return m
    def unchanged(v, a): return v.l == L(a) if isinstance(v, VInt) else v.c == ('b', a, True) if isinstance(v, VBool) else isinstance(v, VSeq) and v.segs == (('sl', a, ZERO, L(atom('len', a, nonneg=True))),)
    runs = {}; found = []                  # one group for every state the loop may be entered in
    for b, l in back: runs.setdefault(tuple(l.items()), []).append((b, now(b, l)))
    for ls, ms in runs.items():
        cands = [L(0) - c[1] for b, m in ms for c in b.con.conds() if c[0] in ('le', 'eq') and any(a in m for a, _ in c[1].t)]
        for f in dict.fromkeys(cands):
            if all(entails(b, ge(f, ZERO)) and entails(b, le(lin.subst(f, m), f - 1)) for b, m in ms): found.append(show(f)); break
        else:
            for b, l in back:
                if tuple(l.items()) == ls and beyond(b) and all(unchanged(leaf(b.cells[c], p), a) for (c, p), a in l.items()): raise Stuck(b)
            return None
    return "; ".join(dict.fromkeys(found))

def inventory(S):
    P = S.P; R = reachable(S); n = 0; special = {}
    for what, (t, m) in {"compile": ("dfa_compiler::DfaCompiler", "compile"), "closure": ("ndfa::Ndfa", "get_join_closure"), "map": ("overlapping_symbols::SymbolMap", "to_non_overlapping_map")}.items():
        try: special[S.inherent(S.adt(t), m)] = what
        except Missing: pass
    left = []; it = 0; rk = 0; used = set()
    for k in sorted(R):
        b = P.bodies[k]; S.funcs.add(k)
        for c in loops_of(b):
            if bounded(b, c[2], c[1], c[3]): it += 1; continue
            if k in special and k not in used: used.add(k); continue      # the worklist itself, decided below
            try: r = ranked(S, k, c[1])
            except Stuck as x:
                S.violation("every round of a loop changes something", S.where(k), "a round that is only possible for larger sizes leaves everything as it was, so the loop never ends [path condition: %s]" % ", ".join(show(c) for c in list(x.args[0].con.conds())[:12])); return
            except Taint as t: left.append((k, str(t))); continue
            except (AttributeError, KeyError, IndexError, TypeError, AssertionError) as x: left.append((k, "%s: %s" % (type(x).__name__, x))); continue
            if r: rk += 1
            else: left.append((k, "no rank is found"))
    name = "loops of %d reachable functions: over a finite iterator, or with a linear rank" % len(R)
    if left: S.unknown(name, S.where(left[0][0]), "%d loops are not shown to end: %s" % (len(left), left[0][1]))
    elif not it: S.unknown(name, "src", "no loops found")
    else: S.ok(name, "src/*.rs", "%d loops over finite iterators, %d with a rank, %d worklists decided on their own" % (it, rk, len(used)))
    # recursion
    inside = {k for im in P.impls if im["self"][0] == "adt" and im["self"][1].startswith("alloc::") and any(a[0] == "dyn" for a in im["self"][2]) for k in im["itemmap"].values() if isinstance(k, str)}   # forwards to what the pointer holds
    g = {k: {x for x, d in R[k] if d and x in R and not (d == "dyn" and k in inside)} for k in R}
    derived = {k for im in P.impls if im.get("derived") for k in im["itemmap"].values() if isinstance(k, str)}
    def cyc(k):
        seen = set(); work = list(g[k])
        while work:
            x = work.pop()
            if x == k: return True
            if x in seen: continue
            seen.add(x); work += g[x]
        return False
    rec = [k for k in sorted(g) if k not in derived and cyc(k)]
    try: comp = c08.Pat(S).comp
    except Missing: comp = None
    other = [k for k in rec if k != comp and not (comp and k.startswith(comp + "::{closure"))]
    if other: S.unknown("recursion", S.where(other[0]), "a recursion besides that of Pattern::compile")
    else: S.ok("recursion: only Pattern::compile calls itself", "src/*.rs", "%d functions of the call graph" % len(g))

def recursion(S):
    """Pattern::compile calls itself on strict parts of the pattern only"""
    name = "Pattern::compile calls itself on strict parts of the pattern"
    P = c08.Pat(S); where = S.where(P.comp); n = 0; odd = []
    for kind, var in P.v.items():
        e = S.engine(); calls = []
        def h(eng, st, C):
            if C.key == P.comp: calls.append((st, P.deep(eng, st, C.args[0]))); return [eng.out(st, VInt(L(eng.fresh("end", nonneg=True)), c08.U))]
            if C.key == P.fix: return [eng.out(st, UNIT)]
            if C.trait in (c08.SM, c08.MSM) and P.machine(C.targs[0]):
                if C.method == "count_states": return [eng.out(st, VInt(L(eng.fresh("states", nonneg=True)), c08.U))]
                return [eng.out(st, UNIT)]
        e.hooks.append(h); st = State(); args = S.sym_args(e, P.comp)
        c = ('l', 0, 'self'); me = e.expand(e.mk(atom('sym', 'self'), c08.pointee(S.argty(e, P.comp, 0))), var); st.cells[c] = me
        S.run(e, P.comp, S.params(P.comp), [VRef(c)] + args[1:], st)
        for y, x in calls:
            n += 1
            if x == me or same(e, y, x, me): S.violation(name, where, "compiling a %s compiles the same pattern again [path condition: %s]" % (kind, ", ".join(show(c) for c in list(y.con.conds())[:12]))); return
            t = x.t if isinstance(x, VSym) else None; d = 0
            while isinstance(t, Atom) and t.k[0] != 'sym':
                if t.k[0] == 'fld': d += 1
                t = t.k[1] if len(t.k) > 1 else None
            if not (isinstance(t, Atom) and t is atom('sym', 'self') and d): odd.append((kind, x))
        if e.taints and kind not in ("Epsilon", "Match", "MatchRange"): pass
    if odd: S.unknown(name, where, "compiling a %s compiles %r" % odd[0]); return
    if not n: S.unknown(name, where, "no recursive calls"); return
    S.ok(name, where, "%d calls" % n)

# ------------------------------------------------------------------ sets
def canonical(S, D):
    name = "the sets of states merge_states makes are lists in one order without duplicates"
    try: DT, DS, ft, fo, fs = parts(D); key = S.inherent(DT, "merge_states")
    except Missing as m: S.unknown(name, "src/dfa_compiler.rs", "not found by name: %s" % m); return
    U = ("int", "u32"); seen = set()
    def mk(e, st, ns):
        a = S.sym_args(e, key); v = e.as_adt(st, e.read(st, a[0].cell, a[0].path)); f = list(v.f); ty = f[ft].ety
        f[ft] = VSeq(tuple(('one', VAdt("tuple", 0, (e.mk(atom('sym', 's'), ty[1][0]), VAdt(DS, 0, (VSeq((('one', VInt(x, U)),), U),))))) for i, x in enumerate(ns)), ty)
        c = ('l', 0, 'me'); st.cells[c] = VAdt(v.k, v.v, f); return [VRef(c)]
    def f(e, o, ns, args):
        if panics(o): return None
        st = o.st; q = e.as_adt(st, e.read(st, args[0].cell, ())).f[ft]; m = e.seq_len(q).const()
        if m is None: raise Taint("a list of unknown length")
        for i in range(m):
            w = ints_of(e, st, e.as_adt(st, e.as_adt(st, e.seq_get(st, q, L(i))).f[1]).f[fs])
            for a, b in itertools.combinations(w, 2):
                if not entails(st, ne(a, b)): return "the set of %s may hold the same state twice: lists of states can grow without an end" % ", ".join(map(show, ns))
            up = all(entails(st, lt(a, b)) for a, b in zip(w, w[1:])); down = all(entails(st, gt(a, b)) for a, b in zip(w, w[1:]))
            if not up and not down: return "the order of the states %s depends on the order they were found in: the same set of states can be built several times" % ", ".join(map(show, w))
            if len(w) > 1: seen.add(up)
            if len(seen) > 1: return "the states are in ascending order in one list and in descending order in another"
    x = [L(atom('sym', 't%d' % i, nonneg=True)) for i in range(4)]
    small_lists(S, "merge_states: sets of up to four states have one order and no duplicates", key, [x[:1], x[:2], x[:3]] + ([x] if S.tier == "thorough" else []) + [[L(n) for n in q] for q in ((3, 1, 3, 2), (2, 2, 2), (1, 2, 1, 2, 1), (5, 4, 3, 2, 1, 0), (300, 2, 65537, 300, 44), (7, 9, 7, 8, 9))], f, mk)
    merge_any(S, D, key, True)
    # dedupe itself
    try: kd = S.inherent(DS, "dedupe")
    except Missing: return
    e = S.engine(); st = State(); args = S.sym_args(e, kd); q = e.as_adt(st, e.read(st, args[0].cell, args[0].path)).f[fs]
    outs = S.run(e, kd, S.params(kd), args, st)
    def g(o):
        if panics(o): return None
        w = e.as_adt(o.st, e.read(o.st, args[0].cell, args[0].path)).f[fs]; n = e.seq_len(q)
        if entails(o.st, le(n, ONE)): return None
        ops = []; v = w
        while isinstance(v, VSeq) and v != q:
            if len(v.segs) == 1 and v.segs[0][0] == 'sl' and v.segs[0][1].k[0] in ('sort', 'dedup'): ops.append(v.segs[0][1].k[0]); v = v.segs[0][1].k[1]
            elif same(e, o.st, v, q): break
            else: raise Taint("the states become %r" % (w,))
        ops.reverse()
        if 'sort' in ops and 'dedup' in ops[ops.index('sort'):]: return None
        y = [x for x in [o.st] if not beyond(x)]
        if y: raise Taint("duplicates are removed elsewhere")
        return "a list of states is left as it is" if not ops else "a list of states is only given %s" % ", ".join(ops)
    S.judge(e, "dedupe sorts and then removes duplicates, any number of states", kd, outs, g)

def equal_keys(S, D):
    name = "equal lists of states are the same set to the map of known states"
    DT, DS, ft, fo, fs = parts(D); U = ("int", "u32")
    try: key = S.timpl("core::cmp::PartialEq", lambda t: t[0] == "adt" and t[1] == DS, "eq")[0]
    except Missing as m: S.unknown(name, "src/dfa_compiler.rs", str(m)); return
    def mk(e, st, n):
        r = []
        for x in "ab":
            c = ('l', 0, x); st.cells[c] = VAdt(DS, 0, (VSeq(tuple(('one', VInt(L(atom('sym', 'x%d' % i, nonneg=True)), U)) for i in range(n)), U),)); r.append(VRef(c))
        return r
    def f(e, o, n, args):
        if panics(o): return None
        if not isinstance(o.val, VBool): raise Taint("%r" % (o.val,))
        if o.val.c is not True and (o.val.c is False or not entails(o.st, o.val.c)): return "a list of %d states is not equal to itself" % n
    small_lists(S, name + ": up to nine states", key, range(10), f, mk)

# ------------------------------------------------------------------ small instances
def machines(tier):
    yield [(0, 0, 0)]
    yield [(0, 0, 1), (1, 0, 0)]
    yield [(0, 0, 1), (0, 0, 0), (1, 0, 1)]
    yield [(0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)]
    yield [(0, 0, 1), (0, 0, 2), (1, 0, 2), (2, 0, 1), (2, 0, 0)]
    yield [(0, 0, 2), (0, 0, 1), (2, 0, 2), (2, 0, 1), (1, 0, 1), (1, 0, 2)]
    yield [(0, 0, 1), (1, 0, 2), (2, 0, 0)]
    yield [(0, 0, 1), (0, 1, 2), (1, 0, 1), (1, 1, 2), (2, 0, 1), (2, 1, 2)]
    yield [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 2), (1, 1, 2)]
    yield [(0, 0, 1), (0, 0, 300), (300, 0, 1), (300, 0, 300), (1, 0, 300), (1, 0, 0)]
    if tier == "thorough":
        for bits in range(512):
            yield [(a, 0, b) for a in range(3) for b in range(3) if bits >> (3 * a + b) & 1]
def small(S, D):
    name = "compile: small machines end within %d rounds" % ROUNDS; n = 0
    for m in machines(S.tier):
        syms = {}
        def sym(i):
            if i not in syms: syms[i] = e.mk(L_sym(i), D.sym)
            return syms[i]
        L_sym = lambda i: atom('sym', 's%d' % i)
        e = D.engine(lambda i: [(sym(a), t) for s, a, t in m if s == i], lambda i: [], ROUNDS); e.must_end = True
        outs = D.run(e); n += 1
        c = Ctx(S.pid, S.P, S.tier)
        if c.judge(e, name, D.key, outs, lambda o: None) is not True:
            for a in c.violations: S.violation(name, a[1], "machine with the transitions %s: %s" % (", ".join("%d -s%d-> %d" % x for x in m), a[2]))
            for a in c.inconclusive: S.unknown(name, a[1], a[2])
            return
    S.ok(name, S.where(D.key), "%d machines, symbols arbitrary" % n)
def small_graphs(S, N):
    fj = S.field(N, "joined_with"); name = "get_join_closure: small join graphs end within %d rounds" % ROUNDS
    try: key = S.inherent(N, "get_join_closure")
    except Missing as m: S.unknown(name, "src/ndfa.rs", "not found by name: %s" % m); return
    n = 0
    for k, joins, start in c06.graphs("quick"):
        if k > 6: continue
        e = S.engine(); e.small = 12; e.unroll = ROUNDS; e.fan = 4000; e.must_end = True
        args = S.sym_args(e, key); st = State(); me = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); Jn = me.f[fj]; U = args[1].ty
        f = list(me.f); f[fj] = VSeq(tuple(('one', VSeq(tuple(('one', VInt(L(b), U)) for a, b in joins if a == i), U)) for i in range(max([a for a, _ in joins] + [-1]) + 1)), Jn.ety)
        c = ('l', 0, 'm'); st.cells[c] = VAdt(me.k, me.v, f)
        outs = S.run(e, key, S.params(key), [VRef(c), VInt(L(start), U)], st); n += 1
        x = Ctx(S.pid, S.P, S.tier)
        if x.judge(e, name, key, outs, lambda o: None) is not True:
            for a in x.violations: S.violation(name, a[1], "joins %s from state %d: %s" % (", ".join("%d->%d" % p for p in joins), start, a[2]))
            for a in x.inconclusive: S.unknown(name, a[1], a[2])
            return
    S.ok(name, S.where(key), "%d graphs" % n)

def check(S):
    inventory(S); recursion(S)
    D = Dfac(S); anysize(S, D, None); canonical(S, D); equal_keys(S, D); small(S, D)
    N = S.adt("ndfa::Ndfa"); c06.closure(S, N, S.field(N, "joined_with"), True); small_graphs(S, N)
    A = Ranges(S)
    try: key = S.inherent(A.M, "to_non_overlapping_map")
    except Missing as m: S.unknown("to_non_overlapping_map", "src/overlapping_symbols.rs", str(m)); return
    for n in range(4): c04.small(S, A, key, n, ROUNDS)
    c04.general(S, A, key, 3, True)
