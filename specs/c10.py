"""C10: the least output wins."""
from engine.spec import *
from specs.dfac import *
from specs import c06
import random
LEVEL = "proof"
TECHNIQUE = "inductive loop invariants, event traces and small machines over abstract interpretation of MIR (static analysis)"
RULE = ("compile, any machine: in an arbitrary round of the worklist loop all the outputs of all the members of the set are collected, and a finished state accepts exactly when it has collected some, with what output_symbol picks of its own; output_symbol picks the least of any number of outputs (the first of the sorted list, "
        "and the least of up to five arbitrary ones on every path), none only if there are none. output_symbols_for_state follows the joins (induction over the closure, then its elements one by one, and every join graph on three states). TokenMatcher::to_ndfa, any number of patterns: every pattern is compiled once, from state 0, "
        "its end state is joined to an accepting state which is a state number taken from count_states after the pattern was compiled and given nothing but the output of that pattern, and overlaps are removed last; count_states is beyond every state ever named. add_pattern adds the pattern and the output given. prepare_to_match prepares what to_ndfa gives. "
        "Besides, small machines with arbitrary (symbolic) outputs on their states are followed through the whole of compile: what each state accepts must be the least of the outputs of its members on every path.")
NOTE = "Outputs are arbitrary values of a totally ordered type. The NDFA built by to_ndfa is judged by the calls made on it; Pattern::compile is C08's, fix_overlapping_ranges C07's."
MSM = CRATE + "state_machine::MutableStateMachine"; TON = CRATE + "state_machine::ToNdfa"; TOP = CRATE + "regular_pattern::ToPattern"; PTM = CRATE + "prepare::PrepareToMatch"

def check(S):
    D = Dfac(S)
    output_symbol(S, D); anysize(S, D, False)
    small(S, D)
    joined(S)
    tokens(S)
    counting(S)

# ------------------------------------------------------------------ compile
def machines(tier):
    """(transitions (state, symbol number, target), number of outputs of each state)"""
    yield [], {}
    yield [], {0: 1}
    yield [], {0: 3}
    yield [(0, 0, 1), (0, 0, 2)], {1: 1, 2: 1}
    yield [(0, 0, 2), (0, 0, 1), (0, 1, 3)], {1: 2, 3: 1}
    yield [(0, 0, 1), (0, 0, 2), (0, 0, 3)], {1: 1, 2: 1, 3: 1}
    yield [(0, 0, 1), (0, 0, 2), (0, 0, 3)], {1: 2, 3: 2}
    yield [(0, 0, 1), (0, 1, 2), (1, 0, 3), (2, 0, 3), (2, 0, 4)], {0: 1, 3: 1, 4: 1}
    yield [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 2), (1, 1, 2)], {1: 1, 2: 1}
    yield [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 1, 0)], {0: 2, 1: 1}
    yield [(0, 0, 70), (0, 0, 300), (300, 0, 70)], {70: 1, 300: 2}
    rng = random.Random(5)
    for n in range(14 if tier != "thorough" else 150):
        k = 3 + n % 3; m = 4 + n % 4
        yield [(rng.randrange(k), rng.randrange(2), rng.randrange(k)) for _ in range(m)], {i: rng.randrange(1, 3) for i in rng.sample(range(k), 2 + n % 2)}

def small(S, D):
    bad = None; n = 0; paths = 0
    for m, nouts in machines(S.tier):
        e = None
        sym = lambda i: VInt(L(10 * i), D.sym)
        O = {}
        def outs_of(i):
            if i not in O: O[i] = [e.mk(atom('sym', 'o%d_%d' % (i, j)), D.out) for j in range(nouts.get(i, 0))]
            return O[i]
        e = D.engine(lambda i: [(sym(a), t) for s, a, t in m if s == i], outs_of)
        outs = D.run(e); n += 1
        def f(o):
            who = "machine with the transitions %s and outputs on %s: " % (", ".join("%d -%d-> %d" % (s, 10 * a, t) for s, a, t in m), ", ".join("%d (%d)" % x for x in sorted(nouts.items())))
            r, sets, states = walk(D, e, o, m, sym)
            if r: raise Taint("not the subset construction: %s" % r)     # C09's
            st = o.st
            for d, X in sets.items():
                acc = states[d][0]; w = [x for i in sorted(X) for x in outs_of(i)]
                if not w:
                    if acc: return who + "the state for %s accepts although no member has an output" % sorted(X)
                    continue
                if len(acc) != 1: return who + "the state for %s accepts %d times" % (sorted(X), len(acc))
                for y in w:
                    if not entails(st, le(acc[0].l, y.l)): return who + "the state for %s accepts %s although %s may be less" % (sorted(X), show(acc[0].l), show(y.l))
                if not any(entails(st, eq(acc[0].l, y.l)) for y in w): return who + "the state for %s accepts %s, the output of no member" % (sorted(X), show(acc[0].l))
        x = Ctx(S.pid, S.P, S.tier); paths += len(outs)
        if x.judge(e, "small machines", D.key, outs, f) is not True: bad = x; break
    if bad is None: S.ok("compile: %d small machines, outputs arbitrary" % n, S.where(D.key), "%d paths" % paths)
    else:
        for a in bad.violations: S.violation("compile: small machines", a[1], a[2])
        for a in bad.inconclusive: S.unknown("compile: small machines", a[1], a[2])

# ------------------------------------------------------------------ outputs through joins
def joined(S):
    N = S.adt("ndfa::Ndfa"); SMt = CRATE + "state_machine::StateMachine"; m = "output_symbols_for_state"
    fm, ft, fj, fo = (S.field(N, x) for x in ("max_state", "transitions", "joined_with", "output_symbols"))
    keys = {m: S.timpl(SMt, lambda t: t[0] == "adt" and t[1] == N, m)[0]}
    c06.closure(S, N, fj); c06.contract(S, N, keys, fm, ft, fj, fo); c06.small(S, N, keys, fm, ft, fj, fo)

# ------------------------------------------------------------------ token matchers
GT, GE = ('g', 'time'), ('g', 'machine events')
def tokens(S):
    TM = S.adt("tokenizer::TokenMatcher"); PT = S.adt("regular_pattern::Pattern"); N = S.adt("ndfa::Ndfa")
    fp = S.field(TM, "patterns")
    comp = S.inherent(PT, "compile"); fix = S.inherent(N, "fix_overlapping_ranges")
    key = S.inherent(TM, "to_ndfa"); U = ("int", "u32")
    name = "to_ndfa of a token matcher, any patterns"
    e = S.engine(); st = State(); st.cells[GT] = VInt(ZERO, ("int", "usize")); st.cells[GE] = VSeq((), EV)
    def deep(eng, st, v):
        while isinstance(v, (VRef, VBox)): v = eng.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    def ev(st, kind, *x):
        q = st.cells[GE]; t = st.cells[GT].l
        st.cells[GE] = prims.mkseq(q.segs + (('one', VAdt("vp::Event", 0, (VInt(L(kind), U), VInt(t, ("int", "usize"))) + x)),), EV)
        st.cells[GT] = VInt(t + 1, ("int", "usize")); return t
    def machine(t):
        while t[0] == "ref": t = t[1]
        return t[0] == "adt" and t[1] == N or t[0] == "dyn"
    def h(eng, st, C):
        if C.key == comp:
            t = ev(st, 0, deep(eng, st, C.args[0]), C.args[2]); return [eng.out(st, VInt(L(atom('end', t, nonneg=True)), U))]
        if C.key == fix: ev(st, 5); return [eng.out(st, UNIT)]
        if C.trait in (SM, MSM) and machine(C.targs[0]):
            if C.method == "count_states":
                r = L(atom('states', st.cells[GT].l, nonneg=True)); cs = [ge(r, ONE)]
                for g in st.cells[GE].segs:     # every state named before is counted
                    if g[0] == 'one' and g[1].f[0].l == ZERO: cs.append(gt(r, L(atom('end', g[1].f[1].l, nonneg=True))))
                return [eng.out(x, VInt(r, U)) for x in st.assume(*cs)]
            k = {"join_states": 1, "set_output_symbol": 2, "create_state": 3, "add_transition": 4}.get(C.method)
            if k is None: raise Taint("%s of the machine being built" % C.method)
            ev(st, k, *[deep(eng, st, x) for x in C.args[1:]]); return [eng.out(st, UNIT)]
    e.hooks.append(h)
    args = S.sym_args(e, key); me = e.as_adt(st, deep(e, st, args[0])); q = me.f[fp]; n = e.seq_len(q)
    outs = S.run(e, key, S.params(key), args, st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; m = deep(e, st, o.val)
        if not (isinstance(m, VAdt) and m.k == N): raise Taint("the result is %r" % (m,))
        segs = [g for g in st.cells[GE].segs if not entails(st, le(e.seg_len(g), ZERO))]
        if not fixed(st, segs):
            return "overlaps are not removed at the end"
        if not segs: return None if entails(st, eq(n, ZERO)) else "nothing is compiled"
        segs = [g for g in segs if not (g[0] == 'one' and g[1].f[0].l == L(5))]
        if not segs: return None if entails(st, eq(n, ZERO)) else "nothing is compiled"
        if len(segs) != 1 or segs[0][0] != 'comp': raise Taint("the calls on the machine are %r" % (segs,))
        k, lo, hi, cases = segs[0][1:5]
        if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, n)): return "only the patterns %s..%s are compiled" % (show(lo), show(hi))
        for conds, gs in cases:
            for y in st.assume(ge(L(k), lo), lt(L(k), hi), *conds):
                r = one(y, L(k), gs)
                if r: return r
    def fixed(st, segs):
        """is the last call the removal of overlaps? (no call at all: nothing overlaps)"""
        if not segs: return True
        g = segs[-1]
        if g[0] == 'one':
            x = g[1].f[0].l.const()
            if x is None: raise Taint("the last call on the machine")
            return x == 5
        if g[0] != 'comp': raise Taint("the calls on the machine are %r" % (segs,))
        r = {fixed(st, [x for x in gs if not entails(st, le(e.seg_len(x), ZERO))]) for _, gs in g[4] if gs}
        if len(r) != 1: raise Taint("the last call on the machine")
        return r.pop()
    def one(st, k, gs):
        if any(g[0] != 'one' for g in gs): raise Taint("the calls on the machine are %r" % (gs,))
        E = [g[1].f for g in gs]; kind = lambda x: x[0].l.const()
        if any(kind(x) is None for x in E): raise Taint("the calls on the machine are %r" % (E,))
        c = next((x for x in E if kind(x) == 0), None)
        for i in (k, n - 1 - k):        # in any order
            pair = e.as_adt(st, e.seq_get(st, q, i))
            if c is None or same(e, st, c[2], pair.f[0]): return given(st, E, pair.f[0], pair.f[1])
        raise Taint("another pattern is compiled: %r" % (c[2],))
    def given(st, E, P, O):
        kind = lambda x: x[0].l.const()
        cs = [x for x in E if kind(x) == 0]
        if not cs: return "a pattern is not compiled"
        if len(cs) > 1: raise Taint("compiled more than once")
        c = cs[0]; tc = c[1].l; end = L(atom('end', tc, nonneg=True))
        if not same(e, st, c[2], P): return "another pattern is compiled: %s" % explain(e, st, c[2], P)
        if not entails(st, eq(c[3].l, ZERO)): return "a pattern is compiled from state %s" % show(c[3].l)
        so = [x for x in E if kind(x) == 2]; jo = [x for x in E if kind(x) == 1]
        if any(kind(x) == 4 for x in E): raise Taint("transitions are added")
        if not so: return "a pattern is given no output"
        if len(so) > 1: raise Taint("several outputs")
        a = so[0][2].l; t = a.single()
        if not same(e, st, so[0][3], O): return "the output of a pattern is set to %r" % (so[0][3],)
        if a == end and entails(st, ne(end, ZERO)): raise Taint("the end state of the pattern itself accepts, when it is not the start state")
        if a == end: return "the output is set on the end state of the pattern, which another pattern may share"
        if t is None or t.k[0] != 'states': raise Taint("the output is set on state %s" % show(a))
        if not entails(st, ge(t.k[1], tc + 1)):
            if entails(st, le(t.k[1], tc)): 
                if any(x[2].l == a and entails(st, lt(x[1].l, tc)) for x in E if kind(x) in (2, 3)): raise Taint("a state taken before the pattern is compiled")
                return "the accepting state is numbered before the pattern is compiled, so a state of the pattern has the same number"
            raise Taint("the accepting state")
        # nothing else may take that number
        for x in E:
            if entails(st, ge(x[1].l, t.k[1])) and kind(x) == 0: return "the pattern is compiled after its accepting state was numbered"
        if not any(x[2].l == end and x[3].l == a for x in jo):
            if not jo: return "the end of a pattern is not joined to its accepting state"
            if any(x[2].l == a and x[3].l == end for x in jo): return "the accepting state is joined to the end of the pattern instead of the other way round"
            return "the join is from %s to %s instead of from the end of the pattern to its accepting state" % (show(jo[0][2].l), show(jo[0][3].l))
        if len(jo) > 1: raise Taint("more joins")
        return None
    S.judge(e, name, key, outs, f)
    # up to three patterns
    e0 = e; total = 0; bad = None
    for cnt in range(4):
        e = S.engine(); e.small = 12; e.unroll = 40; e.fan = 4000; e.hooks.append(h); st = State(); st.cells[GT] = VInt(ZERO, ("int", "usize")); st.cells[GE] = VSeq((), EV)
        args = S.sym_args(e, key); me = e.as_adt(st, deep(e, st, args[0])); ety = me.f[fp].ety
        pairs = [e.as_adt(st, e.mk(atom('sym', 'pattern%d' % i), ety)) for i in range(cnt)]
        fs = list(me.f); fs[fp] = VSeq(tuple(('one', x) for x in pairs), ety); c = ('l', 0, 'me'); st.cells[c] = VAdt(me.k, me.v, fs)
        outs = S.run(e, key, S.params(key), [VRef(c)], st); total += len(outs)
        def f3(o):
            if panics(o): return "panics: %s" % o.msg
            st = o.st; segs = [g for g in st.cells[GE].segs if not entails(st, le(e.seg_len(g), ZERO))]
            if any(g[0] != 'one' for g in segs): raise Taint("the calls on the machine are %r" % (segs,))
            if not fixed(st, segs): return "overlaps are not removed at the end"
            E = [g[1].f for g in segs if g[1].f[0].l != L(5)]; groups = []
            for x in E:
                if x[0].l == ZERO: groups.append([])
                if not groups: groups.append([])
                groups[-1].append(x)
            if groups and groups[0][0][0].l != ZERO: raise Taint("calls before the first pattern is compiled")
            left = list(pairs)
            for gr in groups:
                i = next((i for i, p in enumerate(left) if same(e, st, gr[0][2], p.f[0])), None)
                if i is None: raise Taint("a pattern compiled again, or another one")
                r = given(st, gr, left[i].f[0], left[i].f[1])
                if r: return r
                del left[i]
            if left: return "pattern %d of %d is not compiled" % (pairs.index(left[0]), cnt)
        x = Ctx(S.pid, S.P, S.tier)
        if x.judge(e, name, key, outs, f3) is not True: bad = x; break
    nm = "to_ndfa of a token matcher, up to three patterns"
    if bad is None: S.ok(nm, S.where(key), "%d paths" % total)
    else:
        for a in bad.violations: S.violation(nm, a[1], a[2])
        for a in bad.inconclusive: S.unknown(nm, a[1], a[2])
    # adding a pattern
    key = S.inherent(TM, "add_pattern"); e = S.engine(); st = State()
    def h2(eng, st, C):
        if C.trait == TOP and C.method == "to_pattern": return [eng.out(st, eng.mk(atom('pattern', deep(eng, st, C.args[0])), ad(PT, (("param", 0, "Symbol"),))))]
    e.hooks.append(h2); args = S.sym_args(e, key); q = e.as_adt(st, deep(e, st, args[0])).f[fp]; cell = args[0]
    outs = S.run(e, key, S.params(key), args, st)
    def g(o):
        if panics(o): return "panics: %s" % o.msg
        w = e.as_adt(o.st, e.read(o.st, cell.cell, cell.path)).f[fp]
        new = VAdt("tuple", 0, (e.mk(atom('pattern', deep(e, o.st, args[1])), ad(PT, (("param", 0, "Symbol"),))), args[2]))
        d = explain(e, o.st, w, VSeq(norm_segs(q.segs + (('one', new),), q.ety), q.ety))
        if not d: return None
        # the order of the patterns does not matter
        if same(e, o.st, w, VSeq(norm_segs((('one', new),) + q.segs, q.ety), q.ety)): return None
        return "the patterns become %r: %s" % (w, d)
    S.judge(e, "add_pattern", key, outs, g)
    # preparing
    n = 0
    for im in S.P.by_trait.get(PTM, []):
        t = im["self"]
        while t[0] == "ref": t = t[1]
        if not (t[0] == "adt" and t[1] == TM): continue
        key = im["itemmap"]["prepare_to_match"]; tn = S.inherent(TM, "to_ndfa"); e = S.engine(); st = State(); n += 1
        DC = S.adt("dfa_compiler::DfaCompiler"); build = S.inherent(DC, "build")
        def h3(eng, st, C):
            if C.key == tn: return [eng.out(st, VBox(eng.mk(atom('ndfa', deep(eng, st, C.args[0])), ("opaque",))))]
            if C.key == build: return [eng.out(st, eng.mk(atom('build', deep(eng, st, C.args[0])), ("opaque",)))]
        e.hooks.append(h3); args = S.sym_args(e, key); src = deep(e, st, args[0])
        outs = S.run(e, key, S.params(key), args, st)
        def p(o):
            if panics(o): return "panics: %s" % o.msg
            v = o.val
            if not (isinstance(v, VSym) and v.t.k[0] == 'build' and isinstance(v.t.k[1], VSym) and v.t.k[1].t.k[0] == 'ndfa'): raise Taint("the result is %r" % (v,))
            return explain(e, o.st, v.t.k[1].t.k[1], src)
        S.judge(e, "preparing a token matcher", key, outs, p)
    if not n: S.unknown("preparing a token matcher", "src/tokenizer.rs", "no such impl")

# ------------------------------------------------------------------ state numbers
def counting(S):
    """count_states is beyond every state ever named"""
    N = S.adt("ndfa::Ndfa"); pred = lambda t: t[0] == "adt" and t[1] == N
    cs = S.timpl(SM, pred, "count_states")[0]
    for m, idx in (("add_transition", (1, 3)), ("create_state", (1,)), ("set_output_symbol", (1,)), ("join_states", (1, 2))):
        name = "count_states after %s" % m
        try: key = S.timpl(MSM, pred, m)[0]
        except Missing as x: S.unknown(name, "src/ndfa.rs", str(x)); continue
        e = S.engine(); st = State(); args = S.sym_args(e, key)
        before = S.run(e, cs, S.params(cs), [args[0]], st.copy())
        if len(before) != 1 or panics(before[0]): S.unknown(name, S.where(cs), "count_states of an arbitrary machine"); continue
        n0 = before[0].val.l
        outs = S.run(e, key, S.params(key), args, st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            for p in S.run(e, cs, S.params(cs), [args[0]], o.st.copy()):
                if panics(p): return "count_states panics: %s" % p.msg
                if not entails(p.st, ge(p.val.l, n0)): return "the number of states may become less"
                for i in idx:
                    if not entails(p.st, gt(p.val.l, args[i].l)): return "state %s is not counted" % show(args[i].l)
        S.judge(e, name, key, outs, f, facts_ok=True)
