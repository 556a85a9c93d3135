"""C05: what the mutators of an NDFA record."""
from engine.spec import *
LEVEL = "proof"
RULE = ("For an arbitrary machine (any table sizes, contents, outputs and highest state) and arbitrary arguments, every path of add_transition, join_states, create_state and set_output_symbol is interpreted and the resulting "
        "tables must be entailed to be, at an arbitrary state j: the old row of j, with exactly the new entry appended when j is the state named by the call, and unchanged otherwise (rows missing from the tables count as empty); "
        "outputs the same except the one set; and count_states (run on the result) the maximum of the old count and one more than each state named. new() must give the empty machine with one state. No path may panic.")

def check(S):
    N = S.adt("ndfa::Ndfa")
    fm, ft, fj, fo = [S.field(N, n) for n in ("max_state", "transitions", "joined_with", "output_symbols")]
    MSM = CRATE + "state_machine::MutableStateMachine"; SM = CRATE + "state_machine::StateMachine"
    isn = lambda t: t[0] == "adt" and t[1] == N
    kcount, _ = S.timpl(SM, isn, "count_states")
    U32 = None
    def row(e, st, seq, j):
        n = e.seq_len(seq)
        if e.decide(st, lt(j, n)): return e.seq_get(st, seq, j)
        return VSeq((), seq.ety[2][0] if seq.ety[0] == "adt" else ("unknown",))
    def contains(e, st, seq, x):
        # an element that the path has compared with x and found equal (recording an entry twice changes nothing)
        if len(seq.segs) != 1 or seq.segs[0][0] != 'sl': return False
        base = seq.segs[0][1]
        for a in prove.con_atoms(st.con):
            while a.k[0] == 'fld': a = a.k[1]
            if a.k[0] == 'elem' and prove.equal(st.con, a.k[1], base) and entails(st, conj([ge(L(a.k[2]), seq.segs[0][2]), lt(L(a.k[2]), seq.segs[0][3])])) and same(e, st, e.mk(a, seq.ety), x): return True
        return False
    def find(e, st, m, k):
        return prims.map_lookup(e, st, m, k)
    def count(e, st, ref):
        r = e.run_body(kcount, S.params(kcount), [ref], st.copy())
        if not r or any(o.kind != 'ret' or not isinstance(o.val, VInt) for o in r): raise Taint("count_states is not a simple function of the machine")
        return [(o.st, o.val.l) for o in r]
    def go(m, mentioned, trow=None, jrow=None, out=None):
        key, im = S.timpl(MSM, isn, m)
        e = S.engine(); args = S.sym_args(e, key); st = State()
        me = e.as_adt(st, e.read(st, args[0].cell, args[0].path))
        st, = st.assume(ge(me.f[fm].l, ZERO))
        starts = count(e, st, args[0])
        outs = []
        for x, c in starts:
            for o in S.run(e, key, S.params(key), args, x):
                if len(starts) > 1: o.st.cells[('l', 0, 'count before')] = VInt(c, USIZE)
                outs.append(o)
        c_first = starts[0][1]
        # an arbitrary state: one of those named by the call, or another one
        other = L(e.fresh("j", nonneg=True))
        def f(o, j):
            if panics(o): return "panics: %s" % o.msg
            st = o.st
            v = e.as_adt(st, e.read(st, args[0].cell, args[0].path))
            names = [args[i].l for i in mentioned]
            c0 = st.cells[('l', 0, 'count before')].l if len(starts) > 1 else c_first
            for x1, c1 in count(e, st, args[0]):
                want = [ge(c1, c0)] + [ge(c1, x + 1) for x in names]
                for c in want:
                    if not entails(x1, c): return "count_states becomes %s although it was %s and state(s) %s were named" % (show(c1), show(c0), ", ".join(show(x) for x in names))
                tops = [c0] + [x + 1 for x in names]
                for con in x1.con.assume(*[gt(c1, x) for x in tops]) if len(tops) == 1 else all_gt(x1.con, c1, tops):
                    return "count_states becomes %s, more than one more than the highest state named" % show(c1)
            for nm, fi, at in (("transitions", ft, trow), ("joins", fj, jrow)):
                old = row(e, st, me.f[fi], j); new = row(e, st, v.f[fi], j)
                add = ()
                if at is not None and e.decide(st, eq(j, args[at[0]].l)) and contains(e, st, old, at[1](args)) and not explain(e, st, VSeq(new.segs, old.ety), old): continue
                if at is not None and e.decide(st, eq(j, args[at[0]].l)): add = (('one', at[1](args)),)
                w = VSeq(norm_segs(tuple(old.segs) + add, old.ety), old.ety)
                r = explain(e, st, VSeq(new.segs, old.ety), w)
                if r: return "the %s of state j%s: %s" % (nm, " named by the call" if add else "", r)
            a = find(e, st, me.f[fo], VInt(j, U)); b = find(e, st, v.f[fo], VInt(j, U))
            if out is not None and e.decide(st, eq(j, args[out[0]].l)): a = args[out[1]]
            if a is None and b is None: return None
            if a is None or b is None: return "the output of state j %s" % ("appears from nowhere" if a is None else "is lost")
            r = explain(e, st, b, a)
            if r: return "the output of state j: %s" % r
        U = args[mentioned[0]].ty
        names = list(dict.fromkeys(args[i].l for i in mentioned))
        for n, j in enumerate(names):
            at = [Out(o.kind, x, o.val, o.span, o.msg) for o in outs for x in o.st.assume(*[neg(eq(j, y)) for y in names[:n]])]
            S.judge(e, "%s, seen from state argument %d" % (m, n + 1), key, at, lambda o: f(o, j))
        apart = [Out(o.kind, x, o.val, o.span, o.msg) for o in outs for x in o.st.assume(*[neg(eq(other, x)) for x in names])]
        S.judge(e, "%s, seen from any other state" % m, key, apart, lambda o: f(o, other))
    def all_gt(con, c1, tops):
        cs = [con]
        for t in tops: cs = [z for y in cs for z in y.assume(gt(c1, t))]
        return cs
    pair = lambda a: VAdt("tuple", 0, (a[2], a[3]))
    go("add_transition", (1, 3), trow=(1, pair))
    go("join_states", (1, 2), jrow=(1, lambda a: a[2]))
    go("create_state", (1,))
    go("set_output_symbol", (1,), out=(1, 2))
    # new
    key = S.inherent(N, "new"); e = S.engine()
    outs = S.run(e, key, S.params(key), [])
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; v = o.val; c = ('l', 0, 'new'); st.cells[c] = v
        for x, n in count(e, st, VRef(c)):
            if not entails(x, eq(n, ONE)): return "a new machine has %s states" % show(n)
        for nm, fi in (("transitions", ft), ("joins", fj)):
            x = v.f[fi]
            if any(g[0] == 'one' and isinstance(g[1], VSeq) and not entails(st, eq(e.seq_len(g[1]), ZERO)) for g in x.segs): return "a new machine has %s" % nm
            if not all(g[0] == 'one' for g in x.segs): raise Taint("%r" % (x,))
        if v.f[fo].base is not None or v.f[fo].writes.segs: return "a new machine has outputs"
    S.judge(e, "new", key, outs, f)
