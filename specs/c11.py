"""C11: the transition table keeps each state's transitions."""
from engine.spec import *
from engine import rec, cmp
from engine.lin import subst, atoms_of
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with loop recurrences, induction over the merging loop (static analysis)"
RULE = ("The builder is a list of starts, a flat list of transitions and a list of accept symbols; state j owns the transitions from start j to start j+1. start_state, transition, accept and build are interpreted on an arbitrary builder. "
        "start_state must leave the transitions of earlier states as they are and may rewrite those of the last state only by joining neighbours with the same target and directly adjacent ranges: each step of the merging loop, as an "
        "exact recurrence over an arbitrary table, must keep the transitions up to such joins (induction), and states with up to three transitions are followed in full. The queries of the finished machine must return exactly state j's slice and accept symbol.")
NOTE = "Transition tables of any size; symbols embedded in the integers with next = +1 (C01)."
DB = CRATE + "dfa_builder::DfaBuilder"; SM = CRATE + "state_machine::StateMachine"

def check(S):
    B = S.adt("symbol_range_dfa::SymbolRangeDfaBuilder"); D = S.adt("symbol_range_dfa::SymbolRangeDfa"); R = S.adt("symbol_range::SymbolRange")
    fs, ft, fa = [S.field(B, n) for n in ("states", "transitions", "accept")]
    ds, dt, da = [S.field(D, n) for n in ("states", "transitions", "accept")]
    lo, hi = S.field(R, "lowest"), S.field(R, "highest")
    isb = lambda t: t[0] == "adt" and t[1] == B
    NF = len(S.P.adts[B]["variants"][0][2])
    if NF != 3: raise Missing("the builder has other fields")
    BC = ('l', 0, 'builder')
    def engine():
        e = S.engine(); e.hooks.append(countable_hook()); e.fan = 800; e.small = 8; return e
    def tty(e, key): 
        t = [x for x in S.params(key) if x[0] == "param" and x[2] == "InputSymbol"][0]
        return ("tuple", (ad(R, (t,)), ("int", "u32")))
    # ---- transitions up to joins of neighbours
    def parts(e, st, v):
        t = e.as_adt(st, v); r = e.as_adt(st, t.f[0]); return r.f[lo].l, r.f[hi].l, t.f[1].l, r
    def eqv(e, st, a, b): return cmp.Cmp(e, st.con).ints(a, b)
    def canon(e, st, q, other):
        cuts = {}
        for s in (q, other):
            for g in s.segs:
                if g[0] == 'sl': cuts.setdefault(g[1], []).extend([g[2], g[3]])
                elif g[0] == 'one':
                    a = values.as_elem(g[1], q.ety)
                    if a: cuts.setdefault(a[0], []).extend([a[1], a[1] + 1])
        out = []
        def less(a, b):
            if e.decide(st, lt(a, b)): return True
            if (a - b).const() is None: st.con = st.con.assume(eq(a, b))[0]
            return False
        def chop(g, cs):
            for i, c in enumerate(cs):
                if st.con.entails(le(g[2], c)) and st.con.entails(le(c, g[3])) and less(g[2], c) and less(c, g[3]):
                    return chop(('sl', g[1], g[2], c), cs[:i] + cs[i + 1:]) + chop(('sl', g[1], c, g[3]), cs[:i] + cs[i + 1:])
            return [g]
        for g in q.segs:
            if g[0] == 'sl':
                for h in chop(g, cuts[g[1]]):
                    n = h[3] - h[2]
                    if e.decide(st, le(n, ZERO)): continue
                    for k in range(1, 12):
                        if st.con.entails(eq(n, L(k))):
                            for j in range(k): out.append(('one', e.mk(values.elem_atom(h[1], h[2] + j), q.ety)))
                            break
                    else: out.append(h)
            else: out.append(g)
        # join what is known to be adjacent
        r = []
        for g in out:
            if g[0] == 'one' and r and r[-1][0] == 'one':
                a, b = parts(e, st, r[-1][1]), parts(e, st, g[1])
                if eqv(e, st, a[2], b[2]) and eqv(e, st, a[1] + 1, b[0]):
                    f = list(a[3].f); f[hi] = b[3].f[hi]
                    r[-1] = ('one', VAdt("tuple", 0, (VAdt(R, 0, f), e.as_adt(st, g[1]).f[1]))); continue
            r.append(g)
        return [('one', VAdt("tuple", 0, (parts(e, st, g[1])[3], e.as_adt(st, g[1]).f[1]))) if g[0] == 'one' else g for g in r]
    def den_diff(e, st, a, b):
        if explain(e, st, a, b) is None: return None
        if any(g[0] == 'sl' and g[1].k[0] == 'dedupby' for q in (a, b) for g in q.segs): raise Taint("dedup_by")
        st = st.copy(); canon(e, st, a, b)
        # one name for equal positions
        for _ in range(4):
            cs = [c for q in (a, b) for g in q.segs if g[0] == 'sl' for c in (g[2], g[3])]
            cs += [t.k[2] for q in (a, b) for g in q.segs if g[0] == 'one' for t in sorted(atoms_of(g[1], None, True), key=lambda t: t.id) if t.k[0] == 'elem']
            cs = list(dict.fromkeys(cs))
            m = next(({at: L(at) - (x - y).scale(k)} for x in cs for y0 in cs for y in (y0, y0 - 1, y0 - 2, y0 - 3) for d in [x - y] if d.const() is None and st.con.entails(eq(d, ZERO))
                      for at, k in d.t if k in (1, -1)), None)
            if m is None: break
            con = st.con.subst(m)
            if con is None: break
            st.con = con; a, b = subst(a, m), subst(b, m)
        x, y = canon(e, st, a, b), canon(e, st, b, a)
        # decide the neighbours both sides leave open
        for r in (x, y):
            for g, h in zip(r, r[1:]):
                if g[0] == 'one' and h[0] == 'one':
                    p, q = parts(e, st, g[1]), parts(e, st, h[1])
                    if eqv(e, st, p[2], q[2]) or e.decide(st, eq(p[2], q[2])): eqv(e, st, p[1] + 1, q[0]) or e.decide(st, eq(p[1] + 1, q[0]))
        x, y = canon(e, st, a, b), canon(e, st, b, a)
        return explain(e, st, VSeq(norm_segs(tuple(x), a.ety), a.ety), VSeq(norm_segs(tuple(y), a.ety), a.ety))
    # ---- new
    k0 = S.inherent(B, "new"); e = engine(); outs = S.run(e, k0, S.params(k0), [])
    def f(o):
        if panics(o): return "panics"
        return next(("does not start empty: %r" % (x,) for x in o.val.f if e.seq_len(x).const() != 0), None)
    S.judge(e, "new", k0, outs, f)
    def builder(e, key, tail=None):
        """an arbitrary builder; tail: number of transitions of the last state"""
        t = S.argty(e, key, 0)
        while t[0] == "ref": t = t[1]
        b = e.mk(e.sym("builder"), t); st = State(); b = e.as_adt(st, b)
        cs = [eq(e.seq_len(b.f[fs]), e.seq_len(b.f[fa]))]
        st.cells[BC] = b
        st, = st.assume(*cs)
        return b, st
    def same_but(e, st, v, b, but):
        if not isinstance(v, VAdt): return "%r" % (v,)
        for i in (fs, ft, fa):
            if i not in but:
                r = explain(e, st, v.f[i], b.f[i])
                if r: return "%s changed: %s" % ({fs: "the starts", ft: "the transitions", fa: "the accept symbols"}[i], r)
    def app(v, *x): return VSeq(norm_segs(tuple(v.segs) + tuple(('one', y) for y in x), v.ety), v.ety)
    # ---- transition, accept
    key, im = S.timpl(DB, isb, "transition"); e = engine(); b, st = builder(e, key)
    args = S.sym_args(e, key)
    outs = S.run(e, key, S.params(key), [VRef(BC)] + args[1:], st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        v = o.st.cells[BC]
        return same_but(e, o.st, v, b, (ft,)) or explain(e, o.st, v.f[ft], app(b.f[ft], VAdt("tuple", 0, (args[1], args[2]))))
    S.judge(e, "transition", key, outs, f)
    key, im = S.timpl(DB, isb, "accept"); e = engine(); b, st = builder(e, key); args = S.sym_args(e, key)
    st, = st.assume(ge(e.seq_len(b.f[fs]), ONE))
    outs = S.run(e, key, S.params(key), [VRef(BC)] + args[1:], st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        v = o.st.cells[BC]; n = e.seq_len(b.f[fa])
        r = same_but(e, o.st, v, b, (fa,))
        return r or explain(e, o.st, v.f[fa], app(e.seq_slice(o.st, b.f[fa], ZERO, n - 1), VAdt(OPTION, 1, (args[1],))))
    S.judge(e, "accept", key, outs, f)
    # ---- start_state / build
    def table(e, o, get, name, key, b, T, s, extra):
        """the new transitions against the old ones; s: start of the last state"""
    def closing(mname, result, finish):
        """a call that may join the transitions of the last state: start_state and build"""
        key, im = S.timpl(DB, isb, mname)
        def go(m):
            """m: transitions of the last state (None: any number; "none": no state yet; (j, m): two states with j and m transitions)"""
            e = engine()
            if isinstance(m, int): e.unroll = m + 2
            if isinstance(m, tuple):
                e.unroll = sum(m) + 2; b, st = builder(e, key); s = L(m[0]); tn = L(sum(m)); TB = b.f[ft].segs[0][1]; f = list(b.f)
                T = f[ft] = VSeq(tuple(('one', e.mk(values.elem_atom(TB, L(i)), b.f[ft].ety)) for i in range(sum(m))), b.f[ft].ety)
                f[fs] = VSeq((('one', VInt(ZERO, USIZE)), ('one', VInt(s, USIZE))), b.f[fs].ety)
                f[fa] = VSeq(tuple(('one', e.mk(values.elem_atom(b.f[fa].segs[0][1], L(i)), b.f[fa].ety)) for i in range(2)), b.f[fa].ety)
                b = VAdt(B, 0, f); st.cells[BC] = b
                return e, b, T, s, tn, S.run(e, key, S.params(key), [VRef(BC)] if mname == "start_state" else [b], st)
            b, st = builder(e, key)
            n = e.seq_len(b.f[fs]); T = b.f[ft]; tn = e.seq_len(T)
            if m == "none": st, = st.assume(eq(n, ZERO), eq(tn, ZERO)); s = tn
            else:
                st, = st.assume(ge(n, ONE))
                s = e.seq_get(st, b.f[fs], n - 1).l
                st, = st.assume(ge(s, ZERO), le(s, tn), *([eq(tn, s + m)] if isinstance(m, int) else []))
                if isinstance(m, int):
                    # spelled out so that the loop is followed
                    T = VSeq((('sl', T.segs[0][1], ZERO, s),) + tuple(('one', e.mk(values.elem_atom(T.segs[0][1], s + j), T.ety)) for j in range(m)), T.ety)
                    f = list(b.f); f[ft] = T; b = VAdt(B, 0, f); st.cells[BC] = b
            return e, b, T, s, tn, S.run(e, key, S.params(key), [VRef(BC)] if mname == "start_state" else [b], st)
        def others(e, o, b, nt):
            return finish(e, o, result(e, o), b, nt)
        # nothing started yet; few transitions
        for m in (["none"] if mname == "start_state" else []) + list(range(8 if S.tier == "thorough" else 6)) + [(1, 1), (2, 2)]:
            e, b, T, s, tn, outs = go(m)
            def f(o):
                if panics(o): return "panics: %s" % o.msg
                v = result(e, o)
                if o.st.facts: raise Taint("loop not followed")
                if m == "none": return explain(e, o.st, v.f[ft], T) or others(e, o, b, tn)
                nt = v.f[ft]; ln = e.seq_len(nt)
                if not e.decide(o.st, ge(ln, s)): return "transitions of an earlier state are lost"
                r = explain(e, o.st, e.seq_slice(o.st, nt, ZERO, s), e.seq_slice(o.st, T, ZERO, s))
                if r: return "transitions of an earlier state changed: %s" % r
                r = den_diff(e, o.st, e.seq_slice(o.st, nt, s, ln), e.seq_slice(o.st, T, s, tn))
                return ("the transitions of the state changed: %s" % r) if r else others(e, o, b, ln)
            S.judge(e, "%s: %s" % (mname, "first state" if m == "none" else "%d transitions" % m if isinstance(m, int) else "states with %d and %d transitions" % m), key, outs, f)
        # any number
        e, b, T, s, tn, outs = go(None)
        steps = []; why = []
        for o in outs:
            if panics(o): continue
            v = result(e, o); nt = v.f[ft]
            lvs = [g for g in nt.segs if g[0] == 'sl' and g[1].k[0] == 'lv']
            if not lvs: continue
            if len(lvs) != 1 or nt.segs[-1] != lvs[0]: why.append("the new table is %r" % (nt,)); continue
            steps.append((o, nt, lvs[0]))
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            v = result(e, o); nt = v.f[ft]; ln = e.seq_len(nt)
            r = others(e, o, b, ln)
            if r: return r
            if any(o is x[0] or o.st.facts and x[0].st.facts == o.st.facts for x in steps): return None
            if why: raise Taint(why[0])
            if not e.decide(o.st, ge(ln, s)): return "transitions of an earlier state are lost"
            r = explain(e, o.st, e.seq_slice(o.st, nt, ZERO, s), e.seq_slice(o.st, T, ZERO, s))
            if r: return "transitions of an earlier state changed: %s" % r
            r = den_diff(e, o.st, e.seq_slice(o.st, nt, s, ln), e.seq_slice(o.st, T, s, tn))
            if r: return "the transitions of the state changed: %s" % r
        S.judge(e, "%s: any number of transitions" % mname, key, outs, f, facts_ok=True)
        strict = all(len(x[1].segs) and x[2][2].const() == 0 and x[0].st.con.entails(eq(x[2][3], L(atom('len', x[2][1], nonneg=True)))) for x in steps)
        for o, nt, g in steps: induct(e, mname, key, o, nt, g, T, s, tn, strict)
    def induct(e, mname, key, o, nt, g, T, s, tn, strict):
        name = "%s: every step of the merging loop" % mname
        a = g[1]; loc = a.k[2]
        rs = [r for r in rec.recs(e, o) if loc in r.locs and r.q.tag == a.k[1]]
        if len(rs) != 1 or loc not in rs[0].zero or len(rs[0].locs[loc]) != len(rs[0].cases): S.unknown(name, S.where(key), "the loop was not recognised"); return
        r = rs[0]; V0 = r.zero[loc]; st = o.st
        # what of the table the loop value covers at the start: T[p0..p1)
        if not V0.segs: p0 = p1 = s if len(nt.segs) > 1 else ZERO
        elif len(V0.segs) == 1 and V0.segs[0][0] == 'sl' and V0.segs[0][1] is T.segs[0][1]: p0, p1 = V0.segs[0][2], V0.segs[0][3]
        else:
            x = values.as_elem(V0.segs[0][1], T.ety) if len(V0.segs) == 1 and V0.segs[0][0] == 'one' else None
            if not x or x[0] is not T.segs[0][1]: S.unknown(name, S.where(key), "the loop starts from %r" % (V0,)); return
            p0, p1 = x[1], x[1] + 1
        whole = st.con.entails(eq(p1, tn))
        if st.con.entails(eq(p0, ZERO)): off = s
        elif st.con.entails(eq(p0, s)): off = ZERO
        else: S.unknown(name, S.where(key), "the loop starts from %r" % (V0,)); return
        # the end: everything is covered, and the result is what the loop left
        if not whole and not st.con.entails(eq(p1 + r.n, tn)): S.unknown(name, S.where(key), "the loop does not cover the table"); return
        head = VSeq(nt.segs[:-1], T.ety)
        if explain(e, st, head, VSeq((), T.ety) if off is s else VSeq((('sl', T.segs[0][1], ZERO, s),), T.ety)) and not (st.con.entails(eq(s, ZERO)) and not head.segs): S.unknown(name, S.where(key), "the new table is %r" % (nt,)); return
        if not (g[2].const() == 0 and st.con.entails(eq(g[3], L(atom('len', a, nonneg=True))))): S.unknown(name, S.where(key), "the new table is %r" % (nt,)); return
        ak = r.at(loc, r.K); lk = L(atom('len', ak, nonneg=True)); VK = VSeq((('sl', ak, ZERO, lk),), T.ety)
        todo = []; 
        def rest(k): return () if whole else (('sl', T.segs[0][1], p1 + k, tn),)
        outs = []; moved = [False]
        for x, after in r.steps():
            for y in x.assume(ge(lk, ZERO)):
                outs.append(Out('ret', y, after[loc]))
        res = []
        def f(o2):
            y = o2.st; V1 = o2.val
            if V1 == VK: return None
            if not entails(y, ge(lk, off)): 
                for z in y.assume(lt(lk, off)): raise Taint("the loop value may be shorter than the earlier states")
            l1 = e.seq_len(V1)
            rr = None
            if not e.decide(y, ge(l1, off)): rr = "transitions of an earlier state are lost"
            else:
                rr = explain(e, y, e.seq_slice(y, V1, ZERO, off), e.seq_slice(y, VK, ZERO, off))
                if rr: rr = "transitions of an earlier state change: %s" % rr
                else:
                    A = VSeq(norm_segs(tuple(e.seq_slice(y, V1, off, l1).segs) + rest(r.K + 1), T.ety), T.ety); C = VSeq(norm_segs(tuple(e.seq_slice(y, VK, off, lk).segs) + rest(r.K), T.ety), T.ety)
                    rr = den_diff(e, y, A, C)
                    if rr: rr = "one step of the loop changes the transitions of the state: %s" % rr
            if not rr: moved[0] = True
            res.append(rr); return rr
        # a step that does something must be explained before the others are judged by the same reading of the loop
        probe = []; work = list(outs); n = 0
        while work and n < 400:
            o2 = work.pop(); n += 1
            try: f(o2)
            except Fork as fk:
                for c in fk.conds:
                    for con in o2.st.con.assume(c): z = o2.st.copy(); z.con = con; work.append(Out(o2.kind, z, o2.val))
            except (Taint, Stop): pass
        # a failing step refutes the loop only if the loop's state is the table and one position
        if any(res) and not (moved[0] and strict and len(rs[0].locs) <= 2): S.unknown(name, S.where(key), "the steps of the loop were not recognised: %s" % [x for x in res if x][0]); return
        S.judge(e, name, key, outs, f, facts_ok=True)
    def fin_start(e, o, v, b, ln):
        st = o.st
        return explain(e, st, v.f[fs], app(b.f[fs], VInt(ln, USIZE))) or explain(e, st, v.f[fa], app(b.f[fa], VAdt(OPTION, 0, ())))
    closing("start_state", lambda e, o: o.st.cells[BC], fin_start)
    def res_build(e, o):
        f = [None] * 3; f[fs], f[ft], f[fa] = o.val.f[ds], o.val.f[dt], o.val.f[da]; return VAdt(B, 0, f)
    closing("build", res_build, lambda e, o, v, b, ln: explain(e, o.st, v.f[fs], app(b.f[fs], VInt(ln, USIZE))) or explain(e, o.st, v.f[fa], b.f[fa]))
    # ---- queries
    isd = lambda t: t[0] == "adt" and t[1] == D
    def machine(e, key):
        t = S.argty(e, key, 0)
        while t[0] == "ref": t = t[1]
        st = State(); d = e.as_adt(st, e.mk(e.sym("machine"), t)); DC = ('l', 0, 'machine'); st.cells[DC] = d
        n = e.seq_len(d.f[ds]); st, = st.assume(ge(n, ONE), eq(n, e.seq_len(d.f[da]) + 1), le(n, L(1 << 31)))
        return d, st, VRef(DC), n
    key, im = S.timpl(SM, isd, "count_states"); e = engine(); d, st, ref, n = machine(e, key)
    outs = S.run(e, key, S.params(key), [ref], st)
    S.judge(e, "count_states", key, outs, lambda o: "panics: %s" % o.msg if panics(o) else (None if entails(o.st, eq(o.val.l, n - 1)) else "answers %r" % (o.val,)))
    key, im = S.timpl(SM, isd, "get_transitions_for_state"); e = engine(); d, st, ref, n = machine(e, key)
    j = L(atom('sym', 'j', nonneg=True)); st, = st.assume(lt(j, n - 1))
    a0, a1 = e.seq_get(st, d.f[ds], j).l, e.seq_get(st, d.f[ds], j + 1).l
    st, = st.assume(ge(a0, ZERO), le(a0, a1), le(a1, e.seq_len(d.f[dt])))
    outs = S.run(e, key, S.params(key), [ref, VInt(j, ("int", "u32"))], st)
    S.judge(e, "get_transitions_for_state", key, outs, lambda o: "panics: %s" % o.msg if panics(o) else den_diff(e, o.st, o.val, e.seq_slice(o.st, d.f[dt], a0, a1)))
    for m in ("output_symbol_for_state", "output_symbols_for_state"):
        key, im = S.timpl(SM, isd, m); e = engine(); d, st, ref, n = machine(e, S.timpl(SM, isd, "output_symbol_for_state")[0])
        st, = st.assume(lt(j, n - 1)); targs = S.params(key) if m in im["itemmap"] else tuple(im["targs"])
        outs = S.run(e, key, targs, [ref, VInt(j, ("int", "u32"))], st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            w = e.seq_get(o.st, d.f[da], j)
            def val(x): 
                while isinstance(x, VRef): x = e.read(o.st, x.cell, x.path)
                return x
            if m == "output_symbols_for_state":
                n = e.seq_len(o.val)
                if e.variant(o.st, w) == 0: return None if entails(o.st, eq(n, ZERO)) else "answers %r" % (o.val,)
                if not entails(o.st, eq(n, ONE)): return "answers %r" % (o.val,)
                return explain(e, o.st, val(e.seq_get(o.st, o.val, ZERO)), e.as_adt(o.st, w).f[0])
            if e.variant(o.st, w) != e.variant(o.st, o.val): return "answers %r" % (o.val,)
            if e.variant(o.st, w) == 1: return explain(e, o.st, val(e.as_adt(o.st, o.val).f[0]), e.as_adt(o.st, w).f[0])
        S.judge(e, m, key, outs, f)
