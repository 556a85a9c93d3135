"""C12: running a SymbolRangeDfa."""
from engine.spec import *
LEVEL = "proof"
RULE = ("For an arbitrary table (well formed: offsets ascending and within the transition list, targets existing states, ranges not reversed) and an arbitrary running state and symbol, every path of start, next and finish must "
        "be entailed to give: the target of a transition of the current state whose range contains the symbol, count+1, and the remembered match updated exactly when the new state accepts; or, only when no transition of the state "
        "contains the symbol (shown from the facts the search loop leaves for every index), the remembered match or a rejection. No path may panic.")
NOTE = "All tables, states and symbols. Assumes a well-formed table (C11), disjoint ranges per state, rustc MIR and the engine's library models."

def check(S, ordered=False):
    """ordered: the transitions of a state are known to be in ascending order and disjoint"""
    D = S.adt("symbol_range_dfa::SymbolRangeDfa"); R = S.adt("symbol_range_dfa::SymbolRangeState"); MA = S.adt("pattern_matcher::MatchAction"); SR = S.adt("symbol_range::SymbolRange")
    fs, ft, fa = S.field(D, "states"), S.field(D, "transitions"), S.field(D, "accept")
    rs, rc, ra, rm = [S.field(R, n) for n in ("state", "count", "accept", "state_machine")]
    lo, hi = S.field(SR, "lowest"), S.field(SR, "highest")
    REJ, ACC, MORE = [S.variant(MA, n) for n in ("Reject", "Accept", "More")]
    def parts(e, st, dfa): v = e.as_adt(st, e.read(st, dfa.cell, dfa.path)); return v.f[fs], v.f[ft], v.f[fa]
    slice_ = [None]
    def setup(e, st, dfa):
        """assumptions about the table: returns (state, axioms)"""
        states, trans, acc = parts(e, st, dfa)
        n = e.seq_len(acc)
        def at(x): return nth(e, states, x).l
        ta = trans.segs[0][1]
        def ax(a, con):
            # a transition's target exists and its range is not reversed
            if a.k[0] == 'elem' and a.k[1] is ta:
                t = e.mk(a, trans.ety)
                r = t.f[0]
                cs = [lt(t.f[1].l, n), le(r.f[lo].l, r.f[hi].l)]
                for b in prove.all_atoms(con) if ordered and slice_[0] else ():
                    if b.k[0] == 'elem' and b.k[1] is ta and b is not a:
                        i, j = L(a.k[2]), L(b.k[2]); q = e.mk(b, trans.ety).f[0]
                        inside = [lt(x, slice_[0][0]) for x in (i, j)] + [ge(x, slice_[0][1]) for x in (i, j)]
                        cs.append(disj(inside + [conj([lt(i, j), lt(r.f[hi].l, q.f[lo].l)]), conj([lt(j, i), lt(q.f[hi].l, r.f[lo].l)]), conj([eq(i, j), eq(r.f[lo].l, q.f[lo].l), eq(r.f[hi].l, q.f[hi].l)])]))
                return conj(cs)
        return states, trans, acc, n, at, ax, ta
    def state_is(e, o, v, dfa):
        """an accept field as (kind, len, symbol)"""
    # ---- start
    key = S.inherent(D, "start"); e = S.engine(); args = S.sym_args(e, key); st = State(); dfa = args[0]
    states, trans, acc, n, at, ax, ta = setup(e, st, dfa)
    sts = st.assume(ge(n, ONE), eq(e.seq_len(states), n + 1))
    outs = [o for s0 in sts for o in S.run(e, key, S.params(key), args, s0)]
    def accept_of(e, st, acc, i): return nth(e, acc, i)
    def check_state(e, o, v, state, count, dfa, want):
        """v is SymbolRangeState{state,count,accept: want,dfa}; want(av) -> message"""
        if not isinstance(v, VAdt) or v.k != R: return "result %r" % (v,)
        if state is not None and not entails(o.st, eq(v.f[rs].l, state)): return "the new state is %r, expected %s" % (v.f[rs], show(state))
        if not entails(o.st, eq(v.f[rc].l, count)): return "the symbol count is %r, expected %s" % (v.f[rc], show(count))
        if not same(e, o.st, v.f[rm], dfa) : return "the new state runs another machine"
        return want(v.f[ra])
    def is_match(e, o, av, length, outv):
        if e.variant(o.st, av) != 1: return "nothing is remembered although the new state accepts"
        t = e.as_adt(o.st, av).f[0]; t = e.as_adt(o.st, t)
        if not entails(o.st, eq(t.f[0].l, length)): return "the remembered length is %r, expected %s" % (t.f[0], show(length))
        s = e.read(o.st, t.f[1].cell, t.f[1].path)
        if not same(e, o.st, s, outv): return "the remembered output is %r, expected that of the new state" % (s,)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        if e.variant(o.st, o.val) != MORE: return "does not start running"
        a0 = accept_of(e, o.st, acc, ZERO); ac = e.variant(o.st, a0)
        def want(av):
            if ac == 0: return None if e.variant(o.st, av) == 0 else "remembers a match although the start state does not accept"
            return is_match(e, o, av, ZERO, e.as_adt(o.st, a0).f[0])
        return check_state(e, o, e.as_adt(o.st, o.val).f[0], ZERO, ZERO, dfa, want)
    S.judge(e, "start", key, outs, f)
    # ---- next / finish
    MS = CRATE + "pattern_matcher::MatchingState"
    isr = lambda t: t[0] == "adt" and t[1] == R
    def decision(e, o, v, old):
        """v is the remembered match `old` or a rejection if there is none"""
        i = e.variant(o.st, v); k = e.variant(o.st, old)
        if k == 0: return None if i == REJ else "does not reject although nothing was matched"
        if i != ACC: return "does not return the remembered match"
        v = e.as_adt(o.st, v); t = e.as_adt(o.st, e.as_adt(o.st, old).f[0])
        if not entails(o.st, eq(v.f[0].l, t.f[0].l)): return "accepts %r symbols, expected the remembered length %r" % (v.f[0], t.f[0])
        a = e.read(o.st, v.f[1].cell, v.f[1].path); b = e.read(o.st, t.f[1].cell, t.f[1].path)
        if not same(e, o.st, a, b): return "accepts with another output symbol than the remembered one"
    for m in ("next", "finish"):
        key, im = S.timpl(MS, isr, m)
        e = S.engine(); args = S.sym_args(e, key); st = State(); me = e.as_adt(st, args[0]); dfa = me.f[rm]
        states, trans, acc, n, at, ax, ta = setup(e, st, dfa)
        s = me.f[rs].l; slice_[0] = (at(s), at(s + 1))
        sts = st.assume(ge(s, ZERO), lt(s, n), eq(e.seq_len(states), n + 1))
        sts = [y for x in sts for y in x.assume(le(at(s), at(s + 1)), le(at(s + 1), e.seq_len(trans)), ge(at(s), ZERO))]
        outs = [o for s0 in sts for o in S.run(e, key, S.params(key), args, s0)]
        sym = args[1].l if m == "next" else None
        def f(o):
            if panics(o):
                return None if prove.refute(o.st, axioms=[ax]) else "panics: %s" % o.msg
            i = e.variant(o.st, o.val)
            if i == MORE:
                if m == "finish": return "asks for more symbols at the end of the input"
                v = e.as_adt(o.st, e.as_adt(o.st, o.val).f[0])
                t = v.f[rs].l.single() if isinstance(v.f[rs], VInt) else None
                if t is None or not (t.k[0] == 'fld' and t.k[1].k[0] == 'elem' and t.k[1].k[1] is ta): return "the new state is %r, which is not the target of a transition" % (v.f[rs],)
                j = L(t.k[1].k[2]); tr = e.mk(t.k[1], trans.ety)
                if not same(e, o.st, v.f[rs], tr.f[1]): return "the new state is not the target of the transition"
                if not prove.proves(o.st, conj([ge(j, at(s)), lt(j, at(s + 1))]), axioms=[ax]): return "follows transition %s, which may belong to another state" % show(j)
                if not prove.proves(o.st, conj([le(tr.f[0].f[lo].l, sym), le(sym, tr.f[0].f[hi].l)]), axioms=[ax]): return "follows transition %s whose range need not contain the symbol" % show(j)
                a1 = accept_of(e, o.st, acc, tr.f[1].l); ac = e.variant(o.st, a1)
                def want(av):
                    if ac == 0: return None if same(e, o.st, av, me.f[ra]) else "the remembered match is %r although the new state does not accept" % (av,)
                    return is_match(e, o, av, me.f[rc].l + 1, e.as_adt(o.st, a1).f[0])
                return check_state(e, o, v, None, me.f[rc].l + 1, dfa, want)
            if m == "next":
                # stopping needs that no transition contains the symbol
                j = L(e.fresh("j", nonneg=True)); tr = nth(e, trans, j)
                cs = [ge(j, at(s)), lt(j, at(s + 1)), le(tr.f[0].f[lo].l, sym), le(sym, tr.f[0].f[hi].l)]
                for x in o.st.assume(*cs):
                    if not prove.refute(x, axioms=[ax]): return "stops although transition j of the state may contain the symbol"
            return decision(e, o, o.val, me.f[ra])
        S.judge(e, m, key, outs, f, facts_ok=True)
    key, im = S.timpl("core::clone::Clone", isr, "clone"); e = S.engine(); args = S.sym_args(e, key)
    outs = S.run(e, key, S.params(key), args)
    S.judge(e, "clone", key, outs, lambda o: "panics" if panics(o) else explain(e, o.st, o.val, e.as_adt(o.st, deref(e, o, args[0]))))
