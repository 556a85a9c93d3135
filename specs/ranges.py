"""Maps of symbol ranges: an ascending list of distinct ranges over an ordered type embedded in the integers."""
from engine.spec import *
from engine.prove import refute, all_atoms

class Ranges:
    def __init__(s, S):
        s.S = S; s.M = S.adt("overlapping_symbols::SymbolMap"); s.R = S.adt("symbol_range::SymbolRange")
        s.fr = S.field(s.M, "ranges"); s.lo, s.hi = S.field(s.R, "lowest"), S.field(s.R, "highest")
        if len(S.P.adts[s.M]["variants"][0][2]) != 1: raise Missing("the map has other fields")
        s.MC = ('l', 0, 'map'); s.RC = ('l', 0, 'range')
    def engine(s, small=False):
        e = s.S.engine(); e.hooks.append(countable_hook())
        if small: e.small = 12; e.unroll = 40; e.fan = 4000
        return e
    def strip(s, t):
        while t[0] == "ref": t = t[1]
        return t
    def ends(s, e, st, v):
        while isinstance(v, VRef): v = e.read(st, v.cell, v.path)
        v = e.as_adt(st, v); return v.f[s.lo].l, v.f[s.hi].l
    def less(s, a, b): return disj([lt(a[0], b[0]), conj([eq(a[0], b[0]), lt(a[1], b[1])])])
    def equal(s, a, b): return conj([eq(a[0], b[0]), eq(a[1], b[1])])
    def overlap(s, a, b): return conj([le(a[0], b[1]), le(b[0], a[1])])
    def holds(s, st, c): return c is True or not st.assume(neg(c))
    def map(s, e, ty, n=None):
        """(state, ends of element j): an arbitrary map, or one of n ranges"""
        st = State(); m = e.as_adt(st, e.mk(e.sym("map"), ty)); q = m.f[s.fr]; base = q.segs[0][1]
        el = lambda j: s.ends(e, st, e.mk(values.elem_atom(base, L(j)), q.ety))
        s.base, s.ety = base, q.ety
        if n is not None:
            q = VSeq(tuple(('one', e.mk(values.elem_atom(base, L(j)), q.ety)) for j in range(n)), q.ety)
            m = VAdt(m.k, 0, [q if i == s.fr else x for i, x in enumerate(m.f)])
        st.cells[s.MC] = m
        sts = [st]
        if n is not None:
            for j in range(n): sts = [y for x in sts for y in x.assume(le(*el(j)))]
            for j in range(n - 1): sts = [y for x in sts for y in x.assume(s.less(el(j), el(j + 1)))]
        return sts, q, el
    def axiom(s, el):
        """the elements of an arbitrary map are valid and ascend"""
        def idx(con):
            r = {}
            for a in all_atoms(con):
                if a.k[0] == 'elem' and a.k[1] is s.base: r.setdefault(a.k[2])
            return list(r)
        def ax(a, con):
            if a.k[0] != 'elem' or a.k[1] is not s.base: return None
            i = a.k[2]; x = el(i); cs = [le(*x)]
            for j in idx(con):
                if j == i: continue
                y = el(j); d = (j - i).const()
                if d is not None: cs.append(s.less(x, y) if d > 0 else s.less(y, x))
                else: cs.append(disj([conj([lt(i, j), s.less(x, y)]), conj([lt(j, i), s.less(y, x)]), conj([eq(i, j), s.equal(x, y)])]))
            return conj(cs)
        return ax
    def proved(s, st, c, el, depth=4):
        for con in st.con.assume(neg(c)):
            x = st.copy(); x.con = con
            if not refute(x, depth, axioms=(s.axiom(el),)): return False
        return True
