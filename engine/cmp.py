"""Entailed equality of abstract values: both sides are rewritten under the path's constraints; sequences are aligned
segment by segment, comprehensions by renaming their index to a common one."""
from .lin import *
from .values import *
from . import values

class Budget(Exception): pass

class Cmp:
    def __init__(s, eng, con, facts=(), splits=60):
        s.eng = eng; s.con = con; s.n = [splits]; s.facts = facts; s.why = None
    def sub(s, con):
        r = Cmp(s.eng, con, s.facts); r.n = s.n; return r
    def split(s, c, f):
        """f(Cmp) on both sides of c"""
        s.n[0] -= 1
        if s.n[0] < 0: return False
        for cc in (c, neg(c)):
            for con in s.con.assume(cc):
                x = s.sub(con)
                if not f(x): s.why = s.why or x.why; return False
        return True
    # ---- integers and atoms
    def ints(s, a, b):
        a, b = L(a), L(b)
        if a == b or s.con.entails(eq(a, b)): return True
        # congruence: replace atoms equal up to entailed arguments
        da, db = dict(a.t), dict(b.t)
        m = {}
        for x in list(da):
            if x in db: continue
            for y in db:
                if y in da or y in m.values(): continue
                if s.atoms(x, y): m[x] = L(y); break
        if m:
            a2 = L(a.c)
            for x, k in a.t: a2 = a2 + m.get(x, L(x)).scale(k)
            if a2 == b or s.con.entails(eq(a2, b)): return True
        return False
    def atoms(s, a, b):
        if a is b: return True
        if not isinstance(a, Atom) or not isinstance(b, Atom): return False
        if s.con.entails(eq(L(a), L(b))): return True
        if a.k[0] != b.k[0] or len(a.k) != len(b.k) or a.k[0] in ('v', 'sym'): return False
        return all(s.any(x, y) for x, y in zip(a.k, b.k))
    def any(s, x, y):
        if x is y: return True
        if isinstance(x, (Lin, int)) and isinstance(y, (Lin, int)) and not isinstance(x, bool): return s.ints(x, y)
        if isinstance(x, Atom): return s.atoms(x, y)
        if isinstance(x, V): return isinstance(y, V) and s.vals(x, y)
        if isinstance(x, tuple): return isinstance(y, tuple) and len(x) == len(y) and all(s.any(p, q) for p, q in zip(x, y))
        return x == y
    # ---- values
    def vals(s, a, b):
        if a is b or a == b: return True
        if isinstance(a, VUndef) or isinstance(b, VUndef): return False
        if isinstance(a, VInt) and isinstance(b, VInt): return s.ints(a.l, b.l)
        if isinstance(a, VBool) and isinstance(b, VBool): return s.conds(a.c, b.c)
        if isinstance(a, VBox) and isinstance(b, VBox): return s.vals(a.v, b.v)
        if isinstance(a, VSym) and isinstance(b, VSym):
            if s.atoms(a.t, b.t): return True
        if isinstance(a, (VAdt, VSym)) and isinstance(b, (VAdt, VSym)):
            if isinstance(a, VAdt) and isinstance(b, VAdt):
                if a.k != b.k or a.v != b.v or len(a.f) != len(b.f): return False
                return all(s.vals(x, y) for x, y in zip(a.f, b.f))
            if isinstance(a, VSym): a, b = b, a
            if isinstance(a, VSym): return False
            # b symbolic
            if not s.eng.ty_is_enum(b.ty): return False
            x = s.con.var.get(b.t)
            if isinstance(x, int):
                return x == a.v and s.vals(a, s.eng.expand(b, x))
            if x is None and len(s.eng.P.adts[b.ty[1]]["variants"]) == 1: return s.vals(a, s.eng.expand(b, 0))
            ok = not s.con.assume(('var', b.t, a.v, False))
            return ok and s.vals(a, s.eng.expand(b, a.v))
        if isinstance(a, VSeq) and isinstance(b, VSeq): return s.seqs(a, b)
        if isinstance(a, VMap) and isinstance(b, VMap):
            if a.base is not b.base and not (a.base is not None and b.base is not None and s.atoms(a.base, b.base)): return False
            return s.seqs(a.writes, b.writes)
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.cell == b.cell or s.any(a.cell, b.cell):
                if s.any(a.path, b.path): return True
            return False
        if isinstance(a, VClo) and isinstance(b, VClo): return a.k == b.k and all(s.vals(x, y) for x, y in zip(a.up, b.up))
        return False
    def conds(s, a, b):
        if a == b: return True
        if isinstance(a, bool) and isinstance(b, bool): return False
        if isinstance(a, bool): a, b = b, a
        if isinstance(b, bool): return s.ent(a if b else neg(a))
        # both ways
        for con in s.con.assume(a):
            if not s.sub(con).ent(b): return False
        for con in s.con.assume(neg(a)):
            if not s.sub(con).ent(neg(b)): return False
        return True
    def ent(s, c): return c is True or (c is not False and s.con.entails(c))
    # ---- sequences
    def seqs(s, a, b):
        try: return s.segl(tuple(a.segs), tuple(b.segs), a.ety)
        except Budget: return False
    def first(s, g, ety):
        """(first element, rest) of a segment known to be non-empty"""
        k = g[0]
        if k == 'one': return g[1], ()
        if k == 'sl': return s.eng.mk(values.elem_atom(g[1], g[2]), ety), (('sl', g[1], g[2] + 1, g[3]),)
        if k == 'rsl': return s.eng.mk(values.elem_atom(g[1], g[3] - 1), ety), (('rsl', g[1], g[2], g[3] - 1),)
        if k == 'rep': return g[1], (('rep', g[1], g[2] - 1),)
        return None
    def segl(s, a, b, ety):
        while True:
            if a and s.empty(a[0]): a = a[1:]; continue
            if b and s.empty(b[0]): b = b[1:]; continue
            break
        if not a and not b: return True
        if not a or not b:
            r = (a or b)[0]
            n = s.eng.seg_len(r)
            # a remaining segment must be empty
            s.why = "one sequence has extra %s" % values.show_seg(r)
            return False
        x, y = a[0], b[0]
        if x == y: return s.segl(a[1:], b[1:], ety)
        if x[0] == 'one' and y[0] == 'one':
            if not s.vals(x[1], y[1]): s.why = s.why or "%r is not %r" % (x[1], y[1]); return False
            return s.segl(a[1:], b[1:], ety)
        if x[0] == 'comp' or y[0] == 'comp': return s.comps(a, b, ety)
        if x[0] in ('sl', 'rsl', 'rep') and y[0] == x[0]:
            nx, ny = s.eng.seg_len(x), s.eng.seg_len(y)
            same = s.atoms(x[1], y[1]) if x[0] != 'rep' else s.vals(x[1], y[1])
            if same and (x[0] == 'rep' or s.ints(x[2], y[2]) if x[0] != 'rsl' else s.ints(x[3], y[3])):
                if s.ints(nx, ny): return s.segl(a[1:], b[1:], ety)
                if s.con.entails(le(nx, ny)): return s.segl(a[1:], (s.drop(y, nx),) + b[1:], ety)
                if s.con.entails(le(ny, nx)): return s.segl((s.drop(x, ny),) + a[1:], b[1:], ety)
                return s.split(le(nx, ny), lambda c: c.segl(a, b, ety))
            if x[0] == 'rsl' or True:
                # different content: equal only if one is empty
                for g in (x, y):
                    n = s.eng.seg_len(g)
                    if s.con.assume(eq(n, ZERO)) and s.n[0] > 0:
                        return s.split(eq(n, ZERO), lambda c: c.segl(a, b, ety))
                if nx.const() is not None and nx.const() <= 8 or ny.const() is not None and ny.const() <= 8 or nx.const() == 1 or ny.const() == 1: pass
                else:
                    s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
        # element by element
        for g in (x, y):
            n = s.eng.seg_len(g)
            if not s.con.entails(ge(n, ONE)): return s.split(eq(n, ZERO), lambda c: c.segl(a, b, ety))
        fx, fy = s.first(x, ety), s.first(y, ety)
        if fx is None or fy is None: s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
        if not s.vals(fx[0], fy[0]): s.why = s.why or "%r is not %r" % (fx[0], fy[0]); return False
        s.n[0] -= 1
        if s.n[0] < 0: return False
        return s.segl(fx[1] + a[1:], fy[1] + b[1:], ety)
    def empty(s, g):
        n = s.eng.seg_len(g)
        return n.const() == 0 or (n.const() is None and s.con.entails(le(n, ZERO)))
    def drop(s, g, n):
        if g[0] == 'sl': return ('sl', g[1], g[2] + n, g[3])
        if g[0] == 'rsl': return ('rsl', g[1], g[2], g[3] - n)
        if g[0] == 'rep': return ('rep', g[1], g[2] - n)
        raise Budget()
    def as_comp(s, g, n, ety):
        """n leading elements of g as a function of the index 0 <= j < n"""
        if g[0] == 'comp':
            if g[4] and all(s.eng.segs_len1(gs) for _, gs in g[4]): return lambda j: [(tuple(subst(c, {g[1]: g[2] + j}, {}) for c in cs), tuple(subst_seg(h, {g[1]: g[2] + j}, {}) for h in gs)) for cs, gs in g[4]]
            return None
        if g[0] == 'sl': return lambda j: [((), (('one', s.eng.mk(values.elem_atom(g[1], g[2] + j), ety)),))]
        if g[0] == 'rsl': return lambda j: [((), (('one', s.eng.mk(values.elem_atom(g[1], g[3] - 1 - j), ety)),))]
        if g[0] == 'rep': return lambda j: [((), (('one', g[1]),))]
        return None
    def comps(s, a, b, ety):
        x, y = a[0], b[0]
        # whole against whole over the same number of rounds
        if x[0] == 'comp' and y[0] == 'comp' and s.ints(x[3] - x[2], y[3] - y[2]):
            j = s.eng.fresh("j", nonneg=True); J = L(j)
            cons = s.con.assume(lt(J, x[3] - x[2]))
            def at(g): return [(tuple(subst(c, {g[1]: g[2] + J}, {}) for c in cs), tuple(subst_seg(h, {g[1]: g[2] + J}, {}) for h in gs)) for cs, gs in g[4]]
            cons = s.known((x, y), J, cons)
            if all(s.sub(c).cases(at(x), at(y), ety) for c in cons): return s.segl(a[1:], b[1:], ety)
            if not (all(s.eng.segs_len1(gs) for _, gs in x[4]) and all(s.eng.segs_len1(gs) for _, gs in y[4])):
                s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
        nx, ny = s.eng.seg_len(x), s.eng.seg_len(y)
        fx, fy = s.as_comp(x, nx, ety), s.as_comp(y, ny, ety)
        if x[0] == 'one' or y[0] == 'one':
            o, g, f = (x, y, fy) if x[0] == 'one' else (y, x, fx)
            if f is None: s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
            if not s.con.entails(ge(s.eng.seg_len(g), ONE)):
                return s.split(eq(s.eng.seg_len(g), ZERO), lambda c: c.segl(a, b, ety))
            if not s.cases(f(ZERO), [((), (o,))], ety): s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
            rest = s.cdrop(g, ONE)
            if o is x: return s.segl(a[1:], rest + b[1:], ety)
            return s.segl(rest + a[1:], b[1:], ety)
        if fx is None or fy is None: s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
        if s.ints(nx, ny): m = nx
        elif s.con.entails(le(nx, ny)): m = nx
        elif s.con.entails(le(ny, nx)): m = ny
        else: return s.split(le(nx, ny), lambda c: c.segl(a, b, ety))
        j = s.eng.fresh("j", nonneg=True); J = L(j)
        for c in s.con.assume(lt(J, m)):
            if not s.sub(c).cases(fx(J), fy(J), ety): s.why = "%s is not %s" % (values.show_seg(x), values.show_seg(y)); return False
        ra = () if s.ints(nx, m) else s.cdrop(x, m)
        rb = () if s.ints(ny, m) else s.cdrop(y, m)
        return s.segl(ra + a[1:], rb + b[1:], ety)
    def known(s, gs, J, cons):
        """what the summaries of the loops that built the comprehensions say about round J (the conditions common to all their paths)"""
        for g in gs:
            for f in s.facts:
                if f.k is not g[1] or not f.cases or not s.con.entails(conj([le(f.lo, g[2]), le(g[3], f.hi)])): continue
                cs = [c for c in f.cases[0][0] if all(c in o for o, _ in f.cases[1:])]
                for c in cs:
                    c = subst(c, {g[1]: g[2] + J}, {}); cons = [w for y in cons for w in y.assume(c)]
        return cons
    def cdrop(s, g, n):
        if g[0] == 'comp': return (('comp', g[1], g[2] + n, g[3], g[4]),)
        return (s.drop(g, n),)
    def cases(s, xs, ys, ety):
        for cx, gx in xs:
            for cy, gy in ys:
                cur = [s.con]
                for c in cx + cy:
                    nx = []
                    for k in cur: nx += k.assume(c)
                    cur = nx
                for k in cur:
                    if not s.sub(k).segl(norm_segs(gx, ety), norm_segs(gy, ety), ety): return False
        return True

def same(eng, st, a, b):
    """True when a == b is entailed on the path st"""
    return Cmp(eng, st.con, st.facts).vals(a, b)
