"""Abstract values."""
from .lin import Atom, Lin, L, atom, subst, le, eq, ne, lt, ge, neg, conj, disj, show, ZERO, ONE

class V:
    __slots__ = ("_h",)
    def __hash__(self):
        try: return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + tuple(self.key())); return self._h
    def __eq__(self, o): return type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key()
    def __ne__(self, o): return not self == o
    def parts(self): return self.key()

class VInt(V):
    __slots__ = ("l", "ty")
    def __init__(s, l, ty): s.l = L(l); s.ty = ty
    def key(s): return (s.l,)
    def subst(s, m, memo):
        l = subst(s.l, m, memo)
        return s if l is s.l else VInt(l, s.ty)
    def __repr__(s): return show(s.l)
class VBool(V):
    __slots__ = ("c",)
    def __init__(s, c): s.c = c
    def key(s): return (s.c,)
    def subst(s, m, memo):
        if isinstance(s.c, bool): return s
        c = subst(s.c, m, memo)
        return s if c is s.c else VBool(c)
    def __repr__(s): return "bool(%s)" % (show(s.c) if isinstance(s.c, tuple) else s.c)
class VAdt(V):
    __slots__ = ("k", "v", "f")
    def __init__(s, k, v, f): s.k = k; s.v = v; s.f = tuple(f)
    def key(s): return (s.k, s.v, s.f)
    def parts(s): return s.f
    def subst(s, m, memo):
        n = tuple(x.subst(m, memo) for x in s.f)
        return s if all(p is q for p, q in zip(n, s.f)) else VAdt(s.k, s.v, n)
    def __repr__(s): return "%s#%s(%s)" % (s.k.split("::")[-1], s.v, ", ".join(map(repr, s.f)))
class VSym(V):
    __slots__ = ("t", "ty")
    def __init__(s, t, ty): s.t = t; s.ty = ty
    def key(s): return (s.t,)
    def subst(s, m, memo):
        t = subst(s.t, m, memo)
        if isinstance(t, Lin): t = t.single() or s.t
        return s if t is s.t else VSym(t, s.ty)
    def __repr__(s): return "<%s>" % show(s.t)
class VBox(V):
    """a Box is a value that holds its content"""
    __slots__ = ("v", "dty")
    def __init__(s, v, dty=None): s.v = v; s.dty = dty
    def key(s): return (s.v,)
    def subst(s, m, memo):
        v = s.v.subst(m, memo)
        return s if v is s.v else VBox(v, s.dty)
    def __repr__(s): return "box(%r)" % (s.v,)
class VRef(V):
    """reference to a place; dty: concrete pointee type when known (references to trait objects)"""
    __slots__ = ("cell", "path", "dty")
    def __init__(s, cell, path=(), dty=None): s.cell = cell; s.path = path; s.dty = dty
    def key(s): return (s.cell, s.path)
    def subst(s, m, memo):
        c = subst(s.cell, m, memo); p = subst(s.path, m, memo)
        return s if c is s.cell and p is s.path else VRef(c, p, s.dty)
    def __repr__(s): return "&%s%s" % (show(s.cell), "".join("." + show(x) for x in s.path))
class VSeq(V):
    __slots__ = ("segs", "ety")
    def __init__(s, segs, ety): s.segs = tuple(segs); s.ety = ety
    def key(s): return (s.segs,)
    def subst(s, m, memo):
        n = tuple(subst_seg(x, m, memo) for x in s.segs)
        return s if all(p is q for p, q in zip(n, s.segs)) else VSeq(norm_segs(n, s.ety), s.ety)
    def __repr__(s): return "[" + " ".join(map(show_seg, s.segs)) + "]"
class VMap(V):
    """hash map / set: base (None = empty) overwritten by writes, a sequence of pairs w(key, value or undef-for-removed), oldest first"""
    __slots__ = ("base", "kty", "vty", "writes")
    def __init__(s, base, kty, vty, writes=None): s.base = base; s.kty = kty; s.vty = vty; s.writes = writes if writes is not None else VSeq((), ("w", kty, vty))
    def key(s): return (s.base, s.writes)
    def parts(s): return ((s.base,) if s.base else ()) + (s.writes,)
    def subst(s, m, memo):
        b = subst(s.base, m, memo) if s.base is not None else None
        w = s.writes.subst(m, memo)
        if b is s.base and w is s.writes: return s
        return VMap(b, s.kty, s.vty, w)
    def __repr__(s): return "map(%s;%s)" % (show(s.base) if s.base else "", s.writes)
class VClo(V):
    __slots__ = ("k", "args", "up")
    def __init__(s, k, args, up): s.k = k; s.args = args; s.up = tuple(up)
    def key(s): return (s.k, s.up)
    def parts(s): return s.up
    def subst(s, m, memo):
        n = tuple(x.subst(m, memo) for x in s.up)
        return s if all(p is q for p, q in zip(n, s.up)) else VClo(s.k, s.args, n)
    def __repr__(s): return "clo(%s)" % s.k
class VFn(V):
    __slots__ = ("k", "args")
    def __init__(s, k, args): s.k = k; s.args = args
    def key(s): return (s.k,)
    def parts(s): return ()
    def subst(s, m, memo): return s
    def __repr__(s): return "fn(%s)" % s.k
class VUndef(V):
    __slots__ = ()
    def key(s): return ()
    def subst(s, m, memo): return s
    def __repr__(s): return "undef"

UNDEF = VUndef()
UNIT = VAdt("tuple", 0, ())
TRUE = VBool(True); FALSE = VBool(False)

# ---------------------------------------------------------------- segments
def show_seg(s):
    k = s[0]
    if k == 'one': return repr(s[1])
    if k in ('sl', 'rsl'): return "%s%s[%s..%s]" % ("~" if k == 'rsl' else "", show(s[1]), show(s[2]), show(s[3]))
    if k == 'rep': return "%r*%s" % (s[1], show(s[2]))
    if k == 'comp': return "{%s in %s..%s: %s}" % (show(s[1]), show(s[2]), show(s[3]), "; ".join("%s -> %s" % (" & ".join(map(show, c)), " ".join(map(show_seg, g))) for c, g in s[4]))
    return str(tuple(show(x) if isinstance(x, (Atom, Lin)) else x for x in s))

def subst_seg(s, m, memo):
    k = s[0]
    if k == 'one':
        v = s[1].subst(m, memo)
        return s if v is s[1] else ('one', v)
    if k in ('sl', 'rsl'):
        b = subst(s[1], m, memo); lo = subst(s[2], m, memo); hi = subst(s[3], m, memo)
        if b is s[1] and lo is s[2] and hi is s[3]: return s
        return (k, b, lo, hi)
    if k == 'rep':
        v = s[1].subst(m, memo); n = subst(s[2], m, memo)
        return s if v is s[1] and n is s[2] else ('rep', v, n)
    if k == 'comp':
        if s[1] in m:
            m = dict(m); del m[s[1]]; memo = {}
        b = subst(s[1], m, memo)    # the bound variable names its context, which may be replaced
        if not isinstance(b, Atom): b = b.single()
        lo = subst(s[2], m, memo); hi = subst(s[3], m, memo)
        cs = tuple((tuple(x for x in (subst(y, m, memo) for y in c) if x is not True), flat(subst_seg(g, m, memo) for g in gs)) for c, gs in s[4])
        cs = tuple(x for x in cs if False not in x[0])
        if b is s[1] and lo is s[2] and hi is s[3] and cs == s[4]: return s
        return ('comp', b, lo, hi, cs)
    if k == 'ph':
        cb = m.get(('ph', s[1].k[1]))
        if cb is not None: return cb(s[1].k[2], subst(s[1].k[3], m, memo))
        a = subst(s[1], m, memo)
        return s if a is s[1] else ('ph', a)
    if k == 'multi': return ('multi', tuple(subst_seg(g, m, memo) for g in s[1]))
    return s

def flat(gs):
    r = []
    for g in gs:
        if g[0] == 'multi': r += flat(g[1])
        else: r.append(g)
    return tuple(r)
def elem_atom(base, idx): return atom('elem', base, L(idx))

def seg_len(s):
    k = s[0]
    if k == 'one': return ONE
    if k in ('sl', 'rsl'): return s[3] - s[2]
    if k == 'rep': return s[2]
    if k == 'comp':
        ns = set()
        for c, gs in s[4]:
            t = ZERO
            for g in gs: t = t + seg_len(g)
            ns.add(t)
        if len(ns) == 1:
            n = ns.pop()
            if n.const() is not None: return (s[3] - s[2]).scale(n.c)
        return L(atom('clen', s, nonneg=True))
    if k == 'ph': return L(atom('phlen', s[1], nonneg=True))
    if k == 'multi':
        t = ZERO
        for g in s[1]: t = t + seg_len(g)
        return t
    raise ValueError(s)

_mk_hook = None          # set by interp: mk(term, ty) -> value
def set_mk(f):
    global _mk_hook
    _mk_hook = f

def norm_segs(segs, ety):
    """flatten and merge neighbouring segments"""
    out = []
    st = list(segs)
    i = 0
    flat = []
    for s in st:
        if s[0] == 'multi': flat += list(s[1])
        else: flat.append(s)
    for s in flat:
        if s[0] == 'comp':
            # a comprehension of a single unconditional element base[k+c] is a slice
            if len(s[4]) == 1 and len(s[4][0][1]) == 1:
                g = s[4][0][1][0]
                if g[0] == 'one':
                    sl = as_elem(g[1], ety)
                    if sl is not None:
                        b, ix = sl
                        d = dict(ix.t)
                        if d.get(s[1]) == 1 and not mentions(b, s[1]) and not any(a is not s[1] and mentions(a, s[1]) for a in d):
                            off = ix - L(s[1])
                            s = ('sl', b, s[2] + off, s[3] + off)
                        elif d.get(s[1]) == -1 and not mentions(b, s[1]) and not any(a is not s[1] and mentions(a, s[1]) for a in d):
                            c = ix + L(s[1])
                            s = ('rsl', b, c - s[3] + 1, c - s[2] + 1)
                    if s[0] == 'comp' and not mentions(g[1], s[1]):
                        s = ('rep', g[1], s[3] - s[2])
        if s[0] in ('sl', 'rsl', 'rep', 'comp'):
            n = seg_len(s)
            if n.const() == 0: continue
            if s[0] == 'rep' and n.const() is not None and 0 < n.const() <= 4:
                for _ in range(n.const()): out.append(('one', s[1]))
                continue
        if s[0] == 'sl' and (s[3] - s[2]).const() == 1:
            s = ('one', _mk_hook(elem_atom(s[1], s[2]), ety))
        if s[0] == 'rsl' and (s[3] - s[2]).const() == 1:
            s = ('one', _mk_hook(elem_atom(s[1], s[2]), ety))
        if out:
            p = out[-1]
            if p[0] == 'sl' and s[0] == 'sl' and p[1] is s[1] and p[3] == s[2]:
                out[-1] = ('sl', p[1], p[2], s[3]); continue
            if p[0] == 'rsl' and s[0] == 'rsl' and p[1] is s[1] and p[2] == s[3]:
                out[-1] = ('rsl', p[1], s[2], p[3]); continue
            if p[0] == 'sl' and s[0] == 'one':
                e = as_elem(s[1], ety)
                if e and e[0] is p[1] and e[1] == p[3]:
                    out[-1] = ('sl', p[1], p[2], p[3] + 1); continue
            if p[0] == 'one' and s[0] == 'sl':
                e = as_elem(p[1], ety)
                if e and e[0] is s[1] and e[1] + 1 == s[2]:
                    out[-1] = ('sl', s[1], s[2] - 1, s[3]); continue
            if p[0] == 'one' and s[0] == 'one':
                e = as_elem(p[1], ety); e2 = as_elem(s[1], ety)
                if e and e2 and e[0] is e2[0] and e[1] + 1 == e2[1]:
                    out[-1] = ('sl', e[0], e[1], e2[1] + 1); continue
            if p[0] == 'rep' and s[0] == 'rep' and p[1] == s[1]:
                out[-1] = ('rep', p[1], p[2] + s[2]); continue
            if p[0] == 'rep' and s[0] == 'one' and p[1] == s[1]:
                out[-1] = ('rep', p[1], p[2] + 1); continue
            if p[0] == 'one' and s[0] == 'rep' and p[1] == s[1]:
                out[-1] = ('rep', s[1], s[2] + 1); continue
            if p[0] == 'comp' and s[0] == 'comp' and p[3] == s[2] and p[4] == s[4] and p[1] is s[1]:
                out[-1] = ('comp', p[1], p[2], s[3], p[4]); continue
            if p[0] == 'comp' and len(p[4]) == 1 and len(p[4][0][1]) == 1 and s[0] == 'one':
                g = subst_seg(p[4][0][1][0], {p[1]: p[3]}, {})
                if g == s:
                    out[-1] = ('comp', p[1], p[2], p[3] + 1, p[4]); continue
            if s[0] == 'comp' and len(s[4]) == 1 and len(s[4][0][1]) == 1 and p[0] == 'one':
                g = subst_seg(s[4][0][1][0], {s[1]: s[2] - 1}, {})
                if g == p:
                    out[-1] = ('comp', s[1], s[2] - 1, s[3], s[4]); continue
        out.append(s)
    return tuple(out)

def mentions(x, a, memo=None):
    if x is a: return True
    if memo is None: memo = {}
    if isinstance(x, (Atom, Lin, V)):
        r = memo.get(x)
        if r is not None: return r
    r = False
    if isinstance(x, Lin): r = any(mentions(y, a, memo) for y, _ in x.t)
    elif isinstance(x, Atom): r = any(mentions(y, a, memo) for y in x.k if isinstance(y, (Atom, Lin, tuple, V)))
    elif isinstance(x, tuple): r = any(mentions(y, a, memo) for y in x if isinstance(y, (Atom, Lin, tuple, V)))
    elif isinstance(x, V): r = any(mentions(y, a, memo) for y in x.key() if isinstance(y, (Atom, Lin, tuple, V)))
    if isinstance(x, (Atom, Lin, V)): memo[x] = r
    return r

def root_term(v):
    """the term a canonical symbolic value was made from, if it is one"""
    if isinstance(v, VSym): return v.t
    if isinstance(v, VInt): return v.l.single()
    if isinstance(v, VAdt) and v.f:
        ts = []
        for i, x in enumerate(v.f):
            t = root_term(x)
            if t is None or t.k[0] != 'fld' or t.k[2] != v.v or t.k[3] != i: return None
            ts.append(t.k[1])
        return ts[0] if all(t is ts[0] for t in ts) else None
    if isinstance(v, VSeq) and len(v.segs) == 1 and v.segs[0][0] == 'sl' and v.segs[0][2] == ZERO and v.segs[0][3] == L(atom('len', v.segs[0][1], nonneg=True)):
        return v.segs[0][1]
    if isinstance(v, VMap) and not v.writes.segs: return v.base
    if isinstance(v, VBox):
        t = root_term(v.v)
        return t.k[1] if t is not None and t.k[0] == 'unbox' else None
    if isinstance(v, VBool) and isinstance(v.c, tuple) and v.c[0] == 'b' and v.c[2]: return v.c[1]
    if isinstance(v, VRef) and isinstance(v.cell, tuple) and v.cell and v.cell[0] == 'mem' and not v.path and isinstance(v.cell[1], Atom) and v.cell[1].k[0] == 'deref': return v.cell[1].k[1]
    return None

def as_elem(v, ety):
    t = root_term(v)
    if t is not None and t.k[0] == 'elem':
        if _mk_hook(t, ety) == v: return t.k[1], t.k[2]
    return None
