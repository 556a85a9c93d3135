"""Atoms, linear expressions, conditions and the constraint store (polyhedral part of the abstract domain).

The store decides emptiness of a conjunction of linear integer constraints by Gaussian elimination of the
equalities and Fourier-Motzkin elimination of the inequalities (with integer tightening).  "Infeasible" answers are
sound; a feasible answer may be an over-approximation, as in any polyhedral abstract domain.
"""
from math import gcd

class Atom:
    """Interned symbolic value: ('v', n, name, ctx), ('elem', base, Lin), ('fld', term, variant, i) ..."""
    __slots__ = ("k", "id", "nonneg", "_h")
    table = {}
    def __repr__(self): return show(self)

def atom(*k, nonneg=False):
    a = Atom.table.get(k)
    if a is None:
        a = Atom(); a.k = k; a.id = len(Atom.table); a.nonneg = nonneg
        Atom.table[k] = a
    if nonneg: a.nonneg = True
    return a

def show(x):
    if isinstance(x, Atom):
        k = x.k
        if k[0] == 'v': return "%s'%d" % (k[2], k[1])
        if k[0] == 'elem': return "%s[%s]" % (show(k[1]), show(k[2]))
        if k[0] == 'fld': return "%s.%s%s" % (show(k[1]), ("" if k[2] == 0 else "@%s." % k[2]), k[3])
        if k[0] == 'len': return "len(%s)" % show(k[1])
        if k[0] == 'sym': return str(k[1])
        if k[0] == 'lv': return "loop%s" % (x.id)
        return "%s(%s)" % (k[0], ",".join(show(y) for y in k[1:]))
    if isinstance(x, Lin):
        s = ""
        for a, c in x.t:
            s += ("+" if c > 0 else "-") + ("" if abs(c) == 1 else "%d*" % abs(c)) + show(a)
        if x.c or not s: s += "%+d" % x.c if s else str(x.c)
        return s.lstrip("+")
    if isinstance(x, tuple): return "(" + ",".join(show(y) for y in x) + ")"
    return str(x)

class Lin:
    __slots__ = ("c", "t", "_h")
    def __init__(self, c, t):
        self.c = c; self.t = t; self._h = hash((c, tuple((a.id, k) for a, k in t)))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t
    def __repr__(self): return show(self)
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t) if o else self
        if not o.t: return self + o.c
        if not self.t: return o + self.c
        d = {}
        for a, k in self.t: d[a] = k
        for a, k in o.t: d[a] = d.get(a, 0) + k
        return mk(self.c + o.c, d)
    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def scale(self, n):
        if n == 0: return ZERO
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))
    def const(self): return self.c if not self.t else None
    def single(self):
        """the atom if this is exactly one atom"""
        return self.t[0][0] if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1 else None

def mk(c, d): return Lin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))
def L(x):
    if isinstance(x, Lin): return x
    if isinstance(x, int): return Lin(x, ())
    if isinstance(x, Atom): return Lin(0, ((x, 1),))
    raise TypeError(x)
ZERO = Lin(0, ()); ONE = Lin(1, ())

# ---- conditions: True/False | ('le',Lin) | ('eq',Lin) | ('ne',Lin) | ('b',Atom,bool) | ('var',Atom,idx,bool) | ('and',..) | ('or',..)
def norm_lin(l):
    g = 0
    for _, k in l.t: g = gcd(g, k)
    return g
def le(a, b=ZERO):
    l = L(a) - L(b)
    if not l.t: return l.c <= 0
    g = norm_lin(l)
    if g > 1: l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return ('le', l)
def lt(a, b=ZERO): return le(L(a) + 1, b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b=ZERO):
    l = L(a) - L(b)
    if not l.t: return l.c == 0
    if l.t[0][1] < 0: l = -l
    g = norm_lin(l)
    if l.c % g: return False
    if g > 1: l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return ('eq', l)
def ne(a, b=ZERO): return neg(eq(a, b))
def neg(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'le': return le(ONE, c[1])       # l>=1
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'b': return ('b', c[1], not c[2])
    if k == 'var': return ('var', c[1], c[2], not c[3])
    if k == 'and': return disj([neg(x) for x in c[1]])
    if k == 'or': return conj([neg(x) for x in c[1]])
    raise ValueError(c)
def conj(cs):
    r = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c[0] == 'and': r += [x for x in c[1] if x not in r]
        elif c not in r: r.append(c)
    if not r: return True
    return r[0] if len(r) == 1 else ('and', tuple(r))
def disj(cs):
    r = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        if c[0] == 'or': r += [x for x in c[1] if x not in r]
        elif c not in r: r.append(c)
    if not r: return False
    return r[0] if len(r) == 1 else ('or', tuple(r))

# ---- deep substitution of atoms
def subst(x, m, memo=None):
    """replace atoms by Lins (m: Atom -> Lin/Atom) everywhere inside a Lin/Atom/cond/tuple; Atom result may be Lin"""
    if memo is None: memo = {}
    if isinstance(x, Lin):
        if not x.t: return x
        r = memo.get(x)
        if r is not None: return r
        acc = L(x.c); ch = False
        parts = []
        for a, k in x.t:
            s = subst(a, m, memo)
            if s is not a: ch = True
            parts.append((s, k))
        if not ch: r = x
        else:
            for s, k in parts: acc = acc + L(s).scale(k)
            r = acc
        memo[x] = r
        return r
    if isinstance(x, Atom):
        r = memo.get(x)
        if r is not None: return r
        if x in m: r = m[x]
        elif x.k[0] == 'phlen' and ('ph', x.k[1].k[1]) in m:
            from .values import seg_len
            r = seg_len(m[('ph', x.k[1].k[1])](x.k[1].k[2], subst(x.k[1].k[3], m, memo)))
        else:
            k = x.k; nk = []; ch = False
            for y in k:
                if isinstance(y, (Atom, Lin, tuple)) or hasattr(y, 'subst'):
                    z = subst(y, m, memo)
                    if isinstance(y, Atom) and isinstance(z, Lin) and z.single() is not None: z = z.single()
                    if z is not y: ch = True
                    nk.append(z)
                else: nk.append(y)
            r = atom(*nk, nonneg=x.nonneg) if ch else x
        memo[x] = r
        return r
    if isinstance(x, tuple):
        if x and x[0] in ('le', 'eq', 'ne') and len(x) == 2 and isinstance(x[1], Lin):
            l = subst(x[1], m, memo)
            if l is x[1]: return x
            return le(l) if x[0] == 'le' else eq(l) if x[0] == 'eq' else ne(l)
        if x and x[0] in ('and', 'or') and len(x) == 2 and isinstance(x[1], tuple):
            cs = [subst(y, m, memo) for y in x[1]]
            return conj(cs) if x[0] == 'and' else disj(cs)
        n = [subst(y, m, memo) if isinstance(y, (Atom, Lin, tuple)) or hasattr(y, 'subst') else y for y in x]
        if all(p is q for p, q in zip(n, x)): return x
        n = [(z.single() if isinstance(y, Atom) and isinstance(z, Lin) and z.single() is not None else z) for y, z in zip(x, n)]
        return tuple(n)
    if hasattr(x, 'subst'): return x.subst(m, memo)
    return x

def atoms_of(x, acc=None, deep=False):
    """top level atoms of linear parts (deep: also the atoms nested inside atoms)"""
    if acc is None: acc = set()
    if isinstance(x, Lin):
        for a, _ in x.t:
            if deep: atoms_of(a, acc, deep)
            else: acc.add(a)
    elif isinstance(x, Atom):
        if x in acc: return acc
        acc.add(x)
        if deep:
            for y in x.k:
                if isinstance(y, (Atom, Lin, tuple)) or hasattr(y, 'parts'): atoms_of(y, acc, deep)
    elif isinstance(x, tuple):
        for y in x: atoms_of(y, acc, deep)
    elif hasattr(x, 'parts'):
        for y in x.parts(): atoms_of(y, acc, deep)
    return acc

# ---- feasibility
_cache = {}
STATS = {"lp": 0, "lp_miss": 0}

def infeasible(les, eqs):
    """les: iterable of Lin (<=0), eqs: iterable of Lin (==0)"""
    STATS["lp"] += 1
    key = (frozenset(les), frozenset(eqs))
    r = _cache.get(key)
    if r is None:
        STATS["lp_miss"] += 1
        r = _infeasible(list(key[0]), list(key[1]))
        if len(_cache) > 400000: _cache.clear()
        _cache[key] = r
    return r

def _infeasible(les, eqs):
    les = [(dict((a, k) for a, k in l.t), l.c) for l in les]
    eqs = [(dict((a, k) for a, k in l.t), l.c) for l in eqs]
    # implicit lower bounds
    ats = set()
    for d, _ in les: ats.update(d)
    for d, _ in eqs: ats.update(d)
    for a in ats:
        if a.nonneg: les.append(({a: -1}, 0))
    # gaussian elimination with unit coefficients
    while eqs:
        d, c = eqs.pop()
        d = {a: k for a, k in d.items() if k}
        if not d:
            if c != 0: return True
            continue
        g = 0
        for k in d.values(): g = gcd(g, k)
        if c % g: return True
        if g > 1: d = {a: k // g for a, k in d.items()}; c //= g
        u = None
        for a, k in d.items():
            if abs(k) == 1:
                u = a
                if not a.nonneg: break
        if u is None:
            les.append((d, c)); les.append(({a: -k for a, k in d.items()}, -c))
            continue
        k = d.pop(u)
        # u = -(rest + c)/k ; k = +-1
        rep = {a: -v * k for a, v in d.items()}; repc = -c * k
        def sub(e):
            dd, cc = e
            if u not in dd: return e
            q = dd[u]; nd = dict(dd); del nd[u]
            for a, v in rep.items():
                w = nd.get(a, 0) + q * v
                if w: nd[a] = w
                else: nd.pop(a, None)
            return (nd, cc + q * repc)
        les = [sub(e) for e in les]; eqs = [sub(e) for e in eqs]
    # normalise + dedupe: coefs -> largest c
    cs = {}
    def add(d, c, cs):
        g = 0
        for k in d.values(): g = gcd(g, k)
        if g == 0: return c > 0
        if g > 1:
            d = {a: k // g for a, k in d.items()}; c = -((-c) // g)
        key = tuple(sorted(((a.id, k) for a, k in d.items())))
        if key not in cs or cs[key][1] < c: cs[key] = (d, c)
        n = tuple((a, -k) for a, k in key)
        if n in cs and cs[n][1] + cs[key][1] > 0: return True
        return False
    for d, c in les:
        if add({a: k for a, k in d.items() if k}, c, cs): return True
    while True:
        cnt = {}
        for d, c in cs.values():
            for a, k in d.items():
                p = cnt.setdefault(a, [0, 0]); p[0 if k > 0 else 1] += 1
        if not cnt: return False
        # drop one-sided variables for free
        best = min(cnt, key=lambda a: (cnt[a][0] * cnt[a][1] - cnt[a][0] - cnt[a][1], a.id))
        pos = []; neg_ = []; rest = {}
        for key, (d, c) in cs.items():
            k = d.get(best, 0)
            if k > 0: pos.append((d, c, k))
            elif k < 0: neg_.append((d, c, -k))
            else: rest[key] = (d, c)
        if len(pos) * len(neg_) > 3000: return False     # give up (sound: treated as feasible)
        cs = rest
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg_:
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                d = {a: k * m1 for a, k in d1.items()}
                for a, k in d2.items():
                    w = d.get(a, 0) + k * m2
                    if w: d[a] = w
                    else: d.pop(a, None)
                d.pop(best, None)
                if add(d, c1 * m1 + c2 * m2, cs): return True

class Con:
    """conjunction of constraints; treated as immutable"""
    __slots__ = ("les", "eqs", "nes", "b", "var", "order")
    def __init__(s):
        s.les = frozenset(); s.eqs = frozenset(); s.nes = frozenset(); s.b = {}; s.var = {}; s.order = ()
    def copy(s):
        n = Con.__new__(Con)
        n.les = s.les; n.eqs = s.eqs; n.nes = s.nes; n.b = s.b; n.var = s.var; n.order = s.order
        return n
    def component(s, ats):
        les = list(s.les); eqs = list(s.eqs)
        seen = set(ats); used_l = []; used_e = []
        ch = True
        rem = [(l, 0) for l in les] + [(l, 1) for l in eqs]
        while ch and rem:
            ch = False; nr = []
            for l, kind in rem:
                if any(a in seen for a, _ in l.t):
                    (used_e if kind else used_l).append(l)
                    for a, _ in l.t:
                        if a not in seen: seen.add(a); ch = True
                else: nr.append((l, kind))
            if len(nr) != len(rem): ch = True
            rem = nr
        return used_l, used_e, seen
    def lin_infeasible_with(s, extra_les=(), extra_eqs=()):
        ats = set()
        for l in list(extra_les) + list(extra_eqs):
            for a, _ in l.t: ats.add(a)
        ul, ue, seen = s.component(ats)
        ul = ul + list(extra_les); ue = ue + list(extra_eqs)
        if infeasible(ul, ue): return True
        # disequalities relevant to the component
        nes = [l for l in s.nes if all(a in seen for a, _ in l.t)]
        for n in nes:
            # n != 0 : infeasible if the rest forces n == 0
            if infeasible(ul + [n + 1], ue) and infeasible(ul + [-n + 1], ue): return True
        return False
    def tighten_nes(s, seen=None):
        """turn l != 0 into l<=-1 or l>=1 when one side is excluded; returns False when infeasible"""
        ch = True
        while ch:
            ch = False
            for n in list(s.nes):
                ul, ue, _ = s.component({a for a, _ in n.t})
                lo = infeasible(ul + [n + 1], ue)       # n <= -1 impossible
                hi = infeasible(ul + [-n + 1], ue)      # n >= 1 impossible
                if lo and hi: return False
                if lo or hi:
                    s.nes = s.nes - {n}
                    s.les = s.les | {(-n + 1) if lo else (n + 1)}
                    ch = True
        return True
    def entails(s, c):
        if c is True: return True
        if c is False: return s.lin_infeasible_with()
        k = c[0]
        if k == 'le':
            if c[1] in s.les: return True
            return s.lin_infeasible_with([-c[1] + 1])
        if k == 'eq':
            if c[1] in s.eqs or -c[1] in s.eqs: return True
            return s.lin_infeasible_with([c[1] + 1]) and s.lin_infeasible_with([-c[1] + 1])
        if k == 'ne':
            if c[1] in s.nes or -c[1] in s.nes: return True
            return s.lin_infeasible_with((), [c[1]])
        if k == 'b': return s.b.get(c[1]) is c[2]
        if k == 'var':
            v = s.var.get(c[1])
            if v is None: return False
            if isinstance(v, frozenset): return (not c[3]) and c[2] in v
            return (v == c[2]) == c[3]
        if k == 'and': return all(s.entails(x) for x in c[1])
        if k == 'or': return any(s.entails(x) for x in c[1])
        raise ValueError(c)
    def assume(s, c):
        """returns list of Con (empty if infeasible); disjunctions fork"""
        if c is True: return [s]
        if c is False: return []
        k = c[0]
        if k == 'and':
            cur = [s]
            for x in c[1]:
                nxt = []
                for y in cur: nxt += y.assume(x)
                cur = nxt
            return cur
        if k == 'or':
            r = []; base = s
            # make alternatives exclusive to keep the partition small
            for x in c[1]:
                r += base.assume(x)
            return r
        if k == 'b':
            v = s.b.get(c[1])
            if v is not None: return [s] if v is c[2] else []
            n = s.copy(); n.b = dict(s.b); n.b[c[1]] = c[2]; n.order = s.order + (c,)
            return [n]
        if k == 'var':
            v = s.var.get(c[1])
            if v is not None and not isinstance(v, frozenset):
                return [s] if (v == c[2]) == c[3] else []
            if isinstance(v, frozenset) and c[2] in v: return [s] if not c[3] else []
            n = s.copy(); n.var = dict(s.var); n.order = s.order + (c,)
            n.var[c[1]] = c[2] if c[3] else (v or frozenset()) | {c[2]}
            return [n]
        l = c[1]
        if k == 'le':
            if l in s.les: return [s]
            if s.lin_infeasible_with([l]): return []
            if s.lin_infeasible_with([-l + 1]):       # already implied
                return [s]
            n = s.copy(); n.les = s.les | {l}; n.order = s.order + (c,)
        elif k == 'eq':
            if l in s.eqs: return [s]
            if s.lin_infeasible_with((), [l]): return []
            n = s.copy(); n.eqs = s.eqs | {l}; n.order = s.order + (c,)
        elif k == 'ne':
            if l in s.nes: return [s]
            a = s.lin_infeasible_with([l + 1]); b = s.lin_infeasible_with([-l + 1])
            if a and b: return []
            n = s.copy(); n.order = s.order + (c,)
            if a: n.les = s.les | {-l + 1}
            elif b: n.les = s.les | {l + 1}
            else: n.nes = s.nes | {l}
        else: raise ValueError(c)
        if n.nes and not n.tighten_nes(): return []
        return [n]
    def key(s): return (s.les, s.eqs, s.nes, frozenset(s.b.items()), frozenset(s.var.items()))
    def subst(s, m, memo=None):
        n = Con()
        memo = {} if memo is None else memo
        cur = [n]
        for c in s.order:
            cc = subst(c, m, memo)
            nx = []
            for y in cur: nx += y.assume(cc)
            cur = nx
        return cur[0] if cur else None
    def conds(s):
        r = dict.fromkeys(c for c in s.order if c[0] == 'le' and c[1] in s.les or c[0] == 'eq' and c[1] in s.eqs or c[0] == 'ne' and c[1] in s.nes)
        rest = [('le', l) for l in s.les if ('le', l) not in r] + [('eq', l) for l in s.eqs if ('eq', l) not in r] + [('ne', l) for l in s.nes if ('ne', l) not in r]
        r = list(r) + (sorted(rest, key=repr) if len(rest) > 1 else rest)
        r += [('b', a, v) for a, v in s.b.items()]
        for a, v in s.var.items():
            if isinstance(v, frozenset): r += [('var', a, i, False) for i in v]
            else: r.append(('var', a, v, True))
        return r
