"""Proving with quantified facts: instantiate the facts left by loops at the indices that occur in the path condition."""
from .lin import *
from .values import *
from .interp import *

def elems_in(x, acc):
    """all elem atoms inside x"""
    s = set(); atoms_of(x, s, deep=True)
    for a in s:
        if a.k[0] in ('elem', 'lv'): acc.setdefault(a)
    return acc
def con_atoms(con):
    acc = {}
    for c in con.conds(): elems_in(c, acc)
    return acc
def pattern_atoms(q):
    acc = {}
    for conds, binds in q.cases:
        for c in conds: elems_in(c, acc)
        for a, v in binds:
            elems_in(a, acc); elems_in(v, acc) if not isinstance(v, V) else None
    return [a for a in acc if mentions(a, q.k)]
def solve(pat, a, k, out):
    """values of k for which pat becomes a"""
    if pat is a: return True
    if isinstance(pat, Lin) and isinstance(a, (Lin, int)):
        a = L(a)
        d = dict(pat.t); kc = d.get(k)
        if kc in (1, -1) and not any(x is not k and mentions(x, k) for x in d):
            out.append((a - (pat - L(k).scale(kc))).scale(kc)); return True
        if not mentions(pat, k): return pat == a
        x, y = pat.single(), a.single()
        if x is not None and y is not None: return solve(x, y, k, out)
        return False
    if isinstance(pat, Atom) and isinstance(a, Atom):
        if len(pat.k) != len(a.k) or pat.k[0] != a.k[0]: return False
        return all(solve(p, q, k, out) for p, q in zip(pat.k, a.k))
    if isinstance(pat, tuple) and isinstance(a, tuple): return len(pat) == len(a) and all(solve(p, q, k, out) for p, q in zip(pat, a))
    return pat == a
def mentions(x, a):
    s = set(); atoms_of(x, s, deep=True)
    return a in s or x is a
def candidates(q, ats):
    out = {}
    for p in pattern_atoms(q):
        for a in ats:
            if a is p: continue
            r = []
            if solve(p, a, q.k, r) and r and all(x == r[0] for x in r) and not mentions(r[0], q.k): out.setdefault(r[0])
    return list(out)
def instantiate(st, q, k0):
    """states covering st in which q is known at k0 (or k0 is outside its range)"""
    r = []
    for con in st.con.assume(lt(k0, q.lo)): x = st.copy(); x.con = con; r.append(x)
    for con in st.con.assume(ge(k0, q.hi)): x = st.copy(); x.con = con; r.append(x)
    for con in st.con.assume(conj([ge(k0, q.lo), lt(k0, q.hi)])):
        for conds, binds in q.at(k0):
            cs = [con]
            for c in conds: cs = [z for y in cs for z in y.assume(c)]
            for a, v in binds:
                if isinstance(v, VInt): cs = [z for y in cs for z in y.assume(eq(L(a), v.l))]
            for c in cs: x = st.copy(); x.con = c; r.append(x)
    return r
def refute(st, depth=3, used=frozenset(), axioms=()):
    """the path condition together with the facts is contradictory"""
    st = st.copy()
    sts = [st]
    for ax in axioms:
        nx = []
        for x in sts: nx += apply_axiom(x, ax)
        sts = nx
    return all(_refute(x, depth, used, axioms) for x in sts)
def equal(con, a, b):
    """two terms of the same shape whose indices are entailed equal"""
    if a is b: return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a == b: return True
        x, y = a.single(), b.single()
        if x is not None and y is not None and x.k[0] not in ('v', 'sym') and x.k[0] == y.k[0] and equal(con, x, y): return True
        return con.entails(eq(a, b))
    if isinstance(a, Atom) and isinstance(b, Atom):
        return a.k[0] == b.k[0] and a.k[0] not in ('v', 'sym') and len(a.k) == len(b.k) and all(equal(con, x, y) for x, y in zip(a.k, b.k))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(equal(con, x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
def conflict(st):
    """congruence: two equal terms with contradicting variants or truth values, or equal terms entailed different"""
    con = st.con
    for d in (con.var, con.b):
        ks = list(d)
        for i, a in enumerate(ks):
            for b in ks[:i]:
                x, y = d[a], d[b]
                if x is y or x == y or not same_shape(a, b): continue
                if isinstance(x, frozenset) and isinstance(y, frozenset): continue
                if isinstance(x, frozenset) and y not in x or isinstance(y, frozenset) and x not in y: continue
                if equal(con, a, b): return True
    return False
def _refute(st, depth, used, axioms):
    if depth < 0: return False
    if conflict(st): return True
    ats = list(con_atoms(st.con))
    opts = []
    for n, q in enumerate(st.facts):
        for k0 in candidates(q, ats)[:12]:
            if (n, k0) in used: continue
            r = instantiate(st, q, k0)
            if not r: return True
            if len(r) == 1 and r[0].con.order == st.con.order: continue
            opts.append((len(r), n, k0, r))
    if depth == 0: return False
    opts.sort(key=lambda o: o[0])
    for _, n, k0, r in opts[:6]:
        if all(refute(x, depth - 1, used | {(n, k0)}, axioms) for x in r): return True
    return False
def apply_axiom(st, ax):
    """ax(atom, con) -> condition that holds for every such value, or None"""
    cur = [st]; done = set()
    for rnd in range(3):
        todo = [a for a in all_atoms(cur[0].con) if a not in done] if cur else []
        if not todo: break
        for a in todo:
            done.add(a)
            c = ax(a, cur[0].con) if cur else None
            if c is None or c is True: continue
            nx = []
            for x in cur:
                for con in x.con.assume(c): y = x.copy(); y.con = con; nx.append(y)
            cur = nx
            if not cur: return []
    return cur
def all_atoms(con):
    s = {}
    for c in con.conds():
        acc = set(); atoms_of(c, acc, deep=True)
        for a in acc: s.setdefault(a)
    return list(s)
def proves(st, cond, depth=3, axioms=()):
    if cond is True: return True
    for con in st.con.assume(neg(cond)):
        x = st.copy(); x.con = con
        if not refute(x, depth, axioms=axioms): return False
    return True
