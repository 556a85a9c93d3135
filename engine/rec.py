"""Induction over the loops a summary only knows by their recurrence (QFact): the state at an arbitrary iteration and the one after it."""
from .lin import *
from .values import *
from .interp import *

class Rec:
    """one summarised loop on a path"""
    def __init__(s, e, o, q):
        s.e = e; s.o = o; s.q = q; s.n = q.hi
        s.K = L(e.fresh("step", nonneg=True))
        s.zero = {}
        for f in o.st.facts:
            if f.tag == q.tag and f.lo.const() == -1 and f is not q:
                for _, bs in f.at(L(-1)):
                    for a, v in bs: s.zero[a.k[2]] = v
        s.cases = q.at(s.K)
        s.locs = {}
        for i, (_, bs) in enumerate(s.cases):
            for a, v in bs:
                if a.k[0] == 'lv': s.locs.setdefault(a.k[2], {})[i] = (a, v)
    def at(s, loc, k):
        """atom of the loop value at iteration k"""
        for i, (a, v) in s.locs[loc].items(): return atom('lv', a.k[1], loc, L(k), nonneg=a.nonneg)
    def bounds(s):
        """facts about integer loop values at iteration K that follow from their monotonicity"""
        r = []
        for loc, d in s.locs.items():
            if len(d) != len(s.cases): continue
            if not all(isinstance(v, VInt) for a, v in d.values()): continue
            a0 = L(s.at(loc, ZERO)); ak = L(s.at(loc, s.K)); up = down = True
            for i, (a, v) in d.items():
                for con in s.o.st.con.assume(ge(s.K, ZERO)):
                    for st in cases_of(con, s.cases[i][0]):
                        if not st.entails(ge(v.l, ak)): up = False
                        if not st.entails(le(v.l, ak)): down = False
            if up: r.append(ge(ak, a0))
            if down: r.append(le(ak, a0))
        return r
    def steps(s):
        """[(state at an arbitrary iteration in which one case holds, {loc: value after it})]"""
        inv = s.bounds(); out = []
        for conds, bs in s.cases:
            for st in s.o.st.assume(ge(s.K, ZERO), lt(s.K, s.n), *(list(conds) + inv)):
                out.append((st, {a.k[2]: v for a, v in bs if a.k[0] == 'lv'}))
        return out
def cases_of(con, conds):
    cur = [con]
    for c in conds:
        nx = []
        for x in cur: nx += x.assume(c)
        cur = nx
    return cur
def recs(e, o):
    return [Rec(e, o, q) for q in o.st.facts if q.lo.const() != -1]
