"""C03: a symbol map is the ascending list of the distinct ranges added; look-ups return exactly the overlapping ones."""
from engine.spec import *
from .ranges import *
from engine.lin import subst, atoms_of
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with quantified loop facts and an ordering prover (static analysis)"
RULE = ("add_range and find_overlapping_ranges are interpreted on a map of any number of ascending, distinct, valid ranges. On every path of add_range the new list must be ascending and hold every old range and the new one and no other; what the "
        "search loops establish about every element (as facts quantified over their index) and the ascending order decide this. On every path of find_overlapping_ranges each range of the map must be reported, once and in order, iff it "
        "shares a symbol with the target: what the loop emits for an arbitrary index, and an arbitrary index the loop never reached, are compared with the definition. Maps of up to three ranges are also followed in full (every ordering of the bounds).")
NOTE = "Valid ranges (lowest <= highest); symbols embedded in the integers. binary_search is used as specified (on a list its comparison partitions)."

def check(S):
    A = Ranges(S); N = 4 if S.tier == "thorough" else 3
    k0 = S.inherent(A.M, "new"); e = A.engine(); outs = S.run(e, k0, S.params(k0), [])
    S.judge(e, "new", k0, outs, lambda o: "panics" if panics(o) else None if e.seq_len(o.val.f[A.fr]).const() == 0 else "a new map holds %r" % (o.val,))
    def run(key, n):
        e = A.engine(n is not None); sts, q, el = A.map(e, A.strip(S.argty(e, key, 0)), n)
        r = e.as_adt(sts[0], e.mk(e.sym("range"), A.strip(S.argty(e, key, 1)))); t = A.ends(e, sts[0], r); outs = []
        for st in sts:
            st.cells[A.RC] = r
            for y in st.assume(le(*t)): outs += S.run(e, key, S.params(key), [VRef(A.MC), VRef(A.RC)], y)
        return e, outs, q, el, t
    # ---- add_range
    key = S.inherent(A.M, "add_range")
    def items(e, o):
        v = o.st.cells[A.MC].f[A.fr]; n = e.seq_len(v); c = n.const()
        if c is None: c = next((j for j in range(20) if o.st.con.entails(eq(n, L(j)))), None)
        if c is None: raise Taint("a list of unknown length")
        return [A.ends(e, o.st, e.seq_get(o.st, v, L(j))) for j in range(c)]
    for n in range(N + 1):
        e, outs, q, el, t = run(key, n)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            x = items(e, o)
            for a, b in zip(x, x[1:]):
                if not A.holds(o.st, A.less(a, b)): return "%s comes before %s" % (a, b)
            for y in [el(j) for j in range(n)] + [t]:
                if not A.holds(o.st, disj([A.equal(y, a) for a in x])): return "%s is missing" % (y,)
            for a in x:
                if not A.holds(o.st, disj([A.equal(y, a) for y in [el(j) for j in range(n)] + [t]])): return "%s was never added" % (a,)
        S.judge(e, "add_range: %d ranges" % n, key, outs, f, facts_ok=False)
    e, outs, q, el, t = run(key, None); N0 = e.seq_len(q)
    def known(o):
        if any(b for f in o.st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        known(o); st = o.st; v = st.cells[A.MC].f[A.fr]; pieces = []
        for g in v.segs:
            if g[0] == 'sl' and g[1] is A.base: pieces.append(('sl', g[2], g[3]))
            elif g[0] == 'one':
                x = values.as_elem(g[1], q.ety)
                pieces.append(('sl', x[1], x[1] + 1) if x and x[0] is A.base else ('one', A.ends(e, st, g[1])))
            else: raise Taint("the list is %r" % (v,))
        ones = [p[1] for p in pieces if p[0] == 'one']
        for x in ones:
            if not A.proved(st, A.equal(x, t), el): return "%s was never added" % (x,)
        # order: nothing that comes later is smaller or equal
        for i, p in enumerate(pieces):
            for r in pieces[i + 1:]:
                if p[0] == 'sl' and r[0] == 'sl':
                    if not A.proved(st, disj([ge(p[1], p[2]), ge(r[1], r[2]), le(p[2], r[1])]), el): return "the order of the old ranges changes"
                else:
                    a = el(p[2] - 1) if p[0] == 'sl' else p[1]; b = el(r[1]) if r[0] == 'sl' else r[1]
                    some = [lt(x[1], x[2]) for x in (p, r) if x[0] == 'sl']
                    if not A.proved(st, disj([neg(c) for c in some] + [A.less(a, b)]), el): return "%s comes before %s" % (a, b)
        # nothing is lost
        J = L(atom('sym', 'J', nonneg=True)); inside = [conj([ge(J, p[1]), lt(J, p[2])]) for p in pieces if p[0] == 'sl']
        for y in st.assume(lt(J, N0)):
            if not A.proved(y, disj(inside + [A.equal(el(J), x) for x in ones]), el): return "a range of the map may be lost"
        if not ones:
            for i in [a.k[2] for a in all_atoms(st.con) if a.k[0] == 'elem' and a.k[1] is A.base]:
                if A.proved(st, disj([conj([A.equal(el(i), t), ge(i, p[1]), lt(i, p[2])]) for p in pieces]), el): return None
            return "the new range is not in the map"
    S.judge(e, "add_range: any map", key, outs, f, facts_ok=True)
    # ---- find_overlapping_ranges
    key = S.inherent(A.M, "find_overlapping_ranges")
    for n in range(N + 1):
        e, outs, q, el, t = run(key, n)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            m = e.seq_len(o.val).const()
            if m is None: m = next((j for j in range(20) if o.st.con.entails(eq(e.seq_len(o.val), L(j)))), None)
            if m is None: raise Taint("a list of unknown length")
            x = [A.ends(e, o.st, e.seq_get(o.st, o.val, L(j))) for j in range(m)]
            leaves = [(o.st, [])]
            for j in range(n):
                nx = []
                for st, w in leaves:
                    nx += [(y, w + [j]) for y in st.assume(A.overlap(el(j), t))] + [(y, w) for y in st.assume(neg(A.overlap(el(j), t)))]
                leaves = nx
            for st, w in leaves:
                if len(w) != m: return "%d ranges overlap, %d are reported" % (len(w), m)
                for j, a in zip(w, x):
                    if not A.holds(st, A.equal(el(j), a)): return "%s is reported in place of %s" % (a, el(j))
        S.judge(e, "find_overlapping_ranges: %d ranges" % n, key, outs, f)
    e, outs, q, el, t = run(key, None); N0 = e.seq_len(q)
    def index(st, g):
        """index in the map of the one range a segment reports"""
        if len(g) != 1 or g[0][0] != 'one': return None
        v = g[0][1]
        if isinstance(v, VRef) and v.cell == A.MC and v.path and v.path[0][0] == 'f' and v.path[-1][0] == 'i' and all(p[0] == 's' for p in v.path[1:-1]):
            return sum((p[1] for p in v.path[1:-1]), v.path[-1][1])     # an element of a slice of the map's list
        w = v
        while isinstance(w, VRef): w = e.read(st, w.cell, w.path)
        x = values.as_elem(w, q.ety)
        return x[1] if x and x[0] is A.base else None
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        known(o); st = o.st; J = L(atom('sym', 'J', nonneg=True)); cover = ZERO
        def skipped(lo, hi, conds, what):
            for y in st.assume(ge(J, lo), lt(J, hi), *conds):
                if not A.proved(y, neg(A.overlap(el(J), t)), el): return what
        for g in o.val.segs:
            if g[0] == 'one': lo, hi, cases = None, None, [((), (g,))]
            elif g[0] == 'comp': lo, hi, cases = g[2], g[3], g[4]
            elif g[0] == 'sl' and g[1] is A.base: lo, hi, cases = g[2], g[3], None
            else: raise Taint("the result is %r" % (o.val,))
            if g[0] == 'one':
                i = index(st, (g,))
                if i is None: raise Taint("the result is %r" % (o.val,))
                lo, hi, cases = i, i + 1, None
            if cases is not None:
                # shift: the index the loop reports at round k
                ks = [index(st, gs) for _, gs in cases if gs]
                if not ks or any(x is None for x in ks) or len(set(ks)) != 1: raise Taint("the result is %r" % (o.val,))
                d = ks[0] - L(g[1])
                if d.const() is None and any(a is g[1] for a in atoms_of(d, None, True)): raise Taint("the result is %r" % (o.val,))
                lo, hi = lo + d, hi + d
                for conds, gs in cases:
                    cs = [subst(c, {g[1]: J - d}, {}) for c in conds]
                    if gs:
                        for y in st.assume(ge(J, lo), lt(J, hi), *cs):
                            if not A.proved(y, A.overlap(el(J), t), el): return "a range that does not overlap is reported"
                    else:
                        r = skipped(lo, hi, cs, "an overlapping range is not reported")
                        if r: return r
            else:
                for y in st.assume(ge(J, lo), lt(J, hi)):
                    if not A.proved(y, A.overlap(el(J), t), el): return "a range that does not overlap is reported"
            if not A.proved(st, le(cover, lo), el): return "ranges are reported twice or out of order"
            r = skipped(cover, lo, (), "an overlapping range is passed over")
            if r: return r
            cover = hi
        return skipped(cover, N0, (), "an overlapping range behind the last one looked at is not reported")
    S.judge(e, "find_overlapping_ranges: any map", key, outs, f, facts_ok=True)
