"""C04: making a map non-overlapping partitions its ranges exactly."""
from engine.spec import *
from .ranges import *
from engine.induct import Induct
LEVEL = "proof"
TECHNIQUE = "inductive loop invariant over abstract interpretation of MIR, with full unrolling for small maps (static analysis)"
RULE = ("The worklist loop is decided by an invariant: from an arbitrary head state (a stack of any number of valid ranges in descending order - the second from the top may be out of order if it starts where the top does - and a list of finished pieces "
        "lying before all of them) every path of one round must keep the order, keep the pieces disjoint, valid and ascending, neither lose nor make up a symbol, leave no bound of a range strictly inside a new piece, and forget a bound only "
        "when everything left lies behind it; the entry state must be the map's ranges, and behind the loop the stack must be empty and the result be the pieces. Maps of up to four ranges are also followed in full, for every "
        "ordering of the bounds: the pieces must be valid, ascending, disjoint, each completely inside or outside each range, and cover exactly the ranges.")
NOTE = "Valid ranges in ascending order (what add_range keeps, C03); symbols embedded in the integers (next / prev are only applied inside a range, where they do not saturate). Termination is not shown. A failing invariant alone is reported as undecided unless the failing paths need more ranges than the maps that are followed in full."
def small(S, A, key, n, ends=0):
    """a map of n ranges, followed in full; ends: only that it comes to an end, within so many rounds"""
    e = A.engine(True); e.must_end = bool(ends); e.unroll = ends or e.unroll; e.budget *= 1 if n < 5 else 40; ty = S.argty(e, key, 0)
    while ty[0] == "ref": ty = ty[1]
    sts, q, el = A.map(e, ty, n)
    outs = []
    for st in sts: outs += S.run(e, key, S.params(key), [VRef(A.MC, ())], st)
    def f(o):
        if ends: return None
        if panics(o): return "panics: %s" % o.msg
        st = o.st; v = e.as_adt(st, o.val).f[A.fr]
        m = e.seq_len(v).const()
        if m is None: m = next((j for j in range(30) if st.con.entails(eq(e.seq_len(v), L(j)))), None)
        if m is None: raise Taint("a list of unknown length")
        p = [A.ends(e, st, e.seq_get(st, v, L(j))) for j in range(m)]
        for j, (a, b) in enumerate(p):
            if not A.holds(st, le(a, b)): return "piece %d is empty: its start may lie behind its end" % j
            if j and not A.holds(st, lt(p[j - 1][1], a)): return "pieces %d and %d overlap or are out of order" % (j - 1, j)
            for i in range(n):
                x = el(i)
                if not A.holds(st, disj([conj([le(x[0], a), le(b, x[1])]), lt(b, x[0]), lt(x[1], a)])): return "piece %d lies partly inside and partly outside range %d" % (j, i)
            if not A.holds(st, disj([conj([le(el(i)[0], a), le(b, el(i)[1])]) for i in range(n)])): return "piece %d covers symbols that are in no range of the map" % j
        X = L(atom('sym', 'X'))
        for i in range(n):
            for y in st.assume(ge(X, el(i)[0]), le(X, el(i)[1])):
                if not A.holds(y, disj([conj([le(a, X), le(X, b)]) for a, b in p])): return "a symbol of range %d is in none of the pieces" % i
    S.judge(e, "to_non_overlapping_map: %d ranges" % n, key, outs, f)
    return len(outs)

def general(S, A, key, N, measure=False):
    """a map of any number of ranges: the loop keeps its invariant (one arbitrary round from an arbitrary state); measure: the symbols in the ranges left become fewer (a range counted for itself)"""
    name = "to_non_overlapping_map: any map" if not measure else "to_non_overlapping_map: the ranges left cover fewer symbols after every round"
    e = A.engine(); ty = A.strip(S.argty(e, key, 0)); body = S.body(key)
    sts, q, el = A.map(e, ty)
    B, RB = atom('sym', 'stack'), atom('sym', 'pieces'); M, RM = L(atom('sym', 'M', nonneg=True)), L(atom('sym', 'RM', nonneg=True))
    se = lambda k: A.ends(e, State(), e.mk(values.elem_atom(B, L(k)), q.ety))
    re = lambda k: A.ends(e, State(), e.mk(values.elem_atom(RB, L(k)), q.ety))
    geq = lambda a, b: neg(A.less(a, b))
    sorted_ = ('b', atom('sym', 'the stack is sorted'), True)
    top, sec = se(M - 1), se(M - 2)
    def axiom(a, con):
        """the invariant, at the elements that occur"""
        if a.k[0] != 'elem' or a.k[1] not in (B, RB): return None
        i = a.k[2]; x = se(i) if a.k[1] is B else re(i); cs = [le(*x)]
        others = {z.k[2] for z in all_atoms(con) if z.k[0] == 'elem' and z.k[1] is a.k[1]}
        if a.k[1] is RB:
            cs.append(disj([ge(i, RM), le(M, ZERO), lt(x[1], top[0])]))
            for j in others:
                if j != i: cs.append(disj([conj([lt(i, j), lt(x[1], re(j)[0])]), conj([lt(j, i), lt(re(j)[1], x[0])]), conj([eq(i, j), A.equal(x, re(j))])]))
            return conj(cs)
        for j in others | {M - 1, M - 2}:
            if j == i: continue
            y = se(j)
            # ordered unless one of the two is the second from the top
            for p, pe, r, ren in ((i, x, j, y), (j, y, i, x)):
                d = (r - p).const()
                if d is not None and d <= 0: continue
                pre = [] if d is not None else [le(r, p)]
                if p == M - 2 and d == 1: cs.append(geq(pe, ren)); continue
                if r == M - 2: cs.append(disj(pre + [conj([ge(pe[0], ren[0]), disj([geq(pe, ren), conj([neg(sorted_), eq(sec[0], top[0])])])])])); continue
                if p == M - 2: continue
                cs.append(disj(pre + [eq(p, M - 2), eq(r, M - 2), geq(pe, ren)]))
        return conj(cs)
    def proved(st, c, depth=3):
        for con in st.con.assume(neg(c)):
            x = st.copy(); x.con = con
            if not refute(x, depth, axioms=(axiom,)): return False
        return True
    state = {}; fails = []
    def head(eng, fr, entry):
        vecs = [(c, v) for c, v in entry.cells.items() if c[0] == 'l' and c[1] == fr.d and isinstance(v, VSeq)]
        stack = [c for c, v in vecs if v.segs]; res = [c for c, v in vecs if not v.segs]
        if len(stack) != 1 or len(res) != 1: raise Taint("the loop does not work on one list of ranges and one of results")
        g = entry.cells[stack[0]].segs; N0 = e.seq_len(q)
        if len(g) != 1 or g[0][0] != 'rsl' or g[0][1] is not A.base or not entails(entry, eq(e.seg_len(g[0]), N0)): raise Taint("the list is not the map's, last one on top")
        G = entry.copy(); G.cells[stack[0]] = VSeq((('sl', B, ZERO, M),), q.ety); G.cells[res[0]] = VSeq((('sl', RB, ZERO, RM),), q.ety)
        state["stack"], state["res"] = stack[0], res[0]
        return G, (stack[0], res[0])
    def back(eng, st):
        r = round_(eng, st)
        if r: fails.append((r, st))
    def round_(eng, st):
        """None when the invariant holds again and nothing was lost or made up in this round"""
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        if refute(st, 3, axioms=(axiom,)): return None
        old = [se(M - 1), se(M - 2)] if entails(st, ge(M, L(2))) else [se(M - 1)]
        def pieces(v, base, ends):
            r = []
            for g in v.segs:
                if g[0] == 'sl' and g[1] is base: r.append(('sl', g[2], g[3]))
                elif g[0] == 'one':
                    x = values.as_elem(g[1], q.ety)
                    r.append(('sl', x[1], x[1] + 1) if x and x[0] is base else ('one', A.ends(eng, st, g[1])))
                else: raise Taint("the list is %r" % (v,))
            return r
        S1 = pieces(st.cells[state["stack"]], B, se); R1 = pieces(st.cells[state["res"]], RB, re)
        # the finished pieces stay, new ones are put behind them
        if not R1 or R1[0][0] != 'sl' or R1[0][1] != ZERO or R1[0][2] != RM:
            if not (entails(st, eq(RM, ZERO)) and all(p[0] == 'one' for p in R1)): return "finished pieces are changed"
            new = [p[1] for p in R1]
        else:
            if any(p[0] != 'one' for p in R1[1:]): raise Taint("new pieces %r" % (R1,))
            new = [p[1] for p in R1[1:]]
        # the rest of the stack is still there
        cover = ZERO; rest = M - len(old); ones = []; lst = []
        for p in S1:
            if p[0] == 'sl':
                if p[1] != cover:
                    if not entails(st, eq(p[1], cover)):
                        if entails(st, ge(p[1], rest)): ones.append(se(p[1])); lst.append(p); continue
                        return "a range that was not looked at is lost"
                if entails(st, ge(p[1], rest)) and entails(st, eq(p[2], p[1] + 1)): ones.append(se(p[1])); lst.append(p); continue
                cover = p[2]; lst.append(p)
            else: ones.append(p[1]); lst.append(p)
        if not entails(st, ge(cover, rest)): return "a range that was not looked at is lost"
        if not entails(st, le(cover, M)): raise Taint("the stack")
        for p in lst:
            if p[0] == 'sl' and entails(st, ge(p[2], rest + 1)) and not entails(st, ge(p[1], rest)): ones += [se(rest + j) for j in range(2) if entails(st, ge(p[2], rest + j + 1))]
        if measure:
            size = lambda xs: sum([x[1] - x[0] + 1 for x in xs], ZERO)
            return None if proved(st, lt(size(ones), size(old))) else "the ranges left may cover as many symbols as before"
        # elements of the rest the search ran into count as well
        hit = [se(a.k[2]) for a in all_atoms(st.con) if a.k[0] == 'elem' and a.k[1] is B and entails(st, ge(a.k[2], ZERO)) and entails(st, lt(a.k[2], rest))]
        for x in new + ones:
            if not proved(st, le(*x)): return "an empty range is made"
        # same symbols
        X = L(atom('sym', 'X')); inn = lambda x: conj([ge(X, x[0]), le(X, x[1])])
        now = new + ones
        for x in old:
            for y in st.assume(inn(x)):
                if not proved(y, disj([inn(z) for z in now + hit])): return "symbols of a range are lost"
        for x in now:
            for y in st.assume(inn(x)):
                if not proved(y, disj([inn(z) for z in old])): return "symbols are made up"
        # order of the stack (the second from the top may be out of order when it starts where the top does)
        n1 = ZERO
        for p in lst: n1 = n1 + (p[2] - p[1] if p[0] == 'sl' else ONE)
        items = []          # (ends at the front end, at the back end) from bottom to top
        for p in lst:
            if p[0] == 'sl':
                if entails(st, ge(p[1], p[2])): continue
                items.append((se(p[1]), se(p[2] - 1), lt(p[1], p[2])))
            else: items.append((p[1], p[1], True))
        tops = []           # the two topmost elements
        for p in reversed(lst):
            if len(tops) == 2: break
            if p[0] == 'one': tops.append(p[1])
            elif entails(st, eq(p[2], p[1] + 1)): tops.append(se(p[1]))
            elif entails(st, ge(p[1], p[2])): continue
            else:
                tops.append(se(p[2] - 1))
                if len(tops) < 2: tops.append(se(p[2] - 2))
        def ordered(x, y): return geq(x, y)
        def ascending(skip_second):
            for i in range(len(items) - 1):
                a, b = items[i], items[i + 1]
                if skip_second and i + 1 == len(items) - 1: continue
                conds = [neg(c) for c in (a[2], b[2]) if c is not True]
                if not proved(st, disj(conds + [ordered(a[1], b[0])])): return False
            # across an empty slice
            for i in range(len(items) - 2):
                a, b, m = items[i], items[i + 2], items[i + 1]
                if m[2] is True and not (skip_second and i + 2 == len(items) - 1): continue
                conds = [neg(c) for c in (a[2], b[2]) if c is not True]
                if not proved(st, disj(conds + [ordered(a[1], b[0])])): return False
            return True
        if not ascending(False):
            # the second from the top on its own
            if len(items) < 2 or items[-1][2] is not True or items[-2][2] is not True: return "the list of ranges loses its order"
            a, b = items[-2][0], items[-1][0]
            if not (proved(st, eq(a[0], b[0])) and proved(st, ordered(a, b))): return "the list of ranges loses its order"
            below = items[:-2]
            for i in range(len(below)):
                x = below[i]
                conds = [neg(x[2])] if x[2] is not True else []
                if not proved(st, disj(conds + [ordered(x[1], b)])): return "the list of ranges loses its order"
        # finished pieces lie before everything that is left, in order
        prev = None
        for x in new:
            if prev is not None and not proved(st, lt(prev[1], x[0])): return "pieces overlap"
            prev = x
            for y in st.assume(gt(RM, ZERO)):
                if not proved(y, lt(re(RM - 1)[1], x[0])): return "a piece overlaps an earlier one"
        for t in tops[:1]:
            exists = True if ones and any(t is z or t == z for z in ones) else gt(n1, ZERO)
            for y in st.assume(exists):
                for x in new:
                    if not proved(y, lt(x[1], t[0])): return "a piece overlaps what is left"
                for z in y.assume(gt(RM, ZERO)):
                    if not proved(z, lt(re(RM - 1)[1], t[0])): return "an earlier piece overlaps what is left"
                # the bounds of the ranges taken off the list are still bounds of something, unless they are dealt with
                for x in old:
                    for end, what in ((1, "end"), (0, "start")):
                        if not proved(y, disj([lt(x[end], t[0])] + [eq(x[end], z[end]) for z in now + hit])): return "the %s of a range is forgotten" % what
        # no bound of a range falls inside a new piece
        for a, b in new:
            for x in old:
                if not proved(st, disj([le(x[0], a), gt(x[0], b)])) or not proved(st, disj([lt(x[1], a), ge(x[1], b)])): return "a piece lies partly inside and partly outside a range"
            for y in st.assume(gt(rest, ZERO)):
                J = L(atom('sym', 'J', nonneg=True))
                for z in y.assume(lt(J, rest)):
                    x = se(J)
                    if not proved(z, disj([le(x[0], a), gt(x[0], b)])) or not proved(z, disj([lt(x[1], a), ge(x[1], b)])): return "a piece lies partly inside and partly outside a range not looked at yet"
        return None
    ind = Induct(e, key, head, back)
    outs = []
    for st in sts: outs += S.run(e, key, S.params(key), [VRef(A.MC, ())], st)
    where = S.where(key)
    def end(o):
        if refute(o.st, 3, axioms=(axiom,)): return None
        if panics(o): return "panics: %s" % o.msg
        v = e.as_adt(o.st, o.val).f[A.fr]
        if not ind.done: raise Taint("no loop")
        if tuple(v.segs) != (('sl', RB, ZERO, RM),): return "the result is not the list of the pieces: %r" % (v,)
        if not entails(o.st, eq(M, ZERO)): return "stops although ranges are left"
    for o in outs if not measure else []:
        try: r = end(o)
        except Taint as t: e.taint(str(t), (key, None)); continue
        if r: fails.append((r, o.st))
    if not ind.done: e.taint("no loop", (key, None))
    if e.taints: S.unknown(name, where, "not followed: %s at %s" % e.taints[0][:2]); return
    if not fails: S.ok(name, where, "%d paths of an arbitrary round and %d behind the loop" % (ind.rounds, len(outs))); return
    # beyond what the maps followed in full reach: only a size tells this path from the ones that are fine
    def far(st): return entails(st, ge(M, L(N + 1))) or entails(st, ge(RM, L(2 * N))) or any(entails(st, ge(L(c), L(2 * N))) for c in ind.counters)
    r, st = fails[0]
    if all(far(x) for _, x in fails): S.violation(name, where, "%s [path condition: %s]" % (r, ", ".join(show(c) for c in list(st.con.conds())[:12])))
    else: S.unknown(name, where, "the invariant is not shown: %s [%s]" % (r, ", ".join(show(c) for c in list(st.con.conds())[:30])))

def check(S):
    A = Ranges(S); key = S.inherent(A.M, "to_non_overlapping_map")
    N = 4     # five ranges take hours
    for n in range(N + 1): small(S, A, key, n)
    general(S, A, key, N)
