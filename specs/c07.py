"""C07: removing overlaps keeps every state's transitions."""
from engine.spec import *
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with loop summaries, the symbol map's operations under their contracts (static analysis)"
RULE = ("fix_overlapping_ranges is interpreted on an arbitrary machine with add_range, to_non_overlapping_map and find_overlapping_ranges left as uninterpreted operations (C03, C04, C05 say what they do): the map that is partitioned must hold exactly the ranges of all the transitions of all the states, "
        "and row i of the new transition table must be, for each transition (r, t) of row i in turn, the transitions (p, t) for all the pieces p the partition has for r - as many rows as before, and the highest state, the joins and the outputs untouched. The same, exactly, on small machines whose ranges have 0 to 5 pieces.")
NOTE = "Any number of states and transitions. That the pieces of a range tile it follows from C04 and C05, which are separate checks."

def check(S):
    N = S.adt("ndfa::Ndfa"); SM_ = S.adt("overlapping_symbols::SymbolMap")
    key = S.inherent(N, "fix_overlapping_ranges"); fr = S.field(SM_, "ranges"); ft = S.field(N, "transitions")
    kadd, kpart, kfind = (S.inherent(SM_, m) for m in ("add_range", "to_non_overlapping_map", "find_overlapping_ranges"))
    no = lambda a: L(atom('len', a, nonneg=True))
    fixed = [None]
    def deep(eng, st, v):
        while isinstance(v, (VRef, VBox)): v = eng.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    def h(eng, st, C):
        if C.key not in (kadd, kpart, kfind): return None
        me = eng.as_adt(st, deep(eng, st, C.args[0])); q = me.f[fr]; f = list(me.f)
        if C.key == kadd:
            r = C.args[0]
            while isinstance(eng.read(st, r.cell, r.path), VRef): r = eng.read(st, r.cell, r.path)
            f[fr] = prims.mkseq(q.segs + (('one', deep(eng, st, C.args[1])),), q.ety)
            eng.write(st, r.cell, r.path, VAdt(me.k, me.v, f)); return [eng.out(st, UNIT)]
        if C.key == kpart:
            a = atom('partition', q); f[fr] = VSeq((('sl', a, ZERO, no(a)),), q.ety)
            return [eng.out(st, VAdt(me.k, me.v, f))]
        if len(q.segs) != 1 or q.segs[0][0] != 'sl' or q.segs[0][1].k[0] != 'partition': raise Taint("looked up in %r" % (q,))
        a = atom('pieces', q.segs[0][1], deep(eng, st, C.args[1]))
        if fixed[0] is not None: return [eng.out(st, VSeq(tuple(('one', eng.mk(values.elem_atom(a, L(x)), ("ref", q.ety))) for x in range(fixed[0])), ("ref", q.ety)))]
        return [eng.out(st, VSeq((('sl', a, ZERO, no(a)),), ("ref", q.ety)))]
    def base(e):
        e.hooks.append(h); args = S.sym_args(e, key); return args
    # any machine
    e = S.engine(); e.elim_counts = True; args = base(e); st = State(); me = e.as_adt(st, deep(e, st, args[0])); T = me.f[ft]; assert len(T.segs) == 1 and T.segs[0][0] == 'sl' and T.segs[0][2] == ZERO
    outs = S.run(e, key, S.params(key), args, st)
    def rest(st):
        w = e.as_adt(st, e.read(st, args[0].cell, args[0].path))
        for i, (a, b) in enumerate(zip(w.f, me.f)):
            if i != ft:
                d = explain(e, st, a, b)
                if d: return w, "something else of the machine changes: %s" % d
        return w, None
    def ranges_of(st, q, want):
        d = explain(e, st, q, want)
        if d:
            if any(c for c in atoms_in(q) if c.k[0] in ('partition', 'pieces')): raise Taint("the ranges partitioned are %r" % (q,))
            return "the ranges that are partitioned are not those of all the transitions of all the states: %s" % d
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; w, d = rest(st)
        if d: return d
        R = w.f[ft]
        if entails(st, eq(e.seq_len(T), ZERO)): return None if entails(st, eq(e.seq_len(R), ZERO)) else "a state appears"
        ps = {a for a in atoms_in(R) if a.k[0] == 'partition'}
        if not ps:
            if st.facts: raise Taint("the machine is changed without a partition on a path that knows something of its rows")
            return "the new transitions are not on the pieces of a partition"
        if len(ps) > 1: raise Taint("more than one partition")
        A = ps.pop(); i, j, k = (e.fresh(x, nonneg=True) for x in "ijk")
        at = lambda q, x: e.mk(values.elem_atom(q.segs[0][1], L(x)), q.ety); row = at(T, i); rn = e.seq_len(row); tr = e.as_adt(st, at(row, j))
        d = ranges_of(st, A.k[1], VSeq((('comp', i, ZERO, e.seq_len(T), (((), (('comp', j, ZERO, rn, (((), (('one', tr.f[0]),)),)),)),)),), A.k[1].ety))
        if d: return d
        def pieces(j_):
            t = e.as_adt(st, at(row, j_)); P = atom('pieces', A, t.f[0]); return P, t
        P, t = pieces(j)
        x = e.mk(values.elem_atom(P, L(k)), ("ref", A.k[1].ety)); x = deep(e, st, x)
        inner = VSeq((('comp', j, ZERO, rn, (((), (('comp', k, ZERO, no(P), (((), (('one', VAdt("tuple", 0, (x, t.f[1]))),)),)),)),)),), row.ety)
        want = VSeq((('comp', i, ZERO, e.seq_len(T), (((), (('one', inner),)),)),), T.ety)
        d = explain(e, st, R, want)
        if not d: return None
        if any(c.k[0] in ('len',) and c.k[1].k[0] == 'pieces' for c in cond_atoms(R)): raise Taint("what is done depends on how many pieces a range has: %s" % d)
        if any(a.k[0] in ('dedup', 'dedupby', 'sort', 'sorted', 'elems') for a in atoms_in(R)): raise Taint("the rows are sorted or deduplicated: %s" % d)
        return "the new transitions are not the old ones on the pieces of their ranges: %s" % d
    S.judge(e, "fix_overlapping_ranges: any machine", key, outs, f)
    # small machines whose ranges have a known number of pieces
    shapes = [((), 1), ((0,), 1), ((1,), 0), ((1,), 1), ((1,), 2), ((1,), 5), ((2,), 2), ((3,), 1), ((1, 1), 2), ((2, 0, 1), 1), ((1, 2), 1), ((0, 0), 1), ((0, 1), 2), ((10,), 1), ((1,) * 10, 1)]
    if S.tier != "quick": shapes += [((3,), 3), ((2, 2), 3), ((1, 0, 3), 2), ((1,), 20), ((40,), 1), ((1,) * 40, 1), ((20,), 2), ((0,) * 12 + (2,), 2)]
    bad = None; total = 0
    for sh_, np in shapes:
        fixed[0] = np; size = max(len(sh_), np, sum(sh_) * max(np, 1), 12)
        e = S.engine(); e.small = size; e.unroll = 2 * size + 40; e.fan = 4000; args = base(e); st = State(); me = e.as_adt(st, deep(e, st, args[0])); T = me.f[ft]
        ety = T.ety[2][0]
        rows = [[e.as_adt(st, e.mk(e.sym("t%d_%d" % (i, j)), ety)) for j in range(n)] for i, n in enumerate(sh_)]
        fs = list(me.f); fs[ft] = VSeq(tuple(('one', VSeq(tuple(('one', x) for x in r), ety)) for r in rows), T.ety)
        c = ('l', 0, 'm'); st.cells[c] = VAdt(me.k, me.v, fs); me = st.cells[c]; args = [VRef(c)]
        outs = S.run(e, key, S.params(key), args, st); total += len(outs)
        who = "rows of %s transitions on ranges of %d pieces: " % (list(sh_) if len(sh_) < 12 else "%d.." % len(sh_), np)
        def g(o):
            if panics(o): return who + "panics: %s" % o.msg
            st = o.st; w, d = rest(st)
            if d: return who + d
            R = w.f[ft]; n = e.seq_len(R).const()
            if n is None: raise Taint("a table of unknown length")
            if n != len(rows): return who + "the table has %d rows" % n
            A = None; allr = [x.f[0] for r in rows for x in r]
            for i, r in enumerate(rows):
                got = e.seq_get(st, R, L(i)); m = e.seq_len(got).const()
                if m is None: raise Taint("row %d is %r" % (i, got))
                got = [e.as_adt(st, e.seq_get(st, got, L(x))) for x in range(m)]
                for x in got:
                    ps = {a for a in atoms_in(x.f[0]) if a.k[0] == 'pieces'}
                    if not ps and not any(same(e, st, x.f[0], y) for y in allr): raise Taint("row %d has a transition on %r" % (i, x.f[0]))
                    for P in ps:
                        if A is None: A = P.k[1]
                        elif A != P.k[1]: raise Taint("several partitions")
                if A is None and np and r: return who + "row %d has no pieces" % i
                wants = [VAdt("tuple", 0, (deep(e, st, e.mk(values.elem_atom(atom('pieces', A, y.f[0]), L(k)), ("ref", A.k[1].ety))), y.f[1])) for y in r for k in range(np if A is not None else 0)]
                for x in wants:
                    if not any(same(e, st, z, x) for z in got): return who + "row %d has no transition to %r on %r" % (i, x.f[1], x.f[0])
                for z in got:
                    if not any(same(e, st, z, x) for x in wants): return who + "row %d has another transition: %r" % (i, z)
            if A is not None:
                m = e.seq_len(A.k[1]).const()
                if m is None: raise Taint("the ranges partitioned")
                got = [e.seq_get(st, A.k[1], L(i)) for i in range(m)]
                for y in allr:
                    if not any(same(e, st, x, y) for x in got): return who + "the range of a transition is not partitioned"
                for x in got:
                    if not any(same(e, st, x, y) for y in allr): raise Taint("another range is partitioned")
        x = Ctx(S.pid, S.P, S.tier)
        if x.judge(e, "fix_overlapping_ranges: small machines", key, outs, g) is not True: bad = x; break
    if bad is None: S.ok("fix_overlapping_ranges: %d small machines" % len(shapes), S.where(key), "%d paths" % total)
    else:
        for a in bad.violations: S.violation("fix_overlapping_ranges: small machines", a[1], a[2])
        for a in bad.inconclusive: S.unknown("fix_overlapping_ranges: small machines", a[1], a[2])

def atoms_in(x, acc=None):
    """all atoms occurring anywhere in a value"""
    if acc is None: acc = set()
    if isinstance(x, Atom):
        if x in acc: return acc
        acc.add(x)
        for y in x.k[1:]: atoms_in(y, acc)
    elif isinstance(x, Lin):
        for a, _ in x.t: atoms_in(a, acc)
    elif isinstance(x, VInt): atoms_in(x.l, acc)
    elif isinstance(x, VSym): atoms_in(x.t, acc)
    elif isinstance(x, VAdt):
        for y in x.f: atoms_in(y, acc)
    elif isinstance(x, VSeq): atoms_in(x.segs, acc)
    elif isinstance(x, VRef): atoms_in(x.cell, acc)
    elif isinstance(x, VBox): atoms_in(x.v, acc)
    elif isinstance(x, tuple):
        for y in x: atoms_in(y, acc)
    return acc
def cond_atoms(q, acc=None):
    if acc is None: acc = set()
    for s in q.segs:
        if s[0] == 'comp':
            for conds, gs in s[4]:
                atoms_in(tuple(conds), acc)
                for g in gs:
                    if g[0] == 'one' and isinstance(g[1], VSeq): cond_atoms(g[1], acc)
                    elif g[0] == 'comp': cond_atoms(VSeq((g,), None), acc)
    return acc
