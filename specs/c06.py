"""C06: joined states follow the transitive closure of the joins."""
from engine.spec import *
from engine.induct import Induct
from engine.prove import refute, all_atoms
import itertools, random
LEVEL = "proof"
TECHNIQUE = "inductive loop invariant and modular contracts over abstract interpretation of MIR, plus small graphs (static analysis)"
RULE = ("get_join_closure: from an arbitrary head state of the worklist loop (any visited set, any list of pending states) every path of one round must take one pending state, and either it was visited already and nothing else changes, or exactly it is added to the visited set "
        "and exactly the states it is joined with (all of its row of the join table, nothing if the table has no such row) become pending; the loop starts with the given state pending and nothing visited and ends only when nothing is pending, and the "
        "visited set is what is returned. By induction that set is the set of reachable states. With this contract in place of the call, get_transitions_for_state must list the rows of the transition table of the elements of the set, each once, nothing for "
        "states without a row; output_symbols_for_state their outputs, and output_symbol_for_state one of them, and none only if there is none. Small join graphs (every graph on three states, chains, diamonds and cycles on four and five) are also followed in full through the public methods.")
NOTE = "Any table sizes and ids. Termination of the worklist is not shown. When the closure function cannot be found by name the small graphs decide alone."

def graphs(tier):
    """(number of states, joins, start)"""
    for bits in range(64 if tier != "thorough" else 512):
        pairs = [(a, b) for a in range(3) for b in range(3) if a != b or tier == "thorough"]
        yield 3, [p for i, p in enumerate(pairs) if bits >> i & 1], 1
    yield 2, [(0, 0), (0, 1)], 0
    yield 2, [(1, 1), (1, 0), (0, 0)], 1
    yield 3, [(0, 1), (1, 1), (1, 2), (2, 0), (0, 2)], 0
    yield 4, [(0, 1), (0, 2), (1, 3), (2, 3)], 0
    yield 4, [(3, 2), (3, 1), (2, 0), (1, 0)], 3
    yield 4, [(0, 3), (3, 1), (1, 2), (2, 0)], 3
    yield 5, [(4, 3), (3, 2), (2, 1), (1, 0)], 4
    yield 5, [(0, 1), (1, 2), (2, 3), (3, 4)], 0
    yield 5, [(0, 4), (0, 2), (4, 2), (2, 1), (1, 4), (3, 0)], 0
    yield 5, [(0, 2), (0, 2), (2, 4), (2, 4)], 0
    yield 6, [(0, 1), (1, 0), (2, 3), (3, 2), (1, 2), (4, 5)], 0
    yield 7, [(0, j) for j in range(1, 7)], 0
    yield 8, [(5, 7)] + [(7, j) for j in range(5)], 5
    # ids far apart
    yield 132, [(0, 64), (64, 128), (128, 131)], 0
    yield 70, [(3, 67), (67, 4)], 3
    yield 260, [(0, 256), (256, 1), (1, 257)], 0
    if tier == "thorough":
        yield 520, [(0, 512), (512, 513), (513, 1)], 0
    rng = random.Random(7)
    for n in range(12 if tier != "thorough" else 150):
        k = 4 + n % 2; yield k, sorted({(rng.randrange(k), rng.randrange(k)) for _ in range(rng.randrange(3, 8))}), rng.randrange(k)
def reach(joins, s):
    r = {s}; w = [s]
    while w:
        a = w.pop()
        for x, y in joins:
            if x == a and y not in r: r.add(y); w.append(y)
    return sorted(r)

def check(S):
    N = S.adt("ndfa::Ndfa"); SM = CRATE + "state_machine::StateMachine"
    fm, ft, fj, fo = [S.field(N, n) for n in ("max_state", "transitions", "joined_with", "output_symbols")]
    isn = lambda t: t[0] == "adt" and t[1] == N
    keys = {m: S.timpl(SM, isn, m)[0] for m in ("get_transitions_for_state", "output_symbol_for_state", "output_symbols_for_state")}
    U32 = ("int", "u32")
    closure(S, N, fj)
    contract(S, N, keys, fm, ft, fj, fo)
    small(S, N, keys, fm, ft, fj, fo)

# ------------------------------------------------------------------ the closure itself
def closure(S, N, fj, measure=False):
    """measure: only whether it ends"""
    name = "get_join_closure: any join graph"
    try: key = S.inherent(N, "get_join_closure")
    except Missing as m: S.unknown(name, "src/ndfa.rs", "not found by name: %s" % m); return
    e = S.engine(); args = S.sym_args(e, key); st = State(); body = S.body(key); where = S.where(key)
    if len(args) != 2 or not isinstance(args[1], VInt): S.unknown(name, where, "other parameters"); return
    me = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); J = me.f[fj]
    B = atom('sym', 'pending'); SEEN = atom('sym', 'visited'); M = L(atom('sym', 'M', nonneg=True)); U32 = args[1].ty
    x = L(values.elem_atom(B, M - 1)); state = {}; fails = []
    def head(eng, fr, entry):
        seqs = [(c, v) for c, v in entry.cells.items() if c[0] == 'l' and c[1] == fr.d and isinstance(v, VSeq)]
        sets = [(c, v) for c, v in entry.cells.items() if c[0] == 'l' and c[1] == fr.d and isinstance(v, VMap)]
        if len(seqs) != 1 or len(sets) != 1: raise Taint("the loop does not work on one list of pending states and one set")
        (cs, q), (cm, m) = seqs[0], sets[0]
        if m.base is not None or m.writes.segs: raise Taint("something is visited before the first round")
        if len(q.segs) != 1 or q.segs[0][0] != 'one' or not isinstance(q.segs[0][1], VInt) or not entails(entry, eq(q.segs[0][1].l, args[1].l)): raise Taint("the loop does not start with the state itself")
        G = entry.copy(); G.cells[cs] = VSeq((('sl', B, ZERO, M),), q.ety); G.cells[cm] = VMap(SEEN, m.kty, m.vty)
        state["s"], state["m"] = cs, cm
        return G, (cs, cm)
    def back(eng, st):
        r = round_(eng, st)
        if r: fails.append((r, state.pop("at", st)))
    def unseen(st, v): return isinstance(v, VInt) and entails(st, ('b', atom('get', SEEN, VInt(v.l, U32)), False))
    def round_(eng, st):
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        q, m = st.cells[state["s"]], st.cells[state["m"]]
        if m.base is not SEEN: return "the visited set is replaced"
        added = []
        for g in m.writes.segs:
            if g[0] != 'one': raise Taint("the visited set is %r" % (m,))
            k, w = g[1].f
            if isinstance(w, VUndef): return "a state is taken out of the visited set"
            added.append(k.l)
        # pending: which one was taken?
        seen_ = lambda k, v: entails(st, ('b', atom('get', SEEN, VInt(k, U32)), v))
        segs = list(q.segs); last = entails(st, eq(M, ONE))
        taken = None
        if segs and segs[0][0] == 'sl' and segs[0][1] is B and segs[0][2] == ZERO and segs[0][3] == M - 1: taken = x; segs = segs[1:]
        elif last and (not segs or not (segs[0][0] == 'sl' and segs[0][1] is B)): taken = x
        elif segs and segs[0][0] == 'sl' and segs[0][1] is B and segs[0][2] == ONE and segs[0][3] == M: taken = L(values.elem_atom(B, ZERO)); segs = segs[1:]
        elif not measure and segs and segs[0][0] == 'sl' and segs[0][1] is B and entails(st, gt(segs[0][3] , segs[0][2])) and not entails(st, ge(segs[0][3] - segs[0][2], M - 1)): return "a pending state is forgotten"
        if taken is None: raise Taint("the pending states are %r" % (q,))
        if last and not seen_(taken, True) and not seen_(taken, False): taken = L(values.elem_atom(B, ZERO))
        for k in added:
            if not measure and not entails(st, eq(k, taken)): return "a state is marked as visited that was not pending"
        seen = atom('get', SEEN, VInt(taken, U32)); known = entails(st, ('b', seen, True)); fresh = entails(st, ('b', seen, False))
        row = J; idx = taken; n = eng.seq_len(J)
        if not segs and not added:
            if known or measure: return None
            return "a pending state is thrown away without being visited"
        if not added and not known: return "a state is followed without being marked as visited"
        if known and not segs: return None
        if measure and not fresh:
            for y in st.assume(('b', seen, True)):
                for g in segs:
                    if g[0] != 'comp' or any(h[0] != 'one' or not unseen(w, h[1]) for conds, gs in g[4] for w in y.assume(*conds) for h in gs):
                        state["at"] = y; return "a state that was visited before is followed again"
        if measure: return None
        # exactly the joins of the state
        if entails(st, ge(idx, n)): return None if not segs else "a state with no joins is followed to another one"
        if not entails(st, lt(idx, n)):
            return "the joins of a state are followed only sometimes" if fresh or added else None
        r = eng.seq_get(st, J, idx); base = r.segs[0][1]; rn = eng.seq_len(r)
        def covers():
            if not segs: return [(ZERO, ZERO)]
            out = []
            for g in segs:
                if g[0] == 'sl' and g[1] is base: out.append((g[2], g[3])); continue
                if g[0] == 'rsl' and g[1] is base: out.append((g[2], g[3])); continue
                if g[0] == 'one':
                    z = values.as_elem(g[1], r.ety if False else U32)
                    if z and z[0] is base: out.append((z[1], z[1] + 1)); continue
                if g[0] == 'comp':
                    k, lo, hi, cases = g[1:5]; ds = set()
                    for conds, gs in cases:
                        if not gs:
                            # left out when it has been visited already
                            def old(y):
                                z = L(values.elem_atom(base, L(k)))
                                return entails(y, eq(z, taken)) or entails(y, ('b', atom('get', SEEN, VInt(z, U32)), True))
                            new = [y for y in st.assume(*conds) if not old(y)]
                            if not new: continue
                            state["at"] = new[0]
                            return "a join is not followed when %s" % ", ".join(map(show, conds))
                        if len(gs) != 1 or gs[0][0] != 'one' or not isinstance(gs[0][1], VInt): return None
                        t = gs[0][1].l.single()
                        if t is None or t.k[0] != 'elem' or t.k[1] is not base: return None
                        ds.add(L(t.k[2]) - L(k))
                    if len(ds) != 1: return None
                    d = ds.pop(); out.append((lo + d, hi + d)); continue
                return None
            return out
        c = covers()
        if isinstance(c, str): return c
        if c is None: raise Taint("the new pending states are %r" % (segs,))
        if len(c) != 1: raise Taint("the new pending states are %r" % (segs,))
        lo, hi = c[0]
        if not entails(st, conj([ge(lo, ZERO), le(hi, rn)])): raise Taint("the new pending states are %r" % (segs,))
        if entails(st, eq(rn, ZERO)): return None
        if not segs: return "the joins of a state are not followed"
        if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, rn)): return "only the joins %s..%s of a state are followed" % (show(lo), show(hi))
        return None
    ind = Induct(e, key, head, back)
    outs = S.run(e, key, S.params(key), args, st)
    def end(o):
        if panics(o): return None if measure else "panics: %s" % o.msg
        if not ind.done: raise Taint("no worklist loop")
        if not isinstance(o.val, VMap) or o.val.base is not SEEN or o.val.writes.segs: raise Taint("the result is %r" % (o.val,))
        if not measure and not entails(o.st, eq(M, ZERO)): return "ends although states are pending"
    for o in outs:
        try: r = end(o)
        except Taint as t: e.taint(str(t), (key, None)); continue
        if r: fails.append((r, o.st))
    if e.taints: S.unknown(name, where, "not followed: %s at %s" % e.taints[0][:2]); return
    if fails: report_round(S, name, where, fails)
    else: S.ok(name, where, "%d paths of an arbitrary round" % ind.rounds)

# ------------------------------------------------------------------ what is made of it
def contract(S, N, keys, fm, ft, fj, fo):
    try: kc = S.inherent(N, "get_join_closure")
    except Missing: return
    for m, key in keys.items():
        e = S.engine(); used = []
        def h(eng, st, C):
            if C.key != kc: return None
            used.append(C.args[1].l)
            return [eng.out(st, VMap(atom('closure', C.args[1].l), C.args[1].ty, UNITTY))]
        e.hooks.append(h)
        args = S.sym_args(e, key); st = State(); me = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); T, OUT = me.f[ft], me.f[fo]
        outs = S.run(e, key, S.params(key), args, st)
        CL = VMap(atom('closure', args[1].l), args[1].ty, UNITTY); EL = atom('elems', CL); n = L(atom('len', EL, nonneg=True)); U = args[1].ty
        el = lambda k: L(values.elem_atom(EL, L(k)))
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            st = o.st; v = o.val
            if m == "output_symbol_for_state":
                v = e.as_adt(st, v)
                if v.v == 1:
                    x = v.f[0]
                    if not isinstance(x, VRef) or x.cell[0] != 'cst': raise Taint("%r" % (x,))
                    t = x.cell[1]
                    while isinstance(t, VAdt): t = t.f[0]
                    t = t.t if isinstance(t, VSym) else t.l.single() if isinstance(t, VInt) else None
                    a = t.k[1] if t is not None and t.k[0] == 'fld' else None
                    if a is None or a.k[0] != 'get' or a.k[1] is not OUT.base: return "reports something that is not an output of the machine"
                    s = a.k[2].l
                    if entails(st, eq(s, args[1].l)): return None
                    y = s.single()
                    if y is not None and y.k[0] == 'elem' and y.k[1] is EL and entails(st, conj([ge(L(y.k[2]), ZERO), lt(L(y.k[2]), n)])): return None
                    return "reports the output of state %s, which need not be reachable" % show(s)
                # none: an arbitrary member has none
                k = L(atom('sym', 'K', nonneg=True))
                for y in st.assume(lt(k, n)):
                    g = e.mk(atom('get', OUT.base, VInt(el(k), U)), opt(OUT.vty))
                    for z in y.con.assume(('var', g.t, 1, True)):
                        w = y.copy(); w.con = z
                        if not refute(w, 4): return "reports no output although a reachable state may have one"
                return None
            if not isinstance(v, VSeq): raise Taint("%r" % (v,))
            segs = [g for g in v.segs if not (g[0] == 'sl' and entails(st, ge(g[2], g[3])))]
            if not segs:
                if entails(st, eq(n, ZERO)): return None
                raise Taint("nothing")
            if len(segs) != 1 or segs[0][0] != 'comp': raise Taint("the result is %r" % (v,))
            k, lo, hi, cases = segs[0][1:5]
            if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, n)): return "only the members %s..%s of the closure are looked at" % (show(lo), show(hi))
            for conds, gs in cases:
                ys = st.assume(ge(L(k), lo), lt(L(k), hi), *conds)
                for y in ys:
                    r = member(e, y, m, gs, L(k), el, T, OUT, U, me)
                    if r: return r
            return None
        S.judge(e, "%s: any machine, given the closure" % m, key, outs, f, facts_ok=True)

def member(e, st, m, gs, k, el, T, OUT, U, me):
    s = el(k)
    if m == "output_symbols_for_state":
        g = e.mk(atom('get', OUT.base, VInt(s, U)), opt(OUT.vty)); i = st.con.var.get(g.t)
        if i not in (0, 1): raise Taint("the output of a member")
        if i == 0: return None if not gs else "a state without an output adds one"
        if not gs: return "the output of a reachable state is left out"
        if len(gs) != 1 or gs[0][0] != 'one': raise Taint("%r" % (gs,))
        x = gs[0][1]; t = x.cell[1] if isinstance(x, VRef) and x.cell[0] == 'cst' else x
        if not same(e, st, t, e.as_adt(st, g).f[0]): return "the output listed for a state is %r" % (x,)
        return None
    n = e.seq_len(T)
    if entails(st, ge(s, n)): return None if not gs else "a state without transitions adds some"
    if not entails(st, lt(s, n)): raise Taint("a member")
    row = e.seq_get(st, T, s); rn = e.seq_len(row)
    if not gs: return None if entails(st, eq(rn, ZERO)) else "the transitions of a reachable state are left out"
    if len(gs) != 1: raise Taint("%r" % (gs,))
    g = gs[0]
    if g[0] == 'sl':
        if g[1] is not row.segs[0][1]: return "the transitions of another state are listed"
        return None if entails(st, conj([eq(g[2], ZERO), eq(g[3], rn)])) else "only a part of the transitions of a state is listed"
    if g[0] != 'comp': raise Taint("%r" % (gs,))
    k2, lo, hi, cases = g[1:5]
    if not entails(st, conj([eq(lo, ZERO), eq(hi, rn)])): return "only the transitions %s..%s of a state are listed" % (show(lo), show(hi))
    for conds, hs in cases:
        for y in st.assume(ge(L(k2), lo), lt(L(k2), hi), *conds):
            if not hs: return "a transition of a reachable state is left out"
            if len(hs) != 1 or hs[0][0] != 'one': raise Taint("%r" % (hs,))
            w = e.as_adt(y, e.seq_get(y, row, L(k2))); x = e.as_adt(y, hs[0][1])
            if len(w.f) != len(x.f) or not all(same(e, y, a, b) for a, b in zip(x.f, w.f)): return "a transition of a reachable state is listed as %r" % (hs[0][1],)
    return None

# ------------------------------------------------------------------ small graphs, followed in full
def small(S, N, keys, fm, ft, fj, fo):
    for m, key in keys.items():
        bad = None; n = 0; e = None
        for k, joins, start in graphs(S.tier):
            e = S.engine(); e.small = 12; e.unroll = 60; e.fan = 4000
            args = S.sym_args(e, key); st = State(); me = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); T, Jn, OUT = me.f[ft], me.f[fj], me.f[fo]
            U = args[1].ty; rowty = Jn.ety; trow = T.ety
            lim = max([a for a, _ in joins] + [-1]) + 1
            js = VSeq(tuple(('one', VSeq(tuple(('one', VInt(L(b), U)) for a, b in joins if a == i), U)) for i in range(lim)), rowty)
            # every state has two transitions, one state none, and the last ones no row at all
            ety = trow[2][0]
            rows = [[e.mk(e.sym("t%d_%d" % (i, j)), ety) for j in range(0 if i == 2 else 2)] for i in range(max(1, k - 1))]
            ts = VSeq(tuple(('one', VSeq(tuple(('one', x) for x in r), ety)) for r in rows), trow)
            outs_at = {i: e.mk(e.sym("o%d" % i), OUT.vty) for i in range(k) if (i + len(joins)) % 3}
            mp = VMap(None, OUT.kty, OUT.vty)
            for i, x in outs_at.items(): mp = prims.map_write(mp, VInt(L(i), U), x)
            f = list(me.f); f[ft], f[fj], f[fo], f[fm] = ts, js, mp, VInt(L(k - 1), U)
            c = ('l', 0, 'm'); st.cells[c] = VAdt(me.k, me.v, f)
            outs = S.run(e, key, S.params(key), [VRef(c), VInt(L(start), U)], st)
            n += 1; R = reach(joins, start)
            def val(x, st):
                while isinstance(x, VRef): x = e.read(st, x.cell, x.path)
                return x
            def j(o):
                if panics(o): return "panics: %s" % o.msg
                who = "%d states, joins %s, asked for state %d" % (k, joins, start)
                if m == "output_symbol_for_state":
                    v = e.as_adt(o.st, o.val); w = [outs_at[i] for i in R if i in outs_at]
                    if v.v == 0: return "%s: reports no output although a reachable state has one" % who if w else None
                    x = val(v.f[0], o.st)
                    return None if any(same(e, o.st, x, y) for y in w) else "%s: reports %r, which is the output of no reachable state" % (who, x)
                L_ = e.seq_len(o.val).const()
                if L_ is None: raise Taint("a list of unknown length")
                got = [val(e.seq_get(o.st, o.val, L(i)), o.st) for i in range(L_)]
                want = [x for i in R if i < len(rows) for x in rows[i]] if m == "get_transitions_for_state" else [outs_at[i] for i in R if i in outs_at]
                for x in got:
                    h = next((i for i, y in enumerate(want) if same(e, o.st, x, y)), None)
                    if h is None: return "%s: %r is reported, which belongs to no reachable state or is reported twice" % (who, x)
                    del want[h]
                if want: return "%s: %r of a reachable state is not reported" % (who, want[0])
            x = Ctx(S.pid, S.P, S.tier)
            r = x.judge(e, m, key, outs, j)
            if r is not True: bad = x; break
        if bad is None: S.ok("%s: %d small graphs" % (m, n), S.where(key), "every graph on three states and others up to six")
        else:
            for a in bad.violations: S.violation("%s: small graphs" % m, a[1], a[2])
            for a in bad.inconclusive: S.unknown("%s: small graphs" % m, a[1], a[2])
