"""DFA compilation followed on small machines with symbolic symbols and outputs, shared by C09 and C10."""
from engine.spec import *
from engine.induct import Induct
SM = CRATE + "state_machine::StateMachine"; DB = CRATE + "dfa_builder::DfaBuilder"
G = ('g', 'dfa events'); EV = ("adt", "vp::Event", ())

class Dfac:
    def __init__(s, S):
        s.S = S; s.DC = S.adt("dfa_compiler::DfaCompiler"); s.key = S.inherent(s.DC, "compile")
        b = S.body(s.key); s.params = S.params(s.key)
        # roles of the type parameters, from the bounds of the builder and the machine: whichever the calls are made on
        s.argty = S.argty(S.engine(), s.key, 0)
        s.sym, s.out = s.argty[2][0], s.argty[2][1]
        s.fn, s.fb = S.field(s.DC, "ndfa"), S.field(s.DC, "builder")
    def engine(s, trans, outs, lim=60):
        """trans(state number) -> list of (symbol value, target); outs(state number) -> list of output values"""
        e = s.S.engine(); e.small = 12; e.unroll = lim; e.fan = 4000
        pn, pb = s.argty[2][3], s.argty[2][4]
        U = ("int", "u32")
        def ev(st, *x):
            q = st.cells.get(G, VSeq((), EV)); st.cells[G] = prims.mkseq(q.segs + (('one', VAdt("vp::Event", 0, x)),), EV)
        def h(eng, st, C):
            if C.trait == SM and C.targs[0] == pn:
                i = C.args[1].l.const() if len(C.args) > 1 else None
                if C.method == "count_states": raise Taint("the number of states")
                if i is None: raise Taint("asked about an unknown state")
                if C.method == "get_transitions_for_state":
                    ty = ("tuple", (s.sym, U)); return [eng.out(st, VSeq(tuple(('one', VAdt("tuple", 0, (a, VInt(L(t), U)))) for a, t in trans(i)), ty))]
                if C.method == "output_symbols_for_state": return [eng.out(st, VSeq(tuple(('one', VRef(('cst', o))) for o in outs(i)), ("ref", s.out)))]
                if C.method == "output_symbol_for_state":       # one of them
                    if not outs(i): return [eng.out(st, VAdt(OPTION, 0, ()))]
                    return [eng.out(st.copy(), VAdt(OPTION, 1, (VRef(('cst', o)),))) for o in outs(i)]
                raise Taint("%s" % C.method)
            if C.trait == DB and C.targs[0] == pb:
                if C.method == "build": return [eng.out(st, VAdt("vp::Built", 0, (st.cells.get(G, VSeq((), EV)),)))]
                kind = {"start_state": 0, "accept": 1, "transition": 2}.get(C.method)
                if kind is None: raise Taint("%s" % C.method)
                ev(st, VInt(L(kind), U), *C.args[1:]); return [eng.out(st, UNIT)]
        e.hooks.append(h)
        return e
    def run(s, e):
        st = State(); args = s.S.sym_args(e, s.key)
        return s.S.run(e, s.key, s.params, args, st)
    def states(s, e, o):
        """the states given to the builder: [(list of accepted outputs, [(symbol, target)])]"""
        if panics(o): return "panics: %s" % o.msg
        if not (isinstance(o.val, VAdt) and o.val.k == "vp::Built"): raise Taint("the result is %r" % (o.val,))
        evs = o.val.f[0]; n = e.seq_len(evs).const()
        if n is None: raise Taint("a list of events of unknown length")
        r = []
        for i in range(n):
            x = e.as_adt(o.st, e.seq_get(o.st, evs, L(i))); k = x.f[0].l.const()
            if k == 0: r.append(([], [])); continue
            if not r: return "the builder is given something before the first state is started"
            if k == 1: r[-1][0].append(x.f[1])
            else:
                t = x.f[2].l.const()
                if t is None: raise Taint("a target %r" % (x.f[2],))
                r[-1][1].append((x.f[1], t))
        return r

# ------------------------------------------------------------------ any machine
def anysize(S, D, subset):
    """subset: the transitions (True), the outputs (False), or that the work comes to an end (None)"""
    name = "compile: any machine, any set of states" if subset is not None else "compile: every round makes a new set known or only adds unknown ones to the work"
    where = S.where(D.key)
    try:
        DT = S.adt("dfa_compiler::DfaTransitions"); DS = S.adt("dfa_compiler::DfaState")
        ft, fo, fi, fs = S.field(DT, "transitions"), S.field(DT, "output"), S.field(DT, "state_id"), S.field(DS, "source_states")
        km, ko = S.inherent(DT, "merge_states"), S.inherent(DT, "output_symbol")
    except Missing as m: S.unknown(name, where, "not found by name: %s" % m); return
    e = S.engine(); U = ("int", "u32"); B = {}
    pn, pb = D.argty[2][3], D.argty[2][4]
    tr = lambda s: atom('transitions of', L(s)); no = lambda a: L(atom('len', a, nonneg=True))
    def h(eng, st, C):
        if C.trait == SM and C.targs[0] == pn:
            if C.method == "get_transitions_for_state":
                a = tr(C.args[1].l); return [eng.out(st, VSeq((('sl', a, ZERO, no(a)),), ("tuple", (D.sym, U))))]
            if C.method == "output_symbols_for_state":
                a = atom('outputs of', C.args[1].l); return [eng.out(st, VSeq((('sl', a, ZERO, no(a)),), ("ref", D.out)))]
            raise Taint("%s" % C.method)
        if C.trait == DB and C.targs[0] == pb:
            if C.method == "build": return [eng.out(st, VAdt("vp::Built", 0, (st.cells.get(G, VSeq((), EV)),)))]
            kind = {"start_state": 0, "accept": 1, "transition": 2}.get(C.method)
            if kind is None: raise Taint("%s" % C.method)
            q = st.cells.get(G, VSeq((), EV)); st.cells[G] = prims.mkseq(q.segs + (('one', VAdt("vp::Event", 0, (VInt(L(kind), U),) + tuple(C.args[1:]))),), EV)
            return [eng.out(st, UNIT)]
        if C.key == km:
            r = C.args[0]; v = eng.as_adt(st, eng.read(st, r.cell, r.path)); a = atom('merged', v.f[ft]); f = list(v.f)
            f[ft] = VSeq((('sl', a, ZERO, no(a)),), v.f[ft].ety)
            eng.write(st, r.cell, r.path, VAdt(v.k, v.v, f)); return [eng.out(st, UNIT)]
        if C.key == ko:
            r = C.args[0]; v = eng.as_adt(st, eng.read(st, r.cell, r.path)); q = v.f[fo]
            if eng.decide(st, eq(eng.seq_len(q), ZERO)): return [eng.out(st, VAdt(OPTION, 0, ()))]
            return [eng.out(st, VAdt(OPTION, 1, (VRef(('cst', eng.mk(atom('least', q), D.out))),)))]
    e.hooks.append(h)
    SB, PB, KB = atom('sym', 'states'), atom('sym', 'pending'), atom('sym', 'known')
    N, M = L(atom('sym', 'N', nonneg=True)), L(atom('sym', 'M', nonneg=True))
    SRC = ("adt", DS, ()); state = {}; fails = []
    def seqof(a, ety): return VSeq((('sl', a, ZERO, no(a)),), ety)
    def head(eng, fr, entry):
        loc = [(c, v) for c, v in entry.cells.items() if c[0] == 'l' and c[1] == fr.d]
        is_ = lambda v, t: isinstance(v, VSeq) and v.ety[0] == "adt" and v.ety[1] == t
        p, q, m = [c for c, v in loc if is_(v, DS)], [c for c, v in loc if is_(v, DT)], [c for c, v in loc if isinstance(v, VMap) and v.kty[0] == "adt" and v.kty[1] == DS]
        if len(p) != 1 or len(q) != 1 or len(m) != 1: raise Taint("the loop does not work on one list of pending states, one list of finished ones and one map of the known ones")
        zero = lambda v: (lambda w: isinstance(w, VAdt) and isinstance(w.f[fs], VSeq) and eng.seq_len(w.f[fs]) == ONE and eng.seq_get(entry, w.f[fs], ZERO).l == ZERO)(eng.as_adt(entry, v))
        if entry.cells[q[0]].segs: raise Taint("a state is built before the loop")
        v = entry.cells[p[0]]
        if len(v.segs) != 1 or v.segs[0][0] != 'one' or not zero(v.segs[0][1]): raise Taint("the loop does not start with the set of state 0")
        v = entry.cells[m[0]]
        if v.base is not None: raise Taint("the known states")
        for g in v.writes.segs:
            if g[0] != 'one' or not zero(g[1].f[0]) or not isinstance(g[1].f[1], VInt) or g[1].f[1].l != ZERO: raise Taint("the known states are %r" % (v,))
        H = entry.copy(); state.update(p=p[0], q=q[0], m=m[0])
        H.cells[p[0]] = VSeq((('sl', PB, ZERO, M),), entry.cells[p[0]].ety); H.cells[q[0]] = VSeq((('sl', SB, ZERO, N),), entry.cells[q[0]].ety); H.cells[m[0]] = VMap(KB, v.kty, v.vty)
        state["ety"] = entry.cells[q[0]].ety
        return H, (p[0], q[0], m[0])
    def back(eng, st):
        work = [st]
        while work:
            x = work.pop(); y = x.copy()
            try: r = round_(eng, y)
            except Fork as f:
                for c in f.conds: work += x.assume(c)
                continue
            if r: fails.append((r, state.pop("at", y)))
    def round_(eng, st):
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        P, Q, K = st.cells[state["p"]], st.cells[state["q"]], st.cells[state["m"]]
        g = P.segs[0] if P.segs else None
        old = g is not None and g[0] == 'sl' and g[1] is PB
        taken = M - 1
        if not old:
            if not entails(st, eq(M, ONE)): raise Taint("the pending states are %r" % (P,))
            new = P.segs
            for x in K.writes.segs:
                if x[0] == 'one' and eng.as_adt(st, x[1].f[0]).f[fs] == eng.as_adt(st, eng.mk(values.elem_atom(PB, ZERO), SRC)).f[fs]: taken = ZERO
        else:
            new = P.segs[1:]
            if g[2] == ONE and g[3] == M: taken = ZERO
            elif not (g[2] == ZERO and g[3] == M - 1):
                if entails(st, lt(g[3] - g[2], M - 1)): return "a pending set of states is dropped: %r" % (P,)
                raise Taint("the pending states are %r" % (P,))
        X = eng.as_adt(st, eng.mk(values.elem_atom(PB, taken), SRC)); XS = X.f[fs]; n = eng.seq_len(XS)
        if subset is None: return measure(eng, st, new, K, XS)
        # the state built
        if not Q.segs or not (Q.segs[0][0] == 'sl' and Q.segs[0][1] is SB and Q.segs[0][2] == ZERO and Q.segs[0][3] == N):
            if not entails(st, eq(N, ZERO)): raise Taint("the finished states are %r" % (Q,))
            built = Q.segs
        else: built = Q.segs[1:]
        if not built and not new and K.base is KB and not K.writes.segs and entails(st, ge(N, ONE)):
            # already known: nothing to do
            x = [a for a, v in st.con.var.items() if v == 1 and a.k[0] == 'get' and a.k[1] is KB]
            if any(same(eng, st, eng.as_adt(st, a.k[2]).f[fs], XS) for a in x): return None
        if len(built) != 1 or built[0][0] != 'one': raise Taint("the states built in a round are %r" % (built,))
        t = eng.as_adt(st, built[0][1]); T = t.f[ft]; O = t.f[fo]
        k, k2 = eng.fresh("k", nonneg=True), eng.fresh("k", nonneg=True)
        s = eng.seq_get_raw(XS, L(k)) if hasattr(eng, "seq_get_raw") else VInt(L(values.elem_atom(XS.segs[0][1], L(k))), U)
        a = tr(s.l); pair = eng.as_adt(st, eng.mk(values.elem_atom(a, L(k2)), ("tuple", (D.sym, U))))
        want = VSeq((('comp', k, ZERO, n, (((), (('comp', k2, ZERO, no(a), (((), (('one', VAdt("tuple", 0, (pair.f[0], VAdt(DS, 0, (VSeq((('one', pair.f[1]),), U),))))),)),)),)),)),), ("tuple", (D.sym, SRC)))
        if subset:
            if len(T.segs) != 1 or T.segs[0][0] != 'sl' or T.segs[0][1].k[0] != 'merged': 
                if not (not T.segs and entails(st, eq(n, ZERO))): raise Taint("the transitions of a state are %r" % (T,))
                return None
            M_ = T.segs[0][1]
            if T.segs[0][2] != ZERO or T.segs[0][3] != no(M_): return "only the transitions %s..%s are kept" % (show(T.segs[0][2]), show(T.segs[0][3]))
            d = partial(eng, st, M_.k[1], n)
            if d: return d
            d = explain(eng, st, M_.k[1], want)
            if d: raise Taint("the transitions merged are not recognised as those of the members: %s" % d)
            # known
            if K.base is not KB: raise Taint("the known states are %r" % (K,))
            ws = K.writes.segs
            if len(ws) != 1 or ws[0][0] != 'one': raise Taint("the known states are %r" % (K,))
            key, idx = ws[0][1].f
            if not same(eng, st, eng.as_adt(st, key).f[fs], XS): return "another set of states than the one taken is recorded as known"
            if not isinstance(idx, VInt): raise Taint("the number %r" % (idx,))
            if not entails(st, eq(idx.l, N)) and set(map(L, atoms_of(idx.l))) - {N}: raise Taint("the states are numbered by %r" % (idx,))
            if not entails(st, eq(idx.l, N)): return "!the state is recorded with the number %r although it is state %s" % (idx, show(N))
            # every target is known or becomes pending
            if not new: 
                if entails(st, eq(no(M_), ZERO)): return None
                raise Taint("nothing becomes pending")
            if len(new) != 1 or new[0][0] != 'comp': raise Taint("what becomes pending is %r" % (new,))
            kk, lo, hi, cases = new[0][1:5]
            if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, no(M_))): return "only the targets %s..%s become pending" % (show(lo), show(hi))
            tgt = eng.as_adt(st, eng.as_adt(st, eng.mk(values.elem_atom(M_, L(kk)), T.ety)).f[1])
            for conds, gs in cases:
                for y in st.assume(ge(L(kk), lo), lt(L(kk), hi), *conds):
                    if gs:
                        if len(gs) != 1 or gs[0][0] != 'one' or not same(eng, y, eng.as_adt(y, gs[0][1]).f[fs], tgt.f[fs]): raise Taint("what becomes pending is %r" % (gs,))
                        continue
                    g = atom('get', KB, VAdt(DS, 0, tgt.f))
                    if entails(y, ('var', g, 1, True)) or same(eng, y, tgt.f[fs], XS): continue
                    x = [c for c in conds if c[0] == 'var' and c[1].k[0] == 'get' and c[1].k[1] is KB and c[2] == 1 and c[3]]
                    if x and any(same(eng, y, eng.as_adt(y, c[1].k[2]).f[fs], tgt.f[fs]) for c in x): continue
                    state["at"] = y; return "the target of a transition does not become pending when %s" % ", ".join(map(show, conds))
            return None
        # the outputs of the members, all of them
        a = atom('outputs of', s.l)
        want = VSeq((('comp', k, ZERO, n, (((), (('comp', k2, ZERO, no(a), (((), (('one', deref(eng.mk(values.elem_atom(a, L(k2)), ("ref", D.out)))),)),)),)),)),), D.out)
        if not O.segs and entails(st, eq(n, ZERO)): return None
        d = partial(eng, st, O, n)
        if d: return d
        d = explain(eng, st, O, want)
        if d: raise Taint("the outputs of a state are not recognised as those of its members: %s" % d)
        return None
    def isknown(eng, st, q):
        """is the set known before the round? True, False or None"""
        for a, v in st.con.var.items():
            if a.k[0] == 'get' and a.k[1] is KB and same(eng, st, eng.as_adt(st, a.k[2]).f[fs], q): return v == 1
    def measure(eng, st, new, K, XS):
        if K.base is not KB: raise Taint("the known states are %r" % (K,))
        rec = []
        for g in K.writes.segs:
            for x in [g] if g[0] == 'one' else [x for _, gs in g[4] for x in gs] if g[0] == 'comp' else [None]:
                if x is None or x[0] != 'one': raise Taint("the known states are %r" % (K,))
                if isinstance(x[1].f[1], VUndef): return "a known set of states is forgotten"
                rec.append(eng.as_adt(st, x[1].f[0]).f[fs])
        fresh = isknown(eng, st, XS) is False and any(same(eng, st, r, XS) for r in rec)
        marked = isknown(eng, st, XS) is True or any(same(eng, st, r, XS) for r in rec)
        if new and not marked and not rec: return "the set of states taken is not recorded as known, so it can be built again and again"
        if new and not marked: raise Taint("what is recorded as known")
        for g in new:
            if g[0] == 'one': work = [(st, g)]
            elif g[0] == 'comp': work = [(y, x) for conds, gs in g[4] for x in gs for y in st.assume(ge(L(g[1]), g[2]), lt(L(g[1]), g[3]), *conds)]
            else: raise Taint("what becomes pending is %r" % (g,))
            for y, x in work:
                if x[0] != 'one': raise Taint("what becomes pending is %r" % (x,))
                if fresh or isknown(eng, y, eng.as_adt(y, x[1]).f[fs]) is False: continue
                state["at"] = y; return "a set of states that may be known already becomes pending again, in a round that need not make a new set known"
        return None
    def partial(eng, st, q, n):
        """a part of the members or of what they have is certainly left out"""
        if len(q.segs) != 1 or q.segs[0][0] != 'comp': return None
        k, lo, hi, cases = q.segs[0][1:5]
        if st.assume(lt(hi - lo, n)): return "only the members %s..%s of a set of states are looked at" % (show(lo), show(hi))
        return None
    def deref(r): return e.read(State(), r.cell, r.path) if isinstance(r, VRef) else r
    ind = Induct(e, D.key, head, back, N)
    st = State(); st.cells[G] = VSeq((), EV)
    outs = S.run(e, D.key, D.params, S.sym_args(e, D.key), st)
    def end(o):
        st = o.st
        if not ind.done: raise Taint("no loop over the pending states")
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        if panics(o):
            # looked up although it is not known: excluded, the targets of all the states are known when nothing is pending
            for a, v in st.con.var.items():
                if v == 0 and a.k[0] == 'get' and a.k[1] is KB and entails(st, eq(M, ZERO)):
                    key = eng_adt(st, a.k[2]).f[fs]
                    x = key.segs[0][1] if isinstance(key, VSeq) and len(key.segs) == 1 and key.segs[0][0] == 'sl' else None
                    # x = (the states of) states[i].transitions[j].1
                    c = x
                    while isinstance(c, Atom) and c.k[0] == 'fld': c = c.k[1]
                    if not (isinstance(c, Atom) and c.k[0] == 'elem' and isinstance(c.k[1], Atom) and c.k[1].k[0] == 'fld' and c.k[1].k[2:] == (0, ft)): continue
                    d = c.k[1].k[1]
                    if not (isinstance(d, Atom) and d.k[0] == 'elem' and d.k[1] is SB): continue
                    if target(st, L(d.k[2]), L(c.k[2])) is not None and same(e, st, target(st, L(d.k[2]), L(c.k[2])).f[fs], key) and entails(st, conj([lt(L(d.k[2]), N), lt(L(c.k[2]), no(c.k[1]))])): return None
            return "panics: %s" % o.msg
        if not entails(st, eq(M, ZERO)): return "ends although sets of states are pending"
        if not (isinstance(o.val, VAdt) and o.val.k == "vp::Built"): raise Taint("the result is %r" % (o.val,))
        evs = [g for g in o.val.f[0].segs if not entails(st, le(e.seg_len(g), ZERO))]
        if not evs:
            if entails(st, eq(N, ZERO)): return None
            raise Taint("nothing is built")
        if len(evs) != 1 or evs[0][0] != 'comp': raise Taint("what is built is %r" % (evs,))
        k, lo, hi, cases = evs[0][1:5]
        if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, N)): return "only the states %s..%s are given to the builder" % (show(lo), show(hi))
        for conds, gs in cases:
            for y in st.assume(ge(L(k), lo), lt(L(k), hi), *conds):
                r = given(y, L(k), [g for g in gs if not entails(y, le(e.seg_len(g), ZERO))])
                if r: state.setdefault("at", y); return r
    def eng_adt(st, v): return e.as_adt(st, v)
    def state_at(st, i): return e.as_adt(st, e.mk(values.elem_atom(SB, i), state["ety"]))
    def target(st, i, j):
        T = state_at(st, i).f[ft]
        return e.as_adt(st, e.as_adt(st, e.mk(values.elem_atom(T.segs[0][1], j), T.ety)).f[1])
    def kind(g):
        if g[0] == 'one': return g[1].f[0].l.const()
        if g[0] == 'comp':
            ks = {x[1].f[0].l.const() if x[0] == 'one' else None for _, gs in g[4] for x in gs}
            return ks.pop() if len(ks) == 1 else None
    def given(st, i, gs):
        X = state_at(st, i); T = X.f[ft]; n = e.seq_len(T)
        ks = [kind(g) for g in gs]
        if None in ks: raise Taint("what is built is %r" % (gs,))
        if not ks or ks[0] != 0 or ks.count(0) != 1: return "the builder is not told of the start of every state once, before anything else of it" if subset else None
        acc = [g for g, x in zip(gs, ks) if x == 1]; tra = [g for g, x in zip(gs, ks) if x == 2]
        if not subset:
            q = X.f[fo]; none = entails(st, eq(e.seq_len(q), ZERO)); some = entails(st, ge(e.seq_len(q), ONE))
            if not none and not some: return None if not acc and False else "whether a state accepts does not depend on whether its members have an output"
            if none: return "a state without an output accepts" if acc else None
            if not acc: return "a state whose members have an output does not accept"
            if len(acc) != 1 or acc[0][0] != 'one': raise Taint("accepted: %r" % (acc,))
            v = acc[0][1].f[1]; t = v.t if isinstance(v, VSym) else v.l.single() if isinstance(v, VInt) else None
            if t is None or t.k[0] != 'least': raise Taint("the output accepted is %r" % (v,))
            return None if same(e, st, t.k[1], q) else "the output accepted is that of another state"
        if not tra: return None if entails(st, eq(n, ZERO)) else "the transitions of a state are not given to the builder"
        if len(tra) != 1 or tra[0][0] != 'comp': raise Taint("transitions: %r" % (tra,))
        k, lo, hi, cases = tra[0][1:5]
        if not entails(st, eq(lo, ZERO)) or not entails(st, eq(hi, n)): return "only the transitions %s..%s of a state are given to the builder" % (show(lo), show(hi))
        for conds, hs in cases:
            for y in st.assume(ge(L(k), lo), lt(L(k), hi), *conds):
                r = handed(y, i, k, hs, T)
                if r: state["at"] = y; return r
        return None
    def handed(y, i, k, hs, T):
        if not hs: return "a transition is not given to the builder"
        if len(hs) != 1 or hs[0][0] != 'one': raise Taint("%r" % (hs,))
        w = hs[0][1]; pair = e.as_adt(y, e.mk(values.elem_atom(T.segs[0][1], L(k)), T.ety))
        if not same(e, y, w.f[1], pair.f[0]): return "a transition is given to the builder with the symbol %r" % (w.f[1],)
        t = w.f[2].l.single(); g = t.k[1] if t is not None and t.k[0] == 'fld' else None
        if g is None or g.k[0] != 'get' or g.k[1] is not KB: return ("!" if t is not None and t.k[0] == 'wrap' else "") + "a transition is given to the builder with the target %r" % (w.f[2],)
        if not same(e, y, e.as_adt(y, g.k[2]).f[fs], target(y, i, L(k)).f[fs]): return "a transition is given to the builder with the number of another set of states"
    if subset is None: outs = []
    if not ind.done: e.taint("no loop over the pending states", (D.key, None))
    for o in outs:
        try: r = end(o)
        except Taint as t: e.taint(str(t), (D.key, None)); continue
        if r: fails.append((r, state.pop("at", o.st)))
    if e.taints: S.unknown(name, where, "not followed: %s at %s" % e.taints[0][:2]); return
    if fails: report_round(S, name, where, fails)
    else: S.ok(name, where, "%d paths of an arbitrary round" % ind.rounds)

# ------------------------------------------------------------------ the reference
def walk(D, e, o, m, sym):
    """(what is wrong, the set each state stands for, the states): is what the builder was given the subset construction of m, a list of (state, symbol number, target)?"""
    r = D.states(e, o)
    if isinstance(r, str): return r, None, None
    st = o.st
    if not r: return "no state is started", None, None
    sets = {0: frozenset((0,))}; work = [0]
    while work:
        d = work.pop(); X = sets[d]
        if d >= len(r): return "a transition leads to state %d of %d" % (d, len(r)), None, None
        # the transitions of the set, by symbol
        groups = []
        for s, a, t in m:
            if s not in X: continue
            for g in groups:
                if g[0] == a or e.decide(st, eq(sym(g[0]).l, sym(a).l)): g[1].add(t); break
            else: groups.append((a, {t}))
        got = r[d][1]; who = "the state for %s" % sorted(X)
        for (a, _), (b, _) in zip(got, got[1:]):
            if not entails(st, lt(a.l, b.l)): return "%s: the transitions are not given in ascending order: %r, %r" % (who, a, b), None, None
        if len(got) != len(groups): return "%s has %d transitions for %d symbols" % (who, len(got), len(groups)), None, None
        for a, T in groups:
            h = [t for b, t in got if entails(st, eq(b.l, sym(a).l))]
            if len(h) != 1: return "%s: no transition for %s" % (who, show(sym(a).l)), None, None
            T = frozenset(T)
            if h[0] in sets:
                if sets[h[0]] != T: return "%s: the transition for %s leads to a state that stands for %s instead of %s" % (who, show(sym(a).l), sorted(sets[h[0]]), sorted(T)), None, None
            else: sets[h[0]] = T; work.append(h[0])
    return None, sets, r

# ------------------------------------------------------------------ the parts
def parts(D):
    S = D.S
    DT = S.adt("dfa_compiler::DfaTransitions"); DS = S.adt("dfa_compiler::DfaState")
    return DT, DS, S.field(DT, "transitions"), S.field(DT, "output"), S.field(DS, "source_states")
def small_lists(S, name, key, insts, f, mk):
    """judge key on each instance; mk(e, st, inst) -> args"""
    n = 0; paths = 0
    for x in insts:
        e = S.engine(); e.small = 12; e.unroll = 60; e.fan = 4000; st = State()
        args = mk(e, st, x); outs = S.run(e, key, S.params(key), args, st); n += 1; paths += len(outs)
        c = Ctx(S.pid, S.P, S.tier)
        if c.judge(e, name, key, outs, lambda o: f(e, o, x, args)) is not True:
            for a in c.violations: S.violation(name, a[1], a[2])
            for a in c.inconclusive: S.unknown(name, a[1], a[2])
            return
    S.ok(name, S.where(key), "%d lists, %d paths" % (n, paths))

def sets_equal(e, st, xs, ys):
    """two lists of integers hold the same values (decides what the path leaves open)"""
    for p, q in ((xs, ys), (ys, xs)):
        for a in p:
            if not any(a == b for b in q) and not any(e.decide(st, eq(a, b)) for b in q): return False
    return True
def ints_of(e, st, q):
    n = e.seq_len(q).const()
    if n is None: raise Taint("a list of unknown length")
    return [e.seq_get(st, q, L(i)).l for i in range(n)]

def output_symbol(S, D):
    name = "output_symbol gives the least output"
    try: DT, DS, ft, fo, fs = parts(D); key = S.inherent(DT, "output_symbol")
    except Missing as m: S.unknown(name, "src/dfa_compiler.rs", "not found by name: %s" % m); return
    def mk(e, st, n):
        a = S.sym_args(e, key); v = e.as_adt(st, e.read(st, a[0].cell, a[0].path)); f = list(v.f); ty = f[fo].ety
        f[fo] = VSeq(tuple(('one', e.mk(atom('sym', 'o%d' % i), ty)) for i in range(n)), ty)
        c = ('l', 0, 'me'); st.cells[c] = VAdt(v.k, v.v, f); return [VRef(c)]
    def f(e, o, n, args):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; v = e.as_adt(st, o.val)
        if v.v == 0: return "reports no output of %d" % n if n else None
        x = v.f[0]
        while isinstance(x, VRef): x = e.read(st, x.cell, x.path)
        if n == 0: return "reports an output although there is none"
        os_ = [L(atom('sym', 'o%d' % i)) for i in range(n)]
        for y in os_:
            if not entails(st, le(x.l, y)): return "reports %s although %s may be less, of %d outputs" % (show(x.l), show(y), n)
        if not any(entails(st, eq(x.l, y)) for y in os_): return "reports %s, which is none of the outputs" % show(x.l)
    small_lists(S, "output_symbol: the least of up to five outputs, in any order", key, range(6 if S.tier != "thorough" else 7), f, mk)
    # any number
    e = S.engine(); st = State(); args = S.sym_args(e, key); v = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); q = v.f[fo]; n = e.seq_len(q)
    def classify(st, f, v, C):
        a, b = (e.mk(atom('sym', x), v.ety) for x in ("left", "right"))
        st2 = State(); st2.cells = dict(st.cells); e2 = S.engine(); r = set()
        for o in prims.call_value(e2, st2, f, [VRef(('cst', a)), VRef(('cst', b))]):
            if panics(o): raise Taint("the order panics")
            i = e2.variant(o.st, o.val) if not isinstance(o.val, VAdt) else o.val.v
            r.add('sort' if entails(o.st, [lt(a.l, b.l), eq(a.l, b.l), gt(a.l, b.l)][i]) else 'sorted descending' if entails(o.st, [gt(a.l, b.l), eq(a.l, b.l), lt(a.l, b.l)][i]) else None)
        if r <= {'sort'}: return 'sort'
        if r == {'sort', 'sorted descending'} or r == {'sorted descending'}: return 'sorted descending' if None not in r else 'sorted somehow'
        raise Taint("an order")
    e.classify_sort = classify
    outs = S.run(e, key, S.params(key), args, st)
    def g(o):
        if panics(o): return "panics: %s" % o.msg
        w = e.as_adt(o.st, o.val)
        if w.v == 0: return None if entails(o.st, eq(n, ZERO)) else "reports no output although there may be one"
        x = w.f[0]
        while isinstance(x, VRef): x = e.read(o.st, x.cell, x.path)
        t = x.t if isinstance(x, VSym) else x.l.single()
        if entails(o.st, eq(n, ONE)) and same(e, o.st, x, e.seq_get(o.st, q, ZERO)): return None
        if t is not None and t.k[0] == 'elem' and t.k[1].k[0] == 'sorted descending' and t.k[1].k[1] == q:
            if entails(o.st, eq(L(t.k[2]), n - 1)): return None
            return "reports the output number %s in descending order" % show(L(t.k[2]))
        if t is None or t.k[0] != 'elem' or t.k[1].k[0] != 'sort': raise Taint("the output is %r" % (x,))
        if t.k[1].k[1] != q: raise Taint("the output is one of %r" % (t.k[1].k[1],))
        return None if entails(o.st, eq(L(t.k[2]), ZERO)) else "reports the output number %s in ascending order" % show(L(t.k[2]))
    S.judge(e, "output_symbol: the first of the sorted outputs, any number", key, outs, g)

def dedupe(S, D):
    name = "dedupe keeps the set of states"
    try: DT, DS, ft, fo, fs = parts(D); key = S.inherent(DS, "dedupe")
    except Missing as m: S.unknown(name, "src/dfa_compiler.rs", "not found by name: %s" % m); return
    def mk(e, st, n):
        U = ("int", "u32"); c = ('l', 0, 'me'); st.cells[c] = VAdt(DS, 0, (VSeq(tuple(('one', VInt(L(atom('sym', 'x%d' % i, nonneg=True)), U)) for i in range(n)), U),)); return [VRef(c)]
    def f(e, o, n, args):
        if panics(o): return "panics: %s" % o.msg
        got = ints_of(e, o.st, e.as_adt(o.st, e.read(o.st, args[0].cell, ())).f[fs]); want = [L(atom('sym', 'x%d' % i, nonneg=True)) for i in range(n)]
        if not sets_equal(e, o.st, got, want): return "the states %s become %s" % (", ".join(map(show, want)), ", ".join(map(show, got)))
    small_lists(S, "dedupe: up to four states", key, range(5 if S.tier != "thorough" else 6), f, mk)
    e = S.engine(); st = State(); args = S.sym_args(e, key); q = e.as_adt(st, e.read(st, args[0].cell, args[0].path)).f[fs]
    outs = S.run(e, key, S.params(key), args, st)
    def g(o):
        if panics(o): return "panics: %s" % o.msg
        w = e.as_adt(o.st, e.read(o.st, args[0].cell, args[0].path)).f[fs]; v = w
        while v != q:
            if isinstance(v, VSeq) and len(v.segs) == 1 and v.segs[0][0] == 'sl' and v.segs[0][1].k[0] in ('sort', 'dedup') and v.segs[0][2] == ZERO and v.segs[0][3] in (L(atom('len', v.segs[0][1], nonneg=True)), e.seq_len(v.segs[0][1].k[1])): v = v.segs[0][1].k[1]
            elif same(e, o.st, v, q): return None
            elif isinstance(v, VSeq) and len(v.segs) == 1 and v.segs[0][0] == 'sl' and v.segs[0][1].k[0] in ('sort', 'dedup') and entails(o.st, lt(v.segs[0][3] - v.segs[0][2], L(atom('len', v.segs[0][1], nonneg=True)) if v.segs[0][1].k[0] == 'dedup' else e.seq_len(v.segs[0][1].k[1]))): return "only the states %s..%s are kept" % (show(v.segs[0][2]), show(v.segs[0][3]))
            else: raise Taint("the states become %r" % (w,))
    S.judge(e, "dedupe: only sorts and removes duplicates, any number of states", key, outs, g)

def merge_states(S, D):
    name = "merge_states"
    try: DT, DS, ft, fo, fs = parts(D); key = S.inherent(DT, "merge_states")
    except Missing as m: S.unknown(name, "src/dfa_compiler.rs", "not found by name: %s" % m); return
    U = ("int", "u32")
    def insts():
        """(symbols, states): state i symbolic (None) or a number"""
        for n in range(4): yield [None] * n
        yield [7, 7, 7, 7]; yield [1, 2, 1, 3]
        if S.tier == "thorough": yield [None] * 4; yield [3, 1, 2, 1, 3]
    def mk(e, st, ns):
        a = S.sym_args(e, key); v = e.as_adt(st, e.read(st, a[0].cell, a[0].path)); f = list(v.f); ty = f[ft].ety
        f[ft] = VSeq(tuple(('one', VAdt("tuple", 0, (e.mk(atom('sym', 's%d' % i), ty[1][0]), VAdt(DS, 0, (VSeq((('one', VInt(tgt(i, x), U)),), U),))))) for i, x in enumerate(ns)), ty)
        c = ('l', 0, 'me'); st.cells[c] = VAdt(v.k, v.v, f); return [VRef(c)]
    def tgt(i, x): return L(x) if x is not None else L(atom('sym', 't%d' % i, nonneg=True))
    def f(e, o, ns, args):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; q = e.as_adt(st, e.read(st, args[0].cell, ())).f[ft]; m = e.seq_len(q).const()
        if m is None: raise Taint("a list of unknown length")
        got = [e.as_adt(st, e.seq_get(st, q, L(i))) for i in range(m)]
        groups = []
        for i, x in enumerate(ns):
            s = L(atom('sym', 's%d' % i))
            for g in groups:
                if e.decide(st, eq(g[0], s)): g[1].append(tgt(i, x)); break
            else: groups.append((s, [tgt(i, x)]))
        for a, b in zip(got, got[1:]):
            if not entails(st, lt(a.f[0].l, b.f[0].l)): return "the symbols %s, %s are not in ascending order" % (show(a.f[0].l), show(b.f[0].l))
        if len(groups) != len(got): return "%d transitions for %d different symbols" % (len(got), len(groups))
        for s, T in groups:
            h = [x for x in got if entails(st, eq(x.f[0].l, s))]
            if len(h) != 1: return "%d transitions for the symbol %s" % (len(h), show(s))
            w = ints_of(e, st, e.as_adt(st, h[0].f[1]).f[fs])
            if not sets_equal(e, st, w, T): return "the states for %s become %s instead of %s" % (show(s), ", ".join(map(show, w)), ", ".join(map(show, T)))
    small_lists(S, "merge_states: up to four transitions, any symbols", key, insts(), f, mk)
    merge_any(S, D, key)

def merge_any(S, D, key, canon=False):
    name = "merge_states: any number of transitions" if not canon else "merge_states: every set it makes has its duplicates removed, any number of transitions"; where = S.where(key)
    DT, DS, ft, fo, fs = parts(D); U = ("int", "u32")
    try: kd = S.inherent(DS, "dedupe")
    except Missing: kd = None
    e = S.engine(); st = State(); args = S.sym_args(e, key); me = e.as_adt(st, e.read(st, args[0].cell, args[0].path)); q = me.f[ft]; n = e.seq_len(q); ty = q.ety
    def h(eng, st, C):
        if C.key == kd:
            r = C.args[0]; v = eng.as_adt(st, eng.read(st, r.cell, r.path)); a = atom('set of', v.f[fs])
            eng.write(st, r.cell, r.path, VAdt(v.k, v.v, (VSeq((('sl', a, ZERO, L(atom('len', a, nonneg=True))),), U),))); return [eng.out(st, UNIT)]
    e.hooks.append(h)
    def classify(st, f, v, C):
        a, b = (e.as_adt(st, e.mk(atom('sym', x), v.ety)) for x in ("left", "right")); x, y = a.f[0].l, b.f[0].l
        st2 = State(); st2.cells = dict(st.cells)
        e2 = S.engine(); outs = prims.call_value(e2, st2, f, [VRef(('cst', a)), VRef(('cst', b))])
        for o in outs:
            if panics(o): raise Taint("the order panics")
            i = e2.variant(o.st, o.val) if not isinstance(o.val, VAdt) else o.val.v
            c = [lt(x, y), eq(x, y), gt(x, y)][i]
            if not entails(o.st, c): raise Taint("the transitions are not sorted by their symbol")
        return 'sorted by symbol'
    e.classify_sort = classify
    NB, JU = atom('sym', 'merged so far'), atom('sym', 'used'); R, I = L(atom('sym', 'R', nonneg=True)), L(atom('sym', 'I', nonneg=True)); W = {}; fails = []
    def sy(st, v): return e.as_adt(st, v).f[0].l
    def head(eng, fr, entry):
        a0 = eng.as_adt(entry, eng.read(entry, args[0].cell, args[0].path)); s = a0.f[ft]
        if len(s.segs) != 1 or s.segs[0][0] != 'sl' or s.segs[0][1].k[0] != 'sorted by symbol' or s.segs[0][1].k[1] != q: raise Taint("the transitions are not sorted as a whole first: %r" % (s,))
        TA = s.segs[0][1]
        loc = [(c, v) for c, v in entry.cells.items() if c[0] == 'l' and c[1] == fr.d]
        nt = [(c, v) for c, v in loc if isinstance(v, VSeq) and v.ety == ty]; rg = [(c, v) for c, v in loc if isinstance(v, VAdt) and v.k.endswith("Range") and len(v.f) == 2]
        if len(nt) != 1 or len(rg) != 1: raise Taint("the loop does not go through the transitions by number, with one list of the merged ones")
        v = nt[0][1]; g = rg[0][1]
        if not same(eng, entry, v, VSeq((('sl', TA, ZERO, ONE),), ty)): raise Taint("the merged list does not start with the first transition")
        if not entails(entry, eq(g.f[0].l, ONE)) or not entails(entry, le(g.f[1].l, n)): raise Taint("the loop goes from %r" % (g,))
        H = entry.copy(); W.update(hi=g.f[1].l, TA=TA, c=nt[0][0], g=rg[0][0], me=args[0])
        H.cells[nt[0][0]] = VSeq((('sl', NB, ZERO, R),), ty); H.cells[rg[0][0]] = VAdt(g.k, g.v, (VInt(I, g.f[0].ty), g.f[1]))
        f = list(a0.f); f[ft] = VSeq((('sl', JU, ZERO, I), ('sl', TA, I, n)), ty); eng.write(H, args[0].cell, args[0].path, VAdt(a0.k, a0.v, f))
        r = H.assume(ge(R, ONE), ge(I, ONE), le(I, g.f[1].l), eq(sy(H, eng.mk(values.elem_atom(NB, R - 1), ty)), sy(H, eng.mk(values.elem_atom(TA, I - 1), ty))))
        if len(r) != 1: raise Taint("the state of the loop")
        return r[0], (nt[0][0], rg[0][0], args[0].cell)
    def back(eng, st):
        work = [st]
        while work:
            x = work.pop(); y = x.copy()
            try: r = round_(eng, y)
            except Fork as f:
                for c in f.conds: work += x.assume(c)
                continue
            if r: fails.append((r, y))
    def plain(v):
        """the list with the sets in it as what they were made of (removing duplicates keeps a set)"""
        def un(v):
            if isinstance(v, VAdt): return VAdt(v.k, v.v, tuple(un(x) for x in v.f))
            if isinstance(v, VSeq) and v.ety == U:
                r = ()
                for g in v.segs:
                    if g[0] == 'sl' and g[1].k[0] == 'set of' and g[2] == ZERO and g[3] == L(atom('len', g[1], nonneg=True)): r += un(g[1].k[1]).segs
                    else: r += (g,)
                return VSeq(norm_segs(r, U), U)
            return v
        return VSeq(tuple(('one', un(g[1])) if g[0] == 'one' else g for g in v.segs), v.ety)
    def round_(eng, st):
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        g = st.cells[W["g"]]
        if not entails(st, eq(g.f[0].l, I + 1)) or not entails(st, eq(g.f[1].l, W["hi"])): raise Taint("the loop goes on with %r" % (g,))
        x = eng.as_adt(st, eng.mk(values.elem_atom(W["TA"], I), ty)); last = eng.as_adt(st, eng.mk(values.elem_atom(NB, R - 1), ty))
        xs, ls = eng.as_adt(st, x.f[1]).f[fs], eng.as_adt(st, last.f[1]).f[fs]
        got = st.cells[W["c"]]
        if entails(st, eq(x.f[0].l, last.f[0].l)):
            want = VSeq((('sl', NB, ZERO, R - 1), ('one', VAdt("tuple", 0, (last.f[0], VAdt(DS, 0, (VSeq(norm_segs(ls.segs + xs.segs, U), U),)))))), ty)
        elif entails(st, ne(x.f[0].l, last.f[0].l)): want = VSeq((('sl', NB, ZERO, R), ('one', eng.mk(values.elem_atom(W["TA"], I), ty))), ty)
        else: raise Taint("whether a transition is merged does not depend on its symbol alone")
        d = explain(eng, st, plain(got), want)
        if d: return "a transition is not %s: %s" % ("merged with the one before it with the same symbol" if want.segs[0][3] == R - 1 else "kept apart from the one before it with another symbol", d)
        s = eng.as_adt(st, eng.read(st, args[0].cell, args[0].path)).f[ft]
        rest = eng.seq_slice(st, s, I + 1, n)
        if not same(eng, st, rest, VSeq((('sl', W["TA"], I + 1, n),), ty)): raise Taint("the transitions yet to be merged become %r" % (s,))
    ind = Induct(e, key, head, back)
    outs = S.run(e, key, S.params(key), args, st)
    def end(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; s = e.as_adt(st, e.read(st, args[0].cell, args[0].path)).f[ft]
        if entails(st, eq(n, ZERO)):
            return None if entails(st, eq(e.seq_len(s), ZERO)) else "a transition appears out of nothing"
        if not ind.done: raise Taint("no loop")
        if not entails(st, eq(I, n)):
            if entails(st, lt(I, n)): return "only the transitions before number %s are merged" % show(W["hi"])
            raise Taint("the loop ends early")
        if any(b for f in st.facts for _, b in f.cases): raise Taint("a loop is only known by its recurrence")
        k = e.fresh("k", nonneg=True); x = e.as_adt(st, e.mk(values.elem_atom(NB, L(k)), ty)); xs = e.as_adt(st, x.f[1]).f[fs]; a = atom('set of', xs)
        want = VSeq((('comp', k, ZERO, R, (((), (('one', VAdt("tuple", 0, (x.f[0], VAdt(DS, 0, (VSeq((('sl', a, ZERO, L(atom('len', a, nonneg=True))),), U),))))),)),)),), ty)
        if same(e, st, s, want): return None
        if same(e, st, s, VSeq((('sl', NB, ZERO, R),), ty)):
            if not canon: return None
            raise Taint("duplicates are removed elsewhere")
        raise Taint("the merged transitions become %r: %s" % (s, explain(e, st, s, want)))
    for o in outs:
        try: r = end(o)
        except Taint as t: e.taint(str(t), (key, None)); continue
        if r: fails.append((r, o.st))
    if e.taints: S.unknown(name, where, "not followed: %s at %s" % e.taints[0][:2]); return
    if fails: report_round(S, name, where, fails)
    else: S.ok(name, where, "%d paths of an arbitrary round" % ind.rounds)

def key_eq(S, D):
    """the map of known states tells sets of states apart by what they hold"""
    DT, DS, ft, fo, fs = parts(D); U = ("int", "u32")
    try: key = S.timpl("core::cmp::PartialEq", lambda t: t[0] == "adt" and t[1] == DS, "eq")[0]
    except Missing as m: S.unknown("equal sets of states", "src/dfa_compiler.rs", str(m)); return
    def mk(e, st, nm):
        r = []
        for x, n in zip("ab", nm):
            c = ('l', 0, x); st.cells[c] = VAdt(DS, 0, (VSeq(tuple(('one', VInt(L(atom('sym', '%s%d' % (x, i), nonneg=True)), U)) for i in range(n)), U),)); r.append(VRef(c))
        return r
    def f(e, o, nm, args):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; a, b = ([L(atom('sym', '%s%d' % (x, i), nonneg=True)) for i in range(n)] for x, n in zip("ab", nm))
        if not isinstance(o.val, VBool): raise Taint("%r" % (o.val,))
        v = o.val.c if isinstance(o.val.c, bool) else e.decide(st, o.val.c)
        if v and not sets_equal(e, st, a, b): return "the states %s and %s count as the same set" % (", ".join(map(show, a)), ", ".join(map(show, b)))
        if not v and nm[0] == nm[1] and st.assume(*[eq(x, y) for x, y in zip(a, b)]): raise Taint("equal lists may count as different")
    small_lists(S, "sets of states are told apart (lists of up to three)", key, [(i, j) for i in range(4) for j in range(4) if i == j or i + j < 5], f, mk)
