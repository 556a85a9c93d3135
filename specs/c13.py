"""C13: match_pattern feeds each symbol once and stops at the first decision; matches reports the accepted length."""
from engine.spec import *
LEVEL = "proof"
TECHNIQUE = "typestate / protocol monitor on an abstract interpretation of MIR with loop summaries (static analysis)"
RULE = ("match_pattern is interpreted abstractly with an arbitrary reader (a position in an unknown stream of results) and an arbitrary matcher (its k-th decision is an unknown term; the state inside the k-th decision is the only way to "
        "ask for the next one). At every call of next / finish the monitor requires: the state passed is that of the latest decision k, exactly k symbols have been read before, the symbol passed is the one just read, finish only after "
        "the reader returned None. At the return the result must be the latest decision, not More, and the number of reads exactly what those decisions needed. matches and matches_prepared must run match_pattern once on the start of the "
        "prepared matcher and the start of the source, and map Accept(n, _) to Some(n) and Reject to None. is_accepted must answer yes exactly for an acceptance whose output equals the one asked for.")
NOTE = "All matchers, readers and input lengths; assumes finish() never returns More (documented in the trait)."
DEC = atom('sym', 'decision'); FIN = atom('sym', 'final')

def check(S, callers=True):
    MA = S.adt("pattern_matcher::MatchAction"); REJ, ACC, MORE = [S.variant(MA, n) for n in ("Reject", "Accept", "More")]
    MS = CRATE + "pattern_matcher::MatchingState"
    key = S.fn("matches::match_pattern"); b = S.body(key)
    e = S.engine()
    args = S.sym_args(e, key); P = dict((p[2], p) for p in S.params(key) if p[0] == "param")
    INPUT, STATE = P["InputSymbol"], P["State"]
    mat = e.norm(S.argty(e, key, 0))
    dec = lambda k: e.mk(values.elem_atom(DEC, L(k)), mat)
    fin = lambda k: e.mk(values.elem_atom(FIN, L(k)), mat)
    e.hooks.append(reader_hook(INPUT))
    st = State()
    rd = e.read(st, args[1].cell, args[1].path)
    R0 = L(rd.t) if isinstance(rd, VSym) else rd.l
    def count_of(v):
        """k when v is the state inside decision k"""
        if not isinstance(v, VInt): return None
        t = v.l.single()
        if t is not None and t.k[0] == 'fld' and t.k[1].k[0] == 'elem' and t.k[1].k[1] is DEC and t.k[2] == MORE: return L(t.k[1].k[2])
    def read_pos(st):
        v = e.read(st, args[1].cell, args[1].path)
        return v.l if isinstance(v, VInt) else L(v.t)
    def hook(eng, st, C):
        if C.trait != MS or C.method not in ("next", "finish"): return None
        k = count_of(C.args[0])
        if k is None: raise Taint("matcher state %r" % (C.args[0],))
        if C.method == "next":
            if not entails(st, eq(read_pos(st), R0 + k + 1)): eng.obls.append(("a symbol is passed to the matcher after %s reads, expected %s" % (show(read_pos(st) - R0), show(k + 1)), C.span))
            want = eng.as_adt(st, stream_at(eng, R0 + k, INPUT)) if eng.variant(st, stream_at(eng, R0 + k, INPUT)) == 1 else None
            if want is None or not same(eng, st, C.args[1], want.f[0]): eng.obls.append(("the matcher is given %r as symbol number %s instead of the symbol read" % (C.args[1], show(k)), C.span))
            return [eng.out(st, dec(k + 1))]
        if not entails(st, eq(read_pos(st), R0 + k + 1)): eng.obls.append(("finish() is called after %s reads with %s symbols fed" % (show(read_pos(st) - R0), show(k)), C.span))
        if eng.variant(st, stream_at(eng, R0 + k, INPUT)) != 0: eng.obls.append(("finish() is called although the reader has not ended", C.span))
        res = fin(k); r = []
        for con in st.con.assume(('var', res.t, MORE, False)): x = st.copy(); x.con = con; r.append(eng.out(x, res))
        return r
    e.hooks.append(hook)
    outs = S.run(e, key, S.params(key), [dec(ZERO), args[1]], st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        v = o.val; i = e.variant(o.st, v)
        if i == MORE: return "returns although the matcher wants more symbols"
        reads = read_pos(o.st) - R0
        t = v.t if isinstance(v, VSym) else None
        if t is None:
            # rebuilt from its parts: find the decision it is equal to
            for a in list(prove.all_atoms(o.st.con)):
                if a.k[0] == 'elem' and a.k[1] in (DEC, FIN) and o.st.con.var.get(a) == i and same(e, o.st, v, e.mk(a, mat)): t = a; break
        if t is None or t.k[0] != 'elem' or t.k[1] not in (DEC, FIN): return "returns %r, which is not a decision of the matcher" % (v,)
        k = L(t.k[2])
        if t.k[1] is DEC:
            if not entails(o.st, eq(reads, k)): return "returns decision %s after %s reads" % (show(k), show(reads))
        else:
            if not entails(o.st, eq(reads, k + 1)): return "returns the final decision after %s symbols, having read %s times" % (show(k), show(reads))
            if e.variant(o.st, stream_at(e, R0 + k, INPUT)) != 0: return "returns a final decision although the reader has not ended"
    S.judge(e, "match_pattern", key, outs, f, facts_ok=True)
    if not callers: return
    # ---- the callers
    mp = key
    for name, prep in (("matches", True), ("matches_prepared", False)):
        key = S.fn("matches::" + name); e = S.engine(); calls = []
        params = S.params(key); P = dict((p[2], p) for p in params if p[0] == "param")
        D = S.adt("symbol_range_dfa::SymbolRangeDfa"); dty = ad(D, (P["Symbol"], P["OutputSymbol"]))
        MATCHER = e.mk(e.sym("prepared"), dty); RDR = e.sym("reader")
        R = S.adt("symbol_range_dfa::SymbolRangeState"); RES = e.sym("result")
        def hook(eng, st, C):
            if C.trait == CRATE + "prepare::PrepareToMatch" and C.method == "prepare_to_match" and C.targs[0][0] == "param": return [eng.out(st, MATCHER)]
            if C.trait == CRATE + "symbol_reader::SymbolSource" and C.method == "read_symbols" and C.targs[0][0] == "param": return [eng.out(st, VInt(L(RDR), P["Reader"]))]
            if C.key == mp:
                r = C.args[1]
                while isinstance(prims.rd(eng, st, r), VRef): r = prims.rd(eng, st, r)
                pos = prims.rd(eng, st, r)
                if not (isinstance(pos, VInt) and entails(st, eq(pos.l, L(RDR)))): eng.obls.append(("match_pattern is not run on the start of the source (%r)" % (pos,), C.span))
                s0 = eng.as_adt(st, C.args[0])
                if s0.v != MORE: eng.obls.append(("match_pattern is not started with the start of the matcher", C.span))
                m = eng.read(st, *(lambda v: (v.cell, v.path))(eng.as_adt(st, s0.f[0]).f[S.field(R, "state_machine")]))
                while isinstance(m, VRef): m = eng.read(st, m.cell, m.path)
                if not same(eng, st, m, MATCHER if prep else eng.read(st, args[1].cell, args[1].path)): eng.obls.append(("match_pattern is run on another matcher", C.span))
                prims.wr(eng, st, r, VInt(pos.l + 1, pos.ty))
                return [eng.out(st, eng.mk(RES, eng.norm(subst_ty(eng.P.bodies[mp].locals[0], C.targs))))]
        e.hooks.append(hook); e.hooks.append(reader_hook(P["Symbol"]))
        args = S.sym_args(e, key); st = State()
        outs = S.run(e, key, params, args, st)
        def f(o):
            if panics(o): return None if "index out of bounds" in (o.msg or "") else "panics: %s" % o.msg
            v = o.st.con.var.get(RES)
            if v is None or isinstance(v, frozenset):
                if isinstance(v, frozenset) and ACC in v and REJ not in v: v = REJ
                else: raise Taint("match_pattern is not used")
            i = e.variant(o.st, o.val)
            if v == ACC:
                if i != 1: return "reports no match although the matcher accepted"
                n = e.expand(e.mk(RES, ad(MA, (P["OutputSymbol"], ("tuple", ())))), ACC).f[0]
                if not same(e, o.st, e.as_adt(o.st, o.val).f[0], n): return "reports %r symbols, expected the accepted length" % (e.as_adt(o.st, o.val).f[0],)
            elif v == REJ and i != 0: return "reports a match although the matcher rejected"
        S.judge(e, name, key, outs, f)
    # ---- asking for one output
    key = S.inherent(MA, "is_accepted"); e = S.engine(); args = S.sym_args(e, key); st = State()
    val = lambda st, v: val(st, e.read(st, v.cell, v.path)) if isinstance(v, VRef) else v
    act, want = val(st, args[0]), val(st, args[1])
    outs = S.run(e, key, S.params(key), args, st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        if e.variant(o.st, act) != ACC: return bool_is(o.st, o.val, lt(ONE, ZERO)) and "answers yes although nothing was accepted"
        return bool_is(o.st, o.val, eq(val(o.st, e.as_adt(o.st, act).f[1]).l, want.l))
    S.judge(e, "is_accepted", key, outs, f)
