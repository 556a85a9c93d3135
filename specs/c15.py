"""C15: next_token covers the accepted symbols and consumes exactly them; a failed match consumes nothing."""
from engine.spec import *
from specs.tapemodel import *
LEVEL = "proof"
TECHNIQUE = "modular abstract interpretation of MIR with callee contracts (static analysis)"
RULE = ("Tokenizer methods are interpreted with the tape and match_pattern replaced by their contracts (C14: position, last cut, end; C12/C13: the matcher reads some m >= 0 symbols from the current position and accepts n <= m of them "
        "or rejects). For every position, m, n and outcome, next_token must run the matcher once from its start on the tape and must return the range of the n accepted symbols with the matcher's output and end exactly behind it when "
        "n > 0, and return nothing with the position unchanged otherwise; no path may rewind past the last cut. next_symbol must be next_token's symbol; skip_input, get_source_position, at_end_of_reader the tape's. The contracts "
        "are themselves checked on the current source by re-running the C12, C13 and C14 obligations they come from.")
NOTE = "All matchers, inputs and positions, given the callee contracts which are re-checked here."

def setup(S):
    """(tokenizer type, field numbers)"""
    T = S.adt("tokenizer::Tokenizer"); R = S.adt("tokenizer::ReferenceOrOwned")
    return T, S.field(T, "dfa"), S.field(T, "tape"), R
def tokenizer(S, e, st, which, dty):
    T, fd, ft, R = setup(S)
    D = e.mk(e.sym("dfa"), dty)
    if S.variant(R, "Reference") == which:
        st.cells[('l', 0, 'dfa')] = D; d = VAdt(R, which, [VRef(('l', 0, 'dfa'))])
    else: d = VAdt(R, which, [D])
    base, pos = L(e.sym("base", nonneg=True)), L(e.sym("pos", nonneg=True))
    seen = L(e.sym("seen", nonneg=True))
    fs = [UNDEF] * len(S.P.adts[T]["variants"][0][2]); fs[fd] = d; fs[ft] = vtape(base, pos, seen)
    c = ('l', 0, 'tokenizer'); st.cells[c] = VAdt(T, 0, fs)
    return VRef(c), D, base, pos, seen, st.assume(le(base, pos), le(pos, END(e)), le(pos, seen), le(seen, END(e) + 1))

def lemmas(S):
    from specs import c12, c13, c14
    c12.check(S); c13.check(S, callers=False); c14.check(S, lemma=True)

def check(S, keep=False):
    """keep: only that a token leaves nothing before its end on the tape (C26)"""
    T, fd, ft, R = setup(S)
    DFA = S.adt("symbol_range_dfa::SymbolRangeDfa"); RS = S.adt("symbol_range_dfa::SymbolRangeState"); MA = S.adt("pattern_matcher::MatchAction")
    REJ, ACC, MORE = [S.variant(MA, n) for n in ("Reject", "Accept", "More")]
    mp = S.fn("matches::match_pattern")
    def env(key):
        e = S.engine(); params = S.params(key); P = dict((p[2], p) for p in params if p[0] == "param")
        IN, OUT = P["InputSymbol"], P["OutputSymbol"]
        e.hooks.append(tape_hook(S, IN))
        return e, params, IN, OUT, ad(DFA, (IN, OUT))
    def mp_hook(e, D, RES, M):
        def hook(eng, st, C):
            if C.key != mp: return None
            r = tape_ref(eng, st, C.args[1])
            if r is None: raise Taint("match_pattern on %r" % (C.args[1],))
            v = prims.rd(eng, st, r); base, pos, seen = [x.l for x in v.f]
            s0 = eng.as_adt(st, C.args[0])
            if s0.v != MORE: eng.obls.append(("match_pattern is not started with the start of the matcher", C.span))
            run = eng.as_adt(st, s0.f[0])
            m = run.f[S.field(RS, "state_machine")]
            while isinstance(m, VRef): m = eng.read(st, m.cell, m.path)
            if not same(eng, st, m, D): eng.obls.append(("another matcher is run", C.span))
            for n in ("state", "count"):
                if not entails(st, eq(run.f[S.field(RS, n)].l, ZERO)): eng.obls.append(("the matcher is not run from its start state", C.span))
            if st.notes: eng.obls.append(("the matcher is run more than once", C.span))
            res = eng.mk(RES, eng.norm(subst_ty(eng.P.bodies[mp].locals[0], C.targs)))
            E = END(eng); outs = []
            for kind in (REJ, ACC):
                n = eng.expand(res, kind).f[0].l if kind == ACC else ZERO
                # the matcher takes m symbols, at least one unless it finds the end, and it may find the end after them
                for more, cs in ((0, [ge(M, ONE), le(pos + M, E)]), (1, [eq(pos + M, E)])):
                    for x in st.assume(('var', RES, kind, True), le(n, M), *cs):
                        far = pos + M + more
                        for cond, s2 in ((le(far, seen), seen), (gt(far, seen), far)):
                            for y in x.assume(cond):
                                prims.wr(eng, y, r, vtape(base, pos + M, s2)); y.notes = y.notes + ("run",)
                                outs.append(eng.out(y, res))
            return outs
        return hook
    def tape_of(o): return o.st.cells[('l', 0, 'tokenizer')].f[ft]
    def each(key, name, f, with_match=False):
        for which in range(len(S.P.adts[R]["variants"])):
            e, params, IN, OUT, dty = env(key)
            RES, M = e.sym("result"), L(e.sym("matched", nonneg=True))
            ref, D, base, pos, seen, sts = tokenizer(S, e, State(), which, dty)
            e.hooks.append(mp_hook(e, D, RES, M))
            outs = [o for st in sts for o in S.run(e, key, params, [ref], st)]
            S.judge(e, "%s [%s matcher]" % (name, S.P.adts[R]["variants"][which][0]), key, outs, lambda o: f(e, o, RES, pos, base, seen, IN, OUT))
    def moved(o, pos, what):
        v = tape_of(o); 
        if not entails(o.st, eq(v.f[1].l, pos)): return "%s leaves the position at %r, expected %s" % (what, v.f[1], show(pos))
        if not entails(o.st, le(v.f[0].l, v.f[1].l)): return "cut past the position"
    def token(e, o, RES, pos, base, seen, IN, OUT, only_symbol=False):
        if panics(o): return None if "index out of bounds" in (o.msg or "") else "panics: %s" % o.msg
        if not o.st.notes: return "answers without running the matcher"
        i = e.variant(o.st, o.val); k = o.st.con.var.get(RES)
        if k == ACC:
            res = e.expand(e.mk(RES, ad(MA, (OUT, ("tuple", ())))), ACC); n = res.f[0].l
            bad = None
            for x in o.st.assume(ge(n, ONE)):
                ox = Out(o.kind, x, o.val)
                if i != 1: return "returns no token although a non-empty match was found"
                t = e.as_adt(x, o.val).f[0]
                if not only_symbol:
                    r, t = t.f
                    if not entails(x, eq(r.f[0].l, pos)): return "the token starts at %r, expected the current position %s" % (r.f[0], show(pos))
                    if not entails(x, eq(r.f[1].l, pos + n)): return "the token ends at %r, expected %s" % (r.f[1], show(pos + n))
                b = res.f[1]; b = e.read(x, b.cell, b.path) if isinstance(b, VRef) else b
                if not same(e, x, t, b): return "the token's symbol is %r, expected the matcher's output" % (t,)
                bad = moved(ox, pos + n, "a token of length %s" % show(n))
                if bad: return bad
            for x in o.st.assume(le(n, ZERO)):
                if i != 0: return "returns a token for an empty match"
                bad = moved(Out(o.kind, x, o.val), pos, "an empty match")
                if bad: return bad
            return None
        if k != REJ: raise Taint("outcome of the match")
        if i != 0: return "returns a token although nothing matched"
        return moved(o, pos, "a failed match")
    def cut(e, o, RES, pos, base, seen, IN, OUT):
        if panics(o) or not o.st.notes: return None
        if o.st.con.var.get(RES) != ACC or e.variant(o.st, o.val) != 1: return None
        v = tape_of(o)
        if not entails(o.st, eq(v.f[0].l, v.f[1].l)): return "after a token the tape keeps what was read from %s on, although everything before %s is done with" % (show(v.f[0].l), show(v.f[1].l))
    isT = lambda t: t[0] == "adt" and t[1] == T
    if keep:
        each(S.inherent(T, "next_token"), "next_token leaves nothing before the token's end on the tape", cut)
        each(S.timpl(READER, isT, "next_symbol")[0], "next_symbol leaves nothing before the token's end on the tape", cut); return
    each(S.inherent(T, "next_token"), "next_token", token)
    k, im = S.timpl(READER, isT, "next_symbol")
    each(k, "next_symbol", lambda *a: token(*a, only_symbol=True))
    def skip(e, o, RES, pos, base, seen, IN, OUT):
        if panics(o): return "panics: %s" % o.msg
        i = e.variant(o.st, o.val)
        for x in o.st.assume(lt(pos, END(e))):
            if i != 1 or not same(e, x, e.as_adt(x, o.val).f[0], e.mk(values.elem_atom(STREAM, pos), IN)): return "does not return the symbol at the position"
            r = moved(Out(o.kind, x, o.val), pos + 1, "skipping")
            if r: return r
        for x in o.st.assume(ge(pos, END(e))):
            if i != 0: return "returns a symbol at the end"
            r = moved(Out(o.kind, x, o.val), pos, "skipping at the end")
            if r: return r
    each(S.inherent(T, "skip_input"), "skip_input", skip)
    def getpos(e, o, RES, pos, base, seen, IN, OUT):
        if panics(o): return "panics: %s" % o.msg
        if not entails(o.st, eq(o.val.l, pos)): return "returns %r, expected the position %s" % (o.val, show(pos))
        return moved(o, pos, "asking for the position")
    each(S.inherent(T, "get_source_position"), "get_source_position", getpos)
    def atend(e, o, RES, pos, base, seen, IN, OUT):
        if panics(o): return "panics: %s" % o.msg
        r = bool_is(o.st, o.val, conj([ge(pos, END(e)), gt(seen, END(e))]))
        return r or moved(o, pos, "asking for the end")
    each(S.inherent(T, "at_end_of_reader"), "at_end_of_reader", atend)
    # ---- construction: the tape starts at the start of the source with nothing read
    for n in ("new", "new_prepared"):
        key = S.inherent(T, n); e = S.engine(); params = S.params(key); P = dict((p[2], p) for p in params if p[0] == "param")
        e.hooks.append(tape_hook(S, P["InputSymbol"]))
        SRC = VInt(L(e.sym("source")), P["Reader"]); PREP = e.mk(e.sym("prepared"), ad(DFA, (P["InputSymbol"], P["OutputSymbol"])))
        def hook(eng, st, C):
            if C.trait == CRATE + "prepare::PrepareToMatch" and C.targs[0][0] == "param":
                st.notes = st.notes + ("prep",); return [eng.out(st, PREP)]
        e.hooks.append(hook)
        st = State(); args = S.sym_args(e, key); args[0] = SRC
        if n == "new_prepared": want = e.read(st, args[1].cell, args[1].path)
        else: want = PREP
        outs = S.run(e, key, params, args, st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            v = o.val
            tp = v.f[ft]
            if not (isinstance(tp, VAdt) and tp.k == VT and entails(o.st, eq(tp.f[1].l, ZERO)) and entails(o.st, eq(tp.f[0].l, ZERO))): return "the tape does not start at the start of the source"
            d = e.as_adt(o.st, v.f[fd]).f[0]
            d = e.read(o.st, d.cell, d.path) if isinstance(d, VRef) else d
            if not same(e, o.st, d, want): return "the tokenizer runs another matcher than the one given"
        S.judge(e, n, key, outs, f)
    lemmas(S)
