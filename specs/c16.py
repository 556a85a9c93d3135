"""C16: iterating a tokenizer."""
from engine.spec import *
from specs.tapemodel import *
from specs import c15
LEVEL = "proof"
TECHNIQUE = "modular abstract interpretation of MIR with callee contracts and loop summaries (static analysis)"
RULE = ("Iterator::next of Tokenizer is interpreted with next_token, skip_input and at_end_of_reader by contract (C15/C14, re-checked here): whether a token starts at a position and how long it is are unknown functions of the position. For every "
        "position, input length and such functions: a returned token must be the one that starts at the first position at or after the current one at which there is a token (shown from the facts the loop leaves for every position skipped), the new "
        "position its end; None only if the position has reached the end of the input and no position passed has a token. Every loop iteration must advance the position (or the iteration ends).")
NOTE = "All token functions and inputs, given the callee contracts which are re-checked here."

def check(S):
    T, fd, ft, R = c15.setup(S)
    DFA = S.adt("symbol_range_dfa::SymbolRangeDfa")
    nt = S.inherent(T, "next_token")
    key, im = S.timpl("core::iter::traits::iterator::Iterator", lambda t: t[0] == "adt" and t[1] == T, "next")
    body = S.body(key)
    for which in range(len(S.P.adts[R]["variants"])):
        if True:
            e = S.engine(); params = S.params(key); P = dict((p[2], p) for p in params if p[0] == "param")
            IN, OUT = P["InputSymbol"], P["OutputSymbol"]; dty = ad(DFA, (IN, OUT))
            e.hooks.append(tape_hook(S, IN))
            ref, D, base, pos0, seen0, sts = c15.tokenizer(S, e, State(), which, dty)
            TOK = e.sym("token_at"); tty = opt(("tuple", (USIZE, OUT))); E = END(e)
            tok = lambda p: e.mk(values.elem_atom(TOK, L(p)), tty)
            def tref(eng, st, v):
                for _ in range(6):
                    x = prims.rd(eng, st, v)
                    if isinstance(x, VAdt) and x.k == T: return v
                    v = x
                raise Taint("tokenizer %r" % (v,))
            def hook(eng, st, C):
                if C.key != nt: return None
                r = tref(eng, st, C.args[0]); v = prims.rd(eng, st, r); tp = v.f[ft]
                base, pos, seen = [x.l for x in tp.f]
                last = st.cells[('g', 'last')].l
                if not entails(st, gt(pos, last)): eng.obls.append(("asks again for a token at a position (%s) it has already been told has none: the iteration may not progress" % show(pos), C.span))
                def put(x, *a):
                    x.cells[('g', 'last')] = VInt(pos, ("int", "isize"))
                    fs = list(v.f); fs[ft] = vtape(*a); prims.wr(eng, x, r, VAdt(T, 0, fs))
                outs = []; t = tok(pos)
                # some results are read past the position, at least the one at it
                far = L(atom('far', pos, nonneg=True))
                for x in st.assume(('var', t.t, 0, True), ge(far, pos + 1), le(far, E + 1)):
                    for y in x.assume(le(far, seen)): put(y, base, pos, seen); outs.append(eng.out(y, prims.NONE))
                    for y in x.assume(gt(far, seen)): put(y, base, pos, far); outs.append(eng.out(y, prims.NONE))
                n, o = eng.expand(t, 1).f[0].f
                for x in st.assume(('var', t.t, 1, True), ge(n.l, ONE), le(pos + n.l, E), ge(far, pos + n.l), le(far, E + 1)):
                    for cond, s2 in ((le(far, seen), seen), (gt(far, seen), far)):
                        for y in x.assume(cond):
                            put(y, pos + n.l, pos + n.l, s2)
                            outs.append(eng.out(y, prims.some(VAdt("tuple", 0, (VAdt(RANGE, 0, (VInt(pos, USIZE), VInt(pos + n.l, USIZE))), o)))))
                return outs
            e.hooks.insert(0, hook)
            for st in sts: st.cells[('g', 'last')] = VInt(pos0 - 1, ("int", "isize"))
            outs = [o for st in sts for o in S.run(e, key, params, [ref], st)]
            def none_at(st, lo, hi):
                """every position in [lo, hi) has no token"""
                k = L(e.fresh("k", nonneg=True)); t = tok(k)
                for x in st.assume(ge(k, lo), lt(k, hi), ('var', t.t, 1, True)):
                    if not prove.refute(x): return False
                return True
            def f(o):
                if panics(o): return "panics: %s" % o.msg
                tp = o.st.cells[('l', 0, 'tokenizer')].f[ft]; pos = tp.f[1].l
                i = e.variant(o.st, o.val)
                if i == 0:
                    if not entails(o.st, ge(pos, E)): return "ends at position %s although the input is not consumed" % show(pos)
                    if not none_at(o.st, pos0, pos): return "ends although a token may start at a position it passed"
                    return None
                t = e.as_adt(o.st, o.val).f[0]; r, sym = t.f; r = e.as_adt(o.st, r); a, b = r.f[0].l, r.f[1].l
                if not entails(o.st, ge(a, pos0)): return "returns a token that starts at %s, before the current position" % show(a)
                if not none_at(o.st, pos0, a): return "skips a position at which a token may start (the token returned starts at %s)" % show(a)
                tk = tok(a)
                if e.variant(o.st, tk) != 1: return "returns a token where none starts"
                n, sy = e.expand(tk, 1).f[0].f
                if not entails(o.st, eq(b, a + n.l)) or not same(e, o.st, sym, sy): return "the token returned is not the one found at %s" % show(a)
                if not entails(o.st, eq(pos, b)): return "continues at %s instead of the end of the token %s" % (show(pos), show(b))
            S.judge(e, "next [%s matcher]" % S.P.adts[R]["variants"][which][0], key, outs, f, facts_ok=True)
    c15.check(S)
