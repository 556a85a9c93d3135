"""C22: every way of preparing and holding a machine is the same machine."""
from engine.spec import *
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with the conversions as uninterpreted functions (static analysis)"
RULE = ("Every PrepareToMatch impl is interpreted with to_pattern, to_ndfa and DfaCompiler::build left as uninterpreted functions of their arguments; the result must be the term build(ndfa(p, ()), new builder) for the pattern p the "
        "value stands for (its own pattern, the literal of its characters, or what to_pattern gives), build(m, new builder) for a boxed machine m, and the matcher itself for a prepared one. Every StateMachine impl of a Box or an Rc is "
        "interpreted with the queries of the held machine uninterpreted: each query must return exactly the held machine's answer to the same query with the same arguments. The same for the ToNdfa impls.")
SM = CRATE + "state_machine::StateMachine"; PTM = CRATE + "prepare::PrepareToMatch"; TON = CRATE + "state_machine::ToNdfa"; TOP = CRATE + "regular_pattern::ToPattern"

def check(S):
    PT = S.adt("regular_pattern::Pattern"); DC = S.adt("dfa_compiler::DfaCompiler"); SB = S.adt("symbol_range_dfa::SymbolRangeDfaBuilder"); SD = S.adt("symbol_range_dfa::SymbolRangeDfa")
    build = S.inherent(DC, "build"); MATCH = S.variant(PT, "Match")
    ndfa_key = S.timpl(TON, lambda t: t[0] == "adt" and t[1] == PT, "to_ndfa")[0]
    try: new_builder = S.inherent(SB, "new")
    except Missing: new_builder = None
    def deep(e, st, v):
        while isinstance(v, (VRef, VBox)): v = e.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    def conv_hook(eng, st, C):
        if C.key == build:
            m = deep(eng, st, C.args[0]); return [eng.out(st, eng.mk(atom('build', m, C.args[1]), ("opaque",)))]
        if C.trait == TON and C.method == "to_ndfa":
            t = C.targs[0]
            if is_opaque(t) or t[0] == "adt" and t[1] == PT:
                p = deep(eng, st, C.args[0])
                return [eng.out(st, VBox(eng.mk(atom('ndfa', p, C.args[1]), ("opaque",))))]
        if C.trait == TOP and C.method == "to_pattern" and is_opaque(C.targs[0]):
            return [eng.out(st, eng.mk(atom('pattern', deep(eng, st, C.args[0])), ad(PT, (("param", 0, "Symbol"),))))]
    def is_opaque(t): return t[0] in ("param", "proj", "dyn")
    def pat_same(e, st, p, want):
        """want: VSeq of symbols (a literal) or a pattern"""
        if isinstance(want, VSeq):
            if e.variant(st, p) == S.variant(PT, "Epsilon") and entails(st, eq(e.seq_len(want), ZERO)): return None
            a = e.as_adt(st, p) if e.variant(st, p) == MATCH else None
            if a is None: return "is not a literal"
            return explain(e, st, a.f[0], want)
        return explain(e, st, p, want)
    def term(v, kind):
        v = v.v if isinstance(v, VBox) else v
        if isinstance(v, VSym) and v.t.k[0] == kind: return v.t.k[1:]
    def show_head(t): return t[1].split("::")[-1] if t[0] == "adt" else ("&" + show_head(t[1]) if t[0] == "ref" else t[0])
    n = 0
    for im in S.P.by_trait.get(PTM, []):
        key = im["itemmap"].get("prepare_to_match")
        if not isinstance(key, str) or not im["itemmap"]: continue
        t = im["self"]
        if head(t).endswith("TokenMatcher"): continue     # C10
        name = "preparing %s" % show_head(t)
        e = S.engine(); args = S.sym_args(e, key); e.hooks.append(conv_hook); st = State(); n += 1
        src = deep(e, st, args[0])
        def expected_pattern():
            if isinstance(src, VSeq): return src
            if t[0] == "adt" and t[1] == PT: return src
            return e.mk(atom('pattern', src), ad(PT, (("param", 0, "Symbol"),)))
        outs = S.run(e, key, S.params(key), args, st)
        e2 = S.engine(); nb = S.run(e2, new_builder, tuple(("any",) for _ in S.body(new_builder).generics), []) if new_builder else []
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            if t[0] == "adt" and t[1] == SD: return explain(e, o.st, o.val, args[0])
            b = term(o.val, 'build')
            if b is None: raise Taint("the result is %r" % (o.val,))
            if len(nb) == 1:
                r = shape_diff(b[1], nb[0].val)
                if r: return "the builder is not a new one: %s" % r
            if t[0] == "adt" and t[1] == BOX: return explain(e, o.st, deep(e, o.st, b[0]), src)
            d = term(b[0], 'ndfa')
            if d is None: raise Taint("compiled from %r" % (b[0],))
            r = pat_same(e, o.st, d[0], expected_pattern())
            if r: return "another pattern: %s" % r
            if not (isinstance(d[1], VAdt) and not d[1].f): return "the output is %r" % (d[1],)
        S.judge(e, name, key, outs, f)
    # conversions to an NDFA
    for im in S.P.by_trait.get(TON, []):
        key = im["itemmap"].get("to_ndfa")
        t = im["self"]
        if not isinstance(key, str) or t[0] == "adt" and (t[1] == PT or t[1].endswith("TokenMatcher")): continue
        name = "to_ndfa of %s" % show_head(t)
        e = S.engine(); args = S.sym_args(e, key); st = State(); e.hooks.append(conv_hook)
        src = deep(e, st, args[0])
        outs = S.run(e, key, S.params(key), args, st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            d = term(o.val, 'ndfa')
            if d is None: raise Taint("the result is %r" % (o.val,))
            r = pat_same(e, o.st, d[0], src if isinstance(src, VSeq) else e.mk(atom('pattern', src), ad(PT, (("param", 0, "Symbol"),))))
            return ("another pattern: %s" % r) if r else explain(e, o.st, d[1], args[1])
        S.judge(e, name, key, outs, f)
    # holding a machine
    trait = S.P.traits.get(SM)
    for im in S.P.by_trait.get(SM, []):
        t = im["self"]
        if t[0] != "adt" or t[1] not in (BOX, "alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::sync::Arc"): continue
        for m in ("count_states", "get_transitions_for_state", "output_symbol_for_state", "output_symbols_for_state"):
            key = im["itemmap"].get(m) or SM + "::" + m
            name = "%s of %s" % (m, show_head(t))
            targs = S.params(key) if m in im["itemmap"] else tuple(im["targs"])
            e = S.engine(); st = State()
            inner = atom('sym', 'held'); held = VSym(inner, ("opaque",)); ok = True
            cell = ('l', 0, 'machine'); ic = ('l', 0, 'inner')
            if t[1] == BOX: st.cells[cell] = VBox(held, None)
            else: st.cells[ic] = held; st.cells[cell] = VRef(ic)
            body = S.body(key)
            args = [VRef(cell)] + [e.mk(e.sym("arg%d" % i), e.norm(subst_ty(body.locals[i + 1], targs))) for i in range(1, body.argc)]
            rty = e.norm(subst_ty(body.locals[0], targs))
            def h(eng, st2, C):
                if C.trait != SM: return None
                if not is_opaque(C.targs[0]): return None
                v = deep(eng, st2, C.args[0])
                if not (isinstance(v, VSym) and v.t is inner): raise Taint("query of %r" % (v,))
                b = S.body(SM + "::" + C.method) if SM + "::" + C.method in S.P.bodies else None
                return [eng.out(st2, answer(eng, C.method, C.args[1:]))]
            tys = {}
            for mm in ("count_states", "get_transitions_for_state", "output_symbol_for_state", "output_symbols_for_state"):
                k2 = im["itemmap"].get(mm) or SM + "::" + mm
                tg = S.params(k2) if mm in im["itemmap"] else tuple(im["targs"])
                tys[mm] = e.norm(subst_ty(S.body(k2).locals[0], tg))
            def answer(eng, m, a): return eng.mk(atom('query', m, *a), tys[m])
            e.hooks.append(h); e.classify_sort = lambda st3, f3, v3, C3: 'reordered'
            outs = S.run(e, key, targs, args, st)
            S.judge(e, name, key, outs, lambda o: "panics: %s" % o.msg if panics(o) else explain(e, o.st, o.val, answer(e, m, args[1:])))

def head(t):
    while t[0] == "ref": t = t[1]
    return t[1] if t[0] == "adt" else ""
def shape_diff(a, b):
    """difference of two closed values"""
    if isinstance(a, VAdt) and isinstance(b, VAdt):
        if a.k != b.k or a.v != b.v or len(a.f) != len(b.f): return "%r instead of %r" % (a, b)
        for x, y in zip(a.f, b.f):
            r = shape_diff(x, y)
            if r: return r
        return None
    if isinstance(a, VSeq) and isinstance(b, VSeq): return None if a.segs == b.segs else "%r instead of %r" % (a, b)
    if isinstance(a, VInt) and isinstance(b, VInt): return None if a.l == b.l else "%r instead of %r" % (a, b)
    if isinstance(a, VMap) and isinstance(b, VMap): return None if a.base is None and b.base is None and a.writes.segs == b.writes.segs else "%r" % (a,)
    return None if a == b else "%r instead of %r" % (a, b)
