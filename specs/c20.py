"""C20: building patterns out of parts."""
from engine.spec import *
LEVEL = "proof"
RULE = ("append and or are interpreted for every pair of pattern kinds with arbitrary contents (arrays of any length); the result, flattened into its sequence of parts (adjacent literals joined) or its list of alternatives, must "
        "be entailed equal to the parts of the first followed by those of the second. repeat and repeat_forever must give the body and bounds they are given. Every impl of ToPattern and IntoPattern found in the crate is "
        "interpreted: a value gives the literal of exactly its symbols in order, a pattern itself, and anything else what its own to_pattern gives.")
SYM = ("param", 0, "Symbol")

def check(S):
    PT = S.adt("regular_pattern::Pattern")
    V = {n: S.variant(PT, n) for n in ("Epsilon", "Match", "MatchRange", "RepeatInfinite", "Repeat", "MatchAll", "MatchAny")}
    TOP = CRATE + "regular_pattern::ToPattern"; INTOP = CRATE + "regular_pattern::IntoPattern"; PC = CRATE + "regular_pattern::PatternCombiner"; PTR = CRATE + "regular_pattern::PatternTransformer"
    def expand(e, st, p):
        """(variant, fields) of a pattern value"""
        if isinstance(p, VBox): p = p.v
        v = e.variant(st, p); return v, e.as_adt(st, p).f
    def opaque(p): return isinstance(p, VSym)
    def parts(e, st, p, top=True):
        """the pattern as a list of chunks: ('L', VSeq of symbols) | ('P', VSeq of patterns)"""
        if opaque(p) and not top and not known(e, st, p): return [('P', VSeq((('one', p),), pty(e)))]
        v, f = expand(e, st, p)
        if v == V["Epsilon"]: return []
        if v == V["Match"]: return [('L', f[0])]
        if v == V["MatchAll"]:
            r = []
            for g in f[0].segs:
                if g[0] == 'one': r += parts(e, st, g[1], False)
                else: r.append(('P', VSeq((g,), f[0].ety)))
            return r
        return [('P', VSeq((('one', VAdt(PT, v, f) if not opaque(p) else p),), pty(e)))]
    def known(e, st, p):
        try: e.variant(st, p); return True
        except Fork: return False
    def pty(e): return ad(PT, (SYM,))
    def merge(ch):
        r = []
        for k, s in ch:
            if r and r[-1][0] == k: r[-1] = (k, VSeq(norm_segs(tuple(r[-1][1].segs) + tuple(s.segs), s.ety), s.ety))
            else: r.append((k, s))
        return r
    def nonempty(e, st, ch):
        r = []
        for k, s in ch:
            if e.decide(st, gt(e.seq_len(s), ZERO)): r.append((k, s))
        return r
    def cmp_parts(e, o, got, want):
        st = o.st
        got = merge(nonempty(e, st, got)); want = merge(nonempty(e, st, want))
        if len(got) != len(want): return "%r, expected the parts %r" % (got, want)
        for (k, a), (k2, b) in zip(got, want):
            if k != k2: return "%r, expected the parts %r" % (got, want)
            r = explain(e, st, a, VSeq(b.segs, a.ety))
            if r: return r
    def alts(e, st, p):
        v, f = expand(e, st, p)
        if v == V["MatchAny"]:
            r = []
            for g in f[0].segs:
                r += list(alts(e, st, g[1]).segs) if g[0] == 'one' and known(e, st, g[1]) else [g]
            return VSeq(tuple(r), f[0].ety)
        return VSeq((('one', VAdt(PT, v, f)),), pty(e))
    def full(e, st, s):
        """opaque single patterns by their fields"""
        return VSeq(tuple(('one', VAdt(PT, *expand(e, st, g[1]))) if g[0] == 'one' else g for g in s.segs), s.ety)
    second = lambda e, ty: e.mk(e.sym("second"), ty)
    def into_hook(e, ty):
        v = second(e, ty)
        def h(eng, st, C):
            if C.trait in (INTOP, TOP) and C.targs[0][0] in ("param", "proj", "dyn"): return [eng.out(st, v)]
        e.hooks.append(h); return v
    def name(e, st, p):
        v = e.variant(st, p); return [n for n in V if V[n] == v][0]
    for m in ("append", "or"):
        key, im = S.timpl(PC, lambda t: t[0] == "adt" and t[1] == PT, m)
        e = S.engine(); args = S.sym_args(e, key); first = args[0]; ty = first.ty
        sec = into_hook(e, ty)
        outs = S.run(e, key, S.params(key), args)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            st = o.st
            for p in (first, sec): e.variant(st, p)
            if m == "append": r = cmp_parts(e, o, parts(e, st, o.val), parts(e, st, first) + parts(e, st, sec))
            else:
                a, b = alts(e, st, first), alts(e, st, sec)
                r = explain(e, st, full(e, st, alts(e, st, o.val)), VSeq(norm_segs(tuple(a.segs) + tuple(b.segs), a.ety), a.ety))
            if r and any(a not in (first.t, sec.t) for a in st.con.var): raise Taint("the result depends on the kind of a part of a part")
            if r: return "%s of %s and %s: %s" % (m, name(e, st, first), name(e, st, sec), r)
        S.judge(e, m, key, outs, f)
        # a few parts on either side, followed in full
        forms = [(k, n) for k in ("Match", "MatchAll", "MatchAny") for n in (0, 1, 2, 5)] + [("MatchRange", 0), ("Epsilon", 0)]
        sub = {}
        for k1, n1 in forms:
            for k2, n2 in forms:
                g = S.engine(); g.small = 12; g.unroll = 40; g.fan = 4000
                a = S.sym_args(g, key); ty = a[0].ty; el = ty[2][0]
                def mkpat(side, k, n):
                    x = lambda j, t: g.mk(atom('sym', "%s%s" % (side, j)), t)
                    fs = (VSeq(tuple(('one', x(j, el)) for j in range(n)), el),) if k == "Match" else (VSeq(tuple(('one', VAdt(PT, V["MatchRange"], (x(j, el), x("%d'" % j, el)))) for j in range(n)), ty),) if k.startswith("MatchA") else (x(0, el), x(1, el)) if k == "MatchRange" else ()
                    return VAdt(PT, V[k], fs)
                p1, p2 = mkpat("first", k1, n1), mkpat("second", k2, n2); a[0] = p1
                def h(eng, st, C, p2=p2):
                    if C.trait in (INTOP, TOP) and C.targs[0][0] in ("param", "proj", "dyn"): return [eng.out(st, p2)]
                g.hooks.append(h); outs = S.run(g, key, S.params(key), a)
                def f(o):
                    if panics(o): return "panics: %s" % o.msg
                    st = o.st
                    if m == "append": r = cmp_parts(g, o, parts(g, st, o.val), parts(g, st, p1) + parts(g, st, p2))
                    else:
                        x, y = alts(g, st, p1), alts(g, st, p2); r = explain(g, st, full(g, st, alts(g, st, o.val)), full(g, st, VSeq(norm_segs(tuple(x.segs) + tuple(y.segs), x.ety), x.ety)))
                    if r: return "%s(%d) and %s(%d): %s" % (k1, n1, k2, n2, r)
                T = Ctx(S.pid, S.P, S.tier); T.judge(g, "%s: few parts" % m, key, outs, f)
                for w in T.violations: sub.setdefault("violation", w)
                for w in T.inconclusive: sub.setdefault("unknown", w)
        if "violation" in sub: S.violation(*sub["violation"])
        elif "unknown" in sub: S.unknown(*sub["unknown"])
        else: S.ok("%s: few parts" % m, S.where(key), "%d pairs of kinds and numbers of parts" % (len(forms) ** 2))
    # repeats
    for m, vn in (("repeat_forever", "RepeatInfinite"), ("repeat", "Repeat")):
        key, im = S.timpl(PTR, lambda t: t[0] == "adt" and t[1] == PT, m)
        e = S.engine(); args = S.sym_args(e, key)
        outs = S.run(e, key, S.params(key), args)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            v, fs = expand(e, o.st, o.val)
            if v != V[vn]: return "gives another kind of pattern"
            return explain(e, o.st, fs[0], args[1]) or explain(e, o.st, fs[1], VBox(args[0]))
        S.judge(e, m, key, outs, f)
    # conversions
    def deep(e, st, v):
        while isinstance(v, (VRef, VBox)): v = e.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    n = 0
    for tr, m in ((TOP, "to_pattern"), (INTOP, "into_pattern")):
        for im in S.P.by_trait.get(tr, []):
            key = im["itemmap"].get(m)
            if not isinstance(key, str): continue
            n += 1
            e = S.engine(); args = S.sym_args(e, key); st = State()
            body = S.body(key); rty = e.norm(subst_ty(body.locals[0], S.params(key)))
            other = e.mk(e.sym("converted"), rty)
            def h(eng, st, C, other=other):
                if C.trait in (TOP, INTOP) and C.targs[0][0] in ("param", "proj", "dyn"): return [eng.out(st, other)]
            e.hooks.append(h)
            outs = S.run(e, key, S.params(key), args, st)
            src = deep(e, st, args[0])
            def f(o):
                if panics(o): return "panics: %s" % o.msg
                if isinstance(src, VSeq): return cmp_parts(e, o, parts(e, o.st, o.val), [('L', src)])
                if isinstance(src, VSym) and src.ty == rty:
                    e.variant(o.st, src)
                    return explain(e, o.st, VAdt(PT, *expand(e, o.st, o.val)), VAdt(PT, *expand(e, o.st, src)))
                if isinstance(src, VInt): return explain(e, o.st, VAdt(PT, *expand(e, o.st, o.val)), VAdt(PT, *expand(e, o.st, other)))
                raise Taint("conversion from %r" % (src,))
            S.judge(e, "%s for %s" % (m, show_ty(im["self"])), key, outs, f)
    key = S.fn("regular_pattern::exactly"); e = S.engine(); args = S.sym_args(e, key)
    rty = e.norm(subst_ty(S.body(key).locals[0], S.params(key))); v = into_hook(e, rty)
    outs = S.run(e, key, S.params(key), args)
    S.judge(e, "exactly", key, outs, lambda o: "panics" if panics(o) else explain(e, o.st, VAdt(PT, *expand(e, o.st, o.val)), VAdt(PT, *expand(e, o.st, v))))

def show_ty(t):
    if t[0] == "adt": return t[1].split("::")[-1] + ("<%s>" % ", ".join(show_ty(x) for x in t[2] if x != ("lt",)) if t[2] else "")
    if t[0] == "ref": return "&" + show_ty(t[1])
    if t[0] == "slice": return "[%s]" % show_ty(t[1])
    if t[0] == "param": return t[2]
    if t[0] == "int": return t[1]
    return t[0]
