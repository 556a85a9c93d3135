"""C18: tagging keeps every symbol of the stream in order."""
from engine.spec import *
from engine.lin import subst, atoms_of
from engine.rec import recs
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR on symbolic sequences, induction over the loop summary (static analysis)"
RULE = ("tag, tag_range and with_tags are interpreted on a stream of any length with symbolic ranges; the stream that results must be, as a sequence, the symbols around the ranges with one tag in place of each, holding the symbols of the range. "
        "with_tags is followed in full for lists of up to two tags (four in the thorough tier) and, for lists of any length, by induction on the loop summary: the position up to which symbols were taken starts at 0 and becomes the end of each tag; "
        "each step adds the symbols up to the tag and the tag, what follows the last tag is added at the end. A path that returns must have an ascending list, and no path panics for a list that is. tokenize must tag the ranges of the tokens its tokenizer "
        "gives (any list, as above), made for the matcher and the mapped symbols of the stream; from_reader must hold exactly the symbols read up to the end.")
NOTE = "Ranges within the stream. The tokens come from Tokenizer::next, which C15/C16 decide. The list of tags is any finite iterator."

def check(S):
    T = S.adt("tagged_stream::TaggedStream"); G = S.adt("tagged_stream::TagSymbol"); fd = S.field(T, "data")
    UN, TG = S.variant(G, "Untagged"), S.variant(G, "Tagged"); SC = ('l', 0, 'stream')
    thorough = S.tier == "thorough"
    def stream(v): return VAdt(T, 0, (v,))
    def tagged(t, v): return VAdt(G, TG, (t, stream(v)))
    def setup(e, key, targs):
        t = S.argty(e, key, 0, targs)
        while t[0] == "ref": t = t[1]
        st = State(); v = e.as_adt(st, e.mk(e.sym("stream"), t)); st.cells[SC] = v; D = v.f[fd]
        return st, D, e.seq_len(D)
    def same_seq(e, st, a, b):
        return explain(e, st, a, b)
    def diff(e, st, got, want, what):
        r = same_seq(e, st, got, want)
        return None if r is None else "%s: %s" % (what, r)
    # ---- tag, tag_range
    for name in ("tag", "tag_range"):
        key = S.inherent(T, name); e = S.engine(); st, D, N = setup(e, key, S.params(key))
        if S.body(key).argc != 3: raise Missing(name)
        lo, hi = L(e.sym("lo")), L(e.sym("hi")); st1 = []
        lo, hi = [VInt(L(atom('sym', n, nonneg=True)), USIZE) for n in ("lo", "hi")]
        args = [VRef(SC)]; tv = None
        for i in (1, 2):
            ty = S.argty(e, key, i)
            if ty[0] == "adt" and ty[1] == RANGE: args.append(VAdt(RANGE, 0, (lo, hi)))
            else: tv = e.mk(e.sym("tag"), ty); args.append(tv)
        st1, = st.assume(le(lo.l, hi.l), le(hi.l, N))
        outs = S.run(e, key, S.params(key), args, st1)
        def f(o):
            if panics(o): return "panics for a range within the stream: %s" % o.msg
            x = tagged(tv, e.seq_slice(o.st, D, lo.l, hi.l)); after = o.st.cells[SC].f[fd]
            if name == "tag_range":
                r = explain(e, o.st, o.val, x)
                if r: return "the tag: %s" % r
                return diff(e, o.st, after, D, "the stream changes")
            want = VSeq(e.seq_slice(o.st, D, ZERO, lo.l).segs + (('one', x),) + e.seq_slice(o.st, D, hi.l, N).segs, D.ety)
            return diff(e, o.st, after, want, "the stream")
        S.judge(e, name, key, outs, f)
    # ---- with_tags
    def expect(e, st, D, tags):
        """the stream with a list of spelled out tags"""
        segs = (); cur = ZERO
        for a, b, t in tags:
            segs += e.seq_slice(st, D, cur, a).segs + (('one', tagged(t, e.seq_slice(st, D, a, b))),); cur = b
        return VSeq(segs + e.seq_slice(st, D, cur, e.seq_len(D)).segs, D.ety)
    def parts(e, st, v):
        v = e.as_adt(st, v); r = e.as_adt(st, v.f[0]); return r.f[0].l, r.f[1].l, v.f[1]
    def valid(tags, N):
        c = []; cur = ZERO
        for a, b, _ in tags: c += [le(cur, a), le(a, b)]; cur = b
        return c + [le(cur, N)]
    def holds(st, c): return c is True or not st.assume(neg(c))
    def small(name, key, e, outs, D, item, n, tokens=False):
        N = e.seq_len(D)
        def f(o):
            tags = [parts(e, o.st, item(j)) for j in range(n)]
            if panics(o):
                return "panics for an ascending list: %s" % o.msg if o.st.assume(*valid(tags, N)) else None
            for c in valid(tags, N):
                if not holds(o.st, c): return "a list that is not in order, or out of the stream, is accepted"
            r = diff(e, o.st, o.st.cells[SC].f[fd], D, "the stream changes")
            return r or diff(e, o.st, e.as_adt(o.st, o.val).f[fd], expect(e, o.st, D, tags), "the tagged stream")
        S.judge(e, name, key, outs, f)
    def general(name, key, e, outs, D, item, M):
        N = e.seq_len(D)
        def at(st, i): return parts(e, st, item(i))
        def cursor(o):
            """the loop value that starts at 0 and is set to the end of each tag"""
            c = []
            for r in recs(e, o):
                for loc, d in r.locs.items():
                    z = r.zero.get(loc)
                    if len(d) != len(r.cases) or not (z is None or isinstance(z, VInt)): continue
                    if not all(isinstance(v, VInt) and cmpm.Cmp(e, o.st.con, o.st.facts).ints(v.l, at(o.st, r.K)[1]) for a, v in d.values()): continue
                    a0 = L(r.at(loc, ZERO))
                    if z is not None and z.l.const() == 0 or holds(o.st, eq(a0, ZERO)): c.append((r, loc))
            return c
        def f(o):
            st = o.st; cs = cursor(o)
            if not cs:
                # the loop was not entered
                if holds(st, eq(M, ZERO)):
                    if panics(o): return "panics for an empty list: %s" % o.msg
                    return diff(e, st, e.as_adt(st, o.val).f[fd], D, "the tagged stream")
                raise Taint("the loop over the tags is not recognised")
            r, loc = cs[0]; n = r.n; cur = lambda k: L(r.at(loc, k))
            def known(k):
                """states in which the cursor before step k is related to the tags"""
                out = []
                for y in st.assume(eq(k, ZERO), eq(cur(k), ZERO)): out.append(y)
                for y in st.assume(ge(k, ONE), eq(cur(k), at(st, k - 1)[1])): out.append(y)
                return out
            if panics(o):
                for y in known(n):
                    a, b, _ = at(y, n); p, q, _ = at(y, n - 1)
                    ok = [le(a, b), le(b, N), conj([le(p, q), le(q, a)])] if not holds(y, eq(n, ZERO)) else [le(a, b), le(b, N)]
                    end = [le(p, q), le(q, N)] if not holds(y, eq(n, ZERO)) else []
                    for z in y.assume(lt(n, M), *ok):
                        return "panics for an ascending list: %s" % o.msg
                    for z in y.assume(ge(n, M), *end):
                        return "panics for an ascending list: %s" % o.msg
                return None
            if not holds(st, eq(n, M)): return "the list of tags may not be used up"
            # refused lists
            a, b, t = at(st, r.K)
            for y, _ in r.steps():
                for c, m in ((le(cur(r.K), a), "is not in order"), (le(a, b), "has a reversed range"), (le(b, N), "leaves the stream")):
                    if not holds(y, c): return "a list that %s is accepted" % m
            segs = e.as_adt(st, o.val).f[fd].segs
            ci = [i for i, g in enumerate(segs) if g[0] == 'comp' and g[2].const() == 0 and g[3] == n]
            if len(ci) != 1 or ci[0] != 0: raise Taint("the tagged stream is %r" % ([g[0] for g in segs],))
            g = segs[0]
            for y, _ in r.steps():
                got = False
                for conds, gs in g[4]:
                    m = {g[1]: r.K}
                    for z in y.assume(*[subst(c, m, {}) for c in conds]):
                        got = True
                        v = VSeq(tuple(subst_seg(x, m, {}) for x in gs), D.ety)
                        z0 = z
                        for z in z0.assume(le(ZERO, cur(r.K)), le(cur(r.K), a), le(a, b), le(b, N)):
                            want = VSeq(e.seq_slice(z, D, cur(r.K), a).segs + (('one', tagged(t, e.seq_slice(z, D, a, b))),), D.ety)
                            x = diff(e, z, v, want, "what is added for a tag")
                            if x and any(h[0] == 'comp' for h in v.segs): raise Taint("another loop adds to the result")
                            if x: return x
                if not got: raise Taint("step without a case")
            for y in st.assume(le(cur(n), N), ge(cur(n), ZERO)):
                x = diff(e, y, VSeq(segs[1:], D.ety), e.seq_slice(y, D, cur(n), N), "what follows the last tag")
                if x and any(h[0] == 'comp' for h in segs[1:]): raise Taint("another loop adds to the result")
                if x: return x
        S.judge(e, name, key, outs, f, facts_ok=True)
    def subst_seg(g, m, w):
        from engine.values import subst_seg as s
        return s(g, m, w)
    def tag_list(e, ity, n):
        base = e.sym("tags"); item = lambda j: e.mk(values.elem_atom(base, L(j)), ity)
        if n is None:
            M = L(atom('len', base, nonneg=True)); q = VSeq((('sl', base, ZERO, M),), ity)
        else: M = L(n); q = VSeq(tuple(('one', item(j)) for j in range(n)), ity)
        return item, M, VAdt("models::IntoIter", 0, (q, VInt(ZERO, USIZE), VInt(M, USIZE)))
    key = S.inherent(T, "with_tags"); ps = S.params(key); RT = ("adt", RANGE, (USIZE,))
    P = dict((p[2], p) for p in ps if p[0] == "param"); ity = ("tuple", (RT, P["Tag"]))
    if "I" not in P: raise Missing("the iterator of with_tags")
    targs = tuple(ad("models::IntoIter", (ity,)) if p == P["I"] else p for p in ps)
    for n in list(range(5 if thorough else 3)) + [None]:
        e = S.engine()
        if n is not None: e.small = 12; e.unroll = 40; e.fan = 4000
        st, D, N = setup(e, key, targs); item, M, it = tag_list(e, ity, n)
        outs = S.run(e, key, targs, [VRef(SC), it], st)
        if n is None: general("with_tags: any list", key, e, outs, D, item, M)
        else: small("with_tags: %d tags" % n, key, e, outs, D, item, n)
    # ---- tokenize
    key = S.inherent(T, "tokenize"); ps = S.params(key); P = dict((p[2], p) for p in ps if p[0] == "param")
    K = S.adt("tokenizer::Tokenizer"); newp = S.inherent(K, "new_prepared"); nextk, _ = S.timpl("core::iter::traits::iterator::Iterator", lambda t: t[0] == "adt" and t[1] == K, "next")
    ity = ("tuple", (RT, P["Tag"]))
    readk, rim = S.timpl(CRATE + "symbol_reader::SymbolSource", lambda t: t[0] == "ref" and t[1][0] == "adt" and t[1][1].endswith("Vec"), "read_symbols")
    mapk, mim = S.timpl(CRATE + "symbol_reader::MapSymbolReader", lambda t: True, "map_symbols")
    for n in list(range(4 if thorough else 3)) + [None]:
        e = S.engine(); e.hooks.append(countable_hook())
        if n is not None: e.small = 12; e.unroll = 40; e.fan = 4000
        st, D, N = setup(e, key, ps); item, M, it = tag_list(e, ity, n)
        args = [VRef(SC)] + [e.mk(e.sym("arg%d" % i), S.argty(e, key, i)) for i in (1, 2)]
        mref, fv = args[1], args[2]
        made = []
        def hook(eng, st, C):
            if C.key == newp:
                r, m = C.args
                if not same(eng, st, m, mref): eng.obls.append(("the tokenizer uses another matcher", C.span))
                # the reader of the stream, mapped
                data = VRef(SC, (('f', fd, 0),))
                for o1 in eng.run_body(readk, tuple(P["Tag"] if 0 else x for x in rtargs(eng, D.ety)), [data], st.copy()):
                    w = explain(eng, st, unwrapped(r, fv), o1.val)
                    if w: eng.obls.append(("the tokenizer does not read the symbols of the stream through the mapping: %s" % w, C.span))
                return [eng.out(st, VAdt(K, 0, (it,)))]
            if C.key == nextk or C.method == "next" and C.trait and C.trait.endswith("::Iterator") and C.targs[0][0] == "adt" and C.targs[0][1] == K:
                r = C.args[0]; v = prims.rd(eng, st, r)
                while isinstance(v, VRef): r = v; v = prims.rd(eng, st, r)
                i = v.f[0].f[1].l
                outs = []
                for y in st.assume(lt(i, M)):
                    x = v.f[0]; prims.wr(eng, y, r, VAdt(K, 0, (VAdt(x.k, 0, (x.f[0], VInt(i + 1, USIZE), x.f[2])),)))
                    el = eng.seq_get(y, x.f[0], i)
                    a, b, _ = parts(eng, y, el)
                    outs.append(eng.out(y, prims.some(el)))
                for y in st.assume(ge(i, M)): outs.append(eng.out(y, prims.NONE))
                return outs
            return None
        def rtargs(eng, ety):
            return tuple(("lt",) if t[0] == "lt" else ety for t in rim["targs"]) if "targs" in rim else S.params(readk)
        def unwrapped(r, fv):
            """the reader behind the mapping"""
            if isinstance(r, VAdt) and r.k == CRATE + "symbol_reader::MappedStream":
                rest = [x for x in r.f if not (x is fv or x == fv)]
                rest = [x for x in rest if not (isinstance(x, VAdt) and x.k.endswith("PhantomData"))]
                if len(rest) == 1: return rest[0]
            raise Taint("the reader of the tokenizer is not recognised")
        e.hooks.insert(0, hook)
        outs = S.run(e, key, ps, args, st)
        if n is None: general("tokenize: any tokens", key, e, outs, D, item, M)
        else: small("tokenize: %d tokens" % n, key, e, outs, D, item, n, True)
    # ---- from_reader
    key = S.inherent(T, "from_reader"); e = S.engine(); st = State(); P = dict((p[2], p) for p in S.params(key) if p[0] == "param")
    RC = ('l', 0, 'reader'); P0 = L(atom('sym', 'pos', nonneg=True)); st.cells[RC] = VInt(P0, P["Base"])
    e.hooks.append(reader_hook(P["Base"])); outs = S.run(e, key, S.params(key), [VRef(RC)], st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; v = o.st.cells[RC]
        if not isinstance(v, VInt): raise Taint("reader state")
        n = v.l - P0; v = e.as_adt(st, o.val).f[fd]
        if not entails(st, ge(n, ONE)): return "nothing is read"
        if e.variant(st, stream_at(e, P0 + n - 1, P["Base"])) != 0: return "stops before the reader has ended"
        if not entails(st, eq(e.seq_len(v), n - 1)): return "%s symbols from %s reads" % (show(e.seq_len(v)), show(n))
        j = L(atom('sym', 'j', nonneg=True))
        for x in st.assume(ge(j, ZERO), lt(j, n - 1)):
            el = stream_at(e, P0 + j, P["Base"])
            if x.con.assume(('var', el.t, 0, True)) and not prove.proves(x, ('var', el.t, 1, True)): return "reads on after the reader has ended"
            y, = x.assume(('var', el.t, 1, True))
            r = explain(e, y, e.seq_get(y, v, j), VAdt(G, UN, (e.as_adt(y, el).f[0],)))
            if r: return "symbol j: %s" % r
    S.judge(e, "from_reader", key, outs, f)
    # ---- from_tokenized_reader
    frk, tkk = key, S.inherent(T, "tokenize")
    key = S.inherent(T, "from_tokenized_reader"); e = S.engine(); e.hooks.append(countable_hook()); args = S.sym_args(e, key); P = dict((p[2], p) for p in S.params(key) if p[0] == "param")
    sty = ad(T, (P["Base"], P["Tag"])); X, Y = e.sym("read"), e.sym("tokenized")
    def strip(eng, st, v):
        while isinstance(v, (VRef, VBox)): v = eng.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    calls = []
    def hook(eng, st, C):
        if C.key == frk:
            if not same(eng, st, strip(eng, st, C.args[0]), strip(eng, st, args[0])): eng.obls.append(("another reader is read", C.span))
            st.notes = st.notes + ('read',); return [eng.out(st, eng.as_adt(st, eng.mk(X, sty)))]
        if C.key == tkk:
            if not same(eng, st, strip(eng, st, C.args[0]), strip(eng, st, eng.as_adt(st, eng.mk(X, sty)))): eng.obls.append(("another stream is tokenized", C.span))
            if not same(eng, st, strip(eng, st, C.args[1]), strip(eng, st, args[1])): eng.obls.append(("another matcher is used", C.span))
            c = eng.mk(eng.sym("c"), P["Base"])
            for o in prims.call_value(eng, st.copy(), C.args[2], [VAdt(G, UN, (c,))], C.span):
                if o.kind == 'panic': eng.obls.append(("the mapping panics for an untagged symbol", C.span))
                else:
                    r = explain(eng, o.st, o.val, c)
                    if r: eng.obls.append(("the mapping changes an untagged symbol: %s" % r, C.span))
            return [eng.out(st, eng.as_adt(st, eng.mk(Y, sty)))]
    e.hooks.insert(0, hook); outs = S.run(e, key, S.params(key), args)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        if o.st.notes.count('read') != 1: return "the reader is read %d times" % o.st.notes.count('read')
        return explain(e, o.st, o.val, e.as_adt(o.st, e.mk(Y, sty)))
    S.judge(e, "from_tokenized_reader", key, outs, f)
    # ---- len, index
    key = S.inherent(T, "len"); e = S.engine(); st, D, N = setup(e, key, S.params(key)); outs = S.run(e, key, S.params(key), [VRef(SC)], st)
    S.judge(e, "len", key, outs, lambda o: "panics: %s" % o.msg if panics(o) else None if entails(o.st, eq(o.val.l, N)) else "gives %r" % (o.val,))
    key, _ = S.timpl("core::ops::index::Index", lambda t: t[0] == "adt" and t[1] == T, "index"); e = S.engine(); st, D, N = setup(e, key, S.params(key)); I = L(atom('sym', 'index', nonneg=True))
    outs = S.run(e, key, S.params(key), [VRef(SC), VInt(I, USIZE)], st)
    def f(o):
        if panics(o): return "panics for a symbol of the stream: %s" % o.msg if o.st.assume(lt(I, N)) else None
        v = o.val
        while isinstance(v, VRef): v = e.read(o.st, v.cell, v.path)
        return explain(e, o.st, v, e.seq_get(o.st, D, I))
    S.judge(e, "index", key, outs, f)
