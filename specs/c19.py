"""C19: symbol readers deliver their source."""
from engine.spec import *
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with an inferred inductive family of reader states (static analysis)"
RULE = ("For every reader made from a sequence (vectors, strings, tagged streams, consumed vectors) the state after construction and the state after one read give a candidate family F(k) of states, one per number of symbols read; "
        "next_symbol from F(k) must give symbol k of the source and F(k+1) for every k below the length, and nothing and F(k) at the end. Readers that wrap another source (filtered iterators, byte streams, boxes, maps) must deliver exactly "
        "what one read of the wrapped source gives; the mapping function must be called once on each symbol read. to_vec must return exactly the symbols before the first None, and read nothing after it.")
NOTE = "A byte stream ends at its first error, or goes on with the next byte that can be read."
ITER = "core::iter::traits::iterator::Iterator"
K = L(atom('sym', 'read', nonneg=True)); SRC = atom('sym', 'source')

class NoFamily(Exception): pass
class Wrong(Exception): pass
def lin_gen(a, b, k):
    d = (b - a).const()
    if d is None: raise NoFamily()
    return a if d == 0 else a + k.scale(d)
def gen(a, b, k):
    """value at k of the affine family that gives a at 0 and b at 1"""
    if a == b: return a
    if type(a) is not type(b): raise NoFamily()
    if isinstance(a, VInt): return VInt(lin_gen(a.l, b.l, k), a.ty)
    if isinstance(a, VAdt) and a.k == b.k and a.v == b.v: return VAdt(a.k, a.v, tuple(gen(x, y, k) for x, y in zip(a.f, b.f)))
    if isinstance(a, VBox): return VBox(gen(a.v, b.v, k), a.dty)
    if isinstance(a, VSeq) and len(a.segs) == len(b.segs):
        r = []
        for x, y in zip(a.segs, b.segs):
            if x == y: r.append(x)
            elif x[0] == y[0] and x[0] in ('sl', 'rsl') and x[1] is y[1]: r.append((x[0], x[1], lin_gen(x[2], y[2], k), lin_gen(x[3], y[3], k)))
            elif x[0] == y[0] == 'one': r.append(('one', gen(x[1], y[1], k)))
            else: raise NoFamily()
        return VSeq(tuple(r), a.ety)
    if isinstance(a, VRef) and isinstance(b, VRef) and a.cell == b.cell and len(a.path) == len(b.path):
        if a.cell[0] == 'cst': raise NoFamily()
    raise NoFamily()

def check(S):
    def reader_impl(e, ty):
        for im in S.P.by_trait.get(READER, []):
            m = match_ty(im["self"], ty)
            if m is not None: return im
        raise Missing("no SymbolReader for %r" % (ty,))
    RC = ('l', 0, 'reader')
    def family(name, mkey, e, s0, rty, src, ety, st0):
        """read from s0 (a reader of the sequence src) to the end"""
        n = e.seq_len(src)
        im = S.P.find_impl(READER, (rty, ety)) or S.P.find_impl(READER, (rty,))
        if not im: raise Missing("no SymbolReader for %r" % (rty,))
        key = im[0]["itemmap"]["next_symbol"]; targs = tuple(im[1])
        def read(e, state, st):
            st = st.copy(); st.cells[RC] = state
            return S.run(e, key, targs, [VRef(RC)], st)
        def content(e, o, v): return VAdt(OPTION, 0, ()) if v is None else VAdt(OPTION, 1, (v,))
        # the family, from a source of at least two symbols
        st1, = st0.assume(ge(n, L(2)))
        outs = [o for o in read(e, s0, st1)]
        fams = []
        for o in outs:
            if o.kind != 'ret': continue
            try: fams.append(gen(s0, o.st.cells[RC], K))
            except NoFamily: pass
        def first(o):
            if panics(o): return "panics: %s" % o.msg
            return explain(e, o.st, o.val, some(e.seq_get(o.st, src, ZERO)))
        if S.judge(e, name + ": first symbol", key, outs, first) is not True: return
        fams = [f for i, f in enumerate(fams) if f not in fams[:i]]
        if not fams: S.unknown(name, S.where(key), "the states of the reader were not recognised"); return
        for fam in fams[:1]:
            sk, = st0.assume(lt(K, n))
            outs = read(e, fam, sk)
            want = gen_sub(fam, K + 1)
            def f(o):
                if panics(o): return "panics: %s" % o.msg
                r = explain(e, o.st, o.val, some(e.seq_get(o.st, src, K)))
                if r: return "symbol k: " + r
                r = explain(e, o.st, o.st.cells[RC], want)
                if r:
                    later(o.st, o.st.cells[RC], K + 1, 2)
                    raise Taint("state after k symbols not recognised: %s" % r)
            def later(st, state, k, depth):
                """the reads after one that left an unexpected state"""
                if not depth: return
                for y in st.assume(lt(k, n)):
                    for o in read(e, state, y):
                        if panics(o): raise Wrong("panics at symbol %s: %s" % (show(k), o.msg))
                        r = explain(e, o.st, o.val, some(e.seq_get(o.st, src, k)))
                        if r: raise Wrong("symbol %s: %s" % (show(k), r))
                        later(o.st, o.st.cells[RC], k + 1, depth - 1)
            def f2(o):
                try: return f(o)
                except Wrong as w: return str(w)
            S.judge(e, name + ": every symbol", key, outs, f2)
            se, = st0.assume(eq(K, n))
            outs = read(e, fam, se)
            def f(o):
                if panics(o): return "panics at the end: %s" % o.msg
                if e.variant(o.st, o.val) != 0: return "the end of the source: delivers %r" % (o.val,)
                r = explain(e, o.st, o.st.cells[RC], fam)
                if r: raise Taint("state at the end not recognised: %s" % r)
            S.judge(e, name + ": end", key, outs, f)
    def gen_sub(v, l): return subst(v, {K.single(): l}, {})
    some = lambda v: VAdt(OPTION, 1, (v,))
    SRCTR = CRATE + "symbol_reader::SymbolSource"
    # ---- sources
    for im in S.P.by_trait.get(SRCTR, []):
        key = im["itemmap"].get("read_symbols")
        if not isinstance(key, str): continue
        name = "reading %s" % tyname(im["self"])
        e = S.engine(); args = S.sym_args(e, key); st = State()
        rty = e.norm(subst_ty(S.body(key).locals[0], S.params(key)))
        src = args[0]
        while isinstance(src, (VRef, VBox)): src = e.read(st, src.cell, src.path) if isinstance(src, VRef) else src.v
        if not isinstance(src, VSeq):
            if isinstance(src, VAdt) or isinstance(src, VSym) and src.ty[0] == "adt":
                v = e.as_adt(st, src); seqs = [x for x in v.f if isinstance(x, VSeq)]
                src = seqs[0] if len(seqs) == 1 else None
            else: src = None
        elif not src.segs: src = None
        if src is None: S.unknown(name, S.where(key), "source not recognised"); continue
        outs = S.run(e, key, S.params(key), args, st)
        if S.judge(e, name + ": start", key, outs, lambda o: "panics: %s" % o.msg if panics(o) else None) is not True: continue
        for o in outs: family(name, key, e, o.val, rty, src, src.ety, o.st)
    # ---- VecReader
    VR = S.adt("symbol_reader::VecReader"); key = S.inherent(VR, "from_vec")
    e = S.engine(); args = S.sym_args(e, key); rty = e.norm(subst_ty(S.body(key).locals[0], S.params(key)))
    outs = S.run(e, key, S.params(key), args)
    if S.judge(e, "VecReader: start", key, outs, lambda o: "panics: %s" % o.msg if panics(o) else None) is True:
        for o in outs: family("VecReader", key, e, o.val, rty, args[0], args[0].ety, o.st)
    # ---- wrapped sources
    def stream_hook(ety, want):
        """reads of the wrapped thing: the position moves on by one"""
        def h(eng, st, C):
            if not want(C): return None
            r = C.args[0]
            v = prims.rd(eng, st, r)
            while isinstance(v, VRef): r = v; v = prims.rd(eng, st, r)
            if isinstance(v, VBox): r = prims.sub(r, 'bx'); v = v.v
            if not isinstance(v, VInt):
                if isinstance(v, VSym) : v = VInt(L(v.t), v.ty)
                else: raise Taint("wrapped source %r" % (v,))
            prims.wr(eng, st, r, VInt(v.l + 1, v.ty))
            return [eng.out(st, eng.mk(values.elem_atom(STREAM, v.l), opt(ety)))]
        return h
    P0 = L(atom('sym', 'pos', nonneg=True))
    def wrapped(name, pred, wrap, ety, want, result):
        """result(e, o, k): what the read of element k must give"""
        key, im = S.timpl(READER, pred, "next_symbol")
        e = S.engine(); st = State()
        st.cells[RC] = wrap(e, VInt(P0, USIZE), S.argty(e, key, 0))
        e.hooks.append(stream_hook(ety, want))
        outs = S.run(e, key, S.params(key), [VRef(RC)], st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            return result(e, o)
        S.judge(e, name, key, outs, f)
    def leaf(e, o):
        v = o.st.cells[RC]
        while not isinstance(v, VInt):
            if isinstance(v, VBox): v = v.v
            elif isinstance(v, VRef): v = e.read(o.st, v.cell, v.path)
            elif isinstance(v, VAdt):
                c = [x for x in v.f if isinstance(x, (VInt, VBox))]
                if len(c) != 1: raise Taint("reader state %r" % (v,))
                v = c[0]
            else: raise Taint("reader state %r" % (v,))
        return v.l
    def once(ety):
        def result(e, o):
            n = leaf(e, o) - P0
            if not entails(o.st, eq(n, ONE)): return "reads its source %s times" % show(n)
            return explain(e, o.st, o.val, e.mk(values.elem_atom(STREAM, P0), opt(ety)))
        return result
    # boxed reader
    bkey, bim = S.timpl(READER, lambda t: t[0] == "adt" and t[1] == BOX, "next_symbol")
    SY = [p for p in S.params(bkey) if p[0] == "param"][0]
    def is_next(C): return C.trait == READER and C.method == "next_symbol" and C.targs[0][0] in ("dyn", "param", "proj")
    wrapped("boxed reader", lambda t: t[0] == "adt" and t[1] == BOX, lambda e, v, t: VBox(v, None), SY, is_next, once(SY))
    # filtered iterator
    isfm = lambda t: t[0] == "adt" and t[1].endswith("FilterMap")
    fkey, fim = S.timpl(READER, isfm, "next_symbol")
    FS = [p for p in S.params(fkey) if p[2] == "Symbol"][0] if any(len(p) > 2 and p[2] == "Symbol" for p in S.params(fkey)) else None
    if FS is None: raise Missing("symbol of the filtered reader")
    wrapped("filtered iterator", isfm, lambda e, v, t: v, FS, lambda C: C.trait == ITER and C.method == "next" and (isfm(C.targs[0]) or C.targs[0][0] == "param"), once(FS))
    # bytes
    BR = S.adt("symbol_reader::ByteSymbolReader")
    U8 = ("int", "u8"); RES = ad("core::result::Result", (U8, ("any",)))
    rkey, rim = S.timpl(READER, lambda t: t[0] == "adt" and t[1] == BR, "next_symbol")
    def bytes_result(e, o):
        st = o.st; n = leaf(e, o) - P0
        if not entails(st, ge(n, ONE)): return "delivers a symbol without reading"
        last = e.mk(values.elem_atom(STREAM, P0 + n - 1), opt(RES))
        for q in st.facts: raise Taint("loop over the bytes")
        if n.const() is None: raise Taint("loop over the bytes")
        for j in range(n.const() - 1):
            x = e.mk(values.elem_atom(STREAM, P0 + j), opt(RES))
            if e.variant(st, x) == 0: return "reads on after the end"
            if e.variant(st, e.as_adt(st, x).f[0]) == 0: return "skips a byte"
        if e.variant(st, last) == 0: return None if e.variant(st, o.val) == 0 else "delivers %r at the end" % (o.val,)
        r = e.as_adt(st, last).f[0]
        if e.variant(st, r) == 1: return None if e.variant(st, o.val) == 0 else "delivers %r on an error" % (o.val,)
        return explain(e, st, o.val, some(e.as_adt(st, r).f[0]))
    def wrapb(e, v, t):
        f = [v if i == 0 else UNDEF for i in range(len(S.P.adts[BR]["variants"][0][2]))]
        return VAdt(BR, 0, f)
    isbytes = lambda C: C.trait == ITER and C.method == "next" and C.targs[0][0] == "adt" and C.targs[0][1].endswith("Bytes")
    wrapped("byte stream", lambda t: t[0] == "adt" and t[1] == BR, wrapb, RES, isbytes, bytes_result)
    nkey = S.inherent(BR, "new"); e = S.engine(); args = S.sym_args(e, nkey); outs = S.run(e, nkey, S.params(nkey), args)
    S.judge(e, "byte stream: start", nkey, outs, lambda o: "panics: %s" % o.msg if panics(o) else explain(e, o.st, o.val.f[0], args[0]))
    nkey = S.inherent(BR, "from"); e = S.engine(); args = S.sym_args(e, nkey)
    made = e.sym("bytes")
    def rh(eng, st, C):
        if (C.trait and C.trait.startswith("alloc::io::") or C.trait and C.trait.startswith("std::io::")) and C.method == "bytes":
            if not same(eng, st, C.args[0], args[0]): eng.obls.append(("the bytes are those of another reader", C.span))
            return [eng.out(st, eng.mk(made, ("opaque",)))]
    e.hooks.append(rh)
    outs = S.run(e, nkey, S.params(nkey), args)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        v = o.val.f[0]
        return None if isinstance(v, VSym) and v.t is made else "made from %r" % (v,)
    S.judge(e, "byte stream from a reader", nkey, outs, f)
    # ---- mapped
    MP = CRATE + "symbol_reader::MapSymbolReader"; MS = S.adt("symbol_reader::MappedStream")
    mkey, mim = S.timpl(MP, lambda t: True, "map_symbols")
    e = S.engine(); args = S.sym_args(e, mkey); mty = e.norm(subst_ty(S.body(mkey).locals[0], S.params(mkey)))
    outs = S.run(e, mkey, S.params(mkey), args)
    if S.judge(e, "map_symbols", mkey, outs, lambda o: "panics: %s" % o.msg if panics(o) else None) is True:
        made = outs[0].val; st0 = outs[0].st
        im = S.P.find_impl(READER, (mty, ("any",))) or S.P.find_impl(READER, (mty,))
        key = S.timpl(READER, lambda t: t[0] == "adt" and t[1] == MS, "next_symbol")[0]
        ip = [p for p in S.params(key) if len(p) > 2 and p[2] == "InputSymbol"]; op = [p for p in S.params(key) if len(p) > 2 and p[2] == "OutputSymbol"]
        if len(ip) != 1 or len(op) != 1: raise Missing("symbols of the mapped stream")
        def strip(v): return v
        rv, fv = args[0], args[1]
        def calls(st): return [n for n in st.notes if n[0] == 'call']
        def fh(eng, st, fnv, cargs, ref):
            if not same(eng, st, fnv, fv) : raise Taint("call of %r" % (fnv,))
            a = cargs[0]
            if isinstance(a, VAdt) and a.k == "tuple": a = a.f[0]
            st.notes = st.notes | {('call', len(st.notes), a)} if isinstance(st.notes, frozenset) else st.notes + (('call', len(st.notes), a),)
            return [eng.out(st, eng.mk(atom('map', a), op[0]))]
        e.fn_hooks.append(fh)
        def pos_hook(eng, st, C):
            if not is_next(C): return None
            r = C.args[0]; v = prims.rd(eng, st, r)
            while isinstance(v, VRef): r = v; v = prims.rd(eng, st, r)
            l = v.l if isinstance(v, VInt) else L(v.t)
            prims.wr(eng, st, r, VInt(l + 1, v.ty))
            return [eng.out(st, eng.mk(values.elem_atom(STREAM, l), opt(ip[0])))]
        e.hooks.append(pos_hook)
        r0 = rv.l if isinstance(rv, VInt) else L(rv.t)
        st = st0.copy(); st.cells[RC] = made
        outs = S.run(e, key, S.params(key), [VRef(RC)], st)
        def f(o):
            if panics(o): return "panics: %s" % o.msg
            st = o.st; el = e.mk(values.elem_atom(STREAM, r0), opt(ip[0])); cs = calls(st)
            want = subst_val(made, rv, VInt(r0 + 1, rv.ty))
            r = explain(e, st, st.cells[RC], want)
            if r: return "the source is not read exactly once: %s" % r
            if e.variant(st, el) == 0:
                if cs: return "the function is called at the end of the source"
                return None if e.variant(st, o.val) == 0 else "delivers %r at the end" % (o.val,)
            x = e.as_adt(st, el).f[0]
            if len(cs) != 1: return "the function is called %d times for one symbol" % len(cs)
            r = explain(e, st, cs[0][2], x)
            if r: return "the function is called on another symbol: %s" % r
            return explain(e, st, o.val, some(e.mk(atom('map', cs[0][2]), op[0])))
        S.judge(e, "mapped stream", key, outs, f)
    # ---- to_vec
    key, im = S.timpl(CRATE + "symbol_reader::ReaderToVector", lambda t: True, "to_vec")
    e = S.engine(); st = State(); SYM = [p for p in S.params(key) if len(p) > 2 and p[2] == "Symbol"]
    if not SYM: raise Missing("symbol of to_vec")
    st.cells[RC] = VInt(P0, S.params(key)[-1])
    e.hooks.append(stream_hook(SYM[0], is_next))
    outs = S.run(e, key, S.params(key), [VRef(RC)], st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; n = leaf(e, o) - P0; v = o.val
        if not entails(st, ge(n, ONE)): return "nothing is read"
        if e.variant(st, e.mk(values.elem_atom(STREAM, P0 + n - 1), opt(SYM[0]))) != 0: return "stops before the reader has ended"
        if not entails(st, eq(e.seq_len(v), n - 1)): return "%s symbols collected from %s reads" % (show(e.seq_len(v)), show(n))
        # an arbitrary element
        j = L(atom('sym', 'j', nonneg=True))
        cs = st.assume(ge(j, ZERO), lt(j, n - 1))
        for x in cs:
            el = e.mk(values.elem_atom(STREAM, P0 + j), opt(SYM[0]))
            if x.con.assume(('var', el.t, 0, True)):
                if not prove.proves(x, ('var', el.t, 1, True)): return "reads on after the reader has ended"
            y, = x.assume(('var', el.t, 1, True))
            r = explain(e, y, e.seq_get(y, v, j), e.as_adt(y, el).f[0])
            if r: return "symbol j: %s" % r
    S.judge(e, "to_vec", key, outs, f)

def subst_val(v, a, b):
    if v is a or v == a: return b
    if isinstance(v, VAdt): return VAdt(v.k, v.v, tuple(subst_val(x, a, b) for x in v.f))
    if isinstance(v, VBox): return VBox(subst_val(v.v, a, b), v.dty)
    return v
def tyname(t):
    if t[0] == "ref": return "&" + tyname(t[1])
    if t[0] == "adt": return t[1].split("::")[-1]
    return t[0]
