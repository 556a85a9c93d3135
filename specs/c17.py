"""C17: split readers see the whole stream, whatever the interleaving and whichever is dropped."""
from engine.spec import *
LEVEL = "proof"
RULE = ("Inductive invariant of the buffer shared by the two halves of a split reader: it is a window [B, B+n) of the results of the source, the source has been read exactly to B+n, a live half is at B+p with "
        "0 <= p <= n, a dropped half is at the reserved position (or still at a valid one). Established by split(); preserved by next_symbol of either half and by Drop of either half in every state (both alive, "
        "either one dropped), for all n and p; reading half i gives the result of the source at B+p_i and moves only that half. Symbolic over n, p, B; loops summarised.")
MAXV = (1 << 64) - 1

def check(S, keep=False):
    """keep: only that the buffer keeps nothing every live half has read (C26)"""
    H = S.adt("split_reader::SplitSymbolReader"); A = S.adt("split_reader::SplitSymbolReaderBuffer")
    SYM = ("param", 1, "Symbol"); TG = (("lt",), SYM)
    OPT = opt(SYM)
    fb, fi = S.field(H, "buffer"), S.field(H, "reader_id")
    fr, fp, fq = S.field(A, "symbol_reader"), S.field(A, "positions"), S.field(A, "buffer")
    B, n = L(atom('sym', 'B', nonneg=True)), L(atom('sym', 'n', nonneg=True))
    p = [L(atom('sym', 'p0', nonneg=True)), L(atom('sym', 'p1', nonneg=True))]
    BIG = L(1 << 62)
    def hook(symty):
        def h(eng, st, C):
            if C.trait != READER or C.method != "next_symbol": return None
            r = C.args[0]
            if C.targs[0][0] not in ("param", "dyn", "proj"): return None
            while True:
                v = prims.rd(eng, st, r)
                if not isinstance(v, VRef): break
                r = v
            if not isinstance(v, VInt): raise Taint("reader %r" % (v,))
            prims.wr(eng, st, r, VInt(v.l + 1, v.ty))
            return [eng.out(st, stream_at(eng, v.l, symty))]
        return h
    def engine():
        e = S.engine(); e.hooks.append(hook(SYM)); return e
    RC = ('l', 0, 'source'); BC = ('l', 0, 'shared')
    def shared(dead):
        f = [UNDEF] * len(S.P.adts[A]["variants"][0][2])
        f[fr] = VRef(RC); f[fq] = VSeq((('sl', STREAM, B, B + n),), OPT)
        f[fp] = VSeq(tuple(('one', VInt(L(MAXV) if i in dead else p[i], USIZE)) for i in (0, 1)), USIZE)
        return VAdt("cell", 0, (VAdt(A, 0, f),))
    def start(dead, front=None):
        st = State(); st.cells[RC] = VInt(B + n, SYM); st.cells[BC] = shared(dead)
        cs = [le(n, BIG), le(B, BIG)] + [le(p[i], n) for i in (0, 1) if i not in dead]
        if front is not None: cs.append(eq(p[front], ZERO))
        st, = st.assume(*cs)
        return st
    def fronts(dead): return [None] if not keep else [i for i in (0, 1) if i not in dead]     # keep: a live half is at the front of the buffer
    def half(i):
        f = [UNDEF] * len(S.P.adts[H]["variants"][0][2]); f[fb] = VRef(BC); f[fi] = VInt(L(i), USIZE); return VAdt(H, 0, f)
    def inv(e, o, v, abspos, dead):
        """the buffer value v: live half i is at abspos[i]"""
        st = o.st
        if not isinstance(v, VAdt) or v.k != A: raise Taint("shared buffer is %r" % (v,))
        pos = v.f[fp]; buf = v.f[fq]
        src = prims.rdall(e, st, v.f[fr])
        nn = e.seq_len(buf)
        if not entails(st, eq(e.seq_len(pos), L(2))): return "there are %s positions" % show(e.seq_len(pos))
        ps = [e.seq_get(st, pos, L(i)) for i in (0, 1)]
        base = src.l - nn
        if keep:
            live = [i for i in (0, 1) if i not in dead]
            for i in dead:
                if live and not entails(st, eq(ps[i].l, L(MAXV))): return "the position of the dropped half %d becomes %s: the symbols behind it are kept for ever" % (i, show(ps[i].l))
            if live and st.assume(*[ge(ps[i].l, ONE) for i in live]): return "symbols that every live half has read stay in the buffer"
            return None
        r = explain(e, st, buf, VSeq((('sl', STREAM, base, src.l),), OPT))
        if r: return "the buffer is not what the source delivered last: %s" % r
        for i in (0, 1):
            x = ps[i].l
            if i in dead:
                if not (entails(st, eq(x, L(MAXV))) or entails(st, le(x, nn))): return "the position of the dropped half %d becomes %s, which is neither reserved nor inside the buffer" % (i, show(x))
            else:
                if not entails(st, conj([ge(x, ZERO), le(x, nn)])): return "half %d is at %s of %s buffered symbols" % (i, show(x), show(nn))
                if not entails(st, eq(base + x, abspos[i])): return "half %d is at %s of the stream, expected %s" % (i, show(base + x), show(abspos[i]))
        return None
    def content(o, c=BC):
        v = o.st.cells.get(c)
        return v.f[0] if isinstance(v, VAdt) and v.k == "cell" else v
    # ---- split
    key, im = S.timpl(CRATE + "split_reader::SplittableSymbolReader", lambda t: True, "split")
    e = engine(); st = State(); st.cells[RC] = VInt(B, SYM)
    ps = S.params(key)
    symp = [t for t in ps if t[0] == "param" and t[2] == "Symbol"]
    e2 = e; SY = symp[0] if symp else SYM
    e.hooks[:] = [hook(SY)]
    outs = S.run(e, key, ps, [VRef(RC)], st)
    def f(o):
        if panics(o): return None if keep else "panics: %s" % o.msg
        ids = []; cells = []
        for i in (0, 1):
            h = o.val.f[i]; ids.append(h.f[fi].l); cells.append(h.f[fb].cell)
        if cells[0] != cells[1]: return "the halves do not share one buffer"
        for i in (0, 1):
            if not entails(o.st, eq(ids[i], L(i))): raise Taint("halves are numbered %r" % (ids,))
        return inv(e, o, content(o, cells[0]), [B, B], ())
    S.judge(e, "split", key, outs, f)
    # ---- reading
    key, im = S.timpl(READER, lambda t: t[0] == "adt" and t[1] == H, "next_symbol")
    for i in (0, 1):
        for dead, front in [(d, x) for d in ((), (1 - i,)) for x in fronts(d)]:
            e = engine(); st = start(dead, front); hc = ('l', 0, 'half'); st.cells[hc] = half(i)
            outs = S.run(e, key, S.params(key), [VRef(hc)], st)
            def f(o):
                if keep and (panics(o) or any(x[0] == 'huge' for x in o.st.notes)): return None
                if panics(o): return "panics: %s" % o.msg
                if any(x[0] == 'huge' for x in o.st.notes): return "reading goes round a loop more than 2^40 times"
                r = None if keep else explain(e, o.st, o.val, stream_at(e, B + p[i], SYM))
                if r: return "half %d does not get the result at its position: %s" % (i, r)
                ap = [B + p[0], B + p[1]]; ap[i] = ap[i] + 1
                return inv(e, o, content(o), ap, dead)
            S.judge(e, "next_symbol of half %d [%s]" % (i, ("other dropped" if dead else "both alive") + (", half %d at the front" % front if keep and not dead else "")), key, outs, f)
    # ---- dropping
    key, im = S.timpl("core::ops::drop::Drop", lambda t: t[0] == "adt" and t[1] == H, "drop")
    for i in (0, 1):
        for dead, front in [(d, x) for d in ((), (1 - i,)) for x in fronts(d)]:
            e = engine(); st = start(dead, front); hc = ('l', 0, 'half'); st.cells[hc] = half(i)
            outs = S.run(e, key, S.params(key), [VRef(hc)], st)
            def f(o):
                if keep and (panics(o) or any(x[0] == 'huge' for x in o.st.notes)): return None
                if panics(o): return "dropping panics: %s" % o.msg
                if any(x[0] == 'huge' for x in o.st.notes): return "dropping goes round a loop more than 2^40 times"
                return inv(e, o, content(o), [B + p[0], B + p[1]], dead + (i,))
            S.judge(e, "drop of half %d [%s]" % (i, ("other dropped" if dead else "both alive") + (", half %d at the front" % front if keep and not dead else "")), key, outs, f)
