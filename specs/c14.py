"""C14: Tape - circular buffer refines a position in the source stream."""
from engine.spec import *
LEVEL = "proof"
RULE = ("Representation invariant of Tape (circular buffer = a window [base, T) of the results the source delivered, read position inside the window, T = number of results taken from the source, at most one "
        "further call which returned None once end_of_reader is set), checked to be established by new() and preserved by every method, for all buffer sizes and the three possible layouts of the ring; every method's "
        "result and effect on (position, window, calls to the source) must be entailed to be that of the abstract tape. The ring-copy loop of resize is summarised by phases (one linear run per wrap-around).")

def check(S, lemma=False, keep=False):
    # keep: only that the buffer does not grow while it has room (C26)
    # lemma: only what a tokenizer relies on (not what happens after the end, to misuse, or the sizes reported)
    A = S.adt("tape::Tape")
    fn = {n: S.field(A, n) for n in ("read_from", "buffer", "read_index", "last_symbol_index", "first_symbol_index", "end_of_reader", "source_position")}
    SYM = ("param", 0, "Symbol"); RD = ("param", 1, "SourceReader"); TY = ad(A, (SYM, RD))
    OPT = opt(SYM)
    R0 = L(atom('sym', 'source_start'))
    nn = lambda n: L(atom('sym', n, nonneg=True))

    class Rep:                       # symbolic abstract tape: window [base, base+cnt), position base+p, ended or not
        pass
    def engine(T):
        e = S.engine(); e.hooks.append(reader_hook(SYM))
        if T is not None:
            # the results before T were symbols
            e.var_hooks.append(lambda eng, st, t: 1 if t.k[0] == 'elem' and t.k[1] is STREAM and st.con.entails(lt(t.k[2], R0 + T)) else None)
        return e
    def layouts():
        """(name, state, tape value, abstract components)"""
        base, cnt, p, n = nn("base"), nn("cnt"), nn("p"), nn("n")
        j = lambda k: atom('sym', 'junk%d' % k)
        for lay in ("f<=r<=l", "r<=l<f", "l<f<=r"):
            for ended in (False, True):
                f = nn("f"); T = base + cnt
                st = State()
                s = lambda lo, hi: ('sl', STREAM, R0 + lo, R0 + hi)
                if lay == "f<=r<=l":
                    r = f + p; l = f + cnt
                    cs = [lt(l, n), le(p, cnt), ge(n, ONE)]
                    segs = [('sl', j(0), ZERO, f), s(base, T), ('sl', j(1), ZERO, n - l)]
                elif lay == "r<=l<f":
                    # window wraps; the read position is in the part at the front (or exactly at the end of the ring = index 0)
                    l = f + cnt - n; r = f + p - n
                    cs = [lt(f, n), ge(l, ZERO), lt(l, f), ge(r, ZERO), le(r, l)]
                    segs = [s(base + (n - f), T), ('sl', j(0), ZERO, f - l), s(base, base + (n - f))]
                else:
                    l = f + cnt - n; r = f + p
                    cs = [lt(f, n), ge(l, ZERO), lt(l, f), lt(r, n)]
                    segs = [s(base + (n - f), T), ('sl', j(0), ZERO, f - l), s(base, base + (n - f))]
                d = {fn["read_from"]: VInt(R0 + T + (1 if ended else 0), RD), fn["buffer"]: VSeq(tuple(segs), OPT), fn["read_index"]: VInt(r, USIZE), fn["last_symbol_index"]: VInt(l, USIZE),
                     fn["first_symbol_index"]: VInt(f, USIZE), fn["end_of_reader"]: VBool(ended), fn["source_position"]: VInt(base + p, USIZE)}
                sts = st.assume(*cs)
                if not sts: continue
                tape = VAdt(A, 0, [d.get(i, UNDEF) for i in range(len(S.P.adts[A]["variants"][0][2]))])
                R = Rep(); R.base, R.cnt, R.p, R.n, R.T, R.ended, R.f, R.l, R.r, R.tape, R.name = base, cnt, p, n, T, ended, f, l, r, tape, "%s%s" % (lay, ", ended" if ended else "")
                yield R, sts[0]
    def inv(e, o, v, base, pos, T, ended, calls):
        """the tape value v represents window [base,T), position pos, ended flag and calls to the source"""
        st = o.st
        if not isinstance(v, VAdt): return "tape is %r" % (v,)
        g = lambda n: v.f[fn[n]]
        f, r, l = g("first_symbol_index").l, g("read_index").l, g("last_symbol_index").l
        buf = g("buffer"); n = e.seq_len(buf)
        if not isinstance(g("end_of_reader"), VBool) or not entails(st, g("end_of_reader").c if ended else neg_(g("end_of_reader").c)): return "end_of_reader is not %s" % ended
        if not (lemma and ended) and not entails(st, eq(g("read_from").l, R0 + calls)): return "the source has been read %s times instead of %s" % (show(g("read_from").l - R0), show(calls))
        if not entails(st, eq(g("source_position").l, pos)): return "source_position is %r, expected %s" % (g("source_position"), show(pos))
        for nm, x in (("first", f), ("read", r), ("last", l)):
            if not entails(st, conj([ge(x, ZERO), lt(x, n)])): return "%s index %s may leave the buffer of %s" % (nm, show(x), show(n))
        res = None
        for c in st.con.assume(le(f, l)):
            s2 = st.copy(); s2.con = c
            if not c.entails(eq(l - f, T - base)): return "the buffer holds %s symbols, expected %s" % (show(l - f), show(T - base))
            if not c.entails(eq(r - f, pos - base)): return "the read index is %s after the first symbol, expected %s" % (show(r - f), show(pos - base))
            w = e.seq_slice(s2, buf, f, l)
            res = explain(e, s2, w, VSeq([('sl', STREAM, R0 + base, R0 + T)], OPT))
            if res: return "buffer content differs from what the source delivered: %s" % res
        for c in st.con.assume(gt(f, l)):
            s2 = st.copy(); s2.con = c
            if not c.entails(eq(l - f + n, T - base)): return "the buffer holds %s symbols, expected %s" % (show(l - f + n), show(T - base))
            for c3 in c.assume(ge(r, f)):
                if not c3.entails(eq(r - f, pos - base)): return "the read index is %s after the first symbol, expected %s" % (show(r - f), show(pos - base))
            for c3 in c.assume(lt(r, f)):
                if not c3.entails(eq(r - f + n, pos - base)): return "the read index is %s after the first symbol, expected %s" % (show(r - f + n), show(pos - base))
            w = e.seq_slice(s2, buf, f, n); w2 = e.seq_slice(s2, buf, ZERO, l)
            res = explain(e, s2, VSeq(norm_segs(w.segs + w2.segs, OPT), OPT), VSeq([('sl', STREAM, R0 + base, R0 + T)], OPT))
            if res: return "buffer content differs from what the source delivered: %s" % res
        return None
    def neg_(c): return neg(c)

    def each(key, args, f, extra=None, targs=(SYM, RD)):
        name = S.P.bodies[key].name
        for R, st in layouts():
            e = engine(R.T)
            st = st.copy(); c = ('l', 0, 'tape'); st.cells[c] = R.tape
            a = [VRef(c)] + [x(R) if callable(x) else x for x in args]
            outs = S.run(e, key, targs, a, st)
            S.judge(e, "%s [%s]" % (name, R.name), key, outs, lambda o: f(e, o, R, o.st.cells.get(c)))
    if keep:
        def f(e, o, R, v):
            if panics(o) or not isinstance(v, VAdt): return None
            n = e.seq_len(v.f[fn["buffer"]])
            for x in o.st.assume(gt(n, R.n)):
                if not entails(x, le(n, (R.cnt + 1).scale(4) + 8)): return "the buffer grows from %s to %s although only %s symbols can be rewound to" % (show(R.n), show(n), show(R.cnt))
        each(S.timpl(READER, lambda t: t[0] == "adt" and t[1] == A, "next_symbol")[0], [], f, targs=S.params(S.timpl(READER, lambda t: t[0] == "adt" and t[1] == A, "next_symbol")[0]))
        each(S.inherent(A, "cut"), [], f); each(S.inherent(A, "rewind"), [VInt(nn("num_symbols"), USIZE)], f); return
    calls = lambda R: R.T + (1 if R.ended else 0)
    pos = lambda R: R.base + R.p
    # ---- new
    key = S.inherent(A, "new"); e = engine(None)
    outs = S.run(e, key, (SYM, RD), [VInt(R0, RD)])
    S.judge(e, "new", key, outs, lambda o: "panics" if panics(o) else inv(e, o, o.val, ZERO, ZERO, ZERO, False, ZERO))
    # ---- methods that do not change the abstract tape
    key = S.inherent(A, "resize")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        r = inv(e, o, v, R.base, pos(R), R.T, R.ended, calls(R))
        if r: return r
        if not lemma and not entails(o.st, gt(e.seq_len(v.f[fn["buffer"]]), R.n)): return "the buffer does not grow"
    if key: each(key, [], f)
    key = S.inherent(A, "buffer_size")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        if not entails(o.st, eq(o.val.l, R.cnt)): return "returns %r, expected %s" % (o.val, show(R.cnt))
        return inv(e, o, v, R.base, pos(R), R.T, R.ended, calls(R))
    if not lemma: each(key, [], f)
    key = S.inherent(A, "get_source_position")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        if not entails(o.st, eq(o.val.l, pos(R))): return "returns %r, expected %s" % (o.val, show(pos(R)))
        return inv(e, o, v, R.base, pos(R), R.T, R.ended, calls(R))
    each(key, [], f)
    key = S.inherent(A, "at_end_of_reader")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        want = eq(R.p, R.cnt) if R.ended else False
        r = bool_is(o.st, o.val, want)
        return r or inv(e, o, v, R.base, pos(R), R.T, R.ended, calls(R))
    each(key, [], f)
    key = S.inherent(A, "cut")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        return inv(e, o, v, pos(R), pos(R), R.T, R.ended, calls(R))
    each(key, [], f)
    key = S.inherent(A, "rewind"); k = nn("num_symbols")
    def f(e, o, R, v):
        if panics(o): return None if entails(o.st, gt(k, R.p)) else "panics (%s) although only %s of %s symbols are to be rewound" % (o.msg, show(k), show(R.p))
        if not lemma and not entails(o.st, le(k, R.p)): return "rewinds past the last cut instead of panicking"
        for x in o.st.assume(le(k, R.p)):
            r = inv(e, Out(o.kind, x, o.val), v, R.base, pos(R) - k, R.T, R.ended, calls(R))
            if r: return r
    each(key, [VInt(k, USIZE)], f)
    # ---- next_symbol
    key, im = S.timpl(READER, lambda t: t[0] == "adt" and t[1] == A, "next_symbol")
    def f(e, o, R, v):
        if panics(o): return "panics: %s" % o.msg
        bad = None
        for c in o.st.con.assume(lt(R.p, R.cnt)):
            s2 = o.st.copy(); s2.con = c; o2 = Out(o.kind, s2, o.val)
            r = explain(e, s2, o.val, stream_at(e, R0 + pos(R), SYM)) or inv(e, o2, v, R.base, pos(R) + 1, R.T, R.ended, calls(R))
            if r: return "reading a buffered symbol: " + r
        for c in o.st.con.assume(eq(R.p, R.cnt)):
            s2 = o.st.copy(); s2.con = c; o2 = Out(o.kind, s2, o.val)
            if R.ended:
                r = explain(e, s2, o.val, VAdt(OPTION, 0, ())) or inv(e, o2, v, R.base, pos(R), R.T, True, calls(R))
                if r: return "reading after the end: " + r
                continue
            t = values.elem_atom(STREAM, R0 + R.T)
            for end in (0, 1):
                for c2 in c.assume(('var', t, end, True)):
                    s3 = s2.copy(); s3.con = c2; o3 = Out(o.kind, s3, o.val)
                    if end == 0: r = explain(e, s3, o.val, VAdt(OPTION, 0, ())) or inv(e, o3, v, R.base, pos(R), R.T, True, R.T + 1)
                    else: r = explain(e, s3, o.val, stream_at(e, R0 + pos(R), SYM)) or inv(e, o3, v, R.base, pos(R) + 1, R.T + 1, False, R.T + 1)
                    if r: return ("reading at the end of the source: " if end == 0 else "reading a new symbol: ") + r
    each(key, [], f, targs=S.params(key))
