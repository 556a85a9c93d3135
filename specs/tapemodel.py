"""Tape by contract (C14): a position in a source of `END` symbols; what has been read past and the last cut are tracked."""
from engine.spec import *
END = lambda e: L(e.sym("end", nonneg=True))
# a tape is (base, position, seen): seen counts the results taken from the source, the final "nothing" included (so it has ended when seen > END)
VT = "vtape"
def vtape(base, pos, seen): return VAdt(VT, 0, (VInt(L(base), USIZE), VInt(L(pos), USIZE), VInt(L(seen), USIZE)))
def tape_ref(eng, st, v):
    n = 0
    while True:
        x = prims.rd(eng, st, v)
        if isinstance(x, VAdt) and x.k == VT: return v
        if not isinstance(x, VRef) or n > 6: return None
        v = x; n += 1
def tape_hook(S, symty):
    A = S.adt("tape::Tape")
    keys = {}
    for im in S.P.impls:
        t = im["self"]
        if t[0] == "adt" and t[1] == A and (not im.get("trait") or im["trait"] == READER):
            for n, k in im["itemmap"].items():
                if isinstance(k, str): keys[k] = n
    def h(eng, st, C):
        m = keys.get(C.key)
        if m is None and C.trait == READER and C.method == "next_symbol": m = "next_symbol"
        if m is None: return None
        if m == "new":
            r = C.args[0]
            if isinstance(r, VInt) and r.l.single() is not None and r.l.single().k[:2] == ('sym', "source"): return [eng.out(st, vtape(0, 0, 0))]
            raise Taint("tape on %r" % (r,))
        r = tape_ref(eng, st, C.args[0]) if isinstance(C.args[0], VRef) else None
        if r is None:
            if C.trait == READER: return None
            raise Taint("tape %r" % (C.args[0],))
        v = prims.rd(eng, st, r); base, pos, seen = [x.l for x in v.f]; E = END(eng)
        if m == "get_source_position": return [eng.out(st, VInt(pos, USIZE))]
        if m == "cut": prims.wr(eng, st, r, vtape(pos, pos, seen)); return [eng.out(st, UNIT)]
        if m == "rewind":
            n = C.args[1].l
            if not eng.decide(st, conj([ge(n, ZERO), le(n, pos - base)])): prims.panic("Can't rewind beyond the start of the tape")
            prims.wr(eng, st, r, vtape(base, pos - n, seen)); return [eng.out(st, UNIT)]
        if m == "at_end_of_reader": return [eng.out(st, VBool(conj([gt(seen, E), ge(pos, E)])))]
        if m == "next_symbol":
            s2 = seen if eng.decide(st, gt(seen, pos)) else pos + 1
            if eng.decide(st, lt(pos, E)):
                prims.wr(eng, st, r, vtape(base, pos + 1, s2)); return [eng.out(st, prims.some(eng.mk(values.elem_atom(STREAM, pos), symty)))]
            prims.wr(eng, st, r, vtape(base, pos, s2)); return [eng.out(st, prims.NONE)]
        if m == "resize": return [eng.out(st, UNIT)]
        if m == "buffer_size":
            return [eng.out(st, VInt(seen - base if eng.decide(st, le(seen, E)) else E - base, USIZE))]
        raise Taint("tape method %s" % m)
    return h
