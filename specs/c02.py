"""C02: closed interval algebra of SymbolRange."""
from engine.spec import *
LEVEL = "proof"
RULE = ("Every method of SymbolRange (and its PartialEq/PartialOrd/Ord impls) is interpreted abstractly over an arbitrary totally ordered symbol type; on every path the result must be entailed "
        "to be what closed intervals prescribe, for all orderings of the endpoints and the tested symbol. `new` must panic exactly when lowest > highest.")

def check(S):
    A = S.adt("symbol_range::SymbolRange"); lo = S.field(A, "lowest"); hi = S.field(A, "highest")
    ORD = "core::cmp::Ord"; PORD = "core::cmp::PartialOrd"; PEQ = "core::cmp::PartialEq"
    isr = lambda t: t[0] == "adt" and t[1] == A
    def rng(e, o, r): v = deref(e, o, r); return v.f[lo].l, v.f[hi].l
    def go(name, key, f, pre=True, two=True):
        e = S.engine(); st = State()
        args = S.sym_args(e, key)
        a = e.read(st, args[0].cell, args[0].path); a = (a.f[lo].l, a.f[hi].l)
        b = None
        if two: b = e.read(st, args[1].cell, args[1].path); b = (b.f[lo].l, b.f[hi].l)
        else: b = (e.read(st, args[1].cell, args[1].path).l,)
        sts = st.assume(le(*a)) if pre else [st]
        if pre and two: sts = [y for s0 in sts for y in s0.assume(le(*b))]
        outs = []
        for s0 in sts: outs += S.run(e, key, S.params(key), args, s0)
        def g(o):
            if panics(o): return "can panic: %s" % o.msg
            return f(e, o, a, b)
        S.judge(e, name, key, outs, g)
    def boolean(want):
        def f(e, o, a, b):
            w = want(a, b)
            if not isinstance(o.val, VBool): return "result %r" % (o.val,)
            for c in o.st.con.assume(w):
                if not c.entails(o.val.c) if o.val.c not in (True, False) else not o.val.c: return "answers no although it should answer yes (%s)" % show(w)
            for c in o.st.con.assume(neg(w)):
                if not c.entails(neg(o.val.c)) if o.val.c not in (True, False) else o.val.c: return "answers yes although it should answer no (%s)" % show(neg(w))
        return f
    # new
    key = S.inherent(A, "new")
    e = S.engine(); args = S.sym_args(e, key); x, y = args[0].l, args[1].l
    outs = S.run(e, key, S.params(key), args)
    def fnew(o):
        if panics(o): return None if entails(o.st, gt(x, y)) else "panics (%s) for lowest <= highest" % o.msg
        if not entails(o.st, le(x, y)): return "returns a range for lowest > highest"
        v = o.val
        if not isinstance(v, VAdt) or v.k != A: return "returns %r" % (v,)
        if not (entails(o.st, eq(v.f[lo].l, x)) and entails(o.st, eq(v.f[hi].l, y))): return "returns the range %r for (%s, %s)" % (v, show(x), show(y))
    S.judge(e, "new", key, outs, fnew)
    # overlaps, includes, join
    go("overlaps", S.inherent(A, "overlaps"), boolean(lambda a, b: conj([le(a[0], b[1]), le(b[0], a[1])])))
    go("includes", S.inherent(A, "includes"), boolean(lambda a, b: conj([le(a[0], b[0]), le(b[0], a[1])])), two=False)
    def fjoin(e, o, a, b):
        v = o.val
        if not isinstance(v, VAdt): return "returns %r" % (v,)
        l, h = v.f[lo].l, v.f[hi].l
        if not (entails(o.st, le(l, a[0])) and entails(o.st, le(l, b[0]))): return "join's lowest is not a lower bound of both"
        if not (entails(o.st, ge(h, a[1])) and entails(o.st, ge(h, b[1]))): return "join's highest is not an upper bound of both"
        if not (entails(o.st, eq(l, a[0])) or entails(o.st, eq(l, b[0]))): return "join's lowest is not the smaller lowest"
        if not (entails(o.st, eq(h, a[1])) or entails(o.st, eq(h, b[1]))): return "join's highest is not the larger highest"
    go("join", S.inherent(A, "join"), fjoin)
    # order and equality
    less = lambda a, b: disj([lt(a[0], b[0]), conj([eq(a[0], b[0]), lt(a[1], b[1])])])
    same_ = lambda a, b: conj([eq(a[0], b[0]), eq(a[1], b[1])])
    def want_ord(a, b): return [less(a, b), same_(a, b), less(b, a)]
    def ford(wrap):
        def f(e, o, a, b):
            v = o.val
            if wrap:
                i = e.variant(o.st, v)
                if i != 1: return "partial_cmp returns None"
                v = e.as_adt(o.st, v).f[0]
            i = e.variant(o.st, v)
            w = want_ord(a, b)
            for c in o.st.con.assume(neg(w[i])): return "answers %s although %s is possible" % (["Less", "Equal", "Greater"][i], show(neg(w[i])))
        return f
    go("Ord::cmp", S.timpl(ORD, isr, "cmp")[0], ford(False), pre=False)
    k, im = S.timpl(PORD, isr, "partial_cmp"); go("PartialOrd::partial_cmp", k, ford(True), pre=False)
    for m, w in (("lt", lambda a, b: less(a, b)), ("le", lambda a, b: neg(less(b, a))), ("gt", lambda a, b: less(b, a)), ("ge", lambda a, b: neg(less(a, b)))):
        if m in im["itemmap"]: go("PartialOrd::" + m, im["itemmap"][m], boolean(w), pre=False)
    k, im = S.timpl(PEQ, isr, "eq"); go("PartialEq::eq", k, boolean(same_), pre=False)
    if "ne" in im["itemmap"]: go("PartialEq::ne", im["itemmap"]["ne"], boolean(lambda a, b: neg(same_(a, b))), pre=False)
    oi = S.timpl(ORD, isr, "cmp")[1]
    for m in ("max", "min", "clamp"):
        if m in oi["itemmap"]: S.unknown("Ord::" + m, S.where(oi["itemmap"][m]), "overridden; no rule")
