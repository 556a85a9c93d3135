"""C01: next / prev are the exact successor / predecessor of every provided Countable type."""
from engine.spec import *
LEVEL = "proof"
RULE = ("For each impl of Countable the MIR of next and prev is interpreted abstractly (value numbering, linear constraints) for an unconstrained argument; on every path on which a "
        "successor / predecessor exists in the type, the returned value must be entailed to be the argument +1 / -1 (for char: the neighbouring scalar value, stepping over the surrogate gap) and no panic may be reachable.")
RANGE_ = {"u8": (0, 2**8-1), "u16": (0, 2**16-1), "u32": (0, 2**32-1), "u64": (0, 2**64-1), "usize": (0, 2**64-1), "u128": (0, 2**128-1),
          "i8": (-2**7, 2**7-1), "i16": (-2**15, 2**15-1), "i32": (-2**31, 2**31-1), "i64": (-2**63, 2**63-1), "isize": (-2**63, 2**63-1), "i128": (-2**127, 2**127-1)}
NEED = ["usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64"]

def check(S):
    tr = CRATE + "countable::Countable"
    seen = set()
    for im in S.P.by_trait.get(tr, []):
        t = im["self"]
        if t[0] == "int": seen.add(t[1]); lo, hi = RANGE_[t[1]]; gaps = [(lo, hi, 1)]
        elif t[0] == "char": seen.add("char")
        else: S.notes.append("impl for %s not covered" % (t,)); continue
        for m in ("next", "prev"):
            key = im["itemmap"].get(m)
            if key is None: raise Missing("Countable::%s for %s" % (m, t))
            x = None
            # (range of the argument, expected difference)
            if t[0] == "char":
                A, B, C, D = 0, 0xD7FF, 0xE000, 0x10FFFF
                cases = [(A, B - 1, 1), (B, B, C - B), (C, D - 1, 1)] if m == "next" else [(A + 1, B, -1), (C, C, B - C), (C + 1, D, -1)]
            else: cases = [(lo, hi - 1, 1)] if m == "next" else [(lo + 1, hi, -1)]
            for a, b, d in cases:
                e = S.engine(); e.exact_casts = True; st = State()
                arg = e.mk(e.sym("self"), ("ref", t, False))
                x = e.read(st, arg.cell, arg.path).l
                sts = st.assume(ge(x, L(a)), le(x, L(b)))
                outs = []
                for s0 in sts: outs += S.run(e, key, (), [arg], s0)
                def f(o):
                    if panics(o): return "%s can panic (%s) although the neighbouring value exists" % (m, o.msg)
                    if not isinstance(o.val, VInt) or not entails(o.st, eq(o.val.l, x + d)): return "%s(x) is %r, expected x%+d for x in %d..=%d" % (m, o.val, d, a, b)
                S.judge(e, "%s.%s %d..=%d" % (t[-1], m, a, b), key, outs, f)
    for n in NEED + ["char"]:
        if n not in seen: raise Missing("impl Countable for %s" % n)
