"""Meaning of the std functions the analysed code calls (primitives), trait dispatch, and call of model functions."""
from .lin import *
from . import values
from .values import *
from .mir import *

# ------------------------------------------------------------------ types
def nolt(args): return [a for a in args if a != ("lt",)]
def is_adt(ty, *keys): return ty[0] == "adt" and ty[1] in keys
VECS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::string::String")
MITER = {"models::Iter", "models::IterMut", "models::IntoIter", "models::OptIter"}
LT = ("lt",)

def norm_ty(eng, ty):
    c = eng.tynorm.get(ty)
    if c is None:
        c = _norm(eng, ty); eng.tynorm[ty] = c
    return c
def _norm(eng, t):
    if not isinstance(t, tuple) or not t: return t
    h = t[0]
    if h == "adt": return ad(t[1], tuple(norm_ty(eng, a) for a in t[2])) if t[2] else t
    if h in ("closure", "fndef", "dyn"): return (h, t[1], tuple(norm_ty(eng, a) for a in t[2]))
    if h == "tuple": return (h, tuple(norm_ty(eng, a) for a in t[1]))
    if h in ("ref", "rawptr"): return (h, norm_ty(eng, t[1]), t[2])
    if h == "slice": return (h, norm_ty(eng, t[1]))
    if h == "array": return (h, norm_ty(eng, t[1]), t[2])
    if h == "proj":
        args = tuple(norm_ty(eng, a) for a in t[2])
        trait, item = t[1].rsplit("::", 1)
        r = project(eng, trait, item, args)
        return r if r is not None else (h, t[1], args)
    return t
def elem_ty(t):
    if is_adt(t, *VECS): a = nolt(t[2]); return a[0] if a else ("char",)
    if t[0] in ("slice", "array"): return t[1]
    if t == ("str",): return ("char",)
    return None
def project(eng, trait, item, args):
    s = args[0]
    if trait == ITER and item == "Item":
        if s[0] == "ref": return project(eng, trait, item, (s[1],))
        if is_adt(s, BOX): return project(eng, trait, item, (nolt(s[2])[0],))
        if is_adt(s, RANGE, "core::ops::range::RangeFrom"): return nolt(s[2])[0]
        if s[0] == "param" and s in eng.iter_params: return eng.iter_params[s]
    if trait.endswith("IntoIterator"):
        it = into_iter_ty(eng, s)
        if it is None: return None
        if item == "IntoIter": return it
        if item == "Item": return norm_ty(eng, ("proj", ITER + "::Item", (it,)))
    if trait.endswith("::FnOnce") and item == "Output":
        if s[0] == "closure":
            b = eng.P.bodies.get(s[1])
            if b: return norm_ty(eng, subst_ty(b.locals[0], s[2]))
        if s[0] == "ref": return project(eng, trait, item, (s[1],) + args[1:])
        return None
    if trait.endswith("::Deref") and item == "Target":
        if s[0] == "ref": return s[1]
        if s[0] == "adt":
            e = elem_ty(s)
            if s[1].endswith("String"): return ("str",)
            if e: return ("slice", e)
            if s[1] == BOX or s[1] in RC or s[1] in GUARD: return nolt(s[2])[0]
    if trait.endswith("::Index") and item == "Output":
        e = elem_ty(s)
        if e: return e if args[1] == USIZE else ("slice", e)
    for n in range(len(args), 0, -1):
        im = eng.P.find_impl(trait, args[:n])
        if im:
            x = im[0]["itemmap"].get("type " + item)
            if x is not None: return norm_ty(eng, subst_ty(x, im[1]))
    return None
def into_iter_ty(eng, t):
    if t[0] == "ref":
        e = elem_ty(t[1])
        if e: return ("adt", "models::IterMut" if t[2] else "models::Iter", (LT, e))
        if is_adt(t[1], *SETS): return ("adt", "models::Iter", (LT, nolt(t[1][2])[0]))
        if is_adt(t[1], OPTION): return ("adt", "models::OptIter", (("ref", nolt(t[1][2])[0], t[2]),))
        im = eng.P.find_impl("core::iter::traits::collect::IntoIterator", (t,))
        if im: return norm_ty(eng, subst_ty(im[0]["itemmap"]["type IntoIter"], im[1]))
        return t
    e = elem_ty(t)
    if e: return ("adt", "models::IntoIter", (e,))
    if t[0] == "adt":
        a = nolt(t[2])
        if t[1] in SETS: return ("adt", "models::IntoIter", (a[0],))
        if t[1] == OPTION: return ("adt", "models::OptIter", (a[0],))
        if t[1] == "models::RangeIncl": return ("adt", RANGE, (a[0],))
        im = eng.P.find_impl("core::iter::traits::collect::IntoIterator", (t,))
        if im: return norm_ty(eng, subst_ty(im[0]["itemmap"]["type IntoIter"], im[1]))
        return t
    if t[0] == "param": return t
    return None

# ------------------------------------------------------------------ small helpers
def T_(*a): raise_taint(*a)
def raise_taint(m):
    from .interp import Taint
    raise Taint(m)
def panic(m):
    from .interp import Panic
    raise Panic(m)
def some(v): return VAdt(OPTION, 1, (v,))
NONE = VAdt(OPTION, 0, ())
def cst(v): return VRef(('cst', v))
def rd(eng, st, v):
    """content behind a reference"""
    if isinstance(v, VRef): return eng.read(st, v.cell, v.path)
    if isinstance(v, VBox): return v.v
    raise_taint("not a reference: %r" % (v,))
def rdall(eng, st, v):
    n = 0
    while isinstance(v, VRef):
        v = eng.read(st, v.cell, v.path); n += 1
        if n > 8: raise_taint("reference chain")
    return v
def wr(eng, st, r, val):
    if not isinstance(r, VRef): raise_taint("write through %r" % (r,))
    eng.write(st, r.cell, r.path, val)
def sub(r, *es):
    p = r.path
    for e in es: p = join(p, e)
    return VRef(r.cell, p)
def join(p, e):
    if p and e != 'bx' and p[-1] != 'bx' and p[-1][0] == 's':
        lo = p[-1][1]
        if e[0] == 'i': return p[:-1] + (('i', lo + e[1]),)
        if e[0] == 's': return p[:-1] + (('s', lo + e[1], lo + e[2]),)
    return p + (e,)
def seq(eng, st, r):
    v = rdall(eng, st, r) if isinstance(r, VRef) else r
    if isinstance(v, VBox): v = v.v
    if not isinstance(v, VSeq): raise_taint("sequence expected, found %r" % (v,))
    return v
def seqref(eng, st, r):
    """reference chain -> reference directly to the sequence"""
    n = 0
    while True:
        v = rd(eng, st, r)
        if isinstance(v, VRef): r = v
        elif isinstance(v, VBox): r = sub(r, 'bx')
        else: return r
        n += 1
        if n > 8: raise_taint("reference chain")
def vint(l, ty=USIZE): return VInt(L(l), ty)
def mkseq(segs, ety): return VSeq(norm_segs(segs, ety), ety)
def fn_calls(eng, st, f, args, C):
    return call_value(eng, st, f, args, C)

# ------------------------------------------------------------------ structural comparison
def vals_eq(eng, st, a, b):
    """condition under which two values are equal (structural equality)"""
    if a is b or a == b: return True
    if isinstance(a, VRef): return vals_eq(eng, st, eng.read(st, a.cell, a.path), b)
    if isinstance(b, VRef): return vals_eq(eng, st, a, eng.read(st, b.cell, b.path))
    if isinstance(a, VInt) and isinstance(b, VInt): return eq(a.l, b.l)
    if isinstance(a, VBox) and isinstance(b, VBox): return vals_eq(eng, st, a.v, b.v)
    if isinstance(a, VBool) and isinstance(b, VBool):
        if isinstance(a.c, bool): return b.c if a.c else neg(b.c)
        if isinstance(b.c, bool): return a.c if b.c else neg(a.c)
        return disj([conj([a.c, b.c]), conj([neg(a.c), neg(b.c)])])
    if isinstance(a, (VAdt, VSym)) and isinstance(b, (VAdt, VSym)):
        if isinstance(a, VSym) and not eng.ty_is_enum(a.ty) or isinstance(b, VSym) and not eng.ty_is_enum(b.ty):
            return ('b', atom('veq', *sorted((a, b), key=repr)), True)
        x = eng.variant(st, a); y = eng.variant(st, b)
        if x != y: return False
        a = eng.as_adt(st, a); b = eng.as_adt(st, b)
        return conj([vals_eq(eng, st, p, q) for p, q in zip(a.f, b.f)])
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        la = eng.seq_len(a); lb = eng.seq_len(b)
        if eng.ent(st, ne(la, lb)): return False
        if la.const() is not None and lb.const() is not None:
            return conj([vals_eq(eng, st, eng.seq_get(st, a, L(i)), eng.seq_get(st, b, L(i))) for i in range(la.c)])
        if la.const() is not None or lb.const() is not None:
            k = la.const() if la.const() is not None else lb.const()
            o = lb if la.const() is not None else la
            if k <= 8:
                if not eng.decide(st, eq(o, L(k))): return False
                return conj([vals_eq(eng, st, eng.seq_get(st, a, L(i)), eng.seq_get(st, b, L(i))) for i in range(k)])
        return ('b', atom('veq', *sorted((a, b), key=repr)), True)
    raise_taint("equality of %r and %r" % (a, b))
def ordering(i): return VAdt(ORDERING, i, ())
def vals_cmp(eng, st, a, b):
    """0/1/2 = less/equal/greater by derived (lexicographic) order; decides"""
    if a == b: return 1
    if isinstance(a, VRef): return vals_cmp(eng, st, eng.read(st, a.cell, a.path), b)
    if isinstance(b, VRef): return vals_cmp(eng, st, a, eng.read(st, b.cell, b.path))
    if isinstance(a, VInt) and isinstance(b, VInt):
        if eng.decide(st, lt(a.l, b.l)): return 0
        return 1 if eng.decide(st, eq(a.l, b.l)) else 2
    if isinstance(a, VBox) and isinstance(b, VBox): return vals_cmp(eng, st, a.v, b.v)
    if isinstance(a, (VAdt, VSym)) and isinstance(b, (VAdt, VSym)):
        k = a.k if isinstance(a, VAdt) else a.ty[1]
        if k.startswith("concordance::"): raise_taint("order of %s" % k)
        x = eng.variant(st, a); y = eng.variant(st, b)
        if x != y: return 0 if x < y else 2
        a = eng.as_adt(st, a); b = eng.as_adt(st, b)
        for p, q in zip(a.f, b.f):
            r = vals_cmp(eng, st, p, q)
            if r != 1: return r
        return 1
    raise_taint("order of %r and %r" % (a, b))

# ------------------------------------------------------------------ maps and sets
def wpair(k, v): return VAdt("w", 0, (k, v))
def map_lookup(eng, st, m, key):
    """value or None, or raises Fork; presence of the key in the base is a variant of the 'get' term"""
    for g in reversed(m.writes.segs):
        if g[0] == 'one':
            k, v = g[1].f
            if eng.decide(st, vals_eq(eng, st, k, key)): return None if isinstance(v, VUndef) else v
        else:
            a = atom('get', m, key)
            if m.vty == UNITTY:
                return UNIT if eng.decide(st, ('b', a, True)) else None
            o = VSym(a, opt(m.vty))
            return eng.as_adt(st, o).f[0] if eng.variant(st, o) == 1 else None
    if m.base is None: return None
    a = atom('get', m.base, key)
    if m.vty == UNITTY: return UNIT if eng.decide(st, ('b', a, True)) else None
    o = VSym(a, opt(m.vty))
    return eng.as_adt(st, o).f[0] if eng.variant(st, o) == 1 else None
def map_write(m, k, v): return VMap(m.base, m.kty, m.vty, mkseq(m.writes.segs + (('one', wpair(k, v)),), m.writes.ety))
def map_empty(kty, vty): return VMap(None, kty, vty, VSeq((), ("w", kty, vty)))
def set_elems(eng, st, m):
    """elements of a set as a sequence in ascending order"""
    if not isinstance(m, VMap): raise_taint("set expected")
    if m.base is None and not m.writes.segs: return VSeq((), m.kty)
    if m.base is None and len(m.writes.segs) == 1 and m.writes.segs[0][0] == 'one': return mkseq([('one', m.writes.segs[0][1].f[0])], m.kty)
    if m.base is None and eng.small and all(g[0] == 'one' for g in m.writes.segs) and len(m.writes.segs) <= eng.small and m.kty[0] in ("int", "char", "param"):
        # spelled out: sorted by the comparisons the path decides
        r = []
        for g in m.writes.segs:
            k, w = g[1].f; j = 0; hit = False
            while j < len(r) and not eng.decide(st, le(k.l, r[j].l)): j += 1
            if j < len(r) and eng.decide(st, eq(k.l, r[j].l)): hit = True
            if isinstance(w, VUndef):
                if hit: del r[j]
            elif not hit: r.insert(j, k)
        return VSeq(tuple(('one', x) for x in r), m.kty)
    a = atom('elems', m)
    return VSeq([('sl', a, ZERO, L(atom('len', a, nonneg=True)))], m.kty)

# ------------------------------------------------------------------ calls
def run_key(eng, st, key, targs, args):
    b = eng.P.bodies.get(key)
    if b is None: raise_taint("no body for %s" % key)
    if b.spread is not None and len(args) != b.argc: raise_taint("argument count of %s" % key)
    return eng.run_body(key, tuple(targs), args, st)
def model(eng, st, name, targs, args):
    b = eng.P.bodies["models::" + name]
    it = iter(nolt(targs)); full = []
    for g in b.generics: full.append(LT if g.startswith("'") else next(it, ("any",)))
    return eng.run_body(b.key, tuple(full), args, st)
def call_value(eng, st, f, args, C=None):
    """call a closure or function value; f: VClo / VFn / VRef to one / VBox"""
    n = 0
    ref = None
    while isinstance(f, (VRef, VBox)):
        if isinstance(f, VRef): ref = f; f = eng.read(st, f.cell, f.path)
        else: ref = None if ref is None else sub(ref, 'bx'); f = f.v
        n += 1
        if n > 8: raise_taint("reference chain")
    if isinstance(f, VClo):
        b = eng.P.bodies.get(f.k)
        if b is None: raise_taint("closure body")
        t = b.locals[1]
        if t[0] == "ref":
            if ref is None:
                c = ('l', eng.depth, ('t', f.k)); st.cells[c] = f; ref = VRef(c)
            self_ = ref
        else: self_ = f
        # MIR of a closure takes its arguments untupled
        return eng.run_body(f.k, f.args, [self_] + list(args), st)
    if isinstance(f, VFn): return call_fn(eng, st, f, args, C)
    if isinstance(f, VSym) or isinstance(f, VInt):
        for h in eng.fn_hooks:
            r = h(eng, st, f, args, ref)
            if r is not None: return r
    raise_taint("call of %r" % (f,))
def call_fn(eng, st, f, args, C):
    k = f.k
    base = k.split("::{constructor")[0] if "::{constructor" in k else k
    owner, _, name = base.rpartition("::")
    if owner in eng.P.adts and k not in eng.P.bodies:
        for i, v in enumerate(eng.P.adts[owner]["variants"]):
            if v[0] == name: return [eng.out(st, VAdt(owner, i, args))]
    if base in eng.P.adts: return [eng.out(st, VAdt(base, 0, args))]
    from .interp import Call
    D = Call(); D.f = {"key": k}; D.key = k; D.targs = f.args; D.args = args; D.fr = C.fr if C else None; D.span = C.span if C else None
    D.used = True
    parts = k.split("::")
    D.trait = owner if owner in eng.P.by_trait or owner in eng.P.traits or owner in KNOWN_TRAITS else None
    D.method = name if D.trait else None
    D.name = fn_name(k)
    return eng.call(st, D)
KNOWN_TRAITS = {"core::clone::Clone", "core::cmp::Ord", "core::cmp::PartialOrd", "core::cmp::PartialEq", ITER, "core::iter::traits::collect::IntoIterator", "core::convert::From", "core::convert::Into"}
def fn_name(k):
    p = k.split("::")
    if len(p) > 2 and p[-2].startswith("{impl"):
        o = {"vec": "Vec", "vec_deque": "VecDeque", "option": "Option", "result": "Result", "slice": "slice", "str": "str", "string": "String", "boxed": "Box", "rc": "Rc", "set": "BTreeSet", "num": "usize"}.get(p[-3], p[-3])
        return o + "::" + p[-1]
    return "::".join(p[-2:])

def dispatch(eng, st, C):
    from .interp import PANICS
    last = C.name.split("::")[-1]
    if C.key is None: raise_taint("dynamic call")
    local = C.key.startswith("concordance::") or C.key.startswith("models::")
    if not local and last in PANICS: panic(panic_msg(eng, st, C))
    if not local or C.key.startswith("models::vp_"):
        f = TABLE.get(C.name) or TABLE.get("*::" + last if C.name.split("::")[0] in INTS else None)
        if f:
            r = f(eng, st, C)
            if r is not NotImplemented: return r if isinstance(r, list) else [eng.out(st, r)]
    if C.trait:
        if C.trait.startswith("core::ops::function::Fn"):
            tup = C.args[1]
            if not isinstance(tup, VAdt): raise_taint("argument tuple")
            return call_value(eng, st, C.args[0], list(tup.f), C)
        r = trait_call(eng, st, C, C.targs, C.args)
        if r is not None: return r
    if C.key in eng.P.bodies: return run_key(eng, st, C.key, C.targs, C.args)
    n = MODELS.get(C.name) or C.name.replace("::", "_").lower().replace("vecdeque_", "deque_").replace("iterator_", "").replace("rangeinclusive", "range_incl")
    if not local and "models::" + n in eng.P.bodies:
        args = [seqref_arg(eng, st, a) if n.startswith(("slice_", "vec_", "deque_")) else a for a in C.args]
        return model(eng, st, n, C.targs, args)
    raise_taint("call of %s" % (C.f.get("path") or C.key))
def seqref_arg(eng, st, a):
    return a
def panic_msg(eng, st, C):
    for a in C.args:
        if isinstance(a, VRef) and a.cell[0] == 'str': return a.cell[1]
    return C.name
def trait_call(eng, st, C, targs, args):
    self_ty = targs[0]
    # drop elaboration: what is left of a box whose content was moved out (only the allocation is freed)
    if C.method == "drop" and is_adt(self_ty, BOX) and C.trait.endswith("::Drop"): return [eng.out(st, UNIT)]
    if self_ty[0] == "dyn" or (self_ty[0] == "adt" and self_ty[1] == BOX and nolt(self_ty[2])[0][0] == "dyn" and not eng.P.find_impl(C.trait, targs[:ngen(eng, C.trait, targs)])):
        dty = dyn_ty(eng, st, args[0])
        if dty is not None:
            targs = (dty,) + tuple(targs[1:]); self_ty = dty
    n = ngen(eng, C.trait, targs)
    im = eng.P.find_impl(C.trait, targs[:n])
    if im is None and n != 1:
        for m in range(len(targs), 0, -1):
            im = eng.P.find_impl(C.trait, targs[:m])
            if im: n = m; break
    if im:
        k = im[0]["itemmap"].get(C.method)
        if isinstance(k, str):
            if k not in eng.P.bodies: raise_taint("no body for %s" % k)
            return run_key(eng, st, k, tuple(im[1]) + tuple(targs[n:]), args)
        dk = C.trait + "::" + C.method
        if dk in eng.P.bodies: return run_key(eng, st, dk, targs, args)
    else:
        dk = C.trait + "::" + (C.method or "")
        # provided method of an unimplemented (assumed) trait bound
        if dk in eng.P.bodies: return run_key(eng, st, dk, targs, args)
    # a reference to an implementor of a std trait
    return None
def dyn_ty(eng, st, a):
    n = 0
    while n < 6:
        if isinstance(a, (VRef, VBox)) and a.dty is not None and a.dty[0] != "dyn": return a.dty
        if isinstance(a, VRef): a = eng.read(st, a.cell, a.path)
        elif isinstance(a, VBox): a = a.v
        else: return None
        n += 1
def ngen(eng, trait, targs):
    t = eng.P.traits.get(trait)
    if t and t.get("ngen"): return t["ngen"]
    ims = eng.P.by_trait.get(trait)
    if ims: return len(ims[0]["targs"])
    return 1
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "num", "char"}
MODELS = {"slice::into_vec": None, "Vec::get": "slice_get", "Option::copied": "option_cloned", "Option::cloned": "option_cloned", "Iterator::copied": "cloned",
          "Vec::contains": "slice_contains", "VecDeque::truncate": "vec_truncate", "VecDeque::extend_from_slice": "vec_extend_from_slice", "VecDeque::swap": "slice_swap", "slice::swap": "slice_swap",
          "iter::once": "once", "iter::empty": "empty", "iter::repeat": "repeat", "iter::from_fn": "from_fn", "Peekable::peek": "peek", "Range::contains": "range_contains",
          "RangeInclusive::contains": "range_incl_contains", "RangeInclusive::new": "range_incl_new", "RangeInclusive::start": "range_incl_start", "RangeInclusive::end": "range_incl_end",
          "Range::is_empty": "range_is_empty", "ExactSizeIterator::len": None, "Iter::as_slice": "iter_as_slice", "VecDeque::resize": "vec_resize",
          "VecDeque::retain": "vec_retain", "Once::once": "once", "VecDeque::iter": "slice_iter", "VecDeque::iter_mut": "slice_iter_mut", "VecDeque::binary_search_by": "slice_binary_search_by",
          "Option::iter": "option_iter"}

# ------------------------------------------------------------------ drop
def has_drop(eng, ty, seen=None):
    k = eng.dropcache.get(ty)
    if k is not None: return k
    seen = seen or set()
    if ty in seen: return False
    seen = seen | {ty}
    r = False
    if ty[0] == "adt":
        a = eng.P.adts.get(ty[1])
        if a and a.get("drop") and a.get("local"): r = True
        elif a and a["full"] and a.get("local") or ty[1] == OPTION:
            r = any(has_drop(eng, norm_ty(eng, subst_ty(f[1], ty[2])), seen) for v in a["variants"] for f in v[2])
        else: r = any(has_drop(eng, x, seen) for x in nolt(ty[2]) if x[0] in ("adt", "tuple")) if ty[1] in (BOX,) or ty[1] in SEQS else False
    elif ty[0] == "tuple": r = any(has_drop(eng, x, seen) for x in ty[1])
    elif ty[0] == "closure": r = False
    if len(seen) == 1: eng.dropcache[ty] = r
    return r
def do_drop(eng, fr, st, place, ty):
    c, path, _ = eng.place(fr, st, place)
    v = eng.read(st, c, path)
    if isinstance(v, VUndef): return [eng.out(st, UNIT)]
    return drop_value(eng, st, VRef(c, path), ty)
def drop_value(eng, st, r, ty):
    if not has_drop(eng, ty): return [eng.out(st, UNIT)]
    if ty[0] == "adt":
        a = eng.P.adts.get(ty[1])
        if a and a.get("drop") and a.get("local"):
            key = a["drop"]
            if key not in eng.P.bodies:
                im = eng.P.find_impl("core::ops::drop::Drop", (ty,))
                key = im[0]["itemmap"]["drop"] if im else None
            if key in eng.P.bodies: return eng.run_body(key, ty[2], [r], st)
            raise_taint("drop of %s" % ty[1])
        if ty[1] in SEQS or ty[1] == BOX:
            raise_taint("drop of a container of droppable values")
        v = eng.read(st, r.cell, r.path)
        x = eng.variant(st, v)
        fs = [(('f', x, i), norm_ty(eng, subst_ty(f[1], ty[2]))) for i, f in enumerate(a["variants"][x][2])]
    else: fs = [(('f', 0, i), t) for i, t in enumerate(ty[1])]
    sts = [st]; outs = []
    for e, t in fs:
        if not has_drop(eng, t): continue
        nx = []
        for s0 in sts:
            for o in drop_value(eng, s0, sub(r, e), t):
                if o.kind == 'ret': nx.append(o.st)
                else: outs.append(o)
        sts = nx
    return outs + [eng.out(s0, UNIT) for s0 in sts]

# ------------------------------------------------------------------ the table
TABLE = {}
def prim(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
def A(C, i): return C.args[i]

@prim("models::vp_take")
def _(eng, st, C): return eng.seq_get(st, seq(eng, st, A(C, 0)), A(C, 1).l)
@prim("models::vp_replace", "mem::replace")
def _(eng, st, C):
    o = rd(eng, st, A(C, 0)); wr(eng, st, A(C, 0), A(C, 1)); return o
@prim("mem::swap")
def _(eng, st, C):
    a = rd(eng, st, A(C, 0)); b = rd(eng, st, A(C, 1)); wr(eng, st, A(C, 0), b); wr(eng, st, A(C, 1), a); return UNIT
@prim("mem::take")
def _(eng, st, C):
    o = rd(eng, st, A(C, 0)); wr(eng, st, A(C, 0), default(eng, C.targs[0])); return o
@prim("mem::drop")
def _(eng, st, C):
    if has_drop(eng, C.targs[0]):
        c = ('l', eng.depth, ('t', 'drop')); st.cells[c] = A(C, 0)
        return drop_value(eng, st, VRef(c), C.targs[0])
    return UNIT
@prim("mem::forget", "hint::must_use", "convert::identity")
def _(eng, st, C): return A(C, 0) if "forget" not in C.name else UNIT
def default(eng, ty):
    if ty[0] in ("int", "char"): return VInt(ZERO, ty)
    if ty[0] == "bool": return FALSE
    if ty[0] == "tuple": return VAdt("tuple", 0, [default(eng, x) for x in ty[1]])
    if ty[0] == "adt":
        a = nolt(ty[2])
        if ty[1] in SEQS: return VSeq((), a[0] if a else ("char",))
        if ty[1] == OPTION: return NONE
        if ty[1] in SETS: return map_empty(a[0], UNITTY)
        if ty[1] in MAPS: return map_empty(a[0], a[1])
        if ty[1] == "core::marker::PhantomData": return VAdt(ty[1], 0, ())
    raise_taint("default of %s" % (ty,))
@prim("Default::default")
def _(eng, st, C):
    if C.targs[0][0] == "adt" and C.targs[0][1].startswith("concordance::"): return NotImplemented
    return default(eng, C.targs[0])
@prim("models::vp_index")
def _(eng, st, C):
    i = eng.fresh("bs", nonneg=True); eng.assume1(st, le(L(i), A(C, 0).l)); return vint(i)
@prim("models::vp_choice")
def _(eng, st, C): return [eng.out(st, TRUE), eng.out(st.copy(), FALSE)]
@prim("models::vp_stop")
def _(eng, st, C): return []
@prim("models::vp_iter", "IntoIterator::into_iter")
def _(eng, st, C): return into_iter(eng, st, A(C, 0), C.targs[0], C)
def into_iter(eng, st, v, t, C):
    if t[0] == "ref":
        e = elem_ty(t[1])
        if e:
            r = seqref(eng, st, v); n = eng.seq_len(rd(eng, st, r))
            if t[2]: return VAdt("models::IterMut", 0, (r, vint(0), vint(n), VAdt("core::marker::PhantomData", 0, ())))
            return VAdt("models::Iter", 0, (r, vint(0), vint(n)))
        if is_adt(t[1], *SETS): return set_iter(eng, st, rdall(eng, st, v))
        if is_adt(t[1], OPTION):
            r = v
            o = rd(eng, st, r)
            x = eng.variant(st, o)
            return VAdt("models::OptIter", 0, (some(sub(r, ('f', 1, 0))) if x == 1 else NONE,))
        if is_adt(t[1], *MAPS): raise_taint("iteration over a map")
        if is_iter(eng, t[1]): return v
        if eng.P.find_impl("core::iter::traits::collect::IntoIterator", (t,)): return trait_into(eng, st, C)
        return v
    if elem_ty(t):
        q = v if isinstance(v, VSeq) else seq(eng, st, v)
        return VAdt("models::IntoIter", 0, (q, vint(0), vint(eng.seq_len(q))))
    if t[0] == "adt":
        if t[1] in SETS:
            q = set_elems(eng, st, v); return VAdt("models::IntoIter", 0, (q, vint(0), vint(eng.seq_len(q))))
        if t[1] in MAPS: raise_taint("iteration over a map")
        if t[1] == OPTION: return VAdt("models::OptIter", 0, (v,))
        if t[1] == "models::RangeIncl":
            if isinstance(v.f[0], VInt): return VAdt(RANGE, 0, (v.f[0], VInt(v.f[1].l + 1, v.f[1].ty)))
            raise_taint("inclusive range")
        if is_iter(eng, t): return v
        if eng.P.find_impl("core::iter::traits::collect::IntoIterator", (t,)): return trait_into(eng, st, C)
    return v
def trait_into(eng, st, C):
    r = trait_call(eng, st, C, C.targs, C.args)
    if r is None: raise_taint("into_iter")
    return r
def is_iter(eng, t):
    if t[0] == "adt" and t[1] in (RANGE, "core::ops::range::RangeFrom"): return True
    return eng.P.find_impl(ITER, (t,)) is not None
def set_iter(eng, st, m):
    q = set_elems(eng, st, m)
    return VAdt("models::Iter", 0, (cst(q), vint(0), vint(eng.seq_len(q))))
@prim("slice::iter", "VecDeque::iter", "Vec::iter")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); return VAdt("models::Iter", 0, (r, vint(0), vint(eng.seq_len(rd(eng, st, r)))))
@prim("slice::iter_mut", "VecDeque::iter_mut", "Vec::iter_mut")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); return VAdt("models::IterMut", 0, (r, vint(0), vint(eng.seq_len(rd(eng, st, r))), VAdt("core::marker::PhantomData", 0, ())))
@prim("BTreeSet::iter", "HashSet::iter")
def _(eng, st, C): return set_iter(eng, st, rdall(eng, st, A(C, 0)))
def utf8(eng, st, q):
    """the bytes of a string (strings are sequences of chars)"""
    if not q.segs: return VSeq((), ("int", "u8"))
    a = atom('bytes', q); n = L(atom('len', a, nonneg=True)); c = eng.seq_len(q)
    eng.assume1(st, ge(n, c)); eng.assume1(st, le(n, c.scale(4)))
    return VSeq((('sl', a, ZERO, n),), ("int", "u8"))
@prim("str::bytes", "str::as_bytes", "String::as_bytes", "String::into_bytes", "str::into_bytes")
def _(eng, st, C):
    q = utf8(eng, st, rdall(eng, st, A(C, 0)) if C.name == "String::into_bytes" else seq(eng, st, A(C, 0)))
    if C.name.endswith("into_bytes"): return q
    return cst(q) if C.name.endswith("as_bytes") else VAdt("models::IntoIter", 0, (q, vint(0), vint(eng.seq_len(q))))
@prim("str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
def _(eng, st, C):
    q = seq(eng, st, A(C, 0)); a = atom(C.method or C.name.split("::")[-1], q); n = L(atom('len', a, nonneg=True)); v = VSeq((('sl', a, ZERO, n),), ("char",))
    if not q.segs: return VSeq((), ("char",)) if "to_" in C.name else cst(VSeq((), ("char",)))
    if "trim" in C.name: eng.assume1(st, le(n, eng.seq_len(q))); return cst(v)
    return v
@prim("str::chars")
def _(eng, st, C):
    q = seq(eng, st, A(C, 0)); return VAdt("models::IntoIter", 0, (q, vint(0), vint(eng.seq_len(q))))

# iterators
def peel_iter(eng, st, r, t):
    """&mut I where I is itself &mut J or Box<J>"""
    while True:
        if t[0] == "ref": r = rd(eng, st, r); t = t[1]
        elif is_adt(t, BOX): r = sub(r, 'bx'); t = nolt(t[2])[0]
        else: return r, t
def is_range(v): return isinstance(v, VAdt) and v.k == RANGE
@prim("Iterator::next", "DoubleEndedIterator::next_back")
def _(eng, st, C):
    r, t = peel_iter(eng, st, A(C, 0), C.targs[0])
    nm = C.method
    if t[0] == "dyn":
        d = dyn_ty(eng, st, A(C, 0)) or dyn_ty(eng, st, r)
        if d: t = d
    if is_adt(t, "models::RangeIncl") and is_range(rd(eng, st, r)): t = ("adt", RANGE, nolt(t[2]))     # into_iter made it an exclusive one
    if is_adt(t, RANGE): return model(eng, st, "range_next" if nm == "next" else "range_next_back", (), [r])
    if is_adt(t, "core::ops::range::RangeFrom"): return model(eng, st, "range_from_next", (), [r])
    im = eng.P.find_impl(C.trait, (t,))
    if im:
        return run_key(eng, st, im[0]["itemmap"][nm], im[1], [r])
    return NotImplemented
@prim("models::vp_run")
def _(eng, st, C):
    r, t = peel_iter(eng, st, A(C, 0), C.targs[0])
    im = eng.P.find_impl("models::Run", (t,))
    if im: return run_key(eng, st, im[0]["itemmap"]["run"], tuple(im[1]) + (C.targs[1],), [r, A(C, 1)])
    return run_key(eng, st, "models::run_default", (t, C.targs[1]), [r, A(C, 1)])
@prim("Iterator::collect", "FromIterator::from_iter")
def _(eng, st, C):
    if C.name == "Iterator::collect": src, tgt = C.targs[0], C.targs[1]; it = A(C, 0)
    else:
        tgt, src = C.targs[0], C.targs[-1]; it = into_iter(eng, st, A(C, 0), src, C); src = into_iter_ty(eng, src)
    if it is None or isinstance(it, list): raise_taint("collect")
    while is_adt(tgt, BOX): tgt = nolt(tgt[2])[0]
    if elem_ty(tgt):
        q = whole(eng, st, it)
        if q is not None: return q
        outs = model(eng, st, "collect_deque" if "Deque" in tgt[1] else "collect_vec", (src,), [it]); ty = elem_ty(tgt)
        # the target names the element type even where the iterator's own type does not
        if ty[0] not in ("proj", "infer"):
            for o in outs:
                if o.kind == 'ret' and isinstance(o.val, VSeq) and o.val.ety != ty: o.val = VSeq(norm_segs(o.val.segs, ty), ty)
        return outs
    if is_adt(tgt, *SETS): return model(eng, st, "collect_set" if "BTree" in tgt[1] else "collect_hset", (src,), [it])
    if is_adt(tgt, *MAPS):
        a = nolt(tgt[2]); return model(eng, st, "collect_hmap", (a[0], a[1], src), [it])
    raise_taint("collect into %s" % (tgt,))
def whole(eng, st, it):
    """remaining content of a by-value iterator over a sequence (also cloned / copied slice iterators)"""
    if isinstance(it, VAdt) and it.k == "models::IntoIter":
        return eng.seq_slice(st, it.f[0], it.f[1].l, it.f[2].l)
    if isinstance(it, VAdt) and it.k == "models::Cloned" and isinstance(it.f[0], VAdt) and it.f[0].k == "models::Iter":
        j = it.f[0]
        return eng.seq_slice(st, rd(eng, st, j.f[0]), j.f[1].l, j.f[2].l)
    return None
@prim("Extend::extend", "Vec::extend", "VecDeque::extend")
def _(eng, st, C):
    t = C.targs[0]
    if C.trait is None: return NotImplemented
    src = C.targs[-1]
    if src[0] == "ref" or is_adt(src, *VECS) or is_adt(src, "models::IntoIter", "models::Cloned"):
        it = into_iter(eng, st, A(C, 1), src, C)
        if isinstance(it, VAdt) and elem_ty(t):
            q = whole(eng, st, it)
            if q is None and it.k == "models::Iter": q = eng.seq_slice(st, rd(eng, st, it.f[0]), it.f[1].l, it.f[2].l)
            if q is not None:
                v = seq(eng, st, A(C, 0)); r = seqref(eng, st, A(C, 0)); wr(eng, st, r, mkseq(v.segs + q.segs, v.ety)); return UNIT
    if is_adt(t, "alloc::vec::Vec", "alloc::string::String"):
        it = into_iter_ty(eng, src)
        item = norm_ty(eng, ("proj", ITER + "::Item", (it,)))
        return model(eng, st, "extend_vec_ref" if item[0] == "ref" and elem_ty(t)[0] != "ref" else "extend_vec", (elem_ty(t), src), C.args)
    if elem_ty(t): return model(eng, st, "extend_deque", (elem_ty(t), src), C.args)
    if is_adt(t, *SETS): return model(eng, st, "extend_set" if "BTree" in t[1] else "extend_hset", (nolt(t[2])[0], src), C.args)
    if is_adt(t, *MAPS):
        a = nolt(t[2]); return model(eng, st, "extend_hmap", (a[0], a[1], src), C.args)
    return NotImplemented
@prim("Iterator::skip", "Iterator::take")
def _(eng, st, C):
    if is_adt(C.targs[0], "models::Iter") and C.name == "Iterator::skip":
        pass
    return NotImplemented
@prim("Iterator::by_ref")
def _(eng, st, C): return A(C, 0)
@prim("ExactSizeIterator::len")
def _(eng, st, C):
    it = rdall(eng, st, A(C, 0))
    if isinstance(it, VAdt) and it.k in ("models::Iter", "models::IterMut", "models::IntoIter"):
        o = 1 if it.k != "models::IntoIter" else 1
        return vint(it.f[2].l - it.f[1].l)
    return NotImplemented
@prim("Iterator::min", "Iterator::max")
def _(eng, st, C):
    # element type: references compare by content; handled by the model
    return NotImplemented

# boxes, cells, references
@prim("Box::new", "Box::from", "Box::pin")
def _(eng, st, C): return VBox(A(C, 0))
@prim("Box::new_uninit")
def _(eng, st, C): return VBox(UNDEF)
@prim("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def _(eng, st, C):
    v = A(C, 0)
    v = v.v if isinstance(v, VBox) else v
    if isinstance(v, VAdt) and v.k != "tuple": v = v.f[-1]
    if not isinstance(v, VSeq): raise_taint("vec! of %r" % (v,))
    t = C.targs[0]
    return VSeq(norm_segs(v.segs, t), t)
@prim("Rc::new", "Arc::new")
def _(eng, st, C):
    c = ('heap', eng.fresh("rc")); st.cells[c] = A(C, 0); return VRef(c)
@prim("RefCell::new", "Cell::new")
def _(eng, st, C): return VAdt("cell", 0, (A(C, 0),))
@prim("RefCell::borrow_mut", "RefCell::borrow", "RefCell::get_mut")
def _(eng, st, C): return sub(A(C, 0), ('f', 0, 0))
@prim("Cell::get")
def _(eng, st, C): return rd(eng, st, sub(A(C, 0), ('f', 0, 0)))
@prim("Cell::set")
def _(eng, st, C): wr(eng, st, sub(A(C, 0), ('f', 0, 0)), A(C, 1)); return UNIT
@prim("RefCell::into_inner", "Cell::into_inner")
def _(eng, st, C): return A(C, 0).f[0]
@prim("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str",
      "VecDeque::make_contiguous", "Rc::as_ref", "Rc::deref", "slice::as_ref")
def _(eng, st, C):
    t = C.targs[0]
    if C.trait is None: return A(C, 0)
    if t[0] == "ref": return rd(eng, st, A(C, 0))
    if t[0] == "adt":
        if t[1] == BOX: return VRef(A(C, 0).cell, A(C, 0).path + ('bx',), getattr(rd(eng, st, A(C, 0)), "dty", None))
        if elem_ty(t): return A(C, 0)
        if t[1] in RC or t[1] in GUARD: return rd(eng, st, A(C, 0))
        if t[1].startswith("concordance::"): return NotImplemented
    if elem_ty(t): return A(C, 0)
    return A(C, 0)
@prim("Rc::clone", "Arc::clone")
def _(eng, st, C): return rd(eng, st, A(C, 0))
@prim("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Vec::clone", "slice::to_owned", "ToString::to_string", "String::from", "str::to_string", "str::to_owned", "Clone::clone_from")
def _(eng, st, C):
    if C.name == "Clone::clone_from": wr(eng, st, A(C, 0), rd(eng, st, A(C, 1))); return UNIT
    t = C.targs[0] if C.targs else None
    if C.trait == "core::clone::Clone":
        im = eng.P.find_impl("core::clone::Clone", (t,))
        if im and not im[0].get("derived") and not im[0]["items"][0][1].startswith("models::") and "concordance" in str(im[0]["items"]): return NotImplemented
    return rd(eng, st, A(C, 0))
@prim("From::from", "Into::into")
def _(eng, st, C):
    a, b = (C.targs[0], C.targs[1]) if len(C.targs) > 1 else (None, None)
    if C.trait is None: return NotImplemented
    tgt, src = (a, b) if C.name == "From::from" else (b, a)
    if tgt == src: return A(C, 0)
    if tgt and tgt[0] in ("int", "char") and src[0] in ("int", "char"): return VInt(A(C, 0).l, tgt)
    if is_adt(tgt, BOX) and nolt(tgt[2])[0] == src: return VBox(A(C, 0))
    if is_adt(tgt, OPTION) and nolt(tgt[2])[0] == src: return some(A(C, 0))
    if elem_ty(tgt) and elem_ty(src): return A(C, 0)
    if elem_ty(tgt) and src[0] == "ref" and elem_ty(src[1]): return rd(eng, st, A(C, 0))
    if C.name == "Into::into":
        im = eng.P.find_impl("core::convert::From", (tgt, src))
        if im: return run_key(eng, st, im[0]["itemmap"]["from"], im[1], C.args)
    return NotImplemented
@prim("ptr::eq", "Rc::ptr_eq")
def _(eng, st, C):
    a, b = A(C, 0), A(C, 1)
    if a == b: return TRUE
    raise_taint("pointer comparison")

# comparison
def crate_impl(eng, trait, targs):
    im = eng.P.find_impl(trait, tuple(targs))
    return im is not None and any(isinstance(k, str) and k.startswith("concordance::") for k in im[0]["itemmap"].values())
def peel_ty(t):
    while t[0] == "ref" or (t[0] == "adt" and (t[1] == BOX or t[1] in RC)): t = nolt(t[2])[0] if t[0] == "adt" else t[1]
    return t
def peel_refs(eng, st, v, t):
    """v: reference to a value of type t; peel references inside"""
    while t[0] == "ref" or (t[0] == "adt" and (t[1] == BOX or t[1] in RC)):
        if t[0] == "ref" or t[1] in RC: v = rd(eng, st, v)
        else: v = sub(v, 'bx')
        t = nolt(t[2])[0] if t[0] == "adt" else t[1]
    return v, t
def cmp_setup(eng, st, C, trait):
    t = C.targs[0]; u = C.targs[1] if len(C.targs) > 1 else t
    a, t = peel_refs(eng, st, A(C, 0), t); b, u = peel_refs(eng, st, A(C, 1), u)
    return a, b, t, u
def contains_crate(eng, t):
    """a type whose comparison goes through code of the crate"""
    if t[0] == "adt": return t[1].startswith("concordance::") or any(contains_crate(eng, x) for x in nolt(t[2]))
    if t[0] in ("tuple",): return any(contains_crate(eng, x) for x in t[1])
    if t[0] in ("ref", "slice", "array"): return contains_crate(eng, t[1])
    return False
@prim("PartialEq::eq", "PartialEq::ne")
def _(eng, st, C):
    a, b, t, u = cmp_setup(eng, st, C, None)
    n = C.method == "ne"
    if t[0] == "adt" and t[1].startswith("concordance::"):
        im = eng.P.find_impl("core::cmp::PartialEq", (t, u))
        if im and not im[0].get("derived"):
            if C.method in im[0]["itemmap"]: return run_key(eng, st, im[0]["itemmap"][C.method], im[1], [a, b])
            rs = run_key(eng, st, im[0]["itemmap"]["eq"], im[1], [a, b])
            for r in rs:
                if r.kind == 'ret': r.val = VBool(neg(r.val.c))
            return rs
    return VBool(neg(eq_deep(eng, st, rd(eng, st, a), rd(eng, st, b))) if n else eq_deep(eng, st, rd(eng, st, a), rd(eng, st, b)))
def eq_deep(eng, st, a, b): return vals_eq(eng, st, a, b)
def run_single(eng, st, key, substs, args):
    """run a body that must not split the state: used inside comparisons"""
    rs = eng.run_body(key, tuple(substs), args, st)
    return rs
@prim("Ord::cmp", "PartialOrd::partial_cmp", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "Ord::max", "Ord::min", "cmp::max", "cmp::min")
def _(eng, st, C):
    m = C.method or C.name.split("::")[-1]
    if m in ("max", "min"):
        t = C.targs[0]
        a, b = A(C, 0), A(C, 1)
        if t[0] in ("int", "char", "param", "proj"):
            if m == "max": return a if eng.decide(st, lt(b.l, a.l)) else b
            return b if eng.decide(st, lt(b.l, a.l)) else a
        x = rdall(eng, st, a); y = rdall(eng, st, b)
        if isinstance(x, VInt):
            if m == "max": return a if eng.decide(st, lt(y.l, x.l)) else b
            return b if eng.decide(st, lt(y.l, x.l)) else a
        return NotImplemented
    trait = "core::cmp::Ord" if m == "cmp" else "core::cmp::PartialOrd"
    a, b, t, u = cmp_setup(eng, st, C, trait)
    if t[0] == "adt" and t[1].startswith("concordance::"):
        im = eng.P.find_impl(trait, (t,) if m == "cmp" else (t, u))
        if im is None: return NotImplemented
        if m in im[0]["itemmap"]: return run_key(eng, st, im[0]["itemmap"][m], im[1], [a, b])
        if m in ("lt", "le", "gt", "ge"):
            rs = run_key(eng, st, im[0]["itemmap"]["partial_cmp"], im[1], [a, b])
            res = []
            for r in rs:
                if r.kind == 'ret':
                    def f(c, r=r):
                        o = eng.as_adt(c, r.val)
                        if o.v == 0: return FALSE
                        x = eng.variant(c, o.f[0])
                        return VBool(x in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[m])
                    for c, v in eng.step(r.st, f, res, C.span): res.append(eng.out(c, v))
                else: res.append(r)
            return res
        return NotImplemented
    x, y = rd(eng, st, a), rd(eng, st, b)
    if isinstance(x, VInt) and isinstance(y, VInt) and m in ("lt", "le", "gt", "ge"):
        return VBool({"lt": lt, "le": le, "gt": gt, "ge": ge}[m](x.l, y.l))
    if contains_crate(eng, t):
        if t[0] == "tuple":
            return cmp_fields(eng, st, C, m, [(sub(a, ('f', 0, i)), sub(b, ('f', 0, i)), ft) for i, ft in enumerate(t[1])])
        if is_adt(t, OPTION):
            i, j = eng.variant(st, x), eng.variant(st, y)
            if i == j == 1: return cmp_fields(eng, st, C, m, [(sub(a, ('f', 1, 0)), sub(b, ('f', 1, 0)), nolt(t[2])[0])])
            return of_ord(m, 1 if i == j else 0 if i < j else 2)
        raise_taint("order of %s" % (t,))
    return of_ord(m, vals_cmp(eng, st, x, y))
def of_ord(m, r):
    if m == "cmp": return ordering(r)
    if m == "partial_cmp": return some(ordering(r))
    return VBool(r in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[m])
def cmp_fields(eng, st, C, m, fs):
    sts = [st]; res = []
    from .interp import Call
    for a, b, t in fs:
        nx = []
        for s0 in sts:
            D = Call(); D.f = {}; D.name = "Ord::cmp"; D.key = "core::cmp::Ord::cmp"; D.targs = (t,); D.args = [a, b]; D.fr = C.fr; D.span = C.span; D.trait = "core::cmp::Ord"; D.method = "cmp"; D.used = True
            for c, lst in eng.step(s0, lambda c: eng.call(c, D), res, C.span):
                for o in lst:
                    if o.kind != 'ret': res.append(o); continue
                    for c2, x in eng.step(o.st, lambda c3: eng.variant(c3, o.val), res, C.span):
                        if x == 1: nx.append(c2)
                        else: res.append(eng.out(c2, of_ord(m, x)))
        sts = nx
    return res + [eng.out(s0, of_ord(m, 1)) for s0 in sts]

# arithmetic
@prim("BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr")
def _(eng, st, C):
    x, y = rdall(eng, st, A(C, 0)), rdall(eng, st, A(C, 1))
    if not isinstance(x, VInt) or not isinstance(y, VInt): return NotImplemented
    return eng.binop(C.fr, st, C.name.split("::")[0], x, y)
@prim("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def _(eng, st, C):
    x, y = rdall(eng, st, A(C, 0)), rdall(eng, st, A(C, 1))
    if not isinstance(x, VInt) or not isinstance(y, VInt): return NotImplemented
    return eng.binop(C.fr, st, C.name.split("::")[0], x, y)
@prim("AddAssign::add_assign", "SubAssign::sub_assign")
def _(eng, st, C):
    x, y = rdall(eng, st, A(C, 0)), rdall(eng, st, A(C, 1))
    wr(eng, st, A(C, 0), eng.binop(C.fr, st, "Add" if "Add" in C.name else "Sub", x, y)); return UNIT
@prim("*::max_value", "*::MAX")
def _(eng, st, C):
    n = C.name.split("::")[0]
    return VInt(L(MAXV[n]), ("int", n))
@prim("*::min_value")
def _(eng, st, C):
    n = C.name.split("::")[0]
    return VInt(L(MINV[n]), ("int", n))
@prim("*::wrapping_add", "*::wrapping_sub", "*::saturating_sub", "*::saturating_add", "*::checked_sub", "*::checked_add", "*::abs_diff", "*::max", "*::min")
def _(eng, st, C):
    x, y = A(C, 0), A(C, 1); o = C.name.split("::")[-1]
    ty = x.ty; uns = ty[0] == "int" and ty[1] in UNSIGNED
    hi = MAXV.get(ty[1]) if ty[0] == "int" else None; lo = MINV.get(ty[1]) if ty[0] == "int" else None
    if o == "abs_diff": return VInt(x.l - y.l if eng.decide(st, ge(x.l, y.l)) else y.l - x.l, ty)
    if o == "max": return x if eng.decide(st, lt(y.l, x.l)) else y
    if o == "min": return y if eng.decide(st, lt(y.l, x.l)) else x
    add = o.endswith("add")
    r = x.l + y.l if add else x.l - y.l
    wide = ty[1] in ("usize", "u64", "i64", "isize", "u128", "i128") and (add or not uns)
    if wide and eng.nooverflow: inr = True
    else:
        inr = eng.decide(st, le(r, L(hi)) if add and uns else ge(r, L(lo)) if uns else conj([le(r, L(hi)), ge(r, L(lo))]))
    k = o.split("_")[0]
    if k == "checked": return some(VInt(r, ty)) if inr else NONE
    if inr: return VInt(r, ty)
    if k == "saturating":
        if uns: return VInt(L(hi if add else 0), ty)
        return VInt(L(hi if eng.decide(st, gt(r, L(hi))) else lo), ty)
    m = hi - lo + 1
    if uns: return VInt(r - m if add else r + m, ty)
    return VInt(r - m if eng.decide(st, gt(r, L(hi))) else r + m, ty)
@prim("mem::size_of")
def _(eng, st, C): return vint(atom('sizeof', repr(C.targs[0]), nonneg=True))
@prim("char::from_u32", "convert::from_u32")
def _(eng, st, C):
    x = A(C, 0).l
    if eng.decide(st, lt(x, L(0xD800))): ok = eng.decide(st, ge(x, ZERO))
    elif eng.decide(st, lt(x, L(0xE000))): ok = False
    else: ok = eng.decide(st, le(x, L(0x10FFFF)))
    return some(VInt(x, ("char",))) if ok else NONE
@prim("convert::from_u32_unchecked", "char::from_u32_unchecked")
def _(eng, st, C): return VInt(A(C, 0).l, ("char",))

# sequences
@prim("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity", "String::new", "String::with_capacity", "models::vp_fresh_vec")
def _(eng, st, C):
    a = nolt(C.targs); return VSeq((), a[0] if a else ("char",))
@prim("Vec::len", "VecDeque::len", "slice::len", "str::len", "String::len")
def _(eng, st, C):
    if C.name in ("str::len", "String::len"): return vint(eng.seq_len(utf8(eng, st, seq(eng, st, A(C, 0)))))
    return vint(eng.seq_len(seq(eng, st, A(C, 0))))
@prim("Vec::is_empty", "VecDeque::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "ExactSizeIterator::is_empty")
def _(eng, st, C): return VBool(eq(eng.seq_len(seq(eng, st, A(C, 0))), ZERO))
@prim("Vec::push", "VecDeque::push_back", "String::push")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); wr(eng, st, r, mkseq(v.segs + (('one', A(C, 1)),), v.ety)); return UNIT
@prim("VecDeque::push_front")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); wr(eng, st, r, mkseq((('one', A(C, 1)),) + v.segs, v.ety)); return UNIT
@prim("Vec::pop", "VecDeque::pop_back", "String::pop")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = eng.seq_len(v)
    if not eng.decide(st, gt(n, ZERO)): return NONE
    x = eng.seq_get(st, v, n - 1); a, _ = eng.seq_split(st, v, n - 1)
    wr(eng, st, r, mkseq(a, v.ety)); return some(x)
@prim("VecDeque::pop_front")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = eng.seq_len(v)
    if not eng.decide(st, gt(n, ZERO)): return NONE
    x = eng.seq_get(st, v, ZERO); _, b = eng.seq_split(st, v, ONE)
    wr(eng, st, r, mkseq(b, v.ety)); return some(x)
@prim("Vec::insert", "VecDeque::insert")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); i = A(C, 1).l
    if not eng.decide(st, le(i, eng.seq_len(v))): panic("insertion index out of bounds")
    a, b = eng.seq_split(st, v, i); wr(eng, st, r, mkseq(a + (('one', A(C, 2)),) + b, v.ety)); return UNIT
@prim("Vec::remove", "VecDeque::remove")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); i = A(C, 1).l
    dq = C.name.startswith("VecDeque")
    if not eng.decide(st, lt(i, eng.seq_len(v))):
        if dq: return NONE
        panic("removal index out of bounds")
    x = eng.seq_get(st, v, i); a, _ = eng.seq_split(st, v, i); _, b = eng.seq_split(st, v, i + 1)
    wr(eng, st, r, mkseq(a + b, v.ety)); return some(x) if dq else x
@prim("Vec::append", "VecDeque::append")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); q = seqref(eng, st, A(C, 1)); w = seq(eng, st, q)
    wr(eng, st, r, mkseq(v.segs + w.segs, v.ety)); wr(eng, st, q, VSeq((), w.ety)); return UNIT
@prim("Vec::extend_from_slice", "String::push_str")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); w = seq(eng, st, A(C, 1)); wr(eng, st, r, mkseq(v.segs + w.segs, v.ety)); return UNIT
@prim("Vec::clear", "VecDeque::clear", "String::clear")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); wr(eng, st, r, VSeq((), v.ety)); return UNIT
@prim("Vec::truncate", "VecDeque::truncate")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = A(C, 1).l
    if eng.decide(st, ge(n, eng.seq_len(v))): return UNIT
    a, _ = eng.seq_split(st, v, n); wr(eng, st, r, mkseq(a, v.ety)); return UNIT
@prim("Vec::split_off", "VecDeque::split_off")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = A(C, 1).l
    if not eng.decide(st, le(n, eng.seq_len(v))): panic("split index out of bounds")
    a, b = eng.seq_split(st, v, n); wr(eng, st, r, mkseq(a, v.ety)); return mkseq(b, v.ety)
def rng(eng, st, v, n):
    """(lo, hi) of a range value; inclusive ranges are model ranges"""
    if isinstance(v, VAdt):
        k = v.k.split("::")[-1]
        if k == "Range": return v.f[0].l, v.f[1].l
        if k == "RangeFrom": return v.f[0].l, n
        if k == "RangeTo": return ZERO, v.f[0].l
        if k == "RangeFull": return ZERO, n
        if k == "RangeIncl": return v.f[0].l, v.f[1].l + 1
        if k == "RangeToInclusive": return ZERO, v.f[0].l + 1
    if isinstance(v, VSym) and "RangeFull" in repr(v.ty): return ZERO, n
    return None
@prim("Vec::drain", "VecDeque::drain")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = eng.seq_len(v)
    x = rng(eng, st, A(C, 1), n)
    if x is None: raise_taint("drain range")
    lo, hi = x
    if not eng.decide(st, le(lo, hi)) or not eng.decide(st, le(hi, n)): panic("drain range out of bounds")
    a, _ = eng.seq_split(st, v, lo); _, b = eng.seq_split(st, v, hi)
    q = eng.seq_slice(st, v, lo, hi)
    wr(eng, st, r, mkseq(a + b, v.ety))
    return VAdt("models::IntoIter", 0, (q, vint(0), vint(eng.seq_len(q))))
@prim("slice::reverse", "Vec::reverse", "VecDeque::reverse")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); wr(eng, st, r, mkseq(rev_segs(eng, v), v.ety)); return UNIT
def rev_segs(eng, v):
    out = []
    for g in reversed(v.segs):
        if g[0] == 'sl': out.append(('rsl',) + g[1:])
        elif g[0] == 'rsl': out.append(('sl',) + g[1:])
        elif g[0] in ('one', 'rep'): out.append(g)
        elif g[0] == 'comp':
            k = g[1]; m = {k: g[2] + g[3] - 1 - L(k)}
            cs = tuple((tuple(subst(c, m, {}) for c in conds), tuple(rev_segs(eng, VSeq([subst_seg(x, m, {}) for x in gs], v.ety)))) for conds, gs in g[4])
            out.append(('comp', k, g[2], g[3], cs))
        else: raise_taint("reverse")
    return out
@prim("slice::rotate_left", "slice::rotate_right", "VecDeque::rotate_left", "VecDeque::rotate_right")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r); n = eng.seq_len(v); k = A(C, 1).l
    if not eng.decide(st, le(k, n)): raise Panic("rotate out of range")
    m = k if C.name.endswith("left") else n - k
    wr(eng, st, r, mkseq(eng.seq_slice(st, v, m, n).segs + eng.seq_slice(st, v, ZERO, m).segs, v.ety)); return UNIT
@prim("slice::sort", "Vec::sort", "slice::sort_unstable", "VecDeque::sort")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r)
    if small(eng, st, v): return model(eng, st, "small_sort", (v.ety,), [r])
    wr(eng, st, r, mkseq(sorted_segs(eng, v, 'sort'), v.ety)); return UNIT
def small(eng, st, v):
    if not eng.small: return False
    n = eng.seq_len(v)
    return n.const() is not None and n.const() <= eng.small or any(st.con.entails(eq(n, L(j))) for j in range(eng.small + 1))
def sorted_segs(eng, v, how):
    n = eng.seq_len(v)
    if n.const() is not None and n.const() <= 1: return v.segs
    if how == 'sort' and len(v.segs) == 1 and v.segs[0][0] == 'sl' and v.segs[0][1].k[0] in ('sort', 'elems') : return v.segs
    return (('sl', atom(how, v), ZERO, n),)
@prim("slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r)
    if small(eng, st, v):
        if "by_key" in C.name: return model(eng, st, "small_sort_by_key", (v.ety,) + tuple(nolt(C.targs)[1:]), [r, A(C, 1)])
        return model(eng, st, "small_sort_by", (v.ety, C.targs[-1]), [r, A(C, 1)])
    f = rdall(eng, st, A(C, 1))
    kind = eng.classify_sort(st, f, v, C)
    wr(eng, st, r, mkseq(sorted_segs(eng, v, kind), v.ety)); return UNIT
@prim("Vec::dedup")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r)
    n = eng.seq_len(v)
    if n.const() is not None and n.const() <= 1: return UNIT
    if small(eng, st, v): return model(eng, st, "small_dedup", (v.ety,), [r])
    a = atom('dedup', v)
    wr(eng, st, r, VSeq([('sl', a, ZERO, L(atom('len', a, nonneg=True)))], v.ety)); return UNIT
@prim("Vec::dedup_by_key", "Vec::dedup_by")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); v = seq(eng, st, r)
    n = eng.seq_len(v)
    if n.const() is not None and n.const() <= 1: return UNIT
    if small(eng, st, v):
        if "by_key" in C.name: return model(eng, st, "small_dedup_by_key", (v.ety, C.targs[-1], C.targs[-2]), [r, A(C, 1)])
        return model(eng, st, "small_dedup_by", (v.ety, C.targs[-1]), [r, A(C, 1)])
    f = rdall(eng, st, A(C, 1))
    a = atom('dedupby', v, f); m = L(atom('len', a, nonneg=True)); eng.assume1(st, le(m, n))
    wr(eng, st, r, VSeq([('sl', a, ZERO, m)], v.ety)); return UNIT
@prim("Index::index", "IndexMut::index_mut")
def _(eng, st, C):
    t = C.targs[0]
    if is_adt(t, *MAPS):
        m = rdall(eng, st, A(C, 0)); v = map_lookup(eng, st, m, rdall(eng, st, A(C, 1)))
        if v is None: panic("key not in map")
        return cst(v)
    if not elem_ty(t): return NotImplemented
    if t == ("str",) or t[0] == "adt" and t[1].endswith("String"): raise_taint("string index")
    r = seqref(eng, st, A(C, 0)); n = eng.seq_len(rd(eng, st, r)); i = A(C, 1)
    if isinstance(i, VInt):
        if not (eng.decide(st, ge(i.l, ZERO)) and eng.decide(st, lt(i.l, n))): panic("index out of bounds")
        return sub(r, ('i', i.l))
    x = rng(eng, st, i, n)
    if x is None: raise_taint("index by %r" % (i,))
    lo, hi = x
    if not eng.decide(st, le(lo, hi)): panic("slice index starts after its end")
    if not eng.decide(st, le(hi, n)): panic("slice end out of bounds")
    return sub(r, ('s', lo, hi))
@prim("slice::get", "Vec::get", "slice::get_mut", "Vec::get_mut")
def _(eng, st, C):
    r = seqref(eng, st, A(C, 0)); n = eng.seq_len(rd(eng, st, r)); i = A(C, 1)
    if isinstance(i, VInt): return some(sub(r, ('i', i.l))) if eng.decide(st, conj([ge(i.l, ZERO), lt(i.l, n)])) else NONE
    x = rng(eng, st, i, n)
    if x is None: raise_taint("get by %r" % (i,))
    lo, hi = x
    return some(sub(r, ('s', lo, hi))) if eng.decide(st, le(lo, hi)) and eng.decide(st, le(hi, n)) else NONE
@prim("slice::concat")
def _(eng, st, C): raise_taint("concat")
@prim("Vec::into_boxed_slice", "slice::into_boxed_slice")
def _(eng, st, C): return VBox(A(C, 0))
@prim("Vec::reserve", "VecDeque::reserve", "Vec::shrink_to_fit", "VecDeque::shrink_to_fit", "Vec::reserve_exact", "String::reserve", "HashMap::reserve", "HashSet::reserve")
def _(eng, st, C): return UNIT
@prim("Vec::capacity", "VecDeque::capacity")
def _(eng, st, C): return vint(eng.fresh("capacity", nonneg=True))

# maps and sets
@prim("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def _(eng, st, C): a = nolt(C.targs); return map_empty(a[0], a[1])
@prim("HashSet::new", "BTreeSet::new", "HashSet::with_capacity")
def _(eng, st, C): a = nolt(C.targs); return map_empty(a[0], UNITTY)
@prim("HashMap::insert", "BTreeMap::insert")
def _(eng, st, C):
    m = rdall(eng, st, A(C, 0)); r = NONE
    if C.used:
        v = map_lookup(eng, st, m, A(C, 1)); r = NONE if v is None else some(v)
    wr(eng, st, seqref(eng, st, A(C, 0)), map_write(m, A(C, 1), A(C, 2))); return r
@prim("HashSet::insert", "BTreeSet::insert")
def _(eng, st, C):
    m = rdall(eng, st, A(C, 0)); r = TRUE
    if C.used: r = VBool(map_lookup(eng, st, m, A(C, 1)) is None)
    wr(eng, st, seqref(eng, st, A(C, 0)), map_write(m, A(C, 1), UNIT)); return r
@prim("HashMap::get", "BTreeMap::get")
def _(eng, st, C):
    v = map_lookup(eng, st, rdall(eng, st, A(C, 0)), rdall(eng, st, A(C, 1)))
    return NONE if v is None else some(cst(v))
@prim("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def _(eng, st, C): return VBool(map_lookup(eng, st, rdall(eng, st, A(C, 0)), rdall(eng, st, A(C, 1))) is not None)
@prim("HashMap::remove", "BTreeMap::remove")
def _(eng, st, C):
    m = rdall(eng, st, A(C, 0)); k = rdall(eng, st, A(C, 1)); v = map_lookup(eng, st, m, k)
    if v is not None: wr(eng, st, seqref(eng, st, A(C, 0)), map_write(m, k, UNDEF))
    return NONE if v is None else some(v)
@prim("HashMap::entry", "BTreeMap::entry")
def _(eng, st, C): return VAdt("entry", 0, (seqref(eng, st, A(C, 0)), A(C, 1)))
@prim("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::insert_entry")
def _(eng, st, C):
    r, k = A(C, 0).f; m = rdall(eng, st, r); v = map_lookup(eng, st, m, k)
    if C.used and not C.name.endswith("insert_entry"): raise_taint("a reference into a map entry")
    if v is None or C.name.endswith("insert_entry"):
        if not C.name.endswith(("or_insert", "insert_entry")): raise_taint("a computed map entry")
        wr(eng, st, r, map_write(m, k, A(C, 1)))
    return UNIT
@prim("HashMap::len", "HashMap::is_empty", "BTreeMap::len", "BTreeMap::is_empty", "HashSet::len", "HashSet::is_empty")
def _(eng, st, C):
    m = rdall(eng, st, A(C, 0)); n = ZERO if m.base is None else L(atom('maplen', m.base, nonneg=True))
    for i, g in enumerate(m.writes.segs):
        if g[0] != 'one': raise_taint("the number of keys of a map")
        k, w = g[1].f
        had = map_lookup(eng, st, VMap(m.base, m.kty, m.vty, VSeq(m.writes.segs[:i], m.writes.ety)), k) is not None
        if isinstance(w, VUndef): n = n - 1 if had else n
        elif not had: n = n + 1
    return vint(n) if C.name.endswith("len") else VBool(eq(n, ZERO))
@prim("BTreeSet::len", "BTreeSet::is_empty")
def _(eng, st, C):
    n = eng.seq_len(set_elems(eng, st, rdall(eng, st, A(C, 0))))
    return vint(n) if C.name.endswith("len") else VBool(eq(n, ZERO))

# text and formatting: opaque
@prim("Argument::new_display", "Argument::new_debug", "Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "fmt::format", "panicking::unimplemented_default_msg",
      "Formatter::write_str", "Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish",
      "Formatter::debug_tuple_field1_finish", "Formatter::debug_tuple_field2_finish", "Formatter::write_fmt", "io::_print", "stdio::_print", "stdio::_eprint", "io::_eprint")
def _(eng, st, C): return VSym(eng.fresh("text"), ("opaque",))
@prim("black_box::black_box", "hint::black_box")
def _(eng, st, C): return A(C, 0)

# ------------------------------------------------------------------ the ? operator
CFLOW = "core::ops::control_flow::ControlFlow"; RESULT = "core::result::Result"
@prim("Result::branch", "Option::branch", "Try::branch")
def _(eng, st, C):
    t = C.targs[0]
    if t[0] != "adt" or t[1] not in (RESULT, OPTION): return NotImplemented
    v = A(C, 0); x = eng.variant(st, v); v = eng.as_adt(st, v)
    if t[1] == RESULT: return VAdt(CFLOW, 0, v.f) if x == 0 else VAdt(CFLOW, 1, (VAdt(RESULT, 1, v.f),))
    return VAdt(CFLOW, 0, v.f) if x == 1 else VAdt(CFLOW, 1, (VAdt(OPTION, 0, ()),))
@prim("Result::from_residual", "Option::from_residual", "FromResidual::from_residual")
def _(eng, st, C):
    t = C.targs[0]
    if t[0] != "adt" or t[1] not in (RESULT, OPTION) or C.targs[1][0] != "adt" or C.targs[1][1] != t[1]: return NotImplemented
    if t[1] == RESULT and eng.norm(t[2][1]) != eng.norm(C.targs[1][2][1]): raise_taint("conversion of an error")
    v = A(C, 0); x = eng.variant(st, v); v = eng.as_adt(st, v)
    return VAdt(RESULT, 1, v.f) if t[1] == RESULT else VAdt(OPTION, 0, ())
@prim("Try::from_output", "Result::from_output", "Option::from_output")
def _(eng, st, C):
    t = C.targs[0]
    if t[0] != "adt" or t[1] not in (RESULT, OPTION): return NotImplemented
    return VAdt(t[1], 0 if t[1] == RESULT else 1, (A(C, 0),))
