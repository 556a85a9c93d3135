"""The program under analysis: MIR bodies, types, impl tables (crate + model crate)."""
import json, re
from functools import lru_cache

ITER = "core::iter::traits::iterator::Iterator"
# std types that are read as the corresponding type of the model crate
ALIAS = {
    "core::slice::iter::Iter": "models::Iter", "core::slice::iter::IterMut": "models::IterMut",
    "alloc::vec::into_iter::IntoIter": "models::IntoIter", "alloc::vec::drain::Drain": "models::IntoIter",
    "alloc::collections::vec_deque::drain::Drain": "models::IntoIter",
    "alloc::collections::vec_deque::into_iter::IntoIter": "models::IntoIter",
    "alloc::collections::vec_deque::iter::Iter": "models::Iter",
    "alloc::collections::vec_deque::iter_mut::IterMut": "models::IterMut",
    "core::array::iter::IntoIter": "models::IntoIter",
    "alloc::collections::btree::set::Iter": "models::Iter", "alloc::collections::btree::set::IntoIter": "models::IntoIter",
    "std::collections::hash::set::IntoIter": "models::IntoIter", "std::collections::hash::set::Iter": "models::Iter",
    "core::str::iter::Chars": "models::IntoIter", "core::str::iter::Bytes": "models::IntoIter",
    "core::iter::adapters::map::Map": "models::Map", "core::iter::adapters::filter::Filter": "models::Filter",
    "core::iter::adapters::filter_map::FilterMap": "models::FilterMap",
    "core::iter::adapters::flatten::FlatMap": "models::FlatMap", "core::iter::adapters::flatten::Flatten": "models::Flatten",
    "core::iter::adapters::chain::Chain": "models::Chain", "core::iter::adapters::cloned::Cloned": "models::Cloned",
    "core::iter::adapters::copied::Copied": "models::Cloned", "core::iter::adapters::enumerate::Enumerate": "models::Enumerate",
    "core::iter::adapters::zip::Zip": "models::Zip", "core::iter::adapters::rev::Rev": "models::Rev",
    "core::iter::adapters::take::Take": "models::Take", "core::iter::adapters::skip::Skip": "models::Skip",
    "core::iter::adapters::take_while::TakeWhile": "models::TakeWhile", "core::iter::adapters::peekable::Peekable": "models::Peekable",
    "core::iter::adapters::inspect::Inspect": "models::Inspect", "core::iter::adapters::map_while::MapWhile": "models::MapWhile",
    "core::iter::sources::once::Once": "models::OptIter", "core::iter::sources::empty::Empty": "models::OptIter",
    "core::iter::sources::repeat::Repeat": "models::RepeatN", "core::iter::sources::from_fn::FromFn": "models::FromFn",
    "core::option::IntoIter": "models::OptIter", "core::option::Iter": "models::OptIter",
    "core::ops::range::RangeInclusive": "models::RangeIncl",
}
SETS = {"alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet"}
MAPS = {"std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"}
SEQS = {"alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::string::String"}
BOX = "alloc::boxed::Box"
RC = {"alloc::rc::Rc", "alloc::rcs::rc::Rc", "alloc::sync::Arc"}
CELL = {"core::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell"}
GUARD = {"core::cell::RefMut", "core::cell::Ref"}
OPTION = "core::option::Option"
ORDERING = "core::cmp::Ordering"
RANGE = "core::ops::range::Range"
HIDDEN = {"alloc::alloc::Global", "std::hash::random::RandomState", "std::hash::RandomState"}
UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "u128"}
MAXV = {"u8": 2**8-1, "u16": 2**16-1, "u32": 2**32-1, "u64": 2**64-1, "usize": 2**64-1, "u128": 2**128-1,
        "i8": 2**7-1, "i16": 2**15-1, "i32": 2**31-1, "i64": 2**63-1, "isize": 2**63-1, "i128": 2**127-1}
MINV = {k: (0 if k[0] == 'u' else -v-1) for k, v in MAXV.items()}

def T(t):
    """JSON type -> hashable type with std iterator types read as model types"""
    if not isinstance(t, list): return t
    h = t[0]
    if h == "adt":
        args = tuple(T(a) for a in t[2])
        return ad(t[1], args)
    if h in ("closure", "fndef", "dyn", "proj"): return (h, t[1], tuple(T(a) for a in t[2]))
    if h == "tuple": return (h, tuple(T(a) for a in t[1]))
    if h in ("ref", "rawptr"): return (h, T(t[1]), t[2])
    if h == "slice": return (h, T(t[1]))
    if h == "array": return (h, T(t[1]), t[2])
    return tuple(t)
def ad(key, args):
    args = tuple(a for a in args if not (isinstance(a, tuple) and a and a[0] == "adt" and a[1] in HIDDEN))
    if key in ALIAS:
        if key == "core::str::iter::Chars": return ("adt", "models::IntoIter", (("char",),))
        if key == "core::str::iter::Bytes": return ("adt", "models::IntoIter", (("int", "u8"),))
        if key in ("alloc::vec::drain::Drain", "alloc::collections::vec_deque::drain::Drain", "core::option::Iter"):
            args = tuple(a for a in args if a != ("lt",))
            if key == "core::option::Iter": args = (("ref", args[0], False),)
        if key == "core::array::iter::IntoIter": args = args[:1]
        key = ALIAS[key]
    return ("adt", key, args)

UNITTY = ("tuple", ())
USIZE = ("int", "usize")
def opt(t): return ("adt", OPTION, (t,))
def ref(t, m=False): return ("ref", t, m)

class Body:
    def __init__(s, j):
        s.key = j["key"]; s.path = j["path"]; s.span = j["span"]; s.argc = j["argc"]; s.spread = j["spread"]
        s.generics = j["generics"]; s.impl = j.get("impl"); s.trait = j.get("trait"); s.name = j.get("name", "")
        s.vis = j.get("vis", ""); s.kind = j["kind"]
        s.locals = [T(l[0]) for l in j["locals"]]; s.names = [l[1] for l in j["locals"]]
        s.blocks = [(b[0], b[1]) for b in j["blocks"]]; s.cleanup = [b[2] for b in j["blocks"]]
        s._wto = None
    def succs(s, b):
        t = s.blocks[b][1]; k = t[0]
        if k == "goto": r = [t[1]]
        elif k == "switch": r = [x[1] for x in t[3]] + [t[4]]
        elif k == "drop": r = [t[3]]
        elif k == "call": r = [t[4]] if t[4] is not None else []
        elif k == "assert": r = [t[4]]
        else: r = []
        return [x for x in dict.fromkeys(r) if not s.cleanup[x]]
    def wto(s):
        if s._wto is None:
            seen = {}; order = []
            def dfs(b):
                st = [(b, iter(s.succs(b)))]; seen[b] = 1
                while st:
                    n, it = st[-1]
                    for m in it:
                        if m not in seen: seen[m] = 1; st.append((m, iter(s.succs(m)))); break
                    else: order.append(n); st.pop()
            dfs(0)
            rpo = {b: i for i, b in enumerate(reversed(order))}
            s.rpo = rpo
            s._wto = s._comps(set(rpo), rpo)
        return s._wto
    def _comps(s, nodes, rpo, head=None):
        # Tarjan SCCs of the graph restricted to nodes, edges into head cut
        idx = {}; low = {}; st = []; on = set(); out = []
        def succ(n): return [m for m in s.succs(n) if m in nodes and m != head]
        def strong(v):
            work = [(v, iter(succ(v)))]; idx[v] = low[v] = len(idx); st.append(v); on.add(v)
            while work:
                n, it = work[-1]
                for m in it:
                    if m not in idx:
                        idx[m] = low[m] = len(idx); st.append(m); on.add(m); work.append((m, iter(succ(m)))); break
                    elif m in on: low[n] = min(low[n], idx[m])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        c = []
                        while True:
                            m = st.pop(); on.discard(m); c.append(m)
                            if m == n: break
                        out.append(c)
        for n in sorted(nodes, key=lambda x: rpo[x]):
            if n not in idx: strong(n)
        out.reverse()
        res = []
        for c in out:
            if len(c) == 1 and c[0] not in [m for m in s.succs(c[0]) if m != head]: res.append(c[0])
            else:
                h = min(c, key=lambda x: rpo[x])
                res.append(("loop", h, frozenset(c), s._comps(set(c) - {h}, rpo, h) if len(c) > 1 else []))
        return res

def subst_ty(t, args):
    if not isinstance(t, tuple) or not t: return t
    h = t[0]
    if h == "param":
        if t[1] < len(args): return args[t[1]]
        return t
    if h == "adt":
        if not t[2]: return t
        return ad(t[1], tuple(subst_ty(a, args) for a in t[2]))
    if h in ("closure", "fndef", "dyn", "proj"): return (h, t[1], tuple(subst_ty(a, args) for a in t[2]))
    if h == "tuple": return (h, tuple(subst_ty(a, args) for a in t[1]))
    if h in ("ref", "rawptr"): return (h, subst_ty(t[1], args), t[2])
    if h == "slice": return (h, subst_ty(t[1], args))
    if h == "array": return (h, subst_ty(t[1], args), t[2])
    return t

def unify(p, t, b):
    """match impl type pattern p (params allowed) against concrete type t"""
    if p == ("lt",) or t == ("lt",): return True
    if p[0] == "param":
        if p[1] in b: return b[p[1]] == t
        b[p[1]] = t; return True
    if p[0] != t[0]: return False
    h = p[0]
    if h in ("adt", "closure", "fndef", "dyn"):
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(x, y, b) for x, y in zip(p[2], t[2]))
    if h == "proj": return p == t
    if h == "tuple": return len(p[1]) == len(t[1]) and all(unify(x, y, b) for x, y in zip(p[1], t[1]))
    if h in ("ref", "rawptr"): return p[2] == t[2] and unify(p[1], t[1], b)
    if h == "slice": return unify(p[1], t[1], b)
    if h == "array": return unify(p[1], t[1], b)
    return p == t
def specificity(p):
    if not isinstance(p, tuple): return 0
    if p and p[0] == "param": return 0
    if p == ("lt",): return 0
    return 1 + sum(specificity(x) for x in p[1:] if isinstance(x, tuple)) + sum(sum(specificity(y) for y in x) for x in p[1:] if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)))

class Program:
    def __init__(s, *files):
        s.bodies = {}; s.impls = []; s.traits = {}; s.adts = {}; s.statics = []; s.raw = []
        s.crate_bodies = []
        for i, f in enumerate(files):
            d = json.load(open(f)) if isinstance(f, str) else f; s.raw.append(d)
            for b in d["bodies"]:
                bd = Body(b); s.bodies[b["key"]] = bd; bd.crate = d["crate"]
                if i == 0: s.crate_bodies.append(b["key"])
            for b in d["extern"]:
                if b["key"] not in s.bodies: s.bodies[b["key"]] = Body(b); s.bodies[b["key"]].crate = "std"
            for im in d["impls"]:
                im = dict(im); im["self"] = T(im["self"]); im["targs"] = tuple(T(x) for x in im.get("targs", []))
                im["itemmap"] = {}
                for n, k in im["items"]: im["itemmap"][n] = T(k) if isinstance(k, list) else k
                s.impls.append(im)
            for t in d["traits"]: s.traits[t["key"]] = t
            for a in d["adts"]:
                if a["key"] in s.adts and s.adts[a["key"]].get("full"): continue
                a = dict(a)
                a["variants"] = [(v[0], v[1], [(f[0], T(f[1]), f[2]) for f in v[2]]) for v in a["variants"]]
                a["full"] = any(v[2] for v in a["variants"])
                s.adts[a["key"]] = a
            if i == 0: s.statics = d["statics"]
        s.by_trait = {}
        for im in s.impls:
            if im.get("trait"): s.by_trait.setdefault(im["trait"], []).append(im)
        s._impl_cache = {}
    def find_impl(s, trait, targs):
        """-> (impl, substs) of the most specific impl matching the trait reference (targs[0] is Self)"""
        key = (trait, targs)
        if key in s._impl_cache: return s._impl_cache[key]
        best = None
        for im in s.by_trait.get(trait, []):
            b = {}
            if len(im["targs"]) != len(targs): continue
            if all(unify(p, t, b) for p, t in zip(im["targs"], targs)):
                sp = sum(specificity(p) for p in im["targs"])
                if best is None or sp > best[0]: best = (sp, im, b)
        if best: 
            im, b = best[1], best[2]
            n = im["ngen"]
            r = (im, tuple(b.get(i, ("lt",)) for i in range(n)))
        else: r = None
        s._impl_cache[key] = r
        return r
    def variants(s, ty):
        a = s.adts.get(ty[1])
        return a["variants"] if a else None
    def is_enum(s, key):
        a = s.adts.get(key)
        return bool(a) and a["kind"] == "enum"
    def variant_index(s, key, name):
        for i, v in enumerate(s.adts[key]["variants"]):
            if v[0] == name: return i
        raise KeyError(name)
    def field_index(s, key, name, variant=0):
        for i, f in enumerate(s.adts[key]["variants"][variant][2]):
            if f[0] == name: return i
        raise KeyError(key + "." + name)
    def find(s, impl_self=None, trait=None, method=None, path=None):
        """bodies by structural criteria"""
        r = []
        for k in s.crate_bodies:
            b = s.bodies[k]
            if path is not None and b.path == path: r.append(k)
        return r

def short(path):
    """'std::vec::Vec::<T, A>::push' -> 'Vec::push'; '<std::vec::Vec<T> as std::iter::Extend<T>>::extend' -> 'Extend::extend'"""
    p = path
    m = re.match(r"^<.* as (.*)>::(\w+)$", p)
    if m: p = strip_gen(m.group(1)) + "::" + m.group(2)
    p = strip_gen(p)
    parts = p.split("::")
    return "::".join(parts[-2:])
@lru_cache(None)
def strip_gen(p):
    m = re.search(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>", p)
    if m:
        inner = m.group(1).strip()
        if inner.startswith("["): inner = "slice"
        elif " for " in inner: inner = inner.split(" for ")[-1]
        p = p[:m.start()] + inner + p[m.end():]
    out = ""; d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<": d += 1
        elif c == ">" and p[i-1] != "-": d -= 1
        elif d == 0: out += c
        i += 1
    return out.replace("::::", "::")
