"""C23: what is written by Serialize is what Deserialize reads back."""
import itertools
from engine.spec import *
LEVEL = "proof"
RULE = ("The Serialize implementation of SymbolRangeDfa and of SymbolRange is interpreted on an arbitrary value with a recording serializer, and the Deserialize implementation (its visitors, field identifiers and "
        "FIELDS list) is interpreted on the recorded document: as a sequence, and as a map in every order of its entries with the keys given as text, bytes or numbers. Every path must give back a structure whose every field "
        "equals the one saved, and the same document with any one entry left out must be refused.")
NOTE = "the values inside the tables are taken to be read back as they were written (serde's own implementations for vectors, tuples and integers; the user's for the symbols)"
SER, DE = "serde_core::ser::", "serde_core::de::"
SEQS = {"serialize_tuple": "tuple", "serialize_tuple_struct": "tuple", "serialize_seq": "tuple", "serialize_struct": "struct", "serialize_map": "map"}
TOK = "vp::"
def tok(n, *f): return VAdt(TOK + n, 0, f)
def is_tok(v, n=None): return isinstance(v, VAdt) and v.k.startswith(TOK) and (n is None or v.k == TOK + n)
def name_of(eng, st, r):
    if isinstance(r, VRef) and r.cell[0] == 'str' and not r.path: return r.cell[1]
    if isinstance(r, VRef):
        x = eng.read(st, r.cell, r.path)
        if isinstance(x, VRef): return name_of(eng, st, x)
    raise Taint("name %r" % (r,))
def str_ref(st, s):
    c = ('str', s)
    st.cells[c] = VSeq(norm_segs([('one', VInt(L(ord(x)), ("char",))) for x in s], ("char",)), ("char",))
    return VRef(c)
def ok_(v): return VAdt("core::result::Result", 0, (v,))
def err_(): return VAdt("core::result::Result", 1, (tok("Error"),))

class Serde:
    """the data format: a recording serializer, and a deserializer reading what was recorded"""
    def __init__(s, S, key_as="str", hidden=None, order=None, as_seq=False):
        s.S = S; s.key_as = key_as; s.hidden = hidden; s.order = order; s.as_seq = as_seq; s.fields = None; s.types = []
    def local(s, eng, trait, ty):
        im = eng.P.find_impl(trait, (ty,)) if ty[0] == "adt" else None
        if im is None and ty[0] == "adt":
            for n in (2, 3):
                im = eng.P.find_impl(trait, (ty,) + (("lt",),) * (n - 1))
                if im: break
        return im
    def deep(s, eng, st, v):
        n = 0
        while isinstance(v, VRef) and n < 8: v = eng.read(st, v.cell, v.path); n += 1
        if isinstance(v, VAdt) and v.k == "tuple": return VAdt("tuple", 0, [s.deep(eng, st, x) for x in v.f])
        return v
    def unref(s, eng, t):
        while t[0] == "ref": t = eng.norm(t[1])
        return t
    def save(s, eng, st, ty, v):
        """[(state, document)] of serializing a value of the type"""
        ty = s.unref(eng, ty)
        im = s.local(eng, SER + "Serialize", ty)
        if im is None or ty[1] in s.whole: return [(st, s.deep(eng, st, v))]
        key = im[0]["itemmap"]["serialize"]
        r = v
        if not isinstance(r, VRef): raise Taint("serialize %r" % (v,))
        while isinstance(eng.read(st, r.cell, r.path), VRef): r = eng.read(st, r.cell, r.path)
        res = []
        for o in eng.run_body(key, tuple(im[1]) + (("param", 0, "__S"),), [r, tok("Serializer")], st):
            if o.kind != 'ret': raise Taint("serialize panics")
            if eng.variant(o.st, o.val) != 0: continue
            res.append((o.st, eng.as_adt(o.st, o.val).f[0]))
        return res
    def load(s, eng, st, ty, doc, C):
        ty = s.unref(eng, ty)
        if ty[0] == "adt" and ty[1].endswith("IgnoredAny"): return [(st, ok_(VAdt(ty[1], 0, ())))]
        im = s.local(eng, DE + "Deserialize", ty)
        if im is None or ty[1] in s.whole:
            if is_tok(doc, "Key"): raise Taint("key read as %s" % (ty,))
            if ty[0] == "tuple" and not (isinstance(doc, VAdt) and doc.k == "tuple" and len(doc.f) == len(ty[1])): raise Taint("tuple read from %r" % (doc,))
            return [(st, ok_(doc))]
        key = im[0]["itemmap"]["deserialize"]
        return [(o.st, o.val) for o in s.rets(eng.run_body(key, tuple(im[1]) + (("param", 0, "__D"),), [tok("Deserializer", doc)], st))]
    def rets(s, outs):
        for o in outs:
            if o.kind != 'ret': raise Panic(o.msg or "panics")
        return outs
    def visit(s, eng, st, C, vty, visitor, method, arg, aty):
        im = eng.P.find_impl(DE + "Visitor", (vty, ("lt",))) or eng.P.find_impl(DE + "Visitor", (vty,))
        if im is None: raise Taint("visitor of type %s" % (vty,))
        k = im[0]["itemmap"].get(method)
        if k is None: return [Out('ret', st, err_())]
        if k not in eng.P.bodies: raise Taint("no body for %s" % k)
        return eng.run_body(k, tuple(im[1]) + aty, [visitor, arg], st)
    def __call__(s, eng, st, C):
        t, m = C.trait, C.method
        key = C.key or ""
        if key.startswith(("serde", DE[:-4], SER[:-5])) and m is None or key.endswith("::missing_field"):
            if key.endswith("::missing_field"): return [eng.out(st, err_())]
            return None
        if m in ("branch", "from_residual"): return None
        if t is None or not t.startswith(("serde_core::", "serde::")): return None
        part = t.split("::")[-1]
        if m == "clone": return None
        if part == "Serialize" and m == "serialize":
            ser = C.args[1]
            if not is_tok(ser, "Serializer"): raise Taint("serializer %r" % (ser,))
            if eng.P.find_impl(t, (s.unref(eng, C.targs[0]),)) and s.unref(eng, C.targs[0])[1] not in s.whole: return None
            return [Out('ret', a, ok_(d)) for a, d in s.save(eng, st, C.targs[0], C.args[0])]
        if part == "Serializer":
            if m in SEQS:
                nm = C.args[1] if m in ("serialize_struct", "serialize_tuple_struct") else str_ref(st, "")
                return [eng.out(st, ok_(tok("Fields", str_ref(st, SEQS[m]), nm)))]
            if m == "serialize_newtype_struct":
                return [Out('ret', a, ok_(tok("Doc", str_ref(st, "newtype"), C.args[1], str_ref(st, ""), d))) for a, d in s.save(eng, st, C.targs[-1], C.args[2])]
            if m == "is_human_readable": return [eng.out(st, VBool(eq(L(s.S_hr), ONE)))]
            raise Taint("Serializer::%s" % m)
        if part in ("SerializeStruct", "SerializeTuple", "SerializeTupleStruct", "SerializeSeq", "SerializeMap"):
            if m == "end":
                d = C.args[0]
                return [eng.out(st, ok_(tok("Doc", *d.f)))]
            r = C.args[0]
            while isinstance(eng.read(st, r.cell, r.path), VRef): r = eng.read(st, r.cell, r.path)
            if m == "skip_field": return [eng.out(st, ok_(UNIT))]
            if m in ("serialize_field", "serialize_element", "serialize_entry"):
                nm = C.args[1] if len(C.args) == 3 else str_ref(st, "")
                s.types.append(eng.norm(C.targs[-1]))
                outs = []
                for a, d in s.save(eng, st, C.targs[-1], C.args[-1]):
                    f = eng.read(a, r.cell, r.path)
                    eng.write(a, r.cell, r.path, VAdt(f.k, 0, tuple(f.f) + (nm, d)))
                    outs.append(Out('ret', a, ok_(UNIT)))
                return outs
            raise Taint("%s::%s" % (part, m))
        if part == "Deserialize" and m == "deserialize":
            d = C.args[0]
            if not is_tok(d, "Deserializer"): raise Taint("deserializer %r" % (d,))
            ty = s.unref(eng, C.targs[0])
            if ty[0] == "adt" and s.local(eng, t, ty) and ty[1] not in s.whole: return None
            return [Out('ret', a, v) for a, v in s.load(eng, st, ty, d.f[0], C)]
        if part == "Deserializer":
            d = C.args[0]
            if not is_tok(d, "Deserializer"): raise Taint("deserializer %r" % (d,))
            doc = d.f[0]; visitor = C.args[-1]; vty = eng.norm([x for x in C.targs if x != ("lt",)][-1])
            P = (("param", 0, "__A"),)
            if m in ("deserialize_identifier", "deserialize_str", "deserialize_string", "deserialize_any", "deserialize_u64") and is_tok(doc, "Key"):
                nm, idx = name_of(eng, st, doc.f[0]), doc.f[1].l
                if s.key_as == "str": return s.visit(eng, st, C, vty, visitor, "visit_str", str_ref(st, nm), P)
                if s.key_as == "u64": return s.visit(eng, st, C, vty, visitor, "visit_u64", VInt(idx, ("int", "u64")), P)
                c = ('bytes', nm)
                st.cells[c] = VSeq(tuple(('one', VInt(L(b), ("int", "u8"))) for b in nm.encode()), ("int", "u8"))
                return s.visit(eng, st, C, vty, visitor, "visit_bytes", VRef(c), P)
            if not is_tok(doc, "Doc"): raise Taint("Deserializer::%s of %r" % (m, doc))
            kind = name_of(eng, st, doc.f[0])
            if m == "deserialize_newtype_struct" and kind == "newtype":
                return s.visit(eng, st, C, vty, visitor, "visit_newtype_struct", tok("Deserializer", doc.f[3]), P)
            if m == "deserialize_struct":
                if kind != "struct": raise Taint("struct read from a %s" % kind)
                if name_of(eng, st, C.args[1]) != name_of(eng, st, doc.f[1]): s.note = "the structure is saved under the name %s and looked for under %s" % (name_of(eng, st, doc.f[1]), name_of(eng, st, C.args[1]))
                fs = eng.read(st, C.args[2].cell, C.args[2].path)
                n = eng.seq_len(fs).const()
                if n is not None: s.fields = [name_of(eng, st, eng.seq_get(st, fs, L(i))) for i in range(n)]
            elif m in ("deserialize_tuple", "deserialize_tuple_struct", "deserialize_seq"):
                if kind not in ("tuple", "struct") or kind == "struct" and not s.as_seq: raise Taint("sequence read from a %s" % kind)
            elif m == "deserialize_map":
                if kind not in ("map", "struct"): raise Taint("map read from a %s" % kind)
            elif m != "deserialize_any": raise Taint("Deserializer::%s" % m)
            if kind == "tuple" or s.as_seq and kind != "map": return s.visit(eng, st, C, vty, visitor, "visit_seq", tok("Access", doc, VInt(ZERO, ("int", "usize"))), P)
            return s.visit(eng, st, C, vty, visitor, "visit_map", tok("Access", doc, VInt(ZERO, ("int", "usize"))), P)
        if part in ("SeqAccess", "MapAccess"):
            r = C.args[0]
            while isinstance(eng.read(st, r.cell, r.path), VRef): r = eng.read(st, r.cell, r.path)
            a = eng.read(st, r.cell, r.path)
            if not is_tok(a, "Access"): raise Taint("access %r" % (a,))
            doc = a.f[0]; at = a.f[1].l.const()
            if at is None: raise Taint("place in the document")
            ents = [(i, doc.f[2 + 2 * i], doc.f[3 + 2 * i]) for i in range((len(doc.f) - 2) // 2)]
            if s.order: ents = [ents[i] for i in s.order]
            if s.hidden is not None: ents = [x for x in ents if x[0] != s.hidden]
            if m == "size_hint": return [eng.out(st, VAdt(OPTION, 1, (VInt(L(len(ents) - at), ("int", "usize")),)))]
            ty = [x for x in C.targs if x != ("lt",)]
            def move(n): eng.write(st, r.cell, r.path, VAdt(a.k, 0, (doc, VInt(L(at + n), ("int", "usize")))))
            def some_(p): return [Out('ret', x, VAdt("core::result::Result", 0, (VAdt(OPTION, 1, (eng.as_adt(x, v).f[0],)),)) if eng.variant(x, v) == 0 else err_()) for x, v in p]
            if m == "next_element" and part == "SeqAccess":
                if at >= len(ents): return [eng.out(st, ok_(VAdt(OPTION, 0, ())))]
                move(1)
                return some_(s.load(eng, st, ty[1], ents[at][2], C))
            # in a map, the place counts keys and values
            i, val = divmod(at, 2)
            if m == "next_key":
                if val: return [eng.out(st, err_())]
                if i >= len(ents): return [eng.out(st, ok_(VAdt(OPTION, 0, ())))]
                move(1)
                return some_(s.load(eng, st, ty[1], tok("Key", ents[i][1], VInt(L(ents[i][0]), ("int", "u64"))), C))
            if m == "next_value":
                if not val: raise Panic("next_value without a key")
                move(1)
                return [Out('ret', x, v) for x, v in s.load(eng, st, ty[1], ents[i][2], C)]
            if m == "next_entry":
                if val: return [eng.out(st, err_())]
                if i >= len(ents): return [eng.out(st, ok_(VAdt(OPTION, 0, ())))]
                move(2); outs = []
                for x, k in s.load(eng, st, ty[1], tok("Key", ents[i][1], VInt(L(ents[i][0]), ("int", "u64"))), C):
                    for y, v in s.load(eng, x, ty[2], ents[i][2], C):
                        if eng.variant(y, k) != 0 or eng.variant(y, v) != 0: outs.append(Out('ret', y, err_())); continue
                        outs.append(Out('ret', y, ok_(VAdt(OPTION, 1, (VAdt("tuple", 0, (eng.as_adt(y, k).f[0], eng.as_adt(y, v).f[0])),)))))
                return outs
            raise Taint("%s::%s" % (part, m))
        if part == "Error": return [eng.out(st, tok("Error"))]
        return None

def check(S):
    for T in ("symbol_range::SymbolRange", "symbol_range_dfa::SymbolRangeDfa"):
        A = S.adt(T); short = T.split("::")[-1]
        fnames = [f[0] for f in S.P.adts[A]["variants"][0][2]]
        kser, _ = S.timpl(SER + "Serialize", lambda t: t[0] == "adt" and t[1] == A, "serialize")
        kde, imd = S.timpl(DE + "Deserialize", lambda t: t[0] == "adt" and t[1] == A, "deserialize")
        for small in (False, True): one(S, T, A, short, fnames, kser, kde, small)
def one(S, T, A, short, fnames, kser, kde, small):
        if small: short += " with tables of three entries"
        def engine():
            e = S.engine()
            if small: e.small = 12; e.unroll = 40; e.fan = 4000
            return e
        e = engine(); sd = Serde(S); sd.whole = set(all_saved(S)) - {A}
        e.hooks.append(sd)
        ty = S.argty(e, kser, 0)
        cell = ('l', 0, 'saved'); st = State()
        orig = e.mk(e.sym("saved"), ty[1] if ty[0] == "ref" else ty)
        orig = e.as_adt(st, orig)
        if small:
            # tables of three entries, spelled out
            if not any(isinstance(x, VSeq) for x in orig.f): return
            def spell(x):
                if not isinstance(x, VSeq): return x
                return VSeq(tuple(('one', e.seq_get(st, x, L(i))) for i in range(3)), x.ety)
            for x in orig.f:
                if isinstance(x, VSeq): st, = st.assume(eq(e.seq_len(x), L(3)))
            orig = VAdt(orig.k, orig.v, [spell(x) for x in orig.f])
        st.cells[cell] = orig
        outs = S.run(e, kser, S.params(kser), [VRef(cell), tok("Serializer")], st)
        docs = []
        def saved(o):
            if panics(o): return "panics: %s" % o.msg
            if e.variant(o.st, o.val) != 0: return "serializing fails although the serializer does not"
            d = e.as_adt(o.st, o.val).f[0]
            if not is_tok(d, "Doc"):
                docs.append((o.st, d, ["all"], "one value")); return None
            n = (len(d.f) - 2) // 2
            names = [name_of(e, o.st, d.f[2 + 2 * i]) for i in range(n)]
            kind = name_of(e, o.st, d.f[0])
            if kind in ("struct", "map") and len(set(names)) != len(names): return "two parts are saved under one name: %s" % ", ".join(names)
            docs.append((o.st, d, names, kind))
        def told():
            # None and Some(x) read back alike in a format that writes "nothing" for both (JSON's null) when x itself may be written as nothing
            if small: return
            seen = []
            for t in sd.types:
                t = plain(t, A, S)
                if bare(t) and t not in seen:
                    seen.append(t)
                    S.violation("an output and no output are told apart in every format: %s" % tyname(t), "%s (%s)" % (S.P.bodies[kser].span.split(":")[0], A),
                                "None and Some(x) are saved alike by self-describing formats such as JSON when x is saved as nothing, as () is: the output type is a parameter, and () for every pattern that was prepared")
            if not seen: S.ok("an output and no output of %s are told apart in every format" % short, S.where(kser))
        if S.judge(e, "%s is written, each part under its own name" % short, kser, outs, saved) is not True: return
        told()
        pd = S.params(kde)
        for nd, (st0, d, names, kind) in enumerate(docs):
            pre = short if len(docs) == 1 else "%s (saved in form %d: %s)" % (short, nd + 1, ", ".join(names))
            def back(name, want_err, **kw):
                e2 = engine(); sd2 = Serde(S, **kw); sd2.whole = sd.whole; e2.hooks.append(sd2)
                e2.serial = e.serial; e2.n = e.n; e2.memty = e.memty; e2.consts = e.consts
                outs = S.run(e2, kde, pd, [tok("Deserializer", d)], st0.copy())
                def f(o):
                    if panics(o): return "panics: %s" % o.msg
                    if want_err: return None if e2.variant(o.st, o.val) != 0 else "data without %s is accepted" % (names[sd2.hidden] or "part %d" % (sd2.hidden + 1))
                    if e2.variant(o.st, o.val) != 0: return "what was saved is refused"
                    v = e2.as_adt(o.st, e2.as_adt(o.st, o.val).f[0])
                    for i, n in enumerate(fnames):
                        r = explain(e2, o.st, v.f[i], orig.f[i])
                        if r: return "%s does not come back as it was saved: %s" % (n, r)
                    if sd2.fields is not None and not kw.get("as_seq") and not set(names) <= set(sd2.fields): return "saved under %s, but the reader announces %s" % (", ".join(names), ", ".join(sd2.fields))
                    if sd2.fields is not None and kw.get("as_seq") and len(sd2.fields) != len(names): return "%d parts saved, but the reader announces %d" % (len(names), len(sd2.fields))
                S.judge(e2, name, kde, outs, f)
            n = len(names)
            if kind == "one value": back("%s read back" % pre, False); continue
            if kind != "map":
                back("%s read back by position" % pre, False, as_seq=True)
                for h in range(0 if small else n): back("%s by position, without %s" % (pre, names[h] or "part %d" % (h + 1)), True, as_seq=True, hidden=h)
            if kind in ("struct", "map"):
                forms = ("str", "bytes", "u64") if kind == "struct" and not small else ("str",)
                perms = [tuple(reversed(range(n)))] if small else list(itertools.permutations(range(n))) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n)))]
                for k in forms:
                    for p in perms if k == "str" else perms[-1:]:
                        back("%s read back by name (%s), in the order %s" % (pre, {"str": "text", "bytes": "bytes", "u64": "number"}[k], " ".join(names[i] for i in p)), False, key_as=k, order=p)
                for h in range(0 if small else n): back("%s by name, without %s" % (pre, names[h]), True, hidden=h)
def all_saved(S):
    return [im["self"][1] for im in S.P.by_trait.get(SER + "Serialize", []) if im["self"][0] == "adt" and im["self"][1] in (CRATE + "symbol_range::SymbolRange", CRATE + "symbol_range_dfa::SymbolRangeDfa")]
def plain(t, A, S):
    while t[0] == "ref": t = t[1]
    if t[0] == "adt": return (t[0], t[1], tuple(plain(x, A, S) for x in t[2]))
    if t[0] == "tuple": return (t[0], tuple(plain(x, A, S) for x in t[1]))
    if t[0] in ("slice", "array"): return ("slice", plain(t[1], A, S))
    return t[:2] if t[0] == "param" else t
def bare(t):
    if t[0] == "adt":
        if t[1] == OPTION and (t[2][0][0] == "param" or t[2][0] == ("tuple", ()) or t[2][0][0] == "adt" and t[2][0][1] == OPTION): return True
        return any(bare(x) for x in t[2])
    if t[0] == "tuple": return any(bare(x) for x in t[1])
    return t[0] == "slice" and bare(t[1])
def tyname(t):
    if t[0] == "adt":
        if t[1].endswith("::Vec"): return "list of " + ", ".join(tyname(x) for x in t[2][:1])
        return t[1].split("::")[-1] + ("<%s>" % ", ".join(tyname(x) for x in t[2] if x[0] != "lt") if t[2] else "")
    if t[0] == "slice": return "list of " + tyname(t[1])
    if t[0] == "param": return "type parameter %d" % t[1]
    return t[0] if t[0] != "int" else t[1]
