"""Abstract interpreter over MIR.

Values are symbolic expressions (value numbering), constraints live in a relational (polyhedral) store, control flow is
followed in weak topological order and every loop is replaced by an inductive summary found by lifting the change one
abstract iteration makes (loops.py).  A path on which the analysis would have to guess is abandoned and counted
("inconclusive"); nothing is ever executed.
"""
import time
from .lin import *
from . import values
from .values import *
from .mir import *

class Fork(Exception):
    def __init__(s, conds): s.conds = conds
class Taint(Exception): pass
class Stop(Exception): pass
class Panic(Exception): pass

class State:
    __slots__ = ("cells", "con", "facts", "notes")
    def __init__(s): s.cells = {}; s.con = Con(); s.facts = (); s.notes = ()
    def copy(s):
        n = State.__new__(State); n.cells = dict(s.cells); n.con = s.con; n.facts = s.facts; n.notes = s.notes
        return n
    def assume(s, *conds):
        """list of refinements of this state"""
        cur = [s.con]
        for c in conds:
            nx = []
            for y in cur: nx += y.assume(c)
            cur = nx
        r = []
        for c in cur:
            n = s.copy(); n.con = c; r.append(n)
        return r
    def subst(s, m):
        memo = {}
        n = s.copy()
        n.cells = {(subst(k, m, memo) if k[0] == 'mem' else k): v.subst(m, memo) for k, v in s.cells.items()}
        n.con = s.con.subst(m, memo)
        if n.con is None: return None
        n.facts = tuple(f.subst(m) for f in s.facts)
        return n

class QFact:
    """for every k in [lo,hi) one of the cases holds; a case is (conditions, {loop-value atom at k+1: value})"""
    __slots__ = ("k", "lo", "hi", "cases", "tag")
    def __init__(s, k, lo, hi, cases, tag=None): s.k = k; s.lo = lo; s.hi = hi; s.cases = cases; s.tag = tag
    def subst(s, m):
        memo = {}
        if s.k in m: m = dict(m); del m[s.k]
        cs = tuple((tuple(subst(c, m, memo) for c in conds), tuple((subst_key(a, m, memo), v.subst(m, memo)) for a, v in binds)) for conds, binds in s.cases)
        k = subst(s.k, m, memo)    # the bound variable names its context, which may be replaced
        return QFact(k.single() if isinstance(k, Lin) else k, subst(s.lo, m, memo), subst(s.hi, m, memo), cs, s.tag)
    def at(s, idx):
        """the cases at index idx"""
        m = {s.k: L(idx)}; memo = {}
        return [([c for c in (subst(c, m, memo) for c in conds)], [(subst_key(a, m, memo), v.subst(m, memo)) for a, v in binds]) for conds, binds in s.cases]
    def __repr__(s): return "forall %s in %s..%s: %s" % (show(s.k), show(s.lo), show(s.hi), " | ".join("{%s; %s}" % (", ".join(map(show, c)), ", ".join("%s=%r" % (show(a), v) for a, v in b)) for c, b in s.cases))
def subst_key(a, m, memo):
    r = subst(a, m, memo)
    if isinstance(r, Lin): r = r.single() or a
    return r

class Frame:
    __slots__ = ("d", "body", "targs", "tycache")
    def __init__(s, d, body, targs): s.d = d; s.body = body; s.targs = targs; s.tycache = {}

class Call:
    __slots__ = ("f", "name", "key", "targs", "args", "fr", "span", "trait", "method", "used")

class Out:
    __slots__ = ("kind", "st", "val", "span", "msg")
    def __init__(s, kind, st, val=None, span=None, msg=None): s.kind = kind; s.st = st; s.val = val; s.span = span; s.msg = msg
    def __repr__(s): return "%s %r %s %s" % (s.kind, s.val, s.msg or "", s.span or "")

INT_RANGE = {p + str(b): ((-2**(b-1), 2**(b-1)-1) if p == "i" else (0, 2**b-1)) for p in "iu" for b in (8, 16, 32, 64, 128)}
INT_RANGE["isize"] = INT_RANGE["i64"]; INT_RANGE["usize"] = INT_RANGE["u64"]
PANICS = {"begin_panic", "panic", "panic_fmt", "unwrap_failed", "expect_failed", "panic_bounds_check", "begin_panic_handler", "panic_str", "panic_display", "panic_explicit", "unreachable_display", "assert_failed", "assert_failed_inner", "slice_index_fail", "panic_nounwind"}

class Engine:
    count = 0
    def __init__(s, prog):
        s.P = prog
        s.memty = {}
        s.n = 0
        s.consts = {}
        s.ctx = []
        s.hooks = []          # f(eng, st, call) -> None | list[Out]
        s.loop_hooks = []
        s.taints = []
        s.obls = []
        s.seen_bodies = set()
        s.stats = {"blocks": 0, "calls": 0, "loops": 0, "loop_passes": 0, "paths": 0, "callsites": set()}
        s.mkcache = {}
        s.depth = 0
        s.phlen = {}
        s.budget = 400000
        s.limit = None        # seconds
        s.t0 = time.time(); s.stack = []
        s.tynorm = {}; s.iter_params = {}; s.fn_hooks = []; s.dropcache = {}; s.nooverflow = True
        s.var_hooks = []; s.forced_lv = set(); s.trace = None; s.max_phase = 3; s.exact_casts = False; Engine.count += 1; s.serial = Engine.count; s.split = True; s.unroll = 3; s.fan = 4; s.small = 0; s.fast = False; s.must_end = False
        values.set_mk(s.mk)
        from . import prims, loops
        s.prims = prims.TABLE; s.pm = prims; s.lm = loops
    # ------------------------------------------------------------- symbols
    def fresh(s, name, nonneg=False):
        s.n += 1
        return atom('v', s.n, name, tuple(L(i) for i in s.ctx), nonneg=nonneg)
    def sym(s, name, nonneg=False): return atom('sym', name, s.serial, nonneg=nonneg)   # an atom carries its type's sign: engines do not share symbols
    def norm(s, t): return s.pm.norm_ty(s, t)
    def mk(s, t, ty):
        key = (t, ty)
        r = s.mkcache.get(key)
        if r is None:
            r = s._mk(t, ty); s.mkcache[key] = r
        return r
    def _mk(s, t, ty):
        h = ty[0]
        if h == "int":
            if ty[1] in UNSIGNED: t.nonneg = True
            return VInt(L(t), ty)
        if h == "char": t.nonneg = True; return VInt(L(t), ty)
        if h == "param": return VInt(L(t), ty)
        if h == "proj":
            ty2 = s.norm(ty)
            if ty2 != ty: return s.mk(t, ty2)
            return VInt(L(t), ty)
        if h == "bool": return VBool(('b', t, True))
        if h == "tuple": return VAdt("tuple", 0, [s.mk(atom('fld', t, 0, i), x) for i, x in enumerate(ty[1])])
        if h in ("ref", "rawptr"):
            d = atom('deref', t); s.memty.setdefault(d, ty[1]); return VRef(('mem', d))
        if h in ("slice", "array", "str"):
            e = ("char",) if h == "str" else ty[1]
            if h == "array" and isinstance(ty[2], int): n = L(ty[2])
            else: n = L(atom('len', t, nonneg=True))
            return VSeq(norm_segs([('sl', t, ZERO, n)], e), e)
        if h == "adt":
            k = ty[1]; targs = [a for a in ty[2] if a != ("lt",)]
            if k in SEQS:
                e = targs[0] if targs else ("char",)
                return VSeq([('sl', t, ZERO, L(atom('len', t, nonneg=True)))], e)
            if k in MAPS: return VMap(t, targs[0], targs[1])
            if k in SETS: return VMap(t, targs[0], UNITTY)
            if k == BOX: return VBox(s.mk(atom('unbox', t), targs[0]))
            if k in RC:
                d = atom('deref', t); s.memty.setdefault(d, targs[0]); return VRef(('mem', d))
            if k in CELL: return VAdt("cell", 0, [s.mk(atom('fld', t, 0, 0), targs[0])])
            if k == "core::marker::PhantomData": return VAdt(k, 0, ())
            a = s.P.adts.get(k)
            if a and a["kind"] == "enum": return VSym(t, ty)
            if a and a["kind"] == "struct" and a["full"]:
                return VAdt(k, 0, [s.mk(atom('fld', t, 0, i), s.norm(subst_ty(f[1], ty[2]))) for i, f in enumerate(a["variants"][0][2])])
        return VSym(t, ty)
    def ty_is_enum(s, ty): return ty[0] == "adt" and s.P.is_enum(ty[1])
    def fty(s, ty, variant, i):
        a = s.P.adts[ty[1]]
        return s.norm(subst_ty(a["variants"][variant][2][i][1], ty[2]))
    def variant_fields(s, v, variant):
        n = len(s.P.adts[v.ty[1]]["variants"][variant][2])
        return [s.mk(atom('fld', v.t, variant, i), s.fty(v.ty, variant, i)) for i in range(n)]
    def expand(s, v, variant): return VAdt(v.ty[1], variant, s.variant_fields(v, variant))
    # ------------------------------------------------------------- decisions
    def decide(s, st, c):
        if c is True or c is False: return c
        if st.con.entails(c): return True
        n = neg(c)
        if st.con.entails(n): return False
        raise Fork([c, n])
    def ent(s, st, c):
        if c is True or c is False: return c
        return st.con.entails(c)
    def variant(s, st, v):
        if isinstance(v, VAdt): return v.v
        if not isinstance(v, VSym) or not s.ty_is_enum(v.ty): raise Taint("discriminant of %r" % (v,))
        x = st.con.var.get(v.t)
        if isinstance(x, int): return x
        for h in s.var_hooks:
            r = h(s, st, v.t)
            if r is not None: return r
        n = len(s.P.adts[v.ty[1]]["variants"])
        ex = x or frozenset()
        left = [i for i in range(n) if i not in ex]
        if len(left) == 1: return left[0]
        if not left: raise Stop()
        raise Fork([('var', v.t, i, True) for i in left])
    def as_adt(s, st, v):
        if isinstance(v, VAdt): return v
        return s.expand(v, s.variant(st, v))
    def truth(s, st, v):
        if isinstance(v, VBool): return s.decide(st, v.c)
        raise Taint("branch on %r" % (v,))
    # ------------------------------------------------------------- places
    def cell(s, st, c):
        if c[0] == 'cst': return c[1]
        v = st.cells.get(c)
        if v is None:
            if c[0] == 'mem':
                ty = s.memty.get(c[1])
                if ty is None: ty = s.guess_ty(c[1])
                if ty is None: raise Taint("unknown memory %s" % show(c[1]))
                return s.mk(c[1], ty)
            return UNDEF
        return v
    def guess_ty(s, t):
        # a term obtained by substituting indices inside a known one
        for a, ty in list(s.memty.items()):
            if same_shape(a, t):
                s.memty[t] = ty; return ty
        return None
    def read(s, st, c, path=()):
        v = s.cell(st, c)
        for e in path: v = s.proj(st, v, e)
        return v
    def proj(s, st, v, e):
        if e == 'bx':
            if isinstance(v, VBox): return v.v
            if isinstance(v, VSym) and v.ty[0] == "adt" and v.ty[1] == BOX: return s.mk(atom('unbox', v.t), v.ty[2][0])
            raise Taint("unbox of %r" % (v,))
        k = e[0]
        if k == 'f':
            if isinstance(v, VAdt):
                if v.v != e[1]: raise Taint("field of another variant")
                if e[2] >= len(v.f): raise Taint("no field %d in %r" % (e[2], v))
                return v.f[e[2]]
            if isinstance(v, VSym):
                if s.ty_is_enum(v.ty):
                    x = s.variant(st, v)
                    if x != e[1]: raise Stop()
                    return s.mk(atom('fld', v.t, e[1], e[2]), s.fty(v.ty, e[1], e[2]))
            if isinstance(v, VClo): return v.up[e[2]]
            raise Taint("field of %r" % (v,))
        if k == 'i': return s.seq_get(st, v, e[1])
        if k == 's': return s.seq_slice(st, v, e[1], e[2])
        raise Taint("projection %r" % (e,))
    def write(s, st, c, path, val):
        if not path: st.cells[c] = val; return
        st.cells[c] = s.upd(st, s.cell(st, c), path, val)
    def upd(s, st, v, path, val):
        if not path: return val
        e = path[0]
        if isinstance(v, VUndef): return s.upd_undef(path, val)
        if e == 'bx':
            if isinstance(v, VBox): return VBox(s.upd(st, v.v, path[1:], val), v.dty)
            raise Taint("write through %r" % (v,))
        k = e[0]
        if k == 'f':
            if isinstance(v, VSym): v = s.expand(v, s.variant(st, v))
            if isinstance(v, VAdt) and v.v == e[1]:
                f = list(v.f)
                while len(f) <= e[2]: f.append(UNDEF)
                f[e[2]] = s.upd(st, f[e[2]], path[1:], val)
                return VAdt(v.k, v.v, f)
            if isinstance(v, VClo):
                f = list(v.up); f[e[2]] = s.upd(st, f[e[2]], path[1:], val)
                return VClo(v.k, v.args, f)
            raise Taint("write to field of %r" % (v,))
        if k == 'i':
            x = val if len(path) == 1 else s.upd(st, s.seq_get(st, v, e[1]), path[1:], val)
            return s.seq_set(st, v, e[1], x)
        if k == 's':
            sub = s.seq_slice(st, v, e[1], e[2])
            nv = s.upd(st, sub, path[1:], val)
            if not isinstance(nv, VSeq): raise Taint("write to slice")
            n = s.seq_len(v)
            return VSeq(norm_segs(s.seq_slice(st, v, ZERO, e[1]).segs + nv.segs + s.seq_slice(st, v, e[2], n).segs, v.ety), v.ety)
        raise Taint("write %r" % (e,))
    def upd_undef(s, path, val):
        # initialisation of a field of something not yet initialised; wrappers (MaybeUninit, ManuallyDrop) are transparent
        return val
    # ------------------------------------------------------------- sequences
    def seq_len(s, v):
        if not isinstance(v, VSeq): raise Taint("length of %r" % (v,))
        n = ZERO
        for g in v.segs: n = n + s.seg_len(g)
        return n
    def seg_len(s, g):
        if g[0] == 'ph':
            c = s.phlen.get(g[1].k[1:3])
            if c is not None: return L(g[1].k[3]).scale(c)
        return seg_len(g)
    def seg_at(s, st, g, off, ety):
        """element off of segment g (0 <= off < len known)"""
        k = g[0]
        if k == 'one': return g[1]
        if k == 'sl': return s.mk(values.elem_atom(g[1], g[2] + off), ety)
        if k == 'rsl': return s.mk(values.elem_atom(g[1], g[3] - off - 1), ety)
        if k == 'rep': return g[1]
        if k == 'comp':
            m = {g[1]: g[2] + off}
            if all(s.segs_len1(gs) for _, gs in g[4]):
                if len(g[4]) == 1: return s.seg_at(st, subst_seg(g[4][0][1][0], m, {}), ZERO, ety)
                for conds, gs in g[4]:
                    if s.decide(st, conj([subst(c, m, {}) for c in conds])):
                        return s.seg_at(st, subst_seg(gs[0], m, {}), ZERO, ety)
                raise Stop()
        raise Taint("element of %s" % show_seg(g))
    def segs_len1(s, gs): return len(gs) == 1 and s.seg_len(gs[0]).const() == 1
    def seq_find(s, st, v, idx):
        """(segment number, offset in it) of element idx; forks"""
        idx = L(idx)
        pos = ZERO
        # entailed placement first
        for j, g in enumerate(v.segs):
            n = s.seg_len(g)
            if s.ent(st, ge(idx, pos)) and s.ent(st, lt(idx, pos + n)): return j, idx - pos
            pos = pos + n
        pos = ZERO
        for j, g in enumerate(v.segs):
            n = s.seg_len(g)
            if s.decide(st, lt(idx, pos + n)): return j, idx - pos
            pos = pos + n
        raise Panic("index out of bounds")
    def seq_get(s, st, v, idx):
        if not isinstance(v, VSeq): raise Taint("index into %r" % (v,))
        j, off = s.seq_find(st, v, idx)
        return s.seg_at(st, v.segs[j], off, v.ety)
    def seg_split(s, g, off):
        """segments before / from off"""
        k = g[0]
        n = s.seg_len(g)
        if off.const() == 0: return (), (g,)
        if off == n: return (g,), ()
        if k == 'sl': return (('sl', g[1], g[2], g[2] + off),), (('sl', g[1], g[2] + off, g[3]),)
        if k == 'rsl': return (('rsl', g[1], g[3] - off, g[3]),), (('rsl', g[1], g[2], g[3] - off),)
        if k == 'rep': return (('rep', g[1], off),), (('rep', g[1], n - off),)
        if k == 'comp' and all(s.segs_len1(gs) for _, gs in g[4]):
            return (('comp', g[1], g[2], g[2] + off, g[4]),), (('comp', g[1], g[2] + off, g[3], g[4]),)
        raise Taint("split of %s" % show_seg(g))
    def seq_split(s, st, v, idx):
        """the segments before and from position idx (0 <= idx <= len)"""
        idx = L(idx)
        if idx.const() == 0: return (), v.segs
        tot = s.seq_len(v)
        if idx == tot or s.ent(st, eq(idx, tot)): return v.segs, ()
        pos = ZERO
        for j, g in enumerate(v.segs):
            if idx == pos or s.ent(st, eq(idx, pos)): return v.segs[:j], v.segs[j:]
            n = s.seg_len(g)
            if s.ent(st, ge(idx, pos)) and s.ent(st, lt(idx, pos + n)):
                a, b = s.seg_split(g, idx - pos)
                return v.segs[:j] + a, b + v.segs[j+1:]
            pos = pos + n
        pos = ZERO
        for j, g in enumerate(v.segs):
            n = s.seg_len(g)
            if s.decide(st, lt(idx, pos + n)):
                if s.decide(st, eq(idx, pos)): return v.segs[:j], v.segs[j:]
                a, b = s.seg_split(g, idx - pos)
                return v.segs[:j] + a, b + v.segs[j+1:]
            pos = pos + n
        if s.decide(st, eq(idx, tot)): return v.segs, ()
        raise Panic("slice index out of bounds")
    def seq_slice(s, st, v, lo, hi):
        if not isinstance(v, VSeq): raise Taint("slice of %r" % (v,))
        a, b = s.seq_split(st, v, hi)
        c, d = s.seq_split(st, VSeq(a, v.ety), lo)
        return VSeq(norm_segs(d, v.ety), v.ety)
    def seq_set(s, st, v, idx, x):
        if not isinstance(v, VSeq): raise Taint("index into %r" % (v,))
        j, off = s.seq_find(st, v, idx)
        g = v.segs[j]
        if g[0] == 'one': mid = (('one', x),)
        else:
            a, b = s.seg_split(g, off)
            b2 = ()
            if b:
                n1 = s.seg_len(b[0])
                _, b2 = s.seg_split(b[0], ONE) if n1.const() != 1 else ((), ())
            if b2 and s.ent(st, eq(s.seg_len(b2[0]), ZERO)): b2 = ()
            if a and s.ent(st, eq(s.seg_len(a[0]), ZERO)): a = ()
            mid = a + (('one', x),) + b2
        return VSeq(norm_segs(v.segs[:j] + mid + v.segs[j+1:], v.ety), v.ety)
    def drop_empty(s, st, v):
        """remove segments known to be empty"""
        gs = [g for g in v.segs if not s.ent(st, le(s.seg_len(g), ZERO))]
        return VSeq(norm_segs(gs, v.ety), v.ety)
    # ------------------------------------------------------------- running
    def step(s, st, f, outs, where):
        """run f on copies of st, refining until no decision is open; -> [(state, result)]"""
        work = [st]; res = []
        while work:
            s0 = work.pop()
            c = s0.copy()
            try:
                r = f(c); res.append((c, r))
            except Fork as e:
                n = []
                for cond in e.conds:
                    for con in s0.con.assume(cond):
                        x = s0.copy(); x.con = con; n.append(x)
                work += reversed(n)
                s.budget -= 1
                if s.budget < 0: raise BudgetExceeded()
            except Stop: pass
            except Panic as p: outs.append(Out('panic', s0, None, where, str(p)))
            except Taint as t: s.taint(str(t), where, True)
        return res
    def taint(s, msg, where, path=False):
        """something is not followed; path: only the path it is on is given up"""
        s.taints.append((msg, where, path))
    def region(s, fr, comps, start, nodes, head):
        exits = []; back = []; outs = []
        pending = {b: [x] for b, x in start}
        def emit(t, x):
            if t == head: back.append(x)
            elif nodes is None or t in nodes: pending.setdefault(t, []).append(x)
            else: exits.append((t, x))
        for c in comps:
            if isinstance(c, int):
                for x in dedupe(pending.pop(c, [])):
                    for t, y in s.block(fr, c, x, outs): emit(t, y)
            else:
                for x in dedupe(pending.pop(c[1], [])):
                    ex, ou = s.lm.loop(s, fr, c, x)
                    for t, y in ex: emit(t, y)
                    outs += ou
        return exits, back, outs
    def run_body(s, key, targs, args, st, depth=None):
        body = s.P.bodies[key]
        s.seen_bodies.add(key)
        d = s.depth + 1
        if d > 40: raise Taint("call depth")
        if not s.small and s.stack.count(key) >= 4: raise Taint("recursion of %s" % body.path)
        fr = Frame(d, body, targs)
        st = st.copy()
        for i, a in enumerate(args): st.cells[('l', d, i + 1)] = a
        s.depth = d; s.stack.append(key)
        try:
            ex, back, outs = s.region(fr, body.wto(), [(0, st)], None, None)
        finally: s.depth = d - 1; s.stack.pop()
        res = []
        for o in outs:
            x = o.st.copy()
            if body.kind in ("promoted", "const", "inline_const") or not body.argc: s.consts = {c: v for c, v in x.cells.items() if c[0] == 'l' and c[1] >= d}
            if o.kind == 'ret' and o.val is None: o.val = x.cells.get(('l', d, 0), UNIT)
            for k in [k for k in x.cells if k[0] == 'l' and k[1] >= d]: del x.cells[k]
            res.append(Out(o.kind, x, o.val, o.span, o.msg))
        return res
    def block(s, fr, b, st, outs):
        stmts, term = fr.body.blocks[b]
        s.stats["blocks"] += 1
        s.budget -= 1
        if s.budget < 0: raise BudgetExceeded()
        if s.limit and time.time() - s.t0 > s.limit: raise BudgetExceeded()
        cur = [st]
        for x in stmts:
            nx = []
            where = (fr.body.key, x[3] if x[0] == "assign" and len(x) > 3 else fr.body.span)
            for y in cur:
                nx += [c for c, _ in s.step(y, lambda c: s.stmt(fr, c, x), outs, where)]
            cur = nx
            if not cur: return []
        res = []
        for y in cur: res += s.term(fr, y, term, outs)
        return res
    def stmt(s, fr, st, x):
        if x[0] == "assign":
            v = s.rvalue(fr, st, x[2])
            if isinstance(v, VBox) and x[2][0] == "use" and x[2][1][0] == "copy":
                # the compiler copies the pointer of a box to reach its content: an alias of the box
                bc, bp, _ = s.place(fr, st, x[2][1][1]); v = VAdt("alias", 0, (VRef(bc, bp + ('bx',), v.dty),))
            c, path, _ = s.place(fr, st, x[1])
            s.write(st, c, path, v)
        elif x[0] == "setdiscr":
            c, path, _ = s.place(fr, st, x[1])
            v = s.read(st, c, path)
            raise Taint("set discriminant")
        elif x[0] == "intrinsic": pass
        else: raise Taint("statement %s" % x[0])
    def place(s, fr, st, p):
        c = ('l', fr.d, p[0]); path = (); var = 0; dty = None
        for e in p[1]:
            k = e[0]
            if k == "deref":
                v = s.read(st, c, path)
                if isinstance(v, VRef): c, path = v.cell, v.path; dty = v.dty
                elif isinstance(v, VBox): path = path + ('bx',); dty = v.dty
                else: raise Taint("deref of %r" % (v,))
                var = 0; continue
            dty = None
            if k == "field":
                path = path + (('f', var, e[1]),); var = 0
            elif k == "variant": var = e[1]
            elif k == "index":
                i = s.read(st, ('l', fr.d, e[1]))
                path = path + (('i', i.l),)
            elif k == "cindex":
                if e[2]: path = path + (('i', s.seq_len(s.read(st, c, path)) - e[1]),)
                else: path = path + (('i', L(e[1])),)
            elif k == "subslice":
                n = s.seq_len(s.read(st, c, path))
                path = path + (('s', L(e[1]), (n - e[2]) if e[3] else L(e[2])),)
            elif k == "opaque": pass
            else: raise Taint("place %r" % (e,))
        return c, path, dty
    def ty(s, fr, t):
        r = fr.tycache.get(id(t))
        if r is None:
            r = s.norm(subst_ty(T(t) if isinstance(t, list) else t, fr.targs)); fr.tycache[id(t)] = r
        return r
    def operand(s, fr, st, o):
        k = o[0]
        if k in ("copy", "move"):
            c, path, _ = s.place(fr, st, o[1])
            return s.read(st, c, path)
        if k == "const": return s.const(fr, st, s.ty(fr, o[1]), o[2])
        if k in ("promoted", "named"):
            key = o[2]
            if key not in s.P.bodies: raise Taint("constant %s" % key)
            rs = s.run_body(key, tuple(s.ty(fr, a) for a in o[3]), [], st)
            rs = [r for r in rs if r.kind == 'ret']
            if len(rs) != 1: raise Taint("constant %s" % key)
            return s.root_const(rs[0], key)
        raise Taint("operand %s" % (o,))
    def root_const(s, o, key):
        """value of a constant; references to its own (popped) frame become references to constant cells"""
        def fix(v):
            if isinstance(v, VRef):
                if v.cell[0] in ('l', 'str'):
                    x = fix(s.consts[v.cell]) if v.cell in s.consts else s.cell(o.st, v.cell)
                    r = VRef(('cst', x) if v.cell[0] == 'l' else v.cell, v.path, v.dty)
                    return r
                return v
            if isinstance(v, VAdt): return VAdt(v.k, v.v, [fix(x) for x in v.f])
            if isinstance(v, VBox): return VBox(fix(v.v), v.dty)
            return v
        return fix(o.val)
    def const(s, fr, st, ty, val):
        h = ty[0]
        if h == "int": return VInt(L(val), ty)
        if h == "char": return VInt(L(val), ty)
        if h == "bool": return TRUE if val else FALSE
        if h == "tuple" and not ty[1]: return UNIT
        if h == "fndef": return VFn(ty[1], ty[2])
        if h == "ref" and ty[1] == ("str",) and isinstance(val, str):
            c = ('str', val)
            st.cells[c] = VSeq(norm_segs([('one', VInt(L(ord(x)), ("char",))) for x in val], ("char",)), ("char",))
            return VRef(c)
        if h == "adt":
            a = s.P.adts.get(ty[1])
            if ty[1] == "core::marker::PhantomData": return VAdt(ty[1], 0, ())
            if a and a["kind"] == "enum" and isinstance(val, int):
                for i, v in enumerate(a["variants"]):
                    if v[1] is not None and int(v[1]) == val: return VAdt(ty[1], i, ())
            if a and a["kind"] == "struct" and val is None: return VAdt(ty[1], 0, [s.const(fr, st, s.norm(subst_ty(f[1], ty[2])), None) for f in a["variants"][0][2]])
            if a and a["kind"] == "enum" and val is None and a["variants"] and not a["variants"][0][2]: return VAdt(ty[1], 0, ())
        if h == "closure": return VClo(ty[1], ty[2], ())
        if h == "param" or val is None and h not in ("ref", "rawptr"): return VSym(atom('zst', repr(ty)), ty)
        raise Taint("constant of type %s" % (ty,))
    def box_place(s, fr, st, p):
        """place of the form <box>.0(.0)* -> reference to the content"""
        for cut in range(len(p[1]) - 1, -1, -1):
            try:
                c, path, _ = s.place(fr, st, [p[0], p[1][:cut]])
                v = s.read(st, c, path)
            except Taint: continue
            if isinstance(v, VBox): return VRef(c, path + ('bx',), v.dty)
            if isinstance(v, VAdt) and v.k == "alias": return v.f[0]
            if isinstance(v, (VAdt, VSym, VRef, VSeq)): break
        raise Taint("raw box access")
    def opty(s, fr, o):
        """static type of an operand that is a plain local"""
        if o[0] in ("copy", "move") and not o[1][1]: return s.ty(fr, fr.body.locals[o[1][0]])
        if o[0] in ("const", "promoted", "named"): return s.ty(fr, o[1])
        return None
    def rvalue(s, fr, st, r):
        k = r[0]
        if k == "use":
            return s.operand(fr, st, r[1])
        if k == "ref":
            c, path, dty = s.place(fr, st, r[1])
            return VRef(c, path, dty)
        if k == "cast":
            kind = r[1]
            if kind.startswith("BoxDeref") or kind == "Transmute":
                o = r[2]
                if o[0] in ("copy", "move") and o[1][1] and o[1][1][-1][0] == "field":
                    return s.box_place(fr, st, o[1])
            v = s.operand(fr, st, r[2]); ty = s.ty(fr, r[3])
            if kind.startswith("PointerCoercion"):
                if isinstance(v, VRef) and ty[0] in ("ref", "rawptr") and ty[1][0] == "dyn":
                    src = s.opty(fr, r[2])
                    return VRef(v.cell, v.path, v.dty or (src[1] if src and src[0] in ("ref", "rawptr") else None))
                if isinstance(v, VBox):
                    src = s.opty(fr, r[2])
                    return VBox(v.v, v.dty or ([a for a in src[2] if a != ("lt",)][0] if src and src[0] == "adt" else None))
                return v
            if kind == "IntToInt":
                if isinstance(v, VBool): return VInt(ONE if s.truth(st, v) else ZERO, ty)
                if isinstance(v, VInt):
                    src = s.opty(fr, r[2])
                    if ty[0] == "int" and ty[1] in UNSIGNED and v.l.const() is None and src and src[0] == "int" and src[1] not in UNSIGNED:
                        if not s.exact_casts and not s.ent(st, ge(v.l, ZERO)): raise Taint("cast of a possibly negative value")
                    if ty[0] == "int" and src and src[0] in ("int", "char"):
                        # a narrowing cast keeps the value only if it fits (counts and state numbers are assumed to fit 32 bits unless exact_casts is set)
                        lo, hi = INT_RANGE[ty[1]]; slo, shi = INT_RANGE[src[1]] if src[0] == "int" else (0, 0x10FFFF)
                        if (slo < lo or shi > hi) and (s.exact_casts or hi < 2**31 - 1):
                            cs = []
                            if slo < lo: cs.append(ge(v.l, L(lo)))
                            if shi > hi: cs.append(le(v.l, L(hi)))
                            for c in cs:
                                if not s.decide(st, c):
                                    a = atom('wrap', v.l, ty[1], nonneg=lo == 0); s.assume1(st, conj([ge(L(a), L(lo)), le(L(a), L(hi))])); return VInt(L(a), ty)
                    return VInt(v.l, ty)
                return v
            if isinstance(v, VInt): return VInt(v.l, ty)
            return v
        if k == "bin": return s.binop(fr, st, r[1], s.operand(fr, st, r[2]), s.operand(fr, st, r[3]))
        if k == "un":
            v = s.operand(fr, st, r[2])
            if r[1] == "Not":
                if isinstance(v, VBool): return VBool(neg(v.c))
                if isinstance(v, VInt) and v.ty[0] == "int":
                    u = v.ty[1]
                    return VInt(L((1 << (64 if u == "usize" else int(u[1:]))) - 1) - v.l if u[0] == "u" else L(-1) - v.l, v.ty)
                raise Taint("bitwise not")
            if r[1] == "Neg": return VInt(-v.l, v.ty)
            if r[1] == "PtrMetadata": return VInt(s.seq_len(s.read(st, v.cell, v.path)), USIZE)
            raise Taint("unary %s" % r[1])
        if k == "discr":
            c, path, _ = s.place(fr, st, r[1])
            v = s.read(st, c, path)
            i = s.variant(st, v)
            key = v.k if isinstance(v, VAdt) else v.ty[1]
            a = s.P.adts.get(key)
            d = a["variants"][i][1] if a else i
            return VInt(L(int(d) if d is not None else i), ("int", "isize"))
        if k == "agg":
            ops = [s.operand(fr, st, o) for o in r[2]]
            ak = r[1]
            if ak[0] == "tuple": return VAdt("tuple", 0, ops)
            if ak[0] == "array":
                return VSeq(norm_segs([('one', o) for o in ops], s.array_ety(fr, r, ops)), s.array_ety(fr, r, ops))
            if ak[0] == "adt":
                if ak[1] in ALIAS: return VAdt(ALIAS[ak[1]], ak[2], ops)
                return VAdt(ak[1], ak[2], ops)
            if ak[0] == "closure": return VClo(ak[1], fr.targs, ops)
            raise Taint("aggregate %s" % ak[0])
        if k == "repeat":
            v = s.operand(fr, st, r[1]); n = r[2]
            if not isinstance(n, int): raise Taint("repeat count")
            return VSeq(norm_segs([('rep', v, L(n))], ("any",)), ("any",))
        raise Taint("rvalue %s" % k)
    def array_ety(s, fr, r, ops):
        if ops:
            for o in r[2]:
                t = s.opty(fr, o)
                if t is not None: return t
            if isinstance(ops[0], VInt): return ops[0].ty
        return ("any",)
    def binop(s, fr, st, op, a, b):
        if isinstance(a, VInt) and isinstance(b, VInt):
            x, y = a.l, b.l
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return VBool({"Eq": eq, "Ne": ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](x, y))
            ov = op.endswith("WithOverflow"); o = op.replace("WithOverflow", "").replace("Unchecked", "")
            if o == "Add": r = x + y; f = FALSE
            elif o == "Sub":
                r = x - y
                f = VBool(lt(x, y)) if a.ty[0] == "int" and a.ty[1] in UNSIGNED else FALSE
                if not ov and a.ty[0] == "int" and a.ty[1] in UNSIGNED and not s.decide(st, ge(x, y)): raise Panic("subtraction underflow")
            elif o == "Mul":
                f = FALSE
                if y.const() is not None: r = x.scale(y.c)
                elif x.const() is not None: r = y.scale(x.c)
                else: r = L(atom('mul', x, y, nonneg=True))
            elif o == "Rem":
                f = FALSE
                if not s.decide(st, ne(y, ZERO)): raise Panic("remainder by zero")
                if s.decide(st, lt(x, y)): r = x
                elif st.con.entails(le(x, y)): r = ZERO
                elif s.decide(st, lt(x, y.scale(2))): r = x - y
                else:
                    q = atom('rem', x, y, nonneg=True); r = L(q)
                    s.assume1(st, lt(r, y))
            elif o == "Div":
                f = FALSE
                if not s.decide(st, ne(y, ZERO)): raise Panic("division by zero")
                if y.const() is None: raise Taint("division by a variable")
                q = atom('div', x, y, nonneg=True); r = L(q)
                s.assume1(st, le(r.scale(y.c), x)); s.assume1(st, lt(x, r.scale(y.c) + y.c))
            elif o in ("Shl", "Shr") and y.const() is not None:
                f = FALSE
                if o == "Shl": r = x.scale(1 << y.c)
                else: return s.binop(fr, st, "Div", a, VInt(L(1 << y.c), b.ty))
            elif o in ("BitAnd", "BitOr", "BitXor") and x.const() is not None and y.const() is not None and x.c >= 0 and y.c >= 0:
                r = L({"BitAnd": x.c & y.c, "BitOr": x.c | y.c, "BitXor": x.c ^ y.c}[o]); f = FALSE
            elif o in ("BitOr", "BitXor") and 0 in (x.const(), y.const()): r = x + y; f = FALSE
            elif o == "BitAnd" and 0 in (x.const(), y.const()): r = ZERO; f = FALSE
            elif o == "BitAnd" and any(c is not None and c > 0 and c & (c + 1) == 0 for c in (x.const(), y.const())):
                if x.const() is not None: a, b, x, y = b, a, y, x
                return s.binop(fr, st, "Rem", a, VInt(y + 1, b.ty))
            elif o in ("BitAnd", "BitOr", "BitXor"): r = L(atom('op', o, x, y, nonneg=True)); f = FALSE
            elif o == "Cmp":
                if s.decide(st, lt(x, y)): return VAdt(ORDERING, 0, ())
                return VAdt(ORDERING, 1 if s.decide(st, eq(x, y)) else 2, ())
            else: raise Taint("operator %s" % op)
            v = VInt(r, a.ty)
            return VAdt("tuple", 0, (v, f)) if ov else v
        if isinstance(a, VBool) and isinstance(b, VBool):
            if op == "Eq": return VBool(s.truth(st, a) == s.truth(st, b))
            if op == "Ne": return VBool(s.truth(st, a) != s.truth(st, b))
            if op == "BitAnd": return VBool(conj([a.c, b.c]))
            if op == "BitOr": return VBool(disj([a.c, b.c]))
            if op == "BitXor": return VBool(s.truth(st, a) != s.truth(st, b))
        raise Taint("operator %s on %r" % (op, a))
    def assume1(s, st, c):
        r = st.con.assume(c)
        if not r: raise Stop()
        if len(r) > 1: raise Fork([c])
        st.con = r[0]
    # ------------------------------------------------------------- terminators
    def term(s, fr, st, t, outs):
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "return":
            outs.append(Out('ret', st, st.cells.get(('l', fr.d, 0), UNIT), t[1] if len(t) > 1 else None)); return []
        if k in ("unreachable", "resume"): return []
        where = (fr.body.key, t[-1] if isinstance(t[-1], str) else fr.body.span)
        if k == "switch":
            def f(c):
                v = s.operand(fr, c, t[1])
                if isinstance(v, VBool):
                    b = 1 if s.truth(c, v) else 0
                    for val, tgt in t[3]:
                        if val == b: return tgt
                    return t[4]
                if not isinstance(v, VInt): raise Taint("switch on %r" % (v,))
                for val, tgt in t[3]:
                    if v.l.const() is None and isinstance(val, int) and val >= 2**63 and v.ty[0] == "int" and v.ty[1] not in UNSIGNED: val -= 2**128 if val >= 2**127 else 2**64
                    if v.l.const() is not None:
                        if v.l.c == val or (v.l.c < 0 and v.l.c % 2**64 == val): return tgt
                        continue
                    if s.decide(c, eq(v.l, L(val))): return tgt
                return t[4]
            return [(tgt, c) for c, tgt in s.step(st, f, outs, where)]
        if k == "assert":
            def f(c):
                v = s.operand(fr, c, t[1])
                if s.truth(c, v) != bool(t[2]): raise Panic("assert %s" % (t[3],))
                return t[4]
            return [(tgt, c) for c, tgt in s.step(st, f, outs, where)]
        if k == "drop":
            ty = s.ty(fr, t[2])
            if s.pm.has_drop(s, ty):
                res = []
                for c, lst in s.step(st, lambda c: s.pm.do_drop(s, fr, c, t[1], ty), outs, where):
                    for o in lst:
                        if o.kind == 'ret': res.append((t[3], o.st))
                        else: outs.append(o)
                return res
            return [(t[3], st)]
        if k == "call":
            f, aops, dest, target = t[1], t[2], t[3], t[4]
            span = t[5] if len(t) > 5 else None
            def go(c):
                args = [s.operand(fr, c, o) for o in aops]
                C = s.mkcall(fr, f, args, c, (fr.body.key, span))
                C.used = s.dest_used(fr.body, dest)
                s.stats["calls"] += 1; s.stats["callsites"].add((fr.body.key, span, C.name))
                d0 = s.depth; s.depth = fr.d
                try: return s.call(c, C)
                finally: s.depth = d0
            res = []
            for c, lst in s.step(st, go, outs, (fr.body.key, span)):
                for o in lst:
                    if o.kind != 'ret':
                        if o.span is None: o.span = (fr.body.key, span)
                        outs.append(o); continue
                    if target is None: continue
                    for c2, _ in s.step(o.st, lambda c3: s.write(c3, *s.place(fr, c3, dest)[:2], o.val), outs, (fr.body.key, span)):
                        res.append((target, c2))
            return res
        raise BaseException("terminator %s" % k)
    def dest_used(s, body, dest):
        if dest[1]: return True
        r = getattr(body, "_used", None)
        if r is None:
            from .loops import rv_uses, place_uses, uses
            r = {0}
            for stmts, t in body.blocks:
                for x in stmts:
                    if x[0] == "assign":
                        rv_uses(x[2], r)
                        if x[1][1]: place_uses(x[1], r)
                if t[0] in ("switch", "assert"): uses(t[1], r)
                elif t[0] == "call":
                    if "dynamic" in t[1]: uses(t[1]["dynamic"], r)
                    for o in t[2]: uses(o, r)
                    if t[3][1]: place_uses(t[3], r)
            body._used = r
        return dest[0] in r
    def mkcall(s, fr, f, args, st, span):
        C = Call()
        C.f = f; C.args = args; C.fr = fr; C.span = span; C.used = True
        if "dynamic" in f or "key" not in f:
            C.name = "dynamic"; C.key = None; C.targs = (); C.trait = None; C.method = None
            v = s.operand(fr, st, f["dynamic"]) if "dynamic" in f else None
            if isinstance(v, VFn): C.key = v.k; C.targs = v.args; C.name = v.k.split("::")[-1]
            return C
        C.key = f["key"]; C.name = short(f["path"])
        C.targs = tuple(s.ty(fr, a) for a in f["args"])
        C.trait = f.get("trait"); C.method = f.get("method")
        if not C.trait and f.get("resolved") and f["resolved"] != f["key"]: C.key = f["resolved"]; C.targs = tuple(s.ty(fr, a) for a in f["rargs"])
        return C
    def call(s, st, C):
        for h in s.hooks:
            r = h(s, st, C)
            if r is not None: return r
        return s.pm.dispatch(s, st, C)
    def ret(s, st, v): return [Out('ret', st, v)]
    def out(s, st, v): return Out('ret', st, v)
    def classify_sort(s, st, f, v, C): raise Taint("sort with a comparison function")

class BudgetExceeded(Exception): pass

def dedupe(sts):
    if len(sts) < 2: return sts
    seen = {}; r = []
    for x in sts:
        k = (frozenset(x.cells.items()), x.con.key())
        if k in seen and seen[k].facts == x.facts: continue
        seen[k] = x; r.append(x)
    return r

def same_shape(a, b):
    """equal up to linear index expressions and bound names"""
    if a is b: return True
    if isinstance(a, Lin) and isinstance(b, Lin): return True
    if isinstance(a, Atom) and isinstance(b, Atom):
        if len(a.k) != len(b.k) or a.k[0] != b.k[0]: return False
        return all(same_shape(x, y) for x, y in zip(a.k, b.k))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b
