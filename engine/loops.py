"""Loop summaries.

A loop is first run for a few rounds in case it ends by itself.  Otherwise its head state is written as a function of the
number i of completed iterations: locations the body changes are described by templates (v0 + d*i, an uninterpreted
function lv(i) with the recurrence found, a sequence that grows by one chunk per iteration, ...), the body is analysed
once from that head state, and templates and candidate invariants are weakened until the state after the body is the head
state for i+1 on every path.  Sequences that grew become comprehensions over k < i, recurrences and branch conditions
become facts quantified over k < i.
"""
from .lin import *
from .values import *
from . import values, prims
from .interp import *

def uses(op, acc):
    if op[0] in ("copy", "move"): place_uses(op[1], acc)
def place_uses(p, acc):
    acc.add(p[0])
    for e in p[1]:
        if e[0] == "index": acc.add(e[1])
def rv_uses(r, acc):
    k = r[0]
    if k in ("use",): uses(r[1], acc)
    elif k == "repeat": uses(r[1], acc)
    elif k in ("ref", "discr"): place_uses(r[1], acc)
    elif k == "cast": uses(r[2], acc)
    elif k == "bin": uses(r[2], acc); uses(r[3], acc)
    elif k == "un": uses(r[2], acc)
    elif k == "agg":
        for o in r[2]: uses(o, acc)
    else:
        for x in r[1:]:
            if isinstance(x, list) and x and x[0] in ("copy", "move"): uses(x, acc)
def block_ud(blk):
    """(used before defined, defined) locals of a block"""
    use = set(); dfn = set()
    def u(acc):
        for x in acc:
            if x not in dfn: use.add(x)
    for st in blk[0]:
        if st[0] == "assign":
            a = set(); rv_uses(st[2], a); 
            if st[1][1]: place_uses(st[1], a)
            u(a)
            if not st[1][1]: dfn.add(st[1][0])
        else:
            a = set()
            for x in st[1:]:
                if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int): place_uses(x, a)
            u(a)
    t = blk[1]; a = set()
    if t[0] in ("switch", "assert"): uses(t[1], a)
    elif t[0] == "drop": place_uses(t[1], a)
    elif t[0] == "return": a.add(0)
    elif t[0] == "call":
        if "dynamic" in t[1]: uses(t[1]["dynamic"], a)
        for o in t[2]: uses(o, a)
        if t[3][1]: place_uses(t[3], a)
    u(a)
    if t[0] == "call" and not t[3][1]: dfn.add(t[3][0])
    return use, dfn
def liveness(body):
    r = getattr(body, "_live", None)
    if r is not None: return r
    body.wto()
    ud = {b: block_ud(body.blocks[b]) for b in body.rpo}
    live = {b: set() for b in body.rpo}
    ch = True
    order = sorted(body.rpo, key=lambda b: -body.rpo[b])
    while ch:
        ch = False
        for b in order:
            o = set()
            for t in body.succs(b): o |= live[t]
            n = ud[b][0] | (o - ud[b][1])
            if n != live[b]: live[b] = n; ch = True
    body._live = live
    return live

def refs_in(x, acc, seen):
    if isinstance(x, VRef):
        refs_in(x.cell, acc, seen)
        acc.add(x.cell); return
    if isinstance(x, V):
        if x in seen: return
        seen.add(x)
        if isinstance(x, (VInt, VBool, VFn, VUndef)): return
        for y in x.key(): 
            if isinstance(y, (V, tuple)): refs_in(y, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (V, tuple)): refs_in(y, acc, seen)
def gc(eng, fr, st, block):
    """forget the cells of the current frame that cannot be used again"""
    live = liveness(fr.body)[block]
    d = fr.d
    keep = set(); work = []
    for c in st.cells:
        if c[0] == 'l' and c[1] >= d:
            if c[1] == d and c[2] in live: work.append(c)
        else: work.append(c)
    seen = set()
    while work:
        c = work.pop()
        if c in keep: continue
        keep.add(c)
        acc = set(); refs_in(st.cells[c], acc, seen)
        for r in acc:
            if r in st.cells and r not in keep: work.append(r)
    n = st.copy()
    n.cells = {c: v for c, v in st.cells.items() if c in keep}
    return n

class PhaseLimit(Exception): pass

class Acc:
    def __init__(s, eng, fr, comp, entry):
        s.eng = eng; s.fr = fr; s.head = comp[1]; s.nodes = comp[2]; s.sub = comp[3]; s.entry = entry
        s.lid = eng.fresh("loop"); s.i = eng.fresh("i", nonneg=True); s.I = L(s.i)
        s.tmpl = {}; s.prefixes = set(); s.cells = {}
        s.dropped = set()
    # ---- templates
    def setl(s, loc, t):
        s.tmpl[loc] = t
        for n in range(len(loc) + 1): s.prefixes.add(loc[:n])
        s.changed = True
    def lv(s, loc, i, nonneg=False): return atom('lv', s.lid, loc, i, nonneg=nonneg)
    def phatom(s, loc, i): return atom('phx', s.lid, loc, i)
    def b_lin(s, l, loc, i):
        if loc not in s.prefixes: return l
        t = s.tmpl.get(loc)
        if t is None: return l
        if t[0] == 'lin': return l + i.scale(t[1])
        if t[0] == 'lv': return L(s.lv(loc, i, t[1]))
        if t[0] == 'nest':
            a = l.single()
            r = s.b_atom(a, loc + ('n',), i)
            return L(r)
        raise AssertionError(t)
    def b_atom(s, a, loc, i):
        if loc not in s.prefixes: return a
        k = tuple(s.b_any(y, loc + (j,), i) for j, y in enumerate(a.k))
        return atom(*k, nonneg=a.nonneg)
    def b_any(s, y, loc, i):
        if loc not in s.prefixes: return y
        if isinstance(y, Lin): return s.b_lin(y, loc, i)
        if isinstance(y, Atom): return s.b_atom(y, loc, i)
        if isinstance(y, V): return s.build(y, loc, i)
        if isinstance(y, tuple): return tuple(s.b_any(z, loc + (j,), i) for j, z in enumerate(y))
        return y
    def build(s, v, loc, i):
        if loc not in s.prefixes: return v
        t = s.tmpl.get(loc)
        if t and t[0] == 'undef': return UNDEF
        if isinstance(v, VInt): return VInt(s.b_lin(v.l, loc + ('l',), i), v.ty)
        if isinstance(v, VBool): return VBool(('b', s.lv(loc, i), True)) if t else v
        if isinstance(v, VAdt): return VAdt(v.k, v.v, [s.build(x, loc + (j,), i) for j, x in enumerate(v.f)])
        if isinstance(v, VBox): return VBox(s.build(v.v, loc + ('b',), i), v.dty)
        if isinstance(v, VSym):
            if t: return s.eng.mk(s.lv(loc, i), t[1])
            return VSym(s.b_atom(v.t, loc + ('t',), i), v.ty)
        if isinstance(v, VSeq):
            if t and t[0] == 'hav':
                a = s.lv(loc, i); return VSeq([('sl', a, ZERO, L(atom('len', a, nonneg=True)))], v.ety)
            if t and t[0] == 'app':
                return VSeq(norm_segs(v.segs, v.ety) + (('ph', s.phatom(loc, i)),), v.ety)
            if t and t[0] == 'inpl':
                j = t[1]; g = v.segs[j]; d = t[2]
                return VSeq(v.segs[:j] + (('ph', s.phatom(loc, i)),) + norm_segs((('sl', g[1], g[2] + i.scale(d), g[3]),), v.ety) + v.segs[j+1:], v.ety)
            return VSeq(norm_segs([s.b_any(g, loc + ('s', j), i) for j, g in enumerate(v.segs)], v.ety), v.ety)
        if isinstance(v, VMap):
            return VMap(s.b_any(v.base, loc + ('m',), i) if v.base is not None else None, v.kty, v.vty, s.build(v.writes, loc + ('w',), i))
        if isinstance(v, VRef): return VRef(s.b_any(v.cell, loc + ('c',), i), s.b_any(v.path, loc + ('p',), i), v.dty)
        if isinstance(v, VClo): return VClo(v.k, v.args, [s.build(x, loc + (j,), i) for j, x in enumerate(v.up)])
        return v
    # ---- matching a back state (dry: only tell whether it matches without weakening structure)
    def m_lin(s, l0, b, loc, nonneg=False):
        t = s.tmpl.get(loc)
        if t is None:
            if b == l0: return True
            d = (b - l0).const()
            if d is not None: s.propose(loc, ('lin', d)); return True
            if s.nestable(l0, b): s.propose(loc, ('nest',)); return True
            s.propose(loc, ('lv', nonneg)); return True
        if t[0] == 'lin':
            if b == l0 + (s.I + 1).scale(t[1]): return True
            s.propose(loc, ('lv', nonneg)); return True
        if t[0] == 'lv':
            s.binds.append((s.lv(loc, s.I + 1, t[1]), b)); return True
        if t[0] == 'nest':
            a = l0.single(); c = b.single()
            if a is not None and c is not None:
                r = s.m_any(a, c, loc + ('n',))
                if r: return True
            s.propose(loc, ('lv', nonneg)); return True
    def nestable(s, l0, b):
        a = l0.single(); c = b.single()
        return a is not None and c is not None and a.k[0] == c.k[0] and a.k[0] in ('elem', 'fld', 'deref', 'unbox') and s.alike(a, c)
    def alike(s, a, b):
        """same shape, with only linear indices different"""
        if a is b: return True
        if isinstance(a, Lin) and isinstance(b, Lin): return (b - a).const() is not None or a == b or s.nestable(a, b)
        if isinstance(a, Atom) and isinstance(b, Atom):
            return len(a.k) == len(b.k) and a.k[0] == b.k[0] and all(s.alike(x, y) for x, y in zip(a.k, b.k))
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(s.alike(x, y) for x, y in zip(a, b))
        if isinstance(a, V): return a == b
        return a == b
    def m_any(s, a, b, loc):
        """True when b is (an instance of) the template of a"""
        if a is b and loc not in s.prefixes: return True
        if isinstance(a, Lin): return isinstance(b, Lin) and s.m_lin(a, b, loc)
        if isinstance(a, Atom):
            if not isinstance(b, Atom) or len(a.k) != len(b.k): return False
            return all(s.m_any(x, y, loc + (j,)) for j, (x, y) in enumerate(zip(a.k, b.k)))
        if isinstance(a, V):
            if a == b and loc not in s.prefixes: return True
            return isinstance(b, V) and s.match(a, b, loc)
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b): return False
            return all(s.m_any(x, y, loc + (j,)) for j, (x, y) in enumerate(zip(a, b)))
        return a == b
    def propose(s, loc, t): s.props.append((loc, t))
    def trial(s, f):
        """run f; undo its proposals and binds when it fails"""
        p, b = len(s.props), len(s.binds)
        if f(): return True
        del s.props[p:]; del s.binds[b:]
        return False
    def hard(s, props, start):
        return any(t[0] in ('lv', 'hav') for _, t in props[start:])
    def match(s, v, b, loc):
        t = s.tmpl.get(loc)
        if t and t[0] == 'undef': return True
        if loc not in s.prefixes and v == b: return True
        if isinstance(v, VUndef) or isinstance(b, VUndef):
            s.propose(loc, ('undef',)); return True
        if isinstance(v, VInt) and isinstance(b, VInt):
            return s.m_lin(v.l, b.l, loc + ('l',), (v.ty[0] == "int" and v.ty[1] in UNSIGNED) or v.ty[0] == "char")
        if isinstance(v, VBool) and isinstance(b, VBool):
            if t: s.binds.append((s.lv(loc, s.I + 1), b)); return True
            if isinstance(v.c, bool) and isinstance(b.c, bool): return False
            s.propose(loc, ('lv', ("bool",))); return True
        if isinstance(v, VSym):
            if t: s.binds.append((s.lv(loc, s.I + 1), b)); return True
            if isinstance(b, VSym):
                if s.alike(v.t, b.t) or loc + ('t',) in s.prefixes:
                    if s.trial(lambda: s.m_any(v.t, b.t, loc + ('t',))): return True
                s.propose(loc, ('lv', v.ty)); return True
            if loc in s.forced: s.propose(loc, ('lv', v.ty)); return True
            return False
        if isinstance(v, VAdt) and isinstance(b, VAdt):
            if v.k != b.k or v.v != b.v or len(v.f) != len(b.f): return False
            return all([s.match(x, y, loc + (j,)) for j, (x, y) in enumerate(zip(v.f, b.f))])
        if isinstance(v, VBox) and isinstance(b, VBox): return s.match(v.v, b.v, loc + ('b',))
        if isinstance(v, VClo) and isinstance(b, VClo):
            return v.k == b.k and all([s.match(x, y, loc + (j,)) for j, (x, y) in enumerate(zip(v.up, b.up))])
        if isinstance(v, VRef) and isinstance(b, VRef):
            return s.trial(lambda: s.m_any(v.cell, b.cell, loc + ('c',)) and s.m_any(v.path, b.path, loc + ('p',)))
        if isinstance(v, VMap) and isinstance(b, VMap):
            if (v.base is None) != (b.base is None): return False
            if v.base is not None and not s.trial(lambda: s.m_any(v.base, b.base, loc + ('m',))): return False
            return s.match(v.writes, b.writes, loc + ('w',))
        if isinstance(v, VSeq) and isinstance(b, VSeq): return s.m_seq(v, b, loc, t)
        return False
    def m_seq(s, v, b, loc, t):
        eng = s.eng
        if t is None:
            # only linear parts differ
            if len(v.segs) == len(b.segs) and all(x[0] == y[0] and x[0] in ('one', 'sl', 'rsl', 'rep') for x, y in zip(v.segs, b.segs)):
                p, q = len(s.props), len(s.binds)
                if all([s.m_any(x, y, loc + ('s', j)) for j, (x, y) in enumerate(zip(v.segs, b.segs))]) and not s.hard(s.props, p): return True
                # a single slot overwritten with values of the same kind is fine too
                keep = all(x[0] == 'one' for x in v.segs) and len(s.props) > p and False
                if not keep: del s.props[p:]; del s.binds[q:]
            p = s.seq_prefix(v.segs, b.segs)
            if p is not None:
                try: c = (eng.seq_len(b) - eng.seq_len(v)).const()
                except Taint: c = None
                s.propose(loc, ('app', c)); return True
            r = s.inplace(v, b)
            if r: s.propose(loc, ('inpl',) + r); return True
            s.propose(loc, ('hav',)); return True
        if t[0] == 'hav':
            a = s.lv(loc, s.I + 1); s.binds.append((a, b)); return True
        if t[0] == 'app':
            n = len(v.segs); want = s.build(v, loc, s.I).segs
            if b.segs[:n + 1] == want:
                chunk = b.segs[n + 1:]
                return s.chunk(loc, t, chunk, v.ety)
            s.propose(loc, ('hav',)); return True
        if t[0] == 'inpl':
            j, d = t[1], t[2]; g = v.segs[j]
            tail = norm_segs((('sl', g[1], g[2] + (s.I + 1).scale(d), g[3]),), v.ety) + v.segs[j+1:]
            pre = v.segs[:j] + (('ph', s.phatom(loc, s.I)),)
            if b.segs[:j + 1] == pre and len(b.segs) >= j + 1 + len(tail) and b.segs[len(b.segs) - len(tail):] == tail:
                return s.chunk(loc, ('inpl', d), b.segs[j + 1: len(b.segs) - len(tail)], v.ety)
            # the last element: nothing is left of the old content
            st = s.back
            rest = L(g[3]) - (g[2] + (s.I + 1).scale(d))
            if not v.segs[j+1:] and b.segs[:j + 1] == pre and st.con.entails(eq(rest, ZERO)):
                return s.chunk(loc, ('inpl', d), b.segs[j + 1:], v.ety)
            s.propose(loc, ('hav',)); return True
        if b == v and False: return True
        # templates below this location
        return False
    def chunk(s, loc, t, chunk, ety):
        c = ZERO
        for g in chunk: c = c + s.eng.seg_len(g)
        if t[0] == 'app' and t[1] is not None and c.const() != t[1]: s.propose(loc, ('app', None)); return True
        if t[0] == 'inpl' and c.const() != t[1]: s.propose(loc, ('hav',)); return True
        s.chunks[loc] = chunk
        return True
    def seq_prefix(s, a, b):
        if b[:len(a)] == a: return True
        if a and len(b) >= len(a) and b[:len(a) - 1] == a[:-1]:
            x, y = a[-1], b[len(a) - 1]
            if x[0] == y[0] == 'sl' and x[1] is y[1] and x[2] == y[2]: return True
            if x[0] == 'one' and y[0] == 'sl':
                e = values.as_elem(x[1], s.ety_guess(x))
                if e and e[0] is y[1] and e[1] == y[2]: return True
            if x[0] == 'one' and y[0] == 'rep' and x[1] == y[1]: return True
            if x[0] == y[0] == 'rep' and x[1] == y[1]: return True
            if x[0] == y[0] == 'comp' and x[1] is y[1] and x[2] == y[2] and x[4] == y[4]: return True
        return None
    def ety_guess(s, x):
        v = x[1]
        return getattr(v, "ty", ("any",))
    def inplace(s, v, b):
        """v = pre ++ base[lo..hi] ++ post, b = pre ++ x ++ base[lo+1..hi] ++ post (first element replaced)"""
        for j, g in enumerate(v.segs):
            if g[0] != 'sl': continue
            if b.segs[:j] != v.segs[:j]: break
            post = v.segs[j+1:]
            if post and b.segs[-len(post):] != post: continue
            mid = b.segs[j:len(b.segs) - len(post)]
            if len(mid) == 2 and mid[0][0] == 'one' and mid[1][0] == 'sl' and mid[1][1] is g[1] and mid[1][2] == g[2] + 1 and mid[1][3] == g[3]: return (j, 1)
            if len(mid) == 1 and mid[0][0] == 'one': return (j, 1)
            if len(mid) == 1 and mid[0][0] == 'sl' and mid[0][1] is g[1] and mid[0][3] == g[3] and (mid[0][2] - g[2]).const() == 1: return (j, 1)
        return None
    # ---- invariants
    def terms(s, st):
        r = {}
        def add(l):
            if len(l.t) <= 4: r[l] = 1
        seen = set()
        def walk(v, depth=0):
            if isinstance(v, VInt):
                add(v.l); return
            if isinstance(v, VSeq):
                if v in seen: return
                seen.add(v)
                try: add(s.eng.seq_len(v))
                except Taint: pass
                for g in v.segs:
                    if g[0] == 'one' and depth < 3: walk(g[1], depth + 1)
                    if g[0] in ('sl', 'rsl'): add(g[2]); add(g[3])
                return
            if isinstance(v, (VAdt, VBox, VClo)):
                if v in seen: return
                seen.add(v)
                for x in v.parts():
                    if isinstance(x, V): walk(x, depth)
            if isinstance(v, VMap): walk(v.writes, depth)
            if isinstance(v, VRef):
                for e in v.path:
                    if e != 'bx' and e[0] in ('i', 's'):
                        for l in e[1:]: add(l)
                if v.cell[0] == 'cst': walk(v.cell[1], depth)
        d = s.fr.d
        for c, v in st.cells.items():
            if c[0] == 'l' and c[1] < d - 3: continue
            if c[0] == 'str': continue
            walk(v)
        return list(r)
    def varying(s, l):
        return any(s.vary_atom(a) for a, _ in l.t)
    def vary_atom(s, a):
        if a is s.i: return True
        r = s.vcache.get(a)
        if r is None:
            r = mentions(a, s.i); s.vcache[a] = r
        return r
    def candidates(s, G):
        ts = s.terms(G)
        if ZERO not in ts: ts.append(ZERO)
        s.vcache = {}
        var = [t for t in ts if s.varying(t)]
        if len(ts) > 40: ts = ts[:40]
        m0 = {s.i: ZERO}
        zero = {}
        def at0(l):
            r = zero.get(l)
            if r is None:
                r = subst(l, m0, {})
                r = subst(r, s.lv0, {}); zero[l] = r
            return r
        out = []
        for x in var:
            for y in ts:
                if x is y: continue
                for c in (le(x, y), le(y, x), lt(x, y), lt(y, x)):
                    if isinstance(c, bool) or c in s.dropped or c in out: continue
                    c0 = s.cond0(c)
                    if s.entry.con.entails(c0): out.append(c)
        for c in s.guards:
            if c not in s.dropped and c not in out: out.append(c)
        return out
    def cond0(s, c):
        return subst(subst(c, {s.i: ZERO}, {}), s.lv0, {})
    # ---- main
    def head_state(s):
        G = s.entry.copy()
        s.lv0 = {}
        for c in set(k[0] for k in s.tmpl):
            v0 = s.eng.cell(s.entry, c)
            G.cells[c] = s.build(v0, (c,), s.I)
        s.collect_lv0()
        return G
    def collect_lv0(s):
        """values of the loop-value atoms at iteration 0"""
        s.zero_binds = []
        old = s.tmpl, s.prefixes
        for loc, t in s.tmpl.items():
            v0 = s.value_at(loc)
            if v0 is None: continue
            if t[0] == 'lv':
                a = s.lv(loc, ZERO, t[1] if isinstance(t[1], bool) else False)
                s.zero_binds.append((a, v0))
                if isinstance(v0, Lin): s.lv0[a] = v0
            elif t[0] == 'hav':
                a = s.lv(loc, ZERO); s.zero_binds.append((a, v0))
                try: s.lv0[atom('len', a, nonneg=True)] = s.eng.seq_len(v0)
                except Taint: pass
            elif t[0] == 'app':
                s.lv0[atom('phlen', s.phatom(loc, ZERO), nonneg=True)] = ZERO
    def value_at(s, loc):
        v = s.eng.cell(s.entry, loc[0])
        for e in loc[1:]:
            if isinstance(v, VInt): v = v.l if e == 'l' else None
            elif isinstance(v, VAdt): v = v.f[e]
            elif isinstance(v, VClo): v = v.up[e]
            elif isinstance(v, VBox): v = v.v
            elif isinstance(v, VSym): v = v.t
            elif isinstance(v, VSeq): v = v.segs
            elif isinstance(v, VMap): v = v.writes if e == 'w' else v.base
            elif isinstance(v, VRef): v = v.cell if e == 'c' else v.path
            elif isinstance(v, Lin): v = v.single()
            elif isinstance(v, Atom): v = v.k[e]
            elif isinstance(v, tuple):
                if e == 's': continue
                v = v[e]
            else: return None
        return v
    def run(s, depth):
        eng = s.eng
        eng.ctx.append(s.i)
        try: return s.run2(depth)
        finally: eng.ctx.pop()
    def run2(s, depth):
        eng = s.eng
        s.forced = eng.forced_lv
        s.guards = []
        tn, on = len(eng.taints), len(eng.obls)
        for rnd in range(60):
            del eng.taints[tn:]; del eng.obls[on:]
            eng.stats["loop_passes"] += 1
            for loc, t in s.tmpl.items():
                if t[0] == 'app': eng.phlen[(s.lid, loc)] = t[1]
                if t[0] == 'inpl': eng.phlen[(s.lid, loc)] = t[2]
            G = s.head_state()
            cands = s.candidates(G) if s.tmpl else []
            used = []
            for c in cands:
                if G.con.entails(c): continue
                r = G.con.assume(c)
                if len(r) == 1: G.con = r[0]; used.append(c)
            norder = frozenset(G.con.order)
            exits, back, outs = eng.region(s.fr, [s.head] + s.sub, [(s.head, G)], s.nodes, s.head)
            s.changed = False
            main = []; phase = []
            allprops = {}
            for B in back:
                s.props = []; s.binds = []; s.chunks = {}; s.back = B
                Bg = gc(eng, s.fr, B, s.head)
                ok = True
                cells = dict.fromkeys(s.entry.cells)
                for c in Bg.cells:
                    if c[0] in ('mem', 'g') : cells.setdefault(c)
                for c in cells:
                    if c[0] == 'str': continue
                    if c not in Bg.cells and c not in B.cells: continue
                    bv = Bg.cells.get(c, B.cells.get(c))
                    if c not in Bg.cells and c[0] == 'l': continue
                    v0 = eng.cell(s.entry, c)
                    if (c,) not in s.prefixes and v0 == bv: continue
                    if not s.match(v0, bv, (c,)): ok = False; s.why = (c, v0, bv); break
                if ok: main.append((B, s.binds, s.chunks, s.props))
                else: phase.append(B)
            if s.split and len(main) > 1:
                # paths that change a location irregularly although the others keep it regular start a new phase
                irr = {}; lin = {}
                for n, m in enumerate(main):
                    for loc, t in m[3]:
                        if t[0] in ('lv', 'hav'): irr.setdefault(loc, set()).add(n)
                        elif t[0] == 'lin' and loc not in s.tmpl: lin.setdefault(loc, set()).add(n)
                move = set()
                for loc, ns in irr.items():
                    if len(ns) < len(main): move |= ns
                for loc, ns in lin.items():
                    ns = ns - move
                    if ns and len(ns) < len(main) - len(move): move |= ns
                if move and len(move) < len(main):
                    phase += [main[n][0] for n in sorted(move)]
                    main = [m for n, m in enumerate(main) if n not in move]
            for _, _, _, props in main:
                for loc, t in props: allprops.setdefault(loc, []).append(t)
            main = [m[:3] for m in main]
            for loc, ts in allprops.items():
                cur = s.tmpl.get(loc)
                t = ts[0]
                if any(x != t for x in ts):
                    for kind in ('undef', 'hav', 'lv'):
                        w = [x for x in ts if x[0] == kind]
                        if w: t = w[0]; break
                    else:
                        if t[0] == 'lin' or t[0] == 'nest': t = ('lv', s.nonneg_at(loc))
                        elif t[0] == 'app' and all(x[0] == 'app' for x in ts): t = ('app', None)
                        elif all(x[0] in ('app', 'inpl') for x in ts): t = ('hav',)
                # a change on one path only: the others kept the value
                n_same = len(main) - len(ts)
                if n_same > 0 and cur is None:
                    if t[0] in ('lin', 'nest'): t = ('lv', s.nonneg_at(loc))
                    elif t[0] == 'app': t = ('app', None)
                    elif t[0] == 'inpl': t = t
                s.drop_below(loc)
                s.setl(loc, t)
            if s.changed:
                if eng.trace: eng.trace("loop %s bb%d: templates %s" % (s.fr.body.path, s.head, {show_loc(k): v for k, v in s.tmpl.items()}))
                continue
            # candidate invariants
            bad = []
            for B, binds, chunks in main:
                m = {}
                for a, v in binds:
                    if isinstance(v, Lin): m[a] = v
                    elif isinstance(v, VSeq):
                        try: m[atom('len', a, nonneg=True)] = eng.seq_len(v)
                        except Taint: pass
                for loc, t in s.tmpl.items():
                    if t[0] == 'app' and t[1] is None:
                        c = ZERO
                        for g in chunks.get(loc, ()): c = c + eng.seg_len(g)
                        m[atom('phlen', s.phatom(loc, s.I + 1), nonneg=True)] = L(atom('phlen', s.phatom(loc, s.I), nonneg=True)) + c
                for c in used:
                    if c in bad: continue
                    c1 = subst(subst(c, {s.i: s.I + 1}, {}), m, {})
                    if not B.con.entails(c1): bad.append(c)
            if bad:
                s.dropped.update(bad); continue
            # guards of all the paths, shifted by one iteration
            new = s.find_guards(main, norder)
            if new:
                s.guards += new; continue
            if phase and depth >= eng.max_phase:
                if s.split: raise PhaseLimit()
                del eng.taints[tn:]; del eng.obls[on:]
                eng.taint("loop state changes kind: %s" % (s.why[0],), (s.fr.body.key, s.fr.body.span))
                if eng.trace: eng.trace("phase limit %s: %r vs %r" % s.why)
                phase = []
            s.norder = norder
            break
        else:
            del eng.taints[tn:]
            eng.taint("loop does not stabilise", (s.fr.body.key, s.fr.body.span))
            return [], [], []
        eng.stats["loops"] += 1
        if eng.trace: eng.trace("loop %s bb%d: %d paths, %d exits, %d phases, templates %s inv %s" % (s.fr.body.path, s.head, len(main), len(exits), len(phase), {show_loc(k): v for k, v in s.tmpl.items()}, [show(c) for c in used]))
        fin = Final(s, main)
        rex = []
        for b, st in exits:
            huge = st.con.entails(ge(L(s.i), L(1 << 40)))
            for x in fin.apply(st):
                # a path that must go round this loop an absurd number of times
                if huge: x.notes = x.notes + (('huge', s.fr.body.path, s.head),)
                rex.append((b, x))
        rou = []
        for o in outs:
            for x in fin.apply(o.st): rou.append(Out(o.kind, x, o.val, o.span, o.msg))
        rph = []
        for st in phase:
            for x in fin.apply(st): rph.append(x)
        return rex, rou, rph
    def nonneg_at(s, loc):
        v = s.value_at(loc[:-1])
        return isinstance(v, VInt) and (v.ty[0] == "char" or v.ty[0] == "int" and v.ty[1] in UNSIGNED)
    def drop_below(s, loc):
        for k in [k for k in s.tmpl if len(k) > len(loc) and k[:len(loc)] == loc]: del s.tmpl[k]
        s.prefixes = set()
        for k in s.tmpl:
            for n in range(len(k) + 1): s.prefixes.add(k[:n])
    def find_guards(s, main, norder):
        if not main: return []
        common = None
        s.vcache = {}
        for B, _, _ in main:
            cs = set(c for c in B.con.order if c not in norder and c[0] == 'le')
            common = cs if common is None else common & cs
        out = []
        for c in main[0][0].con.order:
            if c not in common: continue
            if any(a.k[0] == 'lv' or (a is not s.i and s.vary_atom(a)) for a, _ in c[1].t): continue
            if not any(a is s.i for a, _ in c[1].t): continue
            d = subst(c, {s.i: s.I - 1}, {})
            if isinstance(d, bool) or d in s.guards or d in s.dropped: continue
            c0 = s.cond0(d)
            if s.entry.con.entails(c0): out.append(d)
        return out

def show_loc(l):
    return ".".join(str(x) for x in l)

class Final:
    """replaces per-iteration descriptions by quantified ones in the states that leave the loop"""
    def __init__(s, acc, main):
        s.a = acc; s.main = main; s.eng = acc.eng
        a = acc
        s.k = s.eng.fresh("k", nonneg=True)
        s.K = L(s.k)
        s.conds = [tuple(c for c in B.con.order if c not in a.norder) for B, _, _ in main]
        common = None
        for cs in s.conds: common = set(cs) if common is None else common & set(cs)
        s.common = common or set()
        s.memo = {}; s.busy = set()
        s.m = {('ph', a.lid): s.comp}
        s.hasph = any(t[0] in ('app', 'inpl') for t in a.tmpl.values())
        s.lvs = [loc for loc, t in a.tmpl.items() if t[0] in ('lv', 'hav')]
    def tok(s, x, k=None):
        """the same thing at iteration k"""
        return x
    def comp(s, loc, E):
        if loc in s.busy: raise Taint("sequence built from itself")
        r = s.memo.get(loc)
        if r is None:
            s.busy.add(loc)
            try:
                cases = []
                m = {s.a.i: s.K}; m.update(s.m)
                chs = [tuple(subst_seg(g, m, {}) for g in ch.get(loc, ())) for _, _, ch in s.main]
                if len(set(chs)) == 1: cases = [((), chs[0])]
                else:
                    for cs, g in zip(s.conds, chs):
                        cc = tuple(subst(c, m, {}) for c in cs if c not in s.common)
                        cc = tuple(c for c in cc if c is not True)
                        cases.append((cc, g))
                    cases = merge_cases(cases)
            finally: s.busy.discard(loc)
            r = tuple(cases); s.memo[loc] = r
        if not any(g for _, g in r): return ('multi', ())
        if len(r) == 1 and len(r[0][1]) > 1: pass
        return ('comp', s.k, ZERO, L(E), r)
    def apply(s, st):
        try: return [s.elim(x) for x in s.apply1(st)] if getattr(s.eng, 'elim_counts', False) else s.apply1(st)
        except Taint as t:
            s.eng.taint(str(t), (s.a.fr.body.key, s.a.fr.body.span)); return []
    def elim(s, st):
        """writes what the number of iterations is equal to, where that is known, in its place"""
        I = s.a.I.single() if isinstance(s.a.I, Lin) else s.a.I
        for c in list(st.con.conds()):
            if c[0] != 'le': continue
            k = dict(c[1].t).get(I)
            if k not in (1, -1): continue
            e = (c[1] - L(I).scale(k)).scale(-k)
            if any(mentions(x, I) for x, _ in e.t): continue
            if st.con.entails(eq(L(I), e)):
                r = st.subst({I: e})
                return st if r is None else r
        return st
    def apply1(s, st):
        a = s.a
        if s.hasph: st = st.subst(s.m)
        else: st = st.copy()
        if st is None: return []
        # lv(0) = v0
        zb = []
        for at, v in a.zero_binds:
            if isinstance(v, Lin):
                r = st.con.assume(eq(L(at), v))
                if not r: return []
                st.con = r[0]
            else: zb.append((at, v if isinstance(v, V) else v))
        m = {a.i: s.K}; m.update(s.m)
        cases = []
        for (B, binds, ch), cs in zip(s.main, s.conds):
            cc = tuple(c for c in (subst(c, m, {}) for c in cs) if c is not True)
            bb = tuple((subst_key(at, m, {}), v.subst(m, {}) if isinstance(v, V) else VInt(subst(v, m, {}), USIZE)) for at, v in binds)
            cases.append((cc, bb))
        facts = list(st.facts)
        if s.main and (s.lvs or any(c for c, _ in cases)):
            facts.append(QFact(s.k, ZERO, a.I, tuple(cases), a.lid))
        if not s.main:
            # no iteration ever completes
            r = st.con.assume(eq(a.I, ZERO))
            if not r: return []
            st.con = r[0]
        for at, v in zb:
            if isinstance(v, V): facts.append(QFact(s.k, L(-1), ZERO, (((), ((at, v),)),), a.lid))
        st.facts = tuple(facts)
        # exact consequences of linear conditions common to all iterations
        outs = [st]
        for c in s.conds[0] if s.conds else ():
            if c not in s.common: continue
            nx = []
            for x in outs: nx += s.common_cond(x, c)
            outs = nx
        return outs
    def common_cond(s, st, c):
        a = s.a
        if c[0] not in ('le', 'ne'): return [st]
        l = c[1]; d = dict(l.t); k = d.get(a.i)
        if any(x is not a.i and mentions(x, a.i) for x in d): return [st]
        if k is None: return [st]
        if c[0] == 'le':
            end = subst(c, {a.i: a.I - 1} if k > 0 else {a.i: ZERO}, {})
            if st.con.entails(end): return [st]
            if k < 0:
                base = subst(c, {a.i: ZERO}, {})
                if st.con.entails(base): return [st]
            r = []
            for con in st.con.assume(eq(a.I, ZERO)): x = st.copy(); x.con = con; r.append(x)
            for con in st.con.assume(ge(a.I, ONE)):
                for c2 in con.assume(end): x = st.copy(); x.con = c2; r.append(x)
            return r
        if c[0] == 'ne' and abs(k) == 1:
            rest = l - L(a.i).scale(k)
            piv = rest.scale(-k)
            r = []
            for cond in (lt(piv, ZERO), ge(piv, a.I)):
                for con in st.con.assume(cond): x = st.copy(); x.con = con; r.append(x)
            return r
        return [st]

def merge_cases(cases):
    """join cases with the same content whose conditions differ in one complementary literal"""
    cases = list(cases)
    ch = True
    while ch:
        ch = False
        for i in range(len(cases)):
            for j in range(i + 1, len(cases)):
                if cases[i][1] == cases[j][1]:
                    a, b = set(cases[i][0]), set(cases[j][0])
                    da, db = a - b, b - a
                    if not da and not db or not da or not db:
                        n = (tuple(c for c in cases[i][0] if c in a & b), cases[i][1])
                    elif len(da) == 1 and len(db) == 1 and neg(next(iter(da))) == next(iter(db)):
                        n = (tuple(c for c in cases[i][0] if c in a & b), cases[i][1])
                    else: continue
                    cases[i] = n; del cases[j]; ch = True; break
            if ch: break
    return cases

def loop(eng, fr, comp, entry):
    for h in eng.loop_hooks:
        r = h(eng, fr, comp, entry)
        if r is not None: return r
    if eng.split:
        tn, on, fc = len(eng.taints), len(eng.obls), len(eng.ctx)
        try: return loop1(eng, fr, comp, entry, 0, True)
        except PhaseLimit:
            del eng.taints[tn:]; del eng.obls[on:]; del eng.ctx[fc:]
    return loop1(eng, fr, comp, entry, 0, False)

def outs_fail(outs): return any(o.kind == 'panic' for o in outs)
def loop1(eng, fr, comp, entry, depth, split):
    head, nodes, sub = comp[1], comp[2], comp[3]
    entry = gc(eng, fr, entry, head)
    # does it end by itself?
    forever = []
    if depth == 0 and eng.unroll:
        tn, on = len(eng.taints), len(eng.obls)
        cur = [entry]; exits = []; outs = []; past = {}; watch = eng.small and eng.unroll > 3
        for rnd in range(eng.unroll):
            nxt = []; before = {}
            for st in cur:
                ex, back, ou = eng.region(fr, [head] + sub, [(head, st)], nodes, head)
                exits += ex; outs += ou
                if not watch: nxt += [gc(eng, fr, b, head) for b in back]; continue
                mine = past.get(id(st), frozenset()) | {(frozenset(st.cells.items()), st.con.key(), st.facts)}
                for b in back:
                    b = gc(eng, fr, b, head)
                    # nothing has changed and nothing new was assumed since an earlier round: the loop never ends
                    if (frozenset(b.cells.items()), b.con.key(), b.facts) in mine: forever.append(Out('panic', b, None, (fr.body.key, fr.body.span), "a loop goes round for ever"))
                    else: nxt.append(b); before[id(b)] = mine
            past = before
            cur = dedupe(nxt)
            if not cur: return exits, outs + forever
            if len(cur) > eng.fan: break
            if rnd == 0 and exits and eng.fast: break
        else:
            if eng.must_end and not outs_fail(outs + forever):
                eng.obls.append(("after %d rounds a loop has not come to its end" % eng.unroll, (fr.body.key, fr.body.span))); return exits, outs
        del eng.taints[tn:]; del eng.obls[on:]
    acc = Acc(eng, fr, comp, entry); acc.split = split
    ex, outs, phases = acc.run(depth)
    outs = outs + forever
    for p in phases:
        e2, o2 = loop1(eng, fr, comp, p, depth + 1, split)
        ex = ex + e2; outs = outs + o2
    return ex, outs
