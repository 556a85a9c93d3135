"""Loop invariants given by a specification: one arbitrary round of a loop instead of a summary.

The specification describes an arbitrary head state (from the entry state of the loop); the body is analysed once from it, every
back state is handed to the specification to be checked, and the analysis goes on behind the loop from the arbitrary head state.
Integers the body changes and the specification does not know about are left arbitrary (havoc)."""
from .lin import *
from .values import *
from .interp import *
from . import loops

class Induct:
    def __init__(s, eng, key, head, back, measure=None, lists=False):
        """measure: a number known to be one more after every round that the specification follows (or None)"""
        s.eng = eng; s.key = key; s.head = head; s.back = back; s.done = False; s.lists = lists; s.counters = []; s.rounds = 0; s.measure = measure; s.block = None
        eng.loop_hooks.append(s.hook)
    def hook(s, eng, fr, comp, entry):
        if fr.body.key != s.key or s.done and (comp[1], fr.d) != s.block: return None
        entry = loops.gc(eng, fr, entry, comp[1])
        G = s.head(eng, fr, entry)
        if G is None: return None
        G, mine = G; s.done = True; s.block = (comp[1], fr.d)
        locs = {}; steps = {}
        for rnd in range(8):
            H = G.copy()
            for (c, p), d in steps.items():
                v = leaf(G.cells[c], p); l = v.l + s.measure.scale(d); H.cells[c] = put(H.cells[c], p, VInt(l, v.ty))
                if d < 0 and v.ty[0] == "int" and v.ty[1][0] == "u":     # an unsigned number stays one
                    r = H.con.assume(ge(l, ZERO))
                    if len(r) == 1: H.con = r[0]
            for (c, p), a in locs.items():
                v = leaf(G.cells[c], p); H.cells[c] = put(H.cells[c], p, VInt(L(a), v.ty) if isinstance(v, VInt) else VBool(('b', a, True)) if isinstance(v, VBool) else VSeq((('sl', a, ZERO, L(atom('len', a, nonneg=True))),), v.ety))
            tn, on = len(eng.taints), len(eng.obls)
            ex, back, outs = eng.region(fr, [comp[1]] + comp[3], [(comp[1], H)], comp[2], comp[1])
            new = False
            for b in back:
                b = loops.gc(eng, fr, b, comp[1])
                for c, w in b.cells.items():                             # memory not looked at before the loop
                    if c[0] == 'mem' and c not in G.cells and eng.cell(H, c) != w: G.cells[c] = eng.cell(H, c); new = True
                if new: continue
                for c, v in H.cells.items():
                    if c in mine or c not in b.cells or isinstance(v, VUndef) or isinstance(b.cells[c], VUndef): continue
                    for p, x, y in leaves(v, b.cells[c], ()):
                        at = (c, p)
                        if at in steps:
                            if isinstance(y, VInt) and y.l == x.l + steps[at]: continue
                            del steps[at]; locs[at] = eng.fresh("counter", nonneg=x.ty[0] == "int" and x.ty[1][0] == "u"); new = True; continue
                        if x == y or at in locs: continue
                        if isinstance(x, VInt) and s.measure is not None and isinstance(y, VInt) and y.l in (x.l + 1, x.l - 1): steps[at] = 1 if y.l == x.l + 1 else -1; new = True
                        elif isinstance(x, VInt) and isinstance(y, VInt): locs[at] = eng.fresh("counter", nonneg=x.ty[0] == "int" and x.ty[1][0] == "u"); new = True
                        elif isinstance(x, VBool): locs[at] = eng.fresh("flag"); new = True
                        elif s.lists and isinstance(x, VSeq) and isinstance(y, VSeq): locs[at] = eng.fresh("list"); new = True
                        else: raise Taint("the loop changes something else (%r)" % (x,))
            if not new: break
            del eng.taints[tn:]; del eng.obls[on:]
        else: raise Taint("the loop changes something else")
        s.locs = dict(locs)
        s.counters = list(locs.values()); s.rounds += len(back)
        for b in back: s.back(eng, b)
        return ex, outs

def leaves(v, w, p):
    """the parts of two values that are compared: fields of structs one by one"""
    if isinstance(v, VAdt) and isinstance(w, VAdt) and (v.k, v.v, len(v.f)) == (w.k, w.v, len(w.f)) and v != w:
        for i, (a, b) in enumerate(zip(v.f, w.f)): yield from leaves(a, b, p + (i,))
    else: yield p, v, w
def leaf(v, p):
    for i in p: v = v.f[i]
    return v
def put(v, p, x):
    if not p: return x
    f = list(v.f); f[p[0]] = put(f[p[0]], p[1:], x); return VAdt(v.k, v.v, tuple(f))
