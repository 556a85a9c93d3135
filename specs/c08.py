"""C08: patterns compile to fragments that match exactly what they describe."""
from engine.spec import *
from engine.induct import Induct
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR into the automaton it builds, decided by exact language comparison, with loop invariants for any count (static analysis)"
RULE = ("Pattern::compile is interpreted with the state machine and the recursive calls left open: every call on the machine is recorded, states are start, count_states at a moment and the end of a sub-pattern's fragment, and the calls of a path are read as an automaton whose letters are symbol ranges and whole sub-patterns "
        "(sound because of the isolation that is itself part of the property). Its language from the start to the returned state must equal, by comparing determinised automata, the language the pattern describes; nothing may enter the start state or leave the returned one; a state number taken from count_states must be created before anything else is compiled. "
        "Exactly for sizes up to 5 and some larger; for any number of symbols, sub-patterns or copies by induction over the rounds of the loop (what has been read on the way to the current state and to the target is a letter of its own). to_ndfa of a pattern must compile it at 0, give the output to where it ends and remove the overlaps after that.")
NOTE = "Nested patterns by induction over their structure: sub-patterns are assumed to compile to fragments with the property. What create_state, add_transition, join_states and count_states do is C06's. MatchRange with first > last is rejected with a panic by SymbolRange::new and is left out."
SM = CRATE + "state_machine::StateMachine"; MSM = CRATE + "state_machine::MutableStateMachine"
EV = ("adt", "vp::Event", ()); GT, GE = ('g', 'time'), ('g', 'machine events')
COMPILE, JOIN, OUTPUT, CREATE, MOVE, FIX, ROUNDS = range(7)
U = ("int", "u32")

class Pat:
    def __init__(s, S):
        s.S = S; s.PT = S.adt("regular_pattern::Pattern"); s.N = S.adt("ndfa::Ndfa"); s.SR = S.adt("symbol_range::SymbolRange")
        s.comp = S.inherent(s.PT, "compile"); s.fix = S.inherent(s.N, "fix_overlapping_ranges")
        s.lo, s.hi = S.field(s.SR, "lowest"), S.field(s.SR, "highest")
        s.v = {x: S.variant(s.PT, x) for x in ("Epsilon", "Match", "MatchRange", "RepeatInfinite", "Repeat", "MatchAll", "MatchAny")}
    def deep(s, eng, st, v):
        while isinstance(v, (VRef, VBox)): v = eng.read(st, v.cell, v.path) if isinstance(v, VRef) else v.v
        return v
    def ev(s, st, kind, *x):
        q = st.cells[GE]; t = st.cells[GT].l
        st.cells[GE] = prims.mkseq(q.segs + (('one', VAdt("vp::Event", 0, (VInt(L(kind), U), VInt(t, USIZE)) + x)),), EV)
        st.cells[GT] = VInt(t + 1, USIZE); return t
    def machine(s, t):
        while t[0] == "ref": t = t[1]
        return t[0] == "adt" and t[1] == s.N or t[0] == "dyn"
    def named(s, st):
        """states named in the calls so far"""
        for g in st.cells[GE].segs:
            if g[0] != 'one': continue
            f = g[1].f; k = f[0].l.const()
            if k == COMPILE: yield f[3].l; yield L(atom('end', f[1].l, nonneg=True))
            elif k in (JOIN, MOVE): yield f[2].l; yield f[-1].l
            elif k in (OUTPUT, CREATE): yield f[2].l
    def hook(s, eng, st, C):
        if C.key == s.comp:
            x = s.deep(eng, st, C.args[0])
            if any(same(eng, st, x, y) for y in s.empty): return [eng.out(st, C.args[2])]        # a sub-pattern like Epsilon: no fragment at all
            t = s.ev(st, COMPILE, x, C.args[2]); a = L(atom('end', t, nonneg=True))
            return [eng.out(st, VInt(a, U))]
        if C.key == s.fix: s.ev(st, FIX); return [eng.out(st, UNIT)]
        if C.trait in (SM, MSM) and s.machine(C.targs[0]):
            if C.method == "count_states":
                r = L(atom('states', st.cells[GT].l, nonneg=True))
                return [eng.out(x, VInt(r, U)) for x in st.assume(ge(r, ONE), *[gt(r, x) for x in list(s.named(st)) + list(s.known)])]
            k = {"join_states": JOIN, "set_output_symbol": OUTPUT, "create_state": CREATE, "add_transition": MOVE}.get(C.method)
            if k is None: raise Taint("%s of the machine being built" % C.method)
            s.ev(st, k, *[s.deep(eng, st, x) for x in C.args[1:]]); return [eng.out(st, UNIT)]
    def engine(s, known=()):
        e = s.S.engine(); e.small = 16; e.unroll = 60; e.fan = 4000; e.hooks.append(s.hook); s.known = list(known); s.empty = []; return e
    def state(s):
        st = State(); st.cells[GT] = VInt(ZERO, USIZE); st.cells[GE] = VSeq((), EV); return st

class Graph:
    """the automaton the calls on the machine describe: states up to what the path knows to be equal"""
    def __init__(s, P, e, st, E, start, letters, alias=()):
        s.P = P; s.e = e; s.st = st; s.nodes = []; s.edges = []; s.letters = letters; s.extra = []; s.alias = dict(alias)
        s.start = s.node(start); s.bad = None; first = {}; s.created = set()
        for x in s.alias: s.node(L(x))
        def at(t):      # the first call made at that time or later
            for j, f in enumerate(E):
                d = (f[1].l - t).const()
                if d is not None and d >= 0: return j
            return len(E)
        s.at = at
        for i, f in enumerate(E):
            k = f[0].l.const()
            if k is None: raise Taint("a call on the machine")
            if k == ROUNDS: continue
            if k == COMPILE:
                u = s.node(f[3].l); v = s.node(L(atom('end', f[1].l, nonneg=True)))
                if u == v: raise Taint("a pattern that ends where it starts")
                s.edges.append((u, s.letter(f[2]), v))
            elif k == JOIN: s.edges.append((s.node(f[2].l), None, s.node(f[3].l)))
            elif k == MOVE: s.edges.append((s.node(f[2].l), s.letter(f[3]), s.node(f[4].l)))
            elif k == CREATE: s.created.add(s.node(f[2].l))
            elif k == OUTPUT: raise Taint("an output is set")
            else: raise Taint("another call")
            for l in ([f[3].l] if k == COMPILE else [f[2].l, f[4].l] if k == MOVE else [f[2].l, f[3].l] if k == JOIN else [f[2].l]):
                n = s.node(l); first.setdefault(n, (i, k))
        for n, (i, k) in first.items():
            a = s.nodes[n].single()
            if a is None or a.k[0] != 'states': continue
            t = at(a.k[1])
            if any(E[j][0].l.const() in (COMPILE, ROUNDS) for j in range(t, i + 1)): s.bad = "a state is taken from count_states but not created before a sub-pattern is compiled, so a state of the sub-pattern has the same number"; return
            for m in first:
                b = s.nodes[m].single()
                if m != n and b is not None and b.k[0] == 'states' and t < at(b.k[1]) <= i: raise Taint("two states that are perhaps the same")
    def node(s, l):
        for i, x in enumerate(s.nodes):
            if x == l or entails(s.st, eq(x, l)): return i
        a = l.single()
        if a is not None and a in s.alias:
            if s.alias[a] is not None: return s.node(s.alias[a])
        elif s.nodes and not (a is not None and a.k[0] in ('states', 'end')):
            if all(x is s.nodes[0].single() for x, _ in l.t): raise Foreign("state %s is neither the start state nor a new one" % show(l))
            if len(l.t) == 1 and l.c < 0:
                x, k = list(l.t)[0]
                if k == 1 and x.k[0] == 'end': raise Foreign("state %s is neither the start state nor a new one nor where a sub-pattern ends" % show(l))
                if k == 1 and x.k[0] == 'states' and s.at(x.k[1]) == 0: raise Foreign("state %s is a state the machine had before, and need not be the start state" % show(l))
            raise Taint("state %s" % show(l))
        s.nodes.append(l); return len(s.nodes) - 1
    def letter(s, v):
        for i, x in enumerate(s.letters):
            if type(x) is type(v) and same(s.e, s.st, x, v): return i
            if isinstance(x, VAdt) and x.k == s.P.SR and isinstance(v, VAdt) and v.k == s.P.SR and same(s.e, s.st, x, v): return i
        for i, x in enumerate(s.extra):
            if same(s.e, s.st, x, v): return -1 - i
        s.extra.append(v); return -len(s.extra)
    def isolated(s, end):
        for u, a, v in s.edges:
            if v == s.start and not (u == v and a is None): return "it enters its start state"
            if u == end and not (u == v and a is None): return "it leaves the state it ends in"

def pointee(t):
    while t[0] == "ref": t = next(x for x in t[1:] if isinstance(x, tuple))
    return t

class Foreign(Exception): pass

def closure(edges, X):
    X = set(X); go = True
    while go:
        go = False
        for u, a, v in edges:
            if a is None and u in X and v not in X: X.add(v); go = True
    return frozenset(X)

def differ(e1, s1, f1, e2, s2, f2):
    """a word that one automaton accepts and the other does not, or None"""
    start = (closure(e1, [s1]), closure(e2, [s2])); seen = {start}; todo = [(start, ())]
    letters = {a for _, a, _ in list(e1) + list(e2) if a is not None}
    while todo:
        (X, Y), w = todo.pop(0)
        if (f1 in X) != (f2 in Y): return w, f1 in X
        for a in sorted(letters):
            n = (closure(e1, [v for u, b, v in e1 if b == a and u in X]), closure(e2, [v for u, b, v in e2 if b == a and u in Y]))
            if n not in seen: seen.add(n); todo.append((n, w + (a,)))
    return None

def word(w, names):
    return "nothing" if not w else " ".join(names[a] if a >= 0 else "something else" for a in w)

def check(S):
    P = Pat(S)
    good = small(S, P)
    for kind in ("Match", "MatchAll", "MatchAny", "Repeat", "RepeatInfinite"):
        if kind in good: many(S, P, kind)
        if kind in good and kind != "Match": many(S, P, kind, True)
    ndfa(S, P)

def ndfa(S, P):
    """the machine of a whole pattern: from state 0, with the output where it ends and without overlaps"""
    TON = CRATE + "state_machine::ToNdfa"; name = "to_ndfa of a pattern"
    key = S.timpl(TON, lambda t: t[0] == "adt" and t[1] == P.PT, "to_ndfa")[0]
    e = P.engine([ZERO]); st = P.state(); args = S.sym_args(e, key); me = P.deep(e, st, args[0])
    outs = S.run(e, key, S.params(key), args, st)
    def f(o):
        if panics(o): return "panics: %s" % o.msg
        st = o.st; m = P.deep(e, st, o.val)
        if not (isinstance(m, VAdt) and m.k == P.N): raise Taint("the result is %r" % (m,))
        segs = [g for g in st.cells[GE].segs if not entails(st, le(e.seg_len(g), ZERO))]
        if any(g[0] != 'one' for g in segs): raise Taint("the calls on the machine are %r" % (segs,))
        E = [x[1].f for x in segs]; kind = lambda x: x[0].l.const()
        if any(kind(x) is None for x in E): raise Taint("the calls on the machine")
        moves = [i for i, x in enumerate(E) if kind(x) in (COMPILE, MOVE)]; fixes = [i for i, x in enumerate(E) if kind(x) == FIX]
        if not moves: return "nothing is compiled"
        if not fixes or fixes[-1] < moves[-1]: return "overlaps are not removed at the end"
        sets = [x for x in E if kind(x) == OUTPUT]
        if not sets: return "no state is given the output"
        for x in sets:
            d = explain(e, st, x[3], args[1])
            if d: return "another output is set: %s" % d
        try:
            g = Graph(P, e, st, [x for x in E if kind(x) not in (OUTPUT, FIX)], ZERO, [me]); acc = {g.node(x[2].l) for x in sets}
        except Foreign as x: return str(x)
        if g.bad: return g.bad
        if g.extra: raise Taint("something else is compiled: %r" % (g.extra,))
        top = len(g.nodes)      # accepting: joined to a place of its own
        d = differ(g.edges + [(a, None, top) for a in acc], g.start, top, [(0, 0, 1)], 0, 1)
        if d: return "%s is %s" % (word(d[0], ["the pattern"]), "accepted" if d[1] else "not accepted")
    S.judge(e, name, key, outs, f)

def wanted(kind, n):
    """the automaton of what a pattern describes, over letters 0, 1, ..: edges, start, final"""
    if kind == "Epsilon": return [(0, None, 1)], 0, 1
    if kind in ("Match", "MatchAll"): return [(i, i, i + 1) for i in range(n)], 0, n
    if kind == "MatchRange": return [(0, 0, 1)], 0, 1
    if kind == "MatchAny": return [(0, i, 1) for i in range(n)], 0, 1
    if kind == "RepeatInfinite": return [(i, 0, i + 1) for i in range(n)] + [(n, 0, n)], 0, n
    a, b = n
    return [(i, 0, i + 1) for i in range(b)] + [(i, None, b + 1) for i in range(a, b)], 0, b + 1

def small(S, P):
    big = S.tier != "quick"; m = 12 if big else 5
    cases = [("Epsilon", 0), ("MatchRange", 1)] + [(k, n) for k in ("Match", "MatchAll", "MatchAny") for n in range(m)] + [("RepeatInfinite", n) for n in range(m)]
    cases += [("Repeat", (a, b)) for b in range(m) for a in range(b + 2)] + [("Match", 12), ("MatchAll", 12), ("MatchAny", 12), ("RepeatInfinite", 10), ("Repeat", (3, 9)), ("Repeat", (0, 11))]
    for k, n in list(cases):       # some of the sub-patterns match nothing and end where they start
        subs = 0 if k in ("Epsilon", "Match", "MatchRange") else n if k.startswith("Match") else 1
        if subs: cases += [(k, n, X) for X in range(1, 2 ** subs) if subs <= 3 or X in (1, 2 ** subs - 1, 2 ** (subs - 1))]
    total = {}; bad = set(); start = L(atom('sym', 'start', nonneg=True))
    for kind, n, *eps in cases:
        eps = eps[0] if eps else 0
        e = P.engine([start]); st = P.state(); args = S.sym_args(e, P.comp)
        c = ('l', 0, 'self'); sty = pointee(S.argty(e, P.comp, 0)); sym = sty[2][0]; var = P.v[kind]
        if kind in bad: continue
        if kind not in total: total[kind] = [0, 0]
        names = []
        def pat(i): return e.mk(atom('sym', 'pattern%d' % i), sty)
        def symbol(x): return e.mk(atom('sym', x), sym)
        rng = lambda a, b: VAdt(P.SR, 0, tuple(a if i == P.lo else b for i in range(2)))
        if kind == "Epsilon": fs, letters = (), []
        elif kind == "Match": ss = [symbol("s%d" % i) for i in range(n)]; fs = (VSeq(tuple(('one', x) for x in ss), sym),); letters = [rng(x, x) for x in ss]; names = ["symbol %d" % (i + 1) for i in range(n)]
        elif kind == "MatchRange": a, b = symbol("first"), symbol("last"); fs = (a, b); letters = [rng(a, b)]; names = ["the range"]
        elif kind in ("MatchAll", "MatchAny"): letters = [pat(i) for i in range(n)]; fs = (VSeq(tuple(('one', x) for x in letters), sty),); names = ["sub-pattern %d" % (i + 1) for i in range(n)]
        elif kind == "RepeatInfinite": letters = [pat(0)]; fs = (VInt(L(n), U), VBox(pat(0))); names = ["the sub-pattern"]
        else: letters = [pat(0)]; fs = (VAdt(RANGE, 0, (VInt(L(n[0]), U), VInt(L(n[1]), U))), VBox(pat(0))); names = ["the sub-pattern"]
        eps = [i for i in range(len(letters)) if eps >> i & 1]; P.empty = [letters[i] for i in eps]
        st.cells[c] = VAdt(P.PT, var, fs)
        sts = st.assume(ge(start, ZERO))
        outs = S.run(e, P.comp, S.params(P.comp), [VRef(c), args[1], VInt(start, U)], sts[0]); total[kind][0] += 1; total[kind][1] += len(outs)
        who = "%s%s: " % (kind, "" if kind in ("Epsilon", "MatchRange") else " of %s" % n if kind.startswith("Match") else " %s or more" % n if kind == "RepeatInfinite" else " %s..%s" % n)
        if eps: who = "%s(%s like Epsilon) " % (who, ", ".join(names[i] for i in eps))
        def f(o):
            if panics(o) and kind == "MatchRange" and entails(o.st, gt(fs[0].l, fs[1].l)): return None     # ranges that hold nothing cannot be made (SymbolRange::new)
            if panics(o): return who + "panics: %s" % o.msg
            st = o.st; segs = [g for g in st.cells[GE].segs if not entails(st, le(e.seg_len(g), ZERO))]
            if any(g[0] != 'one' for g in segs): raise Taint("the calls on the machine are %r" % (segs,))
            try: 
                g = Graph(P, e, st, [x[1].f for x in segs], start, letters); end = g.node(o.val.l)
                if end == len(g.nodes) - 1 and not any(end in (u, v) for u, _, v in g.edges) and end != g.start and not any(x[1].f[0].l == L(CREATE) and g.node(x[1].f[2].l) == end for x in segs): return who + "it ends in a state that does not exist"
            except Foreign as x: return who + str(x)
            if g.bad: return who + g.bad
            ed, s0, f0 = wanted(kind, n); mine = g.edges; ed = [(u, None if a in eps else a, v) for u, a, v in ed]
            if kind == "MatchRange" and entails(st, gt(letters[0].f[P.lo].l, letters[0].f[P.hi].l)): ed = []; mine = [x for x in mine if x[1] != 0]
            d = differ(mine, g.start, end, ed, s0, f0)
            if d: return who + "%s is %s" % (word(d[0], names), "matched" if d[1] else "not matched")
            d = g.isolated(end)
            if d: return who + d
        x = Ctx(S.pid, S.P, S.tier); name = "compile: %s" % kind
        if x.judge(e, name, P.comp, outs, f) is not True:
            for a in x.violations: S.violation(name, a[1], a[2])
            for a in x.inconclusive: S.unknown(name, a[1], a[2])
            total[kind] = None; bad.add(kind)
    for kind, t in total.items():
        if t: S.ok("compile: %s, %d sizes" % (kind, t[0]), S.where(P.comp), "%d paths" % t[1])
    return set(total) - bad

def many(S, P, kind, eps=False):
    """any number of symbols, sub-patterns or copies: one arbitrary round of the loop"""
    name = "compile: %s of any size%s" % (kind, ", sub-patterns like Epsilon" if eps else ""); limit = 8 if S.tier != "quick" else 5
    start = L(atom('sym', 'start', nonneg=True)); A_, B_, X_ = -1001, -1002, -1003      # what is read to get to the current state, to the target state, by exactly `count` copies
    e = P.engine([start]); st = P.state(); args = S.sym_args(e, P.comp); var = P.v[kind]
    c = ('l', 0, 'self'); sty = pointee(S.argty(e, P.comp, 0)); me = e.expand(e.mk(atom('sym', 'self'), sty), var); st.cells[c] = me
    rng = lambda x: VAdt(P.SR, 0, (x, x)); lo = hi = None; q = me.f[0]
    if kind in ("Match", "MatchAll", "MatchAny"): hi = e.seq_len(q); isz = lambda k: le(hi, k)
    elif kind == "Repeat": r = e.as_adt(st, q); lo, hi = r.f[0].l, r.f[1].l; p = P.deep(e, st, me.f[1]); isz = lambda k: le(hi, k)
    else: lo = q.l; hi = lo + 2; p = P.deep(e, st, me.f[1]); isz = lambda k: le(lo, k)
    N = L(e.fresh("rounds", nonneg=True)); T = L(e.fresh("time", nonneg=True)); odd = []; wrong = []
    rd = None if eps else 0       # what a sub-pattern reads
    def empty(st): P.empty = [item(st, N), item(st, hi - 1 - N)] if eps else []
    def head(eng, fr, entry):
        E = entry.cells[GE].segs
        if any(g[0] != 'one' for g in E): raise Taint("the calls on the machine are %r" % (E,))
        if any(g[0] == 'one' and g[1].f[0].l == L(ROUNDS) for g in E): raise Taint("another loop")
        G = entry.copy(); m = entry.cells[GT].l
        G.cells[GE] = VSeq(E + (('one', VAdt("vp::Event", 0, (VInt(L(ROUNDS), U), VInt(m, USIZE)))),), EV); G.cells[GT] = VInt(T, USIZE)
        r = G.assume(gt(T, m), ge(hi, ZERO), le(N, hi))       # no more rounds than parts: every round checks N < hi
        if len(r) != 1: raise Taint("time")
        return r[0], {GE, GT}
    backs = []
    ind = Induct(e, P.comp, head, lambda eng, b: backs.append((b, list(ind.locs.items()))), N)
    st0 = st.assume(ge(start, ZERO), *[le(x, (1 << 32) - 1) for x in (lo, hi) if x is not None and kind == "Repeat"])[0]
    def item(st, i):
        if kind == "Match": return rng(e.mk(values.elem_atom(q.segs[0][1], i), q.ety))
        if kind in ("MatchAll", "MatchAny"): return P.deep(e, st, e.mk(values.elem_atom(q.segs[0][1], i), q.ety))
        return p
    empty(st0); outs = S.run(e, P.comp, S.params(P.comp), [VRef(c), args[1], VInt(start, U)], st0)
    def target(st):
        """the state created before the loop, if any"""
        E = [g[1].f for g in st.cells[GE].segs if g[0] == 'one']; E = E[:next(i for i, f in enumerate(E) if f[0].l == L(ROUNDS))]
        x = [f[2].l for f in E if f[0].l == L(CREATE)]
        if len(x) > 1 or any(f[0].l != L(CREATE) for f in E): raise Taint("what is done before the loop")
        return x[0] if x else None
    def graph(st, letters, zero, cur):
        E = [g[1].f for g in st.cells[GE].segs]
        if any(g[0] != 'one' for g in st.cells[GE].segs): raise Taint("the calls on the machine are %r" % (st.cells[GE].segs,))
        g = Graph(P, e, st, E, start, letters, [(cur, start if zero else None)] if cur is not None else [])
        t = target(st); return g, cur, g.node(t) if t is not None else None
    def back(b, locs):
        if len(locs) > 1: raise Taint("more than one state is carried around")
        ((cell, path), cur), = locs or [((None, None), None)]
        if not entails(b, lt(N, hi)): raise Taint("there may be more rounds than parts")
        for y in b.assume(ge(N, ZERO)):
            for zero, z in [(True, z) for z in y.assume(eq(N, ZERO))] + [(False, z) for z in y.assume(ge(N, ONE))]:
                g, cur, tg = graph(z, [item(z, N)], zero, cur); d = one(z, g, cur, tg, zero, cell, path)
                if d: note(z, d)
    def note(z, d):
        (odd if z.assume(isz(L(limit - 1))) else wrong).append((d, z))
    def one(z, g, cur, tg, zero, cell, path):
        if g.bad: return g.bad
        x = g.isolated(tg if kind not in ("Match", "MatchAll") else None)
        if x: return x
        new = None
        if cur is not None:
            v = z.cells[cell]
            for i in path: v = v.f[i]
            if not isinstance(v, VInt): raise Taint("the state carried around")
            new = g.node(v.l); old = g.node(L(cur))
        A = A_
        if kind in ("Match", "MatchAll", "Repeat", "RepeatInfinite"):
            if cur is None and not eps: return "no state is carried from one round to the next"
            if cur is None: new = old = g.start; zero = True        # still at the start
            base = g.edges + [(g.start, A, old)] if not zero else g.edges; W = [(0, A, 1), (1, rd, 2)] if not zero else [(0, None, 1), (1, rd, 2)]
            last = False
            if kind == "RepeatInfinite" and entails(z, eq(N, lo + 1)): last = True; W = W + [(2, rd, 2)]
            elif kind == "RepeatInfinite" and not entails(z, ne(N, lo + 1)): raise Taint("a round that may be the last or not")
            d = differ(base, g.start, new, W, 0, 2)
            if d: return "round %s of the loop: what leads to the next state is wrong" % show(N)
            if kind in ("Match", "MatchAll"): return None
            if tg is None: raise Taint("no target state")
            if entails(z, ge(N, lo)): here = True
            elif entails(z, lt(N, lo)): here = False
            else: return "what is done does not depend on whether there are enough copies"
            W = [(0, B_, 3)] + ([(0, None if zero else A, 3 if not last else 4)] if here else []) + ([(4, rd, 4), (4, None, 3)] if last else [])
            d = differ(base + [(g.start, B_, tg)], g.start, tg, W, 0, 3)
            return "a number of copies is %s" % ("accepted that is not enough or too many" if d[1] else "not accepted") if d else None
        if tg is None: raise Taint("no target state")
        if cur is not None: raise Taint("a state is carried around")
        if g.extra:      # the other way round
            z2 = None
            g.letters = [item(z, hi - 1 - N)]; g2, _, tg = graph(z, [item(z, hi - 1 - N)], zero, cur); g = g2
            if g.extra: raise Taint("another sub-pattern")
        d = differ(g.edges + [(g.start, B_, tg)], g.start, tg, [(0, B_, 1), (0, rd, 1)], 0, 1)
        return "an alternative is not matched, or something else is" if d else None
    def reached(z, o):
        """the state carried around that this path left the loop with"""
        here = {a for l in named(z, o) for a, _ in l.t}
        cs = {a for _, x in backs for _, a in x}
        return next((a for a in cs if a in here), next(iter(cs), None))
    def named(z, o):
        if isinstance(o.val, VInt): yield o.val.l
        yield from P.named(z)
    def leave(o):
        if panics(o): return note(o.st, "panics: %s" % o.msg)
        for y in o.st.assume(ge(N, ZERO)):
            rounds = any(g[0] == 'one' and g[1].f[0].l == L(ROUNDS) for g in y.cells[GE].segs)
            if not rounds:
                g = Graph(P, e, y, [g[1].f for g in y.cells[GE].segs], start, [])
                if not y.assume(isz(L(limit - 1))): note(y, "nothing is repeated")
                elif y.assume(isz(L(limit - 1))) and len(y.assume(ge(hi, limit + 3))): note(y, "nothing is repeated")
                continue
            for zero, z in [(True, z) for z in y.assume(eq(N, ZERO))] + [(False, z) for z in y.assume(ge(N, ONE))]:
                g, cur, tg = graph(z, [item(z, N)], zero, reached(z, o)); end = g.node(o.val.l)
                if g.bad: note(z, g.bad); continue
                d = g.isolated(end)
                if d: note(z, d); continue
                base = list(g.edges)
                short = z.assume(lt(N, hi)) if kind != "Repeat" else z.assume(lt(N, hi))
                E = [x[1].f for x in z.cells[GE].segs]; after = E[next(i for i, f in enumerate(E) if f[0].l == L(ROUNDS)) + 1:]
                if kind in ("Match", "MatchAll"):
                    if cur is None and not eps: raise Taint("no state is carried around")
                    if after: raise Taint("something is done behind the loop")
                    if end != (g.node(L(cur)) if cur is not None else g.start): note(z, "it ends in another state than the last one"); continue
                    for s_ in short: note(s_, "only the first %s of %s are matched" % (show(N), show(hi)))
                elif kind == "MatchAny":
                    if after: raise Taint("something is done behind the loop")
                    if end != tg: note(z, "it does not end in the target state"); continue
                    for s_ in short: note(s_, "only %s of %s alternatives are compiled" % (show(N), show(hi)))
                else:
                    if after: raise Taint("something is done behind the loop")
                    if end != tg: note(z, "it does not end in the target state"); continue
                    for s_ in short: note(s_, "only %s copies are compiled of %s" % (show(N), show(hi)))
                    for s_ in z.assume(gt(N, hi), ge(hi, ZERO)): note(s_, "%s copies are compiled instead of %s" % (show(N), show(hi)))
    try:
        if not ind.done: raise Taint("there is no loop over the parts")
        if any(t for t in e.taints): raise Taint("%s" % (e.taints[0],))
        for b, locs in backs: forked(e, b, lambda y: back(y, locs))
        for o in outs: forked(e, o, leave)
        if e.obls: raise Taint("%r" % (e.obls[0],))
    except (Taint, Foreign) as x: S.unknown(name, S.where(P.comp), str(x)); return
    if odd: S.unknown(name, S.where(P.comp), "the loop is not of the kind followed: %s [%s]" % (odd[0][0], ", ".join(show(c) for c in odd[0][1].con.conds())))
    elif wrong: S.violation(name, S.where(P.comp), "%s: %s [path condition: %s]" % (kind, wrong[0][0], ", ".join(show(c) for c in wrong[0][1].con.conds())))
    else: S.ok(name, S.where(P.comp), "%d rounds, %d paths out" % (len(backs), len(outs)))

def forked(e, x, f):
    """f on a state or a result, once for every answer to a question the path leaves open"""
    work = [x]; budget = 400
    while work:
        x = work.pop(); st = x if isinstance(x, State) else x.st
        try: f(x)
        except Fork as k:
            budget -= 1
            if budget < 0: raise Taint("undecided")
            for cond in k.conds:
                for con in st.con.assume(cond):
                    y = st.copy(); y.con = con; work.append(y if isinstance(x, State) else Out(x.kind, y, x.val, x.span, x.msg))
