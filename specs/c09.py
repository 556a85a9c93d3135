"""C09: the DFA compiler builds the subset construction."""
from engine.spec import *
from specs.dfac import *
import random, itertools, time
LEVEL = "proof"
TECHNIQUE = "inductive loop invariants, modular contracts and small machines over abstract interpretation of MIR (static analysis)"
RULE = ("compile, any machine: from an arbitrary head state of the worklist loop (N finished states, M pending sets, any known sets) every path of one round must take one pending set X and finish exactly one state made of all the transitions of all its members (handed to merge_states), "
        "record X as known under the number of that state, and make the target of every transition pending unless it is known; the loop starts with the set of state 0 alone and ends only when nothing is pending. Afterwards every finished state, in order, is started once, and all its transitions "
        "are given to the builder with the recorded number of exactly their target set. merge_states: from an arbitrary head state of its loop over the transitions sorted by symbol, each transition is merged with the one before it if and only if the symbols are equal, and nothing is lost. dedupe only sorts and removes duplicates; "
        "equality of sets of states compares what they hold. Besides, about 140 machines of up to seven states (also with far apart numbers) with arbitrary (symbolic) symbols are followed through the whole of compile and compared with the subset construction on every path.")
NOTE = "Any machine and any number of states, through the induction; symbols and outputs are arbitrary values of a totally ordered type. Termination is not shown; DfaState::create of a single state and hashing are modelled. Where an induction does not recognise the code the small machines decide alone."
def machines(tier):
    """lists of transitions (state, symbol number, target)"""
    yield []
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for p in itertools.combinations_with_replacement(pairs, 2): yield [(p[0][0], 0, p[0][1]), (p[1][0], 1, p[1][1])]
    for n, p in enumerate(itertools.combinations_with_replacement(pairs, 3)):
        if tier == "thorough" or n % 2: yield [(x[0], i, x[1]) for i, x in enumerate(p)]
    # two or three symbols, more states
    rng = random.Random(11)
    for n in range(70 if tier != "thorough" else 1500):
        k = 3 + n % 4; m = 4 + n % 6
        yield [(rng.randrange(k), rng.randrange(2 + n % 2), rng.randrange(k)) for _ in range(m)]
    # the classical exponential one, loops, and a long chain
    yield [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 2), (1, 1, 2), (2, 0, 3), (2, 1, 3)]
    yield [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 1, 0)]
    yield [(i, i % 2, i + 1) for i in range(9)]
    yield [(0, 0, 5), (0, 0, 300), (300, 1, 5), (5, 1, 300), (5, 0, 44)]
    yield [(0, 0, 1), (0, 0, 65537), (65537, 0, 1), (1, 1, 0)]

def subset(D, e, o, m, sym):
    """is what the builder was given the subset construction of m?"""
    return walk(D, e, o, m, sym)[0]

def check(S):
    D = Dfac(S)
    anysize(S, D, True)
    dedupe(S, D); merge_states(S, D); key_eq(S, D)
    small(S, D)

def small(S, D):
    bad = None; n = 0; paths = 0
    for m in machines(S.tier):
        syms = {}; e = None
        def sym(i):
            if i not in syms: syms[i] = e.mk(atom('sym', 's%d' % i), D.sym)
            return syms[i]
        e = D.engine(lambda i: [(sym(a), t) for s, a, t in m if s == i], lambda i: [])
        outs = D.run(e); n += 1
        def f(o):
            r = subset(D, e, o, m, sym)
            return r and "machine with the transitions %s: %s" % (", ".join("%d -s%d-> %d" % x for x in m), r)
        x = Ctx(S.pid, S.P, S.tier); paths += len(outs)
        if x.judge(e, "small machines", D.key, outs, f) is not True: bad = x; break
    if bad is None: S.ok("compile: %d small machines, symbols arbitrary" % n, S.where(D.key), "%d paths" % paths)
    else:
        for a in bad.violations: S.violation("compile: small machines", a[1], a[2])
        for a in bad.inconclusive: S.unknown("compile: small machines", a[1], a[2])

