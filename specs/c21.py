"""C21: matching cannot change a prepared matcher; no global state, no unsafe code, nothing depends on hash order."""
from engine.spec import *
LEVEL = "other"
TECHNIQUE = "type-structure (interior mutability) and effect analysis over MIR, plus a source-to-sink flow rule for hash iteration order (static analysis)"
RULE = ("Freeze rule: the whole type structure of SymbolRangeDfa (fields, type arguments, fields of std types down to their cells) is walked and may contain no UnsafeCell (Cell, RefCell, Mutex, atomics, OnceCell), so a shared reference to it "
        "gives no way to change it; the matching entry points take it by shared reference. No-global-state rule: the crate has no unsafe block, function or impl, no mutable static, no static or thread-local with a cell, and no body calls an ambient source "
        "(clock, environment, thread identity, random state). Hash-order rule: every call in every body whose type arguments contain a HashMap / HashSet or one of their iterators is classified; keyed access and order-insensitive "
        "consumers (count, any, all, min, max, sum, collection into sets and maps, loops which only insert into sets and maps) are allowed, and an ordered sink (collection into or pushing onto a sequence, taking the first or last) is a "
        "violation unless the sequence is sorted afterwards or the hashed set provably has at most one element (all call sites pass a one-element vector).")
NOTE = "User-supplied symbol types are outside: their own Clone / Ord / Hash are assumed to be functions of their value. Debug output of hash tables is exempt."

HASH = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")
def hashiter(k): return (k.startswith("std::collections::hash::map::") or k.startswith("std::collections::hash::set::")) and k not in HASH and k.split("::")[-1] in (
    "Iter", "IterMut", "IntoIter", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Drain", "Union", "Intersection", "Difference", "SymmetricDifference", "ExtractIf")
KEYED = set("new with_capacity with_hasher with_capacity_and_hasher get get_mut get_key_value insert remove remove_entry take replace contains contains_key entry len is_empty clone clone_from eq ne default "
            "index drop fmt clear reserve shrink_to_fit capacity hasher is_subset is_superset is_disjoint borrow borrow_mut as_ref as_mut deref deref_mut get_or_insert_with deserialize serialize retain "
            "or_insert or_insert_with or_default and_modify key or_insert_entry into_mut drop_in_place replace swap take unwrap expect map is_some is_none".split())
INSENS = set("count any all max min sum product len size_hint is_empty fmt clone drop eq ne".split())
ADAPT = set("into_iter iter iter_mut keys values values_mut into_keys into_values drain map filter filter_map flat_map flatten chain cloned copied inspect by_ref union intersection difference symmetric_difference".split())
FIRST = set("nth last skip take step_by enumerate zip peekable skip_while take_while rev reduce min_by_key max_by_key min_by max_by".split())
SEQTY = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::string::String", "alloc::collections::linked_list::LinkedList", "alloc::boxed::Box")
SETTY = HASH + ("alloc::collections::btree::set::BTreeSet", "alloc::collections::btree::map::BTreeMap", "alloc::collections::binary_heap::BinaryHeap")
AMBIENT = ("std::time::", "std::env::", "std::thread::", "std::process::", "std::net::", "std::fs::", "core::sync::atomic::", "std::sync::", "std::hash::random::")
SORTS = ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")

def strip(t):
    while isinstance(t, list) and t and t[0] in ("ref", "rawptr"): t = t[1]
    return t
def mentions(t, pred):
    if isinstance(t, list):
        if t and t[0] == "adt" and pred(t[1]): return True
        # the symbol types of local structures are not looked into: only what the call itself works on
        if t and t[0] == "adt" and t[1].startswith(CRATE): return False
        return any(mentions(x, pred) for x in t)
    return False
def ishash(t): t = strip(t); return isinstance(t, list) and t and t[0] == "adt" and (t[1] in HASH or hashiter(t[1]))
def calls(b):
    for n, bl in enumerate(b["blocks"]):
        if bl[2]: continue
        t = bl[1]
        if t[0] == "call": yield n, t
def family(key, bodies):
    root = key.split("::{closure")[0]
    return [k for k in bodies if k == root or k.startswith(root + "::{closure")]
def callee(f): return f.get("resolved") or f.get("key") or ""
def mname(f): return f.get("method") or callee(f).split("::")[-1]

def reach(b, start):
    B = Body(b); seen = set(); w = [start]
    while w:
        n = w.pop()
        for m in B.succs(n):
            if m not in seen: seen.add(m); w.append(m)
    return seen
def innermost(b, n):
    """blocks of the innermost loop that contains block n"""
    best = set()
    def go(cs):
        nonlocal best
        for c in cs:
            if isinstance(c, tuple) and n in c[2]: best = set(c[2]); go(c[3])
    go(Body(b).wto())
    return best
def elem(t):
    """element type of a sequence type"""
    t = strip(t)
    if isinstance(t, list) and t:
        if t[0] in ("slice", "array"): return t[1]
        if t[0] == "adt" and t[1] in SEQTY and t[2]: return t[2][0] if not (isinstance(t[2][0], list) and t[2][0] and t[2][0][0] == "slice") else t[2][0][1]
    return None
def sorts(u, el):
    """u is a call that sorts a sequence of el"""
    if mname(u[1]) not in SORTS: return False
    a = u[1].get("args") or []
    return el is None or not a or a[0] == el or a[0][0] == "param" or strip(a[0]) == strip(el)
def alias(b):
    """locals connected by moves, borrows and wrapping: a local's class contains everything it flows to or comes from"""
    p = list(range(len(b["locals"])))
    def find(x):
        while p[x] != x: p[x] = p[p[x]]; x = p[x]
        return x
    def locs(o, acc):
        if isinstance(o, list):
            if o and o[0] in ("copy", "move") and len(o) == 2 and isinstance(o[1], list): acc.append(o[1][0]); return acc
            for x in o: locs(x, acc)
        return acc
    for bl in b["blocks"]:
        if bl[2]: continue
        for s in bl[0]:
            if s[0] == "assign":
                rs = locs(s[2], [])
                if s[2][0] == "ref": rs.append(s[2][1][0])
                for r in rs: p[find(r)] = find(s[1][0])
        t = bl[1]
        if t[0] == "call" and mname(t[1]) in ("deref", "deref_mut", "as_mut_slice", "as_slice", "into_iter", "as_mut", "index_mut", "borrow_mut", "unwrap", "clone", "into_boxed_slice", "from", "into"):
            for r in locs(t[2][:1], []): p[find(r)] = find(t[3][0])
    return find, locs

def check(S):
    raw = S.P.raw[0]; bodies = dict((b["key"], b) for b in raw["bodies"])
    DFA = S.adt("symbol_range_dfa::SymbolRangeDfa")
    # ---- freeze
    inter = dict((x[0], x[1]) for x in raw["interior"])
    def freeze(k, name):
        l = inter.get(k)
        if l is None: S.unknown(name, k, "type not found in the dump"); return
        hard = [x for x in l if x[0] != "trait object"]
        if hard: S.violation(name, k, "contains a %s at %s: a shared reference to it can change it" % (hard[0][0], hard[0][1]))
        elif l: S.unknown(name, k, "contains a trait object at %s" % l[0][1])
        else: S.ok(name, k, "no cell, raw pointer or trait object anywhere in its type structure")
    freeze(DFA, "a prepared matcher has no interior mutability")
    # ---- matching takes the matcher by shared reference
    for path in ("matches::matches_prepared",):
        key = S.fn(path); b = bodies[key]
        t = b["locals"][1 + next((i for i in range(b["argc"]) if mentions([b["locals"][i + 1][0]], lambda k: False) or DFA in json.dumps(b["locals"][i + 1][0])), 0)][0]
        if t[0] == "ref" and not t[2]: S.ok("%s borrows the matcher" % path.split("::")[-1], S.where(key), "by shared reference")
        elif t[0] == "ref" : S.violation("%s borrows the matcher" % path.split("::")[-1], S.where(key), "takes the matcher by mutable reference")
        else: S.unknown("%s borrows the matcher" % path.split("::")[-1], S.where(key), "takes %r" % (t,))
    # ---- unsafe, statics, ambient sources
    for kind, k, sp in raw["unsafe"]: S.violation("no unsafe code", "%s (%s)" % (sp, k), kind)
    if not raw["unsafe"]: S.ok("no unsafe code", "src/", "%d bodies, %d impls" % (len(raw["bodies"]), len(raw["impls"])))
    bad = False
    for k, ty, mut, il, sp in raw["statics"]:
        cells = [x for x in il if x[0] == "cell"]
        if mut or cells: bad = True; S.violation("no global state", "%s (%s)" % (sp, k), "a mutable static" if mut else "a static holding a cell at %s" % cells[0][1])
        elif il: bad = True; S.unknown("no global state", "%s (%s)" % (sp, k), "a static holding a %s" % il[0][0])
    ncalls = 0
    for key, b in bodies.items():
        for n, t in calls(b):
            ncalls += 1
            f = t[1]; c = callee(f) or f.get("key", "")
            if not c: continue
            if "::local::" in c and c.startswith("std::thread::") or "LocalKey" in f.get("path", ""):
                bad = True; S.violation("no global state", "%s (%s)" % (t[5], b["path"]), "uses a thread-local variable (%s)" % f.get("path", c))
            elif any(c.startswith(a) or f.get("path", "").startswith(a) for a in AMBIENT) and not c.startswith("std::thread::panicking"):
                if "mutex" in c or "once" in c or "rwlock" in c: bad = True; S.unknown("no ambient state", "%s (%s)" % (t[5], b["path"]), "calls %s" % f.get("path", c))
                else: bad = True; S.violation("no ambient state", "%s (%s)" % (t[5], b["path"]), "calls %s" % f.get("path", c))
        for bl in b["blocks"]:
            for s in bl[0]:
                if s[0] == "assign" and s[2][0] == "cast" and "Expose" in str(s[2][1]): bad = True; S.unknown("no ambient state", "%s (%s)" % (b["span"], b["path"]), "turns an address into a number")
    if not bad: S.ok("no global or ambient state", "src/", "%d statics, %d call sites in %d bodies: none reaches a mutable static, a thread-local, the clock, the environment or random state" % (len(raw["statics"]), ncalls, len(bodies)))
    S.funcs |= set(bodies); S.paths += ncalls
    # ---- hash order
    hash_order(S, bodies)

def hash_order(S, bodies):
    callers = {}
    for k, b in bodies.items():
        for n, t in calls(b): callers.setdefault(callee(t[1]), []).append((k, n, t))
    sources = 0; keyed = 0
    for key, b in sorted(bodies.items()):
        sinks = []; unk = []; good = []
        for n, t in calls(b):
            f = t[1]; args = f.get("args") or []
            if not any(mentions(a, lambda k: k in HASH or hashiter(k)) for a in args) and not ("HashMap" in f.get("path", "") or "HashSet" in f.get("path", "")): continue
            m = mname(f); path = f.get("path", ""); c = callee(f)
            if c.startswith("std::collections::hash::") and m in KEYED: keyed += 1; continue
            selfty = strip(args[0]) if args else None
            if m in KEYED and m not in ("deserialize",) and not (m in ("map", "take") and mentions(selfty, hashiter)):
                keyed += 1; continue
            if c.startswith(CRATE):
                # a structure of the crate with a table inside is looked at where it is defined
                if any(ishash(a) or mentions(a, hashiter) for a in args): unk.append((n, t, "passed to %s" % path))
                continue
            if not any(ishash(a) or mentions(a, hashiter) for a in args) and not ("HashMap" in path or "HashSet" in path):
                keyed += 1; continue
            sources += 1
            if m in ADAPT: continue
            if m in INSENS: good.append((n, m)); continue
            if m in ("collect", "from_iter", "extend"):
                d = [strip(a) for a in args]
                dest = strip(b["locals"][t[3][0]][0]) if m != "extend" else d[0]
                if m == "collect" and isinstance(dest, list) and dest[0] == "adt" and dest[1] in SETTY or m != "collect" and isinstance(dest, list) and dest[0] == "adt" and dest[1] in SETTY: good.append((n, m)); continue
                if isinstance(dest, list) and dest[0] == "adt" and dest[1] in SEQTY:
                    local = t[3][0] if m != "extend" else (t[2][0][1][0] if t[2][0][0] in ("copy", "move") else None)
                    sinks.append((n, t, local, "%s into a sequence" % m)); continue
                unk.append((n, t, m)); continue
            if m == "next":
                cyc = n in reach(b, n)
                if not cyc: sinks.append((n, t, t[3][0], "takes the first element")); continue
                loop = innermost(b, n)
                tab = lambda u: any(ishash(a) for a in u[1].get("args") or []) or "HashMap" in u[1].get("path", "") or "HashSet" in u[1].get("path", "")
                if any(x in loop and mname(u[1]) in ADAPT and tab(u) for x, u in calls(b)):
                    # not the loop over the table: the iteration starts anew each time round
                    if any(x in loop and tab(u) and mname(u[1]) in ("remove", "take", "remove_entry", "clear", "drain", "retain") for x, u in calls(b)): unk.append((n, t, "the table is the worklist of the loop"))
                    else: sinks.append((n, t, t[3][0], "takes the first element"))
                    continue
                for x, u in calls(b):
                    if x not in loop: continue
                    um = mname(u[1]); a0 = strip((u[1].get("args") or [None])[0]); up = u[1].get("path", "")
                    if um in ("push", "push_back", "push_front", "append", "extend", "insert") and ("Vec::" in up or "VecDeque::" in up or "String::" in up or (um == "extend" and isinstance(a0, list) and a0[0] == "adt" and a0[1] in SEQTY)):
                        sinks.append((x, u, u[2][0][1][0] if u[2][0][0] in ("copy", "move") else None, "%s of elements in hash order" % um))
                    elif callee(u[1]).startswith(CRATE) and u[2] and any(o[0] in ("copy", "move") and isinstance(b["locals"][o[1][0]][0], list) and b["locals"][o[1][0]][0][0] == "ref" and b["locals"][o[1][0]][0][2] for o in u[2]):
                        unk.append((x, u, "%s called with a mutable reference in hash order" % up))
                # leaving the loop other than at the end of the table
                B = Body(b); outs = {(x, y) for x in loop for y in B.succs(x) if y not in loop}
                if len(outs) > 1 and not [s for s in sinks if s[0] in loop]: unk.append((n, t, "a loop over a hash table with an early exit"))
                good.append((n, "loop")); continue
            if m in FIRST: sinks.append((n, t, t[3][0], "%s in hash order" % m)); continue
            unk.append((n, t, m))
        for n, t, local, what in sinks:
            S.sites.add((key, t[5], what))
            name = "nothing depends on hash order"; where = "%s (%s)" % (t[5], b["path"])
            why = harmless(S, bodies, callers, key, b, n, local)
            if why is None: S.violation(name, where, "%s: the order of a hash table reaches a sequence or a choice, and nothing sorts it afterwards" % what)
            elif why[0]: S.ok(name, where, "%s; %s" % (what, why[1]))
            else: S.unknown(name, where, "%s; %s" % (what, why[1]))
        for n, t, what in unk: S.unknown("nothing depends on hash order", "%s (%s)" % (t[5], b["path"]), "not classified: %s" % what)
    S.ok("hash tables are only used by key elsewhere", "src/", "%d keyed uses, %d calls working on an iteration of a table" % (keyed, sources))

def harmless(S, bodies, callers, key, b, n, local):
    """(True, why) fine, (False, why) not decided, None: nothing makes it harmless"""
    w = singleton(S, bodies, callers, key, b)
    if w: return w
    find, locs = alias(b)
    after = reach(b, n)
    el = elem(b["locals"][local][0]) if local is not None else None
    if local is not None:
        c = find(local)
        for x, u in calls(b):
            if x in after and sorts(u, el) and any(find(l) == c for l in locs(u[2][:1], [])):
                return (True, "sorted afterwards at %s" % u[5])
            if x in after and any(find(l) == c for l in locs(u[2], [])):
                a = [strip(q) for q in (u[1].get("args") or [])]
                k = callee(u[1])
                if mname(u[1]) in ("collect", "from_iter") and any(isinstance(q, list) and q and q[0] == "adt" and q[1] in SETTY for q in a): return (False, "made into a set at %s" % u[5])
    # sorted by something this one calls, or by whoever receives the result
    up = {k for k, _, _ in callers.get(key, [])} | set(family(key, bodies))
    for k in up:
        if k != key and any(sorts(u, el) for _, u in calls(bodies[k])): return (False, "%s sorts" % bodies[k]["path"])
        for _, u in calls(bodies[k]):
            q = callee(u[1])
            if q in bodies and q != key and any(sorts(v, el) for _, v in calls(bodies[q])): return (False, "%s calls %s, which sorts" % (bodies[k]["path"], bodies[q]["path"]))
    return None

def singleton(S, bodies, callers, key, b):
    """the only sequence parameter of a private function is a one-element vector at every call site"""
    seqs = [i for i in range(b["argc"]) if (lambda t: isinstance(t, list) and t and (t[0] == "slice" or t[0] == "adt" and t[1] in SEQTY))(strip(b["locals"][i + 1][0]))]
    if len(seqs) != 1 or b.get("vis", "") == "Public" or not callers.get(key): return None
    i = seqs[0]; one = 0
    for k, n, t in callers[key]:
        c = bodies[k]; o = t[2][i]
        if o[0] not in ("copy", "move"): return None
        l = o[1][0]; seen = set(); ok = False
        while l not in seen:
            seen.add(l); nxt = None
            for x, u in calls(c):
                if u[3][0] == l and not u[3][1]:
                    ar = [q for q in (u[1].get("args") or []) if isinstance(q, list) and q and q[0] == "array"]
                    if any(str(q) in ("1",) for q in [u_ for a in ar for u_ in a[2:3]] + [a for a in (u[1].get("args") or [])[1:]]): ok = True
                    tys = [c["locals"][p[1][0]][0] for p in u[2] if p[0] in ("copy", "move")]
                    if any(isinstance(strip1, list) and strip1 and strip1[0] == "array" and str(strip1[2]) == "1" for ty in tys for strip1 in walk(ty)): ok = True
                    nxt = u[2][0][1][0] if u[2] and u[2][0][0] in ("copy", "move") else None
            for bl in c["blocks"]:
                for s in bl[0]:
                    if s[0] == "assign" and s[1][0] == l and not s[1][1]:
                        r = s[2]
                        if r[0] in ("use", "cast"):
                            q = r[1] if r[0] == "use" else r[2]
                            if q[0] in ("copy", "move"): nxt = q[1][0]
                        elif r[0] == "ref": nxt = r[1][0]
                        elif r[0] == "agg" and "array" in str(r[1]) and len(r[2]) == 1: ok = True
            if ok or nxt is None: break
            l = nxt
        if not ok: return None
        one += 1
    return (True, "the set has one element: all %d call sites pass a one-element vector" % one)
def walk(t):
    if isinstance(t, list):
        yield t
        for x in t:
            yield from walk(x)
