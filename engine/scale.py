"""Size limits: the same program with its large integer literals made small.

A limit such as 'only the first 300' changes what a function does only for inputs the analysis meets symbolically; where the general argument
stays undecided, the obligations are looked at again in the program in which every literal of a size (16 .. 10^6) is replaced, everywhere at once
and keeping order and differences, by a small number, so that small instances reach both sides of the limit. A construct that fails there fails in
the original at the limit. A literal is left alone where its value means something else: array types, bit operations, characters, radixes."""
import copy, json

SIZES = {"usize", "isize", "u32", "i32", "u64", "i64"}
LOW, HIGH = 16, 10**6
LEAVE = set(range(55290, 57350)) | {65535, 65536, 0x10ffff}
BYTES = {127, 128, 255, 256}        # of a character or byte, unless it is a usize

def generated(b): return "_::" in b["path"] or "_#" in b["path"] or "serde" in b["path"] or "countable" in b["path"]
def lit(x): return isinstance(x, list) and len(x) == 3 and x[0] == "const" and isinstance(x[1], list) and len(x[1]) == 2 and x[1][0] == "int" and x[1][1] in SIZES and isinstance(x[2], int) and not isinstance(x[2], bool)

def find(d):
    """the literals that can be scaled: value -> places"""
    at = {}; keep = set(LEAVE); shifts = set(); odd = False
    def walk(x, b):
        nonlocal odd
        if isinstance(x, dict):
            if any(w in str(x.get("path", "")) for w in ("radix", "digit", "leading_", "trailing_", "count_ones", "rotate_")): odd = True
            for y in x.values(): walk(y, b)
        elif isinstance(x, list):
            if lit(x):
                if x[2] in BYTES and x[1][1] != "usize": keep.add(x[2])
                if LOW <= x[2] <= HIGH: at.setdefault(x[2], []).append(b["path"])
                return
            if len(x) == 3 and x[0] == "const" and isinstance(x[1], list) and x[1] == ["char"] and isinstance(x[2], int): keep.add(x[2])
            if len(x) == 3 and x[0] == "array" and isinstance(x[2], int): keep.add(x[2])
            if x and x[0] == "named" and "BITS" in json.dumps(x): odd = True
            if len(x) == 4 and x[0] == "bin":
                for o in x[2:]:
                    if lit(o):
                        if x[1].startswith(("Shl", "Shr")): shifts.add(o[2])
                        if x[1].startswith("Bit"): keep.update((o[2], o[2] + 1))
            for y in x: walk(y, b)
    for b in d["bodies"]:
        if generated(b): continue
        walk(b["locals"], b)
        for bl in b["blocks"]: walk(bl, b)
    for k in shifts:
        keep.add(k)
        if k < 40: keep.add(1 << k)
    if odd: return {}
    least = min([v for v in at if v in keep], default=HIGH + 1)        # the order of the literals stays as it is
    return {v: p for v, p in at.items() if v < least}

def mapping(vals, k):
    """value -> small value, order kept, differences up to 2 and small multiples kept"""
    m = {}; base = []
    for v in sorted(vals):
        for b in base:
            q = next((q for q in (1, 2, 3, 4) if abs(v - q * b) <= 2), None)
            if q is not None: m[v] = q * m[b] + v - q * b; break
        else:
            n = k if not base else max(m.values()) + 2
            base.append(v); m[v] = n
    if len(base) > 3 or any(x < 1 for x in m.values()): return None
    xs = [m[v] for v in sorted(m)]
    return m if xs == sorted(set(xs)) else None

def scaled(d, k):
    """-> (the dump with its limits made small, description) or None"""
    at = find(d)
    if not at: return None
    m = mapping(at, k)
    if not m: return None
    d = copy.deepcopy(d)
    def walk(x):
        if isinstance(x, dict):
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            if lit(x):
                if x[2] in m: x[2] = m[x[2]]
                return
            if x and x[0] == "switch" and isinstance(x[2], list) and x[2] and x[2][0] == "int" and x[2][1] in SIZES:
                for t in x[3]:
                    if t[0] in m: t[0] = m[t[0]]
            for y in x: walk(y)
    for b in d["bodies"]:
        if generated(b): continue
        for bl in b["blocks"]: walk(bl)
    return d, ", ".join("%d (in %s) by %d" % (v, ", ".join(sorted(set(at[v]))[:3]), m[v]) for v in sorted(m))
