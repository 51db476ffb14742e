"""Rules over the resolved program: effects, ownership, visibility."""
import re
import check
REG = {}
class Res:
    def __init__(s): s.findings = []; s.instances = 0; s.obligations = 0; s.undecided = []; s.sites = []
def rule(*props):
    def d(f):
        for p in props: REG.setdefault(p, []).append(f)
        return f
    return d
def for_property(p): return REG.get(p, [])

EIGEN = re.compile(r"(^|[<& :])eigen::")
def is_eigen(f): return f["id"].startswith("::eigen::")
def exported(m): return [f for f in m.list if f.get("exported") or f.get("trait")]
def reachable(m, g):
    seen = set(); st = [f["id"] for f in exported(m)]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += g.get(x, ())
    return [m.fns[x] for x in sorted(seen) if x in m.fns]
def bodies(f):
    yield f["body"]
    for b in f.get("prom") or (): yield b
def sites(f):
    """(kind, payload, loc) of every call target, function mentioned, static, cast and raw borrow of a function"""
    def operand(o, loc):
        if not isinstance(o, list) or not o or o[0] != "k" or not isinstance(o[1], dict): return
        k = o[1]
        if k.get("k") == "fn": yield "fn", k["fn"], loc
        elif k.get("k") == "static": yield "static", k.get("d") or "", loc
    def ops(x, loc):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict): yield from operand(x, loc); return
            for y in x: yield from ops(y, loc)
    for b in bodies(f):
        if not b: continue
        for bb in b["blocks"]:
            if bb["c"]: continue
            t = bb["t"]
            loc = t[5] if t[0] == "call" else f["loc"]
            for s in bb["s"]:
                if s[0] != "=": continue
                r = s[2]
                if r[0] == "cast": yield "cast", (r[1], r[2], r[3], b), f["loc"]
                if r[0] == "other" and "ThreadLocal" in str(r[1]): yield "tls", str(r[1]), f["loc"]
                yield from ops(r[1:], f["loc"])
            yield from ops(t[1:], loc)

# ------------------------------------------------------------------ C19
AMBIENT = [
    (r"^std::time::|^std::sys::time", "reads the clock"),
    (r"^std::env::", "reads the process environment"),
    (r"^std::fs::|^std::os::", "reads or writes files"),
    (r"^std::net::", "uses the network"),
    (r"^std::process::", "acts on the process"),
    (r"^std::thread::LocalKey|^std::thread::local", "keeps state between calls in a thread-local"),
    (r"^std::thread::", "depends on threads"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|Stdout|Stdin|Stderr)|^std::io::stdio", "uses a standard stream"),
    (r"^(std|core)::sync::atomic::|^std::sync::(Mutex|RwLock|Once|OnceLock|LazyLock|Condvar|Barrier|mpsc|poison|nonpoison)", "keeps or reads shared mutable state"),
    (r"^lazy_static::|^once_cell::", "keeps or reads shared state"),
    (r"^rand(_core|_chacha)?::|^getrandom::", "draws random numbers"),
    (r"^std::(collections::hash_map|hash)::(RandomState|BuildHasher|DefaultHasher)", "uses the per-process hash seed"),
    (r"^std::alloc::|^(std|core)::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)", None),
]
AMBIENT = [(re.compile(a), b) for a, b in AMBIENT if b]
CELLS = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|Once|OnceLock|LazyLock|Atomic[A-Z]\w*|SyncUnsafeCell|Lazy|LocalKey|Condvar)$")
def cells(m, t, seen=None):
    """name of an interior-mutable type inside type t"""
    seen = seen if seen is not None else set()
    if t in seen: return None
    seen.add(t); d = m.types[t]
    if d["k"] == "adt":
        if CELLS.search(d["p"]): return d["p"]
        for a in d["a"]:
            if isinstance(a, int):
                r = cells(m, a, seen)
                if r: return r
        a = m.adts.get(d.get("d"))
        if a and a.get("local"):
            for v in a["v"]:
                for fl in v["f"]:
                    r = cells(m, fl["ty"], seen)
                    if r: return r
        return None
    if "str" in d and d["k"] in ("dyn", "other"): return None
    for key in ("t",):
        if isinstance(d.get(key), int):
            r = cells(m, d[key], seen)
            if r: return r
    for a in d.get("a") or ():
        if isinstance(a, int):
            r = cells(m, a, seen)
            if r: return r
    return None
def locks_only(m, t):
    """a lock around nothing (or a pass-through holder of one): the solver's session lock"""
    s = m.types[t]["str"]
    return re.search(r"(Mutex|RwLock)<\(\)>", s) is not None

@rule("C19")
def ambient(tree, g):
    """no function reachable from the public interface calls, borrows or names process-wide state (clock, environment, files, threads, standard streams, random numbers, hash seed, statics that can change); the eigenvalue module may lock and call its solver"""
    m = tree.m; r = Res(); seen = set()
    def add(f, loc, msg):
        if (f["id"], msg) in seen: return
        seen.add((f["id"], msg))
        r.findings.append(check.Finding({"C19"}, f["path"], loc, msg, "every call of this function"))
    stat = {}
    for it in m.items:
        if it["kind"].startswith("Static") and "ty" in it: stat[it["path"]] = it
    for f in reachable(m, g):
        r.instances += 1
        for k, x, loc in sites(f):
            r.obligations += 1
            if k == "fn":
                if x.get("local"): continue
                names = [n for n in (x["p"], x.get("res")) if n]
                for rx, why in AMBIENT:
                    hit = next((n for n in names if rx.search(n.lstrip("<"))), None)
                    if not hit: continue
                    if is_eigen(f) and ("state" in why): continue
                    add(f, loc, "%s (calls %s): the result can differ between calls with equal arguments" % (why, hit)); break
                r.sites.append("%s -> %s" % (f["path"], x["p"])) if len(r.sites) < 12 else None
            elif k == "static":
                it = stat.get(x.lstrip(":")) or stat.get(x)
                if it is None: continue
                mut = "mutability: Mut" in it["kind"]; c = cells(m, it["ty"])
                if not mut and not c: continue
                if is_eigen(f) and not mut: continue
                add(f, loc, "uses the mutable process-wide variable %s (%s): results can depend on earlier calls" % (x, it["loc"]))
            elif k == "tls": add(f, loc, "uses thread-local storage: results can depend on earlier calls")
            elif k == "cast":
                kind, o, t, b = x
                if "PointerExposeProvenance" in kind or "PointerExposeAddress" in kind: add(f, loc, "uses the address of an object as a number")
    return r

@rule("C19")
def frozen(tree, g):
    """a shared borrow of a matrix cannot change it: no interior mutability in any type of the crate, no cast of a read-only pointer to a writable one"""
    m = tree.m; r = Res()
    for d, a in sorted(m.adts.items()):
        if not a.get("local") or EIGEN.search(a["path"]): continue
        r.instances += 1
        for v in a["v"]:
            for fl in v["f"]:
                r.obligations += 1
                c = cells(m, fl["ty"])
                if c: r.findings.append(check.Finding({"C19"}, a["path"], "field " + fl["n"], "field %s holds %s: a shared %s can be changed, or can remember earlier calls" % (fl["n"], c, a["path"].split("::")[-1]), "-"))
    for f in reachable(m, g):
        if is_eigen(f): continue
        r.instances += 1
        shared = any(m.types[t]["k"] == "ref" and not m.types[t]["m"] for t in f.get("ins") or ())
        for k, x, loc in sites(f):
            if k != "cast": continue
            kind, o, t, b = x
            r.obligations += 1
            if not kind.startswith("PtrToPtr") and "Transmute" not in kind: continue
            if o[0] not in "cm" or o[1][1]: continue
            src = m.types[b["locals"][o[1][0]]]; dst = m.types[t]
            if src["k"] in ("ptr", "ref") and not src["m"] and dst["k"] in ("ptr", "ref") and dst["m"]:
                r.findings.append(check.Finding({"C19"}, f["path"], loc, "casts %s to %s: writes through a shared borrow" % (src["str"], dst["str"]), "every call"))
    return r

# ------------------------------------------------------------------ C11
MATS = ("Coo", "CSR", "CSC", "DoK")
def matrix_adts(m): return {d: a for d, a in m.adts.items() if a.get("local") and not a.get("enum") and a["path"].split("::")[-1] in MATS}
@rule("C11")
def private_fields(tree, g):
    """no field of a matrix type is writable from outside the crate"""
    m = tree.m; r = Res()
    for d, a in sorted(matrix_adts(m).items()):
        r.instances += 1
        for fl in a["v"][0]["f"]:
            r.obligations += 1
            if fl["vis"] == "Public":
                r.findings.append(check.Finding({"C11"}, a["path"], "field " + fl["n"], "field %s of %s is public: any caller can make the arrays disagree" % (fl["n"], a["path"]), "any history"))
    return r

VALUE_FIELD = {"values"}
def mut_parts(m, t, seen=None):
    """types handed out mutably inside type t"""
    seen = seen if seen is not None else set()
    if t in seen: return
    seen.add(t); d = m.types[t]
    if d["k"] in ("ref", "ptr") and d["m"]: yield d["t"], d["str"]
    if d["k"] == "adt" and re.search(r"(IterMut|ChunksMut|RefMut|MutexGuard|OccupiedEntry|VacantEntry|::Entry|Drain|PeekMut|ValuesMut)$", d["p"]):
        for a in d["a"]:
            if isinstance(a, int): yield a, d["str"]
    for a in ([d["t"]] if isinstance(d.get("t"), int) else []) + [a for a in d.get("a") or () if isinstance(a, int)]: yield from mut_parts(m, a, seen)
@rule("C11")
def no_mutable_access(tree, g):
    """no exported function that borrows a matrix mutably returns mutable access to anything but its stored values"""
    m = tree.m; r = Res(); A = matrix_adts(m)
    for f in m.list:
        if not (f.get("exported") or f.get("trait")) or f["kind"] == "Closure" or not f.get("ins"): continue
        idx = set(); hit = None
        for t in f["ins"]:
            d = m.types[t]
            if d["k"] == "ref" and d["m"]:
                e = m.types[d["t"]]
                if e["k"] == "adt" and e["d"] in A:
                    hit = e; idx |= {m.types[a]["n"] for a in e["a"][:1] if isinstance(a, int) and m.types[a]["k"] == "param"}
        if hit is None: continue
        r.instances += 1; r.obligations += 1
        r.sites.append("%s -> %s" % (f["path"], m.types[f["out"]]["str"]))
        given = [("returns %s", x) for t in [f["out"]] + list(f.get("yields") or ()) for x in mut_parts(m, t)]
        own = [m.types[t]["n"] for t in f["ins"] if m.types[t]["k"] == "param"]
        for who, tr, args in f.get("predargs") or ():               # what a callback is called with
            if who in own and re.search(r"ops::(function::)?Fn(Mut|Once)?$", tr): given += [("calls back with %s", x) for t in args for x in mut_parts(m, t)]
        for t in f["ins"]:
            if m.types[t]["k"] == "fnptr": given += [("calls back with %s", x) for u in m.types[t].get("i") or () for x in mut_parts(m, u)]
        for how, (inner, s) in given:
            e = m.types[inner]
            while e["k"] in ("slice", "array"): e = m.types[e["t"]]
            bad = None
            if e["k"] == "adt" and e["d"] in A: continue            # the matrix itself (a builder-style return)
            if e["k"] == "adt": bad = "a %s, whose length the caller can change" % e["p"].split("::")[-1]
            elif e["k"] == "param" and e["n"] in idx: bad = "its index or pointer entries"
            elif e["k"] == "int" and e["n"] == "usize": bad = "its shape"
            if bad: r.findings.append(check.Finding({"C11"}, f["path"], f["loc"], "%s: mutable access to %s" % (how % s, bad), "any history")); break
    for it in m.items:
        if it["kind"] != "Impl" or not it.get("trait"): continue
        r.obligations += 1
        tr = re.search(r" as (std::ops::DerefMut|std::convert::AsMut|std::borrow::BorrowMut)", it["trait"])
        if tr and any(re.match(r"&?\S*::%s<" % n, it["path"]) for n in MATS):
            r.findings.append(check.Finding({"C11"}, it["path"], it["loc"], "implements %s: hands out mutable access to its arrays" % tr.group(1), "any history"))
    return r

# ------------------------------------------------------------------ hash-table iteration
HITER = re.compile(r"hash(_map|_set|::map|::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference)\b")
HTYPE = re.compile(r"(HashMap|HashSet)<")
def hash_iterating(m):
    """ids of functions that walk over a hash table"""
    out = set()
    for f in m.list:
        if any(HITER.search(m.types[t]["str"]) for b in bodies(f) if b for t in b["locals"]): out.add(f["id"]); continue
        for k, x, loc in sites(f):
            if k == "fn" and x["name"] in ("extend", "from_iter", "into_iter") and any(isinstance(a, int) and HTYPE.search(m.types[a]["str"]) for a in x.get("a") or ()): out.add(f["id"]); break
    return out
LISTING = {"DoK::to_coo", "DoK::to_string"}
