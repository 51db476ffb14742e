"""Build symbolic arguments from a function's type and summarise it."""
from terms import *
import terms as TM
from interp import Interp, Event
import models, native, time

class Summary: pass
ROLES = {}      # (struct path, field name) -> role, when private fields are renamed

def argval(I, fr, name, tid, st, flags, gm={}):
    d = I.ty(tid); k = d["k"]
    while k == "param" and d["n"] in gm: tid = gm[d["n"]]; gm = {}; d = I.ty(tid); k = d["k"]
    def srt(t):
        d = I.ty(t)
        if d["k"] == "param" and d["n"] in gm: return I.sort(fr, gm[d["n"]])
        if d["k"] == "adt" and d["p"] == "std::vec::Vec": return ("S", srt(d["a"][0]))
        return I.sort(fr, t)
    fl = flags.get(name, "ptr" if flags.get("#ptr", True) and name.endswith(("rowptr", "colptr")) else "")
    if k == "ref":
        c = mk("cell", "arg", name)
        inner = I.ty(d["t"])
        if inner["k"] == "ref":         # reference to a reference: the outer cell gets its own name
            c = mk("cell", "argref", name + "&")
        st[c] = argval(I, fr, name, d["t"], st, flags, gm)
        return mk("ref", c, ())
    if name in flags and isinstance(flags[name], T): return flags[name]
    if k == "param" and any(pr[0] == d["n"] and pr[1] == "std::io::Write" for pr in fr.fn["preds"]): return sseq(name, "o", "", None)
    if k in ("int", "param", "float"):
        s = srt(tid)
        return P(sym(name, {"i": "nn", "z": "", "t": "t"}[s]))
    if k == "bool": return bvar(sym(name, "b"))
    if k == "array" and str(d.get("n")).isdigit() and int(d["n"]) <= 4:
        return lit(*[argval(I, fr, "%s.%d" % (name, i), d["t"], st, flags, gm) for i in range(int(d["n"]))])
    if k in ("slice", "array") or (k == "adt" and d["p"] == "std::vec::Vec"):
        es = srt(d["t"] if k != "adt" else d["a"][0])
        return sseq(name, es, fl if isinstance(fl, str) else "", None)
    if k == "fnptr":
        return mk("fnsym", name, I.sort(fr, d["o"]) if "o" in d else "t")
    if k == "tuple":
        return tup(*[argval(I, fr, "%s.%d" % (name, i), x, st, flags, gm) for i, x in enumerate(d["a"])])
    if k == "adt":
        if d["p"].endswith("HashMap"):
            ks = I.ty(d["a"][0]); vs = srt(d["a"][1])
            return models.smap(name, vs)
        ad = next((a for a in I.mir.adts.values() if a["path"] == d["p"]), None)
        if d["p"].endswith("full::Mat") or d["p"] == "full::Mat":
            pass
        if d["p"].endswith("Complex"):
            return P(sym(name, "t"))
        if ad is not None and ad["local"] and len(ad["v"]) == 1:
            fs = []
            g2 = {n: gm.get(I.ty(t).get("n"), t) if I.ty(t)["k"] == "param" else t for n, t in zip(ad.get("gen", []), d["a"])}
            for i, f in enumerate(ad["v"][0]["f"]):
                fs.append(argval(I, fr, "%s.%s" % (name, ROLES.get((d["p"], f["n"]), f["n"])), f["ty"], st, flags, {a: b for a, b in g2.items() if not (I.ty(b)["k"] == "param" and I.ty(b)["n"] == a)}))
            return agg(d["p"], 0, *fs)
        if d["p"] == TM.OPT:
            return ite(bvar(sym(name + "?", "b")), some(argval(I, fr, name + "!", d["a"][0], st, flags, gm)), NONE)
    return mk("sym", name, "o:" + d["str"])

def summarise(mir, fid, flags=None, contracts=None, args=None):
    I = Interp(mir, contracts)
    I.allsigned = bool((flags or {}).get("#signed"))       # the generic index type is signed
    f = mir.fns[fid]
    fr = I.frame(f, "top")
    st = {}
    names = {p[0]: n for n, p in f["body"]["names"] if not p[1]}
    av = []
    for i in range(f["body"]["argc"]):
        n = "a%d" % i
        if args and n in args: av.append(args[n])
        else: av.append(argval(I, fr, n, f["body"]["locals"][i + 1], st, flags or {}))
    s = Summary(); s.argnames = names
    native.init(st)
    init = dict(st)
    s.I = I; s.fid = fid; s.init = init
    t = time.time()
    s.ret = I.call_local(f, av, st, "top")
    s.time = time.time() - t
    s.st = st; s.ev = I.ev; s.notes = I.notes; s.stats = I.loopstats
    s.out = {c.args[1]: v for c, v in st.items() if c.args[0] == "arg"}
    return s

if __name__ == "__main__":
    import sys, traceback
    from mirlib import Mir
    m = Mir("/verif/build/mir.json")
    pats = sys.argv[1:]
    PTR = {"a_p": "ptr", "b_p": "ptr", "Ap": "ptr"}
    import signal
    def alarm(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, alarm)
    for f in m.list:
        signal.alarm(15)
        if f["kind"] == "Closure": continue
        if not any(p in f["id"] for p in pats): continue
        try:
            s = summarise(m, f["id"], PTR)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-3:]
            print("EXC", f["id"], type(e).__name__, str(e)[:200], [(x.filename.split("/")[-1], x.lineno) for x in tb]); 
            if len(pats) == 1 and pats[0] == f["id"]: traceback.print_exc()
            continue
        print("==", f["id"], "%.2fs" % s.time, s.stats, "notes %d ev %d" % (len(s.notes), len(s.ev)))
        if len(pats) == 1 and "-v" not in pats or True:
            if s.ret is not None and s.ret is not UNIT: print("  ret =", show(s.ret)[:600])
            for c, v in s.st.items():
                if s.init.get(c) is not v: print("  %s := %s" % (c.args[1], show(v)[:1500]))
            for n in s.notes[:6]: print("  note", n[0][:400])
            for e in s.ev[:12]: print("  ev", repr(e)[:300])
