"""C31: the pattern lists."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *

OPTS = ["acceptpatt", "filterqacceptpatt", "serverqacceptpatt", "nbs1acceptpatt", "nbs2acceptpatt",
        "emwinacceptpatt", "savezacceptpatt", "rtxdbacceptpatt"]
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 MaxList = %d
INVARIANTS UnsetAccepts EmptyRejects NoMatchRejects MatchAll RoundTrip
PROPERTY LastDecides
"""
SPECIAL = b"$()*+.?[\\^{|"
def lit(s): return dict(t="cat", es=[dict(t="chr", c=c) for c in s.encode("latin-1")])

def text(e):
    t = e["t"]
    if t == "chr": return (b"\\" if e["c"] in SPECIAL else b"") + bytes([e["c"]])
    if t in ("any", "bol", "eol"): return {"any": b".", "bol": b"^", "eol": b"$"}[t]
    if t == "set": return b"[" + (b"^" if e["neg"] else b"") + b"".join(bytes([a]) if a == z else bytes([a]) + b"-" + bytes([z]) for a, z in e["s"]) + b"]"
    if t == "cat": return b"".join(text(x) for x in e["es"])
    if t == "alt": return b"|".join(text(x) for x in e["es"])
    if t == "grp": return b"(" + text(e["e"]) + b")"
    if t == "raw": return bytes(e["s"])
    return text(e["e"]) + {"star": b"*", "plus": b"+", "opt": b"?"}[t]

WORDS = ["tjsj", "knhc", "kwal", "fzus", "sdus", "grib", "bufr", "tig", "tjsj_fzus", "_s", "-", "+", "1", "a", "rwr"]
def atom(r, d):
    x = r.random()
    if x < 0.35: return dict(t="chr", c=ord(r.choice("abkwst_-+.0129j*(")))
    if x < 0.5: return dict(t="any")
    if x < 0.7:
        s = r.choice([[[97, 122]], [[48, 57]], [[50, 50], [51, 51], [53, 53], [55, 55]], [[97, 99], [120, 122]], [[115, 115], [97, 97]], [[65, 90]]])
        return dict(t="set", neg=r.random() < 0.25, s=s)
    if d > 0: return dict(t="grp", e=alt(r, d - 1))
    return dict(t="chr", c=ord(r.choice("ab")))
def piece(r, d):
    a = atom(r, d)
    x = r.random()
    return a if x < 0.7 else dict(t=r.choice(["star", "plus", "opt"]), e=a)
def cat(r, d):
    es = []
    if r.random() < 0.25: es.append(dict(t="bol"))
    if r.random() < 0.6: es += lit(r.choice(WORDS))["es"]
    else: es += [piece(r, d) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.2: es += [piece(r, d)]
    if r.random() < 0.2: es.append(dict(t="eol"))
    return dict(t="cat", es=es)
def alt(r, d):
    n = r.choice([1, 1, 1, 2, 3])
    return cat(r, d) if n == 1 else dict(t="alt", es=[cat(r, d) for _ in range(n)])

ALL = dict(t="star", e=dict(t="any"))
def gen_opt(r):
    x = r.random()
    if x < 0.12: return dict(unset=True, text=[], list=[])
    if x < 0.22: return dict(unset=False, text=list(r.choice([b"", b",", b",,,"])), list=[])
    L = []
    if r.random() < 0.4: L.append(dict(neg=False, e=ALL))
    for i in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        L.append(dict(neg=r.random() < 0.4, e=ALL if r.random() < 0.07 else alt(r, 2)))
    fields = [(b"!" if p["neg"] else b"") + text(p["e"]) for p in L]
    txt = b",".join(fields)
    if r.random() < 0.15: txt = b",," + b",,".join(fields) + b","
    return dict(unset=False, text=list(txt), list=L)

def names(r, n):
    out = ["", "tjsj_fzus52-cwfsju.011200_77", "kwal_sdus53-n0rtua.010203_1", "knhc_wtnt31.311200_4294967295", "kwbc_ysaa50-grib.012345_9"]
    while len(out) < n:
        k = r.random()
        if k < 0.5: s = "".join(r.choice(WORDS) for _ in range(r.randrange(1, 4)))
        elif k < 0.8: s = "".join(r.choice("abkwst_-+.0129jABz,!") for _ in range(r.randrange(0, 9)))
        else: s = r.choice(out)[: r.randrange(1, 20)]
        out.append(s)
    return out

def main(pid):
    chk = Check(pid)
    r = random.Random(SEED * 31 + 5)
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(lambda: chk.add_model("all lists of up to %d patterns, names up to %d" % (pick(3, 4), pick(3, 4)),
                     tlc("MCPatterns", MC % (pick(3, 4), pick(3, 4)), workers=4)))
    b = Build()
    exe = b.harness("patt", ["patt.c", "hcommon.c"])
    d = subdir("conf"); traces = []; jobs = []
    BAD = [b"a(", b"[a", b"a)(", b"x[[:foo:]]", b"(", b"a{2", b"[b-a]"]
    def session(k, opts, ns):
        p = os.path.join(d, "c%d" % k)
        with open(p, "w") as f:
            for n, o in zip(OPTS, opts):
                if not o["unset"]: f.write("set %s [binary format H* {%s}]\n" % (n, bytes(o["text"]).hex()))
        sc = ["conf " + p] + ["m %d %s" % (i, n.encode().hex() or "-") for i, n in ns]
        lines, rc, err = run_harness(exe, [], sc, timeout=60, cwd=d)
        ev = []
        for e in lines:
            if e.get("e") == "conf": e["opts"] = opts
            elif e.get("e") == "m": e["name"] = list(ns[len(ev) - 1][1].encode())
            ev.append(e)
        os.remove(p)
        return ev, rc, err, sc
    for k in range(pick(60, 400)):
        opts = [gen_opt(r) for _ in OPTS]
        if k % 12 == 11:     # an option that is not a valid expression
            o = r.randrange(8); bad = dict(neg=False, e=dict(t="raw", s=list(r.choice(BAD))))
            L = [dict(neg=False, e=ALL), bad] if r.random() < .5 else [bad]
            opts[o] = dict(unset=False, list=L, text=list(b",".join(text(p["e"]) for p in L)))
        nn = names(r, 16)
        ns = [(i + 1, n) for n in nn for i in range(8)]
        jobs.append(pool.submit(session, k, opts, ns))
    # distinguishable options: option i accepts exactly the names with its own word
    for k in range(2):
        ws = ["tjsj", "knhc", "kwal", "fzus", "sdus", "grib", "bufr", "tig"]
        opts = [dict(unset=False, list=[dict(neg=False, e=lit(w))], text=list(w.encode())) if k == 0 else
                dict(unset=False, list=[dict(neg=False, e=ALL), dict(neg=True, e=lit(w))], text=list(b".*,!" + w.encode())) for w in ws]
        jobs.append(pool.submit(session, 10000 + k, opts, [(i + 1, "xx_" + w + ".1_2") for w in ws for i in range(8)]))
    info = []
    for j in jobs:
        ev, rc, err, sc = j.result()
        if rc != 0 or not ev:
            chk.violation("the daemon stopped while matching (rc=%s)" % rc, dict(script=sc, err=err)); return chk.finish()
        if ev[0].get("ok") and len(ev) < len(sc): raise CheckError("patt harness: %r" % ev[-1])
        traces.append(ev)
    rej = check_traces(chk, "TracePatterns", CFG, traces)
    if rej:
        n, l = rej[0][0], rej[0][1]; tr = traces[n - 1]; l = min(max(l, 1), len(tr)); e = tr[l-1]
        if e["e"] == "conf": w = "configuration accepted=%s for %s" % (e["ok"], [bytes(o["text"]) for o in e["opts"]])
        else: w = "option %s = %r decides %d (0 accept) for %r" % (OPTS[e["o"]-1], None if tr[0]["opts"][e["o"]-1]["unset"] else bytes(tr[0]["opts"][e["o"]-1]["text"]), e["r"], bytes(e["name"]))
        chk.violation(w, dict(event=e, options=[(n_, None if o["unset"] else bytes(o["text"]).decode("latin-1")) for n_, o in zip(OPTS, tr[0]["opts"])]))
        return chk.finish()
    mj.result()
    chk.cov["samples"] = [dict(option=OPTS[tr[k]["o"]-1], text=bytes(tr[0]["opts"][tr[k]["o"]-1]["text"]).decode("latin-1"), name=bytes(tr[k]["name"]).decode(), r=tr[k]["r"]) for tr in traces[:3] for k in (7, 20) if len(tr) > 20]
    return chk.finish()
