"""C36: the programs that archive, pipe, compress and decompress product files."""
import json, os, random, re, zlib
from concurrent.futures import ThreadPoolExecutor
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANT Runs = %d
INVARIANTS RoundTrip Piped Twice Filed Archived Skipped Limited
CHECK_DEADLOCK FALSE
"""
TOOLS = ["nbspfile", "nbsppipe", "nbspcat", "nbspz", "nbspunz"]
# no 120: a zlib stream begins with it, and nothing else here
ALPHA = [b for b in range(65, 123) if chr(b).isalpha() and b != 120]
BYTES = ALPHA * 2 + [10] * 14 + [13, 13, 32, 32, 0, 1, 3, 255, 218, 128] + list(range(48, 58))
BAD = 1000

def rle(b): return [[m.group()[0], len(m.group())] for m in re.finditer(rb"(?s)(.)\1*", b)]
def parts(b):
    """The parts of a file; see FileTools."""
    res = []; i = 0; raw = 0
    def flush(to):
        if to > raw: res.append(dict(z=0, d=rle(b[raw:to])))
    while True:
        i = b.find(b"\x78", i)
        if i == -1: break
        z = zlib.decompressobj()
        try: d = z.decompress(b[i:])
        except zlib.error: d = None
        if d is None or not z.eof: i += 1; continue
        flush(i); res.append(dict(z=b[i + 1], d=rle(d))); i = raw = len(b) - len(z.unused_data)
    flush(len(b))
    return res
def content(r, size):
    """About that many bytes, in few runs, mostly short ones."""
    big = size > 400; out = b""
    if r.random() < 0.3: out = bytes([1, 13, 13, 10])
    while len(out) < size:
        left = size - len(out)
        k = r.randrange(1, 4) if not big or r.random() < 0.6 else r.randrange(1, max(2, min(left, size // 6)))
        k = min(k, left); out += bytes([r.choice(BYTES)]) * k
    return out[:size]
def sizes(r, big):
    k = r.random()
    if big and k < 0.5: return 4194304 + r.choice([-1, 0, 1, 24, 500])
    if k < 0.12: return r.choice([0, 1, 2, 23, 24, 25, 26, 27])
    if k < 0.65: return r.randrange(20, 300)
    if k < 0.80: return r.choice([3999, 4000, 4001, 8000, 5199, 5200, 5201, 10400, r.randrange(300, 14000)])
    return r.choice([65535, 65536, 65537, 65536 + 24, 131072, r.randrange(14000, 140000)])

class Case:
    def __init__(w, r, d, exes, big=False):
        w.r, w.d, w.exes, w.ev, w.log, w.err = r, d, exes, [], [], None
        os.makedirs(os.path.join(d, "out")); w.names = []; w.raw = set(); w.bad = set(); w.bytes = {}; w.n = 0
        for k in range(r.randrange(2, 5)):
            b = content(r, sizes(r, big and k == 0)); w.put(w.name("i"), b)
        for k in range(r.choice([0, 1, 2])): w.frames(w.name("z"))
    def name(w, p): w.n += 1; return "%s%d%s" % (p, w.n, w.r.choice(["", "-x", "_y"]))
    def read(w, n):
        try: return open(os.path.join(w.d, n), "rb").read()
        except FileNotFoundError: return None
    def put(w, n, b, f=None):
        open(os.path.join(w.d, n), "wb").write(b); w.names.append(n); f = parts(b) if f is None else f
        if not f or (len(f) == 1 and f[0]["z"] == 0): w.raw.add(n)
        w.ev.append(dict(e="put", n=n, f=f)); w.log.append(("put", n, len(b)))
    def frames(w, n):
        """As from the satellite: some lines, frames, and perhaps an uncompressed one at the end."""
        r = w.r; b = content(r, r.choice([0, 10, 30, 60])); bad = False; f = parts(b)
        for k in range(r.choice([1, 1, 2, 3, 5, 12])):
            d = content(r, r.choice([1, 24, 25, 100, 4000, 4000, 5199, 5200, 5201, 10400, 12000] + [0] * (k > 0)))
            z = zlib.compress(d, r.choice([9, 9, 9, 9, 9, 7, 8] + [1, 6] * (r.random() < 0.2)))
            if r.random() < 0.04 and z[1] == 218 and all(p["z"] in (0, 218) for p in f): z = z[:-1] + bytes([z[-1] ^ 1]); bad = True; f += [dict(z=BAD, d=rle(b"?"))]; b += z; break
            b += z; f += [dict(z=z[1], d=rle(d))]
        if not bad and r.random() < 0.4: t = content(r, r.choice([1, 4, 100, 3000])); b += t; f += parts(t)
        w.put(n, b, f); w.raw.discard(n)
        if bad: w.bad.add(n); w.bytes[n] = b
    def seq(w): r = w.r; return r.choice([0, 5, 10, 99, 100, 999, 1000, 90000, 123456789, 2147483648, 4294967295, r.randrange(1 << 32)])
    def pick(w, raw):
        r = w.r; c = [n for n in w.names if n in w.raw or not (raw or n in w.bad)]
        return "nothere" if r.random() < 0.05 or not c else r.choice(c[-6:])
    def out(w, inp, busy=()):
        """Where the output goes: nowhere else (standard output), a new file, or one that is there."""
        r = w.r; k = r.random()
        if k < 0.25: return ""
        c = [n for n in w.names if n != inp and n not in busy and not n.startswith("i") and not n.startswith("z")]
        if k < 0.55 and c: return r.choice(c)
        return w.name("o")
    def pipe_cmd(w, cat, busy):
        r = w.r; a = []; valid = True; o = dict(n=False, c=24, g=False, seq=[90000 >> 16, 90000 & 65535])
        inp = w.pick(True)
        if r.random() < 0.2 and len(w.names): inp = w.pick(False)
        if r.random() < 0.45 or (inp in w.names and inp not in w.raw): o["n"] = True; a += ["-n"]
        if r.random() < 0.35: o["c"] = r.choice([0, 1, 23, 24, 25, 100, 4000, 65535]); a += ["-c", str(o["c"])]
        if inp in w.names and inp not in w.raw and o["n"] is False: inp = "nothere"
        if r.random() < 0.45: o["g"] = True; a += ["-g"]
        if r.random() < 0.4: s = w.seq(); o["seq"] = [s >> 16, s & 65535]; a += ["-s", str(s)]
        out = w.out(inp, busy); append = out != "" and r.random() < 0.5
        if append: a += ["-a"]
        if r.random() < 0.07: valid = False; a += r.choice([["-q"], ["-c", "65536"], ["-c", "x"], ["-s", "1x"], ["-c", "-1"]] + ([[]] if not cat else [["two"]]))
        if not valid and a and a[-1] != "two" and r.random() < 0.5: a = a[-(2 if a[-1][0] != "-" or a[-1] == "-1" else 1):] + a
        return a, inp, out, append, valid, o
    def run(w):
        r = w.r; k = r.random()
        if k < 0.25: w.pipe()
        elif k < 0.45: w.cat()
        elif k < 0.70: w.file()
        elif k < 0.80: w.z()
        else: w.unz()
    def call(w, argv, cmds, batch, stdin=None):
        outs = sorted({c["out"] for c in cmds if c.get("out")})
        fin = open(os.path.join(w.d, stdin), "rb") if isinstance(stdin, str) else None
        try:
            p = subprocess.run([w.exes[argv[0]]] + argv[1:], cwd=w.d, capture_output=True, timeout=60,
                               **(dict(stdin=fin) if fin else dict(input=stdin if stdin is not None else b"")))
        except subprocess.TimeoutExpired: w.err = "%s does not end" % argv[0]; return
        finally:
            if fin: fin.close()
        w.log.append((" ".join(argv), stdin.decode("latin-1") if isinstance(stdin, bytes) else stdin))
        if p.returncode < 0: w.err = "%s is killed by signal %d" % (argv[0], -p.returncode); return
        post = []
        for n in outs:
            b = w.read(n)
            post.append(dict(n=n, there=b is not None, f=parts(b) if b is not None else []))
            if b is not None:
                if n not in w.names: w.names.append(n)
                f = post[-1]["f"]; (w.raw.add if not f or (len(f) == 1 and f[0]["z"] == 0) else w.raw.discard)(n)
        w.ev.append(dict(e="run", batch=batch, cmds=cmds, ok=p.returncode == 0, stdout=parts(p.stdout), post=post))
    def pipe(w):
        a, inp, out, app, valid, o = w.pipe_cmd(False, ()); r = w.r
        if valid is False and "two" in a: valid = True
        if not valid and not any(x in a for x in ("-q", "65536", "x", "1x", "-1")): a += ["two"] if r.random() < 0.5 else ["-q"]
        cmd = dict(tool="pipe", o=o, valid=valid, out=out, append=app); cmd["in"] = inp
        if out:
            if r.random() < 0.3 and "/" not in out and "out/" + out != inp: a += ["-d", "out"]; cmd["out"] = "out/" + out
            elif r.random() < 0.03: a += ["-d", "nodir"]; cmd["valid"] = False
            a += ["-o", out]
        if r.random() < 0.35 and inp in w.names and valid: w.call(["nbsppipe"] + a, [cmd], False, inp)
        else: w.call(["nbsppipe"] + a + [inp], [cmd], False)
    def cat(w):
        r = w.r; text = b""; cmds = []; outs = set(); ins = set(); failed = set()
        for _ in range(r.choice([0, 1, 2, 3, 6, 10])):
            k = r.random()
            if k < 0.12: text += r.choice([b"\n", b"   \n", b"nbspcat\n", b"x\n"]); continue
            if k < 0.13: text += b"x " + b"y" * 1100 + b"\n"; cmds.append(dict(tool="stop")); break
            a, inp, out, app, valid, o = w.pipe_cmd(True, failed)
            if not valid and not any(x in a for x in ("-q", "65536", "x", "1x", "-1", "two")): a = ["-q"] + a
            if out in ins or inp in outs: continue
            if out: a += ["-o", out]; outs.add(out)
            ins.add(inp)
            cmd = dict(tool="pipe", o=o, valid=valid, out=out, append=app); cmd["in"] = inp; cmds.append(cmd)
            sp = lambda: " " * r.choice([1, 1, 1, 3])
            s = r.choice(["nbspcat", "x", ""  "averylongnameforaprogram"]) + sp() + sp().join(a + [inp]) + " " * r.choice([0, 0, 2])
            if r.random() < 0.05: s += " " * (1022 - len(s))                # as long as a line may be
            text += s.encode() + b"\n"
        w.call(["nbspcat"], cmds, True, text)
    def file(w):
        r = w.r; a = []; valid = True; o = dict(n=False, c=0, t=False, w=False, p=0, z=-1, seq=[90000 >> 16, 90000 & 65535])
        inp = w.pick(True)
        if r.random() < 0.3: o["n"] = True; a += ["-n"]
        if r.random() < 0.3: o["c"] = r.choice([1, 4, 24, 30, 4000, 65535]); a += ["-c", str(o["c"])]
        if r.random() < 0.3: o["t"] = True; a += ["-t"]
        if r.random() < 0.2: o["w"] = True; a += ["-w"]
        if r.random() < 0.4: o["z"] = r.choice([0, 1, 5, 6, 9, 9, 9]); a += ["-z", str(o["z"])]
        elif r.random() < 0.3: o["p"] = r.choice([4000, 4001, 8000, 4194304, 5000000]); a += ["-p", str(o["p"])]
        s = None
        if r.random() < 0.3: s = w.seq(); a += ["-s", str(s)]
        out = w.out(inp); app = out != "" and r.random() < 0.5
        cmd = dict(tool="file", o=o, out=out, append=app); cmd["in"] = inp
        if app: a += ["-a"]
        if out:
            if r.random() < 0.3 and "/" not in out and "out/" + out != inp: a += ["-d", "out"]; cmd["out"] = "out/" + out
            a += ["-o", out]
        if r.random() < 0.06: valid = False; a += r.choice([["-z", "10"], ["-c", "0"], ["-c", "65536"], ["-p", "3999"], ["-p", "2147483648"], ["-q"], ["-s", "x"], ["-z", "a"]])
        stdin = None; nm = inp
        if r.random() < 0.3 and inp in w.names: a += ["-i"]; stdin = inp; nm = r.choice([inp, "any", "ot-her"])
        o["awips"] = "-" in nm
        a += [nm]
        if r.random() < 0.3: s = w.seq(); a += [str(s)]
        elif r.random() < 0.02: a += ["x1"]; valid = False
        if s is not None: o["seq"] = [s >> 16, s & 65535]
        cmd["valid"] = valid
        w.call(["nbspfile"] + a, [cmd], False, stdin)
    def z(w):
        r = w.r; a = []; inp = w.pick(True); level = 9; valid = True
        if r.random() < 0.5: level = r.choice([0, 1, 5, 6, 7, 9]); a += ["-c", str(level)]
        if r.random() < 0.05: a += r.choice([["-c", "10"], ["-q"], ["-c", "z"]]); valid = False
        out = w.out(inp)
        if out: a += ["-o", out]
        cmd = dict(tool="z", level=level, valid=valid, out=out, append=False); cmd["in"] = inp
        w.call(["nbspz"] + a + [inp], [cmd], False)
    def unz(w):
        r = w.r; a = []; skip = n = 0; valid = True
        c = [x for x in w.names if x not in w.raw]
        inp = r.choice(c) if c and r.random() < 0.9 else w.pick(False)
        k = r.random()
        if k < 0.2: skip = 24; a += ["-C"]
        elif k < 0.4: skip = r.choice([0, 1, 24, 25, 4000, 5199, 5200]); a += ["-c", str(skip)]
        if r.random() < 0.3: n = r.choice([0, 1, 1, 2, 3, 20]); a += ["-n", str(n)]
        if r.random() < 0.05: a += r.choice([["-c", "-1"], ["-c", "q"], ["-n", "q"], ["-q"], ["-C", "-c", "1"]]); valid = False
        out = w.out(inp)
        if out: a += ["-o", out]
        cmd = dict(tool="unz", skip=skip, n=n, valid=valid, out=out, append=False); cmd["in"] = inp
        w.call(["nbspunz"] + a + [inp], [cmd], False)
    def look(w):
        files = []
        for root, _, fn in os.walk(w.d):
            for n in fn:
                n = os.path.relpath(os.path.join(root, n), w.d); b = w.read(n)
                if n in w.bad:
                    if b != w.bytes[n]: w.err = "%s was changed" % n
                else: files.append(dict(n=n, f=parts(b)))
        w.ev.append(dict(e="look", files=files, bad=sorted(w.bad)))

def main(pid):
    chk = Check(pid); pool = ThreadPoolExecutor(NCPU)
    b = Build(); fd = os.path.join(b.top, "filters", "filterlib", "c")
    for f in TOOLS + ["strsplit.c", "strsplit.h", "common.h"]:          # copies, or built before
        if os.path.exists(os.path.join(fd, f)): os.unlink(os.path.join(fd, f))
    run(["sh", "-c", "cd %s; ./configure.sh" % fd], cwd=b.top, env=b.env)
    run(["make", ".SHELLFLAGS=-ec", "CCWFLAGS=-Wall -Wextra -Wformat-security"] + TOOLS, cwd=fd, env=b.env)
    exes = {t: os.path.join(fd, t) for t in TOOLS}
    mj = pool.submit(lambda: chk.add_model("every file of up to %d runs" % pick(3, 5), tlc("MCFileTools", MC % pick(3, 5), workers=pick(2, NCPU), timeout=800)))
    top = subdir("ft"); n = pick(500, 6000)
    def go(k):
        r = random.Random(SEED * 1000003 + k); d = os.path.join(top, str(k)); os.makedirs(d)
        w = Case(r, d, exes, big=k % 100 == 7)
        for _ in range(r.randrange(3, 8)):
            w.run()
            if w.err: break
        if not w.err: w.look()
        shutil.rmtree(d)
        return w
    R = list(pool.map(go, range(n)))
    bad = [w for w in R if w.err]
    if bad: mj.result(); chk.violation(bad[0].err, dict(history=bad[0].log)); return chk.finish()
    rej = check_traces(chk, "TraceFileTools", CFG, [w.ev for w in R])
    if rej:
        k, at = rej[0][0] - 1, rej[0][1]; e = R[k].ev[at - 1] if at <= len(R[k].ev) else None
        chk.violation("what a program wrote is not what FileTools says: %s" % json.dumps({x: e[x] for x in e if x not in ("stdout", "post", "files")} if e else at)[:700], dict(history=R[k].log, at=at, trace=R[k].ev, event=e))
    mj.result()
    cnt = {}
    for w in R:
        for e in w.ev:
            for c in e.get("cmds", ()): cnt[c["tool"]] = cnt.get(c["tool"], 0) + 1
    ok = sum(e.get("ok", False) for w in R for e in w.ev if e["e"] == "run"); tot = sum(e["e"] == "run" for w in R for e in w.ev)
    if not tot // 2 < ok < tot * 0.95: raise CheckError("%d of %d programs succeed" % (ok, tot))
    chk.cov["samples"] = [dict(history=R[k].log[:6]) for k in range(3)]
    return chk.finish()
