"""C37: the programs that read radar products and turn them into shapes."""
import bz2, json, math, os, random, re, struct, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANTS Runs = %d
 Days = %d
INVARIANTS Cover Filter Monotone Narrow Calendar Epoch
CHECK_DEADLOCK FALSE
"""
TOOLS = ["nbspradinfo", "nbspradgis"]
RLE, DIG = 0xaf1f, 16
KM, RAD = 111.111, math.pi / 180
EXT = {"F": ".dbf", "O": ".info", "P": ".shp", "V": ".csv", "X": ".shx"}
LOW = {"F": "f", "O": "o", "P": "p", "V": "v", "X": "x"}
def micro(x): return int(("%.6f" % x).replace(".", ""))
def milli(x): return int(("%.3f" % x).replace(".", ""))
def fixed(s, k):
    m = re.fullmatch(r"(-?)(\d+)\.(\d{%d})" % k, s)
    if not m: raise ValueError("not a number with %d decimals: %r" % (k, s))
    return int(m[2] + m[3]) * (-1 if m[1] else 1)
def clock(s): s = int(s); return [s // 86400, s % 86400]

class Product:
    """A product, its bytes, and what the specification is told of it."""
    def __init__(w, r, big=False):
        w.awips = r.choice(["n0rjua", "N0QJUA", "n1pSJT", "ntp001"])
        ok = r.random() < 0.72
        packet = r.choice([RLE, RLE, DIG])
        code = r.choice([19, 20, 27, 56, 78, 80] if packet == RLE else [94, 94, 99]); mode = r.choice([1, 2])
        if not ok and r.random() < 0.25: code = r.choice([19, 20, 27, 56, 78, 80, 94, 99, 0, 32, 95])
        if not ok and r.random() < 0.15: mode = r.choice([0, 3, 65535])
        if not ok and r.random() < 0.10: packet = r.choice([0, 1, 17, 0xaf1e])
        scale = r.choice([1000, 1000, 999, 2000, 250, 500, 1] if packet == RLE else [250, 1000, 999, 2000])
        rads = []; start = r.choice([0, 5, 900, 1800, 3550, r.randrange(3600)]); budget = r.choice([0, 3, 20, 60, 90])
        lats = r.choice([18116, 41597, -33869, 0, 64511]); lon = r.choice([-66078, -112862, 144811, 0, -165295])
        for k in range(r.choice([0, 1, 2, 3, 6])):
            delta = r.choice([10, 10, 10, 5, 20, 0, 3, 100])
            runs, cost, at = [], 0, 0
            for _ in range(r.choice([1, 2, 3, 5, 8, 12])):
                n = r.choice([1, 1, 2, 3, 5, 9, 15, 0]); c = r.choice([0, 0, 1, 2, 7, 8, 9, 14, 15, r.randrange(16)])
                if packet != RLE: n = r.choice([1, 1, 2, 5, 30, 100]); c = r.choice([0, 0, 0, 1, 1, 2, 3, 66, 67, 128, 129, 127, 254, 255, r.randrange(256)])
                if packet != RLE and c >= 2: n = min(n, 4)
                m = n * (max(1, math.ceil(scale / 1000)) if packet == RLE else 1) * (1 + delta * (at + n) * scale // 572957)
                if m > budget and not (packet == RLE and n == 0) and not (packet != RLE and c < 2): continue
                if packet == RLE and 0 < n and m <= budget or packet != RLE and c >= 2: budget -= m
                runs.append([n, c]); at += n
            b = b"".join(bytes([n << 4 | c]) if packet == RLE else bytes([c]) * n for n, c in runs)
            if packet == RLE and len(b) % 2: runs.append([0, 0]); b += b"\0"
            rads.append((dict(start=start, delta=delta, len=len(b), runs=runs), b)); start += delta
            if start > 3600 and r.random() < 0.7: start -= 3600
        if big:                                   # more than the first guess at the size of the expanded data
            code, packet, mode, scale = 94, DIG, 2, 250
            rads = [(dict(start=10 * k % 3600, delta=10, len=1200, runs=[[1199, 0], [1, 1]]), bytes(1199) + b"\1") for k in range(r.choice([250, 460]))]
            rads += [(dict(start=20, delta=5, len=2, runs=[[1, 90], [1, 200]]), bytes([90, 200]))]
        count = len(rads)
        if not ok and r.random() < 0.25: count += r.choice([1, 2, 300])
        elif count and r.random() < 0.1: count -= 1
        body = b"".join(struct.pack(">HhH", x["len"] // 2 if packet == RLE else x["len"], x["start"], x["delta"]) + b for x, b in rads)
        div = ok or r.random() < 0.9
        body = struct.pack(">hHIH", -1 if div else r.choice([0, 1, 2000]), 1, len(body) + 30, 1) + struct.pack(">hI", -1, len(body) + 14) + struct.pack(">HhHhhHH", packet, 0, 230, 0, 280, scale, count) + body
        if not ok and r.random() < 0.3 and div: body = body[:r.choice([r.randrange(len(body) + 1), r.randrange(len(body) + 1), len(body) - 1, 30, 29, 2, 1, 35, 36])]
        size = len(body); bz = big or div and size > 2 and r.random() < 0.4; whole = True
        if not div or size < 2: bz, whole = True, False                   # taken for compressed data
        elif bz:
            data = bz2.compress(body, r.choice([1, 9]))
            if not ok and r.random() < 0.4: whole = False; data = data[:len(data) - r.randrange(1, len(data) - 2)]
            body = data
        if size < 2: bz, whole, size = False, True, 0
        extra = r.choice([0, 0, 4, 100]) if not bz or whole else 0
        mlen = len(body) + 120; tail = os.urandom(0) + bytes(r.randrange(256) for _ in range(extra))
        if not ok and r.random() < 0.15: mlen = r.choice([0, 119, 120, mlen + extra + 1])
        days = r.choice([1, 14000, 15000, 20000, 24855, r.randrange(1, 24856), 12478, 17592]); secs = r.choice([0, 59, 60, 86399, r.randrange(86400), 90000]) if days < 24855 else r.randrange(11000)
        height = r.choice([0, 2794, 65535])
        hdr = struct.pack(">HHIIHHH", code if r.random() < 0.9 else 5, days, secs, mlen, 1, 2, 3)
        hd = ok or r.random() < 0.93
        hdr += struct.pack(">hiiHHH", -1 if hd else r.choice([0, 120, -2]), lats, lon, height, code, mode)
        hdr += bytes(r.randrange(256) for _ in range(120 - len(hdr)))
        wmo = bytearray(b"SDUS5%d TJUA %06d\r\r\n" % (r.randrange(10), r.randrange(320000)) + w.awips.encode() + b"\r\r\n"); good = True
        if not ok and r.random() < 0.1: wmo[r.choice([1, 5, 17, 18, 20, 21, 26, 27, 28, 29])] = r.choice([7, 1, 127]); good = False
        f = bytes(wmo) + hdr + body + tail
        if not ok and r.random() < 0.1: f = f[:r.choice([149, 150, 151, 30, r.randrange(1, len(f))])]
        n = len(f); pre = b"\1\r\r\n345 \r\r\n"[:11] if r.random() < 0.3 else b""
        w.junk = r.choice([0, 0, 24, 24, 4, 5000]); junk = (b"@ABC" + bytes(r.randrange(1, 250) for _ in range(w.junk)))[:w.junk]
        w.bytes = junk + pre + f; w.at = w.junk + len(pre); w.big = big
        w.h = dict(days=days, secs=secs, lat=lats, lon=lon, height=height, mode=mode, code=code, len=mlen)
        w.b = dict(bz=bz, whole=whole, size=size, div=div, packet=packet, scale=scale, count=count, radials=[x for x, _ in rads])
        w.wmo, w.hd, w.size, w.lon, w.lat = good, hd, n, lon, lats
    def event(w, skip):
        first = w.bytes[skip:skip + 1]
        return dict(e="put", f=dict(alnum=bool(first) and first.isalnum(), at=w.at, size=w.size, wmo=w.wmo, div=w.hd), h=w.h, b=w.b, awips=w.awips.lower())

def polar(p, lon, lat):
    dl = p[1] - lat; y = dl * KM; x = (p[0] - lon) * KM * math.cos((lat + dl / 2) * RAD)
    return [round(1000 * math.hypot(x, y)), round(1000 * math.degrees(math.atan2(x, y)))]
def head(b):
    code, ln = struct.unpack(">I20xI", b[:28]); v, t = struct.unpack("<II", b[28:36]); box = struct.unpack("<4d", b[36:68])
    return dict(there=True, code=code, version=v, type=t, len=ln, bytes=len(b), box=[micro(x) for x in box])
def shp(b):
    s = head(b); recs, pts = [], []
    for i in range(100, len(b), 136):
        num, ln = struct.unpack(">II", b[i:i + 8]); t, = struct.unpack("<I", b[i + 8:i + 12]); box = struct.unpack("<4d", b[i + 12:i + 44])
        parts, points, part0 = struct.unpack("<III", b[i + 44:i + 56]); d = struct.unpack("<10d", b[i + 56:i + 136]); p = [(d[k], d[k + 1]) for k in range(0, 10, 2)]
        pts.append(p); recs.append(dict(num=num, len=ln, type=t, parts=parts, points=points, part0=part0, box=[micro(x) for x in box], pts=[[micro(x), micro(y)] for x, y in p]))
    return dict(s, recs=recs), pts
def shx(b): return dict(head(b), recs=[list(struct.unpack(">II", b[i:i + 8])) for i in range(100, len(b), 8)])
def dbf(b):
    n, hl, rl = struct.unpack("<IHH", b[4:12]); fields = []; i = 32
    while b[i] != 13: fields.append([b[i:i + 11].split(b"\0")[0].decode(), chr(b[i + 11]), b[i + 16], b[i + 17]]); i += 32
    rows = [[chr(b[k]), [int(b[k + 1:k + 4]), int(b[k + 4:k + 7])]] for k in range(hl, hl + n * rl, rl)]
    if not hl + n * rl <= len(b) <= hl + n * rl + 1: raise ValueError("%d bytes for %d records" % (len(b), n))
    return dict(there=True, n=n, hlen=hl, rlen=rl, fields=fields, rows=rows)
def csv(t):
    rows = []
    for s in t.splitlines():
        p, c, v = s.split(","); p = [fixed(x, 3) for x in p.split(" ")]
        rows.append(dict(pts=[p[k:k + 2] for k in range(0, len(p), 2)], code=[int(c), int(v)]))
    return dict(there=True, rows=rows)
def info(t):
    d = dict(s.split(": ") for s in t.splitlines())
    return dict(there=True, time=clock(d["radseconds"]), mode=int(d["radmode"]), prod=int(d["prodcode"]), packet=int(d["packetcode"]),
                lon=fixed(d["lon"], 3), lat=fixed(d["lat"], 3), height=int(d["height"]), box=[fixed(x, 6) for x in d["bb"].split(" ")])

class Case:
    def __init__(w, r, d, exes, big=False):
        w.r, w.d, w.exes, w.ev, w.log, w.err = r, d, exes, [], [], None
        w.p = Product(r, big); open(os.path.join(d, "in"), "wb").write(w.p.bytes)
        w.skip = w.p.junk if r.random() < 0.92 else r.choice([0, 1, 24, w.p.junk + 11, w.p.junk + 1, len(w.p.bytes), len(w.p.bytes) + 1])
        w.ev.append(w.p.event(w.skip)); w.log.append(("product", dict(h=w.p.h, b=dict(w.p.b, radials=w.p.b["radials"][:20]), at=w.p.at, size=w.p.size)))
    def call(w, tool, a):
        r = w.r; valid = True
        if w.skip == 24 and r.random() < 0.5: a = ["-C"] + a
        elif w.skip: a = ["-c", str(w.skip)] + a
        k = r.random(); f = os.path.join(w.d, "in")
        if k < 0.02: a = a + ["-C", "-c", "3"]; valid = False
        elif k < 0.03: a = a + ["-c", "x"]; valid = False
        elif k < 0.04: a = a + ["-c", "0"]; valid = False
        elif k < 0.05: a = a + [f, f]; valid = False
        try:
            if r.random() < 0.5:
                p = subprocess.run([w.exes[tool]] + a + [f], cwd=w.out, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
                rc, o = p.returncode, p.stdout
            else:
                q = subprocess.Popen([w.exes[tool]] + a, cwd=w.out, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL); b = w.p.bytes
                try:
                    for _ in range(r.choice([0, 0, 0, 1, 2, 3])):               # as it comes through a pipe
                        k = r.choice([1, 12, 30, 100, 160, w.skip + 5]); q.stdin.write(b[:k]); q.stdin.flush(); b = b[k:]; time.sleep(0.003)
                    q.stdin.write(b); q.stdin.close()
                except BrokenPipeError: pass
                q.stdin = None; o, _ = q.communicate(timeout=60); rc = q.returncode
        except subprocess.TimeoutExpired: w.err = "%s does not end" % tool; return None
        w.log.append([tool] + a)
        if rc < 0: w.err = "%s is killed by signal %d" % (tool, -rc); return None
        return rc, o, valid
    def info(w):
        r = w.r; o = dict(q=r.random() < 0.4, t=r.random() < 0.3, l=r.random() < 0.3); w.out = w.d
        x = w.call("nbspradinfo", ["-" + k for k in "qtl" if o[k]])
        if not x: return
        s = x[1].decode("latin-1"); v = s.split(" ") if s else []
        if v:
            if not o["t"] and not o["l"]: v = [fixed(v[0], 3), fixed(v[1], 3), int(v[2])] + clock(v[3]) + [int(c) for c in v[4:]]
            else: v = clock(v[0]) * o["t"] + [int(c) for c in v[1 if o["t"] else 0:]]
        w.ev.append(dict(o, e="info", skip=w.skip, valid=x[2], status=x[0], out=v))
    def gis(w, k):
        r = w.r; w.out = os.path.join(w.d, "out%d" % k); os.mkdir(w.out); a = []; names = []; base = ""
        outs = r.choice(["", "", "a", "FOPVX", "PX", "V", "P", "FX", "O", "FV", "PVO"]); spec = "FOPX" if outs == "" else "FOPVX" if outs == "a" else outs
        if r.random() < 0.5: base = r.choice(["b", "some.name"]); a += ["-n", base]
        for c in outs:
            if c != "a" and r.random() < 0.3: names.append([EXT[c], "its" + c + ".x"]); a += ["-" + LOW[c], "its%s.x" % c]
            else: a += ["-" + c]
        lo, hi = r.choice([(0, 0), (0, 0), (0, 0), (-1000, 1000), (5, 20), (-64, -10), (20, 10), (7, 7), (10, 11), (-32, 4)])
        runs = [c for x in w.p.b["radials"][:20] for _, c in x["runs"]]
        if runs and r.random() < 0.4:                                        # limits which are the level of a run
            c = r.choice(runs); v = r.choice([c * 5, c * 4 - 32] if w.p.b["packet"] == RLE else [(c - 2) // 2 - 32, (c - 2) // 2 - 32, c - 129, (c - 2) // 2 - 64])
            lo, hi = r.choice([(v, 1000), (-1000, v), (v, v), (v - 1, v), (v, v + 1)])
        if lo or hi: a += ["-M", str(lo), "-N", str(hi)]
        if r.random() < 0.3: a += ["-D"]
        if r.random() < 0.2:
            a += ["-d", "sub"]; os.mkdir(os.path.join(w.out, "sub")); sub = "sub"
        else: sub = "."
        x = w.call("nbspradgis", a)
        if not x: return
        if any(not os.path.isdir(os.path.join(w.out, n)) for n in os.listdir(w.out)) and sub == "sub": w.err = "a file outside the directory of -d"; return
        if base: names = names + [[EXT[c], base + EXT[c]] for c in spec if EXT[c] not in [n[0] for n in names]]
        e = dict(e="gis", skip=w.skip, valid=x[2], status=x[0], min=lo, max=hi, outs=[EXT[c] for c in spec], names=names, files=[], ps=[])
        for c in EXT.values(): e[c[1:]] = dict(there=False)
        dd = os.path.join(w.out, sub); pts = None
        try:
            for n in sorted(os.listdir(dd)):
                if n == "sub": continue
                ext = next((q for q, m in names if m == n), None); m = re.fullmatch(r"(.*)_(\d{4})(\d\d)(\d\d)_(\d\d)(\d\d)(\.\w+)", n)
                if ext: e["files"].append(dict(ext=ext, s=n, t=[]))
                elif m: ext = m[7]; e["files"].append(dict(ext=ext, s="", t=[m[1]] + [int(v) for v in m.groups()[1:6]]))
                else: e["files"].append(dict(ext="?", s=n, t=[])); continue
                b = open(os.path.join(dd, n), "rb").read()
                if x[0]: continue
                if ext == ".shp": e["shp"], pts = shp(b)
                elif ext == ".shx": e["shx"] = shx(b)
                elif ext == ".dbf": e["dbf"] = dbf(b)
                elif ext == ".csv": e["csv"] = csv(b.decode("latin-1"))
                elif ext == ".info": e["info"] = info(b.decode("latin-1"))
        except (ValueError, KeyError, struct.error, IndexError) as x: w.err = "nbspradgis wrote %s, which is not what its name says: %s" % (n, x); return
        rows = [v["code"] for v in e["csv"]["rows"]] if e["csv"]["there"] else [v[1] for v in e["dbf"]["rows"]] if e["dbf"]["there"] else None
        at = [[polar(q, w.p.lon / 1000, w.p.lat / 1000) for q in p[:4]] for p in pts] if pts is not None else None
        n = max(len(v) for v in (rows, at, []) if v is not None)
        if rows is None and at is None and e["shx"]["there"]: n = len(e["shx"]["recs"])
        e["known"] = rows is not None or at is not None or e["shx"]["there"]
        e["ps"] = [dict(code=rows[i] if rows is not None and i < len(rows) else [], at=at[i] if at is not None and i < len(at) else []) for i in range(n)]
        w.n = n; w.ev.append(e)

def main(pid):
    chk = Check(pid); pool = ThreadPoolExecutor(NCPU)
    b = Build(); fd = os.path.join(b.top, "filters", "filterlib", "c"); dc = os.path.join(fd, "dcnids")
    for f in TOOLS:
        if os.path.exists(os.path.join(dc, f)): os.unlink(os.path.join(dc, f))
    run(["sh", "-c", "cd %s; ./configure.sh" % fd], cwd=b.top, env=b.env)
    run(["make", ".SHELLFLAGS=-ec", "CCWFLAGS=-Wall -Wextra -Wformat-security"] + TOOLS, cwd=dc, env=b.env)
    exes = {t: os.path.join(dc, t) for t in TOOLS}
    k = (pick(2, 3), pick(2000, 24856))
    mj = pool.submit(lambda: chk.add_model("every radial of up to %d runs, every product; %d days" % k, tlc("MCRadGis", MC % k, workers=pick(2, NCPU), timeout=800)))
    top = subdir("rg"); n = pick(1500, 20000)
    def go(k):
        r = random.Random(SEED * 1000003 + k); d = os.path.join(top, str(k)); os.makedirs(d)
        w = Case(r, d, exes, big=k % 250 == 7)
        for i in range(r.randrange(1, 4)):
            w.info() if r.random() < 0.3 else w.gis(i)
            if w.err: break
        shutil.rmtree(d)
        return w
    R = list(pool.map(go, range(n)))
    bad = [w for w in R if w.err]
    if bad: mj.result(); chk.violation(bad[0].err, dict(history=bad[0].log, bytes=bad[0].p.bytes.hex()[:20000])); return chk.finish()
    rej = check_traces(chk, "TraceRadGis", CFG, [w.ev for w in R])
    if rej:
        k, at = rej[0][0] - 1, rej[0][1]; e = R[k].ev[at - 1] if at <= len(R[k].ev) else None
        chk.violation("what a radar program printed or wrote is not what RadGis says: %s" % json.dumps({x: e[x] for x in ("e", "status", "out", "files", "min", "max", "outs") if x in e} if e else at)[:700], dict(history=R[k].log, at=at, trace=R[k].ev, event=e, bytes=R[k].p.bytes.hex()[:20000]))
    mj.result()
    tot = sum(e["e"] == "gis" for w in R for e in w.ev); ok = [e for w in R for e in w.ev if e["e"] == "gis" and e["status"] == 0]; polys = sum(len(e["ps"]) for e in ok)
    if not rej and (not tot // 2 < len(ok) < tot * 0.95 or polys < 2 * n): raise CheckError("%d of %d, %d polygons" % (len(ok), tot, polys))
    chk.cov["samples"] = [dict(history=R[k].log[:6]) for k in range(3)]
    return chk.finish()
