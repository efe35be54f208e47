"""C26 (announcement packets), C25 (EMWIN packets)."""
import json, os, random, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 NameField = 19
 Id = 2
 FreeAt = 0
INVARIANT NotExplained
CHECK_DEADLOCK TRUE
"""
MC = """SPECIFICATION Spec
CONSTANTS NameField = 3
 Id = 2
 Chars = {%s}
 MaxName = 2
 PathField = 3
 Bytes = {%s}
INVARIANTS RoundTrip Damaged Truncated Streams
"""
MCE = """SPECIFICATION Spec
CONSTANTS MaxPart = %d
INVARIANTS NumberOk RoundTrip OneOnly
"""
word = lambda n: [n >> 16, n & 0xffff]
hx = lambda b: bytes(b).hex() or "-"
CHARS = b"abcdefghijklmnopqrstuvwxyz0123456789_-+./"

def packet(r, psize, seq=None, codes=None, fname=None, fpath=None, ident=2, size=None, sum_=None, fsize=None):
    seq = r.choice([0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32)]) if seq is None else seq
    codes = [r.choice([0, 1, 5, 127, 128, 255, r.randrange(256)]) for _ in range(4)] if codes is None else codes
    fname = bytes(r.choice(CHARS) for _ in range(r.choice([0, 1, 11, 17, 18]))) if fname is None else fname
    fpath = b"/" + bytes(r.choice(CHARS) for _ in range(r.choice([0, 1, 20, psize - 3, psize - 2]))) if fpath is None else fpath
    d = struct.pack(">I4B", seq, *codes) + fname.ljust(19, b"\0") + fpath.ljust(psize if fsize is None else fsize, b"\0")
    return struct.pack(">III", ident, len(d) if size is None else size, (sum(d) if sum_ is None else sum_) & 0xffffffff) + d

SIZES = [0, 1, 7, 8, 26, 27, 28, 29, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff4, 0xfffffff3, 0xfffffff5, 0x10000, 0x7ffffff4, 0xffff]
def damaged(r, psize):
    b = bytearray(packet(r, psize)); x = r.random()
    n = len(b) - 12
    if x < 0.3: b[r.randrange(len(b))] ^= r.choice([1, 2, 0x80, 0xff, r.randrange(1, 256)])
    elif x < 0.4: b[r.randrange(12)] ^= 1 << r.randrange(8)
    elif x < 0.6: b[4:8] = struct.pack(">I", r.choice(SIZES + [n - 1, n + 1, n + 12, n - r.randrange(30), n + r.randrange(1, 4096)]) & 0xffffffff)
    elif x < 0.7: b[:] = b[:r.randrange(len(b) + 1)]
    elif x < 0.78: b[:] = packet(r, psize, ident=r.choice([0, 1, 3, 0x02000000, 0x10002, 258]))
    elif x < 0.86:            # consistent, but the name or the path is not terminated inside its field
        if r.random() < 0.5: b[:] = packet(r, psize, fname=b"a" * 19)
        else: b[:] = packet(r, psize, fpath=b"p" * psize)
    elif x < 0.94:            # consistent, of another size
        k = r.choice([0, 1, 2, 5, psize - 1, psize + 1, psize + 7])
        b[:] = packet(r, k, fpath=b"p" * max(0, k - r.randrange(2)))
    else:
        i = r.randrange(12, len(b)); j = r.randrange(12, len(b)); b[i], b[j] = b[j], b[i]   # same sum
    return bytes(b)
def short(r):
    """Too small to hold all the fields, but with the right sum."""
    d = bytes(r.randrange(256) for _ in range(r.randrange(28)))
    return struct.pack(">III", 2, len(d), sum(d)) + d

def packets(psize, seed, n, kind):
    r = random.Random(seed); out = []
    for i in range(n):
        if kind == "pk":
            b = packet(r, psize); f = b[12:]
            fn = f[8:27].rstrip(b"\0"); fp = f[27:].rstrip(b"\0")
            seq = struct.unpack(">I", f[:4])[0]
            out.append((dict(f=dict(seq=word(seq), type=f[4], cat=f[5], code=f[6], ch=f[7], fname=list(fn), fpath=list(fp))),
                        "pk %d %d %d %d %d %s %s" % (seq, f[4], f[5], f[6], f[7], hx(fn), hx(fp))))
        elif kind == "un":
            b = damaged(r, psize) if r.random() < 0.7 else short(r) if r.random() < 0.5 else packet(r, psize)
            out.append((dict(bytes=list(b)), "un " + hx(b)))
        else:
            s = b""
            for k in range(r.randrange(5)): s += packet(r, psize) if r.random() < 0.7 else packet(r, r.randrange(1, psize + 1), fpath=b"")
            x = r.random()
            if x < 0.6: s += damaged(r, psize) + packet(r, psize)
            elif x < 0.8: s += packet(r, psize)[:r.randrange(12 + 27 + psize)]
            out.append((dict(bytes=list(s), max=12 + 27 + psize), "rc %d %s" % (r.choice([1, 3, 11, 100, 4096]), hx(s))))
    return out
def bytewise(psize, kind):
    """One packet with every byte changed, and cut at every place."""
    r = random.Random(5); b = packet(r, psize, codes=[1, 2, 128, 0], fname=b"tjsj_fzus42-hsf", fpath=b"/spool/tjsj/x"); out = []
    for i in range(len(b)):
        for v in (0, 255, (b[i] + 1) & 255):
            c = bytearray(b); c[i] = v; out.append(bytes(c))
        out.append(b[:i])
    mk = (lambda c: (dict(bytes=list(c)), "un " + hx(c))) if kind == "un" else (lambda c: (dict(bytes=list(b + c + b), max=12 + 27 + psize), "rc 4096 " + hx(b + c + b)))
    return [mk(c) for c in (out if kind == "un" else out[::pick(7, 2)])]

def emwin(seed, sizes):
    r = random.Random(seed); out = []
    for n in sizes:
        k = r.randrange(4)
        f = bytes([255] * n) if k == 0 else bytes(n) if k == 1 else bytes(r.randrange(256) for _ in range(n)) if k == 2 else bytes((i * 31) & 255 for i in range(n))
        name = "".join(r.choice("abcxyzABCXYZ0189_-.") for _ in range(r.choice([1, 5, 11, 12, 12, 13, 20])))
        if r.random() < 0.4: name = "fzus42xx.txt"
        out.append((dict(name=list(name.encode()), file=list(f)), "em %s %s" % (hx(name.encode()), hx(f))))
    return out

def queuedump(b, psize, pool):
    """The same bytes decoded by nbspqdc, the reader of queue dumps."""
    exe = os.path.join(b.top, "utils/nbspqdump/nbspqdc"); traces = []
    r = random.Random(SEED + 9)
    items = r.sample(bytewise(psize, "un"), pick(120, 500)) + packets(psize, SEED + 7, pick(150, 600), "un")
    items = [i[0]["bytes"] for i in items if i[0]["bytes"]]
    traces.append([dict(e="u", bytes=x, r=y) for x, y in zip(items, pool.map(lambda x: alone(exe, x), items))])
    good = [packet(r, psize) for k in range(100)]       # a whole dump
    p = subprocess.run([exe, "-s", str(len(good[0]))], input=b"".join(x.hex().encode() + b"\n" for x in good), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    out = p.stdout.split(b"\n")
    traces.append([dict(e="u", bytes=list(x), r=parse(out[i]) if i < len(out) else dict(ok=False)) for i, x in enumerate(good)])
    return traces

def main(pid):
    chk = Check(pid)
    pool = ThreadPoolExecutor(NCPU)
    if pid == "C26":
        mj = [pool.submit(lambda: chk.add_model("packets", tlc("MCPacket", MC % (("97, 32", "0, 1, 2, 3, 13, 14, 15, 97, 128, 255") if thorough() else ("97", "0, 1, 13, 255")), workers=3, timeout=800), "all packets over small alphabets, any byte replaced, any truncation"))]
    else:
        mj = [pool.submit(lambda: chk.add_model("Emwin", tlc("MCEmwin", MCE % pick(3, 4), workers=3, timeout=800), "products of 0 to %d packets around every boundary, sums and numbers of every width" % pick(3, 4)))]
    b = Build(dirs=("src", "utils/nbspqdump") if pid == "C26" else ("src",))
    exe = b.harness("wire", ["wire.c", "hcommon.c"])
    spool = subdir("sp"); T = thorough()
    psize = len(spool) + 4 + 1 + 1 + 36 + 1
    jobs = []
    if pid == "C26":
        jobs.append(bytewise(psize, "un")); jobs.append(bytewise(psize, "rc"))
        for k in range(pick(6, 30)):
            jobs.append(packets(psize, SEED * 100 + k, 60, "pk")); jobs.append(packets(psize, SEED * 100 + k, 150, "un")); jobs.append(packets(psize, SEED * 100 + k, 40, "rc"))
    else:
        edge = [0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073]
        jobs.append(emwin(SEED, edge)); jobs.append(emwin(SEED + 50, edge + [9 * 1024, 9 * 1024 + 1, 10 * 1024, 10 * 1024 + 1]))
        r = random.Random(SEED)
        for k in range(pick(3, 20)): jobs.append(emwin(SEED * 10 + k, [r.randrange(6000) for _ in range(6)]))
        for size in (99 * 1024 + 1, 1000 * 1024, 1000 * 1024 + 7) if not T else (99 * 1024, 99 * 1024 + 1, 100 * 1024, 999 * 1024 + 3, 1000 * 1024, 1000 * 1024 + 7, 1023 * 1024):
            jobs.append([(dict(name=list(b"bigfile.txt"), size=size), "EM %s %d" % (hx(b"bigfile.txt"), size))])
    script = lambda j: ["init " + spool] + [x[1] for x in j]
    def go(k):
        d = subdir("w%d" % k)
        return run_harness(exe, [], ["init " + (spool if pid == "C26" else d)] + [x[1] for x in jobs[k]], timeout=200, cwd=d)
    def traceof(j, lines):
        if lines[0].get("max") not in (None, 12 + 27 + psize) and pid == "C26": raise CheckError("packet size %s, expected %d" % (lines[0], 12 + 27 + psize))
        if any(j_[1].startswith("EM") for j_ in j):
            return [dict(x, name=j[0][0]["name"]) if x["e"] == "eb" else x for x in lines[1:]]
        return [dict(x, **g[0]) for x, g in zip(lines[1:], j)]
    def observe():
        out = []
        for k, (lines, rc, err) in enumerate(pool.map(go, range(len(jobs)))):
            if rc != 0 or (len(lines) != len(jobs[k]) + 1 and not jobs[k][0][1].startswith("EM")):
                out.append(("stop", k, rc, err)); continue
            out.append(traceof(jobs[k], lines))
        return out
    traces = observe()
    for k, t in enumerate(traces):
        if isinstance(t, tuple):
            again = go(k)
            if again[1] != 0 or len(again[0]) != len(jobs[k]) + 1:
                chk.violation("the code stopped (rc=%s) at: %s" % (t[2], script(jobs[k])[max(0, len(again[0]))][:300]), dict(script=script(jobs[k])[len(again[0])][:4000], err=t[3]))
                return chk.finish()
            traces[k] = traceof(jobs[k], again[0])
    names = ["job %d" % k for k in range(len(traces))]
    if pid == "C26":
        q = queuedump(b, psize, pool); traces += q; names += ["nbspqdc"] * len(q)
    rej = check_traces(chk, "TraceWire", CFG, traces, heap="6g")
    if rej:
        n, l = rej[0][0], rej[0][1]; tr = traces[n - 1]; l = min(max(l, 1), len(tr)); ev = tr[l - 1]
        chk.violation("%s, step %d: %s" % (names[n - 1], l, json.dumps({k: v for k, v in ev.items() if k not in ("bytes", "file", "s")})[:500]),
                      dict(observed=ev, script=jobs[n - 1][l - 1][1][:20000] if n <= len(jobs) and l <= len(jobs[n - 1]) else None))
        return chk.finish()
    for m in mj: m.result()
    chk.cov["samples"] = [dict(given=jobs[0][0][1][:200], event=str(traces[0][0])[:300])]
    return chk.finish()

def parse(o):
    w = o.split(b" ")
    if len(w) < 6 or o.startswith(b"nbspqdc"): return dict(ok=False)
    rest = o.split(b" ", 5)[5]
    i = rest.find(b" ")
    return dict(ok=True, seq=word(int(w[0])), type=int(w[1]), cat=int(w[2]), code=int(w[3]), ch=int(w[4]), fname=list(rest[:i]), fpath=list(rest[i + 1:]))
def alone(exe, by):
    p = subprocess.run([exe, "-s", str(len(by))], input=bytes(by).hex().encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    if p.returncode != 0: return dict(ok="rc %d" % p.returncode)
    return parse(p.stdout[:-1]) if p.stdout else dict(ok=False)
