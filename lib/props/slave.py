"""C24 (slaves that receive products), C27 (input fifo), C28 (configuration and connections of the slaves)."""
import json, os, random, socket, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
CHECK_DEADLOCK TRUE
"""
MCNBS = """SPECIFICATION Spec
CONSTANTS Sizes <- SizesDef
 Dup = %s
INVARIANTS Intact Arrives Accounted NotTwice
"""
MCTAB = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
INVARIANTS OnePerEntry Channels Usable Defaults Separators Shifted Fifo
"""
MCFIFO = """SPECIFICATION Spec
CONSTANTS Writers = {1, 2, 3}
 Records = %d
 Pieces = %d
 Capacity = 2
 Locked = TRUE
INVARIANTS Whole InOrder
PROPERTY AllTaken
"""
hx = lambda b: bytes(b).hex() or "-"
word = lambda n: [n >> 16, n & 0xffff]
BLK = 65536

def patt(prefixes):
    return ".*," + ",".join("!^" + p for p in prefixes) if prefixes else ""

class Conf:
    def __init__(s, refuse=(), expand=(), nofilter=(), noserver=(), dup=0, mode=2, masters="1,localhost,1|1,localhost,2", infifo="", opts=(1, 0, 0, -1, 100000), port="2210"):
        s.__dict__.update(locals()); del s.__dict__["s"]
    def meta(s, maxpath=0):
        j = lambda x: [list(p.encode()) for p in x]
        return dict(e="M", refuse=j(s.refuse), expand=j(s.expand), nofilter=j(s.nofilter), noserver=j(s.noserver), dup=bool(s.dup), maxpath=maxpath,
                    maxpacket=12 + 27 + maxpath + 1, d=dict(port=list(s.port.encode()), opts=list(s.opts)))
    def write(s, d):
        for k in ("spool", "db", "master"): os.makedirs(d + "/" + k, exist_ok=True)
        t = ["spooldir %s/spool" % d, "dbhome %s/db" % d, "dbcachemb 8", "missinglogfile %s/missing.log" % d, "rtxlogfile %s/rtx.log" % d, "cspoolbdb_dir %s/cspool" % d,
             "slavestatsfile %s/slave.stats" % d, "feedmode %d" % s.mode, "slave_reject_duplicates %d" % s.dup, "slave_masterport %s" % s.port, "infeedfifogrp root",
             "infeedfifo %s" % (s.infifo or d + "/infeed.fifo"), "masterservers {%s}" % s.masters]
        t += ["%s %s" % x for x in zip(("slave_read_timeout_secs", "slave_read_timeout_retry", "slave_reopen_timeout_secs", "slave_so_rcvbuf", "slave_stats_logperiod_secs"), s.opts)]
        for o, p in (("acceptpatt", s.refuse), ("savezacceptpatt", s.expand), ("filterqacceptpatt", s.nofilter), ("serverqacceptpatt", s.noserver)):
            if p: t.append("%s {%s}" % (o, patt(p)))
        with open(d + "/conf", "w") as f: f.write("".join("set %s\n" % x for x in t))

# ---------------------------------------------------------------- products from masters
NAMES = ["kwbc_saus70-metar.031200_%d", "tjsj_fxus62.040102_%d", "kmia_sxus50-abcdef.1_%d", "phfo_fzhw52+x.2_%d", "k_a-b.c%d"]
BADNAMES = ["nodot", "noseparator.x", "kwbcx_saus70.x", "kwbc_saus701.x", "kwbc_saus70-abcdefg.x", "kwbc_saus70-metarmeta.x", ".x", "kwbc_saus70+abcdefg.x", "kwbc_saus70-metar" + "1" * 4 + ".x"]
SIZES = [1, 2, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 3 * 65536 + 17, 500, 20, 70000]
class Prods:
    def __init__(s, r, n, bad=0.1, cap=5):
        s.r = r; s.p = {}; s.ev = []; used = set()
        for pid in range(n):
            seq = r.choice([0, 1, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32), 1000 + pid])
            while seq in used: seq = r.randrange(1 << 32)
            used.add(seq)
            name = r.choice(BADNAMES) if r.random() < bad else r.choice(NAMES) % pid
            codes = [r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)]) for _ in range(4)]
            size = r.choice(SIZES[:4] + SIZES[10:12] + SIZES[:2]) if r.random() < 0.4 else r.choice(SIZES)
            s.p[pid] = dict(seq=seq, name=name, codes=codes, size=size, nb=(size + BLK - 1) // BLK)
            s.ev.append("prod %d %s %d %d %d %d %d %d" % (pid, hx(name.encode()), seq, *codes, size))
def noise(r, s, pids):
    """One slave's stream: the products with the packets dropped, repeated, exchanged, damaged; new connections in between."""
    out = ["conn %d" % s]
    def pkt(pid, blk, cut=-1, edit=()): out.append("pkt %d %d %d %d %s" % (s, pid, blk, cut, " ".join("%d %02x" % e for e in edit)))
    return out, pkt
def stream(r, P, s, pids, rate):
    out = ["conn %d" % s]
    def pkt(pid, blk, cut=-1, edit=()): out.append(("pkt %d %d %d %d %s" % (s, pid, blk, cut, " ".join("%d %02x" % e for e in edit))).strip())
    q = [(pid, k) for pid in pids for k in range(1, P.p[pid]["nb"] + 1)]
    i = 0
    while i < len(q):
        pid, k = q[i]; x = r.random(); n = 66 + min(BLK, P.p[pid]["size"] - (k - 1) * BLK)
        if x >= rate: pkt(pid, k); i += 1; continue
        y = r.random()
        if y < 0.18: i += 1                                   # lost
        elif y < 0.3: pkt(pid, k); pkt(pid, k); i += 1        # repeated
        elif y < 0.42 and i + 1 < len(q): q[i], q[i + 1] = q[i + 1], q[i]; pkt(*q[i]); i += 1
        elif y < 0.5:                                         # an old one again
            if i: pkt(*q[r.randrange(i)])
        elif y < 0.65:                                        # cut short: the master starts the product again
            pkt(pid, k, r.choice([0, 1, 11, 12, 13, 65, 66, n - 1, r.randrange(n)]))
            out.append("conn %d" % s)
            if r.random() < 0.7: i -= k - 1
            else: i += 1
        elif y < 0.73: out.append("eof %d" % s); out.append("conn %d" % s); i -= (k - 1) if r.random() < 0.7 else 0
        elif y < 0.86:                                        # the envelope or the size of the block is wrong
            o = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 62, 63, 64, 65]); b = P_byte(P, pid, k, o)
            pkt(pid, k, -1, [(o, b ^ r.choice([1, 2, 0x80, 0xff, 0x10]))]); out.append("conn %d" % s)
            if r.random() < 0.7: i -= k - 1
            else: i += 1
        else:                                                 # other fields
            o = r.choice([12, 13, 14, 15, 16, 17, 18, 19, 57, 58, 59, 60, 61]); b = P_byte(P, pid, k, o)
            v = b ^ r.choice([1, 2, 0x80, 0xff]) if o != 57 else 1
            pkt(pid, k, -1, [(o, v)]); i += 1
    return out
def P_byte(P, pid, k, o):
    p = P.p[pid]; n = min(BLK, p["size"] - (k - 1) * BLK)
    h = struct.pack(">III", 1, 54 + n, 0) + struct.pack(">I", p["seq"]) + bytes(p["codes"]) + p["name"].encode().ljust(37, b"\0") + b"\0" + struct.pack(">HHI", p["nb"], k, n)
    return h[o]

def nbs1(seed):
    r = random.Random(seed); k = seed % 6
    c = Conf(refuse=[(), ("kmia_",), ("tjsj_fx", "k_a")][r.randrange(3)], expand=[(), ("kwbc_", "phfo_")][r.randrange(2)], dup=r.randrange(2), mode=r.choice([2, 3]))
    P = Prods(r, 14, 0.12 if k else 0)
    pids = list(P.p); rate = (0, 0.1, 0.3, 0.5, 0.2, 0.4)[k]
    a = stream(r, P, 0, pids[:9], rate); b = stream(r, P, 1, pids[6:], rate)
    ev = P.ev[:]
    while a or b:
        x = a if a and (not b or r.random() < 0.5) else b
        e = x.pop(0)
        if k and r.random() < 0.03:
            p = P.p[r.choice(pids)]
            if "_" in p["name"] and "/" not in p["name"]: ev.append("dup /%s/%s" % (p["name"].split("_")[0], p["name"]))
        ev.append(e)
        if e.startswith("pkt") or e.startswith("eof"):
            if x and x[0].startswith("conn") : ev.append(x.pop(0))
    return c, ev
def fixed():
    """Each kind of damage alone, at each packet of a product of three, with whole ones before and after."""
    out = []
    for what in range(14):
        ev = ["prod 0 %s 7 1 2 3 4 100" % hx(b"kwbc_saus70.a"), "prod 1 %s 8 1 2 3 4 %d" % (hx(b"kwbc_saus71-abc.b"), 2 * BLK + 9), "prod 2 %s 9 4 3 2 1 %d" % (hx(b"kwbc_saus72.c"), BLK + 1),
              "prod 3 %s 10 4 3 2 1 %d" % (hx(b"kwbc_saus72+abc.d"), BLK)]
        for j in (1, 2, 3):
            ev.append("conn 0"); ev.append("pkt 0 0 1 -1")
            for k in (1, 2, 3):
                if k != j: ev.append("pkt 0 1 %d -1" % k); continue
                if what == 0: pass
                elif what == 1: ev += ["pkt 0 1 %d -1" % k] * 2
                elif what == 2: ev += ["pkt 0 2 1 -1", "pkt 0 1 %d -1" % k]            # another product inside
                elif what == 3: ev += ["pkt 0 2 2 -1", "pkt 0 1 %d -1" % k]
                elif what == 4: ev += ["pkt 0 1 %d 40" % k, "conn 0"]
                elif what == 5: ev += ["pkt 0 1 %d 70" % k, "conn 0", "pkt 0 1 1 -1"]
                elif what == 6: ev += ["pkt 0 1 %d -1 7 ff" % k, "conn 0"]
                elif what == 7: ev += ["pkt 0 1 %d -1 65 77" % k, "conn 0"]
                elif what == 8: ev += ["pkt 0 1 %d -1 59 %02x" % (k, 2)]                # another number of blocks
                elif what == 9: ev += ["pkt 0 1 %d -1 59 04" % k]
                elif what == 10: ev += ["pkt 0 1 %d -1 61 %02x" % (k, k % 3 + 1)]       # another block number
                elif what == 11: ev += ["pkt 0 1 %d -1 15 63" % k]                      # another sequence number
                elif what == 12: ev += ["pkt 0 1 %d -1 61 00" % k, "pkt 0 1 %d -1" % k]
                elif what == 13: ev += ["pkt 0 1 %d -1 4 7f" % k, "conn 0", "pkt 0 1 %d -1" % k]
            ev += ["pkt 0 3 1 -1", "pkt 0 2 1 -1", "pkt 0 2 2 -1"]
        out.append((Conf(), ev))
    big = [0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffff4, 0xfffffff0, 0xffff0000, 65600, 65591, 65592, 1 << 20, 53, 0, 11]
    ev = ["prod 0 %s 7 1 2 3 4 100" % hx(b"kwbc_saus70.a"), "prod 1 %s 8 1 2 3 4 %d" % (hx(b"kwbc_saus71-abc.b"), 2 * BLK + 9)]
    for v in big: ev += ["conn 0", "pkt 0 0 1 -1", "pkt 0 1 1 -1", "flood 0 %x" % v, "conn 0", "pkt 0 1 1 -1", "pkt 0 1 2 -1", "pkt 0 1 3 -1"]
    out.append((Conf(), ev))
    return out

# ---------------------------------------------------------------- NBS2 masters
def nbs2(seed, spool):
    import props.wire as W
    r = random.Random(seed); c = Conf(masters="2,localhost,1|2,localhost,2", nofilter=("a",), noserver=("b", "a1"))
    psize = len(spool) + 4 + 1 + 1 + 36 + 1; W.CHARS = b"ab1_-.+/"; ev = ["conn 0", "conn 1"]
    for i in range(60):
        s = r.randrange(2)
        if r.random() < 0.8: b, eof = W.packet(r, psize), ""
        else:
            b = W.damaged(r, psize)
            if r.random() < 0.3: b = W.packet(r, psize)[:r.randrange(12 + 27 + psize)]
            eof = " x"
        ev.append("n2 %d %s%s" % (s, hx(b), eof))
        if eof: ev.append("conn %d" % s)
    return c, ev

# ---------------------------------------------------------------- the input fifo
def rec(text): return struct.pack(">I", len(text)) + text + b"\n"
def record(r, maxpath):
    w = [str(r.choice([0, 1, 65535, 65536, 4294967295, r.randrange(1 << 32)]))] + [str(r.choice([0, 1, 9, 10, 99, 100, 254, 255])) for _ in range(4)]
    w.append("".join(r.choice("ab1_-") for _ in range(r.choice([1, 2, 17, 18]))))
    base = "".join(r.choice("ab1_-.") for _ in range(r.choice([1, 20, 35, 36])))
    d = "/" + "d" * r.choice([0, 1, 5, maxpath]) + "/"
    w.append((d + base)[-maxpath:] if len(d + base) > maxpath else d + base)
    if not w[6].startswith("/"): w[6] = "/" + w[6][1:]
    return w
def infifo(seed, maxpath):
    r = random.Random(seed); ev = ["fifo"]; ex = [{}]
    def add(b, **k):
        eof = k.pop("eof", ""); ev.append("rec %s%s" % (hx(b), eof)); ex.append(k)
        if not k["framed"]: ev.append("fifo"); ex.append({})
    for i in range(80):
        w = record(r, maxpath); x = r.random()
        if x < 0.55: pass
        elif x < 0.6: w[5] = "n" * r.choice([19, 20, 100, 1000])
        elif x < 0.65: w[6] = "/" + "p" * r.choice([37, 38, 100])
        elif x < 0.7: w[6] = ("/" + "q" * (maxpath + r.choice([0, 1, 100, 3000])) + "/abc")
        elif x < 0.78: w[r.randrange(1, 5)] = r.choice(["256", "-1", "1000", "99999", "x", "-", "a1", "65536"])
        elif x < 0.82: w[0] = r.choice(["x", "a", "-", "", "/"])
        elif x < 0.88: w = w[:r.randrange(7)]
        elif x < 0.9: w.insert(r.randrange(8), r.choice(["", "5", "x"]))
        elif x < 0.91: w = ["%s%n%d" * 5]
        elif x < 0.92: w[6] = "/" + "p" * 60000
        t = " ".join(w).encode()
        if x < 0.95: add(rec(t), framed=True, text=list(t) if len(t) < 4000 else [97] * 40)
        elif x < 0.96: add(struct.pack(">I", len(t)) + t + b"x", framed=False, text=[])
        elif x < 0.98: add(struct.pack(">I", r.choice([65537, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffb])) + t + b"\n", framed=False, text=[])
        else: b = rec(t); add(b[:r.randrange(len(b))], framed=False, text=[], eof=" x")
    return Conf(mode=4, nofilter=("a",), noserver=("b", "a1")), ev, ex

def inserters(b, exe, k, seed):
    """Several real inserters at once, the real reader thread."""
    d = subdir("ins%d" % k); c = Conf(mode=4); c.write(d); r = random.Random(seed)
    ins = os.path.join(b.top, "tools/nbspinsert/nbspinsert"); fifo = d + "/infeed.fifo"
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d)
    p.stdin.write(("init %s/conf %s/master\nrun 40000\n" % (d, d)).encode()); p.stdin.flush()
    st = json.loads(p.stdout.readline()); maxpath = st["maxpath"]
    json.loads(p.stdout.readline())
    for i in range(200):
        if os.path.exists(fifo): break
        time.sleep(0.02)
    time.sleep(0.2)
    n = pick(12, 25); writers = []
    def one(w):
        rr = random.Random(seed * 100 + w); out = []
        for i in range(n):
            name = "w%d_%d" % (w, i); codes = [rr.randrange(256) for _ in range(4)]; seq = rr.randrange(1 << 32)
            path = "/" + "d" * rr.choice([1, 30, maxpath - 40]) + "/%s.%d" % (name, seq % 1000)
            q = subprocess.run([ins, "-f", fifo, str(seq)] + [str(x) for x in codes] + [name, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if q.returncode == 0: out.append(dict(seq=word(seq), codes=codes, fname=list(name.encode()), path=list(path.encode())))
        return out
    def bad():
        for i in range(n):
            fd = os.open(fifo, os.O_WRONLY)
            import fcntl
            fcntl.flock(fd, fcntl.LOCK_EX); os.write(fd, rec(b"1 2 3 999 5 x /y" if i % 2 else b"nothing")); os.close(fd)
    with ThreadPoolExecutor(6) as e:
        f = [e.submit(one, w) for w in range(5)]; g = e.submit(bad)
        for w, x in enumerate(f): writers.append(dict(name=list(("w%d_" % w).encode()), recs=x.result()))
        g.result()
    total = sum(len(w["recs"]) for w in writers)
    fq, sq = [], []
    threading.Timer(1.5, lambda: (p.stdin.write(b"x\n"), p.stdin.flush())).start()
    for line in p.stdout:
        x = json.loads(line)
        if x["e"] == "ann": fq += x["fq"]; sq += x["sq"]
        if x["e"] == "end": break
    p.stdin.close(); p.wait(20)
    return [c.meta(maxpath), dict(e="ins", writers=writers, fq=fq, sq=sq, total=total)], total == 5 * n

def arguments(b, seed):
    sweep = list(range(1010 + seed % 4 * 6, 1016 + seed % 4 * 6)) + ([255, 256, 4091, 4092, 4096] if seed % 2 else [511, 512, 513, 2048, 8192])
    """The inserter alone: what it accepts and what it writes."""
    d = subdir("arg%d" % seed); fifo = d + "/f"; os.mkfifo(fifo); r = random.Random(seed)
    ins = os.path.join(b.top, "tools/nbspinsert/nbspinsert"); tr = [Conf().meta(100)]
    fd = os.open(fifo, os.O_RDWR | os.O_NONBLOCK)
    for i in range(pick(40, 160)):
        w = record(r, 60); w[5] = "n" + w[5][1:]; x = r.random(); data = b""; save = r.random() < 0.5
        if x < 0.5: pass
        elif x < 0.85: w[r.randrange(1, 5)] = r.choice(["256", "1000", "65536", "4096", "x", "", "a", "511"])
        else: w[0] = r.choice(["x", "", "abc"])
        long = r.random() < 0.3
        path = d + "/" + ("x" * r.choice([1, 50, 200]) + "/") * (r.choice([3, 5]) if long else 0) + "out%d" % (i % 3)
        if save:
            path = d + "/out%d" % (i % 3); data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 1023, 1024, 1025, 5000])))
        if i < len(sweep):
            w[:5] = [str(r.randrange(200)) for _ in range(5)]; save = False
            n = sweep[i] - len(" ".join(w[:6])) - 1
            path = "/" + "p" * (n - 1)
        w[6] = path
        q = subprocess.run([ins, "-f", fifo] + (["-i"] if save else []) + w, input=data, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        got = b""
        try: got = os.read(fd, 65536)
        except BlockingIOError: pass
        saved = True
        if save and q.returncode == 0:
            with open(path, "rb") as f: saved = f.read() == data
        tr.append(dict(e="arg", w=[list(y.encode()) for y in w], rc=q.returncode, fifo=list(got), saved=saved))
    os.close(fd)
    return tr

# ---------------------------------------------------------------- configuration
def tables(seed):
    r = random.Random(seed); ev = []; ex = []
    def field(): return r.choice(["", "1", "2", "3", "host", "h.example.org", "2210", "-1", "10", "x", "5x", "+7", "007", "0", "4"])
    def entry():
        x = r.random()
        if x < 0.6:
            t = r.choice("123"); f = [t, r.choice(["host", "h2", "127.0.0.1", "/run/f"])]
            if r.random() < 0.7:
                f += [r.choice(["2211", "", "port"])] if t != "3" else []
                for k in range(r.randrange(7)): f.append(r.choice(["", "5", "-1", "60", "x", "0"]))
        else: f = [field() for _ in range(r.randrange(1, 11))]
        return r.choice([",", ",", ":"]).join(f)
    for i in range(pick(150, 600)):
        n = r.choice([0, 1, 1, 2, 3, 5]); t = r.choice(["", "", "|", " "]) + r.choice(["|", " ", "\n", "\t", " | ", "||"]).join(entry() for _ in range(n)) + r.choice(["", "", "|", "\n"])
        mode = r.choice([2, 2, 3, 6, 7, 4, 5]); inf = r.choice(["/run/infeed", "f", ""]) if mode & 4 else ""
        ev.append("tab %d %s %s" % (mode, hx(inf.encode()), hx(t.encode()))); ex.append(dict(mode=mode, infifo=list(inf.encode()), masters=list(t.encode())))
    return Conf(opts=(11, 22, 33, 44, 55)), ev, ex

def sessions(exe, k, type_, wait, timeout, retry, seed):
    """A real slave with a master that fails in every way."""
    import props.wire as W
    r = random.Random(seed); d = subdir("ses%d" % k)
    lst = socket.socket(); lst.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); lst.bind(("127.0.0.1", 0)); lst.listen(5); lst.settimeout(20)
    c = Conf(masters="%d,127.0.0.1,%d" % (type_, lst.getsockname()[1]), mode=2, opts=(timeout, retry, wait, -1, 100000)); c.write(d)
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d)
    p.stdin.write(("init %s/conf %s/master\nrun 120000\n" % (d, d)).encode()); p.stdin.flush()
    got = []; sqs = []; cond = threading.Condition(); maxpath = json.loads(p.stdout.readline())["maxpath"]
    def reader():
        for line in p.stdout:
            x = json.loads(line)
            with cond:
                for o in x.get("out", []):
                    if o["fc"]: got.append([o["seq"], o["name"], -o["parts"][0][1] if o["parts"] else 0])
                if x["e"] == "ann":
                    got.extend([o["seq"], o["fname"], o["path"]] for o in x["fq"]); sqs.extend([o["seq"], o["fname"], o["path"]] for o in x["sq"])
                cond.notify_all()
    th = threading.Thread(target=reader, daemon=True); th.start()
    def product(seq):
        if type_ == 2:
            name = "n%d" % seq
            return W.packet(r, maxpath + 1, seq=seq, fname=name.encode(), fpath=b"/a/" + name.encode()), [word(seq), list(name.encode()), 1]
        name = "kwbc_saus70.%d" % seq; size = r.choice([10, BLK, BLK + 1, 2 * BLK + 5]); nb = (size + BLK - 1) // BLK; s = b""
        for i in range(1, nb + 1):
            n = min(BLK, size - (i - 1) * BLK)
            s += struct.pack(">III", 1, 54 + n, 0) + struct.pack(">I", seq) + bytes(4) + name.encode().ljust(37, b"\0") + b"\0" + struct.pack(">HHI", nb, i, n) + os.urandom(n)
        return s, [word(seq), list(name.encode()), size]
    tr = [c.meta(maxpath)]; last = time.time() * 1000; seq = 1000
    modes = ["close", "silence", "damage", "cut", "nothing", "silence-inside", "damage", "cut", "close"]; r.shuffle(modes)
    for m in ["close"] + modes[:pick(5, 9)]:
        try: s, _ = lst.accept()
        except socket.timeout: tr.append(dict(e="sess", type=type_, hello=[], sent=[], got=[], gap=99999, wait=wait, slack=9000, ends="none", closed=False, quiet=0, timeout=0)); break
        t0 = time.time() * 1000; gap = t0 - last; s.settimeout(12); hello = b""
        while len(hello) < 4:
            y = s.recv(4 - len(hello))
            if not y: break
            hello += y
        n0 = len(got); sent = []
        for i in range(0 if m == "nothing" else r.randrange(1, 4)):
            b, o = product(seq); seq += 1; s.sendall(b); sent.append(o)
        b, o = product(seq); seq += 1; closed = False; ends = "close"
        if m == "damage":
            b = bytearray(b); b[r.choice([0, 3, 5])] ^= 0x40; ends = "damage"
            try: s.sendall(bytes(b))
            except OSError: pass
        elif m == "cut": s.sendall(b[:r.randrange(1, len(b))])
        elif m == "silence-inside": s.sendall(b[:r.randrange(1, len(b))]); ends = "silence"
        elif m == "silence": ends = "silence"
        t1 = time.time() * 1000
        with cond:
            cond.wait_for(lambda: len(got) - n0 >= len(sent) and (type_ == 1 or len(sqs) >= len(got)), 5)
        if ends in ("silence", "damage"):
            try:
                while True:
                    y = s.recv(100)
                    if not y: closed = True; break
            except ConnectionResetError: closed = True
            except socket.timeout: pass
        last = time.time() * 1000
        s.close()
        quiet = last - t1
        time.sleep(0.05)
        x = got[n0:]
        x = [[a, b_, o_[2] if type_ == 1 else sqs.count([a, b_, c_])] for (a, b_, c_), o_ in zip(x, sent + [[0, 0, 0]] * len(x))]
        tr.append(dict(e="sess", type=type_, hello=list(hello), sent=sent, got=x, gap=int(gap) if len(tr) > 1 else int(wait * 1000), wait=wait, slack=9000, ends=ends, closed=closed, quiet=int(quiet), timeout=timeout * (retry + 1)))
    try: p.stdin.write(b"x\n"); p.stdin.close()
    except OSError: pass
    lst.close(); p.wait(20); th.join(5)
    return tr

# ---------------------------------------------------------------- the checks
def run_script(exe, k, c, ev, ex=None):
    d = subdir("s%d" % k); c.write(d)
    lines, rc, err = run_harness(exe, [], ["init %s/conf %s/master" % (d, d)] + ev, timeout=200, cwd=d)
    import shutil
    if not lines or lines[0]["st"] != 0: raise CheckError("the harness did not start: %s %s" % (lines[:1], err))
    tr = [c.meta(lines[0]["maxpath"])]
    for i, x in enumerate(lines[1:]):
        if ex: x = dict(x, **ex[i])
        tr.append(x)
    shutil.rmtree(d + "/master", ignore_errors=True)
    return tr, (None if rc == 0 and len(lines) == len(ev) + 1 else dict(rc=rc, at=ev[max(0, len(lines) - 2):len(lines)], err=err))

def main(pid):
    chk = Check(pid)
    if pid == "C28": chk.assumptions = ["times are bounded from below exactly and from above with 9 s to spare"]
    pool = ThreadPoolExecutor(NCPU)
    if pid == "C24": mj = [pool.submit(lambda d=d: chk.add_model("slave, duplicates " + d, tlc("MCSlaveNbs", MCNBS % d, workers=2, timeout=800), "any sequence of the packets of 4 products")) for d in ("FALSE", "TRUE")]
    elif pid == "C27": mj = [pool.submit(lambda: chk.add_model("input fifo", tlc("MCInfifo", MCFIFO % pick((2, 3), (2, 4)), workers=3, timeout=800), "3 inserters that write their records in pieces"))]
    else: mj = [pool.submit(lambda: chk.add_model("table", tlc("MCSlaveTable", MCTAB % pick(5, 7), workers=3, timeout=800), "all texts up to %d characters over 6" % pick(5, 7)))]
    b = Build(dirs=("src", "tools/nbspinsert") if pid == "C27" else ("src",))
    exe = b.harness("slave", ["slave.c", "hcommon.c"], wrap=("malloc", "free"))
    jobs, extra = [], []
    if pid == "C24":
        jobs = [x + (None,) for x in fixed()] + [nbs1(SEED * 1000 + i) + (None,) for i in range(pick(48, 300))]
    elif pid == "C27":
        mp = len(subdir("s0")) + 6 + 4 + 1 + 1 + 36
        jobs = [infifo(SEED * 100 + i, mp) for i in range(pick(16, 100))]
        jobs += [nbs2(SEED * 50 + i, subdir("s0") + "/spool") + (None,) for i in range(pick(4, 30))]
        for i in range(pick(4, 16)): extra.append(pool.submit(arguments, b, SEED * 10 + i))
    else:
        jobs = [tables(SEED * 100 + i) for i in range(pick(8, 40))]
        for i, (t, w, to, re_) in enumerate([(1, 0, 1, 0), (2, 0, 1, 0), (1, 1, 1, 1), (2, 1, 1, 0), (1, 2, 2, 0), (2, 0, 1, 1)][:pick(6, 6)]):
            extra.append(pool.submit(sessions, exe, i, t, w, to, re_, SEED * 7 + i))
    res = list(pool.map(lambda a: run_script(exe, a[0], *a[1]), enumerate(jobs)))
    for k, (t, bad) in enumerate(res):
        if bad:
            t2, bad2 = run_script(exe, k, *jobs[k])
            if bad2:
                chk.violation("the code stopped (rc=%s) at: %s" % (bad2["rc"], str(bad2["at"])[:300]), bad2); return chk.finish()
            res[k] = (t2, None)
    traces = [t for t, _ in res]; n0 = len(traces)
    traces += [x.result() for x in extra]
    if pid == "C27":
        for i in range(pick(2, 6)):
            t, ok = inserters(b, exe, i, SEED * 3 + i); traces.append(t)
    rej = check_traces(chk, "TraceSlave", CFG, traces)
    if rej and rej[0][0] <= n0:
        k = rej[0][0] - 1
        t2, bad2 = run_script(exe, k, *jobs[k])
        again = check_traces(chk, "TraceSlave", CFG, [t2])
        if not again: rej = rej[1:] if len(rej) > 1 and rej[1][0] <= n0 else None
    elif rej and pid == "C28":
        k = rej[0][0] - 1 - n0
        t2 = sessions(exe, 50 + k, *[(1, 0, 1, 0), (2, 0, 1, 0), (1, 1, 1, 1), (2, 1, 1, 0), (1, 2, 2, 0), (2, 0, 1, 1)][k], SEED * 7 + k)
        again = check_traces(chk, "TraceSlave", CFG, [t2])
        if not again: rej = None
    if rej:
        n, l = rej[0][0], rej[0][1]; tr = traces[n - 1]; l = min(max(l, 1), len(tr) - 1); ev = dict(tr[l])
        chk.violation("run %d, step %d: %s" % (n, l, json.dumps({k: v for k, v in ev.items() if k not in ("h", "hdr")})[:600]),
                      dict(observed=ev, script=[x[:2000] for x in jobs[n - 1][1][:l + 1][-40:]] if n <= n0 else None, conf=tr[0]))
        return chk.finish()
    for m in mj: m.result()
    chk.cov["samples"] = [dict(given=str(jobs[0][1][-1])[:200], event=str(traces[0][-1])[:300])]
    return chk.finish()
