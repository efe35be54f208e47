"""C09 C10 C12 (and C13, C14 in part): frames in, stored and announced products out."""
import random, zlib
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import sbn
from sbn import START, PROG, END, ERR, Z, ABORT

WRAP = ("esend_pctl_activepce", "eopen_pctl_outputpce", "update_stats_products", "e_nbspq_snd_filter",
        "e_nbspq_snd_server", "e_nbsp_rtxdb_truncate", "spoolbdb_write2")
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
"""
MC = """SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxP = %d
 MaxT = %d
 MaxR = %d
 Enabled = %s
 Default = %s
 Fs = %s
INVARIANTS Announced Retained Fate Decision
"""
MCS = """SPECIFICATION Spec
CONSTANTS N = %d
 Max = 4
 Lens = {0, 1, 2, 4, 5}
 Keys = {1, 2}
 MaxOps = %d
INVARIANTS RingKeepsNewest ReadsNewest OldestFirst LastHeld Bounded
"""
def models(chk):
    T = thorough()
    def mc(name, *a): chk.add_model(name, tlc("MCProcessor", MC % a, workers=4, timeout=800), name)
    if chk.pid in ("C09", "C10", "C12", "C13"):
        mc("Processor, file spool, memory of products: 3 products, 2 truncations, 1 restart" if T else
           "Processor, file spool, memory of products: 3 products, 1 truncation", 3, 2 if T else 1, 1 if T else 0, "TRUE", "TRUE", "TRUE")
        mc("Processor, file spool, no memory of products, retransmissions refused: 3 products, 1 restart", 3, 0, 1, "FALSE", "FALSE", "TRUE")
    if T and chk.pid in ("C10", "C12"):
        mc("Processor, memory spool, failing writes: 3 products", 3, 1, 0, "TRUE", "TRUE", "FALSE")
    if chk.pid in ("C13", "C14", "C15"):
        chk.add_model("spools", tlc("MCSpool", MCS % ((3, 5) if T else (3, 4)), workers=4, timeout=800), "spools: 3 slots, 2 names, %d operations" % (5 if T else 4))

NAMES = [("SAUS70", "KWBC", None, b"METAR\r\r\n"), ("FXUS62", "TJSJ", None, b"AFDSJU\r\r\n"), ("NWUS52", "KMIA", "RRA", b"RWRPR \r\r\n"),
         ("TIRP13", "PHFO", None, b"GRIB"), ("SDUS20", "KNES", "CCA", b"12345\r\r\n")]
def fname(k):
    return ["kwbc_saus70+METAR", "tjsj_fxus62-afdsju", "kmia_nwus52-rwrpr", "phfo_tirp13+grib", "knes_sdus20+cca"][k].lower()

class Conf:
    def __init__(self, r=None, **kw):
        self.reject, self.expand, self.rtx, self.filter, self.server = [], [], [], [], []
        self.spool, self.slots, self.strip, self.on, self.keep, self.default = 1, 0, False, True, True, True
        self.ndb, self.per128, self.nslots = 2, 64, 2
        self.hard = 0
        self.__dict__.update(kw)
    def max(self): return (1048576 // 128) * self.per128
    def text(self, d):
        def p(pre): return ".*," + ",".join("!^" + x.replace("+", "[+]") for x in pre) if pre else ".*"
        o = dict(spooltype=self.spool, spooldir=d + "/spool", spooldb_slots=self.slots, spooldb_fname=d + "/spooldb", spoolsavefmt=int(self.strip),
                 dbhome=d + "/db", dbcachemb=8, missinglogfile=d + "/missing.log", rtxlogfile=d + "/rtx.log", pctl_read_timeout_ms=20,
                 rtxdb_slots=100 if self.on else 0, rtxdb_dbfname="rtx.db" if self.keep else "", rtxdb_default_process=int(self.default),
                 mspoolbdb_ndb=self.ndb, mspoolbdb_dbcache_mb=1, mspoolbdb_maxsize_per128=self.per128, mspoolbdb_nslots=self.nslots,
                 queuemaxhard=self.hard, acceptpatt=p(self.reject), filterqacceptpatt=p(self.filter), serverqacceptpatt=p(self.server),
                 savezacceptpatt=p(self.expand), rtxdbacceptpatt=p(self.rtx), feedmode=1,
                 cspoolbdb_dir=d + "/cspool")
        return "".join("set %s {%s}\n" % kv for kv in o.items())

class Hist:
    """Builds the frames of a history of products on several channels."""
    def __init__(self, r, chans=(0, 1, 3), reuse=False):
        self.r, self.chans, self.reuse = r, chans, reuse
        self.seq = r.choice([1, 65530, 70000, 0x7ffffffa, 0xfffffff0, 4000000])
        self.sbn = {c: 1 for c in range(9)}
        self.known = []; self.ev = []
    def newseq(self):
        self.seq = (self.seq + 1) & 0xffffffff
        return self.seq or self.newseq()
    def frame(self, ch, **kw):
        self.sbn[ch] += 1
        b = sbn.frame(sbnseq=self.sbn[ch], **kw)
        return dict(e="F", ch=ch, b=list(b), unz=sbn.unzipped(b[68:]) if kw.get("tt", 7) & Z and kw.get("blk", 0) == 0 and not kw.get("ctrl") else [])
    def product(self, orig=0, lose=None, name=None, seq=None, style=None, n=None, sizes=None, ch=None, z=None, nf=None, badz=False, time=None):
        """Emits a product; lose = index of the block that is lost."""
        r = self.r
        k = r.randrange(len(NAMES)) if name is None else name
        id, st, bbb, l2 = NAMES[k]
        seq = self.newseq() if seq is None else seq
        ch = r.choice(self.chans) if ch is None else ch
        n = r.choice([1, 1, 2, 3]) if n is None else n
        head = sbn.wmo(id, st, time or "%06d" % (seq % 1000000), bbb, l2)
        style = style or r.choice(["plain", "ccb", "ctrl", "ctrlccb"])
        z = r.random() < 0.4 if z is None else z
        hdr = (sbn.CCB if style in ("ccb", "ctrlccb") else b"") + head
        ctrl = hdr[:58] if style.startswith("ctrl") else b""
        ty = dict(type=r.choice([0, 3, 4, 127, 128, 255]), cat=r.choice([1, 5, 99, 127, 128, 255]), code=r.choice([0, 1, 200, 255, 256, 65535]))
        out = []
        for i in range(n):
            m = sizes[i % len(sizes)] if sizes else r.choice([0, 1, 7, 40, 300])
            d = bytes(r.randrange(256) for _ in range(m)) if m < 1000 else (bytes(r.randrange(256) for _ in range(997)) * (m // 997 + 1))[:m]
            if i == 0 and not ctrl: d = hdr + d
            if i == 0 and ctrl and z: d = hdr + d
            tt = PROG | (START if i == 0 else 0) | (END if i == n - 1 else 0)
            zi = z and not (i > 0 and r.random() < 0.2)
            if zi:
                tt |= Z
                d = zlib.compress(d)
                if badz and i == n - 1: d = d[:-2] + b"\xff\xff"
            out.append(dict(data=d[:5000], ctrl=ctrl if i == 0 else b"", blk=i, seq=seq, tt=tt, nf=n if nf is None else nf, flag=16 if orig else 0, orig=orig, **ty))
        if lose is not None and n > 1: del out[1 + lose % (n - 1)]
        elif lose is not None: out[0]["tt"] &= ~END; out[0]["nf"] = 2
        for kw in out: self.ev.append(self.frame(ch, **kw))
        if lose is not None:   # what follows shows it is incomplete
            self.ev.append(self.frame(ch, data=b"", seq=seq, blk=n + 7, tt=PROG | END))
        self.known.append((seq, k))
        path = (st.lower() + "/" + fname(k) + "." + (time or "%06d" % (seq % 1000000)) + "_" + str(seq))
        self.last = path
        return seq
    def read(self, path): self.ev.append(dict(e="G", path=list(path.encode()), base=list(path.split("/")[-1].encode())))
    def truncate(self): self.ev.append(dict(e="T"))
    def restart(self, conf): self.ev.append(dict(e="R", conf=conf))

def history(seed, n, conf, restarts=False, faults=True, rdback=True):
    r = random.Random(seed)
    h = Hist(r)
    paths = []
    for i in range(n):
        x = r.random()
        if x < 0.08: h.truncate(); continue
        if restarts and x < 0.12: h.restart(conf); continue
        if faults and conf.spool != 1 and x < 0.25: h.ev.append(dict(e="X", k=r.choice([0, 1, 2, 3, 4, 7])))
        if rdback and paths and x > 0.9: h.read(r.choice(paths)); continue
        if h.known and r.random() < 0.55:
            q, k = r.choice(h.known[-6:])
            h.product(orig=q, name=k if r.random() < 0.8 else None, lose=0 if r.random() < 0.25 else None)
        elif h.known and r.random() < 0.15:      # a sequence number that was used before
            q, k = r.choice(h.known[-6:])
            h.product(seq=q, lose=0 if r.random() < 0.3 else None)
        else:
            h.product(lose=0 if r.random() < 0.35 else None, badz=r.random() < 0.05,
                      orig=0 if r.random() < 0.9 else r.choice([99, 0xffffffff, 5]), nf=None if r.random() < 0.9 else r.choice([0, 1, 2]))
        paths.append(h.last)
    if conf.spool == 1: h.ev.append(dict(e="L"))
    return dict(conf=conf, ev=h.ev)

def limits(conf, seed):
    """C12: one of the queues is not read for a while and reaches its hard limit."""
    r = random.Random(seed); h = Hist(r)
    for f, s in ((1, 0), (0, 0), (0, 1), (1, 1), (0, 1), (0, 0)):
        h.ev.append(dict(e="K", f=bool(f), s=bool(s)))
        for i in range(r.choice([conf.hard - 1, conf.hard, conf.hard + 3])): h.product(n=1)
    h.ev.append(dict(e="K", f=False, s=False))
    return dict(conf=conf, ev=h.ev)

def contents(conf, seed):
    """C09: every combination of control header, ccb, compression, block sizes."""
    r = random.Random(seed); h = Hist(r); paths = []
    for style in ("plain", "ccb", "ctrl", "ctrlccb"):
        for z in (False, True):
            for name in (0, 1):
                for n, sizes in ((1, [0]), (1, [1]), (2, [5, 0]), (3, [10, 20, 30]), (3, [0, 0, 4]), (4, [400]), (2, [4096])):
                    h.product(name=name, style=style, z=z, n=n, sizes=sizes)
                    paths.append(h.last)
    for nf in (0, 1, 2):     # more blocks than announced
        for z in (True, False): h.product(name=1, style="ctrlccb", z=z, n=3, sizes=[30], nf=nf)
    for p in paths[::9]: h.read(p)
    return dict(conf=conf, ev=h.ev)

def shortz(conf):
    """Expanded products whose blocks are shorter than a ccb, or cannot be expanded."""
    h = Hist(random.Random(3))
    for m in (0, 1, 23, 24, 25):
        for style in ("ctrl", "ctrlccb"):
            for good in (True, False):
                id, st, bbb, l2 = NAMES[1]; seq = h.newseq()
                hdr = (sbn.CCB if style == "ctrlccb" else b"") + sbn.wmo(id, st, "010203", bbb, l2)
                d = zlib.compress(b"y" * m)
                if not good: d = d[:-1]
                h.ev.append(h.frame(0, data=d, ctrl=hdr[:58], seq=seq, tt=START | PROG | END | Z))
    h.product(); h.ev.append(dict(e="L")) if conf.spool == 1 else None
    return dict(conf=conf, ev=h.ev)

def chains(conf, order):
    """C10: original, then retransmissions (of retransmissions), each lost or not, with truncations between."""
    h = Hist(random.Random(11), chans=(1,))
    for lost in range(8):
        for tr in range(4):
            h.restart(conf) if order and lost % 4 == 3 and tr == 0 else None
            a = h.product(name=0, lose=0 if lost & 1 else None, n=2)
            for _ in range(tr & 1): h.truncate()
            b = h.product(name=0, orig=a, lose=0 if lost & 2 else None, n=2)
            if tr & 2: h.truncate(); (h.truncate() if tr & 1 else None)
            c = h.product(name=0, orig=b if lost & 4 else a, n=1)
            h.product(name=0, orig=a, n=1); h.product(name=0, orig=c, n=1)
            h.product(name=1, orig=a, n=1); h.product(name=2, orig=0, seq=a, n=1)
    return dict(conf=conf, ev=h.ev)

def blocked(conf):
    """A product whose file cannot be created is counted bad, not announced nor remembered."""
    h = Hist(random.Random(5))
    h.ev.append(dict(e="B", station=list(b"phfo")))
    a = h.product(name=3, n=1); h.product(name=0); h.product(name=3, n=1, orig=a); h.product(name=3, lose=0, n=2)
    h.ev.append(dict(e="U", station=list(b"phfo")))
    h.product(name=3, n=1, orig=a); h.product(name=3, n=1, orig=a)
    h.ev.append(dict(e="L"))
    return dict(conf=conf, ev=h.ev)

def wrap(conf, total, restarts, lossy=True):
    """C13: more products than slots."""
    h = Hist(random.Random(9), chans=(2,))
    cf = conf
    for i in range(total):
        if i in restarts:
            cf = Conf(**dict(cf.__dict__, slots=restarts[i])); h.restart(cf)
        lost = 0 if lossy and i % 37 == 5 else None
        orig = h.known[-1][0] if lossy and i % 11 == 3 else 0
        h.product(name=i % 5, n=1, style="plain", z=False, sizes=[1], lose=lost, orig=orig)
    h.ev.append(dict(e="L"))
    return dict(conf=conf, ev=h.ev, small=False)

def fill(conf, seed):
    """Memory spool: partitions filled and recycled, everything read again, names stored again."""
    r = random.Random(seed); h = Hist(r, chans=(0, 4)); paths = []
    for i in range(pick(60, 150)):
        x = r.random()
        if x < 0.1: h.ev.append(dict(e="X", k=r.choice([1, 1, 2, 3, 5])))
        if x < 0.2 and h.known: h.product(seq=h.known[-1][0], name=r.randrange(5), n=1, sizes=[100])
        elif x < 0.3 and h.known: h.product(seq=h.known[-1][0], name=h.known[-1][1], n=2, sizes=[200, 20])
        else: h.product(n=r.choice([1, 2]), sizes=[r.choice([10, 1000, 3000, 4900])], z=False)
        paths.append(h.last)
        for _ in range(2): h.read(r.choice(paths[-12:]))
    for p in paths[-30:]: h.read(p)
    return dict(conf=conf, ev=h.ev)

def scenarios(pid):
    s = SEED * 100 + int(pid[1:])
    q = pick(1, 4)
    T = []
    E1, E2 = ["tjsj_", "kwbc_"], []
    def hist(k, n, conf, **kw): T.append(history(s * 50 + k, n, conf, **kw))
    if pid == "C09":
        for sp in (1, 2, 3):
            for strip in (False, True):
                T.append(contents(Conf(spool=sp, strip=strip, expand=["tjsj_"], ndb=2), s))
                if sp != 3: T.append(shortz(Conf(spool=sp, strip=strip, expand=["tjsj_"])))
        for k in range(6 * q): hist(k, 60, Conf(spool=1 + k % 3, strip=k % 2 == 1, expand=[["tjsj_", "kwbc_"], [], ["kwbc_", "kmia_", "phfo_", "knes_"]][k % 3]))
    if pid == "C10":
        for on, keep, default in ((True, True, True), (True, False, True), (False, True, True), (False, True, False), (True, True, False)):
            T.append(chains(Conf(on=on, keep=keep, default=default), keep))
            T.append(chains(Conf(on=on, keep=keep, default=default, rtx=["kwbc_"]), keep))
        T.append(blocked(Conf()))
        for k in range(8 * q): hist(k, 120, Conf(spool=1 + k % 2, on=k % 4 != 3, default=k % 8 != 3, rtx=[[], ["tjsj_"]][k % 2], expand=["tjsj_"] if k % 3 == 0 else []), restarts=k % 2 == 0)
    if pid == "C12":
        P = [[], ["tjsj_"], ["kwbc_", "kmia_", "phfo_", "knes_", "tjsj_"], ["tjsj_fxus62-afdsju"], ["kwbc_saus70+"], ["k"]]
        for k in range(14 * q):
            hist(k, 60, Conf(spool=1 + k % 3, filter=P[k % 6], server=P[(k // 2) % 6], rtx=P[(k // 3) % 3], reject=["phfo_"] if k % 5 == 0 else [], expand=["tjsj_"]), restarts=k % 3 == 0)
        for k in range(4): T.append(limits(Conf(spool=1 + k % 2, hard=3 + k, filter=P[k % 2], server=P[k // 2]), s + k))
        T.append(blocked(Conf()))
        T.append(shortz(Conf(strip=True, expand=["tjsj_"]))); T.append(shortz(Conf(spool=2, strip=True, expand=["tjsj_"])))
    if pid == "C13":
        T.append(wrap(Conf(slots=1), 1060, {0: 1, 1: 2, 1023: 1024, 1024: 7}, False))
        T.append(wrap(Conf(slots=1024), 1200, {500: 1024, 1010: 1024, 1100: 1023, 1150: 1024}))
        T.append(wrap(Conf(slots=1024), 1250, {300: 1030, 1040: 1040}))
        T.append(wrap(Conf(slots=1024), 1100, {1024: 1030, 1060: 1040}, False))
        T.append(wrap(Conf(slots=1030), 1150, {200: 0, 220: 1030, 260: 1024, 261: 1030}))
        T.append(blocked(Conf(slots=1024)))
        T.append(shortz(Conf(slots=1024, strip=True, expand=["tjsj_"])))
        for k in range(2 * q): hist(k, 60, Conf(slots=1024, strip=True), restarts=True)
    if pid in ("C14", "C15"):
        for k in range(6 * q): T.append(fill(Conf(spool=2 + k % 2, ndb=[1, 2, 3, 4][k % 4], per128=[1, 1, 2][k % 3], strip=k % 2 == 0), s * 9 + k))
        for k in range(2 * q): hist(k, 60, Conf(spool=2 + k % 2, ndb=2, per128=1), restarts=True)
    return T

def meta(d, t):
    c = t["conf"]
    zs = {}
    for e in t["ev"]:
        if e["e"] != "F": continue
        b = bytes(e["b"])
        if len(b) < 32 or not b[17] & Z: continue
        off = 32 + (36 if b[20:22] == b"\0\0" else 0) + (b[22] * 256 + b[23])
        data = b[off:]
        if data not in zs:
            u = sbn.unzipped(data)
            try: zs[data] = (True, list(zlib.decompress(data)))
            except zlib.error: zs[data] = (False, [])
    enc = lambda L: [list(x.encode()) for x in L]
    return dict(e="M", reject=enc(c.reject), expand=enc(c.expand), rtx=enc(c.rtx), filter=enc(c.filter), server=enc(c.server),
                dir=list((d + "/spool").encode()), small=t.get("small", True), zs=[dict(d=list(k), ok=v[0], u=v[1]) for k, v in zs.items()])

def execute(exe, k, t):
    d = subdir("p%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    for x in ("spool", "db", "cspool"): os.makedirs(os.path.join(d, x))
    # one run of the daemon between two starts
    runs, cur = [], [dict(e="R", conf=t["conf"])]
    for e in t["ev"]:
        if e["e"] == "R": runs.append(cur); cur = [e]
        else: cur.append(e)
    runs.append(cur)
    tr = [meta(d, t)]
    for evs in runs:
        c = evs[0]["conf"]
        with open(d + "/conf", "w") as f: f.write(c.text(d))
        sc = []
        for e in evs[1:]:
            if e["e"] == "F": sc.append("F %d %s" % (e["ch"], bytes(e["b"]).hex()))
            elif e["e"] == "T": sc.append("T")
            elif e["e"] == "K": sc.append("K %d %d" % (e["f"], e["s"]))
            elif e["e"] == "X": sc.append("X %d" % e["k"])
            elif e["e"] in "BU": sc.append("%s %s" % (e["e"], bytes(e["station"]).decode()))
            elif e["e"] == "G": sc.append("G " + bytes(e["path"]).decode())
            elif e["e"] == "L": sc.append("L")
        lines, rc, err = run_harness(exe, [d + "/conf"], sc, timeout=200, cwd=d)
        if not lines or lines[0].get("e") != "start": return tr, dict(rc=rc, err=err, script=sc[:3], lines=lines[:2])
        st = lines.pop(0)
        tr.append(dict(e="R", st=st["st"], quit=st.get("quit", 0), nfiles=st.get("nfiles", 0), fs=c.spool == 1, slots=c.slots, strip=c.strip, on=c.on,
                       hard=c.hard, keep=c.keep, default=c.default, ndb=c.ndb, max=c.max()))
        if st["st"] != 0: return tr, dict(rc=rc, err=err, start=st)
        for e, o in zip(evs[1:], lines):
            x = dict(e); x.update(o); tr.append(x)
        if rc != 0 or (len(lines) < len(sc) and not st["quit"]):
            return tr, dict(rc=rc, err=err, script=sc[max(0, len(lines) - 10):len(lines) + 1])
        if st["quit"] and evs is not runs[-1]:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return tr, None

def describe(e):
    e = dict(e); b = e.pop("b", None); e.pop("unz", None)
    if b: e["hdr"] = bytes(b[:100]).hex()
    return json.dumps(e)[:700]

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["a stop of the daemon is an orderly one (the bookkeeping is written when the processor ends)",
                       "space failures of the memory spool are injected at the put operation of the database"]
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(models, chk)
    b = Build()
    conform(chk, b, pool, pid)
    mj.result()
    return chk.finish()

def also(chk, b, pid):
    """The same property through the whole processor."""
    with ThreadPoolExecutor(NCPU) as pool: conform(chk, b, pool, pid)

def conform(chk, b, pool, pid):
    exe = b.harness("proc", ["proc.c", "hcommon.c"], wrap=WRAP)
    T = scenarios(pid)
    res = list(pool.map(lambda p: execute(exe, *p), enumerate(T)))
    for i, (tr, bad) in enumerate(res):
        if bad:
            tr2, bad2 = execute(exe, i, T[i])
            if bad2:
                chk.violation("the daemon stopped or did not start (rc=%s) with %s" % (bad2["rc"], T[i]["conf"].__dict__), dict(bad2, last=tr2[-1:]))
                return
            res[i] = (tr2, None)
    traces = [t for t, _ in res]
    rej = check_traces(chk, "TraceProcessor", CFG, traces, timeout=pick(600, 850))
    if rej:
        t = rej[0][0]
        tr2, bad = execute(exe, t - 1, T[t - 1])
        rej2 = check_traces(chk, "TraceProcessor", CFG, [tr2], timeout=400)
        if rej2:
            l = rej2[0][1]
            ev = tr2[l] if l < len(tr2) else None
            chk.violation("run %d (%s): event %d is not a step of Processor: %s" % (t, {k: v for k, v in T[t-1]["conf"].__dict__.items()}, l, describe(ev) if ev else "end"),
                          dict(config=T[t-1]["conf"].__dict__, last=[describe(x) for x in tr2[max(1, l-6):l]], observed=ev, expected=explain("TraceProcessor", CFG, tr2, l) if l < 400 else "(trace too long)"))
    if not chk.cov["samples"]:
        chk.cov["samples"] = [dict(config=T[i]["conf"].__dict__, event=describe(traces[i][3])) for i in range(min(3, len(traces))) if len(traces[i]) > 3]
