"""C01..C05: frame processing (Ingest.tla)."""
import random, zlib
from vlib import *
import sbn
from sbn import START, PROG, END, ERR, Z, ABORT

STATIONS = ["KWBC", "TJSJ", "kmia", "PHFO"]
LINE2 = [b"METAR\r\r\n", b"RWRPR \r\r\n", b"AFDSJU\r\r\n", b"TAF\r\r\n", b"GRIB", b"12345\r\r\n", b"", b"\r\r\n",
         b"BUFRXXX7", b"ABCDEFGHIJ\r\r\n", b"AB\r\r\n", b"RWR-P\r\r\n", b"NOW   \r\r\n", b"A1B2C3\r\r\n", b"X" * 8 + b"\n",
         b"ZFPS1\r\r\n", b"abcXYZ\r\r\n", b"*MSG\r\r\n", b"Q\n", b"CLI\xe9\r\r\n", b"ABCDEFG\n", b"ABCDEFGH\n", b"HML JX\r\r\n",
         b"L12345\r\n"]

def rnd_header(r, good=True):
    id = r.choice(["SAUS70", "FXUS62", "NWUS52", "TIRP13", "ABCDEF", "H1AB23", "sdus20"])
    st = r.choice(STATIONS)
    t = "%06d" % r.randrange(0, 1000000)
    bbb = r.choice([None, None, None, "RRA", "PAD", "CCA123", "A"])
    l2 = r.choice(LINE2)
    if good: return sbn.wmo(id, st, t, bbb, l2)
    k = r.randrange(12)
    if k == 0: st = r.choice(["KW1C", "K9", "KWB", "KWBCX"])
    elif k == 1: t = r.choice(["03120Z", "0312", "12", "0312001", "A31200"])
    elif k == 2: id = r.choice(["SAUS7", "SAUS70X", "SA-S70", "S"])
    elif k == 3: return b"SAUS70 KWBC\r\r\nMETAR\r\r\n"
    elif k == 4: return b"SAUS70 KWBC 031200 RRA EXTRA\r\r\nMETAR\r\r\n"
    elif k == 5: return b"NOBLANKSATALLINTHISLINE\r\r\nMETAR\r\r\n"
    elif k == 6: bbb = r.choice(["R-A", "R.A", "!!"])
    elif k == 7: return b"Z" * 30 + b"\r\r\n"
    elif k == 8: return b"SAUS70  KWBC  031200\r\r\nMETAR\r\r\n"
    elif k == 9: return b"SAUS70 KWBC 031200"[:r.randrange(1, 15)]
    elif k == 10: return b"\x00\x01\x02 zz 99"
    else: return (b"ABCDE  KWBC 031200\r\r\n")
    return sbn.wmo(id, st, t, bbb, l2)

class Sender:
    """One NOAAPort channel: emits the frames of successive products, some damaged."""
    def __init__(self, r, ch, fault):
        self.r, self.ch, self.fault, self.q, self.n = r, ch, fault, [], 0
        self.sbnseq = r.choice([1, 5, 65534, 70000, 0xfffffff0])
        self.seqs = r.sample([0, 1, 2, 3, 65535, 65536, 70000, 0x7fffffff, 0x80000000, 0xffffffff, 1234567, 4000000000], 4)

    def product(self):
        r = self.r
        seq = r.choice(self.seqs)
        n = r.choice([1, 1, 2, 2, 3, 4])
        head = rnd_header(r, good=r.random() < 0.85)
        big = r.random() < 0.03
        mid = r.random() < 0.05
        def blob():
            k = r.choice([0, 1, 5, 17, 40]) if not mid else r.choice([8191, 3000, 4000])
            if big: k = r.choice([2000, 4000, 5000, 5020])
            return bytes(r.randrange(256) for _ in range(min(k, 5000)))
        compressed = r.random() < 0.3
        style = r.choice(["plain", "plain", "ccb", "ctrl", "ctrlccb"])
        text = (sbn.CCB if style == "ccb" else b"") + head
        ctrl = b""
        if style.startswith("ctrl"):
            ctrl = ((sbn.CCB if style == "ctrlccb" else b"") + head)
            if r.random() < 0.9: ctrl = ctrl[:58]
        frames = []
        rtx = r.random() < 0.3
        nf = n
        if n == 1 and r.random() < 0.5: nf = 0
        elif r.random() < 0.06: nf = r.choice([0, n + 1, max(1, n - 1)])
        for i in range(n):
            d = blob()
            if i == 0 and not ctrl: d = text + d
            tt = PROG
            if i == 0: tt |= START
            if i == n - 1: tt |= END
            z = compressed and (i > 0 or r.random() < 0.95)
            if z:
                if r.random() < 0.9: d = zlib.compress(d)[:5100]
                tt |= Z
            if len(d) + len(ctrl) > 5120: d = d[:5000]
            kw = dict(data=d, ctrl=ctrl if i == 0 else b"", blk=i, seq=seq, tt=tt, nf=nf,
                      ds=r.choice([0, 1, 2, 3, 4, 5, 6, 10, 255]), type=r.choice([0, 1, 2, 3, 4, 5, 6, 255]),
                      cat=r.choice([0, 1, 2, 3, 99, 100, 127, 128, 254, 255, r.randrange(256)]), run=r.choice([0, 1, 1, 2, 65535]),
                      code=r.choice([0, 1, 2, 127, 255, 256, 32768, 65535, r.randrange(65536)]), flag=((16 | r.choice([0, 0, 1, 239])) if rtx else r.choice([0, 0, 1, 8, 32, 239])),
                      orig=(r.choice(self.seqs) if rtx or r.random() < 0.3 else 0))
            if i > 0 and r.random() < 0.03: kw["ctrl"] = head[:58] if len(head) >= 21 else b""
            frames.append(kw)
        return frames

    def next(self):
        """-> raw frame bytes."""
        r = self.r
        if not self.q: self.q = self.product()
        kw = self.q.pop(0)
        self.sbnseq = (self.sbnseq + 1) & 0xffffffff
        x = r.random()
        if x < self.fault:
            k = r.randrange(15)
            if k == 0:                                     # lost
                self.sbnseq = (self.sbnseq + 1) & 0xffffffff
                return None
            if k == 1: self.q.insert(0, dict(kw))          # duplicated
            elif k == 2 and self.q: self.q[0], kw = kw, self.q[0]    # swapped
            elif k == 3: kw = dict(kw, cksum=r.randrange(65536))
            elif k == 4: kw = dict(kw, dbs=max(0, len(kw["data"]) + len(kw["ctrl"]) + r.choice([-1, 1, 100])))
            elif k == 5: kw = dict(kw, tt=kw["tt"] | r.choice([ERR, ABORT]))
            elif k == 6: kw = dict(kw, cmd=r.choice([5, 10, 0, 200]))
            elif k == 7: kw = dict(kw, seq=r.choice(self.seqs))
            elif k == 8: kw = dict(kw, blk=r.choice([0, 1, 2, 3, 65535])); self.q = self.q if r.random() < .5 else []
            elif k == 9: kw = dict(kw, tt=r.randrange(64))
            elif k == 10: self.q = []                       # the rest is lost
            elif k == 11:
                b = bytearray(sbn.frame(sbnseq=self.sbnseq, **kw)); i = r.randrange(min(16, len(b))); b[i] ^= 1 << r.randrange(8)
                return bytes(b)
            elif k == 12:
                b = sbn.frame(sbnseq=self.sbnseq, **kw)
                return b[:r.choice([0, 1, 15, 16, 17, 31, 32, 33, 67, 68, 69, len(b) - 1])]
            elif k == 13: kw = dict(kw, dbo=r.choice([1, 20, 21, 23, 24, 60, 100, 5000, 65535]))
            elif k == 14: self.sbnseq = (self.sbnseq + r.choice([1, 2, 1000])) & 0xffffffff
        if kw["blk"] == 0 and not kw["ctrl"] and not kw["data"]: kw = dict(kw, data=b"?")
        b = sbn.frame(sbnseq=self.sbnseq, **kw)
        return b[:5200]

REJECTS = [["kmia_"], ["tjsj_fxus62"], [], ["kwbc_"]]
EXPANDS = [["kwbc_", "tjsj_"], ["phfo_", "kmia_", "kwbc_saus70"], [], ["kwbc_", "tjsj_", "phfo_", "kmia_"]]

def patt(prefixes):
    return ".*," + ",".join("!^" + p.replace("+", "[+]") for p in prefixes) if prefixes else "-"

def meta(i): return dict(e="M", reject=[list(p.encode()) for p in REJECTS[i % 4]], expand=[list(p.encode()) for p in EXPANDS[(i // 2) % 4]])

def frame_event(ch, b):
    unz = []
    if len(b) > 68 and b[17] & Z and b[20:24] == b"\0\0\0\0": unz = sbn.unzipped(b[68:])
    # a first block with no text at all has no defined header
    return dict(e="F", ch=ch, b=list(b), unz=unz)

def ambiguous(b):
    """First blocks whose text is empty: what the decoder reads there is not defined."""
    if len(b) < 68 or b[20:22] != b"\0\0": return False
    if len(b) == 68: return True
    if b[22:24] == b"\0\0" and b[17] & Z:
        try: return zlib.decompressobj().decompress(b[68:]) == b""
        except zlib.error: return False
    return False

def random_trace(seed, n, fault, nch):
    r = random.Random(seed)
    chans = r.sample(range(9), nch)
    snd = {c: Sender(r, c, fault) for c in chans}
    evs = []
    while len(evs) < n:
        c = r.choice(chans)
        if r.random() < 0.03: evs.append(dict(e="O", v=r.random() < 0.5)); continue
        if r.random() < 0.01: evs.append(load_event(r)); continue
        b = snd[c].next()
        if b is None or ambiguous(b): continue
        evs.append(frame_event(c, b))
    return evs

def load_event(r):
    return dict(e="L", load=r.choice([0, 99, 100, 150, 199, 200, 250, 299, 300, 400, 999]), idx=r.choice([0, 1, 9, 10, 11, 50]),
                soft=r.choice([0, 1, 2, 3]), hard=r.choice([0, 2, 3, 4]), lim=r.choice([0, 1, 10, 11]))

def script_of(evs):
    out = []
    for e in evs:
        if e["e"] == "F": out.append("F %d %s" % (e["ch"], bytes(e["b"]).hex() or "-"))
        elif e["e"] == "O": out.append("O %d" % int(e["v"]))
        elif e["e"] == "L": out.append("L %d %d %d %d %d" % (e["load"], e["idx"], e["soft"], e["hard"], e["lim"]))
    return out

def execute(exe, i, evs):
    """Run one script against the implementation and merge what was observed."""
    d = subdir("ing/%d" % i)
    out, rc, err = run_harness(exe, [d, patt(REJECTS[i % 4]), patt(EXPANDS[(i // 2) % 4])], script_of(evs))
    shutil.rmtree(d, ignore_errors=True)
    tr = [meta(i)]
    for e, o in zip(evs, out):
        x = dict(e); x.update(o); tr.append(x)
    crashed = None
    if len(out) < len(evs) or rc != 0:
        crashed = (len(out), rc, err)
    return tr, crashed

def targeted(pid):
    """Hand-written scenarios, one per rule, on channels 0 and 1."""
    W = sbn.wmo
    def f(ch, **kw): return frame_event(ch, sbn.frame(**kw))
    T = []
    h = W()
    # wrong-seq END while another product is assembled; stale seq 0; END without START; repeated start
    for seq in (0, 7):
        for other in (0, 8):
            for tt in (END, PROG | END, PROG, ABORT, ERR):
                T.append([f(0, data=h, seq=seq, tt=START | PROG, nf=3, sbnseq=2), f(0, data=b"bb", seq=other, blk=1, tt=tt, sbnseq=3),
                          f(0, data=b"cc", seq=seq, blk=1, tt=PROG, sbnseq=4), f(0, data=b"dd", seq=seq, blk=2, tt=PROG | END, sbnseq=5)])
    # frames of sequence number 0 on a channel that is idle after k blocks / a rejected or bad product
    for k in range(0, 3):
        for b in range(0, 4):
            for tt in (PROG, END, PROG | END):
                evs = [f(0, data=h, seq=9, tt=START | PROG | (END if k == 0 else 0), nf=k + 1, sbnseq=2)]
                evs += [f(0, data=b"x%d" % i, seq=9, blk=i, tt=PROG | (END if i == k else 0), sbnseq=2 + i) for i in range(1, k + 1)]
                if b > 0: evs.append(f(0, data=b"zz", seq=0, blk=b, tt=tt, sbnseq=20))
                evs.append(f(0, data=h, seq=10, sbnseq=21))
                T.append(evs)
    for bad in (b"XX", W("SAUS7")):
        T.append([f(0, data=bad + b"-" * 30, seq=0, tt=START | PROG, nf=2, sbnseq=2), f(0, data=b"q", seq=0, blk=1, tt=PROG | END, sbnseq=3),
                  f(0, data=h, seq=1, sbnseq=4)])
    # control headers of all sizes around the limits; declared offsets beyond the block
    for n in (20, 21, 22, 23, 24, 25, 44, 45, 46, 57, 58, 59, 60, 100, 400):
        c = (W(line2=b"AFDSJU\r\r\n") + b"." * 400)[:n]
        T.append([f(1, ctrl=c, data=b"data", seq=3, sbnseq=2)])
        T.append([f(1, ctrl=(sbn.CCB + c)[:n], data=b"data", seq=3, sbnseq=2)])
    for dbo in (5, 21, 30, 40, 41, 42, 43, 1000, 65535):
        T.append([f(1, data=(W() + b"." * 60)[:41], dbo=dbo, seq=3, sbnseq=2), f(1, data=h, seq=4, sbnseq=3)])
        T.append([f(1, data=h, seq=3, tt=START | PROG, nf=2, sbnseq=2), f(1, data=b"y" * 41, dbo=dbo, seq=3, blk=1, tt=PROG | END, sbnseq=3)])
    # header text that ends with the frame
    full = W(line2=b"AFDSJU\r\r\n")
    prev = W("ZZZZ99", "ZZZZ", "999999", None, b"ZZZZZZZ" * 20)
    for n in range(1, len(full) + 1):
        T.append([f(0, data=prev, seq=2, sbnseq=2), f(0, data=full[:n], seq=3, sbnseq=3)])
        if n >= 21: T.append([f(0, data=prev, seq=2, sbnseq=2), f(0, ctrl=full[:n], data=b"", seq=3, sbnseq=3)])
    for l2 in LINE2:
        for bbb in (None, "RRA", "PADXYZ"):
            for st in ("plain", "ctrl", "z"):
                t = W(bbb=bbb, line2=l2)
                if st == "plain": T.append([f(0, data=t + b"body", seq=5, sbnseq=2)])
                elif st == "ctrl": T.append([f(0, ctrl=(sbn.CCB + t)[:58], data=b"body", seq=5, sbnseq=2)])
                else: T.append([f(0, data=zlib.compress(sbn.CCB + t + b"body"), tt=START | PROG | END | Z, seq=5, sbnseq=2)])
    for seq in (0, 1, 9, 10, 99, 65535, 65536, 99999, 100000, 2147483647, 2147483648, 4294967295):
        T.append([f(0, data=h, seq=seq, sbnseq=2)])
    for k in range(12):
        for s in range(3):
            r = random.Random(k * 7 + s)
            T.append([f(0, data=rnd_header(r, False) + b"." * 20, seq=5, sbnseq=2), f(0, data=h, seq=6, sbnseq=3)])
    # overload
    for o in (False, True):
        for flag, orig in ((16, 5), (16, 0), (0, 5), (0, 0), (17, 6), (8, 5)):
            T.append([dict(e="O", v=o), f(0, data=h, seq=50, flag=flag, orig=orig, sbnseq=2), dict(e="O", v=False)])
    for tyc in [(0, 0, 0, 0), (1, 0, 1, 1), (0, 1, 2, 3), (255, 255, 255, 65535), (4, 101, 1, 0)]:
        for o in (False, True):
            for flag, orig in ((0, 0), (16, 9), (0, 9)):
                T.append([dict(e="O", v=o), f(1, data=h, seq=50, flag=flag, orig=orig, sbnseq=2, ds=tyc[0], type=tyc[1], cat=tyc[2], code=tyc[3]), dict(e="O", v=False)])
    for load in (0, 99, 100, 199, 200, 300, 1000):
        for soft in (0, 1, 2):
            for hard in (0, 2, 3):
                for idx, lim in ((0, 0), (10, 10), (9, 10), (11, 10), (5, 0)):
                    T.append([dict(e="L", load=load, idx=idx, soft=soft, hard=hard, lim=lim)])
    T.append([dict(e="L", load=0, idx=0, soft=0, hard=0, lim=0)])
    # damaged frames in the middle of an assembly
    base = [f(2, data=h, seq=77, tt=START | PROG, nf=3, sbnseq=2), f(2, data=b"11", seq=77, blk=1, tt=PROG, sbnseq=3), f(2, data=b"22", seq=77, blk=2, tt=PROG | END, sbnseq=4)]
    for pos in range(4):
        for dam in (lambda b: b[:10], lambda b: b[:16], lambda b: b[:31], lambda b: b[:40], lambda b: b + b"!", lambda b: b[:-1],
                    lambda b: b[:14] + bytes([b[14] ^ 1]) + b[15:], lambda b: bytes([b[0] ^ 255]) + b[1:], lambda b: b[:4] + b"\x05" + b[5:],
                    lambda b: b[:13] + bytes([(b[13] + 1) % 256]) + b[14:], lambda b: b""):
            for tt in (START | PROG | END, PROG | END, ABORT, ERR, END):
                for blk in (0, 1):
                    bad = dam(sbn.frame(data=h, seq=77, blk=blk, tt=tt, nf=1, sbnseq=3))
                    if ambiguous(bad): continue
                    T.append(base[:pos] + [frame_event(2, bad)] + base[pos:])
    # large products (memory file growth)
    for sizes in ([5000, 5000, 5000, 5000], [5052, 10, 5052], [8192 - len(h), 1], [4000] * 6):
        if max(sizes) > 5052: sizes = [4096 - len(h), 4096, 1, 5]
        evs = []
        for i, s in enumerate(sizes):
            d = (h if i == 0 else b"") + bytes((i * 31 + j * 7) % 256 for j in range(s))
            d = d[:5120]
            evs.append(f(3, data=d, seq=90, blk=i, tt=PROG | (START if i == 0 else 0) | (END if i == len(sizes) - 1 else 0), nf=len(sizes), sbnseq=2 + i))
        T.append(evs)
    # a channel reset between scenarios
    out = []
    for t in T:
        chs = sorted({e["ch"] for e in t if e["e"] == "F"})
        out += t
        for c in chs: out.append(frame_event(c, sbn.frame(data=b"-" * 30, seq=1, tt=ABORT, sbnseq=1)))
    return out

WRAPS = ("getloadavg",)
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
CHECK_DEADLOCK TRUE
"""

def shrink(exe, i, evs, pos):
    return evs[:pos + 1][-12:]

MCCFG = """SPECIFICATION Spec
CONSTANTS
 Depth = %d
 Chans = {%s}
 Seqs = {0, 1}
 MaxBlk = %d
 Rich = %s
INVARIANTS CompleteIsTransmission Undisturbed ExactAccounting Accounting NothingRejectedIsHandedOver %s
PROPERTIES BadFramesHarmless NoRtxWhenOverloaded Independent
"""
def models(pid):
    m = [("Ingest, 2 channels, all sequences of 2 frames of any kind, 2 blocks", (2, "0, 1", 1, "TRUE", "")),
         ("Ingest, 1 channel, all sequences of 3 frames of any kind, 2 blocks", (3, "0", 1, "TRUE", ""))]
    if pid == "C02": m[1] = ("Ingest, 1 channel, all sequences of 4 data frames, 2 blocks", (4, "0", 1, "FALSE", ""))
    if thorough():
        m += [("Ingest, 1 channel, all sequences of 5 data frames, 2 blocks", (5, "0", 1, "FALSE", "")),
              ("Ingest, 1 channel, all sequences of 4 data frames, 3 blocks", (4, "0", 2, "FALSE", "")),
              ("Ingest, 1 channel, all sequences of 4 frames of any kind, 2 blocks", (4, "0", 1, "TRUE", "")),
              ("Ingest, 1 channel, all sequences of 3 frames of any kind, 3 blocks", (3, "0", 2, "TRUE", "")),
              ("Ingest, 2 channels, all sequences of 3 frames of any kind, 3 blocks", (3, "0, 1", 2, "TRUE", ""))]
    return m

def run_models(chk):
    for name, args in models(chk.pid):
        chk.add_model(name, tlc("MCIngest", MCCFG % args, timeout=pick(200, 800), workers=pick(3, NCPU)), name)

def concrete(g, r, n):
    """Frame bytes of one abstract frame of MCIngest."""
    k = g["k"]
    if k == "nondata": return sbn.frame(data=b"x" * 12, cmd=r.choice([5, 10]), sbnseq=n)
    if k == "unzerr": return sbn.frame(data=b"\xff not zlib data", tt=START | PROG | END | Z, sbnseq=n)
    if k == "bad":
        b = sbn.frame(data=sbn.wmo(), seq=r.choice([0, 1]), sbnseq=n)
        return r.choice([b[:-1], b + b"x", b[:12], b[:14] + b"\xff\xff" + b[16:], b[:20], b[:40]])
    tt = (START if g["s"] else 0) | (PROG if g["p"] else 0) | (END if g["e"] else 0) | (r.choice([ERR, ABORT]) if g["x"] else 0)
    d = bytes([64 + g["q"], 48 + g["b"], n % 256])
    if g["b"] == 0:
        h = {"good": sbn.wmo(), "rejected": sbn.wmo(st="KMIA"), "bad": b"BAD HEADER OF A PRODUCT\r\r\n"}[g["w"]]
        d = h + d
    return sbn.frame(data=d, seq=g["q"], blk=g["b"], tt=tt, nf=g["n"], flag=16 if g["o"] else 0, orig=g["o"], sbnseq=n)

def generated(chk, seed, depth, num):
    """Input sequences from TLC: behaviours of MCIngest, made concrete."""
    r = random.Random(seed)
    t = tlc("MCIngest", MCCFG % (depth, "0, 1", 2, "TRUE", "Emitted"), simulate=num, depth=depth + 3, seed=seed, workers=1)
    if t.error or t.violated: raise CheckError("generation failed:\n" + t.out[-3000:])
    evs, n, got = [], 1, set()
    for l in t.out.splitlines():
        if not l.startswith('"GEN '): continue
        j = json.loads(json.loads(l)[4:])
        got.add(json.dumps(j))
        if r.random() < 0.3: evs.append(dict(e="O", v=r.random() < 0.5))
        for x in j:
            n += r.choice([1, 1, 1, 2, 0])
            evs.append(frame_event(x["c"], concrete(x["f"], r, n)))
        for c in (0, 1):
            n += 1; evs.append(frame_event(c, sbn.frame(data=b"-" * 30, seq=1, tt=ABORT, sbnseq=n)))
    chk.cov["generated_behaviours"] = chk.cov.get("generated_behaviours", 0) + len(got)
    return evs

def all_pairs():
    """Every sequence of two frames of a small alphabet, after an unfinished product."""
    W = sbn.wmo
    A = []
    for q in (0, 1):
        for b in (0, 1, 2):
            for tt in (START | PROG, START | PROG | END, PROG, PROG | END, END, ABORT):
                for nf in ((1, 2) if b == 0 and tt & START else (1,)):
                    A.append(dict(data=(W() if b == 0 else b"") + bytes([65 + q, 48 + b]), seq=q, blk=b, tt=tt, nf=nf))
    out = []
    n = 1
    for i, x in enumerate(A):
        for j, y in enumerate(A):
            out.append(frame_event(0, sbn.frame(data=b"-" * 30, seq=1, tt=ABORT, sbnseq=n)))
            if (i + j) % 2: out.append(frame_event(0, sbn.frame(data=W(), seq=j % 4 // 2, tt=START | PROG, nf=2, sbnseq=n)))
            out.append(frame_event(0, sbn.frame(sbnseq=n, **x)))
            out.append(frame_event(0, sbn.frame(sbnseq=n, **y)))
    return out

def main(pid):
    chk = Check(pid)
    chk.assumptions = ["one reader thread per channel: frames of a channel are processed in order (frames of different channels are interleaved at frame grain)",
                       "first blocks without any text are not generated (their header is undefined)"]
    pool = ThreadPoolExecutor(NCPU)
    mjob = pool.submit(run_models, chk)
    seed = SEED * 1000 + hash_id(pid)
    gjobs = [pool.submit(generated, chk, seed + i, d, n) for i, (d, n) in enumerate([(4, 150), (9, pick(60, 300)), (25, pick(20, 100))])]
    b = Build()
    exe = b.harness("ingest", ["ingest.c", "hcommon.c"], wrap=WRAPS)
    scripts = [targeted(pid), all_pairs()]
    n = pick(8, 24)
    for k in range(n):
        scripts.append(random_trace(seed + k, pick(600, 3000), [0.05, 0.15, 0.3, 0.5][k % 4], [1, 2, 3, 9][(k // 2) % 4]))
    scripts += [j.result() for j in gjobs]
    # the long hand made scripts are cut so that TLC can work on the pieces in parallel
    cut = []
    for s in scripts: cut += [s[i:i + 400] for i in range(0, len(s), 400)]
    scripts = cut
    res = list(pool.map(lambda p: execute(exe, p[0], p[1]), enumerate(scripts)))
    for i, (tr, crashed) in enumerate(res):
        if crashed:
            tr2, c2 = execute(exe, i, scripts[i])
            if c2:
                k = c2[0]
                chk.violation("the frame processor stopped (rc=%s) at event %d: %s" % (c2[1], k, script_of(scripts[i][k:k+1])),
                              dict(script=script_of(scripts[i][max(0, k-15):k+1]), stderr=c2[2]))
                return chk.finish()
    traces = [t for t, _ in res]
    rej = check_traces(chk, "TraceIngest", CFG, traces, timeout=pick(600, 800))
    if rej:
        t, l, out = rej[0]
        # repeat the rejected run before reporting it
        tr2, _ = execute(exe, t - 1, scripts[t - 1])
        rej2 = check_traces(chk, "TraceIngest", CFG, [tr2], timeout=400)
        if rej2:
            l = rej2[0][1]
            exp = explain("TraceIngest", CFG, tr2, l)
            ev = tr2[l] if l < len(tr2) else None
            chk.violation("run %d rejected by Ingest at event %d: %s" % (t, l, describe(ev)),
                          dict(config=tr2[0], script=script_of(scripts[t-1][max(0, l-12):l]), observed=ev, expected=exp))
    mjob.result()
    chk.cov["samples"] = [json.dumps(x)[:1500] for x in (script_of(scripts[-1][:3]), traces[-1][1:3])]
    return chk.finish()

def describe(ev):
    if ev is None: return "end"
    e = dict(ev); b = e.pop("b", None)
    if b is not None: e["hdr"] = bytes(b[:80]).hex()
    return json.dumps(e)[:500]
def hash_id(pid): return int(pid[1:]) * 100000
