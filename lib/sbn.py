"""SBN frame encoder (written from the description of the protocol, not from /repo)."""
import struct, zlib

START, PROG, END, ERR, Z, ABORT = 1, 2, 4, 8, 16, 32

def frame(data=b"", ctrl=b"", blk=0, seq=1, tt=START | PROG | END, nf=1, sbnseq=1, cmd=3, ds=5,
          type=4, cat=1, code=1, flag=0, orig=0, cksum=None, dbs=None, dbo=None, run=1):
    fl = struct.pack(">BBBBBBBBIH", 0xff, 3, 0x14, 0, cmd, ds, 1, 0, sbnseq & 0xffffffff, run)
    s = sum(fl)
    fl += struct.pack(">H", s if cksum is None else cksum & 0xffff)
    body = ctrl + data
    pd = struct.pack(">BBHHHHBBI", 0x14, tt, 16 + (36 if blk == 0 else 0), blk,
                     len(ctrl) if dbo is None else dbo, len(body) if dbs is None else dbs, 0, 0, seq & 0xffffffff)
    ps = b""
    if blk == 0:
        ps = struct.pack(">BBHBBHHBBHHHBBIIIHH", 2, 1, 36, 1, flag, 0, 0, type, cat, code, nf, 0, 0, 0,
                         orig & 0xffffffff, 0, 0, run, 0)
    return fl + pd + ps + body

def unzipped(data, limit=5200):
    """What decompressing gives, [] when it fails (the decoder's buffer is `limit` bytes)."""
    try:
        d = zlib.decompressobj()
        out = d.decompress(data)
        if not d.eof or d.unused_data or len(out) > limit: return []
        return list(out)
    except zlib.error:
        return []

CCB = bytes([64, 12]) + bytes(range(1, 23))

def wmo(id="SAUS70", st="KWBC", t="031200", bbb=None, line2=b"METAR\r\r\n"):
    s = "%s %s %s" % (id, st, t)
    if bbb is not None: s += " " + bbb
    return s.encode("latin-1") + b"\r\r\n" + line2

def split(b, n):
    return [b[i:i+n] for i in range(0, len(b), n)] or [b""]
