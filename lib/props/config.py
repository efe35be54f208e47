"""C34: the configuration in effect."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 OptFile = "options.json"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANT MaxCmds = %d
INVARIANTS TypeOK Refused LastWins Started Printing
CHECK_DEADLOCK FALSE
"""
OPTS = json.load(open(os.path.join(VERIF, "lib", "options.json")))
BY = {o["name"]: o for o in OPTS}
BAD = ["abc", "1.5", "12x", "99999999999", "0xg", "1 2", "--3"]
CHARS = "abcxyzABC019/._-,:^!$()[]|*+?%@ "

def number(r, v):
    """A way to write an integer in Tcl."""
    k = r.randrange(7)
    if k == 0 and v >= 0: return "0x%x" % v
    if k == 1 and v >= 0: return "0%o" % v
    if k == 2 and abs(v) < 1 << 30: a = r.randrange(-9, 9); return "[expr {%d - %d}]" % (v + a, a)
    if k == 3: return '"%d"' % v
    if k == 4: return "{ %d }" % v
    return "%d" % v

def value(r, o, wild):
    if o["type"] == "int":
        lo, hi = o["min"], o["max"]
        c = [lo, lo + 1, min(hi, lo + r.randrange(1, 2000)), hi, hi - 1, o["default"]]
        if wild and not o.get("free"): c = [lo - 1, lo - 1, -5, -2147483647] + ([hi + 1, hi + 7] if hi < 2147483647 else [])
        v = r.choice(c)
        # what is more than the maximum in a variable without one, is not said
        return v
    if wild: return ""
    return r.choice(["/tmp/x", "eth0", "a b", "x", "^sa,!^kw", "224.0.1.1 224.0.1.2", "%s%d", "{}"[:0] + "z", "".join(r.choice(CHARS) for _ in range(r.randrange(1, 40))).strip() or "q", "y" * r.randrange(1, 3000)])

def script(r, val, wild, n):
    """Tcl lines and commands; val: values the script can see."""
    tcl, ev = [], []; skip = False
    for _ in range(n):
        o = r.choice(OPTS); nm = o["name"]; k = r.random(); c = None
        if k < 0.70:
            v = value(r, o, wild and r.random() < 0.15)
            if o["type"] == "int": t = "set %s %s" % (nm, number(r, v))
            else: t = "set %s {%s}" % (nm, v)
            c = dict(op="set", n=nm, v=v)
        elif k < 0.77 and o["type"] == "int" and -1000 <= val[nm] <= 1 << 20: d = r.choice([1, 2, 10]); t = "incr %s %d" % (nm, d); c = dict(op="incr", n=nm, v=d)
        elif k < 0.82:
            m = r.choice([x for x in OPTS if x["type"] == "int"])["name"]
            if o["type"] != "int" or not 0 <= val[m] <= 1 << 20: continue
            d = r.choice([0, 1, 5]); t = "set %s [expr {$%s + %d}]" % (nm, m, d); c = dict(op="copy", n=nm, m=m, v=d)
        elif k < 0.86:
            s = [x for x in OPTS if x["type"] == "str" and val[x["name"]] is not None]
            if not s: continue
            m = r.choice(s)["name"]
            if o["type"] == "str": t = "set %s $%s" % (nm, m); c = dict(op="scopy", n=nm, m=m)
            else: a = r.choice(["x", "/y"]); t = "append %s %s" % (m, a); c = dict(op="append", n=m, v=a)
        elif k < 0.90: t = r.choice(["set _local 5", "proc p {} {return 3}", "# set %s 3" % nm, "if {0} { set %s 1 }" % nm, "catch {error x}", "catch {nosuchcommand}"]); c = dict(op="none")
        elif k < 0.93 and o["type"] == "int": t = "catch {set %s {%s}}" % (nm, r.choice(BAD)); c = dict(op="none")
        elif k < 0.95: t = "return"; c = dict(op="return")
        elif wild and k < 0.97:
            t = r.choice(["error x", "nosuchcommand", "set", "if {1} {", "source /nonexistent"] + (["set %s {%s}" % (nm, r.choice(BAD))] * 6 if o["type"] == "int" else [])); c = dict(op="bad")
            if t == "if {1} {": t = "if {1} {\n"                # never closed: nothing after it is seen
        else: continue
        tcl.append(t); ev.append(dict(e="cmd", **c))
        if not skip:
            if c["op"] == "set": val[nm] = c["v"]
            elif c["op"] == "incr": val[c["n"]] += c["v"]
            elif c["op"] == "copy": val[c["n"]] = val[c["m"]] + c["v"]
            elif c["op"] == "scopy": val[c["n"]] = val[c["m"]]
            elif c["op"] == "append": val[c["n"]] += c["v"]
            if c["op"] in ("return", "bad"): skip = True
    return tcl, ev

def case(seed):
    r = random.Random(seed); wild = r.random() < 0.5
    val = {o["name"]: (o["default"] if o["type"] == "int" else None) for o in OPTS}
    size = r.choice([1, 2, 5, 20, 150])
    D = U = None; ev = []
    if r.random() < 0.6: D, e = script(r, val, wild and r.random() < 0.3, size); ev += e
    argv = []; pr = r.random() < 0.5
    if r.random() < 0.75:
        there = r.random() < 0.96
        U, e = script(r, val, wild, size)
        if r.random() < 0.1: argv += ["-c", "other"]           # the last one counts
        argv += ["-c", "user" if there else "missing"]
        ev += [dict(e="file", exists=there)] + e
    if pr: argv.insert(r.choice([0, len(argv)]), "-C")
    if r.random() < 0.2: argv += [r.choice(["-f", "-r", "-s", "-F", "-fs", "-rs"])]
    if r.random() < 0.04: argv += [r.choice(["-x", "-frs", "-Z"])]; ev.append(dict(e="badargs"))
    return D, U, argv, pr, ev

def values(out):
    """What the program printed: name and value."""
    v = {}
    for l in out.split("\n"):
        n, _, x = l.partition(" "); v[n] = x
    res = {}
    for o in OPTS:
        x = v.get(o["print"], v.get(o["name"]))
        if x is None: return None, o["name"]
        if o["type"] == "int":
            try: x = int(x, 8 if o["fmt"] == "o" else 10)
            except ValueError: return None, o["name"]
            if 2147483647 < x < 1 << 32: x -= 1 << 32          # a negative one, printed without its sign
            if not -2147483648 <= x <= 2147483647: x = -2147483648
        elif x == '""': x = ""
        res[o["name"]] = x
    return res, None

def main(pid):
    chk = Check(pid); pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(lambda: chk.add_model("all pairs of files of up to %d commands" % pick(2, 3), tlc("MCConfig", MC % pick(2, 3), workers=pick(3, NCPU), timeout=800)))
    b = Build(); exe = b.harness("cfg", ["cfg.c", "hcommon.c"], wrap=["init_globals", "drop_privs", "init_nbsp_regex", "init_directories", "verify_lock", "exec_startscript", "exec_stopscript"])
    top = subdir("cfg")
    def go(k):
        D, U, argv, pr, ev = case(SEED * 1000003 + k)
        d = os.path.join(top, str(k)); os.makedirs(d)
        for n, s in (("def", D), ("user", U), ("other", ["set feedmode 3", "set user {other}"])):
            if s is not None: open(os.path.join(d, n), "w").write("\n".join(s) + "\n")
        have = set(os.listdir(d))
        try: p = subprocess.run([exe] + argv, cwd=d, env=dict(os.environ, DEFCONF=os.path.join(d, "def")), stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: return ("the program does not end", k)
        out, err = p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
        reached = "@REACHED" in err; v = None
        if set(os.listdir(d)) != have: return ("files are created: %s" % sorted(set(os.listdir(d)) - have), k)
        if p.returncode < 0: return ("the program is killed by signal %d" % -p.returncode, k)
        outcome = "started" if reached else "printed" if p.returncode == 0 else "refused"
        if outcome != "refused":
            v, miss = values(out)
            if v is None: return ("option %s is not reported" % miss, k)
        shutil.rmtree(d)
        return None, ev + [dict(e="end", print=pr, outcome=outcome, vals=v or {})]
    n = pick(700, 6000); R = list(pool.map(go, range(n)))
    def replay(k): D, U, argv, pr, ev = case(SEED * 1000003 + k); return dict(default_file=D, user_file=U, argv=argv)
    bad = [(m, k) for m, k in R if m]
    if bad: mj.result(); chk.violation(bad[0][0], replay(bad[0][1])); return chk.finish()
    traces = [t for _, t in R]
    extra = {"options.json": json.dumps(OPTS)}
    rej = check_traces(chk, "TraceConfig", CFG, traces, extra_files=extra)
    if rej:
        k = rej[0][0] - 1; end = traces[k][-1]
        # what the specification says of the end
        want = explain("TraceConfig", CFG, traces[k], len(traces[k]), extra_files=extra)
        chk.violation("what comes of these files is not what Config says: %s with %s" % (end["outcome"], json.dumps({c["n"]: end["vals"].get(c["n"]) for c in traces[k] if c.get("n") in end["vals"]})[:600]),
                      dict(observed=end, expected=want, **replay(k)))
    mj.result()
    for w in ("started", "printed", "refused"):
        c = sum(t[-1]["outcome"] == w for t in traces)
        if c < n // 20: raise CheckError("only %d of %d runs are %s" % (c, n, w))
    chk.cov["samples"] = [dict(events=traces[k][:6]) for k in range(3)]
    return chk.finish()
