"""C35: the turns of the daemon's main loop."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANT NotExplained
"""
MC = """SPECIFICATION Spec
CONSTANTS MaxTime = %d
 Gap = %d
 Periods = {%s}
 Minute = %d
INVARIANTS NeverMore NotLess EveryMinute Reloads Throttled Rtx
CHECK_DEADLOCK FALSE
"""
PROCS = ["rept_pctl_quota", "e_nbspq_report_quota", "log_qstate", "nbspstats_update", "set_server_state_flag", "set_filterserver_state_flag", "set_rtxdb_truncate_flag",
         "nbsp_mspoolbdb_dbstats", "exec_scheduler", "set_reload_filters_flag", "set_reload_server_filters_flag", "time", "getloadavg", "nbspstats_get_rtx_index"]
WORKS = ["pctl", "queue", "qstate", "stats", "server", "filter", "truncate", "dbstats", "load"]

def history(seed, n):
    """The script, and what is to be said about each line of it."""
    r = random.Random(seed)
    t0 = r.choice([0, 1700000000, 1760000059, 951782399, 1]) + r.randrange(0, 4000)
    per = lambda: r.choice([1, 2, 5, 7, 30, 60, 60, 61, 300, 3600])
    a, q, s, v, l, d = [per() for _ in range(6)]; tm = r.choice([1, 1, 2, 10, 120])
    lim = dict(soft=r.choice([0, 1, 3]), hard=r.choice([0, 2, 4, 6]), index=r.choice([0, 1, 250]))
    p = dict(pctl=a, queue=a, qstate=q, stats=s, server=v, filter=v, load=l, truncate=60 * tm, dbstats=d)
    sc = ["init %d %d %d %d %d %d %d %d %d %d %d 0" % (t0, a, q, s, v, l, tm, d, lim["soft"], lim["hard"], lim["index"])]
    ex = [dict(e="M", m=t0 // 60 % 60, p=p, lim=lim)]
    t = t0; style = r.choice(["second", "second", "slow", "jumps"]); load = 50
    for _ in range(n):
        if r.random() < 0.04: k = r.choice([1, 1, 2, 3]); sc.append("H %d" % k); ex.append(dict(e="H")); continue
        x = r.random()
        step = 1 if style == "second" else r.choice([1, 2, 5, 20, 59, 60, 61]) if style == "slow" else r.choice([1, 1, 1, 0, 10, 59, 61, 300, 1799, -1, -5, -70])
        if style == "second" and x < 0.05: step = r.choice([0, 2, 3, 30])
        t = max(t0, t + step)
        if r.random() < 0.2: load = r.choice([-1, 0, 99, 100, 199, 200, 250, 299, 300, 399, 400, 599, 600, 1200])
        idx = r.choice([0, 1, 249, 250, 999])
        sc.append("T %d %d %d" % (t, load, idx)); ex.append(dict(e="T", t=t - t0, m=t // 60 % 60, load=load, idx=idx))
    return sc, ex

def main(pid):
    chk = Check(pid); pool = ThreadPoolExecutor(NCPU)
    def models():
        for a in [(pick(9, 24), 1, "1, 2, 5", 4), (pick(10, 30), 3, "1, 3, 4", 5)]:
            chk.add_model("up to %d s, turns at most %d s apart, periods {%s}, minutes of %d s" % a, tlc("MCPeriodic", MC % a, workers=pick(3, NCPU), timeout=800))
    mj = pool.submit(models)
    b = Build(); exe = b.harness("per", ["per.c", "hcommon.c"], wrap=PROCS)
    d = subdir("per")
    H = [history(SEED * 100003 + k, pick(300, 3000)) for k in range(pick(32, 200))]
    def go(k):
        return run_harness(exe, [os.path.join(d, "s%d" % k)], H[k][0], timeout=200, cwd=d, env=dict(os.environ, TZ="UTC"))
    traces = []
    for k, (lines, rc, err) in enumerate(pool.map(go, range(len(H)))):
        ex = H[k][1]
        if rc != 0 or len(lines) != len(ex) - 1: chk.violation("the main loop stopped (rc=%s) after %d turns" % (rc, len(lines)), dict(script=H[k][0][:len(lines) + 3], err=err)); mj.result(); return chk.finish()
        traces.append([ex[0]] + [dict(x, **y) for x, y in zip(ex[1:], lines)])
    rej = check_traces(chk, "TracePeriodic", CFG, traces)
    if rej:
        n, l = rej[0][0], rej[0][1]; tr = traces[n - 1]; l = min(max(l, 2), len(tr))
        chk.violation("turn %d is not a step of Periodic: %s; before it: %s; with %s" % (l, json.dumps(tr[l-1]), json.dumps(tr[l-2])[:300], json.dumps(tr[0])),
                      dict(script=H[n - 1][0][:l], observed=tr[max(0, l-10):l], expected=explain("TracePeriodic", CFG, tr, l)))
    mj.result()
    chk.cov["samples"] = [dict(script=H[0][0][:6], trace=traces[0][:4])]
    return chk.finish()
