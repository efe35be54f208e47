"""C32: statistics reports."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
KINDS = ["frames_received", "frames_processed", "jumps", "frames_bad", "transmitted", "completed", "missed", "rtx",
         "rtx_c", "rtx_p", "rtx_i", "rtx_r", "rejected", "aborted", "products_bad"]
CFG = """SPECIFICATION Spec
CONSTANTS TraceFile = "traces.ndjson"
 IndexFile = "index.ndjson"
 FreeAt = 0
INVARIANTS NotExplained Partition
"""
MC = """SPECIFICATION MCSpec
CONSTANTS Kinds = {"t", "r", "x"}
 RtxKind = "r"
 TransKind = "t"
 MaxEvents = %d
 MaxReports = %d
INVARIANTS Partition IndexOk
PROPERTY ReportEmpties
"""
def main(pid):
    chk = Check(pid)
    r = random.Random(SEED * 17 + 3)
    pool = ThreadPoolExecutor(NCPU)
    mj = pool.submit(lambda: chk.add_model("3 kinds, %s events, reports" % pick(5, 8), tlc("MCStats", MC % (pick(5, 8), pick(3, 4)), workers=3)))
    b = Build()
    exe = b.harness("stats", ["stats.c", "hcommon.c"])
    d = subdir("st")
    scripts = [["c %s %d" % (k, i + 1) for i, k in enumerate(KINDS)] + ["report", "report", "badreport", "report"]]
    scripts.append(sum([["c %s 5" % k, "report"] for k in KINDS], []))
    scripts.append(sum([["c %s 5" % k, "badreport"] for k in KINDS], []) + ["report"])
    for k in range(pick(12, 60)):
        sc = []
        for i in range(pick(150, 300)):
            x = r.random()
            if x < 0.07: sc.append("report")
            elif x < 0.1: sc.append("badreport")
            else:
                k_ = r.choice(KINDS)
                sc.append("c %s %d" % (k_, r.choice([0, 1, 16, 4000, 5152])))
                if r.random() < 0.2: sc += ["c %s 1" % r.choice(["transmitted", "rtx"])] * r.randrange(1, 12)
        scripts.append(sc + ["report"])
    for k in range(pick(4, 12)):
        scripts.append(["c transmitted 1", "c rtx 1"] + ["par %d %d %d %d" % (2 + k % 6, pick(20000, 100000), 400, k + 1)] * 2 + ["c rtx 1", "report", "report"])
    def go(k):
        return run_harness(exe, [os.path.join(d, "s%d" % k)], scripts[k], timeout=200, cwd=d)
    traces = []
    for k, (lines, rc, err) in enumerate(pool.map(go, range(len(scripts)))):
        if rc != 0: chk.violation("the statistics code stopped (rc=%s)" % rc, dict(script=scripts[k], err=err)); return chk.finish()
        traces.append(lines)
    rej = check_traces(chk, "TraceStats", CFG, traces)
    if rej:
        n, l = rej[0][0], rej[0][1]; tr = traces[n - 1]; l = min(max(l, 1), len(tr))
        exp = explain("TraceStats", CFG, tr, l)
        prev = max([i for i in range(l - 1) if tr[i]["e"] == "report"] or [-1])
        chk.violation("event %d is not a step of Stats: %s; since the previous report: %s" % (l, json.dumps(tr[l-1]), json.dumps(tr[prev + 1:l-1])[:300]),
                      dict(script=scripts[n - 1], observed=tr[max(0, l-30):l], expected=exp))
        return chk.finish()
    mj.result()
    chk.cov["samples"] = [dict(script=scripts[i][:8], trace=traces[i][-2:]) for i in (0, 5)]
    return chk.finish()
