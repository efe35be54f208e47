"""Author's helper: writes /verif/seeded/<id>/ from a description."""
import json, os, sys, shutil, subprocess
H = "/verif/tools/demo_common"
def seed(ident, prop, needs, breaks, edits, demo=None, wrap="", sh=None, files=None):
    if len(sys.argv) > 1 and ident not in sys.argv[1:]: return
    D = "/verif/seeded/" + ident
    os.makedirs(D, exist_ok=True)
    for f, a, b in edits:
        p = "/repo/" + f; s = open(p).read(); assert s.count(a) == 1, (ident, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = subprocess.check_output(["git", "-C", "/repo", "diff"]); open(D + "/patch.diff", "wb").write(d)
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    if demo is not None:
        open(D + "/demo.c", "w").write('#include "demo.h"\n' + demo)
        shutil.copy(H + "/demo.h", D)
        open(D + "/demo.sh", "w").write(open(H + "/demo.sh").read().replace("@WRAP@", wrap))
    else:
        open(D + "/demo.sh", "w").write(sh)
    for n, t in (files or {}).items(): open(D + "/" + n, "w").write(t)
    os.chmod(D + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
    subprocess.call(["/verif/tools/mkseed", ident])
