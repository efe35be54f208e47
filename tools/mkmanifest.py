#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib")); sys.dont_write_bytecode = True
import registry as R
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup",
    checks=[dict(property=i, quick_cmd="bin/check %s --quick" % i, thorough_cmd="bin/check %s --thorough" % i, **R.INFO[i]) for i in ids if i in R.CHECKS],
    not_applicable=[dict(property=i, reason=R.NOT_APPLICABLE.get(i, R.PENDING)) for i in ids if i not in R.CHECKS])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
