#!/usr/bin/env python3
"""determinism.py RUNS PROP...: every run twice (8 workers, then 3 workers), all event-log hashes compared."""
import glob, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SIM = os.path.join(os.environ.get("JASS_SIM_BUILD", os.path.join(HERE, "_build")), "jass_sim")
n = int(sys.argv[1])
for prop in sys.argv[2:]:
    for seed in (1, 77):
        got = []
        for w in (8, 5):
            d = tempfile.mkdtemp()
            subprocess.run([SIM, "run", prop, "--seed", str(seed), "--count", str(n), "--workers", str(w), "--out", d + "/r"], stdout=subprocess.DEVNULL)
            r = {}
            for f in glob.glob(d + "/r.*"):
                for l in open(f):
                    x = json.loads(l)
                    r[x["i"]] = (x["hash"], x["ok"])
            shutil.rmtree(d)
            got.append(r)
        bad = [i for i in got[0] if got[0][i][0] != got[1].get(i, (None,))[0]]
        print(prop, "seed", seed, len(got[0]), "runs", len(bad), "diverged", bad[:5], "failures", sum(not v[1] for v in got[0].values()), flush=True)
