#!/usr/bin/env python3
"""runs the property's own check against each planted bug, in /repo copies selected by VF_REPO; records tools/seeded_results.json"""
import sys, os, json, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res_f = H + "/tools/seeded_results.json"
res = json.load(open(res_f)) if os.path.exists(res_f) else {}
sel = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
for b in sel:
    m = json.load(open("%s/seeded/%s/meta.json" % (H, b)))
    w = "/tmp/tryb/" + b
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/tryb", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w])
    subprocess.run(["git", "-C", w, "apply", "%s/seeded/%s/patch.diff" % (H, b)], check=True)
    out = []
    for p in [m["property"]]:
        r = subprocess.run([sys.executable, H + "/run.py", p, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VF_REPO=w))
        out.append("%s rc %d %s" % (p, r.returncode, (r.stdout.strip().splitlines() or ["?"])[-1][:160]))
        res[b] = p if r.returncode == 1 else "not caught (rc %d)" % r.returncode
    print(b, out, flush=True)
    shutil.rmtree(w, ignore_errors=True)
    json.dump(res, open(res_f, "w"), indent=1, sort_keys=True)
