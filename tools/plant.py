#!/usr/bin/env python3
"""(re)creates seeded/<id>/ from tools/bugs/*.py in a scratch copy and confirms each; usage: plant.py [id...]  (not used by any check)"""
import sys, os, json, subprocess, shutil, glob, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, breaks, needs, edits, demo, kind="core"): BUGS.append(dict(id=id, prop=prop, breaks=breaks, needs=needs, edits=edits, demo=demo, kind=kind))
for f in sorted(glob.glob(H + "/tools/bugs/*.py")): exec(open(f).read())
assert len(set(b["id"] for b in BUGS)) == len(BUGS)
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, errors="replace", **k)
def one(b):
    w = "/tmp/plant/" + b["id"]
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    r = w + "/repo"
    sh(["git", "clone", "-q", "--shared", "/repo", r])
    try:
        out = os.path.join(H, "seeded", b["id"]); tmp = w + "/out"; os.makedirs(tmp)
        dd = H + "/tools/demo/"
        shutil.copytree(H + "/env/include", tmp + "/include")
        shutil.copy(H + "/env/ua_model.c", tmp)
        if b["kind"] == "core":
            for f in glob.glob(dd + "*.[ch]"): shutil.copy(f, tmp)
            shutil.copy(dd + "demo.sh", tmp + "/demo.sh")
        elif b["kind"] == "dump":
            for f in glob.glob(dd + "dump/*"): shutil.copy(f, tmp)
        else:
            for f in glob.glob(dd + "backend/*"): shutil.copy(f, tmp)
            for f in ("ua_types_model.c", "ua_server_model.c", "ua_backend.h", "vf.h", "sax.h"): shutil.copy(H + "/env/" + f, tmp)
        os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo.c", "w").write('#include "%s.h"\n' % ({"core": "common", "dump": "dcommon"}.get(b["kind"], "bcommon")) + b["demo"])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", tmp + "/demo.sh"], cwd=r)
        if r0.returncode: return b["id"], "demo fails on the unchanged tree: rc %d %s" % (r0.returncode, (r0.stderr + r0.stdout)[-1500:])
        for f, a, n in b["edits"]:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(a) != 1: return b["id"], "edit in %s matches %d times: %s" % (f, s.count(a), a[:80])
            open(p, "w").write(s.replace(a, n))
        d = sh(["git", "-C", r, "diff"]).stdout
        # changed lines must be original ones
        orig = {}
        for l in d.splitlines():
            if l.startswith("--- a/"):
                orig = set(x.strip() for x in sh(["git", "-C", "/repo", "show", "17262a5:" + l[6:]]).stdout.splitlines())
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in orig:
                return b["id"], "changes a line that is not original: " + l
        r1 = sh(["bash", tmp + "/demo.sh"], cwd=r)
        if r1.returncode == 0: return b["id"], "demo passes with the patch"
        if r1.returncode in (98, 99): return b["id"], "does not compile: " + r1.stderr[-800:]
        # the stable tests
        t = sh(["gcc", "-w", "-g", "-I" + r + "/src", "-I" + r + "/include", "-I/usr/include/libxml2", r + "/tests/allocator.c", r + "/src/CharAllocator.c", r + "/src/Parser.c", r + "/src/PrintfLogger.c", "-lcheck", "-lxml2", "-lsubunit", "-lm", "-lpthread", "-lrt", "-o", w + "/al"])
        if t.returncode:
            t = sh(["gcc", "-w", "-g", "-I" + r + "/src", "-I" + r + "/include", "-I/usr/include/libxml2", r + "/tests/allocator.c", r + "/src/CharAllocator.c", r + "/src/Parser.c", r + "/src/PrintfLogger.c", "-lcheck", "-lxml2", "-lm", "-lpthread", "-o", w + "/al"])
            if t.returncode: return b["id"], "stable tests do not build " + t.stderr[-500:]
        t = sh([w + "/al"], cwd=w)
        if t.returncode: return b["id"], "stable tests fail " + t.stdout[-300:]
        open(tmp + "/patch.diff", "w").write(d)
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        return b["id"], "ok rc %d: %s" % (r1.returncode, (r1.stderr.strip().splitlines() or [""])[0][:150])
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    sel = [b for b in BUGS if not sys.argv[1:] or b["id"] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, sel): print(i, m, flush=True)
