#!/usr/bin/env python3
"""tryedits.py SPEC.py [ID...]: applies each behaviour-preserving rewrite in a scratch copy of /repo, builds, runs the stable tests and the checks of its properties; they have to stay quiet."""
import sys, os, subprocess, tempfile, shutil, json, time
ns = {}; exec(open(sys.argv[1]).read(), ns); ids = sys.argv[2:]
for r in ns["R"]:
    if ids and r["id"] not in ids: continue
    w = tempfile.mkdtemp(prefix="edit"); t = w + "/r"
    try:
        subprocess.check_call(["cp", "-a", "/repo", t])
        for path, old, new in r["edits"]:
            p = os.path.join(t, path)
            if old is None: open(p, "w").write(new); continue
            s = open(p, encoding="latin1", newline="").read()
            if isinstance(old, tuple): a = s.index(old[0]); old = s[a:s.index(old[1], a) + len(old[1])] # a whole region
            assert s.count(old) >= 1, (r["id"], path, old[:60])
            open(p, "w", encoding="latin1", newline="").write(s.replace(old, new, 1))
        for f in ("build.sh", "test.sh", "conversion_cases.py", "results.py"):
            open(w + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", t).replace("/opt/vp/", w + "/"))
        subprocess.call(["bash", w + "/test.sh", w + "/o.json"], stdout=open(w + "/log", "w"), stderr=subprocess.STDOUT)
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; pa = set(json.load(open(w + "/o.json"))["passed"])
        print(r["id"], "tests broken:", len([x for x in st if x not in pa]), flush=True)
        for p in r["props"]:
            t0 = time.time(); q = subprocess.run(["python3", "/verif/vp/check.py", p, os.environ.get("TIER", "quick")], cwd=w, env=dict(os.environ, VP_REPO=t, VP_EVDIR=w + "/ev"), capture_output=True, text=True)
            print("   %s rc=%d %.0fs" % (p, q.returncode, time.time() - t0), "" if q.returncode == 0 else "*** " + " | ".join([l for l in (q.stdout + q.stderr).splitlines() if "failed obl" in l or "VIOLATION" in l or "ERROR" in l or "soft" in l][:4]), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
