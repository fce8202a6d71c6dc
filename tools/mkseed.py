#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : each spec defines id, prop, edits=[(file, old, new)], needs, breaks, demo (shell text), extra={name:text}.
Makes the change in a scratch copy of /repo, builds, runs the stable tests and the demo there is left to vcheck --bug."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 = property holds
here="$(cd "$(dirname "$0")" && pwd)"
export LD_LIBRARY_PATH="$PWD/build/lib" BSDCONV_PATH="$PWD/build"
conv(){ timeout 20 build/bin/bsdconv "$1" 2>/dev/null | od -An -tx1 -v | tr -d ' \\n'; }
rc=0
eq(){ if [ "$2" != "$3" ]; then echo "FAIL $1: got $2 want $3"; rc=1; fi; }
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
capi(){ gcc -w -g -I"$PWD/src" "$here/demo.c" -o "$t/demo" -L"$PWD/build/lib" -lbsdconv || exit 3; timeout 60 "$t/demo" "$@"; }
'''
for f in sys.argv[1:]:
    ns = {}; exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        try:
            for path, old, new in s["edits"]:
                p = os.path.join(w, "r", path); t = open(p, encoding="latin1", newline="").read()
                assert t.count(old) >= 1, (s["id"], path, "not found", old)
                assert t.count(old) == 1 or s.get("first"), (s["id"], path, t.count(old))
                open(p, "w", encoding="latin1", newline="").write(t.replace(old, new, 1))
            diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"]); shutil.rmtree(w, ignore_errors=True)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(HEAD + s["demo"].strip("\n") + "\nexit $rc\n"); os.chmod(d + "/demo.sh", 0o755)
        for n, t in s.get("extra", {}).items(): open(os.path.join(d, n), "w").write(t)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], len(diff))
