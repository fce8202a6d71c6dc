"""Bounded end-to-end complement: builds /repo's working tree in a scratch directory (AddressSanitizer) and compares what the
library does with independent oracles. Everything here is labelled bounded in the evidence; it is never counted as proved."""
import os, shutil, subprocess, threading, time
import driver
VERIF, CON = driver.VERIF, driver.CON
_lock = threading.Lock(); _built = {}


def build(repo, scratch):
    with _lock:
        if scratch in _built: return _built[scratch]
        d = os.path.join(scratch, "e2e"); os.makedirs(d)
        for top in ("src", "modules", "tools", "doc"):
            if os.path.isdir(os.path.join(repo, top)): shutil.copytree(os.path.join(repo, top), os.path.join(d, top), symlinks=True)
        for f in os.listdir(repo):
            if os.path.isfile(os.path.join(repo, f)) and not f.startswith("."): shutil.copy2(os.path.join(repo, f), d)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        for v in ("CFLAGS", "MAKEFLAGS", "LDFLAGS"): env.pop(v, None)
        rc, o, e, _ = driver.run(["make", "-j8", "SHELL=/bin/bash", ".SHELLFLAGS=-ec", "CC=gcc -fsanitize=address -fno-omit-frame-pointer -g -w", "all"], 300, cwd=d, env=env)
        if rc: _built[scratch] = (None, "library build failed: " + (e or o)[-1500:]); return _built[scratch]
        b = os.path.join(d, "build")
        rc, o, e, _ = driver.run(["gcc", "-fsanitize=address", "-g", "-w", "-O1", "-I" + os.path.join(d, "src"), os.path.join(CON, "e2e_run.c"), "-o", os.path.join(d, "runner"),
                                  "-L" + os.path.join(b, "lib"), "-lbsdconv"], 120)
        if rc: _built[scratch] = (None, "runner build failed: " + e[-1500:]); return _built[scratch]
        _built[scratch] = (d, ""); return _built[scratch]


class Crash(Exception): pass


def batch(d, lines, leaks=True, timeout=300):
    """runs the commands, returns one reply per command; raises Crash with the report if the runner dies"""
    env = dict(os.environ, ASAN_OPTIONS="detect_odr_violation=0:detect_leaks=%d:exitcode=43:malloc_fill_byte=190:max_malloc_fill_size=65536:allocator_may_return_null=1" % leaks, LSAN_OPTIONS="exitcode=44",
               LD_LIBRARY_PATH=os.path.join(d, "build", "lib"), BSDCONV_PATH=os.path.join(d, "build"))
    p = subprocess.Popen([os.path.join(d, "runner")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env)
    try: o, e = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); o, e = p.communicate(); raise Crash("timeout after %ds, %d replies" % (timeout, o.count(b"\n")))
    rep = o.decode("latin1").splitlines()
    if p.returncode != 0 or len(rep) != len(lines):
        err = e.decode("utf8", "replace")
        x = Crash("runner ended with %s after %d of %d commands; last commands: %s\n%s" % (p.returncode, len(rep), len(lines), lines[max(0, len(rep) - 2):len(rep) + 1], err[:3000]))
        x.rc, x.rep, x.err = p.returncode, rep, err
        raise x
    return rep


class Bench:
    """collects conversions/inputs/expected outputs and compares; one violation record per kind of failure"""
    def __init__(self, name, d):
        self.name, self.d, self.jobs, self.viol, self.n, self.distinct, self.samples = name, d, [], [], 0, set(), []
    def case(self, conv, chunks, want, cmd="R", pre=(), what="", group=None, post=()):
        """chunks: list of bytes; want: (bytes, ierr|None, oerr|None), or callable(reply)->None|str,
        or None: the reply must be the same for all cases of the group"""
        self.jobs.append((conv, chunks, want, cmd, tuple(pre), what, group, tuple(post)))
    def run(self, par=1):
        js = self.jobs; self.jobs = []
        if not js: return
        lines, idx, cur, groups = [], [], None, {}
        for conv, chunks, want, cmd, pre, what, grp, post in js:
            if conv != cur: lines.append("C " + conv); cur = conv; created = len(lines) - 1
            for p in pre: lines.append(p)
            lines.append(cmd + " " + ",".join(c.hex().upper() or "-" for c in chunks)); idx.append((len(lines) - 1, created))
            for p in post: lines.append(p[0])   # (command, expected reply) pairs after the conversion
        try: rep = batch(self.d, lines)
        except Crash as c:
            self.viol.append({"obligation": self.name + ": memory-safety or termination", "description": str(c)[:3500],
                              "commands": lines[max(0, len(getattr(c, "rep", [])) - 3):len(getattr(c, "rep", [])) + 1]})
            if getattr(c, "rc", 0) == 44 and len(c.rep) == len(lines): rep = c.rep
            else: return
        for (i, ci), (conv, chunks, want, cmd, pre, what, grp, post) in zip(idx, js):
            r = rep[i]; self.n += 1
            if rep[ci] != "ok" and not callable(want): msg = "the conversion cannot be created"
            elif want is None:
                msg = None
                if grp in groups and groups[grp][0] != r: msg = "%s, but %s for %s" % (r[:300], groups[grp][0][:300], groups[grp][1])
                groups.setdefault(grp, (r, [c.hex()[:200] for c in chunks[:40]]))
            elif callable(want): msg = want(r)
            else:
                f = r.rsplit(" ", 2); msg = None
                if len(f) != 3: msg = "unexpected reply " + r
                else:
                    if f[0] != want[0].hex().upper(): msg = "output %s, expected %s" % (f[0][:200], want[0].hex().upper()[:200])
                    elif want[1] is not None and int(f[1]) != want[1]: msg = "%s input errors, expected %d" % (f[1], want[1])
                    elif want[2] is not None and int(f[2]) != want[2]: msg = "%s output errors, expected %d" % (f[2], want[2])
            for k, (c, exp) in enumerate(post):
                if not msg and rep[i + 1 + k] != exp: msg = "%s gives %s, expected %s" % (c, rep[i + 1 + k], exp)
            self.distinct.add(hash((conv, cmd, tuple(chunks))))
            if len(self.samples) < 3: self.samples.append({"conversion": conv, "input": [c.hex()[:80] for c in chunks[:8]], "reply": r[:80]})
            if msg and len(self.viol) < 5:
                self.viol.append({"obligation": "%s%s" % (self.name, ": " + what if what else ""), "description": msg, "conversion": conv,
                                  "create": rep[ci], "before": list(pre), "command": cmd, "chunks": [c.hex()[:4000] for c in chunks[:200]]})
    def result(self):
        return {"name": self.name, "violations": self.viol, "evaluations": self.n, "distinct_nontrivial": len(self.distinct), "samples": self.samples,
                "kind": "bounded: end-to-end run of the real library against an independent oracle"}


def extra(name, fill):
    if isinstance(fill, str):
        import oracles, oracles2; fill = getattr(oracles2, fill, None) or getattr(oracles, fill)
    def f(repo, scratch, tier, deadline):
        d, err = build(repo, scratch)
        if not d: return {"name": name, "error": True, "note": err, "violations": []}
        b = Bench(name, d)
        try: fill(b, tier)
        except Crash as c: b.viol.append({"obligation": name + ": memory-safety or termination", "description": str(c)[:3500]})
        b.run(); return b.result()
    f.__name__ = name; return f


if __name__ == "__main__":
    import sys, oracles, tempfile
    d = tempfile.mkdtemp(prefix="vp_e2e_")
    try:
        for n in sys.argv[1:]:
            r = extra(n, n)(driver.REPO, d, os.environ.get("TIER", "quick"), 0)
            print(n, r["evaluations"] if "evaluations" in r else r, len(r["violations"]))
            for v in r["violations"]: print("   ", {k: (str(x)[:300]) for k, x in v.items()})
    finally: shutil.rmtree(d)
