"""Driver of the contract checks: builds the real code with the contract harnesses, runs the verifier,
replays counterexamples against the real code, writes the evidence file.

A unit = one verification run: a set of unmodified source files of /repo + one contract harness + defines.
Verdicts of a unit
  proved      every obligation accepted, every cover reached (non-vacuous), no bound hit
  violation   an obligation is refuted (replayed natively if possible)
  bounded     the verifier did not finish / an inductive (representation) obligation was refuted while no
              behavioural one was: only the native bounded run stands for this unit
  error       the unit could not be built
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CON = os.path.join(VERIF, "contracts")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BASE_DEFS = ["-D_BSDCONV_INTERNAL", '-DPREFIX="/nonexistent"', '-DBSDCONV_PATH="/nonexistent"', "-DUSE_FMALLOC"][:3]
CBMC_FLAGS = ["--no-malloc-may-fail", "--unwinding-assertions", "--no-standard-checks", "--pointer-check",
              "--bounds-check", "--object-bits", "11", "--json-ui", "--drop-unused-functions"]


# library functions of which CBMC's models say too little (any result, any text)
NONDET = {"snprintf", "sprintf", "vsnprintf", "vsprintf", "asprintf", "vasprintf", "sscanf", "vsscanf", "fscanf", "strtoul", "strtoull", "strtoll", "strtod", "qsort", "bsearch", "getline", "strtok", "strtok_r"}


class Unit:
    def __init__(self, name, src, harness, defs=(), enforce=(), replace=(), unwind=6, hunwind=10, tier="quick", timeout=240,
                 leak=True, rnd=20000, native=True, unwindset=(), maxunwind=40, flags=(), mem_gb=6, bounded=None,
                 no_body_ok=(), native_src=None, weight=1, gen=None, native_libs=(), retry=(), optional=False, soft=False, bound=None, exhaust=None, pre=False, stub=()):
        self.stub = list(stub)     # for the verifier: bodies in the source file that the harness replaces by their contracts
        self.pre = pre             # non-variadic models of sprintf/sscanf (contracts/pre.h)
        self.exhaust = exhaust     # the contract is evaluated at run time on the real code for every point of this stated finite domain (bounded, not proved)
        self.bound = bound         # the verifier decides the obligations within this stated bound only: never counted as discharged
        self.soft = soft           # starts from an injected state: a refuted obligation is reported, but only as no-failing-input-found
        self.optional = optional   # depends on the representation of the code: if it no longer compiles, it proves nothing and raises nothing
        self.retry = list(retry)
        self.name, self.src, self.harness, self.defs = name, list(src), harness, list(defs)
        self.enforce, self.replace, self.unwind, self.hunwind, self.tier, self.timeout = list(enforce), list(replace), unwind, hunwind, tier, timeout
        self.leak, self.rnd, self.native, self.unwindset, self.maxunwind = leak, rnd, native, list(unwindset), maxunwind
        self.flags, self.mem_gb, self.bounded, self.no_body_ok = list(flags), mem_gb, bounded, list(no_body_ok)
        self.native_src, self.weight, self.gen, self.native_libs = native_src, weight, gen, list(native_libs)


def run(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return -999, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t


def incs(work):
    return ["-I" + work, "-I" + os.path.join(REPO, "src"), "-I" + CON]


class Result:
    def __init__(self, unit):
        self.unit = unit; self.verdict = "error"; self.note = ""; self.obligations = 0; self.discharged = 0
        self.covers = 0; self.failed = []; self.solver_s = 0.0; self.wall = 0.0; self.inputs = None; self.replayed = False
        self.replay_out = ""; self.cmd = ""; self.names = []; self.rnd_done = 0; self.rnd_total = 0; self.verifier_out = ""
        self.functions = []; self.nobody = []; self.unwind_used = 0


def build_native(u, work):
    exe = os.path.join(work, "native")
    if os.path.exists(exe): return exe, ""
    srcs = u.native_src if u.native_src is not None else u.src
    cmd = ["gcc", "-g", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"] + BASE_DEFS + incs(work) + u.defs + \
          [os.path.join(CON, u.harness)] + [src_path(s, work) for s in srcs] + ["-o", exe, "-ldl", "-lpthread", "-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=strdup"] + u.native_libs
    rc, o, e, _ = run(cmd, 120)
    return (exe, "") if rc == 0 else (None, e[-2000:])


def src_path(s, work):
    if s.startswith("@"): return os.path.join(work, s[1:])   # generated in the work directory
    if s.startswith("="): return os.path.join(CON, s[1:])
    return os.path.join(REPO, s)


ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_odr_violation=0:detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:malloc_fill_byte=190:max_malloc_fill_size=4096",
                LSAN_OPTIONS="exitcode=43", PATH=os.environ.get("PATH", ""))


def native_random(u, work, n, res, seed=SEED, timeout=60):
    exe, err = build_native(u, work)
    if not exe:
        res.note += " native build failed: " + err[:300]; return False
    rc, o, e, _ = run([exe, "exhaust"] if u.exhaust else [exe, "random", str(seed), str(n)], timeout, cwd=work, env=ASAN_ENV)
    if rc == 0:
        m = re.search(r"VP-RANDOM-PASSED (\d+) of (\d+)", o)
        if m: res.rnd_done += int(m.group(1)); res.rnd_total += int(m.group(2))
        return False
    if rc in (42, 43, -11, -6, 1, 139, 134) or "AddressSanitizer" in e:
        ins = parse_input(o + "\n" + e)
        # a leak is only seen at exit: the input is not known, bisect over single runs
        name = (re.search(r"VP-OBLIGATION-FAILED (.*)", o) or [None, None])[1]
        if name and name.startswith("inductive:"):
            res.note += " inductive obligation %s refuted natively;" % name; return False
        if name is None:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", e) or re.search(r"ERROR: (LeakSanitizer): ", e)
            name = "memory-safety: " + (m.group(1) if m else "crash rc=%d" % rc)
        res.failed.append({"obligation": name, "where": "native run of the real code", "description": (e or o)[-3000:]})
        if ins is not None and confirm(exe, ins, work)[0]:
            res.inputs, res.replayed, res.replay_out = ins, True, (o + e)[-4000:]
            return True
        if ins is None:
            res.inputs, res.replayed, res.replay_out = None, True, (o + e)[-4000:]
            res.random_replay = [seed, n]
            return True
        res.failed.pop()
        res.note += " unconfirmed native failure"
        return False
    res.note += " native run rc=%s" % rc
    if rc == 9: res.verdict = "error"
    return False


def parse_input(text):
    m = re.findall(r"VP-INPUT((?: \d+)+)", text)
    return [int(x) for x in m[-1].split()] if m else None


def confirm(exe, ins, work):
    rc, o, e, _ = run([exe, "replay"] + [str(x) for x in ins], 60, cwd=work, env=ASAN_ENV)
    bad = rc not in (0, 3) and not (rc == 42 and "VP-OBLIGATION-FAILED inductive:" in o)
    return bad, rc, o + e


def parse_json(o):
    try: return json.loads(o)
    except Exception:
        # killed in the middle
        return None


def loops_of(gb):
    rc, o, e, _ = run(["goto-instrument", "--show-loops", gb], 60)
    return re.findall(r"^Loop (\S+):\s*\n\s+file (\S+)", o, re.M)


def verify(u, work, res, deadline):
    t0 = time.time()
    objs = []
    for s in u.src + ["H"]:
        path = os.path.join(CON, u.harness) if s == "H" else src_path(s, work)
        ob = os.path.join(work, "o%d.gb" % len(objs))
        rc, o, e, _ = run(["goto-cc", "-DVP_CPROVER"] + BASE_DEFS + incs(work) + u.defs + (["-include", os.path.join(CON, "pre.h")] if u.pre and s != "H" else []) + ["-c", path, "-o", ob], 60)
        if rc != 0:
            res.verdict, res.note = ("bounded" if u.native and build_native(u, work)[0] else "error"), "goto-cc failed on %s: %s" % (path, e[-800:]); return
        if u.stub and s != "H": run(["goto-instrument"] + [x for f in u.stub for x in ("--remove-function-body", f)] + [ob, ob], 60)
        objs.append(ob)
    a = os.path.join(work, "a.gb"); b = os.path.join(work, "b.gb")
    rc, o, e, _ = run(["goto-cc"] + objs + ["--function", "harness", "-o", a], 60)
    if rc != 0:
        res.verdict, res.note = "error", "link failed: " + e[-800:]; return
    if u.enforce or u.replace:
        cmd = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", "harness"]
        for x in u.enforce: cmd += ["--enforce-contract", x]
        for x in u.replace: cmd += ["--replace-call-with-contract", x]
        rc, o, e, _ = run(cmd + [a, b], 120)
        if rc != 0:
            res.verdict, res.note = "error", "goto-instrument failed: " + (o + e)[-800:]; return
    else: shutil.copy(a, b)
    loops = loops_of(b)
    unw = u.unwind
    lim = {}
    for x in u.unwindset: lid, n = x.rsplit(":", 1); lim[lid] = int(n)
    for lid, f in loops:
        if lid in lim: continue
        if f.startswith(CON) or "vp.h" in f:
            lim[lid] = 100 if lid.startswith(("vp_begin", "harness")) else max(u.hunwind, unw)
    while True:
        us = ["%s:%d" % x for x in lim.items()]
        cmd = ["cbmc", b] + CBMC_FLAGS + (["--memory-leak-check"] if u.leak else []) + u.flags + ["--unwind", str(unw)]
        if us: cmd += ["--unwindset", ",".join(us)]
        res.cmd = " ".join(cmd[:1] + ["<unit>"] + cmd[2:])
        left = deadline - time.time()
        if left < 3: res.verdict = "bounded"; res.note += " no time left"; return
        rc, o, e, dt = run(cmd, min(u.timeout, left), mem_gb=u.mem_gb)
        res.solver_s += dt; res.unwind_used = max([unw] + [n for l, n in lim.items() if not l.startswith(('vp_', 'harness', 'spec'))])
        js = parse_json(o)
        results = None; nobody = []
        if js:
            for item in js:
                if "result" in item: results = item["result"]
                mt = item.get("messageText", "")
                m = re.search(r"no body for (?:function|callee) '?([\w:.$]+)", mt)
                if m: nobody.append(m.group(1))
        if results is None:
            res.verdict = "bounded"; res.note += " verifier gave no result (%s)" % ("timeout" if rc == -999 else "rc=%s %s" % (rc, (o[-300:] if not js else ""))); return
        res.nobody = sorted(set(nobody) - set(u.no_body_ok))
        bad_unw = [r for r in results if ".unwind." in r["property"] and r["status"] == "FAILURE"]
        fails = [r for r in results if r["status"] == "FAILURE" and ".unwind." not in r["property"] and not r["description"].startswith("cover:")]
        if bad_unw and not [r for r in fails if not r["description"].startswith("inductive:")] and time.time() < deadline - 5:
            grown = False
            for r in bad_unw:
                m = re.match(r"(.*)\.unwind\.(\d+)$", r["property"])
                lid = "%s.%s" % m.groups() if m else None
                cur = lim.get(lid, unw)
                if m and cur < u.maxunwind: lim[lid] = min(u.maxunwind, cur + max(2, cur // 2)); grown = True
            if grown: continue
        break
    cov = [r for r in results if r["description"].startswith("cover:")]
    obl = [r for r in results if not r["description"].startswith("cover:")]
    res.obligations = len(obl); res.discharged = len([r for r in obl if r["status"] == "SUCCESS"]); res.covers = len([r for r in cov if r["status"] == "FAILURE"])
    res.names = sorted({r["description"] for r in obl if r["property"].split(".")[-2:-1] in (["assertion"], ["postcondition"])})
    res.functions = sorted({r["property"].split(".")[0] for r in obl if not r["property"].startswith(("__CPROVER", "harness", "vp_"))})
    behav = [r for r in fails if not r["description"].startswith("inductive:")]
    if behav:
        # trace of the first behavioural failure, prefer named obligations
        behav.sort(key=lambda r: (0 if ("assertion" in r["property"] or "postcondition" in r["property"]) else 1))
        for r in behav[:6]:
            res.failed.append({"obligation": r["description"], "where": r["property"] + " " + json.dumps(r.get("sourceLocation", {}))})
        res.verdict = "violation"
        res.verifier_out = json.dumps([{k: r.get(k) for k in ("property", "description", "status", "sourceLocation")} for r in behav[:20]], indent=1)
        for r in behav[:3]:
            left = deadline - time.time()
            if left < 5: break
            rc, o, e, dt = run(cmd + ["--property", r["property"], "--trace"], min(u.timeout, left), mem_gb=u.mem_gb * 2)
            res.solver_s += dt
            ins = trace_inputs(parse_json(o))
            if ins is None: continue
            if res.inputs is None: res.inputs = ins
            if u.native:
                exe, err = build_native(u, work)
                if exe:
                    bad, rc2, out = confirm(exe, ins, work)
                    if bad:
                        res.inputs, res.replayed, res.replay_out = ins, True, out[-4000:]; return
        if u.native:
            r2 = Result(u)
            if native_random(u, work, max(u.rnd * 5, 200000), r2, timeout=max(5, min(60, deadline - time.time()))):
                res.inputs, res.replayed, res.replay_out = r2.inputs, True, r2.replay_out
                res.random_replay = getattr(r2, "random_replay", None)
                res.failed = r2.failed + res.failed
                return
        run(["goto-instrument", "--drop-unused-functions", b, b + "d"], 30)
        rc, o, e, _ = run(["goto-instrument", "--list-undefined-functions", b + "d"], 30)
        res.nobody = sorted(set(res.nobody) | (set(o.split()) & NONDET))
        if res.nobody:   # the code calls something no contract describes: what the verifier made up for it proves nothing either way
            res.verdict = "bounded"; res.note += " functions without body: " + ",".join(res.nobody) + "; refuted: " + behav[0]["description"]; res.failed = []; res.inputs = None
        return
    if bad_unw:
        res.verdict = "bounded"; res.note += " loop bound %d not sufficient: %s" % (unw, bad_unw[0]["property"]); return
    if [r for r in fails if r["description"].startswith("inductive:")]:
        res.verdict = "bounded"; res.note += " inductive obligation refuted: " + fails[0]["description"]; return
    vac = [r for r in cov if r["status"] == "SUCCESS"]
    if vac or not cov:
        res.verdict = "bounded"; res.note += " vacuity: cover not reached: " + ",".join(r["description"] for r in vac); return
    if res.nobody:
        res.verdict = "bounded"; res.note += " functions without body: " + ",".join(res.nobody); return
    if res.discharged != res.obligations:
        res.verdict = "bounded"; res.note += " obligations with unknown status"; return
    res.verdict = "proved"


def trace_inputs(js):
    if not js: return None
    tr = None
    for item in js:
        for r in item.get("result", []) if "result" in item else []:
            if r.get("status") == "FAILURE" and "trace" in r: tr = r["trace"]
    if tr is None: return None
    vals = {}
    for st in tr:
        if st.get("stepType") != "assignment": continue
        m = re.match(r"IN\[(\d+)l*\]$", st.get("lhs", ""))
        if m:
            v = st.get("value", {})
            if "binary" in v: vals[int(m.group(1))] = int(v["binary"], 2)
            elif "data" in v:
                try: vals[int(m.group(1))] = int(re.sub(r"[uUlL]+$", "", v["data"]))
                except ValueError: pass
        elif st.get("lhs") == "IN" and isinstance(st.get("value"), dict) and "elements" in st["value"]:
            for el in st["value"]["elements"]:
                b = el.get("value", {}).get("binary")
                if b: vals[el["index"]] = int(b, 2)
    if not vals: return None
    return [vals.get(k, 0) for k in range(max(vals) + 1)]


STOP = threading.Event()   # set once a violation has been replayed on the real code: units not yet started are skipped

def do_unit(u, deadline, scratch):
    res = Result(u); t0 = time.time()
    if STOP.is_set(): res.verdict, res.note = "skipped", "a violation was already found and replayed"; return res
    work = tempfile.mkdtemp(prefix="u_", dir=scratch)
    try:
        if u.gen: u.gen(work)
        # native run of the very same contract on the very same code: quick failing inputs, and the bounded stand-in
        if u.native and u.rnd and native_random(u, work, u.rnd, res, timeout=max(5, min(600 if u.exhaust else 90, deadline - time.time()))):
            res.verdict = "violation"
        else:
            if u.bounded or u.exhaust: res.verdict = "bounded-only"
            else:
                verify(u, work, res, deadline)
                for extra in u.retry:   # weaker representation assumptions, more unfolding
                    if res.verdict != "bounded" or "calls-per-chunk" not in res.note: break
                    keep = u.defs; u.defs = u.defs + extra; res.note += " retried with %s" % extra
                    try: verify(u, work, res, deadline)
                    finally: u.defs = keep
            if res.verdict == "bounded" and u.native:
                if native_random(u, work, max(u.rnd * 10, 100000), res, seed=SEED + 1000, timeout=max(5, min(90, deadline - time.time()))):
                    res.verdict = "violation"
    except Exception as ex:
        import traceback
        res.verdict, res.note = "error", "driver exception: " + traceback.format_exc()[-1500:]
    if res.verdict == "error" and u.optional: res.verdict = "bounded"
    if res.verdict == "proved" and u.bound: res.verdict = "verified-within-bound"
    if res.verdict == "violation" and res.replayed: STOP.set()
    res.wall = time.time() - t0
    shutil.rmtree(work, ignore_errors=True)
    return res


def do_extra(f, scratch, tier, deadline):
    x = f(REPO, scratch, tier, deadline)
    if x.get("violations"): STOP.set()
    return x


def evidence_dir():
    d = os.environ.get("VP_EVDIR") or os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(d, "replays"), exist_ok=True); return d


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) obligation=(.+?) what=(.*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out


def check(prop, spec, tier, budget):
    t0 = time.time(); deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    results, violations, known = [], [], []
    units = [u for u in spec["units"] if u.tier == "quick" or tier == "thorough"]
    only = os.environ.get("VP_UNIT")
    if only: units = [u for u in units if re.search(only, u.name)]
    if tier == "thorough":
        for u in units: u.rnd *= 10; u.timeout *= 3
    pre = spec.get("extra", [])
    extra_ev = []
    try:
        order = sorted(units, key=lambda u: -u.weight)
        with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
            fe = [ex.submit(do_extra, f, scratch, tier, deadline) for f in pre]
            fs = [(u, ex.submit(do_unit, u, deadline, scratch)) for u in order]
            for u, f in fs:
                r = f.result(); results.append(r)
            for f in fe: extra_ev.append(f.result())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = evidence_dir(); kf = known_findings(prop)
    for i, r in enumerate(results):
        if r.verdict != "violation": continue
        hit = next((k for k in kf if re.fullmatch(k[0], r.unit.name) and any(k[1] in f["obligation"] for f in r.failed[:1])), None)
        if hit: known.append(hit[2]); continue
        path = os.path.join(ev, "replays", "%s-%s.json" % (prop, re.sub(r"\W+", "_", r.unit.name)))
        json.dump({"property": prop, "unit": r.unit.name, "failed_obligations": r.failed, "inputs": r.inputs,
                   "random_replay": getattr(r, "random_replay", None),
                   "replayed_on_real_code": r.replayed, "replay_output": r.replay_out, "verifier_output": r.verifier_out,
                   "verifier_cmd": r.cmd, "how": "python3 %s/vp/check.py --replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
        violations.append((path, r.replayed, r.failed[0]["obligation"] if r.failed else "?", r.unit.name))
    for x in extra_ev:
        for v in x.get("violations", []):
            hit = next((k for k in kf if re.fullmatch(k[0], x["name"]) and k[1] in v["obligation"]), None)
            if hit: known.append(hit[2]); continue
            path = os.path.join(ev, "replays", "%s-%s-%s.json" % (prop, x["name"], hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8]))
            json.dump(dict(v, property=prop, replayed_on_real_code=True), open(path, "w"), indent=1)
            violations.append((path, True, v["obligation"], x["name"]))
            break
    errors = [r for r in results if r.verdict == "error"] + [x for x in extra_ev if x.get("error")]
    proved = [r for r in results if r.verdict == "proved"]
    inb = [r for r in results if r.verdict == "verified-within-bound"]
    ob = sum(r.obligations for r in results if r not in inb) + sum(x.get("obligations", 0) for x in extra_ev)
    di = sum(r.discharged for r in results if r.verdict == "proved") + sum(x.get("discharged", 0) for x in extra_ev)
    level = spec.get("level", "proof")
    cov = {"obligations": ob, "discharged": di,
           "checker_cmd": next((r.cmd for r in results if r.cmd), "") or spec.get("checker_cmd", "see extra"),
           "trusted_base": spec["trusted"],
           "back_end": "CBMC 6.11.0 (goto-instrument DFCC contract instrumentation, MiniSat)",
           "functions_under_contract": spec["functions"],
           "units": [{"unit": r.unit.name, "verdict": r.verdict, "obligations": r.obligations, "discharged": r.discharged,
                      "named_obligations": r.names, "covers_reached": r.covers, "solver_s": round(r.solver_s, 2),
                      "loops_unwound_completely_at": r.unwind_used, "code_functions": r.functions,
                      "native_contract_runs": r.rnd_done, "note": r.note.strip()} for r in results],
           "units_proved": len(proved), "units_bounded_only": [r.unit.name for r in results if r.verdict in ("bounded", "bounded-only")],
           "units_verified_within_a_bound": [{"unit": r.unit.name, "bound": r.unit.bound, "obligations_checked": r.discharged} for r in inb],
           "units_checked_exhaustively_at_run_time": [{"unit": r.unit.name, "domain": r.unit.exhaust, "cases": r.rnd_done} for r in results if r.unit.exhaust],
           "solver_time_s": round(sum(r.solver_s for r in results), 1),
           "evaluations": sum(r.rnd_done for r in results) + sum(x.get("evaluations", 0) for x in extra_ev),
           "distinct_nontrivial": sum(x.get("distinct_nontrivial", 0) for x in extra_ev) + sum(r.rnd_done for r in results),
           "rule": "native runs of the same contract on the real code (bounded complement); random cases that violate an assumption of the contract are not counted",
           "samples": [s for x in extra_ev for s in x.get("samples", [])][:12] or [{"unit": r.unit.name, "obligations": r.names[:6]} for r in results[:3]],
           "bounded_stand_ins": spec.get("bounded", []) + [{k: v for k, v in x.items() if k not in ("violations",)} for x in extra_ev]}
    if known: cov["known_findings_hit"] = known
    out = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
           "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(out, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for k in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for r in results:
        if os.environ.get("VP_VERBOSE"):
            print("  %-40s %-10s obl=%d/%d covers=%d solver=%.1fs wall=%.1fs rnd=%d %s" % (r.unit.name, r.verdict, r.discharged, r.obligations, r.covers, r.solver_s, r.wall, r.rnd_done, r.note))
            for f in r.failed[:4]: print("      FAILED", f["obligation"], f["where"][:160])
    if os.environ.get("VP_VERBOSE"):
        for x in extra_ev: print("  extra", {k: v for k, v in x.items() if k not in ("samples",)})
    if violations:
        violations.sort(key=lambda v: not v[1])
        for path, rep, ob_, un in violations[:10]:
            print("failed obligation: %s (unit %s)" % (ob_, un))
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep else " no-failing-input-found"))
        return 1
    if errors:
        for r in errors: print("ERROR", getattr(r, "note", r))
        return 2
    print("OK property=%s units=%d proved=%d obligations=%d discharged=%d wall=%.1fs" % (prop, len(results), len(proved), ob, di, time.time() - t0))
    return 0
