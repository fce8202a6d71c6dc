#!/usr/bin/env python3
"""mutate.py SEED COUNT [REGEX]: random small mutations of lines of the original sources; those that build and pass the stable tests are given to the
check of the property the file belongs to; prints the survivors. Scratch copies only."""
import sys, os, re, random, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BASE = "ea78cef"
M = {"src/libbsdconv_util.c": ["C09", "C16"], "src/libbsdconv_hash.c": ["C14"], "src/libbsdconv_counter.c": ["C15"], "src/bsdconv-mktable.c": ["C17"], "src/bsdconv.c": ["C27"],
     "src/libbsdconv.c": ["C18", "C19", "C20", "C21", "C22", "C16", "C29"]}
for f, p in {"from/_UTF-8": "C01", "to/_UTF-8": "C02", "from/UTF-16LE": "C03", "from/UTF-16BE": "C03", "to/UTF-16LE": "C03", "to/UTF-16BE": "C03", "from/UTF-32LE": "C04", "from/UTF-32BE": "C04", "to/UTF-32BE": "C04",
             "to/UCS-2BE": "C04", "from/_GB18030": "C05", "to/_GB18030": "C05", "from/CP950-UDA": "C06", "from/ESCAPE": "C07", "from/ASCII-NUMERIC-HTML-ENTITY": "C07",
             "to/ESCAPE": "C08", "to/BSDCONV": "C08", "to/RAW": "C08", "to/ASCII-HTML-UNICODE-IMG": "C08", "from/BSDCONV": "C09", "inter/_NF-HANGUL-COMPOSITION": "C10",
             "inter/_NF-HANGUL-DECOMPOSITION": "C10", "inter/_NF-ORDER": "C11", "inter/_NFC": "C26", "inter/WIDTH": "C13", "inter/TRIM-WIDTH": "C13", "inter/AMBIGUOUS-PAD": "C13", "inter/AMBIGUOUS-UNPAD": "C13",
             "inter/COUNT": "C15", "inter/REPLACE": "C23", "inter/INSERT": "C23", "inter/PASS": "C23", "to/PASS": "C23", "to/ANY": "C23", "inter/NULL": "C23", "to/NULL": "C23", "from/EBCDIC": "C24", "to/EBCDIC": "C24",
             "from/_JIS": "C24", "to/_JIS": "C24", "inter/WHITESPACE-DERAIL": "C25", "inter/WHITESPACE-RERAIL": "C25", "inter/SCORE": "C12"}.items(): M["modules/%s.c" % f] = [p]
R = random.Random(int(sys.argv[1])); rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
def muts(l):
    for a, b in (("<=", "<"), (">=", ">"), ("==", "!="), ("&&", "||"), ("||", "&&"), ("+=1", "+=2"), ("!=", "==")):
        for m in re.finditer(re.escape(a), l): yield l[:m.start()] + b + l[m.end():]
    for m in re.finditer(r"(?<![<>=-])([<>])(?![<>=])", l):
        if not l.startswith("#"): yield l[:m.start()] + m.group(1) + "=" + l[m.end():]
    for m in re.finditer(r"(?<![\w.\"'])(0x[0-9A-Fa-f]+|\d+)(?![\w.\"'])", l):
        v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else None
        if v is not None: yield l[:m.start()] + str(v + 1) + l[m.end():]
        if v: yield l[:m.start()] + str(v - 1) + l[m.end():]
    if re.match(r"^\s+[\w*(>.\[\]-]+.*;\s*$", l) and not re.match(r"^\s+(return|break|continue|goto|int|char|struct|unsigned|uint|long|FILE|const|static|size_t|bsdconv_counter_t|offset_t|void)\b", l):
        yield re.match(r"^\s+", l).group(0) + ";\n"
C = []
for f in M:
    if not rx.search(f): continue
    try: base = set(subprocess.check_output(["git", "-C", "/repo", "show", BASE + ":" + f], stderr=subprocess.DEVNULL).decode("latin1").splitlines(True))
    except subprocess.CalledProcessError: continue
    L = open("/repo/" + f, encoding="latin1", newline="").readlines(); per = []
    for i, l in enumerate(L):
        if l in base and "WIN32" not in l and not l.startswith("#") and "//" not in l and "printf" not in l:
            per += [(f, i, l, n) for n in muts(l)]
    R.shuffle(per); C += per[:max(4, len(per) // 12)]
R.shuffle(C)
w = tempfile.mkdtemp(prefix="mut", dir="/tmp"); subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
for n in ("build.sh", "test.sh", "conversion_cases.py", "results.py"):
    t = open("/opt/vp/" + n).read().replace("/repo", w + "/r").replace("/opt/vp/", w + "/"); open(w + "/" + n, "w").write(t)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
try:
    k = 0
    for f, i, l, nl in C:
        if k >= int(sys.argv[2]): break
        p = w + "/r/" + f; L = open(p, encoding="latin1", newline="").readlines(); L[i] = nl; open(p, "w", encoding="latin1", newline="").writelines(L)
        subprocess.call(["timeout", "200", "bash", w + "/test.sh", w + "/t.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: ps = set(json.load(open(w + "/t.json"))["passed"]); ok = all(x in ps for x in stable); os.remove(w + "/t.json")
        except Exception: ok = False
        if ok:
            k += 1; res = []
            for c in M[f]:
                r = subprocess.run(["timeout", "900", "python3", V + "/vp/check.py", c, "quick"], env=dict(os.environ, VP_REPO=w + "/r", VP_EVDIR=w + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                res.append("%s=%d" % (c, r.returncode))
                if r.returncode == 1: break
            print("%s %s:%d  [%s] -> [%s]  %s" % ("caught  " if r.returncode == 1 else "SURVIVED", f, i + 1, l.strip(), nl.strip(), " ".join(res)), flush=True)
        subprocess.check_call(["git", "-C", w + "/r", "checkout", "-q", "--", f])
finally: shutil.rmtree(w, ignore_errors=True)
