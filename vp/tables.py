"""Reference semantics of conversion tables (from their text) and of the three kinds of phases, and random tables compiled by the
real bsdconv-mktable. Used by the bounded complements of C17..C22."""
import os, random, re, subprocess
import driver
COMMA = 256
def parse(text):
    """list of (ci, symbols, out) with symbols a tuple of 0..256 or '*', out a list of bytes or None for a callback"""
    ents = []
    for line in text.split("\n"):
        if line.startswith("#") or not line.strip(): continue
        m = re.match(r"([^\t ]*)[\t ]*([^\t\r\n# ]*)", line)
        f, t = m.group(1), m.group(2); ci = f.startswith("!")
        if ci: f = f[1:]
        syms, i = [], 0
        while i < len(f):
            if f[i] == "*": syms.append("*"); i += 1
            elif f[i] == ",": syms.append(COMMA); i += 1
            else:
                try: syms.append(int(f[i:i+2], 16))
                except ValueError: syms = None; break
                i += 2
        if syms is None or not f: continue
        if t.startswith("?"): out = None
        else:
            try: out = [bytes.fromhex(x) for x in t.split(",")] if t else []
            except ValueError: continue
        ents.append((ci, tuple(syms), out))
    return ents
def swap(c): return c ^ 32 if 65 <= c & ~32 <= 90 and c < 128 else None

class Table:
    def __init__(self, text):
        self.ents = parse(text); self.lit, self.pat, self.maxlen = {}, [], 0
        self.first = set()
        for k, (ci, s, out) in enumerate(self.ents):
            self.maxlen = max(self.maxlen, len(s))
            if ci or "*" in s: self.pat.append((k, ci, s, out))
            elif s not in self.lit: self.lit[s] = (k, out)
        self.callback = any(o is None for _, _, o in self.ents)
        self.bylen = {}
        for p in self.pat: self.bylen.setdefault(len(p[2]), []).append(p)
    def get(self, s):
        """data listed for the symbol sequence, or None"""
        best = None
        if s in self.lit: best = (len(s), -self.lit[s][0], self.lit[s][1])
        for k, ci, p, out in self.bylen.get(len(s), ()):
            score = 0
            for a, b in zip(p, s):
                if a == "*" or a == b: score += 1
                elif not (ci and b < 256 and swap(b) == a): break
            else:
                if best is None or (score, -k) > best[:2]: best = (score, -k, out)
        return None if best is None else best[2]
    def dec(self, b, i):
        for n in range(min(self.maxlen, len(b) - i), 0, -1):
            o = self.get(tuple(b[i:i+n]))
            if o is not None: return n, [d.hex().upper() for d in o]
        return None
    def run(self, data, i):
        """longest run of data from position i that is listed: (count, out)"""
        s, best = [], None
        for j in range(i, len(data)):
            if j > i: s.append(COMMA)
            s += data[j]
            if len(s) > self.maxlen: break
            o = self.get(tuple(s))
            if o is not None: best = (j - i + 1, o)
        return best

def ref_from(tabs, b):
    i, out, err = 0, [], 0
    while i < len(b):
        for t in tabs:
            r = t.dec(b, i)
            if r: out += [bytes.fromhex(x) for x in r[1]]; i += r[0]; break
        else: err += 1; i += 1
    return out, err
def ref_map(tabs, data, to):
    i, out, err = 0, [], 0
    while i < len(data):
        for t in tabs:
            r = t.run(data, i)
            if r: out += r[1]; i += r[0]; break
        else:
            if to: err += 1
            else: out.append(data[i])
            i += 1
    return out, err
def ref(phases, b):
    """phases: [from tables, inter tables..., to tables]; returns output bytes, ierr, oerr"""
    d, ierr = ref_from(phases[0], b)
    for p in phases[1:-1]: d, _ = ref_map(p, d, False)
    d, oerr = ref_map(phases[-1], d, True)
    return b"".join(d), ierr, oerr

def compile_tables(d, items):
    """items: list of (kind, NAME, text); compiled with the real table compiler into the scratch build"""
    sh = []
    for kind, name, text in items:
        p = os.path.join(d, "tab_%s_%s.txt" % (kind, name))
        open(p, "w").write(text)
        sh.append((p, os.path.join(d, "build", "share", "bsdconv", kind, name)))
    env = dict(os.environ, ASAN_OPTIONS="detect_odr_violation=0:detect_leaks=0:exitcode=43:malloc_fill_byte=190:max_malloc_fill_size=65536", LD_LIBRARY_PATH=os.path.join(d, "build", "lib"))
    # several at a time
    bad = []
    def one(x):
        rc, o, e, _ = driver.run([os.path.join(d, "build", "bin", "bsdconv-mktable"), x[0], x[1]], 20, cwd=d, env=env)
        if rc: bad.append((open(x[0]).read(), "rc=%s %s" % (rc, e[-1500:])))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex: list(ex.map(one, sh))
    return bad

# ---- random tables -----------------------------------------------------------------------
BYTES = [0x61, 0x62, 0x41, 0x00, 0xff]
DATA = [b"\x01\x61", b"\x01\x62", b"\x03\x41", b"\x01\x61\x62", b"\x02", b"\x01\x41"]
def h(b): return bytes(b).hex().upper()
def rnd_from(rng, wild=True, ci=True):
    al = rng.sample(BYTES, rng.randint(2, 4)); ents = []
    for _ in range(rng.randint(1, 7)):
        n = rng.choice((1, 1, 2, 2, 3, 4)); k = "".join("*" if wild and rng.random() < .06 else "%02X" % rng.choice(al) for _ in range(n))
        if ci and rng.random() < .15: k = "!" + k
        ents.append("%s\t%s" % (k, ",".join(h(rng.choice(DATA)) for _ in range(rng.choice((1, 1, 1, 2, 3))))))
    return "\n".join(ents) + "\n", al
def rnd_map(rng, to=False, al=None):
    al = al or rng.sample(DATA, rng.randint(2, 5)); ents = []
    for _ in range(rng.randint(1, 7)):
        k = ",".join(h(rng.choice(al)) for _ in range(rng.choice((1, 1, 2, 2, 3, 4))))
        if rng.random() < .1: k = "!" + k
        out = [bytes(rng.choice(b"xyz\x00\xfe") for _ in range(rng.choice((1, 1, 2, 3)))) for _ in range(rng.choice((1, 1, 2)))] if to else [rng.choice(DATA) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        ents.append("%s\t%s" % (k, ",".join(map(h, out))))
    return "\n".join(ents) + "\n", al
def datatable(data):
    """a decoder table that lets any list of data be fed: two-byte code -> datum; returns text, code()"""
    idx = {x: i for i, x in enumerate(sorted(set(data)))}
    code = lambda x: bytes((idx[x] // 250 + 1, idx[x] % 250 + 1))
    return "".join("%s\t%s\n" % (h(code(x)), h(x)) for x in idx), code
