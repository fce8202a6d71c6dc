"""Oracles of the datum-wise steps: data go in as hex text (one datum per comma), come out as hex text or encoded bytes."""
import random, itertools, re, os, unicodedata
import driver
from oracles import U, SHOW, show, cuts, b_compile
import tables as T
IN = "vps,bsdconv"   # VPS: a table that reads a comma as nothing
def start(b): b_compile(b, [("from", "VPS", "2C\t\n")])
def text(data): return "".join(d.hex().upper() + "," for d in data).encode()
def shw(data): return text(data)
def golden(name):
    """ranges of the frozen reference table"""
    s = open(os.path.join(driver.CON, "golden.h")).read()
    m = re.search(r"static const uint32_t %s\[\]\[3\]=\{(.*?)\};" % name, s, re.S)
    return [(int(a, 16), int(b, 16), int(c)) for a, b, c in re.findall(r"\{0x([0-9A-Fa-f]+),0x([0-9A-Fa-f]+),(\d+)\}", m.group(1))]
def classer(name):
    import bisect
    g = golden(name); st = [x[0] for x in g]
    assert all(a[1] < b[0] for a, b in zip(g, g[1:])), name
    def f(d):
        if d[:1] != b"\x01" or len(d) < 2: return 0
        u = int.from_bytes(d[1:], "big"); i = bisect.bisect_right(st, u) - 1
        return g[i][2] if i >= 0 and u <= g[i][1] else 0
    return f
def ud(u): return bytes.fromhex(U(u))
def rdata(rng, n=None):
    k = rng.random()
    if k < .5: return ud(rng.choice((rng.randrange(1, 0x180), rng.randrange(1, 0x3000), rng.randrange(1, 0x110000))))
    if k < .7: return b"\x03" + bytes([rng.randrange(256)])
    return bytes([rng.choice((1, 2, 3, 4, 5, 0x1b, 0xff))]) + bytes(rng.randrange(256) for _ in range(n or rng.randrange(1, 9)))
def run_list(b, conv, data, want, what, rng, ierr=0, oerr=0, **kw):
    x = text(data); b.case(conv, cuts(rng, x, rng.choice((0, 0, 2))) or [b""], (want, ierr, oerr), what=what, **kw)

def c08(b, tier):
    start(b)
    rng = random.Random(driver.SEED * 7 + 8); n = 150 if tier == "quick" else 1500
    for k in range(n):
        data = [rdata(rng) for _ in range(rng.randint(1, 5))]
        if k % 5 == 0: data += [bytes([rng.choice((1, 3, 7))]) + bytes(rng.randrange(256) for _ in range(rng.choice((23, 24, 25, 26, 63, 64, 127, 300))))]
        run_list(b, IN + ":bsdconv", data, b"".join(d.hex().upper().encode() for d in data), "two digits per byte", rng)
        run_list(b, IN + ":raw", data, b"".join(d[1:] for d in data), "payload unchanged", rng)
        out, err = b"", 0
        for d in data:
            if d[0] != 1: err += 1; continue
            h = d[1:].hex().upper(); h = h[1:] if h[:1] == "0" else h
            out += b'<img class="unicode_img" src="http://www.unicode.org/cgi-bin/refglyph?24-' + h.encode() + b'" />'
        run_list(b, IN + ":ascii-html-unicode-img", data, out, "image link", rng, oerr=err)
        pre, suf = bytes(rng.randrange(1, 256) for _ in range(rng.randrange(4))), bytes(rng.randrange(1, 256) for _ in range(rng.randrange(4)))
        mode, fr = rng.choice(("", "hex", "HEX", "16", "dec", "10", "oct", "8")), rng.choice(("", "unicode", "01", "1", "byte", "3", "03"))
        args = [a for a in (("prefix=" + pre.hex()) if k & 1 else "", ("suffix=" + suf.hex()) if k & 2 else "", "mode=" + mode if mode else "", "for=" + fr if fr else "") if a]; rng.shuffle(args)
        m = {"dec": 10, "10": 10, "oct": 8, "8": 8}.get(mode, 16); byte = fr in ("byte", "3", "03"); out, err = b"", 0
        data = [d for d in data if d[0] != 1 or len(d) <= 5] or [b"\x01A"]
        for d in data:
            if not byte and d[0] == 1 and len(d) > 1 and m != 8: v = d[1:].hex().upper() if m == 16 else str(int.from_bytes(d[1:], "big"))
            elif byte and d[0] == 3 and len(d) == 2: v = "%02X" % d[1] if m == 16 else "%d" % d[1] if m == 10 else "%03o" % d[1]
            else: err += 1; continue
            out += (pre if k & 1 else b"%u") + v.encode() + (suf if k & 2 else b"")
        run_list(b, IN + ":escape" + ("#" + "&".join(args) if args else ""), data, out, "escape", rng, oerr=err)
    for v in range(256):
        run_list(b, IN + ":escape#for=byte&mode=oct", [bytes([3, v])], ("%%u%03o" % v).encode(), "every byte", rng)
        run_list(b, IN + ":escape#for=byte&mode=dec", [bytes([3, v])], ("%%u%d" % v).encode(), "every byte", rng)

def hdec(d):
    if d[:1] != b"\x01" or len(d) < 2: return [d]
    s = int.from_bytes(d[1:], "big") - 0xac00
    if not 0 <= s < 11172: return [d]
    return [ud(0x1100 + s // 588), ud(0x1161 + s % 588 // 28)] + ([ud(0x11a7 + s % 28)] if s % 28 else [])
def hcomp(data):
    """L V [T] from left to right; a syllable that was in the input is not extended"""
    out, i = [], 0
    cp = lambda k: int.from_bytes(data[k][1:], "big") if k < len(data) and data[k][:1] == b"\x01" else -1
    while i < len(data):
        l, v, t = cp(i) - 0x1100, cp(i + 1) - 0x1161, cp(i + 2) - 0x11a7
        if 0 <= l < 19 and 0 <= v < 21:
            if 0 < t < 28: out.append(ud(0xac00 + (l * 21 + v) * 28 + t)); i += 3
            else: out.append(ud(0xac00 + (l * 21 + v) * 28)); i += 2
        else: out.append(data[i]); i += 1
    return out
def c10(b, tier):
    start(b)
    rng = random.Random(driver.SEED * 7 + 10)
    for blk in range(0, 11172, 1500):
        syl = [ud(0xac00 + k) for k in range(blk, min(11172, blk + 1500))]; dec = [x for s in syl for x in hdec(s)]
        run_list(b, IN + ":_nf-hangul-decomposition" + SHOW, syl, shw(dec), "every syllable", rng)
        run_list(b, IN + ":_nf-hangul-composition" + SHOW, dec, shw(hcomp(dec)), "every syllable", rng)
        run_list(b, IN + ":_nf-hangul-decomposition:_nf-hangul-composition" + SHOW, [x for s in syl for x in (s, b"\x01 ")], shw([x for s in syl for x in (s, b"\x01 ")]), "there and back", rng)
    al = [ud(u) for u in (0x1100, 0x1112, 0x10ff, 0x1113, 0x1161, 0x1175, 0x1160, 0x1176, 0x11a7, 0x11a8, 0x11c2, 0x11c3, 0xac00, 0xac01, 0xd7a3, 0xd7a4, 0x41)] + [b"\x03\x41", b"\x1b\x33"]
    for k in range(800 if tier == "quick" else 8000):
        d = [rng.choice(al[:14] if k & 1 else al) for _ in range(rng.randint(1, 8))]
        run_list(b, IN + ":_nf-hangul-composition" + SHOW, d, shw(hcomp(d)), "jamo sequences", rng)
        run_list(b, IN + ":_nf-hangul-decomposition" + SHOW, d, shw([x for y in d for x in hdec(y)]), "sequences", rng)

WID, AMB = None, None
def wtab():
    global WID, AMB
    if WID is None: WID, AMB = classer("g_width"), classer("g_ambi")
def edges(name, rng, n):
    g = golden(name); out = []
    for lo, hi, c in (g if n is None else rng.sample(g, min(n, len(g)))): out += [max(1, lo - 1), lo, hi, hi + 1]
    return [ud(u) for u in out]
def c13(b, tier):
    start(b); refused(b, None, ["ascii:trim-width:ascii", "ascii:trim-width#x:ascii", "ascii:trim-width#ambi-as-wide:ascii", "ascii:trim-width#3&x:ascii"])
    wtab(); rng = random.Random(driver.SEED * 7 + 13); q = tier == "quick"
    allw = edges("g_width", rng, None)
    for i in range(0, len(allw), 20):
        d = allw[i:i+20]; c = [sum(1 for x in d if WID(x) == k) for k in (1, 2, 3)]
        run_list(b, IN + ":width" + SHOW, d, shw(d), "every class boundary", rng, pre=["Z"], post=(("K HALF", str(c[0])), ("K FULL", str(c[1])), ("K AMBI", str(c[2]))))
    pool = edges("g_ambi", rng, None) + [b"\x01\xa0"] * 300 + [b"\x03\xa0", b"\x01A", b"\x01\x00\xa0", b"\x02\xa1"] * 20
    for k in range(400 if q else 4000):
        d = [rng.choice(pool) for _ in range(rng.randint(1, 8))]; pad = rng.random() < .8
        run_list(b, IN + ":ambiguous-pad" + SHOW, d, shw([x for y in d for x in ([y, b"\x01\xa0"] if pad and AMB(y) else [y])]), "padding", rng)if pad else None
        out, prev = [], False
        for y in d:
            if prev and y == b"\x01\xa0": prev = False; continue
            out.append(y); prev = bool(AMB(y))
        run_list(b, IN + ":ambiguous-unpad" + SHOW, d, shw(out), "un-padding", rng)
        lim = rng.randrange(0, 14); wide = rng.random() < .5; out, rem = [], lim
        dd = [rng.choice(allw if rng.random() < .7 else [b"\x03\x41", b"\x1bA", b"\x01\xe4", b"\x01\x4e\x00", b"\x01A"]) for _ in range(rng.randint(1, 10))]
        for y in dd:
            w = {0: 0, 1: 1, 2: 2, 3: 2 if wide else 1}[WID(y)]
            if rem >= w: out.append(y); rem -= w
            else: rem = -1
        run_list(b, IN + ":trim-width#%d%s" % (lim, "&ambi-as-wide" if wide else "") + SHOW, dd, shw(out), "trimming", rng)

def ranges_of(kind, name):
    s = open(os.path.join(driver.CON, "golden.h")).read()
    m = re.search(r"g_%s_%s(_TYPE)?(?:\[|=| )" % (kind, name), s)
    return m
def filters():
    s = open(os.path.join(driver.CON, "golden.h")).read(); out = {}
    for k, n, ty, body in re.findall(r"g_(filter|scorer)_(\w+?)(_TYPE|)(?:\[\]\[3\]=\{(.*?)\};|\s+(?:0x)?[0-9A-Fa-f]+)", s, re.S):
        out[(k, n)] = None if ty else [(int(a, 16), int(b, 16), int(c)) for a, b, c in re.findall(r"\{0x([0-9A-Fa-f]+),0x([0-9A-Fa-f]+),(\d+)\}", body)]
    for k, n, v in re.findall(r"#define g_(filter|scorer)_(\w+?)_TYPE\s+(\w+)", s): out[(k, n)] = int(v, 0)
    return out
def accept(f, d):
    if isinstance(f, int): return d[:1] == bytes([f])
    if d[:1] != b"\x01": return False
    u = int.from_bytes(d[1:], "big"); return any(a <= u <= z for a, z, c in f)
def c12(b, tier):
    start(b)
    rng = random.Random(driver.SEED * 7 + 12)
    for (k, n), f in sorted(filters().items(), key=str):
        if k != "filter": continue
        pts = [ud(max(0, u)) for a, z, c in f for u in (a - 1, a, z, z + 1)] if not isinstance(f, int) else [bytes([t]) + x for t in (f, f ^ 1, f + 1, 1, 3) for x in (b"", b"A", b"\x4e\x00")]
        pts += [b"\x03A", b"\x02\x4e\x00", b"\x1bA", ud(0x41), ud(0x4e00), ud(0x10ffff)]
        pts = [d for d in pts if len(d) > 1]
        for i in range(0, len(pts), 40):
            d = pts[i:i+40]
            run_list(b, IN + ":count#for=%s" % n.lower() + SHOW, d, shw(d), "filter " + n, rng, pre=["Z"], post=(("K COUNT", str(sum(accept(f, x) for x in d))),))
            run_list(b, IN + ":pass#for=%s,bsdconv" % n.lower(), d, b"".join(x if accept(f, x) else x.hex().upper().encode() for x in d), "filter " + n, rng)
FN = ("cjk", "hiragana", "katakana", "ascii", "unicode", "byte")
def fset():
    fs = filters(); return [n for (k, n) in fs if k == "filter"], {n.lower(): f for (k, n), f in fs.items() if k == "filter"}
def c15(b, tier):
    start(b)
    rng = random.Random(driver.SEED * 7 + 15); names, F = fset()
    for k in range(300 if tier == "quick" else 3000):
        key = rng.choice(("", "abc", "ABC", "x1", "count")); f = rng.choice([""] + names).lower()
        conv = IN + ":count" + ("#" + "&".join(rng.sample([x for x in (key, "for=" + f if f else "") if x], len([x for x in (key, f) if x]))) if key or f else "")
        pts = [b"\x03A", b"\x01A", b"\x02\x4e\x00"] + ([ud(u) for a, z, c in F[f] for u in (a, z, z + 1)] if f and not isinstance(F[f], int) else [ud(0x3042), ud(0x4e00)])
        d = [rng.choice(pts) for _ in range(rng.randint(0, 9))]; n = sum(1 for x in d if not f or accept(F[f], x)); name = key or "COUNT"
        run_list(b, conv + SHOW, d, shw(d), "count", rng, pre=["Z"], post=(("K " + name.swapcase(), str(n)), ("K OTHER", "0"), ("Z OTHER", "ok"), ("K " + name, str(n)), ("Z " + name.lower(), "ok"), ("K " + name, "0")))
        two = IN + ":count#a:insert#after=0121:count#b:count#a"
        run_list(b, two + SHOW, d, shw([x for y in d for x in (y, b"\x01!")]), "several counters", rng, pre=["Z"], post=(("K A", str(3 * len(d))), ("K B", str(2 * len(d)))))

def refused(b, rng, l):
    """creation fails and nothing is lost (the leak check sees the rest)"""
    for c in l: b.case(c, [b"A"], lambda r: None if r == "noinst" else "accepted: " + r[:80], what="refused arguments")
SMALL = [b"\x01a", b"\x01b", b"\x01\x4e\x00", b"\x03a", b"\x01c"]
def notation(l): return ".".join(x.hex().upper() for x in l)
def ref_replace(pairs, data):
    """left to right; at each place the first listed source that matches there"""
    out, i = [], 0
    while i < len(data):
        for s, t in pairs:
            if data[i:i+len(s)] == s: out += t; i += len(s); break
        else: out.append(data[i]); i += 1
    return out
def c23(b, tier):
    start(b)
    refused(b, None, ["ascii:insert#x:ascii", "ascii:insert#before=41&x:ascii", "ascii:insert#before=0141&after=4:ascii", "ascii:replace#:ascii", "ascii:replace:ascii", "ascii:replace#0141=0142&4:ascii", "ascii:replace#0141=4:ascii", "ascii:replace#.41=4:ascii",
      "ascii,any#4:ascii", "ascii,any#41&4:ascii", "ascii:any#41.4", "ascii:pass#x:ascii", "ascii:pass#for=nope:ascii", "pass#for=nope:ascii", "ascii:pass#for=nope", "ascii:strings#for:ascii", "ascii:strings#x:ascii", "ascii:strings#after=4:ascii", "ascii:strings#before=4:ascii", "ascii:strings#for=nope:ascii"])
    rng = random.Random(driver.SEED * 7 + 23); names, F = fset(); q = tier == "quick"
    seqs = lambda n: [rng.choice(SMALL) for _ in range(rng.randint(1, n))]
    for k in range(400 if q else 4000):
        src, dst = seqs(4), [rng.choice(SMALL + [b"\x01xy"]) for _ in range(rng.randint(0, 3))]
        conv = IN + ":replace#" + notation(src) + ("=" + notation(dst) if dst else rng.choice(("", "=")))
        for _ in range(4):
            d = [x for _ in range(rng.randint(0, 4)) for x in (src if rng.random() < .5 else src[:rng.randint(1, len(src))] if rng.random() < .5 else seqs(3))]
            run_list(b, conv + SHOW, d, shw(ref_replace([(src, dst)], d)), "replace", rng)
        bef, aft = [seqs(3) if rng.random() < .7 else [] for _ in range(2)]; d = seqs(6)
        args = [a for a in ("before=" + notation(bef) if bef else "", "after=" + notation(aft) if aft else "") if a]; rng.shuffle(args)
        if args: run_list(b, IN + ":insert#" + "&".join(args) + SHOW, d, shw([x for y in d for x in bef + [y] + aft]), "insert", rng)
        run_list(b, IN + ":null" + SHOW, d, b"", "null", rng)
        run_list(b, IN + ":null", d, b"", "null", rng)
        x = bytes(rng.choice((0x41, 0xff, 0x80, 0x30)) for _ in range(rng.randint(1, 6)))
        bad = sum(1 for c in x if c >= 0x80); err = rng.choice(("", "error", "error=mine")); rep = rng.choice(("", notation(aft) if aft else "", "drop"))
        args = [a for a in (rep, err) if a]; out = []
        for c in x: out += [bytes([1, c])] if c < 0x80 else [] if rep == "drop" else aft if rep else [b"\x01?"]
        b.case("ascii,any" + ("#" + "&".join(args) if args else "") + SHOW, cuts(rng, x, k % 3), (shw(out), None, 0), what="any (decoder)", pre=["Z"],
               post=(("K IERR", str(bad if err == "error" else 0)), ("K MINE", str(bad if err == "error=mine" else 0))))
        d = seqs(6); rep = rng.choice(("", "21", "2122.23", "drop")); args = [a for a in (rep, err) if a]; out, n = b"", 0
        for y in d:
            if y[0] == 1 and len(y) == 2: out += y[1:]
            else: n += 1; out += {"": b"?", "21": b"!", "2122.23": b"!\"#", "drop": b""}[rep]
        run_list(b, IN + ":ascii,any" + ("#" + "&".join(args) if args else ""), d, out, "any (encoder)", rng, oerr=n if err == "error" else 0, pre=["Z"], post=(("K MINE", str(n if err == "error=mine" else 0)),))
        f = rng.choice(names).lower(); fr = F[f]; pts = [b"\x03A", b"\x01A", ud(0x4e00)] + ([ud(u) for a, z, c in fr for u in (max(1, a - 1), a, z, z + 1)] if not isinstance(fr, int) else [])
        d = [rng.choice(pts) for _ in range(rng.randint(1, 8))]; lim = rng.choice((None, 1, 2, 3)); out, n = [], 0
        for y in d:
            if accept(fr, y) and (lim is None or n < lim): n += 1; out.append(y)
            else: out += [b"\x01<", y]
        run_list(b, IN + ":pass#for=%s%s,insert#before=013C" % (f, "&limit=%d" % lim if lim else "") + SHOW, d, shw(out), "pass", rng)
        run_list(b, IN + ":pass#for=%s,bsdconv" % f, d, b"".join(y if accept(fr, y) else y.hex().upper().encode() for y in d), "pass (encoder)", rng)

def nt(rng, d): return "".join(rng.choice((c, c.lower())) for c in d.hex().upper())
def c09(b, tier):
    start(b); rng = random.Random(driver.SEED * 7 + 9); q = tier == "quick"
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    for k in range(500 if q else 5000):
        words = [rb(rng.choice((1, 1, 2, 3, 3, 5, 8, 24, 25, 26, 40, 100) if k % 4 == 0 else (1, 2, 3, 4))) for _ in range(rng.randint(1, 6))]
        x = "".join(nt(rng, w) + rng.choice((",", ",", ",,")) for w in words).encode()
        if rng.random() < .4: x = x.rstrip(b",")   # the last word ends with the input
        pre = []
        if k % 3 == 0: pre = []
        b.case(IN + SHOW, cuts(rng, x, k % 3), (shw(words), 0, 0), what="comma-terminated text")
    for v in range(256):
        for t in ("%02x" % v, "%02X" % v): b.case(IN + SHOW, [t.encode() + b","], (shw([bytes([v])]), 0, 0), what="every byte")
    def bad(r): return None if r in ("noinst",) else "accepted: " + r[:80]
    for k in range(600 if q else 6000):
        l = [rb(rng.choice((1, 1, 2, 3, 4, 6, 40))) for _ in range(rng.randint(1, 4))]; s = ".".join(nt(rng, x) for x in l)
        d = [rdata(rng) for _ in range(rng.randint(1, 3))]; conv = rng.choice((":insert#before=%s", ":insert#after=%s", ":replace#0141=%s"))
        if "insert" in conv: w = [x for y in d for x in (l + [y] if "before" in conv else [y] + l)]
        else: w = [x for y in d for x in (l if y == b"\x01A" else [y])]
        run_list(b, IN + conv % s + SHOW, d, shw(w), "notation", rng)
        # one character too many, one too few, one that is not a digit
        i = rng.randrange(len(s)); t = rng.choice((s[:i] + rng.choice("gG@/`zxX-+") + s[i+1:], s + "0", s[:i] + s[i+1:] if s[i] != "." else s + "1"))
        if all(len(e) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in e) for e in t.split(".")): continue
        b.case(IN + rng.choice((":insert#before=%s", ":insert#after=%s", ":replace#0141=%s", ":replace#%s")) % t + SHOW, [b"0141,"], bad, what="text that is not notation is an error")

def c11(b, tier):
    start(b); rng = random.Random(driver.SEED * 7 + 11); C = classer("g_ccc"); q = tier == "quick"
    def ref(data):
        out, run = [], []
        for d in data:
            if C(d): run.append(d)
            else: out += sorted(run, key=C) + [d]; run = []
        return out + sorted(run, key=C)
    def go(d, what): run_list(b, IN + ":_nf-order" + SHOW, d, shw(ref(d)), what, rng)
    g = golden("g_ccc"); hi, lo = ud(0x345), ud(0x334)   # classes 240 and 1
    assert C(hi) == 240 and C(lo) == 1
    pts = sorted({u for a, z, c in g for u in (a - 1, a, (a + z) // 2, z, z + 1) if u > 0})
    for i in range(0, len(pts), 30): go([x for u in pts[i:i+30] for x in (hi, ud(u), lo, b"\x01A")], "every class boundary")
    marks = [ud(rng.choice((a, z))) for a, z, c in g]
    for k in range(1500 if q else 15000):
        m = rng.sample(marks, rng.choice((2, 3, 6)))
        go([rng.choice(m) if rng.random() < .85 else rng.choice((b"\x01A", b"\x03\x41", ud(0xac00), ud(rng.randrange(1, 0x3000)))) for _ in range(rng.choice((2, 4, 8, 16)))], "random runs")
    for L in range(1, 5):
        for d in itertools.product([b"\x01a", ud(0x301), ud(0x300), ud(0x323), ud(0x334)], repeat=L): go(list(d), "every short sequence")

def tabf(b, kind, name):
    d = {}
    for l in open(os.path.join(b.d, "modules", kind, name + ".txt"), encoding="latin1"):
        l = l.split("#")[0].split()
        if len(l) >= 2 and l[0] != "*" and re.fullmatch("[0-9A-Fa-f]+", l[0]): d.setdefault(bytes.fromhex(l[0]), bytes.fromhex(l[1].lstrip("?").split(",")[0]))
    return d
def c24(b, tier):
    start(b); rng = random.Random(driver.SEED * 7 + 24); q = tier == "quick"
    for n in ("IBM-930", "IBM-933", "IBM-935", "IBM-937", "IBM-939"):
        t = tabf(b, "from", n); one = [k for k in t if len(k) == 1 and k not in (b"\x0e", b"\x0f")]; two = [k for k in t if len(k) == 2]; leads = sorted({k[0] for k in two}); seconds = sorted({k[1] for k in two})
        def ref(x):
            out, err, i, dbl = [], 0, 0, False
            while i < len(x):
                if dbl and x[i:i+2] in t and len(x[i:i+2]) == 2: out.append(t[x[i:i+2]]); i += 2; continue
                c = x[i:i+1]; i += 1
                if c == b"\x0e": dbl = True
                elif c == b"\x0f": dbl = False
                elif c in t: out.append(t[c])
                else: err += 1
            return shw(out), err, 0
        def go(x, what, k=None): b.case(n.lower() + SHOW, cuts(rng, x, rng.randrange(3) if k is None else k), ref(x), what=what)
        go(bytes(range(256)), "every single byte"); go(b"\x0e" + b"".join(rng.sample(two, 200)), "pairs")
        for c in leads: go(bytes([c]) + bytes([rng.choice(seconds)]), "pair in single-byte mode")
        if not q:
            for i in range(0, len(two), 500): go(b"\x0e" + b"".join(two[i:i+500]), "every pair")
        for k in range(250 if q else 3000):
            x = b"".join(rng.choice((b"\x0e", b"\x0f", rng.choice(one), rng.choice(two), rng.choice(two), bytes([rng.choice(leads)]), bytes([rng.randrange(256)]))) for _ in range(rng.randint(1, 12)))
            go(x, "mixed text")
        e = tabf(b, "to", n); ks = [k for k in e if k not in (b"\x01\x0e", b"\x01\x0f")]; e1 = [k for k in ks if len(e[k]) == 1]; e2 = [k for k in ks if len(e[k]) == 2]
        def enc(data):
            out, err, dbl = b"", 0, False
            for d in data:
                if d not in e:
                    err += 1
                    if dbl: out += b"\x0f"; dbl = False   # other codecs of the phase see it in single-byte mode
                    continue
                w = len(e[d]) > 1
                if w != dbl: out += b"\x0e" if w else b"\x0f"; dbl = w
                out += e[d]
            return out + (b"\x0f" if dbl else b""), err
        for k in range(250 if q else 3000):
            d = [rng.choice(rng.choice((e1, e2, e2))) if rng.random() < .93 else rdata(rng) for _ in range(rng.randint(1, 10))]
            d = [x for x in d if x not in (b"\x01\x0e", b"\x01\x0f")] or [e2[0]]
            o, err = enc(d); run_list(b, IN + ":" + n.lower(), d, o, "encoder", rng, oerr=err)
            if not err and all(t.get(e[x]) == x for x in d): go(o, "there and back")
        for i in range(0, len(ks), 400 if not q else 4000):
            o, err = enc(ks[i:i+400]); run_list(b, IN + ":" + n.lower(), ks[i:i+400], o, "every listed datum", rng, oerr=err)
    T1, T8, T2 = tabf(b, "from", "_JIS0201"), tabf(b, "from", "_JIS0208"), tabf(b, "from", "_JIS0212")
    ESC = {b"\x1b(B": None, b"\x1b(J": T1, b"\x1b(I": T1, b"\x1b$@": T8, b"\x1b$B": T8, b"\x1b$(D": T2}
    def ref(x, asc):
        out, err, i, t = [], 0, 0, None
        while i < len(x):
            s = next((s for s in ESC if x[i:i+len(s)] == s), None)
            if s: t = ESC[s]; i += len(s); continue
            h = next((L for L in (2, 1) if t is not None and len(x[i:i+L]) == L and x[i:i+L] in t), 0)
            if h: out.append(t[x[i:i+h]]); i += h
            elif asc and 0 < x[i] < 0x80: out.append(bytes([1, x[i]])); i += 1
            else: err += 1; i += 1
        return shw(out), err, 0
    k8, k2, k1 = list(T8), list(T2), list(T1)
    for k in range(800 if q else 8000):
        x = b"".join(rng.choice((rng.choice(list(ESC)), rng.choice(list(ESC)), b"".join(rng.choice(k8) for _ in range(3)), b"".join(rng.choice(k2) for _ in range(2)), rng.choice(k1), b"Az", bytes([rng.randrange(256)]), b"\x1b", b"\x1b$", b"\x1b(", b"\x1b$(", rng.choice(k8)[:1])) for _ in range(rng.randint(1, 8)))
        if any(x.endswith(p) for p in (b"\x1b", b"\x1b$", b"\x1b(", b"\x1b$(")): x += b"A"
        a = rng.random() < .8; b.case(("_jis,ascii" if a else "_jis") + SHOW, cuts(rng, x, rng.randrange(3)), ref(x, a), what="ISO-2022-JP")

def c25(b, tier):
    start(b); rng = random.Random(driver.SEED * 7 + 25); q = tier == "quick"
    ws = [b"\x01\x09", b"\x01\x0a", b"\x01\x0d", b"\x01\x20"]; other = [b"\x01a", ud(0x4e00), b"\x03\x20", b"\x01\x0b", b"\x01\x21", b"\x1b\x20", ud(0x2020), ud(0x3000), b"\x01\x20\x20"]
    def go(d, what):
        mid = rng.choice(("", "", ":count", ":pass", ":upper"))
        e = [x if mid != ":upper" or x != b"\x01a" else b"\x01A" for x in d]
        run_list(b, IN + ":whitespace-derail" + mid + ":whitespace-rerail" + SHOW, d, shw(e), what, rng)
        run_list(b, IN + ":whitespace-derail" + SHOW, d, shw([x for x in d if x not in ws]), "derailing takes out exactly the white space", rng)
    for L in range(1, 8 if q else 11):
        for m in itertools.product((0, 1), repeat=L): go([ws[rng.randrange(4)] if x else rng.choice(other) for x in m], "every short pattern")
    for k in range(600 if q else 6000): go([rng.choice(ws if rng.random() < rng.choice((.1, .5, .9)) else other) for _ in range(rng.choice((3, 10, 40)))], "random")

NEWER = 0
def c26(b, tier):
    start(b); rng = random.Random(driver.SEED * 7 + 26); C = classer("g_ccc"); q = tier == "quick"
    import unicodedata as U
    M = {}   # primary composites (no change between Unicode 13, which the tables are of, and this reference); Hangul is another step
    for u in range(0x110000):
        dc = U.decomposition(chr(u)).split()
        if len(dc) == 2 and dc[0][0] != "<" and U.normalize("NFC", chr(u)) == chr(u): M[tuple(ud(int(x, 16)) for x in dc)] = ud(u)
    R = {}
    for l in open(os.path.join(b.d, "modules", "inter", "_NFC-MAP.txt"), encoding="latin1"):
        l = l.split()
        if len(l) >= 2 and re.fullmatch("01[0-9A-Fa-f]+,01[0-9A-Fa-f]+", l[0]): R.setdefault(tuple(bytes.fromhex(x) for x in l[0].split(",")), bytes.fromhex(l[1]))
    by = {}
    for (s, c) in R: by.setdefault(s, []).append(c)
    assert not any(0 < C(x) < C(c) for (s, c), m in R.items() for x in by.get(m, ())), "a later composition takes a skipped mark"
    def ref(data):
        """composition of UAX #15 on data in canonical order; anything that is not a code point ends a sequence"""
        out, seg = [], []
        def seg_done():
            nonlocal seg
            s, res = None, []
            last = 0
            for d in seg:
                c = C(d)
                if s is not None and (s, len(res)) and ((last == 0 and len(res) == s + 1) or last < c) and (res[s], d) in M: res[s] = M[(res[s], d)]; continue
                res.append(d); last = c
                if c == 0: s = len(res) - 1; last = 0
            out.extend(res); seg = []
        for d in data:
            if d[:1] == b"\x01": seg.append(d)
            else: seg_done(); out.append(d)
        seg_done(); return out
    def order(data):
        out, run = [], []
        for d in data:
            if C(d): run.append(d)
            else: out += sorted(run, key=C) + [d]; run = []
        return out + sorted(run, key=C)
    def go(d, what): d = order(d); run_list(b, IN + ":_nfc" + SHOW, d, shw(ref(d)), what, rng)
    keys = sorted(M)
    for i in range(0, len(keys), 40): go([x for k in keys[i:i+40] for x in k + (b"\x01.",)], "every listed pair")
    small = [ud(u) for u in (0x41, 0x61, 0x307, 0x323, 0x301, 0x327, 0x345, 0x9c7, 0x9be, 0x1100, 0xc2)] + [b"\x03A"]
    for L in range(1, 4 if q else 5):
        for d in itertools.product(small, repeat=L): go(list(d), "every short sequence")
    marks = sorted({k[1] for k in M}); st = sorted({k[0] for k in M})
    for k in range(1500 if q else 15000):
        m = rng.sample(marks, 4); go([rng.choice(m if rng.random() < .7 else st if rng.random() < .8 else small) for _ in range(rng.choice((3, 6, 10)))], "random")
    # the whole chain against the reference implementation, for characters that Unicode 13 has
    full(b, rng, q)
NEWER = [(0xa7f2, 0xa7f4), (0x10781, 0x107ba), (0x1e030, 0x1e06d)]   # decompositions that came after Unicode 13
def full(b, rng, q):
    import unicodedata as U
    C = classer("g_ccc"); ok = lambda u: not (0xd800 <= u < 0xe000) and not any(lo <= u <= hi for lo, hi in NEWER) and C(ud(u)) == U.combining(chr(u))
    allu = [u for u in range(0x20, 0x110000) if ok(u) and U.category(chr(u)) != "Cn"]
    dec = {f: [u for u in allu if U.normalize(f, chr(u)) != chr(u)] for f in ("NFD", "NFKD")}
    marks = [u for u in allu if U.combining(chr(u))]; some = [0x41, 0x61, 0x73, 0x64, 0x307, 0x323, 0x31b, 0x345, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x3099, 0x304b, 0x212b, 0x2126, 0xfb01, 0x1e9b, 0x3b1, 0x1fb3]
    def one(s, f, what): b.case("utf-8:%s:utf-8" % f.lower(), cuts(rng, s.encode(), rng.choice((0, 0, 2))), (U.normalize(f, s).encode(), 0, 0), what=what)
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        l = dec["NFKD" if "K" in f else "NFD"]; l = l if not q else rng.sample(l, min(len(l), 1500))
        for i in range(0, len(l), 30): one("".join(chr(u) for u in l[i:i+30]), f, "every decomposable character"); one("".join(U.normalize("NFD", chr(u)) + "." for u in l[i:i+30]), f, "and what it decomposes into")
        for k in range(150 if q else 3000):
            one("".join(chr(rng.choice(some if rng.random() < .5 else marks if rng.random() < .5 else dec["NFKD"])) for _ in range(rng.choice((3, 8, 20)))), f, "random")

def c27(b, tier):
    """the real tool, ended at each of its calls in turn, and with each of its calls failing in turn"""
    import shutil, signal, subprocess, resource, tempfile
    q = tier == "quick"; d = b.d; exe = os.path.join(d, "kp")
    rc, o, e, _ = driver.run(["gcc", "-w", "-g", "-D_BSDCONV_INTERNAL", "-rdynamic", "-I" + os.path.join(d, "src"), "-fsanitize=address", os.path.join(d, "src", "bsdconv.c"), os.path.join(driver.CON, "killpoints.c"), "-o", exe, "-L" + os.path.join(d, "build", "lib"), "-lbsdconv", "-ldl"], 120)
    if rc: b.viol.append({"obligation": "the tool builds", "description": e[-1500:]}); return
    w = tempfile.mkdtemp(prefix="files_", dir=d)
    env0 = dict(os.environ, LD_LIBRARY_PATH=os.path.join(d, "build", "lib"), BSDCONV_PATH=os.path.join(d, "build"), ASAN_OPTIONS="detect_leaks=0:verify_asan_link_order=0:exitcode=43")
    rng = random.Random(driver.SEED * 7 + 27)
    txt = lambda n: "".join(rng.choice("abc \n\u00e9\u4e2d\U00020000") for _ in range(n)).encode()
    def run(conv, files, env=(), limit=None):
        sub = tempfile.mkdtemp(dir=w); ns = []
        for k, f in enumerate(files):
            p = os.path.join(sub, "f%d" % k); ns.append(p)
            with open(p, "wb") as h: h.write(f)
        def pre():
            if limit: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit)); signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        p = subprocess.run([exe, conv, "-i"] + ns, env=dict(env0, **dict(env)), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=pre, timeout=60, cwd=sub)
        got = []
        for n in ns:
            try: got.append(open(n, "rb").read())
            except OSError: got.append(None)
        shutil.rmtree(sub); b.n += 1
        return p.returncode, got, p.stderr.decode("utf8", "replace")
    def judge(conv, files, new, r, what, need=False):
        rc, got, err = r; msg = None; b.distinct.add(hash((conv, what, len(files[0]))))
        for k, g in enumerate(got):
            if g not in (files[k], new[k]): msg = "file %d of %d is neither its old nor its complete new content: %s" % (k, len(files), "gone" if g is None else "%d bytes, old %d, new %d" % (len(g), len(files[k]), len(new[k])))
            elif rc == 0 and g != new[k]: msg = "exit status 0, but file %d of %d is not converted" % (k, len(files))
        if not msg and need and rc: msg = "exit status %d: %s" % (rc, err[-300:])
        if msg and len(b.viol) < 5: b.viol.append({"obligation": "in-place: " + what.split(" ")[0], "description": msg, "conversion": conv, "what": what, "file_sizes": [len(f) for f in files]})
    cases = [("utf-8:utf-16be", [txt(40)]), ("utf-8:utf-16be", [txt(3000)]), ("utf-8:utf-8", [txt(9), b"", txt(1500)]), ("utf-8:utf-16be", [b""]), ("utf-8:utf-16be", [b"abc" * 341 + b"d", txt(1)])]
    if not q: cases += [("utf-8:utf-16be", [txt(rng.choice((0, 1, 1024, 2048, 5000, 20000))) for _ in range(rng.randint(1, 4))]) for _ in range(6)]
    for conv, files in cases:
        new = [f.decode().encode("utf-16-be" if "16" in conv else "utf-8") for f in files]
        cf = os.path.join(w, "count"); r = run(conv, files, {"KP_COUNT": cf}.items()); judge(conv, files, new, r, "undisturbed", True)
        try: np, nc = map(int, open(cf).read().split())
        except OSError: b.viol.append({"obligation": "in-place: undisturbed", "description": "the tool ended abnormally: " + r[2][-500:]}); break
        ks = range(1, np + 1) if np <= 90 or not q else sorted(rng.sample(range(1, np + 1), 50) + list(range(np - 20, np + 1)))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for k, r in zip(ks, ex.map(lambda k: run(conv, files, {"KP_KILL": str(k)}.items()), ks)): judge(conv, files, new, r, "killed at point %d" % k)
            fs = range(1, nc + 1) if nc <= 60 or not q else sorted(set(rng.sample(range(1, nc + 1), 40)) | set(range(nc - 15, nc + 1)))
            for k, r in zip(fs, ex.map(lambda k: run(conv, files, {"KP_FAIL": str(k)}.items()), fs)): judge(conv, files, new, r, "failing call %d" % k)
            ls = [l for l in (1, 10, 500, 1024, 4096, 5000) if l < len(new[-1])]
            for l, r in zip(ls, ex.map(lambda l: run(conv, files, limit=l), ls)): judge(conv, files, new, r, "full disk after %d bytes" % l)
    b.samples.append({"conversion": "utf-8:utf-16be", "points": np, "calls": nc})
    shutil.rmtree(w)


def c29(b, tier):
    """aliases of the table sources stand for what they list; conversions that cannot be created leave nothing behind"""
    import random
    rng = random.Random(driver.SEED * 7 + 29)
    def word(f): return bytes(int(x, 16) & 0xFF for x in f.split(",")).decode("latin1")
    text = ["a \u00e9&amp;%41", "\u4e2d\u6587\u1100\u1161\u0301", "\u00fc\ufb01x\u0323\u0302\uff21\\u4e00", ""]
    for ph in ("from", "inter", "to"):
        p = os.path.join(b.d, "modules", "inter", "ALIAS-%s.txt" % ph.upper())
        al = [f for f in (l.split() for l in open(p, encoding="latin1")) if len(f) == 2 and not f[1].startswith("?")]
        known = {word(f[0]) for f in al} - {"CNS11643"}
        for f in al:
            try: a, e = word(f[0]), word(f[1])
            except ValueError: continue
            if "STDOUT" in a + e or "STDERR" in a + e: continue   # prints
            if not all(w.split("#")[0] in known or os.path.exists(os.path.join(b.d, "build", "share", "bsdconv", ph, w.split("#")[0])) for w in e.replace("|", ",").replace(":", ",").split(",")): continue   # not part of this build
            mix = "".join(c.lower() if rng.random() < .5 else c.upper() for c in a)
            for w in (a, a.lower(), mix, e):
                conv = {"from": "%s:utf-8", "inter": "utf-8:%s:utf-8", "to": "utf-8:%s"}[ph] % w
                for k, t in enumerate(text):
                    x = t.encode("utf-16be" if k == 2 and ph == "from" else "utf-8")
                    b.case(conv, [x], None, what="an alias stands for what it lists", group=(ph, a, k))
    b.case("utf-8:nobom:utf-8", ["\ufeffa".encode()], (b"a", 0, 0), what="alias with arguments")
    noinst = lambda r: None if r == "noinst" else "an instance although the string is malformed or names no codec: " + r[:80]
    bad = ["", ":", "utf-8:", ":utf-8", "utf-8::utf-8", "utf-8:,utf-8", "utf-8:utf-8,", "utf-8|:utf-8", "utf-8:#x:utf-8", "zz-no:utf-8", "utf-8:zz-no", "utf-8:zz-no:utf-8", "utf-8:upper,zz-no:utf-8", "utf-8:utf-8|zz-no:utf-8",
           "utf-8:replace:utf-8", "utf-8:insert#zz=1:utf-8", "utf-8:escape#prefix=A", "utf-8:upper:escape#mode=9", "utf-8:count#for=zz:utf-8", "utf-8,ascii:upper:utf-8,escape#for=zz", "utf-8:nfd,upper,replace#0:utf-8", "utf-8:utf-8|utf-8:escape#zz"]
    for s in bad: b.case(s, [b"a"], noinst, what="no instance for a string that spells none")
    for s, want in ((" utf-8 : UPPER : utf-8", b"AB"), ("UTF-8:Upper:utf-8|utf-8:lower:utf-8", b"ab"), ("ascii,utf-8:lower,upper:ascii,utf-8", b"Ab")):
        b.case(s, [b"aB"], (want, 0, 0), what="blanks and case do not matter")
