"""Independent oracles for the bounded end-to-end complements."""
import random, struct
import driver
from e2e import extra

def U(v):
    h = "%X" % v
    return "01" + ("0" + h if len(h) & 1 else h)

SHOW = ":split:bsdconv-keyword,bsdconv"   # prints every datum in hex followed by a comma
def show(data): return "".join(x + "," for x in data).encode()

def ref_from(decs, b):
    """first decoder that matches, longest match; otherwise drop one byte and count it"""
    i, out, err = 0, [], 0
    while i < len(b):
        for d in decs:
            r = d(b, i)
            if r: out += r[1]; i += r[0]; break
        else: err += 1; i += 1
    return out, err

def cuts(rng, b, kind):
    if kind == 0: return [b]
    if kind == 1: return [b[i:i+1] for i in range(len(b))]
    out, i = [], 0
    while i < len(b):
        n = rng.choice((0, 1, 1, 2, 3, 5)); out.append(b[i:i+n]); i += n
    return out

def ascii_dec(b, i): return (1, [U(b[i])]) if 0 < b[i] < 0x80 else None   # NUL is not listed in ASCII, it is in the table 00
def utf8_dec(b, i):
    c = b[i]
    n = 2 if 0xc2 <= c <= 0xdf else 3 if 0xe0 <= c <= 0xef else 4 if 0xf0 <= c <= 0xf4 else 0
    if not n or i + n > len(b): return None
    try: return n, [U(ord(b[i:i+n].decode("utf-8")))]
    except UnicodeDecodeError: return None

def rnd_bytes(rng, pool, n): return bytes(b for _ in range(n) for b in rng.choice(pool))

def fuzz(b, conv, decs, pool, n, rng, maxlen=8, enc=None):
    for k in range(n):
        x = rnd_bytes(rng, pool, rng.randint(1, maxlen)); out, err = ref_from(decs, x)
        b.case(conv, cuts(rng, x, k % 3), (show(out) if enc is None else enc(out), err, 0), what="random input, chunks")

ALLCP = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000]
TEXT = "".join(map(chr, ALLCP))

def c01(b, tier):
    rng = random.Random(driver.SEED)
    for blk in range(0, len(ALLCP), 40000):
        cps = ALLCP[blk:blk+40000]
        b.case("utf-8" + SHOW, ["".join(map(chr, cps)).encode()], (show(map(U, cps)), 0, 0), what="every scalar value")
    pool = [bytes([x]) for x in (0x41, 0, 0x80, 0xbf, 0x8f, 0x90, 0x9f, 0xa0, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfc, 0xff)] + \
           [c.encode() for c in "\u00e9\u20ac\u6e2c\U0001f600"] + [b"\xed\xa0\xbd\xed\xb8\x80", b"\xf0\x82\x82\xac", b"\xe0\x9f\xbf", b"\xf4\x90\x80\x80"]
    fuzz(b, "utf-8" + SHOW, [ascii_dec, utf8_dec], pool, 6000 if tier == "quick" else 40000, rng)

def c02(b, tier):
    for blk in range(0, len(ALLCP), 40000):
        t = TEXT[blk:blk+40000]
        b.case("utf-8:utf-8", [t.encode()], (t.encode(), 0, 0), what="every scalar value")
        b.case("utf-32be:utf-8", [t.encode("utf-32-be")], (t.encode(), 0, 0), what="every scalar value")
    for v in (0x200000, 0x7fffffff, 0xffffffff): b.case("utf-32be:utf-8", [struct.pack(">I", v)], (b"", 0, 1), what="too large")

def utf16_dec(le):
    def f(b, i):
        if i + 2 > len(b): return None
        u = struct.unpack_from("<H" if le else ">H", b, i)[0]
        if 0xd800 <= u < 0xdc00:
            if i + 4 > len(b): return None
            v = struct.unpack_from("<H" if le else ">H", b, i + 2)[0]
            return (4, [U(0x10000 + ((u & 0x3ff) << 10 | v & 0x3ff))]) if 0xdc00 <= v < 0xe000 else None
        return 2, [U(u)]
    return f
def c03(b, tier):
    rng = random.Random(driver.SEED)
    for n, py, le in (("utf-16be", "utf-16-be", 0), ("utf-16le", "utf-16-le", 1)):
        for blk in range(0, len(ALLCP), 40000):
            t = TEXT[blk:blk+40000]
            b.case(n + ":utf-8", [t.encode(py)], (t.encode(), 0, 0), what="every scalar value")
            b.case("utf-8:" + n, [t.encode()], (t.encode(py), 0, 0), what="every scalar value")
        pool = [struct.pack("<H" if le else ">H", v) for v in (0, 0x41, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xd83d, 0xde00, 0xffff)] + [b"\xd8", b"\xdc", b"\0"]
        fuzz(b, n + SHOW, [utf16_dec(le)], pool, 1500 if tier == "quick" else 15000, rng, 5)
def utf32_dec(le): return lambda b, i: (4, [U(struct.unpack_from("<I" if le else ">I", b, i)[0])]) if i + 4 <= len(b) else None
def c04(b, tier):
    rng = random.Random(driver.SEED)
    for n, py, le in (("utf-32be", "utf-32-be", 0), ("utf-32le", "utf-32-le", 1)):
        for blk in range(0, len(ALLCP), 40000):
            t = TEXT[blk:blk+40000]
            b.case(n + ":utf-8", [t.encode(py)], (t.encode(), 0, 0), what="every scalar value")
            b.case("utf-8:" + n, [t.encode()], (t.encode(py), 0, 0), what="every scalar value")
        fuzz(b, n + SHOW, [utf32_dec(le)], [bytes([x]) for x in (0, 1, 2, 0xd8, 0xff, 0x10)] + [struct.pack("<I" if le else ">I", v) for v in (0, 0x10000, 0xff, 0xffffffff)], 800, rng, 12)
    t = "".join(chr(c) for c in range(1, 0x10000) if not 0xd800 <= c < 0xe000)
    b.case("utf-8:ucs-2be", [t.encode()], (t.encode("utf-16-be"), 0, 0), what="BMP")
    b.case("utf-8:ucs-2le", [t.encode()], (t.encode("utf-16-le"), 0, 0), what="BMP")
    b.case("utf-8:ucs-2be", ["\U00010000".encode()], (b"", 0, 1), what="beyond BMP")

def c05(b, tier):
    """four-byte GB18030: Python's gb18030 codec is the independent oracle, restricted to the algorithmic ranges"""
    rng = random.Random(driver.SEED)
    pairs = []
    for c in ALLCP:
        if c < 0x80: continue
        e = chr(c).encode("gb18030")
        if len(e) == 4: pairs.append((c, e))
    # code points where the published 2000/2005 tables differ from each other are left out
    pass
    for blk in range(0, len(pairs), 40000):
        p = pairs[blk:blk+40000]; t = "".join(chr(c) for c, e in p).encode(); g = b"".join(e for c, e in p)
        b.case("gb18030:utf-8", [g], (t, 0, 0), what="every four-byte character")
        b.case("utf-8:gb18030", [t], (g, 0, 0), what="every four-byte character")
    for k in range(600 if tier == "quick" else 4000):
        p = [rng.choice(pairs) for _ in range(rng.randint(1, 4))]; g = b"".join(e for c, e in p)
        b.case("gb18030:utf-8", cuts(rng, g, 1 + k % 2), ("".join(chr(c) for c, e in p).encode(), 0, 0), what="chunks")


def uda_dec(b, i):
    if i + 2 > len(b): return None
    l, t = b[i], b[i + 1]
    ti = t - 0x40 if 0x40 <= t <= 0x7e else 63 + t - 0xa1 if 0xa1 <= t <= 0xfe else None
    if ti is None: return None
    if 0xfa <= l <= 0xfe: v = 0xe000 + 157 * (l - 0xfa) + ti
    elif 0x8e <= l <= 0xa0: v = 0xe311 + 157 * (l - 0x8e) + ti
    elif 0x81 <= l <= 0x8d: v = 0xeeb8 + 157 * (l - 0x81) + ti
    elif 0xc6 <= l <= 0xc8 and not (l == 0xc6 and t < 0xa1): v = 0xf6b1 - 63 + 157 * (l - 0xc6) + ti
    else: return None
    return 2, [U(v)]
def c06(b, tier):
    rng = random.Random(driver.SEED)
    for l in range(256):
        for t0 in range(0, 256, 64):
            x = b"".join(bytes([l, t]) + b"\n" for t in range(t0, t0 + 64)); out, err = ref_from([uda_dec, ascii_dec], x)
            b.case("cp950-uda,ascii" + SHOW, [x], (show(out), err, 0), what="every byte pair")
    fuzz(b, "cp950-uda,ascii" + SHOW, [uda_dec, ascii_dec], [bytes([x]) for x in (0xfa, 0xfe, 0x8e, 0xa0, 0x81, 0x8d, 0xc6, 0xc8, 0xa1, 0x7e, 0x40, 0x7f, 0x3f, 0xff, 0xc5, 0xc9, 0xf9)], 3000, rng)

import re
_ESC = re.compile(rb"%u([0-9a-fA-F]{4})|%([0-9a-fA-F]{2})|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})|\\([0-3][0-7]{2})")
def esc_dec(b, i):
    m = _ESC.match(b, i)
    if not m: return None
    u = m.group(1) or m.group(3); h = m.group(2) or m.group(4)
    return m.end() - i, [U(int(u, 16)) if u else "03%02X" % int(h, 16) if h else "03%02X" % int(m.group(5), 8)]
_ENT = re.compile(rb"&#(?:x([0-9a-fA-F]+)|([0-9]+));")
def ent_dec(b, i):
    m = _ENT.match(b, i)
    if not m: return None
    v = int(m.group(1), 16) if m.group(1) else int(m.group(2))
    return (m.end() - i, [U(v)]) if v < 2**32 else None
def c07(b, tier):
    rng = random.Random(driver.SEED); n = 2500 if tier == "quick" else 20000
    for f in ("%%%02x", "%%%02X", "\\x%02x", "\\x%02X", "\\%03o", "%%u%04x", "\\u%04X"):
        hi = 65536 if "u" in f else 512
        x = "".join(f % v + "," for v in range(0, hi)).encode()
        for blk in range(0, len(x), 60000):
            y = x[blk:blk+60000]; out, err = ref_from([esc_dec, ascii_dec], y)
            b.case("escape,ascii" + SHOW, [y], (show(out), err, 0), what="every value")
    fuzz(b, "escape,ascii" + SHOW, [esc_dec, ascii_dec], [c.encode() for c in "%\\ux0137aAfFgG8"] + [b"%u", b"\\u", b"\\x", b"\\1"], n, rng, 10)
    for f in ("&#%d;", "&#x%x;", "&#0%d;", "&#x%X;"):
        x = "".join(f % v for v in list(range(0, 0x400)) + [2**k + d for k in range(10, 33) for d in (-1, 0, 1)] + [10**10, 10**20, 999999999999]).encode()
        out, err = ref_from([ent_dec, ascii_dec], x)
        b.case("ascii-numeric-html-entity,ascii" + SHOW, [x], (show(out), err, 0), what="values")
    fuzz(b, "ascii-numeric-html-entity,ascii" + SHOW, [ent_dec, ascii_dec], [c.encode() for c in "&#x;019aFgX"] + [b"&#", b"&#x", b"&#12", b"&#xa", b"&#4294967295", b"&#xfffffff"], n, rng, 10)

# ---- tables and the conversion engine ---------------------------------------------------
import itertools, os
import tables as T
def b_compile(b, items):
    for text, msg in T.compile_tables(b.d, items):
        if len(b.viol) < 3: b.viol.append({"obligation": b.name + ": table compiles", "description": msg, "table": text[:2000]})

def c17(b, tier):
    rng = random.Random(driver.SEED * 7 + 17); items, jobs = [], []
    n = 150 if tier == "quick" else 1500
    for k in range(n):
        text, al = T.rnd_from(rng); name = "VPF%d" % k; items.append(("from", name, text)); t = T.Table(text); al2 = al + [97 ^ 32 if 97 in al else 0x78]
        for L in range(1, 4):
            for key in itertools.product(al2[:4], repeat=L): jobs.append((name + SHOW, bytes(key), [[t]], "every short sequence"))
        for _ in range(20): jobs.append((name + SHOW, bytes(rng.choice(al2) for _ in range(rng.randint(4, 9))), [[t]], "longer sequences"))
    code_text, code = T.datatable(T.DATA + [b"\x01\x63", b"\x61"]); items.append(("from", "VPC", code_text)); ct = T.Table(code_text)
    for k in range(n):
        to = k & 1; text, al = T.rnd_map(rng, to); name = "VPM%d" % k; items.append(("to" if to else "inter", name, text)); t = T.Table(text); al2 = al + [b"\x61"]
        for L in range(1, 4):
            for key in itertools.product(al2, repeat=L):
                if L == 3 and rng.random() > .3: continue
                jobs.append(("VPC:" + name + ("" if to else SHOW), b"".join(map(code, key)), [[ct], [t]], "every short run"))
    b_compile(b, items)
    # tables shipped with the library that consist of a mapping text only
    for kind in ("from", "inter", "to"):
        d = os.path.join(b.d, "modules", kind)
        for f in sorted(os.listdir(d)):
            nm = f[:-4]
            if not f.endswith(".txt") or os.path.exists(os.path.join(d, nm + ".c")): continue
            if not os.path.exists(os.path.join(b.d, "build", "share", "bsdconv", kind, nm)): continue
            try: text = open(os.path.join(d, f), encoding="utf-8").read()
            except UnicodeDecodeError: text = open(os.path.join(d, f), encoding="latin1").read()
            t = T.Table(text)
            if t.callback or not t.ents or nm == 'BSDCONV-KEYWORD': continue
            keys = []
            for ci, s, o in t.ents:
                if s.count("*") > 2: continue
                for _ in range(1 + 2 * (s.count("*") > 0) + 2 * ci):
                    x = [rng.randrange(256) if c == "*" else c for c in s]
                    if ci: x = [T.swap(c) if c < 256 and T.swap(c) is not None and rng.random() < .5 else c for c in x]
                    keys.append(tuple(x))
            if tier == "quick" and len(keys) > 4000: keys = [keys[i] for i in sorted(rng.sample(range(len(keys)), 4000))]
            if kind == "from":
                keys = [bytes(k) for k in keys if COMMA_FREE(k)]
                for i in range(0, len(keys), 40): jobs.append((nm + SHOW, b"".join(keys[i:i+40]), [[t]], "table " + f))
                for _ in range(60):
                    x = bytearray(b"".join(rng.choice(keys) for _ in range(6)))
                    for _ in range(4): x[rng.randrange(len(x))] = rng.randrange(256)
                    jobs.append((nm + SHOW, bytes(x), [[t]], "table " + f))
            else:
                runs = [tuple(bytes(g) for c, g in itertools.groupby(k, lambda v: v == 256) if not c) for k in keys]
                runs = [r for r, k in zip(runs, keys) if sum(map(len, r)) + len(r) - 1 == len(k)]
                if not runs: continue
                ctext, ccode = T.datatable([x for r in runs for x in r] + [b"\x07\x07"])
                cn = "VPD%s%s" % (kind[0].upper(), len(items)); items.append(("from", cn, ctext)); b_compile(b, items[-1:]); ctt = T.Table(ctext)
                for i in range(0, len(runs), 40):
                    for sep in (b"", ccode(b"\x07\x07")):
                        if kind == "inter": jobs.append((cn + ":" + nm + SHOW, sep.join(b"".join(map(ccode, r)) for r in runs[i:i+40]), [[ctt], [t]], "table " + f))
                        else: jobs.append((cn + ":" + nm, sep.join(b"".join(map(ccode, r)) for r in runs[i:i+40]), [[ctt], [t]], "table " + f))
    for conv, x, ph, what in jobs:
        if conv.endswith(SHOW):
            d, err = T.ref_from(ph[0], x)
            if len(ph) > 1: d, _ = T.ref_map(ph[1], d, False)
            b.case(conv, [x], (show(T.h(y) for y in d), err, 0), what=what)
        else:
            out, ie, oe = T.ref(ph, x); b.case(conv, [x], (out, ie, oe), what=what)
def COMMA_FREE(k): return all(c < 256 for c in k)

def all_cuts(x):
    """every way to cut x (short inputs)"""
    n = len(x)
    for m in range(1 << max(0, n - 1)):
        out, st = [], 0
        for i in range(1, n):
            if m >> (i - 1) & 1: out.append(x[st:i]); st = i
        yield out + [x[st:]]
def cut_family(rng, x, exh):
    if len(x) <= exh: yield from ((c, "R") for c in all_cuts(x))
    else:
        yield [x], "R"; yield cuts(rng, x, 1), "R"
        for _ in range(3): yield cuts(rng, x, 2), "R"
    for k in range(2): yield [c for c in cuts(rng, x, 2)] or [b""], "L"
    yield [b""] + cuts(rng, x, 2) + [b"", b""], "R"

def engine_family(b, rng, n, fn, nf=(1, 2, 3), ni=(0, 1, 2), nt=(1, 2), prefix="VPE"):
    """n random chains of phases (tables compiled by the real compiler); fn(conv, phases, alphabet) adds the cases"""
    items, chains = [], []
    for k in range(n):
        ph, names, al = [], [], set()
        for q in range(rng.choice(nf)):
            text, a = T.rnd_from(rng); nm = "%sF%dX%d" % (prefix, k, q); items.append(("from", nm, text)); al |= set(a)
            if q == 0: ph.append([]); names.append([])
            ph[0].append(T.Table(text)); names[0].append(nm)
        for i in range(rng.choice(ni)):
            ph.append([]); names.append([])
            for q in range(rng.choice((1, 1, 2))):
                text, a = T.rnd_map(rng); nm = "%sI%dX%dX%d" % (prefix, k, i, q); items.append(("inter", nm, text)); ph[-1].append(T.Table(text)); names[-1].append(nm)
        ph.append([]); names.append([])
        for q in range(rng.choice(nt)):
            text, a = T.rnd_map(rng, True); nm = "%sT%dX%d" % (prefix, k, q); items.append(("to", nm, text)); ph[-1].append(T.Table(text)); names[-1].append(nm)
        chains.append((":".join(",".join(x) for x in names), ph, sorted(al) + [0x7a]))
    b_compile(b, items)
    for c in chains: fn(*c)

REAL = [  # conversions with stateful or callback codecs, and pools their input is drawn from
 ("utf-8:utf-8", "u8"), ("utf-8:utf-16le", "u8"), ("_utf-8#cesu,ascii:utf-8", "u8"), ("_utf-8#loose,3f:utf-16be", "u8"), ("utf-16le:utf-8", "bin"), ("utf-32be:utf-8", "bin"),
 ("gb18030:utf-8", "gb"), ("big5:utf-8", "b5"), ("cp950-uda,_cp950,ascii:utf-8", "b5"), ("escape,ascii:pass#for=3,utf-8", "esc"), ("ascii-named-html-entity,ascii-numeric-html-entity,utf-8:utf-8", "ent"),
 ("ibm-930:utf-8", "eb"), ("ibm-937:utf-8", "eb"), ("jis:utf-8", "jis"), ("utf-8:gb18030", "u8"), ("utf-8:escape,ascii", "u8"), ("utf-8:ibm-930", "u8"),
 ("utf-8:nfc:utf-8", "nf"), ("utf-8:nfd:utf-8", "nf"), ("utf-8:nfkc:utf-8", "nf"), ("utf-8:width:utf-8", "u8"), ("utf-8:whitespace-derail:whitespace-rerail:utf-8", "ws"),
 ("utf-8:zhtw:zhtw-words:utf-8", "u8"), ("utf-8:upper:full:utf-8", "u8"), ("bsdconv-keyword,bsdconv:bsdconv", "hex"), ("utf-8:replace#0139.015A=0130.0131.0132:utf-8", "u8"), ("utf-8:insert#after=0120:utf-8", "u8"),
 ("utf-8:ambiguous-pad:utf-8", "nf"), ("utf-8:ambiguous-unpad:utf-8", "nf"), ("any#0141&error,utf-8:utf-8", "u8"), ("utf-8:count:utf-8", "u8"), ("utf-8:trim-width#6:utf-8", "nf"),
 ("ansi-control,utf-8:split:bsdconv-keyword,bsdconv", "ansi"), ("utf-8:_nf-hangul-decomposition:_nf-hangul-composition:utf-8", "hg"), ("utf-8:big5-defrag:utf-8", "u8"), ("utf-8:unix:utf-8", "ws"), ("utf-8:win:utf-8", "ws"), ("utf-8:nl2br:utf-8", "ws"),
]
def pool(kind):
    asc = [bytes([c]) for c in b"aZ09 \n"]
    u = [c.encode() for c in "\u00e9\u20ac\u6e2c\u8a66\U0001f600\u00a0\u03b1\u4e00\u53f0\u7063\u88e1\u9762"]
    return {"u8": asc + u + [b"\xe6", b"\xb8", b"\xac", b"\xff", b"\xc0", b"\xf0\x9f", b"\xed\xa0\xbd", b"\xed\xb8\x80"],
            "bin": [bytes([x]) for x in (0, 0x41, 0xd8, 0xdc, 0x3d, 0xde, 0x6e, 0x2c)] + [b"\x3d\xd8\x00\xde", b"\xd8\x3d\xde\x00", b"\0\0\x6e\x2c"],
            "gb": asc + [c.encode("gb18030") for c in "\u00e9\u20ac\u6e2c\U0001f600\uffff\ue5e5\u0080\u3400"] + [bytes([x]) for x in (0x81, 0x30, 0x84, 0x31, 0x39, 0xa4, 0xfe, 0xff)],
            "b5": asc + [c.encode("big5") for c in "\u6e2c\u8a66\u4e00"] + [bytes([x]) for x in (0xfa, 0x40, 0x81, 0xc6, 0xa1, 0xfe, 0xff, 0x7e)],
            "esc": asc + [b"%", b"\\", b"u", b"x", b"41", b"%41", b"\\u6e2c", b"%u6", b"\\x4", b"\\10", b"1", b"4", b"a"],
            "ent": asc + [b"&", b"#", b";", b"x", b"&#", b"&#x", b"&#65;", b"&amp;", b"&am", b"p;", b"&lt", b"1", b"6", b"f", b"&nbsp;", b"&#x6e2c;"],
            "eb": [bytes([x]) for x in (0x0e, 0x0f, 0xc1, 0xc2, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x4a, 0x81, 0x25, 0xff)] + [b"\x0e\x44\x81\x0f", b"\x0e\x45\x41"],
            "jis": asc + [b"\x1b", b"$", b"B", b"(", b"J", b"@", b"D", b"I", b"\x1b$B", b"\x1b(B", b"\x1b(J", b"\x1b$@", b"\x1b$(D", b"\x1b(I", b"$\"", b"!", b"\x30\x21", b"\x0e", b"\x0f"],
            "nf": asc + [c.encode() for c in "\u0301\u0323\u0300\u0327e\u00e9\u1e69\u0307s\u03b1\u0345\u1f00\uac00\u1100\u1161\u11a8\u00a0\u2460\ufb01"],
            "ws": asc + [c.encode() for c in "\r\n\t \u3000\u00a0\u2003\u6e2c"] + [b"\r\n"],
            "hex": [b"0", b"1", b"a", b"F", b"01", b"0141", b",", b" ", b"\t", b"2C", b"g", b"00", b"\n", b"012345678901234567"],
            "ansi": asc + [b"\x1b", b"[", b"1", b";", b"m", b"\x1b[", b"\x1b[1;3", b"\xff"] + u[:3],
            "hg": asc + [c.encode() for c in "\uac00\ud7a3\u1100\u1161\u11a8\u1112\u1175\u11c2\u11a7\u1113"]}[kind]

def c18(b, tier):
    rng = random.Random(driver.SEED * 7 + 18); q = tier == "quick"
    def add(conv, ph, al):
        for k in range(6 if q else 30):
            x = bytes(rng.choice(al) for _ in range(rng.randint(1, 5) if k % 2 else rng.randint(5, 14))); want = T.ref(ph, x)
            for ch, cmd in cut_family(rng, x, 5): b.case(conv, ch, want, cmd, what="chunks")
    engine_family(b, rng, 80 if q else 500, add, prefix="VPH")
    for conv, kind in REAL:
        pl = pool(kind)
        for k in range(40 if q else 400):
            x = b"".join(rng.choice(pl) for _ in range(rng.randint(1, 4) if k % 2 else rng.randint(4, 10)))
            for ch, cmd in cut_family(rng, x, 4): b.case(conv, ch, None, cmd, what="chunks, " + conv, group=(conv, x))
def c19(b, tier):
    rng = random.Random(driver.SEED * 7 + 19); q = tier == "quick"
    def add(conv, ph, al):
        names = conv.split(":")[0]
        for L in range(1, 4):
            for key in itertools.product(al[:4] + al[-1:], repeat=L):
                if L == 3 and rng.random() > .35: continue
                x = bytes(key); d, err = T.ref_from(ph[0], x); b.case(names + SHOW, [x], (show(map(T.h, d)), err, 0), what="longest match of the first codec that matches, one byte per error")
        for _ in range(40):
            x = bytes(rng.choice(al) for _ in range(rng.randint(4, 16))); d, err = T.ref_from(ph[0], x)
            b.case(names + SHOW, cuts(rng, x, rng.randrange(3)), (show(map(T.h, d)), err, 0), what="longest match of the first codec that matches, one byte per error")
    engine_family(b, rng, 150 if q else 1000, add, nf=(1, 2, 2, 3, 4), ni=(0,), prefix="VPJ")
    for names, decs, pk in (("ascii,_utf-8", [ascii_dec, utf8_dec], "u8"), ("_utf-8,ascii", [utf8_dec, ascii_dec], "u8"), ("escape,ascii", [esc_dec, ascii_dec], "esc"), ("ascii,escape", [ascii_dec, esc_dec], "esc"),
                            ("ascii-numeric-html-entity,escape,ascii", [ent_dec, esc_dec, ascii_dec], "ent"), ("cp950-uda,_utf-8", [uda_dec, utf8_dec], "b5"), ("escape,ascii-numeric-html-entity,_utf-8,ascii", [esc_dec, ent_dec, utf8_dec, ascii_dec], "ent")):
        pl = pool(pk)
        for k in range(150 if q else 2000):
            x = b"".join(rng.choice(pl) for _ in range(rng.randint(1, 9))); d, err = ref_from(decs, x)
            b.case(names + SHOW, cuts(rng, x, k % 3), (show(d), err, 0), what="codec order, " + names)
def c20(b, tier):
    rng = random.Random(driver.SEED * 7 + 20); q = tier == "quick"; n = 100 if q else 700
    items = []; code_text, code = T.datatable(T.DATA + [b"\x01\x63", b"\x61"]); items.append(("from", "VPKC", code_text)); ct = T.Table(code_text); ch = []
    for k in range(n):
        ph, names = [[ct]], ["VPKC"]
        for i in range(rng.choice((0, 1, 1, 2, 3))):
            ph.append([]); names.append([])
            for qq in range(rng.choice((1, 1, 2, 3))):
                text, a = T.rnd_map(rng); nm = "VPKI%dX%dX%d" % (k, i, qq); items.append(("inter", nm, text)); ph[-1].append(T.Table(text)); names[-1].append(nm)
        if len(ph) == 1 or rng.random() < .5:
            ph.append([]); names.append([])
            for qq in range(rng.choice((1, 2, 3))):
                text, a = T.rnd_map(rng, True); nm = "VPKT%dX%d" % (k, qq); items.append(("to", nm, text)); ph[-1].append(T.Table(text)); names[-1].append(nm)
            ch.append((":".join(x if isinstance(x, str) else ",".join(x) for x in names), ph, True))
        else: ch.append((":".join(x if isinstance(x, str) else ",".join(x) for x in names) + SHOW, ph, False))
    b_compile(b, items); al = T.DATA + [b"\x01\x63", b"\x61"]
    for conv, ph, to in ch:
        xs = [k for L in (1, 2, 3) for k in itertools.product(al, repeat=L) if L < 3 or rng.random() < .04] + [tuple(rng.choice(al) for _ in range(rng.randint(4, 12))) for _ in range(25)]
        for x in xs:
            y = b"".join(map(code, x)); d = list(x)
            if to: want = T.ref(ph, y)
            else:
                for p in ph[1:]: d, _ = T.ref_map(p, d, False)
                want = (show(map(T.h, d)), 0, 0)
            b.case(conv, cuts(rng, y, rng.randrange(3)), want, what="longest listed run, order kept")

def c21(b, tier):
    rng = random.Random(driver.SEED * 7 + 21); q = tier == "quick"
    convs = [("utf-8:utf-16be", "u8"), ("utf-8:utf-8", "u8"), ("utf-8:split:bsdconv-keyword,bsdconv", "u8"), ("escape,ascii:raw,ascii", "esc"), ("utf-8:ascii-html-info", "u8"), ("bsdconv-keyword,bsdconv:raw,bsdconv-keyword", "hex"), ("utf-8:nfd:utf-32le", "nf")]
    for conv, pk in convs:
        pl = pool(pk)
        for k in range(25 if q else 200):
            x = b"".join(rng.choice(pl) for _ in range(rng.randint(0, 12))); ch = cuts(rng, x, k % 3) or [b""]
            for mode in ("1 0", "2 40", "2 64", "2 4096", "3 0", "4 0", "5 0", "6 pass:pass", "7 0"):
                if mode in ("2 40", "2 64") and "html" in conv: continue
                b.case(conv, ch, None, pre=["M " + mode], what="output mode " + mode, group=(conv, x))
    def add(conv, ph, al):
        for k in range(4 if q else 20):
            x = bytes(rng.choice(al) for _ in range(rng.randint(1, 12))); want = T.ref(ph, x)
            for mode in ("1 0", "2 3", "2 4", "2 7", "3 0", "4 0", "5 0", "6 pass:pass", "7 0"): b.case(conv, cuts(rng, x, k % 3), want, pre=["M " + mode], what="output mode " + mode)
    engine_family(b, rng, 60 if q else 300, add, prefix="VPO")
    b.case("utf-8:utf-8", [b"a"], (b"a", 0, 0), pre=["M 1 0"])

def c22(b, tier):
    rng = random.Random(driver.SEED * 7 + 22); q = tier == "quick"
    def add(conv, ph, al):
        for k in range(8 if q else 40):
            x = bytes(rng.choice(al) for _ in range(rng.randint(1, 10))); want = T.ref(ph, x)
            b.case(conv, cuts(rng, x, k % 3), want, pre=["P " + ",".join(c.hex().upper() or "-" for c in cuts(rng, bytes(rng.choice(al) for _ in range(rng.randint(1, 5))), rng.randrange(3)))], what="re-initialised")
    engine_family(b, rng, 80 if q else 500, add, prefix="VPR")
    for conv, kind in REAL:
        pl = pool(kind)
        for k in range(25 if q else 300):
            x = b"".join(rng.choice(pl) for _ in range(rng.randint(1, 6)))
            b.case(conv, [x], None, pre=["C " + conv], what="re-initialised, " + conv, group=(conv, x))
            for _ in range(3):
                y = b"".join(rng.choice(pl) for _ in range(rng.randint(1, 4))); y = y[:rng.randint(1, len(y))]
                b.case(conv, [x], None, pre=["P " + ",".join(c.hex().upper() or "-" for c in cuts(rng, y, rng.randrange(3)))], what="re-initialised, " + conv, group=(conv, x))
