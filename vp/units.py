import os, re
from driver import Unit, REPO, CON
from e2e import extra
PROPS = {}
def prop(pid, units, functions, trusted=(), assumptions=(), level="proof", **kw):
    PROPS[pid] = dict(units=units, functions=functions, level=level, trusted=COMMON_TRUST + list(trusted), assumptions=COMMON_ASSUME + list(assumptions), **kw)
COMMON_TRUST = ["CBMC 6.11.0 (goto-cc front end, DFCC contract instrumentation, symbolic execution, MiniSat)",
                "CBMC's models of malloc/free/memcpy/memset/strcmp-family library functions",
                "gcc 13 + AddressSanitizer for native replay and native contract runs"]
COMMON_ASSUME = ["malloc never fails", "char is signed, little-endian x86-64 data model (as the real build)"]

# ---- C01
def c01():
    us = []
    quick = {0: (0, 1, 2, 3), 1: (0,), 2: (0,), 8: (0, 2), 4: (0,), 16: (2, 3)}
    for o in range(32):
        if o & 24 == 24: continue
        mc = 6 if o & (4 | 16) else 4
        d = ["-DOPTS=%d" % o, "-DMAXC=%d" % mc, "-DNOPOOL", "-DCALLS=%d" % (2 if o & 16 else 1)]
        kw = dict(retry=[["-UCALLS", "-DCALLS=%d" % (mc + 1)]], src=["modules/from/_UTF-8.c"], harness="from_utf8.c", hunwind=6)
        for k in range(mc):
            us.append(Unit("utf8-decode/opts=%d/K=%d" % (o, k), defs=d + ["-DK=%d" % k], unwind=max(5, mc - k + 1), weight=10 if o & 16 else 5,
                           tier="quick" if k in quick.get(o, ()) else "thorough", **kw))
        for k in range(mc - 2):
            for m in range(2, mc - k):
                us.append(Unit("utf8-decode/opts=%d/cut=%d+%d" % (o, k, m), defs=d + ["-DK=%d" % k, "-DM=%d" % m], unwind=max(5, m + 1),
                           tier="quick" if o in (0,16) else "thorough", **kw))
    us.append(Unit("utf8-decode/all-option-sets", ["modules/from/_UTF-8.c"], "from_utf8.c", ["-DOPTS=((int)(IN[5]&31))", "-DMAXC=12", "-DK=((int)(IN[6]%6))"], bounded=True, rnd=200000))
    return us
prop("C01", c01(), ["modules/from/_UTF-8.c: cbcreate cbinit cbconv cbdestroy"], extra=[extra("end-to-end", "c01")])

def from_units(name, src, harness, defs, mc, unwind=None, cuts=True, tier="quick", **kw):
    us = []
    for k in range(mc):
        us.append(Unit("%s/K=%d" % (name, k), [src], harness, defs + ["-DK=%d" % k], unwind=unwind or max(5, mc - k + 1), tier=tier, **dict(dict(hunwind=6, retry=[["-UCALLS", "-DCALLS=%d" % (mc + 1)]]), **kw)))
    if cuts:
        for k in range(mc - 2):
            for m in range(2, mc - k):
                us.append(Unit("%s/cut=%d+%d" % (name, k, m), [src], harness, defs + ["-DK=%d" % k, "-DM=%d" % m], unwind=unwind or max(5, m + 1), tier=tier, **dict(dict(hunwind=6, retry=[["-UCALLS", "-DCALLS=%d" % (mc + 1)]]), **kw)))
    return us

def inc_unit(name, src, harness, defs, **kw):
    return Unit(name, [], harness, defs + ['-DVP_SRC="%s/%s"' % (REPO, src)], optional=True, soft=True, native=False, **kw)
TO = lambda n: "modules/to/%s.c" % n
FR = lambda n: "modules/from/%s.c" % n
IN = lambda n: "modules/inter/%s.c" % n
prop("C02", [Unit("utf8-encode", [TO("_UTF-8")], "to_uni.c", ["-DKIND=8"], unwind=6, hunwind=13)], ["modules/to/_UTF-8.c: cbconv"], extra=[extra("end-to-end", "c02")])
prop("C03", from_units("utf16be-decode", FR("UTF-16BE"), "from_utf16.c", [], 4) + from_units("utf16le-decode", FR("UTF-16LE"), "from_utf16.c", ["-DLE"], 4) +
     [Unit("utf16be-encode", [TO("UTF-16BE")], "to_uni.c", ["-DKIND=16"], unwind=6, hunwind=13), Unit("utf16le-encode", [TO("UTF-16LE")], "to_uni.c", ["-DKIND=16", "-DLE"], unwind=6, hunwind=13)],
     ["modules/from/UTF-16BE.c, UTF-16LE.c: cbcreate cbinit cbconv cbdestroy", "modules/to/UTF-16BE.c, UTF-16LE.c: cbconv"], extra=[extra("end-to-end", "c03")])
prop("C04", from_units("utf32be-decode", FR("UTF-32BE"), "from_utf32.c", [], 4) + from_units("utf32le-decode", FR("UTF-32LE"), "from_utf32.c", ["-DLE"], 4) +
     [Unit("%s-encode" % n, [TO(n)], "to_uni.c", ["-DKIND=%d" % k] + (["-DLE"] if n.endswith("LE") else []), unwind=6, hunwind=13) for n, k in (("UTF-32BE", 32), ("UTF-32LE", 32), ("UCS-2BE", 2), ("UCS-2LE", 2))],
     ["modules/from/UTF-32BE.c, UTF-32LE.c: cbcreate cbinit cbconv cbdestroy", "modules/to/UTF-32BE.c, UTF-32LE.c, UCS-2BE.c, UCS-2LE.c: cbconv"], extra=[extra("end-to-end", "c04")])

NOT_APPLICABLE = {
 "C28": "concerns schedules of several threads (process-wide current directory while codecs are loaded); CBMC's contract instrumentation is sequential, so contracts here cannot express interference between threads",
}
prop("C05", sum([from_units("gb18030-decode/prefix=%d" % pl, FR("_GB18030"), "from_gb18030.c", ["-DPL=%d" % pl, "-DNOPOOL", "-DCALLS=%d" % (4 - pl)], 4 - pl, unwind=6, hunwind=14) for pl in (1, 2, 3)], []) +
     [Unit("gb18030-decode/prefix=%d/after-abandoned=%d" % (pl, a), [FR("_GB18030")], "from_gb18030.c", ["-DPL=%d" % pl, "-DNOPOOL", "-DABANDON=%d" % a, "-DCALLS=%d" % (4 - pl)], unwind=6, hunwind=14) for pl, a in ((1, 1), (1, 2), (2, 1))] +
     [Unit("gb18030-encode", [TO("_GB18030")], "to_gb18030.c", [], unwind=7, hunwind=14)],
     ["modules/from/_GB18030.c: cbcreate cbinit cbconv cbdestroy", "modules/to/_GB18030.c: cbconv"], extra=[extra("end-to-end", "c05")])
prop("C06", from_units("cp950-uda-decode", FR("CP950-UDA"), "from_cp950uda.c", ["-DCALLS=2"], 2), ["modules/from/CP950-UDA.c: cbcreate cbinit cbconv cbdestroy"], extra=[extra("end-to-end", "c06")])
prop("C07", from_units("escape-decode", FR("ESCAPE"), "from_escape.c", ["-DNOPOOL"], 6, unwind=7) +
     sum([from_units("entity-decode/%d" % k, FR("ASCII-NUMERIC-HTML-ENTITY"), "from_entity.c", ["-DNOPOOL", "-DMAXC=%d" % (k + 3)], 1, cuts=False)[:0] +
          [Unit("entity-decode/K=%d" % k, [FR("ASCII-NUMERIC-HTML-ENTITY")], "from_entity.c", ["-DNOPOOL", "-DMAXC=%d" % (k + 2), "-DK=%d" % k], unwind=5, hunwind=k + 4, tier="quick" if k < 5 else "thorough")] for k in range(7)], []) +
     [inc_unit("entity-decode/step", FR("ASCII-NUMERIC-HTML-ENTITY"), "from_entity_step.c", ["-DNOPOOL"], unwind=6)],
     ["modules/from/ESCAPE.c, ASCII-NUMERIC-HTML-ENTITY.c: cbcreate cbinit cbconv cbdestroy"], extra=[extra("end-to-end", "c07")])

def c18_codecs():
    """decoders whose behaviour across calls (pieces) is proved; the same units decide C01, C03 .. C07"""
    us = [u for p in ("C01", "C03", "C04", "C05", "C06", "C07") for u in PROPS[p]["units"] if u.tier == "quick" and "/cut=" in u.name]
    return [u for u in us if re.match(r"utf8-decode/opts=0/|utf16le|utf32be|cp950|escape|gb18030", u.name)]
LIB = ["src/libbsdconv.c"]; LDEF = ['-DSHLIBEXT="so"']
prop("C17", [Unit("lookup", [], "lookup.c", ["-DLOOKUP"], unwind=10, hunwind=10, rnd=2000)], ["src/bsdconv.h: get_offset read_state"], level="exploration", extra=[extra("tables", "c17")])
TYN = {1: "FROM", 2: "INTER", 3: "TO"}
def eng(ty, nc, dep, ni, cuts, tier="quick"):
    return Unit("engine/%s/codecs=%d/depth=%d/input=%d%s" % (TYN[ty], nc, dep, ni, "/cuts" if cuts else ""), LIB, "engine.c", LDEF + ["-DTYPE=%d" % ty, "-DNC=%d" % nc, "-DDEP=%d" % dep, "-DNI=%d" % ni] + (["-DCUTS"] if cuts else []), tier=tier,
                exhaust="every table set of %d codec(s) listing any sequences of 1..%d symbols over {a,b}, every input of at most %d symbols over {a,b,c}%s" % (nc, dep, ni, ", every cut into two pieces, flushed with or after the second" if cuts else ""))
LOOKUP = lambda: Unit("lookup", [], "lookup.c", ["-DLOOKUP"], unwind=10, hunwind=10, rnd=2000)
ENGF = ["src/bsdconv.h: get_offset read_state (proved)", "src/libbsdconv.c: bsdconv (contract evaluated at run time over a stated finite domain)"]
prop("C18", [LOOKUP()] + [eng(t, 1, 2, 5, True) for t in (1, 2, 3)] + [eng(t, 1, 3, 3, True) for t in (1, 2, 3)] + [eng(t, 2, 2, 4, True) for t in (1, 2, 3)] + [eng(t, 1, 3, 5, True, "thorough") for t in (1, 2, 3)] + c18_codecs(), ENGF + ["modules/from/UTF-16LE.c, UTF-32BE.c, CP950-UDA.c, ESCAPE.c, _GB18030.c, _UTF-8.c: cbconv across calls (proved)"], level="exploration", extra=[extra("chunks", "c18")])
prop("C19", [LOOKUP(), eng(1, 1, 3, 4, False), eng(1, 2, 2, 4, True), eng(1, 3, 1, 4, True), eng(1, 1, 3, 6, False, "thorough"), eng(1, 2, 2, 6, False, "thorough")], ENGF, level="exploration", extra=[extra("from", "c19")])
prop("C20", [LOOKUP()] + sum([[eng(t, 1, 3, 4, False), eng(t, 2, 2, 4, True), eng(t, 3, 1, 4, True), eng(t, 1, 3, 6, False, "thorough"), eng(t, 2, 2, 6, False, "thorough")] for t in (2, 3)], []), ENGF, level="exploration", extra=[extra("inter-to", "c20")])
MODES = {1: "automalloc", 2: "premalloced", 3: "file", 4: "fd", 5: "null", 6: "pass", 0: "hold"}
prop("C21", [Unit("output/%s" % m, LIB, "output.c", LDEF + ["-DMODE=%d" % k], unwind=6, hunwind=12, bound="queues of at most 3 data of at most 3 bytes", rnd=20000) for k, m in MODES.items()],
     ["src/libbsdconv.c: bsdconv (delivery)"], level="exploration", extra=[extra("output", "c21")])
prop("C22", [Unit("init", LIB, "init.c", LDEF, unwind=6, hunwind=12, bound="at most 2 phases of at most 2 codecs, at most 2 data per queue")], ["src/libbsdconv.c: bsdconv_init"], level="exploration", extra=[extra("reinit", "c22")])

# ---- C12
def c12():
    us = []; g = open(os.path.join(CON, "golden.h")).read()
    for k in ("filter", "scorer"):
        for n in sorted(set(re.findall(r"g_%s_(\w+?)(?:_TYPE|\[)" % k, g))):
            ty = "g_%s_%s_TYPE" % (k, n) in g
            us.append(Unit("%s/%s" % (k, n), ["modules/%s/%s.c" % (k, n)], "filter.c", ["-DTY=g_%s_%s_TYPE" % (k, n) if ty else "-DG=g_%s_%s" % (k, n)] + (["-DSCORE"] if k == "scorer" else []),
                           enforce=["cbscorer" if k == "scorer" else "cbfilter"], unwind=10, hunwind=42, rnd=100000))
    return us
prop("C12", c12(), ["modules/filter/*.c (with unicode_range.c and type.c): cbfilter", "modules/scorer/*.c (with unicode_range.c): cbscorer"], extra=[extra("filters-in-use", "c12")],
     assumptions=["a Unicode datum (first byte 01) has at most 8 bytes; a code point needs at most 5"])

# ---- datum-wise steps (contracts/step.c)
S_ = {n: i + 1 for i, n in enumerate("COUNT PASSI PASST PASSF NULL INSERT ANY WIDTH PAD UNPAD HDEC BSDCONV RAW IMG ESC REPLACE HCOMP".split())}
def step(name, src, kind, defs=(), **kw):
    return Unit(name, [src], "step.c", ["-DSTEP=%d" % S_[kind]] + list(defs), **dict(dict(unwind=6, hunwind=13, pre=True), **kw))
B6 = "data of at most 6 bytes"
BL = "argument lists of at most 2 data of at most 3 bytes"
def c08():
    us = []
    for L in range(1, 7):
        for n, k in (("BSDCONV", "BSDCONV"), ("RAW", "RAW"), ("ASCII-HTML-UNICODE-IMG", "IMG")):
            us.append(step("%s/len=%d" % (n.lower(), L), TO(n), k, ["-DMIND=%d" % L, "-DMAXD=%d" % L], bound=B6, hunwind=100 if k == "IMG" else 17, unwind=90 if k == "IMG" else 14, maxunwind=100, tier="thorough" if k == "IMG" and L in (1, 3, 5) else "quick"))
    for L in range(1, 6):
        for f in (0, 6):
            if f and L > 3: continue
            for m in (0, 4, 6):
                for ps in (0, 3): us.append(step("escape/len=%d/for=%d/mode=%d/args=%d" % (L, f, m, ps), TO("ESCAPE"), "ESC", ["-DMIND=%d" % L, "-DMAXD=%d" % L, "-DFSEL=%d" % f, "-DMSEL=%d" % m, "-DPSEL=%d" % ps, "-DNOPOOL"], bound="prefix and suffix of at most 3 bytes, datum of at most 5 bytes", hunwind=21, unwind=12,
                                                          tier="quick" if (f, m, ps) in ((0, 0, 3), (0, 4, 0), (0, 6, 3)) and L in (2, 4) or f and L == 2 and ps == 3 else "thorough"))
    us.append(step("escape/options", TO("ESCAPE"), "ESC", ["-DMIND=2", "-DMAXD=2", "-DNOPOOL"], bound="datum of 2 bytes", hunwind=21, unwind=12))
    return us
prop("C08", c08(),
     ["modules/to/ESCAPE.c, BSDCONV.c, RAW.c, ASCII-HTML-UNICODE-IMG.c: cbcreate cbconv cbdestroy"], level="exploration", extra=[extra("end-to-end", "c08")])
prop("C10", [step("hangul-decomposition", IN("_NF-HANGUL-DECOMPOSITION"), "HDEC", unwindset=["decomposeHangul:2"]), *[step("hangul-composition/state=%d" % k, IN("_NF-HANGUL-COMPOSITION"), "HCOMP", ["-DNCALLS=%d" % (k + 1), "-DSTATES"], unwind=9) for k in range(3)]], ["modules/inter/_NF-HANGUL-DECOMPOSITION.c: cbconv", "modules/inter/_NF-HANGUL-COMPOSITION.c: cbcreate cbinit cbconv cbflush cbdestroy"], extra=[extra("end-to-end", "c10")])
prop("C13", [step("width", IN("WIDTH"), "WIDTH", hunwind=13, unwind=12), step("pad", IN("AMBIGUOUS-PAD"), "PAD", ["-DNCALLS=2"], hunwind=13, unwind=12), step("unpad", IN("AMBIGUOUS-UNPAD"), "UNPAD", ["-DNCALLS=3"], hunwind=13, unwind=12),
              Unit("trim-width", [IN("TRIM-WIDTH")], "trim.c", [], unwind=5, hunwind=6, pre=True, unwindset=["strcasecmp.0:20", "strcmp.0:7"]), Unit("trim-width/no-width", [IN("TRIM-WIDTH")], "trim.c", ["-DNOWIDTH"], unwind=5, hunwind=6, pre=True, native=False, unwindset=["strcasecmp.0:20"])],
     ["modules/inter/TRIM-WIDTH.c: cbcreate cbinit cbconv cbdestroy", "modules/inter/WIDTH.c, AMBIGUOUS-PAD.c, AMBIGUOUS-UNPAD.c: cbcreate cbinit cbctl cbconv cbdestroy"], extra=[extra("end-to-end", "c13")])
prop("C15", [step("count", IN("COUNT"), "COUNT")], ["modules/inter/COUNT.c: cbcreate cbconv cbdestroy"], extra=[extra("end-to-end", "c15")], level="exploration")
prop("C23", [step("pass-inter", IN("PASS"), "PASSI", ["-DNCALLS=3"]), step("pass-to", TO("PASS"), "PASST"), step("pass-from", FR("PASS"), "PASSF"), step("null-inter", IN("NULL"), "NULL"), step("null-to", TO("NULL"), "NULL", ["-DNULLTO"]),
             step("insert", IN("INSERT"), "INSERT", bound=BL), step("any-from", FR("ANY"), "ANY", bound=BL), step("any-to", TO("ANY"), "ANY", ["-DANYTO"], bound=BL),
             *[step("replace/matched=%d" % k, IN("REPLACE"), "REPLACE", ["-DNCALLS=%d" % (k + 1), "-DSTATES"], bound=BL) for k in range(2)]],
     ["modules/inter/REPLACE.c, INSERT.c, PASS.c, NULL.c, modules/from/ANY.c, PASS.c, modules/to/ANY.c, PASS.c, NULL.c"], level="exploration", extra=[extra("end-to-end", "c23")])

# ---- C14, C15
def hist(name, h, ops, xops, txops):
    return [Unit("%s/history" % name, LIB, h, LDEF + ["-DNOPS=%d" % ops], unwind=5, hunwind=ops + 2, bound="histories of %d operations on names of at most 2 characters" % ops),
            Unit("%s/every-history" % name, LIB, h, LDEF + ["-DNOPS=%d" % xops, "-DXH"], exhaust="every history of %d operations over a set of similar names" % xops),
            Unit("%s/every-longer-history" % name, LIB, h, LDEF + ["-DNOPS=%d" % txops, "-DXH"], tier="thorough", exhaust="every history of %d operations over a set of similar names" % txops)]
prop("C14", hist("hash", "hash.c", 3, 5, 6), ["src/libbsdconv_hash.c: bsdconv_hash_set, _get, _has, _del"], level="exploration")
PROPS["C15"]["units"] += hist("counter", "counter.c", 3, 5, 6); PROPS["C15"]["functions"] += ["src/libbsdconv_counter.c: bsdconv_counter bsdconv_counter_reset (bounded histories)"]

# ---- C16
OPS = {1: "insert_phase", 2: "insert_codec", 3: "replace_phase", 4: "replace_codec"}
prop("C16", [Unit("positions", LIB, "edit.c", LDEF + ["-DOP=0"])] +
     [Unit("%s/phases=%d" % (n, z), LIB, "edit.c", LDEF + ["-DOP=%d" % k, "-DNP=%d" % z], unwind=7, hunwind=7, native=False, stub=["bsdconv_unpack", "bsdconv_pack"], tier="quick" if z == 2 else "thorough", bound="conversions of at most %d phases of at most 2 codecs" % z) for k, n in OPS.items() for z in (2, 3)] +
     [Unit("%s/strings" % n, LIB, "edit.c", LDEF + ["-DOP=%d" % k, "-DNP=4"], exhaust="every conversion of at most 4 phases of at most 2 codecs, with and without arguments for two of them, every position") for k, n in OPS.items()] +
     [Unit("unpack-pack", LIB, "edit.c", LDEF + ["-DOP=5", "-DXL=6"], exhaust="every string of at most 6 characters over {a , : | # b}"),
      Unit("unpack-pack/longer", LIB, "edit.c", LDEF + ["-DOP=5", "-DXL=7"], tier="thorough", exhaust="every string of at most 7 characters over {a , : | # b}")],
     ["src/libbsdconv_util.c: bsdconv_get_phase_index bsdconv_get_codec_index (proved), bsdconv_insert_phase bsdconv_insert_codec bsdconv_replace_phase bsdconv_replace_codec", "src/libbsdconv.c: bsdconv_unpack bsdconv_pack"], level="exploration")

# ---- C09
prop("C09", [Unit("str2datum", LIB, "hex.c", LDEF + ["-DKIND=1", "-DNS=6"], unwind=10, hunwind=9, bound="text of at most 6 characters"),
             Unit("str2data", LIB, "hex.c", LDEF + ["-DKIND=2", "-DNS=5", "-DNOPOOL"], unwind=7, hunwind=8, bound="text of at most 5 characters"),
             Unit("str2datum/every-text", LIB, "hex.c", LDEF + ["-DKIND=1", "-DNS=6", "-DXH"], exhaust="every text of at most 6 characters over {0 a F . g 9}"),
             Unit("str2data/every-text", LIB, "hex.c", LDEF + ["-DKIND=2", "-DNS=6", "-DXH"], exhaust="every text of at most 6 characters over {0 a F . g 9}"),
             Unit("str2data/every-longer-text", LIB, "hex.c", LDEF + ["-DKIND=2", "-DNS=7", "-DXH"], tier="thorough", exhaust="every text of at most 7 characters over {0 a F . g 9}"),
             Unit("decoder", FR("BSDCONV") if isinstance(FR("BSDCONV"), list) else [FR("BSDCONV")], "hex.c", ["-DKIND=3", "-DNS=6"], unwind=9, hunwind=9, bound="words of at most 3 bytes, behind at most 3 forgotten digits"),
             inc_unit("decoder/step", FR("BSDCONV"), "hex_step.c", ["-DNOPOOL"], unwind=5)],
     ["src/libbsdconv_util.c: str2datum str2data", "modules/from/BSDCONV.c: cbcreate cbinit cbconv cbflush cbdestroy"], level="exploration", extra=[extra("end-to-end","c09")])

# ---- C11
prop("C11", [Unit("ordering/first", [IN("_NF-ORDER")], "order.c", ["-DNCALLS=1"], unwind=12, hunwind=8)] +
     [Unit("ordering/behind=%s" % h, [IN("_NF-ORDER")], "order.c", ["-DNCALLS=%d" % (len(h) + 1), '-DHIST="%s"' % h], unwind=12, hunwind=8, tier="quick" if len(h) < 3 else "thorough", bound="any datum behind at most %d waiting marks" % (2 if len(h) < 3 else 3)) for h in ("1", "12", "21", "11", "123", "132", "213", "231", "312", "321", "112", "121", "211", "122", "212", "221", "111")],
     ["modules/inter/_NF-ORDER.c: cbcreate cbinit cbconv cbflush cbdestroy"], level="exploration", extra=[extra("end-to-end", "c11")])

# ---- C25
WS = ["=ws_derail.c", "=ws_rerail.c"]
prop("C25", [Unit("derail-one", WS, "ws.c", ["-DNDATA=1", "-DONE"], unwind=5, hunwind=5),
             Unit("there-and-back/short", WS, "ws.c", ["-DNDATA=4", "-DXH"], exhaust="every sequence of 4 data over the four kinds of white space and three other data, every hand-over schedule, order of initialisation and destruction, fresh or after abandoned input"),
             Unit("there-and-back/random", WS, "ws.c", ["-DNDATA=8"], bounded=True, rnd=150000),
             Unit("there-and-back/longer", WS, "ws.c", ["-DNDATA=5", "-DXH"], tier="thorough", exhaust="the same for 5 data")],
     ["modules/inter/WHITESPACE-DERAIL.c, WHITESPACE-RERAIL.c: cbcreate cbinit cbconv cbflush cbdestroy"], level="exploration", extra=[extra("end-to-end", "c25")])

# ---- C24
prop("C24", [Unit("ebcdic-decoder", [FR("EBCDIC")], "shift.c", ["-DKIND=1"], unwind=5, hunwind=7),
             Unit("ebcdic-encoder/first", [TO("EBCDIC")], "shift.c", ["-DKIND=2", "-DNSTEP=1"], unwind=5, hunwind=7),
             Unit("ebcdic-encoder", [TO("EBCDIC")], "shift.c", ["-DKIND=2", "-DNSTEP=2"], unwind=5, hunwind=7),
             Unit("iso-2022-jp/ascii", [FR("_JIS")], "shift.c", ["-DKIND=3", "-DONE"], unwind=5, hunwind=10)] +
            [Unit("iso-2022-jp/mode=%d/%s" % (m, n), [FR("_JIS")], "shift.c", ["-DKIND=3", "-DMODE=%d" % m, "-DB0=%d" % b, "-DONE"] + (["-DB1=%d" % c] if c else []), unwind=5, hunwind=10, tier="quick" if m in (1, 3, 5) else "thorough") for m in range(1, 6) for n, b, c in (("pair", 0x30, 0x21), ("half", 0x30, 256), ("single", 0x31, 0), ("escape", 0x1b, 0), ("other", 256, 0))] +
            [Unit("iso-2022-jp/history/mode=%d" % m, [FR("_JIS")], "shift.c", ["-DKIND=3", "-DMODE=%d" % m, "-DXH=0"], exhaust="two attempts from every mode over 12 bytes that matter (4 bytes, given up after any of them; then one), begun anew or not") for m in range(6)] +
            [Unit("iso-2022-jp/longer-history/mode=%d" % m, [FR("_JIS")], "shift.c", ["-DKIND=3", "-DMODE=%d" % m, "-DXH=11"], tier="thorough", exhaust="the same with two bytes in the second attempt") for m in range(6)],
     ["modules/from/EBCDIC.c, modules/to/EBCDIC.c, modules/from/_JIS.c: cbcreate cbinit cbconv cbflush cbdestroy"], extra=[extra("end-to-end", "c24")],
     assumptions=["the table lookup (get_offset, read_state; proved in C17) and loadcodec (dlopen) are represented by crafted tables: one single byte and one pair per character set"])

# ---- C26
prop("C26", [Unit("step/behind=%s" % (h or "nothing"), [IN("_NFC")], "nfc_step.c", ['-DHIST="%s"' % h], unwind=12, hunwind=8, bound=("any datum behind the history %s" % h) if len(h) > 1 else None, tier="quick" if len(h) < 3 else "thorough") for h in ("", "A", "A2", "A3", "Ab", "A22", "A23", "Ab3", "Abc", "A2A", "AAb", "A33")] +
     [Unit("sequences/short", [IN("_NFC")], "nfc.c", ["-DXH=0"], exhaust="every sequence of at most 4 data over two starters, three marks and a datum that is no code point, under 64 composition tables, fresh or after abandoned input"),
      Unit("sequences/longer", [IN("_NFC")], "nfc.c", ["-DXH=6"], tier="thorough", exhaust="the same for 5 data"),
      Unit("sequences/random", [IN("_NFC")], "nfc.c", [], bounded=True, rnd=200000)],
     ["modules/inter/_NFC.c: cbcreate cbinit cbconv cbflush cbdestroy"], level="exploration", extra=[extra("end-to-end", "c26")],
     assumptions=["the nested instance that looks pairs up (bsdconv_create, bsdconv_init, bsdconv, bsdconv_destroy; C17-C22) is represented by its contract", "no earlier mark that a starter does not take is taken by what a later mark makes of it (checked of the composition table by the end-to-end part)"])

# ---- C27
C27B = "%d file(s), at most 2 reads that return data per file (any length, any byte), any of the calls failing"
prop("C27", [Unit(n, ["=inplace_src.c"], "inplace.c", ["-DNF=%d" % f, "-DINPLACE=%d" % m], unwind=5, hunwind=10, maxunwind=14, leak=False, bound=C27B % f, timeout=400, rnd=100000, tier=t,
                  unwindset=["strcat.0:10", "strcat.1:10", "strcpy.0:10", "strlen.0:10", "strcmp.0:5", "tool_main.1:%d" % (f + 1)]) for n, f, m, t in (("in-place/one-file", 1, 1, "quick"), ("in-place/two-files", 2, 1, "quick"), ("not-in-place", 1, 0, "quick"))],
     ["src/bsdconv.c: main bsdconv_file"], level="exploration", extra=[extra("kill-points", "c27")],
     assumptions=["the contents of the file system change at no other moment than during a system call; rename() replaces the entry atomically (POSIX); fclose() returning 0 means that what was written is in the file",
                  "stdio, the file-system calls and the library (bsdconv_create, bsdconv_init, bsdconv, bsdconv_destroy; C18, C21, C22) are represented by their contracts in contracts/inplace.c", "power loss (fsync) is not part of the statement"])

# ---- C29
prop("C29", [Unit("create/short-strings", ["=create_src.c"], "create.c", LDEF + ["-DL=5"], exhaust="every conversion string of at most 5 characters over a b x , : | # & = and blank, with and without one failure at any of the first opens, mappings or creations"),
             Unit("create/longer-strings", ["=create_src.c"], "create.c", LDEF + ["-DL=14", "-DBIAS"], bounded=True, rnd=1000000),
             Unit("create/strings-of-6", ["=create_src.c"], "create.c", LDEF + ["-DL=6"], tier="thorough", exhaust="the same for at most 6 characters")] +
            [Unit("create/%s" % t, ["=create_src.c"], "create.c", LDEF + ["-DL=%d" % len(t), '-DFIXED="%s"' % t], unwind=8, hunwind=20, maxunwind=24, timeout=300, bound="this conversion string, any failure point", rnd=2000) for t in ("a:b", "a,a:a", "a#b:ba", "a:b|a:b", "a::b", "a#a=b&b,a:b")],
     ["src/libbsdconv.c: bsdconv_create bsdconv_unpack _cbcreate loadcodec _loadcodec unloadcodec bsdconv_destroy"], level="exploration", extra=[extra("aliases","c29")],
     assumptions=["the file system, the dynamic loader and the callbacks of the modules are represented by their contracts in contracts/create.c"])
