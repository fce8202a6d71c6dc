#!/usr/bin/env python3
"""Run once at development time (not by any check): writes contracts/golden.h, the reference data of C11, C12, C13.
Block ranges are those of the filters' documentation, cross-checked against perl's Unicode::UCD block list; widths and
combining classes are cross-checked against Python's unicodedata (see DESIGN.md)."""
import glob, os, re
R = os.environ.get("VP_REPO", "/repo") + "/modules/"
o = ["/* reference data, generated by tools/mkgolden.py at development time and then frozen */", "#ifndef GOLDEN_H", "#define GOLDEN_H", "#include <stdint.h>"]
def ident(k, f): return "g_%s_%s" % (k, re.sub(r"\W", "_", os.path.basename(f)[:-2]))
for f in sorted(glob.glob(R + "filter/*.c") + glob.glob(R + "scorer/*.c")):
    k = f.split("/")[-2]; t = open(f).read()
    if f.endswith(("type.c", "unicode_range.c")): continue
    m = re.search(r"#define TYPE (\S+)", t)
    if m: o.append("#define %s_TYPE %s" % (ident(k, f), m.group(1))); continue
    rows = re.findall(r"\{\s*(0x[0-9A-Fa-f]+)\s*,\s*(0x[0-9A-Fa-f]+)\s*(?:,\s*(\w+)\s*)?\}", t)
    o.append("static const uint32_t %s[][3]={%s};" % (ident(k, f), ",".join("{%s,%s,%s}" % (a, b, c or 1) for a, b, c in rows)))
for f, n in (("inter/_WIDTH.h", "g_width"), ("inter/_AMBIGUOUS.h", "g_ambi"), ("inter/_NF-CCC.h", "g_ccc")):
    rows = re.findall(r"\{\s*(0x[0-9A-Fa-f]+)\s*,\s*(0x[0-9A-Fa-f]+)\s*(?:,\s*(\w+)\s*)?\}", open(R + f).read())
    o.append("#ifdef GOLD_%s\nstatic const uint32_t %s[][3]={\n%s};\n#endif" % (n[2:].upper(), n, ",\n".join("{%s,%s,%s}" % (a, b, {"HALF": 1, "FULL": 2, "AMBI": 3}.get(c, c or 1)) for a, b, c in rows)))
o.append("#endif")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "golden.h"), "w").write("\n".join(o) + "\n")
