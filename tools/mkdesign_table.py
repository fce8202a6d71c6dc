#!/usr/bin/env python3
"""Prints the unit table of DESIGN.md (section 5) from vp/units.py."""
import os, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "vp"))
import units
for p, s in sorted(units.PROPS.items()):
    g = collections.OrderedDict()
    for u in s["units"]:
        k = ("native, exhaustive: " + u.exhaust) if u.exhaust else "native, random" if u.bounded else ("verified within bound: " + u.bound) if u.bound else "proved"
        g.setdefault(k, []).append(u)
    print("**%s** (%s)" % (p, s["level"]))
    for k, us in g.items():
        n = [u.name + ("" if u.tier == "quick" else "*") for u in us]
        print("- %s: %s" % (k, ", ".join(n[:8]) + (", ... (%d units)" % len(n) if len(n) > 8 else "")))
    for x in s.get("extra", []): print("- end to end (bounded): `%s`" % (x[0] if isinstance(x, (tuple, list)) else getattr(x, "__name__", "oracle")))
    print()
