#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      run one check
   check.py --replay FILE                replay a recorded violation on the current tree"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, units
sys.setrecursionlimit(100000)
if sys.argv[1] == "--replay":
    r = json.load(open(sys.argv[2])); spec = units.PROPS[r["property"]]
    us = [u for u in spec["units"] if u.name == r.get("unit")]
    if not us: print(json.dumps(r, indent=1)); sys.exit(0)
    d = tempfile.mkdtemp()
    if us[0].gen: us[0].gen(d)
    exe, err = driver.build_native(us[0], d)
    print(driver.run([exe, "replay"] + [str(x) for x in (r["inputs"] or [])], 60, env=driver.ASAN_ENV)[:3] if exe else err)
    shutil.rmtree(d); sys.exit(0)
prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
sys.exit(driver.check(prop, units.PROPS[prop], tier, 840 if tier == "thorough" else 780))
