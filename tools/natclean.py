#!/usr/bin/env python3
"""Sanity check of the machinery: natively searching every unit's harness on the
unchanged tree must find nothing (otherwise a structural fallback would raise a
false alarm)."""
import os, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "vf"))
import run, specs
bad = 0
for p in sys.argv[1:] or specs.REG:
    seen = set()
    for u in specs.units(p, "quick")[0]:
        while u:
            if u.name not in seen and not u.nofuzz and not u.fallback:
                seen.add(u.name); wd = tempfile.mkdtemp(); exe, c = run.native_build(u, wd)
                R = dict(notes=[])
                if not exe: print(p, u.name, "BUILD", str(c)[-500:]); bad = 1
                else:
                    r = run.fuzz(u, exe, wd, R, 4); print(p, u.name, R["notes"][-1:], flush=True)
                    if r: print("   FOUND", r["native"][-300:]); bad = 1
                run.shutil.rmtree(wd)
            u = u.fallback
sys.exit(bad)
