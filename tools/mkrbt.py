#!/usr/bin/env python3
"""Writes h/rbt_shapes.h: every red-black tree of at most 7 nodes (shape and
colours), as constant tables in in-order numbering."""
import os
from functools import lru_cache
@lru_cache(None)
def trees(n, bh, red):
    """trees of n nodes, black height bh, root colour red; None = nil"""
    if n == 0: return (None,) if bh == 0 and not red else ()
    out = []
    for l in range(n):
        if red: subs = [(bh, 0)]
        else: subs = [(bh - 1, c) for c in (0, 1)]
        for hb, _ in subs[:1]:
            if hb < 0: continue
            cs = (0,) if red else (0, 1)
            for cl in cs:
                for cr in cs:
                    for a in trees(l, hb, cl):
                        for b in trees(n - 1 - l, hb, cr): out.append((red, a, b))
    return tuple(out)
def num(t, base):
    """-> (root index, list of (index, left, right, red)); -1 = nil"""
    if t is None: return -1, [], 0
    red, a, b = t
    la, na, ca = num(a, base); me = base + ca
    lb, nb, cb = num(b, me + 1)
    return me, na + [(me, la, lb, red)] + nb, ca + 1 + cb
rows = []
for n in range(8):
    for bh in range(0, 5):
        for t in trees(n, bh, 0):
            r, nodes, c = num(t, 0); assert c == n
            rows.append((n, r, nodes))
o = ["/* Generated by tools/mkrbt.py: all red-black trees of at most 7 nodes. */", "#define NSHAPES %d" % len(rows),
     "static const struct { int n, root; struct { signed char l, r, red; } nd[7]; } SHAPES[NSHAPES] = {"]
for n, r, nodes in rows: o.append("    {%d, %d, {%s}}," % (n, r, ", ".join("{%d, %d, %d}" % (a, b, c) for _, a, b, c in nodes) or "{0}"))
o += ["};"]; L = [0] * 9
k = 0
for n in range(9):
    o.append("#define SHAPES_UPTO%d %d" % (n - 1, k)) if n else None
    while k < len(rows) and rows[k][0] == n: k += 1
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "h", "rbt_shapes.h"), "w").write("\n".join(o) + "\n")
print(len(rows))
