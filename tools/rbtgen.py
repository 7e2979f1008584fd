#!/usr/bin/env python3
"""Enumerate every red-black tree of at most N nodes (default 7), keys 0..n-1 in
order: one line per tree, { nodes, root, {left}, {right}, red mask }."""
import sys
from functools import lru_cache

N = int(sys.argv[1]) if len(sys.argv) > 1 else 7

@lru_cache(None)
def trees(lo, hi):
    """(black height, root is red, tree) for the keys lo..hi-1; tree = (key, red, l, r)."""
    if lo == hi:
        return [(0, False, None)]
    out = []
    for k in range(lo, hi):
        for bl, rl, l in trees(lo, k):
            for br, rr, r in trees(k + 1, hi):
                if bl != br:
                    continue
                out.append((bl + 1, False, (k, False, l, r)))
                if not rl and not rr:
                    out.append((bl, True, (k, True, l, r)))
    return out

def emit(n, t):
    L = [-1] * N; R = [-1] * N; m = 0
    def go(t):
        nonlocal m
        if t is None:
            return -1
        k, red, l, r = t
        if red:
            m |= 1 << k
        L[k] = go(l); R[k] = go(r)
        return k
    root = go(t)
    print("{%d,%d,{%s},{%s},%d}," % (n, root, ",".join(map(str, L)), ",".join(map(str, R)), m))

print("/* all red-black trees of at most %d nodes: nodes, root, left, right, red mask (tools/rbtgen.py) */" % N)
for n in range(N + 1):
    for bh, red, t in trees(0, n):
        if not red:
            emit(n, t)
