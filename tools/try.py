#!/usr/bin/env python3
"""Development: random traces of profiles.  try.py N PROFILE..."""
import sys, random, json
import vlib, gen
n = int(sys.argv[1])
prof = sys.argv[2:] or list(gen.PROFILES)
seed = int(__import__("os").environ.get("SEED", "1"))
b, = vlib.build("term")
sc = []
for p in prof:
    for i in range(n):
        r = random.Random("%s-%d-%d" % (p, i, seed))
        s = getattr(gen, p + "_script")(r) if p.islower() else gen.script(p, r, 40)
        sc.append(("%s-%d" % (p, i), "", [o[0] for o in s]))
src = {s[0]: s[2] for s in sc}
good, bad = vlib.harness_parallel(b, sc)
for k, v in bad.items():
    print("CRASH", k, v)
try:
    mm, st = vlib.validate(list(good.values()), timeout=300)
except vlib.Inconclusive as e:
    print(e); vlib.cleanup(); sys.exit(1)
print(st, len(mm), "mismatches of", len(good))
for k, d in sorted(mm.items(), key=lambda x: x[1]["step"])[:int(__import__("os").environ.get("SHOW", "6"))]:
    print("==", k, d["step"], d["op"], d["diffs"])
    print("\n".join(src[k][:d["step"] + 1][-14:]))
    x = d["detail"]
    for f in ("spec", "real", "vspec", "vreal", "espec", "ereal", "rspec", "rreal", "t", "row"):
        if x[f] not in ([], [[], []]): print("  ", f, x[f])
    for i, (a, c) in enumerate(zip(x["rowspec"], x["rowreal"])):
        if a != c: print("   col", i, a, c)
vlib.cleanup()
