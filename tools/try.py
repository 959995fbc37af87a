#!/usr/bin/env python3
"""try.py PROP [SECONDS [FIRSTSEED]]: runs seeds and lists violations by signature, without minimising."""
import sys, os, collections
sys.path.insert(0, "/verif")
import check, build as builder
exe = builder.build()
prop = sys.argv[1]
secs = float(sys.argv[2]) if len(sys.argv) > 2 else 10
first = int(sys.argv[3]) if len(sys.argv) > 3 else 1000003
sim = check.Sim(exe)
import time
t = time.time()
runs, cov = sim.batch(prop, first, 1000000, secs)
dt = time.time() - t
sig = collections.OrderedDict()
faults, probes = collections.Counter(), collections.Counter()
for r in runs:
    for k, v in r.faults.items(): faults[k] += v
    for k, v in r.probes.items(): probes[k] += v
    for p, v in r.viol:
        sig.setdefault(check.signature(v), []).append((r.label, v))
slow = sorted(((float(r.wall or 0), r.label) for r in runs), reverse=True)[:3] if hasattr(runs[0], "wall") else ""
print("BROKEN", len(check.BROKEN)) if check.BROKEN else None
print("%d runs %.0f/s" % (len(runs), len(runs) / dt), "blocks reached", len(cov), "slow", slow)
print("faults", dict(faults))
print("probes", dict(probes))
for s, h in sorted(sig.items(), key=lambda x: -len(x[1])):
    print("%5d  %s   [%s]" % (len(h), h[0][1][:300], " ".join(x[0][5:] for x in h[:4])))
sim.close()
