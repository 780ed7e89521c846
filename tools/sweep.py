#!/usr/bin/env python3
"""sweep.py FROM TO: all integrator properties over many seeds at once (looks for alarms on the
unchanged tree; not part of any check)."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common, ida
import shutil, json
from common import *

bins = ida.build() if "nobuild" not in sys.argv else os.path.join(BUILD, "hida", "debug")
for seed in range(int(sys.argv[1]), int(sys.argv[2])):
    d = workdir("sweep%d" % seed)
    rng = random.Random(seed * 31337)
    g = ida.Gen(rng.randrange(1 << 40))
    for f, n in ida.FAMILIES[:-1]:
        f(g, n)
    for p in ida.MONITORED:
        for name in ida.FOCUS.get(p, []):
            if name != "flat" and rng.random() < .5:
                f, n = ida.FAMILIES[ida.BYNAME[name]]
                f(g, n)
    tp = ida.execute(bins, g.out, os.path.join(d, "mon"), "m")
    t = tlc("IdaObs", None, cfgtext="SPECIFICATION JudgeSpec\nCONSTANT Props = {%s}\nCHECK_DEADLOCK FALSE\n" %
            ",".join('"%s"' % p for p in ida.MONITORED), env={"TRACES": tp}, heap="12g", workers=4, timeout=3000)
    print("seed", seed, "mon", len(g.out), t.rc, t.distinct, sorted(t.bad, key=lambda b: int(b[2]))[:6], flush=True)
    keep = set(b[1] for b in t.bad)
    if keep:
        shutil.copy(tp, os.path.join(BUILD, "sweep-%d.ndjson" % seed))
        json.dump([s for s in g.out if s["id"] in keep], open(os.path.join(BUILD, "sweep-%d.json" % seed), "w"))
    for p in ("I03", "I14", "I15", "I17"):
        try:
            c = ida.paired(bins, d, p, rng, 240)
            print("seed", seed, p, c["pair_events"], flush=True)
        except Violation as v:
            print("seed", seed, p, "BAD", v.what, flush=True)
            json.dump(v.replay, open(os.path.join(BUILD, "sweep-%d-%s.json" % (seed, p)), "w"))
    shutil.rmtree(d, ignore_errors=True)
