"""S01, S02: the sample problems, judged by spec/Samples.tla."""
import json, math, os, random
from common import *
from dense import hx
import ida


def run(prop):
    rng = random.Random(SEED * 86028121)
    d = workdir(prop)
    try:
        bins = ida.build()
        lines, cls = {}, {}

        def put(c, kind, t, cj, y, p):
            i = "s%d" % (len(lines) + 1)
            lines[i] = "%s %s %s" % (i, kind, " ".join(map(hx, [t, cj] + y + p)))
            cls[c] = cls.get(c, 0) + 1
        T = 10 if THOROUGH else 1
        if prop == "S01":
            g = [-1.0, 0.0, 0.5, 2.0]
            for a in g:
                for b in g:
                    for c in g:
                        put("grid", "roberts", 0.0, a + 3.0, [a, b, c], [c, a, b])
            for _ in range(400 * T):
                e = rng.choice([0, 3, 8])
                r = lambda: rng.uniform(-1, 1) * 2.0 ** rng.randrange(-e, e + 1)
                put("random", "roberts", r(), r() * 10.0 ** rng.randrange(-6, 7), [r() for _ in range(3)], [r() for _ in range(3)])
                y2, y3 = rng.uniform(0, 4e-5), rng.uniform(0, 1)
                put("physical", "roberts", 10.0 ** rng.uniform(-3, 10), 10.0 ** rng.uniform(-10, 6),
                    [1 - y2 - y3, y2, y3], [rng.uniform(-.04, 0), rng.uniform(-.01, .04), rng.uniform(0, .04)])
                put("at an event", "roberts", 0.4, 1.0, [1e-4 * rng.choice([1, 1, 2, .5]), y2, 0.01 * rng.choice([1, 1, 2, .5])], [0.0, 0.0, 0.0])
        else:
            while len(lines) < 1200 * T:
                far = rng.choice([1.0, 1.0, 10.0])
                q, p = rng.uniform(-3.2, 3.2) * far, rng.uniform(-3.2, 3.2) * far
                x = rng.uniform(-2, 2)
                consistent = rng.random() < .4
                if consistent:
                    p = math.asin(-0.5 * math.sin(q))
                    x = math.cos(p) + 0.5 * math.cos(q)
                l = math.hypot(x - math.cos(p) / 2 - math.cos(q) / 4, math.sin(p) / 2 + math.sin(q) / 4)
                if l < .05:
                    continue
                z = lambda: rng.choice([0.0, 1.0, -1.0, rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-2, 2)])
                put("closed loop" if consistent else "anywhere", "crank", z(), z(), [q, x, p] + [z() for _ in range(7)], [z() for _ in range(10)])
        ip, tp = os.path.join(d, "in"), os.path.join(d, "traces.ndjson")
        with open(ip, "w") as f:
            f.write("\n".join(lines.values()) + "\n")
        with open(tp, "w") as f:
            r = sh([os.path.join(bins, "samples"), ip], timeout=200, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs = [json.loads(x) for x in open(tp)]
        if recs and recs[-1].get("hang"):
            raise Violation("sample problem does not return", {"input": lines[list(lines)[len(recs) - 1]]})
        t = tlc("Samples", None, cfgtext="SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop, env={"TRACES": tp})
        if t.rc != 0:
            if not t.bad:
                raise ToolError(t.out[-3000:])
            sid = t.bad[0][1]
            raise Violation("case %s departs from the documented problem" % sid,
                            {"input": lines[sid], "record": next(x for x in recs if x["id"] == sid)})
        if t.distinct != 2 * len(recs):
            raise ToolError("TLC visited %d states for %d cases" % (t.distinct, len(recs)))
        return ({"states": t.distinct, "transitions": t.generated, "traces_validated_against_impl": len(recs),
                 "classes": cls, "samples": [recs[0], lines["s1"]]},
                ["the integrator is built from /repo/src with stand-ins for the old ndarray and failure crates (see DESIGN.md)"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
