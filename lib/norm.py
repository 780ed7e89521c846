"""W01: weighted RMS norm of the nonlinear crate; W02: those of the integrator; judged by spec/NormObs.tla."""
import json, os, random
from common import *
from dense import hx

STATIC = [1, 2, 3, 4, 5, 7, 16, 33, 65]


def run(prop):
    rng = random.Random(SEED * 15485863)
    d = workdir(prop)
    try:
        if prop == "W02":
            import ida
            bins, prog = ida.build(), "inorm"
        else:
            bins, prog = build_core(), "norm"
        lines, cls = {}, {}

        def put(c, x, w, kinds="sdv"):
            n = len(x)
            if prop == "W02":
                for k in {"s": "pm", "d": "mj", "sd": "pmij", "sdv": "pmvqij"}[kinds]:
                    if k in "ij" and n > 10:
                        continue
                    i = "n%d" % (len(lines) + 1)
                    mask = [rng.choice("01") for _ in range(n)]
                    lines[i] = "%s %s %d %s %s %s" % (i, k, n, " ".join(map(hx, x)), " ".join(map(hx, w)), " ".join(mask))
                    cls[c] = cls.get(c, 0) + 1
                return
            for k in kinds:
                if k == "s" and n not in STATIC:
                    continue
                i = "n%d" % (len(lines) + 1)
                lines[i] = "%s %s %d %s %s" % (i, k, n, " ".join(map(hx, x)), " ".join(map(hx, w)))
                cls[c] = cls.get(c, 0) + 1

        t = 6 if THOROUGH else 1
        vals = [-2.0, -1.0, 0.0, 0.5, 3.0]
        for a in vals:                       # all sign and zero patterns of short vectors
            for b in vals:
                put("grid", [a], [b])
                for c in vals:
                    put("grid", [a, c], [b, 2.0], "s")
                    put("grid", [a, c, 1.0], [b, -1.0, 0.25], "d")
        for n in STATIC + [6, 9, 50, 129, 258, 1000] + ([4097] if THOROUGH else []):
            for _ in range(6 * t if n < 200 else 2):
                r = lambda e: rng.uniform(-1, 1) * 2.0 ** rng.randrange(-e, e + 1)
                x, w = [r(3) for _ in range(n)], [abs(r(6)) for _ in range(n)]
                put("random", x, w)
                put("wide range", [r(100) for _ in range(n)], [r(100) for _ in range(n)])
                s = 2.0 ** rng.choice([-220, -120, -60, 60, 120, 220])
                put("scaled", [v * s for v in x], w)
                put("signs", [-v for v in x], w, "d")
                p = list(range(n))
                rng.shuffle(p)
                put("reordered", [x[i] for i in p], [w[i] for i in p], "d")
                put("masked", x, [v if rng.random() < .5 else 0.0 for v in w], "sd")
                j = rng.randrange(n)
                put("one component", [v if i == j else 0.0 for i, v in enumerate(x)], w, "sd")
                put("constant", [x[0]] * n, [w[0]] * n, "sd")
        ip, tp = os.path.join(d, "in"), os.path.join(d, "traces.ndjson")
        with open(ip, "w") as f:
            f.write("\n".join(lines.values()) + "\n")
        with open(tp, "w") as f:
            r = sh([os.path.join(bins, prog), ip], timeout=200, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs = [json.loads(x) for x in open(tp)]
        if recs and recs[-1].get("hang"):
            k = list(lines)[len(recs) - 1]
            raise Violation("norm does not return", {"input": lines[k]})
        t3 = tlc("NormObs", None, cfgtext="SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop,
                 env={"TRACES": tp})
        if t3.rc != 0:
            if not t3.bad:
                raise ToolError(t3.out[-3000:])
            sid = t3.bad[0][1]
            raise Violation("norm of case %s is not the weighted RMS norm" % sid,
                            {"input": lines[sid], "record": next(x for x in recs if x["id"] == sid)})
        if t3.distinct != 2 * len(recs):
            raise ToolError("TLC visited %d states for %d cases" % (t3.distinct, len(recs)))
        return ({"states": t3.distinct, "transitions": t3.generated,
                 "traces_validated_against_impl": len(recs), "classes": cls,
                 "samples": [recs[0], lines["n1"]]},
                ["no overflow or underflow of the squared products"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
