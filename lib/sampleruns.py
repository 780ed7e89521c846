"""S03, S04: integrating the sample problems; judged by spec/SampleRun.tla, whose references spec/SampleRefMC.tla ties to
the equations of spec/Samples.tla."""
import json, os, random, re
from common import *
import ida


def table(name):
    """Rows of a table of spec/SampleRef.tla."""
    txt = open(os.path.join(SPEC, "SampleRef.tla")).read()
    body = txt[txt.index(name + " == <<"):].split("\n\n")[0]
    rows = []
    for line in body.splitlines()[1:]:
        v = [float(x) for x in re.findall(r'"([^"]+)"', line)]
        if not v:
            break
        rows.append(v)
    return rows


def calls(rng, times, last):
    """Forward sequences of requests: normal mode at some of the times, one-step mode in between."""
    out, past = [], 0.0
    for t in times:
        if past < t < last and rng.random() < rng.choice([.05, .3, .6]):
            out.append(["N", t, 3])
            if rng.random() < .1:
                past = min(t * rng.uniform(1.001, 1.2), last)
                out.append(["N", past, 1])
            if rng.random() < .15:
                out.append(["O", last, rng.randrange(1, 60)])
                break
    # one-step calls may have gone past what would come next: from here on only the end
    if rng.random() < .3:
        out.append(["O", last, rng.randrange(1, 3000)])
    return out + [["N", last, 12]]


def run(prop):
    rng = random.Random(SEED * 49979687)
    d = workdir(prop)
    try:
        # IOEnv.TRACES is not looked at
        t1 = design_check(prop, "SampleRefMC", "SPECIFICATION RefSpec\nINVARIANT RobPoint\nINVARIANT CrankPoint\nINVARIANT CrankMotion\nCHECK_DEADLOCK FALSE\n")
        log("reference", t1.distinct)
        bins = ida.build()
        rob, crk = table("RobertsRef"), table("CrankRef")
        src = {}
        for i in range((1500 if THOROUGH else 160)):
            k = "s%d" % (i + 1)
            # (the mechanism is of index 2: with tighter tolerances the rounding of y over the first step is too much for the multipliers)
            r = 10 ** -(rng.uniform(3, 7) if prop == "S03" else rng.uniform(3, 5.3))
            if prop == "S03":
                f = r / 1e-4
                a = rng.choice([[1e-8 * f, 1e-6 * f, 1e-6 * f], [1e-8 * f, 1e-10 * f, 1e-6 * f], [1e-8 * f, 1e-14, 1e-6 * f], [1e-9 * f]])
                T = [x[0] for x in rob]
                if i == 0:              # the example that comes with the crate
                    r, a = 1e-4, [1e-8, 1e-6, 1e-6]
                last = 4e10 if rng.random() < .7 else rng.choice(T[20:])
                cs = [["N", .4 * 10.0 ** e, 2] for e in range(12)] if i == 0 else calls(rng, T, last)
                src[k] = {"id": k, "prob": "roberts", "y0": [1, 0, 0], "yp0": [-.04, .04, 0], "r": r, "a": a, "times": T, "calls": cs}
            else:
                a = [r * 10 ** rng.uniform(-1, .5)]
                if rng.random() < .5:
                    a = [a[0] * 10 ** rng.uniform(-.3, .3) for _ in range(10)]
                T = [x[0] for x in crk[1:]]
                last = 12.0 if rng.random() < .6 else rng.choice(T[10:])
                src[k] = {"id": k, "prob": "crank", "y0": crk[0][1:11], "yp0": crk[0][4:7] + crk[0][11:14] + [0] * 4, "r": r, "a": a,
                          "times": T, "mask": [True] * 6 + [False] * 4, "calls": calls(rng, T, last)}
        ip, tp = os.path.join(d, "in"), os.path.join(d, "traces.ndjson")
        with open(ip, "w") as f:
            f.write("\n".join(map(json.dumps, src.values())) + "\n")
        with open(tp, "w") as f:
            r = sh([os.path.join(bins, "course"), ip], timeout=400, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs = [json.loads(x) for x in open(tp)]
        if recs and recs[-1]["ev"] and recs[-1]["ev"][-1]["out"] == "hang":
            raise Violation("the integration does not return", {"scenario": src[recs[-1]["id"]]})
        if len(recs) != len(src):
            raise ToolError("%d of %d runs recorded" % (len(recs), len(src)))
        n = sum(len(x["ev"]) for x in recs)
        log("integrated", len(recs), n)
        t = tlc("SampleRun", None, cfgtext="SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop, env={"TRACES": tp})
        if t.rc != 0:
            if not t.bad:
                raise ToolError(t.out[-3000:])
            sid, pos = t.bad[0][1], int(t.bad[0][2])
            e = next(x for x in recs if x["id"] == sid)["ev"][pos - 1]
            raise Violation("run %s: event %d (%s, %s) is not what the sample problem's solution gives" % (sid, pos, e["e"], e["out"]),
                            {"scenario": src[sid], "record": e})
        if t.distinct != n + len(recs):
            raise ToolError("TLC visited %d states for %d events" % (t.distinct, n))
        outs = {}
        for x in recs:
            for e in x["ev"]:
                outs[e["out"]] = outs.get(e["out"], 0) + 1
        return ({"states": t1.distinct + t.distinct, "transitions": t1.generated + t.generated, "traces_validated_against_impl": len(recs),
                 "events": n, "outcomes": outs, "samples": [src["s1"]]},
                ["the integrator is built from /repo/src with stand-ins for the old ndarray and failure crates (see DESIGN.md)",
                 "the mechanism is given a Jacobian by central differences, the crate has none for it"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
