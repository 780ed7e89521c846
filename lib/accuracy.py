"""I23: the computed solution against known ones, judged by spec/Accuracy.tla."""
import json, math, os, random
from common import *
from dense import hx
import ida


def course(c, t):
    a0, a1, a2, b, w, e, d = c
    return a0 + a1 * t + a2 * t * t + b * math.sin(w * t) + e * math.exp(-d * t)


def slope(c, t):
    a0, a1, a2, b, w, e, d = c
    return a1 + 2 * a2 * t + b * w * math.cos(w * t) - e * d * math.exp(-d * t)


def problem(rng, kind):
    n = {"osc": 2}.get(kind) or rng.choice([1, 2, 2, 3, 4])
    if kind == "dae":
        n = max(n, 2)
    made = []
    for i in range(n):
        c = [rng.uniform(-2, 2), 0.0, 0.0, 0.0, 1.0, 0.0, 1.0]
        for f in rng.sample("psep", rng.randrange(1, 3)):
            if f == "p":
                c[1], c[2] = rng.uniform(-1, 1), rng.choice([0.0, rng.uniform(-.3, .3)])
            elif f == "s":
                c[3], c[4] = rng.uniform(-2, 2), rng.choice([.5, 1.0, 2.0, 6.0])
            else:
                c[5], c[6] = rng.uniform(-2, 2), rng.choice([.2, 1.0, 5.0])
        l = {"decay": [1.0, 5.0], "stiff": [1.0, 30.0, 1000.0, 1e5], "quad": [0.0], "osc": [0.0, 0.1], "dae": [1.0, 10.0], "bend": [1.0, 3.0]}[kind]
        x = {"c": c, "l": rng.choice(l), "k": 0.0, "m": 0.0, "alg": False}
        if kind in ("decay", "stiff", "dae", "bend") and n > 1:
            x["m"] = rng.uniform(-.4, .4) * x["l"]
        made.append(x)
    if kind == "osc":
        w = rng.choice([.3, 1.0, 4.0])
        made[0]["m"], made[1]["m"] = w, -w
    if kind == "dae":
        for i in rng.sample(range(n), rng.randrange(1, n)):
            made[i]["alg"] = True
    if kind == "bend":
        # a quadratic term that pulls towards the course as long as that is positive
        for x in made:
            x["c"] = [abs(v) for v in x["c"][:3]] + [x["c"][3] * .3, x["c"][4], abs(x["c"][5]), x["c"][6]]
            x["c"][0] += .7
            x["k"] = rng.choice([.2, 1.0])
    return made


KINDS = ["decay", "stiff", "quad", "osc", "dae", "bend"]


def scenarios(g, n):
    rng = g.rng
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        made = problem(rng, kind)
        m = len(made)
        span = 10.0 ** rng.uniform(-.5, 1.0)
        sc = {"prob": {"kind": "made", "made": made}, "nls": "newton", "y0": [course(x["c"], 0.0) for x in made],
              "yp0": [slope(x["c"], 0.0) for x in made], "tol": g.tol(m, 3, 8), "only": ["ret", "getsol", "dky"], "budget": 20000}
        calls = []
        if rng.random() < .3:
            calls.append({"c": "tstop", "t": span * rng.uniform(.3, 1)})
        for _ in range(rng.randrange(3, 9)):
            dt = span / 6 * rng.uniform(.1, 2)
            u = rng.random()
            if u < .6:
                calls.append({"c": "solve", "m": "N", "t": {"ret": dt}})
            elif u < .8:
                calls.append({"c": "solve", "m": "O", "t": {"ret": span}, "rep": rng.randrange(1, 30)})
            else:
                calls += [{"c": "getsol" if rng.random() < .5 else "dky", "k": rng.choice([0, 0, 1]), "th": {"hu": rng.random()}} for _ in range(3)] if len(calls) > 1 else []
        sc["calls"] = calls + [{"c": "solve", "m": "N", "t": {"ret": span / 3}, "rep": 2}]
        if rng.random() < .4:
            j = rng.randrange(m)
            sc["prob"]["roots"] = [["comp", j, course(made[j]["c"], span * rng.uniform(.05, .9))]]
        if rng.random() < .4:
            sc["mirror"] = True
        if kind == "dae" and rng.random() < .5:
            sc["mask"] = [not x["alg"] for x in made]
        g.put(kind, **sc)


def run(prop):
    rng = random.Random(SEED * 32452843)
    d = workdir(prop)
    try:
        bins = ida.build()
        log("built")
        g = ida.Gen(rng.randrange(1 << 40))
        scenarios(g, 9000 if THOROUGH else 900)
        src = ida.execute(bins, g.out, os.path.join(d, "runs"), "a")
        tp, outs, n = os.path.join(d, "traces.ndjson"), {}, 0
        with open(tp, "w") as f:
            for sc, line in zip(g.out, open(src)):
                tr, made, tol = json.loads(line), sc["prob"]["made"], sc["tol"]
                ev = [e for e in tr["ev"] if e["e"] != "dky"]
                for e in ev:
                    outs[e["out"]] = outs.get(e["out"], 0) + 1
                n += len(ev)
                f.write(json.dumps({
                    "id": sc["id"], "mirror": sc["mirror"], "c": [list(map(hx, x["c"])) for x in made], "rtol": hx(tol["r"]),
                    "atol": list(map(hx, tol["a"] if tol["k"] == "sv" else tol["a"] * len(made))),
                    "judged": sc.get("mask", [True] * len(made)), "diff": [not x["alg"] for x in made],
                    "pull": not sc["id"].startswith(("quad", "osc")),
                    "stiff": hx(max(x["l"] + x["k"] + abs(x["m"]) for x in made)),
                    "ev": [{k: e[k] for k in ("e", "out", "tret", "yy", "yp", "hu", "nst")} for e in ev]}) + "\n")
        log("executed", n)
        t = tlc("Accuracy", None, cfgtext="SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop, env={"TRACES": tp})
        log("judged", t.distinct)
        if t.rc != 0:
            if not t.bad:
                raise ToolError(t.out[-3000:])
            sid, pos = t.bad[0][1], int(t.bad[0][2])
            raise Violation("run %s is off the known solution at event %d" % (sid, pos),
                            {"scenario": next(s for s in g.out if s["id"] == sid),
                             "record": next(x for x in map(json.loads, open(tp)) if x["id"] == sid)["ev"][pos - 1]})
        if t.distinct != n + len(g.out):
            raise ToolError("TLC visited %d states for %d events" % (t.distinct, n))
        return ({"states": t.distinct, "transitions": t.generated, "traces_validated_against_impl": len(g.out),
                 "events": n, "outcomes": outs, "classes": g.cls, "samples": [g.out[0]]},
                ["the integrator is built from /repo/src with stand-ins for the old ndarray and failure crates (see DESIGN.md)",
                 "smooth problems with errors that die out or add up; 1 to 4 components"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
