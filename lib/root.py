"""C01: Newton's method, the dense solver and the weighted norm put together find roots.
Design: spec/RootMC.tla (exact). Conformance: recorded sessions against spec/RootObs.tla."""
import json, os, random
from common import *
from dense import hx

DIMS = [1, 2, 3, 4, 5, 8, 12]


def system(rng, n, kind):
    """c r q A y0 w of one system; kinds say how hard it is."""
    c = list(range(n))
    if rng.random() < .7:
        rng.shuffle(c)
    ints = kind == "int"
    num = (lambda a: float(rng.randrange(-int(a), int(a) + 1))) if ints else (lambda a: rng.uniform(-a, a))
    r = [num(5) for _ in range(n)]
    A = [[num(2) / (1 if ints else n) for _ in range(n)] for _ in range(n)]
    if rng.random() < .3:
        A = [[v if rng.random() < .4 else 0.0 for v in row] for row in A]
    for i in range(n):
        o = sum(abs(v) for j, v in enumerate(A[i]) if j != c[i])
        A[i][c[i]] = rng.choice([-1, 1]) * (o + (rng.randrange(1, 5) if ints else rng.uniform(.8, 4)))
        s = 2.0 ** rng.randrange(-4, 5) if rng.random() < .3 else 1.0
        A[i] = [v * s for v in A[i]]
    q = [0.0] * n if kind == "linear" else [num(1) * rng.choice([.02, .1, .4]) * (8 if ints else 1) for _ in range(n)]
    if kind == "hard":
        q = [v * 20 for v in q]
    e = rng.choice([.01, .3, 1.0, 1.0, 3.0])
    y0 = [v + rng.uniform(-e, e) for v in r]
    if rng.random() < .1:
        y0 = list(r)
    if kind == "linear" and rng.random() < .5:
        y0 = [v + rng.uniform(-100, 100) for v in r]
    if kind == "wild":
        A = [[rng.uniform(-3, 3) for _ in range(n)] for _ in range(n)]
    if kind == "nopivot":       # dominance sits away from the diagonal and rows differ in size
        c = c[1:] + c[:1]
        A = A[1:] + A[:1]
        q = q[1:] + q[:1]
        c = [c[i] for i in range(n)]
    w = [rng.uniform(.2, 5) for _ in range(n)]
    if rng.random() < .3:
        w = [2.0 ** rng.randrange(-8, 9) for _ in range(n)]
    if rng.random() < .1:
        w = [v if rng.random() < .5 else 0.0 for v in w]
    if kind == "singular":
        k = rng.randrange(n)
        for i in range(n):
            A[i][k] = 0.0
            if c[i] == k:
                q[i] = 0.0
    return c, r, q, A, y0, w


def scale(rng, sy, n):
    """Other units: of the unknowns, x = 2^k z, and of all equations together."""
    c, r, q, A, y0, w = sy
    k = [rng.choice([-60, -20, 20, 60])] * n
    if rng.random() < .6:
        k = [rng.randrange(-60, 61) for _ in range(n)]
    s = [2.0 ** v for v in k]
    f = 2.0 ** rng.choice([-120, -30, 0, 0, 0, 30, 120])
    return k, (c, [v * u for v, u in zip(r, s)], [q[i] * f / s[c[i]] ** 2 for i in range(n)],
               [[v * f / u for v, u in zip(row, s)] for row in A],
               [v * u for v, u in zip(y0, s)], [v / u for v, u in zip(w, s)])


def cases(rng, t):
    lines, cls, sid = [], {}, 0
    src = {}
    for n in DIMS:
        for _ in range((150 if n < 6 else 50) * t):
            sid += 1
            maxit = rng.choice([1, 2, 3, 4, 4, 6, 10, 30])
            mine = ["S r%d %d %d" % (sid, n, maxit)]
            prev, trouble, k = None, True, [0] * n
            for _ in range(rng.choice([1, 2, 4, 7])):
                kind = rng.choice(["plain", "plain", "int", "linear", "hard", "wild", "singular", "nopivot", "near", "near"])
                if kind == "near" and prev is None:
                    kind = "plain"
                if kind == "near":                  # the same system, a little changed
                    c, r, q, A, y0, w = prev
                    r = [v + 2.0 ** e * rng.uniform(-.1, .1) for v, e in zip(r, k)]
                    y0 = [v + 2.0 ** e * rng.uniform(-.2, .2) for v, e in zip(r, k)]
                    f = 1 + rng.choice([0, 0, .05, -.05, 2, -.4])
                    A = [[v * f for v in row] for row in A]
                    sy = c, r, q, A, y0, w
                else:
                    sy, k = system(rng, n, kind), [0] * n
                    if rng.random() < .25:
                        k, sy = scale(rng, sy, n)
                c, r, q, A, y0, w = sy
                call = 1 if trouble or rng.random() < .5 else 0
                lazy = 0 if trouble else rng.choice([0, 1])
                trouble = kind in ("hard", "wild", "singular")
                prev = None if kind in ("wild", "singular") else sy
                # the unit of the corrections: what the weights make of the root
                tol = max(a * (abs(b) + 2.0 ** e) for a, b, e in zip(w, r, k)) or 1.0
                tol *= 10.0 ** rng.choice([-1, -2, -3, -5, -7])
                flat = list(r) + list(q) + [v for row in A for v in row] + list(y0) + list(w)
                mine.append("V %d %d %d %s %s %s" % (call, lazy, rng.random() < .3, hx(tol), " ".join([str(v + 1) for v in c] + list(map(str, k))), " ".join(map(hx, flat))))
                cls[kind] = cls.get(kind, 0) + 1
            src["r%d" % sid] = mine
            lines += mine
    return lines, cls, src


def run(prop):
    rng = random.Random(SEED * 7368787)
    d = workdir(prop)
    try:
        t1 = design_check(prop, "RootMC", """SPECIFICATION Spec
CONSTANTS
  Offs = %s
  Quads = %s
  Diags = {1, 3}
  MaxIt = %d
INVARIANT Finds
INVARIANT Direct
PROPERTY Contracts
CHECK_DEADLOCK FALSE
""" % (("{2, 6, 8, 9, 13, 20}", "{4, 8, 9, 17}", 5) if THOROUGH else ("{6, 8, 13}", "{4, 8, 9}", 4)))
        log("design", t1.distinct)
        bins = build_core()
        lines, cls, src = cases(rng, 6 if THOROUGH else 1)
        ip, tp = os.path.join(d, "in"), os.path.join(d, "traces.ndjson")
        with open(ip, "w") as f:
            f.write("\n".join(lines) + "\n")
        with open(tp, "w") as f:
            r = sh([os.path.join(bins, "root"), ip], timeout=300, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs = [json.loads(x) for x in open(tp)]
        ev = sum(len(x["ev"]) for x in recs)
        hung = [x for x in recs if x["ev"][-1]["out"] == "runaway"]
        if len(recs) != len(src) and not hung:
            raise ToolError("%d of %d sessions recorded" % (len(recs), len(src)))
        log("recorded", len(recs), ev)
        t3 = tlc("RootObs", None, cfgtext="SPECIFICATION Spec\nINVARIANT C01\nCHECK_DEADLOCK FALSE\n", env={"TRACES": tp})
        if t3.rc != 0:
            if not t3.bad:
                raise ToolError(t3.out[-3000:])
            sid, k = t3.bad[0][1], int(t3.bad[0][2])
            x = next(x for x in recs if x["id"] == sid)
            raise Violation("session %s: event %d (%s, %s) contradicts the specification" % (sid, k, x["ev"][k - 1]["e"], x["ev"][k - 1]["out"]),
                            {"input": src[sid], "events": x["ev"][:k]})
        if t3.distinct != ev + len(recs):
            raise ToolError("TLC visited %d states for %d events" % (t3.distinct, ev))
        outs = {}
        for x in recs:
            for e in x["ev"]:
                if e["e"] == "end":
                    outs[e["out"][:3]] = outs.get(e["out"][:3], 0) + 1
        return ({"states": t1.distinct + t3.distinct, "transitions": t1.generated + t3.generated,
                 "traces_validated_against_impl": len(recs), "classes": cls, "outcomes": outs,
                 "samples": [src["r1"], recs[0]["ev"][:4]]},
                ["systems A(x-r) + q(x-r)^2 with a known root; double precision; dimensions 1-5, 8, 12",
                 "convergence is demanded where the contraction bound of Root.tla guarantees it"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
