"""Dense linear solver layer: L01..L05.

spec/DenseProps.tla  the properties, in exact rational arithmetic with a rounding allowance
spec/DenseLU.tla     design of the solver, model-checked over all small integer matrices
harness dense        sessions of setups and solves on linear::Dense with an exact rational scalar,
                     double and single precision; plain, viewed and strided storage
spec/DenseObs.tla    judges every recorded session"""
import itertools, json, os, random, struct
from common import *

MC = """SPECIFICATION Spec
CONSTANTS
  N = %d
  Neg = %d
  Pos = %d
  MaxSetups = %d
INVARIANTS %s %s
%s
CHECK_DEADLOCK FALSE
"""


def hx(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def f32(x):
    return struct.unpack(">f", struct.pack(">f", x))[0]


class Gen:
    def __init__(self, path, prop, rng):
        self.f, self.prop, self.rng, self.n, self.text = open(path, "w"), prop, rng, 0, {}
        self.kinds = {}

    def session(self, kind, sc, n, mats, judge, solves=2, bgen=None):
        rng = self.rng
        self.n += 1
        sid = "m%d" % self.n
        mode = rng.choice(["plain", "plain", "view", "step"])
        t = "D %s %s %d %s %d\n" % (sid, sc, n, mode, judge)
        fmt = str if sc == "q" else hx
        if self.prop in ("L02", "L03"):
            solves = 0
        for m in mats:
            t += "A " + " ".join(fmt(m[i][j]) for i in range(n) for j in range(n)) + "\n"
            bs = []
            for k in range(solves):
                if bs and self.prop in ("L04", "L05") and rng.random() < 0.4:
                    b = rng.choice(bs)
                else:
                    b = (bgen or self.rhs)(sc, n)
                bs.append(b)
                t += "B " + " ".join(map(fmt, b)) + " | %d\n" % rng.randrange(1, 2 ** 30)
        self.text[sid] = t
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.f.write(t)

    def rhs(self, sc, n):
        rng = self.rng
        k = rng.random()
        if sc == "q":
            if k < 0.15:
                i = rng.randrange(n)
                return [int(j == i) for j in range(n)]
            return [rng.randrange(-9, 10) for _ in range(n)]
        if k < 0.05:
            v = [0.0] * n
        elif k < 0.2:
            i = rng.randrange(n)
            v = [float(j == i) for j in range(n)]
        else:
            v = [rng.uniform(-1, 1) * 2.0 ** rng.randrange(-6, 7) for _ in range(n)]
        return [f32(x) for x in v] if sc == "s" else v

    # ---- matrices
    def structured(self, n, sc, singular):
        """P*L*U with |multipliers| <= 1/2 and pivots powers of two: elimination is exact in
        floating point and, if singular, the zero pivot is met at a known column."""
        rng = self.rng
        L = [[1.0 if i == j else (rng.choice([0, 0, .5, -.5, .25, -.25, .125]) if i > j else 0.0)
              for j in range(n)] for i in range(n)]
        U = [[0.0] * n for _ in range(n)]
        zc = rng.randrange(n) if singular else -1
        for k in range(n):
            U[k][k] = 0.0 if k == zc else rng.choice([-1, 1]) * 2.0 ** rng.randrange(0, 4)
            for j in range(k + 1, n):
                U[k][j] = float(rng.choice([0, 0, 1, -1, 2, 3, -5]))
        A = [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        rng.shuffle(A)
        lim = 100 if sc == "s" else 900
        # negative powers only go as far as reciprocals stay finite
        s = rng.choice([0, 0, rng.randrange(-lim, lim + 1)])
        cs = [rng.randrange(-12, 13) if rng.random() < .5 else 0 for _ in range(n)]
        A = [[A[i][j] * 2.0 ** s * 2.0 ** cs[j] for j in range(n)] for i in range(n)]
        return [[-0.0 if x == 0 and rng.random() < .5 else x for x in r] for r in A]

    def floats(self, n, sc):
        rng = self.rng
        kind = rng.randrange(6)
        A = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        lim = 25 if sc == "s" else 150
        if kind == 1:
            rs = [rng.randrange(-lim, lim + 1) for _ in range(n)]
            A = [[A[i][j] * 2.0 ** rs[i] for j in range(n)] for i in range(n)]
        elif kind == 2:
            cs = [rng.randrange(-lim, lim + 1) for _ in range(n)]
            A = [[A[i][j] * 2.0 ** cs[j] for j in range(n)] for i in range(n)]
        elif kind == 3:
            s = 2.0 ** rng.randrange(-2 * lim, 2 * lim + 1)
            A = [[x * s for x in r] for r in A]
        elif kind == 4:      # many zeros, nonsingular: permuted triangular-ish
            A = [[x if rng.random() < .35 else 0.0 for x in r] for r in A]
            p = list(range(n))
            rng.shuffle(p)
            for i in range(n):
                A[i][p[i]] = rng.choice([-1, 1]) * rng.uniform(.5, 4)
        elif kind == 5:      # growth
            A = [[1.0 if j == n - 1 else (1.0 if i == j else (-1.0 + rng.uniform(0, .25) if i > j else 0.0))
                  for j in range(n)] for i in range(n)]
        return [[f32(x) for x in r] for r in A] if sc == "s" else A

    def ints(self, n, k):
        rng = self.rng
        A = [[rng.randrange(-k, k + 1) for _ in range(n)] for _ in range(n)]
        c = rng.random()
        if c < .3 and n > 1:     # a column that depends on the others
            j = rng.randrange(n)
            o = [x for x in range(n) if x != j]
            co = [rng.choice([0, 1, -1]) for _ in o]
            for i in range(n):
                A[i][j] = sum(a * A[i][q] for a, q in zip(co, o))
        elif c < .5 and n > 1:   # a row that depends on others
            j, a, b = rng.randrange(n), rng.randrange(n), rng.randrange(n)
            A[j] = [x + y for x, y in zip(A[a], A[b])]
        elif c < .7:
            A = [[x if rng.random() < .4 else 0 for x in r] for r in A]
        return A


def generate(path, prop):
    rng = random.Random(SEED * 104729 + int(prop[1:]))
    g = Gen(path, prop, rng)
    chain = lambda ms, k: [ms[i:i + k] for i in range(0, len(ms), k)]
    t = 4 if THOROUGH else 1
    # exact scalar: all 2x2 over -2..2, all or many 3x3 over -1..1, larger random ones
    m2 = [[list(x[:2]), list(x[2:])] for x in itertools.product(range(-2, 3), repeat=4)]
    rng.shuffle(m2)
    m3 = [[list(x[:3]), list(x[3:6]), list(x[6:])] for x in itertools.product((-1, 0, 1), repeat=9)]
    rng.shuffle(m3)
    if not THOROUGH:
        m3 = m3[:1200]
    for ms in chain(m2, 5):
        g.session("exact 2x2", "q", 2, ms, 1, 1)
    for ms in chain(m3, 5):
        g.session("exact 3x3", "q", 3, ms, 1, 1)
    for n, k, c in ((1, 3, 20), (3, 9, 60), (4, 3, 80), (4, 9, 40), (5, 2, 50), (5, 7, 30), (6, 2, 20)):
        for _ in range(c * t):
            g.session("exact random", "q", n, [g.ints(n, k) for _ in range(rng.randrange(1, 4))], 1)
    # one solver, matrices that have much in common
    for n in (2, 3, 4, 5):
        for _ in range(25 * t):
            ms = [g.ints(n, 3)]
            for _ in range(rng.randrange(2, 12)):
                m = [list(r) for r in rng.choice([ms[-1], ms[-1], ms[0]])]
                c, i, j = rng.randrange(8), rng.randrange(n), rng.randrange(n)
                if c == 1:
                    m[i][j] += rng.choice([-2, -1, 1, 2])
                elif c == 2:
                    m[i], m[j] = m[j], m[i]
                elif c == 3:
                    m = [list(r) for r in zip(*m)]
                elif c == 4:
                    m = [[-x for x in r] for r in m]
                elif c == 5:
                    m[i] = [2 * x for x in m[i]]
                elif c == 6:
                    m = [[int(a == b) for b in range(n)] for a in range(n)]
                elif c == 7:
                    for r in m:
                        r[j] = 0
                ms.append(m)
            g.session("related", "q", n, ms, 1)
            if n in (3, 4):
                g.session("related", "d", n, [[list(map(float, r)) for r in m] for m in ms], 0)
    # floating point, elimination exact
    for sc in "ds":
        for n in (1, 2, 3, 4, 5, 6, 8):
            for _ in range((14 if n < 6 else 6) * t):
                ms = [g.structured(n, sc, rng.random() < (.6 if prop == "L03" else .25))
                      for _ in range(rng.randrange(1, 4))]
                g.session("float structured", sc, n, ms, 1)
        # beyond the sizes where anything special is likely to be kept small
        for n, c in ((16, 2), (17, 2), (24, 2), (33, 2), (50, 1), (65, 1)):
            for _ in range(c * t):
                g.session("float large", sc, n, [g.structured(n, sc, rng.random() < .4) for _ in range(2)], 1, 1)
    g.session("float large", "d", 130, [g.structured(130, "d", False)], 0, 1)
    g.session("float large", "d", 258, [g.structured(258, "d", False)], 0, 1)
    # floating point, general
    sizes = [(1, 8), (2, 20), (3, 20), (4, 16), (5, 12), (6, 8), (7, 6), (8, 5), (10, 2), (12, 1), (17, 1), (24, 1), (33, 1)]
    if THOROUGH:
        sizes += [(16, 1), (20, 1), (50, 1), (65, 1)]
    for sc in "ds":
        for n, c in sizes:
            for _ in range(c * t):
                g.session("float general", sc, n, [g.floats(n, sc) for _ in range(2)], int(n <= 8),
                          2 if n <= 8 else 1)
    g.f.close()
    return g


def run(prop):
    d = workdir(prop)
    try:
        bins = build_core()
        log("built")
        dag = "DefinitionsAgree" if prop == "L03" else ""
        live = "PROPERTY Answers" if prop == "L01" else ""
        runs = [(2, 2, 2, 1), (3, 0, 1, 1), (2, 0, 1, 2)]
        if THOROUGH:
            runs = [(2, 3, 3, 1), (3, 1, 1, 1), (2, 1, 1, 3), (4, 0, 1, 1)]
        dist = gen = 0
        for n, lo, hi, k in runs:
            t = design_check(prop, "DenseLU", MC % (n, lo, hi, k, prop, dag, live))
            dist += t.distinct
            gen += t.generated
        log("design", dist)
        sp, tp = os.path.join(d, "sessions"), os.path.join(d, "traces.ndjson")
        g = generate(sp, prop)
        with open(tp + ".all", "w") as f:
            r = sh([os.path.join(bins, "dense"), sp], timeout=300, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs, skipped = [], 0
        with open(tp, "w") as f:
            for line in open(tp + ".all"):
                x = json.loads(line)
                if x.get("skip"):
                    skipped += 1
                    continue
                recs.append(x)
                f.write(line)
        log("executed", len(recs), "skipped", skipped)
        cfg = "SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop
        t3 = tlc("DenseObs", None, cfgtext=cfg, env={"TRACES": tp})
        log("judged", t3.distinct)
        if t3.rc != 0:
            if not t3.bad:
                raise ToolError("TLC stopped without naming a trace:\n" + t3.out[-3000:])
            _, sid, pos, _ = t3.bad[0]
            rec = next(x for x in recs if x["id"] == sid)
            raise Violation("session %s breaks %s at event %s" % (sid, prop, pos),
                            {"session": g.text[sid], "trace": rec, "event": int(pos)})
        if skipped > len(recs) // 20:
            raise ToolError("%d sessions left the range of the exact scalar" % skipped)
        ev = [e for x in recs for e in x["ev"]]
        cnt = {}
        for e in ev:
            k = e["e"] + ":" + e["out"]
            cnt[k] = cnt.get(k, 0) + 1
        if t3.distinct < len(ev):
            raise ToolError("TLC visited %d states for %d events" % (t3.distinct, len(ev)))
        return ({"states": dist + t3.distinct, "transitions": gen + t3.generated,
                 "traces_validated_against_impl": len(recs), "design_states": dist,
                 "events": cnt, "session_kinds": g.kinds, "skipped": skipped,
                 "samples": [g.text[recs[0]["id"]], g.text[recs[-1]["id"]][:2000]]},
                ["entries keep every intermediate value of the elimination in the normal range",
                 "dimension at least one"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
