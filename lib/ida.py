"""Integrator layer: I01..I18, W02."""
import json, math, os, random, re, shutil, struct
from common import *

IDA = os.path.join(BUILD, "ida")
SHIM = os.path.join(VERIF, "shim")


def assemble():
    """A crate made of /repo/src as it is, with the two solver modules it declares but does not
    contain bridged to the workspace's crates."""
    tmp = os.path.join(BUILD, "ida.new")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"))
    shutil.copy(os.path.join(SHIM, "ida", "linear.rs"), os.path.join(tmp, "src", "linear.rs"))
    shutil.copytree(os.path.join(SHIM, "ida", "nonlinear"), os.path.join(tmp, "src", "nonlinear"), dirs_exist_ok=True)
    with open(os.path.join(SHIM, "ida", "Cargo.toml.in")) as f:
        text = f.read().replace("@SHIM@", SHIM).replace("@REPO@", REPO)
    with open(os.path.join(tmp, "Cargo.toml"), "w") as f:
        f.write(text)
    shutil.rmtree(IDA, ignore_errors=True)
    os.rename(tmp, IDA)


def build():
    assemble()
    return cargo_build(os.path.join(VERIF, "harness", "ida"), os.path.join(BUILD, "hida"),
                       [os.path.join(REPO, "crates"), os.path.join(REPO, "src"), SHIM,
                        os.path.join(VERIF, "harness")],
                       extra_env={"RUSTFLAGS": "--cfg ida_verif"})


# ------------------------------------------------------------------------------------ scenarios
# Residuals that vanish at t = 0 for these data.
CONSISTENT = {
    "decay": lambda r: ([1.0, 0.5], [0.0, 5.5]) if r < .5 else ([1.0, 1.0, 1.0], [0.0, 0.0, 0.0]),
    "osc": lambda r: ([1.0, 0.5], [0.5, -1.0]),
    "fastosc": lambda r: ([1.0, 0.0], [0.0, -40.0]),
    "dae": lambda r: ([1.0, 0.6], [-1.4, 0.0]),
    "tdep": lambda r: ([2.0], [-1.0]),
    "vdp": lambda r: ([2.0, 0.0], [0.0, -2.0]),
    "cubic": lambda r: ([0.5], [0.0]),
    "roberts": lambda r: ([1.0, 0.0, 0.0], [-0.04, 0.04, 0.0]),
}
SPAN = {"decay": 3.0, "osc": 6.0, "fastosc": 0.4, "dae": 3.0, "tdep": 3.0, "vdp": 20.0, "cubic": 2.0, "roberts": 40.0}


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.out, self.cls = [], {}

    def put(self, cls, **sc):
        i = "%s%d" % (cls, self.cls.get(cls, 0) + 1)
        self.cls[cls] = self.cls.get(cls, 0) + 1
        sc.setdefault("mirror", False)
        sc.setdefault("seed", self.rng.randrange(1, 1 << 40))
        sc["id"] = i
        self.out.append(sc)
        return sc

    # -- pieces
    def tol(self, n, lo=2, hi=7):
        r = 10.0 ** -self.rng.uniform(lo, hi)
        if self.rng.random() < .5:
            return {"k": "ss", "r": r, "a": [10.0 ** -self.rng.uniform(lo, hi)]}
        return {"k": "sv", "r": r, "a": [10.0 ** -self.rng.uniform(lo, hi) for _ in range(n)]}

    def scripted(self, n=None, **kw):
        rng = self.rng
        n = n or rng.randrange(1, 4)
        y0 = [rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-2, 2)]) for _ in range(n)]
        sc = {"prob": {"kind": "script"}, "nls": "script", "y0": y0, "yp0": [rng.uniform(-1, 1) for _ in range(n)],
              "tol": self.tol(n), "tail": {"c": [.01, .1]}}
        sc.update(kw)
        return sc

    def real(self, kind=None, **kw):
        kind = kind or self.rng.choice(sorted(CONSISTENT))
        y0, yp0 = CONSISTENT[kind](self.rng.random())
        tol = self.tol(len(y0), 3, 7)
        if kind == "roberts":
            tol = {"k": "sv", "r": 1e-4, "a": [1e-6, 1e-10, 1e-6]}
        sc = {"prob": {"kind": kind}, "nls": "newton", "y0": y0, "yp0": yp0, "tol": tol}
        sc.update(kw)
        return sc

    def tail(self, kind):
        rng = self.rng
        c = {"calm": [.001, .01, .05, .2],
             "tiny": [1e-6, 1e-4, 1e-3],
             "busy": [.005, .05, .2, .5, .9, .97],
             "fail": [.01, .1, .5, .9, 1.2, 5.0],
             "rough": [.1, .5, .9, 1.1, 3.0, 40.0, 1e4],
             "conv": [.01, .1, .5]}[kind]
        t = {"c": c, "d": rng.choice([["rand"], ["rand", "same"], ["rand", "lower"], ["rand", "lower", "lower2", "same"],
                                      ["same"], ["rand", "zero", "same"]]),
             "rec": {"conv": .25, "rough": .15, "fail": .03}.get(kind, 0.0),
             "ct": rng.choice([0.0, .5, 1.0]), "refresh": rng.choice([0.0, .1])}
        return t

    def interps(self, full=True):
        """Questions about the last step."""
        rng = self.rng
        res = []
        for _ in range(rng.randrange(1, 4)):
            th = {"hu": rng.choice([0.0, 1.0, .5, rng.random(), rng.random(), rng.random()])}
            if rng.random() < .2:
                th = {"hu": rng.choice([1.1, 2.0, 1.0 + 1e-6, -.1, -1.0])}
            if rng.random() < .4:
                res.append({"c": "getsol", "th": th})
            else:
                res.append({"c": "dky", "th": th, "k": rng.randrange(0, 7) if rng.random() < .3 else rng.randrange(0, 3)})
        return res

    def calls(self, span, n=8, first=None, tstop=False):
        """A mixed sequence of requests that goes forward by about span."""
        rng = self.rng
        res = [{"c": "solve", "m": rng.choice("NO"), "t": first or span / n * rng.uniform(.2, 1)}]
        t = res[0]["t"]
        for _ in range(n):
            u = rng.random()
            if u < .35:
                t += span / n * rng.uniform(.1, 2)
                res.append({"c": "solve", "m": "N", "t": t})
            elif u < .5:
                res.append({"c": "solve", "m": "O", "t": t + span, "rep": rng.randrange(1, 6)})
            elif u < .6:
                res.append({"c": "solve", "m": "N", "t": {"hh": rng.choice([.3, 1.0, 2.5])}})
            elif u < .7:
                res.append({"c": "solve", "m": "N", "t": {"hu": rng.choice([.5, 0.0, .25])}})
            elif u < .75:
                res.append({"c": "solve", "m": "N", "t": {"ret": 0.0}})
            elif u < .8 and tstop:
                res.append({"c": "tstop", "t": rng.choice([{"hh": rng.uniform(.2, 4)}, {"hh": 1.0}, t + span / n])})
            else:
                res += self.interps()
        return res


def scen_script(g, n, kinds=("calm", "busy", "fail", "rough", "conv", "tiny")):
    for i in range(n):
        kind = kinds[i % len(kinds)]
        sc = g.scripted(tail=g.tail(kind), budget=2000)
        sc["calls"] = g.calls(10 ** g.rng.uniform(-1, 2), g.rng.randrange(3, 9))
        if g.rng.random() < .3:
            sc["mirror"] = True
        if g.rng.random() < .2:
            n2 = len(sc["y0"])
            sc["mask"] = [g.rng.random() < .6 for _ in range(n2)]
        g.put("script-" + kind, **sc)


def scen_real(g, n):
    ks = sorted(CONSISTENT)
    for i in range(n):
        k = ks[i % len(ks)]
        sc = g.real(k)
        sc["calls"] = g.calls(SPAN[k], g.rng.randrange(3, 8))
        if g.rng.random() < .3:
            sc["mirror"] = True
        if g.rng.random() < .3:
            sc["sing"] = [g.rng.randrange(1, 12) for _ in range(g.rng.randrange(1, 3))]
        g.put("real-" + k, **sc)


def scen_singular(g, n):
    """Jacobians that stay singular for a while, or for good."""
    rng = g.rng
    ks = sorted(CONSISTENT)
    for i in range(n):
        k = rng.choice(ks)
        sc = g.real(k)
        a = rng.randrange(1, 10)
        sc["sing"] = list(range(a, a + rng.choice([2, 5, 9, 10, 11, 14, 200])))
        sc["calls"] = g.calls(SPAN[k], rng.randrange(3, 6))
        if rng.random() < .3:
            sc["mirror"] = True
        g.put("singular", **sc)


def scen_fail(g, n):
    """Failures at chosen places of the step sequence."""
    rng = g.rng
    pat = [["err"], ["err"] * 2, ["err"] * 3, ["err"] * 5, ["err"] * 9, ["err"] * 10, ["conv"], ["conv"] * 2,
           ["conv"] * 9, ["conv"] * 10, ["conv", "err"], ["err", "conv"], ["err", "err", "conv", "err"],
           ["conv"] * 5 + ["err"] * 5, ["fatal"], ["err", "fatal"], ["conv", "fatal"], ["fatal"] * 3,
           ["fatal", "ok", "fatal"], ["err"] * 10 + ["ok"] * 4 + ["err"]]
    for i in range(n):
        p = pat[i % len(pat)]
        lead = rng.choice([0, 0, 1, 2, 3, 5, 8, 12])
        dirs = [["rand"], ["rand", "lower"], ["same"], ["lower", "lower2"]][rng.randrange(4)]
        st = lambda o: {"o": "ok", "c": rng.choice([.001, .01, .1, .3, .6]), "d": rng.choice(dirs)} if o == "ok" else \
            {"o": "ok", "c": rng.choice([1.01, 1.5, 4.0, 100.0, 1e6]), "d": rng.choice(dirs)} if o == "err" else \
            {"o": "rec" if o == "conv" else "fatal"}
        script = [st("ok") for _ in range(lead)] + [st(o) for o in p]
        sc = g.scripted(script=script, tail=g.tail("calm"))
        more = []
        for _ in range(3):
            more += g.interps() + [{"c": "solve", "m": "O", "t": 500.0, "rep": rng.randrange(1, 4)}]
        sc["calls"] = [{"c": "solve", "m": "O", "t": 100.0, "rep": lead + 1}] + more
        if rng.random() < .3:
            sc["calls"] = [{"c": "solve", "m": "N", "t": 100.0}] + more
        if rng.random() < .3:
            sc["mirror"] = True
        g.put("fail", **sc)


def scen_const(g, n):
    """Long runs at constant step and order, with failures in between."""
    rng = g.rng
    for i in range(n):
        script = []
        for _ in range(rng.randrange(2, 5)):
            script += [{"c": rng.choice([.05, .1, .15]), "d": rng.choice(["rand", "same"])} for _ in range(rng.randrange(3, 12))]
            script += rng.choice([[{"o": "fatal"}] * rng.randrange(1, 4), [{"o": "rec"}], [{"c": 2.0}], []])
        sc = g.scripted(script=script, tail={"c": [.05, .1], "d": ["rand"]})
        sc["calls"] = []
        for _ in range(14):
            sc["calls"] += [{"c": "solve", "m": "O", "t": 50.0, "rep": rng.randrange(1, 5)}] + g.interps()
        g.put("const", **sc)


def scen_order(g, n):
    """Error directions that drive the order up and down."""
    rng = g.rng
    for i in range(n):
        script = []
        for _ in range(rng.randrange(3, 9)):
            d = rng.choice(["rand", "lower", "lower2", "same", "zero", "one"])
            c = rng.choice([.001, .01, .1, .3, .45, .6, .9])
            script += [{"c": c, "d": d} for _ in range(rng.randrange(1, 9))]
        sc = g.scripted(script=script, tail={"c": [.01], "d": ["same"]})
        if rng.random() < .3:
            sc["mask"] = [True] + [rng.random() < .5 for _ in sc["y0"][1:]]
        sc["calls"] = [{"c": "solve", "m": "O", "t": 1.0, "rep": len(script) + 3}]
        g.put("order", **sc)


def scen_roots(g, n, real=False):
    rng = g.rng
    for i in range(n):
        nr = rng.randrange(1, 4)
        roots = []
        span = 4.0
        for _ in range(nr):
            u = rng.random()
            if u < .5:
                ts = sorted(rng.uniform(.002, span) for _ in range(rng.randrange(1, 4)))
                if rng.random() < .3:
                    ts = [rng.choice([.001, .004, .5, 1.0, 2.0])] + ts
                roots.append(["poly", rng.choice([1.0, -1.0, 1e-3, -1e4]), ts])
            elif u < .8:
                roots.append(["comp", 0, rng.uniform(-1.5, 1.5)])
            elif u < .9:
                roots.append(["late", rng.choice([0.0, .5, 1.0])])
            else:
                roots.append(["poly", rng.choice([1.0, -1.0]), [0.0, rng.uniform(.5, 3)]])
        if real:
            k = rng.choice(["osc", "decay", "dae", "cubic"])
            sc = g.real(k)
            sc["prob"]["roots"] = roots
        else:
            sc = g.scripted(tail=g.tail(rng.choice(["calm", "tiny", "busy"])))
            sc["prob"] = {"kind": "script", "roots": roots}
        calls = []
        t = 0.0
        while t < span and len(calls) < 12:
            if rng.random() < .6:
                t += rng.choice([.25, .5, 1.0, rng.uniform(.1, 1.5)])
                calls.append({"c": "solve", "m": "N", "t": t, "rep": rng.choice([1, 1, 1, 3])})
            else:
                t += .3
                calls.append({"c": "solve", "m": "O", "t": span * 2, "rep": rng.randrange(1, 6)})
            if rng.random() < .2:
                calls += g.interps()
        sc["calls"] = calls + [{"c": "solve", "m": "N", "t": span, "rep": 6}]
        if rng.random() < .35:
            sc["mirror"] = True
        g.put("roots" if not real else "roots-real", **sc)


def scen_tstop(g, n):
    rng = g.rng
    for i in range(n):
        sc = g.scripted(tail=g.tail(rng.choice(["calm", "busy", "fail", "conv"]))) if i % 3 else g.real(rng.choice(["osc", "decay", "dae"]))
        calls = []
        if rng.random() < .5:
            calls.append({"c": "tstop", "t": rng.choice([.001, .05, .7, 3.0])})
        calls += [{"c": "solve", "m": rng.choice("NO"), "t": rng.choice([.5, 1.0, 2.0, 100.0, 3e3])}]
        for _ in range(rng.randrange(2, 6)):
            v = rng.choice([{"hh": .4}, {"hh": 1.0}, {"hh": 1.5}, {"hh": 3.3}, {"hh": 7.7}, {"tn": 0.0}, {"hu": .5}, {"tn": .3}, {"hh": 2.0}])
            calls.append({"c": "tstop", "t": v})
            for _ in range(rng.randrange(1, 5)):
                calls.append({"c": "solve", "m": rng.choice("NOO"), "t": rng.choice([{"tn": .5}, {"tn": 2.0}, {"hh": 9.0}, {"hh": 2.0}]),
                              "rep": rng.choice([1, 1, 3])})
                if rng.random() < .2:
                    calls += g.interps()
        sc["calls"] = calls
        if rng.random() < .5:
            sc["mirror"] = True
        g.put("tstop", **sc)


def scen_tol(g, n):
    """Illegal weights and tolerances beyond the working precision."""
    rng = g.rng
    for i in range(n):
        k = i % 5
        sc = g.scripted(tail=g.tail("calm"))
        n_ = len(sc["y0"])
        if k == 0:
            sc["tol"] = {"k": "bad", "r": 1e-3, "a": [1e-4], "w": rng.choice([0.0, -1.0, -1e-300]), "n": rng.choice([1, 1, 2, 3, 8])}
        elif k == 1:
            sc["tol"] = {"k": "ss", "r": 1e-4, "a": [0.0]}
            sc["y0"][0] = 0.0
        elif k == 2:
            sc["tol"] = {"k": "sv", "r": 1e-17, "a": [1e-18 * rng.uniform(.5, 2)] * n_}
            sc["y0"] = [1.0 + i for i in range(n_)]
        elif k == 3:
            sc["tol"] = {"k": "sv", "r": 10.0 ** -rng.uniform(13, 16.5), "a": [1e-13] * n_}
            sc["y0"] = [rng.uniform(1, 3) for _ in range(n_)]
        else:
            sc["tol"] = {"k": "sv", "r": 1e-4, "a": [rng.choice([0.0, 1e-6]) for _ in range(n_)]}
            sc["y0"] = [rng.choice([0.0, 1.0]) for _ in range(n_)]
        sc["calls"] = [{"c": "solve", "m": rng.choice("NO"), "t": 1.0, "rep": rng.randrange(1, 12)},
                       {"c": "solve", "m": "N", "t": 2.0, "rep": 2}] + g.interps()
        g.put("tol", **sc)


def scen_long(g, n):
    """More steps than a call may take."""
    rng = g.rng
    for i in range(n):
        sc = g.scripted(n=1, tail={"c": [.7, .8, .9], "d": ["rand"]}, budget=5000)
        if i % 3 == 2:
            sc["script"] = [{"c": .8} for _ in range(10)] + [{"c": 3.0}] * 3
        sc["tol"] = {"k": "ss", "r": 1e-3, "a": [1e-3]}
        sc["calls"] = [{"c": "solve", "m": "N", "t": 1e6}, {"c": "solve", "m": "O", "t": 1e6, "rep": 2}, {"c": "solve", "m": "N", "t": 1e6}]
        g.put("long", **sc)


def scen_args(g, n):
    """Requests that must be refused, between ones that must not."""
    rng = g.rng
    for i in range(n):
        sc = g.scripted(tail=g.tail("busy")) if i % 2 else g.real(rng.choice(["osc", "decay"]))
        calls = []
        for _ in range(rng.randrange(1, 3)):
            calls.append({"c": "solve", "m": rng.choice("NO"), "t": rng.choice([0.0, 1e-9, -0.0])})
        calls += [{"c": "dky", "th": 0.0, "k": rng.randrange(0, 3)}] if rng.random() < .5 else []
        calls += g.calls(3.0, 5)
        sc["calls"] = calls
        if rng.random() < .3:
            sc["mirror"] = True
        g.put("args", **sc)


def scen_first(g, n):
    """Events and stop times inside the very first step."""
    rng = g.rng
    for i in range(n):
        n_ = rng.randrange(1, 3)
        tout = rng.choice([1.0, 2.0, .5, 10.0])
        h0 = .001 * tout
        sc = g.scripted(n_, tail=g.tail(rng.choice(["calm", "fail"])))
        sc["yp0"] = [0.0] * n_ if i % 2 else [rng.uniform(-1e-4, 1e-4) for _ in range(n_)]
        ts = sorted(h0 * rng.uniform(.02, .98) for _ in range(rng.randrange(1, 3)))
        roots = [["poly", rng.choice([1.0, -1.0]), ts]]
        if rng.random() < .5:
            roots.append(["poly", rng.choice([1.0, -1.0]), [h0 * rng.choice([.3, .9, 1.0, 1.5, 3.0])]])
        if rng.random() < .3:
            roots.append(["late", rng.choice([0.0, h0 * .5, h0 * 2])])
        if rng.random() < .3:
            roots.append(["poly", 1.0, [0.0]])
        sc["prob"] = {"kind": "script", "roots": roots}
        sc["calls"] = [{"c": "solve", "m": rng.choice("NO"), "t": tout, "rep": rng.randrange(1, 7)},
                       {"c": "solve", "m": "N", "t": tout}, {"c": "solve", "m": "O", "t": 2 * tout, "rep": 3}]
        if i % 3 == 0:
            sc["yp0"] = [0.0] * n_
            sc["calls"].insert(0, {"c": "tstop", "t": h0 * rng.choice([.1, .5, .9, .999999])})
            if rng.random() < .5:
                sc["prob"] = {"kind": "script"}
        if rng.random() < .45:
            sc["mirror"] = True
        g.put("first", **sc)


def scen_start(g, n):
    """The size of the first step: distances and derivatives of all sizes, stop times, failures."""
    rng = g.rng
    for i in range(n):
        n_ = rng.randrange(1, 4)
        sc = g.scripted(n_, tail=g.tail(["calm", "fail", "conv", "rough"][i % 4]), budget=300)
        u = 10.0 ** rng.uniform(-5, 6)
        sc["yp0"] = [rng.choice([0.0, u * rng.uniform(-1, 1), rng.uniform(-1, 1)]) for _ in range(n_)]
        tout = 10.0 ** rng.uniform(-3, 4)
        if rng.random() < .3:
            sc["mask"] = [rng.random() < .6 for _ in range(n_)]
        sc["calls"] = [{"c": "solve", "m": rng.choice("NO"), "t": tout, "rep": rng.randrange(1, 6)} for _ in range(3)]
        if rng.random() < .4:
            sc["calls"].insert(0, {"c": "tstop", "t": tout * 10.0 ** rng.uniform(-6, 0)})
        if rng.random() < .5:
            sc["mirror"] = True
        g.put("start", **sc)


def scen_ctest(g, n):
    """Many convergence tests with chosen norms of the corrections."""
    rng = g.rng
    for i in range(n):
        sc = g.scripted(tail=dict(g.tail(rng.choice(["calm", "conv", "busy"])), ct=1.0, refresh=rng.choice([0.0, .2])))
        script = []
        for _ in range(rng.randrange(10, 40)):
            x = rng.choice([10.0 ** rng.uniform(-9, 2), rng.choice([.33e-8, .33, .0033, .0165]) * (1 + rng.choice([-1e-6, 1e-6, -.1, .1]))])
            ct = [x]
            for _ in range(rng.randrange(0, 4)):
                x *= rng.choice([rng.random(), .9 * (1 + rng.choice([-1e-6, 1e-6])), .89, .91, .95, .1, .01, 1.5])
                ct.append(x)
            script.append({"c": rng.choice([.01, .1, .5]), "d": "rand", "ct": ct, "j": rng.random() < .15,
                           "o": rng.choice(["ok"] * 9 + ["rec"])})
        sc["script"] = script
        sc["calls"] = [{"c": "solve", "m": "O", "t": 100.0, "rep": rng.randrange(5, 30)}]
        g.put("ctest", **sc)


def scen_dense_out(g, n):
    """Dense output after every step, at all orders, also after failures and events."""
    rng = g.rng
    for i in range(n):
        sc = g.scripted(tail=g.tail(rng.choice(["calm", "busy", "tiny", "fail"])), budget=800)
        if i % 3 == 2:
            sc = g.real(rng.choice(["osc", "decay", "dae", "cubic"]))
        if i % 4 == 3:
            sc["prob"]["roots"] = [["poly", 1.0, sorted(rng.uniform(.001, 1.0) for _ in range(2))]]
        calls = [{"c": "solve", "m": rng.choice("NO"), "t": 1.0}]
        for _ in range(12):
            calls.append({"c": "solve", "m": "O", "t": 300.0} if rng.random() < .7 else
                         {"c": "solve", "m": "N", "t": {"hh": rng.choice([.3, 1.0, 2.5])}})
            for k in range(0, 7):
                if rng.random() < .5:
                    calls.append({"c": "dky", "k": k, "th": rng.choice([{"hu": 0.0}, {"hu": 1.0}, {"hu": rng.random()}])})
            calls += g.interps()
        sc["calls"] = calls
        if rng.random() < .3:
            sc["mirror"] = True
        g.put("dense", **sc)


def scen_close(g, n):
    """Several functions with events close together, on top of output times, or at step ends."""
    rng = g.rng
    for i in range(n):
        roots, base = [], rng.uniform(.01, 2.0)
        for _ in range(rng.randrange(2, 5)):
            d = rng.choice([0.0, 1e-9, 1e-6, 1e-4, 1e-2, .1]) * rng.random()
            k = rng.random()
            if k < .6:
                roots.append(["poly", rng.choice([1.0, -1.0, 5.0]), [base + d]])
            elif k < .8:
                roots.append(["poly", rng.choice([1.0, -1.0]), [base + d, base + d + rng.choice([1e-5, 1e-3, .05])]])
            elif k < .9:
                roots.append(["comp", 0, rng.uniform(-.5, .5)])
            else:
                roots.append(["late", base + d])
        sc = g.scripted(1, tail=g.tail(rng.choice(["calm", "tiny", "busy"]))) if i % 3 else g.real("osc")
        sc["prob"]["roots"] = roots
        calls = [{"c": "solve", "m": rng.choice("NO"), "t": rng.choice([base, base * .5, base + .01])}]
        if i % 2:
            # an exact zero at the output time, and another one within the same step
            roots[0] = ["poly", rng.choice([1.0, -1.0]), [base, base + base * rng.choice([1e-12, 1e-6, .003, .02, .1])]]
            calls = [{"c": "solve", "m": "N", "t": base}]
        for _ in range(8):
            calls.append({"c": "solve", "m": "N", "t": {"ret": rng.choice([1e-5, 1e-3, .02, .1, .5])}, "rep": rng.choice([1, 2])}
                         if rng.random() < .6 else {"c": "solve", "m": "O", "t": 9.0})
        calls.append({"c": "solve", "m": "N", "t": 4.0, "rep": 6})
        sc["calls"] = calls
        if rng.random() < .35:
            sc["mirror"] = True
        g.put("close", **sc)


TICKS = [0.0, .5, 1.0, 2.0, 3.0, 5.0, 7.0, 11.0, 15.0, 40.0]


def scen_ticks(g, n, flat=0.0):
    """Event functions, output times and stop times that meet in few places, some of them step ends."""
    rng = g.rng
    for i in range(n):
        m = rng.randrange(2, 6)
        ticks = [0.0] + sorted(rng.sample(TICKS[1:], m))
        if rng.random() < .5:
            first = 1000.0
        else:
            first = rng.choice(ticks[1:])
        fs, roots = [], []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            z, sg = [], rng.choice([1.0, -1.0])
            for k, t in enumerate(ticks):
                u = rng.random()
                if k == 0:
                    z += [t] * (u < .25)
                elif u < .5:
                    z.append(t)
                elif u < .6:
                    z += [t, t]
            lo, hi = -1e9, 1e9
            if z and z[-1] > 0 and rng.random() < flat:
                hi = z[-1]
            elif z and rng.random() < flat:
                lo = z[0]
            roots.append(["window", sg, z, lo, hi] if flat else ["poly", sg, z])
            val = lambda t: sg * math.prod((t - a > 0) - (t - a < 0) for a in z) * (lo < t < hi)
            mid = [(a + b) / 2 for a, b in zip(ticks, ticks[1:])] + [ticks[-1] + 1]
            fs.append({"tick": [int(val(t)) for t in ticks], "open": [int(val(t)) for t in mid]})
        sc = g.scripted(1, tail={"c": [0.0], "d": ["zero"]})
        sc["y0"], sc["yp0"] = [1.0], [0.0]
        sc["tol"] = {"k": "ss", "r": 1e-4, "a": [1e-4]}
        sc["prob"] = {"kind": "script", "roots": roots}
        calls, begun = [], False
        for _ in range(rng.randrange(3, 8)):
            u = rng.random()
            if u < .2:
                calls.append({"c": "tstop", "t": rng.choice(ticks[1:] + [1000.0])})
            elif u < .75:
                calls.append({"c": "solve", "m": "N", "t": rng.choice(ticks + ticks[1:])})
            else:
                calls.append({"c": "solve", "m": "O", "t": 1000.0})
        k = next((j for j, c in enumerate(calls) if c["c"] == "solve"), None)
        if k is None:
            calls.append({"c": "solve", "m": "N", "t": first})
        elif rng.random() < .8:
            calls[k]["t"] = first
        sc["calls"] = calls + [{"c": "solve", "m": "N", "t": 1000.0, "rep": 3}]
        if rng.random() < .5:
            sc["mirror"] = True
        g.put("ticks", **sc)["grid"] = {"ticks": ticks + [1000.0], "fs": [{"tick": f["tick"] + [f["open"][-1]], "open": f["open"]} for f in fs]}


# ------------------------------------------------------------------------------- pairs of runs
def expand(calls):
    res = []
    for c in calls:
        n = c.get("rep", 1)
        res += [{k: v for k, v in c.items() if k != "rep"} for _ in range(n)]
    return res


def with_extras(g, sc, kind):
    """sc with additional requests in between."""
    rng = g.rng
    b = dict(sc)
    out, begun = [], False
    roots = bool(sc["prob"].get("roots"))
    for c in expand(sc["calls"]):
        if kind == "reject":
            if not begun:
                if out and out[-1]["c"] == "tstop" and c["c"] == "solve":
                    # the stop time lies on the other side
                    out.append({"c": "solve", "m": rng.choice("NO"), "t": -rng.choice([1e-3, .5, 10.0]), "x": True})
                for _ in range(rng.randrange(0, 3)):
                    out.append({"c": "solve", "m": rng.choice("NO"), "t": rng.choice([0.0, -0.0]), "x": True})
                if rng.random() < .5:
                    out.append({"c": "dky", "th": 0.0, "k": rng.randrange(1, 8), "x": True})
            else:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    th = {"hu": rng.choice([1.001, 1.1, 2.0, 1e3, 1e9])}
                    u = rng.random()
                    if u < .3:
                        out.append({"c": "dky", "th": {"hu": rng.random()}, "k": {"ku": rng.randrange(1, 4)}, "x": True})
                    elif u < .5:
                        out.append({"c": "dky", "th": th, "k": rng.randrange(0, 3), "x": True})
                    elif u < .75 or roots:
                        out.append({"c": "getsol", "th": th, "x": True})
                    else:
                        out.append({"c": "solve", "m": "N", "t": th, "x": True})
                if c["c"] == "tstop" and not roots:
                    out.append({"c": "tstop", "t": {"hu": rng.choice([.5, 1.0, 3.0])}, "x": True})
                    out.append({"c": "solve", "m": rng.choice("NO"), "t": rng.choice([{"hh": 5.0}, {"tn": 1.0}]), "x": True})
            out.append(c)
        else:
            out.append(c)
            for _ in range(rng.randrange(0, 4)):
                out.append(rng.choice([
                    {"c": "getsol", "th": {"hu": rng.choice([0.0, .5, 1.0, rng.random()])}, "x": True},
                    {"c": "dky", "th": {"hu": rng.choice([0.0, .5, 1.0, rng.random()])}, "k": rng.randrange(0, 2), "x": True}]))
        begun = begun or c["c"] == "solve"
    b["calls"] = out
    a = dict(sc, calls=expand(sc["calls"]))
    return a, b


def mixed(g, i):
    """A scenario of some kind, to be run twice."""
    rng = g.rng
    h = Gen(rng.randrange(1 << 40))
    kinds = [lambda: scen_script(h, 1, (rng.choice(["calm", "busy", "fail", "rough", "conv"]),)), lambda: scen_real(h, 8),
             lambda: scen_roots(h, 1), lambda: scen_roots(h, 1, True), lambda: scen_tstop(h, 3), lambda: scen_fail(h, 20),
             lambda: scen_const(h, 1), lambda: scen_tol(h, 5), lambda: scen_first(h, 1), lambda: scen_order(h, 1),
             lambda: scen_dense_out(h, 4), lambda: scen_close(h, 3)]
    kinds[i % len(kinds)]()
    sc = rng.choice([s for s in h.out if s["tol"]["k"] != "bad"])   # weights must not depend on the number of calls
    sc["budget"] = 600
    return sc


def pairs(g, kind, n):
    """[(id, a, b)]"""
    rng, res = g.rng, []
    for i in range(n):
        sid = "%s%d" % (kind, i + 1)
        sc = mixed(g, i)
        sc.pop("id")
        if kind == "mirror":
            # only times that do not depend on anything else
            a, b = dict(sc, mirror=False), dict(sc, mirror=True)
        elif kind == "units":
            # factors are powers of two, so that all conversions are exact: [sign, exponent]
            real = sc["nls"] != "script"
            f = lambda k, neg=False: [rng.choice([1, -1]) if neg else 1, rng.randrange(-k, k + 1)]
            one = [1, 0]
            yu = [f(12)] * len(sc["y0"]) if sc["tol"]["k"] == "ss" else [f(12) for _ in sc["y0"]]
            if rng.random() < .3:
                yu = [one] * len(yu)
            if real and rng.random() < .5:
                yu = [[rng.choice([1, -1]), u[1]] for u in yu]
            a, b = sc, dict(sc, tu=rng.choice([one, f(30)]), yu=yu, ru=f(20) if real else one,
                            gu=[f(20, True) for _ in sc["prob"].get("roots", [])])
        elif kind == "split":
            sc = mixed(g, rng.choice([0, 1, 2, 3, 5, 6, 9, 11]))
            sc.pop("id")
            first = {"c": "solve", "m": "N", "t": rng.choice([.01, .5, 1.0, 5.0])}
            T = first["t"] * rng.choice([2.0, 10.0, 50.0, 300.0])
            one = {"c": "solve", "m": "N", "t": T, "rep": 12}
            if rng.random() < .4:
                sc.update(tail={"c": [.7, .8, .9], "d": ["rand"]}, budget=1700, script=[])
                T = first["t"] * 1e6
                one = {"c": "solve", "m": "N", "t": T, "rep": 4}
            parts = [first]
            for _ in range(rng.randrange(3, 30)):
                parts.append(rng.choice([{"c": "solve", "m": "O", "t": T, "rep": rng.randrange(1, 60)},
                                         {"c": "solve", "m": "N", "t": {"hh": rng.choice([.1, 1.0, 3.0, 20.0])}},
                                         {"c": "solve", "m": "N", "t": {"hu": rng.choice([.1, .9])}}] +
                                        g.interps()))
            if rng.random() < .3:
                parts[0] = dict(first, m="O")
            a, b = dict(sc, calls=[first, one]), dict(sc, calls=parts)
        else:
            a, b = with_extras(g, sc, kind)
        res.append((sid, dict(a, id=sid), dict(b, id=sid)))
    return res


# -------------------------------------------------------------------------------------- checks
FAMILIES = [(scen_script, 12), (scen_real, 16), (scen_fail, 20), (scen_const, 5), (scen_order, 10), (scen_roots, 10),
            (lambda g, n: scen_roots(g, n, True), 6), (scen_tstop, 12), (scen_tol, 15), (scen_long, 2), (scen_args, 8),
            (scen_first, 8), (scen_ctest, 5), (scen_dense_out, 6), (scen_close, 9), (scen_ticks, 20), (scen_start, 12), (scen_singular, 6), (lambda g, n: scen_ticks(g, n or 25, .6), 0)]
BYNAME = {"script": 0, "real": 1, "fail": 2, "const": 3, "order": 4, "roots": 5, "rootsreal": 6, "tstop": 7, "tol": 8, "long": 9,
          "args": 10, "first": 11, "ctest": 12, "dense": 13, "close": 14, "ticks": 15, "start": 16, "singular": 17, "flat": 18}
FOCUS = {"I01": ["script", "real", "args", "tstop", "roots"], "I02": ["script", "roots", "rootsreal", "close"], "I03": ["dense", "dense", "const"],
         "I04": ["order", "const", "fail", "script"], "I05": ["real", "script", "real"], "I06": ["fail", "order", "script"],
         "I07": ["fail", "fail", "fail", "script", "singular"], "I08": ["order", "order", "const", "script"],
         "I09": ["roots", "rootsreal", "first", "close"], "I10": ["roots", "rootsreal", "first", "close"],
         "I11": ["real", "ctest", "script", "real"], "I12": ["ctest", "ctest", "real"], "I13": ["tol", "tol", "tol", "tol", "real"],
         "I14": ["long"], "I16": ["fail", "real", "roots", "script"], "I18": ["tstop", "tstop", "tstop", "first"], "I19": ["roots", "rootsreal", "first", "close"],
         "I20": ["start", "start", "start", "first"], "I21": ["fail", "order", "tstop", "script", "start"],
         "I24": ["fail", "fail", "singular", "singular", "tstop", "tol", "args", "dense", "close", "flat", "flat", "flat"]}
PAIRED = {"I03": "interp", "I14": "split", "I15": "reject", "I17": "mirror", "I25": "units"}
MONITORED = ["I01", "I02", "I03", "I04", "I05", "I06", "I07", "I08", "I09", "I10", "I11", "I12", "I13", "I14", "I16", "I18", "I19", "I20", "I21", "I24"]


def execute(bins, scens, path, tag):
    """Run scenarios; traces in order."""
    sp, tp = path + "." + tag + ".in", path + "." + tag + ".out"
    with open(sp, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    with open(tp, "w") as f:
        r = sh([os.path.join(bins, "ida"), sp], timeout=600, stdout=f)
    if r.returncode == 3 and "HANG" in r.stderr:
        sid = r.stderr.split("HANG", 1)[1].strip()
        raise Violation("a call does not return (scenario %s)" % sid, {"scenario": [s for s in scens if s["id"] == sid]})
    if r.returncode:
        raise ToolError("harness: exit %d\n%s" % (r.returncode, r.stderr[-2000:]))
    return tp


def double(x):
    return struct.unpack(">d", bytes.fromhex(x))[0]


def gridded(scens, tp, path):
    """The recordings of scen_ticks with times mapped to the grid of IdaCalls; number of events."""
    n = 0
    with open(path, "w") as f:
        for sc, line in zip(scens, open(tp)):
            tr = json.loads(line)
            sg = -1.0 if sc["mirror"] else 1.0
            base, fs = sc["grid"]["ticks"], sc["grid"]["fs"]
            # ends of steps are ticks, too
            ticks = list(base)
            for e in tr["ev"]:
                t = sg * double(e["t"]) if e["e"] == "att" else 0.0
                if t == t and all(abs(t - x) > 1e-9 for x in ticks):
                    ticks.append(t)
            ticks.sort()
            inside = [max(j for j in range(len(base)) if base[j] <= t) for t in ticks]
            sign = lambda f, j: f["tick"][inside[j]] if ticks[j] == base[inside[j]] else f["open"][min(inside[j], len(f["open"]) - 1)]
            fs = [{"tick": [sign(f, j) for j in range(len(ticks))],
                   "open": [f["open"][min(inside[j], len(f["open"]) - 1)] for j in range(len(ticks) - 1)]} for f in fs]

            def pos(x):
                t = sg * double(x)
                if t != t:
                    return 0
                k = min(range(len(ticks)), key=lambda j: abs(ticks[j] - t))
                if abs(ticks[k] - t) < 1e-9 and (k > 0 or t >= 0):
                    return 4 * k + (1 if t > ticks[k] else -1 if t < ticks[k] else 0)
                return 4 * max(j for j in range(len(ticks)) if ticks[j] <= t) + 2
            ev = []
            for e in tr["ev"]:
                if e["e"] == "tstop":
                    ev.append({"e": "stop", "t": pos(e["t"])})
                elif e["e"] == "solve":
                    ev.append({"e": "call", "m": e["m"], "tout": pos(e["tout"])})
                elif e["e"] == "att":
                    ev.append({"e": "step", "t": pos(e["t"])})
                elif e["e"] == "ret":
                    out = "close" if e["out"] == "err:CloseRoots" else "err" if e["out"].startswith("err") else e["out"]
                    ev.append({"e": "ret", "out": out, "t": 0 if out in ("err", "close") else pos(e["tret"]), "tn": pos(e["tn"]),
                               "ir": e["ir"] if out == "root" else [0] * len(sc["grid"]["fs"])})
            n += len(ev)
            f.write(json.dumps({"id": tr["id"], "fs": fs, "ev": ev}) + "\n")
    return n


def monitor(bins, d, prop, rng, rounds):
    g = Gen(rng.randrange(1 << 40))
    for f, n in FAMILIES[:-1]:
        f(g, n)
    for _ in range(rounds):
        for name in FOCUS.get(prop, []):
            f, n = FAMILIES[BYNAME[name]]
            f(g, n)
    try:
        tp = execute(bins, g.out, os.path.join(d, "mon"), "m")
    except Violation as v:
        if prop in ("I01", "I02", "I07", "I09", "I10", "I14", "I18"):
            raise
        raise ToolError(v.what)
    events, outs = 0, {}
    with open(tp) as f:
        for line in f:
            t = json.loads(line)
            events += len(t["ev"])
            for e in t["ev"]:
                k = e["e"] + ":" + str(e.get("out", ""))
                outs[k] = outs.get(k, 0) + 1
    log("recorded", len(g.out), "runs", events, "events")
    cfg = 'SPECIFICATION JudgeSpec\nCONSTANT Props = {"%s"}\nCHECK_DEADLOCK FALSE\n' % prop
    t = tlc("IdaObs", None, cfgtext=cfg, env={"TRACES": tp}, heap="16g")
    log("judged", t.distinct)
    if t.bad:
        p, sid, pos, _ = sorted(t.bad, key=lambda b: int(b[2]))[0]
        tr = next(x for x in map(json.loads, open(tp)) if x["id"] == sid)
        raise Violation("run %s breaks %s at event %s (%d runs in all)" % (sid, prop, pos, len(t.bad)),
                        {"scenario": next(s for s in g.out if s["id"] == sid), "event": int(pos),
                         "events": tr["ev"][max(0, int(pos) - 60):int(pos)]})
    if t.rc != 0:
        raise ToolError("TLC: " + t.out[-3000:])
    if t.distinct < events:
        raise ToolError("TLC visited %d states for %d events" % (t.distinct, events))
    return {"runs": len(g.out), "events": events, "event_outcomes": outs, "obs_states": t.distinct, "generated": t.generated,
            "sample": g.out[0]}


def paired(bins, d, prop, rng, n):
    kind = PAIRED[prop]
    g = Gen(rng.randrange(1 << 40))
    ps = pairs(g, kind, n)
    try:
        ta = execute(bins, [a for _, a, _ in ps], os.path.join(d, "pair"), "a")
        tb = execute(bins, [b for _, _, b in ps], os.path.join(d, "pair"), "b")
    except Violation as v:
        raise ToolError(v.what)
    pp = os.path.join(d, "pairs.ndjson")
    byid = {sid: b for sid, _, b in ps}
    events = 0
    with open(pp, "w") as f:
        for la, lb in zip(open(ta), open(tb)):
            a, b = json.loads(la), json.loads(lb)
            assert a["id"] == b["id"]
            events += len(a["ev"]) + len(b["ev"])
            x = {"id": a["id"], "kind": kind, "nroots": a["nroots"], "a": a["ev"], "b": b["ev"]}
            if kind == "units":
                q = byid[a["id"]]
                h = lambda v: struct.pack(">d", v).hex()
                # what a value of the second run is multiplied with
                v = lambda u, k=1: h(u[0] ** k * 2.0 ** (k * u[1]))
                x["un"] = {"t": v(q["tu"]), "cj": v(q["tu"], -1),
                           "y": [[h(u[0] * 2.0 ** (u[1] - k * q["tu"][1])) for u in q["yu"]] for k in range(8)],
                           "w": [h(2.0 ** -u[1]) for u in q["yu"]], "r": v(q["ru"], -1), "g": [v(u, -1) for u in q["gu"]],
                           "s": [u[0] for u in q["gu"]]}
            f.write(json.dumps(x) + "\n")
    log("recorded", len(ps), "pairs", events, "events")
    cfg = 'SPECIFICATION JudgeSpec\nCONSTANT Props = {"%s"}\nCHECK_DEADLOCK FALSE\n' % prop
    t = tlc("IdaPair", None, cfgtext=cfg, env={"TRACES": pp}, heap="16g")
    log("compared", t.distinct)
    if t.bad:
        p, sid, pos, _ = sorted(t.bad, key=lambda b: int(b[2]))[0]
        q = next(x for x in ps if x[0] == sid)
        tr = next(x for x in map(json.loads, open(pp)) if x["id"] == sid)
        raise Violation("the runs of pair %s differ at event %s (%d pairs in all)" % (sid, pos, len(t.bad)),
                        {"a": q[1], "b": q[2], "event": int(pos), "events_b": tr["b"][max(0, int(pos) - 20):int(pos)]})
    if t.rc != 0:
        raise ToolError("TLC: " + t.out[-3000:])
    if t.distinct < events // 4:
        raise ToolError("TLC visited %d states for %d events" % (t.distinct, events))
    return {"pairs": len(ps), "pair_events": events, "pair_states": t.distinct, "generated": t.generated, "sample": ps[0]}


# bounds for the check of the design: ticks, functions, calls
DESIGN = ["NT = 2 NF = 1 MaxCalls = 4 Stops = TRUE Flat = TRUE", "NT = 3 NF = 1 MaxCalls = 4 Stops = TRUE Flat = FALSE",
          "NT = 2 NF = 2 MaxCalls = 3 Stops = TRUE Flat = FALSE"]
DESIGN_DEEP = ["NT = 3 NF = 1 MaxCalls = 5 Stops = TRUE Flat = TRUE", "NT = 4 NF = 1 MaxCalls = 4 Stops = TRUE Flat = FALSE",
               "NT = 2 NF = 2 MaxCalls = 4 Stops = TRUE Flat = TRUE", "NT = 3 NF = 2 MaxCalls = 3 Stops = TRUE Flat = FALSE"]
CALLS = ["I01", "I02", "I09", "I10", "I15", "I18", "I22"]


def design(prop):
    """The requirement holds on the design of the calls."""
    cov = {"design_states": 0, "design_bounds": []}
    for c in DESIGN + (["NT = 2 NF = 2 MaxCalls = 3 Stops = FALSE Flat = TRUE"] if prop == "I22" else []) + (DESIGN_DEEP if THOROUGH else []):
        t = tlc("IdaCallsMC", None, cfgtext='SPECIFICATION Spec\nCONSTANTS %s\nCONSTANT Props = {"%s"}\nINVARIANT Holds\n'
                "CHECK_DEADLOCK FALSE\n" % (c, prop), heap="16g")
        if t.rc != 0:
            raise ToolError("the design does not fulfil %s (%s): %s" % (prop, c, t.out[-3000:]))
        cov["design_states"] += t.distinct
        cov["design_bounds"].append(c)
    log("design", cov["design_states"])
    return cov


STEP = ["Sizes = {1, 2} EF = 2 CF = 2 MS = 3 MaxNst = 5 MaxCalls = 2", "Sizes = {1, 2} EF = 3 CF = 3 MS = 2 MaxNst = 4 MaxCalls = 2",
        "Sizes = {1, 2} EF = 2 CF = 1 MS = 6 MaxNst = 6 MaxCalls = 1"]
STEP_DEEP = ["Sizes = {1, 2} EF = 2 CF = 2 MS = 7 MaxNst = 7 MaxCalls = 1", "Sizes = {1, 2, 3} EF = 2 CF = 2 MS = 3 MaxNst = 4 MaxCalls = 2",
             "Sizes = {1, 2} EF = 4 CF = 4 MS = 3 MaxNst = 4 MaxCalls = 2", "Sizes = {1, 2} EF = 2 CF = 2 MS = 4 MaxNst = 6 MaxCalls = 2"]
STEPS = {"I03": ["keep star", "psi by differences"], "I04": ["psi by differences", "keep ns"], "I07": ["keep failures"],
         "I08": ["keep ns", "raise early"], "I14": ["no limit"], "I16": ["count retries"]}


def stepdesign(prop):
    """The requirement holds on the design of the step loop, and fails on designs with a fault."""
    def go(bounds, flaw, spec="Spec", what="INVARIANT Holds"):
        return tlc("IdaDesign", None, heap="16g", cfgtext='SPECIFICATION %s\nCONSTANTS %s Props = {"%s"} Flaw = "%s"\n%s\n'
                   "CHECK_DEADLOCK FALSE\n" % (spec, bounds, prop, flaw, what))
    cov = {"design_states": 0, "design_bounds": [], "design_faults_exposed": []}
    for c in STEP + (STEP_DEEP if THOROUGH else []):
        t = go(c, "none")
        if t.rc != 0:
            raise ToolError("the design does not fulfil %s (%s): %s" % (prop, c, t.out[-3000:]))
        cov["design_states"] += t.distinct
        cov["design_bounds"].append(c)
    for f in STEPS[prop]:
        if go(STEP[0], f).rc != 12:
            raise ToolError("%s does not expose the design fault '%s'" % (prop, f))
        cov["design_faults_exposed"].append(f)
    if prop in ("I07", "I14"):
        t = go("Sizes = {1, 2} EF = 2 CF = 2 MS = 3 MaxNst = 4 MaxCalls = 2", "none", "Fair", "PROPERTY Ends")
        if t.rc != 0:
            raise ToolError("a call of the design does not end: " + t.out[-3000:])
        cov["design_liveness_states"] = t.distinct
    log("step design", cov["design_states"])
    return cov


def calls(bins, d, prop, rng, n):
    """Recorded runs are runs of the design."""
    g = Gen(rng.randrange(1 << 40))
    scen_ticks(g, n, .6 if prop == "I22" else .2)
    try:
        tp = execute(bins, g.out, os.path.join(d, "calls"), "m")
    except Violation as v:
        if prop in ("I01", "I02", "I09", "I10", "I18"):
            raise
        raise ToolError(v.what)
    gp = os.path.join(d, "calls.ndjson")
    events = gridded(g.out, tp, gp)
    t = tlc("IdaCallsObs", None, cfgtext='SPECIFICATION JudgeSpec\nCONSTANT Props = {"%s", "departs"}\nCHECK_DEADLOCK FALSE\n' % prop,
            env={"TRACES": gp}, heap="16g")
    log("followed", t.distinct)
    bad = [b for b in t.bad if b[0] == prop]
    if bad:
        p, sid, pos, _ = sorted(bad, key=lambda b: int(b[2]))[0]
        raise Violation("run %s breaks %s at event %s (%d runs in all)" % (sid, prop, pos, len(bad)),
                        {"scenario": next(s for s in g.out if s["id"] == sid), "event": int(pos),
                         "mapped": next(x for x in map(json.loads, open(gp)) if x["id"] == sid)})
    if t.rc != 0:
        raise ToolError("TLC: " + t.out[-3000:])
    if t.distinct < events:
        raise ToolError("TLC visited %d states for %d events" % (t.distinct, events))
    departed = len({b[1] for b in t.bad})
    return {"mapped": json.loads(open(gp).readline()), "design_runs": n, "design_runs_conforming": n - departed, "design_events": events, "calls_states": t.distinct,
            "generated": t.generated}


def run(prop):
    rng = random.Random(SEED * 7919 + 100 + int(prop[1:]))
    d = workdir(prop)
    try:
        bins = build()
        log("built")
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        if prop in MONITORED:
            c = monitor(bins, d, prop, rng, 20 if THOROUGH else 1)
            cov["states"] += c["obs_states"]
            cov["transitions"] += c.pop("generated")
            cov["traces_validated_against_impl"] += c["runs"]
            cov["samples"].append(c.pop("sample"))
            cov.update(c)
        if prop in PAIRED:
            c = paired(bins, d, prop, rng, 2400 if THOROUGH else 480 if prop == "I25" else 240)
            cov["states"] += c["pair_states"]
            cov["transitions"] += c.pop("generated")
            cov["traces_validated_against_impl"] += 2 * c["pairs"]
            cov["samples"].append(c.pop("sample"))
            cov.update(c)
        if prop in CALLS:
            cov.update(design(prop))
            c = calls(bins, d, prop, rng, 20000 if THOROUGH else 1500)
            cov["states"] += c["calls_states"] + cov["design_states"]
            cov["transitions"] += c.pop("generated")
            cov["traces_validated_against_impl"] += c["design_runs"]
            cov["samples"].append(c.pop("mapped"))
            cov.update(c)
        if prop in STEPS:
            cov.update(stepdesign(prop))
            cov["states"] += cov["design_states"]
        return cov, ["the integrator is built from /repo/src with stand-ins for the old ndarray and failure crates (see DESIGN.md)",
                     "user functions are deterministic"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
