"""Nonlinear solver layer: N01..N08.

spec/Newton.tla    design, model-checked with the property's monitor
spec/Newton.tla    (Gen) every complete solve of the design becomes a script of answers
harness newton     replays scripts into nonlinear::Newton, recording all boundary events
spec/NewtonObs.tla judges every recorded session with the same monitor
spec/NewtonPair.tla judges reuse (N08)"""
import json, os, random, re
from common import *

MC = """SPECIFICATION Spec
CONSTANTS
  MaxItersSet = {%s}
  MaxSolves = %d
  Fatal = {"ill", "cont"}
  RetryLimit = TRUE
  KeepHist = FALSE
INVARIANTS TypeOK JcurAgrees %s
%s
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS
  MaxItersSet = {%s}
  MaxSolves = 1
  Fatal = {"fatal"}
  RetryLimit = TRUE
  KeepHist = TRUE
INVARIANTS EmitScripts
CHECK_DEADLOCK FALSE
"""


def scripts(maxits):
    """All complete single solves of the design, as (maxit, call, [(kind, answer)])."""
    t = tlc("Newton", None, cfgtext=GEN % ", ".join(map(str, maxits)), workers=1)
    res = []
    # TLC wraps long values over several lines
    for m in re.finditer(r'<<\s*"SCRIPT",\s*(\d+),\s*(TRUE|FALSE),\s*(TRUE|FALSE),\s*(<<.*?>>\s*>>)\s*>>', t.out, re.S):
        ev = re.findall(r'<<\s*"(\w+)",\s*"(\w+)"\s*>>', m.group(4))
        res.append((int(m.group(1)), m.group(2) == "TRUE", ev))
    if len(res) < 100 or any(e[-1][0] != "end" for _, _, e in res):
        raise ToolError("script generation gave %d scripts" % len(res))
    return res, t


def streams(ev):
    kinds = ["sys", "setup", "lsolve", "ctest"]
    return " ".join(",".join(o for k, o in ev if k == kind) or "-" for kind in kinds)


class Writer:
    def __init__(self, path):
        self.f, self.n, self.lines = open(path, "w"), 0, {}

    def session(self, prec, dim, maxit, vseed, regime, persist, pair, solves):
        self.n += 1
        sid = "s%d" % self.n
        text = "S %s %d %d %d %d %d %d %d\n" % (sid, prec, dim, maxit, vseed, regime, persist, pair)
        text += "".join("V %d %s\n" % (call, streams(ev)) for call, ev in solves)
        self.lines[sid] = text
        self.f.write(text)


DIMS = [1, 2, 3, 4, 5, 6, 8, 12]
LARGE = [17, 33, 63]
STALE = [(True, [("sys", "ok"), ("setup", "true"), ("lsolve", "fatal")])]  # leaves the Jacobian current


def long_solve(rng, maxit):
    """A random walk through the design: benign answers up to a chosen point in each attempt."""
    ev, call = [], rng.random() < 0.6
    for att in range(2):
        ev.append(("sys", "ok"))
        if call or att:
            ev.append(("setup", rng.choice(["true", "true", "false"])))
        stop = rng.randrange(1, maxit + 2)
        done = False
        for it in range(max(1, maxit)):
            last = it + 1 == stop
            if last:
                k = rng.choice(["lsolve", "ctest", "ctest", "ctest", "sys"])
                o = rng.choice(["rec", "rec", "fatal"]) if rng.random() < 0.5 or k != "ctest" else "conv"
                if k == "lsolve":
                    ev.append(("lsolve", o))
                    break
                ev.append(("lsolve", "ok"))
                if k == "ctest":
                    ev.append(("ctest", o))
                    done = o == "conv"
                    break
                ev.append(("ctest", "not"))
                ev.append(("sys", o))
                break
            ev += [("lsolve", "ok"), ("ctest", "not")]
            if it + 1 < maxit:
                ev.append(("sys", "ok"))
        if done:
            break
    return call, ev


def make_sessions(path, prop, scr, rng):
    w = Writer(path)
    pair = prop == "N08"
    dim = lambda: rng.choice(DIMS) if rng.random() < .99 else rng.choice(LARGE)
    prec = lambda: rng.choice([64, 64, 32])
    vs = lambda: rng.randrange(1, 2 ** 40)
    by = {}
    for mx, call, ev in scr:
        by.setdefault(mx, []).append((call, ev))
    if not pair:
        # every complete solve of the design, once on a new solver, once with the Jacobian current
        for mx, call, ev in scr:
            w.session(prec(), dim(), mx, vs(), rng.randrange(5), rng.random() < 0.3, 0, [(call, ev)])
        some = scr if THOROUGH else rng.sample(scr, min(len(scr), 500))
        for mx, call, ev in some:
            w.session(prec(), dim(), mx, vs(), rng.randrange(5), 0, 0, STALE + [(call, ev)])
    else:
        some = scr if THOROUGH else rng.sample(scr, min(len(scr), 700))
        for mx, call, ev in some:
            for pre in (STALE, [rng.choice(by[mx])], [rng.choice(by[mx]) for _ in range(3)]):
                w.session(prec(), dim(), mx, vs(), rng.randrange(5), 0, 1, pre + [(call, ev)])
    # long lives: many solves with one solver, larger iteration limits
    n = 1500 if THOROUGH else 250
    for _ in range(n):
        mx = rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 30])
        k = rng.randrange(2, 9) if rng.random() < .97 else 60
        w.session(prec(), dim(), mx, vs(), rng.randrange(5), rng.random() < 0.3, int(pair),
                  [long_solve(rng, mx) for _ in range(k)])
    # persistent failures of every routine (the scripted answer is repeated for ever)
    ok = [("sys", "ok"), ("setup", "true"), ("lsolve", "ok"), ("ctest", "not")]
    for j, kind in enumerate(["sys", "setup", "lsolve", "ctest"]):
        for bad in ("rec", "not", "false", "fatal"):
            if bad == "not" and kind != "ctest" or bad == "false" and kind != "setup":
                continue
            for mx in (0, 1, 2, 5, 40, 300):
                for call in (0, 1):
                    ev = [(k, o) for k, o in ok if k != kind] + [(kind, bad)]
                    w.session(64, dim(), mx, vs(), 1, 1, 0 if not pair else 1,
                              [(call, ev)] * (3 if not pair else 2))
    w.f.close()
    return w


def run(prop):
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    d = workdir(prop)
    try:
        bins = build_core()
        log("built")
        mon = "" if prop == "N08" else prop
        t1 = design_check(prop, "Newton", MC % (
            ("0, 1, 2, 3, 4", 3, mon, "PROPERTY Terminates" if prop == "N01" else "") if THOROUGH else
            ("0, 1, 2", 2, mon, "PROPERTY Terminates" if prop == "N01" else "")))
        log("design", t1.distinct)
        scr, t2 = scripts([0, 1, 2, 3, 4] if THOROUGH else [0, 1, 2, 3])
        log("scripts", len(scr))
        sp = os.path.join(d, "scripts")
        w = make_sessions(sp, prop, scr, rng)
        tp = os.path.join(d, "traces.ndjson")
        with open(tp, "w") as f:
            r = sh([os.path.join(bins, "newton"), sp], timeout=300, stdout=f)
        if r.returncode:
            raise ToolError("harness: " + r.stderr[-2000:])
        recs = [json.loads(x) for x in open(tp)]
        log("executed", len(recs))
        spec = "NewtonPair" if prop == "N08" else "NewtonObs"
        cfg = "SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % prop
        t3 = tlc(spec, None, cfgtext=cfg, env={"TRACES": tp})
        log("judged", t3.distinct)
        if t3.rc != 0:
            if not t3.bad:
                raise ToolError("TLC stopped without naming a trace:\n" + t3.out[-3000:])
            _, sid, pos, _ = t3.bad[0]
            rec = next(x for x in recs if x["id"] == sid)
            raise Violation("session %s breaks %s at event %s" % (sid, prop, pos),
                            {"script": w.lines[sid], "trace": rec, "event": int(pos)})
        events = sum(len(x.get("ev", [])) + len(x.get("reused", [])) for x in recs)
        if t3.distinct < events:
            raise ToolError("TLC visited %d states for %d events" % (t3.distinct, events))
        outs = {}
        for x in recs:
            for e in x.get("ev", []) + x.get("reused", []):
                k = e["e"] + ":" + str(e.get("out", ""))[:4]
                outs[k] = outs.get(k, 0) + 1
        return ({"states": t1.distinct + t3.distinct, "transitions": t1.generated + t3.generated,
                 "traces_validated_against_impl": len(recs), "design_states": t1.distinct,
                 "scripts_from_design": len(scr), "events": events, "event_outcomes": outs,
                 "samples": [w.lines[recs[0]["id"]], recs[0]]},
                ["user routines behave deterministically and obey their interfaces",
                 "vector entries are finite"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
