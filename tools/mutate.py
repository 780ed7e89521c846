#!/usr/bin/env python3
"""mutate.py SEED N [file-regex]: small random changes to a scratch copy of the code, to see which the
checks do not notice (not part of any check).  Run it from a copy of /verif, with VERIF_REPO naming
a scratch copy of the code.  One JSON line per change."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import common, ida, shutil
from common import *
assert REPO != "/repo"

SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" < ", " > "), (" > ", " < "),
        (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" += ", " -= "), (" -= ", " += "),
        (" *= ", " /= "), ("true", "false"), ("false", "true"), ("::hundred()", "::twenty()"), ("::quarter()", "::half()"), ("::half()", "::quarter()"),
        ("::two()", "::one()"), ("::one()", "::two()"), ("::pt9()", "::one()"), ("::twenty()", "::hundred()"), ("..=", ".."), (".abs()", ""), (".signum()", ""),
        (".recip()", ""), (".max(", ".min("), (".min(", ".max("), (" + 1", ""), (" - 1", ""), (" + 1", " + 2"), ("IdaTask::Normal", "IdaTask::OneStep"),
        ("ida_hh", "ida_hused"), ("ida_kk", "ida_kused"), ("ida_tn", "ida_tretlast"), ("Some(", "None.or(Some("), ("ida_rr", "ida_eps_newt"), ("err_k", "err_km1"),
        ("::zero()", "::one()"), ("0..", "1.."), ("ida_tlo", "ida_thi"), ("ida_thi", "ida_tlo"), ("ida_glo", "ida_ghi"), ("ida_ghi", "ida_glo"), ("ida_glo", "ida_grout"),
        ("1..", "2..")]


def candidates(path):
    src = open(path).read()
    block = 0
    out, pos = [], 0
    for line in src.split("\n"):
        code, start = line, pos
        pos += len(line) + 1
        if "#[cfg(test)]" in line:
            break
        s = line.strip()
        if block:
            if "*/" in s:
                block = 0
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if s.startswith("//") or s.startswith("use ") or s.startswith("#") or "profile" in s or "trace!" in s:
            continue
        code = line.split("//")[0]
        if re.match(r"\s*(pub )?(fn|struct|impl|enum|trait|mod|where|type)\b", code) or ("<" in code and "::<" in code):
            pass
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), code):
                out.append((start + m.start(), a, b))
        for m in re.finditer(r"(?<![\w.])([0-9]+)(?![\w])", code):
            out.append((start + m.start(), m.group(1), str(int(m.group(1)) + 1)))
            if m.group(1) != "0":
                out.append((start + m.start(), m.group(1), str(int(m.group(1)) - 1)))
        if re.match(r"\s*(self\.|\*)[\w.\[\]]+ *[-+*/]?= .*;$", code) or re.match(r"\s*self\.[\w.]+\(.*\);$", code):
            t = code.strip()
            out.append((start + code.index(t), t, ";"))
        if re.search(r"^\s*\+|^\s*'|:.*(Copy|Float|Clone)", code):
            out = [c for c in out if c[0] < start]
        m = re.match(r"(.*\bif )(?!let)(.*) \{$", code)
        if m:
            out.append((start + len(m.group(1)), m.group(2), "!(%s)" % m.group(2)))
            out.append((start + len(m.group(1)), m.group(2), "(%s) && false" % m.group(2)))
            out.append((start + len(m.group(1)), m.group(2), "(%s) || true" % m.group(2)))
    return src, out


def judge(bins, d, small):
    rng = random.Random(4711 if small else 815)
    g = ida.Gen(rng.randrange(1 << 40))
    for f, n in ida.FAMILIES:
        f(g, max(1, n // 3) if small else n)
    if not small:
        for p in ida.MONITORED:
            for name in ida.FOCUS.get(p, []):
                f, n = ida.FAMILIES[ida.BYNAME[name]]
                f(g, n)
    tp = ida.execute(bins, g.out, os.path.join(d, "mon"), "m")
    t = tlc("IdaObs", None, cfgtext="SPECIFICATION JudgeSpec\nCONSTANT Props = {%s}\nCHECK_DEADLOCK FALSE\n" %
            ",".join('"%s"' % p for p in ida.MONITORED), env={"TRACES": tp}, heap="12g", timeout=800)
    hits = {b[0] for b in t.bad}
    if hits:
        return sorted(hits)
    for p in () if small else ("I03", "I14", "I15", "I17"):
        try:
            ida.paired(bins, d, p, rng, 240)
        except Violation as v:
            hits.add(p)
    if not small and not hits:
        g = ida.Gen(rng.randrange(1 << 40))
        ida.scen_ticks(g, 900)
        tp, gp = ida.execute(bins, g.out, os.path.join(d, "calls"), "m"), os.path.join(d, "calls.ndjson")
        ida.gridded(g.out, tp, gp)
        t = tlc("IdaCallsObs", None, cfgtext="SPECIFICATION JudgeSpec\nCONSTANT Props = {%s}\nCHECK_DEADLOCK FALSE\n" %
                ",".join('"%s"' % p for p in ida.CALLS), env={"TRACES": gp}, heap="12g")
        hits |= {b[0] for b in t.bad}
    return sorted(hits)


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else "src/")
    files = sorted(os.path.join(r, f) for r, _, fs in os.walk(REPO) for f in fs if f.endswith(".rs"))
    files = [f for f in files if "/target/" not in f and re.match("(src|crates/[a-z]*/src)/", os.path.relpath(f, REPO))
             and rx.search(os.path.relpath(f, REPO)) and not re.search("sample|test.*problem|/tests/", f)]
    cands = []
    for f in files:
        src, out = candidates(f)
        cands += [(f, p, a, b) for p, a, b in out]
    rng = random.Random(seed)
    rng.shuffle(cands)
    print(json.dumps({"candidates": len(cands)}), flush=True)
    for f, p, a, b in cands[:n]:
        src = open(f).read()
        t0 = time.time()
        ln = src.count("\n", 0, p) + 1
        assert src[p:p + len(a)] == a
        new = src[:p] + b + src[p + len(a):]
        if "None.or(Some(" in b:
            continue
        line = new.split("\n")[ln - 1].strip()
        rec = {"f": os.path.relpath(f, REPO), "l": ln, "a": a[:60], "b": b[:60], "line": line[:120]}
        d = workdir("mut")
        try:
            open(f, "w").write(new)
            if "crates/" in f:
                res = []
                ids = ["L01", "L03", "L04", "L02", "L05"] if "linear/" in f and "nonlinear" not in f else ["N0%d" % i for i in range(1, 9)] + ["W01"]
                for p_ in ids:
                    r = subprocess.run([sys.executable, os.path.join(V, "bin", "check.py"), p_], capture_output=True, text=True)
                    if r.returncode == 2 and "cargo" in r.stdout + r.stderr and "error" in r.stdout + r.stderr:
                        res = "nobuild"
                        break
                    if r.returncode:
                        res.append(p_ + ("" if r.returncode == 1 else "?"))
                        if r.returncode == 1:
                            break
                rec["r"] = res
            else:
                try:
                    bins = ida.build()
                except ToolError as e:
                    rec["r"] = "nobuild"
                    rec["why"] = str(e)[:1] and re.sub(r".*?(error[^\n]*).*", r"\1", str(e), flags=re.S)[:80]
                if "r" not in rec:
                    try:
                        rec["r"] = judge(bins, d, True)
                        if not rec["r"]:
                            rec["r"] = judge(bins, d, False)
                    except ToolError as e:
                        rec["r"] = "tool: " + str(e)[:200]
                    except Violation as e:
                        rec["r"] = ["hang"]
        finally:
            open(f, "w").write(src)
            shutil.rmtree(d, ignore_errors=True)
        rec["s"] = round(time.time() - t0)
        if rec["r"] == []:
            rec["r"] = "SURVIVED"
        print(json.dumps(rec), flush=True)


main()
