"""Shared machinery of the checks: building the harnesses from /repo's working tree, running TLC,
and turning what it says into an exit status and an evidence file."""
import hashlib, json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    """The property does not hold: `what` says how, `replay` is data that reproduces it."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, text=True,
                              stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout after %ds: %s" % (timeout, " ".join(map(str, cmd))))


def workdir(name):
    d = os.path.join(BUILD, "work", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub[:] = sorted(x for x in sub if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


CARGO_ENV = {
    "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "CARGO_TERM_COLOR": "never",
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_INCREMENTAL": "0", "RUST_BACKTRACE": "0",
}


def java_overrides():
    out = os.path.join(BUILD, "java")
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    stamp = os.path.join(out, "stamp")
    want = tree_hash(os.path.join(SPEC, "java"))
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-nowarn", "-cp", TLA, "-d", out] + src, timeout=120)
    if r.returncode:
        raise ToolError("javac: " + r.stderr)
    with open(stamp, "w") as f:
        f.write(want)


def cargo_build(crate_dir, target, repo_dirs, bins=None, extra_env=None):
    """Build a harness crate against /repo's current tree; returns the directory of the binaries.
    Content hashes decide whether anything has to be rebuilt, so equal time stamps cannot hide a
    change."""
    env = dict(CARGO_ENV)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        os.environ.pop(k, None)
    env["CARGO_TARGET_DIR"] = target
    env.update(extra_env or {})
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "verif-stamp")
    want = tree_hash(*repo_dirs)
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        if os.path.exists(stamp):
            os.unlink(stamp)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if re.match(r"(linear|nonlinear|ida|hcore|hida)-", f):
                    shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins or []:
        cmd += ["--bin", b]
    r = sh(cmd, timeout=800, env=env, cwd=crate_dir)
    if r.returncode:
        raise ToolError("cargo build failed in %s:\n%s" % (crate_dir, r.stderr[-4000:]))
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(target, "debug")


def build_core():
    return cargo_build(os.path.join(VERIF, "harness", "core"), os.path.join(BUILD, "core"),
                       [os.path.join(REPO, "crates")])


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.bad = re.findall(r'<<"BAD", "(\w+)", "([^"]*)", (-?\d+)(.*)>>', out)


def tlc(spec, cfg, workers=8, env=None, timeout=800, cfgtext=None, args=(), heap="6g", ok=(0,)):
    """Run TLC on spec/<spec>.tla.  Any ending but 'no error' or a violated property is a
    ToolError."""
    java_overrides()
    w = workdir("tlc-" + spec)
    try:
        if cfgtext is not None:
            cfgp = os.path.join(w, "run.cfg")
            with open(cfgp, "w") as f:
                f.write(cfgtext)
        else:
            cfgp = os.path.join(SPEC, cfg)
        cp = ":".join([TLA, os.path.join(BUILD, "java"), SPEC])
        cmd = ["java", "-Djava.io.tmpdir=" + w, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(w, "meta"), "-noGenerateSpecTE", "-config", cfgp] + list(args) + \
              [os.path.join(SPEC, spec + ".tla")]
        r = sh(cmd, timeout=timeout, env=env, cwd=w)
        t = Tlc(r.stdout, r.returncode)
        if r.returncode not in (0, 10, 11, 12, 13):
            raise ToolError("TLC %s: exit %d\n%s" % (spec, r.returncode, (r.stdout + r.stderr)[-3000:]))
        return t
    finally:
        shutil.rmtree(w, ignore_errors=True)


def design_check(prop, spec, cfgtext, **kw):
    """The property on the specification itself.  A failure here is a defect of the
    specification, hence a tool error, not a violation."""
    t = tlc(spec, None, cfgtext=cfgtext, **kw)
    if t.rc != 0:
        raise ToolError("the specification %s itself violates %s:\n%s" % (spec, prop, t.out[-3000:]))
    if t.distinct == 0:
        raise ToolError("TLC explored nothing on " + spec)
    return t


def known_findings(prop):
    """Lines 'known: property=<id> key=<key> <what>' of the committed known-findings file."""
    p = os.path.join(VERIF, "known-findings.txt")
    res = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def write_evidence(prop, level, coverage, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
          "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2),
          "violations": violations}
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def write_replay(prop, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p
