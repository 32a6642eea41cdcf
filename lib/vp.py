"""Shared machinery of the checks: building, running TLC, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, time, fcntl, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{BUILD}/java:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"timeout after {timeout}s: {' '.join(cmd)[:300]}") from ex


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_java():
    with Lock("java"):
        src, out = f"{SPEC}/java/BigInt.java", f"{BUILD}/java/BigInt.class"
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return
        os.makedirs(f"{BUILD}/java", exist_ok=True)
        r = run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", f"{BUILD}/java", src])
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stdout)


def scratch(name):
    d = os.path.join(BUILD, "run", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Tlc:
    """One TLC run: verdict, statistics and (on violation) the error trace."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.invariant = None
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+) is violated", out) \
            or re.search(r"Temporal properties were violated", out) or re.search(r"Property (\S+) is violated", out)
        if m:
            self.invariant = m.group(1) if m.groups() else "temporal"
        elif re.search(r"Deadlock reached", out):
            self.invariant = "Deadlock"
        elif re.search(r"The postcondition (\S+)|Postcondition .* violated", out, re.I):
            self.invariant = "Postcondition"
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or \
                  ("Finished in" in out and rc == 0 and self.invariant is None)
        self.simulated_ok = rc == 0

    def error_text(self):
        i = self.out.find("Error:")
        return self.out[i:i + 6000] if i >= 0 else self.out[-4000:]


def tlc(module, consts=None, invariants=(), spec=None, init=None, nxt=None, properties=(), workers=4, timeout=600,
        workdir=None, extra=(), defs=None, view=None, constraint=None, deadlock=False, alias=None, xmx="6g",
        postcondition=None, symmetry=None, simulate=None, subst=None):
    build_java()
    d = workdir or scratch("tlc-" + module + "-" + str(os.getpid()))
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = []
    if spec:
        cfg.append(f"SPECIFICATION {spec}")
    if init:
        cfg.append(f"INIT {init}")
    if nxt:
        cfg.append(f"NEXT {nxt}")
    for k, v in (consts or {}).items():
        cfg.append(f"CONSTANT {k} = {tla(v)}")
    for k, v in (subst or {}).items():
        cfg.append(f"CONSTANT {k} <- {v}")
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    for p in properties:
        cfg.append(f"PROPERTY {p}")
    if view:
        cfg.append(f"VIEW {view}")
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    if symmetry:
        cfg.append(f"SYMMETRY {symmetry}")
    if alias:
        cfg.append(f"ALIAS {alias}")
    if postcondition:
        cfg.append(f"POSTCONDITION {postcondition}")
    cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    cfgname = f"{module}_run.cfg"
    open(os.path.join(d, cfgname), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-cp", CP, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", cfgname]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    r = run(cmd, timeout=timeout, cwd=d)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return Tlc(r.stdout, r.returncode)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return '"' + str(v) + '"'


class Check:
    """Collects coverage and violations of one property's run and reports them."""
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.known = []
        self.assumptions = []

    def add_tlc(self, t):
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def violation(self, what, detail):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((what + json.dumps(detail, default=str)).encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.pid}-{h}.json")
        json.dump({"property": self.pid, "what": what, "detail": detail}, open(p, "w"), indent=1, default=str)
        for k in known_findings(self.pid):
            if re.search(k["match"], what):
                self.known.append((k, p))
                return
        self.violations.append((what, p))

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1, default=str)
        for k, p in {k["match"]: (k, p) for k, p in self.known}.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for what, p in self.violations[:10]:
            print(f"  {what}")
            print(f"VIOLATION property={self.pid} replay={p}")
        sys.stdout.flush()
        return 1 if self.violations else 0


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]
