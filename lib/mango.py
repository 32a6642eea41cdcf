"""Trace validation of the real program against the TLA+ specification: simulator runs (random histories
per profile, and scripted ones) are recorded and every line is checked by TLC against the property's rules."""
import concurrent.futures as cf
import collections, json, os, re, shutil
from vp import *

HARNESS = f"{VERIF}/harness"
SIM = f"{HARNESS}/target/debug/sim"
SCRIPTS = f"{VERIF}/scripts"

# property: list of streams (profile, worlds, steps) for quick; thorough multiplies
PROFILES = {
    "C01": [("ledger", 6, 170), ("flash", 3, 150), ("spot", 3, 170), ("liq", 4, 200), ("fees", 3, 150), ("tcs", 3, 150), ("ruin", 3, 200), ("all+bank", 2, 170), ("liq+bank", 2, 170)],
    "C03": [("health", 6, 170), ("region", 3, 150), ("perp", 3, 150), ("liq", 4, 150), ("tcs", 3, 120), ("spot", 3, 120), ("flash", 3, 100), ("settle", 3, 120),
            ("health+miss", 4, 260), ("perp+miss", 2, 240), ("spot+miss", 2, 220), ("flash+miss", 2, 220)],
    "C02": [("interest", 5, 170), ("oracle", 3, 150), ("all", 4, 170), ("ledger", 3, 150), ("all+bank", 2, 170)],
    "C09": [("book", 2, 50), ("perp", 6, 170), ("settle", 3, 150), ("all", 4, 170), ("region", 3, 130)],
    "C11": [("perp", 5, 170), ("settle", 4, 160), ("all", 4, 170), ("region", 3, 130)],
    "C12": [("perp", 4, 170), ("settle", 5, 170), ("all", 4, 170), ("liq", 4, 170)],
    "C13": [("settle", 6, 170), ("perp", 3, 150), ("fees", 3, 150), ("liq", 4, 170), ("all", 4, 170)],
    "C22": [("book", 1, 50), ("perp", 4, 170), ("all", 4, 170), ("settle", 3, 150), ("region", 3, 130), ("liq", 3, 150)],
    "C08": [("flash", 6, 170), ("all", 4, 170), ("fees", 3, 140), ("region", 3, 130)],
    "C19": [("spot", 6, 170), ("ledger", 3, 150), ("limits", 3, 150), ("all", 4, 170), ("region", 3, 130), ("spot+bank", 3, 170)],
    "C20": [("fees", 5, 160), ("perp", 3, 150), ("settle", 4, 150), ("spot", 3, 150), ("all", 4, 170), ("fees+bank", 3, 160)],
    "C10": [("book", 2, 60), ("perp", 3, 150), ("settle", 2, 150), ("region", 2, 130), ("all", 3, 170)],
    "C06": [("limits", 6, 170), ("ledger", 4, 150), ("tcs", 3, 150), ("spot", 3, 150), ("flash", 3, 130), ("all", 3, 170),
            ("limits+limit", 3, 220), ("flash+limit", 3, 220), ("tcs+limit", 2, 240), ("spot+limit", 2, 220), ("flash+bank", 2, 150)],
    "C18": [("tcs", 8, 170), ("all", 4, 170), ("slots", 3, 150), ("tcs+modes", 4, 240), ("tcs+limit", 2, 220)],
    "C23": [("weights", 5, 160), ("interest", 3, 150), ("modes", 3, 150), ("spot", 3, 150), ("all", 3, 170)],
    "C16": [("oracle", 4, 200), ("liq+oracle", 3, 260), ("settle+oracle", 3, 260), ("spot+oracle", 3, 220), ("tcs+oracle", 2, 220), ("all+oracle", 3, 220), ("health+miss", 3, 260), ("flash+miss", 2, 220)],
    "C15": [("access", 3, 300), ("subst", 4, 420), ("liq+subst", 3, 420), ("settle+subst", 3, 420), ("tcs+subst", 3, 420), ("spot+subst", 3, 420), ("fees+subst", 3, 420),
            ("slots+subst", 2, 420), ("flash+subst", 2, 420), ("region+subst", 2, 420), ("liq+access", 2, 300), ("settle+access", 2, 300), ("tcs+access", 2, 300),
            ("spot+access", 2, 300), ("flash+access", 2, 300), ("slots+access", 2, 300), ("ruin+subst", 2, 420), ("modes+subst", 2, 420), ("listing+subst", 2, 420), ("listing+access", 2, 300), ("modes+access", 2, 300)],
    "C07": [("gates", 4, 240), ("modes", 5, 240), ("liq+gates", 3, 260), ("settle+gates", 3, 260), ("tcs+gates", 3, 260), ("spot+gates", 3, 260), ("fees+gates", 2, 260),
            ("perp+gates", 3, 260), ("limits+modes", 3, 260), ("flash+gates", 2, 260), ("flash+modes", 2, 260), ("slots+gates", 2, 260), ("tcs+modes", 3, 260), ("spot+modes", 3, 260), ("perp+modes", 3, 260)],
    "C21": [("region", 6, 240), ("region+gates", 3, 240), ("region+modes", 2, 240), ("health", 3, 150), ("all", 3, 170), ("region+oracle", 2, 240)],
    "C14": [("slots", 6, 240), ("slots+gates", 2, 240), ("slots+subst", 2, 300), ("tcs", 2, 150), ("spot", 3, 150), ("liq", 3, 150), ("settle", 3, 150), ("all", 3, 170)],
    "C04": [("liq", 5, 220), ("ruin", 3, 260), ("health", 3, 170), ("settle", 3, 170), ("all", 4, 170), ("liq+modes", 3, 240), ("liq+gates", 2, 260), ("liq+oracle", 2, 240)],
    "C05": [("ruin", 9, 280), ("liq", 4, 220), ("ruin+modes", 3, 280), ("perp", 3, 170), ("settle", 3, 170), ("all", 4, 170), ("liq+modes", 3, 240), ("liq+gates", 2, 260), ("ruin+bank", 3, 240)],
    "C28": [("listing", 10, 200), ("listing+gates", 4, 260), ("listing+access", 5, 260), ("listing+modes", 4, 220), ("weights", 4, 170), ("modes", 3, 150), ("access", 2, 200), ("fees+bank", 3, 170), ("spot+bank", 2, 170), ("all+bank", 3, 170)],
    "C29": [("sizing", 6, 170), ("sizing_liq", 4, 170), ("sizing_all", 4, 170), ("sizing+bank", 2, 170), ("sizing+oracle", 2, 170)],
    "C30": [("lists", 8, 170), ("lists_listing", 5, 170), ("lists+oracle", 2, 170), ("lists+access", 1, 170)],
    "C17": [("interest", 4, 150), ("oracle", 4, 150), ("perp", 3, 150), ("settle", 3, 150)],
}
UNITS = {}      # property: functions f(check, tier, dir, hits) driving single components (filled by units.py)


class NoUnit(Exception):
    """A driver of a single component could not be built against the program."""


def build_sim():
    with Lock("sim"):
        r = run(["bash", f"{HARNESS}/sync.sh"], env=dict(os.environ, REPO=REPO))
        if r.returncode:
            raise ToolError("sync failed:\n" + r.stdout)
        r = run(["cargo", "build", "--offline", "-p", "sim"], cwd=HARNESS, env=cargo_env(), timeout=800)
        units = re.findall(r"(?m)^(u_\w+) = \[", open(f"{HARNESS}/sim/Cargo.toml").read())
        while r.returncode:
            # drivers of single components that do not fit changed interfaces are left out: whole histories still decide
            errors = "\n".join(x for x in re.split(r"\n(?=error|warning)", r.stdout) if x.startswith("error"))
            bad = {"u_" + x for x in re.findall(r"sim/src/unit_(\w+)\.rs", errors)}
            if re.search(r"mirror/(client|crank)/|client/src/lib\.rs|`mango-client`", errors):
                bad.add("u_lists")
            bad &= set(units)
            if not bad:
                break
            units = [u for u in units if u not in bad]
            log("left out: " + " ".join(sorted(bad)))
            r = run(["cargo", "build", "--offline", "-p", "sim", "--no-default-features", "--features", " ".join(units)], cwd=HARNESS, env=cargo_env(), timeout=800)
        if r.returncode:
            raise ToolError("the program or its harness does not build:\n" + r.stdout[-6000:])


def record(d, kind, seed, worlds, steps, name):
    prefix = f"{d}/{name}"
    if kind == "script":
        cmd = [SIM, "script", seed, prefix]
    else:
        cmd = [SIM, "gen", kind, str(seed), str(worlds), str(steps), prefix]
    r = run(cmd, timeout=800)
    if r.returncode or not os.path.exists(prefix + ".stats.json"):
        raise ToolError(f"simulator failed ({' '.join(cmd)}):\n" + r.stdout[-3000:])
    return prefix


def validate(pid, prefix, workers, timeout=800, module="MangoTrace"):
    d = scratch("tlc-" + os.path.basename(prefix) + "-" + pid)
    t = tlc(module, dict(TraceFile=prefix + ".trace.ndjson", CompFile=prefix + ".comps.ndjson", Stride=64),
            invariants=[f"{pid}_Inv"], spec="Spec", workers=workers, workdir=d, timeout=timeout, xmx="3g")
    return t


def line_of(path, n):
    with open(path) as f:
        for i, l in enumerate(f):
            if i + 1 == n:
                return json.loads(l)


def explain(prefix, n):
    L = line_of(prefix + ".trace.ndjson", n)
    if L is None:
        return {}
    if "w0" in L:
        with open(prefix + ".trace.ndjson") as f:
            return {"line": L, "history": [json.loads(x) for i, x in enumerate(f) if L["w0"] - 1 <= i < n][-400:]}
    if not os.path.exists(prefix + ".comps.ndjson"):
        return L
    comps = [json.loads(x) for x in open(prefix + ".comps.ndjson")]

    def diff(p, a, b, out):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in sorted(set(a) | set(b)):
                diff(f"{p}.{k}", a.get(k), b.get(k), out)
        elif isinstance(a, list) and isinstance(b, list):
            for i in range(max(len(a), len(b))):
                diff(f"{p}[{i}]", a[i] if i < len(a) else None, b[i] if i < len(b) else None, out)
        elif a != b:
            out[p] = [a, b]

    def walk(p, k0, a, b, out):
        if isinstance(a, list):
            for i in range(max(len(a), len(b))):
                walk(f"{p}[{i}]", k0, a[i] if i < len(a) else None, b[i] if i < len(b) else None, out)
        elif a != b:
            if k0 in ("now", "slot", "ins"):
                out[p] = [a, b]
            else:
                diff(p, comps[a - 1] if a else None, comps[b - 1] if b else None, out)
    out = {}
    for k in L["pre"]:
        walk(k, k, L["pre"][k], L["post"][k], out)
    hist = []
    with open(prefix + ".trace.ndjson") as f:
        for i, l in enumerate(f):
            if i + 1 > n:
                break
            x = json.loads(l)
            if x["w"] == L["w"] and not x["sub"]:
                hist.append({"op": x["op"], "ok": x["ok"], "err": x["err"]})
    return {"op": L["op"], "ok": L["ok"], "err": L["err"], "inside_transaction": L["sub"], "changes": out, "history_of_world": hist[-400:]}


def absorb(c, t, prefix, label, hits, own=False):
    """Rule results of one TLC run into the check (own: only of the rules named after its property)."""
    c.add_tlc(t)
    misses = collections.OrderedDict()
    others = False
    for l in t.out.splitlines():
        if l.startswith("HIT "):
            _, rest = l.split(" ", 1)
            n, k = rest.rsplit(" ", 1)
            if not own or n.startswith(c.pid):
                hits[n] += int(k)
        elif l.startswith("MISS "):
            _, i, n = l.split(" ", 2)
            if own and not n.startswith(c.pid):
                others = True
                continue
            misses.setdefault(n, []).append(int(i))
    for n, lines in misses.items():
        ln = min(lines)
        L = line_of(prefix + ".trace.ndjson", ln)
        op = L.get("op", {})
        op = op.get("op") if isinstance(op, dict) else op
        c.violation(f"{n} [{op}] ({label} line {ln}, {len(set(lines))} lines)", explain(prefix, ln))
    if not t.ok and not misses and not others:
        if "Parse" in t.out[:4000] and "Semantic" in t.out or "TLC encountered the following error" in t.out and "Configuration" in t.out:
            raise ToolError(t.out[-3000:])
        m = re.search(r"(?m)^l = (\d+)", t.out)
        if m and "Starting..." in t.out:
            # a recorded line the specification cannot even interpret
            c.violation(f"line not explained by the specification ({label} line {m.group(1)})", {"tlc": t.error_text(), **explain(prefix, int(m.group(1)))})
        else:
            raise ToolError("TLC failed:\n" + t.out[-4000:])


def check(pid, tier):
    c = Check(pid, tier, "model_checking")
    build_sim()
    log("built")
    d = scratch(pid)
    deep = tier == "thorough"
    hits = collections.Counter()
    ops, errs, lines, worlds = collections.Counter(), collections.Counter(), 0, 0
    jobs = []
    mult = 8 if deep else 2
    for k, (prof, w, s) in enumerate(PROFILES.get(pid, [])):
        for j in range(mult):
            jobs.append((prof, SEED * 100 + k + 1000 * j, w, s if not deep else s * 2, f"{prof}{k}-{j}"))
    for f in sorted(os.listdir(SCRIPTS)) if os.path.isdir(SCRIPTS) else []:
        if f.endswith(".ndjson") and pid in json.loads(open(f"{SCRIPTS}/{f}").readline()).get("for", []):
            jobs.append(("script", f"{SCRIPTS}/{f}", 0, 0, "script-" + f[:-7]))

    def job(j):
        prof, seed, w, s, name = j
        p = record(d, prof, seed, w, s, name)
        return j, p, validate(pid, p, 2)
    with cf.ThreadPoolExecutor(4) as ex:
        for j, p, t in ex.map(job, jobs):
            absorb(c, t, p, j[4], hits)
            st = json.load(open(p + ".stats.json"))
            for k, v in st["ops"].items():
                ops[k + " ok"] += v[0]
                ops[k + " failed"] += v[1] - v[0]
            for k, v in st["errs"].items():
                errs[k] += v
            lines += st["lines"]
            worlds += max(j[2], 1)
            c.sample({"history": j[4], "seed": str(j[1]), "lines": st["lines"]})
    for fn in UNITS.get(pid, []):
        try:
            fn(c, tier, d, hits)
        except NoUnit as e:
            log(f"not compared: {e}")
            c.cov.setdefault("left_out", []).append(str(e))
    c.cov["traces_validated_against_impl"] += worlds
    c.cov["trace_lines"] = lines
    c.cov["rules"] = dict(sorted(hits.items()))
    c.cov["operations"] = dict(sorted(ops.items()))
    c.cov["failures_seen"] = dict(errs.most_common(40))
    log(f"{lines} lines, {sum(hits.values())} rule applications")
    if not sum(hits.values()):
        raise ToolError("no rule was exercised")
    if not c.violations and os.environ.get("KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return c.finish()
