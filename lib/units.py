"""Checks of single components: behaviours generated from small exhaustive TLA+ models (or seeded random inputs) are
run on the real code, and TLC compares each observation with the specification."""
from vp import *
import concurrent.futures as cf
import mango
from mango import SIM, absorb


def drive(args, timeout=600):
    r = run([SIM, "unit"] + [str(a) for a in args], timeout=timeout)
    if r.returncode == 3:
        raise mango.NoUnit(r.stdout.strip())
    if r.returncode:
        raise ToolError(f"unit driver failed ({args}):\n" + r.stdout[-3000:])


def generate(c, module, d, name, consts, invariants=(), spec="Spec", timeout=600, workers=8, props=()):
    """Explores the model (checking its own invariants) and returns the file of behaviours it writes."""
    out = f"{d}/{name}.cases.ndjson"
    t = tlc(module, dict(OutFile=out, **consts), invariants=list(invariants), spec=spec, workers=workers, timeout=timeout,
            workdir=scratch(f"{c.pid}-gen-{name}"), properties=props)
    if not t.ok:
        raise ToolError(f"the specification {module} breaks its own invariant:\n" + t.error_text())
    c.add_tlc(t)
    return out


def compare(c, hits, module, inv, prefix, label, workers=8, timeout=800, consts=None):
    t = tlc(module, dict(TraceFile=prefix + ".trace.ndjson", Stride=64, **(consts or {})), invariants=[inv], spec="Spec", workers=workers,
            workdir=scratch(f"{c.pid}-cmp-{label}"), timeout=timeout)
    n = sum(1 for _ in open(prefix + ".trace.ndjson"))
    c.cov["traces_validated_against_impl"] += n
    c.cov.setdefault("units", {})[label] = n
    if t.ok and t.distinct < n:
        raise ToolError(f"{label}: only {t.distinct} of {n} lines were read")
    absorb(c, t, prefix, label, hits, own=True)
    log(f"{label}: {n} observations")


def sharded(c, hits, jobs, module, inv, label, workers=2, timeout=800, comp=False):
    """jobs: driver argument lists without the output; run and validated side by side."""
    d = scratch(f"{c.pid}-{label.replace(' ', '-')}")

    def one(kj):
        k, j = kj
        drive(list(j) + [f"{d}/{k}.trace.ndjson"])
        return k, tlc(module, dict(TraceFile=f"{d}/{k}.trace.ndjson", Stride=64, **(dict(CompFile=f"{d}/{k}.trace.ndjson") if comp else {})),
                      invariants=[inv], spec="Spec", workers=workers, workdir=scratch(f"{c.pid}-cmp-{label.replace(' ', '-')}-{k}"), timeout=timeout, xmx="4g")
    total = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for k, t in ex.map(one, enumerate(jobs)):
            n = sum(1 for _ in open(f"{d}/{k}.trace.ndjson"))
            if t.ok and t.distinct < n:
                raise ToolError(f"{label}: only {t.distinct} of {n} lines were read")
            total += n
            absorb(c, t, f"{d}/{k}", f"{label} {k}", hits, own=True)
    c.cov["traces_validated_against_impl"] += total
    c.cov.setdefault("units", {})[label] = total
    c.sample({"unit": label, "observations": total})
    log(f"{label}: {total} observations")


def split(path, n):
    lines = open(path).read().splitlines(True)
    out = []
    for k in range(n):
        p = f"{path}.{k}"
        open(p, "w").writelines(lines[k::n])
        out.append(p)
    return out


def c10(c, tier, d, hits):
    deep = tier == "thorough"
    cases = generate(c, "BookSideGen", d, "tree", dict(Deep=deep), ["Sound"], timeout=3000)
    sharded(c, hits, [("tree", f, 0) for f in split(cases, 8)], "BookSideTrace", "C10_Inv", "every short history")
    sharded(c, hits, [("tree_random", SEED * 100 + k, 2500 if not deep else 20000) for k in range(4 if not deep else 16)], "BookSideTrace", "C10_Inv", "random histories")
    sharded(c, hits, [("tree_full", SEED * 100 + k, 24 if not deep else 200) for k in range(4 if not deep else 12)], "BookSideTrace", "C10_Inv", "histories at capacity", timeout=3000)


def c11(c, tier, d, hits):
    deep = tier == "thorough"
    sharded(c, hits, [("queue", SEED * 100 + k, 800 if not deep else 10000) for k in range(4)], "EventQueueTrace", "C11_Inv", "event queue histories")


def c25(c, tier, d, hits):
    deep = tier == "thorough"
    cases = generate(c, "MarginTradeGen", d, "margin", dict(Deep=deep), ["Sound", "Conserved"])
    drive(["margin", cases, 0, f"{d}/margin.trace.ndjson"])
    compare(c, hits, "MarginTradeTrace", "C25_Inv", f"{d}/margin", "every call on small ledgers")
    for k in range(1 if not deep else 8):
        drive(["margin_random", SEED * 10 + k, 6000 if not deep else 60000, f"{d}/marginr{k}.trace.ndjson"])
        compare(c, hits, "MarginTradeTrace", "C25_Inv", f"{d}/marginr{k}", f"random calls {k}")


def bank(kinds):
    """Random banks, positions and arguments through single functions of the bank."""
    def f(c, tier, d, hits):
        deep = tier == "thorough"
        for k in kinds:
            sharded(c, hits, [(f"bank_{k}", SEED * 100 + j, 1500 if not deep else 15000) for j in range(4 if not deep else 12)],
                    "BankUnit", f"{c.pid}_Inv", f"bank {k}", comp=True, timeout=3000)
    return f


def oracle(c, tier, d, hits):
    """Random oracle accounts of every type, alone and behind a fallback."""
    deep = tier == "thorough"
    sharded(c, hits, [("oracle", SEED * 100 + j, 2000 if not deep else 20000) for j in range(4 if not deep else 12)],
            "OracleUnit", "C16_Inv", "oracle accounts", comp=True, timeout=3000)


def perp(kinds):
    """Random perp markets and positions through single functions."""
    def f(c, tier, d, hits):
        deep = tier == "thorough"
        for k in kinds:
            sharded(c, hits, [(f"perp_{k}", SEED * 100 + j, 1500 if not deep else 15000) for j in range(4 if not deep else 12)],
                    "PerpUnit", "Perp_Inv", f"perp {k}", comp=True, timeout=3000)
    return f


def stable(c, tier, d, hits):
    """Histories of a stable price model alone."""
    deep = tier == "thorough"
    sharded(c, hits, [("stable", SEED * 100 + j, 2000 if not deep else 20000) for j in range(4 if not deep else 12)],
            "StableUnit", "C17_Inv", "stable price model", comp=True, timeout=3000)


def tcs(c, tier, d, hits):
    """Conditional swaps alone: times, prices, fees and remaining amounts."""
    deep = tier == "thorough"
    sharded(c, hits, [("tcs", SEED * 100 + j, 2500 if not deep else 25000) for j in range(4 if not deep else 12)],
            "TcsUnit", "C18_Inv", "conditional swaps", comp=True, timeout=3000)


def account(c, tier, d, hits):
    """Histories of one account alone: its slots, sizes, counters and flags."""
    deep = tier == "thorough"
    sharded(c, hits, [("acct", SEED * 100 + j, 2500 if not deep else 25000) for j in range(4 if not deep else 12)],
            "SlotUnit", c.pid + "_Inv", "account slots", comp=True, timeout=3000)


mango.UNITS.update({
    "C04": [perp(["pos"])],
    "C05": [perp(["market"])],
    "C09": [perp(["market"])],
    "C12": [perp(["pos", "funding"])],
    "C13": [perp(["pos", "market"])],
    "C18": [tcs],
    "C17": [stable, perp(["funding"])],
    "C01": [bank(["ledger"])],
    "C02": [bank(["interest"])],
    "C07": [bank(["ledger"])],
    "C06": [bank(["ledger", "limits"])],
    "C16": [oracle],
    "C23": [bank(["weights"])],
    "C10": [c10, perp(["market"])],
    "C11": [c11, perp(["pos"]), account],
    "C03": [account],
    "C14": [account],
    "C20": [account],
    "C25": [c25],
})
