"""The off-chain feeds: the code that turns account writes into published updates is driven with histories of
snapshots (planned by FeedGen, and random ones); TLC follows each history and compares what was published."""
import collections
from vp import *
import concurrent.futures as cf
import mango, units

KIND = {"C26": ("fills", "fills", "FillsFeed", "fills"), "C27": ("orderbook", "book", "OrderbookFeed", "orderbook")}


def build(crate):
    with Lock("sim"):
        r = run(["bash", f"{mango.HARNESS}/sync.sh"], env=dict(os.environ, REPO=REPO))
        if r.returncode:
            raise ToolError("sync failed:\n" + r.stdout)
        r = run(["cargo", "build", "--offline", "-p", crate], cwd=mango.HARNESS, env=cargo_env(), timeout=800)
        if r.returncode:
            raise ToolError("the feed or its harness does not build:\n" + r.stdout[-6000:])


def check(pid, tier):
    c = Check(pid, tier, "model_checking")
    name, kind, module, crate = KIND[pid]
    build("service-mango-" + crate)
    log("built")
    deep = tier == "thorough"
    d = scratch(pid)
    hits = collections.Counter()
    drv = f"{mango.HARNESS}/target/debug/{name}"
    cases = units.generate(c, "FeedGen", d, "plan", dict(Kind=kind, Deep=deep), ["FoldIsQueue"], timeout=3000)
    jobs = [("planned histories", f, 0) for f in units.split(cases, 8 if not deep else 24)]
    worlds = {"fills": 20, "book": 60}[kind]
    jobs += [("random histories", SEED * 1000 + k, worlds * (3 if deep else 1)) for k in range(4 if not deep else 40)]

    def one(kj):
        k, (label, seed, n) = kj
        r = run([drv, str(seed), str(n), f"{d}/{k}.trace.ndjson"], timeout=800)
        if r.returncode:
            raise ToolError(f"the feed's driver failed ({seed}):\n" + r.stdout[-3000:])
        return k, label, tlc(module, dict(TraceFile=f"{d}/{k}.trace.ndjson", Stride=64), invariants=[f"{pid}_Inv"], spec="Spec", workers=2,
                             workdir=scratch(f"{pid}-cmp-{k}"), timeout=800, xmx="4g")
    seen = collections.Counter()
    with cf.ThreadPoolExecutor(4) as ex:
        for k, label, t in ex.map(one, enumerate(jobs)):
            n = sum(1 for _ in open(f"{d}/{k}.trace.ndjson"))
            if t.ok and t.distinct < n:
                raise ToolError(f"{label}: only {t.distinct} of {n} lines were read")
            seen[label] += n
            mango.absorb(c, t, f"{d}/{k}", f"{label} {k}", hits, own=True)
    c.cov["traces_validated_against_impl"] = sum(seen.values())
    c.cov["lines"] = dict(seen)
    c.cov["rules"] = dict(sorted(hits.items()))
    for x in seen:
        c.sample({"histories": x, "lines": seen[x]})
    log(f"{sum(seen.values())} lines, {sum(hits.values())} rule applications")
    if not sum(hits.values()):
        raise ToolError("no rule was exercised")
    if not c.violations and os.environ.get("KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return c.finish()
