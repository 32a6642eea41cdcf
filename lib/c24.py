"""C24: checked arithmetic macros against spec/CheckedMath.tla."""
import json, os, re, shutil
from vp import *

GROUP = re.compile(r"GROUP\{([^}]*)\}")


def rust_fn(i, p):
    vs = p["vars"]
    T = p["T"]
    out = [f"fn t{i}(o: &mut String) {{"]
    for v in vs:
        dom = ", ".join(("(" + d + ")") if not d.startswith("-") else "(" + minlit(d, v["ty"]) + ")" for d in v["dom"])
        out.append(f"  let d_{v['v']}: [{v['ty']}; {len(v['dom'])}] = [{dom}];")
    for v in vs:
        out.append(f"  for &{v['v']} in d_{v['v']}.iter() {{")
        out.append(f"  let {v['v']}_fn = || {v['v']}; let _ = &{v['v']}_fn;")
    names = {v["v"] for v in vs}
    fields = [x for x in "ab" if x in names]
    if "s." in p["src"]:
        ty = {v["v"]: v["ty"] for v in vs}
        out.append("  struct S { " + ", ".join(f"{f}: {ty[f]}" for f in fields) + " } let s = S { " + ", ".join(fields) + " };")
    src = p["src"]
    m = GROUP.search(src)
    mac = {"opt": "checked_math", "panic": "checked_math_or_panic", "assign": "checked_math_or_panic"}[p["form"]]
    pre, call = "", f"{mac}!({src})"
    if m:
        pre = f"macro_rules! g {{ ($x:expr) => {{ {mac}!({src[:m.start()]}$x{src[m.end():]}) }} }} "
        call = f"g!({m.group(1)})"
    out.append("  " + pre)
    if p["form"] == "opt":
        out.append(f"  run_opt(o, || {{ {call} }});")
    elif p["form"] == "panic":
        out.append(f"  run_panic(o, || {{ {call} }});")
    else:
        out.append(f"  run_panic(o, || {{ let mut a = a; {call}; a }});")
    out += ["  }"] * len(vs)
    out.append("}")
    return "\n".join(out)


def minlit(d, ty):
    return f"{ty}::MIN" if d in ("-128", "-32768", "-2147483648", str(-2**63), str(-2**127)) and \
        d == str(-2**(int(ty[1:]) - 1)) else d


MAIN = '''
#![allow(unused, arithmetic_overflow, unconditional_panic, clippy::all)]
use checked_math::{checked_math, checked_math_or_panic};
use std::fmt::{Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
trait Me: Sized { fn me(self) -> Self { self } }
impl Me for i8 {} impl Me for u8 {} impl Me for i16 {} impl Me for u16 {} impl Me for i32 {} impl Me for u32 {}
impl Me for i64 {} impl Me for u64 {} impl Me for i128 {} impl Me for u128 {}
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
fn run_opt<R: Display>(o: &mut String, f: impl FnOnce() -> Option<R>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Some(v)) => write!(o, "{},", v).unwrap(),
        Ok(None) => o.push_str("N,"),
        Err(_) => o.push_str("X,"),
    }
}
fn run_panic<R: Display>(o: &mut String, f: impl FnOnce() -> R) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => write!(o, "{},", v).unwrap(),
        Err(e) => o.push_str(if msg(e) == "math error" { "P," } else { "X," }),
    }
}
'''


def check(tier):
    c = Check("C24", tier, "model_checking")
    d = scratch("C24")
    deep = tier == "thorough"
    g = tlc("CheckedMathGen", dict(Seed=SEED, Deep=deep, OutFile=f"{d}/progs.ndjson"), workdir=scratch("C24-gen"), workers=1)
    if not os.path.exists(f"{d}/progs.ndjson"):
        raise ToolError("generation failed:\n" + g.out[-3000:])
    progs = [json.loads(l) for l in open(f"{d}/progs.ndjson")]
    for p in progs:
        for v in p["vars"]:
            v["dom"] = [x.strip('"') for x in v["dom"]]
    log(f"{len(progs)} programs from the specification")
    crate = os.path.join(BUILD, "c24crate")
    os.makedirs(crate + "/src", exist_ok=True)
    shutil.copy(f"{VERIF}/harness/Cargo.lock", crate + "/Cargo.lock")
    mirror = os.path.join(BUILD, "c24mirror")
    r = run(["rsync", "-rlpc", "--delete", "--exclude=/target", "--exclude=/tests", f"{REPO}/lib/checked_math/", mirror + "/"])
    if r.returncode:
        raise ToolError(r.stdout)
    t = open(mirror + "/Cargo.toml").read()
    t = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", t)
    t = re.sub(r"(?ms)^\[\[test\]\].*?(?=^\[|\Z)", "", t)
    open(mirror + "/Cargo.toml", "w").write(t)
    open(crate + "/Cargo.toml", "w").write('''[package]
name = "c24"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
checked_math = { path = "../c24mirror" }
[profile.dev]
debug = 0
opt-level = 0
overflow-checks = false
codegen-units = 64
''')
    nmod = 16
    for k in range(nmod):
        body = "use super::*;\n" + "\n".join(rust_fn(i, p) for i, p in enumerate(progs) if i % nmod == k)
        body += "\npub fn run(o: &mut Vec<(usize, String)>) {\n" + "\n".join(
            f"  {{ let mut s = String::new(); t{i}(&mut s); o.push(({i}, s)); }}" for i in range(len(progs)) if i % nmod == k) + "\n}\n"
        f = f"{crate}/src/m{k}.rs"
        if not os.path.exists(f) or open(f).read() != body:
            open(f, "w").write(body)
    main = MAIN + "".join(f"mod m{k};\n" for k in range(nmod)) + "fn main() { std::panic::set_hook(Box::new(|_| {})); let mut o = vec![];\n" + \
        "".join(f"m{k}::run(&mut o);\n" for k in range(nmod)) + 'for (i, s) in o { println!("{} {}", i, s); } }\n'
    open(crate + "/src/main.rs", "w").write(main)
    env = cargo_env()
    r = run(["cargo", "build", "--offline", "-p", "checked_math"], cwd=crate, env=env)
    if r.returncode:
        raise ToolError("the macro crate does not build:\n" + r.stdout[-3000:])
    r = run(["cargo", "build", "--offline"], cwd=crate, env=env)
    if r.returncode:
        m = re.search(r"src/m\d+\.rs:(\d+)", r.stdout)
        c.violation("an expression the macros accept no longer compiles through them", r.stdout[:4000])
        return c.finish()
    log("macro expansions compiled")
    try:
        r = subprocess.run([crate + "/target/debug/c24"], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        c.violation("evaluation does not terminate", {})
        return c.finish()
    if r.returncode:
        c.violation("evaluation aborts", r.stderr[-2000:])
        return c.finish()
    n = 0
    with open(f"{d}/trace.ndjson", "w") as f:
        for line in r.stdout.splitlines():
            i, s = line.split(" ")
            p = progs[int(i)]
            p["res"] = s.rstrip(",").split(",")

            n += len(p["res"])
            for v in p["vars"]:
                v["dom"] = [int(x) if abs(int(x)) < 2**31 - 1 else x for x in v["dom"]]
            f.write(json.dumps(p) + "\n")
    log(f"{n} evaluations recorded")
    c.cov["evaluations"] = n
    c.cov["traces_validated_against_impl"] = len(progs)
    t = tlc("CheckedMathTrace", dict(TraceFile=f"{d}/trace.ndjson", Stride=64), spec="Spec", invariants=["C24"], alias="Alias",
            workdir=scratch("C24-trace"), workers=8, timeout=1500)
    c.add_tlc(t)
    c.sample({k: progs[0][k] for k in ("src", "T", "form", "res")})
    c.sample({k: progs[len(progs) // 2][k] for k in ("src", "T", "form")})
    if t.invariant:
        c.violation("a checked expression does not evaluate as the specification says", t.error_text())
    elif not t.ok or t.distinct < len(progs):
        raise ToolError("TLC: " + t.error_text())
    return c.finish()
