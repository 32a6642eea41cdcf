//! Recording of traces: one line per transaction (and one per instruction of composite transactions).
use crate::gen::*;
use crate::rt::*;
use crate::state::*;
use crate::world::*;
use mango_v4::state::StubOracle;
use serde_json::{json, Value};
use std::io::Write;

/// Operation parameters as the specification reads them: big integers as decimal strings, floats as
/// the scaled integers of their f32 and f64 values.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Number(x) => {
            if let Some(i) = x.as_i64() {
                n(i)
            } else if let Some(u) = x.as_u64() {
                n(u)
            } else {
                let f = x.as_f64().unwrap();
                json!({"f32": f48(f as f32 as f64), "f48": f48(f), "f64": fk(f, 64), "f32x64": fk(f as f32 as f64, 64)})
            }
        }
        Value::Bool(b) => json!(*b as u8),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), norm(v))).collect()),
        Value::String(s) => match s.parse::<i128>() {
            Ok(i) => n(i),
            Err(_) => v.clone(),
        },
        _ => v.clone(),
    }
}

pub struct Rec {
    pub it: Interner,
    pub out: std::io::BufWriter<std::fs::File>,
    pub prefix: String,
    pub cur: Value,
    pub lines: usize,
    pub ok: std::collections::BTreeMap<String, (usize, usize)>,
    pub errs: std::collections::BTreeMap<String, usize>,
    pub world: usize,
    pub ops: Option<std::io::BufWriter<std::fs::File>>,
}
pub fn is_multi(op: &Value) -> bool {
    matches!(op["op"].as_str().unwrap(), "batch")
}
impl Rec {
    pub fn new(prefix: &str) -> Self {
        Rec {
            it: Interner::new(),
            out: std::io::BufWriter::new(std::fs::File::create(format!("{}.trace.ndjson", prefix)).unwrap()),
            prefix: prefix.into(),
            cur: Value::Null,
            lines: 0,
            ok: Default::default(),
            errs: Default::default(),
            world: 0,
            ops: std::env::var("SIM_OPS").ok().map(|_| std::io::BufWriter::new(std::fs::File::create(format!("{}.ops.ndjson", prefix)).unwrap())),
        }
    }
    pub fn line(&mut self, op: &Value, ok: bool, err: &str, sub: bool, pre: &Value, post: &Value, extra: Value) {
        let code = err.strip_prefix("code:").and_then(|s| s.parse::<i64>().ok()).unwrap_or(-1);
        let mut l = json!({"w": self.world, "op": norm(op), "ok": ok as u8, "code": code, "err": err.chars().take(160).collect::<String>(), "sub": sub as u8, "pre": pre, "post": post});
        if !extra.is_null() {
            l["x"] = extra;
        }
        writeln!(self.out, "{}", l).unwrap();
        self.lines += 1;
    }
    /// `from`: what the world was made from
    pub fn init(&mut self, w: &World, from: &Value) {
        self.note(from);
        self.world += 1;
        self.cur = w.state(&mut self.it);
        let c = self.cur.clone();
        let mut op = json!({"op": "init"});
        if let Some(s) = from.get("std") {
            op["std"] = s.clone();
        }
        self.line(&op, true, "", false, &c, &c, Value::Null);
    }
    /// a script of what is done, if asked for
    fn note(&mut self, v: &Value) {
        if let Some(f) = self.ops.as_mut() {
            writeln!(f, "{}", v).unwrap();
        }
    }
    pub fn step(&mut self, w: &mut World, op: &Value) -> Result<(), TxErr> {
        self.note(op);
        let pre = self.cur.clone();
        let multi = is_multi(op);
        if multi {
            w.rt.snaps = Some(vec![]);
        }
        // an operation that cannot even be built (e.g. on a closed account) is skipped
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.apply(op))) {
            Ok(r) => r,
            Err(_) => return Err(TxErr::Runtime("unbuildable".into())),
        };
        let snaps = w.rt.snaps.take();
        let name = op["op"].as_str().unwrap().to_string();
        let e = self.ok.entry(name.clone()).or_default();
        e.1 += 1;
        if r.is_ok() {
            e.0 += 1;
        } else {
            *self.errs.entry(format!("{} {}", name, r.as_ref().unwrap_err().text())).or_default() += 1;
        }
        let post = if r.is_ok() { w.state(&mut self.it) } else { pre.clone() };
        let err = r.as_ref().err().map(|e| e.text()).unwrap_or_default();
        let ran = w.rt.ran;
        #[cfg(feature = "u_client")]
        let assessed = if name == "assess" { crate::unit_client::assess(w, op) } else { Value::Null };
        #[cfg(not(feature = "u_client"))]
        let assessed = Value::Null;
        #[cfg(feature = "u_lists")]
        let listed = if name == "client" { crate::unit_lists::client(w, op) } else { Value::Null };
        #[cfg(not(feature = "u_lists"))]
        let listed = Value::Null;
        let extra = if name == "assess" {
            assessed
        } else if name == "client" {
            listed
        } else if multi { json!({"at": ran.map(|x| x as i64).unwrap_or(-1)}) } else { Value::Null };
        if multi {
            // one instruction per operation here; a failed transaction's instructions up to the failing one did run
            // before they were rolled back
            let keep = w.rt.accs.clone();
            let mut p = pre.clone();
            for (i, s) in snaps.unwrap().into_iter().enumerate() {
                w.rt.accs = s;
                let q = w.state(&mut self.it);
                self.line(&op["ops"][i], true, "", true, &p, &q, Value::Null);
                p = q;
            }
            w.rt.accs = keep;
            if let (Some(at), Err(_)) = (ran, &r) {
                self.line(&op["ops"][at], false, &err, true, &p, &p, Value::Null);
            }
        }
        self.line(op, r.is_ok(), &err, false, &pre, &post, extra);
        self.cur = post;
        r
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        self.it.write(&format!("{}.comps.ndjson", self.prefix));
        let s = json!({"lines": self.lines, "comps": self.it.comps.len(), "ops": self.ok.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
            "errs": self.errs});
        std::fs::write(format!("{}.stats.json", self.prefix), s.to_string()).unwrap();
    }
}

pub fn std_world(kind: &str, r: &mut Rng) -> World {
    let mut w = World::new();
    let lof = *r.pick(&[0.0, 0.0005, 0.01]);
    w.add_token(6, 1.0, json!({"maint_asset_weight": 1.0, "init_asset_weight": 1.0, "maint_liab_weight": 1.0, "init_liab_weight": 1.0, "liquidation_fee": 0.0, "loan_origination_fee_rate": lof}));
    let has = |k: &str| kind.split('+').any(|x| x == k);
    let fb = has("oracle") || has("subst") || has("lists");
    let stale = if fb { json!(100) } else { json!(null) };
    let mut t1 = json!({"loan_origination_fee_rate": lof, "max_staleness_slots": stale, "token_conditional_swap_taker_fee_rate": 0.001, "token_conditional_swap_maker_fee_rate": 0.002, "flash_loan_swap_fee_rate": 0.001});
    if fb {
        t1["fallback"] = json!(0.019);
    }
    if has("fees") {
        t1["collateral_fee_per_day"] = json!(0.02);
    }
    w.add_token(9, 0.02, t1);
    w.add_token(6, 3.7, json!({"platform_liquidation_fee": 0.01, "liquidation_fee": 0.05, "max_staleness_slots": stale, "token_conditional_swap_taker_fee_rate": 0.0, "flash_loan_swap_fee_rate": 0.002,
        "collateral_fee_per_day": if has("fees") { 0.5 } else { 0.0 }}));
    w.add_bank(2);
    let mut t3 = json!({"maint_asset_weight": 0.9, "init_asset_weight": 0.8, "maint_liab_weight": 1.1, "init_liab_weight": 1.2, "group_insurance_fund": false,
        "borrow_weight_scale_start_quote": 500_000.0, "deposit_weight_scale_start_quote": 2_000_000.0});
    if has("lists") {
        t3["fallback"] = json!(0.51);
    }
    w.add_token(8, 0.5, t3);
    w.add_perp(1.0, json!({"settle_fee_flat": 5.0, "settle_fee_amount_threshold": 50.0, "settle_fee_fraction_low_health": 0.01, "platform_liquidation_fee": 0.005, "max_staleness_slots": stale}));
    w.add_perp(25.0, json!({"base_lot_size": 10, "quote_lot_size": 1, "maker_fee": -0.0001, "taker_fee": 0.0005, "positive_pnl_liquidation_fee": 0.01, "maint_overall_asset_weight": 0.7, "init_overall_asset_weight": 0.5,
        "settle_pnl_limit_factor": 0.5, "settle_pnl_limit_window_size_ts": 600, "group_insurance_fund": false, "max_staleness_slots": stale}));
    if has("lists") && r.chance(35) {
        // the fallback oracle of one token prices another
        w.toks[3].fallback = w.toks[2].oracle;
        w.apply(&json!({"op":"token_edit","t":3,"set_fallback_oracle":true})).unwrap();
    }
    let band = *r.pick(&[0.0f32, 0.5, 2.0]);
    w.add_spot(1, 0, 100, 1, band);
    w.add_spot(2, 0, 10, 1, 0.0);
    if has("limits") || r.chance(15) {
        // limits that are within reach
        w.apply(&json!({"op":"token_edit","t":0,"net_borrow_limit_per_window_quote":*r.pick(&[500_000i64, 5_000_000]),"net_borrow_limit_window_size_ts":3600})).unwrap();
        w.apply(&json!({"op":"token_edit","t":1,"deposit_limit":*r.pick(&[21_000_000u64, 23_000_000, 30_000_000])})).unwrap();
        w.apply(&json!({"op":"token_edit","t":2,"min_vault_to_deposits_ratio":*r.pick(&[0.2, 0.9, 0.97])})).unwrap();
        w.apply(&json!({"op":"token_edit","t":3,"net_borrow_limit_per_window_quote":*r.pick(&[0i64, 100_000, 1_000_000]),"net_borrow_limit_window_size_ts":*r.pick(&[600u64, 86400]),"deposit_limit":*r.pick(&[0u64, 22_000_000])})).unwrap();
    }
    if has("listing") {
        // what is still to be listed
        w.plan_token(6, 1.5, None);
        w.plan_token(5, 40.0, Some(39.0));
        w.plan_token(9, 0.003, None);
        w.plan_perp(3.0, 0);
        w.plan_perp(0.7, 2);
        w.plan_spot(3, 0, 100, 10);
        w.plan_spot(4, 0, 10, 1);
        w.plan_spot(5, 2, 1, 1);
        w.plan_spot(6, 0, 1000, 1);
        w.apply(&json!({"op":"group_edit","allowed_fast_listings_per_interval":1 + r.below(3)})).unwrap();
    }
    for i in 0..5 {
        let counts = match i {
            0 => [6, 3, 3, 12, 4],
            1 => [8, 4, 4, 16, 4],
            2 => [4, 2, 2, 8, 2],
            _ => [5, 2, 2, 6, 3],
        };
        w.add_user(None, counts, 1_000_000_000_000);
    }
    if !(has("listing") && r.chance(60) || has("access") && r.chance(30) || r.chance(10)) {
        // a production group
        w.apply(&json!({"op":"group_edit","testing":0})).unwrap();
    }
    if ["fees", "access", "subst", "gates"].iter().any(|k| has(k)) {
        w.apply(&json!({"op":"group_edit","buyback_fees":1,"buyback_fees_bonus_factor":1.2,"mngo_token_index":2,"buyback_fees_expiry_interval":86400,"collateral_fee_interval":3600,"buyback_fees_swap_mango_account":w.users[4].acct.to_string()})).unwrap();
    }
    if r.chance(55) {
        vary(&mut w, r, !has("subst"));
    }
    w
}
/// a group with parameters of its own
fn vary(w: &mut World, r: &mut Rng, limits: bool) {
    for t in 0..w.toks.len() {
        if !r.chance(60) {
            continue;
        }
        let mut o = json!({"op":"token_edit","t":t});
        let mut set = |r: &mut Rng, k: &str, v: &[f64]| {
            if r.chance(45) {
                o[k] = json!(*r.pick(v));
            }
        };
        set(r, "loan_origination_fee_rate", &[0.0, 0.0005, 0.003, 0.02]);
        set(r, "loan_fee_rate", &[0.0, 0.0005, 0.02]);
        set(r, "liquidation_fee", &[0.0, 0.01, 0.05, 0.125]);
        set(r, "platform_liquidation_fee", &[0.0, 0.01, 0.04]);
        set(r, "token_conditional_swap_taker_fee_rate", &[0.0, 0.001, 0.03]);
        set(r, "token_conditional_swap_maker_fee_rate", &[0.0, 0.002, 0.015]);
        set(r, "flash_loan_swap_fee_rate", &[0.0, 0.001, 0.01]);
        set(r, "interest_target_utilization", &[0.0, 0.3, 0.5, 0.9]);
        set(r, "interest_curve_scaling", &[1.0, 1.7, 4.0]);
        set(r, "zero_util_rate", &[0.0, 0.01, 0.05]);
        set(r, "stable_price_growth_limit", &[0.0003, 0.01, 0.1]);
        set(r, "stable_price_delay_growth_limit", &[0.06, 0.01, 0.3]);
        if t > 0 {
            if r.chance(50) {
                let (a, l) = (*r.pick(&[0.0, 0.3, 0.7, 0.9]), *r.pick(&[1.05, 1.2, 1.5]));
                o["maint_asset_weight"] = json!(a);
                o["init_asset_weight"] = json!(a * *r.pick(&[0.0, 0.5, 0.9, 1.0]));
                o["maint_liab_weight"] = json!(l);
                o["init_liab_weight"] = json!(l * *r.pick(&[1.0, 1.1, 1.4]));
            }
            if limits && r.chance(30) {
                o["borrow_weight_scale_start_quote"] = json!(*r.pick(&[1e4, 1e6, 1e18]));
                o["deposit_weight_scale_start_quote"] = json!(*r.pick(&[1e4, 1e6, 1e18]));
            }
            if r.chance(20) {
                o["group_insurance_fund"] = json!(r.below(2));
            }
        }
        let _ = w.apply(&o);
    }
    for p in 0..w.perps.len() {
        if !r.chance(70) {
            continue;
        }
        let mut o = json!({"op":"perp_edit","p":p});
        let mut set = |r: &mut Rng, k: &str, v: &[f64]| {
            if r.chance(45) {
                o[k] = json!(*r.pick(v));
            }
        };
        set(r, "min_funding", &[-0.05, -0.01, -0.3]);
        set(r, "max_funding", &[0.05, 0.02, 0.4]);
        set(r, "fee_penalty", &[0.0, 0.5, 7.25, 100.75]);
        set(r, "taker_fee", &[0.0, 0.0004, 0.001, 0.01]);
        set(r, "settle_fee_flat", &[0.0, 5.0, 300.5]);
        set(r, "settle_fee_amount_threshold", &[0.0, 50.0, 3000.0]);
        set(r, "settle_fee_fraction_low_health", &[0.0, 0.01, 0.2]);
        set(r, "settle_pnl_limit_factor", &[0.0, 0.05, 0.2, 1.0]);
        set(r, "base_liquidation_fee", &[0.0, 0.0125, 0.05]);
        set(r, "platform_liquidation_fee", &[0.0, 0.005, 0.02]);
        set(r, "positive_pnl_liquidation_fee", &[0.0, 0.01, 0.05]);
        set(r, "stable_price_growth_limit", &[0.0003, 0.01, 0.1]);
        set(r, "stable_price_delay_growth_limit", &[0.06, 0.01, 0.3]);
        if r.chance(40) {
            o["maker_fee"] = json!(*r.pick(&[-0.0002, -0.0001, 0.0, 0.0003]));
            o["taker_fee"] = json!(*r.pick(&[0.0004, 0.001, 0.01]));
        }
        if r.chance(40) {
            o["impact_quantity"] = json!(*r.pick(&[1, 10, 300]));
            o["settle_pnl_limit_window_size_ts"] = json!(*r.pick(&[60, 600, 86400]));
        }
        if r.chance(40) {
            let (a, l) = (*r.pick(&[0.5, 0.9, 0.975]), *r.pick(&[1.025, 1.1, 1.5]));
            o["maint_base_asset_weight"] = json!(a);
            o["init_base_asset_weight"] = json!(a - *r.pick(&[0.0, 0.05, 0.3]));
            o["maint_base_liab_weight"] = json!(l);
            o["init_base_liab_weight"] = json!(l + *r.pick(&[0.0, 0.05, 0.3]));
        }
        if r.chance(40) {
            let a = *r.pick(&[0.0, 0.6, 1.0]);
            o["maint_overall_asset_weight"] = json!(a);
            o["init_overall_asset_weight"] = json!(a * *r.pick(&[0.0, 0.7, 1.0]));
        }
        let _ = w.apply(&o);
    }
}
/// a perp market with one side of its book near capacity
pub fn full_book(r: &mut Rng) -> (World, u64, i64, u64) {
    let mut w = World::new();
    w.add_token(6, 1.0, json!({}));
    w.add_perp(1.0, json!({}));
    for i in 0..10 {
        w.add_user(None, [2, 1, 1, if i == 9 { 20 } else { 64 }, 1], 1_000_000_000_000);
    }
    for a in 0..10 {
        w.apply(&json!({"op":"deposit","a":a,"t":0,"n":40_000_000})).unwrap();
    }
    let o: &StubOracle = w.zc(&w.perps[0].oracle);
    let pm = w.perp(0);
    let mid = (o.price.to_num::<f64>() * pm.base_lot_size as f64 / pm.quote_lot_size as f64) as i64;
    let side = r.below(2);
    let sign = if side == 0 { -1 } else { 1 };
    let pegs = *r.pick(&[0u64, 20, 60, 100]);
    let timed = *r.pick(&[0u64, 2, 20]);
    let width = *r.pick(&[3u64, 40, mid as u64 / 20 + 1]);
    let want = 507 + r.below(8) as usize;
    let now = w.rt.clock.unix_timestamp as u64;
    let mut done = 0;
    let mut misses = 0;
    while done < want && misses < 60 {
        let off = sign * (1 + r.below(width) as i64);
        let exp = if r.chance(timed) { now + 1 + r.below(250) } else { 0 };
        let a = (done * 9 / want).min(8);
        let a = if misses > 0 { r.below(9) as usize } else { a };
        let mut op = json!({"op":"perp_place","p":0,"a":a,"side":side,"px":(mid + off).max(1),"base":1 + r.below(4),"quote":i64::MAX,"cid":done,"ot":0,"stb":0,"ro":0,"exp":exp,"limit":10});
        if r.chance(pegs) {
            op["op"] = json!("perp_peg");
            op["off"] = json!(off);
            op["peg"] = json!(-1);
        }
        if w.apply(&op).is_ok() {
            done += 1;
        } else {
            misses += 1;
        }
    }
    // a time at which the timed ones may be over
    if r.chance(60) {
        w.apply(&json!({"op":"clock","dt":r.below(300)})).unwrap();
    }
    (w, side, mid, width)
}
/// deposits that make most later operations possible
pub fn seed_deposits(rec: &mut Rec, w: &mut World, r: &mut Rng) {
    let n = w.users.len();
    for a in 0..n {
        for t in 0..w.toks.len() {
            if a == n - 1 || r.chance(if a == 0 { 100 } else { 45 }) {
                let amt = if a == n - 1 { 20_000_000 } else { 500_000 + r.below(3_000_000) };
                let _ = rec.step(w, &json!({"op":"deposit","a":a,"t":t,"n":amt}));
            }
        }
    }
}

pub fn generate(kind: &str, seed: u64, worlds: usize, steps: usize, prefix: &str) {
    let mut rec = Rec::new(prefix);
    for k in 0..worlds {
        let from = json!({"std": {"kind": kind, "seed": seed * 1000 + k as u64}});
        let mut r = Rng::new(seed * 1000 + k as u64);
        r.next();
        if kind == "book" {
            let (mut w, side, mid, width) = full_book(&mut r);
            rec.init(&w, &from);
            let mut g = Gen::new(seed * 7919 + k as u64, profile(kind));
            let mut k = 0;
            while k < steps {
                for mut op in g.op(&mut w) {
                    let name = op["op"].as_str().unwrap().to_string();
                    if (name == "perp_place" || name == "perp_peg") && r.chance(65) {
                        let off = (if side == 0 { -1 } else { 1 }) * (1 + r.below(width + 2) as i64);
                        op["side"] = json!(side);
                        op["px"] = json!((mid + off).max(1));
                        op["off"] = json!(off);
                        op["ot"] = json!(*r.pick(&[0u64, 0, 2]));
                        op["quote"] = json!(i64::MAX);
                    }
                    let _ = rec.step(&mut w, &op);
                    k += 1;
                }
            }
            continue;
        }
        let mut w = std_world(kind, &mut r);
        rec.init(&w, &from);
        let _ = rec.step(&mut w, &json!({"op":"fund_insurance","n":*r.pick(&[0u64, 1000, 200_000, 50_000_000])}));
        seed_deposits(&mut rec, &mut w, &mut r);
        let mut g = Gen::new(seed * 7919 + k as u64, profile(kind));
        let mut k = 0;
        while k < steps {
            for op in g.op(&mut w) {
                let _ = rec.step(&mut w, &op);
                k += 1;
            }
        }
    }
    rec.finish();
}

pub fn script(file: &str, prefix: &str) {
    let mut rec = Rec::new(prefix);
    let mut w: Option<World> = None;
    for l in std::fs::read_to_string(file).unwrap().lines() {
        if l.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).unwrap();
        if v.get("world").is_some() {
            let x = crate::rec::make_world(&v["world"]);
            rec.init(&x, &v);
            w = Some(x);
        } else if let Some(s) = v.get("std") {
            let kind = s["kind"].as_str().unwrap();
            let mut r = Rng::new(s["seed"].as_u64().unwrap());
            r.next();
            let x = if kind == "book" { full_book(&mut r).0 } else { std_world(kind, &mut r) };
            rec.init(&x, &v);
            w = Some(x);
        } else {
            let _ = rec.step(w.as_mut().unwrap(), &v);
        }
    }
    rec.finish();
}
/// {"tokens":[{"dec":6,"price":1.0,...}], "perps":[...], "spots":[...], "users":[{"counts":[..],"owner":"A0"}], "group":{...}}
pub fn make_world(v: &Value) -> World {
    let mut w = World::new();
    for t in v["tokens"].as_array().unwrap() {
        let i = w.add_token(gi(t, "dec").unwrap_or(6) as u8, gf(t, "price").unwrap(), t.clone());
        for _ in 1..gi(t, "banks").unwrap_or(1) {
            w.add_bank(i);
        }
    }
    for p in v.get("perps").and_then(|x| x.as_array()).unwrap_or(&vec![]) {
        w.add_perp(gf(p, "price").unwrap(), p.clone());
    }
    for s in v.get("spots").and_then(|x| x.as_array()).unwrap_or(&vec![]) {
        w.add_spot(gi(s, "base").unwrap() as usize, gi(s, "quote").unwrap() as usize, gi(s, "bl").unwrap() as u64, gi(s, "ql").unwrap() as u64, gf(s, "band").unwrap_or(0.0) as f32);
    }
    for u in v["users"].as_array().unwrap() {
        let c: Vec<u8> = u.get("counts").and_then(|x| x.as_array()).map(|x| x.iter().map(|y| num(y) as u8).collect()).unwrap_or(vec![8, 4, 4, 16, 4]);
        let owner = u.get("owner").and_then(|x| x.as_str()).map(|s| w.who(s));
        w.add_user(owner, [c[0], c[1], c[2], c[3], c[4]], gi(u, "funds").unwrap_or(1_000_000_000_000) as u64);
    }
    if let Some(g) = v.get("group") {
        let mut o = g.clone();
        o["op"] = json!("group_edit");
        w.apply(&o).unwrap();
    }
    w
}
