//! What the client-side helpers say about an account: the size of trade that keeps a health ratio, phases of
//! liquidation, mark-to-market sheet.  An "assess" operation changes nothing; its line carries the answers.
use crate::state::{fb, n};
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::health::{HealthCache, HealthType};
use mango_v4::state::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bits(o: &Value, k: &str) -> I80F48 {
    I80F48::from_bits(o[k].as_str().and_then(|x| x.parse::<i128>().ok()).or(o[k].as_i64().map(|x| x as i128)).unwrap_or(0))
}
fn ask(f: impl FnOnce() -> anchor_lang::Result<Value>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": v}),
        Ok(Err(e)) => {
            let missing = matches!(&e, anchor_lang::error::Error::AnchorError(x) if x.error_code_number == 6028 || x.error_code_number == 6020);
            json!({"r": if missing { "missing" } else { "error" }, "v": 0, "e": format!("{:?}", e).chars().take(300).collect::<String>()})
        }
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            json!({"r": "panic", "v": 0, "e": s.chars().take(200).collect::<String>()})
        }
    }
}

pub fn assess(w: &World, op: &Value) -> Value {
    let us = |k: &str| op[k].as_u64().unwrap() as usize;
    let a = us("a");
    w.with_cache(a, |x, c: &HealthCache| {
        let acc = w.account(a).unwrap();
        let _ = x;
        let ratio = bits(op, "ratio");
        let types = [("i", HealthType::Init), ("m", HealthType::Maint), ("e", HealthType::LiquidationEnd)];
        let mut rat = json!({});
        let mut sheet = json!({});
        for (k, t) in types {
            rat[k] = fb(c.health_ratio(t));
            let (p, q) = c.health_assets_and_liabs_stable_assets(t);
            let (r, s) = c.health_assets_and_liabs_stable_liabs(t);
            sheet[k] = json!([fb(p), fb(q), fb(r), fb(s)]);
        }
        let (ma, ml) = c.assets_and_liabs();
        let lev = ask(|| Ok(fb(c.leverage())));
        let borrow = op.get("t").map(|_| {
            let bank = w.bank(us("t"), 0);
            ask(|| Ok(fb(c.max_borrow_for_health_ratio(&acc, bank, ratio)?)))
        });
        let swap = op.get("st").map(|_| {
            let (s, t) = (us("st"), us("tt"));
            let (bs, bt) = (w.bank(s, 0), w.bank(t, 0));
            let px = bits(op, "px");
            let so = w.oracle_price(s);
            json!([
                ask(|| Ok(fb(c.max_swap_source_for_health_ratio_ignoring_limits(&acc, bs, so, bt, px, ratio)?))),
                ask(|| Ok(fb(c.max_swap_source_for_health_ratio_with_limits(&acc, bs, so, bt, px, ratio)?)))
            ])
        });
        let perp = op.get("p").map(|_| {
            let side = if op["side"] == 0 { Side::Bid } else { Side::Ask };
            let idx = w.perps[us("p")].idx;
            ask(|| Ok(n(c.max_perp_for_health_ratio(idx, bits(op, "pp"), side, ratio)?)))
        });
        let pot = (0..w.toks.len()).map(|t| ask(|| Ok(fb(c.total_serum3_potential(HealthType::Init, w.toks[t].idx)?)))).collect::<Vec<_>>();
        let set = (0..w.toks.len()).map(|t| ask(|| Ok(fb(c.perp_max_settle(w.toks[t].idx)?)))).collect::<Vec<_>>();
        let mut v = json!({"liq": c.is_liquidatable() as u8, "rat": rat, "sheet": sheet, "ma": fb(ma), "ml": fb(ml), "lev": lev, "pot": pot, "set": set,
            "ph": [c.in_phase1_liquidation() as u8, c.in_phase2_liquidation() as u8, c.in_phase3_liquidation() as u8]});
        for (k, x) in [("borrow", borrow), ("swap", swap), ("perp", perp)] {
            if let Some(x) = x {
                v[k] = x;
            }
        }
        v
    })
    .unwrap_or(Value::Null)
}
