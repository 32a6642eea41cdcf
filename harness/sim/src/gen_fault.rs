//! Obstacles put in the way of operations that would otherwise succeed, then removed again.
use crate::gen::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Value};

/// the switch that turns an operation off
pub fn gate_of(o: &Value) -> Option<u32> {
    Some(match o["op"].as_str()? {
        "account_close" => 0,
        "account_create" => 1,
        "account_edit" => 2,
        "account_expand" => 3,
        "account_freeze" => 4,
        "flash_begin" | "flash_swap_begin" | "flash_end" => 7,
        "region_begin" | "region_end" => 10,
        "perp_cancel_all" => 11,
        "perp_cancel_side" => 12,
        "perp_cancel" => 13,
        "perp_cancel_cid" => 14,
        "perp_consume" => 16,
        "perp_deactivate" => 18,
        "perp_liq_base" => 19,
        "perp_liq_cancel" => 20,
        "perp_liq_neg" => 21,
        "perp_place" | "perp_peg" => 22,
        "perp_settle_fees" => 23,
        "perp_settle_pnl" => 24,
        "perp_funding" => 25,
        "s3_cancel_all" => 26,
        "s3_cancel" | "s3_cancel_cid" => 27,
        "s3_close" => 28,
        "s3_create" => 29,
        "s3_liq_cancel" => 32,
        "s3_place" => 33,
        "s3_settle" => 35,
        "deposit" | "deposit_existing" => 40,
        "liq_bankruptcy" => 42,
        "liq_token" => 43,
        "update_index" => 46,
        "withdraw" => 47,
        "buyback" => 48,
        "force_close_borrows" => 49,
        "perp_force_close" => 50,
        "tcs_create" => match gi(o, "kind").unwrap_or(0) {
            1 => 69,
            2 => 70,
            _ => 52,
        },
        "tcs_trigger" => 53,
        "tcs_cancel" => 54,
        "withdraw_fees" => 65,
        "perp_withdraw_fees" => 66,
        "account_migrate" => 67,
        "tcs_start" => 68,
        "force_withdraw" => 72,
        "seq_check" => 73,
        "health_check" => 74,
        "perp_close" => 15,
        "perp_create" => 17,
        "s3_dereg" => 30,
        "s3_register" => 34,
        "token_add_bank" => 39,
        "token_deregister" => 41,
        "token_register" => 44,
        "token_register_trustless" => 45,
        "batch" => return o["ops"].as_array()?.iter().find_map(gate_of),
        _ => return None,
    })
}

fn fields<'a>(o: &'a Value, k: &str, out: &mut Vec<usize>) {
    if let Some(v) = o.get("ops").and_then(|v| v.as_array()) {
        for x in v {
            fields(x, k, out)
        }
    }
    if let Some(v) = gi(o, k) {
        out.push(v as usize)
    }
}
fn oracle_json(w: &World, sel: &Value) -> Value {
    let o: &StubOracle = w.zc(&w.oracle_of(sel));
    let mut v = sel.clone();
    v["op"] = json!("oracle_set");
    v["bits"] = json!(o.price.to_bits().to_string());
    v["dev_bits"] = json!(o.deviation.to_bits().to_string());
    v["slot"] = json!(o.last_update_slot);
    v
}

impl Gen {
    pub fn dry(&mut self, w: &mut World, o: &Value) -> bool {
        let keep = w.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.apply(o))).map(|r| r.is_ok()).unwrap_or(false);
        *w = keep;
        r
    }
    fn accounts_in(o: &Value, w: &World) -> Vec<usize> {
        let mut v = vec![];
        for k in ["a", "l", "b", "s", "dao"] {
            if (k == "b" || k == "s") && !matches!(o["op"].as_str(), Some("perp_settle_pnl") | Some("perp_force_close")) {
                continue;
            }
            fields(o, k, &mut v)
        }
        v.retain(|a| *a < w.users.len());
        v.sort();
        v.dedup();
        v
    }
    fn tokens_in(o: &Value, w: &World, held: bool) -> Vec<usize> {
        let mut v = vec![];
        for k in ["t", "at", "lt", "bt", "st", "m"] {
            fields(o, k, &mut v)
        }
        if o["op"].as_str().map(|s| s.starts_with("s3_")).unwrap_or(false) {
            let mut s = vec![];
            fields(o, "s", &mut s);
            for s in s {
                if s < w.spots.len() {
                    v.push(w.spots[s].base);
                    v.push(w.spots[s].quote)
                }
            }
        }
        if let Some(ops) = o["ops"].as_array() {
            for x in ops {
                for l in x["loans"].as_array().unwrap_or(&vec![]) {
                    fields(l, "t", &mut v)
                }
            }
        }
        if held {
            for a in Self::accounts_in(o, w) {
                if let Some(x) = w.account(a) {
                    v.extend(x.active_token_positions().map(|p| p.token_index as usize));
                }
            }
        }
        v.retain(|t| *t < w.toks.len());
        v
    }
    fn perps_in(o: &Value, w: &World, held: bool) -> Vec<usize> {
        let mut v = vec![];
        fields(o, "p", &mut v);
        if held {
            for a in Self::accounts_in(o, w) {
                if let Some(x) = w.account(a) {
                    v.extend(x.active_perp_positions().map(|p| p.market_index as usize));
                }
            }
        }
        v.retain(|t| *t < w.perps.len());
        v
    }
    /// (obstacle, removal)
    fn obstacle(&mut self, w: &mut World, x: &Value) -> Option<(Vec<Value>, Vec<Value>, Option<Value>)> {
        let kinds = self.p.kinds.clone();
        let kind = *self.r.pick(&kinds);
        match kind {
            // a limit of a token drawn just around what the operation leads to
            "limit" => {
                let look = |w: &World| -> Vec<(I80F48, I80F48, i64)> {
                    (0..w.toks.len()).map(|t| { let b = w.bank(t, 0); (b.native_deposits(), b.native_borrows(), b.net_borrows_in_window) }).collect()
                };
                let before = look(w);
                let accs = w.rt.accs.clone();
                let keep = w.rt.clock.clone();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.apply(x).is_ok()));
                let after = look(w);
                let vaults: Vec<u64> = (0..w.toks.len()).map(|t| token_amount(&w.rt, &w.bank(t, 0).vault)).collect();
                w.rt.accs = accs;
                w.rt.clock = keep;
                let mut c = vec![];
                for t in 0..before.len() {
                    let b = w.bank(t, 0);
                    let near = |r: &mut Rng, v: i64| match r.below(6) { 0 => v, 1 => v - 1, 2 => v + 1, 3 => v - 2, 4 => v + 2, _ => (v as f64 * (0.7 + 0.4 * r.f())) as i64 };
                    if after[t].0 > before[t].0 + I80F48::ONE {
                        let l = near(&mut self.r, after[t].0.to_num::<i64>()).max(1);
                        c.push((json!({"op":"token_edit","t":t,"deposit_limit":l}), json!({"op":"token_edit","t":t,"deposit_limit":b.deposit_limit})));
                    }
                    if after[t].2 != before[t].2 {
                        let px = self.price(w, t).max(b.stable_price().to_num::<f64>());
                        let l = near(&mut self.r, (after[t].2 as f64 * px) as i64).max(0);
                        let old = json!({"op":"token_edit","t":t,"net_borrow_limit_per_window_quote":b.net_borrow_limit_per_window_quote});
                        c.push((json!({"op":"token_edit","t":t,"net_borrow_limit_per_window_quote":l}), old));
                    }
                    if after[t] != before[t] && after[t].0 > I80F48::ONE {
                        let have = if self.r.chance(60) { 1.0 - (after[t].1 / after[t].0).to_num::<f64>() } else { vaults[t] as f64 / after[t].0.to_num::<f64>() };
                        let v = (have * *self.r.pick(&[0.999, 1.0, 1.000001, 1.01, 0.9])).clamp(0.0, 1.0);
                        c.push((json!({"op":"token_edit","t":t,"min_vault_to_deposits_ratio":v}), json!({"op":"token_edit","t":t,"min_vault_to_deposits_ratio":b.min_vault_to_deposits_ratio})));
                    }
                }
                if c.is_empty() {
                    return None;
                }
                let (on, off) = self.r.pick(&c).clone();
                Some((vec![on], vec![off], None))
            }
            // a bank left out of the health accounts
            "miss" => {
                let a = gi(x, "a").or_else(|| gi(x["ops"].get(0)?, "a"))? as usize;
                let held: Vec<(usize, I80F48)> = w.account(a)?.active_token_positions().map(|p| (p.token_index as usize, p.indexed_position)).collect();
                let mut y = x.clone();
                let z = if x["op"] == "batch" { y["ops"].as_array_mut()?.iter_mut().find(|z| z["op"] == "flash_end")? } else { &mut y };
                if !matches!(z["op"].as_str()?, "withdraw" | "deposit" | "perp_place" | "perp_peg" | "s3_place" | "flash_end" | "health_check") {
                    return None;
                }
                let own = gi(z, "t").map(|t| t as usize);
                let t = if own.is_some() && self.r.chance(65) { own? } else if held.is_empty() { return None } else { self.r.pick(&held).0 };
                z["drop"] = if self.r.chance(15) && !held.is_empty() { json!([t, self.r.pick(&held).0]) } else { json!([t]) };
                if z["op"] == "withdraw" && own == Some(t) && self.r.chance(70) {
                    let has = held.iter().find(|h| h.0 == t).map(|h| h.1).unwrap_or(I80F48::ZERO);
                    let nat = (has * w.bank(t, 0).deposit_index).max(I80F48::ZERO).to_num::<u64>();
                    z["borrow"] = json!(1);
                    z["n"] = json!(match self.r.below(4) {
                        0 => nat + 1 + self.r.below(5),
                        1 => nat.max(1),
                        2 => 1 + nat + self.r.below(1 + nat / 50),
                        _ => 1 + self.r.below(nat.max(1)),
                    });
                }
                Some((vec![], vec![], Some(y)))
            }
            "oracle" => {
                let ts = Self::tokens_in(x, w, true);
                let ps = Self::perps_in(x, w, true);
                let sel = if !ps.is_empty() && self.r.chance(35) {
                    json!({"p":*self.r.pick(&ps)})
                } else if !ts.is_empty() {
                    json!({"t":*self.r.pick(&ts)})
                } else {
                    return None;
                };
                let mut on = vec![];
                let mut off = vec![];
                let mut sels = vec![sel.clone()];
                if let Some(t) = gi(&sel, "t") {
                    if w.toks[t as usize].fallback != Default::default() && self.r.chance(50) {
                        sels.push(json!({"t":t,"fb":1}))
                    }
                }
                for s in sels {
                    let good = oracle_json(w, &s);
                    let mut bad = good.clone();
                    let px = I80F48::from_bits(gi(&good, "bits").unwrap());
                    match self.r.below(3) {
                        0 => bad["slot"] = json!(w.rt.clock.slot.saturating_sub(*self.r.pick(&[99u64, 100, 101, 1000]))),
                        1 => bad["dev_bits"] = json!((px * I80F48::from_num(*self.r.pick(&[0.05, 0.0999, 0.1001, 1.0]))).to_bits().to_string()),
                        _ => {
                            bad["slot"] = json!(w.rt.clock.slot.saturating_sub(1000));
                            bad["dev_bits"] = json!(px.to_bits().to_string())
                        }
                    }
                    on.push(bad);
                    off.push(good);
                }
                Some((on, off, None))
            }
            "gate" => {
                let g = if self.r.chance(70) { gate_of(x)? } else { *self.r.pick(&[0u32, 7, 11, 13, 14, 16, 22, 24, 33, 35, 40, 47, 52, 53, 69, 70, 71, 72, 74]) };
                let mut m: u128 = 1u128 << g;
                if g == 33 && self.r.chance(70) {
                    m |= 1 << 71
                }
                if self.r.chance(15) {
                    // everything else
                    m = !m & ((1u128 << 77) - 1)
                }
                let cur = w.zc::<Group>(&w.group).ix_gate;
                Some((vec![json!({"op":"ix_gate_set","gate":m.to_string()})], vec![json!({"op":"ix_gate_set","gate":cur.to_string()})], None))
            }
            "freeze" => {
                let v = Self::accounts_in(x, w);
                if v.is_empty() {
                    return None;
                }
                let a = *self.r.pick(&v);
                Some((vec![json!({"op":"account_freeze","a":a,"freeze":1})], vec![json!({"op":"account_freeze","a":a,"freeze":0})], None))
            }
            "mode" => {
                let mut c = vec![];
                if x["op"] == "liq_token" && self.r.chance(50) {
                    let t = gi(x, "at")? as usize;
                    let b = w.bank(t, 0);
                    let (maw, iaw, ro) = (b.maint_asset_weight.to_num::<f64>(), b.init_asset_weight.to_num::<f64>(), b.reduce_only);
                    return Some((
                        vec![json!({"op":"token_edit","t":t,"reduce_only":2,"disable_asset_liquidation":1,"maint_asset_weight":0.0,"init_asset_weight":0.0})],
                        vec![json!({"op":"token_edit","t":t,"reduce_only":ro,"disable_asset_liquidation":0,"maint_asset_weight":maw,"init_asset_weight":iaw})],
                        None,
                    ));
                }
                for t in Self::tokens_in(x, w, false) {
                    let (ro, fc) = (w.bank(t, 0).reduce_only, w.bank(t, 0).is_force_close());
                    let mut on = json!({"op":"token_edit","t":t,"reduce_only":*self.r.pick(&[1u8, 2])});
                    if self.r.chance(20) {
                        on["force_close"] = json!(1)
                    }
                    c.push((on, json!({"op":"token_edit","t":t,"reduce_only":ro,"force_close":fc as u8})));
                }
                for p in Self::perps_in(x, w, false) {
                    let (ro, fc) = (w.perp(p).is_reduce_only(), w.perp(p).is_force_close());
                    let mut on = json!({"op":"perp_edit","p":p,"reduce_only":1});
                    if self.r.chance(20) {
                        on["force_close"] = json!(1)
                    }
                    c.push((on, json!({"op":"perp_edit","p":p,"reduce_only":ro as u8,"force_close":fc as u8})));
                }
                if x["op"].as_str().map(|s| s.starts_with("s3_")).unwrap_or(false) {
                    if let Some(s) = gi(x, "s") {
                        let m: &Serum3Market = w.zc(&w.spots[s as usize].key);
                        let (ro, fc) = (m.is_reduce_only(), m.is_force_close());
                        c.push((json!({"op":"s3_edit","s":s as u64,"reduce_only":1,"force_close":self.r.chance(30) as u8}), json!({"op":"s3_edit","s":s as u64,"reduce_only":ro as u8,"force_close":fc as u8})));
                    }
                }
                if c.is_empty() {
                    return None;
                }
                let (on, off) = self.r.pick(&c).clone();
                Some((vec![on], vec![off], None))
            }
            "signer" => {
                if x["op"] == "via_proxy" {
                    return None;
                }
                let names = ["admin", "stranger", "delegate", "other", "fast", "sec", "delegate", "other"];
                let n: String = if self.r.chance(30) { w.users[self.user(w)].name.clone() } else { self.r.pick(&names).to_string() };
                let mut y = x.clone();
                let mut actor = None;
                if let Some(ops) = y.get_mut("ops").and_then(|v| v.as_array_mut()) {
                    for o in ops.iter_mut() {
                        if o["op"] != "spl_transfer" {
                            o["by"] = json!(n)
                        }
                        actor = actor.or(gi(o, "a"));
                    }
                } else {
                    y["by"] = json!(n);
                    if x["op"] == "withdraw" && self.r.chance(40) {
                        y["to"] = json!(self.user(w))
                    }
                    actor = match x["op"].as_str()? {
                        "perp_settle_pnl" => gi(x, "s"),
                        _ => gi(x, "l").or(gi(x, "a")),
                    };
                }
                // sometimes the signer is made a delegate first, for good or for a while
                let mut on = vec![];
                if let Some(a) = actor {
                    if self.r.chance(45) {
                        let d = *self.r.pick(&["none", "delegate", "other"]);
                        if self.r.chance(60) {
                            on.push(json!({"op":"account_edit","a":a as u64,"delegate":n}))
                        } else {
                            let life = *self.r.pick(&[0u64, 1, 2, 60]);
                            on.push(json!({"op":"account_edit","a":a as u64,"delegate":d,"tmp":n,"tmp_exp":w.rt.clock.unix_timestamp as u64 + life}));
                            if self.r.chance(60) {
                                on.push(json!({"op":"clock","dt":*self.r.pick(&[life, life + 1, life.max(1) - 1])}))
                            }
                        }
                    }
                }
                Some((on, vec![], Some(y)))
            }
            "sub" => {
                let skip = |x: &Value| matches!(x["op"].as_str(), Some("batch") | Some("via_proxy") | Some("legacy_pad") | Some("clock") | Some("dex_fill") | Some("fund_insurance") | Some("spl_transfer") | Some("compute") | Some("compute_budget"));
                let mut y = x.clone();
                if let Some(ops) = y.get_mut("ops").and_then(|v| v.as_array_mut()) {
                    let k = self.r.below(ops.len() as u64) as usize;
                    if skip(&ops[k]) {
                        return None;
                    }
                    ops[k] = w.substitute(&ops[k], &mut self.r)?;
                } else if skip(x) {
                    return None;
                } else {
                    y = w.substitute(x, &mut self.r)?;
                    // several for what does not come by often
                    let name = x["op"].as_str().unwrap();
                    let mut more = vec![];
                    while more.len() < 4 && w.untried(name) {
                        more.extend(w.substitute(x, &mut self.r))
                    }
                    return Some((more, vec![], Some(y)));
                }
                Some((vec![], vec![], Some(y)))
            }
            _ => None,
        }
    }
    pub fn op(&mut self, w: &mut World) -> Vec<Value> {
        // what is not listed (any more) has nothing to operate on
        loop {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.op_faulty(w))) {
                Ok(v) => return v,
                Err(e) if !self.p.w.iter().any(|x| x.0 == "list") => std::panic::resume_unwind(e),
                Err(_) => continue,
            }
        }
    }
    fn op_faulty(&mut self, w: &mut World) -> Vec<Value> {
        let mut v = self.op_plain(w);
        if self.p.faults == 0 || !self.r.chance(self.p.faults) || v.is_empty() {
            return v;
        }
        let x = v.last().unwrap().clone();
        if self.p.kinds == ["bank"] {
            // the tokens get further banks in the course of the history
            let t = self.r.below(w.toks.len() as u64) as usize;
            let n = w.toks[t].banks.len();
            if self.r.chance(12) && n < 4 && w.exists(&w.toks[t].info) {
                v.push(json!({"op":"token_add_bank","t":t,"num":n,"from":self.r.below(n as u64)}));
            }
            return v;
        }
        // a step of several operations: one of them, with those before it done
        let j = if v.len() > 1 { self.r.below(v.len() as u64) as usize } else { 0 };
        let x = v[j].clone();
        if matches!(x["op"].as_str(), Some("clock") | Some("oracle_set") | Some("ix_gate_set")) {
            return v;
        }
        if j == 0 {
            if self.dry(w, &x) {
                self.put(w, &mut v, 0, &x);
            }
            return v;
        }
        let mut w2 = w.clone();
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for y in &v[..j] {
                let _ = w2.apply(y);
            }
        }));
        if ok.is_ok() && self.dry(&mut w2, &x) {
            self.put(&mut w2, &mut v, j, &x);
        }
        v
    }
    /// puts an obstacle before the operation at `j`
    fn put(&mut self, w: &mut World, v: &mut Vec<Value>, j: usize, x: &Value) {
        if let Some((on, off, alt)) = self.obstacle(w, x) {
            let mut seq = on;
            seq.push(alt.unwrap_or(x.clone()));
            seq.extend(off);
            seq.push(x.clone());
            v.splice(j..j + 1, seq);
        }
    }
}
