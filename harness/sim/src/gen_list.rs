//! Listing: tokens, banks and markets are registered and taken off again, with parameters
//! that are mostly acceptable.
use crate::gen::Gen;
use crate::world::{merge, perp_defaults, token_defaults, World};
use serde_json::{json, Value};

impl Gen {
    fn lister(&mut self, o: &mut Value, fast: u64) {
        if self.r.chance(fast) {
            o["by"] = json!("fast");
        } else if self.r.chance(8) {
            o["by"] = json!(*self.r.pick(&["sec", "stranger", "fast"]));
        }
    }
    /// mostly the index planned for it; `planned`: indexes that others are yet to be listed under
    fn index(&mut self, o: &mut Value, used: usize, last: u16, planned: Vec<u16>) {
        o["idx"] = json!(last);
        if self.r.chance(18) {
            o["idx"] = json!(*self.r.pick(&[0u64, 1, 7, 9, 65534, 65535, used as u64]));
            if planned.contains(&(o["idx"].as_u64().unwrap() as u16)) {
                o["idx"] = json!(last);
            }
        }
    }
    fn gone_tok(&mut self, w: &World) -> usize {
        let dead: Vec<usize> = (0..w.toks.len()).filter(|t| !w.exists(&w.toks[*t].info)).collect();
        if dead.is_empty() || self.r.chance(12) {
            self.r.below(w.toks.len() as u64) as usize
        } else {
            *self.r.pick(&dead)
        }
    }
    fn token_params(&mut self) -> Value {
        let mut o = token_defaults();
        let r = &mut self.r;
        let mut f = |r: &mut crate::gen::Rng, k: &str, p: u64, v: &[f64]| {
            if r.chance(p) {
                o[k] = json!(*r.pick(v));
            }
        };
        f(r, "conf_filter", 30, &[0.0, 0.01, 0.3]);
        f(r, "util0", 40, &[0.0, 0.1, 0.5]);
        f(r, "util1", 40, &[0.5, 0.7, 1.0]);
        for k in ["rate0", "rate1", "max_rate"] {
            f(r, k, 40, &[0.0, 0.02, 0.3, 2.0]);
        }
        f(r, "adjustment_factor", 40, &[0.0, 0.004, 0.1]);
        for k in ["loan_fee_rate", "loan_origination_fee_rate", "liquidation_fee", "platform_liquidation_fee", "token_conditional_swap_taker_fee_rate", "token_conditional_swap_maker_fee_rate", "flash_loan_swap_fee_rate", "zero_util_rate", "collateral_fee_per_day"] {
            f(r, k, 45, &[0.0, 0.001, 0.015, 0.05]);
        }
        f(r, "maint_asset_weight", 50, &[0.0, 0.6, 0.9, 1.0]);
        f(r, "init_asset_weight", 50, &[0.0, 0.3, 0.55]);
        f(r, "maint_liab_weight", 50, &[1.0, 1.1, 1.3]);
        f(r, "init_liab_weight", 50, &[1.3, 1.5, 2.0]);
        f(r, "stable_price_delay_growth_limit", 40, &[0.0, 0.01, 0.3]);
        f(r, "stable_price_growth_limit", 40, &[0.0, 0.001, 0.1]);
        f(r, "min_vault_to_deposits_ratio", 50, &[0.0, 0.2, 1.0]);
        f(r, "borrow_weight_scale_start_quote", 50, &[1e9, 5e10, f64::MAX]);
        f(r, "deposit_weight_scale_start_quote", 50, &[1e9, 5e10, f64::MAX]);
        f(r, "interest_curve_scaling", 40, &[1.0, 2.5, 4.0]);
        f(r, "interest_target_utilization", 40, &[0.0, 0.5, 1.0]);
        let mut n = |r: &mut crate::gen::Rng, k: &str, v: &[i64]| {
            if r.chance(40) {
                o[k] = json!(*r.pick(v));
            }
        };
        n(r, "net_borrow_limit_window_size_ts", &[1, 3600, 604800]);
        n(r, "net_borrow_limit_per_window_quote", &[-1, 0, 5_000_000]);
        n(r, "reduce_only", &[0, 1, 2]);
        n(r, "deposit_limit", &[0, 1, 1_000_000_000]);
        n(r, "stable_price_delay_interval_seconds", &[60, 600]);
        n(r, "max_staleness_slots", &[0, 50]);
        if r.chance(35) {
            o["group_insurance_fund"] = json!(false);
        }
        if r.chance(40) {
            o["tier"] = json!(*r.pick(&["", "C", "SSS"]));
        }
        if r.chance(25) {
            o["disable_asset_liquidation"] = json!(true);
            if r.chance(85) {
                o["reduce_only"] = json!(*r.pick(&[1, 2]));
                o["maint_asset_weight"] = json!(0.0);
                o["init_asset_weight"] = json!(0.0);
            }
        }
        if r.chance(30) {
            // one of them just out of bounds
            let bad: [(&str, Value); 30] = [
                ("conf_filter", json!(-0.0001)), ("util0", json!(-0.0001)), ("util0", json!(0.99)), ("util1", json!(1.0001)), ("rate0", json!(-0.0001)),
                ("rate1", json!(-0.0001)), ("max_rate", json!(-0.0001)), ("adjustment_factor", json!(-0.0001)), ("loan_fee_rate", json!(-0.0001)),
                ("loan_origination_fee_rate", json!(-0.0001)), ("stable_price_delay_growth_limit", json!(-0.0001)), ("stable_price_growth_limit", json!(-0.0001)),
                ("init_asset_weight", json!(-0.0001)), ("init_asset_weight", json!(1.01)), ("maint_liab_weight", json!(-0.0001)), ("maint_liab_weight", json!(2.01)),
                ("liquidation_fee", json!(-0.0001)), ("min_vault_to_deposits_ratio", json!(-0.0001)), ("min_vault_to_deposits_ratio", json!(1.0001)),
                ("net_borrow_limit_per_window_quote", json!(-2)), ("borrow_weight_scale_start_quote", json!(0.0)), ("deposit_weight_scale_start_quote", json!(0.0)),
                ("reduce_only", json!(3)), ("token_conditional_swap_taker_fee_rate", json!(-0.0001)), ("token_conditional_swap_maker_fee_rate", json!(-0.0001)),
                ("flash_loan_swap_fee_rate", json!(-0.0001)), ("interest_curve_scaling", json!(0.9999)), ("interest_target_utilization", json!(*r.pick(&[-0.0001, 1.0001]))),
                ("zero_util_rate", json!(-0.0001)), ("platform_liquidation_fee", json!(-0.0001)),
            ];
            let (k, v) = r.pick(&bad).clone();
            o[k] = v;
        }
        o
    }
    fn perp_params(&mut self) -> Value {
        let mut o = perp_defaults();
        let r = &mut self.r;
        let mut f = |r: &mut crate::gen::Rng, k: &str, v: &[f64]| {
            if r.chance(45) {
                o[k] = json!(*r.pick(v));
            }
        };
        f(r, "conf_filter", &[0.0, 0.01, 0.3]);
        f(r, "maint_base_asset_weight", &[0.8, 0.9]);
        f(r, "init_base_asset_weight", &[0.7, 0.85]);
        f(r, "maint_base_liab_weight", &[1.05, 1.1]);
        f(r, "init_base_liab_weight", &[1.1, 1.3]);
        f(r, "maint_overall_asset_weight", &[0.0, 0.9]);
        f(r, "init_overall_asset_weight", &[0.0, 0.8]);
        for k in ["base_liquidation_fee", "taker_fee", "positive_pnl_liquidation_fee", "platform_liquidation_fee", "settle_fee_fraction_low_health"] {
            f(r, k, &[0.0, 0.0006, 0.01]);
        }
        f(r, "maker_fee", &[0.0, -0.0002, 0.001]);
        f(r, "min_funding", &[-0.1, -0.01]);
        f(r, "max_funding", &[0.1, 0.02]);
        f(r, "fee_penalty", &[0.0, 100.0]);
        f(r, "settle_fee_flat", &[0.0, 1000.0]);
        f(r, "settle_fee_amount_threshold", &[0.0, 5000.0]);
        f(r, "settle_pnl_limit_factor", &[0.0, 0.5, 2.0]);
        let mut n = |r: &mut crate::gen::Rng, k: &str, v: &[i64]| {
            if r.chance(40) {
                o[k] = json!(*r.pick(v));
            }
        };
        n(r, "base_decimals", &[0, 4, 9]);
        n(r, "base_lot_size", &[1, 10_000]);
        n(r, "quote_lot_size", &[1, 100]);
        n(r, "impact_quantity", &[0, 1, 5000]);
        n(r, "settle_pnl_limit_window_size_ts", &[1, 3600]);
        n(r, "max_staleness_slots", &[0, 50]);
        if r.chance(40) {
            o["group_insurance_fund"] = json!(false);
        }
        o
    }
    pub fn listing(&mut self, w: &World) -> Value {
        match self.r.below(28) {
            0..=5 => {
                let t = self.gone_tok(w);
                let mut o = merge(self.token_params(), &json!({"op":"token_register","t":t}));
                if self.r.chance(25) {
                    o["fb"] = json!(*self.r.pick(&["none", "none", "junk"]));
                }
                self.lister(&mut o, 0);
                self.index(&mut o, t, w.toks[t].idx, w.toks.iter().enumerate().filter(|(k, x)| *k != t && !w.exists(&x.info)).map(|(_, x)| x.idx).collect());
                o
            }
            6..=9 => {
                let t = self.gone_tok(w);
                let mut o = json!({"op":"token_register_trustless","t":t});
                if self.r.chance(25) {
                    o["fb"] = json!(*self.r.pick(&["none", "none", "junk"]));
                }
                self.lister(&mut o, 55);
                self.index(&mut o, 3, w.toks[t].idx, w.toks.iter().enumerate().filter(|(k, x)| *k != t && !w.exists(&x.info)).map(|(_, x)| x.idx).collect());
                o
            }
            10 | 11 => {
                let t = self.r.below(w.toks.len() as u64) as usize;
                let n = w.toks[t].banks.len();
                let mut o = json!({"op":"token_add_bank","t":t,"num":if self.r.chance(80) { n } else { self.r.below(5) as usize },"from":self.r.below(n as u64)});
                self.lister(&mut o, 0);
                o
            }
            12..=14 => {
                let dead: Vec<usize> = (0..w.perps.len()).filter(|p| !w.exists(&w.perps[*p].key)).collect();
                let p = if dead.is_empty() || self.r.chance(12) { self.r.below(w.perps.len() as u64) as usize } else { *self.r.pick(&dead) };
                let mut o = merge(self.perp_params(), &json!({"op":"perp_create","p":p}));
                self.lister(&mut o, 0);
                self.index(&mut o, p, w.perps[p].idx, w.perps.iter().enumerate().filter(|(k, x)| *k != p && !w.exists(&x.key)).map(|(_, x)| x.idx).collect());
                o
            }
            15..=17 => {
                let dead: Vec<usize> = (0..w.spots.len()).filter(|s| !w.exists(&w.spots[*s].key)).collect();
                let s = if dead.is_empty() || self.r.chance(12) { self.r.below(w.spots.len() as u64) as usize } else { *self.r.pick(&dead) };
                let mut o = json!({"op":"s3_register","s":s,"oracle_price_band":*self.r.pick(&[0.0, 1.0, 1.0, 19.0, 19.0, 0.5])});
                self.lister(&mut o, 55);
                self.index(&mut o, s, w.spots[s].idx, w.spots.iter().enumerate().filter(|(k, x)| *k != s && !w.exists(&x.key)).map(|(_, x)| x.idx).collect());
                if self.r.chance(12) {
                    o[*self.r.pick(&["base", "quote"])] = json!(self.r.below(w.toks.len() as u64));
                }
                o
            }
            18 | 24..=26 => {
                let t = if self.r.chance(70) { w.toks.len() - 1 - self.r.below(3) as usize } else { self.r.below(w.toks.len() as u64) as usize };
                let mut o = json!({"op":"token_deregister","t":t,"a":self.r.below(w.users.len() as u64)});
                self.lister(&mut o, 0);
                o
            }
            19 | 27 => {
                let mut o = json!({"op":"perp_close","p":self.r.below(w.perps.len() as u64)});
                self.lister(&mut o, 0);
                o
            }
            20 => {
                let mut o = json!({"op":"s3_dereg","s":self.r.below(w.spots.len() as u64)});
                self.lister(&mut o, 0);
                o
            }
            21 if self.r.chance(60) => {
                // to just about the end of the quota's week
                let g: mango_v4::state::Group = *w.zc(&w.group);
                let end = g.fast_listing_interval_start + 604_800 + self.r.below(3) - 1;
                json!({"op":"clock","dt":end.saturating_sub(w.rt.clock.unix_timestamp as u64)})
            }
            21 => json!({"op":"clock","dt":*self.r.pick(&[3600u64, 86_400, 604_799, 604_800, 700_000])}),
            22 => {
                let t = self.r.below(w.toks.len() as u64) as usize;
                match self.r.below(4) {
                    0 => json!({"op":"token_edit","t":t,"deposit_weight_scale_start_quote":f64::MAX,"deposit_limit":self.r.below(2)}),
                    1 => json!({"op":"token_edit","t":t,"reduce_only":2,"maint_asset_weight":0.0,"init_asset_weight":0.0}),
                    2 => json!({"op":"token_edit","t":0,"deposit_weight_scale_start_quote":f64::MAX}),
                    _ => json!({"op":"oracle_set","t":t,"bits":1i64 << (40 + self.r.below(12)),"dev_bits":1i64 << (30 + self.r.below(20)),"slot":w.rt.clock.slot}),
                }
            }
            _ => match self.r.below(4) {
                0 | 1 => json!({"op":"group_edit","testing":self.r.chance(65) as u8}),
                2 => json!({"op":"group_edit","version":self.r.below(3)}),
                _ => json!({"op":"group_edit","allowed_fast_listings_per_interval":self.r.below(4)}),
            },
        }
    }
}
