//! Random but well-directed operation generators.
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Value};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0xD1B54A32D192ED03) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// weights of op families
#[derive(Clone, Default)]
pub struct Profile {
    pub w: Vec<(&'static str, u64)>,
    pub users: usize,
    /// maximal native amount used for random quantities
    pub big: u64,
    pub shock: u64,
    /// percentage of perp orders with leverage
    pub lever: u64,
    /// percentage of amounts taken to the exact limit
    pub probe: u64,
    /// percentage of operations met with an obstacle, and which kinds
    pub faults: u64,
    pub kinds: Vec<&'static str>,
}

pub fn profile(name: &str) -> Profile {
    let p = |w: &[(&'static str, u64)]| Profile { w: w.to_vec(), users: 4, big: 1_000_000, shock: 5, probe: 12, lever: 20, faults: 0, kinds: vec![] };
    let everything = [("tok", 22), ("trade", 4), ("crash", 3), ("upd", 5), ("clock", 3), ("price", 5), ("liq", 8), ("fees", 7), ("s3", 14), ("flash", 6), ("acct", 6), ("tcs", 10), ("perp", 14), ("perpx", 3), ("perpc", 8), ("fund", 3), ("settle", 7), ("region", 3), ("hc", 2), ("seq", 2), ("force", 5), ("ins", 1)];
    // "base+obstacles": the operations of one profile with the obstacles of another
    if let Some((base, ob)) = name.split_once('+') {
        let o = profile(ob);
        return Profile { faults: o.faults, kinds: o.kinds, probe: 0, ..profile(base) };
    }
    match name {
        "ledger" => p(&[("tok", 40), ("upd", 12), ("clock", 6), ("price", 6), ("liq", 4), ("fees", 3), ("s3", 12), ("flash", 6), ("acct", 3), ("tcs", 4), ("xfer", 1)]),
        "limits" => Profile { probe: 35, ..p(&[("tok", 50), ("edit", 6), ("clock", 10), ("price", 8), ("upd", 5), ("s3", 14), ("flash", 6), ("tcs", 5)]) },
        "gates" => Profile { shock: 12, probe: 0, faults: 65, kinds: vec!["gate", "freeze", "mode"], ..p(&everything) },
        "modes" => Profile { faults: 35, kinds: vec!["mode", "mode", "freeze"], ..p(&[("tok", 22), ("mode", 12), ("perp", 16), ("perpc", 6), ("s3", 14), ("liq", 6), ("crash", 2), ("force", 12), ("tcs", 4), ("flash", 4), ("price", 3), ("clock", 3)]) },
        "health" => p(&[("trade", 3), ("crash", 5), ("tok", 30), ("perp", 18), ("perpc", 8), ("s3", 12), ("price", 8), ("clock", 4), ("upd", 3), ("edit", 3), ("settle", 4), ("flash", 4), ("hc", 4), ("region", 5)]),
        "liq" => Profile { shock: 35, lever: 70, ..p(&[("tok", 14), ("perp", 10), ("perpc", 6), ("s3", 6), ("price", 6), ("trade", 7), ("crash", 16), ("clock", 4), ("upd", 3), ("liq", 24), ("settle", 4), ("ins", 2)]) },
        "ruin" => Profile { shock: 10, lever: 60, ..p(&[("tok", 14), ("ruin", 14), ("perp", 6), ("perpc", 4), ("price", 4), ("trade", 4), ("crash", 4), ("clock", 4), ("upd", 4), ("liq", 8), ("settle", 4), ("ins", 1)]) },
        "perp" => p(&[("tok", 6), ("perp", 44), ("perpx", 12), ("perpc", 14), ("price", 6), ("clock", 6), ("fund", 4), ("settle", 6), ("liq", 2)]),
        "book" => Profile { users: 10, lever: 0, ..p(&[("perp", 70), ("perpx", 12), ("perpc", 6), ("price", 3), ("clock", 4)]) },
        "settle" => Profile { shock: 10, lever: 50, ..p(&[("trade", 8), ("tok", 8), ("perp", 18), ("perpc", 12), ("price", 12), ("clock", 6), ("fund", 10), ("settle", 24), ("liq", 3), ("pedit", 3)]) },
        "oracle" => Profile { shock: 12, probe: 0, faults: 60, kinds: vec!["oracle"], ..p(&[&everything[..], &[("badoracle", 6)]].concat()) },
        "miss" => Profile { faults: 60, kinds: vec!["miss"], ..p(&everything) },
        "bank" => Profile { faults: 60, kinds: vec!["bank"], ..p(&everything) },
        "limit" => Profile { faults: 60, kinds: vec!["limit"], ..p(&everything) },
        "tcs" => p(&[("tok", 18), ("tcs", 60), ("price", 10), ("clock", 10), ("upd", 2)]),
        "spot" => p(&[("tok", 20), ("s3", 64), ("price", 5), ("clock", 3), ("upd", 4), ("liq", 4)]),
        "fees" => p(&[("trade", 4), ("tok", 14), ("perp", 26), ("perpc", 10), ("fees", 22), ("settle", 6), ("price", 4), ("clock", 10), ("fund", 2), ("upd", 4), ("edit", 2)]),
        "flash" => p(&[("tok", 20), ("flash", 60), ("price", 6), ("clock", 4), ("upd", 4), ("xfer", 2), ("mode", 3)]),
        "region" => p(&[("tok", 16), ("perp", 14), ("perpc", 8), ("region", 36), ("s3", 6), ("price", 8), ("clock", 3), ("hc", 8), ("seq", 6)]),
        "slots" => p(&[("tok", 26), ("perp", 14), ("perpc", 8), ("s3", 14), ("acct", 24), ("tcs", 8), ("settle", 4), ("price", 2), ("clock", 2), ("xfer", 2)]),
        "interest" => p(&[("tok", 22), ("upd", 44), ("clock", 22), ("price", 6), ("edit", 6)]),
        "access" => Profile { shock: 12, probe: 0, faults: 70, kinds: vec!["signer"], ..p(&[&everything[..], &[("acct", 14), ("edit", 10), ("pedit", 6), ("mode", 4)]].concat()) },
        "subst" => Profile { shock: 12, probe: 0, faults: 75, kinds: vec!["sub"], ..p(&[&everything[..], &[("acct", 6), ("edit", 6), ("pedit", 4), ("mode", 2), ("ins", 4)]].concat()) },
        "listing" => Profile { probe: 0, ..p(&[("list", 60), ("tok", 14), ("price", 3), ("upd", 3), ("clock", 4), ("perp", 5), ("s3", 4), ("edit", 3), ("badoracle", 3)]) },
        "sizing" => Profile { shock: 25, lever: 50, ..p(&[("tok", 20), ("trade", 6), ("perp", 12), ("perpc", 6), ("s3", 8), ("edit", 6), ("pedit", 3), ("price", 6), ("crash", 5), ("clock", 3), ("upd", 3), ("settle", 3), ("liq", 4), ("assess", 50)]) },
        "sizing_liq" => Profile { shock: 35, lever: 70, ..p(&[("tok", 14), ("perp", 10), ("perpc", 6), ("s3", 8), ("price", 6), ("trade", 7), ("crash", 14), ("clock", 3), ("liq", 20), ("settle", 4), ("assess", 50)]) },
        "sizing_all" => p(&[("tok", 20), ("trade", 3), ("crash", 3), ("upd", 5), ("clock", 5), ("price", 8), ("liq", 6), ("fees", 3), ("s3", 14), ("flash", 5), ("acct", 3), ("tcs", 3), ("perp", 16), ("perpx", 3), ("perpc", 6), ("fund", 3), ("settle", 5), ("edit", 6), ("assess", 70)]),
        "lists" => Profile { shock: 15, lever: 40, ..p(&[("tok", 22), ("trade", 8), ("perp", 24), ("perpx", 8), ("perpc", 3), ("s3", 8), ("edit", 4), ("pedit", 3), ("price", 4), ("badoracle", 5), ("crash", 3), ("clock", 4), ("upd", 3), ("fund", 4), ("settle", 4), ("liq", 4), ("acct", 2), ("client", 55)]) },
        "lists_listing" => Profile { probe: 0, ..p(&[("list", 50), ("tok", 16), ("price", 3), ("upd", 3), ("clock", 4), ("perp", 6), ("s3", 5), ("edit", 3), ("client", 40)]) },
        "weights" => p(&[("tok", 34), ("edit", 26), ("price", 12), ("clock", 16), ("upd", 6), ("pedit", 6)]),
        "all" | _ => Profile {
            shock: 12,
            ..p(&[("tok", 20), ("trade", 3), ("crash", 3), ("upd", 5), ("clock", 5), ("price", 8), ("liq", 8), ("fees", 5), ("s3", 10), ("flash", 5), ("acct", 5), ("tcs", 6), ("perp", 14), ("perpx", 3), ("perpc", 6), ("fund", 3), ("settle", 5), ("region", 3), ("hc", 2), ("edit", 2), ("mode", 1), ("xfer", 1), ("seq", 1)])
        },
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub cid: u64,
    /// account under liquidation pressure, and for how many more operations
    pub focus: Option<(usize, usize)>,
    /// operations for when the pressure is over
    pub later: Vec<Value>,
}

fn f64n(x: f64) -> Value {
    json!(x)
}

impl Gen {
    pub fn new(seed: u64, p: Profile) -> Self {
        let mut r = Rng::new(seed);
        for _ in 0..8 {
            r.next();
        }
        Gen { r, p, cid: 0, focus: None, later: vec![] }
    }
    pub fn amount(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 1 + self.r.below(3),
            1 => 1 + self.r.below(100),
            2 => 1 + self.r.below(1000),
            7 => 1 + self.r.below(self.p.big * 10),
            _ => 1 + self.r.below(self.p.big),
        }
    }
    pub fn user(&mut self, w: &World) -> usize {
        let n = w.users.len() as u64;
        self.r.below(n) as usize
    }
    fn user2(&mut self, w: &World) -> (usize, usize) {
        let a = self.user(w);
        let mut b = self.user(w);
        if a == b {
            b = (a + 1) % w.users.len();
        }
        (a, b)
    }
    fn tok(&mut self, w: &World) -> usize {
        let n = w.toks.len() as u64;
        self.r.below(n) as usize
    }
    fn tok2(&mut self, w: &World) -> (usize, usize) {
        let a = self.tok(w);
        let mut b = self.tok(w);
        if a == b {
            b = (a + 1) % w.toks.len();
        }
        (a, b)
    }
    fn bank(&mut self, w: &World, t: usize) -> usize {
        let n = w.toks[t].banks.len() as u64;
        self.r.below(n) as usize
    }
    pub fn native(&self, w: &World, a: usize, t: usize) -> I80F48 {
        match w.account(a) {
            Some(x) => match x.token_position(w.toks[t].idx) {
                Ok(p) => p.native(w.bank(t, 0)),
                Err(_) => I80F48::ZERO,
            },
            None => I80F48::ZERO,
        }
    }
    pub fn price(&self, w: &World, t: usize) -> f64 {
        w.oracle_price(t).to_num()
    }
    fn with_by(&mut self, w: &World, mut o: Value, pct: u64) -> Value {
        if self.r.chance(pct) {
            let names = ["admin", "stranger", "delegate", "fast", "sec"];
            let n: String = if self.r.chance(40) { w.users[self.user(w)].name.clone() } else { self.r.pick(&names).to_string() };
            o["by"] = json!(n);
        }
        o
    }
    pub fn family(&mut self) -> &'static str {
        let total: u64 = self.p.w.iter().map(|x| x.1).sum();
        let mut k = self.r.below(total);
        for (n, x) in &self.p.w {
            if k < *x {
                return n;
            }
            k -= x;
        }
        unreachable!()
    }
    pub fn op_plain(&mut self, w: &mut World) -> Vec<Value> {
        if self.focus.is_some() && self.r.chance(75) {
            let (a, k) = self.focus.unwrap();
            self.focus = if k == 0 { None } else { Some((a, k - 1)) };
            return vec![self.liq_of(w, a)];
        }
        if self.focus.is_none() && !self.later.is_empty() {
            return std::mem::take(&mut self.later);
        }
        let f = self.family();
        if f == "list" {
            return vec![self.listing(w)];
        }
        if f == "ruin" {
            return self.ruin(w);
        }
        if f == "crash" {
            return self.crash(w).into_iter().collect();
        }
        if f == "trade" {
            return self.trade(w);
        }
        if f == "force" && self.r.chance(70) {
            return self.forced(w);
        }
        if f == "acct" && self.r.chance(12) {
            // an account of an older layout, resized or brought up to date
            let a = self.user(w);
            let pad = json!({"op":"legacy_pad","a":a,"n":8 * (1 + self.r.below(60))});
            let cur = w.account(a).map(|x| (x.header.token_count as u64, x.header.serum3_count as u64, x.header.perp_count as u64, x.header.perp_oo_count, x.header.token_conditional_swap_count));
            let (tc, sc, pc, oc, cc) = cur.unwrap_or((4, 2, 2, 8, 2));
            return match self.r.below(4) {
                0 => vec![pad, json!({"op":"account_expand","a":a,"tc":tc + self.r.below(2),"sc":sc,"pc":pc,"oc":oc as u64 + self.r.below(3),"cc":cc})],
                1 => vec![json!({"op":"account_expand","a":a,"tc":9 + self.r.below(4),"sc":sc.min(2),"pc":pc.min(1),"oc":oc,"cc":cc}), pad, json!({"op":"account_migrate","a":a})],
                2 => vec![json!({"op":"account_expand","a":a,"tc":tc.min(5),"sc":sc,"pc":5 + self.r.below(3),"oc":oc,"cc":cc}), pad, json!({"op":"account_migrate","a":a})],
                _ => vec![pad, json!({"op":"account_migrate","a":a})],
            };
        }
        if f == "acct" && self.r.chance(12) {
            return self.retire(w);
        }
        let o = self.of(w, f);
        if self.r.chance(self.p.probe) {
            if let Some(v) = self.probe(w, &o) {
                return v;
            }
        }
        vec![o]
    }
    /// wind an account down, close it and open a new one at its address
    fn retire(&mut self, w: &World) -> Vec<Value> {
        let mut accs: Vec<(usize, usize)> = (0..w.users.len())
            .filter_map(|a| w.account(a).map(|x| (x.active_perp_positions().count() * 10 + x.active_serum3_orders().count() * 3 + x.active_token_positions().count() + x.active_token_conditional_swaps().count(), a)))
            .collect();
        accs.sort();
        if accs.is_empty() {
            return vec![];
        }
        let a = accs[self.r.below(accs.len().min(2) as u64) as usize].1;
        let x = w.account(a).unwrap();
        let mut v = vec![];
        for (i, c) in x.all_token_conditional_swaps().enumerate() {
            if c.is_configured() {
                v.push(json!({"op":"tcs_cancel","a":a,"i":i,"id":c.id,"bt":c.buy_token_index,"st":c.sell_token_index}));
            }
        }
        for s in 0..w.spots.len() {
            if x.serum3_orders(s as u16).is_ok() {
                v.push(json!({"op":"s3_cancel_all","a":a,"s":s,"limit":20}));
                v.push(json!({"op":"s3_settle","a":a,"s":s}));
                v.push(json!({"op":"s3_close","a":a,"s":s}));
            }
        }
        for p in 0..w.perps.len() {
            if x.perp_position(p as u16).is_ok() {
                v.push(json!({"op":"perp_cancel_all","a":a,"p":p,"limit":20}));
                v.push(json!({"op":"perp_consume","p":p,"limit":20}));
                v.push(json!({"op":"perp_deactivate","a":a,"p":p}));
            }
        }
        for t in 0..w.toks.len() {
            if x.token_position(t as u16).is_ok() {
                v.push(json!({"op":"deposit","a":a,"t":t,"n":1 + self.r.below(1_000_000)}));
                v.push(json!({"op":"withdraw","a":a,"t":t,"n":u64::MAX,"borrow":0}));
            }
        }
        if v.len() > 3 && self.r.chance(25) {
            v.remove(self.r.below(v.len() as u64) as usize);
        }
        v.push(json!({"op":"account_close","a":a,"force":self.r.chance(10) as u8}));
        v.push(json!({"op":"account_create","a":a,"tc":4 + self.r.below(5),"sc":self.r.below(4),"pc":self.r.below(4),"oc":self.r.below(16),"cc":self.r.below(4)}));
        for _ in 0..2 {
            let t = self.tok(w);
            v.push(json!({"op":"deposit","a":a,"t":t,"n":1_000_000 + self.r.below(1_000_000_000)}));
        }
        v
    }
    /// put a market or token into a forcing mode, use it, and lift it again
    fn forced(&mut self, w: &World) -> Vec<Value> {
        let n = w.users.len();
        let s = self.r.below(n as u64) as usize;
        let accs: Vec<usize> = (0..n).map(|k| (k + s) % n).filter(|a| w.account(*a).is_some()).collect();
        let nat = |a: usize, t: usize| {
            w.account(a).and_then(|x| x.token_position(t as u16).ok().map(|p| p.native(w.bank(t, 0)))).unwrap_or(I80F48::ZERO)
        };
        let held = |a: usize, t: usize| w.account(a).map(|x| x.token_position(t as u16).is_ok()).unwrap_or(false);
        let keep = self.r.chance(25);
        match self.r.below(3) {
            0 if !w.perps.is_empty() => {
                let p = self.r.below(w.perps.len() as u64) as usize;
                let lots = |a: usize| w.account(a).and_then(|x| x.perp_position(p as u16).ok().map(|q| q.base_position_lots())).unwrap_or(0);
                let long = accs.iter().find(|a| lots(**a) > 0);
                let short = accs.iter().find(|a| lots(**a) < 0);
                if long.is_none() || short.is_none() {
                    return self.trade(w);
                }
                let mut v = vec![json!({"op":"perp_edit","p":p,"reduce_only":1,"force_close":1})];
                let o = json!({"op":"perp_force_close","p":p,"a":long.unwrap(),"b":short.unwrap()});
                v.push(if self.r.chance(8) { json!({"op":"perp_force_close","p":p,"a":short.unwrap(),"b":long.unwrap()}) } else { o });
                if !keep {
                    v.push(json!({"op":"perp_edit","p":p,"reduce_only":0,"force_close":0}))
                }
                v
            }
            1 => {
                let t0 = self.r.below(w.toks.len() as u64) as usize;
                for k in 0..w.toks.len() {
                    let y = (k + t0) % w.toks.len();
                    let e = accs.iter().find(|a| nat(**a, y) < 0);
                    let l = accs.iter().find(|a| nat(**a, y) > 1);
                    if let (Some(e), Some(l)) = (e, l) {
                        if let Some(x) = (0..w.toks.len()).find(|x| *x != y && held(*e, *x)) {
                            let old = w.bank(y, 0).init_liab_weight.to_num::<f64>();
                            let ilw = if self.r.chance(85) { 2.5 } else { old };
                            let mut v = vec![
                                json!({"op":"token_edit","t":x,"reduce_only":0}),
                                json!({"op":"token_edit","t":y,"reduce_only":*self.r.pick(&[1u64, 2]),"force_close":1,"init_liab_weight":ilw}),
                            ];
                            let amt = match self.r.below(3) {
                                0 => u64::MAX / 4,
                                1 => self.amount(),
                                _ => self.rel_amount(w, *e, y),
                            };
                            v.push(json!({"op":"force_close_borrows","l":l,"a":e,"at":x,"lt":y,"n":amt}));
                            if !keep {
                                v.push(json!({"op":"token_edit","t":y,"reduce_only":0,"force_close":0,"init_liab_weight":old}))
                            }
                            return v;
                        }
                    }
                }
                vec![self.of(w, "tok")]
            }
            _ => {
                let t = self.r.below(w.toks.len() as u64) as usize;
                if let Some(a) = accs.iter().find(|a| nat(**a, t) > 0 || held(**a, t) && nat(**a, t) == 0) {
                    let b = w.bank(t, 0);
                    let (maw, iaw, ro) = (b.maint_asset_weight.to_num::<f64>(), b.init_asset_weight.to_num::<f64>(), b.reduce_only);
                    let mut v = vec![
                        json!({"op":"token_edit","t":t,"reduce_only":1,"disable_asset_liquidation":1,"maint_asset_weight":0.0,"init_asset_weight":0.0,"force_withdraw":1}),
                        json!({"op":"force_withdraw","a":a,"t":t,"b":self.bank(w, t)}),
                    ];
                    if self.r.chance(30) {
                        let a2 = self.user(w);
                        v.push(json!({"op":"force_withdraw","a":a2,"t":t,"b":self.bank(w, t)}))
                    }
                    v.push(json!({"op":"token_edit","t":t,"reduce_only":if keep { ro.min(2) } else { 0 },"disable_asset_liquidation":0,"maint_asset_weight":maw,"init_asset_weight":iaw,"force_withdraw":0}));
                    return v;
                }
                vec![self.of(w, "tok")]
            }
        }
    }
    /// an account whose assets become worth far less than its debts, and an insurance fund of any size
    fn ruin(&mut self, w: &mut World) -> Vec<Value> {
        let n = w.users.len();
        let a = self.r.below(n as u64 - 1) as usize;
        let l = n - 1;
        if w.account(a).is_none() {
            return vec![self.of(w, "acct")];
        }
        let cur = |w: &World, t: usize| w.oracle_price(t).to_bits().to_string();
        let fund = |g: &mut Self, value: f64| {
            let n = match g.r.below(6) {
                0 => 0,
                1 => 1 + g.r.below(20),
                2 => (value * 10.0) as u64,
                _ => (value * 1.2 * g.r.f()) as u64,
            };
            json!({"op":"fund_insurance","n":n})
        };
        let mut v = vec![];
        if !w.perps.is_empty() && self.r.chance(25) {
            let p = self.r.below(w.perps.len() as u64) as usize;
            v = self.trade(w);
            let a = v[1]["a"].as_u64().unwrap() as usize;
            let o: I80F48 = w.zc::<StubOracle>(&w.perps[p].oracle).price;
            let old = json!({"op":"oracle_set","p":p,"bits":o.to_bits().to_string()});
            let f = if v[1]["side"] == 0 { 0.02 + 0.5 * self.r.f() } else { 1.5 + 5.0 * self.r.f() };
            v.push(json!({"op":"oracle_set","p":p,"bits":(o * I80F48::from_num(f)).to_bits().to_string()}));
            v.push(fund(self, 2_000_000.0));
            v.push(json!({"op":"clock","dt":*self.r.pick(&[1u64, 3600, 86400])}));
            self.focus = Some((a, 16));
            self.later = vec![old];
            return v;
        }
        let x = self.tok(w);
        let y = if self.r.chance(30) && x != 0 { 0 } else { (x + 1 + self.r.below(w.toks.len() as u64 - 1) as usize) % w.toks.len() };
        let (px, py) = (self.price(w, x).max(1e-9), self.price(w, y).max(1e-9));
        let value = 1000.0 + self.p.big as f64 * self.r.f();
        let (nx, ny) = ((value / px) as u64 + 1, (value * (0.1 + 0.5 * self.r.f()) / py) as u64 + 1);
        // nothing else to its name, usually
        if self.r.chance(60) {
            let acc = w.account(a).unwrap();
            for p in acc.active_token_positions() {
                if p.indexed_position.is_positive() && p.token_index as usize != x {
                    v.push(json!({"op":"withdraw","a":a,"t":p.token_index,"n":u64::MAX,"borrow":0}));
                }
            }
        }
        v.push(json!({"op":"deposit","a":a,"t":x,"b":self.bank(w, x),"n":nx}));
        let b = self.bank(w, y);
        if self.r.chance(80) {
            v.push(json!({"op":"deposit","a":l,"t":y,"b":b,"n":ny * 2}));
        }
        v.push(json!({"op":"withdraw","a":a,"t":y,"b":b,"n":ny,"borrow":1}));
        if w.toks[y].banks.len() > 1 && self.r.chance(60) {
            v.push(json!({"op":"withdraw","a":a,"t":y,"b":1 - b.min(1),"n":ny / 5 + 1,"borrow":1}));
        }
        let acc = w.account(a).unwrap();
        let mut down: Vec<usize> = acc.active_token_positions().filter(|p| p.indexed_position.is_positive()).map(|p| p.token_index as usize).collect();
        down.push(x);
        down.sort();
        down.dedup();
        down.retain(|t| *t != y);
        for t in down {
            self.later.push(json!({"op":"oracle_set","t":t,"bits":cur(w, t)}));
            let f = *self.r.pick(&[0.001f64, 0.01, 0.05, 0.3]);
            v.push(json!({"op":"oracle_set","t":t,"bits":I80F48::from_num(self.price(w, t) * f).to_bits().to_string()}));
        }
        v.push(fund(self, ny as f64 * py));
        self.focus = Some((a, 8 + self.r.below(8) as usize));
        v
    }
    /// a spot balance in a settle token together with an unsettled perp profit or loss, then trouble
    fn offset(&mut self, w: &mut World) -> Vec<Value> {
        let n = w.users.len();
        let (a, l) = (self.r.below(n as u64 - 1) as usize, n - 1);
        if w.account(a).is_none() || w.account(l).is_none() || w.perps.is_empty() || w.toks.len() < 3 {
            return vec![self.of(w, "tok")];
        }
        let p = self.r.below(w.perps.len() as u64) as usize;
        let t = w.perps[p].settle;
        let others: Vec<usize> = (0..w.toks.len()).filter(|x| *x != t).collect();
        let x = *self.r.pick(&others);
        let z = *self.r.pick(&others.iter().copied().filter(|y| *y != x).collect::<Vec<_>>());
        let val = 1000.0 + self.p.big as f64 * self.r.f();
        let of = |w: &World, g: &Self, t: usize, v: f64| ((v / g.price(w, t).max(1e-9)) as u64).saturating_add(1);
        let o: I80F48 = w.zc::<StubOracle>(&w.perps[p].oracle).price;
        let pm = w.perp(p);
        let lot = (o.to_num::<f64>() * pm.base_lot_size as f64).max(1e-9);
        let px = ((lot / pm.quote_lot_size as f64) as i64).max(1);
        let base = ((val / lot) as u64).clamp(1, 1 << 34);
        let side = self.r.below(2);
        let set = |t: usize, x: f64| json!({"op":"oracle_set","t":t,"bits":I80F48::from_num(x.clamp(1e-4, 1e5)).to_bits().to_string()});
        let pset = |x: I80F48| json!({"op":"oracle_set","p":p,"bits":x.to_bits().to_string()});
        let profit = self.r.chance(60);
        let mut v = vec![];
        for q in w.account(a).unwrap().active_token_positions() {
            if q.indexed_position.is_positive() && (q.token_index as usize == t || q.token_index as usize == z) {
                v.push(json!({"op":"withdraw","a":a,"t":q.token_index,"n":u64::MAX,"borrow":0}));
            }
        }
        let main = if profit { x } else { t };
        v.push(json!({"op":"deposit","a":a,"t":main,"n":of(w, self, main, val)}));
        for k in [t, z] {
            v.push(json!({"op":"deposit","a":l,"t":k,"n":of(w, self, k, 4.0 * val)}));
        }
        self.cid += 2;
        v.push(json!({"op":"perp_place","p":p,"a":l,"side":1 - side,"px":px,"base":base,"quote":i64::MAX,"cid":self.cid,"ot":0,"stb":0,"ro":0,"exp":0,"limit":10}));
        v.push(json!({"op":"perp_place","p":p,"a":a,"side":side,"px":px,"base":base,"quote":i64::MAX,"cid":self.cid + 1,"ot":1,"stb":0,"ro":0,"exp":0,"limit":10}));
        v.push(json!({"op":"perp_consume","p":p,"limit":8}));
        let good = 1.1 + 0.4 * self.r.f();
        let (r1, r2, r3, r4) = (self.r.f(), self.r.f(), self.r.f(), [0.01, 5.0, 5.0]);
        let up = if (side == 0) == profit { good } else { 1.0 / good };
        if profit {
            v.push(json!({"op":"withdraw","a":a,"t":t,"n":of(w, self, t, val * (0.1 + 0.25 * r1)),"borrow":1}));
            v.push(pset(o * I80F48::from_num(up)));
            v.push(json!({"op":"withdraw","a":a,"t":z,"n":of(w, self, z, val * (0.1 + 0.2 * r2)),"borrow":1}));
            v.push(set(x, self.price(w, x) * (0.3 + 0.4 * r3)));
            self.later.push(set(x, self.price(w, x)));
        } else {
            v.push(json!({"op":"withdraw","a":a,"t":z,"n":of(w, self, z, val * (0.2 + 0.2 * r1)),"borrow":1}));
            v.push(pset(o * I80F48::from_num(up)));
            v.push(set(z, self.price(w, z) * (1.5 + 3.0 * r2)));
            self.later.push(set(z, self.price(w, z)));
        }
        self.later.push(pset(o));
        let lt = if profit { t } else { z };
        for _ in 0..2 {
            let k = *self.r.pick(&r4);
            v.push(json!({"op":"liq_token","l":l,"a":a,"at":main,"lt":lt,"n":of(w, self, lt, val * k)}));
        }
        self.focus = Some((a, 8 + self.r.below(6) as usize));
        v
    }
    /// two accounts trade a sizable amount of a perp
    fn trade(&mut self, w: &World) -> Vec<Value> {
        let p = self.r.below(w.perps.len() as u64) as usize;
        let n = w.users.len();
        let a = self.r.below(n as u64 - 1) as usize;
        let b = if self.r.chance(60) { n - 1 } else { self.user(w) };
        let pm = w.perp(p);
        let o: &StubOracle = w.zc(&w.perps[p].oracle);
        let lot_px: f64 = o.price.to_num::<f64>() * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
        let h = Self::health_num(w, a, "i").unwrap_or(0.0).max(0.0);
        let k = 0.5 + 8.0 * self.r.f();
        let base = ((h * k / (lot_px * pm.quote_lot_size as f64)) as u64).clamp(1, 1 << 34);
        let px = ((lot_px * (0.99 + 0.02 * self.r.f())) as i64).max(1);
        let side = self.r.below(2);
        self.cid += 2;
        vec![
            json!({"op":"perp_place","p":p,"a":b,"side":1 - side,"px":px,"base":base,"quote":i64::MAX,"cid":self.cid,"ot":*self.r.pick(&[0u64, 2]),"stb":0,"ro":0,"exp":0,"limit":10}),
            json!({"op":"perp_place","p":p,"a":a,"side":side,"px":px,"base":base,"quote":i64::MAX,"cid":self.cid + 1,"ot":*self.r.pick(&[0u64, 1, 3]),"stb":0,"ro":0,"exp":0,"limit":10}),
            json!({"op":"perp_consume","p":p,"limit":8}),
        ]
    }
    /// the largest accepted amount of an operation, and the next one
    fn probe(&mut self, w: &mut World, o: &Value) -> Option<Vec<Value>> {
        let (k, top) = match o["op"].as_str().unwrap() {
            "withdraw" | "deposit" => ("n", 1u64 << 38),
            "perp_place" | "perp_peg" => ("base", 1 << 34),
            "s3_place" => ("base", 1 << 34),
            "force_close_borrows" => ("n", 1 << 42),
            _ => return None,
        };
        let mut o = o.clone();
        if k == "base" {
            o["quote"] = json!(i64::MAX as u64 / 4);
        }
        if o["op"] == "withdraw" {
            o["borrow"] = json!(1);
        }
        let accs = w.rt.accs.clone();
        let mut try_n = |n: u64, w: &mut World| {
            let mut x = o.clone();
            x[k] = json!(n);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.apply(&x))).map(|r| r.is_ok()).unwrap_or(false);
            w.rt.accs = accs.clone();
            r
        };
        if !try_n(1, w) {
            return None;
        }
        let (mut lo, mut hi) = (1u64, 2u64);
        while hi < top && try_n(hi, w) {
            lo = hi;
            hi *= 4;
        }
        if hi >= top {
            return None;
        }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if try_n(m, w) {
                lo = m
            } else {
                hi = m
            }
        }
        let mut v = vec![];
        for n in [hi, lo] {
            let mut x = o.clone();
            x[k] = json!(n);
            v.push(x);
        }
        if self.r.chance(50) {
            // whatever remains
            let mut x = o.clone();
            x[k] = json!(1);
            v.push(x);
        }
        Some(v)
    }
    fn health_num(w: &World, a: usize, k: &str) -> Option<f64> {
        let h = w.health_of(a);
        let v = h[k].as_str().and_then(|s| s.parse::<f64>().ok()).or(h[k].as_f64())?;
        if v < -1e37 {
            return None;
        }
        Some(v / (1u64 << 48) as f64)
    }
    /// a price move that makes some account liquidatable: barely, clearly or hopelessly
    fn crash(&mut self, w: &mut World) -> Vec<Value> {
        if self.r.chance(22) {
            return self.offset(w);
        }
        let n = w.users.len() - 1;
        let a = self.r.below(n as u64) as usize;
        let acc = match w.account(a) {
            Some(x) => x,
            None => return vec![json!({"op":"clock","dt":1})],
        };
        let mut c: Vec<(bool, usize, bool)> = vec![];
        for p in acc.active_token_positions() {
            let t = p.token_index as usize;
            if t > 0 && !p.indexed_position.is_zero() {
                c.push((false, t, p.indexed_position.is_negative()));
            }
        }
        for p in acc.active_perp_positions() {
            if p.base_position_lots() != 0 {
                c.push((true, p.market_index as usize, p.base_position_lots() < 0));
                c.push((true, p.market_index as usize, p.base_position_lots() < 0));
            }
        }
        if c.is_empty() {
            return vec![self.of(w, "tok")];
        }
        let (perp, i, up) = *self.r.pick(&c);
        let k = if perp { "p" } else { "t" };
        let cur: f64 = if perp { w.zc::<StubOracle>(&w.perps[i].oracle).price.to_num() } else { self.price(w, i) };
        let mk = |f: f64| json!({"op":"oracle_set",k:i,"bits":I80F48::from_num((cur * f).clamp(1e-4, 1e5)).to_bits().to_string()});
        let accs = w.rt.accs.clone();
        let keep = w.rt.clock.clone();
        let mut bad = |f: f64, w: &mut World, k: &str, at: f64| {
            let _ = w.apply(&mk(f));
            let r = Self::health_num(w, a, k).map(|h| h < at);
            w.rt.accs = accs.clone();
            w.rt.clock = keep.clone();
            r
        };
        let kind = self.r.below(10);
        let hk = if kind == 9 { "i" } else { "m" };
        let (mut lo, mut hi) = (1.0f64, if up { 8.0 } else { 0.1 });
        match bad(hi, w, hk, 0.0) {
            Some(true) => {}
            _ => return vec![self.of(w, "price")],
        }
        if bad(1.0, w, hk, 0.0) != Some(true) {
            for _ in 0..40 {
                let m = (lo + hi) / 2.0;
                if bad(m, w, hk, 0.0) == Some(true) {
                    hi = m
                } else {
                    lo = m
                }
            }
        } else {
            hi = 1.0;
        }
        let d = if up { 1.0 } else { -1.0 };
        let f = match kind {
            0 => hi,
            1 => lo,
            2..=4 => hi * (1.0 + d * 0.02 * self.r.f()),
            5 | 6 => hi * (1.0 + d * 0.15 * self.r.f()),
            7 | 8 => hi * (1.0 + d * (0.2 + 0.5 * self.r.f())),
            _ => hi * (1.0 + d * 0.02 * self.r.f()),
        };
        if kind != 9 {
            self.focus = Some((a, 6 + self.r.below(14) as usize));
        }
        vec![mk(f)]
    }
    /// the next sensible step of liquidating account e
    fn liq_of(&mut self, w: &World, e: usize) -> Value {
        let acc = match w.account(e) {
            Some(x) => x,
            None => return json!({"op":"clock","dt":1}),
        };
        let n = w.users.len();
        if !acc.being_liquidated() && Self::health_num(w, e, "m").map(|h| h >= 0.0).unwrap_or(false) && self.r.chance(85) {
            self.focus = None;
            return self.of(w, "tok");
        }
        let mut l = if self.r.chance(70) { n - 1 } else { self.user(w) };
        if l == e {
            l = (e + 1) % n;
        }
        let amt = |g: &mut Self, big: u64| if g.r.chance(60) { big } else { g.amount() };
        for q in acc.active_perp_positions() {
            let p = q.market_index as usize;
            if q.has_open_orders() && self.r.chance(80) {
                return json!({"op":"perp_liq_cancel","p":p,"a":e,"limit":*self.r.pick(&[1u64, 10, 10])});
            }
            if q.has_open_taker_fills() && self.r.chance(80) {
                return json!({"op":"perp_consume","p":p,"limit":8});
            }
        }
        for s in acc.active_serum3_orders() {
            if self.r.chance(50) {
                return json!({"op":"s3_liq_cancel","s":s.market_index,"a":e,"limit":10});
            }
        }
        let mut pos: Vec<usize> = vec![];
        let mut neg: Vec<usize> = vec![];
        for p in acc.active_token_positions() {
            let t = p.token_index as usize;
            if p.indexed_position.is_negative() {
                neg.push(t)
            } else if p.indexed_position.is_positive() {
                pos.push(t)
            }
        }
        let mut c: Vec<Value> = vec![];
        for q in acc.active_perp_positions() {
            let p = q.market_index as usize;
            let b = q.base_position_lots();
            let pr: I80F48 = w.zc::<StubOracle>(&w.perps[p].oracle).price;
            let pnl = q.unsettled_pnl(w.perp(p), pr).unwrap_or(I80F48::ZERO);
            if b != 0 {
                let x = if self.r.chance(40) { b.abs() } else { 1 + self.r.below(b.unsigned_abs()) as i64 };
                let x = if self.r.chance(20) { i64::MAX } else { x };
                c.push(json!({"op":"perp_liq_base","p":p,"l":l,"a":e,"base":(x * b.signum()).to_string(),"pnl":if self.r.chance(70) { 0 } else { amt(self, u64::MAX) }}));
            } else if pnl.is_positive() {
                c.push(json!({"op":"perp_liq_base","p":p,"l":l,"a":e,"base":"0","pnl":amt(self, u64::MAX)}));
                let b = if self.r.chance(50) { n - 1 } else { self.user(w) };
                c.push(json!({"op":"perp_settle_pnl","p":p,"s":l,"a":e,"b":b}));
            } else if pnl.is_negative() {
                c.push(json!({"op":"perp_liq_neg","p":p,"l":l,"a":e,"n":amt(self, u64::MAX),"v1":self.r.chance(25) as u8}));
            }
            if pnl.is_positive() && self.r.chance(30) {
                c.push(json!({"op":"perp_settle_pnl","p":p,"s":l,"a":e,"b":n - 1}));
            }
        }
        for lt in &neg {
            for at in &pos {
                let n = if self.r.chance(60) { 1u64 << 60 } else { self.rel_amount(w, e, *lt) };
                c.push(json!({"op":"liq_token","l":l,"a":e,"at":at,"lt":lt,"n":n}));
            }
            if pos.is_empty() || self.r.chance(10) {
                let n = amt(self, 1 << 60);
                c.push(json!({"op":"liq_bankruptcy","l":l,"a":e,"lt":lt,"n":n}));
            }
        }
        if c.is_empty() {
            self.focus = None;
            return self.of(w, "tok");
        }
        self.r.pick(&c).clone()
    }
    /// amount tied to the balance of a in t: exact, off by one, a fraction, or free
    fn rel_amount(&mut self, w: &World, a: usize, t: usize) -> u64 {
        let nat = self.native(w, a, t).abs();
        let fl: u64 = nat.floor().to_num();
        match self.r.below(7) {
            0 => fl.max(1),
            1 => fl + 1,
            2 => fl.saturating_sub(1).max(1),
            3 | 4 => 1 + self.r.below(fl + 1),
            _ => self.amount(),
        }
    }
    /// a healthy-ish borrow amount
    fn borrow_amount(&mut self, w: &World, a: usize, t: usize) -> u64 {
        let h = w.health_of(a);
        let hi: f64 = h["i"].as_str().and_then(|s| s.parse::<f64>().ok()).or(h["i"].as_f64()).unwrap_or(0.0) / (1u64 << 48) as f64;
        let lw: f64 = w.bank(t, 0).init_liab_weight.to_num();
        let max = (hi.max(0.0) / self.price(w, t).max(1e-9) / lw) as u64;
        match self.r.below(6) {
            0 => max.max(1),
            1 => max + 1 + self.r.below(3),
            2 => self.amount(),
            _ => 1 + self.r.below(max.max(1)),
        }
    }
    /// What the client helpers say about an account (nothing changes)
    fn assess(&mut self, w: &World) -> Value {
        let a = self.user(w);
        let held: Vec<usize> = (0..w.toks.len()).filter(|t| w.account(a).map(|x| x.token_position(w.toks[*t].idx).is_ok()).unwrap_or(false)).collect();
        let mut tok = |s: &mut Self| if held.is_empty() || s.r.chance(5) { s.tok(w) } else { held[s.r.below(held.len() as u64) as usize] };
        let (t, st, mut tt) = (tok(self), tok(self), tok(self));
        if tt == st {
            tt = *held.iter().find(|x| **x != st).unwrap_or(&((st + 1) % w.toks.len()));
        }
        let cur = w.health_or_ratio(a, true)["i"].as_f64().unwrap_or(0.0).clamp(0.0, 1e6);
        let ratio = *self.r.pick(&[0.0, 0.0, 1.0, 10.0, 50.0, 100.0, 500.0, cur * 0.5, cur * 0.99, cur, cur + 0.05, cur * 1.02, cur * 1.5]);
        let f = *self.r.pick(&[0.5, 0.9, 0.97, 0.99, 0.999, 1.0, 1.0, 1.01, 1.05, 1.2, 2.0]);
        let px = self.price(w, st) / self.price(w, tt).max(1e-9) * f;
        let mut o = json!({"op":"assess","a":a,"t":t,"ratio":I80F48::from_num(ratio).to_bits().to_string()});
        if st != tt {
            o["st"] = json!(st);
            o["tt"] = json!(tt);
            o["px"] = json!(I80F48::from_num(px.clamp(1e-9, 1e9)).to_bits().to_string());
        }
        let ps: Vec<usize> = (0..w.perps.len()).filter(|p| w.account(a).map(|x| x.perp_position(w.perps[*p].idx).is_ok()).unwrap_or(false)).collect();
        if !ps.is_empty() {
            let p = *self.r.pick(&ps);
            let f = *self.r.pick(&[0.5, 0.9, 0.98, 0.995, 1.0, 1.0, 1.005, 1.02, 1.1, 1.5]);
            let so: &StubOracle = w.zc(&w.perps[p].oracle);
            let pp = so.price.to_num::<f64>() * f;
            o["p"] = json!(p);
            o["side"] = json!(self.r.below(2));
            o["pp"] = json!(I80F48::from_num(pp.clamp(1e-9, 1e9)).to_bits().to_string());
        }
        o
    }
    /// What the client library makes of the accounts (nothing changes)
    fn client(&mut self, w: &World) -> Value {
        let a = self.user(w);
        let b = (a + 1 + self.r.below(w.users.len() as u64 - 1) as usize) % w.users.len();
        let live: Vec<usize> = (0..w.toks.len()).filter(|t| w.exists(&w.toks[*t].info)).collect();
        let perps: Vec<usize> = (0..w.perps.len()).filter(|p| w.exists(&w.perps[*p].key) && w.exists(&w.perps[*p].eq)).collect();
        let some = |s: &mut Self, v: &[usize], c: u64| v.iter().copied().filter(|_| s.r.chance(c)).collect::<Vec<_>>();
        let (mut ts, mut wr, mut ps) = (some(self, &live, 20), some(self, &live, 20), some(self, &perps, 15));
        if self.r.chance(50) {
            ts.reverse();
            wr.reverse();
            ps.reverse();
        }
        let fbs: Vec<usize> = some(self, &live, 50).into_iter().filter(|t| w.toks[*t].fallback != Default::default()).collect();
        let mut o = json!({"op":"client","a":a,"b":b,"ts":ts,"wr":wr,"ps":ps,"fbc":self.r.below(4),"fbs":fbs});
        let gone: Vec<usize> = some(self, &live, 30).into_iter().filter(|t| w.toks[*t].fallback != Default::default() && w.toks.iter().all(|x| x.oracle != w.toks[*t].fallback)).collect();
        if self.r.chance(30) {
            o["gone"] = json!(gone);
        }
        if !perps.is_empty() {
            o["p"] = json!(*self.r.pick(&perps));
            o["neg"] = json!(self.r.below(2));
            o["count"] = json!(*self.r.pick(&[1u64, 1, 2, 2, 3, 4, 10]));
        }
        if self.r.chance(30) {
            let mut inner = if self.p.w.iter().any(|x| x.0 == "list") {
                let x = self.listing(w);
                if self.r.chance(50) {
                    let y = self.listing(w);
                    json!({"op":"batch","ops":[x, y]})
                } else {
                    x
                }
            } else {
                let f = if w.perps.is_empty() || self.r.chance(60) { "edit" } else { "pedit" };
                self.of(w, f)
            };
            if self.r.chance(25) && !live.is_empty() {
                let t = *self.r.pick(&live);
                inner = match self.r.below(4) {
                    0 => json!({"op":"token_edit","t":t,"reduce_only":self.r.below(3)}),
                    1 => json!({"op":"token_edit","t":t,"conf_filter":0.1,"max_staleness_slots":self.r.below(200)}),
                    2 => json!({"op":"token_edit","t":t,"conf_filter":0.2}),
                    _ => json!({"op":"token_edit","t":t,"set_fallback_oracle":1}),
                };
            }
            if inner.is_object() {
                o["inner"] = inner;
            }
        }
        o
    }
    pub fn of(&mut self, w: &World, f: &str) -> Value {
        match f {
            "tok" => {
                let a = self.user(w);
                let t = self.tok(w);
                let b = self.bank(w, t);
                match self.r.below(10) {
                    0..=3 => {
                        let n = if self.r.chance(40) { self.rel_amount(w, a, t) } else { self.amount() };
                        let ro = self.r.chance(12);
                        let o = json!({"op":"deposit","a":a,"t":t,"b":b,"n":n,"ro":ro as u8});
                        o
                    }
                    4 => {
                        let n = self.rel_amount(w, a, t);
                        json!({"op":"deposit_existing","a":a,"t":t,"b":b,"n":n,"ro":self.r.chance(20) as u8,"from":self.user(w)})
                    }
                    5 | 6 => {
                        let n = if self.r.chance(12) { u64::MAX } else { self.rel_amount(w, a, t) };
                        let o = json!({"op":"withdraw","a":a,"t":t,"b":b,"n":n,"borrow":self.r.chance(30) as u8});
                        self.with_by(w, o, 2)
                    }
                    _ => {
                        let n = self.borrow_amount(w, a, t);
                        json!({"op":"withdraw","a":a,"t":t,"b":b,"n":n,"borrow":1})
                    }
                }
            }
            "upd" => {
                let t = self.tok(w);
                json!({"op":"update_index","t":t,"resilient":self.r.chance(25) as u8})
            }
            "assess" => self.assess(w),
            "client" => self.client(w),
            "clock" => {
                let dt = *self.r.pick(&[1u64, 5, 10, 60, 600, 1800, 3600, 3601, 7200, 86400]);
                json!({"op":"clock","dt":dt})
            }
            "price" => {
                let perp = !w.perps.is_empty() && self.r.chance(35);
                let (k, i, cur): (&str, usize, f64) = if perp {
                    let p = self.r.below(w.perps.len() as u64) as usize;
                    let o: &StubOracle = w.zc(&w.perps[p].oracle);
                    ("p", p, o.price.to_num())
                } else {
                    let t = if self.r.chance(90) && w.toks.len() > 1 { 1 + self.r.below(w.toks.len() as u64 - 1) as usize } else { 0 };
                    ("t", t, self.price(w, t))
                };
                let f = if self.r.chance(self.p.shock) { 0.4 + 1.6 * self.r.f() } else { 0.97 + 0.06 * self.r.f() };
                let base: f64 = if k == "t" && i == 0 { 1.0 } else { cur };
                let np = if k == "t" && i == 0 { 0.98 + 0.04 * self.r.f() } else { (base * f).clamp(1e-3, 1e4) };
                json!({"op":"oracle_set",k:i,"bits":I80F48::from_num(np).to_bits().to_string()})
            }
            "badoracle" => {
                let perp = !w.perps.is_empty() && self.r.chance(25);
                let (k, i, cur, fb) = if perp {
                    let p = self.r.below(w.perps.len() as u64) as usize;
                    let o: &StubOracle = w.zc(&w.perps[p].oracle);
                    ("p", p, o.price, false)
                } else {
                    let t = self.tok(w);
                    let fb = w.toks[t].fallback != Default::default() && self.r.chance(40);
                    let o: &StubOracle = w.zc(if fb { &w.toks[t].fallback } else { &w.toks[t].oracle });
                    ("t", t, o.price, fb)
                };
                let slot = w.rt.clock.slot;
                let dev = match self.r.below(5) {
                    0 => cur * I80F48::from_num(0.1),
                    1 => cur * I80F48::from_num(0.1) + I80F48::DELTA,
                    2 => cur,
                    _ => I80F48::ZERO,
                };
                let age = *self.r.pick(&[0u64, 0, 0, 99, 100, 101, 500]);
                json!({"op":"oracle_set",k:i,"fb":fb as u8,"bits":cur.to_bits().to_string(),"dev_bits":dev.to_bits().to_string(),"slot":slot.saturating_sub(age)})
            }
            "perp" | "perpx" => self.perp_order(w, f == "perpx"),
            "perpc" => {
                let p = self.r.below(w.perps.len() as u64) as usize;
                let a = self.user(w);
                match self.r.below(12) {
                    0..=5 => {
                        let limit = *self.r.pick(&[1u64, 2, 3, 8, 20]);
                        let mut o = json!({"op":"perp_consume","p":p,"limit":limit});
                        if self.r.chance(15) {
                            let x: Vec<usize> = (0..w.users.len()).filter(|_| self.r.chance(60)).collect();
                            o["with"] = json!(x);
                        }
                        o
                    }
                    6 => {
                        let mut cands: Vec<(usize, usize, u128)> = vec![];
                        for u in 0..w.users.len() {
                            if let Some(acc) = w.account(u) {
                                for o in acc.all_perp_orders() {
                                    if o.market != PerpMarketIndex::MAX {
                                        cands.push((u, o.market as usize, o.id))
                                    }
                                }
                            }
                        }
                        if cands.is_empty() {
                            return self.of(w, "perp");
                        }
                        let c = *self.r.pick(&cands);
                        let who = if self.r.chance(15) { a } else { c.0 };
                        json!({"op":"perp_cancel","a":who,"p":c.1,"id":c.2.to_string()})
                    }
                    7 => json!({"op":"perp_cancel_cid","a":a,"p":p,"cid":self.r.below(self.cid + 1)}),
                    8 => json!({"op":"perp_cancel_all","a":a,"p":p,"limit":*self.r.pick(&[1u64,2,8,30])}),
                    9 => json!({"op":"perp_cancel_side","a":a,"p":p,"side":self.r.below(2),"limit":*self.r.pick(&[1u64,2,8])}),
                    10 => json!({"op":"perp_deactivate","a":a,"p":p}),
                    _ => json!({"op":"perp_liq_cancel","a":a,"p":p,"limit":*self.r.pick(&[1u64,3,10])}),
                }
            }
            "fund" => json!({"op":"perp_funding","p":self.r.below(w.perps.len() as u64)}),
            "settle" => {
                let p = self.r.below(w.perps.len() as u64) as usize;
                let (a, b) = self.user2(w);
                match self.r.below(10) {
                    0..=6 => {
                        // prefer a in profit, b in loss
                        let (mut a, mut b) = (a, b);
                        if self.r.chance(80) {
                            let price: I80F48 = {
                                let o: &StubOracle = w.zc(&w.perps[p].oracle);
                                o.price
                            };
                            let pm = w.perp(p);
                            let mut v: Vec<(I80F48, usize)> = (0..w.users.len())
                                .filter_map(|u| w.account(u).and_then(|x| x.perp_position(w.perps[p].idx).ok().map(|q| (q.unsettled_pnl(pm, price).unwrap_or(I80F48::ZERO), u))))
                                .collect();
                            v.sort();
                            if v.len() >= 2 {
                                if (!v[0].0.is_negative() || !v[v.len() - 1].0.is_positive()) && self.r.chance(80) {
                                    return if self.r.chance(50) { self.perp_order(w, false) } else { self.of(w, "price") };
                                }
                                b = v[0].1;
                                a = v[v.len() - 1].1;
                                if v.len() > 2 && self.r.chance(30) {
                                    a = v[v.len() - 2].1;
                                }
                            }
                        }
                        json!({"op":"perp_settle_pnl","p":p,"s":self.user(w),"a":a,"b":b})
                    }
                    7 => json!({"op":"perp_settle_fees","p":p,"a":a,"n":if self.r.chance(50) { u64::MAX } else { self.amount() }}),
                    8 => json!({"op":"perp_funding","p":p}),
                    _ => json!({"op":"perp_deactivate","p":p,"a":a}),
                }
            }
            "liq" => self.liq(w),
            "fees" => {
                let t = self.tok(w);
                let a = self.user(w);
                match self.r.below(10) {
                    0 => json!({"op":"withdraw_fees","t":t,"b":self.bank(w,t),"a":a}),
                    1 if !w.perps.is_empty() => json!({"op":"perp_withdraw_fees","p":self.r.below(w.perps.len() as u64),"a":a}),
                    2 | 3 if !w.perps.is_empty() => json!({"op":"perp_settle_fees","p":self.r.below(w.perps.len() as u64),"a":a,"n":if self.r.chance(50) { u64::MAX } else { self.amount() }}),
                    4 | 5 => {
                        let n = if self.r.chance(40) { u64::MAX } else { self.amount() };
                        json!({"op":"buyback","a":a,"m":2.min(w.toks.len()-1),"dao":w.users.len()-1,"n":n})
                    }
                    6 => json!({"op":"clock","dt":*self.r.pick(&[600u64, 3600, 43200, 86400])}),
                    _ => json!({"op":"collateral_fees","a":a}),
                }
            }
            "s3" => self.spot(w),
            "flash" => self.flash(w),
            "tcs" => self.tcs(w),
            "region" => self.region(w),
            "hc" => {
                let a = self.user(w);
                let kind = self.r.below(6);
                let h = w.health_of(a);
                let k = ["m", "", "i", "", "e", ""][kind as usize];
                let min: f64 = if k.is_empty() {
                    let k = ["", "m", "", "i", "", "e"][kind as usize];
                    let v = w.health_or_ratio(a, true)[k].as_f64().unwrap_or(0.0);
                    let near = if v.abs() < 1e9 { v } else { 1e9 };
                    *self.r.pick(&[0.0, 1.0, 50.0, near + 0.01, near - 0.01, near * 0.99, near * 1.01, near + 1.0])
                } else {
                    let v: f64 = h[k].as_str().and_then(|s| s.parse::<f64>().ok()).or(h[k].as_f64()).unwrap_or(0.0) / (1u64 << 48) as f64;
                    let x = v.floor();
                    x + *self.r.pick(&[0.0, 1.0, -1.0, 100.0])
                };
                json!({"op":"health_check","a":a,"kind":kind,"min":f64n(min)})
            }
            "seq" => {
                let a = self.user(w);
                let cur = w.account(a).map(|x| x.fixed.sequence_number).unwrap_or(0);
                let n = if self.r.chance(60) { cur as u64 } else { self.r.below(256) };
                let o = json!({"op":"seq_check","a":a,"n":n});
                self.with_by(w, o, 10)
            }
            "edit" => self.edit(w),
            "pedit" => self.pedit(w),
            "mode" => {
                match self.r.below(10) {
                    0..=3 => json!({"op":"token_edit","t":self.tok(w),"reduce_only":*self.r.pick(&[0u64,0,1,2]),"force_close":self.r.chance(30) as u8}),
                    4 => json!({"op":"token_edit","t":self.tok(w),"reduce_only":2,"force_withdraw":self.r.chance(60) as u8}),
                    5 | 6 if !w.perps.is_empty() => json!({"op":"perp_edit","p":self.r.below(w.perps.len() as u64),"reduce_only":self.r.below(2),"force_close":self.r.chance(40) as u8}),
                    7 if !w.spots.is_empty() => json!({"op":"s3_edit","s":self.r.below(w.spots.len() as u64),"reduce_only":self.r.below(2),"force_close":self.r.chance(40) as u8}),
                    8 => json!({"op":"account_freeze","a":self.user(w),"freeze":self.r.below(2)}),
                    _ => {
                        let mut g: u128 = 0;
                        for _ in 0..self.r.below(4) {
                            g |= 1u128 << self.r.below(75);
                        }
                        let o = json!({"op":"ix_gate_set","gate":g.to_string()});
                        o
                    }
                }
            }
            "force" => {
                let (a, b) = self.user2(w);
                match self.r.below(5) {
                    0 | 1 => {
                        let (x, y) = self.tok2(w);
                        let n = if self.r.chance(40) { u64::MAX / 4 } else { self.rel_amount(w, b, y) };
                        json!({"op":"force_close_borrows","l":a,"a":b,"at":x,"lt":y,"n":n})
                    }
                    2 => {
                        let t = self.tok(w);
                        json!({"op":"force_withdraw","a":a,"t":t,"b":self.bank(w,t)})
                    }
                    3 if !w.perps.is_empty() => json!({"op":"perp_force_close","p":self.r.below(w.perps.len() as u64),"a":a,"b":b}),
                    _ if !w.spots.is_empty() => json!({"op":"s3_liq_cancel","s":self.r.below(w.spots.len() as u64),"a":a,"limit":*self.r.pick(&[1u64, 3, 8])}),
                    _ => json!({"op":"clock","dt":1}),
                }
            }
            "ins" if self.r.chance(40) => {
                let n = token_amount(&w.rt, &w.insurance);
                let n = *self.r.pick(&[0u64, 1, n / 2, n, n + 1, 1000]);
                json!({"op":"insurance_withdraw","a":self.user(w),"n":n})
            }
            "ins" => json!({"op":"fund_insurance","n":*self.r.pick(&[0u64, 10, 1000, 100_000, 10_000_000])}),
            "xfer" => {
                let (a, b) = self.user2(w);
                json!({"op":"spl_transfer","from":a,"to":b,"t":self.tok(w),"n":self.amount()})
            }
            "acct" => {
                let a = self.user(w);
                let o = match self.r.below(14) {
                    0..=4 => {
                        let cur = w.account(a).map(|x| (x.header.token_count, x.header.serum3_count, x.header.perp_count, x.header.perp_oo_count, x.header.token_conditional_swap_count)).unwrap_or((4, 2, 2, 8, 2));
                        let mut j = |c: u8| -> u64 { (c as i64 + *self.r.pick(&[-3i64, -1, 0, 0, 1, 2, 4])).clamp(0, 60) as u64 };
                        let (tc, sc, pc, oc, cc) = (j(cur.0).min(16), j(cur.1).min(8), j(cur.2).min(8), j(cur.3), j(cur.4).min(16));
                        json!({"op":"account_expand","a":a,"tc":tc,"sc":sc,"pc":pc,"oc":oc,"cc":cc})
                    }
                    5 | 6 => json!({"op":"account_edit","a":a,"delegate":*self.r.pick(&["none","delegate","other"])}),
                    7 => {
                        let mut v = json!({"op":"account_edit","a":a,"tmp":*self.r.pick(&["delegate","other"]),"tmp_exp":w.rt.clock.unix_timestamp as u64 + *self.r.pick(&[0u64, 1, 10, 3600, 604799, 604800, 604801])});
                        if self.r.chance(70) {
                            v["delegate"] = json!(*self.r.pick(&["none","delegate","other"]))
                        }
                        if self.r.chance(15) {
                            v.as_object_mut().unwrap().remove(*self.r.pick(&["tmp", "tmp_exp"]));
                        }
                        v
                    }
                    8 => json!({"op":"account_close","a":a,"force":(w.zc::<Group>(&w.group).testing == 0 && self.r.chance(40)) as u8}),
                    9 | 10 => json!({"op":"account_create","a":a,"tc":4 + self.r.below(5),"sc":self.r.below(4),"pc":self.r.below(4),"oc":self.r.below(16),"cc":self.r.below(4)}),
                    11 => json!({"op":"account_migrate","a":a}),
                    12 => json!({"op":"s3_close","a":a,"s":self.r.below(w.spots.len().max(1) as u64)}),
                    _ => json!({"op":"withdraw","a":a,"t":self.tok(w),"n":u64::MAX,"borrow":0}),
                };
                self.with_by(w, o, 6)
            }
            _ => panic!("family {}", f),
        }
    }
    fn perp_order(&mut self, w: &World, extreme: bool) -> Value {
        let p = self.r.below(w.perps.len() as u64) as usize;
        let pm = w.perp(p);
        let o: &StubOracle = w.zc(&w.perps[p].oracle);
        let lot_px: f64 = o.price.to_num::<f64>() * pm.base_lot_size as f64 / pm.quote_lot_size as f64;
        let a = self.user(w);
        let side = self.r.below(2);
        self.cid += 1;
        let cid = if self.r.chance(85) { self.cid } else { self.r.below(self.cid) };
        let spread = (lot_px * 0.02).max(2.0) as i64;
        let off = self.r.below(2 * spread as u64 + 1) as i64 - spread;
        let px = ((lot_px as i64) + off).max(1);
        let mut base = 1 + self.r.below(20);
        if self.r.chance(self.p.lever) {
            // a sizable position relative to what the account can carry
            let h = Self::health_num(w, a, "i").unwrap_or(0.0).max(0.0);
            let per_lot = lot_px * pm.quote_lot_size as f64;
            let k = if a == w.users.len() - 1 { 0.3 + self.r.f() } else { 0.3 + 5.0 * self.r.f() };
            base = ((h * k / per_lot) as u64).clamp(1, 1 << 34);
        }
        let quote = if self.r.chance(70) { i64::MAX as u64 } else { 1 + self.r.below(base * px as u64 + 5) };
        let ot = *self.r.pick(&[0u64, 0, 0, 0, 1, 2, 2, 3, 4]);
        let stb = self.r.below(3);
        let limit = *self.r.pick(&[0u64, 1, 2, 5, 10, 10, 10, 10]);
        let now = w.rt.clock.unix_timestamp as u64;
        let exp = if self.r.chance(25) { now + *self.r.pick(&[0u64, 1, 2, 5, 30, 255, 256, 100_000]) } else { 0 };
        let ro = self.r.chance(8) as u8;
        let mut v = if self.r.chance(if extreme { 60 } else { 20 }) {
            let rel = self.r.below(3);
            let pegl: i64 = match rel {
                0 => -1,
                1 => (lot_px as i64 + off + if side == 0 { self.r.below(5) as i64 } else { -(self.r.below(5) as i64) }).max(1),
                _ => px,
            };
            json!({"op":"perp_peg","p":p,"a":a,"side":side,"off":off,"peg":pegl,"base":base,"quote":quote,"cid":cid,"ot":*self.r.pick(&[0u64,0,0,2,4]),"stb":stb,"ro":ro,"exp":exp,"limit":limit})
        } else {
            json!({"op":"perp_place","p":p,"a":a,"side":side,"px":px,"base":base,"quote":quote,"cid":cid,"ot":ot,"stb":stb,"ro":ro,"exp":exp,"limit":limit})
        };
        if self.r.chance(6) {
            v["v1"] = json!(1);
        }
        if extreme && self.r.chance(40) {
            match self.r.below(6) {
                0 => v["px"] = json!(1),
                1 => v["px"] = json!(((lot_px * (0.5 + self.r.f())) as i64).max(1)),
                2 => v["base"] = json!(1 + self.r.below(1000)),
                3 => v["off"] = json!(-((lot_px * 2.0) as i64)),
                4 => v["quote"] = json!(1 + self.r.below(30)),
                _ => v["base"] = json!(0),
            }
        }
        v
    }
    fn liq(&mut self, w: &World) -> Value {
        // look for an unhealthy account
        let mut bad: Vec<usize> = (0..w.users.len())
            .filter(|a| {
                let h = w.health_of(*a);
                let s = h["m"].to_string();
                s.contains('-') || w.account(*a).map(|x| x.being_liquidated()).unwrap_or(false)
            })
            .collect();
        if bad.is_empty() || self.r.chance(8) {
            bad = (0..w.users.len()).collect();
        }
        let e = *self.r.pick(&bad);
        if self.r.chance(60) {
            return self.liq_of(w, e);
        }
        let mut l = self.user(w);
        if l == e && self.r.chance(95) {
            l = (e + 1) % w.users.len();
        }
        let acc = match w.account(e) {
            Some(x) => x,
            None => return json!({"op":"clock","dt":1}),
        };
        let mut pos: Vec<usize> = vec![];
        let mut neg: Vec<usize> = vec![];
        for p in acc.active_token_positions() {
            let t = p.token_index as usize;
            if p.indexed_position.is_negative() {
                neg.push(t)
            } else if p.indexed_position.is_positive() {
                pos.push(t)
            }
        }
        let perps: Vec<usize> = acc.active_perp_positions().map(|p| p.market_index as usize).collect();
        let mut kinds = vec![];
        if !neg.is_empty() {
            kinds.extend([0, 0, 0, 0, 1]);
            if pos.is_empty() {
                kinds.extend([1, 1, 1]);
            }
        }
        if !perps.is_empty() {
            kinds.extend([2, 2, 3, 3, 4]);
        }
        if !w.spots.is_empty() && acc.active_serum3_orders().count() > 0 {
            kinds.push(5);
        }
        if kinds.is_empty() {
            return self.of(w, "price");
        }
        match *self.r.pick(&kinds) {
            0 => {
                let lt = *self.r.pick(&neg);
                let at = if pos.is_empty() || self.r.chance(5) { self.tok(w) } else { *self.r.pick(&pos) };
                let n = if self.r.chance(50) { 1u64 << 60 } else { self.rel_amount(w, e, lt) };
                let mut o = json!({"op":"liq_token","l":l,"a":e,"at":at,"lt":lt});
                if self.r.chance(10) {
                    o["n_bits"] = json!(((n.min(1 << 40) as i128) << 47).to_string());
                } else {
                    o["n"] = json!(n);
                }
                o
            }
            1 => {
                let lt = *self.r.pick(&neg);
                let n = if self.r.chance(60) { 1u64 << 60 } else { self.rel_amount(w, e, lt) };
                json!({"op":"liq_bankruptcy","l":l,"a":e,"lt":lt,"n":n})
            }
            2 => {
                let p = *self.r.pick(&perps);
                let base: i64 = if self.r.chance(10) { -5 } else { *self.r.pick(&[i64::MAX, 1, 3, 10, -3]) };
                let sign = w.account(e).and_then(|x| x.perp_position(p as u16).ok().map(|q| q.base_position_lots().signum())).unwrap_or(1);
                let base = if self.r.chance(90) { base.saturating_abs() * if sign < 0 { -1 } else { 1 } } else { base };
                json!({"op":"perp_liq_base","p":p,"l":l,"a":e,"base":base.to_string(),"pnl":if self.r.chance(50) { u64::MAX } else { self.amount() - 1 }})
            }
            3 => {
                let p = *self.r.pick(&perps);
                json!({"op":"perp_liq_neg","p":p,"l":l,"a":e,"n":if self.r.chance(60) { u64::MAX } else { self.amount() - 1 },"v1":self.r.chance(25) as u8})
            }
            4 => {
                let p = *self.r.pick(&perps);
                json!({"op":"perp_liq_cancel","p":p,"a":e,"limit":10})
            }
            _ => {
                let s = self.r.below(w.spots.len() as u64);
                json!({"op":"s3_liq_cancel","s":s,"a":e,"limit":5})
            }
        }
    }
    fn spot(&mut self, w: &World) -> Value {
        let s = self.r.below(w.spots.len() as u64) as usize;
        let a = self.user(w);
        let sp = &w.spots[s];
        let px = self.price(w, sp.base) / self.price(w, sp.quote).max(1e-9);
        let lot_px = px * sp.bl as f64 / sp.ql as f64;
        let has = w.rt.accs.contains_key(&w.oo_key(a, s));
        if !has && self.r.chance(80) {
            return json!({"op":"s3_create","a":a,"s":s});
        }
        match self.r.below(20) {
            0..=8 => {
                let side = self.r.below(2);
                let f = if self.r.chance(12) { 0.3 + 2.0 * self.r.f() } else { 0.95 + 0.1 * self.r.f() };
                let p = ((lot_px * f) as u64).max(1);
                let mx = if self.r.chance(20) { 400 } else { 60 };
                let base = 1 + self.r.below(mx);
                let quote = if self.r.chance(60) { base * p * sp.ql * 101 / 100 + 10 } else { 1 + self.r.below(base * p * sp.ql + 10) };
                self.cid += 1;
                let pct = *self.r.pick(&[0u64, 0, 0, 30, 50, 100]);
                let t = if side == 0 { sp.quote } else { sp.base };
                json!({"op":"s3_place","a":a,"s":s,"side":side,"px":p,"base":base,"quote":quote,"ot":*self.r.pick(&[0u64,0,0,1,2]),"pct":pct,"cid":self.cid,"b":self.bank(w, t),"v1":self.r.chance(10) as u8})
            }
            9 | 10 => {
                let rs = crate::dex::resting(&w.rt, &sp.dex);
                if rs.is_empty() {
                    return json!({"op":"s3_settle","a":a,"s":s});
                }
                let e = self.r.pick(&rs).clone();
                let owner = (0..w.users.len()).find(|u| w.oo_key(*u, s) == e.oo).unwrap_or(a);
                let bid = crate::dex::bid_ids(&w.rt, &sp.dex).contains(&e.id);
                let who = if self.r.chance(10) { a } else { owner };
                json!({"op":"s3_cancel","a":who,"s":s,"side":!bid as u8,"id":e.id.to_string()})
            }
            11 => json!({"op":"s3_cancel_all","a":a,"s":s,"limit":*self.r.pick(&[1u64,2,10])}),
            12..=14 => json!({"op":"s3_settle","a":a,"s":s,"v1":self.r.chance(15) as u8,"dao":self.r.below(2)}),
            15..=17 => json!({"op":"dex_fill","s":s,"i":self.r.below(4),"lots":1 + self.r.below(40),"rebate":self.r.below(20)}),
            18 => json!({"op":"s3_liq_cancel","s":s,"a":a,"limit":5}),
            _ => json!({"op":"s3_close","s":s,"a":a}),
        }
    }
    /// a transaction around a health region: mostly well formed
    fn region(&mut self, w: &World) -> Value {
        let a = self.user(w);
        let (ts, ps) = ((0..w.toks.len()).collect::<Vec<_>>(), (0..w.perps.len()).collect::<Vec<_>>());
        let begin = |a: usize| json!({"op":"region_begin","a":a,"ts":ts,"ps":ps});
        let end = |a: usize| json!({"op":"region_end","a":a,"ts":ts,"ps":ps});
        let mut ops = vec![begin(a)];
        for _ in 0..self.r.below(4) {
            let mut o = match self.r.below(16) {
                0 => self.of(w, "tok"),
                1 => self.spot(w),
                2 => self.of(w, "perpc"),
                3..=5 => {
                    let mut o = json!({"op":"noop"});
                    for _ in 0..12 {
                        let x = self.spot(w);
                        if ["s3_place", "s3_cancel", "s3_cancel_all", "s3_settle"].contains(&x["op"].as_str().unwrap()) {
                            o = x;
                            break;
                        }
                    }
                    if o["op"] == "noop" { self.perp_order(w, false) } else { o }
                }
                6 => json!({"op":"perp_cancel_all","a":a,"p":self.r.below(w.perps.len() as u64),"limit":5}),
                7 => json!({"op":"perp_cancel_side","a":a,"p":self.r.below(w.perps.len() as u64),"side":self.r.below(2),"limit":5}),
                8 => {
                    let mut o = self.perp_order(w, false);
                    if o.get("base").is_some() {
                        o["base"] = json!(1_000_000u64 + self.r.below(100_000_000));
                    }
                    o
                }
                _ => self.perp_order(w, false),
            };
            if o["op"] == "dex_fill" || o["op"] == "batch" {
                o = self.perp_order(w, false);
            }
            if self.r.chance(95) {
                o["a"] = json!(a);
            }
            ops.push(o);
        }
        if self.r.chance(95) {
            let e = if self.r.chance(97) { a } else { self.user(w) };
            ops.push(end(e));
        }
        match self.r.below(40) {
            0 | 1 => ops.insert(1, begin(a)),
            2 | 3 => ops.push(json!({"op":"compute_budget"})),
            4 | 5 => {
                let i = self.r.below(ops.len() as u64) as usize;
                let inner = ops[i].clone();
                ops[i] = json!({"op":"via_proxy","pf":self.r.below(2),"inner":inner});
            }
            6 => ops.insert(1, json!({"op":"compute_budget"})),
            7 | 8 => {
                // something else around it
                let o = self.perp_order(w, false);
                ops.insert(0, o);
                let o = self.of(w, "hc");
                ops.push(o);
            }
            9 => {
                // two accounts one after the other, or nested
                let b = self.user(w);
                if self.r.chance(70) {
                    ops.push(begin(b));
                    let mut o = self.perp_order(w, false);
                    o["a"] = json!(b);
                    ops.push(o);
                    ops.push(end(b));
                } else {
                    ops.insert(1, begin(b));
                    ops.push(end(b));
                }
            }
            10 => {
                // another part of the program in the middle
                let o = match self.r.below(5) {
                    0 => json!({"op":"health_check","a":a,"kind":2,"min":f64n(0.0)}),
                    1 => json!({"op":"withdraw","a":a,"t":self.tok(w),"n":1 + self.r.below(1000),"borrow":1}),
                    2 => self.of(w, "hc"),
                    3 => self.of(w, "seq"),
                    _ => json!({"op":"update_index","t":self.tok(w)}),
                };
                let i = 1 + self.r.below(ops.len() as u64) as usize;
                ops.insert(i.min(ops.len()), o);
            }
            11 => ops.push(end(a)),
            12 => {
                // an action of another account inside
                let b = self.user(w);
                let mut o = self.perp_order(w, false);
                o["a"] = json!(b);
                ops.insert(1, o);
            }
            13 => {
                ops.remove(0);
            }
            _ => {}
        }
        json!({"op":"batch","ops":ops})
    }
    fn flash(&mut self, w: &World) -> Value {
        let a = self.user(w);
        let swap = self.r.chance(50);
        let (x, y) = self.tok2(w);
        let mut loans: Vec<(usize, u64)> = vec![];
        let la = if self.r.chance(15) { 0 } else { self.rel_amount(w, a, x) };
        loans.push((x, la));
        if swap || self.r.chance(60) {
            let lb = if swap || self.r.chance(60) { 0 } else { self.amount() };
            loans.push((y, lb));
        }
        if !swap && self.r.chance(15) && w.toks.len() > 2 {
            let z = (0..w.toks.len()).find(|z| *z != x && *z != y).unwrap();
            loans.push((z, self.amount()));
        }
        if self.r.chance(3) {
            let l = loans[0];
            loans.push(l);
        }
        let lj: Vec<Value> = loans.iter().map(|l| json!({"t":l.0,"loan":l.1})).collect();
        let ty = if swap { 1 + self.r.below(2) } else { *self.r.pick(&[0u64, 0, 0, 1]) };
        let mk = |op: &str| json!({"op":op,"a":a,"loans":lj,"type":ty});
        let mut ops = vec![if swap && self.r.chance(50) { mk("flash_swap_begin") } else { mk("flash_begin") }];
        // the "outside world": the user's wallet pays or receives
        let other = (a + 1) % w.users.len();
        let mut k = 0;
        for (t, n) in &loans {
            if swap {
                let out = k == 1;
                if !out {
                    let spend = match self.r.below(4) {
                        0 => *n,
                        1 => n / 2,
                        2 => n + 1,
                        _ => *n,
                    };
                    if spend > 0 {
                        ops.push(json!({"op":"spl_transfer","from":a,"to":other,"t":t,"n":spend}));
                    }
                } else {
                    let (x0, n0) = loans[0];
                    let val = n0 as f64 * self.price(w, x0) / self.price(w, *t).max(1e-9) * (0.9 + 0.2 * self.r.f());
                    let recv = val as u64;
                    if recv > 0 {
                        ops.push(json!({"op":"spl_transfer","from":other,"to":a,"t":t,"n":recv}));
                    }
                }
            } else {
                match self.r.below(5) {
                    0 | 1 => {}
                    2 => ops.push(json!({"op":"spl_transfer","from":a,"to":other,"t":t,"n":self.r.below(n + 2) + 1})),
                    3 => ops.push(json!({"op":"spl_transfer","from":other,"to":a,"t":t,"n":1 + self.amount()})),
                    _ => ops.push(json!({"op":"spl_transfer","from":a,"to":other,"t":t,"n":n.max(&1)})),
                }
            }
            k += 1;
        }
        if self.r.chance(4) {
            ops.push(json!({"op":"deposit","a":other,"t":x,"n":5}));
        }
        if self.r.chance(3) {
            ops.push(json!({"op":"compute","a":other}));
        }
        if self.r.chance(6) {
            // another instruction of the program, through another one
            let inner = match self.r.below(3) {
                0 => json!({"op":"deposit","a":other,"t":x,"n":5}),
                1 => json!({"op":"update_index","t":y,"resilient":1}),
                _ => json!({"op":"compute","a":a}),
            };
            ops.push(json!({"op":"via_proxy","pf":self.r.below(2),"inner":inner}));
        }
        let mut end = mk("flash_end");
        if self.r.chance(10) {
            end["v1"] = json!(1);
        }
        match self.r.below(24) {
            0 => {}
            1 => {
                ops.push(end.clone());
                ops.push(end);
            }
            2 => {
                end["a"] = json!(other);
                ops.push(end)
            }
            3 => {
                end["loans"] = json!(lj.iter().rev().cloned().collect::<Vec<_>>());
                ops.push(end)
            }
            4 => {
                end["loans"] = json!(lj[..lj.len() - 1].to_vec());
                ops.push(end)
            }
            5 => {
                ops.push(json!({"op":"via_proxy","pf":self.r.below(2),"inner":end}));
            }
            6 => {
                ops[0] = json!({"op":"via_proxy","pf":self.r.below(2),"inner":ops[0].clone()});
                ops.push(end);
            }
            7 => {
                ops.insert(1, ops[0].clone());
                ops.push(end);
            }
            8 => {
                end["wallet"] = json!(other);
                ops.push(end);
            }
            _ => ops.push(end),
        }
        if self.r.chance(4) {
            ops.insert(0, json!({"op":"compute_budget"}));
        }
        json!({"op":"batch","ops":ops})
    }
    fn tcs(&mut self, w: &World) -> Value {
        let (a, l) = self.user2(w);
        let acc = match w.account(a) {
            Some(x) => x,
            None => return json!({"op":"clock","dt":1}),
        };
        let now = w.rt.clock.unix_timestamp as u64;
        let act: Vec<(usize, u64, usize, usize, f64, u8)> = acc
            .all_token_conditional_swaps()
            .enumerate()
            .filter(|(_, c)| c.is_configured != 0)
            .map(|(i, c)| (i, c.id, c.buy_token_index as usize, c.sell_token_index as usize, c.price_premium_rate, c.tcs_type))
            .collect();
        if act.is_empty() || self.r.chance(if act.len() > 1 { 6 } else { 18 }) {
            let (bt, st) = self.tok2(w);
            let px = self.price(w, bt) / self.price(w, st).max(1e-9);
            let kind = self.r.below(3);
            let mb = if self.r.chance(25) { u64::MAX } else { self.amount() };
            let ms = if self.r.chance(25) { u64::MAX } else { self.amount() };
            let lo = if self.r.chance(70) { px * (0.8 + 0.2 * self.r.f()) } else { px * (0.8 + 0.3 * self.r.f()) };
            let hi = if self.r.chance(70) { px * (1.0 + 0.3 * self.r.f()) } else { lo * (1.0 + 0.3 * self.r.f()) };
            let prem = *self.r.pick(&[0.0, 0.0, 0.01, 0.05, 0.1]);
            let exp = if self.r.chance(60) { u64::MAX } else { now + *self.r.pick(&[1u64, 60, 3600, 100_000]) };
            let start = now.saturating_sub(10) + self.r.below(60);
            let (l0, h0) = if kind == 2 && self.r.chance(50) { (hi, lo) } else { (lo, hi) };
            return json!({"op":"tcs_create","a":a,"bt":bt,"st":st,"kind":kind,"max_buy":mb,"max_sell":ms,"lo":l0,"hi":h0,"prem":prem,"dep":self.r.chance(70) as u8,"bor":self.r.chance(70) as u8,
                "exp":exp,"dur":1 + self.r.below(600),"start":start});
        }
        let c = *self.r.pick(&act);
        let e = acc.token_conditional_swap_by_index(c.0).unwrap();
        let waits = c.5 == 1 && e.start_timestamp == 0;
        let px = self.price(w, c.2) / self.price(w, c.3).max(1e-9);
        if (px < e.price_lower_limit || px > e.price_upper_limit) && e.price_lower_limit <= e.price_upper_limit && self.r.chance(35) {
            // bring the price into the range, with a preference for its ends
            let lo = e.price_lower_limit;
            let t = match self.r.below(4) {
                0 => lo,
                1 => e.price_upper_limit.min(lo * 2.0),
                _ => lo + (e.price_upper_limit.min(lo * 2.0) - lo) * self.r.f(),
            };
            let (k, np) = if c.2 != 0 { (c.2, t * self.price(w, c.3)) } else { (c.3, self.price(w, c.2) / t.max(1e-9)) };
            return json!({"op":"oracle_set","t":k,"bits":I80F48::from_num(np.clamp(1e-3, 1e4)).to_bits().to_string()});
        }
        let k = if waits && self.r.chance(75) { 1 } else { self.r.below(12) };
        match k {
            0 => json!({"op":"tcs_cancel","a":a,"bt":c.2,"st":c.3,"i":c.0,"id":c.1}),
            2 if !waits && self.r.chance(60) => json!({"op":"clock","dt":*self.r.pick(&[1u64, 20, 100, 700])}),
            1 | 2 => json!({"op":"tcs_start","l":l,"a":a,"bt":c.2,"st":c.3,"i":c.0,"id":c.1}),
            _ => {
                let mb = if self.r.chance(40) { u64::MAX } else { self.amount() };
                let ms = if self.r.chance(40) { u64::MAX } else { self.amount() };
                let min_buy = if self.r.chance(75) { 0 } else if self.r.chance(40) { 1 } else { self.amount() };
                let id = if self.r.chance(97) { c.1 } else { c.1 + 1 };
                let px = self.price(w, c.2) / self.price(w, c.3).max(1e-9);
                let min_px = if self.r.chance(75) { 0.0 } else { (px * (0.95 + 0.15 * self.r.f())) as f32 as f64 };
                json!({"op":"tcs_trigger","l":l,"a":a,"bt":c.2,"st":c.3,"i":c.0,"id":id,"mb":mb,"ms":ms,"min_buy":min_buy,"min_px":min_px})
            }
        }
    }
    fn edit(&mut self, w: &World) -> Value {
        let t = self.tok(w);
        let mut o = json!({"op":"token_edit","t":t});
        let px = self.price(w, t);
        let tot: f64 = w.bank(t, 0).native_deposits().to_num::<f64>() * px;
        match self.r.below(14) {
            0 => {
                o["net_borrow_limit_per_window_quote"] = json!(*self.r.pick(&[-1i64, 0, 1000, 100_000, 1_000_000]));
                o["net_borrow_limit_window_size_ts"] = json!(*self.r.pick(&[60u64, 600, 3600, 86400]));
            }
            1 => o["deposit_limit"] = json!((w.bank(t, 0).native_deposits().to_num::<f64>() * (0.5 + self.r.f())) as u64 * self.r.below(2)),
            2 => o["min_vault_to_deposits_ratio"] = json!(*self.r.pick(&[0.0, 0.1, 0.5, 0.9])),
            3 => o["borrow_weight_scale_start_quote"] = json!((tot * (0.05 + self.r.f())).max(1.0)),
            4 => o["deposit_weight_scale_start_quote"] = json!((tot * (0.2 + self.r.f())).max(1.0)),
            5 => {
                let now = w.rt.clock.unix_timestamp as u64;
                let s = now + self.r.below(4000);
                o["maint_weight_shift_start"] = json!(s);
                o["maint_weight_shift_end"] = json!(s + self.r.below(10_000));
                o["maint_weight_shift_asset_target"] = json!(*self.r.pick(&[0.0, 0.5, 0.7, 0.9, 1.0, 1.1]));
                o["maint_weight_shift_liab_target"] = json!(*self.r.pick(&[0.9, 1.0, 1.1, 1.3, 1.5]));
            }
            6 => o["maint_weight_shift_abort"] = json!(1),
            7 => {
                o["maint_asset_weight"] = json!(*self.r.pick(&[0.5, 0.8, 0.9, 1.0, 1.1]));
                o["init_asset_weight"] = json!(*self.r.pick(&[0.0, 0.4, 0.6, 0.85, 1.0, 1.2, 1.5]));
                o["maint_liab_weight"] = json!(*self.r.pick(&[0.9, 1.0, 1.1, 1.2]));
                o["init_liab_weight"] = json!(*self.r.pick(&[0.95, 1.0, 1.2, 1.4, 2.0]));
            }
            8 => {
                o["loan_origination_fee_rate"] = json!(*self.r.pick(&[0.0, 0.0005, 0.01]));
                o["liquidation_fee"] = json!(*self.r.pick(&[0.0, 0.02, 0.1]));
                o["platform_liquidation_fee"] = json!(*self.r.pick(&[0.0, 0.01]));
            }
            9 => o["reset_net_borrow_limit"] = json!(1),
            10 => {
                o["util0"] = json!(*self.r.pick(&[0.3, 0.5]));
                o["rate0"] = json!(*self.r.pick(&[0.02, 0.1]));
                o["util1"] = json!(*self.r.pick(&[0.7, 0.9]));
                o["rate1"] = json!(*self.r.pick(&[0.3, 1.0]));
                o["max_rate"] = json!(*self.r.pick(&[1.2, 3.0]));
                o["adjustment_factor"] = json!(*self.r.pick(&[0.0, 0.01, 0.1]));
                o["loan_fee_rate"] = json!(*self.r.pick(&[0.0, 0.0005, 0.05]));
            }
            11 => {
                o["interest_curve_scaling"] = json!(*self.r.pick(&[1.0, 2.5]));
                o["interest_target_utilization"] = json!(*self.r.pick(&[0.0, 0.3, 0.5, 0.8]));
                o["zero_util_rate"] = json!(*self.r.pick(&[0.0, 0.01]));
            }
            12 => return json!({"op":"group_edit","deposit_limit_quote":*self.r.pick(&[0u64, 1_000_000, 100_000_000])}),
            _ => o["reset_stable_price"] = json!(1),
        }
        self.with_by(w, o, 8)
    }
    fn pedit(&mut self, w: &World) -> Value {
        if w.perps.is_empty() {
            return json!({"op":"clock","dt":1});
        }
        let mut o = json!({"op":"perp_edit","p":self.r.below(w.perps.len() as u64)});
        match self.r.below(8) {
            6 => {
                o["min_funding"] = json!(*self.r.pick(&[-0.05, -0.01, -0.3]));
                o["max_funding"] = json!(*self.r.pick(&[0.05, 0.02, 0.4]));
                o["impact_quantity"] = json!(*self.r.pick(&[1, 10, 300]));
            }
            7 => {
                o["fee_penalty"] = json!(*self.r.pick(&[0.0, 0.5, 7.25]));
                o["base_liquidation_fee"] = json!(*self.r.pick(&[0.0, 0.0125, 0.05]));
                o["platform_liquidation_fee"] = json!(*self.r.pick(&[0.0, 0.005, 0.02]));
            }
            0 => o["settle_pnl_limit_factor"] = json!(*self.r.pick(&[0.0, 0.05, 0.2, 1.0])),
            1 => o["settle_pnl_limit_window_size_ts"] = json!(*self.r.pick(&[60u64, 600, 86400])),
            2 => {
                o["settle_fee_flat"] = json!(*self.r.pick(&[0.0, 10.0, 1000.0]));
                o["settle_fee_amount_threshold"] = json!(*self.r.pick(&[0.0, 100.0, 5000.0]));
                o["settle_fee_fraction_low_health"] = json!(*self.r.pick(&[0.0, 0.01, 0.5]));
            }
            3 => {
                o["maint_base_asset_weight"] = json!(*self.r.pick(&[0.9, 0.975, 1.1]));
                o["init_base_asset_weight"] = json!(*self.r.pick(&[0.85, 0.95, 1.0]));
                o["maint_base_liab_weight"] = json!(*self.r.pick(&[0.95, 1.025, 1.1]));
                o["init_base_liab_weight"] = json!(*self.r.pick(&[1.0, 1.05, 1.2]));
            }
            4 => {
                o["maint_overall_asset_weight"] = json!(*self.r.pick(&[0.0, 0.5, 1.0]));
                o["init_overall_asset_weight"] = json!(*self.r.pick(&[0.0, 0.4, 1.0]));
            }
            _ => {
                o["maker_fee"] = json!(*self.r.pick(&[-0.0001, 0.0, 0.0002]));
                o["taker_fee"] = json!(*self.r.pick(&[0.0002, 0.0004, 0.001]));
            }
        }
        o
    }
}
