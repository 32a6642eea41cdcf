//! Projection of the runtime's accounts to the specification's state. Components (bank, account, book side...) are
//! interned: a state refers to them by number, so equal numbers mean an unchanged component.
use crate::dex;
use crate::world::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;
use mango_v4::health::{compute_health_from_fixed_accounts, new_fixed_order_account_retriever, new_health_cache, HealthCache, HealthType};
use mango_v4::state::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn n<T: TryInto<i128>>(x: T) -> Value {
    let x: i128 = x.try_into().ok().unwrap();
    if x.abs() < 2147483647 {
        json!(x as i64)
    } else {
        json!(x.to_string())
    }
}
pub fn nu128(x: u128) -> Value {
    if x < 2147483647 {
        json!(x as u64)
    } else {
        json!(x.to_string())
    }
}
pub fn fb(x: I80F48) -> Value {
    n(x.to_bits())
}
/// x * 2^k exactly where it fits, saturating; fractional rest rounded half to even
pub fn fk(x: f64, k: i32) -> Value {
    n(f64_scaled(x, k))
}
pub fn f64_scaled(x: f64, k: i32) -> i128 {
    if x.is_nan() {
        return i128::MIN + 1;
    }
    if x == 0.0 {
        return 0;
    }
    let bits = x.to_bits();
    let neg = (bits >> 63) != 0;
    let e = ((bits >> 52) & 0x7ff) as i32;
    if e == 0x7ff {
        return if neg { -i128::MAX } else { i128::MAX };
    }
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) } as i128;
    let sh = e - 1075 + k;
    let v: i128 = if sh >= 0 {
        if sh > 73 {
            i128::MAX
        } else {
            m << sh
        }
    } else if -sh > 60 {
        0
    } else {
        let s = -sh as u32;
        let q = m >> s;
        let r = m & ((1i128 << s) - 1);
        let half = 1i128 << (s - 1);
        if r > half || (r == half && (q & 1) == 1) {
            q + 1
        } else {
            q
        }
    };
    if neg {
        -v
    } else {
        v
    }
}
pub fn f48(x: f64) -> Value {
    fk(x, 48)
}
fn f32v(x: f32) -> Value {
    fk(x as f64, 48)
}

pub struct Interner {
    pub comps: Vec<String>,
    map: HashMap<String, usize>,
}
impl Interner {
    pub fn new() -> Self {
        Interner { comps: vec![], map: HashMap::new() }
    }
    pub fn put(&mut self, v: Value) -> Value {
        let s = v.to_string();
        if let Some(i) = self.map.get(&s) {
            return json!(*i + 1);
        }
        self.comps.push(s.clone());
        self.map.insert(s, self.comps.len() - 1);
        json!(self.comps.len())
    }
    pub fn write(&self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        for c in &self.comps {
            writeln!(f, "{}", c).unwrap();
        }
    }
}

pub fn stable(m: &StablePriceModel) -> Value {
    json!({"p": f48(m.stable_price), "pb": n(m.stable_price.to_bits()), "lu": n(m.last_update_timestamp), "dap": f48(m.delay_accumulator_price), "dat": n(m.delay_accumulator_time),
        "di": n(m.delay_interval_seconds), "li": n(m.last_delay_interval_index), "rs": n(m.reset_on_nonzero_price),
        "dg": f32v(m.delay_growth_limit), "sg": f32v(m.stable_growth_limit),
        "dp": m.delay_prices.iter().map(|x| f48(*x)).collect::<Vec<_>>()})
}

impl World {
    pub fn user_by_acct(&self, k: &Pubkey) -> i64 {
        self.users.iter().position(|u| u.acct == *k).map(|x| x as i64).unwrap_or(-1)
    }
    pub fn name_of(&self, k: &Pubkey) -> String {
        if *k == Pubkey::default() {
            return "none".into();
        }
        if *k == self.admin {
            return "admin".into();
        }
        if *k == self.fast {
            return "fast".into();
        }
        if *k == self.sec {
            return "sec".into();
        }
        if *k == self.payer {
            return "payer".into();
        }
        match self.users.iter().find(|u| u.owner == *k) {
            Some(u) => u.name.clone(),
            None => {
                for nm in ["stranger", "delegate", "other"] {
                    if named_key(nm) == *k {
                        return nm.into();
                    }
                }
                k.to_string()
            }
        }
    }
    fn live(&self, k: &Pubkey) -> bool {
        self.rt.accs.get(k).map(|a| a.owner == mango_v4::id() && a.data.len() > 8 && a.data[..8] != [0u8; 8]).unwrap_or(false)
    }
    pub fn p_group(&self) -> Value {
        let g: &Group = self.zc(&self.group);
        let gate: Vec<u32> = (0..128u32).filter(|i| g.ix_gate & (1u128 << i) != 0).collect();
        json!({"gate": gate, "dlq": n(g.deposit_limit_quote), "bb": n(g.buyback_fees), "bon": f32v(g.buyback_fees_mngo_bonus_factor),
            "bbx": n(g.buyback_fees_expiry_interval), "bba": self.user_by_acct(&g.buyback_fees_swap_mango_account), "mngo": n(g.mngo_token_index),
            "cfi": n(g.collateral_fee_interval), "adm": self.name_of(&g.admin), "fast": self.name_of(&g.fast_listing_admin), "sec": self.name_of(&g.security_admin),
            "test": n(g.testing), "ver": n(g.version), "fli": n(g.fast_listing_interval_start), "fln": n(g.fast_listings_in_interval), "fla": n(g.allowed_fast_listings_per_interval),
            "cre": self.name_of(&g.creator), "num": n(g.group_num)})
    }
    pub fn p_oracle(&self, k: &Pubkey) -> Value {
        if *k == Pubkey::default() || !self.live(k) {
            return json!({"none": 1, "px": 0, "dev": 0, "slot": 0});
        }
        let o: &StubOracle = self.zc(k);
        json!({"none": 0, "px": fb(o.price), "dev": fb(o.deviation), "slot": n(o.last_update_slot)})
    }
    pub fn p_token(&self, t: usize) -> Value {
        let tk = &self.toks[t];
        if !self.live(&tk.info) {
            return json!({"live": 0, "dec": n(tk.dec)});
        }
        let m: &MintInfo = self.zc(&tk.info);
        json!({"live": 1, "keys": (m.group == self.group && m.mint == tk.mint) as u8, "reg": n(m.registration_time), "i": n(m.token_index), "dec": n(tk.dec), "gif": n(m.group_insurance_fund), "nb": m.banks.iter().filter(|b| **b != Pubkey::default()).count(),
            "orc": (m.oracle == tk.oracle) as u8, "fbo": (m.fallback_oracle != Pubkey::default()) as u8,
            "bv": m.banks.iter().zip(m.vaults.iter()).enumerate().filter(|(_, (b, _))| **b != Pubkey::default()).all(|(i, (b, v))| tk.banks.get(i) == Some(b) && tk.vaults.get(i) == Some(v)) as u8})
    }
    pub fn p_bank(&self, t: usize, b: usize) -> Value {
        let k = &self.toks[t].banks[b];
        if !self.live(k) {
            return json!({"live": 0, "v": n(token_amount(&self.rt, &self.toks[t].vaults[b]))});
        }
        let mut m = bank_fields(self.zc(k));
        m.insert("v".into(), n(token_amount(&self.rt, &self.toks[t].vaults[b])));
        let (x, tk): (&Bank, &Tok) = (self.zc(k), &self.toks[t]);
        m.insert("orc".into(), json!((x.oracle == tk.oracle) as u8));
        m.insert("fbo".into(), json!(if x.fallback_oracle == Pubkey::default() { 0 } else if x.fallback_oracle == tk.fallback { 1 } else { 2 }));
        m.insert("keys".into(), json!((x.group == self.group && x.mint == tk.mint && x.vault == tk.vaults[b]) as u8));
        Value::Object(m)
    }
    pub fn p_perp(&self, p: usize) -> Value {
        let pk = &self.perps[p];
        if !self.live(&pk.key) {
            return json!({"live": 0, "st": pk.settle});
        }
        let x: &PerpMarket = self.zc(&pk.key);
        let mut m = perp_fields(x);
        m.insert("keys".into(), json!((x.group == self.group && x.bids == pk.bids && x.asks == pk.asks && x.event_queue == pk.eq) as u8));
        m.insert("orc".into(), json!((x.oracle == pk.oracle) as u8));
        Value::Object(m)
    }
    pub fn leaf(&self, l: &LeafNode, peg: bool) -> Value {
        let pd = (l.key >> 64) as u64;
        let px = if peg { pd as i128 - (1i128 << 63) } else { pd as i128 };
        json!({"o": self.user_by_acct(&l.owner), "s": n(l.owner_slot), "px": n(px), "id": nu128(l.key), "k": n(l.key as u64), "q": n(l.quantity), "ts": n(l.timestamp),
            "tif": n(l.time_in_force), "pl": n(l.peg_limit), "cid": n(l.client_order_id), "ot": n(l.order_type)})
    }
    pub fn p_side(&self, k: &Pubkey) -> Value {
        if !self.live(k) {
            return json!({"live": 0});
        }
        let s: &BookSide = self.zc(k);
        let mut trees = vec![];
        for r in 0..2 {
            let mut out = vec![];
            raw_leaves(s, r, &mut |l| out.push(self.leaf(l, r == 1)));
            trees.push(json!({"n": n(s.roots[r].leaf_count), "o": out}));
        }
        json!({"live": 1, "fix": trees[0], "peg": trees[1], "bump": n(s.nodes.bump_index), "free": n(s.nodes.free_list_len)})
    }
    pub fn event(&self, e: &AnyEvent) -> Value {
        if e.event_type == EventType::Fill as u8 {
            let f: &FillEvent = bytemuck::cast_ref(e);
            json!({"y": "fill", "ts": n(f.taker_side), "mo": n(f.maker_out), "ms": n(f.maker_slot), "t": n(f.timestamp), "seq": n(f.seq_num), "mk": self.user_by_acct(&f.maker),
                "mts": n(f.maker_timestamp), "tk": self.user_by_acct(&f.taker), "tcid": n(f.taker_client_order_id), "moid": nu128(f.maker_order_id), "px": n(f.price), "q": n(f.quantity),
                "mcid": n(f.maker_client_order_id), "mf": f32v(f.maker_fee), "tf": f32v(f.taker_fee)})
        } else {
            let f: &OutEvent = bytemuck::cast_ref(e);
            json!({"y": "out", "ty": n(f.event_type), "side": n(f.side), "ms": n(f.owner_slot), "t": n(f.timestamp), "seq": n(f.seq_num), "mk": self.user_by_acct(&f.owner), "q": n(f.quantity), "moid": nu128(f.order_id)})
        }
    }
    pub fn p_eq(&self, k: &Pubkey) -> Value {
        if !self.live(k) {
            return json!({"live": 0});
        }
        let q: &EventQueue = self.zc(k);
        let raw = bytemuck::bytes_of(q);
        let head = u32::from_le_bytes(raw[0..4].try_into().unwrap()) as usize;
        let count = u32::from_le_bytes(raw[4..8].try_into().unwrap()) as usize;
        let ev: Vec<Value> = (0..count).map(|i| self.event(&q.buf[(head + i) % q.buf.len()])).collect();
        json!({"live": 1, "h": n(head), "n": n(count), "seq": n(q.header.seq_num), "ev": ev})
    }
    pub fn p_account(&self, a: usize) -> Value {
        match catch_unwind(AssertUnwindSafe(|| self.account(a))) {
            Err(_) => json!({"live": 2}),
            Ok(None) => json!({"live": 0}),
            Ok(Some(x)) => {
                let f = &x.fixed;
                let raw = bytemuck::bytes_of(f);
                let _ = raw;
                let tp: Vec<Value> = x
                    .all_token_positions()
                    .map(|p| {
                        if p.token_index == TokenIndex::MAX {
                            json!({"i": -1, "x": fb(p.indexed_position), "u": n(p.in_use_count)})
                        } else {
                            json!({"i": n(p.token_index), "x": fb(p.indexed_position), "u": n(p.in_use_count), "pi": fb(p.previous_index),
                                "cd": f48(p.cumulative_deposit_interest), "cb": f48(p.cumulative_borrow_interest)})
                        }
                    })
                    .collect();
                let s3: Vec<Value> = x
                    .all_serum3_orders()
                    .map(|s| {
                        if s.market_index == Serum3MarketIndex::MAX {
                            json!({"m": -1})
                        } else {
                            json!({"m": n(s.market_index), "oo": (0..self.spots.len()).find(|i| self.oo_key(a, *i) == s.open_orders).map(|x| x as i64).unwrap_or(-1),
                                "bb": n(s.base_borrows_without_fee), "qb": n(s.quote_borrows_without_fee), "bi": n(s.base_token_index), "qi": n(s.quote_token_index),
                                "hb": fk(s.highest_placed_bid_inv, 80), "la": fk(s.lowest_placed_ask, 64), "pb": n(s.potential_base_tokens), "pq": n(s.potential_quote_tokens),
                                "lb": fk(s.lowest_placed_bid_inv, 80), "ha": fk(s.highest_placed_ask, 64)})
                        }
                    })
                    .collect();
                let pp: Vec<Value> = x
                    .all_perp_positions()
                    .map(|p| {
                        if p.market_index == PerpMarketIndex::MAX {
                            json!({"m": -1})
                        } else {
                            ppos_fields(p)
                        }
                    })
                    .collect();
                let oo: Vec<Value> = x
                    .all_perp_orders()
                    .map(|o| {
                        if o.market == PerpMarketIndex::MAX {
                            json!({"m": -1})
                        } else {
                            json!({"m": n(o.market), "st": n(o.side_and_tree), "cid": n(o.client_id), "id": nu128(o.id), "q": n(o.quantity)})
                        }
                    })
                    .collect();
                let cs: Vec<Value> = x
                    .all_token_conditional_swaps()
                    .map(tcs_fields)
                    .collect();
                json!({"live": 1, "num": n(f.account_num), "own": self.name_of(&f.owner), "del": self.name_of(&f.delegate), "bl": x.being_liquidated() as u8, "hr": f.is_in_health_region() as u8,
                    "sq": n(f.sequence_number), "nd": n(f.net_deposits), "pst": n(f.perp_spot_transfers), "hrh": n(f.health_region_begin_init_health), "fu": n(f.frozen_until),
                    "bc": n(f.buyback_fees_accrued_current), "bp": n(f.buyback_fees_accrued_previous), "bx": n(f.buyback_fees_expiry_timestamp), "nid": n(f.next_token_conditional_swap_id),
                    "td": self.name_of(&f.temporary_delegate), "tdx": n(f.temporary_delegate_expiry), "lcf": n(f.last_collateral_fee_charge),
                    "name": String::from_utf8_lossy(&f.name).trim_matches('\0'),
                    "len": n(self.rt.get(&self.users[a].acct).data.len()), "tp": tp, "s3": s3, "pp": pp, "oo": oo, "cs": cs})
            }
        }
    }
    pub fn p_spot(&self, s: usize) -> Value {
        let sp = &self.spots[s];
        if !self.live(&sp.key) {
            return json!({"live": 0, "tb": sp.base, "tq": sp.quote});
        }
        let a = self.rt.get(&sp.key);
        let m = Serum3Market::try_deserialize(&mut &a.data[..]).unwrap();
        json!({"live": 1, "tb": sp.base, "tq": sp.quote, "keys": (m.group == self.group && m.serum_program == crate::rt::dex_id() && m.serum_market_external == sp.dex.market) as u8,
            "m": n(m.market_index), "bi": n(m.base_token_index), "qi": n(m.quote_token_index), "ro": n(m.reduce_only), "fc": n(m.force_close), "band": f32v(m.oracle_price_band),
            "bl": n(sp.bl), "ql": n(sp.ql)})
    }
    /// open orders of account a at spot market s
    pub fn p_oo(&self, a: usize, s: usize) -> Value {
        let k = self.oo_key(a, s);
        if !self.rt.accs.contains_key(&k) {
            return json!({"live": 0});
        }
        let mut d = self.rt.get(&k).data.clone();
        let mut r = dex::with_oo(&mut d, |o| {
            json!({"live": 1, "bf": n(o.native_coin_free), "bt": n(o.native_coin_total), "qf": n(o.native_pc_free), "qt": n(o.native_pc_total), "rb": n(o.referrer_rebates_accrued)})
        });
        let mut os = vec![];
        let bids: Vec<u128> = dex::bid_ids(&self.rt, &self.spots[s].dex);
        for e in dex::resting(&self.rt, &self.spots[s].dex) {
            if e.oo == k {
                os.push(json!({"id": nu128(e.id), "px": n((e.id >> 64) as u64), "q": n(e.qty), "lk": n(e.locked), "side": if bids.contains(&e.id) { 0 } else { 1 }}));
            }
        }
        r["os"] = json!(os);
        r
    }
    pub fn p_wallets(&self, a: usize) -> Value {
        json!((0..self.toks.len()).map(|t| n(token_amount(&self.rt, &self.wallet(a, t)))).collect::<Vec<_>>())
    }
    pub fn health_of(&self, a: usize) -> Value {
        self.health_or_ratio(a, false)
    }
    /// Account a's health accounts as the program would see them
    fn with_infos<R>(&self, a: usize, f: impl FnOnce(&MangoAccountValue, &[AccountInfo]) -> Option<R>) -> Option<R> {
        let x = self.account(a)?;
        let metas = self.health_accounts(a, &[], &[], &[]);
        let mut bufs: Vec<(Pubkey, u64, Vec<u64>, usize, Pubkey)> = metas
            .iter()
            .map(|m| {
                let acc = self.rt.get(&m.pubkey);
                // 8-byte aligned copy
                let mut v = vec![0u64; acc.data.len() / 8 + 1];
                let b: &mut [u8] = bytemuck::cast_slice_mut(&mut v);
                b[..acc.data.len()].copy_from_slice(&acc.data);
                (m.pubkey, acc.lamports, v, acc.data.len(), acc.owner)
            })
            .collect();
        let ais: Vec<AccountInfo> = bufs
            .iter_mut()
            .map(|(k, l, v, len, o)| {
                let b: &mut [u8] = bytemuck::cast_slice_mut(v);
                AccountInfo::new(k, false, false, l, &mut b[..*len], o, false, 0)
            })
            .collect();
        f(&x, &ais)
    }
    /// f on account a's health cache, if it can be computed
    pub fn with_cache<R>(&self, a: usize, f: impl FnOnce(&MangoAccountValue, &HealthCache) -> R) -> Option<R> {
        let now = self.rt.clock.unix_timestamp as u64;
        self.with_infos(a, |v, ais| {
            let x = v.borrow();
            let retriever = new_fixed_order_account_retriever(ais, &x, (now, self.rt.clock.slot)).ok()?;
            let c = new_health_cache(&x, &retriever, now).ok()?;
            Some(f(v, &c))
        })
    }
    pub fn health_or_ratio(&self, a: usize, ratios: bool) -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| -> Option<Value> {
            if ratios {
                return self.with_cache(a, |_, c| {
                    let f = |t| c.health_ratio(t).to_num::<f64>();
                    json!({"i": f(HealthType::Init), "m": f(HealthType::Maint), "e": f(HealthType::LiquidationEnd)})
                });
            }
            let now = self.rt.clock.unix_timestamp as u64;
            self.with_infos(a, |x, ais| {
                let h = |t| match compute_health_from_fixed_accounts(&x.borrow(), t, ais, now) {
                    Ok(v) => fb(v),
                    Err(_) => n(-i128::MAX),
                };
                Some(json!({"i": h(HealthType::Init), "m": h(HealthType::Maint), "e": h(HealthType::LiquidationEnd)}))
            })
        }));
        match r {
            Ok(Some(v)) => v,
            Ok(None) => json!({"i": n(-i128::MAX + 1), "m": n(-i128::MAX + 1), "e": n(-i128::MAX + 1)}),
            Err(_) => json!({"i": n(-i128::MAX + 2), "m": n(-i128::MAX + 2), "e": n(-i128::MAX + 2)}),
        }
    }
    pub fn state(&self, it: &mut Interner) -> Value {
        self.rt.set_clock();
        let mut w = json!({"now": n(self.rt.clock.unix_timestamp), "slot": n(self.rt.clock.slot), "ins": n(token_amount(&self.rt, &self.insurance)), "admw": Value::Null});
        w.as_object_mut().unwrap().remove("admw");
        w["g"] = it.put(self.p_group());
        w["T"] = (0..self.toks.len()).map(|t| it.put(self.p_token(t))).collect();
        w["O"] = (0..self.toks.len()).map(|t| it.put(self.p_oracle(&self.toks[t].oracle))).collect();
        w["F"] = (0..self.toks.len()).map(|t| it.put(self.p_oracle(&self.toks[t].fallback))).collect();
        w["B"] = (0..self.toks.len()).map(|t| (0..self.toks[t].banks.len()).map(|b| it.put(self.p_bank(t, b))).collect::<Vec<_>>()).map(|v| json!(v)).collect();
        w["P"] = (0..self.perps.len()).map(|t| it.put(self.p_perp(t))).collect();
        w["PO"] = (0..self.perps.len()).map(|t| it.put(self.p_oracle(&self.perps[t].oracle))).collect();
        w["BD"] = (0..self.perps.len()).map(|t| it.put(self.p_side(&self.perps[t].bids))).collect();
        w["AK"] = (0..self.perps.len()).map(|t| it.put(self.p_side(&self.perps[t].asks))).collect();
        w["EQ"] = (0..self.perps.len()).map(|t| it.put(self.p_eq(&self.perps[t].eq))).collect();
        w["A"] = (0..self.users.len()).map(|t| it.put(self.p_account(t))).collect();
        w["H"] = (0..self.users.len()).map(|t| it.put(self.health_of(t))).collect();
        w["W"] = (0..self.users.len()).map(|t| it.put(self.p_wallets(t))).collect();
        w["S"] = (0..self.spots.len()).map(|t| it.put(self.p_spot(t))).collect();
        w["OO"] = (0..self.users.len()).map(|a| json!((0..self.spots.len()).map(|s| it.put(self.p_oo(a, s))).collect::<Vec<_>>())).collect();
        w
    }
}

/// In-order leaves of tree r (best first), by walking the stored nodes
pub fn raw_leaves(s: &BookSide, r: usize, f: &mut dyn FnMut(&LeafNode)) {
    if s.roots[r].leaf_count == 0 {
        return;
    }
    let bids = s.nodes.order_tree_type == OrderTreeType::Bids as u8;
    let mut stack = vec![s.roots[r].maybe_node];
    let mut guard = 0;
    while let Some(h) = stack.pop() {
        guard += 1;
        if guard > 5000 {
            break;
        }
        let node = &s.nodes.nodes[h as usize];
        if node.tag == NodeTag::LeafNode as u8 {
            f(bytemuck::cast_ref(node));
        } else if node.tag == NodeTag::InnerNode as u8 {
            let i: &InnerNode = bytemuck::cast_ref(node);
            if bids {
                stack.push(i.children[0]);
                stack.push(i.children[1]);
            } else {
                stack.push(i.children[1]);
                stack.push(i.children[0]);
            }
        } else {
            // dangling handle: shows as a missing order
        }
    }
}

/// everything a bank stores
pub fn bank_fields(x: &Bank) -> Map<String, Value> {
        let mut m = Map::new();
        let mut put = |k: &str, v: Value| {
            m.insert(k.to_string(), v);
        };
        put("live", json!(1));
        put("i", n(x.token_index));
        put("dec", n(x.mint_decimals));
        put("num", n(x.bank_num));
        put("di", fb(x.deposit_index));
        put("bi", fb(x.borrow_index));
        put("id", fb(x.indexed_deposits));
        put("ib", fb(x.indexed_borrows));
        put("ilu", n(x.index_last_updated));
        put("rlu", n(x.bank_rate_last_updated));
        put("au", fb(x.avg_utilization));
        put("adj", fb(x.adjustment_factor));
        put("u0", fb(x.util0));
        put("r0", fb(x.rate0));
        put("u1", fb(x.util1));
        put("r1", fb(x.rate1));
        put("mr", fb(x.max_rate));
        put("zur", fb(x.zero_util_rate));
        put("fee", fb(x.collected_fees_native));
        put("lfee", fb(x.collected_liquidation_fees));
        put("cfee", fb(x.collected_collateral_fees));
        put("lofr", fb(x.loan_origination_fee_rate));
        put("lfr", fb(x.loan_fee_rate));
        put("maw", fb(x.maint_asset_weight));
        put("iaw", fb(x.init_asset_weight));
        put("mlw", fb(x.maint_liab_weight));
        put("ilw", fb(x.init_liab_weight));
        put("lf", fb(x.liquidation_fee));
        put("plf", fb(x.platform_liquidation_fee));
        put("dust", fb(x.dust));
        put("fli", n(x.flash_loan_token_account_initial));
        put("fla", n(x.flash_loan_approved_amount));
        put("minv", f48(x.min_vault_to_deposits_ratio));
        put("nbz", n(x.net_borrow_limit_window_size_ts));
        put("nbw", n(x.last_net_borrows_window_start_ts));
        put("nbl", n(x.net_borrow_limit_per_window_quote));
        put("nb", n(x.net_borrows_in_window));
        put("bws", f48(x.borrow_weight_scale_start_quote));
        put("dws", f48(x.deposit_weight_scale_start_quote));
        put("ro", n(x.reduce_only));
        put("fc", n(x.force_close));
        put("dal", n(x.disable_asset_liquidation));
        put("fw", n(x.force_withdraw));
        put("fwd", n(x.fees_withdrawn));
        put("tt", f32v(x.token_conditional_swap_taker_fee_rate));
        put("tm", f32v(x.token_conditional_swap_maker_fee_rate));
        put("fls", f32v(x.flash_loan_swap_fee_rate));
        put("itu", f32v(x.interest_target_utilization));
        put("ics", f48(x.interest_curve_scaling));
        put("pst", n(x.potential_serum_tokens));
        put("mss", n(x.maint_weight_shift_start));
        put("mse", n(x.maint_weight_shift_end));
        put("msd", fb(x.maint_weight_shift_duration_inv));
        put("msa", fb(x.maint_weight_shift_asset_target));
        put("msl", fb(x.maint_weight_shift_liab_target));
        put("dl", n(x.deposit_limit));
        put("cfd", f32v(x.collateral_fee_per_day));
        put("ocf", fb(x.oracle_config.conf_filter));
        put("oms", n(x.oracle_config.max_staleness_slots));
        put("sp", stable(&x.stable_price_model));
        put("fbo", json!((x.fallback_oracle != Pubkey::default()) as u8));
        put("tier", json!(String::from_utf8_lossy(&x.tier).trim_matches('\0')));
    m
}

pub fn perp_fields(x: &PerpMarket) -> Map<String, Value> {
    let mut m = Map::new();
    let mut put = |k: &str, v: Value| {
        m.insert(k.to_string(), v);
    };
    put("live", json!(1));
    put("i", n(x.perp_market_index));
    put("st", n(x.settle_token_index));
    put("gif", n(x.group_insurance_fund));
    put("dec", n(x.base_decimals));
    put("ocf", fb(x.oracle_config.conf_filter));
    put("oms", n(x.oracle_config.max_staleness_slots));
    put("sp", stable(&x.stable_price_model));
    put("ql", n(x.quote_lot_size));
    put("bl", n(x.base_lot_size));
    put("maw", fb(x.maint_base_asset_weight));
    put("iaw", fb(x.init_base_asset_weight));
    put("mlw", fb(x.maint_base_liab_weight));
    put("ilw", fb(x.init_base_liab_weight));
    put("mow", fb(x.maint_overall_asset_weight));
    put("iow", fb(x.init_overall_asset_weight));
    put("oi", n(x.open_interest));
    put("seq", n(x.seq_num));
    put("minf", fb(x.min_funding));
    put("maxf", fb(x.max_funding));
    put("imp", n(x.impact_quantity));
    put("lf", fb(x.long_funding));
    put("sf", fb(x.short_funding));
    put("flu", n(x.funding_last_updated));
    put("blf", fb(x.base_liquidation_fee));
    put("mf", fb(x.maker_fee));
    put("tf", fb(x.taker_fee));
    put("fa", fb(x.fees_accrued));
    put("fs", fb(x.fees_settled));
    put("pen", f32v(x.fee_penalty));
    put("sff", f32v(x.settle_fee_flat));
    put("sft", f32v(x.settle_fee_amount_threshold));
    put("sfl", f32v(x.settle_fee_fraction_low_health));
    put("spf", f32v(x.settle_pnl_limit_factor));
    put("spz", n(x.settle_pnl_limit_window_size_ts));
    put("ro", n(x.reduce_only));
    put("fc", n(x.force_close));
    put("pplf", fb(x.positive_pnl_liquidation_fee));
    put("fwd", n(x.fees_withdrawn));
    put("plf", fb(x.platform_liquidation_fee));
    put("alf", fb(x.accrued_liquidation_fees));
    put("reg", n(x.registration_time));
    m
}
pub fn ppos_fields(p: &PerpPosition) -> Value {
    json!({"m": n(p.market_index), "sw": n(p.settle_pnl_limit_window), "ss": n(p.settle_pnl_limit_settled_in_current_window_native), "b": n(p.base_position_lots()),
                                "q": fb(p.quote_position_native()), "qr": n(p.quote_running_native), "lf": fb(p.long_settled_funding), "sf": fb(p.short_settled_funding), "bb": n(p.bids_base_lots),
                                "ab": n(p.asks_base_lots), "tb": n(p.taker_base_lots), "tq": n(p.taker_quote_lots), "clf": f48(p.cumulative_long_funding), "csf": f48(p.cumulative_short_funding),
                                "mv": n(p.maker_volume), "tv": n(p.taker_volume), "ps": n(p.perp_spot_transfers), "ae": f48(p.avg_entry_price_per_base_lot),
                                "oa": n(p.oneshot_settle_pnl_allowance.to_bits()), "ra": n(p.recurring_settle_pnl_allowance), "rp": n(p.realized_pnl_for_position_native.to_bits())})
}

fn zeroed() -> Box<BookSide> {
    unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<BookSide>()) as *mut BookSide) }
}
pub fn new_side(side: Side) -> Box<BookSide> {
    let mut b: Box<BookSide> = zeroed();
    b.nodes.order_tree_type = match side {
        Side::Bid => OrderTreeType::Bids.into(),
        Side::Ask => OrderTreeType::Asks.into(),
    };
    b
}
fn side_leaf(l: &LeafNode, peg: bool) -> Value {
    let pd = (l.key >> 64) as u64;
    let px = if peg { pd as i128 - (1i128 << 63) } else { pd as i128 };
    json!({"o": l.owner.to_bytes()[0] as i64, "s": n(l.owner_slot), "px": n(px), "id": nu128(l.key), "k": n(l.key as u64), "q": n(l.quantity), "ts": n(l.timestamp),
        "tif": n(l.time_in_force), "pl": n(l.peg_limit), "cid": n(l.client_order_id), "ot": n(l.order_type)})
}
pub fn side_orders(b: &BookSide) -> Value {
    let t: Vec<Value> = (0..2)
        .map(|r| {
            let mut o = vec![];
            raw_leaves(b, r, &mut |l| o.push(side_leaf(l, r == 1)));
            json!({"n": n(b.roots[r].leaf_count), "o": o})
        })
        .collect();
    json!({"fix": t[0], "peg": t[1]})
}

pub fn tcs_fields(c: &TokenConditionalSwap) -> Value {
    if c.is_configured == 0 {
        return json!({"on": 0});
    }
    json!({"on": n(c.is_configured), "id": n(c.id), "xb": n(c.max_buy), "xs": n(c.max_sell), "b": n(c.bought), "s": n(c.sold), "exp": n(c.expiry_timestamp),
        "lo": fk(c.price_lower_limit, 64), "hi": fk(c.price_upper_limit, 64), "pr": fk(c.price_premium_rate, 64), "tf": f32v(c.taker_fee_rate), "mf": f32v(c.maker_fee_rate),
        "bi": n(c.buy_token_index), "si": n(c.sell_token_index), "ad": n(c.allow_creating_deposits), "ab": n(c.allow_creating_borrows), "ty": n(c.tcs_type),
        "dps": n(c.display_price_style), "int": n(c.intention), "start": n(c.start_timestamp), "dur": n(c.duration_seconds)})
}
