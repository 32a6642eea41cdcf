//! Oracle accounts of every type: what the program reads from them and whether it may be used.
use crate::gen::Rng;
use crate::state::{f48, fb, n, nu128};
use crate::unit::{emit, Out};
use crate::unit_oracle::Ty::*;
use anchor_lang::prelude::*;
use anchor_lang::{AnchorSerialize, Discriminator};
use fixed::types::I80F48;
use mango_v4::accounts_zerocopy::{AccountReader, KeyedAccountReader};
use mango_v4::state::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Stub,
    Pyth,
    PythV2,
    SbV1,
    SbV2,
    SbOd,
    Orca,
    Ray,
    Junk,
}
struct Acc {
    key: Pubkey,
    owner: Pubkey,
    data: Vec<u64>,
    len: usize,
}
impl AccountReader for Acc {
    fn owner(&self) -> &Pubkey {
        &self.owner
    }
    fn data(&self) -> &[u8] {
        &bytemuck::cast_slice(&self.data)[..self.len]
    }
}
impl KeyedAccountReader for Acc {
    fn key(&self) -> &Pubkey {
        &self.key
    }
}
// feeds are read in place at offset 8: 16-aligned there
fn acc(r: &mut Rng, owner: Pubkey, bytes: &[u8]) -> Acc {
    let mut data = vec![0u64; (bytes.len() + 7) / 8 + 2];
    bytemuck::cast_slice_mut::<u64, u8>(&mut data)[..bytes.len()].copy_from_slice(bytes);
    Acc { key: Pubkey::new_from_array(std::array::from_fn(|_| r.next() as u8)), owner, data, len: bytes.len() }
}
fn code(e: &anchor_lang::error::Error) -> i64 {
    match e {
        anchor_lang::error::Error::AnchorError(e) => e.error_code_number as i64,
        anchor_lang::error::Error::ProgramError(_) => 1,
    }
}
fn res<T>(f: impl FnOnce() -> Result<T>) -> std::result::Result<T, i64> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(code(&e)),
        Err(_) => Err(2),
    }
}
struct Ctx {
    dec: u8,
    slot: u64,
    now: u64,
    ms: i64,
    cf: I80F48,
}
fn slot(r: &mut Rng, c: &Ctx) -> u64 {
    match r.below(7) {
        0 if c.ms >= 0 => c.slot - c.ms as u64,
        1 if c.ms >= 0 => c.slot - c.ms as u64 - 1,
        2 => c.slot,
        3 => c.slot - r.below(20),
        4 => 0,
        5 => c.slot + r.below(10),
        _ => c.slot - r.below(2000),
    }
}
fn time(r: &mut Rng, c: &Ctx) -> i64 {
    let age = if c.ms >= 0 { c.ms as u64 * 450 / 1000 } else { 0 };
    (match r.below(6) {
        0 => c.now - age,
        1 => c.now - age - 1,
        2 => c.now,
        3 => c.now - age + 1,
        4 => c.now + r.below(5),
        _ => c.now - r.below(1000),
    }) as i64
}
fn price(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => 1 + r.below(10) as i64,
        2 => -(1 + r.below(1000) as i64),
        _ => {
            let k = 10 + r.below(30);
            1 + r.below(1 << k) as i64
        }
    }
}
/// deviations around the filtered amount
fn dev(r: &mut Rng, px: i64, c: &Ctx) -> u64 {
    let at = (c.cf.to_num::<f64>() * px.max(0) as f64) as u64;
    match r.below(6) {
        0 => 0,
        1 => at,
        2 => at + 1,
        3 => at.saturating_sub(1),
        4 => at / 2,
        _ => r.below(px.unsigned_abs() + 2),
    }
}
fn pyth_raw(r: &mut Rng, c: &Ctx, dec: u8) -> (Vec<u8>, Value) {
    let mut p: pyth_sdk_solana::state::PriceAccount = unsafe { std::mem::zeroed() };
    p.magic = pyth_sdk_solana::state::MAGIC;
    p.ver = 2;
    p.atype = 3;
    let _ = dec;
    p.expo = -(r.below(10) as i32);
    let (a, b) = (price(r), price(r));
    let st = *r.pick(&[1u8, 1, 1, 1, 0, 2, 3, 4]);
    p.agg.status = unsafe { std::mem::transmute(st) };
    p.agg.price = a;
    p.agg.conf = dev(r, a, c);
    p.agg.pub_slot = slot(r, c);
    p.prev_price = b;
    p.prev_conf = dev(r, b, c);
    p.prev_slot = slot(r, c);
    p.valid_slot = slot(r, c);
    p.last_slot = slot(r, c);
    p.timestamp = time(r, c);
    p.prev_timestamp = time(r, c);
    let b = unsafe { std::slice::from_raw_parts(&p as *const _ as *const u8, std::mem::size_of_val(&p)) }.to_vec();
    (b, json!({"st": st, "expo": p.expo, "px": n(p.agg.price), "dev": n(p.agg.conf), "slot": n(p.agg.pub_slot), "ppx": n(p.prev_price), "pdev": n(p.prev_conf), "pslot": n(p.prev_slot)}))
}
fn mint(k: u64) -> (Pubkey, &'static str) {
    match k {
        0 => (usdc_mint_mainnet::ID, "usdc"),
        1 => (sol_mint_mainnet::ID, "sol"),
        _ => (Pubkey::new_from_array([7; 32]), "other"),
    }
}
fn oracle(r: &mut Rng, ty: Ty, c: &Ctx) -> (Acc, Value) {
    let none = Pubkey::new_from_array([9; 32]);
    match ty {
        Stub => {
            let mut o: StubOracle = bytemuck::Zeroable::zeroed();
            o.price = I80F48::from_bits(r.below(1 << 62) as i128);
            o.last_update_slot = slot(r, c);
            let at = c.cf * o.price;
            o.deviation = *r.pick(&[I80F48::ZERO, at, at + I80F48::DELTA, at / 2, o.price]);
            let mut d = StubOracle::discriminator().to_vec();
            d.extend_from_slice(bytemuck::bytes_of(&o));
            (acc(r, mango_v4::ID, &d), json!({"px": fb(o.price), "dev": fb(o.deviation), "slot": n(o.last_update_slot)}))
        }
        Pyth => {
            let (b, v) = pyth_raw(r, c, c.dec);
            (acc(r, none, &b), v)
        }
        PythV2 => {
            use pyth_solana_receiver_sdk::price_update::*;
            let px = price(r);
            let full = r.chance(85);
            let m = PriceFeedMessage { feed_id: [0; 32], price: px, conf: dev(r, px, c), exponent: -(r.below(10) as i32), publish_time: time(r, c), prev_publish_time: time(r, c), ema_price: price(r), ema_conf: 0 };
            let u = PriceUpdateV2 { write_authority: none, verification_level: if full { VerificationLevel::Full } else { VerificationLevel::Partial { num_signatures: r.below(13) as u8 } }, price_message: m, posted_slot: slot(r, c) };
            let mut d = vec![34, 241, 35, 99, 157, 126, 244, 205];
            u.serialize(&mut d).unwrap();
            (acc(r, pyth_solana_receiver_sdk::ID, &d), json!({"full": full as u8, "expo": m.exponent, "px": n(m.price), "dev": n(m.conf), "time": n(m.publish_time), "slot": n(u.posted_slot)}))
        }
        SbV2 => {
            use switchboard_solana::*;
            let s = r.below(10) as u32;
            let px = price(r) % (1 << 30);
            let f = 5i128.pow(s);
            let sd = dev(r, px, c) % (1 << 30);
            let dm = |m: i128| SwitchboardDecimal { mantissa: m * f, scale: s, _pad: [0; 3] };
            let mut a: AggregatorAccountData = bytemuck::Zeroable::zeroed();
            a.min_oracle_results = r.below(4);
            a.latest_confirmed_round = AggregatorRound { num_success: if r.chance(80) { a.min_oracle_results + r.below(2) } else { r.below(4) }, round_open_slot: slot(r, c), result: dm(px as i128), std_deviation: dm(sd as i128) };
            let mut d = vec![217, 230, 65, 101, 201, 162, 27, 125];
            d.extend_from_slice(bytemuck::bytes_of(&a));
            let k = &a.latest_confirmed_round;
            (acc(r, none, &d), json!({"min": n(a.min_oracle_results), "got": n(k.num_success), "px": n(px), "dev": n(sd), "sh": s, "slot": n(k.round_open_slot)}))
        }
        SbOd => {
            use switchboard_on_demand::*;
            let s = r.below(11) as u32;
            let px = price(r) % (1 << 11);
            let sd = (dev(r, px, c) % (1 << 11)) as i128;
            let unit = 10i128.pow(18) >> s;
            let mut a: PullFeedAccountData = bytemuck::Zeroable::zeroed();
            a.result = CurrentResult { value: px as i128 * unit, std_dev: sd * unit, slot: if r.chance(10) { 0 } else { slot(r, c) }, min_slot: slot(r, c) };
            let mut d = vec![1u8; 8];
            d.extend_from_slice(bytemuck::bytes_of(&a));
            (acc(r, switchboard_on_demand_mainnet_oracle::ID, &d), json!({"px": n(px), "dev": n(sd), "sh": s, "any": (a.result.slot > 0) as u8, "slot": n(a.result.min_slot)}))
        }
        SbV1 => {
            let s = r.below(10) as i32;
            let px = price(r) % (1 << 30);
            let lo = px - r.below(50) as i64;
            let hi = lo + (dev(r, px, c) % (1 << 30)) as i64;
            let f = |x: i64| x as f64 / 2f64.powi(s);
            let sl = slot(r, c);
            let mut d = vec![0u8; 8];
            for x in [f(px), f(lo), f(hi)] {
                d.extend_from_slice(&x.to_le_bytes());
            }
            d.extend_from_slice(&sl.to_le_bytes());
            (acc(r, switchboard_v2_mainnet_oracle::ID, &d), json!({"px": n(px), "dev": n(hi - lo), "sh": s, "slot": n(sl)}))
        }
        Orca | Ray => {
            let (a, b) = (r.below(3), r.below(3));
            let sqrt: u128 = if r.chance(50) { 1u128 << (50 + r.below(24)) } else { (1u128 << (56 + r.below(12))) + r.next() as u128 % (1 << 56) };
            let (len, disc, owner, o) = if ty == Orca {
                (653, [63, 149, 209, 12, 225, 128, 99, 9], orca_mainnet_whirlpool::ID, [65, 101, 181])
            } else {
                (1544, [247, 237, 227, 245, 215, 195, 222, 70], raydium_mainnet::ID, [253, 73, 105])
            };
            let bad = *r.pick(&["", "", "", "", "", "", "", "disc", "len"]);
            let mut d = vec![0u8; if bad == "len" { len + 1 } else { len }];
            d[..8].copy_from_slice(&disc);
            if bad == "disc" {
                d[3] ^= 1;
            }
            d[o[0]..o[0] + 16].copy_from_slice(&sqrt.to_le_bytes());
            d[o[1]..o[1] + 32].copy_from_slice(mint(a).0.as_ref());
            d[o[2]..o[2] + 32].copy_from_slice(mint(b).0.as_ref());
            (acc(r, owner, &d), json!({"bad": bad, "sqrt": nu128(sqrt), "a": mint(a).1, "b": mint(b).1}))
        }
        Junk => (acc(r, none, &[5u8; 64]), json!({})),
    }
}
fn name(t: Ty) -> &'static str {
    match t {
        Stub => "stub",
        Pyth => "pyth",
        PythV2 => "pyth2",
        SbV1 => "sb1",
        SbV2 => "sb2",
        SbOd => "sbod",
        Orca => "clmm",
        Ray => "clmm",
        Junk => "junk",
    }
}
fn state(x: &std::result::Result<OracleState, i64>) -> Value {
    match x {
        Ok(s) => json!({"err": 0, "px": fb(s.price), "dev": if s.deviation == I80F48::MIN { json!(0) } else { fb(s.deviation) }, "slot": if s.last_update_slot == u64::MAX { json!(-1) } else { n(s.last_update_slot) }, "time": s.last_update_time.map_or(json!(-1), n)}),
        Err(e) => json!({ "err": e }),
    }
}
pub fn random(seed: u64, count: usize, o: &mut Out) {
    let r = &mut Rng::new(seed);
    for _ in 0..count {
        let c = Ctx {
            dec: *r.pick(&[0u8, 5, 6, 6, 8, 9]),
            slot: 1_000_000 + r.below(1000),
            now: 1_700_000_000 + r.below(1000),
            ms: *r.pick(&[-1i64, 0, 1, 60, 250, 1000]),
            cf: *r.pick(&[I80F48::ZERO, I80F48::from_num(0.1), I80F48::from_num(0.001), I80F48::ONE, I80F48::from_num(1000)]),
        };
        let tys = [Stub, Pyth, Pyth, PythV2, PythV2, SbV1, SbV2, SbOd, Orca, Ray, Junk];
        let (t, ft) = (*r.pick(&tys), *r.pick(&tys));
        let (a, raw) = oracle(r, t, &c);
        let (f, fraw) = oracle(r, ft, &c);
        let (u, uraw) = pyth_raw(r, &c, 6);
        let (s, sraw) = pyth_raw(r, &c, 9);
        let none = Pubkey::new_from_array([9; 32]);
        let (ua, sa) = (acc(r, none, &u), acc(r, none, &s));
        let (gu, gs, gf) = (r.chance(80), r.chance(80), r.chance(60));
        let infos = OracleAccountInfos { oracle: &a, fallback_opt: gf.then_some(&f), usdc_opt: gu.then_some(&ua), sol_opt: gs.then_some(&sa) };
        let st = res(|| oracle_state_unchecked(&infos, c.dec));
        let fst = res(|| fallback_oracle_state_unchecked(&infos, c.dec));
        let cfg = OracleConfig { conf_filter: c.cf, max_staleness_slots: c.ms, reserved: [0; 72] };
        let verdict = |x: &std::result::Result<OracleState, i64>| match x {
            Ok(s) => json!({"stale": res(|| s.check_staleness(&cfg, c.slot, c.now)).err().unwrap_or(0), "conf": res(|| s.check_confidence(&cfg)).err().unwrap_or(0),
                "both": res(|| s.check_confidence_and_maybe_staleness(&cfg, Some((c.now, c.slot)))).err().unwrap_or(0), "notime": res(|| s.check_confidence_and_maybe_staleness(&cfg, None)).err().unwrap_or(0)}),
            Err(_) => json!({}),
        };
        let mut b: Bank = bytemuck::Zeroable::zeroed();
        b.mint_decimals = c.dec;
        b.oracle_config = OracleConfig { conf_filter: c.cf, max_staleness_slots: c.ms, reserved: [0; 72] };
        let (wp, wf) = (r.chance(4), r.chance(4));
        b.oracle = if wp { f.key } else { a.key };
        b.fallback_oracle = if wf { a.key } else { f.key };
        let checked = r.chance(80);
        let bp = res(|| b.oracle_price(&infos, checked.then_some((c.now, c.slot))));
        let mut m = PerpMarket::default_for_tests();
        m.base_decimals = c.dec;
        m.oracle_config = OracleConfig { conf_filter: c.cf, max_staleness_slots: c.ms, reserved: [0; 72] };
        m.oracle = b.oracle;
        let mp = res(|| m.oracle_price(&infos, checked.then_some((c.now, c.slot))));
        let pr = |x: std::result::Result<I80F48, i64>| match x {
            Ok(p) => json!({"err": 0, "px": fb(p)}),
            Err(e) => json!({ "err": e }),
        };
        let valid = res(|| check_is_valid_fallback_oracle(&a)).err().unwrap_or(0);
        emit(o, json!({"ty": name(t), "raw": raw, "fty": name(ft), "fraw": fraw, "usdc": uraw, "sol": sraw, "gu": gu as u8, "gs": gs as u8, "gf": gf as u8, "wp": wp as u8, "wf": wf as u8,
            "dec": c.dec, "now": n(c.now), "slot": n(c.slot), "ms": n(c.ms), "cf": fb(c.cf), "checked": checked as u8,
            "st": state(&st), "fst": state(&fst), "v": verdict(&st), "fv": verdict(&fst), "bank": pr(bp), "perp": pr(mp), "valid": valid}));
    }
    let _ = f48;
}
