//! Conditional swaps by themselves: what a swap says about itself at a time, a price and a position.
//! A line: {c: the swap, now, px (2^64), pos, neg, ro, res: {…}}; a panicking answer is recorded as -1
use crate::gen::Rng;
use crate::state::{fb, fk, n, tcs_fields};
use crate::unit::{emit, Out};
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn code(r: anchor_lang::Result<()>) -> Value {
    match r {
        Ok(()) => json!(0),
        Err(anchor_lang::error::Error::AnchorError(e)) => json!(e.error_code_number),
        Err(_) => json!(1),
    }
}
fn tried(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!(-1))
}
/// a price without rounding at 2^64
fn price(r: &mut Rng) -> f64 {
    let k = match r.below(4) {
        0 => 1u64 << 20,
        1 => 1 << 10,
        2 => 1 << 30,
        _ => 1 << 40,
    };
    (1 + r.below(k)) as f64 / (1u64 << 20) as f64
}
fn amount(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 + r.below(10),
        3 => u64::MAX - r.below(3),
        _ => r.below(1 << 40),
    }
}
pub fn random(seed: u64, want: usize, o: &mut Out) {
    let mut r = Rng::new(seed * 15_485_863 + 11);
    for _ in 0..want {
        let mut c = TokenConditionalSwap::default();
        c.is_configured = 1;
        c.id = r.below(100);
        c.max_buy = amount(&mut r);
        c.bought = if r.chance(30) { c.max_buy } else { c.max_buy / (1 + r.below(4)) };
        c.max_sell = amount(&mut r);
        c.sold = if r.chance(30) { 0 } else { c.max_sell / (1 + r.below(4)) };
        c.buy_token_index = 1;
        c.sell_token_index = 0;
        c.allow_creating_deposits = r.chance(50) as u8;
        c.allow_creating_borrows = r.chance(50) as u8;
        c.tcs_type = r.below(3) as u8;
        c.price_lower_limit = if r.chance(20) { 0.0 } else { price(&mut r) };
        c.price_upper_limit = if r.chance(20) { f64::MAX } else { c.price_lower_limit + if r.chance(10) { 0.0 } else { price(&mut r) } };
        if c.tcs_type == 2 {
            c.price_upper_limit = price(&mut r);
        }
        c.price_premium_rate = *r.pick(&[0.0, 0.25, 0.5, 1.0, 0.015625]);
        c.taker_fee_rate = *r.pick(&[0.0f32, 0.0005, 0.25, 0.01]);
        c.maker_fee_rate = *r.pick(&[0.0f32, 0.0005, 0.125, 0.01]);
        let now = 1_700_000_000 + r.below(1000);
        c.expiry_timestamp = match r.below(5) {
            0 => now,
            1 => now + 1,
            2 => now - 1,
            _ => u64::MAX,
        };
        c.start_timestamp = match r.below(5) {
            0 => 0,
            1 => now,
            2 => now + 1 + r.below(5),
            _ => now - r.below(1000),
        };
        if c.tcs_type == 2 && c.start_timestamp == 0 {
            c.start_timestamp = now - 5;
        }
        c.duration_seconds = match r.below(5) {
            0 => 1,
            1 if c.start_timestamp != 0 && c.start_timestamp < now => now - c.start_timestamp,
            2 if c.start_timestamp != 0 => (now + 1).saturating_sub(c.start_timestamp).max(1),
            _ => 1 + r.below(2000),
        };
        let px = match r.below(6) {
            0 => c.price_lower_limit,
            1 if c.price_upper_limit < 1e15 => c.price_upper_limit,
            2 => c.price_lower_limit - if c.price_lower_limit > 0.0 { 1.0 / (1u64 << 20) as f64 } else { 0.0 },
            3 if c.price_upper_limit < 1e15 => c.price_upper_limit + 1.0 / (1u64 << 20) as f64,
            _ => c.price_lower_limit + price(&mut r) / 2.0,
        };
        let mut bank: Bank = bytemuck::Zeroable::zeroed();
        bank.reduce_only = r.below(3) as u8;
        let pos = I80F48::from_bits({
            let m = match r.below(5) {
                0 => 0,
                1 => (r.next() >> 16) as i128,
                2 => (r.below(1 << 40) as i128) << 48,
                3 => 1i128 << 48,
                _ => ((r.below(1 << 40) as i128) << 48) + (r.next() >> 16) as i128,
            };
            if r.chance(50) {
                -m
            } else {
                m
            }
        });
        let base = I80F48::from_bits(pos.to_bits().abs());
        let pp = price(&mut r);
        emit(
            o,
            json!({"c": tcs_fields(&c), "now": n(now), "px": fk(px, 64), "pos": fb(pos), "base": fb(base), "pp": fk(pp, 64), "ro": bank.reduce_only,
                "exp": c.is_expired(now) as i64, "started": c.passed_start(now) as i64, "stype": c.is_startable_type() as i64,
                "start": code(c.check_startable(px, now)), "trig": code(c.check_triggerable(px, now)), "canstart": c.is_startable(px, now) as i64, "cantrig": c.is_triggerable(px, now) as i64,
                "prem": tried(|| fk(c.premium_price(px, now), 64)), "mp": fk(c.maker_price(pp), 64), "tp": fk(c.taker_price(pp), 64),
                "mfee": n(c.maker_fee(base)), "tfee": n(c.taker_fee(base)), "rb": n(c.remaining_buy()), "rs": n(c.remaining_sell()),
                "mb": tried(|| n(c.max_buy_for_position(pos, &bank))), "ms": tried(|| n(c.max_sell_for_position(pos, &bank)))}),
        );
    }
}
