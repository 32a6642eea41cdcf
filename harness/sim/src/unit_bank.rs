//! One bank: random histories of its functions on random parameters, with the bank and the positions after each call.
//! A line: {f, args, pre: bank, ch: its changed fields, p, p2 / q, q2: positions before and after, res}
use crate::gen::Rng;
use crate::state::{bank_fields, f48, fb, n};
use crate::unit::{emit, Out};
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bits(x: i128) -> I80F48 {
    I80F48::from_bits(x)
}
fn one() -> i128 {
    1i128 << 48
}
pub fn code(e: &anchor_lang::error::Error) -> i64 {
    match e {
        anchor_lang::error::Error::AnchorError(e) => e.error_code_number as i64,
        anchor_lang::error::Error::ProgramError(_) => 1,
    }
}
fn frac(r: &mut Rng) -> i128 {
    match r.below(4) {
        0 => 0,
        1 => r.below(4) as i128,
        2 => one() - 1 - r.below(4) as i128,
        _ => (r.next() >> 16) as i128,
    }
}
/// a native amount: integer or not, tiny to large
fn amount(r: &mut Rng) -> i128 {
    let i = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 1 + r.below(100),
        7 => r.below(1 << 44),
        _ => r.below(10_000_000),
    } as i128;
    i * one() + if r.chance(50) { 0 } else { frac(r) }
}
fn index(r: &mut Rng) -> i128 {
    let start = 1_000_000 * one();
    match r.below(5) {
        0 => start,
        1 => start + r.below(1 << 40) as i128,
        2 => start - (r.next() >> 14) as i128 * 100,
        3 => start * (1 + r.below(5) as i128) + (r.next() >> 4) as i128,
        _ => start + (r.next() >> 8) as i128 * 16,
    }
}
fn pct(r: &mut Rng, top: f64) -> I80F48 {
    match r.below(5) {
        0 => I80F48::ZERO,
        1 => I80F48::from_num(top),
        _ => I80F48::from_num(top * r.f()),
    }
}
fn random_bank(r: &mut Rng) -> Bank {
    let mut b: Bank = bytemuck::Zeroable::zeroed();
    b.mint_decimals = 6;
    b.deposit_index = bits(index(r));
    b.borrow_index = bits(index(r));
    // totals of everyone else
    b.indexed_deposits = bits(amount(r) / 1_000_000 * 3);
    b.indexed_borrows = bits(amount(r) / 1_000_000);
    b.index_last_updated = 1_000_000 + r.below(100_000);
    b.bank_rate_last_updated = b.index_last_updated - r.below(8000);
    b.avg_utilization = pct(r, 1.0);
    b.adjustment_factor = pct(r, 0.1);
    b.util0 = I80F48::from_num(0.05 + 0.6 * r.f());
    b.util1 = b.util0 + I80F48::from_num(0.01) + pct(r, 0.3);
    b.zero_util_rate = pct(r, 0.05);
    b.rate0 = pct(r, 0.2);
    b.rate1 = b.rate0 + pct(r, 0.5);
    b.max_rate = b.rate1 + pct(r, 3.0);
    b.loan_origination_fee_rate = pct(r, 0.02);
    b.loan_fee_rate = pct(r, 0.01);
    b.init_asset_weight = pct(r, 1.0);
    b.maint_asset_weight = b.init_asset_weight + pct(r, 0.2);
    b.maint_liab_weight = I80F48::ONE + pct(r, 0.3);
    b.init_liab_weight = b.maint_liab_weight + pct(r, 0.3);
    b.liquidation_fee = pct(r, 0.1);
    b.platform_liquidation_fee = pct(r, 0.02);
    b.min_vault_to_deposits_ratio = *r.pick(&[0.0, 0.2, 0.5, 1.0]);
    b.net_borrow_limit_window_size_ts = *r.pick(&[1u64, 600, 3600, 86400]);
    b.last_net_borrows_window_start_ts = (1_100_000 - r.below(90_000)) / b.net_borrow_limit_window_size_ts * b.net_borrow_limit_window_size_ts;
    b.net_borrow_limit_per_window_quote = *r.pick(&[-1i64, 0, 1, 1000, 1_000_000, 1 << 50]);
    b.net_borrows_in_window = r.below(2_000_000) as i64 - 500_000;
    b.stable_price_model.stable_price = *r.pick(&[0.0, 0.5, 1.0, 20.0]) * (0.5 + r.f());
    b.borrow_weight_scale_start_quote = *r.pick(&[f64::MAX, f64::MAX, 1.0, 1000.5, 1e6, 1e9]);
    b.deposit_weight_scale_start_quote = *r.pick(&[f64::MAX, f64::MAX, 1.0, 1000.5, 1e6, 1e9]);
    b.reduce_only = *r.pick(&[0u8, 0, 0, 1, 2]);
    b.interest_curve_scaling = *r.pick(&[1.0, 1.0, 1.5, 4.0]) * (1.0 + r.f());
    b.interest_target_utilization = *r.pick(&[0.0f32, 0.5, 0.9, 1.0]);
    b.potential_serum_tokens = if r.chance(50) { 0 } else { r.below(1_000_000) };
    b.deposit_limit = if r.chance(40) { 0 } else { r.below(20_000_000) };
    b.token_conditional_swap_taker_fee_rate = 0.001;
    b.flash_loan_swap_fee_rate = 0.002;
    if r.chance(60) {
        b.maint_weight_shift_start = 1_000_000 + r.below(200_000);
        b.maint_weight_shift_end = b.maint_weight_shift_start + r.below(100_000);
        let d = b.maint_weight_shift_end - b.maint_weight_shift_start;
        if d > 0 {
            b.maint_weight_shift_duration_inv = I80F48::ONE / I80F48::from(d);
        }
        b.maint_weight_shift_asset_target = pct(r, 1.0);
        b.maint_weight_shift_liab_target = I80F48::ONE + pct(r, 0.4);
    }
    b
}
fn random_pos(r: &mut Rng, b: &mut Bank) -> TokenPosition {
    let mut p = TokenPosition { token_index: 0, ..Default::default() };
    p.in_use_count = if r.chance(50) { 0 } else { 1 + r.below(3) as u16 };
    let native = amount(r);
    let x = match r.below(8) {
        0 => 0,
        1 => 1 + r.below(3) as i128,
        2 => -1 - (r.below(3) as i128),
        3 => native / 4_000_000,
        4..=5 => native / 1_000_000,
        _ => -(native / 1_000_000),
    };
    p.indexed_position = bits(x);
    if x > 0 {
        b.indexed_deposits += bits(x);
        p.previous_index = b.deposit_index - bits((b.deposit_index.to_bits() / 1000) * r.below(4) as i128);
    } else {
        b.indexed_borrows -= bits(x);
        p.previous_index = b.borrow_index - bits((b.borrow_index.to_bits() / 1000) * r.below(4) as i128);
    }
    p.cumulative_deposit_interest = if r.chance(50) { 0.0 } else { r.below(1_000_000) as f64 / 16.0 };
    p.cumulative_borrow_interest = if r.chance(50) { 0.0 } else { r.below(1_000_000) as f64 / 16.0 };
    p
}
fn pos(p: &TokenPosition) -> Value {
    json!({"x": fb(p.indexed_position), "u": n(p.in_use_count), "pi": fb(p.previous_index), "cd": f48(p.cumulative_deposit_interest), "cb": f48(p.cumulative_borrow_interest)})
}
fn diff(a: &Bank, b: &Bank) -> Map<String, Value> {
    let (x, y) = (bank_fields(a), bank_fields(b));
    y.into_iter().filter(|(k, v)| x.get(k) != Some(v)).collect()
}
/// an amount that matters for this position
fn relative(r: &mut Rng, b: &Bank, p: &TokenPosition) -> i128 {
    let nat = p.native(b).to_bits().abs();
    match r.below(7) {
        0 => nat,
        1 => nat + 1 + r.below(3) as i128,
        2 => (nat - 1 - r.below(3) as i128).max(0),
        3 => (nat - frac(r)).max(0),
        4 => nat + frac(r),
        5 => nat / (1 + r.below(5) as i128),
        _ => amount(r),
    }
}
type Res = (i64, i64, Value);
fn act(x: std::thread::Result<anchor_lang::Result<bool>>) -> Res {
    match x {
        Ok(Ok(a)) => (1, 0, json!({"act": a as i64})),
        Ok(Err(e)) => (0, code(&e), json!({})),
        Err(_) => (-1, 0, json!({})),
    }
}
fn wres(x: std::thread::Result<anchor_lang::Result<(bool, I80F48, I80F48)>>) -> Res {
    match x {
        Ok(Ok((a, f, l))) => (1, 0, json!({"act": a as i64, "fee": fb(f), "loan": fb(l)})),
        Ok(Err(e)) => (0, code(&e), json!({})),
        Err(_) => (-1, 0, json!({})),
    }
}
fn unit(x: std::thread::Result<anchor_lang::Result<()>>) -> Res {
    act(x.map(|y| y.map(|_| true)))
}
fn val(x: std::thread::Result<Value>) -> Res {
    match x {
        Ok(v) => (1, 0, v),
        Err(_) => (-1, 0, json!({})),
    }
}
fn ledger(r: &mut Rng, lines: usize, o: &mut Out) {
    let mut written = 0;
    while written < lines {
        let mut b = random_bank(r);
        let mut p = random_pos(r, &mut b);
        let mut q = random_pos(r, &mut b);
        let mut now = 1_100_000 + r.below(10_000);
        for _ in 0..(1 + r.below(8)) {
            now += *r.pick(&[0u64, 0, 1, 600, 3600, 100_000]);
            if r.chance(10) {
                // interest, or a loss
                b.deposit_index += bits((r.next() >> 12) as i128 - if r.chance(20) { 1 << 52 } else { 0 });
                b.borrow_index += bits((r.next() >> 12) as i128);
            }
            let (b0, p0, q0) = (b, p, q);
            let f = *r.pick(&["deposit", "deposit_d", "withdraw", "withdraw_d", "withdraw_fee", "lof", "dust", "change", "change_fee", "xfer", "xfer", "xfer"]);
            let mut a = relative(r, &b, &p);
            if f.starts_with("change") && r.chance(50) || r.chance(2) {
                a = -a;
            }
            let am = bits(a);
            let mut line = json!({"k": "ledger", "f": f, "now": n(now), "n": n(a)});
            let res: Res = match f {
                "deposit" => act(catch_unwind(AssertUnwindSafe(|| b.deposit(&mut p, am, now)))),
                "deposit_d" => act(catch_unwind(AssertUnwindSafe(|| b.deposit_with_dusting(&mut p, am, now)))),
                "withdraw" => act(catch_unwind(AssertUnwindSafe(|| b.withdraw_without_fee(&mut p, am, now)))),
                "withdraw_d" => act(catch_unwind(AssertUnwindSafe(|| b.withdraw_without_fee_with_dusting(&mut p, am, now)))),
                "withdraw_fee" => wres(catch_unwind(AssertUnwindSafe(|| b.withdraw_with_fee(&mut p, am, now).map(|w| (w.position_is_active, w.loan_origination_fee, w.loan_amount))))),
                "lof" => wres(catch_unwind(AssertUnwindSafe(|| b.withdraw_loan_origination_fee(&mut p, am, now).map(|w| (w.position_is_active, w.loan_origination_fee, w.loan_amount))))),
                "dust" => act(catch_unwind(AssertUnwindSafe(|| b.dust_if_possible(&mut p, now)))),
                "change" => act(catch_unwind(AssertUnwindSafe(|| b.change_without_fee(&mut p, am, now)))),
                "change_fee" => wres(catch_unwind(AssertUnwindSafe(|| b.change_with_fee(&mut p, am, now).map(|w| (w.position_is_active, w.loan_origination_fee, w.loan_amount))))),
                _ => {
                    let mut m = match r.below(4) {
                        0 => 0,
                        1 => a,
                        2 => relative(r, &b, &q),
                        _ => amount(r),
                    };
                    if a < 0 {
                        a = -a
                    }
                    if r.chance(10) {
                        a = 0
                    }
                    if r.chance(5) {
                        m = a + 1
                    }
                    let am = bits(a);
                    let tm = bits(m);
                    let px = bits((r.below(50) as i128 * one()) / 10 + frac(r) / 100);
                    line["n"] = n(a);
                    line["m"] = n(m);
                    line["px"] = fb(px);
                    match catch_unwind(AssertUnwindSafe(|| b.checked_transfer_with_fee(&mut p, am, &mut q, tm, now, px))) {
                        Ok(Ok(t)) => (1, 0, json!({"act": t.source_is_active as i64, "tact": t.target_is_active as i64, "fee": fb(t.loan_origination_fee), "loan": fb(t.loan_amount)})),
                        Ok(Err(e)) => (0, code(&e), json!({})),
                        Err(_) => (-1, 0, json!({})),
                    }
                }
            };
            line["ok"] = json!(res.0);
            line["code"] = json!(res.1);
            line["res"] = res.2;
            line["pre"] = Value::Object(bank_fields(&b0));
            line["ch"] = Value::Object(diff(&b0, &b));
            line["p"] = pos(&p0);
            line["p2"] = pos(&p);
            line["q"] = pos(&q0);
            line["q2"] = pos(&q);
            emit(o, line);
            written += 1;
            if res.0 != 1 {
                // a transaction would have been undone
                b = b0;
                p = p0;
                q = q0;
            }
        }
    }
}
fn limits(r: &mut Rng, lines: usize, o: &mut Out) {
    for _ in 0..lines {
        let mut b = random_bank(r);
        let f = *r.pick(&["remaining_nb", "check_nb", "remaining_dep", "check_dep", "util_all", "util_borrow", "update_nb", "potential"]);
        let px = bits(match r.below(4) {
            0 => b.stable_price().to_bits() + r.below(5) as i128 - 2,
            _ => (r.below(500) as i128 * one()) / 10 + frac(r) / 100,
        }
        .max(0));
        // often at the very limit
        match f {
            "remaining_nb" | "check_nb" if r.chance(50) && b.net_borrow_limit_per_window_quote > 0 => {
                let p = px.max(b.stable_price());
                if p.is_positive() {
                    let k: i64 = (b.net_borrow_limit_per_window_quote as f64 / p.to_num::<f64>()) as i64;
                    b.net_borrows_in_window = k.saturating_add(r.below(3) as i64 - 1).clamp(-10, 1 << 50);
                    if r.chance(50) {
                        let v = p.checked_mul_int(b.net_borrows_in_window.into()).unwrap();
                        b.net_borrow_limit_per_window_quote = v.floor().to_num::<i64>() + r.below(3) as i64 - 1;
                    }
                }
            }
            "remaining_dep" | "check_dep" if r.chance(60) => {
                let d: i64 = (b.native_deposits() + I80F48::from(b.potential_serum_tokens)).floor().to_num::<i64>() + r.below(3) as i64 - 1;
                b.deposit_limit = d.max(1) as u64;
            }
            "util_all" | "util_borrow" if r.chance(60) => {
                let k = if f == "util_all" { I80F48::ONE } else { I80F48::ONE - I80F48::from_num(b.min_vault_to_deposits_ratio) };
                b.indexed_borrows = k * b.native_deposits() / b.borrow_index + bits(r.below(3) as i128 - 1);
            }
            _ => {}
        }
        let a = amount(r) * if r.chance(40) { -1 } else { 1 };
        let now = match r.below(4) {
            0 => b.last_net_borrows_window_start_ts + b.net_borrow_limit_window_size_ts + r.below(3) - 1,
            _ => b.last_net_borrows_window_start_ts + r.below(200_000),
        };
        let (old, new) = (r.below(1000), if r.chance(20) { r.below(1 << 40) } else { r.below(1000) });
        let b0 = b;
        let res: Res = match f {
            "remaining_nb" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.remaining_net_borrows_quote(px))})))),
            "check_nb" => unit(catch_unwind(AssertUnwindSafe(|| b.check_net_borrows(px)))),
            "remaining_dep" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.remaining_deposits_until_limit())})))),
            "check_dep" => unit(catch_unwind(AssertUnwindSafe(|| b.check_deposit_and_oo_limit()))),
            "util_all" => unit(catch_unwind(AssertUnwindSafe(|| b.enforce_borrows_lte_deposits()))),
            "util_borrow" => unit(catch_unwind(AssertUnwindSafe(|| b.enforce_max_utilization_on_borrow()))),
            "update_nb" => val(catch_unwind(AssertUnwindSafe(|| {
                b.update_net_borrows(bits(a), now);
                json!({})
            }))),
            _ => val(catch_unwind(AssertUnwindSafe(|| {
                b.update_potential_serum_tokens(old, new);
                json!({})
            }))),
        };
        emit(o, json!({"k": "limits", "f": f, "now": n(now), "n": n(a), "px": fb(px), "old": n(old), "new": n(new), "ok": res.0, "code": res.1, "res": res.2,
            "pre": bank_fields(&b0), "ch": diff(&b0, &b)}));
    }
}
fn interest(r: &mut Rng, lines: usize, o: &mut Out) {
    for _ in 0..lines {
        let mut b = random_bank(r);
        if r.chance(10) {
            b.interest_curve_scaling = 0.0;
        }
        let f = *r.pick(&["index", "index", "rate", "avg", "avg", "scale"]);
        let td = match r.below(6) {
            0 => 0,
            _ => amount(r) / 1_000_000 * 3,
        };
        let tb = match r.below(6) {
            0 => 0,
            1 => td,
            2 => td + r.below(5) as i128,
            3 => td / (1 + r.below(6) as i128),
            _ => amount(r) / 1_000_000,
        };
        let u = match r.below(8) {
            0 => 0,
            1 => one(),
            2 => b.util0.to_bits() + r.below(3) as i128 - 1,
            3 => b.util1.to_bits() + r.below(3) as i128 - 1,
            4 => one() + r.below(1 << 47) as i128,
            5 => -(r.below(1 << 47) as i128),
            _ => (r.next() >> 16) as i128,
        };
        let dt = *r.pick(&[0u64, 1, 60, 1800, 3600]);
        let now = match r.below(4) {
            0 => b.index_last_updated,
            _ => b.index_last_updated + r.below(10_000),
        };
        if r.chance(10) {
            b.bank_rate_last_updated = now;
            b.index_last_updated = now;
        }
        if f == "scale" && r.chance(40) {
            b.avg_utilization = I80F48::from_num(b.interest_target_utilization) + bits(r.below(5) as i128 - 2);
        }
        let b0 = b;
        let res: Res = match f {
            "index" => match catch_unwind(AssertUnwindSafe(|| b.compute_index(bits(td), bits(tb), I80F48::from(dt)))) {
                Ok(Ok((d, br, fee, rate, drate))) => (1, 0, json!({"di": fb(d), "bi": fb(br), "fee": fb(fee), "rate": fb(rate), "drate": fb(drate)})),
                Ok(Err(e)) => (0, code(&e), json!({})),
                Err(_) => (-1, 0, json!({})),
            },
            "rate" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.compute_interest_rate(bits(u)))})))),
            "avg" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.compute_new_avg_utilization(bits(td), bits(tb), now))})))),
            _ => val(catch_unwind(AssertUnwindSafe(|| {
                b.update_interest_rate_scaling();
                json!({})
            }))),
        };
        emit(o, json!({"k": "interest", "f": f, "now": n(now), "td": n(td), "tb": n(tb), "u": n(u), "dt": n(dt), "ok": res.0, "code": res.1, "res": res.2,
            "pre": bank_fields(&b0), "ch": diff(&b0, &b)}));
    }
}
fn weights(r: &mut Rng, lines: usize, o: &mut Out) {
    for _ in 0..lines {
        let mut b = random_bank(r);
        let f = *r.pick(&["maint", "maint", "asset", "asset", "liab", "liab", "verify", "verify", "verify"]);
        let now = match r.below(6) {
            0 => b.maint_weight_shift_start,
            1 => b.maint_weight_shift_end,
            2 => b.maint_weight_shift_start + 1,
            3 => b.maint_weight_shift_end.saturating_sub(1),
            4 => (b.maint_weight_shift_start + b.maint_weight_shift_end) / 2,
            _ => 900_000 + r.below(500_000),
        };
        let px = bits(match r.below(5) {
            0 => 0,
            _ => (r.below(500) as i128 * one()) / 10 + frac(r) / 100,
        });
        if r.chance(40) && px.is_positive() {
            // the scale starts about here
            let q = if f == "asset" { (b.native_deposits() + I80F48::from(b.potential_serum_tokens)) * px } else { b.native_borrows() * px };
            let k = 1.0 + (r.below(5) as f64 - 2.0) * 1e-6;
            let v = (q.to_num::<f64>() * k).max(0.001);
            b.borrow_weight_scale_start_quote = v;
            b.deposit_weight_scale_start_quote = v;
        }
        if f == "verify" {
            let m = bits(-1 - r.below(1 << 40) as i128);
            b.reduce_only = if r.chance(80) { b.reduce_only } else { 3 + r.below(3) as u8 };
            for _ in 0..r.below(3) {
                match r.below(32) {
                    0 => b.util0 = m,
                    1 => b.util1 = b.util0 - I80F48::DELTA,
                    2 => b.util1 = I80F48::ONE + I80F48::DELTA,
                    3 => b.rate0 = m,
                    4 => b.rate1 = m,
                    5 => b.max_rate = m,
                    6 => b.adjustment_factor = m,
                    7 => b.loan_fee_rate = m,
                    8 => b.loan_origination_fee_rate = m,
                    9 => b.init_asset_weight = m,
                    10 => b.maint_asset_weight = b.init_asset_weight - I80F48::DELTA,
                    11 => {
                        b.maint_liab_weight = m;
                        b.init_liab_weight = I80F48::ONE
                    }
                    12 => b.init_liab_weight = b.maint_liab_weight - I80F48::DELTA,
                    13 => b.liquidation_fee = m,
                    14 => b.min_vault_to_deposits_ratio = *r.pick(&[-0.5, 1.5, 1.0, 0.0]),
                    15 => b.net_borrow_limit_per_window_quote = *r.pick(&[-1i64, -2]),
                    16 => b.borrow_weight_scale_start_quote = *r.pick(&[0.0, -1.0]),
                    17 => b.deposit_weight_scale_start_quote = *r.pick(&[0.0, -1.0]),
                    18 => b.token_conditional_swap_taker_fee_rate = -0.5,
                    19 => b.token_conditional_swap_maker_fee_rate = -0.5,
                    20 => b.flash_loan_swap_fee_rate = -0.5,
                    21 => b.interest_curve_scaling = *r.pick(&[0.5, 0.0, 1.0]),
                    22 => b.interest_target_utilization = *r.pick(&[-0.5f32, 1.5, 1.0]),
                    23 => b.maint_weight_shift_duration_inv = m,
                    24 => b.maint_weight_shift_asset_target = m,
                    25 => b.maint_weight_shift_liab_target = m,
                    26 => b.zero_util_rate = m,
                    27 => b.platform_liquidation_fee = m,
                    28 | 29 => {
                        b.disable_asset_liquidation = 1;
                        if r.chance(70) {
                            b.maint_asset_weight = I80F48::ZERO;
                            b.init_asset_weight = I80F48::ZERO;
                        }
                        b.reduce_only = r.below(3) as u8;
                        b.force_withdraw = r.below(2) as u8;
                    }
                    30 => b.collateral_fee_per_day = *r.pick(&[-0.5f32, 0.5]),
                    _ => b.force_withdraw = 1,
                }
            }
        }
        let b0 = b;
        let res: Res = match f {
            "maint" => val(catch_unwind(AssertUnwindSafe(|| {
                let (x, y) = b.maint_weights(now);
                json!({"a": fb(x), "l": fb(y)})
            }))),
            "asset" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.scaled_init_asset_weight(px))})))),
            "liab" => val(catch_unwind(AssertUnwindSafe(|| json!({"v": fb(b.scaled_init_liab_weight(px))})))),
            _ => unit(catch_unwind(AssertUnwindSafe(|| b.verify()))),
        };
        b.reserved[0] = 0;
        emit(o, json!({"k": "weights", "f": f, "now": n(now), "px": fb(px), "ok": res.0, "code": res.1, "res": res.2, "pre": bank_fields(&b0), "ch": diff(&b0, &b)}));
    }
}
pub fn random(kind: &str, seed: u64, lines: usize, o: &mut Out) {
    let mut r = Rng::new(seed * 31 + 7);
    match kind {
        "bank_ledger" => ledger(&mut r, lines, o),
        "bank_limits" => limits(&mut r, lines, o),
        "bank_interest" => interest(&mut r, lines, o),
        _ => weights(&mut r, lines, o),
    }
}
