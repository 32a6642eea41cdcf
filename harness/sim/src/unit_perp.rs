//! One perp market and one position: random histories of their functions.
//! A line: {k, f, args, pre: market, ch: its changed fields, p, p2: position before and after, res}
use crate::gen::Rng;
use crate::state::{f48, fb, n, new_side, nu128, perp_fields, ppos_fields, side_orders as orders};
use crate::unit::{emit, Out};
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Map, Value};
use std::cell::{RefCell, RefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bits(x: i128) -> I80F48 {
    I80F48::from_bits(x)
}
fn one() -> i128 {
    1i128 << 48
}
fn frac(r: &mut Rng) -> i128 {
    match r.below(4) {
        0 => 0,
        1 => r.below(4) as i128,
        2 => one() - 1 - r.below(4) as i128,
        _ => (r.next() >> 16) as i128,
    }
}
fn amount(r: &mut Rng, top: u64) -> i128 {
    let i = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 1 + r.below(100),
        _ => r.below(top),
    } as i128;
    i * one() + if r.chance(40) { 0 } else { frac(r) }
}
fn signed(r: &mut Rng, top: u64) -> i128 {
    amount(r, top) * if r.chance(50) { -1 } else { 1 }
}
fn market(r: &mut Rng) -> PerpMarket {
    let mut m: PerpMarket = bytemuck::Zeroable::zeroed();
    m.perp_market_index = 3;
    m.base_decimals = 6;
    m.base_lot_size = *r.pick(&[1i64, 10, 100, 1000]);
    m.quote_lot_size = *r.pick(&[1i64, 10, 100]);
    let px = *r.pick(&[0.01, 0.5, 1.0, 7.0, 300.0]) * (0.5 + r.f());
    m.stable_price_model = StablePriceModel::default();
    m.stable_price_model.reset_to_price(px, 1_000_000);
    m.maint_base_asset_weight = I80F48::from_num(1.0 - 0.3 * r.f());
    m.maint_base_liab_weight = I80F48::from_num(1.0 + 0.3 * r.f());
    m.init_base_asset_weight = m.maint_base_asset_weight - I80F48::from_num(0.1 * r.f());
    m.init_base_liab_weight = m.maint_base_liab_weight + I80F48::from_num(0.1 * r.f());
    m.maint_overall_asset_weight = I80F48::ONE;
    m.init_overall_asset_weight = I80F48::ONE;
    m.settle_pnl_limit_factor = *r.pick(&[-1.0f32, 0.0, 0.05, 0.2, 1.0]) * if r.chance(50) { 1.0 } else { 0.5 + r.f() as f32 };
    m.settle_pnl_limit_window_size_ts = *r.pick(&[1u64, 3600, 86400]);
    m.settle_fee_flat = *r.pick(&[0.0f32, 1.0, 50.5, 1000.0]);
    m.settle_fee_amount_threshold = *r.pick(&[0.0f32, 10.0, 1000.5, 1e6]);
    m.settle_fee_fraction_low_health = *r.pick(&[0.0f32, 0.01, 0.25]);
    m.maker_fee = I80F48::from_num(-0.0005);
    m.taker_fee = I80F48::from_num(0.001);
    m.long_funding = bits(signed(r, 5000));
    m.short_funding = if r.chance(50) { m.long_funding } else { m.long_funding + bits(signed(r, 100)) };
    m.open_interest = r.below(100_000) as i64;
    m.seq_num = if r.chance(20) { u64::MAX - 5 - r.below(3) } else { r.below(1 << 40) };
    m.min_funding = I80F48::from_num(-0.2 * r.f());
    m.max_funding = I80F48::from_num(0.2 * r.f());
    m.impact_quantity = 1 + r.below(60) as i64;
    m.funding_last_updated = 1_000_000 + r.below(50_000);
    m
}
fn diff(a: &PerpMarket, b: &PerpMarket) -> Map<String, Value> {
    let (x, y) = (perp_fields(a), perp_fields(b));
    y.into_iter().filter(|(k, v)| x.get(k) != Some(v)).collect()
}
fn quote_of(r: &mut Rng, m: &PerpMarket, lots: i64) -> I80F48 {
    let p = m.stable_price_model.stable_price * (0.7 + 0.6 * r.f());
    let q = -(lots as f64) * m.base_lot_size as f64 * p;
    let i = q as i64;
    I80F48::from_num(if r.chance(60) { i as f64 } else { q })
}
fn lots(r: &mut Rng, p: &PerpPosition) -> i64 {
    let b = p.base_position_lots();
    match r.below(8) {
        0 => -b,
        1 => -b / 2,
        2 => -b * 2,
        3 => -b + 1,
        4 => b,
        5 => 0,
        6 => 1 - 2 * r.below(2) as i64,
        _ => r.below(4000) as i64 - 2000,
    }
}
fn positions(r: &mut Rng, want: usize, o: &mut Out) {
    let mut written = 0;
    while written < want {
        let mut m = market(r);
        let mut p = PerpPosition { market_index: 3, ..Default::default() };
        let mut now = 1_000_000 + r.below(100_000);
        p.settle_pnl_limit_window = (now / m.settle_pnl_limit_window_size_ts) as u32;
        p.long_settled_funding = m.long_funding - bits(if r.chance(30) { 0 } else { signed(r, 50) });
        p.short_settled_funding = m.short_funding - bits(if r.chance(30) { 0 } else { signed(r, 50) });
        if r.chance(85) {
            let l = lots(r, &p) + r.below(2000) as i64 - 1000;
            let q = quote_of(r, &m, l);
            p.record_trade(&mut m, l, q);
        }
        if r.chance(50) {
            p.record_liquidation_quote_change(bits(signed(r, 20_000)));
        }
        if r.chance(50) {
            p.oneshot_settle_pnl_allowance = bits(signed(r, 10_000));
        }
        if r.chance(50) {
            p.recurring_settle_pnl_allowance = r.below(5000) as i64 * if r.chance(10) { -1 } else { 1 };
        }
        if r.chance(50) {
            p.settle_pnl_limit_settled_in_current_window_native = r.below(4000) as i64 - 2000;
        }
        for _ in 0..(1 + r.below(8)) {
            now += *r.pick(&[0u64, 0, 1, 600, 3600, 90_000]);
            if r.chance(25) {
                m.long_funding += bits(signed(r, 3));
                m.short_funding += bits(signed(r, 3));
            }
            if r.chance(15) {
                m.stable_price_model.stable_price *= 0.5 + 1.5 * r.f();
            }
            if r.chance(5) {
                m.settle_pnl_limit_window_size_ts = *r.pick(&[1u64, 600, 3600, 86400]);
            }
            let (m0, p0) = (m, p);
            let f = *r.pick(&["trade", "trade", "trade", "fund", "window", "settle", "settle", "settle", "fee", "liqq", "take", "taker", "untaker", "maker", "view", "view", "view"]);
            let mut line = json!({"k": "pos", "f": f, "now": n(now)});
            let res = catch_unwind(AssertUnwindSafe(|| match f {
                "trade" => {
                    let l = lots(r, &p);
                    let q = quote_of(r, &m, l);
                    line["dB"] = n(l);
                    line["dQ"] = fb(q);
                    json!({"v": fb(p.record_trade(&mut m, l, q))})
                }
                "fund" => {
                    p.settle_funding(&m);
                    json!({})
                }
                "window" => {
                    if r.chance(40) {
                        now = (p.settle_pnl_limit_window as u64 + r.below(3)) * m.settle_pnl_limit_window_size_ts - r.below(2);
                        line["now"] = n(now);
                    }
                    p.update_settle_limit(&m, now);
                    json!({})
                }
                "settle" => {
                    let upnl = p.unsettled_pnl(&m, m.stable_price()).unwrap();
                    let x = match r.below(5) {
                        0 => upnl,
                        1 => upnl / I80F48::from(2),
                        2 => p.oneshot_settle_pnl_allowance,
                        3 => p.apply_pnl_settle_limit(&m, upnl),
                        _ => bits(signed(r, 20_000)),
                    };
                    line["n"] = fb(x);
                    p.record_settle(x, &m);
                    json!({})
                }
                "fee" => {
                    let x = bits(signed(r, 500));
                    line["n"] = fb(x);
                    p.record_trading_fee(x);
                    json!({})
                }
                "liqq" => {
                    let x = bits(signed(r, 5000));
                    line["n"] = fb(x);
                    p.record_liquidation_quote_change(x);
                    json!({})
                }
                "take" => {
                    let x = bits(signed(r, 5000));
                    let (a, b) = (r.below(1000) as i64, r.below(2000) as i64 - 1000);
                    line["n"] = fb(x);
                    line["rl"] = n(a);
                    line["ol"] = n(b);
                    p.record_liquidation_pnl_takeover(x, a, b);
                    json!({})
                }
                "taker" | "untaker" | "maker" => {
                    let (s, a, b) = (r.below(2), r.below(1000) as i64 - if f == "taker" { 0 } else { 500 }, r.below(100_000) as i64);
                    let side = if s == 0 { Side::Bid } else { Side::Ask };
                    line["side"] = json!(s);
                    line["b"] = n(a);
                    line["q"] = n(b);
                    match f {
                        "taker" => p.add_taker_trade(side, a, b),
                        "untaker" => p.remove_taker_trade(a, b),
                        _ => p.adjust_maker_lots(side, a),
                    }
                    json!({})
                }
                _ => {
                    let px = bits(amount(r, 400));
                    let pnl = match r.below(4) {
                        0 => p.unsettled_pnl(&m, px).unwrap(),
                        1 => I80F48::from(p.available_settle_limit(&m).1.min(1 << 40)) + bits(r.below(3) as i128 - 1),
                        2 => I80F48::from(p.available_settle_limit(&m).0.max(-(1 << 40))) + bits(r.below(3) as i128 - 1),
                        _ => bits(signed(r, 50_000)),
                    };
                    line["px"] = fb(px);
                    line["n"] = fb(pnl);
                    let (l, a) = (p.settle_limit(&m), p.available_settle_limit(&m));
                    json!({"uf": fb(p.unsettled_funding(&m)), "lim": [n(l.0), n(l.1)], "av": [n(a.0), n(a.1)], "cut": fb(p.apply_pnl_settle_limit(&m, pnl)),
                        "upnl": fb(p.unsettled_pnl(&m, px).unwrap()), "bn": fb(p.base_position_native(&m)), "eff": n(p.effective_base_position_lots()),
                        "oo": p.has_open_orders() as i64, "tf": p.has_open_taker_fills() as i64, "of": p.has_open_orders_or_fills() as i64,
                        "be": f48(p.break_even_price(&m)), "aep": f48(p.avg_entry_price(&m))})
                }
            }));
            line["ok"] = json!(if res.is_ok() { 1 } else { -1 });
            line["res"] = res.unwrap_or(json!({}));
            line["pre"] = Value::Object(perp_fields(&m0));
            line["ch"] = Value::Object(diff(&m0, &m));
            line["p"] = ppos_fields(&p0);
            line["p2"] = ppos_fields(&p);
            if line["ok"] == json!(-1) {
                m = m0;
                p = p0;
            }
            emit(o, line);
            written += 1;
        }
    }
}
fn markets(r: &mut Rng, want: usize, o: &mut Out) {
    for _ in 0..want {
        let mut m = market(r);
        let f = *r.pick(&["social", "social", "id", "native", "lots", "inside", "fee", "fee", "fee"]);
        if r.chance(20) {
            m.open_interest = r.below(3) as i64;
        }
        let m0 = m;
        let mut line = json!({"k": "market", "f": f});
        let res = catch_unwind(AssertUnwindSafe(|| match f {
            "social" => {
                let x = bits(if r.chance(10) { amount(r, 100) } else { -amount(r, 10_000_000) });
                line["n"] = fb(x);
                match m.socialize_loss(x) {
                    Ok(v) => json!({"ok": 1, "v": fb(v)}),
                    Err(_) => json!({"ok": 0}),
                }
            }
            "id" => {
                let s = r.below(2);
                let pd = match r.below(3) {
                    0 => r.next(),
                    1 => r.below(1000),
                    _ => u64::MAX - r.below(10),
                };
                line["side"] = json!(s);
                line["n"] = n(pd);
                json!({"v": nu128(m.gen_order_id(if s == 0 { Side::Bid } else { Side::Ask }, pd))})
            }
            "native" => {
                let x = if r.chance(5) { r.below(1 << 40) } else { r.below(1_000_000) } as i64;
                line["n"] = n(x);
                json!({"v": fb(m.lot_to_native_price(x))})
            }
            "lots" => {
                let x = bits(amount(r, 1_000_000));
                line["n"] = fb(x);
                json!({"v": n(m.native_price_to_lot(x))})
            }
            "inside" => {
                let ora = bits(amount(r, 1000));
                let s = r.below(2);
                let side = if s == 0 { Side::Bid } else { Side::Ask };
                let w = if s == 0 { m.maint_base_liab_weight } else { m.maint_base_asset_weight };
                let x = if r.chance(60) { w * ora + bits(r.below(3) as i128 - 1) } else { bits(amount(r, 1500)) };
                line["side"] = json!(s);
                line["n"] = fb(x);
                line["px"] = fb(ora);
                json!({"v": m.inside_price_limit(side, x, ora) as i64})
            }
            _ => {
                let s = match r.below(4) {
                    0 => I80F48::from_num(m.settle_fee_amount_threshold) + bits(r.below(3) as i128 - 1),
                    1 => I80F48::from_num(m.settle_fee_flat) + bits(r.below(3) as i128 - 1),
                    _ => bits(amount(r, 100_000)),
                };
                let s = if r.chance(98) { s.max(I80F48::ZERO) } else { -s };
                let posv = bits(amount(r, 10_000_000));
                let pnl = if r.chance(60) { posv / I80F48::from(100) + bits(r.below(5) as i128 - 2) } else { bits(signed(r, 1_000_000)) };
                let he = bits(signed(r, 100_000));
                let hm = he + bits(match r.below(3) {
                    0 => amount(r, 10),
                    1 => (-he.to_bits()).max(0) + r.below(3) as i128 - 1,
                    _ => amount(r, 200_000),
                })
                .max(I80F48::ZERO);
                line["n"] = fb(s);
                line["pnl"] = fb(pnl);
                line["posv"] = fb(posv);
                line["he"] = fb(he);
                line["hm"] = fb(hm);
                match m.compute_settle_fee(s, pnl, posv, he, hm) {
                    Ok(v) => json!({"ok": 1, "v": fb(v)}),
                    Err(_) => json!({"ok": 0}),
                }
            }
        }));
        line["ok"] = json!(if res.is_ok() { 1 } else { -1 });
        line["res"] = res.unwrap_or(json!({}));
        line["pre"] = Value::Object(perp_fields(&m0));
        line["ch"] = Value::Object(diff(&m0, &m));
        emit(o, line);
    }
}
fn funding(r: &mut Rng, want: usize, o: &mut Out) {
    for _ in 0..want {
        let mut m = market(r);
        let now = (m.funding_last_updated + *r.pick(&[0u64, 1, 60, 599, 3599, 3600, 3601, 100_000])).saturating_sub(if r.chance(10) { 5 } else { 0 });
        m.stable_price_model.last_update_timestamp = m.funding_last_updated - r.below(20);
        if r.chance(30) {
            // a market that started with an unknown price
            m.stable_price_model.reset_to_price(0.0, now - r.below(1000));
        }
        let px = match r.below(12) {
            0 => bits(1 + r.below(1000) as i128),
            _ => I80F48::from_num(*r.pick(&[0.01, 0.5, 1.0, 7.0, 300.0]) * (0.5 + r.f())),
        };
        let ora = m.native_price_to_lot(px);
        let cells = [RefCell::new(new_side(Side::Bid)), RefCell::new(new_side(Side::Ask))];
        let empty = r.below(6);
        for s in 0..2u64 {
            if empty == s || empty == 2 {
                continue;
            }
            let side = if s == 0 { Side::Bid } else { Side::Ask };
            for k in 0..r.below(8) {
                let peg = r.chance(40);
                let away = r.below(1 + ora.max(4) as u64 / 4) as i64 * if s == 0 { -1 } else { 1 };
                let price = (ora + away).max(1);
                let (t, pd) = if peg { (BookSideOrderTree::OraclePegged, oracle_pegged_price_data(away)) } else { (BookSideOrderTree::Fixed, fixed_price_data(price).unwrap()) };
                let tif = *r.pick(&[0u16, 0, 1, 100]);
                let pl = if peg && r.chance(50) { price + r.below(5) as i64 - 2 } else { -1 };
                let leaf = LeafNode::new(k as u8, new_node_key(side, pd, 1 + k), Default::default(), 1 + r.below(30) as i64, now - r.below(120).min(now), PostOrderType::Limit, tif, pl, k);
                let _ = cells[s as usize].borrow_mut().insert_leaf(t, &leaf);
            }
        }
        let m0 = m;
        let mut line = json!({"k": "funding", "f": "funding", "now": n(now), "px": fb(px), "bids": orders(&cells[0].borrow()), "asks": orders(&cells[1].borrow())});
        let state = OracleState { price: px, last_update_slot: 1, last_update_time: None, deviation: I80F48::ZERO, oracle_type: OracleType::Stub };
        let res = catch_unwind(AssertUnwindSafe(|| {
            let book = Orderbook { bids: RefMut::map(cells[0].borrow_mut(), |b| &mut **b), asks: RefMut::map(cells[1].borrow_mut(), |b| &mut **b) };
            m.update_funding_and_stable_price(&book, &state, now).is_ok() as i64
        }));
        line["ok"] = json!(res.unwrap_or(-1));
        line["pre"] = Value::Object(perp_fields(&m0));
        line["ch"] = Value::Object(diff(&m0, &m));
        emit(o, line);
    }
}
pub fn random(kind: &str, seed: u64, want: usize, o: &mut Out) {
    let mut r = Rng::new(seed * 7919 + 13);
    match kind {
        "perp_pos" => positions(&mut r, want, o),
        "perp_market" => markets(&mut r, want, o),
        _ => funding(&mut r, want, o),
    }
}
