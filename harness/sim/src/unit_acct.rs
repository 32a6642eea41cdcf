//! One account by itself: random histories of its slots, sizes, flags and fee counters.
//! A line: {f, args, e: error code (0 none, -1 panic), res, a: slots before, a2: slots after}
use crate::gen::Rng;
use crate::state::{fb, n, nu128};
use crate::unit::{emit, Out};
use anchor_lang::prelude::Pubkey;
use anchor_lang::AnchorSerialize;
use fixed::types::I80F48;
use mango_v4::state::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Sizes = [u8; 5];
fn code(e: &anchor_lang::error::Error) -> i64 {
    match e {
        anchor_lang::error::Error::AnchorError(e) => e.error_code_number as i64,
        anchor_lang::error::Error::ProgramError(_) => 1,
    }
}
fn fresh(z: Sizes) -> MangoAccountValue {
    let mut a = MangoAccount::default_for_tests();
    a.tokens = vec![TokenPosition::default(); z[0] as usize];
    a.serum3 = vec![Serum3Orders::default(); z[1] as usize];
    a.perps = vec![PerpPosition::default(); z[2] as usize];
    a.perp_open_orders = vec![PerpOpenOrder::default(); z[3] as usize];
    a.token_conditional_swaps = vec![TokenConditionalSwap::default(); z[4] as usize];
    MangoAccountValue::from_bytes(&a.try_to_vec().unwrap()).unwrap()
}
fn slots(a: &MangoAccountValue) -> Value {
    let tp: Vec<Value> = a
        .all_token_positions()
        .map(|p| if p.is_active() { json!([n(p.token_index), n(p.in_use_count), n(p.indexed_position.to_num::<i64>())]) } else { json!([-1, 0, 0]) })
        .collect();
    let s3: Vec<Value> = a.all_serum3_orders().map(|s| if s.is_active() { json!([n(s.market_index), n(s.potential_base_tokens)]) } else { json!([-1, 0]) }).collect();
    let pp: Vec<Value> = a
        .all_perp_positions()
        .map(|p| {
            if p.is_active() {
                json!([n(p.market_index), n(p.base_position_lots()), n(p.quote_position_native().to_num::<i64>()), n(p.bids_base_lots), n(p.asks_base_lots), n(p.taker_base_lots), n(p.taker_quote_lots)])
            } else {
                json!([-1, 0, 0, 0, 0, 0, 0])
            }
        })
        .collect();
    let oo: Vec<Value> = a
        .all_perp_orders()
        .map(|o| if o.market == FREE_ORDER_SLOT { json!([-1, 0, 0, 0, 0]) } else { json!([n(o.market), n(o.side_and_tree), n(o.client_id), nu128(o.id), n(o.quantity)]) })
        .collect();
    let cs: Vec<Value> = a.all_token_conditional_swaps().map(|c| if c.is_configured() { json!([1, n(c.id)]) } else { json!([0, 0]) }).collect();
    json!({"tp": tp, "s3": s3, "pp": pp, "oo": oo, "cs": cs})
}
/// the account as its bytes say
fn reread(a: &MangoAccountValue) -> Option<Value> {
    let mut b = bytemuck::bytes_of(&a.fixed).to_vec();
    b.extend_from_slice(&a.dynamic);
    MangoAccountValue::from_bytes(&b).ok().map(|x| slots(&x))
}
fn sides(b: bool) -> Side {
    if b {
        Side::Ask
    } else {
        Side::Bid
    }
}
fn resize(a: &mut MangoAccountValue, z: Sizes) -> anchor_lang::Result<Value> {
    let size = MangoAccount::space(z[0], z[1], z[2], z[3], z[4]) - 8 - std::mem::size_of::<MangoAccountFixed>();
    if size > a.dynamic.len() {
        a.dynamic.resize(size, 0);
    }
    a.resize_dynamic_content(z[0], z[1], z[2], z[3], z[4])?;
    a.dynamic.truncate(size);
    Ok(json!([n(size + 8 + std::mem::size_of::<MangoAccountFixed>()), reread(a).map(|x| x == slots(a)).unwrap_or(false) as i64]))
}
pub fn random(seed: u64, want: usize, o: &mut Out) {
    let mut r = Rng::new(seed * 32_452_843 + 17);
    let mut written = 0;
    while written < want {
        let z: Sizes = [r.below(5) as u8 + 1, r.below(4) as u8, r.below(4) as u8, r.below(7) as u8, r.below(4) as u8];
        let mut a = fresh(z);
        let mut market: Box<PerpMarket> = Box::new(bytemuck::Zeroable::zeroed());
        market.base_lot_size = 1;
        market.quote_lot_size = 1;
        market.stable_price_model = StablePriceModel::default();
        let mut next_id = 1u64;
        // orders ever placed: (market, slot, id, side)
        let mut seen: Vec<(u16, u8, u128, bool)> = vec![];
        for _ in 0..60 {
            let t = r.below(6) as u16;
            let m = r.below(4) as u16;
            let pm = r.below(2 + written as u64 % 2) as u16;
            let nt = a.all_token_positions().count() as u64;
            let np = a.all_perp_orders().count() as u64;
            let nc = a.all_token_conditional_swaps().count() as u64;
            market.perp_market_index = pm;
            let pre = slots(&a);
            let f = *r.pick(&[
                "tok_ensure", "tok_ensure", "tok_find", "tok_off", "tok_use", "tok_use", "tok_set", "s3_new", "s3_new", "s3_off", "s3_set", "perp_ensure", "perp_ensure", "perp_off", "perp_set", "order_add", "order_add", "order_add",
                "order_remove", "slot_next", "find_cid", "find_id", "maker", "maker", "out", "out", "taker", "unused", "tcs_free", "tcs_set", "tcs_set", "tcs_off", "tcs_by_id", "tcs_by_index", "resize", "resize",
            ]);
            let mut args = json!({});
            let mut run = |a: &mut MangoAccountValue, r: &mut Rng, args: &mut Value| -> anchor_lang::Result<Value> {
                Ok(match f {
                    "tok_ensure" => {
                        *args = json!({"t": t});
                        let (_, raw, act) = a.ensure_token_position(t)?;
                        json!([n(raw), n(act)])
                    }
                    "tok_find" => {
                        *args = json!({"t": t});
                        let (_, raw) = a.token_position_and_raw_index(t)?;
                        json!([n(raw)])
                    }
                    "tok_off" => {
                        let k = r.below(nt);
                        *args = json!({"k": k});
                        if !a.token_position_by_raw_index(k as usize)?.is_active() {
                            return Err(mango_v4::error::MangoError::TokenPositionDoesNotExist.into());
                        }
                        a.deactivate_token_position(k as usize);
                        json!([])
                    }
                    "tok_use" => {
                        let k = r.below(nt);
                        let up = r.chance(50);
                        *args = json!({"k": k, "up": up as i64});
                        if !a.token_position_by_raw_index(k as usize)?.is_active() {
                            return Err(mango_v4::error::MangoError::TokenPositionDoesNotExist.into());
                        }
                        let p = a.token_position_mut_by_raw_index(k as usize);
                        if up {
                            p.increment_in_use()
                        } else {
                            p.decrement_in_use()
                        }
                        json!([p.is_in_use() as i64])
                    }
                    "tok_set" => {
                        let x = r.below(2000) as i64 - 1000;
                        *args = json!({"t": t, "x": x});
                        a.token_position_mut(t)?.0.indexed_position = I80F48::from_num(x);
                        json!([])
                    }
                    "s3_new" => {
                        *args = json!({"m": m});
                        a.create_serum3_orders(m)?;
                        json!([])
                    }
                    "s3_off" => {
                        *args = json!({"m": m});
                        a.deactivate_serum3_orders(m)?;
                        json!([])
                    }
                    "s3_set" => {
                        let x = r.below(1000);
                        *args = json!({"m": m, "x": x});
                        a.serum3_orders_mut(m)?.potential_base_tokens = x;
                        json!([])
                    }
                    "perp_ensure" => {
                        *args = json!({"m": pm, "t": t});
                        let (_, raw) = a.ensure_perp_position(pm, t)?;
                        json!([n(raw)])
                    }
                    "perp_off" => {
                        *args = json!({"m": pm, "t": t});
                        a.deactivate_perp_position(pm, t)?;
                        json!([])
                    }
                    "perp_set" => {
                        let clear = r.chance(60);
                        let tb = if clear { 0 } else { r.below(4) as i64 - 2 };
                        let tq = if clear { 0 } else { r.below(4) as i64 - 2 };
                        *args = json!({"m": pm, "tb": tb, "tq": tq});
                        let p = a.perp_position_mut(pm)?;
                        p.taker_base_lots = tb;
                        p.taker_quote_lots = tq;
                        json!([])
                    }
                    "order_add" => {
                        let ask = r.chance(50);
                        let peg = r.chance(30);
                        let q = 1 + r.below(20) as i64;
                        let cid = r.below(4);
                        let id = ((100 + r.below(50)) as u128) << 64 | next_id as u128;
                        let slot = a.perp_next_order_slot()?;
                        next_id += 1;
                        *args = json!({"m": pm, "st": ask as i64 + 2 * peg as i64, "q": q, "cid": cid, "id": nu128(id)});
                        let leaf = LeafNode::new(slot as u8, id, Pubkey::default(), q, 0, PostOrderType::Limit, 0, -1, cid);
                        a.add_perp_order(pm, sides(ask), if peg { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed }, &leaf)?;
                        seen.push((pm, slot as u8, id, ask));
                        json!([n(slot)])
                    }
                    "order_remove" => {
                        let k = r.below(np + 2);
                        let q = r.below(8) as i64;
                        *args = json!({"k": k, "q": q});
                        a.remove_perp_order(k as usize, q)?;
                        json!([])
                    }
                    "slot_next" => json!([n(a.perp_next_order_slot()?)]),
                    "find_cid" => {
                        let cid = r.below(4);
                        *args = json!({"m": pm, "cid": cid});
                        json!([a.perp_find_order_with_client_order_id(pm, cid).map(|x| x.0 as i64).unwrap_or(-1)])
                    }
                    "find_id" => {
                        let id = if seen.is_empty() { 5 } else { seen[r.below(seen.len() as u64) as usize].2 };
                        *args = json!({"m": pm, "id": nu128(id)});
                        json!([a.perp_find_order_with_order_id(pm, id).map(|x| x.0 as i64).unwrap_or(-1)])
                    }
                    "maker" | "out" => {
                        let (om, slot, id, ask) = if seen.is_empty() || r.chance(10) { (pm, r.below(8) as u8, 77u128, r.chance(50)) } else { seen[r.below(seen.len() as u64) as usize] };
                        let om = if r.chance(8) { pm } else { om };
                        let id = if r.chance(10) { 0 } else { id };
                        let q = r.below(8) as i64;
                        market.perp_market_index = om;
                        if f == "maker" {
                            let gone = r.chance(40);
                            let px = 1 + r.below(20) as i64;
                            *args = json!({"m": om, "k": slot, "id": nu128(id), "ask": ask as i64, "q": q, "px": px, "gone": gone as i64});
                            let fill = FillEvent::new(sides(!ask), gone, slot, 0, 0, Pubkey::default(), id, 0, I80F48::ZERO, 0, Pubkey::default(), 0, I80F48::ZERO, px, q);
                            let g: Group = bytemuck::Zeroable::zeroed();
                            a.execute_perp_maker(om, &mut market, &fill, &g)?;
                        } else {
                            *args = json!({"m": om, "k": slot, "id": nu128(id), "ask": ask as i64, "q": q});
                            a.execute_perp_out_event(om, sides(ask), slot as usize, q, id)?;
                        }
                        json!([])
                    }
                    "taker" => {
                        let ask = r.chance(50);
                        let q = 1 + r.below(8) as i64;
                        let px = 1 + r.below(20) as i64;
                        *args = json!({"m": pm, "ask": ask as i64, "q": q, "px": px});
                        let fill = FillEvent::new(sides(ask), false, 0, 0, 0, Pubkey::default(), 9, 0, I80F48::ZERO, 0, Pubkey::default(), 0, I80F48::ZERO, px, q);
                        a.execute_perp_taker(pm, &mut market, &fill)?;
                        json!([])
                    }
                    "unused" => json!([a.find_first_active_unused_perp_position().map(|p| p.market_index as i64).unwrap_or(-1)]),
                    "tcs_free" => json!([n(a.token_conditional_swap_free_index()?)]),
                    "tcs_set" => {
                        let id = next_id;
                        *args = json!({"id": id});
                        next_id += 1;
                        let c = a.free_token_conditional_swap_mut()?;
                        c.set_is_configured(true);
                        c.id = id;
                        json!([])
                    }
                    "tcs_off" => {
                        let k = r.below(nc + 1);
                        *args = json!({"k": k});
                        *a.token_conditional_swap_mut_by_index(k as usize)? = TokenConditionalSwap::default();
                        json!([])
                    }
                    "tcs_by_id" => {
                        let id = r.below(next_id + 1);
                        *args = json!({"id": id});
                        json!([n(a.token_conditional_swap_by_id(id)?.0)])
                    }
                    "tcs_by_index" => {
                        let k = r.below(nc + 2);
                        *args = json!({"k": k});
                        let c = a.token_conditional_swap_by_index(k as usize)?;
                        json!([c.is_configured() as i64])
                    }
                    _ => {
                        let now = [nt as u8, a.all_serum3_orders().count() as u8, a.all_perp_positions().count() as u8, np as u8, nc as u8];
                        let mut z = now;
                        for _ in 0..(1 + r.below(4)) {
                            let k = r.below(5) as usize;
                            z[k] = match r.below(5) {
                                0 => now[k].saturating_sub(1 + r.below(3) as u8),
                                1 => now[k] + 1,
                                2 => r.below(if k < 3 { 9 } else { 12 }) as u8,
                                3 if k >= 3 => 63 + r.below(3) as u8,
                                3 => 8 + r.below(8) as u8,
                                _ => now[k] + r.below(3) as u8,
                            };
                        }
                        *args = json!({"z": z});
                        resize(a, z)?
                    }
                })
            };
            let mut b = a.clone();
            let res = catch_unwind(AssertUnwindSafe(|| run(&mut b, &mut r, &mut args)));
            let (e, res) = match res {
                Err(_) => (-1, json!([])),
                Ok(Err(e)) => (code(&e), json!([])),
                Ok(Ok(v)) => (0, v),
            };
            // a failing call fails its transaction: nothing of it stays
            if e == 0 {
                a = b;
            }
            emit(o, json!({"f": f, "args": args, "e": e, "res": res, "a": pre, "a2": slots(&a)}));
            written += 1;
        }
        // flags, counters, health decisions
        for _ in 0..10 {
            let fx = &mut a.fixed;
            fx.buyback_fees_accrued_current = if r.chance(10) { u64::MAX - r.below(5) } else { r.below(1000) };
            fx.buyback_fees_accrued_previous = r.below(1000);
            let iv = *r.pick(&[0u64, 1, 10, 3600]);
            let now = 1_000_000 + r.below(10_000);
            fx.buyback_fees_expiry_timestamp = *r.pick(&[0, now, now + 1, now.saturating_sub(1), now - iv.min(now), (now + 1).saturating_sub(iv), now + iv]);
            let before = json!([n(fx.buyback_fees_accrued_current), n(fx.buyback_fees_accrued_previous), n(fx.buyback_fees_expiry_timestamp)]);
            let f = *r.pick(&["fee_expire", "fee_expire", "fee_accrue", "fee_reduce", "recover", "post", "post", "strict"]);
            let amount = if r.chance(10) { u64::MAX } else { r.below(2000) };
            let one = 1i128 << 48;
            let h = |r: &mut Rng| -> i128 {
                let b = *r.pick(&[0, -one, one, -1000 * one, -1001 * one, 5000 * one, -5000 * one]);
                b + match r.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => -1,
                    3 => (r.next() >> 16) as i128,
                    _ => ((r.below(9)) as i128 - 4) * one + (r.next() >> 20) as i128,
                }
            };
            let (h0, h1) = (h(&mut r), h(&mut r));
            let h0 = if r.chance(50) { h1 + *r.pick(&[0, 1, -1, one, -one, one / 2, -one / 2]) } else { h0 };
            let bl = r.chance(50);
            a.fixed.set_being_liquidated(bl);
            let res = catch_unwind(AssertUnwindSafe(|| match f {
                "fee_expire" => {
                    a.fixed.expire_buyback_fees(now, iv);
                    0
                }
                "fee_accrue" => {
                    a.fixed.accrue_buyback_fees(amount);
                    0
                }
                "fee_reduce" => {
                    a.fixed.reduce_buyback_fees_accrued(amount);
                    0
                }
                "recover" => a.fixed.maybe_recover_from_being_liquidated(I80F48::from_bits(h1)) as i64,
                "post" => a.check_health_post_checks(I80F48::from_bits(h0), I80F48::from_bits(h1)).map(|_| 0).unwrap_or_else(|e| code(&e)),
                _ => a.check_health_post_checks_strict(I80F48::from_bits(h1)).map(|_| 0).unwrap_or_else(|e| code(&e)),
            }))
            .unwrap_or(-1);
            let fx = &a.fixed;
            emit(
                o,
                json!({"f": f, "args": {"now": n(now), "iv": n(iv), "n": n(amount), "h0": fb(I80F48::from_bits(h0)), "h1": fb(I80F48::from_bits(h1)), "bl": bl as i64}, "e": 0, "res": [res],
                "a": before, "a2": [n(fx.buyback_fees_accrued_current), n(fx.buyback_fees_accrued_previous), n(fx.buyback_fees_expiry_timestamp)], "sum": n(fx.buyback_fees_accrued()), "bl2": fx.being_liquidated() as i64}),
            );
            written += 1;
        }
    }
}
