//! One side of an order book: histories of insertions, removals, expiries and evictions, with everything observable
//! after each step.  A case: {side, all (emit every step, else the last), ops:[{f:"ins",tree,px,seq,q,ts,tif,pl} |
//! {f:"del",tree,px,seq} | {f:"exp",tree,now} | {f:"worst",now,ora}], now, ora, lim, qty (for the queries)}
use crate::gen::Rng;
use crate::state::{n, new_side, nu128, raw_leaves, side_orders};
use crate::unit::{emit, Out};
use mango_v4::state::*;
use serde_json::{json, Value};

fn side_of(i: i64) -> Side {
    if i == 0 {
        Side::Bid
    } else {
        Side::Ask
    }
}
fn dup(b: &BookSide) -> Box<BookSide> {
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::new::<BookSide>()) as *mut BookSide;
        std::ptr::copy_nonoverlapping(b, p, 1);
        Box::from_raw(p)
    }
}
fn comp(t: i64) -> BookSideOrderTree {
    if t == 0 {
        BookSideOrderTree::Fixed
    } else {
        BookSideOrderTree::OraclePegged
    }
}
fn key(side: Side, tree: i64, px: i64, seq: u64) -> u128 {
    let pd = if tree == 0 { fixed_price_data(px).unwrap() } else { oracle_pegged_price_data(px) };
    new_node_key(side, pd, seq)
}
/// what the side answers: iteration, lookups, capacity
fn answers(b: &BookSide, now: u64, ora: i64, lim: i64, qty: i64, room: bool) -> Value {
    let mut iters = vec![];
    for r in 0..2 {
        iters.push(Value::from(b.nodes.iter(&b.roots[r]).map(|(_, l)| nu128(l.key)).collect::<Vec<_>>()));
    }
    let all: Vec<Value> = b.iter_all_including_invalid(now, ora).map(|i| json!([nu128(i.node.key), n(i.price_lots), i.is_valid() as i64, i.handle.order_tree as i64])).collect();
    let valid: Vec<Value> = b.iter_valid(now, ora).map(|i| nu128(i.node.key)).collect();
    let mut found = vec![];
    let mut early = vec![];
    for r in 0..2 {
        let t = if r == 0 { BookSideOrderTree::Fixed } else { BookSideOrderTree::OraclePegged };
        // each order is found by its key, and only it goes
        let mut ok = 0i64;
        let keys: Vec<u128> = b.nodes.iter(&b.roots[r]).map(|(_, l)| l.key).collect();
        for k in &keys {
            if keys.len() > 24 && (k ^ (k >> 64)) % 7 != 0 {
                ok += 1;
                continue;
            }
            let mut c = dup(b);
            let got = c.remove_by_key(t, *k);
            let left: Vec<u128> = c.nodes.iter(&c.roots[r]).map(|(_, l)| l.key).collect();
            let want: Vec<u128> = keys.iter().copied().filter(|x| x != k).collect();
            if got.map(|l| l.key) == Some(*k) && left == want {
                ok += 1;
            }
        }
        found.push(n(ok));
        early.push(match b.nodes.find_earliest_expiry(&b.roots[r]) {
            Some((h, e)) => json!([b.nodes.node(h).and_then(|x| x.key()).map(nu128).unwrap_or(n(-1)), n(e)]),
            None => json!([-1, -1]),
        });
    }
    let mut m = json!({"iter": iters, "all": all, "valid": valid, "found": found, "early": early, "full": b.is_full() as i64,
        "qat": n(b.quantity_at_price(lim, now, ora)), "best": n(b.best_price(now, ora).unwrap_or(-1)), "imp": n(b.impact_price(qty, now, ora).unwrap_or(-1)),
        "amt": b.matched_amount(qty, now, ora).map(n).unwrap_or(n(-1))});
    if room {
        // how many more orders fit
        let mut c = dup(b);
        let mut k = 0;
        let side = c.side();
        loop {
            let l = LeafNode::new(0, key(side, 0, 1 << 40, 77_000_000 + k), Default::default(), 1, 0, PostOrderType::Limit, 0, -1, 0);
            match c.insert_leaf(BookSideOrderTree::Fixed, &l) {
                Ok(_) => k += 1,
                Err(_) => break,
            }
            if k > 2000 {
                break;
            }
        }
        m["room"] = n(k);
    } else {
        m["room"] = n(-1);
    }
    m
}
fn int(v: &Value) -> i64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_i64().unwrap(),
    }
}
fn apply(b: &mut BookSide, op: &Value) -> Value {
    let side = b.side();
    let one = |l: Option<LeafNode>| l.map(|l| nu128(l.key)).unwrap_or(n(-1));
    let g = |k: &str| int(&op[k]);
    match op["f"].as_str().unwrap() {
        "ins" => {
            let t = g("tree");
            let l = LeafNode::new(
                (g("seq") % 200) as u8,
                key(side, t, g("px"), g("seq") as u64),
                solana_program::pubkey::Pubkey::new_from_array([(g("seq") % 250) as u8; 32]),
                g("q"),
                g("ts") as u64,
                PostOrderType::Limit,
                g("tif") as u16,
                g("pl"),
                g("seq") as u64 + 5,
            );
            match b.insert_leaf(comp(t), &l) {
                Ok((h, old)) => json!({"ok": 1, "out": one(old), "at": b.nodes.node(h).and_then(|x| x.as_leaf()).map(|l| nu128(l.key)).unwrap_or(n(-1)), "id": nu128(l.key), "px": -1}),
                Err(_) => json!({"ok": 0, "out": -1, "at": -1, "id": nu128(l.key), "px": -1}),
            }
        }
        "del" => {
            let k = key(side, g("tree"), g("px"), g("seq") as u64);
            json!({"ok": 1, "out": one(b.remove_by_key(comp(g("tree")), k)), "id": nu128(k), "at": -1, "px": -1})
        }
        "exp" => json!({"ok": 1, "out": one(b.remove_one_expired(comp(g("tree")), g("now") as u64)), "id": -1, "at": -1, "px": -1}),
        "worst" => {
            let r = b.remove_worst(g("now") as u64, g("ora"));
            json!({"ok": 1, "out": one(r.map(|x| x.0)), "px": n(r.map(|x| x.1).unwrap_or(-1)), "id": -1, "at": -1})
        }
        f => panic!("{}", f),
    }
}
/// a panic is an observation too
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    std::panic::set_hook(h);
    r
}
fn line(o: &mut Out, side: i64, op: &Value, pre: Value, b: &BookSide, res: Option<Value>, q: &Value, room: bool) {
    let a = guarded(|| answers(b, int(&q["now"]) as u64, int(&q["ora"]), int(&q["lim"]), int(&q["qty"]), room));
    let post = guarded(|| side_orders(b));
    let whole = res.is_some() && a.is_some() && post.is_some();
    emit(
        o,
        json!({"k": "tree", "side": side, "op": op, "pre": pre, "post": post.unwrap_or(json!(0)), "res": res.unwrap_or(json!(0)), "ans": a.unwrap_or(json!(0)), "q": q, "whole": whole as i64}),
    );
}

pub fn replay(cs: &[Value], o: &mut Out) {
    for c in cs {
        let side = int(&c["side"]);
        let mut b = new_side(side_of(side));
        let ops = c["ops"].as_array().unwrap();
        for (i, op) in ops.iter().enumerate() {
            let wanted = i + 1 == ops.len() || c["all"] == 1;
            let pre = if wanted { side_orders(&b) } else { json!(0) };
            let res = guarded(|| apply(&mut b, op));
            if wanted || res.is_none() {
                let pre = if wanted { pre } else { side_orders(&b) };
                line(o, side, op, pre, &b, res.clone(), c, i + 1 == ops.len());
            }
            if res.is_none() {
                break;
            }
        }
    }
}

/// long histories: growing and shrinking phases, clustered keys; near capacity only some steps are recorded
pub fn random(seed: u64, lines: usize, big: bool, o: &mut Out) {
    let mut r = Rng::new(seed);
    let mut written = 0;
    while written < lines {
        let side = r.below(2) as i64;
        let mut b = new_side(side_of(side));
        let steps = if big { 1500 } else { 20 + r.below(160) };
        let mut live: Vec<(i64, i64, u64)> = vec![];
        let style = r.below(5);
        let mut seq = r.below(3) * 1_000_000_007;
        let pegs = *r.pick(&[0u64, 10, 50, 100]);
        let tifs = *r.pick(&[0u64, 30, 100]);
        let mut now = 1000u64;
        let mut grow = true;
        let mut full_seen = 0;
        for _ in 0..steps {
            if r.chance(4) && !big {
                grow = !grow;
            }
            if big && full_seen > 3 {
                grow = false;
                if live.len() < 420 {
                    full_seen = 0;
                }
            } else if big {
                grow = true;
            }
            now += r.below(3);
            seq += if r.chance(90) { 1 } else { r.below(1000) };
            let ora = *r.pick(&[100i64, 1, 50, 1 << 20, 1 << 36]);
            let ins = r.chance(if grow { 75 } else { 30 });
            let op = if ins || live.is_empty() {
                let tree = r.chance(pegs) as i64;
                let px = match style {
                    0 => 90 + r.below(20) as i64,
                    1 => 1 + r.below(4) as i64,
                    2 => 1i64 << r.below(36),
                    3 => 1 + (r.below(1 << 30) as i64),
                    _ => 128 - r.below(3) as i64 + (r.below(3) << 32) as i64,
                };
                let px = if tree == 1 { if r.chance(50) { px - 100 } else { -px } } else { px };
                let ts = now - r.below(30);
                let tif = if r.chance(tifs) { 1 + r.below(60) } else { 0 };
                let pl = if tree == 1 && r.chance(30) { 90 + r.below(30) as i64 } else { -1 };
                if r.chance(2) && !live.is_empty() {
                    let x = *r.pick(&live);
                    json!({"f": "ins", "tree": x.0, "px": n(x.1), "seq": n(x.2), "q": 1 + r.below(50), "ts": ts, "tif": tif, "pl": pl})
                } else {
                    json!({"f": "ins", "tree": tree, "px": n(px), "seq": n(seq), "q": 1 + r.below(50), "ts": ts, "tif": tif, "pl": pl})
                }
            } else {
                match r.below(10) {
                    0 => json!({"f": "exp", "tree": r.below(2), "now": now}),
                    1 => json!({"f": "worst", "now": now, "ora": n(ora)}),
                    2 => json!({"f": "del", "tree": r.below(2), "px": 3 + r.below(90), "seq": n(seq)}),
                    _ => {
                        let x = *r.pick(&live);
                        json!({"f": "del", "tree": x.0, "px": n(x.1), "seq": n(x.2)})
                    }
                }
            };
            let rec = !big || r.chance(if full_seen > 0 || live.len() > 505 { 12 } else { 1 });
            let pre = if rec { side_orders(&b) } else { json!(0) };
            let res = guarded(|| apply(&mut b, &op));
            if big && op["f"] == "ins" && res.as_ref().map(|x| x["ok"] == 0) == Some(true) {
                full_seen += 1;
            }
            let stop = res.is_none();
            if rec || stop {
                let pre = if rec { pre } else { side_orders(&b) };
                let q = json!({"now": now, "ora": n(ora), "lim": n(*r.pick(&[1i64, 95, 100, 110, 1 << 20])), "qty": 1 + r.below(300)});
                line(o, side, &op, pre, &b, res, &q, big || r.chance(20));
                written += 1;
            }
            if stop {
                break;
            }
            // what lives according to the stored tree
            live.clear();
            for t in 0..2 {
                raw_leaves(&b, t, &mut |l| {
                    let pd = (l.key >> 64) as u64;
                    let px = if t == 1 { oracle_pegged_price_offset(pd) } else { pd as i64 };
                    let s = if side == 0 { !(l.key as u64) } else { l.key as u64 };
                    live.push((t as i64, px, s));
                });
            }
        }
    }
}
