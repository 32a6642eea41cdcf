//! Drives the order book feed's filter with histories of book sides and oracles over forking slots and records what
//! it publishes: `orderbook <seed> <worlds> <out>`.
#[path = "../../mirror/orderbook/src/orderbook_filter.rs"]
mod orderbook_filter;
use mango_feeds_connector::metrics;

use anchor_lang::Discriminator;
use fixed::types::I80F48;
use mango_feeds_connector::chain_data::{AccountData, ChainData, SlotData, SlotStatus};
use mango_feeds_connector::{AccountWrite, SlotUpdate};
use mango_feeds_lib::MarketConfig;
use mango_v4::state::*;
use serde_json::{json, Value};
use service_mango_orderbook::*;
use solana_sdk::account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

/// 32-bit integers as they are, others as decimal strings.
fn n<T: Into<i128>>(v: T) -> Value {
    let v: i128 = v.into();
    if v >= -2147483647 && v <= 2147483647 {
        json!(v as i64)
    } else {
        json!(v.to_string())
    }
}
/// A float as a multiple of 2^-48.
fn f(v: f64) -> Value {
    let x = v * 281474976710656.0;
    if x.is_finite() {
        n(x.round() as i128)
    } else {
        json!("170141183460469231731687303715884105727")
    }
}

fn key(i: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&i.to_le_bytes());
    Pubkey::new_from_array(b)
}

#[derive(Clone, Copy, PartialEq)]
struct Order {
    peg: bool,
    px: i64, // price or offset
    seq: u64,
    q: i64,
    who: u64,
    ts: u64,
    tif: u16,
    pl: i64,
}
/// The orders of one side; `bid`.
#[derive(Clone, PartialEq)]
struct Side_ {
    bid: bool,
    o: Vec<Order>,
}
impl Side_ {
    fn key(&self, o: &Order) -> u128 {
        let data = if o.peg { (o.px as u64).wrapping_add(1 << 63) } else { o.px as u64 };
        ((data as u128) << 64) | (if self.bid { !o.seq } else { o.seq }) as u128
    }
    fn data(&self) -> Vec<u8> {
        let mut b: Box<BookSide> = Box::new(bytemuck::Zeroable::zeroed());
        b.nodes.order_tree_type = if self.bid { OrderTreeType::Bids.into() } else { OrderTreeType::Asks.into() };
        for o in self.o.iter() {
            let l = LeafNode::new(0, self.key(o), key(o.who), o.q, o.ts, PostOrderType::Limit, o.tif, o.pl, 0);
            let t = if o.peg { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
            let _ = b.insert_leaf(t, &l);
        }
        let mut v = BookSide::discriminator().to_vec();
        v.extend_from_slice(bytemuck::bytes_of(&*b));
        v
    }
    fn slab(&self) -> Vec<u8> {
        let mut o: Vec<&Order> = self.o.iter().collect();
        o.sort_by_key(|o| self.key(o));
        let mut v = vec![0u8; 5 + 8];
        v.extend_from_slice(&(o.len() as u64).to_le_bytes());
        for x in o.iter() {
            v.extend_from_slice(&self.key(x).to_le_bytes());
            v.extend_from_slice(&(x.q as u64).to_le_bytes());
            v.extend_from_slice(&key(x.who).to_bytes());
        }
        v.extend_from_slice(&[0u8; 7]);
        v
    }
    fn json(&self) -> Value {
        let t: Vec<Value> = [false, true]
            .iter()
            .map(|peg| {
                let mut o: Vec<&Order> = self.o.iter().filter(|o| o.peg == *peg).collect();
                o.sort_by_key(|o| self.key(o));
                if self.bid {
                    o.reverse();
                }
                let o: Vec<Value> = o
                    .iter()
                    .map(|x| json!({"o": x.who, "px": n(x.px), "k": n(self.key(x) as u64), "q": n(x.q), "ts": n(x.ts), "tif": n(x.tif as i64), "pl": n(x.pl)}))
                    .collect();
                json!({"n": o.len(), "o": o})
            })
            .collect();
        json!({"fix": t[0], "peg": t[1]})
    }
}
fn oracle(price: I80F48, slot: u64, broken: bool) -> Vec<u8> {
    let mut o: StubOracle = bytemuck::Zeroable::zeroed();
    o.price = price;
    o.last_update_slot = slot;
    let mut v = StubOracle::discriminator().to_vec();
    if broken {
        v = vec![9; 8];
    }
    v.extend_from_slice(bytemuck::bytes_of(&o));
    v
}

struct Market {
    key: Pubkey,
    cfg: MarketConfig,
    spot: bool,
}
/// A market at a slot: both sides, oracle price and whether the oracle is readable.
#[derive(Clone)]
struct State {
    sides: [Side_; 2],
    px: I80F48,
    broken: bool,
}
struct Node {
    slot: u64,
    parent: Option<usize>,
    st: Vec<State>,
}

/// The operations of planned histories.
fn touches(x: &Value, account: usize) -> bool {
    let on = ["bBpx", "aAqy", "udz"][account];
    x["ops"].as_str().unwrap().chars().any(|c| on.contains(c))
}
impl State {
    fn act(&mut self, ops: &str, seq: &mut u64) {
        for c in ops.chars() {
            *seq += 1;
            let o = |peg, px, q, pl| Order { peg, px, seq: *seq, q, who: 1, ts: 1_000_000_000, tif: 0, pl };
            match c {
                'b' => self.sides[0].o.push(o(false, 18, 3, -1)),
                'B' => self.sides[0].o.push(o(false, 17, 2, -1)),
                'p' => self.sides[0].o.push(o(true, -2, 4, -1)),
                'a' => self.sides[1].o.push(o(false, 22, 3, -1)),
                'A' => self.sides[1].o.push(o(false, 23, 2, -1)),
                'q' => self.sides[1].o.push(o(true, 2, 4, 21)),
                'x' | 'y' => {
                    let s = &mut self.sides[if c == 'x' { 0 } else { 1 }];
                    if !s.o.is_empty() {
                        s.o.remove(0);
                    }
                }
                'u' => self.px = self.px * I80F48::from_num(1.06),
                'd' => self.px = self.px * I80F48::from_num(0.94),
                _ => {}
            }
            self.broken = c == 'z';
        }
    }
}
fn mutate(r: &mut Rng, s: &mut Side_, mid: i64, spot: bool, seq: &mut u64) {
    let k = 1 + r.below(4);
    for _ in 0..k {
        *seq += 1;
        let gap = 1 + r.below(6) as i64;
        match r.below(10) {
            0..=4 => {
                let peg = !spot && r.chance(35);
                let away = if r.chance(90) { gap } else { gap * 1000 };
                let d = if s.bid { -away } else { away };
                let px = if peg { d } else { (mid + d).max(1) };
                let pl = if peg && r.chance(40) { (mid + if s.bid { r.below(5) as i64 } else { -(r.below(5) as i64) }).max(1) } else { -1 };
                let (ts, tif) = match r.below(10) {
                    0 if !spot => (1_000_000_000, 1 + r.below(60000) as u16),
                    1 if !spot => (4_000_000_000, 1 + r.below(60000) as u16),
                    _ => (1_000_000_000, 0),
                };
                s.o.push(Order { peg, px, seq: *seq, q: 1 + r.below(5) as i64, who: r.below(3), ts, tif, pl });
            }
            5 if !s.o.is_empty() => {
                // the same again, by the same owner
                let k = r.below(s.o.len() as u64) as usize;
                let mut o = s.o[k];
                o.seq = *seq;
                s.o.push(o);
            }
            6 if !s.o.is_empty() => {
                let k = r.below(s.o.len() as u64) as usize;
                s.o[k].q = 1 + r.below(7) as i64;
            }
            7 if r.chance(10) => s.o.clear(),
            _ if !s.o.is_empty() => {
                let k = r.below(s.o.len() as u64) as usize;
                s.o.remove(k);
            }
            _ => {}
        }
    }
    while s.o.len() > 40 {
        s.o.remove(0);
    }
}

fn int(e: &Value) -> Value {
    e.as_u64().map(|x| n(x)).unwrap_or(json!(-1))
}
fn num(e: &Value) -> Value {
    e.as_f64().map(f).unwrap_or(json!(-1))
}

fn world(r: &mut Rng, case: Option<&Value>, w: u64, line: &mut u64, out: &mut impl Write) {
    tokio::reset();
    let first = *line + 1;
    let count = if case.is_some() { 1 } else { 1 + r.below(2) };
    let spots_n = if case.is_none() && r.chance(35) { 1 } else { 0 };
    let mut markets = vec![];
    for i in 0..count + spots_n {
        let spot = i >= count;
        markets.push(Market {
            key: key(1000 + i),
            cfg: MarketConfig {
                name: format!("M{}", i + 1),
                bids: key(1100 + i),
                asks: key(1200 + i),
                event_queue: key(1300 + i),
                oracle: if i == 1 && r.chance(30) { key(1400) } else { key(1400 + i) },
                base_decimals: [6, 6, 8, 9][r.below(4) as usize],
                quote_decimals: 6,
                base_lot_size: [1, 10, 100, 10_000, 1_000_000][r.below(5) as usize],
                quote_lot_size: [1, 10, 100, 1000][r.below(4) as usize],
            },
            spot,
        });
    }
    if markets[0].cfg.oracle == markets[1 % markets.len()].cfg.oracle && markets.len() > 1 && !markets[1].spot {
        let c = markets[0].cfg.clone();
        markets[1].cfg.base_decimals = c.base_decimals;
        markets[1].cfg.base_lot_size = c.base_lot_size;
        markets[1].cfg.quote_lot_size = c.quote_lot_size;
    }
    let perps: Vec<_> = markets.iter().filter(|m| !m.spot).map(|m| (m.key, m.cfg.clone())).collect();
    let spots: Vec<_> = markets.iter().filter(|m| m.spot).map(|m| (m.key, m.cfg.clone())).collect();
    let keys: HashMap<String, usize> = markets.iter().enumerate().map(|(i, m)| (m.key.to_string(), i + 1)).collect();
    let names: HashMap<String, u64> = (0..6).map(|i| (key(i).to_string(), i)).collect();
    let (tx, stx, rx) = tokio::block_on(orderbook_filter::init(perps, spots, metrics::Metrics::default(), Arc::new(AtomicBool::new(false)))).unwrap();

    let mut seq = 1u64;
    let base_slot = 100 + r.below(1000);
    let mut mids = vec![];
    let mut st = vec![];
    for (i, m) in markets.iter().enumerate() {
        let mid = if case.is_some() { 20 } else { [20i64, 1000, 123_457, 3][r.below(4) as usize] };
        let mid = if i == 1 && !m.spot && m.cfg.oracle == markets[0].cfg.oracle { mids[0] } else { mid };
        mids.push(mid);
        let mut s = State {
            sides: [Side_ { bid: true, o: vec![] }, Side_ { bid: false, o: vec![] }],
            px: I80F48::from_num(mid as f64 * m.cfg.quote_lot_size as f64 / m.cfg.base_lot_size as f64 * 1.0001),
            broken: false,
        };
        for k in 0..2 {
            if case.is_some() {
                s.act(if k == 0 { "b" } else { "a" }, &mut seq);
                s.act(if k == 0 { "p" } else { "q" }, &mut seq);
                continue;
            }
            for _ in 0..r.below(4) {
                mutate(r, &mut s.sides[k], mid, m.spot, &mut seq);
            }
        }
        st.push(s);
    }
    let mut nodes = vec![Node { slot: base_slot, parent: None, st: st.clone() }];
    let mut msgs: Vec<(Option<AccountWrite>, Option<SlotUpdate>)> = vec![];
    let mut sent: Vec<AccountWrite> = vec![];
    // what each written account holds, by its bytes
    let mut snaps: Vec<Value> = vec![];
    let mut snap_ids: HashMap<(Pubkey, Vec<u8>), usize> = HashMap::new();
    let mut tip = 0usize;
    let mut max_slot = base_slot;
    let mut version = 10u64;
    let steps = match case {
        Some(c) => c["slots"].as_array().unwrap().len() as u64,
        None => 10 + r.below(14),
    };
    for step in 0..=steps {
        let planned = if step > 0 { case.map(|c| &c["slots"][step as usize - 1]) } else { None };
        if let Some(x) = planned {
            let at = x["p"].as_u64().unwrap() as usize - 1;
            max_slot += 1;
            let mut s = nodes[at].st.clone();
            s[0].act(x["ops"].as_str().unwrap(), &mut seq);
            nodes.push(Node { slot: max_slot, parent: Some(at), st: s });
            tip = nodes.len() - 1;
        } else if step > 0 {
            let mut at = tip;
            if r.chance(20) {
                for _ in 0..1 + r.below(3) {
                    at = nodes[at].parent.unwrap_or(at);
                }
            }
            max_slot += 1 + r.below(2);
            let s = nodes[at].st.clone();
            nodes.push(Node { slot: max_slot, parent: Some(at), st: s });
            tip = nodes.len() - 1;
        }
        let slot = nodes[tip].slot;
        let su = SlotUpdate { slot, parent: nodes[tip].parent.map(|p| nodes[p].slot), status: SlotStatus::Processed };
        let late = case.is_none() && r.chance(25);
        if !late {
            msgs.push((None, Some(su.clone())));
        }
        for _ in 0..if step == 0 || case.is_some() { 1 } else { 1 + r.below(2) } {
            for (i, m) in markets.iter().enumerate() {
                let mut ws: Vec<(Pubkey, Vec<u8>, Value, Pubkey)> = vec![];
                // oracle
                if !m.spot && (step == 0 || planned.map(|x| touches(x, 2)).unwrap_or_else(|| r.chance(35))) && !(i == 1 && m.cfg.oracle == markets[0].cfg.oracle) {
                    let s = &mut nodes[tip].st[i];
                    if step > 0 && case.is_none() && r.chance(70) {
                        let up = 1.0 + (r.below(2001) as f64 - 1000.0) / if r.chance(80) { 30_000.0 } else { 2500.0 };
                        s.px = I80F48::from_num(s.px.to_num::<f64>() * up).max(I80F48::from_num(1e-9));
                    }
                    if case.is_none() {
                        s.broken = step > 0 && r.chance(6);
                    }
                    let v = if s.broken { json!({"ok":0}) } else { json!({"ok":1,"px":n(s.px.to_bits())}) };
                    ws.push((m.cfg.oracle, oracle(s.px, slot * 8 + version % 8, s.broken), v, mango_v4::id()));
                }
                for k in 0..2 {
                    if step == 0 || planned.map(|x| touches(x, k)).unwrap_or_else(|| r.chance(40)) {
                        if step > 0 && case.is_none() && r.chance(85) {
                            mutate(r, &mut nodes[tip].st[i].sides[k], mids[i], m.spot, &mut seq);
                        }
                        let s = &nodes[tip].st[i].sides[k];
                        let pk = if k == 0 { m.cfg.bids } else { m.cfg.asks };
                        ws.push((pk, if m.spot { s.slab() } else { s.data() }, s.json(), if m.spot { key(5555) } else { mango_v4::id() }));
                    }
                }
                if case.is_none() && r.chance(50) {
                    ws.reverse();
                }
                for (pk, data, v, owner) in ws {
                    version += 1 + r.below(2);
                    let id = (pk, data.clone());
                    if !snap_ids.contains_key(&id) {
                        snaps.push(v);
                        snap_ids.insert(id, snaps.len());
                    }
                    let a = AccountWrite { pubkey: pk, slot, write_version: version, lamports: 1, owner, executable: false, rent_epoch: 0, data, is_selected: true };
                    sent.push(a.clone());
                    msgs.push((Some(a), None));
                }
            }
        }
        if late {
            msgs.push((None, Some(su)));
        }
        if planned.is_some() {
            continue;
        }
        if r.chance(10) && !sent.is_empty() {
            let k = r.below(sent.len() as u64) as usize;
            msgs.push((Some(sent[k].clone()), None));
        }
        if r.chance(5) && !sent.is_empty() {
            let mut x = sent[sent.len() - 1].clone();
            x.pubkey = key(7777);
            msgs.push((Some(x), None));
        }
        if r.chance(20) || step == 0 {
            let mut at = tip;
            for _ in 0..if step == 0 { 0 } else { 2 + r.below(3) } {
                at = nodes[at].parent.unwrap_or(at);
            }
            msgs.push((None, Some(SlotUpdate { slot: nodes[at].slot, parent: nodes[at].parent.map(|p| nodes[p].slot), status: if r.chance(70) || step == 0 { SlotStatus::Rooted } else { SlotStatus::Confirmed } })));
        }
    }
    let mut mirror = ChainData::new();
    let mut alive = true;
    let mut lines: Vec<Value> = vec![];
    for (aw, su) in msgs {
        if let Some(a) = &aw {
            if a.pubkey != key(7777) {
                mirror.update_account(a.pubkey, AccountData { slot: a.slot, write_version: a.write_version, account: AccountSharedData::create(a.lamports, a.data.clone(), a.owner, false, 0) });
            }
            tx.try_send(a.clone()).unwrap();
        }
        if let Some(s) = &su {
            mirror.update_slot(SlotData { slot: s.slot, parent: s.parent, status: s.status, chain: 0 });
            stx.try_send(s.clone()).unwrap();
        }
        alive = tokio::run_until_idle() && alive;
        let market = |v: &Value| v.as_str().and_then(|x| keys.get(x)).copied().unwrap_or(0);
        let levels = |v: &Value| -> Vec<Value> { v.as_array().map(|a| a.iter().map(|l| json!({"px": num(&l[0]), "q": num(&l[1])})).collect()).unwrap_or_default() };
        let orders = |v: &Value| -> Vec<Value> {
            v.as_array()
                .map(|a| a.iter().map(|o| json!({"px": num(&o["price"]), "q": num(&o["quantity"]), "o": o["ownerPubkey"].as_str().and_then(|x| names.get(x)).map(|x| *x as i64).unwrap_or(-1)})).collect())
                .unwrap_or_default()
        };
        let mut out_msgs = vec![];
        while let Ok(m) = rx.try_recv() {
            let (y, v) = match &m {
                OrderbookFilterMessage::LevelUpdate(x) => ("lvl", serde_json::to_value(x).unwrap()),
                OrderbookFilterMessage::LevelCheckpoint(x) => ("lchk", serde_json::to_value(x).unwrap()),
                OrderbookFilterMessage::BookUpdate(x) => ("book", serde_json::to_value(x).unwrap()),
                OrderbookFilterMessage::BookCheckpoint(x) => ("bchk", serde_json::to_value(x).unwrap()),
            };
            let mut j = json!({"y": y, "m": market(&v["market"]), "slot": int(&v["slot"]), "v": int(&v["write_version"])});
            match y {
                "lvl" => {
                    j["side"] = v["side"].clone();
                    j["up"] = json!(levels(&v["update"]));
                }
                "book" => {
                    j["side"] = v["side"].clone();
                    j["add"] = json!(orders(&v["additions"]));
                    j["rem"] = json!(orders(&v["removals"]));
                }
                "lchk" => {
                    j["bids"] = json!(levels(&v["bids"]));
                    j["asks"] = json!(levels(&v["asks"]));
                }
                _ => {
                    j["bids"] = json!(orders(&v["bids"]));
                    j["asks"] = json!(orders(&v["asks"]));
                }
            }
            out_msgs.push(j);
        }
        let see = |pk: &Pubkey| match mirror.account(pk) {
            Err(_) => json!({"on":0}),
            Ok(a) => json!({"on":1,"slot":n(a.slot),"v":n(a.write_version),"q":snap_ids[&(*pk, a.account.data().to_vec())]}),
        };
        let s: Vec<Value> = markets.iter().map(|m| json!({"s":[see(&m.cfg.bids),see(&m.cfg.asks)],"ora":if m.spot {json!({"on":0})} else {see(&m.cfg.oracle)}})).collect();
        lines.push(json!({"w":w,"y":"step","w0":first,"s":s,"out":out_msgs,"alive":if alive {1} else {0}}));
    }
    let ms: Vec<Value> = markets
        .iter()
        .map(|m| json!({"name":m.cfg.name,"spot":if m.spot {1} else {0},"bd":m.cfg.base_decimals,"qd":m.cfg.quote_decimals,"bl":n(m.cfg.base_lot_size),"ql":n(m.cfg.quote_lot_size)}))
        .collect();
    writeln!(out, "{}", json!({"w":w,"y":"world","w0":first,"markets":ms,"snaps":snaps})).unwrap();
    for l in lines.iter() {
        writeln!(out, "{}", l).unwrap();
    }
    *line += 1 + lines.len() as u64;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SIM_VERBOSE").is_ok() {
            eprintln!("{}", i)
        }
    }));
    let mut r = Rng(a[1].parse().unwrap_or(1));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    let mut line = 0;
    if a[1].parse::<u64>().is_err() {
        for (w, c) in std::fs::read_to_string(&a[1]).unwrap().lines().enumerate() {
            world(&mut r, Some(&serde_json::from_str(c).unwrap()), w as u64 + 1, &mut line, &mut out);
        }
        return;
    }
    for w in 1..=a[2].parse::<u64>().unwrap() {
        world(&mut r, None, w, &mut line, &mut out);
    }
}
