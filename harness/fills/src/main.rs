//! Drives the fills feed's event filter with histories of event queue snapshots over forking slots and records what
//! it publishes: `fills <seed> <worlds> <out>`.
#[path = "../../mirror/fills/src/fill_event_filter.rs"]
mod fill_event_filter;
use mango_feeds_connector::metrics;

use anchor_lang::Discriminator;
use fixed::types::I80F48;
use mango_feeds_connector::chain_data::{AccountData, ChainData, SlotData, SlotStatus};
use mango_feeds_connector::{AccountWrite, SlotUpdate};
use mango_feeds_lib::MarketConfig;
use mango_v4::state::*;
use serde_json::{json, Value};
use service_mango_fills::*;
use solana_sdk::account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

/// 32-bit integers as they are, others as decimal strings.
fn n<T: Into<i128>>(v: T) -> Value {
    let v: i128 = v.into();
    if v >= -2147483647 && v <= 2147483647 {
        json!(v as i64)
    } else {
        json!(v.to_string())
    }
}
/// A float as a multiple of 2^-48.
fn f(v: f64) -> Value {
    let x = v * 281474976710656.0;
    if x.is_finite() {
        n(x.round() as i128)
    } else {
        json!("170141183460469231731687303715884105727")
    }
}

fn key(i: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&i.to_le_bytes());
    Pubkey::new_from_array(b)
}

#[derive(Clone)]
struct Queue(Box<EventQueue>);
impl Queue {
    fn new() -> Self {
        Queue(Box::new(bytemuck::Zeroable::zeroed()))
    }
    /// One of a few fixed events, or consumes one.
    fn act(&mut self, o: char) {
        let s = self.0.header.seq_num;
        if o == '-' || self.0.full() {
            if !self.0.is_empty() {
                let _ = self.0.pop_front();
            }
        }
        let fill = |px: i64| {
            mango_v4::state::FillEvent::new(Side::Bid, false, 0, 1_700_000_000, s, key(1), 1, 7, I80F48::ZERO, 1, key(2), 9, I80F48::ZERO, px, 5)
        };
        let e: AnyEvent = match o {
            'A' => bytemuck::cast(fill(10)),
            'B' => bytemuck::cast(fill(11)),
            'O' => bytemuck::cast(OutEvent::new(Side::Bid, 0, 1_700_000_000, s, key(1), 5, 1)),
            _ => return,
        };
        let _ = self.0.push_back(e);
    }
    fn data(&self) -> Vec<u8> {
        let mut v = EventQueue::discriminator().to_vec();
        v.extend_from_slice(bytemuck::bytes_of(&*self.0));
        v
    }
}

struct Defs {
    ids: HashMap<Vec<u8>, usize>,
    recs: Vec<Value>,
    names: HashMap<String, usize>,
}
impl Defs {
    fn of(&mut self, e: &AnyEvent) -> usize {
        let bytes = bytemuck::bytes_of(e).to_vec();
        if let Some(i) = self.ids.get(&bytes) {
            return *i;
        }
        let rec = if e.event_type == EventType::Fill as u8 {
            let e: FillEvent_ = bytemuck::cast(*e);
            json!({"y":"fill","mk":self.names[&e.maker.to_string()],"t":self.names[&e.taker.to_string()],
                "ts":if e.taker_side() == Side::Bid {0} else {1},"at":n(e.timestamp),"seq":n(e.seq_num),
                "mc":n(e.maker_client_order_id),"tc":n(e.taker_client_order_id),
                "mf":f(e.maker_fee as f64),"tf":f(e.taker_fee as f64),"px":n(e.price),"q":n(e.quantity)})
        } else {
            json!({"y":"out"})
        };
        self.recs.push(rec);
        self.ids.insert(bytes, self.recs.len());
        self.recs.len()
    }
}
type FillEvent_ = mango_v4::state::FillEvent;

struct Market {
    key: Pubkey,
    cfg: MarketConfig,
    spot: bool,
}
#[derive(Clone)]
struct Node {
    slot: u64,
    parent: Option<usize>,
    q: Vec<Queue>,
    writes: Vec<(usize, u64, Queue)>,
}

fn random_event(r: &mut Rng, seq: u64, people: u64, calm: bool) -> AnyEvent {
    let variety = if calm { 2 } else { 1000 };
    if r.chance(30) {
        bytemuck::cast(OutEvent::new(
            if r.chance(50) { Side::Bid } else { Side::Ask },
            r.below(8) as u8,
            1_700_000_000 + r.below(variety),
            seq,
            key(r.below(people)),
            1 + r.below(variety) as i64,
            r.below(variety) as u128,
        ))
    } else {
        let px = [1, 3, 999, 123_457, 2_000_000_011][r.below(5) as usize] + r.below(variety) as i64;
        bytemuck::cast(mango_v4::state::FillEvent::new(
            if r.chance(50) { Side::Bid } else { Side::Ask },
            r.chance(50),
            r.below(8) as u8,
            1_700_000_000 + r.below(variety),
            seq,
            key(r.below(people)),
            ((px as u128) << 64) + r.below(variety) as u128,
            r.below(variety),
            I80F48::from_num(-0.0003 + 0.0001 * (r.below(8) as f64)),
            1_600_000_000 + r.below(variety),
            key(r.below(people)),
            r.below(variety) * 1_000_003,
            I80F48::from_num(0.0001 * (r.below(9) as f64)),
            px,
            1 + r.below(if calm { 2 } else { 3_000_000 }) as i64,
        ))
    }
}

/// A published fill as clients read it.
fn fill(d: &Defs, e: &Value) -> Value {
    let name = |k: &str| e[k].as_str().and_then(|x| d.names.get(x)).map(|x| *x as i64).unwrap_or(-1);
    let int = |k: &str| e[k].as_u64().map(|x| n(x)).unwrap_or(json!(-1));
    let num = |k: &str| e[k].as_f64().map(f).unwrap_or(json!(-1));
    let at = e["timestamp"].as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).map(|t| n(t.timestamp())).unwrap_or(json!(-1));
    json!({"y": e["eventType"], "mk": name("maker"), "t": name("taker"), "ts": e["takerSide"], "at": at, "seq": int("seqNum"),
        "mc": int("makerClientOrderId"), "tc": int("takerClientOrderId"),
        "mf": num("makerFee"), "tf": num("takerFee"), "px": num("price"), "q": num("quantity")})
}
fn int(e: &Value) -> Value {
    e.as_u64().map(|x| n(x)).unwrap_or(json!(-1))
}

fn world(r: &mut Rng, case: Option<&Value>, w: u64, line: &mut u64, out: &mut impl Write) {
    tokio::reset();
    let first = *line + 1;
    let people = 6;
    let mut defs = Defs { ids: HashMap::new(), recs: vec![], names: HashMap::new() };
    for i in 0..people {
        defs.names.insert(key(i).to_string(), i as usize + 1);
    }
    let count = if case.is_some() { 1 } else { 1 + r.below(2) };
    let mut markets = vec![];
    for i in 0..count {
        markets.push(Market {
            key: key(1000 + i),
            cfg: MarketConfig {
                name: format!("M{}", i + 1),
                bids: key(1100 + i),
                asks: key(1200 + i),
                event_queue: key(1300 + i),
                oracle: key(1400 + i),
                base_decimals: [6, 6, 8, 9][r.below(4) as usize],
                quote_decimals: 6,
                base_lot_size: [1, 10, 100, 10_000, 1_000_000][r.below(5) as usize],
                quote_lot_size: [1, 10, 100, 1000][r.below(4) as usize],
            },
            spot: false,
        });
    }
    if case.is_none() && r.chance(25) {
        let mut cfg = markets[0].cfg.clone();
        cfg.name = "S".into();
        cfg.event_queue = key(1399);
        markets.push(Market { key: key(1099), cfg, spot: true });
    }
    let perps: Vec<_> = markets.iter().filter(|m| !m.spot).map(|m| (m.key, m.cfg.clone())).collect();
    let spots: Vec<_> = markets.iter().filter(|m| m.spot).map(|m| (m.key, m.cfg.clone())).collect();
    let keys: HashMap<String, usize> = markets.iter().enumerate().map(|(i, m)| (m.key.to_string(), i + 1)).collect();
    let queues: HashMap<String, usize> = markets.iter().enumerate().map(|(i, m)| (m.cfg.event_queue.to_string(), i + 1)).collect();
    let market = |v: &Value| v.as_str().and_then(|x| keys.get(x)).copied().unwrap_or(0);
    let queue = |v: &Value| v.as_str().and_then(|x| queues.get(x)).copied().unwrap_or(0);
    let (tx, stx, rx) = tokio::block_on(fill_event_filter::init(
        perps,
        spots,
        metrics::Metrics::default(),
        Arc::new(AtomicBool::new(false)),
    ))
    .unwrap();
    let calm = r.chance(30);
    // initial queues: fresh, partly filled, wrapped
    let base_slot = 100 + r.below(1000);
    let mut q0 = vec![];
    for _ in 0..count {
        let mut q = Queue::new();
        if let Some(c) = case {
            for k in 0..c["start"].as_u64().unwrap() {
                q.act(if k % 2 == 0 { 'A' } else { 'B' });
                q.act('-');
            }
            q0.push(q);
            continue;
        }
        let total = match r.below(7) {
            0 => 0,
            1 => 1 + r.below(4),
            2 => 480 + r.below(16),
            3 => 970 + r.below(10),
            4 => 488,
            _ => r.below(60),
        };
        for _ in 0..total {
            let s = q.0.header.seq_num;
            if q.0.full() || r.chance(70) && q.0.len() > 5 {
                let _ = q.0.pop_front();
            }
            let _ = q.0.push_back(random_event(r, s, people, calm));
        }
        let keep = if r.chance(50) { 0 } else { r.below(6) as usize };
        while q.0.len() > keep {
            let _ = q.0.pop_front();
        }
        q0.push(q);
    }
    let mut nodes = vec![Node { slot: base_slot, parent: None, q: q0.clone(), writes: q0.iter().enumerate().map(|(i, q)| (i, 1, q.clone())).collect() }];
    let mut mirror = ChainData::new();
    let mut snaps: Vec<Value> = vec![];
    let mut snap_ids: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut lines: Vec<Value> = vec![];
    let mut tip = 0usize;
    let mut max_slot = base_slot;
    let mut sent: Vec<AccountWrite> = vec![];
    let mut alive = true;
    let mut version = 10u64;

    let steps = match case {
        Some(c) => c["slots"].as_array().unwrap().len() as u64,
        None => 14 + r.below(14),
    };
    let mut msgs: Vec<(Option<AccountWrite>, Option<SlotUpdate>)> = vec![];
    for step in 0..=steps {
        if let (Some(c), true) = (case, step > 0) {
            let x = &c["slots"][step as usize - 1];
            let at = x["p"].as_u64().unwrap() as usize - 1;
            let mut q = nodes[at].q.clone();
            let ops = x["ops"].as_str().unwrap();
            for o in ops.chars() {
                q[0].act(o);
            }
            max_slot += 1;
            version += 1;
            let writes = if ops.is_empty() { vec![] } else { vec![(0, version, q[0].clone())] };
            nodes.push(Node { slot: max_slot, parent: Some(at), q, writes });
            tip = nodes.len() - 1;
        } else if step > 0 {
            // a new slot on top of the tip, or on top of an earlier one
            let mut at = tip;
            if r.chance(25) {
                for _ in 0..1 + r.below(3) {
                    at = nodes[at].parent.unwrap_or(at);
                }
            }
            max_slot += if r.chance(80) { 1 } else { 2 };
            let mut q = nodes[at].q.clone();
            let mut writes = vec![];
            for i in 0..count as usize {
                for _ in 0..match r.below(4) { 0 => 0, 3 => 2, _ => 1 } {
                    let big = r.chance(4);
                    for _ in 0..1 + r.below(if big { 500 } else { 5 }) {
                        if r.chance(55) || big {
                            let s = q[i].0.header.seq_num;
                            if q[i].0.full() {
                                let _ = q[i].0.pop_front();
                            }
                            let _ = q[i].0.push_back(random_event(r, s, people, calm));
                        } else if !q[i].0.is_empty() {
                            let _ = q[i].0.pop_front();
                        }
                    }
                    if r.chance(6) {
                        while !q[i].0.is_empty() {
                            let _ = q[i].0.pop_front();
                        }
                    }
                    version += 1 + r.below(3);
                    writes.push((i, version, q[i].clone()));
                }
            }
            nodes.push(Node { slot: max_slot, parent: Some(at), q, writes });
            tip = nodes.len() - 1;
        }
        let node = nodes[tip].clone();
        let su = SlotUpdate { slot: node.slot, parent: node.parent.map(|p| nodes[p].slot), status: SlotStatus::Processed };
        let mut ws: Vec<AccountWrite> = node
            .writes
            .iter()
            .map(|(i, v, q)| AccountWrite {
                pubkey: markets[*i].cfg.event_queue,
                slot: node.slot,
                write_version: *v,
                lamports: 1,
                owner: mango_v4::id(),
                executable: false,
                rent_epoch: 0,
                data: q.data(),
                is_selected: true,
            })
            .collect();
        if r.chance(10) && ws.len() > 1 {
            ws.swap(0, 1);
        }
        if markets.last().unwrap().spot && r.chance(40) {
            let mut data = vec![0u8; 5 + 32 + 88 * 4 + 7 + 3];
            data[5 + 24] = step as u8;
            version += 1;
            ws.push(AccountWrite { pubkey: key(1399), slot: node.slot, write_version: version, lamports: 1, owner: key(5555), executable: false, rent_epoch: 0, data, is_selected: true });
        }
        let late = case.is_none() && r.chance(25);
        if !late {
            msgs.push((None, Some(su.clone())));
        }
        for w in ws {
            sent.push(w.clone());
            msgs.push((Some(w), None));
        }
        if late {
            msgs.push((None, Some(su)));
        }
        // redelivery of something old, unrelated accounts, roots
        if case.is_some() && step > 0 {
            continue;
        }
        if r.chance(10) && !sent.is_empty() {
            let k = r.below(sent.len() as u64) as usize;
            msgs.push((Some(sent[k].clone()), None));
        }
        if r.chance(5) && !sent.is_empty() {
            let mut x = sent[sent.len() - 1].clone();
            x.pubkey = key(7777);
            msgs.push((Some(x), None));
        }
        if r.chance(20) || step == 0 {
            let mut at = tip;
            for _ in 0..if step == 0 { 0 } else { 2 + r.below(3) } {
                at = nodes[at].parent.unwrap_or(at);
            }
            msgs.push((
                None,
                Some(SlotUpdate {
                    slot: nodes[at].slot,
                    parent: nodes[at].parent.map(|p| nodes[p].slot),
                    status: if r.chance(70) || step == 0 { SlotStatus::Rooted } else { SlotStatus::Confirmed },
                }),
            ));
        }
    }
    for (aw, su) in msgs {
        if let Some(a) = &aw {
            if a.pubkey != key(7777) {
                mirror.update_account(
                    a.pubkey,
                    AccountData { slot: a.slot, write_version: a.write_version, account: AccountSharedData::create(a.lamports, a.data.clone(), a.owner, false, 0) },
                );
            }
            tx.try_send(a.clone()).unwrap();
        }
        if let Some(s) = &su {
            mirror.update_slot(SlotData { slot: s.slot, parent: s.parent, status: s.status, chain: 0 });
            stx.try_send(s.clone()).unwrap();
        }
        alive = tokio::run_until_idle() && alive;
        let mut out_msgs = vec![];
        while let Ok(m) = rx.try_recv() {
            out_msgs.push(match m {
                FillEventFilterMessage::Update(u) => {
                    let u = serde_json::to_value(&u).unwrap();
                    json!({"y":"upd","st":u["status"],"m":market(&u["marketKey"]),"name":u["marketName"],"slot":int(&u["slot"]),"v":int(&u["writeVersion"]),"e":fill(&defs,&u["event"])})
                }
                FillEventFilterMessage::HeadUpdate(h) => {
                    let h = serde_json::to_value(&h).unwrap();
                    json!({"y":"head","st":h["status"],"m":market(&h["marketKey"]),"name":h["marketName"],"slot":int(&h["slot"]),"v":int(&h["writeVersion"]),
                        "h":int(&h["head"]),"ph":int(&h["previousHead"]),"hs":int(&h["headSeqNum"]),"phs":int(&h["previousHeadSeqNum"])})
                }
                FillEventFilterMessage::Checkpoint(c) => {
                    let c = serde_json::to_value(&c).unwrap();
                    json!({"y":"chk","m":market(&c["market"]),"qm":queue(&c["queue"]),"slot":int(&c["slot"]),"v":int(&c["write_version"]),
                        "ev":c["events"].as_array().map(|v| v.iter().map(|e| fill(&defs, e)).collect::<Vec<_>>()).unwrap_or_default()})
                }
            });
        }
        let mut state = vec![];
        for m in markets.iter() {
            state.push(match mirror.account(&m.cfg.event_queue) {
                Err(_) => json!({"on":0}),
                Ok(_) if m.spot => json!({"on":2}),
                Ok(a) => {
                    let data = a.account.data();
                    let k = match snap_ids.get(data) {
                        Some(k) => *k,
                        None => {
                            let q: &EventQueue = bytemuck::from_bytes(&data[8..]);
                            let seq = q.header.seq_num;
                            let lo = seq.saturating_sub(MAX_NUM_EVENTS as u64);
                            let ids: Vec<usize> = (lo..seq).map(|s| defs.of(&q.buf[(s % MAX_NUM_EVENTS as u64) as usize])).collect();
                            snaps.push(json!({"h":q.header.head(),"n":q.header.count(),"seq":seq,"lo":lo,"ev":ids}));
                            snap_ids.insert(data.to_vec(), snaps.len());
                            snaps.len()
                        }
                    };
                    json!({"on":1,"slot":n(a.slot),"v":n(a.write_version),"q":k})
                }
            });
        }
        lines.push(json!({"w":w,"y":"step","w0":first,"s":state,"out":out_msgs,"alive":if alive {1} else {0}}));
    }
    let ms: Vec<Value> = markets
        .iter()
        .map(|m| json!({"name":m.cfg.name,"spot":if m.spot {1} else {0},"bd":m.cfg.base_decimals,"qd":m.cfg.quote_decimals,"bl":n(m.cfg.base_lot_size),"ql":n(m.cfg.quote_lot_size)}))
        .collect();
    writeln!(out, "{}", json!({"w":w,"y":"world","w0":first,"markets":ms,"defs":defs.recs,"snaps":snaps})).unwrap();
    for l in lines.iter() {
        writeln!(out, "{}", l).unwrap();
    }
    *line += 1 + lines.len() as u64;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SIM_VERBOSE").is_ok() {
            eprintln!("{}", i)
        }
    }));
    let mut r = Rng(a[1].parse().unwrap_or(1));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    let mut line = 0;
    if a[1].parse::<u64>().is_err() {
        for (w, c) in std::fs::read_to_string(&a[1]).unwrap().lines().enumerate() {
            world(&mut r, Some(&serde_json::from_str(c).unwrap()), w as u64 + 1, &mut line, &mut out);
        }
        return;
    }
    for w in 1..=a[2].parse::<u64>().unwrap() {
        world(&mut r, None, w, &mut line, &mut out);
    }
}
