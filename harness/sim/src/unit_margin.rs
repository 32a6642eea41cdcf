//! The margin-trade example program on small token ledgers.
//! A case: {accs:[{k,o,m,n,fz,dl,dn}], w,d (account indexes), wo,do (key indexes), ws,ds,ww,dw (0/1), bump (key index the
//! bump derives, or -1 when it derives none), from, to, tp (0/1), extra (0/1)}
use crate::gen::Rng;
use crate::rt::{Acc, Rt};
use crate::unit::{emit, num, Out};
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::{Account, AccountState, Mint};

struct Env {
    keys: Vec<Pubkey>,
    bumps: Vec<(i64, u8)>, // key index -> bump
    mints: Vec<Pubkey>,
}
fn env() -> Env {
    let mut keys: Vec<Pubkey> = (0..2).map(|i| Pubkey::new_from_array([10 + i; 32])).collect();
    let mut bumps = vec![];
    let mut bad = None;
    for b in (0..=255u8).rev() {
        match Pubkey::create_program_address(&[b"MarginTrade", &[b]], &margin_trade::id()) {
            Ok(k) if keys.len() < 4 => {
                bumps.push((keys.len() as i64, b));
                keys.push(k);
            }
            Ok(_) => {}
            Err(_) => bad = bad.or(Some(b)),
        }
    }
    bumps.push((-1, bad.unwrap()));
    Env { keys, bumps, mints: (0..2).map(|i| Pubkey::new_from_array([30 + i; 32])).collect() }
}
fn acc_key(i: usize) -> Pubkey {
    Pubkey::new_from_array([100 + i as u8; 32])
}
fn big(v: &Value) -> i128 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_i64().unwrap_or(0) as i128,
    }
}
fn g(c: &Value, k: &str) -> i64 {
    c.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}
fn observe(rt: &Rt, e: &Env, n: usize) -> Vec<Value> {
    (0..n)
        .map(|i| match rt.accs.get(&acc_key(i)) {
            Some(a) if a.owner == spl_token::id() && a.data.len() == Account::LEN => {
                let t = Account::unpack_unchecked(&a.data).unwrap();
                let key = |k: &Pubkey| e.keys.iter().position(|x| x == k).map(|x| x as i64).unwrap_or(-2);
                json!({
                    "k": if t.state == AccountState::Uninitialized {1} else {0},
                    "o": key(&t.owner), "m": e.mints.iter().position(|x| *x == t.mint).map(|x| x as i64).unwrap_or(-2),
                    "n": num(t.amount as i128), "fz": (t.state == AccountState::Frozen) as i64,
                    "dl": match t.delegate { COption::Some(k) => key(&k), COption::None => -1 },
                    "dn": num(t.delegated_amount as i128),
                    "x": (t.close_authority.is_some() || t.is_native.is_some() || a.lamports != 1_000_000) as i64,
                })
            }
            Some(a) => json!({"k": 2, "o": -1, "m": -1, "n": a.data.iter().map(|x| *x as i64).sum::<i64>(), "fz": 0, "dl": -1, "dn": 0, "x": 0}),
            None => json!({"k": 3}),
        })
        .collect()
}
fn one(c: &Value, e: &Env, o: &mut Out) {
    let mut rt = Rt::new();
    for m in &e.mints {
        let mut d = vec![0u8; Mint::LEN];
        Mint { mint_authority: COption::None, supply: u64::MAX, decimals: 6, is_initialized: true, freeze_authority: COption::None }
            .pack_into_slice(&mut d);
        rt.accs.insert(*m, Acc { lamports: 1_000_000, data: d, owner: spl_token::id(), executable: false });
    }
    let accs = c["accs"].as_array().unwrap();
    for (i, a) in accs.iter().enumerate() {
        let (data, owner) = if g(a, "k") == 2 {
            (vec![0u8; Account::LEN], Pubkey::new_from_array([200; 32]))
        } else {
            let mut d = vec![0u8; Account::LEN];
            if g(a, "k") == 0 {
                Account {
                    mint: e.mints[g(a, "m") as usize],
                    owner: e.keys[g(a, "o") as usize],
                    amount: big(&a["n"]) as u64,
                    delegate: if g(a, "dl") >= 0 { COption::Some(e.keys[g(a, "dl") as usize]) } else { COption::None },
                    state: if g(a, "fz") == 1 { AccountState::Frozen } else { AccountState::Initialized },
                    is_native: COption::None,
                    delegated_amount: big(&a["dn"]) as u64,
                    close_authority: COption::None,
                }
                .pack_into_slice(&mut d);
            }
            (d, spl_token::id())
        };
        rt.accs.insert(acc_key(i), Acc { lamports: 1_000_000, data, owner, executable: false });
    }
    let pre = observe(&rt, e, accs.len());
    let key = |i: i64| e.keys[i as usize];
    let bump = e.bumps.iter().find(|x| x.0 == g(c, "bump")).unwrap().1;
    let meta = |k: Pubkey, s: bool, w: bool| AccountMeta { pubkey: k, is_signer: s, is_writable: w };
    let mut metas = vec![
        meta(key(g(c, "wo")), g(c, "ws") == 1, false),
        meta(acc_key(g(c, "w") as usize), false, g(c, "ww") == 1),
        meta(acc_key(g(c, "d") as usize), false, g(c, "dw") == 1),
        meta(key(g(c, "do")), g(c, "ds") == 1, false),
        meta(if g(c, "tp") == 0 { spl_token::id() } else { crate::rt::proxy_id() }, false, false),
    ];
    if g(c, "extra") == 1 {
        // everything else there is, writable and signed: the program must still leave it alone
        for i in 0..accs.len() {
            if i as i64 != g(c, "w") && i as i64 != g(c, "d") {
                metas.push(meta(acc_key(i), false, true));
            }
        }
        for i in 0..2 {
            if i != g(c, "wo") && i != g(c, "do") {
                metas.push(meta(key(i), true, false));
            }
        }
    }
    let ix = Instruction {
        program_id: margin_trade::id(),
        accounts: metas,
        data: anchor_lang::InstructionData::data(&margin_trade::instruction::MarginTrade {
            amount_from: big(&c["from"]) as u64,
            deposit_account_owner_bump_seeds: bump,
            amount_to: big(&c["to"]) as u64,
        }),
    };
    let signers: Vec<Pubkey> = e.keys.clone();
    let r = rt.tx(&[ix], &signers);
    let mut l = c.clone();
    l["pre"] = Value::from(pre);
    l["post"] = Value::from(observe(&rt, e, accs.len()));
    l["ok"] = Value::from(r.is_ok() as i64);
    l["err"] = Value::from(r.err().map(|e| e.text()).unwrap_or_default());
    l.as_object_mut().unwrap().remove("accs");
    emit(o, l);
}
pub fn replay(cs: &[Value], o: &mut Out) {
    let e = env();
    for c in cs {
        one(c, &e, o);
    }
}
pub fn random(seed: u64, n: usize, o: &mut Out) {
    let e = env();
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let amt = |r: &mut Rng| -> Value {
            match r.below(8) {
                0 => num(0),
                1 => num(1),
                2 => num(u64::MAX as i128),
                3 => num((u64::MAX - r.below(3)) as i128),
                4 => num(r.next() as i128),
                _ => num(r.below(2000) as i128),
            }
        };
        let k = 3 + r.below(2) as usize;
        let accs: Vec<Value> = (0..k)
            .map(|_| {
                json!({"k": if r.chance(4) {1 + r.below(2)} else {0}, "o": r.below(4), "m": if r.chance(15) {1} else {0}, "n": amt(&mut r),
                       "fz": r.chance(4) as i64, "dl": if r.chance(20) {r.below(4) as i64} else {-1}, "dn": if r.chance(50) {amt(&mut r)} else {num(0)}})
            })
            .collect();
        let w = r.below(k as u64);
        let d = if r.chance(8) { w } else { r.below(k as u64) };
        // mostly the right authorities, and amounts around what is there
        let own = |i: u64| accs[i as usize]["o"].as_i64().unwrap();
        let wo = if r.chance(75) { own(w) } else { r.below(4) as i64 };
        let dow = if r.chance(75) { own(d) } else { r.below(4) as i64 };
        let bw = big(&accs[w as usize]["n"]);
        let bd = big(&accs[d as usize]["n"]);
        let near = |r: &mut Rng, x: i128| num((x + r.below(5) as i128 - 3).clamp(0, u64::MAX as i128));
        let from = match r.below(4) { 0 => num(0), 1 => near(&mut r, bw), 2 => num((bw as u64 / 2) as i128), _ => amt(&mut r) };
        let f = big(&from);
        let to = match r.below(5) { 0 => num(0), 1 => near(&mut r, (bd + f).min(u64::MAX as i128)), 2 => near(&mut r, bd), 3 => near(&mut r, f), _ => amt(&mut r) };
        let bump = if dow >= 2 && r.chance(80) { dow } else { *r.pick(&[2, 2, 3, -1]) };
        let c = json!({"accs": accs, "w": w, "d": d, "wo": wo, "do": dow, "ws": r.chance(85) as i64, "ds": if dow < 2 {r.chance(50) as i64} else {r.chance(5) as i64},
            "ww": r.chance(96) as i64, "dw": r.chance(96) as i64, "bump": bump, "from": from, "to": to, "tp": r.chance(3) as i64, "extra": r.chance(30) as i64});
        one(&c, &e, o);
    }
}
