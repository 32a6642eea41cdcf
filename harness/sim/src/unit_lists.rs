//! What the client library makes of the chain's accounts: the registry, the accounts it lists for a health
//! computation, the health it computes from them, candidates for pnl settlement, and what the crank sends.
//! A "client" operation changes nothing; its line carries the answers.
use crate::state::{fb, n};
use crate::world::*;
use futures::executor::block_on;
use mango_client::{crank::MangoV4PerpCrankSink, health_cache, perp_pnl, FallbackOracleConfig, Fetcher, MangoGroupContext};
use mango_feeds_connector::{account_write_filter::AccountWriteSink, chain_data::AccountData};
use mango_v4::health::HealthType;
use mango_v4::state::*;
use serde_json::{json, Value};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_sdk::account::Account;
use solana_sdk::instruction::AccountMeta;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ask(f: impl FnOnce() -> anyhow::Result<Value>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": v}),
        Ok(Err(e)) => json!({"r": "error", "v": 0, "e": format!("{:?}", e).chars().take(200).collect::<String>()}),
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            json!({"r": "panic", "v": 0, "e": s.chars().take(200).collect::<String>()})
        }
    }
}
struct Names(BTreeMap<Pubkey, (&'static str, usize, usize)>);
impl Names {
    fn new(w: &World) -> Self {
        let mut m = BTreeMap::new();
        for (s, u) in w.users.iter().enumerate() {
            m.insert(u.acct, ("acc", s, 0));
            for (k, _) in w.spots.iter().enumerate() {
                m.insert(w.oo_key(s, k), ("oo", s, k));
            }
        }
        for (p, x) in w.perps.iter().enumerate() {
            for (k, nm) in [(x.key, "perp"), (x.oracle, "poracle"), (x.bids, "bids"), (x.asks, "asks"), (x.eq, "eq")] {
                m.insert(k, (nm, p, 0));
            }
        }
        for (i, x) in w.spots.iter().enumerate() {
            let d = &x.dex;
            for (k, nm) in [(x.key, "spot"), (d.market, "dex"), (d.bids, "sbids"), (d.asks, "sasks"), (d.event_q, "seq"), (d.req_q, "sreq"),
                (d.base_vault, "sbase"), (d.quote_vault, "squote"), (d.vault_signer, "ssigner")] {
                m.insert(k, (nm, i, 0));
            }
        }
        for (t, x) in w.toks.iter().enumerate() {
            m.insert(x.fallback, ("fb", t, 0));
        }
        for (t, x) in w.toks.iter().enumerate() {
            for (k, nm) in [(x.mint, "mint"), (x.info, "info"), (x.oracle, "oracle")] {
                m.insert(k, (nm, t, 0));
            }
            for (b, k) in x.banks.iter().enumerate() {
                m.insert(*k, ("bank", t, b));
            }
            for (b, k) in x.vaults.iter().enumerate() {
                m.insert(*k, ("vault", t, b));
            }
        }
        m.insert(crate::rt::dex_id(), ("dexprogram", 0, 0));
        m.insert(w.group, ("group", 0, 0));
        m.insert(Pubkey::default(), ("none", 0, 0));
        Names(m)
    }
    fn of(&self, k: &Pubkey) -> Value {
        json!(self.0.get(k).copied().unwrap_or(("?", 0, 0)))
    }
    fn metas(&self, v: &[AccountMeta]) -> Value {
        v.iter().map(|m| json!({"k": self.of(&m.pubkey), "w": m.is_writable as u8, "s": m.is_signer as u8})).collect()
    }
}
fn node(w: &World) -> RpcClient {
    let mut accounts: BTreeMap<Pubkey, Account> =
        w.rt.accs.iter().map(|(k, a)| (*k, Account { lamports: a.lamports, data: a.data.clone(), owner: a.owner, executable: a.executable, rent_epoch: 0 })).collect();
    // another group has accounts just like these
    let other = [77u8; 32];
    let ghosts: Vec<_> = accounts
        .iter()
        .filter(|(_, a)| a.owner == mango_v4::id() && a.data.len() >= 40 && a.data[8..40] == w.group.to_bytes())
        .map(|(k, a)| {
            let (mut k, mut a) = (k.to_bytes(), a.clone());
            k[0] ^= 0xff;
            a.data[8..40].copy_from_slice(&other);
            (Pubkey::from(k), a)
        })
        .collect();
    accounts.extend(ghosts);
    // the system program is an account too
    accounts.insert(Pubkey::default(), Account { lamports: 1, data: b"system_program".to_vec(), owner: solana_sdk::native_loader::ID, executable: true, rent_epoch: 0 });
    RpcClient { accounts, slot: w.rt.clock.slot }
}
fn registry(c: &MangoGroupContext, nm: &Names) -> Value {
    let mut ts: Vec<_> = c.tokens.iter().collect();
    ts.sort_by_key(|x| *x.0);
    let t: Vec<Value> = ts.iter().map(|(i, x)| json!({"key": n(**i), "i": n(x.token_index), "grp": nm.of(&x.group), "closed": x.closed as u8, "mint": nm.of(&x.mint), "orc": nm.of(&x.oracle),
        "info": nm.of(&x.mint_info_address), "dec": n(x.decimals), "fb": nm.of(&x.fallback_context.key), "fq": nm.of(&x.fallback_context.quote_key),
        "ocf": fb(x.oracle_config.conf_filter), "oms": n(x.oracle_config.max_staleness_slots),
        "bv": x.banks().iter().map(|b| nm.of(b)).collect::<Vec<_>>(), "vv": x.vaults.iter().filter(|v| **v != Pubkey::default()).map(|b| nm.of(b)).collect::<Vec<_>>(), "name": x.name})).collect();
    let mut ss: Vec<_> = c.serum3_markets.iter().collect();
    ss.sort_by_key(|x| *x.0);
    let s: Vec<Value> = ss.iter().map(|(i, x)| json!({"key": n(**i), "spot": nm.of(&x.address), "prog": nm.of(&x.serum_program), "dex": nm.of(&x.serum_market_external),
        "bi": n(x.base_token_index), "qi": n(x.quote_token_index), "bids": nm.of(&x.bids), "asks": nm.of(&x.asks), "eq": nm.of(&x.event_q), "req": nm.of(&x.req_q),
        "bv": nm.of(&x.coin_vault), "qv": nm.of(&x.pc_vault), "sg": nm.of(&x.vault_signer), "bl": n(x.coin_lot_size), "ql": n(x.pc_lot_size), "name": x.name})).collect();
    let mut ps: Vec<_> = c.perp_markets.iter().collect();
    ps.sort_by_key(|x| *x.0);
    let p: Vec<Value> = ps.iter().map(|(i, x)| json!({"key": n(**i), "i": n(x.perp_market_index), "st": n(x.settle_token_index), "grp": nm.of(&x.group), "perp": nm.of(&x.address), "bids": nm.of(&x.bids), "asks": nm.of(&x.asks),
        "eq": nm.of(&x.event_queue), "orc": nm.of(&x.oracle), "bl": n(x.base_lot_size), "ql": n(x.quote_lot_size), "dec": n(x.base_decimals), "iow": fb(x.init_overall_asset_weight), "name": x.name})).collect();
    let tn: Vec<Value> = ts.iter().map(|(_, x)| c.token_indexes_by_name.get(&x.name).map(|i| n(*i)).unwrap_or(n(-1))).collect();
    json!({"t": t, "s": s, "p": p, "tn": tn, "alts": c.address_lookup_tables.len()})
}

pub fn client(w: &World, op: &Value) -> Value {
    let us = |k: &str| op[k].as_u64().unwrap() as usize;
    let list = |k: &str| op[k].as_array().map(|v| v.iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>()).unwrap_or_default();
    let nm = Names::new(w);
    let rpc = node(w);
    let fetcher = Fetcher(&rpc);
    let mut c = None;
    let ctx = ask(|| {
        let x = block_on(MangoGroupContext::new_from_rpc(&rpc, w.group))?;
        let v = registry(&x, &nm);
        c = Some(x);
        Ok(v)
    });
    // whether every position is in something that is (still) listed under the position's index
    let whole = (0..w.users.len()).filter_map(|u| w.account(u)).all(|x| {
        x.active_token_positions().all(|p| w.toks.iter().any(|t| t.idx == p.token_index && w.exists(&t.info)))
            && x.active_perp_positions().all(|p| w.perps.iter().any(|m| m.idx == p.market_index && w.exists(&m.key)))
    });
    let mut out = json!({ "ctx": ctx, "whole": whole as u8,
        "fos": w.toks.iter().map(|t| nm.of(&t.fallback)).collect::<Vec<_>>(),
        "nms": (0..w.toks.len()).map(|t| if w.exists(&w.toks[t].info) && w.exists(&w.toks[t].banks[0]) { w.bank(t, 0).name().to_string() } else { String::new() }).collect::<Vec<_>>() });
    if !list("gone").is_empty() {
        // some fallback oracles' accounts do not exist
        let mut less = node(w);
        for t in list("gone") {
            less.accounts.remove(&w.toks[t].fallback);
        }
        out["ctxg"] = ask(|| Ok(registry(&block_on(MangoGroupContext::new_from_rpc(&less, w.group))?, &nm)));
    }
    let c = match c {
        Some(c) => c,
        None => return out,
    };
    let config = match us("fbc") {
        0 => FallbackOracleConfig::Never,
        1 => FallbackOracleConfig::Fixed(list("fbs").iter().map(|t| w.toks[*t].fallback).collect()),
        2 => FallbackOracleConfig::Dynamic,
        _ => FallbackOracleConfig::All,
    };
    let ti = |k: &str| list(k).iter().map(|t| w.toks[*t].idx).collect::<Vec<_>>();
    let (a, b) = (us("a"), us("b"));
    if let Some(acc) = w.account(a) {
        out["one"] = ask(|| {
            let f = block_on(c.derive_fallback_oracle_keys(&config, &fetcher))?;
            let (m, cu) = c.derive_health_check_remaining_account_metas(&acc, ti("ts"), ti("wr"), list("ps").iter().map(|p| w.perps[*p].idx).collect(), f)?;
            Ok(json!({"m": nm.metas(&m), "cu": cu}))
        });
        let health = |h: mango_v4::health::HealthCache| json!({"i": fb(h.health(HealthType::Init)), "m": fb(h.health(HealthType::Maint)), "e": fb(h.health(HealthType::LiquidationEnd))});
        out["h"] = ask(|| Ok(health(block_on(health_cache::new(&c, &config, &fetcher, &acc))?)));
        out["hs"] = ask(|| Ok(health(health_cache::new_sync(&c, &mango_client::chain_data::AccountFetcher(rpc.accounts.clone()), &acc)?)));
        if let Some(bcc) = w.account(b) {
            out["two"] = ask(|| {
                let f = block_on(c.derive_fallback_oracle_keys(&config, &fetcher))?;
                let (m, cu) = c.derive_health_check_remaining_account_metas_two_accounts(&acc, &bcc, &ti("ts"), &ti("wr"), f)?;
                Ok(json!({"m": nm.metas(&m), "cu": cu}))
            });
        }
    }
    if op.get("p").is_some() {
        let p = us("p");
        out["top"] = ask(|| {
            let dir = if op["neg"] == 1 { perp_pnl::Direction::MaxNegative } else { perp_pnl::Direction::MaxPositive };
            let v = block_on(perp_pnl::fetch_top(&c, &config, &fetcher, w.perps[p].idx, dir, us("count")))?;
            Ok(v.iter().map(|(k, _, pnl)| json!({"a": nm.of(k), "v": fb(*pnl)})).collect())
        });
        out["crank"] = ask(|| {
            let (tx, rx) = async_channel::unbounded();
            let pks = w.perps.iter().map(|x| (x.eq, x.key)).collect();
            let sink = MangoV4PerpCrankSink::new(pks, w.group, tx);
            let eq = w.perps[p].eq;
            let data = AccountData { slot: rpc.slot, write_version: 1, account: rpc.accounts[&eq].clone().into() };
            let r = block_on(sink.process(&eq, &data));
            let count = |w: &World| w.zc::<EventQueue>(&eq).iter().count();
            match r {
                Err(e) => Ok(json!({"sent": 0, "throttled": (e == "throttled") as u8})),
                Ok(()) => {
                    let mut ixs = vec![];
                    while let Ok(v) = rx.try_recv() {
                        ixs.extend(v);
                    }
                    let mut w2 = w.clone();
                    let n0 = count(&w2);
                    let ran = w2.run(&ixs);
                    let err = ran.as_ref().err().map(|e| e.text()).unwrap_or_default();
                    Ok(json!({"sent": ixs.len(), "m": nm.metas(&ixs[0].accounts), "ok": ran.is_ok() as u8, "err": err, "n0": n0, "n1": count(&w2)}))
                }
            }
        });
    }
    if let Some(inner) = op.get("inner") {
        let mut w2 = w.clone();
        let ok = catch_unwind(AssertUnwindSafe(|| w2.apply(inner).is_ok())).unwrap_or(false);
        if ok {
            let rpc2 = node(&w2);
            let mut c2 = None;
            let v = ask(|| {
                let x = block_on(MangoGroupContext::new_from_rpc(&rpc2, w.group))?;
                let v = registry(&x, &nm);
                c2 = Some(x);
                Ok(v)
            });
            out["ctx2"] = v;
            if let Some(c2) = c2 {
                out["chg"] = ask(|| Ok(json!([c.changed_significantly(&c2) as u8, c2.changed_significantly(&c) as u8, c.changed_significantly(&c) as u8])));
                out["new"] = ask(|| {
                    Ok(json!([block_on(c.new_tokens_listed(&rpc2))? as u8, block_on(c.new_serum3_markets_listed(&rpc2))? as u8, block_on(c.new_perp_markets_listed(&rpc2))? as u8]))
                });
            }
        }
    }
    out
}
