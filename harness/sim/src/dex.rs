//! Stand-in for the spot DEX (openbook v1): same account layouts and CPI interface, with a
//! simple matching model.  The driver decides fills: `client_order_id >> 32` is the percentage of
//! an incoming order that trades immediately (against outside liquidity), and `maker_fill` fills
//! resting orders between transactions.
use crate::rt::*;
use anchor_lang::prelude::*;
use serum_dex::critbit::Slab;
use serum_dex::instruction::*;
use serum_dex::matching::*;
use serum_dex::state::*;
use solana_program::entrypoint::ProgramResult;
use solana_program::program_error::ProgramError;

pub const OO_LEN: usize = 12 + std::mem::size_of::<OpenOrders>();
pub const SLAB_LEN: usize = 12 + 8 + 8 + 16 * 200;
const ENTRY: usize = 16 + 8 + 8 + 32;
pub const EQ_LEN: usize = 12 + 8 + ENTRY * 400;

fn body(d: &mut [u8]) -> &mut [u8] {
    let n = d.len();
    &mut d[5..n - 7]
}
pub fn with_oo<R>(d: &mut [u8], f: impl FnOnce(&mut OpenOrders) -> R) -> R {
    let b = body(d);
    f(bytemuck::from_bytes_mut::<OpenOrders>(b))
}
fn with_market<R>(d: &mut [u8], f: impl FnOnce(&mut MarketState) -> R) -> R {
    f(bytemuck::from_bytes_mut::<MarketState>(body(d)))
}
/// order id -> (remaining base lots, limit price lots, open orders account); kept in the event queue account
#[derive(Clone, Debug)]
pub struct Resting {
    pub id: u128,
    pub qty: u64,
    pub locked: u64,
    pub oo: Pubkey,
}
fn read_entries(d: &[u8]) -> Vec<Resting> {
    let b = &d[5..];
    let n = u64::from_le_bytes(b[0..8].try_into().unwrap()) as usize;
    (0..n)
        .map(|i| {
            let e = &b[8 + ENTRY * i..8 + ENTRY * (i + 1)];
            Resting {
                id: u128::from_le_bytes(e[0..16].try_into().unwrap()),
                qty: u64::from_le_bytes(e[16..24].try_into().unwrap()),
                locked: u64::from_le_bytes(e[24..32].try_into().unwrap()),
                oo: Pubkey::try_from(&e[32..64]).unwrap(),
            }
        })
        .collect()
}
fn write_entries(d: &mut [u8], es: &[Resting]) {
    let b = &mut d[5..];
    b[0..8].copy_from_slice(&(es.len() as u64).to_le_bytes());
    for (i, e) in es.iter().enumerate() {
        let o = &mut b[8 + ENTRY * i..8 + ENTRY * (i + 1)];
        o[0..16].copy_from_slice(&e.id.to_le_bytes());
        o[16..24].copy_from_slice(&e.qty.to_le_bytes());
        o[24..32].copy_from_slice(&e.locked.to_le_bytes());
        o[32..64].copy_from_slice(e.oo.as_ref());
    }
}
fn slab(d: &mut [u8]) -> &mut Slab {
    Slab::new(&mut body(d)[8..])
}

pub struct DexMarket {
    pub market: Pubkey,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub vault_signer: Pubkey,
}

fn padded(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    v[..5].copy_from_slice(b"serum");
    v[n - 7..].copy_from_slice(b"padding");
    v
}

fn key(seed: &str) -> Pubkey {
    crate::world::named_key(seed)
}

pub fn create_market(rt: &mut Rt, name: &str, base_mint: Pubkey, quote_mint: Pubkey, base_lot: u64, quote_lot: u64) -> DexMarket {
    let k = |s: &str| key(&format!("dex-{}-{}", name, s));
    let market = k("market");
    let mut nonce = 0u64;
    let vault_signer = loop {
        if let Ok(p) = Pubkey::create_program_address(&[market.as_ref(), &nonce.to_le_bytes()], &dex_id()) {
            break p;
        }
        nonce += 1;
    };
    let m = DexMarket {
        market,
        req_q: k("req"),
        event_q: k("eq"),
        bids: k("bids"),
        asks: k("asks"),
        base_vault: k("bv"),
        quote_vault: k("qv"),
        vault_signer,
    };
    let mut d = padded(12 + std::mem::size_of::<MarketState>());
    with_market(&mut d, |s| {
        s.account_flags = AccountFlag::Initialized as u64 + AccountFlag::Market as u64;
        s.own_address = market.to_aligned_bytes();
        s.vault_signer_nonce = nonce;
        s.coin_mint = base_mint.to_aligned_bytes();
        s.pc_mint = quote_mint.to_aligned_bytes();
        s.coin_vault = m.base_vault.to_aligned_bytes();
        s.pc_vault = m.quote_vault.to_aligned_bytes();
        s.req_q = m.req_q.to_aligned_bytes();
        s.event_q = m.event_q.to_aligned_bytes();
        s.bids = m.bids.to_aligned_bytes();
        s.asks = m.asks.to_aligned_bytes();
        s.coin_lot_size = base_lot;
        s.pc_lot_size = quote_lot;
    });
    let put = |rt: &mut Rt, k: Pubkey, data: Vec<u8>| {
        rt.accs.insert(k, Acc { lamports: 1_000_000_000, data, owner: dex_id(), executable: false });
    };
    put(rt, market, d);
    put(rt, m.req_q, padded(100));
    put(rt, m.event_q, padded(EQ_LEN));
    for (k, f) in [(m.bids, AccountFlag::Bids), (m.asks, AccountFlag::Asks)] {
        let mut d = padded(SLAB_LEN);
        d[5..13].copy_from_slice(&(AccountFlag::Initialized as u64 + f as u64).to_le_bytes());
        put(rt, k, d);
    }
    crate::world::put_token_account(rt, m.base_vault, base_mint, vault_signer, 0);
    crate::world::put_token_account(rt, m.quote_vault, quote_mint, vault_signer, 0);
    m
}

fn tok_add(ai: &AccountInfo, n: i128) -> ProgramResult {
    let mut d = ai.try_borrow_mut_data()?;
    let a = u64::from_le_bytes(d[64..72].try_into().unwrap()) as i128 + n;
    if a < 0 {
        return Err(ProgramError::InsufficientFunds);
    }
    d[64..72].copy_from_slice(&(a as u64).to_le_bytes());
    Ok(())
}

fn check_oo(oo: &AccountInfo, market: &AccountInfo, owner: &AccountInfo) -> ProgramResult {
    if !owner.is_signer || *oo.owner != dex_id() {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let mut d = oo.try_borrow_mut_data()?;
    with_oo(&mut d, |o| {
        let (m, w, f) = (o.market, o.owner, o.account_flags);
        if f != 5 || m != market.key.to_aligned_bytes() || w != owner.key.to_aligned_bytes() {
            Err(ProgramError::Custom(0xd0))
        } else {
            Ok(())
        }
    })
}

pub fn process(a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix = MarketInstruction::unpack(data).ok_or(ProgramError::InvalidInstructionData)?;
    match ix {
        MarketInstruction::InitOpenOrders => {
            let mut d = a[0].try_borrow_mut_data()?;
            if d.len() != OO_LEN || d[0] != 0 {
                return Err(ProgramError::Custom(0xd1));
            }
            d.copy_from_slice(&padded(OO_LEN));
            with_oo(&mut d, |o| {
                o.account_flags = 5;
                o.market = a[2].key.to_aligned_bytes();
                o.owner = a[1].key.to_aligned_bytes();
                o.free_slot_bits = u128::MAX;
            });
            Ok(())
        }
        MarketInstruction::CloseOpenOrders => {
            check_oo(&a[0], &a[3], &a[1])?;
            let mut d = a[0].try_borrow_mut_data()?;
            with_oo(&mut d, |o| {
                let (c, p, b) = (o.native_coin_total, o.native_pc_total, o.free_slot_bits);
                if c != 0 || p != 0 || b != u128::MAX {
                    return Err(ProgramError::Custom(0xd2));
                }
                o.account_flags = 1 + AccountFlag::Closed as u64;
                Ok(())
            })?;
            let l = a[0].lamports();
            **a[0].lamports.borrow_mut() = 0;
            **a[2].lamports.borrow_mut() += l;
            Ok(())
        }
        MarketInstruction::NewOrderV3(o) => {
            let (market, oo, eq, bids, asks, payer, owner, bv, qv) =
                (&a[0], &a[1], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8], &a[9]);
            check_oo(oo, market, owner)?;
            let (bl, ql, seq) = with_market(&mut market.try_borrow_mut_data()?, |m| {
                let s = m.coin_deposits_total;
                m.coin_deposits_total += 1; // sequence number
                (m.coin_lot_size, m.pc_lot_size, s)
            });
            let bid = o.side == Side::Bid;
            let px = o.limit_price.get();
            let cost = |lots: u64| (lots as u128 * px as u128 * ql as u128).min(u64::MAX as u128) as u64;
            let mut lots = o.max_coin_qty.get();
            if bid {
                let per = cost(1);
                if per == 0 {
                    return Err(ProgramError::Custom(0xd3));
                }
                lots = lots.min(o.max_native_pc_qty_including_fees.get() / per);
            }
            let pct = if o.order_type == OrderType::PostOnly { 0 } else { (o.client_order_id >> 32).min(100) };
            let taken = (lots as u128 * pct as u128 / 100) as u64;
            let posted = if o.order_type == OrderType::ImmediateOrCancel { 0 } else { lots - taken };
            let mut slot = None;
            let (need, from_free);
            {
                let mut d = oo.try_borrow_mut_data()?;
                need = with_oo(&mut d, |s| -> std::result::Result<u64, ProgramError> {
                    let lock = if bid { cost(taken + posted) } else { (taken + posted) * bl };
                    let free = if bid { s.native_pc_free } else { s.native_coin_free };
                    let take_free = free.min(lock);
                    if bid {
                        s.native_pc_free -= take_free;
                        s.native_pc_total += lock - take_free;
                        s.native_pc_total -= cost(taken);
                        s.native_coin_free += taken * bl;
                        s.native_coin_total += taken * bl;
                    } else {
                        s.native_coin_free -= take_free;
                        s.native_coin_total += lock - take_free;
                        s.native_coin_total -= taken * bl;
                        s.native_pc_free += cost(taken);
                        s.native_pc_total += cost(taken);
                    }
                    if posted > 0 {
                        let b = s.free_slot_bits.trailing_zeros();
                        if b >= 128 {
                            return Err(ProgramError::Custom(0xd4));
                        }
                        let id = ((px as u128) << 64) | (if bid { !seq } else { seq }) as u128;
                        s.free_slot_bits &= !(1u128 << b);
                        if bid {
                            s.is_bid_bits |= 1u128 << b
                        } else {
                            s.is_bid_bits &= !(1u128 << b)
                        }
                        let mut orders = s.orders;
                        orders[b as usize] = id;
                        s.orders = orders;
                        let mut c = s.client_order_ids;
                        c[b as usize] = o.client_order_id;
                        s.client_order_ids = c;
                        slot = Some(id);
                    }
                    Ok(lock - take_free)
                })?;
                from_free = 0u64;
            }
            let _ = from_free;
            if let Some(id) = slot {
                let side = if bid { bids } else { asks };
                slab(&mut side.try_borrow_mut_data()?).insert(id);
                let mut d = eq.try_borrow_mut_data()?;
                let mut es = read_entries(&d);
                es.push(Resting { id, qty: posted, locked: 0, oo: *oo.key });
                write_entries(&mut d, &es);
            }
            // payment from the caller, then settlement of the taken part with the outside world
            if need > 0 {
                let ix = spl_token::instruction::transfer(
                    &spl_token::id(),
                    payer.key,
                    if bid { qv.key } else { bv.key },
                    owner.key,
                    &[],
                    need,
                )?;
                solana_program::program::invoke_signed_unchecked(
                    &ix,
                    &[payer.clone(), qv.clone(), bv.clone(), owner.clone(), a[10].clone()],
                    &[],
                )?;
            }
            if bid {
                tok_add(bv, (taken * bl) as i128)?;
                tok_add(qv, -(cost(taken) as i128))?;
            } else {
                tok_add(bv, -((taken * bl) as i128))?;
                tok_add(qv, cost(taken) as i128)?;
            }
            Ok(())
        }
        MarketInstruction::CancelOrderV2(c) => {
            cancel(a, |_, id, _| id == c.order_id, Some(c.side))
        }
        MarketInstruction::CancelOrderByClientIdV2(cid) => cancel(a, |_, _, c| c == cid, None),
        MarketInstruction::SettleFunds => {
            let (market, oo, owner, bv, qv, ub, uq, vs, tp, reb) =
                (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8], &a[9]);
            check_oo(oo, market, owner)?;
            let nonce = with_market(&mut market.try_borrow_mut_data()?, |m| m.vault_signer_nonce);
            let (c, p, r) = with_oo(&mut oo.try_borrow_mut_data()?, |s| {
                let x = (s.native_coin_free, s.native_pc_free, s.referrer_rebates_accrued);
                s.native_coin_free = 0;
                s.native_pc_free = 0;
                s.native_coin_total -= x.0;
                s.native_pc_total -= x.1;
                s.referrer_rebates_accrued = 0;
                x
            });
            let nb = nonce.to_le_bytes();
            let seeds: &[&[u8]] = &[market.key.as_ref(), &nb];
            for (from, to, n) in [(bv, ub, c), (qv, uq, p), (qv, reb, r)] {
                if n > 0 {
                    let ix = spl_token::instruction::transfer(&spl_token::id(), from.key, to.key, vs.key, &[], n)?;
                    solana_program::program::invoke_signed_unchecked(
                        &ix,
                        &[from.clone(), to.clone(), vs.clone(), tp.clone()],
                        &[seeds],
                    )?;
                }
            }
            Ok(())
        }
    }
}

/// accounts: market, bids, asks, open orders, owner, event queue
fn cancel(a: &[AccountInfo], sel: impl Fn(usize, u128, u64) -> bool, side: Option<Side>) -> ProgramResult {
    let (market, bids, asks, oo, owner, eq) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
    check_oo(oo, market, owner)?;
    let (bl, ql) = with_market(&mut market.try_borrow_mut_data()?, |m| (m.coin_lot_size, m.pc_lot_size));
    let mut d = eq.try_borrow_mut_data()?;
    let mut es = read_entries(&d);
    let hit = with_oo(&mut oo.try_borrow_mut_data()?, |s| {
        for j in 0..128usize {
            let m = 1u128 << j;
            if s.free_slot_bits & m != 0 {
                continue;
            }
            let (ids, cids) = (s.orders, s.client_order_ids);
            let id = ids[j];
            if !sel(j, id, cids[j]) {
                continue;
            }
            let bid = s.is_bid_bits & m != 0;
            if let Some(sd) = side {
                if (sd == Side::Bid) != bid {
                    continue;
                }
            }
            let i = es.iter().position(|e| e.id == id)?;
            let e = es.remove(i);
            s.free_slot_bits |= m;
            if bid {
                s.native_pc_free += e.qty * ((id >> 64) as u64) * ql;
            } else {
                s.native_coin_free += e.qty * bl;
            }
            return Some((bid, id));
        }
        None
    });
    match hit {
        None => Err(ProgramError::Custom(0xd5)),
        Some((bid, id)) => {
            write_entries(&mut d, &es);
            let side = if bid { bids } else { asks };
            slab(&mut side.try_borrow_mut_data()?).remove(id);
            Ok(())
        }
    }
}

/// Outside taker fills `lots` of the resting order with index `i`; rebates are accrued to the open orders.
pub fn maker_fill(rt: &mut Rt, m: &DexMarket, i: usize, lots: u64, rebate: u64) -> Option<(Pubkey, u128, u64)> {
    let mut es = read_entries(&rt.get(&m.event_q).data);
    if i >= es.len() {
        return None;
    }
    let lots = lots.min(es[i].qty);
    let (bl, ql) = with_market(&mut rt.get_mut(&m.market).data, |s| (s.coin_lot_size, s.pc_lot_size));
    let (id, oo) = (es[i].id, es[i].oo);
    let px = (id >> 64) as u64;
    es[i].qty -= lots;
    let done = es[i].qty == 0;
    let bid = slab(&mut rt.get_mut(&m.bids).data).find_by_key(id).is_some();
    with_oo(&mut rt.get_mut(&oo).data, |s| {
        if bid {
            s.native_pc_total -= lots * px * ql;
            s.native_coin_free += lots * bl;
            s.native_coin_total += lots * bl;
        } else {
            s.native_coin_total -= lots * bl;
            s.native_pc_free += lots * px * ql;
            s.native_pc_total += lots * px * ql;
        }
        s.referrer_rebates_accrued += rebate;
        if done {
            let ids = s.orders;
            for j in 0..128 {
                if s.free_slot_bits & (1u128 << j) == 0 && ids[j] == id {
                    s.free_slot_bits |= 1u128 << j;
                }
            }
        }
    });
    let (db, dq) = if bid {
        ((lots * bl) as i128, rebate as i128 - (lots * px * ql) as i128)
    } else {
        (-((lots * bl) as i128), rebate as i128 + (lots * px * ql) as i128)
    };
    for (k, n) in [(m.base_vault, db), (m.quote_vault, dq)] {
        let d = &mut rt.get_mut(&k).data;
        let v = u64::from_le_bytes(d[64..72].try_into().unwrap()) as i128 + n;
        d[64..72].copy_from_slice(&(v as u64).to_le_bytes());
    }
    if done {
        es.remove(i);
        let k = if bid { m.bids } else { m.asks };
        slab(&mut rt.get_mut(&k).data).remove(id);
    }
    write_entries(&mut rt.get_mut(&m.event_q).data, &es);
    Some((oo, id, lots))
}
pub fn resting(rt: &Rt, m: &DexMarket) -> Vec<Resting> {
    read_entries(&rt.get(&m.event_q).data)
}

pub fn bid_ids(rt: &Rt, m: &DexMarket) -> Vec<u128> {
    let mut d = rt.get(&m.bids).data.clone();
    let sl = slab(&mut d);
    read_entries(&rt.get(&m.event_q).data).iter().map(|e| e.id).filter(|i| sl.find_by_key(*i).is_some()).collect()
}
