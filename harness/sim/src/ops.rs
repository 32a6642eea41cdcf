//! Operations (JSON) to instructions.
use crate::rt::*;
use crate::world::*;
use anchor_lang::prelude::*;
use anchor_spl::associated_token::AssociatedToken;
use fixed::types::I80F48;
use mango_v4::accounts as ma;
use mango_v4::accounts_ix::*;
use mango_v4::instruction as mi;
use mango_v4::state::*;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::{system_program, sysvar};

fn side(n: i128) -> Side {
    if n == 0 {
        Side::Bid
    } else {
        Side::Ask
    }
}
pub fn otype(n: i128) -> PlaceOrderType {
    PlaceOrderType::try_from(n as u8).unwrap()
}
pub fn stb(n: i128) -> SelfTradeBehavior {
    SelfTradeBehavior::try_from(n as u8).unwrap()
}
fn i80(o: &Value, k: &str) -> Option<I80F48> {
    // raw bits under "<k>_bits" or an integer under k
    gi(o, &format!("{}_bits", k)).map(I80F48::from_bits).or(gi(o, k).map(I80F48::from_num))
}

impl World {
    /// the signer acting for account a
    fn by(&self, o: &Value, a: usize) -> Pubkey {
        match o.get("by").and_then(|v| v.as_str()) {
            Some(n) => self.who(n),
            None => self.users[a].owner,
        }
    }
    fn adm(&self, o: &Value) -> Pubkey {
        match o.get("by").and_then(|v| v.as_str()) {
            Some(n) => self.who(n),
            None => self.admin,
        }
    }
    pub fn who(&self, n: &str) -> Pubkey {
        match n {
            "none" => Pubkey::default(),
            "admin" => self.admin,
            "fast" => self.fast,
            "sec" => self.sec,
            "payer" => self.payer,
            _ => match self.users.iter().find(|u| u.name == n) {
                Some(u) => u.owner,
                None => named_key(n),
            },
        }
    }

    pub fn build_plain(&self, o: &Value) -> Vec<Instruction> {
        let g = self.group;
        let op = o["op"].as_str().unwrap();
        let us = |k: &str| gi(o, k).unwrap_or(0) as usize;
        let u = |k: &str| gi(o, k).unwrap_or(0) as u64;
        let i = |k: &str| gi(o, k).unwrap_or(0) as i64;
        let flag = |k: &str| gi(o, k).unwrap_or(0) != 0;
        let a = us("a");
        let tp = spl_token::id();
        let sp = system_program::id();
        let acct = |x: usize| self.users[x].acct;
        let v = match op {
            "batch" => o["ops"].as_array().unwrap().iter().flat_map(|x| self.build(x)).collect(),
            "group_edit" => vec![ix(ma::GroupEdit { group: g, admin: self.adm(o) }, ix_group_edit(o, &Dict))],
            "ix_gate_set" => vec![ix(ma::IxGateSet { group: g, admin: self.adm(o) }, mi::IxGateSet { ix_gate: gi(o, "gate").unwrap() as u128 })],
            "insurance_withdraw" => vec![ix(
                ma::GroupWithdrawInsuranceFund {
                    group: g,
                    admin: self.adm(o),
                    insurance_vault: self.insurance,
                    destination: self.wallet(a, 0),
                    token_program: tp,
                },
                mi::GroupWithdrawInsuranceFund { amount: u("n") },
            )],
            "oracle_set" => {
                let orc = self.oracle_of(o);
                vec![ix(
                    ma::StubOracleSet { group: g, admin: self.adm(o), oracle: orc },
                    mi::StubOracleSetTest {
                        price: I80F48::from_bits(gi(o, "bits").unwrap()),
                        last_update_slot: gi(o, "slot").map(|x| x as u64).unwrap_or(self.rt.clock.slot),
                        deviation: I80F48::from_bits(gi(o, "dev_bits").unwrap_or(0)),
                    },
                )]
            }
            "token_edit" => {
                let t = &self.toks[us("t")];
                let orc = Dict.pk(o, "oracle").unwrap_or(t.oracle);
                let fb = Dict.pk(o, "fallback").unwrap_or(t.fallback);
                let mut x = ix(
                    ma::TokenEdit { group: g, admin: self.adm(o), mint_info: t.info, oracle: orc, fallback_oracle: fb },
                    ix_token_edit(o, &Dict),
                );
                x.accounts.extend(t.banks.iter().map(|b| rw(*b)));
                vec![x]
            }
            "token_register" | "token_register_trustless" => {
                let t = &self.toks[us("t")];
                let idx = gi(o, "idx").map(|x| x as u16).unwrap_or(t.idx);
                let fallback_oracle = match o.get("fb").and_then(|v| v.as_str()) {
                    Some("none") => Pubkey::default(),
                    Some("junk") => t.mint,
                    _ => t.fallback,
                };
                if op == "token_register" {
                    let mut o2 = o.clone();
                    o2["token_index"] = json!(idx);
                    let accounts = ma::TokenRegister {
                        group: g,
                        admin: self.adm(o),
                        mint: t.mint,
                        bank: self.bank_key(idx, 0),
                        vault: self.vault_key(idx, 0),
                        mint_info: t.info,
                        oracle: t.oracle,
                        fallback_oracle,
                        payer: self.payer,
                        token_program: tp,
                        system_program: sp,
                        rent: sysvar::rent::id(),
                    };
                    vec![ix(accounts, ix_token_register(&o2, &Dict))]
                } else {
                    let accounts = ma::TokenRegisterTrustless {
                        group: g,
                        admin: self.adm(o),
                        mint: t.mint,
                        bank: self.bank_key(idx, 0),
                        vault: self.vault_key(idx, 0),
                        mint_info: t.info,
                        oracle: t.oracle,
                        fallback_oracle,
                        payer: self.payer,
                        token_program: tp,
                        system_program: sp,
                        rent: sysvar::rent::id(),
                    };
                    vec![ix(accounts, mi::TokenRegisterTrustless { token_index: idx, name: "T".into() })]
                }
            }
            "token_add_bank" => {
                let t = &self.toks[us("t")];
                let num = us("num") as u32;
                vec![ix(
                    ma::TokenAddBank {
                        group: g,
                        admin: self.adm(o),
                        mint: t.mint,
                        existing_bank: t.banks[us("from")],
                        bank: self.bank_key(t.idx, num),
                        vault: self.vault_key(t.idx, num),
                        mint_info: t.info,
                        payer: self.payer,
                        token_program: tp,
                        system_program: sp,
                        rent: sysvar::rent::id(),
                    },
                    mi::TokenAddBank { token_index: t.idx, bank_num: num },
                )]
            }
            "perp_create" => {
                let p = &self.perps[us("p")];
                let idx = gi(o, "idx").map(|x| x as u16).unwrap_or(p.idx);
                let mut o2 = o.clone();
                o2["perp_market_index"] = json!(idx);
                o2["settle_token_index"] = json!(p.settle);
                vec![ix(
                    ma::PerpCreateMarket {
                        group: g,
                        admin: self.adm(o),
                        oracle: p.oracle,
                        perp_market: pda(&[b"PerpMarket", g.as_ref(), &idx.to_le_bytes()]),
                        bids: p.bids,
                        asks: p.asks,
                        event_queue: p.eq,
                        payer: self.payer,
                        system_program: sp,
                    },
                    ix_perp_create_market(&o2, &Dict),
                )]
            }
            "s3_register" => {
                let s = &self.spots[us("s")];
                let idx = gi(o, "idx").map(|x| x as u16).unwrap_or(s.idx);
                let bank = |k: &str, d: usize| self.toks[gi(o, k).map(|x| x as usize).unwrap_or(d)].banks[0];
                vec![ix(
                    ma::Serum3RegisterMarket {
                        group: g,
                        admin: self.adm(o),
                        serum_program: dex_id(),
                        serum_market_external: s.dex.market,
                        serum_market: s.key,
                        index_reservation: pda(&[b"Serum3Index", g.as_ref(), &idx.to_le_bytes()]),
                        quote_bank: bank("quote", s.quote),
                        base_bank: bank("base", s.base),
                        payer: self.payer,
                        system_program: sp,
                    },
                    mi::Serum3RegisterMarket { market_index: idx, name: "S".into(), oracle_price_band: gf(o, "oracle_price_band").unwrap_or(0.0) as f32 },
                )]
            }
            "token_deregister" => {
                let t = &self.toks[us("t")];
                let mut x = ix(
                    ma::TokenDeregister {
                        group: g,
                        admin: self.adm(o),
                        mint_info: t.info,
                        dust_vault: self.wallet(a, us("t")),
                        sol_destination: self.payer,
                        token_program: tp,
                    },
                    mi::TokenDeregister {},
                );
                for (b, v) in t.banks.iter().zip(t.vaults.iter()) {
                    x.accounts.push(rw(*b));
                    x.accounts.push(rw(*v));
                }
                vec![x]
            }
            "update_index" => {
                let t = &self.toks[us("t")];
                let accs = ma::TokenUpdateIndexAndRate { group: g, mint_info: t.info, oracle: t.oracle, instructions: sysvar::instructions::id() };
                let mut x = if flag("resilient") {
                    ix(accs, mi::TokenUpdateIndexAndRateResilient {})
                } else {
                    ix(accs, mi::TokenUpdateIndexAndRate {})
                };
                x.accounts.extend(t.banks.iter().map(|b| rw(*b)));
                vec![x]
            }
            "withdraw_fees" => {
                let t = &self.toks[us("t")];
                let b = us("b");
                vec![ix(
                    ma::AdminTokenWithdrawFees {
                        group: g,
                        bank: t.banks[b],
                        vault: t.vaults[b],
                        token_account: self.wallet(a, us("t")),
                        token_program: tp,
                        admin: self.adm(o),
                    },
                    mi::AdminTokenWithdrawFees {},
                )]
            }
            "account_create" => {
                // the accounts are created by World::add_user during setup; re-creation after a close
                let us_ = &self.users[a];
                vec![ix(
                    ma::AccountCreateV2 { account: us_.acct, owner: us_.owner, group: g, payer: self.payer, system_program: sp },
                    mi::AccountCreateV2 {
                        account_num: us_.num,
                        token_count: us("tc") as u8,
                        serum3_count: us("sc") as u8,
                        perp_count: us("pc") as u8,
                        perp_oo_count: us("oc") as u8,
                        token_conditional_swap_count: us("cc") as u8,
                        name: us_.name.clone(),
                    },
                )]
            }
            "account_expand" => vec![ix(
                ma::AccountExpand { group: g, account: acct(a), owner: self.by(o, a), payer: self.payer, system_program: sp },
                mi::AccountExpandV2 {
                    token_count: us("tc") as u8,
                    serum3_count: us("sc") as u8,
                    perp_count: us("pc") as u8,
                    perp_oo_count: us("oc") as u8,
                    token_conditional_swap_count: us("cc") as u8,
                },
            )],
            "account_migrate" => vec![ix(
                ma::AccountSizeMigration { group: g, account: acct(a), payer: self.payer, system_program: sp },
                mi::AccountSizeMigration {},
            )],
            "account_edit" => vec![ix(
                ma::AccountEdit { group: g, account: acct(a), owner: self.by(o, a) },
                mi::AccountEdit {
                    name_opt: None,
                    delegate_opt: o.get("delegate").and_then(|v| v.as_str()).map(|s| self.who(s)),
                    temporary_delegate_opt: o.get("tmp").and_then(|v| v.as_str()).map(|s| self.who(s)),
                    temporary_delegate_expiry_opt: gi(o, "tmp_exp").map(|x| x as u64),
                },
            )],
            "account_freeze" => vec![ix(
                ma::AccountToggleFreeze { group: g, account: acct(a), admin: self.adm(o) },
                mi::AccountToggleFreeze { freeze: flag("freeze") },
            )],
            "account_close" => vec![ix(
                ma::AccountClose { group: g, account: acct(a), owner: self.by(o, a), sol_destination: self.payer, token_program: tp },
                mi::AccountClose { force_close: flag("force") },
            )],
            "buyback" => {
                let (m, d) = (us("m"), us("dao"));
                let mt = &self.toks[m];
                vec![ix(
                    ma::AccountBuybackFeesWithMngo {
                        group: g,
                        account: acct(a),
                        owner: self.by(o, a),
                        dao_account: acct(d),
                        mngo_bank: mt.banks[0],
                        mngo_oracle: mt.oracle,
                        fees_bank: self.toks[0].banks[0],
                        fees_oracle: self.toks[0].oracle,
                    },
                    mi::AccountBuybackFeesWithMngo { max_buyback_usd: u("n") },
                )]
            }
            "seq_check" => vec![ix(
                ma::SequenceCheck { group: g, account: acct(a), owner: self.by(o, a) },
                mi::SequenceCheck { expected_sequence_number: u("n") as u8 },
            )],
            "health_check" => {
                let kind = match us("kind") {
                    0 => HealthCheckKind::Maint,
                    2 => HealthCheckKind::Init,
                    4 => HealthCheckKind::LiquidationEnd,
                    1 => HealthCheckKind::MaintRatio,
                    3 => HealthCheckKind::InitRatio,
                    _ => HealthCheckKind::LiquidationEndRatio,
                };
                let mut x = ix(
                    ma::HealthCheck { group: g, account: acct(a) },
                    mi::HealthCheck { min_health_value: gf(o, "min").unwrap(), check_kind: kind },
                );
                x.accounts.extend(self.health_accounts(a, &[], &[], &[]));
                vec![x]
            }
            "compute" => {
                let mut x = ix(ma::ComputeAccountData { group: g, account: acct(a) }, mi::ComputeAccountData {});
                x.accounts.extend(self.health_accounts(a, &[], &[], &[]));
                vec![x]
            }
            "deposit" | "deposit_existing" => {
                let (t, b) = (us("t"), us("b"));
                let tk = &self.toks[t];
                let from = o.get("from").map(|_| us("from")).unwrap_or(a);
                let into_existing = op == "deposit_existing";
                let mut x = if into_existing {
                    ix(
                        ma::TokenDepositIntoExisting {
                            group: g,
                            account: acct(a),
                            bank: tk.banks[b],
                            vault: tk.vaults[b],
                            oracle: tk.oracle,
                            token_account: self.wallet(from, t),
                            token_authority: self.users[from].owner,
                            token_program: tp,
                        },
                        mi::TokenDepositIntoExisting { amount: u("n"), reduce_only: flag("ro") },
                    )
                } else {
                    ix(
                        ma::TokenDeposit {
                            group: g,
                            account: acct(a),
                            owner: self.by(o, a),
                            bank: tk.banks[b],
                            vault: tk.vaults[b],
                            oracle: tk.oracle,
                            token_account: self.wallet(from, t),
                            token_authority: self.users[from].owner,
                            token_program: tp,
                        },
                        mi::TokenDeposit { amount: u("n"), reduce_only: flag("ro") },
                    )
                };
                x.accounts.extend(self.health_accounts(a, if into_existing { &[] } else { std::slice::from_ref(&t) }, &[], &[]));
                vec![x]
            }
            "withdraw" => {
                let (t, b) = (us("t"), us("b"));
                let tk = &self.toks[t];
                let to = o.get("to").map(|_| us("to")).unwrap_or(a);
                let mut x = ix(
                    ma::TokenWithdraw {
                        group: g,
                        account: acct(a),
                        owner: self.by(o, a),
                        bank: tk.banks[b],
                        vault: tk.vaults[b],
                        oracle: tk.oracle,
                        token_account: self.wallet(to, t),
                        token_program: tp,
                    },
                    mi::TokenWithdraw { amount: u("n"), allow_borrow: flag("borrow") },
                );
                x.accounts.extend(self.health_accounts(a, &[t], &[], &[]));
                vec![x]
            }
            "force_withdraw" => {
                let (t, b) = (us("t"), us("b"));
                let tk = &self.toks[t];
                vec![ix(
                    ma::TokenForceWithdraw {
                        group: g,
                        account: acct(a),
                        bank: tk.banks[b],
                        vault: tk.vaults[b],
                        oracle: tk.oracle,
                        owner_ata_token_account: self.wallet(a, t),
                        alternate_owner_token_account: self.wallet(o.get("alt").map(|_| us("alt")).unwrap_or(a), t),
                        token_program: tp,
                    },
                    mi::TokenForceWithdraw {},
                )]
            }
            "collateral_fees" => {
                let mut x = ix(ma::TokenChargeCollateralFees { group: g, account: acct(a) }, mi::TokenChargeCollateralFees {});
                let all: Vec<usize> = (0..self.toks.len()).collect();
                x.accounts.extend(self.health_accounts(a, &[], &[], &all));
                vec![x]
            }
            // ---- liquidation
            "liq_token" => {
                let (l, e, at, lt) = (us("l"), us("a"), us("at"), us("lt"));
                let mut x = ix(
                    ma::TokenLiqWithToken { group: g, liqor: acct(l), liqor_owner: self.by(o, l), liqee: acct(e) },
                    mi::TokenLiqWithToken {
                        asset_token_index: self.toks[at].idx,
                        liab_token_index: self.toks[lt].idx,
                        max_liab_transfer: i80(o, "n").unwrap(),
                    },
                );
                x.accounts.extend(self.merged(&[l, e], &[at, lt], &[], &[at, lt]));
                vec![x]
            }
            "force_close_borrows" => {
                let (l, e, at, lt) = (us("l"), us("a"), us("at"), us("lt"));
                let mut x = ix(
                    ma::TokenForceCloseBorrowsWithToken { group: g, liqor: acct(l), liqor_owner: self.by(o, l), liqee: acct(e) },
                    mi::TokenForceCloseBorrowsWithToken {
                        asset_token_index: self.toks[at].idx,
                        liab_token_index: self.toks[lt].idx,
                        max_liab_transfer: u("n"),
                    },
                );
                x.accounts.extend(self.merged(&[l, e], &[at, lt], &[], &[at, lt]));
                vec![x]
            }
            "liq_bankruptcy" => {
                let (l, e, lt) = (us("l"), us("a"), us("lt"));
                let tk = &self.toks[lt];
                let mut x = ix(
                    ma::TokenLiqBankruptcy {
                        group: g,
                        liqor: acct(l),
                        liqor_owner: self.by(o, l),
                        liqee: acct(e),
                        liab_mint_info: tk.info,
                        quote_vault: self.toks[0].vaults[0],
                        insurance_vault: self.insurance,
                        token_program: tp,
                    },
                    mi::TokenLiqBankruptcy { max_liab_transfer: i80(o, "n").unwrap() },
                );
                x.accounts.extend(tk.banks.iter().map(|b| rw(*b)));
                x.accounts.extend(self.merged(&[l, e], &[lt, 0], &[], &[lt, 0]));
                vec![x]
            }
            // ---- perps
            "perp_edit" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpEditMarket { group: g, admin: self.adm(o), perp_market: p.key, oracle: Dict.pk(o, "oracle").unwrap_or(p.oracle) },
                    ix_perp_edit_market(o, &Dict),
                )]
            }
            "perp_close" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpCloseMarket {
                        group: g,
                        admin: self.adm(o),
                        perp_market: p.key,
                        bids: p.bids,
                        asks: p.asks,
                        event_queue: p.eq,
                        sol_destination: self.payer,
                        token_program: tp,
                    },
                    mi::PerpCloseMarket {},
                )]
            }
            "perp_place" | "perp_peg" => {
                let pi = us("p");
                let p = &self.perps[pi];
                let accs = ma::PerpPlaceOrder {
                    group: g,
                    account: acct(a),
                    owner: self.by(o, a),
                    perp_market: p.key,
                    bids: p.bids,
                    asks: p.asks,
                    event_queue: p.eq,
                    oracle: p.oracle,
                };
                let limit = gi(o, "limit").unwrap_or(10) as u8;
                let v1 = flag("v1");
                let mut x = if op == "perp_place" && v1 {
                    ix(
                        accs,
                        mi::PerpPlaceOrder {
                            side: side(gi(o, "side").unwrap()),
                            price_lots: i("px"),
                            max_base_lots: i("base"),
                            max_quote_lots: i("quote"),
                            client_order_id: u("cid"),
                            order_type: otype(gi(o, "ot").unwrap()),
                            reduce_only: flag("ro"),
                            expiry_timestamp: u("exp"),
                            limit,
                        },
                    )
                } else if op == "perp_place" {
                    ix(
                        accs,
                        mi::PerpPlaceOrderV2 {
                            side: side(gi(o, "side").unwrap()),
                            price_lots: i("px"),
                            max_base_lots: i("base"),
                            max_quote_lots: i("quote"),
                            client_order_id: u("cid"),
                            order_type: otype(gi(o, "ot").unwrap()),
                            self_trade_behavior: stb(gi(o, "stb").unwrap_or(0)),
                            reduce_only: flag("ro"),
                            expiry_timestamp: u("exp"),
                            limit,
                        },
                    )
                } else if v1 {
                    ix(
                        accs,
                        mi::PerpPlaceOrderPegged {
                            side: side(gi(o, "side").unwrap()),
                            price_offset_lots: i("off"),
                            peg_limit: gi(o, "peg").unwrap_or(-1) as i64,
                            max_base_lots: i("base"),
                            max_quote_lots: i("quote"),
                            client_order_id: u("cid"),
                            order_type: otype(gi(o, "ot").unwrap()),
                            reduce_only: flag("ro"),
                            expiry_timestamp: u("exp"),
                            limit,
                            max_oracle_staleness_slots: -1,
                        },
                    )
                } else {
                    ix(
                        accs,
                        mi::PerpPlaceOrderPeggedV2 {
                            side: side(gi(o, "side").unwrap()),
                            price_offset_lots: i("off"),
                            peg_limit: gi(o, "peg").unwrap_or(-1) as i64,
                            max_base_lots: i("base"),
                            max_quote_lots: i("quote"),
                            client_order_id: u("cid"),
                            order_type: otype(gi(o, "ot").unwrap()),
                            self_trade_behavior: stb(gi(o, "stb").unwrap_or(0)),
                            reduce_only: flag("ro"),
                            expiry_timestamp: u("exp"),
                            limit,
                            max_oracle_staleness_slots: -1,
                        },
                    )
                };
                x.accounts.extend(self.health_accounts(a, &[p.settle], &[pi], &[]));
                vec![x]
            }
            "perp_cancel" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpCancelOrder { group: g, account: acct(a), owner: self.by(o, a), perp_market: p.key, bids: p.bids, asks: p.asks },
                    mi::PerpCancelOrder { order_id: o["id"].as_str().unwrap().parse().unwrap() },
                )]
            }
            "perp_cancel_cid" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpCancelOrderByClientOrderId { group: g, account: acct(a), owner: self.by(o, a), perp_market: p.key, bids: p.bids, asks: p.asks },
                    mi::PerpCancelOrderByClientOrderId { client_order_id: u("cid") },
                )]
            }
            "perp_cancel_all" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpCancelAllOrders { group: g, account: acct(a), owner: self.by(o, a), perp_market: p.key, bids: p.bids, asks: p.asks },
                    mi::PerpCancelAllOrders { limit: u("limit") as u8 },
                )]
            }
            "perp_cancel_side" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpCancelAllOrdersBySide { group: g, account: acct(a), owner: self.by(o, a), perp_market: p.key, bids: p.bids, asks: p.asks },
                    mi::PerpCancelAllOrdersBySide { side_option: gi(o, "side").map(side), limit: u("limit") as u8 },
                )]
            }
            "perp_liq_cancel" => {
                let p = &self.perps[us("p")];
                let mut x = ix(
                    ma::PerpLiqForceCancelOrders { group: g, account: acct(a), perp_market: p.key, bids: p.bids, asks: p.asks },
                    mi::PerpLiqForceCancelOrders { limit: u("limit") as u8 },
                );
                x.accounts.extend(self.health_accounts(a, &[], &[], &[]));
                vec![x]
            }
            "perp_consume" => {
                let p = &self.perps[us("p")];
                let mut x = ix(
                    ma::PerpConsumeEvents { group: g, perp_market: p.key, event_queue: p.eq },
                    mi::PerpConsumeEvents { limit: u("limit") as usize },
                );
                match o.get("with").and_then(|v| v.as_array()) {
                    Some(l) => x.accounts.extend(l.iter().map(|k| rw(acct(num(k) as usize)))),
                    None => x.accounts.extend((0..self.users.len()).map(|k| rw(acct(k)))),
                }
                vec![x]
            }
            "perp_funding" => {
                let p = &self.perps[us("p")];
                vec![ix(ma::PerpUpdateFunding { group: g, perp_market: p.key, bids: p.bids, asks: p.asks, oracle: p.oracle }, mi::PerpUpdateFunding {})]
            }
            "perp_settle_pnl" => {
                let pi = us("p");
                let p = &self.perps[pi];
                let (s, x1, x2) = (us("s"), us("a"), us("b"));
                let st = &self.toks[p.settle];
                let mut x = ix(
                    ma::PerpSettlePnl {
                        group: g,
                        settler: acct(s),
                        settler_owner: self.by(o, s),
                        perp_market: p.key,
                        account_a: acct(x1),
                        account_b: acct(x2),
                        oracle: p.oracle,
                        settle_bank: st.banks[0],
                        settle_oracle: st.oracle,
                    },
                    mi::PerpSettlePnl {},
                );
                x.accounts.extend(self.merged(&[x1, x2], &[p.settle], &[pi], &[p.settle]));
                vec![x]
            }
            "perp_settle_fees" => {
                let pi = us("p");
                let p = &self.perps[pi];
                let st = &self.toks[p.settle];
                let mut x = ix(
                    ma::PerpSettleFees {
                        group: g,
                        perp_market: p.key,
                        account: acct(a),
                        oracle: p.oracle,
                        settle_bank: st.banks[0],
                        settle_oracle: st.oracle,
                    },
                    mi::PerpSettleFees { max_settle_amount: u("n") },
                );
                x.accounts.extend(self.health_accounts(a, &[p.settle], &[], &[p.settle]));
                vec![x]
            }
            "perp_withdraw_fees" => {
                let p = &self.perps[us("p")];
                let t = &self.toks[p.settle];
                vec![ix(
                    ma::AdminPerpWithdrawFees {
                        group: g,
                        perp_market: p.key,
                        bank: t.banks[0],
                        vault: t.vaults[0],
                        token_account: self.wallet(a, p.settle),
                        token_program: tp,
                        admin: self.adm(o),
                    },
                    mi::AdminPerpWithdrawFees {},
                )]
            }
            "perp_deactivate" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpDeactivatePosition { group: g, account: acct(a), owner: self.by(o, a), perp_market: p.key },
                    mi::PerpDeactivatePosition {},
                )]
            }
            "perp_force_close" => {
                let p = &self.perps[us("p")];
                vec![ix(
                    ma::PerpForceClosePosition { group: g, perp_market: p.key, account_a: acct(us("a")), account_b: acct(us("b")), oracle: p.oracle },
                    mi::PerpForceClosePosition {},
                )]
            }
            "perp_liq_base" => {
                let pi = us("p");
                let p = &self.perps[pi];
                let (l, e) = (us("l"), us("a"));
                let st = &self.toks[p.settle];
                let mut x = ix(
                    ma::PerpLiqBaseOrPositivePnl {
                        group: g,
                        perp_market: p.key,
                        oracle: p.oracle,
                        liqor: acct(l),
                        liqor_owner: self.by(o, l),
                        liqee: acct(e),
                        settle_bank: st.banks[0],
                        settle_vault: st.vaults[0],
                        settle_oracle: st.oracle,
                    },
                    mi::PerpLiqBaseOrPositivePnl { max_base_transfer: i("base"), max_pnl_transfer: u("pnl") },
                );
                x.accounts.extend(self.merged(&[l, e], &[p.settle], &[pi], &[p.settle]));
                vec![x]
            }
            "perp_liq_neg" => {
                let pi = us("p");
                let p = &self.perps[pi];
                let (l, e) = (us("l"), us("a"));
                let st = &self.toks[p.settle];
                let mut x = if flag("v1") {
                    ix(
                        ma::PerpLiqNegativePnlOrBankruptcy {
                            group: g,
                            liqor: acct(l),
                            liqor_owner: self.by(o, l),
                            liqee: acct(e),
                            perp_market: p.key,
                            oracle: p.oracle,
                            settle_bank: st.banks[0],
                            settle_vault: st.vaults[0],
                            settle_oracle: st.oracle,
                            insurance_vault: self.insurance,
                            token_program: tp,
                        },
                        mi::PerpLiqNegativePnlOrBankruptcy { max_liab_transfer: u("n") },
                    )
                } else {
                    let it = &self.toks[0];
                    ix(
                        ma::PerpLiqNegativePnlOrBankruptcyV2 {
                            group: g,
                            liqor: acct(l),
                            liqor_owner: self.by(o, l),
                            liqee: acct(e),
                            perp_market: p.key,
                            oracle: p.oracle,
                            settle_bank: st.banks[0],
                            settle_vault: st.vaults[0],
                            settle_oracle: st.oracle,
                            insurance_vault: self.insurance,
                            insurance_bank: it.banks[0],
                            insurance_bank_vault: it.vaults[0],
                            insurance_oracle: it.oracle,
                            token_program: tp,
                        },
                        mi::PerpLiqNegativePnlOrBankruptcyV2 { max_liab_transfer: u("n") },
                    )
                };
                x.accounts.extend(self.merged(&[l, e], &[p.settle, 0], &[pi], &[p.settle, 0]));
                vec![x]
            }
            // ---- spot dex
            "s3_edit" => {
                let s = &self.spots[us("s")];
                vec![ix(
                    ma::Serum3EditMarket { group: g, admin: self.adm(o), market: s.key },
                    mi::Serum3EditMarket {
                        reduce_only_opt: gi(o, "reduce_only").map(|x| x != 0),
                        force_close_opt: gi(o, "force_close").map(|x| x != 0),
                        name_opt: None,
                        oracle_price_band_opt: gf(o, "band").map(|x| x as f32),
                    },
                )]
            }
            "s3_dereg" => {
                let s = &self.spots[us("s")];
                vec![ix(
                    ma::Serum3DeregisterMarket {
                        group: g,
                        admin: self.adm(o),
                        serum_market: s.key,
                        index_reservation: pda(&[b"Serum3Index", g.as_ref(), &s.idx.to_le_bytes()]),
                        sol_destination: self.payer,
                        token_program: tp,
                    },
                    mi::Serum3DeregisterMarket {},
                )]
            }
            "s3_create" => {
                let s = &self.spots[us("s")];
                vec![ix(
                    ma::Serum3CreateOpenOrders {
                        group: g,
                        account: acct(a),
                        owner: self.by(o, a),
                        serum_market: s.key,
                        serum_program: dex_id(),
                        serum_market_external: s.dex.market,
                        open_orders: self.oo_key(a, us("s")),
                        payer: self.payer,
                        system_program: sp,
                        rent: sysvar::rent::id(),
                    },
                    mi::Serum3CreateOpenOrders {},
                )]
            }
            "s3_close" => {
                let s = &self.spots[us("s")];
                let mut x = ix(
                    ma::Serum3CloseOpenOrders {
                        group: g,
                        account: acct(a),
                        owner: self.by(o, a),
                        serum_market: s.key,
                        serum_program: dex_id(),
                        serum_market_external: s.dex.market,
                        open_orders: self.oo_key(a, us("s")),
                        sol_destination: self.payer,
                    },
                    mi::Serum3CloseOpenOrders {},
                );
                x.accounts.push(rw(self.toks[s.base].banks[0]));
                x.accounts.push(rw(self.toks[s.quote].banks[0]));
                vec![x]
            }
            "s3_place" => {
                let si = us("s");
                let s = &self.spots[si];
                let bid = gi(o, "side").unwrap() == 0;
                let (pay, rec) = if bid { (s.quote, s.base) } else { (s.base, s.quote) };
                let b = us("b");
                let pt = &self.toks[pay];
                let accs = ma::Serum3PlaceOrder {
                    group: g,
                    account: acct(a),
                    owner: self.by(o, a),
                    open_orders: self.oo_key(a, si),
                    serum_market: s.key,
                    serum_program: dex_id(),
                    serum_market_external: s.dex.market,
                    market_bids: s.dex.bids,
                    market_asks: s.dex.asks,
                    market_event_queue: s.dex.event_q,
                    market_request_queue: s.dex.req_q,
                    market_base_vault: s.dex.base_vault,
                    market_quote_vault: s.dex.quote_vault,
                    market_vault_signer: s.dex.vault_signer,
                    payer_bank: pt.banks[b],
                    payer_vault: pt.vaults[b],
                    payer_oracle: pt.oracle,
                    token_program: tp,
                };
                macro_rules! args {
                    ($t:ident) => {
                        mi::$t {
                            side: if bid { Serum3Side::Bid } else { Serum3Side::Ask },
                            limit_price: u("px"),
                            max_base_qty: u("base"),
                            max_native_quote_qty_including_fees: u("quote"),
                            self_trade_behavior: Serum3SelfTradeBehavior::DecrementTake,
                            order_type: match gi(o, "ot").unwrap_or(0) {
                                0 => Serum3OrderType::Limit,
                                1 => Serum3OrderType::ImmediateOrCancel,
                                _ => Serum3OrderType::PostOnly,
                            },
                            client_order_id: (u("pct") << 32) | u("cid"),
                            limit: 10,
                        }
                    };
                }
                let mut x = if flag("v1") { ix(accs, args!(Serum3PlaceOrder)) } else { ix(accs, args!(Serum3PlaceOrderV2)) };
                x.accounts.extend(self.health_accounts(a, &[pay, rec], &[], &[pay, rec]));
                vec![x]
            }
            "s3_cancel" | "s3_cancel_cid" => {
                let si = us("s");
                let s = &self.spots[si];
                let accs = ma::Serum3CancelOrder {
                    group: g,
                    account: acct(a),
                    owner: self.by(o, a),
                    open_orders: self.oo_key(a, si),
                    serum_market: s.key,
                    serum_program: dex_id(),
                    serum_market_external: s.dex.market,
                    market_bids: s.dex.bids,
                    market_asks: s.dex.asks,
                    market_event_queue: s.dex.event_q,
                };
                if op == "s3_cancel" {
                    vec![ix(
                        accs,
                        mi::Serum3CancelOrder {
                            side: if gi(o, "side").unwrap() == 0 { Serum3Side::Bid } else { Serum3Side::Ask },
                            order_id: o["id"].as_str().unwrap().parse().unwrap(),
                        },
                    )]
                } else {
                    vec![ix(accs, mi::Serum3CancelOrderByClientOrderId { client_order_id: (u("pct") << 32) | u("cid") })]
                }
            }
            "s3_cancel_all" => {
                let si = us("s");
                let s = &self.spots[si];
                vec![ix(
                    ma::Serum3CancelAllOrders {
                        group: g,
                        account: acct(a),
                        owner: self.by(o, a),
                        open_orders: self.oo_key(a, si),
                        serum_market: s.key,
                        serum_program: dex_id(),
                        serum_market_external: s.dex.market,
                        market_bids: s.dex.bids,
                        market_asks: s.dex.asks,
                        market_event_queue: s.dex.event_q,
                    },
                    mi::Serum3CancelAllOrders { limit: u("limit") as u8 },
                )]
            }
            "s3_settle" => {
                let si = us("s");
                let s = &self.spots[si];
                let (b, q) = (&self.toks[s.base], &self.toks[s.quote]);
                let v1 = ma::Serum3SettleFunds {
                    group: g,
                    account: acct(a),
                    owner: self.by(o, a),
                    open_orders: self.oo_key(a, si),
                    serum_market: s.key,
                    serum_program: dex_id(),
                    serum_market_external: s.dex.market,
                    market_base_vault: s.dex.base_vault,
                    market_quote_vault: s.dex.quote_vault,
                    market_vault_signer: s.dex.vault_signer,
                    quote_bank: q.banks[0],
                    quote_vault: q.vaults[0],
                    base_bank: b.banks[0],
                    base_vault: b.vaults[0],
                    token_program: tp,
                };
                if flag("v1") {
                    vec![ix(v1, mi::Serum3SettleFunds {})]
                } else {
                    vec![ix(
                        ma::Serum3SettleFundsV2 { v1, v2: ma::Serum3SettleFundsV2Extra { quote_oracle: q.oracle, base_oracle: b.oracle } },
                        mi::Serum3SettleFundsV2 { fees_to_dao: gi(o, "dao").unwrap_or(1) != 0 },
                    )]
                }
            }
            "s3_liq_cancel" => {
                let si = us("s");
                let s = &self.spots[si];
                let (b, q) = (&self.toks[s.base], &self.toks[s.quote]);
                let mut x = ix(
                    ma::Serum3LiqForceCancelOrders {
                        group: g,
                        account: acct(a),
                        open_orders: self.oo_key(a, si),
                        serum_market: s.key,
                        serum_program: dex_id(),
                        serum_market_external: s.dex.market,
                        market_bids: s.dex.bids,
                        market_asks: s.dex.asks,
                        market_event_queue: s.dex.event_q,
                        market_base_vault: s.dex.base_vault,
                        market_quote_vault: s.dex.quote_vault,
                        market_vault_signer: s.dex.vault_signer,
                        quote_bank: q.banks[0],
                        quote_vault: q.vaults[0],
                        base_bank: b.banks[0],
                        base_vault: b.vaults[0],
                        token_program: tp,
                    },
                    mi::Serum3LiqForceCancelOrders { limit: u("limit") as u8 },
                );
                x.accounts.extend(self.health_accounts(a, &[], &[], &[]));
                vec![x]
            }
            // ---- flash loans
            "flash_begin" => {
                let ls: Vec<(usize, u64)> = o["loans"].as_array().unwrap().iter().map(|x| (us_(x, "t"), us_(x, "loan") as u64)).collect();
                let mut x = ix(
                    ma::FlashLoanBegin { account: acct(a), owner: self.by(o, a), token_program: tp, instructions: sysvar::instructions::id() },
                    mi::FlashLoanBegin { loan_amounts: ls.iter().map(|l| l.1).collect() },
                );
                self.flash_accs(&mut x.accounts, a, &ls, o);
                vec![x]
            }
            "flash_swap_begin" => {
                let ls: Vec<(usize, u64)> = o["loans"].as_array().unwrap().iter().map(|x| (us_(x, "t"), us_(x, "loan") as u64)).collect();
                let mut x = ix(
                    ma::FlashLoanSwapBegin {
                        account: acct(a),
                        owner: self.by(o, a),
                        input_mint: self.toks[ls[0].0].mint,
                        output_mint: self.toks[ls[1].0].mint,
                        system_program: sp,
                        token_program: tp,
                        associated_token_program: AssociatedToken::id(),
                        instructions: sysvar::instructions::id(),
                    },
                    mi::FlashLoanSwapBegin { loan_amount: ls[0].1 },
                );
                for m in x.accounts.iter_mut() {
                    if m.pubkey == self.by(o, a) {
                        m.is_writable = true
                    }
                }
                self.flash_accs(&mut x.accounts, a, &ls, o);
                vec![x]
            }
            "flash_end" => {
                let ls: Vec<(usize, u64)> = o["loans"].as_array().unwrap().iter().map(|x| (us_(x, "t"), us_(x, "loan") as u64)).collect();
                let ty = match gi(o, "type").unwrap_or(0) {
                    0 => FlashLoanType::Unknown,
                    1 => FlashLoanType::Swap,
                    _ => FlashLoanType::SwapWithoutFee,
                };
                let accs = ma::FlashLoanEnd { account: acct(a), owner: self.by(o, a), token_program: tp };
                let mut x = if flag("v1") {
                    ix(accs, mi::FlashLoanEnd { flash_loan_type: ty })
                } else {
                    ix(accs, mi::FlashLoanEndV2 { num_loans: ls.len() as u8, flash_loan_type: ty })
                };
                let ts: Vec<usize> = ls.iter().map(|l| l.0).collect();
                x.accounts.extend(self.health_accounts(a, &ts, &[], &ts));
                self.flash_tail(&mut x.accounts, a, &ls, o);
                vec![x]
            }
            // plain token transfer by a user (or from the outside world's account)
            "spl_transfer" => {
                let t = us("t");
                let (f, to) = (us("from"), us("to"));
                vec![spl_token::instruction::transfer(&tp, &self.wallet(f, t), &self.wallet(to, t), &self.users[f].owner, &[], u("n")).unwrap()]
            }
            // ---- health regions
            "region_begin" => {
                let mut x = ix(
                    ma::HealthRegionBegin { instructions: sysvar::instructions::id(), group: g, account: acct(a) },
                    mi::HealthRegionBegin {},
                );
                x.accounts.extend(self.region_accs(a, o));
                vec![x]
            }
            "region_end" => {
                let mut x = ix(ma::HealthRegionEnd { account: acct(a) }, mi::HealthRegionEnd {});
                x.accounts.extend(self.region_accs(a, o));
                vec![x]
            }
            // ---- token conditional swaps
            "tcs_create" => {
                let (bt, st) = (us("bt"), us("st"));
                let accs = ma::TokenConditionalSwapCreate {
                    group: g,
                    account: acct(a),
                    authority: self.by(o, a),
                    buy_bank: self.toks[bt].banks[0],
                    sell_bank: self.toks[st].banks[0],
                };
                let x = match us("kind") {
                    0 => ix(
                        accs,
                        mi::TokenConditionalSwapCreateV2 {
                            max_buy: u("max_buy"),
                            max_sell: u("max_sell"),
                            expiry_timestamp: gi(o, "exp").map(|x| x as u64).unwrap_or(u64::MAX),
                            price_lower_limit: gf(o, "lo").unwrap(),
                            price_upper_limit: gf(o, "hi").unwrap(),
                            price_premium_rate: gf(o, "prem").unwrap(),
                            allow_creating_deposits: flag("dep"),
                            allow_creating_borrows: flag("bor"),
                            display_price_style: TokenConditionalSwapDisplayPriceStyle::SellTokenPerBuyToken,
                            intention: TokenConditionalSwapIntention::Unknown,
                        },
                    ),
                    1 => ix(
                        accs,
                        mi::TokenConditionalSwapCreatePremiumAuction {
                            max_buy: u("max_buy"),
                            max_sell: u("max_sell"),
                            expiry_timestamp: gi(o, "exp").map(|x| x as u64).unwrap_or(u64::MAX),
                            price_lower_limit: gf(o, "lo").unwrap(),
                            price_upper_limit: gf(o, "hi").unwrap(),
                            max_price_premium_rate: gf(o, "prem").unwrap(),
                            allow_creating_deposits: flag("dep"),
                            allow_creating_borrows: flag("bor"),
                            display_price_style: TokenConditionalSwapDisplayPriceStyle::SellTokenPerBuyToken,
                            intention: TokenConditionalSwapIntention::Unknown,
                            duration_seconds: u("dur"),
                        },
                    ),
                    _ => ix(
                        accs,
                        mi::TokenConditionalSwapCreateLinearAuction {
                            max_buy: u("max_buy"),
                            max_sell: u("max_sell"),
                            expiry_timestamp: gi(o, "exp").map(|x| x as u64).unwrap_or(u64::MAX),
                            price_start: gf(o, "lo").unwrap(),
                            price_end: gf(o, "hi").unwrap(),
                            allow_creating_deposits: flag("dep"),
                            allow_creating_borrows: flag("bor"),
                            display_price_style: TokenConditionalSwapDisplayPriceStyle::SellTokenPerBuyToken,
                            start_timestamp: u("start"),
                            duration_seconds: u("dur"),
                        },
                    ),
                };
                vec![x]
            }
            "tcs_cancel" => vec![ix(
                ma::TokenConditionalSwapCancel {
                    group: g,
                    account: acct(a),
                    authority: self.by(o, a),
                    buy_bank: self.toks[us("bt")].banks[0],
                    sell_bank: self.toks[us("st")].banks[0],
                },
                mi::TokenConditionalSwapCancel { token_conditional_swap_index: us("i") as u8, token_conditional_swap_id: u("id") },
            )],
            "tcs_trigger" => {
                let l = us("l");
                let (bt, st) = (us("bt"), us("st"));
                let mut x = ix(
                    ma::TokenConditionalSwapTrigger { group: g, liqee: acct(a), liqor: acct(l), liqor_authority: self.by(o, l) },
                    mi::TokenConditionalSwapTriggerV2 {
                        token_conditional_swap_index: us("i") as u8,
                        token_conditional_swap_id: u("id"),
                        max_buy_token_to_liqee: u("mb"),
                        max_sell_token_to_liqor: u("ms"),
                        min_buy_token: u("min_buy"),
                        min_taker_price: gf(o, "min_px").unwrap_or(0.0) as f32,
                    },
                );
                x.accounts.extend(self.merged(&[a, l], &[bt, st], &[], &[bt, st]));
                vec![x]
            }
            "tcs_start" => {
                let l = us("l");
                let (bt, st) = (us("bt"), us("st"));
                let mut x = ix(
                    ma::TokenConditionalSwapStart { group: g, liqee: acct(a), liqor: acct(l), liqor_authority: self.by(o, l) },
                    mi::TokenConditionalSwapStart { token_conditional_swap_index: us("i") as u8, token_conditional_swap_id: u("id") },
                );
                x.accounts.extend(self.merged(&[a, l], &[bt, st], &[], &[bt, st]));
                vec![x]
            }
            "compute_budget" => vec![Instruction { program_id: compute_budget_id(), accounts: vec![], data: vec![2, 0, 0, 0, 0] }],
            "via_proxy" => {
                // the inner op's last instruction is called through another program
                self.build(&o["inner"])
                    .into_iter()
                    .map(|x| {
                        let mut d = x.program_id.to_bytes().to_vec();
                        d.extend_from_slice(&x.data);
                        let mut accounts = x.accounts.clone();
                        // (the called program named last or first)
                        let at = if gi(o, "pf").unwrap_or(0) == 1 { 0 } else { accounts.len() };
                        accounts.insert(at, ro(x.program_id));
                        Instruction { program_id: proxy_id(), accounts, data: d }
                    })
                    .collect()
            }
            _ => panic!("unknown op {}", op),
        };
        v
    }

    fn flash_tail(&self, v: &mut Vec<AccountMeta>, a: usize, ls: &[(usize, u64)], o: &Value) {
        let b = gi(o, "bank").unwrap_or(0) as usize;
        for l in ls {
            v.push(rw(self.toks[l.0].vaults[b.min(self.toks[l.0].vaults.len() - 1)]));
        }
        let w = gi(o, "wallet").map(|x| x as usize).unwrap_or(a);
        for l in ls {
            v.push(rw(self.wallet(w, l.0)));
        }
        v.push(ro(self.group));
    }
    fn flash_accs(&self, v: &mut Vec<AccountMeta>, a: usize, ls: &[(usize, u64)], o: &Value) {
        for l in ls {
            v.push(rw(self.toks[l.0].banks[0]));
        }
        self.flash_tail(v, a, ls, o);
    }
    fn region_accs(&self, a: usize, o: &Value) -> Vec<AccountMeta> {
        let ts: Vec<usize> = o.get("ts").and_then(|v| v.as_array()).map(|v| v.iter().map(|x| num(x) as usize).collect()).unwrap_or_default();
        let ps: Vec<usize> = o.get("ps").and_then(|v| v.as_array()).map(|v| v.iter().map(|x| num(x) as usize).collect()).unwrap_or_default();
        self.merged(&[a], &ts, &ps, &[])
    }
    pub fn oracle_of(&self, o: &Value) -> Pubkey {
        if let Some(t) = gi(o, "t") {
            if gi(o, "fb").unwrap_or(0) != 0 {
                self.toks[t as usize].fallback
            } else {
                self.toks[t as usize].oracle
            }
        } else {
            self.perps[gi(o, "p").unwrap() as usize].oracle
        }
    }
}
fn us_(o: &Value, k: &str) -> usize {
    gi(o, k).unwrap_or(0) as usize
}
