//! A mango group with tokens, perp markets, spot markets and users; operations (JSON objects) are turned
//! into the instructions a client would send.
use crate::dex::{self, DexMarket};
use crate::rt::*;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_lang::{InstructionData, ToAccountMetas};
use fixed::types::I80F48;
use mango_v4::accounts as ma;
use mango_v4::instruction as mi;
use mango_v4::state::*;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::{system_program, sysvar};

pub fn named_key(s: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(s.as_bytes()).to_bytes())
}
pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &mango_v4::id()).0
}
pub fn put_mint(rt: &mut Rt, key: Pubkey, decimals: u8) {
    let m = spl_token::state::Mint {
        mint_authority: None.into(),
        supply: 1 << 62,
        decimals,
        is_initialized: true,
        freeze_authority: None.into(),
    };
    let mut d = vec![0u8; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut d);
    rt.accs.insert(key, Acc { lamports: 1_000_000_000, data: d, owner: spl_token::id(), executable: false });
}
pub fn put_token_account(rt: &mut Rt, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let a = spl_token::state::Account {
        mint,
        owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    let mut d = vec![0u8; spl_token::state::Account::LEN];
    a.pack_into_slice(&mut d);
    rt.accs.insert(key, Acc { lamports: 1_000_000_000, data: d, owner: spl_token::id(), executable: false });
}
pub fn token_amount(rt: &Rt, key: &Pubkey) -> u64 {
    match rt.accs.get(key) {
        Some(a) if a.data.len() == 165 => u64::from_le_bytes(a.data[64..72].try_into().unwrap()),
        _ => 0,
    }
}
pub fn set_token_amount(rt: &mut Rt, key: &Pubkey, n: u64) {
    rt.get_mut(key).data[64..72].copy_from_slice(&n.to_le_bytes());
}
pub fn ata(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(
        &[wallet.as_ref(), spl_token::id().as_ref(), mint.as_ref()],
        &spl_associated_token_account::id(),
    )
    .0
}

#[derive(Clone)]
pub struct Tok {
    pub idx: u16,
    pub dec: u8,
    pub mint: Pubkey,
    pub info: Pubkey,
    pub oracle: Pubkey,
    pub fallback: Pubkey,
    pub banks: Vec<Pubkey>,
    pub vaults: Vec<Pubkey>,
}
#[derive(Clone)]
pub struct Perp {
    pub idx: u16,
    pub key: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub eq: Pubkey,
    pub oracle: Pubkey,
    pub settle: usize,
}
#[derive(Clone)]
pub struct Spot {
    pub idx: u16,
    pub key: Pubkey,
    pub base: usize,
    pub quote: usize,
    pub dex: std::rc::Rc<DexMarket>,
    pub bl: u64,
    pub ql: u64,
}
#[derive(Clone)]
pub struct User {
    pub name: String,
    pub owner: Pubkey,
    pub acct: Pubkey,
    pub num: u32,
}
#[derive(Clone)]
pub struct World {
    pub rt: Rt,
    pub group: Pubkey,
    pub admin: Pubkey,
    pub fast: Pubkey,
    pub sec: Pubkey,
    pub payer: Pubkey,
    pub toks: Vec<Tok>,
    pub perps: Vec<Perp>,
    pub spots: Vec<Spot>,
    pub users: Vec<User>,
    pub insurance: Pubkey,
    pub gnum: u32,
    /// tokens left out of the health accounts being built
    pub drop: std::cell::RefCell<Vec<usize>>,
}

pub struct Dict;
impl Dict {
    pub fn pk(&self, o: &Value, k: &str) -> Option<Pubkey> {
        o.get(k).and_then(|v| v.as_str()).map(|s| {
            if s == "none" {
                Pubkey::default()
            } else {
                s.parse().unwrap_or_else(|_| named_key(s))
            }
        })
    }
}
pub fn num(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128)).unwrap_or_else(|| n.as_f64().unwrap() as i128),
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
        Value::Bool(b) => *b as i128,
        _ => panic!("num {:?}", v),
    }
}
pub fn gi(o: &Value, k: &str) -> Option<i128> {
    o.get(k).filter(|v| !v.is_null()).map(num)
}
pub fn gf(o: &Value, k: &str) -> Option<f64> {
    o.get(k).filter(|v| !v.is_null()).map(|v| match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_f64().unwrap(),
    })
}
fn f32d(o: &Value, k: &str) -> Option<f32> {
    gf(o, k).map(|x| x as f32)
}
fn f64d(o: &Value, k: &str) -> Option<f64> {
    gf(o, k)
}
fn u64d(o: &Value, k: &str) -> Option<u64> {
    gi(o, k).map(|x| x as u64)
}
fn i64d(o: &Value, k: &str) -> Option<i64> {
    gi(o, k).map(|x| x as i64)
}
fn u32d(o: &Value, k: &str) -> Option<u32> {
    gi(o, k).map(|x| x as u32)
}
fn u16d(o: &Value, k: &str) -> Option<u16> {
    gi(o, k).map(|x| x as u16)
}
fn u8d(o: &Value, k: &str) -> Option<u8> {
    gi(o, k).map(|x| x as u8)
}
fn boold(o: &Value, k: &str) -> Option<bool> {
    gi(o, k).map(|x| x != 0)
}
fn strd(o: &Value, k: &str) -> Option<String> {
    o.get(k).and_then(|v| v.as_str()).map(|s| s.to_string())
}
fn oc(o: &Value) -> Option<OracleConfigParams> {
    f32d(o, "conf_filter").map(|c| OracleConfigParams { conf_filter: c, max_staleness_slots: u32d(o, "max_staleness_slots") })
}
fn irp(o: &Value) -> Option<mango_v4::accounts_ix::InterestRateParams> {
    f32d(o, "util0").map(|u| mango_v4::accounts_ix::InterestRateParams {
        util0: u,
        rate0: f32d(o, "rate0").unwrap(),
        util1: f32d(o, "util1").unwrap(),
        rate1: f32d(o, "rate1").unwrap(),
        max_rate: f32d(o, "max_rate").unwrap(),
        adjustment_factor: f32d(o, "adjustment_factor").unwrap(),
    })
}

pub fn ix_token_register(o: &Value, d: &Dict) -> mango_v4::instruction::TokenRegister {
    mango_v4::instruction::TokenRegister {
        token_index: u16d(o, "token_index").unwrap_or_default(),
        name: strd(o, "name").unwrap_or_default(),
        oracle_config: oc(o).unwrap(),
        interest_rate_params: irp(o).unwrap(),
        loan_fee_rate: f32d(o, "loan_fee_rate").unwrap_or_default(),
        loan_origination_fee_rate: f32d(o, "loan_origination_fee_rate").unwrap_or_default(),
        maint_asset_weight: f32d(o, "maint_asset_weight").unwrap_or_default(),
        init_asset_weight: f32d(o, "init_asset_weight").unwrap_or_default(),
        maint_liab_weight: f32d(o, "maint_liab_weight").unwrap_or_default(),
        init_liab_weight: f32d(o, "init_liab_weight").unwrap_or_default(),
        liquidation_fee: f32d(o, "liquidation_fee").unwrap_or_default(),
        stable_price_delay_interval_seconds: u32d(o, "stable_price_delay_interval_seconds").unwrap_or_default(),
        stable_price_delay_growth_limit: f32d(o, "stable_price_delay_growth_limit").unwrap_or_default(),
        stable_price_growth_limit: f32d(o, "stable_price_growth_limit").unwrap_or_default(),
        min_vault_to_deposits_ratio: f64d(o, "min_vault_to_deposits_ratio").unwrap_or_default(),
        net_borrow_limit_window_size_ts: u64d(o, "net_borrow_limit_window_size_ts").unwrap_or_default(),
        net_borrow_limit_per_window_quote: i64d(o, "net_borrow_limit_per_window_quote").unwrap_or_default(),
        borrow_weight_scale_start_quote: f64d(o, "borrow_weight_scale_start_quote").unwrap_or_default(),
        deposit_weight_scale_start_quote: f64d(o, "deposit_weight_scale_start_quote").unwrap_or_default(),
        reduce_only: u8d(o, "reduce_only").unwrap_or_default(),
        token_conditional_swap_taker_fee_rate: f32d(o, "token_conditional_swap_taker_fee_rate").unwrap_or_default(),
        token_conditional_swap_maker_fee_rate: f32d(o, "token_conditional_swap_maker_fee_rate").unwrap_or_default(),
        flash_loan_swap_fee_rate: f32d(o, "flash_loan_swap_fee_rate").unwrap_or_default(),
        interest_curve_scaling: f32d(o, "interest_curve_scaling").unwrap_or_default(),
        interest_target_utilization: f32d(o, "interest_target_utilization").unwrap_or_default(),
        group_insurance_fund: boold(o, "group_insurance_fund").unwrap_or(false),
        deposit_limit: u64d(o, "deposit_limit").unwrap_or_default(),
        zero_util_rate: f32d(o, "zero_util_rate").unwrap_or_default(),
        platform_liquidation_fee: f32d(o, "platform_liquidation_fee").unwrap_or_default(),
        disable_asset_liquidation: boold(o, "disable_asset_liquidation").unwrap_or(false),
        collateral_fee_per_day: f32d(o, "collateral_fee_per_day").unwrap_or_default(),
        tier: strd(o, "tier").unwrap_or_default(),
    }
}
pub fn ix_token_edit(o: &Value, d: &Dict) -> mango_v4::instruction::TokenEdit {
    mango_v4::instruction::TokenEdit {
        oracle_opt: d.pk(o, "oracle"),
        oracle_config_opt: oc(o),
        group_insurance_fund_opt: boold(o, "group_insurance_fund"),
        interest_rate_params_opt: irp(o),
        loan_fee_rate_opt: f32d(o, "loan_fee_rate"),
        loan_origination_fee_rate_opt: f32d(o, "loan_origination_fee_rate"),
        maint_asset_weight_opt: f32d(o, "maint_asset_weight"),
        init_asset_weight_opt: f32d(o, "init_asset_weight"),
        maint_liab_weight_opt: f32d(o, "maint_liab_weight"),
        init_liab_weight_opt: f32d(o, "init_liab_weight"),
        liquidation_fee_opt: f32d(o, "liquidation_fee"),
        stable_price_delay_interval_seconds_opt: u32d(o, "stable_price_delay_interval_seconds"),
        stable_price_delay_growth_limit_opt: f32d(o, "stable_price_delay_growth_limit"),
        stable_price_growth_limit_opt: f32d(o, "stable_price_growth_limit"),
        min_vault_to_deposits_ratio_opt: f64d(o, "min_vault_to_deposits_ratio"),
        net_borrow_limit_per_window_quote_opt: i64d(o, "net_borrow_limit_per_window_quote"),
        net_borrow_limit_window_size_ts_opt: u64d(o, "net_borrow_limit_window_size_ts"),
        borrow_weight_scale_start_quote_opt: f64d(o, "borrow_weight_scale_start_quote"),
        deposit_weight_scale_start_quote_opt: f64d(o, "deposit_weight_scale_start_quote"),
        reset_stable_price: boold(o, "reset_stable_price").unwrap_or(false),
        reset_net_borrow_limit: boold(o, "reset_net_borrow_limit").unwrap_or(false),
        reduce_only_opt: u8d(o, "reduce_only"),
        name_opt: strd(o, "name"),
        force_close_opt: boold(o, "force_close"),
        token_conditional_swap_taker_fee_rate_opt: f32d(o, "token_conditional_swap_taker_fee_rate"),
        token_conditional_swap_maker_fee_rate_opt: f32d(o, "token_conditional_swap_maker_fee_rate"),
        flash_loan_swap_fee_rate_opt: f32d(o, "flash_loan_swap_fee_rate"),
        interest_curve_scaling_opt: f32d(o, "interest_curve_scaling"),
        interest_target_utilization_opt: f32d(o, "interest_target_utilization"),
        maint_weight_shift_start_opt: u64d(o, "maint_weight_shift_start"),
        maint_weight_shift_end_opt: u64d(o, "maint_weight_shift_end"),
        maint_weight_shift_asset_target_opt: f32d(o, "maint_weight_shift_asset_target"),
        maint_weight_shift_liab_target_opt: f32d(o, "maint_weight_shift_liab_target"),
        maint_weight_shift_abort: boold(o, "maint_weight_shift_abort").unwrap_or(false),
        set_fallback_oracle: boold(o, "set_fallback_oracle").unwrap_or(false),
        deposit_limit_opt: u64d(o, "deposit_limit"),
        zero_util_rate_opt: f32d(o, "zero_util_rate"),
        platform_liquidation_fee_opt: f32d(o, "platform_liquidation_fee"),
        disable_asset_liquidation_opt: boold(o, "disable_asset_liquidation"),
        collateral_fee_per_day_opt: f32d(o, "collateral_fee_per_day"),
        force_withdraw_opt: boold(o, "force_withdraw"),
        tier_opt: strd(o, "tier"),
    }
}
pub fn ix_perp_create_market(o: &Value, d: &Dict) -> mango_v4::instruction::PerpCreateMarket {
    mango_v4::instruction::PerpCreateMarket {
        perp_market_index: u16d(o, "perp_market_index").unwrap(),
        name: strd(o, "name").unwrap_or_default(),
        oracle_config: oc(o).unwrap(),
        base_decimals: u8d(o, "base_decimals").unwrap_or_default(),
        quote_lot_size: i64d(o, "quote_lot_size").unwrap_or_default(),
        base_lot_size: i64d(o, "base_lot_size").unwrap_or_default(),
        maint_base_asset_weight: f32d(o, "maint_base_asset_weight").unwrap_or_default(),
        init_base_asset_weight: f32d(o, "init_base_asset_weight").unwrap_or_default(),
        maint_base_liab_weight: f32d(o, "maint_base_liab_weight").unwrap_or_default(),
        init_base_liab_weight: f32d(o, "init_base_liab_weight").unwrap_or_default(),
        maint_overall_asset_weight: f32d(o, "maint_overall_asset_weight").unwrap_or_default(),
        init_overall_asset_weight: f32d(o, "init_overall_asset_weight").unwrap_or_default(),
        base_liquidation_fee: f32d(o, "base_liquidation_fee").unwrap_or_default(),
        maker_fee: f32d(o, "maker_fee").unwrap_or_default(),
        taker_fee: f32d(o, "taker_fee").unwrap_or_default(),
        min_funding: f32d(o, "min_funding").unwrap_or_default(),
        max_funding: f32d(o, "max_funding").unwrap_or_default(),
        impact_quantity: i64d(o, "impact_quantity").unwrap_or_default(),
        group_insurance_fund: boold(o, "group_insurance_fund").unwrap_or(false),
        fee_penalty: f32d(o, "fee_penalty").unwrap_or_default(),
        settle_fee_flat: f32d(o, "settle_fee_flat").unwrap_or_default(),
        settle_fee_amount_threshold: f32d(o, "settle_fee_amount_threshold").unwrap_or_default(),
        settle_fee_fraction_low_health: f32d(o, "settle_fee_fraction_low_health").unwrap_or_default(),
        settle_token_index: u16d(o, "settle_token_index").unwrap_or_default(),
        settle_pnl_limit_factor: f32d(o, "settle_pnl_limit_factor").unwrap_or_default(),
        settle_pnl_limit_window_size_ts: u64d(o, "settle_pnl_limit_window_size_ts").unwrap_or_default(),
        positive_pnl_liquidation_fee: f32d(o, "positive_pnl_liquidation_fee").unwrap_or_default(),
        platform_liquidation_fee: f32d(o, "platform_liquidation_fee").unwrap_or_default(),
    }
}
pub fn ix_perp_edit_market(o: &Value, d: &Dict) -> mango_v4::instruction::PerpEditMarket {
    mango_v4::instruction::PerpEditMarket {
        oracle_opt: d.pk(o, "oracle"),
        oracle_config_opt: oc(o),
        base_decimals_opt: u8d(o, "base_decimals"),
        maint_base_asset_weight_opt: f32d(o, "maint_base_asset_weight"),
        init_base_asset_weight_opt: f32d(o, "init_base_asset_weight"),
        maint_base_liab_weight_opt: f32d(o, "maint_base_liab_weight"),
        init_base_liab_weight_opt: f32d(o, "init_base_liab_weight"),
        maint_overall_asset_weight_opt: f32d(o, "maint_overall_asset_weight"),
        init_overall_asset_weight_opt: f32d(o, "init_overall_asset_weight"),
        base_liquidation_fee_opt: f32d(o, "base_liquidation_fee"),
        maker_fee_opt: f32d(o, "maker_fee"),
        taker_fee_opt: f32d(o, "taker_fee"),
        min_funding_opt: f32d(o, "min_funding"),
        max_funding_opt: f32d(o, "max_funding"),
        impact_quantity_opt: i64d(o, "impact_quantity"),
        group_insurance_fund_opt: boold(o, "group_insurance_fund"),
        fee_penalty_opt: f32d(o, "fee_penalty"),
        settle_fee_flat_opt: f32d(o, "settle_fee_flat"),
        settle_fee_amount_threshold_opt: f32d(o, "settle_fee_amount_threshold"),
        settle_fee_fraction_low_health_opt: f32d(o, "settle_fee_fraction_low_health"),
        stable_price_delay_interval_seconds_opt: u32d(o, "stable_price_delay_interval_seconds"),
        stable_price_delay_growth_limit_opt: f32d(o, "stable_price_delay_growth_limit"),
        stable_price_growth_limit_opt: f32d(o, "stable_price_growth_limit"),
        settle_pnl_limit_factor_opt: f32d(o, "settle_pnl_limit_factor"),
        settle_pnl_limit_window_size_ts_opt: u64d(o, "settle_pnl_limit_window_size_ts"),
        reduce_only_opt: boold(o, "reduce_only"),
        reset_stable_price: boold(o, "reset_stable_price").unwrap_or(false),
        positive_pnl_liquidation_fee_opt: f32d(o, "positive_pnl_liquidation_fee"),
        name_opt: strd(o, "name"),
        force_close_opt: boold(o, "force_close"),
        platform_liquidation_fee_opt: f32d(o, "platform_liquidation_fee"),
    }
}
pub fn ix_group_edit(o: &Value, d: &Dict) -> mango_v4::instruction::GroupEdit {
    mango_v4::instruction::GroupEdit {
        admin_opt: d.pk(o, "admin"),
        fast_listing_admin_opt: d.pk(o, "fast_listing_admin"),
        security_admin_opt: d.pk(o, "security_admin"),
        testing_opt: u8d(o, "testing"),
        version_opt: u8d(o, "version"),
        deposit_limit_quote_opt: u64d(o, "deposit_limit_quote"),
        buyback_fees_opt: boold(o, "buyback_fees"),
        buyback_fees_bonus_factor_opt: f32d(o, "buyback_fees_bonus_factor"),
        buyback_fees_swap_mango_account_opt: d.pk(o, "buyback_fees_swap_mango_account"),
        mngo_token_index_opt: u16d(o, "mngo_token_index"),
        buyback_fees_expiry_interval_opt: u64d(o, "buyback_fees_expiry_interval"),
        allowed_fast_listings_per_interval_opt: u16d(o, "allowed_fast_listings_per_interval"),
        collateral_fee_interval_opt: u64d(o, "collateral_fee_interval"),
    }
}

pub fn ix(a: impl ToAccountMetas, i: impl InstructionData) -> Instruction {
    Instruction { program_id: mango_v4::id(), accounts: a.to_account_metas(None), data: i.data() }
}
fn ixr(a: impl ToAccountMetas, i: impl InstructionData, rest: Vec<AccountMeta>) -> Instruction {
    let mut x = ix(a, i);
    x.accounts.extend(rest);
    x
}
pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rw(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn fx(v: f64) -> I80F48 {
    I80F48::from_num(v)
}
pub fn merge(mut base: Value, over: &Value) -> Value {
    if let (Some(b), Some(o)) = (base.as_object_mut(), over.as_object()) {
        for (k, v) in o {
            b.insert(k.clone(), v.clone());
        }
    }
    base
}

pub fn token_defaults() -> Value {
    json!({
        "name": "T", "conf_filter": 0.1, "max_staleness_slots": null,
        "util0": 0.4, "rate0": 0.07, "util1": 0.8, "rate1": 0.9, "max_rate": 1.5, "adjustment_factor": 0.01,
        "loan_fee_rate": 0.0005, "loan_origination_fee_rate": 0.0005,
        "maint_asset_weight": 0.8, "init_asset_weight": 0.6, "maint_liab_weight": 1.2, "init_liab_weight": 1.4,
        "liquidation_fee": 0.02, "stable_price_delay_interval_seconds": 3600,
        "stable_price_delay_growth_limit": 0.06, "stable_price_growth_limit": 0.0003,
        "min_vault_to_deposits_ratio": 0.1, "net_borrow_limit_window_size_ts": 86400,
        "net_borrow_limit_per_window_quote": -1, "borrow_weight_scale_start_quote": 1e18,
        "deposit_weight_scale_start_quote": 1e18, "reduce_only": 0,
        "token_conditional_swap_taker_fee_rate": 0.0, "token_conditional_swap_maker_fee_rate": 0.0,
        "flash_loan_swap_fee_rate": 0.0, "interest_curve_scaling": 1.0, "interest_target_utilization": 0.5,
        "group_insurance_fund": true, "deposit_limit": 0, "zero_util_rate": 0.0, "platform_liquidation_fee": 0.0,
        "disable_asset_liquidation": false, "collateral_fee_per_day": 0.0, "tier": "A"
    })
}
pub fn perp_defaults() -> Value {
    json!({
        "name": "P", "conf_filter": 0.1, "max_staleness_slots": null, "base_decimals": 6,
        "quote_lot_size": 10, "base_lot_size": 100,
        "maint_base_asset_weight": 0.975, "init_base_asset_weight": 0.95,
        "maint_base_liab_weight": 1.025, "init_base_liab_weight": 1.05,
        "maint_overall_asset_weight": 1.0, "init_overall_asset_weight": 1.0,
        "base_liquidation_fee": 0.0125, "maker_fee": 0.0002, "taker_fee": 0.0004,
        "min_funding": -0.05, "max_funding": 0.05, "impact_quantity": 10, "group_insurance_fund": true,
        "fee_penalty": 5.0, "settle_fee_flat": 0.0, "settle_fee_amount_threshold": 0.0,
        "settle_fee_fraction_low_health": 0.0, "settle_token_index": 0, "settle_pnl_limit_factor": 0.2,
        "settle_pnl_limit_window_size_ts": 86400, "positive_pnl_liquidation_fee": 0.0, "platform_liquidation_fee": 0.0
    })
}

impl World {
    pub fn new() -> Self {
        Self::new_num(0)
    }
    pub fn new_num(gnum: u32) -> Self {
        let mut rt = Rt::new();
        Self::setup(&mut rt, gnum)
    }
    /// A second group in the same runtime (for substitution tests) is made by `setup` on a shared rt
    pub fn setup(rt: &mut Rt, gnum: u32) -> Self {
        let n = |s: &str| named_key(&if gnum == 0 { s.to_string() } else { format!("g{}-{}", gnum, s) });
        let admin = n("admin");
        let payer = named_key("payer");
        for k in [admin, payer, n("fast"), n("sec")] {
            rt.accs.insert(k, Acc { lamports: 1_000_000_000_000_000, owner: system_program::id(), ..Default::default() });
        }
        let usdc = n("mint-0");
        if !rt.accs.contains_key(&usdc) {
            put_mint(rt, usdc, 6);
        }
        let group = pda(&[b"Group", admin.as_ref(), &gnum.to_le_bytes()]);
        let insurance = pda(&[b"InsuranceVault", group.as_ref()]);
        let mut w = World {
            rt: rt.clone(),
            group,
            admin,
            fast: n("fast"),
            sec: n("sec"),
            payer,
            toks: vec![],
            perps: vec![],
            spots: vec![],
            users: vec![],
            insurance,
            gnum,
            drop: Default::default(),
        };
        w.must(&[ix(
            ma::GroupCreate {
                group,
                creator: admin,
                insurance_mint: usdc,
                insurance_vault: insurance,
                payer,
                token_program: spl_token::id(),
                system_program: system_program::id(),
                rent: sysvar::rent::id(),
            },
            mi::GroupCreate { group_num: gnum, testing: 1, version: 2 },
        )]);
        w.apply(&json!({"op":"group_edit","fast_listing_admin":w.fast.to_string(),"security_admin":w.sec.to_string()})).unwrap();
        w
    }
    pub fn must(&mut self, ixs: &[Instruction]) {
        if let Err(e) = self.run(ixs) {
            for m in self.rt.msgs() {
                eprintln!("  log: {}", m);
            }
            panic!("setup transaction failed: {:?}", e);
        }
    }
    /// signs for every required signer
    pub fn run(&mut self, ixs: &[Instruction]) -> std::result::Result<(), TxErr> {
        let mut s: Vec<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey)).collect();
        s.sort();
        s.dedup();
        self.rt.tx(ixs, &s)
    }
    pub fn add_stub_oracle(&mut self, name: &str, mint: Pubkey, price: f64) -> Pubkey {
        let oracle = named_key(&format!("g{}-oracle-{}", self.gnum, name));
        self.must(&[ix(
            ma::StubOracleCreate {
                group: self.group,
                oracle,
                admin: self.admin,
                mint,
                payer: self.payer,
                system_program: system_program::id(),
            },
            mi::StubOracleCreate { price: fx(price) },
        )]);
        oracle
    }
    /// registers a token and returns its position in `toks`
    pub fn add_token(&mut self, dec: u8, price: f64, over: Value) -> usize {
        let t = self.plan_token(dec, price, over.get("fallback").and_then(|v| v.as_f64()));
        let mut o = merge(merge(token_defaults(), &json!({"name": format!("T{}", t)})), &over);
        o["op"] = json!("token_register");
        o["t"] = json!(t);
        let ixs = self.build_plain(&o);
        self.must(&ixs);
        t
    }
    /// a mint with oracles that is not listed yet
    pub fn plan_token(&mut self, dec: u8, price: f64, fallback: Option<f64>) -> usize {
        let idx = self.toks.len() as u16;
        let mint = named_key(&if self.gnum == 0 { format!("mint-{}", idx) } else { format!("g{}-mint-{}", self.gnum, idx) });
        if !self.rt.accs.contains_key(&mint) {
            put_mint(&mut self.rt, mint, dec);
        }
        let oracle = self.add_stub_oracle(&format!("t{}", idx), mint, price);
        let fallback = match fallback {
            Some(p) => self.add_stub_oracle(&format!("fb{}", idx), mint, p),
            None => Pubkey::default(),
        };
        let g = self.group;
        self.toks.push(Tok {
            idx,
            dec,
            mint,
            info: pda(&[b"MintInfo", g.as_ref(), mint.as_ref()]),
            oracle,
            fallback,
            banks: vec![self.bank_key(idx, 0)],
            vaults: vec![self.vault_key(idx, 0)],
        });
        self.toks.len() - 1
    }
    pub fn exists(&self, k: &Pubkey) -> bool {
        self.rt.accs.get(k).map(|a| a.data.len() > 8 && a.owner == mango_v4::id()).unwrap_or(false)
    }
    pub fn bank_key(&self, idx: u16, n: u32) -> Pubkey {
        pda(&[b"Bank", self.group.as_ref(), &idx.to_le_bytes(), &n.to_le_bytes()])
    }
    pub fn vault_key(&self, idx: u16, n: u32) -> Pubkey {
        pda(&[b"Vault", self.group.as_ref(), &idx.to_le_bytes(), &n.to_le_bytes()])
    }
    pub fn add_bank(&mut self, t: usize) {
        let o = json!({"op":"token_add_bank","t":t,"num":self.toks[t].banks.len()});
        self.apply(&o).unwrap();
    }
    pub fn add_perp(&mut self, price: f64, over: Value) -> usize {
        let p = self.plan_perp(price, gi(&over, "settle_token_index").unwrap_or(0) as usize);
        let mut o = merge(perp_defaults(), &over);
        o["op"] = json!("perp_create");
        o["p"] = json!(p);
        self.blank_perp(p);
        let ixs = self.build_plain(&o);
        self.must(&ixs);
        p
    }
    /// empty accounts for the order book of a market to be created
    pub fn blank_perp(&mut self, p: usize) {
        let p = &self.perps[p];
        for (key, n) in [(p.bids, std::mem::size_of::<BookSide>()), (p.asks, std::mem::size_of::<BookSide>()), (p.eq, std::mem::size_of::<EventQueue>())] {
            if !self.rt.accs.get(&key).map(|a| !a.data.is_empty()).unwrap_or(false) {
                self.rt.accs.insert(key, Acc { lamports: 10_000_000_000, data: vec![0; n + 8], owner: mango_v4::id(), executable: false });
            }
        }
    }
    /// a perp market that does not exist yet
    pub fn plan_perp(&mut self, price: f64, settle: usize) -> usize {
        let idx = self.perps.len() as u16;
        let g = self.group;
        let mint = self.toks[0].mint;
        let oracle = self.add_stub_oracle(&format!("p{}", idx), mint, price);
        let k = |s: &str| named_key(&format!("g{}-perp{}-{}", self.gnum, idx, s));
        let p = Perp {
            idx,
            key: pda(&[b"PerpMarket", g.as_ref(), &idx.to_le_bytes()]),
            bids: k("bids"),
            asks: k("asks"),
            eq: k("eq"),
            oracle,
            settle,
        };
        self.perps.push(p);
        self.perps.len() - 1
    }
    pub fn add_spot(&mut self, base: usize, quote: usize, bl: u64, ql: u64, band: f32) -> usize {
        let s = self.plan_spot(base, quote, bl, ql);
        let o = json!({"op":"s3_register","s":s,"oracle_price_band":band});
        let ixs = self.build_plain(&o);
        self.must(&ixs);
        s
    }
    /// a spot market that is not registered yet
    pub fn plan_spot(&mut self, base: usize, quote: usize, bl: u64, ql: u64) -> usize {
        let idx = self.spots.len() as u16;
        let (bt, qt) = (self.toks[base].clone(), self.toks[quote].clone());
        let m = dex::create_market(&mut self.rt, &format!("g{}-{}", self.gnum, idx), bt.mint, qt.mint, bl, ql);
        let g = self.group;
        let key = pda(&[b"Serum3Market", g.as_ref(), m.market.as_ref()]);
        // the outside world's inventory
        set_token_amount(&mut self.rt, &m.base_vault, 1 << 50);
        set_token_amount(&mut self.rt, &m.quote_vault, 1 << 50);
        self.spots.push(Spot { idx, key, base, quote, dex: std::rc::Rc::new(m), bl, ql });
        self.spots.len() - 1
    }
    /// adds an account; `owner` None means a fresh owner
    pub fn add_user(&mut self, owner: Option<Pubkey>, counts: [u8; 5], funds: u64) -> usize {
        let i = self.users.len();
        let name = format!("{}{}", if self.gnum == 0 { "A".to_string() } else { format!("G{}A", self.gnum) }, i);
        let owner = owner.unwrap_or_else(|| named_key(&format!("owner-{}", name)));
        let num = 10 + i as u32;
        let acct = pda(&[b"MangoAccount", self.group.as_ref(), owner.as_ref(), &num.to_le_bytes()]);
        if !self.rt.accs.contains_key(&owner) {
            self.rt.accs.insert(owner, Acc { lamports: 1_000_000_000_000, owner: system_program::id(), ..Default::default() });
        }
        for t in self.toks.clone() {
            let a = ata(&owner, &t.mint);
            if !self.rt.accs.contains_key(&a) {
                put_token_account(&mut self.rt, a, t.mint, owner, funds);
            }
        }
        self.must(&[ix(
            ma::AccountCreateV2 { account: acct, owner, group: self.group, payer: self.payer, system_program: system_program::id() },
            mi::AccountCreateV2 {
                account_num: num,
                token_count: counts[0],
                serum3_count: counts[1],
                perp_count: counts[2],
                perp_oo_count: counts[3],
                token_conditional_swap_count: counts[4],
                name: name.clone(),
            },
        )]);
        self.users.push(User { name, owner, acct, num });
        i
    }

    // ---- reading -----------------------------------------------------------------------------------------
    pub fn account(&self, a: usize) -> Option<MangoAccountValue> {
        let acc = self.rt.accs.get(&self.users[a].acct)?;
        if acc.data.len() < 8 || acc.owner != mango_v4::id() {
            return None;
        }
        MangoAccountValue::from_bytes(&acc.data[8..]).ok()
    }
    pub fn zc<T: bytemuck::Pod>(&self, k: &Pubkey) -> &T {
        bytemuck::from_bytes(&self.rt.get(k).data[8..8 + std::mem::size_of::<T>()])
    }
    pub fn bank(&self, t: usize, b: usize) -> &Bank {
        self.zc(&self.toks[t].banks[b])
    }
    pub fn perp(&self, p: usize) -> &PerpMarket {
        self.zc(&self.perps[p].key)
    }
    pub fn oracle_price(&self, t: usize) -> I80F48 {
        let o: &StubOracle = self.zc(&self.toks[t].oracle);
        o.price
    }
    pub fn wallet(&self, a: usize, t: usize) -> Pubkey {
        ata(&self.users[a].owner, &self.toks[t].mint)
    }
    pub fn oo_key(&self, a: usize, s: usize) -> Pubkey {
        pda(&[b"Serum3OO", self.users[a].acct.as_ref(), self.spots[s].key.as_ref()])
    }

    /// Health accounts for one account, with extra tokens/perps about to be activated in the first free slots
    pub fn health_accounts(&self, a: usize, extra_tok: &[usize], extra_perp: &[usize], wr: &[usize]) -> Vec<AccountMeta> {
        self.health_accounts_oo(a, extra_tok, extra_perp, wr, &[])
    }
    pub fn health_accounts_oo(&self, a: usize, extra_tok: &[usize], extra_perp: &[usize], wr: &[usize], extra_spot: &[usize]) -> Vec<AccountMeta> {
        let acc = match self.account(a) {
            Some(x) => x,
            None => return vec![],
        };
        let mut toks: Vec<Option<u16>> = acc.all_token_positions().map(|p| if p.is_active() { Some(p.token_index) } else { None }).collect();
        for &t in extra_tok {
            let i = self.toks[t].idx;
            if !toks.contains(&Some(i)) {
                if let Some(s) = toks.iter_mut().find(|x| x.is_none()) {
                    *s = Some(i);
                }
            }
        }
        let mut perps: Vec<Option<u16>> = acc.all_perp_positions().map(|p| if p.is_active() { Some(p.market_index) } else { None }).collect();
        for &t in extra_perp {
            let i = self.perps[t].idx;
            if !perps.contains(&Some(i)) {
                if let Some(s) = perps.iter_mut().find(|x| x.is_none()) {
                    *s = Some(i);
                }
            }
        }
        let mut oos: Vec<Pubkey> = acc.active_serum3_orders().map(|s| s.open_orders).collect();
        for &s in extra_spot {
            let k = self.oo_key(a, s);
            if !oos.contains(&k) {
                oos.push(k)
            }
        }
        self.metas(&toks.into_iter().flatten().collect::<Vec<_>>(), &perps.into_iter().flatten().collect::<Vec<_>>(), &oos, wr)
    }
    fn metas(&self, toks: &[u16], perps: &[u16], oos: &[Pubkey], wr: &[usize]) -> Vec<AccountMeta> {
        let ts: Vec<usize> = toks.iter().filter_map(|i| self.toks.iter().position(|t| t.idx == *i)).filter(|t| !self.drop.borrow().contains(t)).collect();
        let ps: Vec<usize> = perps.iter().filter_map(|i| self.perps.iter().position(|t| t.idx == *i)).collect();
        let mut v = vec![];
        for t in &ts {
            let k = self.toks[*t].banks[0];
            v.push(if wr.contains(t) { rw(k) } else { ro(k) });
        }
        for t in &ts {
            v.push(ro(self.toks[*t].oracle));
        }
        for p in &ps {
            v.push(ro(self.perps[*p].key));
        }
        for p in &ps {
            v.push(ro(self.perps[*p].oracle));
        }
        for o in oos {
            v.push(ro(*o));
        }
        for t in &ts {
            if self.toks[*t].fallback != Pubkey::default() {
                v.push(ro(self.toks[*t].fallback));
            }
        }
        v
    }
    /// Union for several accounts, for the scanning retriever
    pub fn merged(&self, accs: &[usize], extra_tok: &[usize], extra_perp: &[usize], wr: &[usize]) -> Vec<AccountMeta> {
        let (mut toks, mut perps, mut oos): (Vec<u16>, Vec<u16>, Vec<Pubkey>) = Default::default();
        for &a in accs {
            if let Some(acc) = self.account(a) {
                toks.extend(acc.active_token_positions().map(|p| p.token_index));
                perps.extend(acc.active_perp_positions().map(|p| p.market_index));
                oos.extend(acc.active_serum3_orders().map(|p| p.open_orders));
            }
        }
        toks.extend(extra_tok.iter().map(|t| self.toks[*t].idx));
        perps.extend(extra_perp.iter().map(|t| self.perps[*t].idx));
        fn uniq<T: PartialEq + Copy>(v: Vec<T>) -> Vec<T> {
            let mut r = vec![];
            for x in v {
                if !r.contains(&x) {
                    r.push(x)
                }
            }
            r
        }
        self.metas(&uniq(toks), &uniq(perps), &uniq(oos), wr)
    }

    pub fn apply(&mut self, op: &Value) -> std::result::Result<(), TxErr> {
        if self.env(op) {
            return Ok(());
        }
        let made = self.conjure(op);
        if op["op"] == "perp_create" {
            self.blank_perp(gi(op, "p").unwrap() as usize);
        }
        let ixs = self.build(op);
        let r = self.run(&ixs);
        if let (true, Some(i)) = (r.is_ok(), gi(op, "idx")) {
            // listed under an index other than planned
            let i = i as u16;
            let g = self.group;
            match op["op"].as_str().unwrap() {
                "token_register" | "token_register_trustless" => {
                    let t = gi(op, "t").unwrap() as usize;
                    let (b, v) = (self.bank_key(i, 0), self.vault_key(i, 0));
                    self.toks[t].idx = i;
                    self.toks[t].banks = vec![b];
                    self.toks[t].vaults = vec![v];
                }
                "perp_create" => {
                    let p = &mut self.perps[gi(op, "p").unwrap() as usize];
                    p.idx = i;
                    p.key = pda(&[b"PerpMarket", g.as_ref(), &i.to_le_bytes()]);
                }
                "s3_register" => self.spots[gi(op, "s").unwrap() as usize].idx = i,
                _ => {}
            }
        }
        if r.is_ok() && op["op"] == "token_add_bank" {
            let t = gi(op, "t").unwrap() as usize;
            let n = gi(op, "num").unwrap() as u32;
            let (b, v) = (self.bank_key(self.toks[t].idx, n), self.vault_key(self.toks[t].idx, n));
            if !self.toks[t].banks.contains(&b) {
                self.toks[t].banks.push(b);
                self.toks[t].vaults.push(v);
            }
        }
        for k in made {
            self.rt.accs.remove(&k);
        }
        r
    }
    /// Environment steps: not transactions
    pub fn env(&mut self, op: &Value) -> bool {
        match op["op"].as_str().unwrap() {
            "assess" | "client" => true,
            "clock" => {
                let dt = gi(op, "dt").unwrap();
                self.rt.clock.unix_timestamp += dt as i64;
                self.rt.clock.slot += gi(op, "ds").unwrap_or(dt * 2) as u64;
                true
            }
            // an account as older versions of the program allocated it: larger than its slots need
            "legacy_pad" => {
                let k = self.users[gi(op, "a").unwrap() as usize].acct;
                if self.rt.accs.contains_key(&k) {
                    let d = &mut self.rt.get_mut(&k).data;
                    let l = d.len() + gi(op, "n").unwrap() as usize;
                    d.resize(l, 0);
                }
                true
            }
            "dex_fill" => {
                let s = self.spots[gi(op, "s").unwrap() as usize].clone();
                dex::maker_fill(&mut self.rt, &s.dex, gi(op, "i").unwrap() as usize, gi(op, "lots").unwrap() as u64, gi(op, "rebate").unwrap_or(0) as u64);
                true
            }
            "fund_insurance" => {
                let k = self.insurance;
                let n = gi(op, "n").unwrap() as u64;
                set_token_amount(&mut self.rt, &k, n);
                true
            }
            _ => false,
        }
    }
}
