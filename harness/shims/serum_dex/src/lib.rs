//! Offline stand-in for the parts of serum_dex (openbook v1) that mango-v4 touches:
//! account layouts, instruction packing and a simple sorted-array "slab".
pub mod state {
    use bytemuck::{Pod, Zeroable};
    use solana_program::pubkey::Pubkey;

    pub fn gen_vault_signer_key(nonce: u64, market: &Pubkey, program_id: &Pubkey) -> Result<Pubkey, solana_program::program_error::ProgramError> {
        Ok(Pubkey::create_program_address(&[market.as_ref(), &nonce.to_le_bytes()], program_id)?)
    }

    pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
    pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";

    pub trait ToAlignedBytes {
        fn to_aligned_bytes(&self) -> [u64; 4];
    }
    impl ToAlignedBytes for Pubkey {
        fn to_aligned_bytes(&self) -> [u64; 4] {
            bytemuck::cast(self.to_bytes())
        }
    }

    #[derive(Copy, Clone)]
    #[repr(u64)]
    pub enum AccountFlag {
        Initialized = 1 << 0,
        Market = 1 << 1,
        OpenOrders = 1 << 2,
        RequestQueue = 1 << 3,
        EventQueue = 1 << 4,
        Bids = 1 << 5,
        Asks = 1 << 6,
        Disabled = 1 << 7,
        Closed = 1 << 8,
        Permissioned = 1 << 9,
        CrankAuthorityRequired = 1 << 10,
    }

    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct OpenOrders {
        pub account_flags: u64,
        pub market: [u64; 4],
        pub owner: [u64; 4],
        pub native_coin_free: u64,
        pub native_coin_total: u64,
        pub native_pc_free: u64,
        pub native_pc_total: u64,
        pub free_slot_bits: u128,
        pub is_bid_bits: u128,
        pub orders: [u128; 128],
        pub client_order_ids: [u64; 128],
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for OpenOrders {}
    unsafe impl Pod for OpenOrders {}

    #[derive(Copy, Clone, Debug)]
    #[repr(C, packed)]
    pub struct MarketState {
        pub account_flags: u64,
        pub own_address: [u64; 4],
        pub vault_signer_nonce: u64,
        pub coin_mint: [u64; 4],
        pub pc_mint: [u64; 4],
        pub coin_vault: [u64; 4],
        pub coin_deposits_total: u64,
        pub coin_fees_accrued: u64,
        pub pc_vault: [u64; 4],
        pub pc_deposits_total: u64,
        pub pc_fees_accrued: u64,
        pub pc_dust_threshold: u64,
        pub req_q: [u64; 4],
        pub event_q: [u64; 4],
        pub bids: [u64; 4],
        pub asks: [u64; 4],
        pub coin_lot_size: u64,
        pub pc_lot_size: u64,
        pub fee_rate_bps: u64,
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for MarketState {}
    unsafe impl Pod for MarketState {}

    impl MarketState {
        pub fn check_flags(&self, _allow_disabled: bool) -> Result<(), ()> {
            let f = self.account_flags;
            if f == AccountFlag::Initialized as u64 + AccountFlag::Market as u64 {
                Ok(())
            } else {
                Err(())
            }
        }
    }
}

pub mod critbit {
    pub type NodeHandle = u32;

    /// [count: u64][key: u128]*  (any order)
    #[repr(transparent)]
    pub struct Slab([u8]);
    impl Slab {
        pub fn new(bytes: &mut [u8]) -> &mut Self {
            unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
        }
        pub fn len(&self) -> usize {
            u64::from_le_bytes(self.0[0..8].try_into().unwrap()) as usize
        }
        pub fn key(&self, i: usize) -> u128 {
            u128::from_le_bytes(self.0[8 + 16 * i..24 + 16 * i].try_into().unwrap())
        }
        pub fn find_by_key(&self, key: u128) -> Option<NodeHandle> {
            (0..self.len()).find(|&i| self.key(i) == key).map(|i| i as u32)
        }
        pub fn insert(&mut self, key: u128) -> bool {
            let n = self.len();
            if 24 + 16 * n > self.0.len() {
                return false;
            }
            self.0[8 + 16 * n..24 + 16 * n].copy_from_slice(&key.to_le_bytes());
            self.0[0..8].copy_from_slice(&((n + 1) as u64).to_le_bytes());
            true
        }
        pub fn remove(&mut self, key: u128) -> bool {
            match self.find_by_key(key) {
                None => false,
                Some(i) => {
                    let n = self.len();
                    let last = self.key(n - 1);
                    let i = i as usize;
                    self.0[8 + 16 * i..24 + 16 * i].copy_from_slice(&last.to_le_bytes());
                    self.0[0..8].copy_from_slice(&((n - 1) as u64).to_le_bytes());
                    true
                }
            }
        }
    }
}

pub mod matching {
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum OrderType {
        Limit = 0,
        ImmediateOrCancel = 1,
        PostOnly = 2,
    }
}

pub mod instruction {
    use crate::matching::{OrderType, Side};
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    use std::num::NonZeroU64;

    #[derive(PartialEq, Eq, Copy, Clone, Debug, TryFromPrimitive, IntoPrimitive)]
    #[repr(u8)]
    pub enum SelfTradeBehavior {
        DecrementTake = 0,
        CancelProvide = 1,
        AbortTransaction = 2,
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct NewOrderInstructionV3 {
        pub side: Side,
        pub limit_price: NonZeroU64,
        pub max_coin_qty: NonZeroU64,
        pub max_native_pc_qty_including_fees: NonZeroU64,
        pub self_trade_behavior: SelfTradeBehavior,
        pub order_type: OrderType,
        pub client_order_id: u64,
        pub limit: u16,
        pub max_ts: i64,
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct CancelOrderInstructionV2 {
        pub side: Side,
        pub order_id: u128,
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub enum MarketInstruction {
        NewOrderV3(NewOrderInstructionV3),
        CancelOrderV2(CancelOrderInstructionV2),
        CancelOrderByClientIdV2(u64),
        SettleFunds,
        InitOpenOrders,
        CloseOpenOrders,
    }

    impl MarketInstruction {
        pub fn pack(&self) -> Vec<u8> {
            let mut v = vec![0u8];
            match self {
                Self::NewOrderV3(o) => {
                    v.extend(10u32.to_le_bytes());
                    v.extend((o.side as u32).to_le_bytes());
                    v.extend(o.limit_price.get().to_le_bytes());
                    v.extend(o.max_coin_qty.get().to_le_bytes());
                    v.extend(o.max_native_pc_qty_including_fees.get().to_le_bytes());
                    v.extend((o.self_trade_behavior as u32).to_le_bytes());
                    v.extend((o.order_type as u32).to_le_bytes());
                    v.extend(o.client_order_id.to_le_bytes());
                    v.extend(o.limit.to_le_bytes());
                    v.extend(o.max_ts.to_le_bytes());
                }
                Self::CancelOrderV2(c) => {
                    v.extend(11u32.to_le_bytes());
                    v.extend((c.side as u32).to_le_bytes());
                    v.extend(c.order_id.to_le_bytes());
                }
                Self::CancelOrderByClientIdV2(id) => {
                    v.extend(12u32.to_le_bytes());
                    v.extend(id.to_le_bytes());
                }
                Self::SettleFunds => v.extend(5u32.to_le_bytes()),
                Self::InitOpenOrders => v.extend(15u32.to_le_bytes()),
                Self::CloseOpenOrders => v.extend(14u32.to_le_bytes()),
            }
            v
        }

        pub fn unpack(b: &[u8]) -> Option<Self> {
            if b.len() < 5 || b[0] != 0 {
                return None;
            }
            let tag = u32::from_le_bytes(b[1..5].try_into().unwrap());
            let d = &b[5..];
            let u32_at = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
            let u64_at = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
            Some(match tag {
                10 => Self::NewOrderV3(NewOrderInstructionV3 {
                    side: Side::try_from(u32_at(0) as u8).ok()?,
                    limit_price: NonZeroU64::new(u64_at(4))?,
                    max_coin_qty: NonZeroU64::new(u64_at(12))?,
                    max_native_pc_qty_including_fees: NonZeroU64::new(u64_at(20))?,
                    self_trade_behavior: SelfTradeBehavior::try_from(u32_at(28) as u8).ok()?,
                    order_type: OrderType::try_from(u32_at(32) as u8).ok()?,
                    client_order_id: u64_at(36),
                    limit: u16::from_le_bytes(d[44..46].try_into().unwrap()),
                    max_ts: i64::from_le_bytes(d[46..54].try_into().unwrap()),
                }),
                11 => Self::CancelOrderV2(CancelOrderInstructionV2 {
                    side: Side::try_from(u32_at(0) as u8).ok()?,
                    order_id: u128::from_le_bytes(d[4..20].try_into().unwrap()),
                }),
                12 => Self::CancelOrderByClientIdV2(u64_at(0)),
                5 => Self::SettleFunds,
                15 => Self::InitOpenOrders,
                14 => Self::CloseOpenOrders,
                _ => return None,
            })
        }
    }
}
