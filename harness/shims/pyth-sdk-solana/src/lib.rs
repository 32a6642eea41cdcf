//! Offline stand-in for pyth-sdk-solana: same account layout, same names.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}
pub mod state {
    use solana_program::pubkey::Pubkey;
    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u8)]
    pub enum PriceStatus {
        Unknown,
        Trading,
        Halted,
        Auction,
        Ignored,
    }
    #[derive(Copy, Clone)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }
    #[derive(Copy, Clone)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u8,
        pub pub_slot: u64,
    }
    #[derive(Copy, Clone)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: Pubkey,
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }
    #[derive(Copy, Clone)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u8,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub message_sent: u8,
        pub max_latency: u8,
        pub drv3: i8,
        pub drv4: i32,
        pub prod: Pubkey,
        pub next: Pubkey,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, ()> {
        if data.len() < std::mem::size_of::<PriceAccount>() || data.as_ptr() as usize % 8 != 0 {
            return Err(());
        }
        let p = unsafe { &*(data.as_ptr() as *const PriceAccount) };
        if p.magic != MAGIC || p.ver != VERSION_2 || p.atype != 3 {
            return Err(());
        }
        Ok(p)
    }
}
