//! Offline stand-in: mango-v4 only names these two types (its openbook-v2 instructions are no-ops).
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");
pub mod program {
    use super::*;
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 {
        fn id() -> Pubkey {
            super::ID
        }
    }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub base_mint: Pubkey,
        pub quote_mint: Pubkey,
        pub bids: Pubkey,
        pub asks: Pubkey,
        pub event_heap: Pubkey,
        pub market_base_vault: Pubkey,
        pub market_quote_vault: Pubkey,
    }
}
