//! Stand-in for the parts of serum-dex the off-chain feeds read (with the iterators their patched version exposes).
pub mod matching {
    #[derive(Eq, PartialEq, Copy, Clone, Debug)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
}
pub mod state {
    use crate::matching::Side;
    use std::num::NonZeroU64;
    #[derive(Copy, Clone, Debug)]
    #[repr(packed)]
    pub struct Event {
        pub event_flags: u8,
        pub owner_slot: u8,
        pub fee_tier: u8,
        pub _padding: [u8; 5],
        pub native_qty_released: u64,
        pub native_qty_paid: u64,
        pub native_fee_or_rebate: u64,
        pub order_id: u128,
        pub owner: [u64; 4],
        pub client_order_id: u64,
    }
    unsafe impl bytemuck::Zeroable for Event {}
    unsafe impl bytemuck::Pod for Event {}
    #[derive(Debug)]
    pub enum EventView {
        Fill {
            side: Side,
            maker: bool,
            native_qty_paid: u64,
            native_qty_received: u64,
            native_fee_or_rebate: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            fee_tier: u8,
            client_order_id: Option<NonZeroU64>,
        },
        Out {
            side: Side,
            release_funds: bool,
            native_qty_unlocked: u64,
            native_qty_still_locked: u64,
            order_id: u128,
            owner: [u64; 4],
            owner_slot: u8,
            client_order_id: Option<NonZeroU64>,
        },
    }
}
pub mod critbit {
    use std::num::NonZeroU64;
    /// [count: u64] then [key: u128][quantity: u64][owner: 4 x u64] in ascending key order
    #[repr(transparent)]
    pub struct Slab([u8]);
    #[derive(Clone, Copy, Debug)]
    pub struct LeafNode {
        key: u128,
        quantity: u64,
        owner: [u64; 4],
    }
    impl LeafNode {
        pub fn price(&self) -> NonZeroU64 {
            NonZeroU64::new((self.key >> 64) as u64).unwrap()
        }
        pub fn quantity(&self) -> u64 {
            self.quantity
        }
        pub fn owner(&self) -> [u64; 4] {
            self.owner
        }
        pub fn order_id(&self) -> u128 {
            self.key
        }
    }
    pub const LEAF: usize = 56;
    impl Slab {
        pub fn new(bytes: &mut [u8]) -> &mut Self {
            unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
        }
        fn at(&self, i: usize) -> LeafNode {
            let b = &self.0[8 + LEAF * i..8 + LEAF * (i + 1)];
            let w = |j: usize| u64::from_le_bytes(b[j..j + 8].try_into().unwrap());
            LeafNode {
                key: u128::from_le_bytes(b[0..16].try_into().unwrap()),
                quantity: w(16),
                owner: [w(24), w(32), w(40), w(48)],
            }
        }
        /// In ascending key order, or descending.
        pub fn iter(&self, descending: bool) -> impl Iterator<Item = LeafNode> + '_ {
            let n = u64::from_le_bytes(self.0[0..8].try_into().unwrap()) as usize;
            (0..n).map(move |i| self.at(if descending { n - 1 - i } else { i }))
        }
    }
}
