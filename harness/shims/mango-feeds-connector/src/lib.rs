//! Stand-in for mango-feeds-connector: metrics that only count, and the connector's fork-aware account cache.
use solana_sdk::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub struct AccountWrite {
    pub pubkey: Pubkey,
    pub slot: u64,
    pub write_version: u64,
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub rent_epoch: u64,
    pub data: Vec<u8>,
    pub is_selected: bool,
}
#[derive(Clone, Debug)]
pub struct SlotUpdate {
    pub slot: u64,
    pub parent: Option<u64>,
    pub status: chain_data::SlotStatus,
}

pub mod metrics {
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Arc;
    pub enum MetricType {
        Counter,
        Gauge,
    }
    #[derive(Clone, Default)]
    pub struct Metrics {}
    #[derive(Clone, Default)]
    pub struct MetricU64(Arc<AtomicU64>);
    pub type MetricI64 = MetricU64;
    impl MetricU64 {
        pub fn value(&self) -> u64 {
            self.0.load(Ordering::Relaxed)
        }
        pub fn set(&mut self, v: u64) {
            self.0.store(v, Ordering::Relaxed)
        }
        pub fn set_max(&mut self, v: u64) {
            self.0.fetch_max(v, Ordering::Relaxed);
        }
        pub fn add(&mut self, v: u64) {
            self.0.fetch_add(v, Ordering::Relaxed);
        }
        pub fn increment(&mut self) {
            self.add(1)
        }
        pub fn decrement(&mut self) {
            self.0.fetch_sub(1, Ordering::Relaxed);
        }
    }
    impl Metrics {
        pub fn register_u64(&self, _name: String, _t: MetricType) -> MetricU64 {
            MetricU64::default()
        }
        pub fn register_i64(&self, _name: String, _t: MetricType) -> MetricI64 {
            MetricU64::default()
        }
    }
}

pub mod chain_data {
    use super::metrics::*;
    use solana_sdk::account::{AccountSharedData, ReadableAccount};
    use solana_sdk::pubkey::Pubkey;
    use std::collections::HashMap;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SlotStatus {
        Rooted,
        Confirmed,
        Processed,
    }
    #[derive(Clone, Debug)]
    pub struct SlotData {
        pub slot: u64,
        pub parent: Option<u64>,
        pub status: SlotStatus,
        pub chain: u64,
    }
    #[derive(Clone, Debug)]
    pub struct AccountData {
        pub slot: u64,
        pub write_version: u64,
        pub account: AccountSharedData,
    }
    impl AccountData {
        pub fn is_newer_than(&self, slot: u64, write_version: u64) -> bool {
            (self.slot > slot) || (self.slot == slot && self.write_version > write_version)
        }
    }
    #[derive(Default)]
    pub struct ChainData {
        slots: HashMap<u64, SlotData>,
        accounts: HashMap<Pubkey, Vec<AccountData>>,
        newest_rooted_slot: u64,
        newest_processed_slot: u64,
        best_chain_slot: u64,
    }
    impl ChainData {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn update_slot(&mut self, new_slot: SlotData) {
            let new_processed_head = new_slot.slot > self.newest_processed_slot;
            if new_processed_head {
                self.newest_processed_slot = new_slot.slot;
            }
            let new_rooted_head = new_slot.slot > self.newest_rooted_slot && new_slot.status == SlotStatus::Rooted;
            if new_rooted_head {
                self.newest_rooted_slot = new_slot.slot;
            }
            let id = new_slot.slot;
            let mut parent_update = false;
            match self.slots.get_mut(&id) {
                None => {
                    self.slots.insert(id, new_slot);
                }
                Some(v) => {
                    parent_update = v.parent != new_slot.parent && new_slot.parent.is_some();
                    v.parent = v.parent.or(new_slot.parent);
                    if v.status != SlotStatus::Rooted {
                        v.status = new_slot.status;
                    }
                }
            }
            if new_processed_head || parent_update {
                self.best_chain_slot = self.newest_processed_slot;
                let mut at = self.newest_processed_slot;
                while let Some(s) = self.slots.get_mut(&at) {
                    s.chain = self.newest_processed_slot;
                    match s.parent {
                        Some(p) if p < at => at = p,
                        _ => break,
                    }
                }
            }
            if new_rooted_head {
                let root = self.newest_rooted_slot;
                for (_, writes) in self.accounts.iter_mut() {
                    let newest_rooted = writes
                        .iter()
                        .rev()
                        .find(|w| {
                            self.slots
                                .get(&w.slot)
                                .map(|s| s.status == SlotStatus::Rooted || s.chain == self.newest_processed_slot && w.slot <= root)
                                .unwrap_or(w.slot <= root)
                                && w.slot <= root
                        })
                        .map(|w| w.slot)
                        .unwrap_or(0);
                    writes.retain(|w| w.slot == newest_rooted || w.slot > root);
                }
                let newest_processed = self.newest_processed_slot;
                self.slots.retain(|s, d| *s >= root || d.chain == newest_processed && *s == root);
            }
        }
        pub fn update_account(&mut self, pubkey: Pubkey, account: AccountData) {
            let writes = self.accounts.entry(pubkey).or_default();
            match writes.iter().rposition(|w| w.slot <= account.slot) {
                None => writes.insert(0, account),
                Some(i) if writes[i].slot == account.slot => {
                    if writes[i].write_version <= account.write_version {
                        writes[i] = account;
                    }
                }
                Some(i) => writes.insert(i + 1, account),
            }
        }
        fn live(&self, w: &AccountData) -> bool {
            self.slots
                .get(&w.slot)
                .map(|s| s.status == SlotStatus::Rooted || s.chain == self.newest_processed_slot)
                .unwrap_or(w.slot <= self.newest_rooted_slot)
        }
        pub fn account<'a>(&'a self, pubkey: &Pubkey) -> anyhow::Result<&'a AccountData> {
            self.accounts
                .get(pubkey)
                .and_then(|v| v.iter().rev().find(|w| self.live(w)))
                .ok_or_else(|| anyhow::anyhow!("account {} has no live data", pubkey))
        }
        pub fn slots_count(&self) -> usize {
            self.slots.len()
        }
        pub fn accounts_count(&self) -> usize {
            self.accounts.len()
        }
        pub fn account_writes_count(&self) -> usize {
            self.accounts.values().map(|v| v.len()).sum()
        }
        pub fn account_bytes(&self) -> usize {
            self.accounts.values().flatten().map(|w| w.account.data().len()).sum()
        }
        pub fn best_chain_slot(&self) -> u64 {
            self.best_chain_slot
        }
    }
    pub struct ChainDataMetrics {
        writes: MetricU64,
    }
    impl ChainDataMetrics {
        pub fn new(m: &Metrics) -> Self {
            Self { writes: m.register_u64("chaindata_account_writes".into(), MetricType::Gauge) }
        }
        pub fn report(&mut self, c: &ChainData) {
            self.writes.set(c.account_writes_count() as u64);
        }
    }
}
pub mod account_write_filter {
    use super::chain_data::AccountData;
    use super::*;
    #[async_trait::async_trait]
    pub trait AccountWriteSink {
        async fn process(&self, pubkey: &Pubkey, account: &AccountData) -> Result<(), String>;
    }
}
