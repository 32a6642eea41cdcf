//! The client-side modules under verification and what they need from the rest of the client library:
//! an account fetcher that answers from memory.
#![allow(dead_code, unused_imports, unused_variables)]
use anchor_lang::AccountDeserialize;
use anyhow::Context;
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;

pub use context::*;

#[path = "../../mirror/client/context.rs"]
mod context;
#[path = "../../mirror/client/gpa.rs"]
pub mod gpa;
#[path = "../../mirror/client/health_cache.rs"]
pub mod health_cache;
#[path = "../../mirror/client/perp_pnl.rs"]
pub mod perp_pnl;
#[path = "../../mirror/crank/mango_v4_perp_crank_sink.rs"]
pub mod crank;

#[async_trait::async_trait]
pub trait AccountFetcher: Sync + Send {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData>;
    async fn fetch_raw_account_lookup_table(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        self.fetch_raw_account(address).await
    }
    async fn fetch_program_accounts(&self, program: &Pubkey, discriminator: [u8; 8]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>>;
    async fn fetch_multiple_accounts(&self, keys: &[Pubkey]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>>;
    async fn get_slot(&self) -> anyhow::Result<u64>;
}

pub async fn account_fetcher_fetch_anchor_account<T: AccountDeserialize>(fetcher: &dyn AccountFetcher, address: &Pubkey) -> anyhow::Result<T> {
    let account = fetcher.fetch_raw_account(address).await?;
    let mut data: &[u8] = account.data();
    T::try_deserialize(&mut data).with_context(|| format!("deserializing anchor account {}", address))
}
pub async fn account_fetcher_fetch_mango_account(fetcher: &dyn AccountFetcher, address: &Pubkey) -> anyhow::Result<mango_v4::state::MangoAccountValue> {
    let account = fetcher.fetch_raw_account(address).await?;
    mango_v4::state::MangoAccountValue::from_bytes(&account.data()[8..]).with_context(|| format!("deserializing mango account {}", address))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FallbackOracleConfig {
    Never,
    Fixed(Vec<Pubkey>),
    Dynamic,
    All,
}
impl Default for FallbackOracleConfig {
    fn default() -> Self {
        FallbackOracleConfig::Dynamic
    }
}

pub mod chain_data {
    use super::*;
    pub struct AccountFetcher(pub std::collections::BTreeMap<Pubkey, Account>);
    impl AccountFetcher {
        pub fn fetch_raw(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
            self.0.get(address).cloned().map(Into::into).ok_or_else(|| anyhow::anyhow!("account {} not found", address))
        }
    }
}

/// answers from the node's accounts
pub struct Fetcher<'a>(pub &'a RpcClient);
#[async_trait::async_trait]
impl<'a> AccountFetcher for Fetcher<'a> {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        self.0.accounts.get(address).cloned().map(Into::into).ok_or_else(|| anyhow::anyhow!("account {} not found", address))
    }
    async fn fetch_program_accounts(&self, program: &Pubkey, discriminator: [u8; 8]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        Ok(self.0.accounts.iter().filter(|(_, a)| a.owner == *program && a.data.starts_with(&discriminator)).map(|(k, a)| (*k, a.clone().into())).collect())
    }
    async fn fetch_multiple_accounts(&self, keys: &[Pubkey]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        gpa::fetch_multiple_accounts(self.0, keys).await
    }
    async fn get_slot(&self) -> anyhow::Result<u64> {
        Ok(self.0.slot)
    }
}
