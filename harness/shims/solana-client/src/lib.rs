//! Stand-in for solana-client: an RPC node that answers from accounts in memory.
pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub String);
    impl std::fmt::Display for ClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ClientError {}
    pub type Result<T> = std::result::Result<T, ClientError>;
}
pub mod rpc_config {
    use crate::rpc_filter::RpcFilterType;
    use crate::CommitmentConfig;
    use solana_account_decoder::{UiAccountEncoding, UiDataSliceConfig};
    #[derive(Clone, Debug, Default)]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<UiDataSliceConfig>,
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<RpcFilterType>>,
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
}
pub mod rpc_filter {
    #[derive(Clone, Debug)]
    pub struct Memcmp {
        pub offset: usize,
        pub bytes: Vec<u8>,
    }
    impl Memcmp {
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes }
        }
    }
    #[derive(Clone, Debug)]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
        TokenAccountState,
    }
    impl RpcFilterType {
        pub fn allows(&self, data: &[u8]) -> bool {
            match self {
                RpcFilterType::DataSize(n) => data.len() as u64 == *n,
                RpcFilterType::Memcmp(m) => data.get(m.offset..).map_or(false, |d| d.starts_with(&m.bytes)),
                RpcFilterType::TokenAccountState => true,
            }
        }
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct CommitmentConfig {}
pub mod rpc_response {
    #[derive(Clone, Debug)]
    pub struct Response<T> {
        pub value: T,
    }
}
pub mod nonblocking {
    pub mod rpc_client {
        use crate::client_error::{ClientError, Result};
        use crate::rpc_config::*;
        use crate::rpc_response::Response;
        use crate::CommitmentConfig;
        use solana_sdk::account::Account;
        use solana_sdk::pubkey::Pubkey;
        use std::collections::BTreeMap;
        pub struct RpcClient {
            pub accounts: BTreeMap<Pubkey, Account>,
            pub slot: u64,
        }
        impl RpcClient {
            pub fn commitment(&self) -> CommitmentConfig {
                CommitmentConfig {}
            }
            pub async fn get_account(&self, k: &Pubkey) -> Result<Account> {
                self.accounts.get(k).cloned().ok_or_else(|| ClientError(format!("AccountNotFound: pubkey={}", k)))
            }
            pub async fn get_account_data(&self, k: &Pubkey) -> Result<Vec<u8>> {
                Ok(self.get_account(k).await?.data)
            }
            pub async fn get_account_with_commitment(&self, k: &Pubkey, _c: CommitmentConfig) -> Result<Response<Option<Account>>> {
                Ok(Response { value: self.accounts.get(k).cloned() })
            }
            pub async fn get_multiple_accounts(&self, ks: &[Pubkey]) -> Result<Vec<Option<Account>>> {
                if ks.len() > 100 {
                    return Err(ClientError("Too many inputs provided; max 100".into()));
                }
                Ok(ks.iter().map(|k| self.accounts.get(k).cloned()).collect())
            }
            pub async fn get_multiple_accounts_with_config(&self, ks: &[Pubkey], _c: RpcAccountInfoConfig) -> Result<Response<Vec<Option<Account>>>> {
                Ok(Response { value: self.get_multiple_accounts(ks).await? })
            }
            pub async fn get_program_accounts_with_config(&self, p: &Pubkey, c: RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, Account)>> {
                let fs = c.filters.unwrap_or_default();
                Ok(self.accounts.iter().filter(|(_, a)| a.owner == *p && fs.iter().all(|f| f.allows(&a.data))).map(|(k, a)| (*k, a.clone())).collect())
            }
            pub async fn get_slot(&self) -> Result<u64> {
                Ok(self.slot)
            }
        }
    }
}
