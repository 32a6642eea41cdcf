//! Stand-in for anchor-client: its error type.
#[derive(Debug)]
pub enum ClientError {
    AccountNotFound,
    SolanaClientError(solana_client::client_error::ClientError),
}
impl std::fmt::Display for ClientError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for ClientError {}
impl From<solana_client::client_error::ClientError> for ClientError {
    fn from(e: solana_client::client_error::ClientError) -> Self {
        ClientError::SolanaClientError(e)
    }
}
