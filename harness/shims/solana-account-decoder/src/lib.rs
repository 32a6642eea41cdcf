//! Stand-in: the encoding an RPC node is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UiAccountEncoding {
    Binary,
    Base58,
    Base64,
    JsonParsed,
    Base64Zstd,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UiDataSliceConfig {
    pub offset: usize,
    pub length: usize,
}
