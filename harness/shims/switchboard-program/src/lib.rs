//! Offline stand-in (switchboard v1 fast round result).
pub struct FastRoundResult {
    pub result: f64,
    pub min_response: f64,
    pub max_response: f64,
    pub round_open_slot: u64,
}
pub struct FastRoundResultAccountData {
    pub result: FastRoundResult,
}
impl FastRoundResultAccountData {
    pub fn deserialize(d: &[u8]) -> Result<Self, ()> {
        if d.len() < 40 {
            return Err(());
        }
        let f = |i: usize| f64::from_le_bytes(d[i..i + 8].try_into().unwrap());
        Ok(Self {
            result: FastRoundResult {
                result: f(8),
                min_response: f(16),
                max_response: f(24),
                round_open_slot: u64::from_le_bytes(d[32..40].try_into().unwrap()),
            },
        })
    }
}
