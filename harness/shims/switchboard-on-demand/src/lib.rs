//! Offline stand-in (switchboard on-demand pull feed).
use bytemuck::{Pod, Zeroable};
#[derive(Copy, Clone, Debug)]
pub struct Decimal(pub f64);
impl TryFrom<Decimal> for f64 {
    type Error = String;
    fn try_from(v: Decimal) -> Result<f64, String> {
        Ok(v.0)
    }
}
#[derive(Copy, Clone)]
#[repr(C)]
pub struct CurrentResult {
    pub value: i128,
    pub std_dev: i128,
    pub slot: u64,
    pub min_slot: u64,
}
unsafe impl Zeroable for CurrentResult {}
unsafe impl Pod for CurrentResult {}
#[derive(Copy, Clone)]
#[repr(C)]
pub struct PullFeedAccountData {
    pub result: CurrentResult,
}
unsafe impl Zeroable for PullFeedAccountData {}
unsafe impl Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> {
        if self.result.slot == 0 {
            return None;
        }
        Some(Decimal(self.result.value as f64 / 1e18))
    }
    pub fn std_dev(&self) -> Option<Decimal> {
        if self.result.slot == 0 {
            return None;
        }
        Some(Decimal(self.result.std_dev as f64 / 1e18))
    }
}
