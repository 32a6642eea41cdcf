//! Offline stand-in (switchboard v2 aggregator).
use bytemuck::{Pod, Zeroable};
#[derive(Copy, Clone)]
#[repr(C)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
    pub _pad: [u32; 3],
}
unsafe impl Zeroable for SwitchboardDecimal {}
unsafe impl Pod for SwitchboardDecimal {}
impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = String;
    fn try_from(v: SwitchboardDecimal) -> Result<f64, String> {
        if v.scale > 28 {
            return Err("scale".into());
        }
        Ok(v.mantissa as f64 / 10f64.powi(v.scale as i32))
    }
}
#[derive(Copy, Clone)]
#[repr(C)]
pub struct AggregatorRound {
    pub num_success: u64,
    pub round_open_slot: u64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
}
unsafe impl Zeroable for AggregatorRound {}
unsafe impl Pod for AggregatorRound {}
#[derive(Copy, Clone)]
#[repr(C)]
pub struct AggregatorAccountData {
    pub min_oracle_results: u64,
    pub _pad: u64,
    pub latest_confirmed_round: AggregatorRound,
}
unsafe impl Zeroable for AggregatorAccountData {}
unsafe impl Pod for AggregatorAccountData {}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, String> {
        if self.min_oracle_results > self.latest_confirmed_round.num_success {
            return Err("InvalidAggregatorRound".into());
        }
        Ok(self.latest_confirmed_round.result)
    }
}
