//! The stable price model by itself: histories of updates at irregular times and prices.
//! A line: {f: "update" | "reset", now, px, sp, sp2, idx}
use crate::gen::Rng;
use crate::state::{f48, n, stable};
use crate::unit::{emit, Out};
use mango_v4::state::*;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn random(seed: u64, want: usize, o: &mut Out) {
    let mut r = Rng::new(seed * 104_729 + 3);
    let mut written = 0;
    while written < want {
        let mut m = StablePriceModel::default();
        m.delay_interval_seconds = *r.pick(&[3600u32, 3600, 60, 11, 1000]);
        m.delay_growth_limit = *r.pick(&[0.06f32, 0.0, 0.5, 1.0]);
        m.stable_growth_limit = *r.pick(&[0.0003f32, 0.0003, 0.0, 0.001, 0.01]);
        let mut now = 1_700_000_000 + r.below(1_000_000);
        let mut px = if r.chance(20) { 0.0 } else { *r.pick(&[1e-4, 0.3, 1.0, 25.0, 40_000.0]) * (0.5 + r.f()) };
        m.reset_to_price(px, now);
        m.last_delay_interval_index = m.delay_interval_index(now);
        if r.chance(50) {
            for k in 0..24 {
                m.delay_prices[k] = px * (0.5 + r.f());
            }
            m.stable_price = px * (0.5 + r.f());
        }
        for _ in 0..(4 + r.below(12)) {
            let d = m.delay_interval_seconds as u64;
            now += match r.below(12) {
                0 => 0,
                1 => 9,
                2 => 10,
                3 => 600,
                4 => 601,
                5 => d - (now % d),
                6 => d * (1 + r.below(23)),
                7 => 24 * d + r.below(3) - 1,
                8 => 24 * d + 1 + r.below(3 * d),
                9 => d * 24 - (now % (d * 24)) + r.below(2) * d,
                _ => 11 + r.below(d),
            };
            let back = if r.chance(3) { r.below(30) } else { 0 };
            px = match r.below(10) {
                0 => px * 10.0,
                1 => px / 10.0,
                2 => 0.0,
                3 => 1.0 + r.f(),
                4 => m.stable_price,
                _ => px * (0.95 + 0.1 * r.f()),
            };
            let f = if r.chance(4) { "reset" } else { "update" };
            let m0 = m;
            let t = now - back;
            let ok = catch_unwind(AssertUnwindSafe(|| if f == "reset" { m.reset_to_price(px, t) } else { m.update(t, px) })).is_ok();
            emit(o, json!({"f": f, "now": n(t), "px": f48(px), "sp": stable(&m0), "sp2": stable(&m), "idx": n(m0.delay_interval_index(t)), "ok": ok as i64}));
            written += 1;
            if !ok {
                break;
            }
        }
    }
}
