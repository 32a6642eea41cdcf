//! The event queue: random histories of pushes, pops and reverted pushes on the real ring buffer.
use crate::gen::Rng;
use crate::state::n;
use crate::unit::{emit, Out};
use mango_v4::state::*;
use serde_json::{json, Value};

fn zeroed() -> Box<EventQueue> {
    unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<EventQueue>()) as *mut EventQueue) }
}
fn tag(e: &AnyEvent) -> i64 {
    i64::from_le_bytes(e.padding[7..15].try_into().unwrap())
}
fn look(q: &EventQueue) -> Value {
    json!({"ev": q.iter().map(|e| n(tag(e))).collect::<Vec<_>>(), "n": q.len(), "seq": n(q.header.seq_num), "empty": q.is_empty() as i64, "full": q.full() as i64,
        "front": q.peek_front().map(|e| n(tag(e))).unwrap_or(n(-1))})
}
pub fn random(seed: u64, lines: usize, o: &mut Out) {
    let mut r = Rng::new(seed);
    let mut written = 0;
    while written < lines {
        let mut q = zeroed();
        let mut id = r.below(1000) as i64;
        // get close to the interesting places first
        let skip = *r.pick(&[0u64, 3, 480, 487]);
        let fill = *r.pick(&[0u64, 2, 470, 486, 488]);
        for _ in 0..skip {
            let mut e: AnyEvent = bytemuck::Zeroable::zeroed();
            e.padding[7..15].copy_from_slice(&id.to_le_bytes());
            let _ = q.push_back(e);
            let _ = q.pop_front();
        }
        for _ in 0..fill {
            let mut e: AnyEvent = bytemuck::Zeroable::zeroed();
            e.padding[7..15].copy_from_slice(&id.to_le_bytes());
            id += 1;
            let _ = q.push_back(e);
        }
        let grow = *r.pick(&[20u64, 50, 80]);
        for _ in 0..(8 + r.below(24)) {
            let pre = look(&q);
            let (op, res) = if r.chance(grow) {
                let mut e: AnyEvent = bytemuck::Zeroable::zeroed();
                id += 1;
                e.padding[7..15].copy_from_slice(&id.to_le_bytes());
                let x = q.push_back(e);
                (json!({"f": "push", "id": n(id)}), json!({"ok": x.is_ok() as i64, "out": x.err().map(|e| n(tag(&e))).unwrap_or(n(-1))}))
            } else if r.chance(80) {
                let x = q.pop_front();
                (json!({"f": "pop"}), json!({"ok": x.is_ok() as i64, "out": x.ok().map(|e| n(tag(&e))).unwrap_or(n(-1))}))
            } else {
                let len = q.len();
                let want = if r.chance(80) { len.saturating_sub(r.below(4) as usize) } else { len + r.below(3) as usize };
                let x = q.revert_pushes(want);
                (json!({"f": "revert", "to": want}), json!({"ok": x.is_ok() as i64, "out": -1}))
            };
            emit(o, json!({"k": "queue", "op": op, "res": res, "pre": pre, "post": look(&q)}));
            written += 1;
        }
    }
}
