//! Direct drivers of single components: one JSON line per observed behaviour.
use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};

pub type Out = BufWriter<std::fs::File>;
pub fn emit(o: &mut Out, v: Value) {
    serde_json::to_writer(&mut *o, &v).unwrap();
    o.write_all(b"\n").unwrap();
}
pub fn cases(path: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(path).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect()
}
/// numbers as the specification reads them: small ones as integers, others as decimal strings
pub fn num(n: i128) -> Value {
    if n.unsigned_abs() < (1 << 31) - 1 {
        Value::from(n as i64)
    } else {
        Value::from(n.to_string())
    }
}

pub fn run(kind: &str, input: &str, n: usize, out: &str) {
    let mut o = BufWriter::new(std::fs::File::create(out).unwrap());
    match kind {
        #[cfg(feature = "u_margin")]
        "margin" => crate::unit_margin::replay(&cases(input), &mut o),
        #[cfg(feature = "u_margin")]
        "margin_random" => crate::unit_margin::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_tree")]
        "tree" => crate::unit_tree::replay(&cases(input), &mut o),
        #[cfg(feature = "u_tree")]
        "tree_random" => crate::unit_tree::random(input.parse().unwrap(), n, false, &mut o),
        #[cfg(feature = "u_tree")]
        "tree_full" => crate::unit_tree::random(input.parse().unwrap(), n, true, &mut o),
        #[cfg(feature = "u_queue")]
        "queue" => crate::unit_queue::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_oracle")]
        "oracle" => crate::unit_oracle::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_acct")]
        "acct" => crate::unit_acct::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_stable")]
        "stable" => crate::unit_stable::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_tcs")]
        "tcs" => crate::unit_tcs::random(input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_perp")]
        k if k.starts_with("perp_") => crate::unit_perp::random(k, input.parse().unwrap(), n, &mut o),
        #[cfg(feature = "u_bank")]
        k if k.starts_with("bank_") => crate::unit_bank::random(k, input.parse().unwrap(), n, &mut o),
        _ => {
            let _ = (input, n);
            eprintln!("unknown unit {}", kind);
            std::process::exit(3)
        }
    }
    o.flush().unwrap();
}
