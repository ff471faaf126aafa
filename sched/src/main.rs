//! Runs the concurrent scenarios of the registry in the interpreter Miri, which chooses the schedule of the
//! threads from a seed and may switch threads at every step of the program. It judges nothing.
//!
//! usage: sched SCENARIOS.ndjson OUT.ndjson START
#[path = "../../harness/src/conc.rs"]
mod conc;

use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use std::sync::Arc as R;

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("tool: missing {k}"))
}

pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"r": "panic"}))
}

pub fn variant<E: std::fmt::Debug>(e: &E) -> String {
    let d = format!("{e:?}");
    d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let start: usize = a[3].parse().unwrap();
    for (n, line) in std::fs::read_to_string(&a[1]).expect("tool: scenarios").lines().enumerate().skip(start) {
        let sc: Value = serde_json::from_str(line).unwrap();
        let mut o = conc::registry(&sc);
        o["n"] = json!(n);
        let mut out = std::fs::OpenOptions::new().append(true).open(&a[2]).expect("tool: out");
        out.write_all(format!("{o}\n").as_bytes()).unwrap();
    }
}
