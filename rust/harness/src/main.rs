//! Line-oriented driver around the real backend code: one JSON request per line on stdin, one JSON
//! answer per line on stdout. It only converts data; every verdict is made by the monitors that
//! drive it.
mod containers;
mod discovery;
mod logs;
mod patterns;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

pub fn names_log(v: &Value) -> Vec<Vec<String>> {
    v.as_array().unwrap().iter().map(strings).collect()
}

pub fn u64_log(v: &Value) -> Vec<Vec<u64>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().iter().map(|e| e.as_u64().unwrap()).collect())
        .collect()
}

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

fn dispatch(op: &str, a: &Value) -> Value {
    match op {
        "repeats" => patterns::repeats(a),
        "find" => patterns::find(a),
        "tandem" => patterns::tandem(a),
        "repeat_sets" => patterns::repeat_sets(a),
        "tree" => patterns::tree(a),
        "activities" => patterns::activities(a),
        "info" => logs::info(a),
        "entropy" => logs::entropy(a),
        "mutate" => logs::mutate(a),
        "xes" => logs::xes(a),
        "lifecycle" => logs::lifecycle(a),
        "hashes" => logs::hashes(a),
        "alpha" => discovery::alpha(a),
        "heuristic" => discovery::heuristic(a),
        "fuzzy" => discovery::fuzzy(a),
        "net" => discovery::net(a),
        "intervals" => containers::intervals(a),
        "sets" => containers::sets(a),
        "graph" => containers::graph(a),
        "distance" => containers::distance(a),
        "userdata" => containers::userdata(a),
        _ => panic!("harness: unknown op {}", op),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let request: Value = serde_json::from_str(&line).unwrap();
        let op = request["op"].as_str().unwrap().to_string();
        let answer = match catch_unwind(AssertUnwindSafe(|| dispatch(&op, &request))) {
            Ok(v) => json!({ "ok": v }),
            Err(e) => {
                let text = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                };
                json!({ "panic": text })
            }
        };
        let mut out = stdout.lock();
        writeln!(out, "{}", answer).unwrap();
        out.flush().unwrap();
    }
}
