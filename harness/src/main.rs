//! Executes plans against tsfile-writer and records what happened, as one JSON
//! object per line. It performs calls and dumps results and bytes; all judging is
//! done by the TLA+ specification in ../spec.
mod json;
mod sync;
mod writer;

use std::io::Read;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(String::as_str).unwrap_or("");
    let mut plan = String::new();
    std::io::stdin().read_to_string(&mut plan).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    match mode {
        "writer" => writer::main(&plan),
        "threads" => writer::threads(&plan),
        "interleaved" => writer::interleaved(&plan),
        "codes" => writer::codes(),
        "bulk" => writer::bulk(&plan),
        "sync" => sync::main(&plan),
        _ => {
            eprintln!("usage: harness writer|threads|interleaved|codes|bulk|sync < plan");
            std::process::exit(2);
        }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn leak(bytes: Vec<u8>) -> &'static str {
    Box::leak(String::from_utf8(bytes).unwrap().into_boxed_str())
}
