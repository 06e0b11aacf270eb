//! The library without `std`, behind a pipe: one JSON case per line in, its answers out.

#![allow(dead_code)]

#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/layout.rs"]
mod layout;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/plain.rs"]
mod plain;

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = out.lock();
    for l in std::io::stdin().lock().lines() {
        let l = l.expect("line");
        let c: plain::Case = serde_json::from_str(&l).expect("case");
        let a = plain::answers(&c);
        serde_json::to_writer(&mut out, &a).expect("answers");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}
