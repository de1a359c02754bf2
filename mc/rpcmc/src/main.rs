//! C23 and C24: the RPC loop under every schedule within a preemption bound. The crate under test is compiled from
//! /repo's sources with its locks, threads, channels and clock replaced by those of mc/shim (see freshen.py).
#![allow(clippy::all)]
mod world;
mod proto;
mod broken;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C23") => proto::run(),
        Some("C24") => broken::run(),
        x => {
            eprintln!("unknown property {:?}", x);
            std::process::exit(2)
        }
    }
}
