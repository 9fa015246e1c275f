//! Decodes a file of cases and prints what each yields, as a number. Built for
//! several platforms and profiles, with sanitizers, and run under Miri.
//!   wadec-probe FILE           one after the other
//!   wadec-probe FILE THREADS   all of them on every thread, at the same time
#![allow(dead_code)]
#[path = "../../harness/src/bridge.rs"]
mod bridge;
#[path = "../../harness/src/bridge_ins.rs"]
mod bridge_ins;
#[path = "../../harness/src/digest.rs"]
mod digest;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/spec.rs"]
mod spec;
mod util {
    pub fn clip(s: &str, _: usize) -> String {
        s.to_string()
    }
}
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// 32-bit Linux: there is a C library to run with, but no start files.
#[cfg(all(target_arch = "x86", not(miri)))]
core::arch::global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "pop esi",
    "mov ecx, esp",
    "and esp, -16",
    "push eax",
    "push esp",
    "push edx",
    "push 0",
    "push 0",
    "push ecx",
    "push esi",
    "lea eax, [main]",
    "push eax",
    "call __libc_start_main",
    "hlt",
);

fn all(v: &[u8]) {
    for (i, (mode, arg, b)) in digest::unpack(v).into_iter().enumerate() {
        // an abnormal end is traced to the case announced last
        println!("case {i}");
        let (verdict, d) = digest::run(b, mode, arg, !cfg!(miri));
        println!("{i} {verdict} {d:x}");
    }
}

/// Every thread decodes all cases, each in an order of its own; the readers
/// take tickets, so that overlap can be counted without ordering the threads.
fn threaded(v: &[u8], n: usize) {
    let cases = digest::unpack(v);
    let ticket = AtomicUsize::new(0);
    let overlapped = AtomicUsize::new(0);
    let rows: Vec<Vec<(u8, u64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (cases, ticket, overlapped) = (&cases, &ticket, &overlapped);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = vec![(9, 0); cases.len()];
                        let step = [1, 3, 7, 11, 13, 17, 19, 23][t % 8];
                        let mut k = t * 31;
                        for _ in 0..cases.len() {
                            // all threads come to each case at about the same time
                            let i = if t % 2 == 0 { k / step % cases.len() } else { k % cases.len() };
                            k += step;
                            if r[i].0 != 9 {
                                continue;
                            }
                            let (mode, arg, b) = cases[i];
                            let t0 = ticket.fetch_add(1, Relaxed);
                            r[i] = digest::run(b, mode, arg, !cfg!(miri));
                            if ticket.fetch_add(1, Relaxed) != t0 + 1 {
                                overlapped.fetch_add(1, Relaxed);
                            }
                        }
                        for (i, x) in r.iter_mut().enumerate() {
                            if x.0 == 9 {
                                *x = digest::run(cases[i].2, cases[i].0, cases[i].1, !cfg!(miri));
                            }
                        }
                        r
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut out = String::new();
    for i in 0..cases.len() {
        for r in &rows {
            let _ = std::fmt::Write::write_fmt(&mut out, format_args!("{i} {} {:x}\n", r[i].0, r[i].1));
        }
    }
    print!("{out}");
    println!("overlapped {}", overlapped.load(Relaxed));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v = std::fs::read(&a[1]).expect("cases");
    std::panic::set_hook(Box::new(|_| {}));
    let run = || match a.get(2).and_then(|x| x.parse().ok()) {
        Some(n) => threaded(&v, n),
        None => all(&v),
    };
    if cfg!(miri) {
        run();
    } else {
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).expect("thread").join().expect("run");
        });
    }
    println!(
        "done: {} bit, {} endian, {}",
        usize::BITS,
        if cfg!(target_endian = "big") { "big" } else { "little" },
        if cfg!(debug_assertions) { "checked" } else { "unchecked" }
    );
    let _ = std::io::stdout().flush();
}
