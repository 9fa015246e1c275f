//! Runtime monitors for wadec: drives the real decoder with generated, mutated
//! and enumerated inputs and decides the properties in /verif/properties.jsonl
//! by oracles over the recorded executions.
#![allow(dead_code)]
mod alloc;
mod bridge;
mod bridge_ins;
mod ctx;
mod dict;
mod digest;
mod enc;
#[path = "gen.rs"]
mod gen_;
mod lib_;
mod model;
mod observe;
mod ph_cli;
mod ph_diag;
mod ph_diff;
mod ph_eq;
mod ph_io;
mod ph_probe;
mod ph_res;
mod ph_twin;
mod ph_walk;
mod proc_;
mod props;
mod readers;
mod refdec;
mod runner;
mod spec;
mod util;

use ctx::Tier;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!(
        "usage: wadec-monitor run|work|one --property ID --tier quick|thorough --seed N --evidence FILE --replays DIR --work DIR [--only PHASE] [--phase P --idx N]\n       wadec-monitor replay FILE | decode HEX | list"
    );
    std::process::exit(2)
}

/// Keys of the lines `finding: property=ID key=KEY ...` for this property.
fn listed(file: &str, id: &str) -> std::collections::BTreeSet<String> {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let mut v = std::collections::BTreeSet::new();
    for l in text.lines() {
        let mut w = l.split_whitespace();
        if w.next() == Some("finding:")
            && w.next().and_then(|x| x.strip_prefix("property=")) == Some(id)
            && let Some(k) = w.next().and_then(|x| x.strip_prefix("key="))
        {
            v.insert(k.to_string());
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else { usage() };
    match &cmd[..] {
        "helper" => std::process::exit(ph_res::helper(&args[1..])),
        // The committed baseline of literals is this, for the unchanged tree.
        "literals" => {
            print!("{}", dict::baseline());
            return;
        }
        "dict" => {
            println!("{:?}", dict::dict());
            return;
        }
        "chains" => {
            // which messages each fault yields, numbers masked
            observe::hook();
            let mut all: std::collections::BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
            let mut add = |b: &[u8]| {
                if let (Err(f), _) = refdec::decode(b)
                    && let observe::Out::Err(e) = observe::decode(b)
                    && !f.ambiguous
                {
                    let mut t = observe::chain(&e);
                    for x in &mut t {
                        let m: String = x.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                        *x = util::clip(&m, 160);
                    }
                    t.dedup();
                    let op = f.op.map(|o| format!("{o:X}")).unwrap_or_default();
                    all.entry(format!("{} {} {} op={op}", f.sec.map_or("-", model::section_name), f.role, f.cause.tag())).or_default().insert(t.join(" <- "));
                }
            };
            let mut r = util::Rng::new(9, "chains", 0);
            for _ in 0..args.get(1).and_then(|x| x.parse().ok()).unwrap_or(3) {
                for s in lib_::int_spots() {
                    for b in [&[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80][..], &[0xFF; 12], &[0x80; 4], &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F], &[0x7F]] {
                        add(&s.with(b.to_vec()));
                    }
                }
                for s in lib_::byte_spots() {
                    for x in 0..=255u8 {
                        add(&s.with(vec![x]));
                    }
                }
                for s in lib_::spots().values().flatten() {
                    let b = s.with(r.bytes(3));
                    add(&b);
                    let b = s.with(vec![]);
                    add(&b);
                    let n = b.len() - r.usize(b.len().min(20));
                    add(&b[..n]);
                }
            }
            for (k, v) in all {
                println!("{k}");
                for x in v {
                    println!("      {x}");
                }
            }
            return;
        }
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
                for ph in (p.phases)() {
                    println!("  {} quick {} thorough {}", ph.name, ph.quick, ph.thorough);
                }
            }
            return;
        }
        "decode" => {
            let b = args.get(1).and_then(|h| util::unhex(h)).unwrap_or_else(|| usage());
            observe::hook();
            println!("reference: {:?}", refdec::decode(&b));
            let o = observe::decode(&b);
            println!("wadec: {}", o.brief());
            if let observe::Out::Ok(m) = &o {
                println!("{:?}", bridge::module(m));
            }
            return;
        }
        // Runs the case a replay file names again (build the harness first).
        "replay" => {
            let t = std::fs::read_to_string(args.get(1).unwrap_or_else(|| usage())).unwrap_or_else(|_| usage());
            let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix('=')).unwrap_or_default().to_string();
            let prop = props::PROPS.iter().find(|p| p.id == field("property")).unwrap_or_else(|| usage());
            let dir = std::env::temp_dir().join(format!("wadec-monitor-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&dir);
            let o = runner::Opts {
                prop,
                tier: if field("tier") == "thorough" { Tier::Thorough } else { Tier::Quick },
                seed: field("seed").parse().unwrap_or(1),
                evidence: dir.join("evidence.json"),
                replays: dir.clone(),
                workdir: dir.clone(),
                only: None,
                listed: Default::default(),
            };
            println!("{} {}/{}: {}", prop.id, field("phase"), field("idx"), field("what"));
            let code = runner::one(&o, &field("phase"), field("idx").parse().unwrap_or(0));
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(code);
        }
        "run" | "work" | "one" => {}
        _ => usage(),
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = get("--property").unwrap_or_else(|| usage());
    let prop = props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let o = runner::Opts {
        prop,
        tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        evidence: PathBuf::from(get("--evidence").unwrap_or_else(|| usage())),
        replays: PathBuf::from(get("--replays").unwrap_or_else(|| usage())),
        workdir: PathBuf::from(get("--work").unwrap_or_else(|| usage())),
        only: get("--only"),
        listed: get("--known").map(|f| listed(&f, prop.id)).unwrap_or_default(),
    };
    if let Err(e) = std::fs::create_dir_all(&o.workdir) {
        eprintln!("monitor: cannot create {}: {e}", o.workdir.display());
        std::process::exit(2);
    }
    let code = match &cmd[..] {
        "run" => runner::supervise(&o, &args[1..]),
        "work" => runner::work(&o),
        _ => runner::one(&o, &get("--phase").unwrap_or_default(), get("--idx").and_then(|s| s.parse().ok()).unwrap_or(0)),
    };
    std::process::exit(code);
}
