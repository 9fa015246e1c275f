//! Runs a property's phases on all cores, supervises the worker process, and
//! turns observations into a verdict, evidence and replay files.
use crate::ctx::{Ctx, Failure, Focus, Stats, Tier};
use crate::observe;
use crate::util::{J, Rng, hex};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Ctx, u64);
pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// Enumerates a finite space (counts do not scale with the tier's whim).
    pub threads: usize,
}
pub fn ph(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Phase {
    Phase { name, quick, thorough, f, threads: 0 }
}
/// A phase that must run alone on few threads.
pub fn ph_t(name: &'static str, threads: usize, quick: u64, thorough: u64, f: CaseFn) -> Phase {
    Phase { name, quick, thorough, f, threads }
}

pub struct Prop {
    pub id: &'static str,
    pub focus: Focus,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: fn() -> Vec<Phase>,
    /// (counter or set, minimum): less was observed -> no verdict.
    pub need: &'static [(&'static str, u64)],
    pub level: &'static str,
}

pub struct Opts {
    pub prop: &'static Prop,
    pub tier: Tier,
    pub seed: u64,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub workdir: PathBuf,
    pub only: Option<String>,
    pub listed: BTreeSet<String>,
}

const STACK: usize = 512 << 20;

fn new_ctx(o: &Opts, phase: &'static str) -> Ctx {
    Ctx {
        seed: o.seed,
        tier: o.tier,
        phase,
        idx: 0,
        rng: Rng::new(0, "", 0),
        focus: o.prop.focus,
        st: Stats::default(),
        fails: vec![],
        known: BTreeSet::new(),
        listed: o.listed.clone(),
        harness: vec![],
        workdir: o.workdir.clone(),
        sink: None,
    }
}

fn run_case(ctx: &mut Ctx, p: &Phase, idx: u64) {
    ctx.idx = idx;
    ctx.rng = Rng::new(ctx.seed, p.name, idx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(ctx, idx)));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        ctx.harness_error(format!("monitor panicked: {m}"));
    }
}

/// Runs everything in this process. Returns the exit code.
pub fn work(o: &Opts) -> i32 {
    observe::hook();
    let t0 = Instant::now();
    let phases = (o.prop.phases)();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let slots = std::fs::File::create(o.workdir.join("slots")).expect("slots file");
    slots.set_len(32 * 64).expect("slots file");
    let beat: Vec<AtomicU64> = (0..64).map(|_| AtomicU64::new(0)).collect();
    let running: Vec<AtomicBool> = (0..64).map(|_| AtomicBool::new(false)).collect();
    let done = AtomicBool::new(false);
    let all: Mutex<(Stats, Vec<Failure>, BTreeSet<String>, Vec<String>)> = Mutex::default();
    let mut per_phase: BTreeMap<String, J> = BTreeMap::new();
    std::thread::scope(|sc| {
        // Watchdog: a case that takes minutes ends the run without a verdict
        // (the supervisor looks at it alone afterwards).
        sc.spawn(|| {
            let mut last = vec![(u64::MAX, Instant::now()); 64];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for i in 0..64 {
                    let b = beat[i].load(Ordering::Relaxed);
                    if !running[i].load(Ordering::Relaxed) || last[i].0 != b {
                        last[i] = (b, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(120) {
                        eprintln!("monitor: a case has been running for 120 s");
                        std::process::exit(3);
                    }
                }
            }
        });
        for (pi, p) in phases.iter().enumerate() {
            if o.only.as_deref().is_some_and(|n| n != p.name) {
                continue;
            }
            let n = if o.tier == Tier::Quick { p.quick } else { p.thorough };
            let t1 = Instant::now();
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let threads = if p.threads > 0 { p.threads } else { cores.min(32) };
            let batch = (n / (threads as u64 * 64)).clamp(1, 256);
            std::thread::scope(|s2| {
                for t in 0..threads.min(n.max(1) as usize) {
                    let (next, stop, all, slots, beat, running) = (&next, &stop, &all, &slots, &beat, &running);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s2, move || {
                            let mut ctx = new_ctx(o, p.name);
                            'outer: while !stop.load(Ordering::Relaxed) {
                                let from = next.fetch_add(batch, Ordering::Relaxed);
                                if from >= n {
                                    break;
                                }
                                for idx in from..(from + batch).min(n) {
                                    let mut rec = [0u8; 32];
                                    rec[0] = 1;
                                    rec[8..16].copy_from_slice(&(pi as u64).to_le_bytes());
                                    rec[16..24].copy_from_slice(&idx.to_le_bytes());
                                    let _ = slots.write_at(&rec, t as u64 * 32);
                                    running[t].store(true, Ordering::Relaxed);
                                    run_case(&mut ctx, p, idx);
                                    beat[t].fetch_add(1, Ordering::Relaxed);
                                    if ctx.fails.len() >= 3 || ctx.harness.len() >= 3 {
                                        stop.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                            running[t].store(false, Ordering::Relaxed);
                            let _ = slots.write_at(&[0u8; 32], t as u64 * 32);
                            let mut g = all.lock().unwrap();
                            g.0.merge(ctx.st);
                            g.1.extend(ctx.fails);
                            g.2.extend(ctx.known);
                            g.3.extend(ctx.harness);
                        })
                        .expect("thread");
                }
            });
            let secs = t1.elapsed().as_secs_f64();
            eprintln!("  phase {}: {} cases, {:.1} s", p.name, n, secs);
            per_phase.insert(
                p.name.into(),
                J::O([("cases".to_string(), J::N(n)), ("seconds".to_string(), J::F(secs))].into()),
            );
            let g = all.lock().unwrap();
            if !g.1.is_empty() || !g.3.is_empty() {
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let (st, mut fails, known, harness) = all.into_inner().unwrap();
    fails.sort_by(|a, b| a.input.as_ref().map(|x| x.len()).cmp(&b.input.as_ref().map(|x| x.len())).then(a.idx.cmp(&b.idx)));
    let mut short: Vec<String> = vec![];
    if o.only.is_none() && fails.is_empty() {
        for (k, min) in o.prop.need {
            let v = st
                .counters
                .get(*k)
                .copied()
                .or_else(|| st.sets.get(*k).map(|s| s.len() as u64))
                .or_else(|| st.maxima.get(*k).copied())
                .unwrap_or(0);
            if v < *min {
                short.push(format!("observed only {v} of `{k}` (need {min})"));
            }
        }
        if st.evals + st.distinct_enum == 0 {
            short.push("observed nothing".into());
        }
    }
    write_evidence(o, &st, per_phase, fails.len(), &harness, t0.elapsed().as_secs_f64());
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", o.prop.id, k);
    }
    if let Some(f) = fails.first() {
        for x in fails.iter().take(5) {
            eprintln!("violation [{}/{}]: {}", x.phase, x.idx, x.what);
        }
        let path = write_replay(o, &f.phase, f.idx, &f.what, f.input.as_deref());
        println!("VIOLATION property={} replay={}", o.prop.id, path.display());
        return 1;
    }
    if !harness.is_empty() || !short.is_empty() {
        for h in harness.iter().chain(&short) {
            eprintln!("monitor: no verdict: {h}");
        }
        return 2;
    }
    0
}

fn write_replay(o: &Opts, phase: &str, idx: u64, what: &str, input: Option<&[u8]>) -> PathBuf {
    let _ = std::fs::create_dir_all(&o.replays);
    let path = o.replays.join(format!("{}-{}-{}-{}.txt", o.prop.id, o.seed, phase, idx));
    let mut s = format!(
        "property={}\nseed={}\ntier={}\nphase={}\nidx={}\nwhat={}\n",
        o.prop.id,
        o.seed,
        if o.tier == Tier::Quick { "quick" } else { "thorough" },
        phase,
        idx,
        what.replace('\n', " ")
    );
    if let Some(b) = input
        && b.len() <= 1 << 20
    {
        s.push_str(&format!("input={}\n", hex(b)));
    }
    let _ = std::fs::write(&path, s);
    path
}

fn write_evidence(o: &Opts, st: &Stats, phases: BTreeMap<String, J>, violations: usize, harness: &[String], wall: f64) {
    let mut cov: BTreeMap<String, J> = BTreeMap::new();
    cov.insert("evaluations".into(), J::N(st.evals));
    cov.insert("distinct_nontrivial".into(), J::N(st.distinct.len() as u64 + st.distinct_enum));
    cov.insert("rule".into(), J::s(o.prop.rule));
    cov.insert("samples".into(), J::A(st.samples.iter().take(8).map(J::s).collect()));
    cov.insert("observed".into(), J::O(st.counters.iter().map(|(k, v)| (k.clone(), J::N(*v))).collect()));
    cov.insert("maxima".into(), J::O(st.maxima.iter().map(|(k, v)| (k.to_string(), J::N(*v))).collect()));
    cov.insert(
        "distinct".into(),
        J::O(
            st.sets
                .iter()
                .map(|(k, v)| {
                    let items = v.iter().take(12).map(J::s).collect();
                    (k.to_string(), J::O([("count".into(), J::N(v.len() as u64)), ("some".into(), J::A(items))].into()))
                })
                .collect(),
        ),
    );
    cov.insert("phases".into(), J::O(phases));
    if !harness.is_empty() {
        cov.insert("monitor_errors".into(), J::A(harness.iter().map(J::s).collect()));
    }
    let ev = J::O(
        [
            ("property".to_string(), J::s(o.prop.id)),
            ("tier".into(), J::s(if o.tier == Tier::Quick { "quick" } else { "thorough" })),
            ("seed".into(), J::N(o.seed)),
            ("level".into(), J::s(o.prop.level)),
            ("coverage".into(), J::O(cov)),
            ("assumptions".into(), J::A(o.prop.assumptions.iter().map(|s| J::s(*s)).collect())),
            ("wall_s".into(), J::F(wall)),
            ("violations".into(), J::N(violations as u64)),
        ]
        .into(),
    );
    if let Some(d) = o.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, ev.text() + "\n").expect("evidence file");
}

/// Runs one case in this process, for replays and for attributing crashes.
pub fn one(o: &Opts, phase: &str, idx: u64) -> i32 {
    observe::hook();
    observe::trace_on();
    let phases = (o.prop.phases)();
    let Some(p) = phases.iter().find(|p| p.name == phase) else {
        eprintln!("no phase {phase}");
        return 2;
    };
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut ctx = new_ctx(o, p.name);
                run_case(&mut ctx, p, idx);
                for f in &ctx.fails {
                    println!("failure: {}", f.what);
                }
                for f in &ctx.harness {
                    println!("monitor error: {f}");
                }
                if !ctx.fails.is_empty() {
                    1
                } else if !ctx.harness.is_empty() {
                    2
                } else {
                    0
                }
            })
            .expect("thread")
            .join()
            .unwrap_or(2)
    })
}

/// The parent: runs the worker, and looks at abnormal ends case by case.
pub fn supervise(o: &Opts, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let st = Command::new(&exe).arg("work").args(args).status().expect("worker");
    if let Some(c) = st.code()
        && c <= 2
    {
        return c;
    }
    eprintln!("monitor: worker ended abnormally: {st}");
    let raw = std::fs::read(o.workdir.join("slots")).unwrap_or_default();
    let phases = (o.prop.phases)();
    for rec in raw.chunks_exact(32).filter(|r| r[0] == 1) {
        let pi = u64::from_le_bytes(rec[8..16].try_into().unwrap()) as usize;
        let idx = u64::from_le_bytes(rec[16..24].try_into().unwrap());
        let Some(p) = phases.get(pi) else { continue };
        let (end, inside) = rerun(&exe, args, p.name, idx);
        eprintln!("monitor: rerun {}/{idx}: {end:?}, inside wadec: {inside}", p.name);
        let what = match end {
            End::Crash(how) => Some(format!("the process running the decoder ended with {how}")),
            // A decode that never ends returns no result at all.
            End::Timeout if ["C02", "C11", "C13", "C14", "C15", "C17"].contains(&o.prop.id) => {
                Some("a decode did not end within 100 s".to_string())
            }
            _ => None,
        };
        if let Some(what) = what
            && inside
        {
            let path = write_replay(o, p.name, idx, &what, None);
            write_evidence_crash(o, p.name, idx, &what);
            println!("VIOLATION property={} replay={}", o.prop.id, path.display());
            return 1;
        }
    }
    2
}

fn write_evidence_crash(o: &Opts, phase: &str, idx: u64, what: &str) {
    let mut st = Stats { evals: 1, ..Default::default() };
    st.samples.push(format!("[{phase}/{idx}] {what}"));
    write_evidence(o, &st, BTreeMap::new(), 1, &[], 0.0);
}

#[derive(Debug)]
pub enum End {
    Code,
    Crash(String),
    Timeout,
}
fn rerun(exe: &Path, args: &[String], phase: &str, idx: u64) -> (End, bool) {
    let mut c = Command::new(exe)
        .arg("one")
        .args(args)
        .args(["--phase", phase, "--idx", &idx.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rerun");
    let mut err = c.stderr.take().unwrap();
    let th = std::thread::spawn(move || {
        use std::io::Read;
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t0 = Instant::now();
    let end = loop {
        match c.try_wait().expect("wait") {
            Some(s) => match s.code() {
                Some(0..=2) => break End::Code,
                _ => break End::Crash(s.to_string()),
            },
            None if t0.elapsed() > Duration::from_secs(100) => {
                let _ = c.kill();
                let _ = c.wait();
                break End::Timeout;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let text = th.join().unwrap_or_default();
    let inside = text.lines().filter(|l| l.starts_with("STAGE ")).next_back() == Some("STAGE wadec");
    (end, inside)
}
