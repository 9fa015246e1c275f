//! Phases about resources: stack, memory, work.
use crate::alloc;
use crate::ctx::{Ctx, Tier};
use crate::enc::{self, Class};
use crate::gen_::{Plan, Prof};
use crate::lib_::*;
use crate::model::*;
use crate::observe;
use crate::ph_diag::{self, MEM_CONST, MEM_PER_BYTE, MEM_PER_LOCAL};
use crate::ph_diff::{KINDS, sized_module};
use crate::proc_;
use crate::readers::{Delivery, Mon};
use crate::refdec;
use crate::util::{Rng, clip, hex_short, leb_u};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::Duration;

// ------------------------------------------------------------ deep nesting

/// How a level of nesting opens and closes.
const SHAPES: [(&str, &[u8], &[u8]); 7] = [
    ("block", &[0x02, 0x40], &[0x0B]),
    ("loop", &[0x03, 0x7F], &[0x0B]),
    ("if", &[0x04, 0x40], &[0x0B]),
    ("if with else, nested in the first branch", &[0x04, 0x40], &[0x05, 0x0B]),
    ("else", &[0x04, 0x40, 0x01, 0x05], &[0x0B]),
    ("try_table", &[0x1F, 0x40, 0x01, 0x02, 0x00], &[0x0B]),
    ("block between instructions", &[0x41, 0x05, 0x02, 0x01], &[0x0B, 0x1A]),
];
const ENDS: [&str; 4] = ["closed", "cut off", "bad opcode inside", "in a global"];
const FINE: [u64; 5] = [100, 500, 900, 1000, 3000];
const HUGE: u64 = 1_000_000;

fn nested_module(shape: usize, depth: u64, end: usize) -> Vec<u8> {
    let (_, open, close) = SHAPES[shape];
    let mut e = vec![];
    for _ in 0..depth {
        e.extend_from_slice(open);
    }
    match ENDS[end] {
        "cut off" => {}
        "bad opcode inside" => e.push(0xFF),
        _ => {
            e.push(0x01);
            for _ in 0..depth {
                e.extend_from_slice(close);
            }
            e.push(0x0B);
        }
    }
    if ENDS[end] == "in a global" {
        return module(&[sec(GLOBAL, &cat(&[&[1, 0x7F, 0], &e]))]);
    }
    let b = cat(&[&[0], &e]);
    module(&[sec(FUNCTION, &[1, 0]), sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b]))])
}
pub fn nesting_n() -> u64 {
    (SHAPES.len() * ENDS.len() * (FINE.len() + 1)) as u64 + 1
}
/// Each case is a process of its own: decode, render, walk, drop, all on an
/// 8 MB stack.
pub fn nesting(c: &mut Ctx, idx: u64) {
    if idx == nesting_n() - 1 {
        return locals_abort(c);
    }
    let shape = idx as usize % SHAPES.len();
    let end = idx as usize / SHAPES.len() % ENDS.len();
    let d = idx as usize / SHAPES.len() / ENDS.len();
    let depth = FINE.get(d).copied().unwrap_or(HUGE);
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.args(["helper", "deep", &shape.to_string(), &depth.to_string(), &end.to_string()]);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let r = match proc_::run(&mut cmd, None, Duration::from_secs(150)) {
        Ok(r) => r,
        Err(e) => return c.harness_error(format!("cannot run the helper: {e}")),
    };
    let what = format!("{depth} levels of {} ({})", SHAPES[shape].0, ENDS[end]);
    let b = nested_module(shape, depth.min(2000), end);
    c.eval(&[&b[..], &depth.to_le_bytes()].concat());
    c.seen("nesting shapes", format!("{}, {}", SHAPES[shape].0, ENDS[end]));
    if r.timed_out() {
        return c.harness_error(format!("{what}: no end within the time limit"));
    }
    let text = String::from_utf8_lossy(&r.out).into_owned();
    if r.code() == Some(0) {
        c.count("deep nestings survived", 1);
        c.max("deepest nesting survived", depth);
        if idx < 3 {
            c.sample(|| format!("{what}: {}", text.trim()));
        }
        return;
    }
    if r.code() == Some(2) {
        return c.harness_error(format!("helper: {text}"));
    }
    let how = format!("{what}: the process ended with {} ({})", r.how(), clip(text.trim(), 200));
    if depth == HUGE && r.signal().is_some() {
        c.count("stack overflows at a million levels", 1);
        c.known_or_fail(
            "stack-overflow-nesting",
            "nesting of 1000000 structured instructions overflows the stack (SIGABRT/SIGSEGV), see DESIGN.md F6",
            how,
            None,
        );
    } else {
        c.fail(how, if b.len() < 9000 { Some(&b) } else { None });
    }
}
/// A few bytes declaring 2^32-1 locals exhaust the memory there is.
fn locals_abort(c: &mut Ctx) {
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.args(["helper", "locals", "4294967295"]);
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    match proc_::run(&mut cmd, None, Duration::from_secs(150)) {
        Ok(r) if r.code() == Some(0) => c.count("huge locals survived", 1),
        Ok(r) if r.signal().is_some() => c.known_or_fail(
            "abort-locals",
            "a module of 27 bytes declaring 4294967295 locals aborts the process for lack of memory, see DESIGN.md F7",
            format!("4294967295 declared locals: the process ended with {}", r.how()),
            None,
        ),
        Ok(r) => c.harness_error(format!("locals helper: {}", r.how())),
        Err(e) => c.harness_error(format!("cannot run the helper: {e}")),
    }
}

pub fn helper(a: &[String]) -> i32 {
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.first().map(|s| &s[..]) {
        Some("deep") => {
            let (shape, depth, end) = (num(1) as usize, num(2), num(3) as usize);
            let b = nested_module(shape, depth, end);
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let out = wadec::decode_module(&b[..]);
                let mut n = 0;
                if depth <= 1000 {
                    n += match &out {
                        Ok(m) => format!("{m:?}").len(),
                        Err(e) => format!("{e:?} {e}").len() + observe::chain(e).len(),
                    };
                    if depth <= 200 {
                        n += match &out {
                            Ok(m) => format!("{m:#?}").len(),
                            Err(e) => format!("{e:#?}").len(),
                        };
                    }
                }
                let v = if out.is_ok() { "accepted" } else { "rejected" };
                drop(out);
                (v, n)
            });
            match t.expect("thread").join() {
                Ok((v, n)) => {
                    println!("{v}, {n} bytes rendered");
                    0
                }
                Err(_) => {
                    println!("panic");
                    101
                }
            }
        }
        Some("digests") => crate::ph_probe::digests(a.get(1).map_or("", |s| s)),
        Some("locals") => {
            let b = locals_module(&[vec![(num(1), 0x7F)]]);
            let r = wadec::decode_module(&b[..]);
            println!("{}", if r.is_ok() { "accepted" } else { "rejected" });
            std::mem::forget(r);
            0
        }
        Some("decode-file") => {
            let b = match a.get(1).map(std::fs::read) {
                Some(Ok(b)) => b,
                _ => return 2,
            };
            let mut ok = 0;
            for _ in 0..num(2) {
                ok += wadec::decode_module(&b[..]).is_ok() as u64;
            }
            println!("{ok}");
            0
        }
        _ => 2,
    }
}

// ------------------------------------------------------------------ memory

fn locals_module(funcs: &[Vec<(u64, u8)>]) -> Vec<u8> {
    let n = leb_u(funcs.len() as u64, 0);
    let mut code = n.clone();
    for groups in funcs {
        let mut body = leb_u(groups.len() as u64, 0);
        for (n, t) in groups {
            body.extend(leb_u(*n, 0));
            body.push(*t);
        }
        body.push(0x0B);
        code.extend(leb_u(body.len() as u64, 0));
        code.extend(body);
    }
    module(&[sec(FUNCTION, &cat(&[&n, &vec![0; funcs.len()]])), sec(CODE, &code)])
}
pub fn locals_bomb(c: &mut Ctx, idx: u64) {
    let b = match idx {
        0 => locals_module(&[vec![(10_000_000, 0x7F)]]),
        1 => locals_module(&[vec![(3_000_000, 0x7F), (0, 0x7E), (5_000_000, 0x7C)]]),
        2 => locals_module(&vec![vec![(100_000, 0x70)]; 60]),
        3 => locals_module(&[vec![], vec![(1 << 22, 0x7B)]]),
        _ => {
            let n = 1 + c.rng.usize(20);
            let f: Vec<Vec<(u64, u8)>> = (0..n).map(|_| vec![(c.rng.below(900_000), 0x7D)]).collect();
            locals_module(&f)
        }
    };
    let (_, info) = refdec::decode(&b);
    c.eval(&b);
    let m = ph_diag::measure(&b);
    c.count("decodes measured", 1);
    if m.kept != 0 {
        c.fail(format!("{} bytes still allocated after dropping the result; input {}", m.kept, hex_short(&b)), Some(&b));
    }
    let bound = MEM_PER_BYTE * m.consumed + MEM_CONST;
    c.sample(|| format!("{} locals declared in {} bytes: peak {} bytes", info.locals_all, b.len(), m.peak));
    if m.peak <= bound {
        return;
    }
    let how = format!("{} locals declared by {} bytes: peak memory {} bytes (bound {bound})", info.locals_all, m.consumed, m.peak);
    if m.peak <= bound + MEM_PER_LOCAL * info.locals_all {
        c.known_or_fail(
            "locals-expanded",
            "memory grows with the number of locals a function body merely declares, see DESIGN.md F7",
            how,
            Some(&b),
        );
    } else {
        c.fail(how, Some(&b));
    }
}
/// Counts and lengths that announce far more than follows, at every position
/// of the format that has one; with section and body sizes to match.
pub fn bombs(c: &mut Ctx, idx: u64) {
    static S: OnceLock<Vec<&'static Spot>> = OnceLock::new();
    let spots = S.get_or_init(|| {
        spots_of(|k| matches!(k, Class::U(_)))
            .into_iter()
            .filter(|s| {
                let r = s.t.role;
                (r.ends_with("count") || r.ends_with("len") || r.ends_with("size")) && r != "locals.count"
            })
            .collect()
    });
    let s = spots[idx as usize % spots.len()];
    let r = &mut c.rng;
    let v = match r.below(6) {
        0 => u32::MAX as u64,
        1 => 1 << 31,
        2 => (1 << 31) - 1 - r.below(1000),
        3 => 1 << r.range(14, 31),
        4 => s.t.val as u64 + 1 + r.below(200),
        _ => r.below(1 << 32),
    };
    let mut over = vec![(s.tok, leb_u(v, 0))];
    let toks = enc::encode(&s.plan, &s.er, &s.st, vec![], true).toks;
    let huge = r.below(3);
    if huge > 0 {
        // let the enclosing sizes permit it
        for role in ["section.size", "body.size"] {
            if let Some(k) = (0..s.tok).rev().find(|&k| toks[k].role == role) {
                if role == "body.size" && s.t.role == "section.size" {
                    continue;
                }
                over.push((k, leb_u(if huge == 1 { u32::MAX as u64 } else { v.saturating_add(1000).min(u32::MAX as u64) }, 0)));
            }
        }
    }
    let mut b = enc::encode(&s.plan, &s.er, &s.st, over, false).bytes;
    // more elements follow: zeros, copies of the tail, or what looks valid
    let extra = match r.below(8) {
        0..=4 => 0,
        5 => r.usize(200),
        6 => r.usize(5_000),
        _ => r.usize(60_000),
    };
    let fill = *r.pick(&[0x00u8, 0x01, 0x0B, 0x40, 0x60, 0x70, 0x7F, 0x41]);
    match r.below(3) {
        0 => b.extend(vec![fill; extra]),
        1 => {
            let from = r.usize(b.len());
            let piece = b[from..].to_vec();
            while b.len() < extra {
                b.extend_from_slice(&piece);
            }
        }
        _ => {}
    }
    c.eval(&b);
    c.seen("announced lengths", s.t.role);
    c.differential(&b);
    if idx % 4001 == 0 {
        c.sample(|| format!("{} announcing {v}: {}", s.t.role, hex_short(&b)));
    }
}
/// A reader that fails: everything allocated until then is released.
pub fn leaks_on_failure(c: &mut Ctx, _: u64) {
    let (_, b, _) = c.generated(&Prof { items: 4, bytes: 60, ins: 8, ..Prof::general() });
    c.eval(&b);
    for _ in 0..6 {
        let at = c.rng.usize(b.len() + 1);
        let mut mon = Mon::new(&b, Delivery::Random, c.rng.clone());
        mon.fail_at = Some(at);
        mon.make_err = |_| std::io::ErrorKind::TimedOut.into();
        let live0 = alloc::start();
        let out = observe::decode_with(&mut mon);
        let v = out.verdict();
        let peak = (alloc::peak() - live0) as u64;
        let r = observe::guarded(move || drop(out));
        let kept = alloc::live() - live0;
        drop(r);
        c.count("failed reads measured", 1);
        let bound = MEM_PER_BYTE * mon.log.consumed as u64 + MEM_CONST + MEM_PER_LOCAL * refdec::decode(&b).1.locals_all;
        if v != "panicked" && (kept != 0 || peak > bound) {
            c.fail(
                format!("{kept} bytes still allocated after dropping the result ({v}) of a decode whose reader failed at {at}, peak {peak}; input {}", hex_short(&b)),
                Some(&b),
            );
        }
    }
}

// -------------------------------------------------------------------- work

const NESTED: [&str; 9] = [
    "nested blocks around instructions",
    "nested loops around instructions",
    "nested ifs around instructions",
    "nested elses around instructions",
    "nested try_tables around instructions",
    "blocks side by side",
    "ifs with else side by side",
    "functions with nested blocks",
    "data instructions in nested blocks",
];
pub fn shapes_n() -> u64 {
    (KINDS.len() + NESTED.len()) as u64 * 2
}
fn nested_plan(kind: &str, n: u64) -> Plan {
    let i = |op: u32, imm: Vec<Imm>, body: Vec<Expr>| Ins { op, imm, body };
    let c32 = |k: u64| i(0x41, vec![Imm::I32(k as i32)], vec![]);
    let bt = || Imm::Bt(BlockTy::Empty);
    let depth = (n / 8).min(950);
    let inner: Expr = (0..n - depth).map(c32).collect();
    let wrap = |e: Expr, s: &str, d: u64| {
        let mut e = e;
        for _ in 0..d {
            e = vec![match s {
                "loops" => i(0x03, vec![bt()], vec![e]),
                "ifs" => i(0x04, vec![bt()], vec![e]),
                "elses" => i(0x04, vec![bt()], vec![vec![], e]),
                "try_tables" => i(0x1F, vec![bt(), Imm::Catches(vec![])], vec![e]),
                _ => i(0x02, vec![bt()], vec![e]),
            }];
        }
        e
    };
    let mut funcs = vec![];
    let mut count = None;
    match kind {
        "blocks side by side" => funcs.push((0..n).map(|k| i(0x02, vec![bt()], vec![vec![c32(k)]])).collect::<Expr>()),
        "ifs with else side by side" => {
            funcs.push((0..n).map(|k| i(0x04, vec![bt()], vec![vec![c32(k)], vec![c32(k)]])).collect::<Expr>())
        }
        "functions with nested blocks" => {
            for k in 0..n / 20 {
                funcs.push(wrap(vec![c32(k)], "blocks", 20));
            }
        }
        "data instructions in nested blocks" => {
            count = Some(0);
            let e = (0..n - depth).map(|k| i(0xFC_0009, vec![Imm::U(k as u32)], vec![])).collect();
            funcs.push(wrap(e, "blocks", depth));
        }
        k => funcs.push(wrap(inner, k.split(' ').nth(1).unwrap(), depth)),
    }
    let mut layout = vec![FUNCTION];
    if count.is_some() {
        layout.push(DATACOUNT);
    }
    layout.push(CODE);
    let m = Module {
        func_types: vec![0; funcs.len()],
        codes: funcs.into_iter().map(|body| Code { locals: vec![], body }).collect(),
        data_count: count,
        ..Default::default()
    };
    Plan { m, layout }
}
/// A module of the shape, of about `bytes` bytes; `cut` leaves out its end.
fn shaped(idx: u64, bytes: u64) -> (String, Vec<u8>, u64) {
    let all = KINDS.len() + NESTED.len();
    let k = idx as usize % all;
    let cut = idx as usize / all == 1;
    let (kind, make): (&str, fn(&str, u64) -> Plan) =
        if k < KINDS.len() { (KINDS[k], sized_module) } else { (NESTED[k - KINDS.len()], nested_plan) };
    let enc = |n: u64| enc::encode(&make(kind, n), &Rng::new(1, "", 0), &MIN, vec![], false).bytes;
    // bytes per item differ: aim, then correct twice
    let mut n = bytes / 4 + 1;
    for _ in 0..4 {
        let l = enc(n).len() as u64;
        let want = (n as u128 * bytes as u128 / l as u128) as u64;
        let next = want.clamp(64, 4 * bytes);
        if next == n {
            break;
        }
        n = next;
    }
    let mut b = enc(n);
    if cut {
        // the section still declares the byte that is missing
        b.pop();
    }
    (if cut { format!("{kind}, cut off") } else { kind.to_string() }, b, n)
}
fn sizes_of(tier: Tier) -> (u64, u64) {
    if tier == Tier::Quick { (2_000, 100_000) } else { (2_000, 1_500_000) }
}
/// "locals one group" has a constant size: its work grows with the locals.
fn skip(name: &str) -> bool {
    name.starts_with("locals one group") || name.starts_with("locals zero groups")
}
pub fn work_in_process(c: &mut Ctx, idx: u64) {
    if skip(&shaped(idx, 100).0) {
        return;
    }
    let mut per = vec![];
    let (lo, hi) = sizes_of(c.tier);
    for size in [lo, hi / 8, hi, 2 * hi] {
        let (name, b, _) = shaped(idx, size);
        c.eval(&b);
        let mut mon = Mon::new(&b, Delivery::Whole, c.rng.clone());
        let (t0, c0) = (alloc::total(), alloc::calls());
        let out = observe::guarded(|| wadec::decode_module(&mut mon as &mut dyn std::io::Read).is_ok());
        let (total, calls) = (alloc::total() - t0, alloc::calls() - c0);
        if out.is_err() {
            return;
        }
        c.count("read calls", mon.log.calls);
        per.push((name, b.len() as f64, mon.log.calls as f64, total as f64, calls as f64));
    }
    let base = per[0].clone();
    c.count("shapes measured in process", 1);
    for p in &per[1..] {
        let grow = p.1 / base.1;
        for (what, small, big, slack) in [
            ("read calls", base.2, p.2, 2.0),
            ("bytes allocated", base.3 + 4096.0, p.3, 4.0),
            ("allocations", base.4 + 20.0, p.4, 3.0),
        ] {
            let ratio = big / small / grow;
            c.max("largest growth of in-process work per byte, in percent", (ratio * 100.0) as u64);
            if ratio > slack {
                c.fail(
                    format!("{}: {what} grow from {small} to {big} while the input grows from {} to {} bytes", p.0, base.1, p.1),
                    None,
                );
            }
        }
    }
    if idx < 3 {
        c.sample(|| {
            per.iter().map(|p| format!("{}: {} bytes, {} read calls, {} bytes allocated", p.0, p.1, p.2, p.3)).collect::<Vec<_>>().join("; ")
        });
    }
}
/// CPU time of this thread, in nanoseconds.
fn cpu() -> u64 {
    #[repr(C)]
    struct Ts(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}
/// A module in which one or two lists are long, of about the given size.
fn random_shape(r: &Rng, bytes: u64) -> (String, Vec<u8>) {
    let make = |n: u64, r: &mut Rng| -> (String, Vec<u8>) {
        let k = r.usize(ALL_KINDS());
        let of = |k: usize, n: u64| if k < KINDS.len() { (KINDS[k], sized_module(KINDS[k], n)) } else { (NESTED[k - KINDS.len()], nested_plan(NESTED[k - KINDS.len()], n)) };
        let (mut name, mut plan) = {
            let (a, p) = of(k, n);
            (a.to_string(), p)
        };
        if r.bool() {
            let (b, q) = of(r.usize(ALL_KINDS()), n);
            name = format!("{name} and {b}");
            plan = crate::ph_diff::merged(plan, q);
        }
        let st = enc::Style { pad: *r.pick(&[0, 0, 8]), long: *r.pick(&[0, 8]) };
        let mut b = enc::encode(&plan, &Rng::new(1, "", 0), &st, vec![], false).bytes;
        match r.below(6) {
            // an end that is missing, or wrong
            0 => {
                b.pop();
                name += ", cut off";
            }
            1 => {
                let l = b.len() - 1;
                b[l] = 0xFF;
                name += ", wrong at the end";
            }
            2 => {
                b.extend(sec(0, &[1, b'z']));
                b.extend(sec(99, &[]));
                name += ", unknown section behind";
            }
            _ => {}
        }
        (name, b)
    };
    let mut n = bytes / 4 + 1;
    for _ in 0..4 {
        let l = make(n, &mut r.clone()).1.len() as u64;
        let next = ((n as u128 * bytes as u128 / l.max(1) as u128) as u64).clamp(64, 2 * bytes);
        if next == n {
            break;
        }
        n = next;
    }
    make(n, &mut r.clone())
}
#[allow(non_snake_case)]
const fn ALL_KINDS() -> usize {
    KINDS.len() + NESTED.len()
}
/// Long modules of random shape: CPU time per byte at small and large sizes;
/// where it seems to grow, instructions are counted and decide. Which encoding
/// a list takes can depend on its length, so there are several sizes of each
/// kind: the dearest small one against the cheapest large one.
pub fn work_random(c: &mut Ctx, idx: u64) {
    let r = c.rng.clone();
    let at = |sizes: [u64; 5]| sizes.map(|z| random_shape(&r, z));
    let small = at([6_000, 8_000, 9_500, 11_000, 13_000]);
    let name = small[1].0.clone();
    if name.contains("locals one group") || name.contains("locals zero groups") {
        return;
    }
    let large = at([240_000, 290_000, 330_000, 370_000, 410_000]);
    let most = small.iter().map(|x| x.1.len()).max().unwrap();
    if large.iter().any(|x| x.1.len() < 10 * most) || small.iter().any(|x| x.1.len() < 2_000) {
        return;
    }
    for x in small.iter().chain(&large) {
        c.eval(&x.1);
    }
    let time = |b: &[u8]| {
        (0..2)
            .map(|_| {
                let t = cpu();
                let x = observe::guarded(|| wadec::decode_module(b).is_ok());
                let t = cpu() - t;
                drop(x);
                t
            })
            .min()
            .unwrap() as f64
            / b.len() as f64
    };
    c.count("random shapes timed", 1);
    let pa = small.iter().map(|x| time(&x.1)).fold(0.0, f64::max);
    let mut pz = f64::MAX;
    for x in &large {
        pz = pz.min(time(&x.1));
        if pz <= 2.0 * pa + 3.0 {
            return;
        }
    }
    c.count("random shapes counted for their time", 1);
    // sizes that valgrind gets through even if the growth is real
    let slow = pz * large[4].1.len() as f64 > 200e6;
    let large = if slow { at([50_000, 55_000, 60_000, 66_000, 73_000]) } else { large };
    let (mut pa, mut pz) = (0f64, f64::MAX);
    for (k, x) in small.iter().enumerate() {
        let Some(n) = counted(c, &x.1, &format!("r{idx}-s{k}")) else { return };
        pa = pa.max(n as f64 / x.1.len() as f64);
    }
    for (k, x) in large.iter().enumerate() {
        let Some(n) = counted(c, &x.1, &format!("r{idx}-b{k}")) else { return };
        pz = pz.min(n as f64 / x.1.len() as f64);
        if pz / (pa + 5.0) <= WORK_RATIO {
            return;
        }
    }
    c.fail(
        format!(
            "{name}: at most {pa:.1} instructions per byte at sizes around {} bytes but at least {pz:.1} at sizes around {}",
            small[2].1.len(),
            large[2].1.len()
        ),
        None,
    );
}
fn counted(c: &mut Ctx, b: &[u8], tag: &str) -> Option<u64> {
    let path = c.workdir.join(format!("work-{tag}.wasm"));
    let exe = std::env::current_exe().expect("own path");
    let mut at = [0u64; 2];
    if std::fs::write(&path, b).is_err() {
        c.harness_error("cannot write a scratch file");
        return None;
    }
    for reps in 0..2 {
        let mut cmd = Command::new("valgrind");
        cmd.args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--main-stacksize=67108864"]);
        cmd.arg(&exe).args(["helper", "decode-file"]).arg(&path).arg(reps.to_string());
        cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let r = proc_::run(&mut cmd, None, Duration::from_secs(170));
        let text = match &r {
            Ok(r) => String::from_utf8_lossy(&r.err).into_owned(),
            Err(e) => e.to_string(),
        };
        let n = text
            .lines()
            .find_map(|l| l.split_once("I   refs:").or_else(|| l.split_once("I refs:")))
            .and_then(|x| x.1.trim().replace(',', "").parse::<u64>().ok());
        match (n, r) {
            (Some(n), Ok(r)) if r.code() == Some(0) => at[reps] = n,
            (_, r) => {
                let how = r.map(|r| r.how()).unwrap_or_default();
                c.harness_error(format!("valgrind gave no count for {tag}: {how}: {}", clip(&text, 300)));
                return None;
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    Some(at[1].saturating_sub(at[0]))
}
pub fn work_counted(c: &mut Ctx, idx: u64) {
    if skip(&shaped(idx, 100).0) {
        return;
    }
    let (lo, hi) = sizes_of(c.tier);
    let (name, small, _) = shaped(idx, lo);
    let (_, big, _) = shaped(idx, hi);
    let (Some(a), Some(z)) = (counted(c, &small, &format!("{idx}-s")), counted(c, &big, &format!("{idx}-b"))) else { return };
    c.eval(&small);
    c.eval(&big);
    c.count("shapes measured by instruction count", 1);
    c.count("instructions counted", a + z);
    let (pa, pz) = (a as f64 / small.len() as f64, z as f64 / big.len() as f64);
    let ratio = pz / (pa + 5.0);
    c.max("largest growth of instructions per byte, in percent", (ratio * 100.0) as u64);
    c.max("most instructions per byte", pz as u64);
    if ratio > WORK_RATIO {
        c.fail(
            format!(
                "{name}: {a} instructions for {} bytes ({pa:.1} per byte) but {z} for {} bytes ({pz:.1} per byte)",
                small.len(),
                big.len()
            ),
            None,
        );
    }
    c.seen("instructions per byte, small and large", format!("{name}: {pa:.0} {pz:.0}"));
    if idx % 20 == 0 {
        c.sample(|| format!("{name}: {pa:.1} instructions per byte at {} bytes, {pz:.1} at {}", small.len(), big.len()));
    }
}
/// What alternates between one- and three-byte indices may cost per byte.
const WORK_RATIO: f64 = 2.0;
