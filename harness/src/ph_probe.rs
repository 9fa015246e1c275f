//! The same inputs decoded by a small program built for other platforms and
//! profiles, with compiler sanitizers, and interpreted by Miri.
use crate::ctx::Ctx;
use crate::digest::{self, BYTEWISE, FAILING, INTERRUPTED, LYING, PANICKING, PEEKING, SLICE};
use crate::ph_diff as d;
use crate::proc_;
use crate::runner::CaseFn;
use crate::util::{clip, hex_short};
use std::process::{Command, Stdio};
use std::time::Duration;

/// Where inputs come from, with the number of cases there.
fn sources() -> Vec<(CaseFn, u64)> {
    const N: u64 = 1 << 30;
    vec![
        (d::generated, N),
        (d::generated_sections, N),
        (d::generated_types, N),
        (d::generated_code, N),
        (d::generated_payloads, N),
        (d::paddings, N),
        (d::edge_values, N),
        (d::aliases, 200 * crate::spec::OPS.len() as u64),
        (d::opcodes, 400 * d::opcodes_n()),
        (d::leb_values, 20 * d::ints_n()),
        (d::lebs, d::lebs_n()),
        (d::markers, 8 * d::markers_n()),
        (d::unassigned, 256 + 3 * 128),
        (d::ids_and_preambles, 256),
        (d::faults, N),
        (d::mutations, N),
        (d::section_mutations, N),
        (d::cuts, N),
        (d::bodies, N),
        (d::orders, N),
        (d::data_shapes, N),
        (d::locals, N),
        (d::late_faults, N),
        (d::customs, N),
        (d::relayouts, N),
        (d::utf8_long, N),
        (d::utf8_long, N),
        (d::utf8_enum, 4 * 256),
        (d::prefixes, N),
        (d::tiny_sections, 14 * 256),
        (d::tiny_exprs, 10 * 256),
        (d::tiny_types, d::TYPE_CTX as u64 * 256),
        (d::random_bytes, N),
        (crate::ph_walk::walks, N),
        (crate::ph_twin::twins, N),
    ]
}
/// `n` inputs of at most `max` bytes, about as many from each source.
pub fn gather(c: &mut Ctx, idx: u64, n: usize, max: usize) -> Vec<Vec<u8>> {
    let st = std::mem::take(&mut c.st);
    let src = sources();
    let mut v: Vec<Vec<u8>> = vec![];
    let mut k = idx as usize * n;
    for _ in 0..20 * n {
        if v.len() >= n {
            break;
        }
        let (f, m) = src[k % src.len()];
        k += 1;
        c.sink = Some(vec![]);
        let i = c.rng.below(m);
        f(c, i);
        let mut got = c.sink.take().unwrap_or_default();
        // rendering takes time quadratic in the depth
        got.retain(|b| b.len() <= max && crate::refdec::decode(b).1.depth <= 100);
        for _ in 0..(n / src.len()).clamp(1, 12) {
            if !got.is_empty() {
                let j = c.rng.usize(got.len());
                v.push(got.swap_remove(j));
            }
        }
    }
    v.truncate(n);
    c.st = st;
    v
}
/// Long inputs, few of them.
fn gather_long(c: &mut Ctx, idx: u64, n: usize) -> Vec<Vec<u8>> {
    let st = std::mem::take(&mut c.st);
    c.sink = Some(vec![]);
    let src: [(CaseFn, u64); 4] = [(d::scaled, 1 << 30), (d::sizes, d::sizes_n()), (d::deep, 1 << 30), (d::hot_sizes, d::hot_sizes_n())];
    for k in 0..n as u64 {
        let (f, m) = src[(idx + k) as usize % 4];
        let i = c.rng.below(m.max(1));
        if m > 0 {
            f(c, i);
        }
    }
    let mut v = c.sink.take().unwrap_or_default();
    v.retain(|b| b.len() <= 1 << 20);
    c.st = st;
    v.truncate(n);
    v
}
/// Declared lengths far beyond the input, and values around word sizes.
pub fn bombs() -> Vec<Vec<u8>> {
    use crate::lib_::*;
    use crate::util::leb_u;
    let mut v = vec![];
    for n in [0x7FFF_FFFFu64, 0x8000_0000, 0xFFFF_FFFF, 0x1000_0000, 0x0FFF_FFFF, 0x2AAA_AAAA, 65_536, 0x1_0000_0000] {
        let l = leb_u(n, 0);
        for id in 0..14u8 {
            v.push(cat(&[PRE, &[id], &l]));
            v.push(cat(&[PRE, &[id], &l, &[1, 2, 3]]));
            v.push(module(&[sec(id, &l)]));
            v.push(module(&[sec(id, &cat(&[&l, &[0x60, 0, 0]]))]));
        }
        v.push(module(&[sec(1, &cat(&[&[1, 0x60], &l]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x60, 0], &l]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x5F], &l]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x4E], &l]))]));
        v.push(module(&[sec(1, &cat(&[&[1, 0x50], &l]))]));
        v.push(module(&[sec(2, &cat(&[&[1], &l]))]));
        v.push(module(&[sec(9, &cat(&[&[1, 1, 0], &l]))]));
        v.push(module(&[sec(11, &cat(&[&[1, 1], &l]))]));
        v.push(module(&[sec(3, &[1, 0]), sec(10, &cat(&[&[1], &l]))]));
        v.push(module(&[sec(3, &[1, 0]), sec(10, &cat(&[&[1, 16], &l, &[0x7F, 0x0B]]))]));
        // sums of local counts that pass 2^32 (and wrap in 32 bits)
        for more in [1u64, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF] {
            let b = cat(&[&[2], &l, &[0x7F], &leb_u(more, 0), &[0x7E, 0x0B]]);
            if n + more > 0xFFFF_FFFF && n <= 0xFFFF_FFFF {
                v.push(module(&[sec(3, &[1, 0]), sec(10, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b]))]));
            }
        }
        for e in [&[0x20u8][..], &[0x41], &[0x10], &[0x0C], &[0x28, 2], &[0xFC, 8], &[0x0E]] {
            v.push(wrap_expr(0, &cat(&[e, &l, &[0x0B]])));
            v.push(wrap_expr(0, &cat(&[e, &l, &[0, 0x0B]])));
        }
        for at in [4u8, 5, 0, 1] {
            let l64 = leb_u(n << 16, 0);
            v.push(module(&[sec(5, &cat(&[&[1, at], &l64, &l64]))]));
            v.push(module(&[sec(5, &cat(&[&[1, at], &l, &l]))]));
            v.push(module(&[sec(4, &cat(&[&[1, 0x70, at], &l64, &l64]))]));
        }
    }
    v
}

struct Kind {
    name: &'static str,
    limit: u64,
    miri: bool,
    /// Memory is limited.
    capped: bool,
}
const RELEASE: Kind = Kind { name: "release", limit: 100, miri: false, capped: true };
const DEV: Kind = Kind { name: "dev", limit: 100, miri: false, capped: true };
const X86: Kind = Kind { name: "x86", limit: 100, miri: false, capped: true };
const ASAN: Kind = Kind { name: "asan", limit: 100, miri: false, capped: false };
const MSAN: Kind = Kind { name: "msan", limit: 100, miri: false, capped: false };
const TSAN: Kind = Kind { name: "tsan", limit: 100, miri: false, capped: false };
const MIRI: Kind = Kind { name: "miri", limit: 100, miri: true, capped: false };
const S390X: Kind = Kind { name: "miri_s390x", limit: 100, miri: true, capped: false };
const PPC: Kind = Kind { name: "miri_ppc", limit: 100, miri: true, capped: false };

/// Why the program ended as it did, if that is the decoder's doing.
const MARKS: [&str; 9] = [
    "Undefined Behavior",
    "ERROR: AddressSanitizer",
    "WARNING: MemorySanitizer",
    "WARNING: ThreadSanitizer",
    "unsafe precondition(s) violated",
    "data race",
    // checks of a compiler with debug assertions
    "trying to construct an enum from an invalid value",
    "misaligned pointer dereference",
    "null pointer dereference occurred",
];

/// Runs the program; returns (case, verdict, digest) rows. An abnormal end is
/// reported here.
fn probe(c: &mut Ctx, k: &Kind, cases: &[(u8, usize, Vec<u8>)], threads: Option<usize>) -> Vec<(usize, u8, u64)> {
    let var = format!("WADEC_RUN_{}", k.name.to_uppercase());
    let Ok(cmd) = std::env::var(&var) else {
        c.count(&format!("{}: not available", k.name), 1);
        return vec![];
    };
    let path = c.workdir.join(format!("{}-{}-{}.cases", k.name, c.phase, c.idx));
    if std::fs::write(&path, digest::pack(cases)).is_err() {
        c.harness_error("cannot write a scratch file");
        return vec![];
    }
    let mut p = Command::new("sh");
    // sanitizers and Miri map far more than they use
    let limit = if k.capped { "ulimit -v 3145728; " } else { "" };
    p.arg("-c").arg(format!("{limit}exec {cmd} \"$@\"")).arg("sh").arg(&path);
    if let Some(n) = threads {
        p.arg(n.to_string());
    }
    p.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let r = proc_::run(&mut p, None, Duration::from_secs(k.limit));
    let _ = std::fs::remove_file(&path);
    let done = match r {
        Ok(d) => d,
        Err(e) => {
            c.count(&format!("{}: not started ({e})", k.name), 1);
            return vec![];
        }
    };
    let out = String::from_utf8_lossy(&done.out);
    let mut rows = vec![];
    let mut last = None;
    let mut ended = false;
    for l in out.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match &w[..] {
            ["case", i] => last = i.parse::<usize>().ok(),
            ["overlapped", n] => {
                let n = n.parse().unwrap_or(0);
                c.count(&format!("{}: decodes that overlapped another", k.name), n)
            }
            ["done:", ..] => {
                ended = true;
                c.seen("programs", format!("{}: {}", k.name, l));
            }
            [i, v, x] => {
                if let (Ok(i), Ok(v), Ok(x)) = (i.parse(), v.parse(), u64::from_str_radix(x, 16)) {
                    rows.push((i, v, x));
                }
            }
            _ => {}
        }
    }
    c.count(&format!("{}: decodes", k.name), rows.len() as u64);
    if ended && done.code() == Some(0) {
        return rows;
    }
    let err = String::from_utf8_lossy(&done.err);
    let mark = MARKS.iter().find(|m| err.contains(**m));
    let at = last.filter(|i| rows.last().is_none_or(|r| r.0 != *i)).and_then(|i| cases.get(i));
    let how = match mark {
        Some(m) => {
            let i = err.find(m).unwrap_or(0);
            format!("reports {}", clip(&err[i..], 900))
        }
        // never got as far as the first case: the program or its interpreter
        // does not work here
        None if last.is_none() && threads.is_none() => {
            c.count(&format!("{}: did not run", k.name), 1);
            eprintln!("monitor: {} did not run ({}): {}", k.name, done.how(), clip(&err, 1500));
            return vec![];
        }
        None if k.miri || (done.timed_out() && threads.is_some()) => {
            c.count(&format!("{}: ended early", k.name), 1);
            eprintln!("monitor: {} ended early ({}): {}", k.name, done.how(), clip(&err, 1500));
            return rows;
        }
        None => format!("ended with {}; {}", done.how(), clip(&err, 400)),
    };
    match at {
        Some((m, a, b)) => c.fail(format!("{}: decoding (reading manner {m}, {a}) {how}; input {}", k.name, hex_short(b)), Some(b)),
        None => c.fail(format!("{}: {how}", k.name), None),
    }
    vec![]
}

fn expected(b: &[u8], mode: u8, arg: usize, forms: bool) -> (u8, u64) {
    crate::observe::guarded(|| digest::run(b, mode, arg, forms)).unwrap_or((9, 0))
}
const VERDICT: [&str; 4] = ["a module", "an error", "a panic", "a module with invalid text"];

fn same_everywhere(c: &mut Ctx, k: &Kind, inputs: Vec<Vec<u8>>, bytewise: bool) {
    let mut cases = vec![];
    for b in inputs {
        let mode = match c.rng.below(8) {
            0 if bytewise => BYTEWISE,
            1 if bytewise => INTERRUPTED,
            2 if bytewise => FAILING,
            _ => SLICE,
        };
        let arg = if mode == FAILING { c.rng.usize(b.len() + 1) } else { 0 };
        cases.push((mode, arg, b));
    }
    let rows = probe(c, k, &cases, None);
    for (i, v, x) in rows {
        let Some((m, a, b)) = cases.get(i) else { continue };
        let want = expected(b, *m, *a, !k.miri);
        c.eval(b);
        c.seen("verdicts", VERDICT[want.0.min(3) as usize]);
        if want != (v, x) {
            c.fail(
                format!(
                    "{}: yields {}{} than here ({}); input {}",
                    k.name,
                    VERDICT[v.min(3) as usize],
                    if v == want.0 { ", but another" } else { ", another verdict" },
                    VERDICT[want.0.min(3) as usize],
                    hex_short(b)
                ),
                Some(b),
            );
        }
    }
    if c.idx == 0 {
        c.sample(|| format!("{} cases, results compared with those of this process", cases.len()));
    }
}
fn mixed(c: &mut Ctx, idx: u64) -> Vec<Vec<u8>> {
    let mut v = gather(c, idx, 500, 64 << 10);
    v.extend(gather_long(c, idx, 4));
    if idx == 0 {
        v.extend(bombs());
    }
    v
}
pub fn release(c: &mut Ctx, idx: u64) {
    let v = mixed(c, idx);
    same_everywhere(c, &RELEASE, v, true);
}
pub fn dev(c: &mut Ctx, idx: u64) {
    let v = mixed(c, idx);
    same_everywhere(c, &DEV, v, true);
}
pub fn x86(c: &mut Ctx, idx: u64) {
    let v = mixed(c, idx);
    same_everywhere(c, &X86, v, true);
}
fn small(c: &mut Ctx, idx: u64, n: usize) -> Vec<Vec<u8>> {
    let mut v = gather(c, idx, n, 200);
    let b = bombs();
    for _ in 0..n / 5 {
        v.push(c.rng.pick(&b).clone());
    }
    v
}
pub fn big_endian(c: &mut Ctx, idx: u64) {
    let v = small(c, idx, 40);
    same_everywhere(c, if idx % 2 == 0 { &S390X } else { &PPC }, v, false);
}

fn hostile(c: &mut Ctx, k: &Kind, inputs: Vec<Vec<u8>>) {
    let mut cases = vec![];
    for b in inputs {
        for _ in 0..2 {
            let mode = *c.rng.pick(&[SLICE, BYTEWISE, INTERRUPTED, PEEKING, PEEKING, LYING, LYING, PANICKING, FAILING]);
            let arg = match mode {
                LYING | PANICKING | FAILING => c.rng.usize(b.len() + 1),
                _ => 0,
            };
            cases.push((mode, arg, b.clone()));
        }
    }
    let rows = probe(c, k, &cases, None);
    for (i, v, _) in rows {
        if let Some((m, _, b)) = cases.get(i) {
            c.eval(b);
            c.seen("reading manners", m.to_string());
            c.seen("verdicts", VERDICT[v.min(3) as usize]);
            c.count("decodes watched", 1);
            if v == 3 {
                c.fail(format!("{}: a name in the result is not valid UTF-8; input {}", k.name, hex_short(b)), Some(b));
            }
        }
    }
    if c.idx == 0 {
        c.sample(|| format!("{} cases under {}, no report", cases.len(), k.name));
    }
}
pub fn asan(c: &mut Ctx, idx: u64) {
    let v = mixed(c, idx);
    hostile(c, &ASAN, v);
}
pub fn msan(c: &mut Ctx, idx: u64) {
    let v = mixed(c, idx);
    hostile(c, &MSAN, v);
}
pub fn miri(c: &mut Ctx, idx: u64) {
    let v = small(c, idx, 20);
    hostile(c, &MIRI, v);
}
/// Threads decode the same inputs at the same time under ThreadSanitizer.
pub fn tsan(c: &mut Ctx, idx: u64) {
    let mut cases = vec![];
    for b in gather(c, idx, 300, 4096) {
        let mode = *c.rng.pick(&[SLICE, SLICE, BYTEWISE, INTERRUPTED, PANICKING, FAILING]);
        let arg = match mode {
            PANICKING | FAILING => c.rng.usize(b.len() + 1),
            _ => 0,
        };
        cases.push((mode, arg, b));
    }
    let n = *c.rng.pick(&[2usize, 4, 8]);
    for (i, v, x) in probe(c, &TSAN, &cases, Some(n)) {
        let Some((m, a, b)) = cases.get(i) else { continue };
        c.eval(b);
        if expected(b, *m, *a, true) != (v, x) {
            c.fail(format!("among {n} threads a decode yields {} that differs; input {}", VERDICT[v.min(3) as usize], hex_short(b)), Some(b));
        }
    }
}

/// The value of a variable whose name is in the sources.
pub fn var_value<'a>(r: &mut crate::util::Rng, texts: &'a [String]) -> &'a str {
    let t = if texts.is_empty() { "" } else { r.pick(texts) };
    if r.bool() && !t.contains('\0') { t } else { *r.pick(&["1", "", "true", "0", "100"]) }
}
/// The same inputs decoded in a process with other surroundings: environment,
/// working directory, arguments, thread, clock.
pub fn surroundings(c: &mut Ctx, idx: u64) {
    const KINDS: [&str; 5] = ["empty environment", "variables and files of all names known", "every variable set", "fast clock", "both"];
    let mut cases: Vec<(u8, usize, Vec<u8>)> = vec![];
    for b in mixed(c, idx) {
        let mode = *c.rng.pick(&[SLICE, SLICE, SLICE, BYTEWISE, INTERRUPTED]);
        cases.push((mode, 0, b));
    }
    let kind = KINDS[idx as usize % KINDS.len()];
    let dir = c.workdir.join(format!("around-{}-{}", c.phase, c.idx));
    let file = dir.join("cases");
    if std::fs::create_dir_all(&dir).is_err() || std::fs::write(&file, digest::pack(&cases)).is_err() {
        c.harness_error("cannot write a scratch file");
        return;
    }
    let mut p = Command::new(std::env::current_exe().expect("own path"));
    p.args(["helper", "digests"]).arg(&file).current_dir(&dir);
    p.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let texts = &crate::dict::dict().fresh_texts;
    let shim = std::env::var("WADEC_SHIM_LIB").ok();
    let mut preload = |m: &str| match &shim {
        Some(s) => {
            p.env("LD_PRELOAD", s).env("WADEC_SHIM", m);
            true
        }
        None => false,
    };
    let there = match kind {
        "every variable set" => preload("e"),
        "fast clock" => preload("c"),
        "both" => preload("ce"),
        "empty environment" => {
            p.env_clear();
            true
        }
        _ => {
            for t in texts {
                if !t.is_empty() && !t.contains(['=', '\0']) {
                    p.env(t, var_value(&mut c.rng, texts));
                }
                if !t.is_empty() && t.len() < 100 && !t.contains(['/', '\0']) && t != "." && t != ".." && t != "cases" {
                    let _ = std::fs::write(dir.join(t), "1\n");
                }
            }
            for v in ["RUST_LOG", "RUST_BACKTRACE", "DEBUG", "CI", "WADEC", "WADEC_STRICT", "WADEC_DEBUG"] {
                p.env(v, "1");
            }
            p.env("LC_ALL", "tr_TR.UTF-8").env("HOME", "/nonexistent").env("TZ", "Asia/Kathmandu");
            p.args(["--strict", "--lenient", "-v"]);
            p.args(texts.iter().filter(|t| !t.contains('\0')));
            true
        }
    };
    if !there {
        c.count("surroundings left out (no shim)", 1);
        let _ = std::fs::remove_dir_all(&dir);
        return;
    }
    let r = proc_::run(&mut p, None, Duration::from_secs(100));
    let _ = std::fs::remove_dir_all(&dir);
    let done = match r {
        Ok(d) => d,
        Err(e) => return c.harness_error(format!("cannot run the helper: {e}")),
    };
    let out = String::from_utf8_lossy(&done.out);
    let mut n = 0;
    for l in out.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let [i, v, x] = w[..] else { continue };
        let (Ok(i), Ok(v), Ok(x)) = (i.parse::<usize>(), v.parse::<u8>(), u64::from_str_radix(x, 16)) else { continue };
        let Some((m, a, b)) = cases.get(i) else { continue };
        c.eval(b);
        n += 1;
        if expected(b, *m, *a, true) != (v, x) {
            c.fail(format!("{kind}: yields {} that differs; input {}", VERDICT[v.min(3) as usize], hex_short(b)), Some(b));
        }
    }
    c.count("decodes in other surroundings", n);
    c.seen("surroundings", kind);
    if n < cases.len() as u64 {
        let at = cases.get(n as usize).map(|x| &x.2);
        c.fail(format!("{kind}: decoding ended the process ({}) {}", done.how(), clip(&String::from_utf8_lossy(&done.err), 400)), at.map(|b| &b[..]));
    }
}
/// Families of modules that differ in one value, decoded here one after the
/// other and in processes in other orders.
pub fn orders_of_decodes(c: &mut Ctx, idx: u64) {
    const KINDS: [&str; 3] = ["backwards", "in another order", "every one twice"];
    let cases = crate::ph_twin::families(c, 400);
    let want: Vec<_> = cases.iter().map(|b| expected(b, SLICE, 0, true)).collect();
    let kind = KINDS[idx as usize % 3];
    let mut order: Vec<usize> = (0..cases.len()).rev().collect();
    if kind != "backwards" {
        for i in (1..order.len()).rev() {
            order.swap(i, c.rng.usize(i + 1));
        }
    }
    if kind == "every one twice" {
        order = order.iter().flat_map(|i| [*i, *i]).collect();
    }
    let dir = c.workdir.join(format!("orders-{}-{}", c.phase, c.idx));
    let file = dir.join("cases");
    let packed: Vec<_> = order.iter().map(|&i| (SLICE, 0, cases[i].clone())).collect();
    if std::fs::create_dir_all(&dir).is_err() || std::fs::write(&file, digest::pack(&packed)).is_err() {
        c.harness_error("cannot write a scratch file");
        return;
    }
    let mut p = Command::new(std::env::current_exe().expect("own path"));
    p.args(["helper", "digests"]).arg(&file).current_dir(&dir);
    p.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let r = proc_::run(&mut p, None, Duration::from_secs(100));
    let _ = std::fs::remove_dir_all(&dir);
    let done = match r {
        Ok(d) => d,
        Err(e) => return c.harness_error(format!("cannot run the helper: {e}")),
    };
    let out = String::from_utf8_lossy(&done.out);
    let mut n = 0;
    for l in out.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let [i, v, x] = w[..] else { continue };
        let (Ok(i), Ok(v), Ok(x)) = (i.parse::<usize>(), v.parse::<u8>(), u64::from_str_radix(x, 16)) else { continue };
        let Some(&at) = order.get(i) else { continue };
        let b = &cases[at];
        c.eval(b);
        n += 1;
        if want[at] != (v, x) {
            c.fail(format!("decoded {kind}: yields {} that differs from the one in the first order; input {}", VERDICT[v.min(3) as usize], hex_short(b)), Some(b));
        }
    }
    c.count("decodes in another order", n);
    if n < order.len() as u64 {
        c.harness_error(format!("the helper ended early ({}) {}", done.how(), clip(&String::from_utf8_lossy(&done.err), 400)));
    }
}
pub fn digests(path: &str) -> i32 {
    let Ok(v) = std::fs::read(path) else { return 2 };
    let t = std::thread::Builder::new().name("digests".into()).stack_size(64 << 20).spawn(move || {
        for (i, (mode, arg, b)) in digest::unpack(&v).into_iter().enumerate() {
            let (verdict, d) = digest::run(b, mode, arg, true);
            println!("{i} {verdict} {d:x}");
        }
    });
    t.expect("thread").join().is_err() as i32
}
