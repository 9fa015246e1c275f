//! Phases about readers: delivery, failures, consumption, independence.
use crate::bridge;
use crate::ctx::Ctx;
use crate::gen_::Prof;
use crate::lib_::*;
use crate::model::{self, Module};
use crate::observe::{self, Out};
use crate::ph_diff;
use crate::readers::{Delivery, Mon};
use crate::refdec;
use crate::util::{Rng, clip, hex_short};
use std::io::{self, ErrorKind, Read};

/// What a decode yields, in a form that can be compared.
#[derive(PartialEq, Clone)]
pub enum Res {
    Ok(Box<(Module, Option<String>)>),
    Err(String),
    Panic(String),
}
impl Res {
    pub fn of(o: &Out) -> Res {
        match o {
            Out::Ok(m) => Res::Ok(Box::new(bridge::module(m))),
            Out::Err(e) => Res::Err(format!("{e:?} | {}", observe::chain(e).join(" <- "))),
            Out::Panic(m) => Res::Panic(m.clone()),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Ok(_) => "accepted".into(),
            Res::Err(e) => format!("rejected ({})", clip(e, 300)),
            Res::Panic(e) => format!("panic ({e})"),
        }
    }
    pub fn diff(&self, o: &Res) -> String {
        match (self, o) {
            (Res::Ok(a), Res::Ok(b)) => format!("{:?}", model::diff(&a.0, &b.0)),
            _ => format!("{} but {}", self.brief(), o.brief()),
        }
    }
}

fn small(n: u64) -> bool {
    n <= 200_000
}
/// A workload mix: well-formed, one fault, mutated, odd section order.
pub fn input(c: &mut Ctx, idx: u64) -> Vec<u8> {
    loop {
        let b = match idx % 5 {
            0 => c.generated(&Prof { items: 3, ins: 6, ..Prof::general() }).1,
            1 => c.generated(&Prof { secs: [4; 14], ..Prof::general() }).1,
            2 => ph_diff::fault_bytes(c, idx / 5),
            3 => {
                let mut b = c.generated(&Prof { items: 3, ins: 6, ..Prof::general() }).1;
                ph_diff::mutate(c, &mut b);
                b
            }
            _ => c.generated(&Prof { items: 30, bytes: 500, ins: 10, ..Prof::general() }).1,
        };
        if small(refdec::decode(&b).1.locals_all) {
            return b;
        }
    }
}

pub fn deliveries(c: &mut Ctx, idx: u64) {
    let b = input(c, idx);
    c.eval(&b);
    let whole = {
        let o = observe::decode(&b);
        Res::of(&o)
    };
    c.seen("verdicts", if matches!(whole, Res::Ok(_)) { "accepted" } else { "rejected" });
    let k = 1 + c.rng.usize(40);
    for d in [
        Delivery::OneByOne,
        Delivery::Chunks(2),
        Delivery::Chunks(3),
        Delivery::Chunks(k),
        Delivery::Random,
        Delivery::Interrupted,
        Delivery::AlwaysInterrupted,
        Delivery::Chunks(4096),
    ] {
        let name = format!("{d:?}");
        let mut mon = Mon::new(&b, d, c.rng.clone());
        let o = observe::decode_with(&mut mon);
        c.rng.u64();
        c.count("deliveries compared", 1);
        c.count("read calls", mon.log.calls);
        c.count("interruptions delivered", mon.log.interrupts);
        c.seen("deliveries", name.split('(').next().unwrap());
        let r = Res::of(&o);
        if r != whole {
            c.fail(format!("delivery {name} changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
        }
    }
    // the library's own kinds of reader
    let r: Vec<(&str, Res)> = vec![
        ("slice", Res::of(&observe::decode_with(&mut &b[..]))),
        ("cursor", Res::of(&observe::decode_with(&mut io::Cursor::new(b.clone())))),
        ("buffered", Res::of(&observe::decode_with(&mut io::BufReader::with_capacity(7, &b[..])))),
        ("chain", {
            let (x, y) = b.split_at(c.rng.usize(b.len() + 1));
            Res::of(&observe::decode_with(&mut x.chain(io::empty()).chain(y)))
        }),
        ("deque", Res::of(&observe::decode_with(&mut b.iter().copied().collect::<std::collections::VecDeque<u8>>()))),
    ];
    for (n, x) in r {
        c.count("deliveries compared", 1);
        c.seen("deliveries", n);
        if x != whole {
            c.fail(format!("a {n} reader changes the result: {}; input {}", whole.diff(&x), hex_short(&b)), Some(&b));
        }
    }
    if idx < 3 {
        c.sample(|| format!("{} in 13 deliveries of {}", whole.brief(), hex_short(&b)));
    }
}
/// Long inputs (well-formed and not) in a few deliveries.
pub fn deliveries_scaled(c: &mut Ctx, idx: u64) {
    let mut v = ph_diff::scaled_inputs(c, idx);
    v.retain(|b| small(refdec::decode(b).1.locals_all));
    for b in v {
        let whole = Res::of(&observe::decode(&b));
        c.eval(&b);
        let k = match c.rng.hot() {
            Some(n) if (2..1 << 20).contains(&n) => n as usize,
            _ => *c.rng.pick(&[255, 256, 1000, 1024, 4095, 4096, 8192, 65_535, 65_536]),
        };
        let one = *c.rng.pick(&[0, 1, 2]);
        for d in [Delivery::Chunks(k), [Delivery::OneByOne, Delivery::Interrupted, Delivery::AlwaysInterrupted][one].clone()] {
            let name = format!("{d:?}");
            let mut mon = Mon::new(&b, d, c.rng.clone());
            let o = observe::decode_with(&mut mon);
            c.rng.u64();
            c.count("deliveries compared", 1);
            c.count("interruptions delivered", mon.log.interrupts);
            let r = Res::of(&o);
            if r != whole {
                c.fail(format!("delivery {name} changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
            }
        }
    }
}
/// Reader failures at a few offsets of long inputs.
pub fn failures_scaled(c: &mut Ctx, idx: u64) {
    let mut v = ph_diff::scaled_inputs(c, idx);
    v.truncate(4);
    v.retain(|b| small(refdec::decode(b).1.locals_all));
    for b in v {
        c.eval(&b);
        let plain = Res::of(&observe::decode(&b));
        let ends = refdec::decode(&b).1.section_ends;
        for k in 0..10 {
            let at = match k {
                0 => b.len(),
                1 => b.len() - 1,
                2 | 3 if !ends.is_empty() => (*c.rng.pick(&ends) + c.rng.usize(3)).saturating_sub(1),
                4 => match c.rng.hot() {
                    Some(n) => n as usize,
                    None => 65_536,
                },
                5 => *c.rng.pick(&[255, 256, 1000, 4096, 8192, 65_535, 65_536]),
                _ => c.rng.usize(b.len() + 1),
            }
            .min(b.len());
            let arg = c.rng.usize(1000);
            let once = c.rng.bool();
            one_failure(c, &b, at, arg, once, if k % 2 == 0 { Delivery::Whole } else { Delivery::Chunks(1000) }, Some(&plain));
        }
    }
}
/// Files and pipes as readers.
pub fn os_readers(c: &mut Ctx, idx: u64) {
    let b = input(c, idx);
    c.eval(&b);
    let whole = Res::of(&observe::decode(&b));
    let path = c.workdir.join(format!("f{idx}.wasm"));
    if std::fs::write(&path, &b).is_err() {
        c.harness_error("cannot write a scratch file");
        return;
    }
    if let Ok(mut f) = std::fs::File::open(&path) {
        let r = Res::of(&observe::decode_with(&mut f));
        if r != whole {
            c.fail(format!("reading from a file changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
        }
        c.count("deliveries compared", 1);
        c.seen("deliveries", "file");
    }
    let _ = std::fs::remove_file(&path);
    if let Ok((mut rd, mut wr)) = io::pipe() {
        let data = b.clone();
        let th = std::thread::spawn(move || {
            use std::io::Write;
            for ch in data.chunks(13) {
                if wr.write_all(ch).is_err() {
                    break;
                }
            }
        });
        let r = Res::of(&observe::decode_with(&mut rd));
        drop(rd);
        let _ = th.join();
        if r != whole {
            c.fail(format!("reading from a pipe changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
        }
        c.count("deliveries compared", 1);
        c.seen("deliveries", "pipe");
    }
}
/// Every way of splitting a short input into two reads, and an interruption at
/// every offset.
pub fn splits(c: &mut Ctx, idx: u64) {
    let p = Prof { items: 2, ins: 3, bytes: 8, secs: [4; 14], ..Prof::general() };
    let b = if idx % 2 == 0 { c.generated(&p).1 } else { ph_diff::fault_bytes(c, idx) };
    if b.len() > 600 || !small(refdec::decode(&b).1.locals_all) {
        return;
    }
    c.eval(&b);
    let whole = Res::of(&observe::decode(&b));
    for k in 0..=b.len() {
        let mut once = Split { b: &b, pos: 0, at: k, done: false, interrupt: false };
        let r = Res::of(&observe::decode_with(&mut once));
        if r != whole {
            c.fail(format!("a short read at offset {k} changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
        }
        let mut once = Split { b: &b, pos: 0, at: k, done: false, interrupt: true };
        let r = Res::of(&observe::decode_with(&mut once));
        if r != whole {
            c.fail(format!("an interruption at offset {k} changes the result: {}; input {}", whole.diff(&r), hex_short(&b)), Some(&b));
        }
        c.count("deliveries compared", 2);
        c.count("split points", 1);
    }
}
struct Split<'a> {
    b: &'a [u8],
    pos: usize,
    at: usize,
    done: bool,
    interrupt: bool,
}
impl Read for Split<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut end = self.b.len();
        if !self.done {
            if self.pos >= self.at {
                self.done = true;
                if self.interrupt {
                    return Err(ErrorKind::Interrupted.into());
                }
            } else {
                end = self.at;
            }
        }
        let n = buf.len().min(end - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ------------------------------------------------------------- failures

const FAIL_KINDS: [ErrorKind; 16] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::AddrInUse,
];
fn text(arg: usize) -> String {
    format!("failure-{arg}-injected")
}
const ERRNOS: [i32; 8] = [5, 104, 9, 110, 11, 13, 28, 116];
/// With a text of its own, of a bare kind, or from the operating system.
fn make(arg: usize) -> io::Error {
    match arg / 16 % 3 {
        0 => io::Error::new(FAIL_KINDS[arg % 16], text(arg)),
        1 => FAIL_KINDS[arg % 16].into(),
        _ => io::Error::from_raw_os_error(ERRNOS[arg % 8]),
    }
}
/// Exhibits the failure: the I/O error itself, or its text, in the chain.
fn exhibits(e: &wadec::decode::DecodeModuleError, arg: usize) -> bool {
    let made = make(arg);
    let t = made.to_string();
    observe::chain(e).iter().any(|m| m.contains(&t))
        || e_has(e, |io| match arg / 16 % 3 {
            0 => io.get_ref().is_some_and(|x| x.to_string() == text(arg)),
            1 => io.kind() == made.kind(),
            _ => io.raw_os_error() == made.raw_os_error(),
        })
}
fn e_has(e: &(dyn std::error::Error + 'static), f: impl Fn(&io::Error) -> bool) -> bool {
    let mut c: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = c {
        if x.downcast_ref::<io::Error>().is_some_and(&f) {
            return true;
        }
        c = x.source();
    }
    false
}
fn one_failure(c: &mut Ctx, b: &[u8], at: usize, arg: usize, once: bool, d: Delivery, plain: Option<&Res>) {
    let mut mon = Mon::new(b, d, c.rng.clone());
    mon.fail_at = Some(at);
    mon.fail_once = once;
    mon.make_err = make;
    mon.err_arg = arg;
    let o = observe::decode_with(&mut mon);
    c.st.evals += 1;
    let how = format!("`{}` at offset {at} of {}{}", make(arg), b.len(), if once { ", once" } else { "" });
    if mon.log.failures > 0 {
        c.count("failures delivered", 1);
        match &o {
            Out::Ok(_) => c.fail(format!("reader failure taken for success: {how}; input {}", hex_short(b)), Some(b)),
            Out::Err(e) => {
                if !exhibits(e, arg) {
                    c.fail(
                        format!("reader failure not reported: {how}; reported: {}; input {}", observe::chain(e).join(" <- "), hex_short(b)),
                        Some(b),
                    );
                }
            }
            Out::Panic(m) => c.fail(format!("panic on reader failure: {m}; {how}"), Some(b)),
        }
    } else if let Some(p) = plain {
        // stopped before reaching it
        let r = Res::of(&o);
        if r != *p {
            c.fail(format!("a failure never delivered changes the result: {how}: {}; input {}", p.diff(&r), hex_short(b)), Some(b));
        }
        c.count("failures not reached", 1);
    }
}
/// A failure at every offset of generated and of malformed modules.
pub fn failures(c: &mut Ctx, idx: u64) {
    let p = Prof { items: 2, ins: 4, bytes: 10, secs: [5; 14], ..Prof::general() };
    let b = match idx % 4 {
        0 | 1 => c.generated(&p).1,
        2 => c.generated(&Prof { items: 2, ins: 3, depth: 2, bytes: 6, ..Prof::dense() }).1,
        _ => ph_diff::fault_bytes(c, idx),
    };
    if b.len() > 900 || !small(refdec::decode(&b).1.locals_all) {
        return;
    }
    c.eval(&b);
    let plain = Res::of(&observe::decode(&b));
    for at in 0..=b.len() {
        for k in 0..3 {
            let arg = at * 5 + k * 17 + idx as usize;
            let d = match k {
                0 => Delivery::Whole,
                1 => Delivery::OneByOne,
                _ => Delivery::Interrupted,
            };
            one_failure(c, &b, at, arg, k == 1, d, Some(&plain));
            let e = make(arg);
            c.seen("failure kinds", format!("{:?} {}", e.kind(), ["with text", "bare", "from errno"][arg / 16 % 3]));
        }
        c.count("failure offsets", 1);
    }
    if idx < 3 {
        c.sample(|| format!("a failure at each of {} offsets of {}", b.len() + 1, hex_short(&b)));
    }
}
/// All kinds of failure at every structural boundary.
pub fn failures_at_ends(c: &mut Ctx, _: u64) {
    let p = Prof { items: 2, ins: 3, bytes: 10, secs: [4; 14], customs: 2, ..Prof::general() };
    let (_, b, _) = c.generated(&p);
    let (r, info) = refdec::decode(&b);
    if r.is_err() || !small(info.locals_all) {
        return;
    }
    c.eval(&b);
    let mut at: Vec<usize> = info.section_ends.iter().flat_map(|&e| [e - 1, e, e + 1]).collect();
    at.extend([0, 4, 7, 8, 9, b.len()]);
    at.retain(|&x| x <= b.len());
    at.sort();
    at.dedup();
    for &a in &at {
        for arg in 0..16 {
            let arg = arg + 16 * c.rng.usize(3);
            let once = c.rng.bool();
            one_failure(c, &b, a, arg, once, Delivery::Whole, None);
        }
        c.count("boundary offsets", 1);
    }
}
/// Prefixes of modules: complete ones may be accepted, others must not be.
/// (The reference decides; shared with the other phases.)
pub fn truncations(c: &mut Ctx, idx: u64) {
    ph_diff::prefixes(c, idx);
}

// ---------------------------------------------------------- consumption

fn consumption_of(c: &mut Ctx, b: &[u8], d: Delivery) {
    let (r, info) = refdec::decode(b);
    if !small(info.locals_all) {
        return;
    }
    let mut mon = Mon::new(b, d, c.rng.clone());
    let o = observe::decode_with(&mut mon);
    let log = mon.log.clone();
    c.eval(b);
    crate::ph_diag::consume(c, b, &r, &o, &log);
}
pub fn consumption(c: &mut Ctx, idx: u64) {
    let b = input(c, idx);
    // something must lie behind the fault: more sections, or junk
    for tail in 0..3 {
        let mut t = b.clone();
        match tail {
            0 => {}
            1 => {
                for _ in 0..4 {
                    t.extend(sec(0, &[1, b'z', 1, 2, 3, 4, 5, 6, 7, 8, 9]));
                }
            }
            _ => {
                let x = c.rng.bytes(40);
                t.extend(x);
            }
        }
        let d = match c.rng.below(3) {
            0 => Delivery::Whole,
            1 => Delivery::Random,
            _ => Delivery::OneByOne,
        };
        consumption_of(c, &t, d);
    }
    if idx < 3 {
        c.sample(|| format!("consumption of {}", hex_short(&b)));
    }
}
/// Section and body sizes smaller than the content, with more bytes behind.
pub fn consumption_short(c: &mut Ctx, _: u64) {
    let (_, b, m) = c.generated(&Prof { items: 3, ins: 6, secs: [6; 14], ..Prof::general() });
    let (r, info) = refdec::decode(&b);
    if r.is_err() || m.headers.is_empty() || !small(info.locals_all) {
        return;
    }
    let s = parts(&b, &ranges(&m, &info.section_ends));
    let i = c.rng.usize(s.len());
    for n in 0..s[i].1.len().min(60) {
        // header lies: declared n bytes, full content follows
        let mut v = PRE.to_vec();
        for (k, (id, x)) in s.iter().enumerate() {
            v.push(*id);
            v.extend(crate::util::leb_u(if k == i { n as u64 } else { x.len() as u64 }, 0));
            v.extend_from_slice(x);
        }
        if small(refdec::decode(&v).1.locals_all) {
            consumption_of(c, &v, Delivery::Whole);
        }
        c.count("understated section sizes", 1);
    }
    // the same for a code body: declared sizes smaller than the body
    if !m.codes.is_empty() {
        let e = crate::enc::encode(
            &crate::gen_::Plan { m: m.clone(), layout: m.headers.iter().map(|h| h.0).collect() },
            &Rng::new(1, "b", 0),
            &MIN,
            vec![],
            true,
        );
        let toks: Vec<usize> = (0..e.toks.len()).filter(|&i| e.toks[i].role == "body.size").collect();
        for t in toks {
            let val = e.toks[t].val as u64;
            for n in [0, 1, val / 2, val.saturating_sub(2), val.saturating_sub(1), val + 1, val + 2, val + 1000] {
                let mut b = crate::enc::encode(
                    &crate::gen_::Plan { m: m.clone(), layout: m.headers.iter().map(|h| h.0).collect() },
                    &Rng::new(1, "b", 0),
                    &MIN,
                    vec![(t, crate::util::leb_u(n, 5))],
                    false,
                )
                .bytes;
                b.extend(sec(0, &[1, b'z', 1, 2, 3]));
                consumption_of(c, &b, Delivery::Whole);
                c.count("wrong body sizes", 1);
            }
        }
    }
}
// --------------------------------------------------------- independence

/// The corpus for independence checks: deterministic in the seed.
fn corpus(seed: u64, salt: u64, n: u64) -> Vec<(Vec<u8>, Res)> {
    let mut v = vec![];
    let mut i = 0;
    while (v.len() as u64) < n {
        let mut r = Rng::new(seed ^ salt, "corpus", i);
        i += 1;
        let p = match i % 3 {
            0 => Prof { items: 3, ins: 10, depth: 10, ..Prof::general() },
            1 => Prof { items: 3, ins: 6, ..Prof::dense() },
            _ => Prof { secs: [4; 14], ..Prof::general() },
        };
        let plan = crate::gen_::module(&mut r, &p);
        let er = Rng::new(i, "corpus", seed);
        let e = crate::enc::encode(&plan, &er, &crate::enc::Style { pad: 4, long: 4 }, vec![], true);
        let mut b = e.bytes;
        match i % 4 {
            0 => {
                let k = r.usize(e.toks.len());
                let x = r.bytes(2);
                b = crate::enc::encode(&plan, &er, &crate::enc::Style { pad: 4, long: 4 }, vec![(k, x)], false).bytes;
            }
            1 => {
                let at = r.usize(b.len());
                b.truncate(at);
            }
            _ => {}
        }
        if small(refdec::decode(&b).1.locals_all) {
            let res = Res::of(&observe::decode(&b));
            v.push((b, res));
        }
    }
    v
}
/// That, and inputs of every other kind.
fn varied(c: &mut Ctx, salt: u64, n: u64) -> Vec<(Vec<u8>, Res)> {
    let mut v = corpus(c.seed, salt, n / 2);
    let mut more = crate::ph_probe::gather(c, salt, n as usize / 2, 2048);
    let bombs = crate::ph_probe::bombs();
    for _ in 0..n / 6 {
        more.push(c.rng.pick(&bombs).clone());
    }
    for b in more {
        if small(refdec::decode(&b).1.locals_all) {
            let res = Res::of(&observe::decode(&b));
            v.push((b, res));
        }
    }
    v
}
/// Repeats and random histories on one thread.
pub fn histories(c: &mut Ctx, idx: u64) {
    let items = varied(c, idx, 24);
    for _ in 0..100 {
        let (b, want) = c.rng.pick(&items);
        // now and then a decode that ends badly in another way comes between
        match c.rng.below(6) {
            0 => {
                let at = c.rng.usize(b.len() + 1);
                let mut m = Mon::new(b, Delivery::Random, c.rng.clone());
                m.fail_at = Some(at);
                let _ = observe::decode_with(&mut m);
                c.count("failed reads in between", 1);
            }
            1 => {
                let at = c.rng.usize(b.len() + 1);
                let mut r = Panicking { b, at, pos: 0 };
                let _ = observe::decode_with(&mut r);
                c.count("decodes unwound by a panicking reader", 1);
            }
            _ => {}
        }
        let got = Res::of(&observe::decode(b));
        c.eval(b);
        c.count("decodes in histories", 1);
        c.seen("verdicts", if matches!(want, Res::Ok(_)) { "accepted" } else { "rejected" });
        if got != *want {
            c.fail(format!("history changes the result: {}; input {}", want.diff(&got), hex_short(b)), Some(b));
        }
        // and against the reference, so that a lasting change is noticed too
        let (r, _) = refdec::decode(b);
        if r.is_ok() != matches!(got, Res::Ok(_)) {
            c.fail(format!("after a history the verdict is wrong: {}; input {}", got.brief(), hex_short(b)), Some(b));
        }
    }
}
/// One input repeated very many times, or one fault repeated, then a good one.
pub fn repeats(c: &mut Ctx, idx: u64) {
    let items = corpus(c.seed, 0x7e9 ^ idx, 6);
    let n = match c.rng.hot() {
        Some(n) if n > 3000 => (n + 10).min(200_000),
        _ => 6000,
    };
    let (b, want) = &items[idx as usize % items.len()];
    for i in 0..n {
        let got = Res::of(&observe::decode(b));
        if got != *want {
            c.fail(format!("repetition {i} changes the result: {}; input {}", want.diff(&got), hex_short(b)), Some(b));
            return;
        }
    }
    c.eval(b);
    c.count("repeated decodes", n);
    for (b, want) in &items {
        let got = Res::of(&observe::decode(b));
        if got != *want {
            c.fail(format!("after {n} repetitions another result changes: {}; input {}", want.diff(&got), hex_short(b)), Some(b));
        }
    }
}
/// Very many decodes of one kind on this thread, most of them failing, then
/// all kinds of inputs that must not notice.
pub fn long_histories(c: &mut Ctx, idx: u64) {
    let deep = |shape: u64, n: u64, end: u64| {
        let (open, close): (&[u8], &[u8]) = match shape {
            0 => (&[0x02, 0x40], &[0x0B]),
            1 => (&[0x03, 0x40], &[0x0B]),
            2 => (&[0x04, 0x40], &[0x0B]),
            3 => (&[0x04, 0x40, 0x05], &[0x0B]),
            _ => (&[0x1F, 0x40, 1, 2, 0], &[0x0B]),
        };
        let mut e = vec![0];
        for _ in 0..n {
            e.extend_from_slice(open);
        }
        match end {
            0 => {
                for _ in 0..n {
                    e.extend_from_slice(close);
                }
                e.push(0x0B);
            }
            1 => e.push(0xFF),
            2 => e.push(0x05),
            _ => {}
        }
        module(&[sec(3, &[1, 0]), sec(10, &cat(&[&[1], &crate::util::leb_u(e.len() as u64, 0), &e]))])
    };
    let items = varied(c, 0x10f ^ idx, 14);
    let mut probes: Vec<(Vec<u8>, Res)> = items.clone();
    for s in 0..5 {
        for n in [1, 5, 300, 900] {
            let b = deep(s, n, 0);
            let r = Res::of(&observe::decode(&b));
            if !matches!(r, Res::Ok(_)) {
                c.fail(format!("well-formed nesting rejected: {}; input {}", r.brief(), hex_short(&b)), Some(&b));
            }
            probes.push((b, r));
        }
    }
    for k in 0..3 {
        let b = crate::enc::encode(
            &ph_diff::sized_module(ph_diff::KINDS[(idx as usize * 3 + k) % ph_diff::KINDS.len()], 3000),
            &Rng::new(0, "", 0),
            &MIN,
            vec![],
            false,
        )
        .bytes;
        let r = Res::of(&observe::decode(&b));
        probes.push((b, r));
    }
    // the history
    let n = match c.rng.hot() {
        Some(n) if n > 100 => (n + 10).min(30_000),
        _ => 2_500,
    };
    let kind = idx % 8;
    let many = items.iter().find(|x| (kind == 6) == matches!(x.1, Res::Ok(_))).unwrap_or(&items[0]).0.clone();
    for i in 0..n {
        match kind {
            0..=2 => {
                let b = deep(c.rng.below(5), 300 + c.rng.below(600), kind + 1);
                let _ = observe::decode(&b);
            }
            3 => {
                let b = deep(c.rng.below(5), 900, 0);
                let at = c.rng.usize(b.len());
                let mut m = Mon::new(&b, Delivery::Whole, c.rng.clone());
                m.fail_at = Some(at);
                let _ = observe::decode_with(&mut m);
            }
            4 => {
                let b = deep(c.rng.below(5), 900, 0);
                let at = c.rng.usize(b.len());
                let _ = observe::decode_with(&mut Panicking { b: &b, at, pos: 0 });
            }
            5 => {
                let b = deep(c.rng.below(5), 300, 0);
                let _ = observe::decode(&b);
            }
            _ => {
                for _ in 0..20 {
                    let _ = observe::decode(&many);
                }
            }
        }
        c.count("decodes in long histories", 1);
        if i % 500 == 499 || i + 1 == n {
            for (b, want) in &probes {
                let got = Res::of(&observe::decode(b));
                c.eval(b);
                c.count("decodes in histories", 1);
                if got != *want {
                    c.fail(format!("{i} decodes before it change the result: {}; input {}", want.diff(&got), hex_short(b)), Some(b));
                    return;
                }
            }
        }
    }
}
struct Panicking<'a> {
    b: &'a [u8],
    at: usize,
    pos: usize,
}
impl Read for Panicking<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at {
            panic!("reader panics");
        }
        let n = buf.len().min(self.at - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A reader that decodes other inputs while its own decode is suspended.
struct Nested<'a> {
    b: &'a [u8],
    pos: usize,
    items: &'a [(Vec<u8>, Res)],
    rng: Rng,
    depth: u32,
    bad: Vec<String>,
    inner: u64,
}
impl Read for Nested<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.rng.chance(1, 6) && self.inner < 30 {
            let (b, want) = self.rng.pick(self.items);
            self.inner += 1;
            let got = if self.depth > 0 {
                let mut n = Nested { b, pos: 0, items: self.items, rng: self.rng.clone(), depth: self.depth - 1, bad: vec![], inner: 20 };
                let o = observe::decode_with(&mut n);
                self.bad.append(&mut n.bad);
                self.inner += n.inner - 20;
                Res::of(&o)
            } else {
                Res::of(&observe::decode(b))
            };
            self.rng.u64();
            if got != *want {
                self.bad.push(format!("a decode within another one differs: {}; input {}", want.diff(&got), hex_short(b)));
            }
        }
        let n = buf.len().min(self.b.len() - self.pos).min(self.rng.range(1, 8) as usize);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn nested(c: &mut Ctx, idx: u64) {
    let items = varied(c, 0xabc ^ idx, 12);
    for (b, want) in &items {
        let depth = *c.rng.pick(&[0, 1, 1, 2, 2, 4, 8]);
        let mut n = Nested { b, pos: 0, items: &items, rng: c.rng.clone(), depth, bad: vec![], inner: 0 };
        c.max("decodes suspended at once", depth as u64 + 2);
        c.rng.u64();
        let o = observe::decode_with(&mut n);
        let got = Res::of(&o);
        c.eval(b);
        c.count("decodes inside suspended decodes", n.inner);
        c.count("decodes suspended", 1);
        if got != *want {
            c.fail(format!("decodes in between change the result: {}; input {}", want.diff(&got), hex_short(b)), Some(b));
        }
        for x in n.bad {
            c.fail(x, Some(b));
        }
    }
}
/// Many threads decode the same inputs at the same time, started together,
/// with yields inside the readers.
pub fn concurrent(c: &mut Ctx, idx: u64) {
    let items = varied(c, 0xc0c ^ idx, 20);
    let threads = *c.rng.pick(&[2usize, 4, 8, 16]);
    let rounds = 12;
    let barrier = std::sync::Barrier::new(threads);
    let base = c.rng.clone();
    c.rng.u64();
    let order = std::sync::atomic::AtomicU64::new(0);
    let out: Vec<(u64, Vec<u64>, Vec<(String, Vec<u8>)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (items, barrier, order) = (&items, &barrier, &order);
                let mut r = base.clone();
                for _ in 0..=t {
                    r.u64();
                }
                let mut r = Rng::new(r.u64(), "thread", t as u64);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut bad = vec![];
                        let mut n = 0;
                        let mut tickets = vec![];
                        for _ in 0..rounds {
                            barrier.wait();
                            for _ in 0..4 {
                                let (b, want) = r.pick(items);
                                let mut y = Yielding { b, pos: 0, rng: r.clone(), order, switches: 0, last: u64::MAX };
                                r.u64();
                                let got = Res::of(&observe::decode_with(&mut y));
                                tickets.push(y.switches);
                                n += 1;
                                if got != *want && bad.len() < 2 {
                                    bad.push((format!("a concurrent decode differs: {}", want.diff(&got)), b.clone()));
                                }
                            }
                        }
                        (n, tickets, bad)
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut overlapped = 0;
    for (n, sw, bad) in out {
        c.st.evals += n;
        c.count("concurrent decodes", n);
        overlapped += sw.iter().filter(|x| **x > 0).count() as u64;
        for (w, b) in bad {
            c.fail(format!("{w}; input {}", hex_short(&b)), Some(&b));
        }
    }
    c.count("concurrent decodes that overlapped another", overlapped);
    for (b, _) in &items {
        c.eval(b);
    }
}
/// Takes a ticket at each read: a gap shows another decode ran in between.
struct Yielding<'a> {
    b: &'a [u8],
    pos: usize,
    rng: Rng,
    order: &'a std::sync::atomic::AtomicU64,
    switches: u64,
    last: u64,
}
impl Read for Yielding<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let t = self.order.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if self.last != u64::MAX && t != self.last + 1 {
            self.switches += 1;
        }
        self.last = t;
        if self.rng.chance(1, 10) {
            std::thread::yield_now();
        }
        let n = buf.len().min(self.b.len() - self.pos).min(16);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
