//! The command-line tool, observed from outside: exit status and output.
use crate::ctx::Ctx;
use crate::gen_::Prof;
use crate::lib_::*;
use crate::observe;
use crate::ph_diff;
use crate::ph_io;
use crate::proc_::{self, Done};
use crate::util::{clip, hex_short, leb_u};
use std::ffi::OsString;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::OwnedFd;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(100);

fn tool() -> Option<PathBuf> {
    std::env::var_os("WADEC_CLI").map(PathBuf::from).filter(|p| p.is_file())
}
/// A directory of this case's own.
struct Dir(PathBuf);
impl Dir {
    fn new(c: &Ctx, tag: &str) -> Dir {
        let d = c.workdir.join(format!("cli-{tag}-{}-{}", c.phase, c.idx));
        let _ = std::fs::create_dir_all(&d);
        Dir(d)
    }
    fn file(&self, name: &std::ffi::OsStr, b: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, b).expect("input file");
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What the library makes of the bytes.
enum Want {
    Ok(String),
    Err(Vec<String>, String),
}
fn want(c: &mut Ctx, b: &[u8], debug: bool) -> Option<Want> {
    match observe::decode(b) {
        observe::Out::Ok(m) => match observe::guarded(|| if debug { format!("{m:#?}") } else { String::new() }) {
            Ok(s) => Some(Want::Ok(s)),
            Err(_) => None,
        },
        observe::Out::Err(e) => match observe::guarded(|| (observe::chain(&e), format!("{e:#?}"))) {
            Ok((v, d)) => Some(Want::Err(v, d)),
            Err(_) => None,
        },
        observe::Out::Panic(_) => {
            c.count("inputs on which the library panics (not judged here)", 1);
            None
        }
    }
}

fn command(c: &mut Ctx, dir: &Dir) -> Option<Command> {
    let Some(t) = tool() else {
        c.harness_error("WADEC_CLI does not name the tool");
        return None;
    };
    let mut k = Command::new(t);
    k.current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    environment(c, &mut k);
    Some(k)
}
/// What the shell's user has in the environment has no say.
fn environment(c: &mut Ctx, k: &mut Command) {
    const VARS: [(&str, &str); 14] = [
        ("RUST_BACKTRACE", "1"),
        ("RUST_BACKTRACE", "full"),
        ("RUST_LOG", "trace"),
        ("NO_COLOR", "1"),
        ("CLICOLOR_FORCE", "1"),
        ("TERM", "dumb"),
        ("COLUMNS", "20"),
        ("LANG", "C"),
        ("LC_ALL", "tr_TR.UTF-8"),
        ("HOME", "/nonexistent"),
        ("TMPDIR", "/nonexistent"),
        ("VERBOSE", "1"),
        ("WADEC_VERBOSE", "1"),
        ("DEBUG", "1"),
    ];
    match c.rng.below(5) {
        4 => {
            // a fast clock, or every variable set
            if let Ok(s) = std::env::var("WADEC_SHIM_LIB") {
                let m = *c.rng.pick(&["c", "e"]);
                k.env("LD_PRELOAD", s).env("WADEC_SHIM", m);
                c.seen("environment variables", if m == "c" { "a fast clock" } else { "every one" });
            }
        }
        0 => {
            let (n, v) = *c.rng.pick(&VARS);
            k.env(n, v);
            c.seen("environment variables", n);
        }
        1 => {
            k.env_clear();
            c.seen("environment variables", "none at all");
        }
        2 => {
            let texts = &crate::dict::dict().fresh_texts;
            for t in texts {
                if !t.is_empty() && !t.contains(['=', '\0']) {
                    k.env(t, crate::ph_probe::var_value(&mut c.rng, texts));
                }
            }
        }
        _ => {}
    }
}
/// A module of exactly `len` bytes, most of them in a custom section.
fn exactly(c: &mut Ctx, len: u64) -> Vec<u8> {
    let mut b = loop {
        let b = c.generated(&Prof { items: 2, ins: 4, ..Prof::general() }).1;
        if (b.len() as u64) + 20 < len {
            break b;
        }
        if len < 400 {
            break PRE.to_vec();
        }
    };
    let room = len as usize - b.len();
    // id, size, content: a name of one byte and zeros or noise
    for w in 1..6 {
        let Some(n) = room.checked_sub(1 + w) else { break };
        let size = leb_u(n as u64, w);
        if n < 2 || size.len() != w {
            continue;
        }
        let mut x = vec![0];
        x.extend(size);
        x.extend([1, b'p']);
        let fill = if c.rng.bool() { vec![0; n - 2] } else { c.rng.bytes(n - 2) };
        x.extend(fill);
        if c.rng.bool() {
            b.extend(x);
        } else {
            let rest = b.split_off(8);
            b.extend(x);
            b.extend(rest);
        }
        break;
    }
    b
}
/// Lengths at which buffers end.
const LENS: [u64; 22] = [
    64, 512, 1000, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 65_537, 131_072, 262_144, 1_000_000,
    1_048_576, 1_048_577, 4_194_304,
];
/// New numbers, of the very large ones a few.
fn hot() -> Vec<u64> {
    let mut v = crate::dict::lens(17 << 20).to_vec();
    v.extend(crate::dict::lens(1 << 28)[v.len()..].iter().take(6));
    v
}
pub fn lens_n() -> u64 {
    ((LENS.len() + hot().len()) * 4) as u64
}
fn of_length(c: &mut Ctx, idx: u64) -> Vec<u8> {
    let hot = hot();
    let all = LENS.len() + hot.len();
    let k = idx as usize % all;
    let len = if k < LENS.len() { LENS[k] } else { hot[k - LENS.len()] }.max(30);
    let mut b = exactly(c, len);
    match (idx as usize / all) % 4 {
        1 => {
            b.pop();
        }
        2 => b.push(*c.rng.pick(&[0u8, 1, 13, 99, 255])),
        3 => {
            // what comes behind that length counts
            let tail = *c.rng.pick(&[&[0u8, 2, 1, b'x'][..], &[0, 2, 1], &[0, 1, 0xFF][..], &[14, 0]]);
            b.extend_from_slice(tail);
        }
        _ => {}
    }
    c.max("largest input", b.len() as u64);
    b
}
pub fn run_lengths(c: &mut Ctx, idx: u64) {
    let b = of_length(c, idx);
    let n = c.rng.below(WAYS.len() as u64 * 3);
    one_run(c, n, &b);
}
pub fn report_lengths(c: &mut Ctx, idx: u64) {
    let b = of_length(c, idx);
    let verbose = b.len() < 70_000 && c.rng.bool();
    let way = c.rng.below(3);
    one_report(c, &b, verbose, way);
}
/// Long lists, whole and damaged.
pub fn run_scaled(c: &mut Ctx, idx: u64) {
    for b in ph_diff::scaled_inputs(c, idx) {
        if crate::refdec::decode(&b).1.locals_all > 2_000_000 {
            continue;
        }
        let n = c.rng.below(WAYS.len() as u64 * 3);
        // not a module of this length in its debug form
        let n = if b.len() > 100_000 { n % WAYS.len() as u64 } else { n };
        one_run(c, n, &b);
    }
}
pub fn report_scaled(c: &mut Ctx, idx: u64) {
    for b in ph_diff::scaled_inputs(c, idx) {
        if crate::refdec::decode(&b).1.locals_all > 200_000 {
            continue;
        }
        let verbose = b.len() < 20_000 && c.rng.bool();
        let way = c.rng.below(3);
        one_report(c, &b, verbose, way);
    }
}
fn start(c: &mut Ctx, k: &mut Command, feed: Option<Vec<Vec<u8>>>) -> Option<Done> {
    match proc_::run(k, feed, LIMIT) {
        Ok(d) => {
            c.count("tool runs", 1);
            Some(d)
        }
        Err(e) => {
            c.harness_error(format!("cannot run the tool: {e}"));
            None
        }
    }
}
fn text(b: &[u8]) -> String {
    clip(&String::from_utf8_lossy(b), 300)
}
/// Panics and crashes are never right.
fn crashed(d: &Done) -> bool {
    d.timed_out() || d.signal().is_some() || d.code() == Some(101) || text_has(&d.err, "panicked at")
}
fn text_has(b: &[u8], s: &str) -> bool {
    b.windows(s.len()).any(|w| w == s.as_bytes())
}

// ------------------------------------------------------------------- C22

fn an_input(c: &mut Ctx, idx: u64) -> Vec<u8> {
    match idx % 16 {
        0 => match c.rng.below(4) {
            0 => vec![],
            1 => PRE.to_vec(),
            2 => PRE[..c.rng.usize(8)].to_vec(),
            _ => {
                let mut b = c.generated(&Prof::general()).1;
                let n = 1 + c.rng.usize(4);
                let x = c.rng.bytes(n);
                b.extend(x);
                b
            }
        },
        1 => {
            let b = c.generated(&Prof::general()).1;
            let n = c.rng.usize(b.len() + 1);
            b[..n].to_vec()
        }
        2 => {
            let kind = *c.rng.pick(&ph_diff::KINDS);
            let n = *c.rng.pick(&[1u64, 300, 5_000, 20_000]);
            let plan = ph_diff::sized_module(kind, n);
            let mut b = c.encode(&plan, &MIN).0;
            if c.rng.bool() {
                let k = b.len() - c.rng.usize(b.len().min(12)) - 1;
                b[k] ^= 1 << c.rng.below(8);
            }
            b
        }
        _ => ph_io::input(c, idx),
    }
}
fn pieces(c: &mut Ctx, b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    let small = c.rng.bool();
    while i < b.len() {
        let n = (1 + c.rng.usize(if small && b.len() < 3000 { 20 } else { 5000 })).min(b.len() - i);
        v.push(b[i..i + n].to_vec());
        i += n;
    }
    v
}

const WAYS: [&str; 15] = [
    "absolute path",
    "relative path",
    "path with spaces and other letters",
    "path that is not UTF-8",
    "path beginning with a dash, after --",
    "- with a file",
    "default with a file",
    "- through a pipe",
    "default through a pipe",
    "named pipe",
    "/dev/stdin",
    "default from a socket",
    "default with a file read from its middle",
    "- after --",
    "through a link",
];

pub fn runs(c: &mut Ctx, idx: u64) {
    for j in 0..2 {
        let b = an_input(c, idx * 2 + j);
        one_run(c, idx * 2 + j, &b);
    }
}
fn one_run(c: &mut Ctx, n: u64, b: &[u8]) {
    let way = WAYS[(n % WAYS.len() as u64) as usize];
    let verbose = (n / WAYS.len() as u64) % 3;
    let dir = Dir::new(c, &format!("{n}"));
    let Some(want) = want(c, b, false) else { return };
    let Some(mut k) = command(c, &dir) else { return };
    if verbose == 1 {
        k.arg("--verbose");
    }
    let os = |s: &str| OsString::from(s);
    let mut feed = None;
    let mut fifo = None;
    match way {
        "absolute path" => {
            k.arg(dir.file(&os("m.wasm"), b));
        }
        "relative path" => {
            dir.file(&os("m.wasm"), b);
            k.arg(if n % 2 == 0 { "m.wasm" } else { "././m.wasm" });
        }
        "path with spaces and other letters" => {
            k.arg(dir.file(&os(" a b\tλ.wasm\n"), b));
        }
        "path that is not UTF-8" => {
            k.arg(dir.file(&OsString::from_vec(b"x\xFF\xC0.wasm".to_vec()), b));
        }
        "path beginning with a dash, after --" => {
            dir.file(&os("--verbose"), b);
            if verbose == 2 {
                k.arg("--verbose");
            }
            k.args(["--", "--verbose"]);
        }
        "- with a file" => {
            let p = dir.file(&os("m.wasm"), b);
            k.arg("-").stdin(File::open(p).expect("input"));
        }
        "default with a file" => {
            let p = dir.file(&os("m.wasm"), b);
            k.stdin(File::open(p).expect("input"));
        }
        "default with a file read from its middle" => {
            let mut whole = PRE.to_vec();
            whole.extend_from_slice(b);
            let p = dir.file(&os("m.wasm"), &whole);
            let mut f = File::open(p).expect("input");
            f.seek(SeekFrom::Start(8)).expect("input");
            k.stdin(f);
        }
        "- after --" => {
            let p = dir.file(&os("m.wasm"), b);
            if verbose == 2 {
                k.arg("--verbose");
            }
            k.args(["--", "-"]).stdin(File::open(p).expect("input"));
        }
        "through a link" => {
            dir.file(&os("m.wasm"), b);
            let _ = std::os::unix::fs::symlink("m.wasm", dir.0.join("l"));
            k.arg("l");
        }
        "- through a pipe" => {
            k.arg("-");
            feed = Some(pieces(c, b));
        }
        "default through a pipe" => feed = Some(pieces(c, b)),
        "/dev/stdin" => {
            k.arg("/dev/stdin");
            feed = Some(pieces(c, b));
        }
        "named pipe" => {
            let p = dir.0.join("fifo");
            if !Command::new("mkfifo").arg(&p).status().is_ok_and(|s| s.success()) {
                return c.harness_error("mkfifo failed");
            }
            k.arg(&p);
            fifo = Some((p, pieces(c, b)));
        }
        _ => {
            let (ours, theirs) = UnixStream::pair().expect("socket pair");
            k.stdin(Stdio::from(OwnedFd::from(theirs)));
            let v = pieces(c, b);
            std::thread::spawn(move || {
                let mut ours = ours;
                for p in v {
                    if ours.write_all(&p).is_err() {
                        return;
                    }
                }
            });
        }
    }
    if verbose == 2 && !way.ends_with("after --") {
        k.arg("--verbose");
    }
    let writer = fifo.map(|(p, v)| {
        // Opened for reading too, so that opening never waits and a tool that
        // ends early leaves nobody hanging.
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d2 = done.clone();
        let h = std::thread::spawn(move || {
            use std::sync::atomic::Ordering::Relaxed;
            // waits for the reader
            let Some(mut f) = open_for_writing(&p, || d2.load(Relaxed)) else { return };
            for x in v {
                if f.write_all(&x).is_err() {
                    return;
                }
            }
        });
        (done, h)
    });
    let d = start(c, &mut k, feed);
    if let Some((done, h)) = writer {
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = h.join();
    }
    let Some(d) = d else { return };
    c.eval(&[b, way.as_bytes()].concat());
    c.seen("ways of passing input", way);
    c.seen("verdicts", if matches!(want, Want::Ok(_)) { "decodes" } else { "fails" });
    c.seen("flags", ["none", "--verbose first", "--verbose last"][verbose as usize]);
    verdict(c, b, &want, &d, verbose > 0, way);
    if n < 3 {
        c.sample(|| format!("{way}: {} on {}", d.how(), hex_short(b)));
    }
}
/// Opens a named pipe for writing once a reader is there.
fn open_for_writing(p: &Path, over: impl Fn() -> bool) -> Option<File> {
    use std::os::unix::fs::OpenOptionsExt;
    const O_NONBLOCK: i32 = 0o4000;
    loop {
        match std::fs::OpenOptions::new().write(true).custom_flags(O_NONBLOCK).open(p) {
            Ok(_probe) => {
                // There is a reader; the blocking open succeeds at once.
                return std::fs::OpenOptions::new().write(true).open(p).ok();
            }
            Err(_) if over() => return None,
            Err(_) => std::thread::sleep(Duration::from_micros(300)),
        }
    }
}

fn verdict(c: &mut Ctx, b: &[u8], want: &Want, d: &Done, verbose: bool, way: &str) {
    let say = |what: &str| {
        format!("{what} ({way}, {}; stdout {:?}, stderr {:?}); input {}", d.how(), text(&d.out), text(&d.err), hex_short(b))
    };
    if crashed(d) {
        return c.fail(say("the tool crashed"), Some(b));
    }
    match want {
        Want::Ok(_) => {
            if d.code() != Some(0) {
                c.fail(say("the library decodes the input, the tool fails"), Some(b));
            } else if !verbose && !(d.out.is_empty() && d.err.is_empty()) {
                c.fail(say("success without verbose output prints something"), Some(b));
            }
        }
        Want::Err(..) => {
            if d.code() == Some(0) {
                c.fail(say("the library rejects the input, the tool succeeds"), Some(b));
            } else if !d.out.is_empty() {
                c.fail(say("a failure writes to standard output"), Some(b));
            } else if !d.err.starts_with(b"ERROR:") {
                c.fail(say("the report does not start with ERROR:"), Some(b));
            }
        }
    }
}

const BAD: [&str; 16] = [
    "missing file",
    "missing folder",
    "a folder",
    "a file used as a folder",
    "a file with a slash behind",
    "empty path",
    "a loop of links",
    "a dangling link",
    "a socket",
    "too long a name",
    "unreadable memory",
    "standard input is a folder",
    "standard input is write-only",
    "standard input is closed",
    "connection reset behind a whole module",
    "connection reset inside a module",
];
pub fn bad_n() -> u64 {
    BAD.len() as u64 * 6
}
pub fn bad_inputs(c: &mut Ctx, idx: u64) {
    let bad = BAD[idx as usize % BAD.len()];
    let flags = (idx / BAD.len() as u64) % 3;
    let dir = Dir::new(c, "bad");
    let good = c.generated(&Prof::general()).1;
    let Some(mut k) = command(c, &dir) else { return };
    if flags == 1 {
        k.arg("--verbose");
    }
    let dash = c.rng.bool();
    let file = dir.file("m.wasm".as_ref(), &good);
    let mut keep = None;
    match bad {
        "missing file" => {
            k.arg("nothing.wasm");
        }
        "missing folder" => {
            k.arg("no/m.wasm");
        }
        "a folder" => {
            k.arg(".");
        }
        "a file used as a folder" => {
            k.arg("m.wasm/m.wasm");
        }
        "a file with a slash behind" => {
            k.arg("m.wasm/");
        }
        "empty path" => {
            k.arg("");
        }
        "a loop of links" => {
            let _ = std::os::unix::fs::symlink("loop", dir.0.join("loop"));
            k.arg("loop");
        }
        "a dangling link" => {
            let _ = std::os::unix::fs::symlink("gone", dir.0.join("link"));
            k.arg("link");
        }
        "a socket" => {
            // relative, as the path of a socket must be short
            match UnixListener::bind(dir.0.join("s")) {
                Ok(l) => keep = Some(l),
                Err(_) => return c.count("sockets that could not be made", 1),
            }
            k.arg("s");
        }
        "too long a name" => {
            k.arg("x".repeat(300));
        }
        "unreadable memory" => {
            k.arg("/proc/self/mem");
        }
        "standard input is a folder" => {
            k.stdin(File::open(&dir.0).expect("folder"));
        }
        "standard input is write-only" => {
            k.stdin(std::fs::OpenOptions::new().write(true).open(&file).expect("file"));
        }
        "standard input is closed" => {
            let t = tool().unwrap();
            let mut s = Command::new("sh");
            s.current_dir(&dir.0).stdout(Stdio::piped()).stderr(Stdio::piped());
            s.arg("-c").arg("exec \"$@\" <&-").arg("sh").arg(t);
            if flags == 1 {
                s.arg("--verbose");
            }
            k = s;
        }
        _ => {
            let whole = bad == "connection reset behind a whole module";
            let n = if whole { good.len() } else { good.len() - 1 };
            let Some(s) = reset_behind(&good[..n]) else { return c.harness_error("no loopback connection") };
            k.stdin(Stdio::from(OwnedFd::from(s)));
        }
    }
    if bad.starts_with("standard") || bad.starts_with("connection") {
        if dash {
            k.arg("-");
        }
    }
    if flags == 2 {
        k.arg("--verbose");
    }
    let Some(d) = start(c, &mut k, None) else { return };
    drop(keep);
    c.eval(&[bad.as_bytes(), &idx.to_le_bytes()].concat());
    c.seen("input failures", bad);
    let say = |what: &str| format!("{what} ({bad}, {}; stdout {:?}, stderr {:?})", d.how(), text(&d.out), text(&d.err));
    if crashed(&d) {
        c.fail(say("the tool crashed"), None);
    } else if d.code() == Some(0) {
        c.fail(say("the input cannot be opened or read, the tool succeeds"), None);
    } else if !d.out.is_empty() {
        c.fail(say("a failure writes to standard output"), None);
    } else if !d.err.starts_with(b"ERROR:") {
        c.fail(say("the report does not start with ERROR:"), None);
    }
    if idx == 14 {
        c.sample(|| format!("{bad}: {} {:?}", d.how(), text(&d.err)));
    }
}
/// The reading end of a connection that delivers `b` and is then reset.
fn reset_behind(b: &[u8]) -> Option<TcpStream> {
    let l = TcpListener::bind("127.0.0.1:0").ok()?;
    let mut theirs = TcpStream::connect(l.local_addr().ok()?).ok()?;
    let (mut ours, _) = l.accept().ok()?;
    // Closing with unread data makes the kernel reset the connection.
    theirs.write_all(b"unread").ok()?;
    ours.write_all(b).ok()?;
    std::thread::sleep(Duration::from_millis(30));
    drop(ours);
    std::thread::sleep(Duration::from_millis(30));
    Some(theirs)
}

/// Outputs that cannot be written.
pub fn outputs(c: &mut Ctx, idx: u64) {
    let kinds = ["stdout full", "stdout closed pipe", "stderr full", "stderr closed pipe", "both full", "both closed", "stdout read-only"];
    let kind = kinds[idx as usize % kinds.len()];
    let verbose = c.rng.chance(2, 3);
    let b = loop {
        let b = an_input(c, 3 + idx);
        if b.len() < 100_000 {
            break b;
        }
    };
    let Some(want) = want(c, &b, false) else { return };
    let dir = Dir::new(c, "out");
    let file = dir.file("m.wasm".as_ref(), &b);
    let Some(mut k) = command(c, &dir) else { return };
    let full = || Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
    let broken = || {
        let (r, w) = std::io::pipe().expect("pipe");
        drop(r);
        Stdio::from(w)
    };
    let mut out = true;
    let mut err = true;
    match kind {
        "stdout full" => {
            k.stdout(full());
            out = false;
        }
        "stdout closed pipe" => {
            k.stdout(broken());
            out = false;
        }
        "stdout read-only" => {
            k.stdout(File::open(&file).expect("file"));
            out = false;
        }
        "stderr full" => {
            k.stderr(full());
            err = false;
        }
        "stderr closed pipe" => {
            k.stderr(broken());
            err = false;
        }
        "both full" => {
            k.stdout(full()).stderr(full());
            (out, err) = (false, false);
        }
        _ => {
            let t = tool().unwrap();
            let mut s = Command::new("sh");
            s.current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
            s.arg("-c").arg("exec \"$@\" >&- 2>&-").arg("sh").arg(t);
            k = s;
            (out, err) = (false, false);
        }
    }
    if verbose {
        k.arg("--verbose");
    }
    k.arg(&file);
    let Some(d) = start(c, &mut k, None) else { return };
    c.eval(&[&b, kind.as_bytes()].concat());
    c.seen("outputs that cannot be written", kind);
    let ok = matches!(want, Want::Ok(_));
    let say = |what: &str| {
        format!("{what} ({kind}, verbose {verbose}, {}; stdout {:?}, stderr {:?}); input {}", d.how(), text(&d.out), text(&d.err), hex_short(&b))
    };
    const SIGPIPE: i32 = 13;
    if crashed(&d) && d.signal() != Some(SIGPIPE) {
        return c.fail(say("the tool crashed"), Some(&b));
    }
    if ok && !verbose && d.code() != Some(0) {
        return c.fail(say("nothing had to be printed, yet the tool fails"), Some(&b));
    }
    if !ok {
        if d.code() == Some(0) {
            return c.fail(say("the library rejects the input, the tool succeeds"), Some(&b));
        }
        if out && !d.out.is_empty() {
            return c.fail(say("a failure writes to standard output"), Some(&b));
        }
        if err && !d.err.starts_with(b"ERROR:") {
            c.fail(say("the report does not start with ERROR:"), Some(&b));
        }
    }
}

// ------------------------------------------------------------------- C23

fn report(c: &mut Ctx, b: &[u8], verbose: bool, out: &[u8], err: &[u8]) {
    let Some(want) = want(c, b, verbose) else { return };
    let fail = |c: &mut Ctx, what: String| {
        c.fail(format!("{what}; verbose {verbose}; stdout {:?}, stderr {:?}; input {}", text(out), text(err), hex_short(b)), Some(b))
    };
    let err_s = String::from_utf8_lossy(err).into_owned();
    let out_s = String::from_utf8_lossy(out).into_owned();
    match want {
        Want::Ok(debug) => {
            if verbose {
                c.count("modules printed", 1);
                c.max("longest module printed (bytes)", debug.len() as u64);
                if out_s.strip_suffix('\n').unwrap_or(&out_s) != debug {
                    let at = out_s.bytes().zip(debug.bytes()).position(|(a, b)| a != b).unwrap_or(out_s.len().min(debug.len()));
                    fail(c, format!("standard output is not the debug form of the module: {} bytes for {}, first difference at {at}", out_s.len(), debug.len()));
                }
            } else {
                c.count("silent successes", 1);
            }
        }
        Want::Err(chain, debug) => {
            c.count("reports compared", 1);
            c.max("longest cause chain", chain.len() as u64);
            c.seen("causes in the report", format!("{}", chain.len() - 1));
            let head = format!("ERROR: {}", chain[0]);
            if !err_s.starts_with(&head) {
                return fail(c, format!("the report does not start with {head:?}"));
            }
            let mut pos = head.len();
            for (i, m) in chain[1..].iter().enumerate() {
                let item = format!("{i}: {m}");
                // at the beginning of a line, followed by the end of the line
                let mut from = pos;
                let found = loop {
                    let Some(k) = err_s[from..].find(&item) else { break None };
                    let k = from + k;
                    let line = err_s[..k].rfind('\n').map_or(0, |x| x + 1);
                    let rest = &err_s[k + item.len()..];
                    if err_s[line..k].trim().is_empty() && (rest.is_empty() || rest.starts_with('\n')) {
                        break Some(k);
                    }
                    from = k + 1;
                };
                match found {
                    Some(k) => {
                        // nothing numbered in between
                        if let Some(x) = numbered(&err_s[pos..k]) {
                            return fail(c, format!("unexpected line {x:?} before cause {i}"));
                        }
                        if i == 0 && !err_s[pos..k].lines().any(|l| l.trim() == "Caused by:") {
                            return fail(c, "the causes are not under their heading `Caused by:`".into());
                        }
                        pos = k + item.len();
                    }
                    None => return fail(c, format!("cause {i} ({m:?}) is missing or out of order")),
                }
            }
            let rest = &err_s[pos..];
            let end = if verbose {
                match rest.find(&debug) {
                    Some(k) if rest[..k].lines().any(|l| l.trim() == "DEBUG OUTPUT:") => k,
                    Some(_) => return fail(c, "the debug form is not under its heading `DEBUG OUTPUT:`".into()),
                    None => return fail(c, "the error's debug form is missing from the verbose report".into()),
                }
            } else {
                rest.len()
            };
            if let Some(x) = numbered(&rest[..end]) {
                fail(c, format!("unexpected line {x:?} behind the last cause"));
            }
            if !verbose && rest.lines().any(|l| l.trim() == "DEBUG OUTPUT:") {
                fail(c, "debug output nobody asked for".into());
            }
        }
    }
}
fn numbered(s: &str) -> Option<&str> {
    s.lines().find(|l| {
        let l = l.trim_start();
        let d = l.chars().take_while(|c| c.is_ascii_digit()).count();
        d > 0 && l[d..].starts_with(": ")
    })
}

pub fn reports(c: &mut Ctx, idx: u64) {
    for j in 0..2u64 {
        let n = idx * 2 + j;
        let b = match n % 4 {
            0 => an_input(c, n / 4),
            1 => ph_diff::fault_bytes(c, n / 4),
            2 => {
                let p = Prof { items: 3, ins: 8, depth: 6, ..Prof::dense() };
                let plan = crate::gen_::module(&mut c.rng, &p);
                ph_diff::fault_in(c, &plan)
            }
            _ => {
                let b = c.generated(&Prof::dense()).1;
                let k = c.rng.usize(b.len() + 1);
                b[..k].to_vec()
            }
        };
        let b = if crate::refdec::decode(&b).1.locals_all > 200_000 { PRE.to_vec() } else { b };
        let verbose = c.rng.chance(2, 5);
        one_report(c, &b, verbose, n % 3);
    }
}
fn one_report(c: &mut Ctx, b: &[u8], verbose: bool, way: u64) {
    let dir = Dir::new(c, "rep");
    let Some(mut k) = command(c, &dir) else { return };
    if verbose {
        k.arg("--verbose");
    }
    let mut feed = None;
    if way == 0 {
        feed = Some(pieces(c, b));
    } else {
        k.arg(dir.file("m.wasm".as_ref(), b));
    }
    // The report must be whole wherever it goes.
    let files = way == 2;
    if files {
        k.stdout(File::create(dir.0.join("out")).expect("file"));
        k.stderr(File::create(dir.0.join("err")).expect("file"));
    }
    let Some(d) = start(c, &mut k, feed) else { return };
    c.eval(b);
    if d.timed_out() {
        return c.fail(format!("the tool did not end; input {}", hex_short(b)), Some(b));
    }
    let (o, e) = if files {
        (std::fs::read(dir.0.join("out")).unwrap_or_default(), std::fs::read(dir.0.join("err")).unwrap_or_default())
    } else {
        (d.out, d.err)
    };
    report(c, b, verbose, &o, &e);
    c.sample(|| format!("report on {}: {:?}", hex_short(b), text(&e)));
}
/// Long lists and long outputs.
pub fn big(c: &mut Ctx, idx: u64) {
    let kind = ph_diff::KINDS[(idx * 5 % ph_diff::KINDS.len() as u64) as usize];
    let n = if kind.starts_with("locals") { 300 } else { *c.rng.pick(&[200u64, 1000, 3000]) };
    let plan = ph_diff::sized_module(kind, n);
    let mut b = c.encode(&plan, &MIN).0;
    if idx % 4 == 3 {
        let k = b.len() - 1;
        b.truncate(k);
    }
    one_report(c, &b, true, idx % 3);
    c.max("largest input", b.len() as u64);
}
