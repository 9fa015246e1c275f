//! Executing the real decoder and describing what it did.
use crate::readers::{Delivery, Mon};
use crate::util::Rng;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::io::Read;
use wadec::decode::DecodeModuleError as E;

pub enum Out {
    Ok(Box<wadec::Module>),
    Err(E),
    Panic(String),
}
impl Out {
    pub fn verdict(&self) -> &'static str {
        match self {
            Out::Ok(_) => "accepted",
            Out::Err(_) => "rejected",
            Out::Panic(_) => "panicked",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(_) => "accepted".into(),
            Out::Err(e) => format!("rejected: {}", crate::util::clip(&chain(e).join(" <- "), 600)),
            Out::Panic(m) => format!("panicked: {m}"),
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Prints which side is executing, for attributing a crash.
pub fn trace_on() {
    TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
}
fn stage(s: &str) {
    if TRACE.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("STAGE {s}");
    }
}
pub fn hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if INSIDE.with(|x| x.get()) {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
        } else {
            old(i);
        }
    }));
}

/// Runs wadec code; a panic becomes a value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let nested = INSIDE.with(|x| x.replace(true));
    if !nested {
        stage("wadec");
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.with(|x| x.set(nested));
    if !nested {
        stage("monitor");
    }
    r.map_err(|_| PANIC.with(|p| p.take()))
}
pub fn decode_with(r: &mut dyn Read) -> Out {
    decode_within(0, r)
}
/// Decodes `len` bytes; memory is capped far above what that many may need.
pub fn decode_within(len: usize, r: &mut dyn Read) -> Out {
    let cap = (700 * len as u64).max(3 << 29);
    match guarded(|| crate::alloc::capped(cap, || wadec::decode_module(r))) {
        Ok(Ok(m)) => Out::Ok(Box::new(m)),
        Ok(Err(e)) => Out::Err(e),
        Err(m) => Out::Panic(m),
    }
}
pub fn decode(b: &[u8]) -> Out {
    let mut m = Mon::new(b, Delivery::Whole, Rng::new(0, "", 0));
    decode_with(&mut m)
}
/// Drops wadec's result inside the guarded region.
pub fn discard(o: Out) -> Result<(), String> {
    guarded(move || drop(o))
}

pub fn chain(e: &E) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut c: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = c {
        v.push(x.to_string());
        c = x.source();
        if v.len() > 10_000 {
            break;
        }
    }
    v
}
/// The I/O error kinds found along the chain.
pub fn io_kinds(e: &E) -> Vec<std::io::ErrorKind> {
    let mut v = vec![];
    let mut c: Option<&(dyn Error + 'static)> = Some(e);
    while let Some(x) = c {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            v.push(io.kind());
        }
        c = x.source();
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    Preamble,
    Header,
    Section(u8),
    Module,
}
pub fn loc(e: &E) -> Loc {
    use crate::model as m;
    match e {
        E::ParsePreamble(_) => Loc::Preamble,
        E::DecodeSectionHeader(_) => Loc::Header,
        E::DecodeCustomSection(_) => Loc::Section(m::CUSTOM),
        E::DecodeTypeSection(_) => Loc::Section(m::TYPE),
        E::DecodeImportSection(_) => Loc::Section(m::IMPORT),
        E::DecodeFunctionSection(_) => Loc::Section(m::FUNCTION),
        E::DecodeTableSection(_) => Loc::Section(m::TABLE),
        E::DecodeMemorySection(_) => Loc::Section(m::MEMORY),
        E::DecodeGlobalSection(_) => Loc::Section(m::GLOBAL),
        E::DecodeExportSection(_) => Loc::Section(m::EXPORT),
        E::DecodeStartSection(_) => Loc::Section(m::START),
        E::DecodeElementSection(_) => Loc::Section(m::ELEMENT),
        E::DecodeDatacountSection(_) => Loc::Section(m::DATACOUNT),
        E::DecodeCodeSection(_) => Loc::Section(m::CODE),
        E::DecodeDataSection(_) => Loc::Section(m::DATA),
        E::DecodeTagSection(_) => Loc::Section(m::TAG),
        _ => Loc::Module,
    }
}
/// Numbers following "position" in the chain's messages, outermost first.
pub fn positions(e: &E) -> Vec<u32> {
    let mut v = vec![];
    for m in chain(e) {
        let mut rest = &m[..];
        while let Some(i) = rest.find("position ") {
            rest = &rest[i + 9..];
            let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = d.parse() {
                v.push(n);
            }
        }
    }
    v
}
