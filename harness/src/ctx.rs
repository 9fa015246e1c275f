//! What one check run accumulates, and the differential step shared by checks.
use crate::bridge;
use crate::enc::{self, Style};
use crate::gen_::{self, Plan, Prof};
use crate::model::{self, Module};
use crate::observe::{self, Out};
use crate::ph_diag;
use crate::readers::{Delivery, Mon};
use crate::refdec::{self, Info, R};
use crate::util::{Rng, clip, hash_bytes, hex, hex_short};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub phase: String,
    pub idx: u64,
    pub what: String,
    pub input: Option<Vec<u8>>,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    /// Distinct by construction (enumerated), not hashed.
    pub distinct_enum: u64,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<&'static str, BTreeSet<String>>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct_enum += o.distinct_enum;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.samples.extend(o.samples);
    }
}

/// Which disagreements the property at hand is about.
#[derive(Clone, Copy)]
pub struct Focus {
    pub wrong_accept: bool,
    pub wrong_reject: bool,
    pub comps: &'static [&'static str],
    /// Any panic.
    pub crash: bool,
    pub render: bool,
    pub loc: bool,
    pub root: bool,
    pub numbers: bool,
    pub names: bool,
    pub lists: bool,
    pub consume: bool,
    pub memory: bool,
}
impl Focus {
    pub const NONE: Focus = Focus {
        wrong_accept: false,
        wrong_reject: false,
        comps: &[],
        crash: false,
        render: false,
        loc: false,
        root: false,
        numbers: false,
        names: false,
        lists: false,
        consume: false,
        memory: false,
    };
    pub const FULL: Focus = Focus { wrong_accept: true, wrong_reject: true, comps: ALL_COMPS, ..Focus::NONE };
}
pub const ALL_COMPS: &[&str] = &[
    "consistency", "headers", "customs", "types", "imports", "func_types", "locals", "bodies", "tables", "mems", "tags", "globals", "exports",
    "start", "elems", "datas", "data_count",
];

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub phase: &'static str,
    pub idx: u64,
    pub rng: Rng,
    pub focus: Focus,
    pub st: Stats,
    pub fails: Vec<Failure>,
    pub known: BTreeSet<String>,
    /// Keys of the known findings listed for this property.
    pub listed: BTreeSet<String>,
    pub harness: Vec<String>,
    pub workdir: std::path::PathBuf,
    /// When set, inputs are gathered here instead of being decoded.
    pub sink: Option<Vec<Vec<u8>>>,
}

pub struct Step {
    pub reference: R<Module>,
    pub info: Info,
    pub out: Out,
    pub log: crate::readers::Log,
}

impl Ctx {
    pub fn fail(&mut self, what: impl Into<String>, input: Option<&[u8]>) {
        if self.fails.len() < 5 {
            self.fails.push(Failure { phase: self.phase.into(), idx: self.idx, what: what.into(), input: input.map(|b| b.to_vec()) });
        }
    }
    /// A defect that the committed list of known findings names is reported as
    /// such; anything else is a violation.
    pub fn known_or_fail(&mut self, key: &str, text: &str, what: String, input: Option<&[u8]>) {
        if self.listed.contains(key) {
            self.known.insert(text.to_string());
        } else {
            self.fail(what, input);
        }
    }
    pub fn harness_error(&mut self, what: impl Into<String>) {
        if self.harness.len() < 5 {
            self.harness.push(format!("[{}/{}] {}", self.phase, self.idx, what.into()));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.st.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.st.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn seen(&mut self, set: &'static str, x: impl AsRef<str>) {
        let s = self.st.sets.entry(set).or_default();
        if !s.contains(x.as_ref()) && s.len() < 5000 {
            s.insert(x.as_ref().to_string());
        }
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.st.maxima.entry(k).or_default();
        *e = (*e).max(v);
    }
    /// Counts one evaluation of a non-trivial case.
    pub fn eval(&mut self, input: &[u8]) {
        self.st.evals += 1;
        if self.st.distinct.len() < 3_000_000 {
            self.st.distinct.insert(hash_bytes(input));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let s = format!("[{}/{}] {}", self.phase, self.idx, f());
            self.st.samples.push(clip(&s, 600));
        }
    }

    /// Encodes a plan; three-way agreement of generator and reference decoder
    /// is established here (a disagreement is the monitor's own fault).
    pub fn encode(&mut self, plan: &Plan, st: &Style) -> (Vec<u8>, Module, Rng) {
        let er = Rng::new(self.rng.u64(), "enc", 0);
        let e = enc::encode(plan, &er, st, vec![], false);
        let mut m = plan.m.clone();
        m.headers = e.headers;
        match refdec::decode(&e.bytes).0 {
            Ok(r) if r == m => {}
            Ok(r) => {
                let d = model::diff(&m, &r);
                self.harness_error(format!("generator and reference disagree: {d:?} on {}", hex(&e.bytes)));
            }
            Err(f) => self.harness_error(format!("reference rejects a generated module: {f:?} on {}", hex(&e.bytes))),
        }
        (e.bytes, m, er)
    }
    pub fn style(&mut self) -> Style {
        match self.rng.below(4) {
            0 => Style { pad: 0, long: 0 },
            1 => Style { pad: 4, long: 4 },
            2 => Style { pad: 16, long: 16 },
            _ => Style { pad: 1, long: 8 },
        }
    }
    pub fn generated(&mut self, p: &Prof) -> (Plan, Vec<u8>, Module) {
        let plan = gen_::module(&mut self.rng, p);
        let st = self.style();
        let (b, m, _) = self.encode(&plan, &st);
        (plan, b, m)
    }

    /// Decodes `b` with wadec and with the reference, and reports every
    /// disagreement the focus is about. Returns both results.
    /// `None`: the input declares millions of locals, whose expansion (known
    /// finding F7) would only exhaust the machine; it is not run.
    pub fn differential(&mut self, b: &[u8]) -> Option<Step> {
        let (reference, info) = refdec::decode(b);
        if let Some(s) = &mut self.sink {
            if info.locals_all <= 20_000 {
                s.push(b.to_vec());
            }
            return None;
        }
        if info.locals_all > 2_000_000 && info.locals_total <= u32::MAX as u64 {
            self.count("inputs not run (millions of locals)", 1);
            return None;
        }
        let mut mon = Mon::new(b, Delivery::Whole, self.rng.clone());
        let out = observe::decode_within(b.len(), &mut mon);
        let log = mon.log.clone();
        self.judge(b, &reference, &out);
        let f = self.focus;
        if let (Err(fault), Out::Err(e)) = (&reference, &out) {
            if f.loc {
                ph_diag::loc(self, b, fault, e);
            }
            if f.root {
                ph_diag::root(self, b, fault, e);
            }
            if f.numbers {
                ph_diag::mismatch(self, b, fault, e);
            }
            if f.names {
                ph_diag::names(self, b, fault, e);
            }
            if f.lists {
                ph_diag::lists(self, b, fault, e);
            }
        }
        if f.consume {
            ph_diag::consume(self, b, &reference, &out, &log);
        }
        if f.memory {
            ph_diag::memory(self, b, &info);
        }
        // small inputs are enumerated by the million: a part of them is rendered
        let rendered = b.len() > 72 || self.tier == Tier::Thorough || hash_bytes(b) % 5 == 0;
        if f.render && rendered && b.len() <= 48 << 10 && info.depth <= 1000 && info.locals_all <= 20_000 {
            ph_diag::render(self, b, &out, info.depth);
        }
        match &reference {
            Ok(m) => {
                self.count("well-formed inputs decoded", 1);
                self.count("instructions compared", info.instructions);
                for h in &m.headers {
                    self.count("sections compared", 1);
                    if self.st.sets.get("section kinds").is_none_or(|s| s.len() < 14) {
                        self.seen("section kinds", model::section_name(h.0));
                    }
                }
                self.max("deepest nesting", info.depth as u64);
                self.max("largest input", b.len() as u64);
            }
            Err(f) => {
                self.count("malformed inputs decoded", 1);
                let key = match f.sec {
                    Some(s) => format!("{} {} {}", model::section_name(s), f.role, f.cause.tag()),
                    None => format!("- {} {}", f.role, f.cause.tag()),
                };
                self.seen("faults (section, item, cause)", key);
            }
        }
        Some(Step { reference, info, out, log })
    }
    pub fn judge(&mut self, b: &[u8], reference: &R<Module>, out: &Out) {
        match (reference, out) {
            (r, Out::Panic(m)) => {
                let f = &self.focus;
                let concerns = f.crash
                    || (r.is_err() && f.wrong_accept)
                    || (r.is_ok() && (f.wrong_reject || !f.comps.is_empty()))
                    || (r.is_err() && (f.loc || f.root || f.numbers || f.names || f.lists));
                if concerns {
                    self.fail(format!("decoder panicked: {m}; input {}", hex_short(b)), Some(b))
                }
            }
            (Ok(_), Out::Err(e)) if self.focus.wrong_reject => {
                let c = observe::chain(e).join(" <- ");
                self.fail(format!("well-formed input rejected: {}; input {}", clip(&c, 500), hex_short(b)), Some(b))
            }
            (Err(f), Out::Ok(_)) if self.focus.wrong_accept => self.fail(
                format!(
                    "malformed input accepted: {} in {} at offset {} ({:?}), list positions {:?}; input {}",
                    f.cause.tag(),
                    f.role,
                    f.off,
                    f.cause,
                    f.path,
                    hex_short(b)
                ),
                Some(b),
            ),
            (Ok(m), Out::Ok(w)) if !self.focus.comps.is_empty() => self.compare(b, m, w),
            _ => {}
        }
    }
    pub fn compare(&mut self, b: &[u8], want: &Module, w: &wadec::Module) {
        let (got, bad) = bridge::module(w);
        if let Some(x) = bad
            && self.focus.comps.contains(&"consistency")
        {
            self.fail(format!("{x}; input {}", hex_short(b)), Some(b));
        }
        for (c, d) in model::diff(want, &got) {
            if self.focus.comps.contains(&c) {
                self.fail(format!("decoded {c} differ: {d}; input {}", hex_short(b)), Some(b));
            }
        }
    }
}
