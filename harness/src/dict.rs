//! Numbers and texts that occur in the sources under test, to steer the
//! workloads towards them (as fuzzers do with a dictionary). What occurs beyond
//! the committed baseline gets the most weight. No verdict depends on it: it
//! only chooses inputs, and an unreadable source tree merely leaves it empty.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// Numbers that the baseline has not (or not as often).
    pub fresh: Vec<u64>,
    pub old: Vec<u64>,
    pub fresh_texts: Vec<String>,
    pub texts: Vec<String>,
    /// New texts and new sequences of byte values, as bytes.
    pub fresh_bytes: Vec<Vec<u8>>,
}

const ROOTS: [&str; 2] = ["src", "wadec-cli/src"];
const BASE: &str = include_str!("../baseline_literals.txt");

#[derive(Clone, Debug, PartialEq)]
enum T {
    Num(u64),
    Text(Vec<u8>),
    Word(String),
    Op(u8),
}
fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}
/// The value of a character literal and its length (none: a lifetime).
fn char_literal(s: &[u8]) -> Option<(u64, usize)> {
    let e = s.iter().skip(2).take(12).position(|b| *b == b'\'')? + 2;
    let mut t = std::str::from_utf8(s.get(1..e)?).ok()?;
    if t == "\\" {
        // the quote itself
        t = std::str::from_utf8(s.get(1..e + 1)?).ok()?;
        return (s.get(e + 1) == Some(&b'\'') && t == "\\'").then_some((b'\'' as u64, e + 2));
    }
    let n = if let Some(h) = t.strip_prefix("\\u{") {
        u64::from_str_radix(&h.strip_suffix('}')?.replace('_', ""), 16).ok()?
    } else if let Some(h) = t.strip_prefix("\\x") {
        u64::from_str_radix(h, 16).ok()?
    } else {
        match t {
            "\\n" => 10,
            "\\t" => 9,
            "\\r" => 13,
            "\\0" => 0,
            "\\\\" => 92,
            _ => {
                let mut c = t.chars();
                let n = c.next()? as u64;
                if c.next().is_some() {
                    return None;
                }
                n
            }
        }
    };
    Some((n, e + 1))
}
/// A floating-point literal that is a whole number.
fn float(t: &str) -> Option<u64> {
    let t = t.strip_suffix("f64").or(t.strip_suffix("f32")).unwrap_or(t);
    let x: f64 = t.parse().ok()?;
    (x.fract() == 0.0 && (0.0..1e18).contains(&x)).then_some(x as u64)
}
fn lex(s: &[u8]) -> Vec<T> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let next = s.get(i + 1).copied().unwrap_or(0);
        if b == b'/' && next == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if b == b'/' && next == b'*' {
            i += 2;
            while i < s.len() && !(s[i] == b'*' && s.get(i + 1) == Some(&b'/')) {
                i += 1;
            }
            i += 2;
        } else if b == b'"' {
            let mut t = vec![];
            i += 1;
            while i < s.len() && s[i] != b'"' {
                if s[i] == b'\\' {
                    i += 1;
                    match s.get(i) {
                        Some(b'n') => t.push(b'\n'),
                        Some(b't') => t.push(b'\t'),
                        Some(b'r') => t.push(b'\r'),
                        Some(b'0') => t.push(0),
                        Some(b'x') => {
                            let h = s.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok());
                            t.push(h.and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0));
                            i += 2;
                        }
                        Some(b'u') => {
                            let e = s[i..].iter().position(|c| *c == b'}').map(|e| i + e);
                            if let Some(e) = e {
                                let h = String::from_utf8_lossy(&s[(i + 2).min(e)..e]).replace('_', "");
                                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    t.extend(c.to_string().bytes());
                                }
                                i = e;
                            }
                        }
                        Some(c) => t.push(*c),
                        None => {}
                    }
                } else {
                    t.push(s[i]);
                }
                i += 1;
            }
            i += 1;
            v.push(T::Text(t));
        } else if b == b'\'' && let Some((n, len)) = char_literal(&s[i..]) {
            v.push(T::Num(n));
            i += len;
        } else if b.is_ascii_digit() {
            let from = i;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            if s.get(i) == Some(&b'.') && s.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
                i += 1;
                while i < s.len() && word(s[i]) {
                    i += 1;
                }
                let t = String::from_utf8_lossy(&s[from..i]).replace('_', "");
                if let Some(n) = float(&t) {
                    v.push(T::Num(n));
                }
                continue;
            }
            let t: String = String::from_utf8_lossy(&s[from..i]).replace('_', "");
            let mut t = &t[..];
            let radix = match t.get(..2) {
                Some("0x") => 16,
                Some("0b") => 2,
                Some("0o") => 8,
                _ => 10,
            };
            if radix != 10 {
                t = &t[2..];
            }
            for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                if let Some(x) = t.strip_suffix(suf) {
                    t = x;
                    break;
                }
            }
            if let Ok(n) = u64::from_str_radix(t, radix) {
                v.push(T::Num(n));
            } else if let (10, Some(n)) = (radix, float(t)) {
                v.push(T::Num(n));
            }
        } else if word(b) {
            let from = i;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            v.push(T::Word(String::from_utf8_lossy(&s[from..i]).into_owned()));
        } else {
            if !b.is_ascii_whitespace() {
                v.push(T::Op(b));
            }
            i += 1;
        }
    }
    v
}
/// Literals, and simple constant expressions over them, each with a key that
/// is counted.
fn literals(toks: &[T], nums: &mut BTreeMap<u64, u64>, texts: &mut BTreeMap<Vec<u8>, u64>) {
    let num = |i: usize| match toks.get(i) {
        Some(T::Num(n)) => Some(*n),
        _ => None,
    };
    let op = |i: usize, c: u8| toks.get(i) == Some(&T::Op(c));
    let mut add = |n: u64| *nums.entry(n).or_default() += 1;
    for (i, t) in toks.iter().enumerate() {
        match t {
            T::Text(t) if !t.is_empty() && t.len() <= 64 => *texts.entry(t.clone()).or_default() += 1,
            T::Num(n) => {
                add(*n);
                if op(i + 1, b'<') && op(i + 2, b'<') && let Some(m) = num(i + 3) {
                    let x = if m < 64 { n.checked_shl(m as u32).unwrap_or(0) } else { 0 };
                    add(x);
                    if op(i + 4, b'-') && let Some(k) = num(i + 5) {
                        add(x.wrapping_sub(k));
                    }
                }
                if let Some(m) = num(i + 2) {
                    let x = match toks[i + 1] {
                        T::Op(b'/') => n.checked_div(m),
                        T::Op(b'+') => n.checked_add(m),
                        T::Op(b'-') => n.checked_sub(m),
                        _ => None,
                    };
                    if let Some(x) = x {
                        add(x);
                    }
                }
                // bytes in a row
                if !(i > 1 && op(i - 1, b',') && num(i - 2).is_some_and(|n| n < 256)) {
                    let mut bytes = vec![];
                    let mut j = i;
                    while bytes.len() < 16 && let Some(n) = num(j) && n < 256 {
                        bytes.push(n as u8);
                        if !op(j + 1, b',') {
                            break;
                        }
                        j += 2;
                    }
                    if bytes.len() > 1 {
                        *texts.entry(bytes).or_default() += 1;
                    }
                }
                let mut x = *n;
                let mut j = i;
                while op(j + 1, b'*') && let Some(m) = num(j + 2) {
                    x = x.wrapping_mul(m);
                    add(x);
                    j += 2;
                }
                if let (true, Some(T::Word(w)), Some(m)) = (op(i + 1, b'.'), toks.get(i + 2), num(i + 4))
                    && w == "pow"
                    && m < 64
                {
                    add(n.wrapping_pow(m as u32));
                }
            }
            T::Word(w) => {
                let bits = match &w[..] {
                    "u8" => (256u64, 255),
                    "i8" => (128, 127),
                    "u16" => (1 << 16, (1 << 16) - 1),
                    "i16" => (1 << 15, (1 << 15) - 1),
                    "u32" => (1 << 32, u32::MAX as u64),
                    "i32" => (1 << 31, (1 << 31) - 1),
                    _ => continue,
                };
                let cast = i > 0 && matches!(&toks[i - 1], T::Word(a) if a == "as");
                let max = op(i + 1, b':') && op(i + 2, b':') && matches!(toks.get(i + 3), Some(T::Word(m)) if m == "MAX" || m == "MIN" || m == "try_from");
                if cast || max {
                    add(bits.0);
                    add(bits.1);
                }
                if max {
                    // what is made of the limit
                    let mut j = i + 4;
                    if matches!(toks.get(j), Some(T::Word(a)) if a == "as") {
                        j += 2;
                    }
                    match (toks.get(j), num(j + 1), num(j + 2)) {
                        (Some(T::Op(b'/')), Some(m), _) if m > 0 => add(bits.1 / m),
                        (Some(T::Op(b'-')), Some(m), _) => add(bits.1.saturating_sub(m)),
                        (Some(T::Op(b'>')), _, Some(m)) if m < 64 => add(bits.1 >> m),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
type Bag = (BTreeMap<u64, u64>, BTreeMap<Vec<u8>, u64>);
fn scan() -> Bag {
    fn walk(d: &Path, out: &mut Bag) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|e| e == "rs")
                && let Ok(s) = std::fs::read(&p)
            {
                literals(&lex(&s), &mut out.0, &mut out.1);
            }
        }
    }
    let mut out = Bag::default();
    let root = std::env::var("WADEC_TREE").unwrap_or("/repo".into());
    for r in ROOTS {
        walk(&Path::new(&root).join(r), &mut out);
    }
    out
}
/// The baseline file's text for the tree as it is.
pub fn baseline() -> String {
    let (n, t) = scan();
    let mut s = String::new();
    for (k, c) in n {
        s += &format!("n {c} {k}\n");
    }
    for (k, c) in t {
        s += &format!("t {c} {}\n", crate::util::hex(&k));
    }
    s
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut base = Bag::default();
        for l in BASE.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if let [k, c, x] = w[..] {
                let c = c.parse().unwrap_or(0);
                match k {
                    "n" => {
                        base.0.insert(x.parse().unwrap_or(0), c);
                    }
                    _ => {
                        base.1.insert(crate::util::unhex(x).unwrap_or_default(), c);
                    }
                }
            }
        }
        let now = scan();
        let mut d = Dict::default();
        for (k, c) in now.0 {
            if c > base.0.get(&k).copied().unwrap_or(0) { if k >= 8 { d.fresh.push(k) } } else { d.old.push(k) }
        }
        for (k, c) in now.1 {
            let fresh = c > base.1.get(&k).copied().unwrap_or(0);
            if fresh {
                d.fresh_bytes.push(k.clone());
            }
            let Ok(s) = String::from_utf8(k.clone()) else { continue };
            if fresh { d.fresh_texts.push(s) } else { d.texts.push(s) }
        }
        // very many new ones: a rewrite, not a hint
        d.fresh.truncate(200);
        d
    })
}
/// Lengths worth trying: the new numbers and their neighbours, up to `max`.
pub fn lens(max: u64) -> &'static [u64] {
    static L: OnceLock<Vec<u64>> = OnceLock::new();
    let v = L.get_or_init(|| {
        let mut v: Vec<u64> = dict().fresh.iter().filter(|&&n| n > 2).flat_map(|&n| [n - 1, n, n.saturating_add(1)]).collect();
        v.sort();
        v.dedup();
        v.retain(|n| *n <= 1 << 28);
        v
    });
    let n = v.partition_point(|x| *x <= max);
    &v[..n]
}
