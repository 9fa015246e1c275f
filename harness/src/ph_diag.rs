//! Judges of errors, consumption, memory and rendering for one execution, and
//! phases in which errors are the point.
use crate::alloc;
use crate::ctx::Ctx;
use crate::model::section_name;
use crate::observe::{self, Loc, Out};
use crate::readers::{Delivery, Log, Mon};
use crate::refdec::{Cause, Fault, Info, R};
use crate::util::{clip, hex_short};
use std::error::Error;
use wadec::decode::DecodeModuleError as E;
use wadec::decode_errors as we;

fn find<T: Error + 'static>(e: &E) -> Option<&T> {
    let mut c: Option<&(dyn Error + 'static)> = Some(e);
    while let Some(x) = c {
        if let Some(t) = x.downcast_ref::<T>() {
            return Some(t);
        }
        c = x.source();
    }
    None
}
/// The I/O error kind at the very end of the chain.
fn last_io(e: &E) -> Option<std::io::ErrorKind> {
    let mut c: &(dyn Error + 'static) = e;
    while let Some(x) = c.source() {
        c = x;
    }
    c.downcast_ref::<std::io::Error>().map(|e| e.kind())
}
/// How the standard library words a premature end.
fn eof_texts() -> [String; 2] {
    let e = std::io::Read::read_exact(&mut &[][..], &mut [0]).unwrap_err();
    [e.to_string(), std::io::Error::from(std::io::ErrorKind::UnexpectedEof).to_string()]
}
/// Numbers in a message: decimal and hexadecimal tokens.
pub fn numbers(s: &str) -> Vec<i128> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() || (i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            i += 1;
            continue;
        }
        let neg = i > 0 && b[i - 1] == b'-';
        let mut j = i;
        while j < b.len() && b[j].is_ascii_alphanumeric() {
            j += 1;
        }
        let t = &s[i..j];
        let n = match t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")) {
            Some(h) => i128::from_str_radix(h, 16).ok(),
            None => t.parse().ok(),
        };
        if let Some(n) = n {
            v.push(if neg { -n } else { n });
        }
        i = j;
    }
    v
}

// ------------------------------------------------------------------- C19
pub fn loc(c: &mut Ctx, b: &[u8], f: &Fault, e: &E) {
    let Some(k) = f.sec else { return };
    if f.ambiguous {
        return;
    }
    c.count("located failures judged", 1);
    if !f.path.is_empty() {
        c.count("located failures inside lists", 1);
    }
    c.max("deepest list path", f.path.len() as u64);
    c.seen("faults located (section, item, cause)", format!("{} {} {}", section_name(k), f.role, f.cause.tag()));
    let l = observe::loc(e);
    let say = |c: &mut Ctx, what: String| {
        c.fail(
            format!(
                "{what}; the fault is {} in {} at offset {} of section {}, list positions {:?}; error: {}; input {}",
                f.cause.tag(),
                f.role,
                f.off,
                section_name(k),
                f.path,
                clip(&observe::chain(e).join(" <- "), 400),
                hex_short(b)
            ),
            Some(b),
        )
    };
    if l != Loc::Section(k) {
        return say(c, format!("error blames {l:?}"));
    }
    // the names of the types say the section; so must the text
    let chain = observe::chain(e).join(" | ").to_lowercase();
    let own = section_name(k).to_lowercase();
    let named = match &own[..] {
        "datacount" => chain.contains("data") && chain.contains("count"),
        _ => chain.contains(&own),
    };
    if !named {
        return say(c, format!("error text never names section {own}"));
    }
    let p = observe::positions(e);
    if p != f.path {
        say(c, format!("error reports list positions {p:?}"));
    }
}

// ------------------------------------------------------------------- C20
pub fn root(c: &mut Ctx, b: &[u8], f: &Fault, e: &E) {
    if f.ambiguous {
        return;
    }
    let ch = observe::chain(e);
    let last = ch.last().unwrap().clone();
    let low = last.to_lowercase();
    let nums = numbers(&last);
    let ok = match &f.cause {
        // itself, or in a transparent wrapper that shows it
        Cause::Eof => last_io(e) == Some(std::io::ErrorKind::UnexpectedEof) || eof_texts().contains(&last),
        Cause::BadByte(x) => nums.contains(&(*x as i128)),
        Cause::BadValue(x) => nums.contains(&(*x as i128)),
        Cause::NegIndex(v, first) => nums.contains(&(*v as i128)) || nums.contains(&(*first as i128)),
        Cause::Int { .. } => {
            ["uint", "int", "u32", "u64", "i32", "i64", "s32", "s33", "s64", "leb"].iter().any(|w| low.contains(w))
                && ["large", "long", "sign ext", "overflow", "range", "invalid", "malformed", "exceed"].iter().any(|w| low.contains(w))
        }
        Cause::Utf8 => low.contains("utf-8") || low.contains("utf8"),
        Cause::Else => low.contains("else"),
        Cause::Preamble(p) => {
            let got = low.rfind("got").map(|i| numbers(&last[i..]));
            match got {
                Some(v) if v.len() == 8 => v.iter().zip(p).all(|(a, b)| *a == *b as i128),
                _ => p.iter().all(|x| nums.contains(&(*x as i128))),
            }
        }
        _ => return,
    };
    c.count("root causes judged", 1);
    c.count("links followed", ch.len() as u64 - 1);
    c.max("longest cause chain", ch.len() as u64);
    c.seen("root causes (section, item, cause)", format!("{} {} {}", f.sec.map(section_name).unwrap_or("-"), f.role, f.cause.tag()));
    if !ok {
        c.fail(
            format!(
                "the chain does not end in the root cause ({:?} in {} at offset {}): {}; input {}",
                f.cause,
                f.role,
                f.off,
                clip(&ch.join(" <- "), 500),
                hex_short(b)
            ),
            Some(b),
        );
    }
}

// ------------------------------------------------------------------- C25

/// Words one of which the chain must have when the item is at fault.
fn words(role: &str) -> &'static [&'static str] {
    match role {
        "preamble" => &["preamble", "magic", "header"],
        "section.id" => &["section id", "section header"],
        "section.size" => &["section size", "section header"],
        "custom.name" => &["name"],
        "import.module" => &["module name"],
        "import.item" => &["item name"],
        "import.kind" => &["externtype", "extern type", "import desc"],
        "export.kind" => &["exportdesc", "export desc", "externidx", "export kind"],
        "export.index" => &["index"],
        "func.param" | "func.params" => &["param"],
        "func.result" | "func.results" => &["result"],
        "struct.fields" => &["field"],
        "sub.super" | "sub.supers" => &["supertype"],
        "rec.subtypes" => &["subtype"],
        "comptype" => &["comptype", "composite type"],
        "field.mut" | "global.mut" => &["mutability"],
        "global.type" => &["value type", "valtype"],
        "limits.flag" => &["limits"],
        "limits.min" => &["minimum"],
        "limits.max" => &["maximum"],
        "tag.attr" => &["tag"],
        "elem.flag" | "data.flag" => &["bitfield", "flag"],
        "elem.kind" => &["element kind", "elemkind"],
        "data.bytes" => &["init"],
        "datacount" => &["count"],
        "body.size" => &["size"],
        "locals" | "locals.count" | "locals.type" => &["local"],
        "array.len" => &["length"],
        "fieldidx" => &["field"],
        "select.type" | "select.types" => &["value type", "valtype"],
        "br_table.labels" => &["label"],
        "catches" | "catch.kind" | "catch.tag" | "catch.label" => &["catch"],
        "blocktype" | "blocktype.index" => &["block type", "blocktype"],
        "memarg.flags" => &["align", "flag"],
        "memarg.offset" => &["offset"],
        "lane" => &["lane"],
        "castop" => &["cast"],
        "heaptype" => &["heap type", "heaptype", "type index"],
        "opcode" => &["opcode", "else"],
        "sub-opcode" => &["opcode"],
        _ => &[],
    }
}
/// What the item is not, and stands beside.
fn others(role: &str) -> &'static [&'static str] {
    match role {
        "import.module" => &["item name"],
        "import.item" => &["module name"],
        "func.param" | "func.params" => &["result"],
        "func.result" | "func.results" => &["param"],
        "sub.super" | "sub.supers" => &["param", "result", "field type", "recursive subtype"],
        "limits.min" => &["maximum", "limits flag"],
        "limits.max" => &["minimum", "limits flag"],
        "limits.flag" => &["minimum", "maximum"],
        "global.type" => &["mutability"],
        "global.mut" | "field.mut" => &["value type"],
        "elem.kind" | "elem.flag" | "elem.table" | "elem.func" => &["offset expression", "init expressions"],
        "data.flag" | "data.mem" => &["offset expression", "init byte"],
        "data.bytes" => &["offset expression", "memory index"],
        "locals" | "locals.count" | "locals.type" => &["body expression"],
        "memarg.flags" => &["offset", "memory index"],
        "memarg.offset" => &["alignment", "memory index"],
        "memarg.mem" => &["alignment", "decoding offset"],
        "catch.kind" => &["label", "tagidx"],
        "castop" => &["label", "heap type"],
        "array.len" | "fieldidx" => &["type index", "data index", "element index"],
        "section.id" => &["section size"],
        "section.size" => &["section id"],
        "blocktype" | "blocktype.index" => &["catch"],
        _ => &[],
    }
}
/// The kind of index an item is.
fn index(role: &str) -> Option<&'static [&'static str]> {
    Some(match role {
        "label" | "catch.label" => &["label"],
        "funcidx" | "start" | "elem.func" => &["func", "function"],
        "typeidx" | "func.type" | "import.func" | "tag.type" | "sub.super" => &["type"],
        "tagidx" | "catch.tag" => &["tag"],
        "localidx" => &["local"],
        "globalidx" => &["global"],
        "tableidx" | "elem.table" => &["table"],
        "memidx" | "memarg.mem" | "data.mem" => &["mem", "memory"],
        "elemidx" => &["elem", "element"],
        "dataidx" => &["data"],
        _ => return None,
    })
}
/// Families an instruction may be counted among.
fn family(op: u32) -> &'static [&'static str] {
    match op {
        0x02..=0x04 | 0x08 | 0x0A | 0x0C..=0x15 | 0x1F => &["control"],
        0xD4..=0xD6 | 0xFB_0018 | 0xFB_0019 => &["control", "reference"],
        0xD0..=0xD3 | 0xFB_0014..=0xFB_0017 => &["reference"],
        0xFB_0000..=0xFB_0013 => &["aggregate"],
        0xFB_001A..=0xFB_001E => &["reference", "aggregate"],
        0x1A..=0x1C => &["parametric"],
        0x20..=0x24 => &["variable"],
        0x25 | 0x26 | 0xFC_000C..=0xFC_0011 => &["table"],
        0x28..=0x40 | 0xFC_0008..=0xFC_000B => &["memory"],
        0x41..=0xC4 | 0xFC_0000..=0xFC_0007 => &["numeric"],
        0xFD_0000.. => &["vector", "memory"],
        _ => &[],
    }
}
/// The words in front of `tail`, as in `<word>idx` and `<word> index`.
fn before<'a>(s: &'a str, tail: &str) -> Vec<&'a str> {
    s.match_indices(tail)
        .map(|(i, _)| {
            let h = &s[..i];
            let k = h.rfind(|c: char| !c.is_ascii_alphanumeric()).map_or(0, |k| k + 1);
            &h[k..]
        })
        .collect()
}
pub fn names(c: &mut Ctx, b: &[u8], f: &Fault, e: &E) {
    if f.ambiguous || matches!(f.cause, Cause::SectionSize { .. } | Cause::OutOfOrder { .. } | Cause::Duplicate(_)) {
        return;
    }
    if matches!(f.cause, Cause::FuncCode { .. } | Cause::DataCount { .. } | Cause::DataIndexWithoutCount) {
        return;
    }
    let mut bad: Option<String> = None;
    let chain: Vec<String> = observe::chain(e).iter().map(|m| m.to_lowercase()).collect();
    let all = chain.join(" | ");
    // a marker byte that is missing altogether need not be named
    let marker = ["marker", "flag", "kind", "mut", "attr", "type", "op"].iter().any(|m| f.role.ends_with(m));
    let want = if f.cause == Cause::Eof && marker { &[][..] } else { words(f.role) };
    if !want.is_empty() && !want.iter().any(|w| all.contains(w)) {
        bad = Some(format!("no message speaks of any of {want:?}"));
    }
    // of an instruction's immediates only what is said about the instruction
    let inner = match chain.iter().rposition(|m| m.contains("parsing instruction")) {
        Some(k) if f.op.is_some() => chain[k..].join(" | "),
        _ => all.clone(),
    };
    if let Some(w) = others(f.role).iter().find(|w| inner.contains(**w)) {
        bad = Some(format!("a message speaks of {w:?}"));
    }
    if let Some(own) = index(f.role) {
        let named: Vec<&str> = before(&all, "idx").into_iter().chain(before(&all, " index")).filter(|w| !w.ends_with("idx")).collect();
        const KINDS: [&str; 13] =
            ["label", "func", "function", "type", "tag", "local", "global", "table", "mem", "memory", "elem", "element", "data"];
        if let Some(w) = named.iter().find(|w| KINDS.contains(w) && !own.contains(w)) {
            bad = Some(format!("a message speaks of a {w} index"));
        }
        if !named.iter().any(|w| own.contains(w)) {
            bad = Some(format!("no message speaks of a {} index", own[0]));
        }
    }
    if let Some(op) = f.op {
        // the innermost instruction named is the one at fault
        let fam = chain.iter().rev().flat_map(|m| before(m, " instruction")).find(|w| {
            ["control", "reference", "aggregate", "parametric", "variable", "table", "memory", "numeric", "vector"].contains(w)
        });
        if let Some(w) = fam {
            c.seen("families of instructions named", w);
            if !family(op).is_empty() && !family(op).contains(&w) {
                bad = Some(format!("a {} instruction (opcode {op:#X}) is called a {w} instruction", family(op)[0]));
            }
        }
    }
    let place: &[&str] = match f.place {
        "body" => &["body"],
        // an existing test has the name for the segments of kind 2
        "offset" => &["offset", "element expression"],
        "init" => &["init"],
        _ => &[],
    };
    if !place.is_empty() && !place.iter().any(|w| all.contains(w)) {
        bad = Some(format!("no message says that the fault is in the {}", f.place));
    }
    let wrong_place: &[&str] = match f.place {
        "body" => &["offset expression", "locals"],
        "offset" => &["init byte", "init expressions", "element kind"],
        "init" => &["offset expression", "body"],
        _ => &[],
    };
    if let Some(w) = wrong_place.iter().find(|w| all.contains(**w)) {
        bad = Some(format!("a message speaks of {w:?}"));
    }
    if let Cause::Int { bits, signed, long, large } = &f.cause {
        let last = chain.last().unwrap();
        let named = ["uint", "int", "u", "i", "s"].iter().find_map(|w| {
            let k = last.find(w)?;
            let n: String = last[k + w.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
            n.parse::<u32>().ok().map(|n| (w.starts_with('u'), n))
        });
        if let Some((unsigned, n)) = named {
            c.seen("integer types named", format!("{}{n}", if unsigned { "u" } else { "s" }));
            if n != *bits || unsigned == *signed {
                bad = Some(format!("the integer is one of {bits} bits, {}", if *signed { "signed" } else { "unsigned" }));
            }
        }
        if last.contains("too long") && !long {
            bad = Some("the integer is not too long".into());
        }
        if (last.contains("too large") || last.contains("sign ext")) && !large {
            bad = Some("the integer is too long, its bits are all good".into());
        }
    }
    if f.role == "sub-opcode" && matches!(f.cause, Cause::BadValue(_)) {
        // the prefix the opcode follows
        let own = b[f.off - 1];
        for p in [0xFBu8, 0xFC, 0xFD] {
            if p != own && (all.contains(&format!("after 0x{p:x}")) || p == 0xFD && all.contains("vector opcode")) {
                bad = Some(format!("the opcode after {own:#04X} is said to follow {p:#04X}"));
            }
        }
    }
    c.count("errors whose names were judged", 1);
    let op = f.op.map(|o| format!(" of {o:X}")).unwrap_or_default();
    c.seen("items named (section, item, cause)", format!("{} {}{op} {}", f.sec.map(section_name).unwrap_or("-"), f.role, f.cause.tag()));
    if let Some(x) = bad {
        c.fail(
            format!(
                "{x}, but the fault is {} in {}{op} ({}) at offset {}: {}; input {}",
                f.cause.tag(),
                f.role,
                f.place,
                f.off,
                clip(&observe::chain(e).join(" <- "), 500),
                hex_short(b)
            ),
            Some(b),
        );
    }
}

// ------------------------------------------------------------------- C26

/// What is accepted where the item stands, with what it may be called.
fn accepted(role: &str) -> Vec<(i128, &'static [&'static str])> {
    let plain = |v: &[i128]| v.iter().map(|x| (*x, &[][..])).collect();
    const HEAPS: [(i128, &[&str]); 12] = [
        (0x69, &["exn"]),
        (0x6A, &["array"]),
        (0x6B, &["struct"]),
        (0x6C, &["i31"]),
        (0x6D, &["eq"]),
        (0x6E, &["any"]),
        (0x6F, &["extern"]),
        (0x70, &["func"]),
        (0x71, &["none"]),
        (0x72, &["noextern"]),
        (0x73, &["nofunc"]),
        (0x74, &["noexn"]),
    ];
    match role {
        "section.id" => vec![
            (0, &["custom"][..]),
            (1, &["type"]),
            (2, &["import"]),
            (3, &["function"]),
            (4, &["table"]),
            (5, &["memory"]),
            (6, &["global"]),
            (7, &["export"]),
            (8, &["start"]),
            (9, &["element"]),
            (10, &["code"]),
            (11, &["data"]),
            (12, &["datacount", "data count"]),
            (13, &["tag"]),
        ],
        "import.kind" | "export.kind" => {
            vec![
                (0, &["func", "function"][..]),
                (1, &["table"]),
                (2, &["mem", "memory"]),
                (3, &["global"]),
                (4, &["tag"]),
            ]
        }
        "field.mut" | "global.mut" => vec![(0, &["const", "immutable"][..]), (1, &["var", "mutable"])],
        "limits.flag" => plain(&[0, 1, 4, 5]),
        "comptype" => vec![(0x5E, &["array"][..]), (0x5F, &["struct"]), (0x60, &["func", "function"])],
        "elem.flag" => plain(&[0, 1, 2, 3, 4, 5, 6, 7]),
        "data.flag" => vec![(0, &["active"][..]), (1, &["passive"]), (2, &["active"])],
        "tag.attr" | "table.zero" | "elem.kind" => plain(&[0]),
        "castop" | "catch.kind" => plain(&[0, 1, 2, 3]),
        "func.param" | "func.result" | "field.type" | "global.type" | "locals.type" | "select.type" | "blocktype" | "table.reftype" | "elem.reftype" => {
            let mut v = HEAPS.to_vec();
            v.extend(plain(&[0x63, 0x64]));
            if !role.ends_with("reftype") {
                v.extend([
                    (0x7F, &["i32", "num(int32)", "int32"][..]),
                    (0x7E, &["i64", "num(int64)", "int64"]),
                    (0x7D, &["f32", "num(float32)", "float32"]),
                    (0x7C, &["f64", "num(float64)", "float64"]),
                    (0x7B, &["v128", "vec(v128)"]),
                ]);
            }
            if role == "field.type" {
                v.extend([(0x78, &["i8"][..]), (0x77, &["i16"])]);
            }
            v
        }
        _ => vec![],
    }
}
pub fn lists(c: &mut Ctx, b: &[u8], f: &Fault, e: &E) {
    let (Cause::BadByte(_) | Cause::BadValue(_) | Cause::Preamble(_)) = f.cause else { return };
    if f.ambiguous {
        return;
    }
    let last = observe::chain(e).last().unwrap().clone();
    let low = last.to_lowercase();
    if f.role == "memarg.flags"
        && let Some(k) = low.find("less than ")
        && let n = numbers(&low[k..])
        && !n.is_empty()
    {
        // ... should be less than 2^7
        let limit = if n.len() > 1 && low[k..].contains('^') { n[0].checked_pow(n[1] as u32).unwrap_or(0) } else { n[0] };
        c.count("limits in messages judged", 1);
        if limit != 128 {
            c.fail(format!("{last:?}, but what is accepted is less than 128; input {}", hex_short(b)), Some(b));
        }
        return;
    }
    let Some(from) = low.find("expected") else { return };
    let to = low.rfind("got").filter(|k| *k > from).unwrap_or(low.len());
    let list = &low[from..to];
    let mut listed = numbers(list);
    if let Some(r) = list.split_once("range [")
        && let [lo, hi] = listed[..]
        && r.1.contains(']')
    {
        listed = (lo..=hi.min(lo + 300)).collect();
    }
    let mut bad = None;
    if let Cause::Preamble(_) = f.cause {
        if listed.len() == 8 && listed != b"\0asm\x01\0\0\0".iter().map(|x| *x as i128).collect::<Vec<_>>() {
            bad = Some("this is not the preamble of a module".to_string());
        }
    } else {
        let all = accepted(f.role);
        if all.is_empty() || listed.is_empty() {
            return;
        }
        if let Some(x) = listed.iter().find(|x| !all.iter().any(|a| a.0 == **x)) {
            bad = Some(format!("{x:#04X} is not accepted there"));
        }
        // A list of one kind of marker among several at the place is complete
        // for that kind.
        let kind = |x: i128| {
            let several = f.role.ends_with("type") && f.role != "comptype" || f.role.starts_with("func.") || f.role == "blocktype";
            if !several {
                0
            } else if (0x69..=0x74).contains(&x) {
                1
            } else if (0x77..=0x78).contains(&x) {
                2
            } else if (0x7B..=0x7F).contains(&x) {
                3
            } else {
                4
            }
        };
        if let Some(a) = all.iter().find(|a| !listed.contains(&a.0) && listed.iter().any(|x| kind(*x) == kind(a.0))) {
            bad = Some(format!("{:#04X} is accepted there, too", a.0));
        }
        let mut sorted = listed.clone();
        sorted.sort();
        if sorted.windows(2).any(|w| w[0] == w[1]) {
            bad = Some("a value is listed twice".into());
        }
        // names in parentheses
        let mut rest = list;
        while let Some(k) = rest.find('(') {
            let n = numbers(&rest[..k]);
            let mut depth = 0;
            let end = rest[k..].char_indices().find_map(|(i, ch)| {
                depth += (ch == '(') as i32 - (ch == ')') as i32;
                (depth == 0).then_some(k + i)
            });
            let Some(end) = end else { break };
            let name = &rest[k + 1..end];
            for x in &n {
                c.count("meanings of listed values judged", 1);
                if let Some(a) = all.iter().find(|a| a.0 == *x)
                    && !a.1.is_empty()
                    && !a.1.iter().any(|w| name == *w || name.split(|ch: char| !ch.is_ascii_alphanumeric()).any(|p| p == *w))
                {
                    bad = Some(format!("{x:#04X} does not mean {name:?}"));
                }
            }
            rest = &rest[end + 1..];
        }
    }
    c.count("lists of expected values judged", 1);
    c.seen("lists judged (section, item)", format!("{} {}", f.sec.map(section_name).unwrap_or("-"), f.role));
    if let Some(x) = bad {
        c.fail(format!("{x}: {last:?} ({} at offset {}); input {}", f.role, f.off, hex_short(b)), Some(b));
    }
}

// ------------------------------------------------------------------- C21
pub fn mismatch(c: &mut Ctx, b: &[u8], f: &Fault, e: &E) {
    let kind = crate::bridge::kind;
    let name = |k: u8| section_name(k).to_lowercase();
    let text = e.to_string();
    // What the error claims.
    let claim: Option<Cause> = match e {
        E::SectionSizeMismatch { section_kind, declared, got } => {
            Some(Cause::SectionSize { kind: kind(*section_kind), declared: *declared as _, got: *got as _ })
        }
        E::SectionOutOfOrder { current, previous } => Some(Cause::OutOfOrder { current: kind(*current), previous: kind(*previous) }),
        E::DuplicateSection(k) => Some(Cause::Duplicate(kind(*k))),
        E::CodeFuncEntriesLenMismatch { codes_len, funcs_len } => Some(Cause::FuncCode { funcs: *funcs_len as u64, codes: *codes_len as u64 }),
        E::DataCountMismatch { datas_len, data_count } => Some(Cause::DataCount { declared: *data_count as _, got: *datas_len as u64 }),
        E::DataCountDatasLenMismatch { datas_len, data_count } => Some(Cause::DataCount { declared: *data_count as _, got: *datas_len as u64 }),
        E::DataIndexWithoutDataCount => Some(Cause::DataIndexWithoutCount),
        _ => {
            if let Some(we::DecodeCodeError::EntrySizeMismatch { declared_bytes, leftover_bytes, consumed_bytes }) = find(e) {
                if *leftover_bytes as u128 + *consumed_bytes as u128 != *declared_bytes as u128 {
                    c.fail(
                        format!("body size error with leftover {leftover_bytes} + consumed {consumed_bytes} != declared {declared_bytes}; input {}", hex_short(b)),
                        Some(b),
                    );
                }
                Some(Cause::BodySize { declared: *declared_bytes as _, got: *consumed_bytes as _ })
            } else if let Some(we::DecodeCodeLocalsError::LocalsCountOutOfBound { max_locals, actual_locals }) = find(e) {
                if *max_locals as u64 != u32::MAX as u64 {
                    c.fail(format!("locals error with limit {max_locals}; input {}", hex_short(b)), Some(b));
                }
                Some(Cause::TooManyLocals(*actual_locals as _))
            } else {
                None
            }
        }
    };
    let mismatch_cause = matches!(
        f.cause,
        Cause::SectionSize { .. }
            | Cause::OutOfOrder { .. }
            | Cause::Duplicate(_)
            | Cause::FuncCode { .. }
            | Cause::DataCount { .. }
            | Cause::BodySize { .. }
            | Cause::TooManyLocals(_)
            | Cause::DataIndexWithoutCount
    );
    if claim.is_none() && !mismatch_cause || f.ambiguous {
        return;
    }
    let full = observe::chain(e).join(" <- ");
    let Some(claim) = claim else {
        // Input that ends early may as well be reported as such.
        let eof = last_io(e) == Some(std::io::ErrorKind::UnexpectedEof) || observe::chain(e).last().is_some_and(|l| eof_texts().contains(l));
        if f.bound < b.len() || !eof {
            c.fail(format!("no size or count error for {:?}: {}; input {}", f.cause, clip(&full, 400), hex_short(b)), Some(b));
        }
        return;
    };
    c.count("mismatch errors judged", 1);
    c.seen("mismatches (kind)", claim.tag());
    if let Cause::SectionSize { kind, .. } = &claim {
        c.seen("size mismatch of section", section_name(*kind));
    }
    if let Cause::OutOfOrder { current, previous } = &claim {
        c.seen("out of order (section after section)", format!("{} after {}", section_name(*current), section_name(*previous)));
    }
    if let Cause::Duplicate(k) = &claim {
        c.seen("duplicates of section", section_name(*k));
    }
    let tolerated = matches!(f.cause, Cause::Eof) && f.bound >= b.len();
    if claim != f.cause {
        if !tolerated {
            c.fail(format!("error claims {claim:?}, the input has {:?}: {}; input {}", f.cause, clip(&full, 300), hex_short(b)), Some(b));
        }
        return;
    }
    // The message tells the same numbers and kinds.
    let text = match &claim {
        Cause::BodySize { .. } => find::<we::DecodeCodeError>(e).map(|e| e.to_string()).unwrap_or(text),
        Cause::TooManyLocals(_) => find::<we::DecodeCodeLocalsError>(e).map(|e| e.to_string()).unwrap_or(text),
        _ => text,
    };
    let low = text.to_lowercase();
    let after = |w: &str| -> Option<i128> {
        let i = low.find(w)?;
        let rest = low[i + w.len()..].trim_start_matches([':', ' ', '=']);
        let (rest, sign) = match rest.strip_prefix('-') {
            Some(x) => (x, -1),
            None => (rest, 1),
        };
        if !rest.starts_with(|c: char| c.is_ascii_digit()) {
            return None;
        }
        numbers(rest).first().map(|x| x * sign)
    };
    let mut bad = None;
    let mut want = |w: &str, n: i128| {
        if let Some(x) = after(w)
            && x != n
        {
            bad = Some(format!("`{w}` is followed by {x}, not {n}"));
        }
    };
    match &claim {
        Cause::SectionSize { kind, declared, got } => {
            want("declared", *declared as i128);
            want("got", *got as i128);
            if !low.replace(' ', "").contains(&name(*kind).replace(' ', "")) {
                bad = Some(format!("section {} is not named", name(*kind)));
            }
        }
        Cause::BodySize { declared, got } => {
            want("declared", *declared as i128);
            want("consumed", *got as i128);
            want("leftover", *declared as i128 - *got as i128);
        }
        Cause::TooManyLocals(n) => {
            want("got", *n as i128);
            want("at most", u32::MAX as i128);
        }
        Cause::DataCount { declared, got } => {
            want("declared", *declared as i128);
            want("got", *got as i128);
        }
        Cause::OutOfOrder { current, previous } => {
            let (a, z) = match low.find("after") {
                Some(i) => low.split_at(i),
                None => (&low[..], &low[..]),
            };
            let has = |t: &str, k: u8| t.replace(' ', "").contains(&name(k).replace(' ', ""));
            if !has(a, *current) || !has(z, *previous) {
                bad = Some("the message names other sections".into());
            }
        }
        Cause::Duplicate(k) => {
            if !low.replace(' ', "").contains(&name(*k).replace(' ', "")) {
                bad = Some("the message names another section".into());
            }
        }
        _ => {}
    }
    if let Some(x) = bad {
        c.fail(format!("message `{text}` is not what the input has ({:?}): {x}; input {}", f.cause, hex_short(b)), Some(b));
    }
}

// ------------------------------------------------------------------- C16
pub fn consume(c: &mut Ctx, b: &[u8], reference: &R<crate::model::Module>, out: &Out, log: &Log) {
    c.count("bytes consumed", log.consumed as u64);
    match (reference, out) {
        (_, Out::Ok(_)) => {
            c.count("successful decodes watched", 1);
            if log.consumed != b.len() || log.ends == 0 {
                c.fail(
                    format!("success after {} of {} bytes, end seen {} times; input {}", log.consumed, b.len(), log.ends, hex_short(b)),
                    Some(b),
                );
            }
        }
        (Err(f), Out::Err(e)) => {
            c.count("failed decodes watched", 1);
            if f.bound < b.len() {
                c.count("failed decodes with bytes behind the fault's section", 1);
            }
            c.seen("faults (item, cause)", format!("{} {}", f.role, f.cause.tag()));
            if log.consumed > f.bound {
                c.fail(
                    format!(
                        "consumed {} bytes although the fault ({} in {} at {}) confines it to {}; error {}; input {}",
                        log.consumed,
                        f.cause.tag(),
                        f.role,
                        f.off,
                        f.bound,
                        clip(&observe::chain(e).join(" <- "), 300),
                        hex_short(b)
                    ),
                    Some(b),
                );
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------- C12
/// Live bytes per byte received, and the constant.
pub const MEM_PER_BYTE: u64 = 600;
pub const MEM_CONST: u64 = 1 << 20;
/// Live bytes per local declared (known finding F7: they are expanded).
pub const MEM_PER_LOCAL: u64 = 64;

pub struct Mem {
    pub peak: u64,
    pub kept: i64,
    pub consumed: u64,
    pub verdict: &'static str,
    pub total: u64,
    pub calls: u64,
}
/// Decodes once more on this thread under the counting allocator, and drops
/// the result.
pub fn measure(b: &[u8]) -> Mem {
    let mut mon = Mon::new(b, Delivery::Whole, crate::util::Rng::new(0, "", 0));
    let (t0, c0) = (alloc::total(), alloc::calls());
    let live0 = alloc::start();
    let cap = (700 * b.len() as u64).max(3 << 29);
    let out = observe::guarded(|| alloc::capped(cap, || wadec::decode_module(&mut mon as &mut dyn std::io::Read)));
    let peak = alloc::peak() - live0;
    let (total, calls) = (alloc::total() - t0, alloc::calls() - c0);
    let verdict = match &out {
        Ok(Ok(_)) => "accepted",
        Ok(Err(_)) => "rejected",
        Err(_) => "panicked",
    };
    let r = observe::guarded(move || drop(out));
    let kept = alloc::live() - live0;
    drop(r);
    Mem { peak: peak.max(0) as u64, kept: kept as i64, consumed: mon.log.consumed as u64, verdict, total, calls }
}
pub fn memory(c: &mut Ctx, b: &[u8], info: &Info) {
    let m = measure(b);
    if m.verdict == "panicked" {
        return;
    }
    c.count("decodes measured", 1);
    c.count("bytes allocated in total", m.total);
    let locals = info.locals_all;
    let bound = MEM_PER_BYTE * m.consumed + MEM_CONST + MEM_PER_LOCAL * locals.min(2_000_000);
    if locals < 1000 && m.consumed >= 64 {
        c.max("largest peak, bytes per 1000 bytes received", m.peak.saturating_sub(4096) * 1000 / m.consumed);
    }
    c.max("largest peak (bytes)", m.peak);
    if m.peak > bound {
        c.fail(
            format!("peak memory {} bytes after {} bytes received (bound {bound}); input {}", m.peak, m.consumed, hex_short(b)),
            Some(b),
        );
    }
    if m.kept != 0 {
        c.fail(format!("{} bytes still allocated after dropping the result ({}); input {}", m.kept, m.verdict, hex_short(b)), Some(b));
    }
}

// ------------------------------------------------------------------- C11
pub fn render(c: &mut Ctx, b: &[u8], out: &Out, depth: usize) {
    let r = observe::guarded(|| match out {
        Out::Ok(m) => {
            let mut n = format!("{m:?}").len();
            if depth <= 200 && b.len() <= 16 << 10 {
                n += format!("{m:#?}").len();
            }
            n
        }
        Out::Err(e) => format!("{e:?}{e:#?}{e}").len() + observe::chain(e).iter().map(|s| s.len()).sum::<usize>(),
        Out::Panic(_) => 0,
    });
    match r {
        Ok(n) => {
            c.count("results rendered", 1);
            c.count("bytes rendered", n as u64);
        }
        Err(m) => c.fail(format!("rendering the result panicked: {m}; input {}", hex_short(b)), Some(b)),
    }
}
