//! C29: `==` and the debug form tell decoded modules apart.
use crate::ctx::Ctx;
use crate::gen_::{self, Prof};
use crate::lib_::{EXPR_CTX, wrap_expr};
use crate::model::*;
use crate::observe::{self, Out};
use crate::ph_probe::gather;
use crate::readers::{Delivery, Mon};
use crate::spec::OPS;
use crate::util::{Rng, clip, hash_bytes, hex_short};
use crate::{bridge, enc};

/// A decoded module with its parts' text and contents.
struct Seen {
    b: Vec<u8>,
    w: Box<wadec::Module>,
    m: Module,
    /// `m` as the debug form can tell it (all NaN alike) ...
    shown: Module,
    /// ... and as `==` can (zeros alike, too).
    equal: Module,
    nan: bool,
}

fn floats(e: &mut Expr, zero: bool, nan: &mut bool) {
    for i in e {
        for x in &mut i.imm {
            match x {
                Imm::F32(v) if f32::from_bits(*v).is_nan() => {
                    *v = 0x7FC0_0000;
                    *nan = true;
                }
                Imm::F64(v) if f64::from_bits(*v).is_nan() => {
                    *v = 0x7FF8_0000_0000_0000;
                    *nan = true;
                }
                Imm::F32(v) if zero && *v == 1 << 31 => *v = 0,
                Imm::F64(v) if zero && *v == 1 << 63 => *v = 0,
                _ => {}
            }
        }
        for b in &mut i.body {
            floats(b, zero, nan);
        }
    }
}
fn plain(m: &Module, zero: bool, nan: &mut bool) -> Module {
    let mut m = m.clone();
    for x in &mut m.codes {
        floats(&mut x.body, zero, nan);
    }
    for x in &mut m.tables {
        floats(&mut x.init, zero, nan);
    }
    for x in &mut m.globals {
        floats(&mut x.init, zero, nan);
    }
    for x in &mut m.elems {
        for e in &mut x.init {
            floats(e, zero, nan);
        }
        if let ElemMode::Active(_, e) = &mut x.mode {
            floats(e, zero, nan);
        }
    }
    for x in &mut m.datas {
        if let Some((_, e)) = &mut x.mode {
            floats(e, zero, nan);
        }
    }
    m
}

fn decode(c: &mut Ctx, b: &[u8], d: Delivery) -> Option<Seen> {
    let (_, info) = crate::refdec::decode(b);
    if info.locals_all > 20_000 || info.depth > 100 {
        return None;
    }
    let mut r = Mon::new(b, d, c.rng.clone());
    match observe::decode_within(b.len(), &mut r) {
        Out::Ok(w) => {
            let (m, _) = bridge::module(&w);
            let mut nan = false;
            let shown = plain(&m, false, &mut nan);
            let equal = plain(&m, true, &mut nan);
            Some(Seen { b: b.to_vec(), w, m, shown, equal, nan })
        }
        _ => None,
    }
}

/// Every part in which the two modules differ must be unequal and look
/// different; so must the modules.
fn apart(c: &mut Ctx, x: &Seen, y: &Seen) {
    let mut any = (false, false);
    macro_rules! part {
        ($name:literal, $w:ident, $($f:ident),+) => {{
            let eq = $(x.equal.$f == y.equal.$f)&&+;
            let shown = $(x.shown.$f == y.shown.$f)&&+;
            if !eq {
                any.0 = true;
                c.count(concat!("pairs differing in ", $name), 1);
                match observe::guarded(|| (x.w.$w == y.w.$w, x.w.$w != y.w.$w)) {
                    Ok((false, true)) => {}
                    r => tell(c, x, y, $name, &format!("`==` and `!=` give {r:?}")),
                }
            }
            if !shown {
                any.1 = true;
                match observe::guarded(|| (format!("{:?}", x.w.$w), format!("{:?}", y.w.$w))) {
                    Ok((a, b)) if a != b => {}
                    Ok((a, _)) => tell(c, x, y, $name, &format!("both have the debug form {}", clip(&a, 300))),
                    Err(e) => tell(c, x, y, $name, &format!("rendering panics: {e}")),
                }
                match observe::guarded(|| format!("{:#?}", x.w.$w) == format!("{:#?}", y.w.$w)) {
                    Ok(false) => {}
                    _ => tell(c, x, y, $name, "both have the same alternate debug form"),
                }
            }
        }};
    }
    part!("section headers", section_headers, headers);
    part!("custom sections", custom_sections, customs);
    part!("types", types, types);
    part!("imports", imports, imports);
    part!("functions", funcs, func_types, codes);
    part!("tables", tables, tables);
    part!("memories", mems, mems);
    part!("tags", tags, tags);
    part!("globals", globals, globals);
    part!("exports", exports, exports);
    part!("start", start, start);
    part!("element segments", elems, elems);
    part!("data segments", datas, datas);
    part!("data count", data_count, data_count);
    if any.0 && !matches!(observe::guarded(|| (*x.w == *y.w, *x.w != *y.w)), Ok((false, true))) {
        tell(c, x, y, "whole", "they are equal as modules");
    }
    if any.1 {
        for alt in [false, true] {
            let form = |w: &wadec::Module| if alt { format!("{w:#?}") } else { format!("{w:?}") };
            if !matches!(observe::guarded(|| form(&x.w) == form(&y.w)), Ok(false)) {
                tell(c, x, y, "whole", "they have the same debug form as modules");
            }
        }
    }
    if any.0 {
        c.count("different modules compared", 1);
    }
}
fn tell(c: &mut Ctx, x: &Seen, y: &Seen, part: &str, what: &str) {
    let d = crate::model::diff(&x.m, &y.m).into_iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join("; ");
    c.fail(
        format!("modules that differ ({}; {part}) are not told apart: {what}; inputs {} and {}", clip(&d, 300), hex_short(&x.b), hex_short(&y.b)),
        Some(&y.b),
    );
}
/// Two decodes of the same bytes.
fn same(c: &mut Ctx, x: &Seen, d: Delivery) {
    let Some(y) = decode(c, &x.b, d) else {
        return;
    };
    match observe::guarded(|| (format!("{:?}", x.w) == format!("{:?}", y.w), format!("{:#?}", x.w) == format!("{:#?}", y.w))) {
        Ok((true, true)) => {}
        Ok(_) => c.fail(format!("two decodes of the same bytes have different debug forms; input {}", hex_short(&x.b)), Some(&x.b)),
        Err(e) => c.fail(format!("rendering panics: {e}; input {}", hex_short(&x.b)), Some(&x.b)),
    }
    if !x.nan {
        let r = observe::guarded(|| (*x.w == *y.w, *y.w == *x.w, *x.w != *y.w, *x.w == *x.w));
        if !matches!(r, Ok((true, true, false, true))) {
            c.fail(format!("two decodes of the same bytes are not equal ({r:?}); input {}", hex_short(&x.b)), Some(&x.b));
        }
        c.count("equal modules compared", 1);
    }
}

/// Inputs of every kind beside versions with a changed byte or two.
pub fn neighbours(c: &mut Ctx, idx: u64) {
    let inputs = gather(c, idx, 36, 4096);
    for b in inputs {
        let Some(x) = decode(c, &b, Delivery::Whole) else { continue };
        c.eval(&b);
        same(c, &x, Delivery::OneByOne);
        let n = b.len() - 8;
        if n == 0 {
            continue;
        }
        // the bytes that change, evenly over the input
        let tries = if n <= 120 { 2 * n } else { 60 };
        for t in 0..tries {
            let at = 8 + if n <= 120 { t / 2 } else { c.rng.usize(n) };
            let mut v = b.clone();
            v[at] = match c.rng.below(4) {
                0 => v[at].wrapping_add(1),
                1 => v[at].wrapping_sub(1),
                2 => v[at] ^ (1 << c.rng.below(8)),
                _ => c.rng.u64() as u8,
            };
            if c.rng.below(8) == 0 {
                let j = 8 + c.rng.usize(n);
                v[j] = c.rng.u64() as u8;
            }
            if let Some(y) = decode(c, &v, Delivery::Whole)
                && x.m != y.m
            {
                c.st.evals += 1;
                apart(c, &x, &y);
            }
        }
    }
}
/// All pairs among many modules.
pub fn groups(c: &mut Ctx, idx: u64) {
    let inputs = if idx % 2 == 0 { gather(c, idx, 160, 2048) } else { crate::ph_twin::families(c, 160) };
    let v: Vec<Seen> = inputs.iter().filter_map(|b| decode(c, b, Delivery::Whole)).collect();
    pairs(c, &v);
}
fn pairs(c: &mut Ctx, v: &[Seen]) {
    // all debug forms at once; pairs by `==`
    let mut forms: std::collections::HashMap<u64, usize> = Default::default();
    for (i, x) in v.iter().enumerate() {
        c.eval(&x.b);
        if let Ok(s) = observe::guarded(|| format!("{:?}", x.w))
            && let Some(j) = forms.insert(hash_bytes(s.as_bytes()), i)
            && v[j].shown != x.shown
        {
            apart(c, &v[j], x);
        }
        for y in &v[..i] {
            if x.equal != y.equal && !matches!(observe::guarded(|| *x.w == *y.w || *y.w == *x.w), Ok(false)) {
                apart(c, y, x);
            }
            c.count("pairs compared", 1);
        }
    }
}
/// Every instruction beside every other one in the same place, and beside
/// itself with other immediates.
pub fn instructions(c: &mut Ctx, idx: u64) {
    let place = idx as usize % EXPR_CTX.len();
    let p = Prof { items: 4, ins: 4, ..Prof::general() };
    let mut v: Vec<Seen> = vec![];
    for op in OPS {
        for k in 0..2 {
            let mut budget = 2;
            let ins = gen_::ins_of(&mut c.rng, op, &p, 1, &mut budget);
            if k == 1 && ins.imm.is_empty() {
                break;
            }
            let er = Rng::new(c.rng.u64(), "e", 0);
            let b = wrap_expr(place, &enc::encode_expr(&vec![ins], &er, &crate::lib_::MIN));
            if let Some(s) = decode(c, &b, Delivery::Whole) {
                c.seen("instructions", op.name);
                v.push(s);
            }
        }
    }
    // instructions by themselves: differing section sizes do not help
    let mut forms: std::collections::HashMap<String, usize> = Default::default();
    for i in 0..v.len() {
        c.eval(&v[i].b);
        if let Ok(s) = observe::guarded(|| expression(&v[i].w, place).map(|e| format!("{e:?}")))
            && let Some(s) = s
            && let Some(j) = forms.insert(s, i)
            && v[i].shown != v[j].shown
        {
            apart(c, &v[j], &v[i]);
        }
        for j in 0..i {
            c.count("pairs compared", 1);
            let (x, y) = (&v[i], &v[j]);
            let same = observe::guarded(|| expression(&x.w, place) == expression(&y.w, place));
            if !matches!(same, Ok(false)) {
                apart(c, y, x);
            }
        }
    }
    for i in 0..24 {
        let j = (idx as usize * 24 + i) % v.len().max(1);
        if let Some(x) = v.get(j) {
            same(c, x, Delivery::OneByOne);
        }
    }
}
fn expression(w: &wadec::Module, place: usize) -> Option<&Vec<wadec::core::Instruction>> {
    match EXPR_CTX[place] {
        "global" => w.globals.first().map(|g| &g.init),
        "table" => w.tables.first().map(|t| &t.1),
        "elem item" => w.elems.first().and_then(|e| e.init.first()),
        "elem offset" => w.elems.first().and_then(|e| match &e.mode {
            wadec::core::ElemMode::Active { offset, .. } => Some(offset),
            _ => None,
        }),
        "data offset" => w.datas.first().and_then(|d| match &d.mode {
            wadec::core::DataMode::Active { offset, .. } => Some(offset),
            _ => None,
        }),
        _ => w.funcs.first().map(|f| &f.body),
    }
}

/// Moves something across a boundary between neighbouring parts, so that the
/// same items stand there in the same order, grouped differently.
fn shift(r: &mut Rng, m: &mut Module) -> Option<&'static str> {
    fn nest(r: &mut Rng, e: &mut Expr, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        for i in 0..e.len() {
            if e[i].body.len() == 2 && r.bool() {
                let [x, y] = &mut e[i].body[..] else { continue };
                if let Some(z) = x.pop() {
                    y.insert(0, z);
                    return true;
                }
            }
            if !e[i].body.is_empty() && r.bool() {
                let last = e[i].body.len() - 1;
                if let Some(z) = e[i].body[last].pop() {
                    e.insert(i + 1, z);
                    return true;
                }
            }
            for b in &mut e[i].body {
                if nest(r, b, budget) {
                    return true;
                }
            }
        }
        false
    }
    let k = r.below(9);
    match k {
        0 => {
            let x = m.imports.last_mut()?;
            let ch = x.module.pop()?;
            x.item.insert(0, ch);
            Some("import names")
        }
        1 => {
            let x = m.customs.last_mut()?;
            let ch = x.name.pop()?;
            let mut b = [0; 4];
            let s = ch.encode_utf8(&mut b).as_bytes().to_vec();
            x.contents.splice(0..0, s);
            Some("custom name and contents")
        }
        2 => {
            for s in m.types.iter_mut().flatten() {
                if let Comp::Func(p, q) = &mut s.comp
                    && let Some(t) = p.pop()
                {
                    q.insert(0, t);
                    return Some("parameters and results");
                }
            }
            None
        }
        3 => {
            let i = m.types.iter().position(|t| t.len() > 1)?;
            let t = m.types[i].pop()?;
            m.types.insert(i + 1, vec![t]);
            Some("recursive types split")
        }
        4 => {
            if m.types.len() < 2 {
                return None;
            }
            let i = r.usize(m.types.len() - 1);
            let t = m.types.remove(i + 1);
            m.types[i].extend(t);
            Some("recursive types joined")
        }
        5 | 6 => {
            for c in &mut m.codes {
                let mut budget = 200;
                if nest(r, &mut c.body, &mut budget) {
                    return Some("nested instructions");
                }
            }
            None
        }
        7 => {
            for i in 1..m.elems.len() {
                if m.elems[i - 1].rt == m.elems[i].rt
                    && let Some(x) = m.elems[i - 1].init.pop()
                {
                    m.elems[i].init.insert(0, x);
                    return Some("segments");
                }
            }
            None
        }
        _ => {
            for i in 1..m.datas.len() {
                if let Some(x) = m.datas[i - 1].init.pop() {
                    m.datas[i].init.insert(0, x);
                    return Some("payloads");
                }
            }
            None
        }
    }
}
/// Names with separators in them, which a joined form would confuse.
fn separators(r: &mut Rng, m: &mut Module) {
    const SEP: [&str; 14] = [".", ":", "::", "/", "\0", "\"", "', '", ", ", "\", \"", " ", "#", "$", "_", "-"];
    let s = *r.pick(&SEP);
    for x in &mut m.imports {
        if r.bool() {
            x.module = "a".into();
            x.item = format!("b{s}c");
        } else {
            x.module = format!("a{s}b");
            x.item = "c".into();
        }
    }
}
fn swap_separators(m: &mut Module) -> bool {
    let mut any = false;
    for x in &mut m.imports {
        if x.module == "a" && x.item.starts_with('b') && x.item.ends_with('c') && x.item.len() > 2 {
            let s = x.item[1..x.item.len() - 1].to_string();
            x.module = format!("a{s}b");
            x.item = "c".into();
            any = true;
        } else if x.item == "c" && x.module.starts_with('a') && x.module.ends_with('b') && x.module.len() > 2 {
            let s = x.module[1..x.module.len() - 1].to_string();
            x.module = "a".into();
            x.item = format!("b{s}c");
            any = true;
        }
    }
    any
}
pub fn shifts(c: &mut Ctx, _: u64) {
    let (mut plan, _, _) = c.generated(&Prof::general());
    for round in 0..6 {
        if round == 0 {
            separators(&mut c.rng, &mut plan.m);
        }
        let st = c.style();
        let (b, _, _) = c.encode(&plan, &st);
        let mut other = gen_::Plan { m: plan.m.clone(), layout: plan.layout.clone() };
        let what = if round == 0 {
            swap_separators(&mut other.m).then_some("separators in names")
        } else {
            shift(&mut c.rng, &mut other.m)
        };
        let Some(what) = what else { continue };
        // what moved may be encoded in the same number of bytes
        let (v, _, _) = c.encode(&other, &st);
        if let (Some(x), Some(y)) = (decode(c, &b, Delivery::Whole), decode(c, &v, Delivery::Whole)) {
            c.eval(&b);
            c.seen("things moved", what);
            apart(c, &x, &y);
        }
    }
}
/// Long lists and payloads that differ in one byte somewhere.
pub fn long(c: &mut Ctx, idx: u64) {
    use crate::ph_diff as d;
    let kind = d::KINDS[idx as usize % d::KINDS.len()];
    let i = idx as usize / d::KINDS.len();
    let hot = crate::dict::lens(1 << 17);
    let n = match [40u64, 300, 1100, 5000, 20_000].get(i) {
        Some(n) => n + c.rng.below(n / 4),
        None if !hot.is_empty() && c.rng.bool() => *c.rng.pick(&hot) + c.rng.below(3),
        None => 1 << c.rng.below(17),
    };
    let plan = d::sized_module(kind, n);
    let (b, _, _) = c.encode(&plan, &crate::lib_::MIN);
    let Some(x) = decode(c, &b, Delivery::Whole) else { return };
    c.eval(&b);
    c.seen("kinds of long lists", kind);
    same(c, &x, Delivery::Chunks(777));
    let mut done = 0;
    for t in 0..60 {
        if done == 6 {
            break;
        }
        let k = b.len() - 8;
        let at = 8 + match t % 6 {
            0 => k / 2 + c.rng.usize(9).min(k / 2),
            1 => k.saturating_sub(1 + c.rng.usize(8)),
            2 => k * 3 / 4,
            _ => c.rng.usize(k.max(1)),
        };
        let mut v = b.clone();
        let Some(p) = v.get_mut(at) else { continue };
        *p = if c.rng.bool() { p.wrapping_add(1) } else { *p ^ (1 << c.rng.below(8)) };
        if let Some(y) = decode(c, &v, Delivery::Whole)
            && x.m != y.m
        {
            done += 1;
            c.st.evals += 1;
            c.count("long modules compared", 1);
            apart(c, &x, &y);
        }
    }
}
/// Sections that differ in nothing but the number of zero bytes they hold, or
/// in how long the encoding of a number is.
pub fn section_sizes(c: &mut Ctx, idx: u64) {
    let k = idx % 18;
    let n = c.rng.below(300) as usize;
    let m = n + (1usize << k);
    use crate::lib_::{cat, module, sec};
    use crate::util::leb_u;
    let make = |n: usize| match idx / 18 % 4 {
        0 => module(&[sec(CUSTOM, &cat(&[&[1, b'a'], &vec![0; n]]))]),
        1 => module(&[sec(DATA, &cat(&[&[1, 1], &leb_u(n as u64, 0), &vec![0; n]]))]),
        2 => module(&[sec(FUNCTION, &[1, 0]), {
            let b = cat(&[&[0], &vec![1; n], &[0x0B]]);
            sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b]))
        }]),
        _ => module(&[sec(EXPORT, &cat(&[&[1], &leb_u(n as u64, 0), &vec![b'a'; n], &[0, 0]]))]),
    };
    let (b, v) = (make(n), make(m));
    if let (Some(x), Some(y)) = (decode(c, &b, Delivery::Whole), decode(c, &v, Delivery::Whole)) {
        c.eval(&b);
        c.count("pairs that differ in length", 1);
        apart(c, &x, &y);
    }
    for pad in 1..5 {
        let v = module(&[sec(TAG, &cat(&[&leb_u(1, pad), &[0, 0]]))]);
        let b = module(&[sec(TAG, &[1, 0, 0])]);
        if let (Some(x), Some(y)) = (decode(c, &b, Delivery::Whole), decode(c, &v, Delivery::Whole)) {
            apart(c, &x, &y);
        }
    }
}
