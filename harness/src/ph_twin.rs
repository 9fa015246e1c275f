//! Near twins: neighbouring items, and modules decoded one after another, that
//! are equal but for one value or the order of two. Whatever caches, interns
//! or reuses parts by less than the whole of them mixes these up.
use crate::ctx::Ctx;
use crate::enc;
use crate::gen_::{Plan, Prof};
use crate::model::*;
use crate::refdec;
use crate::util::Rng;

fn copies<T: Clone>(r: &mut Rng, v: &mut Vec<T>) -> bool {
    if v.is_empty() {
        return false;
    }
    let i = r.usize(v.len());
    let x = v[i].clone();
    let n = 1 + if r.chance(1, 8) { r.below(9) } else { r.below(3) };
    for _ in 0..n {
        let at = if r.chance(3, 4) { i + 1 } else { r.usize(v.len() + 1) };
        v.insert(at, x.clone());
    }
    true
}
fn in_expr(r: &mut Rng, e: &mut Expr) -> Option<&'static str> {
    let inner: Vec<usize> = (0..e.len())
        .filter(|&i| !e[i].body.is_empty() || e[i].imm.iter().any(|x| matches!(x, Imm::Labels(_) | Imm::Types(_) | Imm::Catches(_))))
        .collect();
    if inner.is_empty() || r.chance(1, 3) {
        return copies(r, e).then_some("instructions");
    }
    let x = &mut e[*r.pick(&inner)];
    if !x.body.is_empty() && r.chance(2, 3) {
        let k = r.usize(x.body.len());
        return in_expr(r, &mut x.body[k]);
    }
    for i in &mut x.imm {
        match i {
            Imm::Labels(v) => return copies(r, v).then_some("labels"),
            Imm::Types(v) => return copies(r, v).then_some("types of select"),
            Imm::Catches(v) => return copies(r, v).then_some("handlers"),
            _ => {}
        }
    }
    None
}
/// Copies an element of some list of the module.
fn grow(r: &mut Rng, p: &mut Plan) -> Option<&'static str> {
    let m = &mut p.m;
    macro_rules! list {
        ($x:expr, $n:literal) => {
            copies(r, &mut $x).then_some($n)
        };
    }
    let with = |r: &mut Rng, n: usize| (n > 0).then(|| r.usize(n));
    match r.below(20) {
        0 => list!(m.types, "groups"),
        1 => {
            let i = with(r, m.types.len())?;
            list!(m.types[i], "subtypes")
        }
        2 | 3 => {
            let i = with(r, m.types.len())?;
            let k = with(r, m.types[i].len())?;
            match &mut m.types[i][k].comp {
                Comp::Func(a, b) => {
                    let (v, n) = if r.bool() { (a, "parameters") } else { (b, "results") };
                    copies(r, v).then_some(n)
                }
                Comp::Struct(f) => list!(*f, "fields"),
                Comp::Array(_) => list!(m.types[i][k].supers, "supertypes"),
            }
        }
        4 => {
            let i = with(r, m.types.len())?;
            let k = with(r, m.types[i].len())?;
            list!(m.types[i][k].supers, "supertypes")
        }
        5 => list!(m.imports, "imports"),
        6 => list!(m.tables, "tables"),
        7 => list!(m.mems, "memories"),
        8 => list!(m.tags, "tags"),
        9 => list!(m.globals, "globals"),
        10 => list!(m.exports, "exports"),
        11 => list!(m.elems, "element segments"),
        12 => {
            let i = with(r, m.elems.len())?;
            list!(m.elems[i].init, "elements")
        }
        13 => {
            copies(r, &mut m.datas);
            if m.data_count.is_some() {
                m.data_count = Some(m.datas.len() as u32);
            }
            Some("data segments")
        }
        14 => {
            let n = m.customs.len();
            copies(r, &mut m.customs);
            for _ in n..m.customs.len() {
                let at = r.usize(p.layout.len() + 1);
                p.layout.insert(at, CUSTOM);
            }
            Some("custom sections")
        }
        15 | 16 => {
            let i = with(r, m.codes.len().min(m.func_types.len()))?;
            for _ in 0..1 + r.below(3) {
                let (t, x) = (m.func_types[i], m.codes[i].clone());
                m.func_types.insert(i, t);
                m.codes.insert(i, x);
            }
            Some("functions")
        }
        17 => {
            let i = with(r, m.codes.len())?;
            list!(m.codes[i].locals, "groups of locals")
        }
        18 => {
            let i = with(r, m.codes.len())?;
            in_expr(r, &mut m.codes[i].body)
        }
        _ => {
            if let Some(i) = with(r, m.globals.len()) {
                return in_expr(r, &mut m.globals[i].init);
            }
            let i = with(r, m.elems.len())?;
            let k = with(r, m.elems[i].init.len())?;
            in_expr(r, &mut m.elems[i].init[k])
        }
    }
}
/// A well-formed module with many copies in it.
fn base(c: &mut Ctx) -> Option<Vec<u8>> {
    let p = match c.rng.below(4) {
        0 => Prof { items: 3, ins: 6, ..Prof::general() },
        1 => Prof { items: 5, ins: 4, ..Prof::only(&[FUNCTION, CODE, if c.rng.bool() { TYPE } else { DATA }]) },
        2 => Prof { items: 4, ins: 4, ..Prof::only(&[TYPE]) },
        _ => {
            let (a, b) = (*c.rng.pick(&ORDER), *c.rng.pick(&ORDER));
            Prof { items: 4, ins: 5, customs: 4, ..Prof::only(&[a, b]) }
        }
    };
    let mut plan = crate::gen_::module(&mut c.rng, &p);
    for _ in 0..1 + c.rng.below(4) {
        if let Some(n) = grow(&mut c.rng, &mut plan) {
            c.seen("lists with copies", n);
        }
    }
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let st = c.style();
    let b = enc::encode(&plan, &er, &st, vec![], false).bytes;
    match refdec::decode(&b) {
        (Ok(_), i) if i.locals_all < 100_000 && b.len() > 9 => Some(b),
        (Ok(_), _) => None,
        (Err(f), _) => {
            c.harness_error(format!("reference rejects a module with copies: {f:?}"));
            None
        }
    }
}
/// `b` with a byte or two changed, or two places exchanged, still well-formed.
fn twin(r: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    for _ in 0..12 {
        let mut x = b.to_vec();
        let at = |r: &mut Rng| 8 + r.usize(b.len() - 8);
        let i = at(r);
        match r.below(8) {
            0 => x[i] = x[i].wrapping_add(1),
            1 => x[i] = x[i].wrapping_sub(1),
            2 => x[i] ^= 1 << r.below(8),
            3 => x[i] = *r.pick(&[0x7F, 0x7E, 0x7D, 0x7C, 0x70, 0x6F, 0, 1]),
            4 => {
                // two places exchanged
                let j = if r.bool() { i + 1 + r.usize(4) } else { at(r) };
                if j < x.len() {
                    x.swap(i, j);
                }
            }
            5 => {
                // the same sum
                let j = if r.bool() { i + 1 + r.usize(4) } else { at(r) };
                if j < x.len() && j != i {
                    x[i] = x[i].wrapping_add(1);
                    x[j] = x[j].wrapping_sub(1);
                }
            }
            6 => {
                // two runs of bytes exchanged
                let n = 1 + r.usize(8);
                let j = i + n + r.usize(6);
                if j + n <= x.len() {
                    let (p, q) = x.split_at_mut(j);
                    p[i..i + n].swap_with_slice(&mut q[..n]);
                }
            }
            _ => x[i] = r.byte(),
        }
        if x != b {
            let (res, info) = refdec::decode(&x);
            if res.is_ok() && info.locals_all < 100_000 {
                return Some(x);
            }
        }
    }
    None
}
/// Modules in which items differ in little from their neighbours.
pub fn twins(c: &mut Ctx, _: u64) {
    let Some(b) = base(c) else { return };
    c.eval(&b);
    c.differential(&b);
    let mut x = b.clone();
    for _ in 0..8 {
        // differences add up, or there is one alone
        let from = if c.rng.bool() { &x } else { &b };
        let Some(y) = twin(&mut c.rng, from) else { continue };
        c.eval(&y);
        c.differential(&y);
        c.count("modules with near twins in them", 1);
        x = y;
    }
}
/// Families of modules that differ in one value.
pub fn families(c: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while v.len() < n {
        let Some(b) = base(c) else { continue };
        v.push(b.clone());
        for _ in 0..6 {
            v.extend(twin(&mut c.rng, &b));
        }
        // and one that is not well-formed
        let mut x = b.clone();
        crate::ph_diff::mutate(c, &mut x);
        if refdec::decode(&x).1.locals_all < 100_000 {
            v.push(x);
        }
    }
    v
}
