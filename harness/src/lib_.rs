//! Building blocks shared by the phases: module fragments, role library.
use crate::enc::{self, Class, Style, Tok};
use crate::gen_::{self, Plan, Prof};
use crate::model::*;
use crate::util::{Rng, leb_u};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const PRE: &[u8] = b"\0asm\x01\0\0\0";
pub const MIN: Style = Style { pad: 0, long: 0 };

pub fn sec(id: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(leb_u(content.len() as u64, 0));
    v.extend_from_slice(content);
    v
}
pub fn module(secs: &[Vec<u8>]) -> Vec<u8> {
    let mut v = PRE.to_vec();
    for s in secs {
        v.extend_from_slice(s);
    }
    v
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Places in which an expression (with its end byte) may stand.
pub const EXPR_CTX: [&str; 10] =
    ["body", "global", "table", "elem offset", "elem item", "data offset", "block", "if", "else", "try_table"];
/// A module holding `e` (encoded, end byte included) in the given place.
/// A data count section makes data indices permitted.
pub fn wrap_expr(ctx: usize, e: &[u8]) -> Vec<u8> {
    let body = |inner: &[u8]| {
        let b = cat(&[&[0], inner]);
        module(&[
            sec(TYPE, &[1, 0x60, 0, 0]),
            sec(FUNCTION, &[1, 0]),
            sec(DATACOUNT, &[0]),
            sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b])),
        ])
    };
    match EXPR_CTX[ctx] {
        "body" => body(e),
        "global" => module(&[sec(GLOBAL, &cat(&[&[1, 0x7F, 0], e]))]),
        "table" => module(&[sec(TABLE, &cat(&[&[1, 0x40, 0, 0x70, 0, 1], e]))]),
        "elem offset" => module(&[sec(ELEMENT, &cat(&[&[1, 0], e, &[0]]))]),
        "elem item" => module(&[sec(ELEMENT, &cat(&[&[1, 5, 0x70, 1], e]))]),
        "data offset" => module(&[sec(DATA, &cat(&[&[1, 0], e, &[0]]))]),
        "block" => body(&cat(&[&[0x02, 0x40], e, &[0x0B]])),
        "if" => body(&cat(&[&[0x01, 0x04, 0x40], e, &[0x1A, 0x0B]])),
        "else" => body(&cat(&[&[0x04, 0x40, 0x01, 0x05], e, &[0x0B]])),
        "try_table" => body(&cat(&[&[0x1F, 0x40, 1, 2, 0], e, &[0x0B]])),
        _ => unreachable!(),
    }
}

/// A generated module with one of its tokens singled out.
pub struct Spot {
    pub plan: Plan,
    pub er: Rng,
    pub st: Style,
    pub tok: usize,
    pub t: Tok,
}
impl Spot {
    pub fn with(&self, bytes: Vec<u8>) -> Vec<u8> {
        enc::encode(&self.plan, &self.er, &self.st, vec![(self.tok, bytes)], false).bytes
    }
}
/// For every role, a few small modules in which a token has that role.
pub fn spots() -> &'static BTreeMap<&'static str, Vec<Spot>> {
    static S: OnceLock<BTreeMap<&'static str, Vec<Spot>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut best: BTreeMap<&'static str, Vec<(usize, Spot)>> = BTreeMap::new();
        for i in 0..6000u64 {
            let mut r = Rng::new(0x5107, "spots", i);
            let p = Prof { secs: [2 + (i % 9) as u8; 14], items: 2, ins: 3, depth: 2, customs: 1, bytes: 3, ops: &[], locals_max: 3 };
            let plan = gen_::module(&mut r, &p);
            let st = Style { pad: 0, long: r.below(2) * 8 };
            let er = Rng::new(i, "spots-enc", 0);
            let e = enc::encode(&plan, &er, &st, vec![], true);
            let mut seen: Vec<&'static str> = vec![];
            for (k, t) in e.toks.iter().enumerate() {
                // one position per role and module, not always the first
                if seen.contains(&t.role) && !r.chance(1, 4) {
                    continue;
                }
                seen.push(t.role);
                let v = best.entry(t.role).or_default();
                if v.len() < 6 || v.last().is_some_and(|x| x.0 > e.bytes.len()) {
                    v.push((e.bytes.len(), Spot { plan: plan.clone(), er: er.clone(), st: st.clone(), tok: k, t: *t }));
                    v.sort_by_key(|x| x.0);
                    v.truncate(6);
                }
            }
        }
        best.into_iter().map(|(k, v)| (k, v.into_iter().map(|x| x.1).collect())).collect()
    })
}
/// Spots of one class, as (role, number within role), in a fixed order.
pub fn spots_of(pick: impl Fn(Class) -> bool) -> Vec<&'static Spot> {
    let mut v = vec![];
    for s in spots().values() {
        v.extend(s.iter().filter(|s| pick(s.t.class)));
    }
    v
}
pub fn int_spots() -> &'static Vec<&'static Spot> {
    static S: OnceLock<Vec<&'static Spot>> = OnceLock::new();
    S.get_or_init(|| spots_of(|c| matches!(c, Class::U(_) | Class::S(_))))
}
pub fn byte_spots() -> &'static Vec<&'static Spot> {
    static S: OnceLock<Vec<&'static Spot>> = OnceLock::new();
    S.get_or_init(|| spots_of(|c| c == Class::Byte))
}

/// Byte ranges of the sections of a module the reference accepts.
pub fn ranges(m: &Module, ends: &[usize]) -> Vec<(u8, usize, usize)> {
    let mut v = vec![];
    for (h, &e) in m.headers.iter().zip(ends) {
        v.push((h.0, e - h.1 as usize, e));
    }
    v
}
/// Rebuilds a module from (id, content) pairs.
pub fn rebuild(secs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    module(&secs.iter().map(|s| sec(s.0, &s.1)).collect::<Vec<_>>())
}
pub fn parts(b: &[u8], r: &[(u8, usize, usize)]) -> Vec<(u8, Vec<u8>)> {
    r.iter().map(|&(k, s, e)| (k, b[s..e].to_vec())).collect()
}
