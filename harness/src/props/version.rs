use crate::core::*;
use crate::genv;
use crate::refv::*;
use proptest::prelude::*;
use rez_next_version::{Version, VersionRange};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn pv(s: &str) -> Result<Version, String> {
    Version::parse(s).map_err(|e| format!("well-formed version {s:?} rejected: {e}"))
}
fn hash(v: &Version) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// C01: ordering
pub fn c01(c: &mut Ctx) {
    c.rule("triples of version strings (up to 5 tokens, numbers up to 42 digits, related by small edits); non-trivial = at least two of the three differ as text and share their first token");
    c.assume("order rules as stated: numeric tokens by value, letters before numbers, missing trailing tokens are zero");
    c.check("order", 300_000, 3_000_000, || genv::related(3, true), |vs: &Vec<String>| {
        let p: Vec<Version> = vs.iter().map(|s| pv(s)).collect::<Result<_, _>>()?;
        let r: Vec<RV> = vs.iter().map(|s| RV::of(s)).collect();
        for i in 0..3 {
            for j in 0..3 {
                let (got, want) = (p[i].cmp(&p[j]), r[i].cmp(&r[j]));
                if got != want {
                    return Err(format!("{:?} vs {:?}: compared {got:?}, rules say {want:?}", vs[i], vs[j]));
                }
                if p[i].partial_cmp(&p[j]) != Some(want) {
                    return Err(format!("partial_cmp {:?} vs {:?} disagrees with cmp", vs[i], vs[j]));
                }
                if (p[i] == p[j]) != (want == Ordering::Equal) {
                    return Err(format!("{:?} == {:?} disagrees with ordering {want:?}", vs[i], vs[j]));
                }
                if (p[i] < p[j]) != (want == Ordering::Less) || (p[i] <= p[j]) != (want != Ordering::Greater) {
                    return Err(format!("operators on {:?} {:?} disagree with ordering {want:?}", vs[i], vs[j]));
                }
                if want == Ordering::Equal && hash(&p[i]) != hash(&p[j]) {
                    return Err(format!("equal versions {:?} and {:?} hash differently", vs[i], vs[j]));
                }
                for k in 0..3 {
                    if p[i] <= p[j] && p[j] <= p[k] && p[i] > p[k] {
                        return Err(format!("not transitive: {:?} <= {:?} <= {:?}", vs[i], vs[j], vs[k]));
                    }
                }
            }
        }
        let first = |s: &str| s.split(['.', '-', '+']).next().unwrap().to_string();
        let nt = (0..3).any(|i| (0..i).any(|j| vs[i] != vs[j] && first(&vs[i]) == first(&vs[j])));
        let anyeq = (0..3).any(|i| (0..i).any(|j| vs[i] != vs[j] && r[i].eq(&r[j])));
        Ok(Info::new(nt).label(anyeq, "equal-but-different-text").label(r.iter().any(|x| x.rank() != 1), "empty-or-inf"))
    });
    // sorting a list with the order gives one ascending permutation of it
    c.check("sort", 4_000, 100_000, || prop::collection::vec(genv::version_or_special(true), 0..40), |vs: &Vec<String>| {
        let mut p: Vec<Version> = vs.iter().map(|s| pv(s)).collect::<Result<_, _>>()?;
        p.sort();
        let mut a: Vec<String> = p.iter().map(|v| v.as_str().to_string()).collect();
        for w in a.windows(2) {
            if rcmp(&w[0], &w[1]) == Ordering::Greater {
                return Err(format!("sorted list has {:?} before {:?}", w[0], w[1]));
            }
        }
        let mut b: Vec<String> = vs.iter().map(|s| if s == "epsilon" { String::new() } else { s.clone() }).collect();
        a.sort();
        b.sort();
        if a != b {
            return Err("sorting is not a permutation".into());
        }
        Ok(Info::new(vs.len() > 3))
    });
}

/// C02: parsing of version text
pub fn c02(c: &mut Ctx) {
    c.rule("arbitrary text, corrupted versions and well-formed versions; non-trivial = the text is neither plainly numeric nor free of version characters");
    fn text() -> BoxedStrategy<String> {
        prop_oneof![
            4 => genv::version_or_special(true),
            3 => (genv::version(true), any::<prop::sample::Index>(), proptest::sample::select(vec![".", "-", "+", "_", "..", "v", " ", "\t", "é", "٣", "/", "*", "|", ",", "\0", "!", "0", "a", "V1", "\u{2003}", "~", "<", "::"]))
                .prop_map(|(v, i, ins)| { let mut k = i.index(v.len() + 1); while !v.is_char_boundary(k) { k -= 1; } let mut s = v.clone(); s.insert_str(k, ins); s }),
            2 => (genv::version(true), "[ \\t\\n]{0,2}", "[ \\t\\n]{0,2}").prop_map(|(v, a, b)| format!("{a}{v}{b}")),
            2 => "[a-z0-9_.+-]{0,16}",
            1 => any::<String>(),
            1 => "\\PC{0,12}",
            1 => prop::collection::vec(genv::tok(), 6..14).prop_map(|t| t.join(".")),
        ]
        .boxed()
    }
    c.check("text", 200_000, 2_000_000, text, |s: &String| {
        let w = well_formed(s);
        let got = Version::parse(s);
        match (&got, w) {
            (Err(e), Some(true)) => return Err(format!("well-formed {s:?} rejected: {e}")),
            (Ok(v), Some(false)) => return Err(format!("malformed {s:?} accepted as {v:?}")),
            _ => {}
        }
        if let Ok(v) = &got {
            let t = s.trim();
            let t = if t == "epsilon" { "" } else { t };
            if v.as_str() != t || v.to_string() != t {
                return Err(format!("{s:?} prints as {:?}", v.as_str()));
            }
            let v2 = Version::parse(&v.to_string()).map_err(|e| format!("printed text of {s:?} does not parse: {e}"))?;
            if v2 != *v || hash(&v2) != hash(v) || v2.as_str() != v.as_str() {
                return Err(format!("{s:?} changes when printed and parsed again"));
            }
            let j = serde_json::to_string(v).map_err(|e| e.to_string())?;
            let v3: Version = serde_json::from_str(&j).map_err(|e| format!("serialized {s:?} does not load: {e}"))?;
            if v3 != *v || v3.as_str() != v.as_str() {
                return Err(format!("{s:?} changes when serialized and loaded"));
            }
            let v4 = v.clone();
            if v4 != *v || v4.as_str() != v.as_str() {
                return Err(format!("clone of {s:?} differs"));
            }
            if w == Some(true) {
                let r = RV::of(s);
                if v.len() != r.toks().len() || v.is_empty() != (r.rank() == 0) || v.is_inf() != (r.rank() == 2) {
                    return Err(format!("{s:?}: wrong component count {} / emptiness", v.len()));
                }
                let num = |i: usize| t.split(['.', '-', '+']).nth(i).and_then(|x| x.parse::<u64>().ok()).filter(|_| r.rank() == 1);
                if v.major() != num(0) || v.minor() != num(1) || v.patch() != num(2) {
                    return Err(format!("{s:?}: components {:?} {:?} {:?}", v.major(), v.minor(), v.patch()));
                }
            }
        }
        Ok(Info::new(s.chars().any(|c| !c.is_ascii_digit() && c != '.') && s.chars().any(|c| c.is_ascii_alphanumeric()))
            .label(got.is_ok(), "accepted")
            .label(got.is_err(), "rejected")
            .label(w == Some(false), "malformed"))
    });
}

// ---------------------------------------------------------------- ranges

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum B {
    Ge(String),
    Gt(String),
    Le(String),
    Lt(String),
    Eq(String),
    Bare(String),
    Ne(String),
    Compat(String),
    Star,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Conj {
    Any(String),
    Nothing(String),
    /// bounds with the separator printed before each but the first
    Bounds(Vec<(B, String)>),
    Plus(String),
    PlusLt(String, String),
    Interval(String, String),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Rng(pub Vec<Conj>);

impl B {
    pub fn text(&self) -> String {
        match self {
            B::Ge(v) => format!(">={v}"),
            B::Gt(v) => format!(">{v}"),
            B::Le(v) => format!("<={v}"),
            B::Lt(v) => format!("<{v}"),
            B::Eq(v) => format!("=={v}"),
            B::Bare(v) => v.clone(),
            B::Ne(v) => format!("!={v}"),
            B::Compat(v) => format!("~={v}"),
            B::Star => "*".into(),
        }
    }
    pub fn has(&self, v: &RV) -> bool {
        match self {
            B::Ge(b) => RV::of(b).le(v),
            B::Gt(b) => RV::of(b).lt(v),
            B::Le(b) => v.le(&RV::of(b)),
            B::Lt(b) => v.lt(&RV::of(b)),
            B::Eq(b) | B::Bare(b) => v.eq(&RV::of(b)),
            B::Ne(b) => !v.eq(&RV::of(b)),
            B::Star => true,
            B::Compat(b) => {
                // ~=X.Y is >=X.Y,<(X+1).0 ; ~=X.Y.Z is >=X.Y.Z,<X.(Y+1).0 ; ~=X is >=X
                if !RV::of(b).le(v) {
                    return false;
                }
                let p: Vec<&str> = b.split('.').collect();
                let up = match p.len() {
                    1 => return true,
                    2 => p[0].parse::<u64>().ok().map(|x| format!("{}.0", x + 1)),
                    _ => p[1].parse::<u64>().ok().map(|y| format!("{}.{}.0", p[0], y + 1)),
                };
                up.is_none_or(|u| v.lt(&RV::of(&u)))
            }
        }
    }
}
impl Conj {
    pub fn text(&self) -> String {
        match self {
            Conj::Any(s) | Conj::Nothing(s) => s.clone(),
            Conj::Bounds(bs) => {
                let mut s = String::new();
                for (i, (b, sep)) in bs.iter().enumerate() {
                    if i > 0 {
                        // a bare version can only follow a comma
                        s.push_str(if matches!(b, B::Bare(_) | B::Star) { "," } else { sep });
                    }
                    s.push_str(&b.text());
                }
                s
            }
            Conj::Plus(v) => format!("{v}+"),
            Conj::PlusLt(v, w) => format!("{v}+<{w}"),
            Conj::Interval(a, b) => format!("{a}..{b}"),
        }
    }
    pub fn has(&self, v: &RV) -> bool {
        match self {
            Conj::Any(_) => true,
            Conj::Nothing(_) => false,
            Conj::Bounds(bs) => bs.iter().all(|(b, _)| b.has(v)),
            Conj::Plus(a) => RV::of(a).le(v),
            Conj::PlusLt(a, b) | Conj::Interval(a, b) => RV::of(a).le(v) && v.lt(&RV::of(b)),
        }
    }
}
impl Rng {
    pub fn text(&self) -> String {
        self.0.iter().map(|c| c.text()).collect::<Vec<_>>().join("|")
    }
    pub fn has(&self, v: &RV) -> bool {
        self.0.iter().any(|c| c.has(v))
    }
    pub fn mentioned(&self) -> Vec<String> {
        let mut m = vec![];
        for c in &self.0 {
            match c {
                Conj::Bounds(bs) => {
                    for (b, _) in bs {
                        match b {
                            B::Ge(v) | B::Gt(v) | B::Le(v) | B::Lt(v) | B::Eq(v) | B::Bare(v) | B::Ne(v) => m.push(v.clone()),
                            B::Compat(v) => {
                                m.push(v.clone());
                                let p: Vec<&str> = v.split('.').collect();
                                match p.len() {
                                    1 => {}
                                    2 => m.extend(p[0].parse::<u64>().ok().map(|x| format!("{}.0", x + 1))),
                                    _ => m.extend(p[1].parse::<u64>().ok().map(|y| format!("{}.{}.0", p[0], y + 1))),
                                }
                            }
                            B::Star => {}
                        }
                    }
                }
                Conj::Plus(a) => m.push(a.clone()),
                Conj::PlusLt(a, b) | Conj::Interval(a, b) => m.extend([a.clone(), b.clone()]),
                _ => {}
            }
        }
        m
    }
}

/// versions used inside ranges: no '+', at most 4 tokens so neighbours can be spelled
fn rv() -> BoxedStrategy<String> {
    prop_oneof![
        6 => genv::simple(),
        3 => prop::collection::vec(genv::tok(), 1..=3).prop_map(|t| {
            let s = t.join(".");
            if s.starts_with(['v', 'V']) || s == "inf" || s == "epsilon" { format!("1{s}") } else { s }
        }),
    ]
    .prop_map(|s| if s.split('.').any(|t| t.parse::<u64>() == Ok(u64::MAX)) { "1.0".into() } else { s })
    .boxed()
}
fn bound() -> BoxedStrategy<B> {
    let v = rv;
    prop_oneof![
        4 => v().prop_map(B::Ge),
        3 => v().prop_map(B::Gt),
        3 => v().prop_map(B::Le),
        4 => v().prop_map(B::Lt),
        2 => v().prop_map(B::Eq),
        2 => v().prop_map(B::Bare),
        3 => v().prop_map(B::Ne),
        3 => v().prop_map(B::Compat),
        1 => Just(B::Star),
    ]
    .boxed()
}
fn conj() -> BoxedStrategy<Conj> {
    let sep = || proptest::sample::select(vec![",", ",", " ", ", ", " , ", "  "]).prop_map(str::to_string);
    prop_oneof![
        1 => proptest::sample::select(vec!["", "*"]).prop_map(|s| Conj::Any(s.into())),
        1 => proptest::sample::select(vec!["empty", "!*"]).prop_map(|s| Conj::Nothing(s.into())),
        10 => prop::collection::vec((bound(), sep()), 1..=4).prop_map(Conj::Bounds),
        2 => rv().prop_map(Conj::Plus),
        2 => (rv(), rv()).prop_map(|(a, b)| Conj::PlusLt(a, b)),
        2 => (rv(), rv()).prop_map(|(a, b)| Conj::Interval(a, b)),
    ]
    .boxed()
}
pub fn range() -> BoxedStrategy<Rng> {
    prop_oneof![4 => prop::collection::vec(conj(), 1..=1), 4 => prop::collection::vec(conj(), 2..=3)].prop_map(Rng).boxed()
}

/// Probe versions around everything the ranges mention: themselves, just below, just above.
pub fn probes(rs: &[&Rng], extra: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), "inf".into(), "0".into(), "A".into(), "999999".into()];
    out.extend(extra.iter().cloned());
    for r in rs {
        for m in r.mentioned() {
            let n = m.split(['.', '-', '+']).count();
            let pad = ".0".repeat(4usize.saturating_sub(n));
            let nums = m.split(['.', '-', '+']).filter(|t| t.chars().all(|c| c.is_ascii_digit())).count() + 4usize.saturating_sub(n);
            if nums <= 5 {
                out.push(format!("{m}{pad}.A"));
                out.push(format!("{m}{pad}.0a"));
            }
            out.push(format!("{m}.1"));
            out.push(format!("{m}.0"));
            out.push(m);
        }
    }
    out.retain(|s| Version::parse(s).is_ok());
    out
}
pub fn prange(r: &Rng) -> Result<VersionRange, String> {
    VersionRange::parse(&r.text()).map_err(|e| format!("range {:?} rejected: {e}", r.text()))
}

/// C03: membership
pub fn c03(c: &mut Ctx) {
    c.rule("range expressions from the documented grammar with up to 3 alternatives of up to 4 bounds, probed at, just below and just above every mentioned version and at random versions; non-trivial = some probe is inside and some probe is outside");
    c.check("membership", 30_000, 1_000_000, || (range(), prop::collection::vec(genv::version_or_special(true), 0..4)), |(r, ex): &(Rng, Vec<String>)| {
        let vr = prange(r)?;
        let (mut ins, mut outs) = (0, 0);
        let ps = probes(&[r], ex);
        for p in &ps {
            let want = r.has(&RV::of(p));
            let got = vr.contains(&pv(p)?);
            if got != want {
                return Err(format!("range {:?} contains {p:?}: got {got}, bounds say {want}", r.text()));
            }
            if want { ins += 1 } else { outs += 1 }
        }
        if vr.as_str() != r.text() {
            return Err(format!("range text {:?} became {:?}", r.text(), vr.as_str()));
        }
        let back = VersionRange::parse(vr.as_str()).map_err(|e| format!("text of {:?} does not parse: {e}", r.text()))?;
        let j = serde_json::to_string(&vr).map_err(|e| e.to_string())?;
        let loaded: VersionRange = serde_json::from_str(&j).map_err(|e| format!("serialized {:?} does not load: {e}", r.text()))?;
        for p in &ps {
            let v = pv(p)?;
            let want = vr.contains(&v);
            if back.contains(&v) != want || loaded.contains(&v) != want {
                return Err(format!("range {:?} changes its answer for {p:?} after a text or serialization round trip", r.text()));
            }
        }
        Ok(Info::new(ins > 0 && outs > 0).label(r.0.len() > 1, "union").label(ins == 0, "empty-on-probes"))
    });
    c.check("garbage", 20_000, 500_000, || {
        prop_oneof!["[0-9a-z.,<>=!~+|* -]{0,20}".boxed(), any::<String>().boxed(),
            (range(), any::<prop::sample::Index>(), "[<>=!~|,.+*a0 ]{1,2}").prop_map(|(r, i, ins)| { let mut s = r.text(); let k = i.index(s.len() + 1); s.insert_str(k, &ins); s }).boxed()]
    }, |s: &String| {
        // any text is parsed or rejected, never a crash; an accepted range answers for every version
        if let Ok(r) = VersionRange::parse(s) {
            for p in ["", "inf", "0", "1.0", "1.0.alpha", "99"] {
                let _ = r.contains(&pv(p)?);
            }
            let _ = (r.is_any(), r.is_empty(), r.intersects(&r));
            return Ok(Info::new(s.len() > 2).label(true, "accepted"));
        }
        Ok(Info::new(s.len() > 2).label(true, "rejected"))
    });
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Op {
    Union(u8),
    Intersect(u8),
    Subtract(u8),
}

/// C04: set algebra
pub fn c04(c: &mut Ctx) {
    c.rule("pairs of ranges plus chains of up to 4 union/intersection/difference steps over 3 ranges, judged by membership at every mentioned version and in every gap between them; non-trivial = both ranges (or the chain result) contain some probe and exclude some probe");
    c.check("pair", 25_000, 800_000, || (range(), range()), |(a, b): &(Rng, Rng)| {
        let (ra, rb) = (prange(a)?, prange(b)?);
        let ps = probes(&[a, b], &[]);
        let inter = ra.intersect(&rb);
        let uni = ra.union(&rb);
        let sub = ra.subtract(&rb);
        let (mut both, mut only_a, mut in_a, mut out_a, mut in_b, mut out_b) = (false, false, 0, 0, 0, 0);
        for p in &ps {
            let rv = RV::of(p);
            let v = pv(p)?;
            let (x, y) = (a.has(&rv), b.has(&rv));
            if x { in_a += 1 } else { out_a += 1 }
            if y { in_b += 1 } else { out_b += 1 }
            both |= x && y;
            only_a |= x && !y;
            let t = (a.text(), b.text());
            if inter.as_ref().is_some_and(|r| r.contains(&v)) != (x && y) {
                return Err(format!("{p:?} in intersection of {t:?}: should be {}", x && y));
            }
            if uni.contains(&v) != (x || y) {
                return Err(format!("{p:?} in union of {t:?}: should be {}", x || y));
            }
            if sub.as_ref().is_some_and(|r| r.contains(&v)) != (x && !y) {
                return Err(format!("{p:?} in difference of {t:?}: should be {}", x && !y));
            }
            if ra.is_any() && !x || ra.is_empty() && x {
                return Err(format!("{:?}: any/empty answer contradicts membership of {p:?}", a.text()));
            }
        }
        let t = (a.text(), b.text());
        if inter.is_some() != both || ra.intersects(&rb) != both || rb.intersects(&ra) != both {
            return Err(format!("{t:?}: overlap reported {} / {} but a common version exists: {both}", ra.intersects(&rb), inter.is_some()));
        }
        if sub.is_some() != only_a {
            return Err(format!("{t:?}: difference is {:?} but a version only in the first exists: {only_a}", sub.map(|r| r.range_str)));
        }
        if ra.is_subset_of(&rb) == only_a || rb.is_superset_of(&ra) == only_a {
            return Err(format!("{t:?}: subset reported {} but a version only in the first exists: {only_a}", ra.is_subset_of(&rb)));
        }
        Ok(Info::new(in_a > 0 && out_a > 0 && in_b > 0 && out_b > 0).label(both, "overlap").label(!only_a, "subset").label(!both, "disjoint"))
    });
    let op = || prop_oneof![(0u8..3).prop_map(Op::Union), (0u8..3).prop_map(Op::Intersect), (0u8..3).prop_map(Op::Subtract)];
    c.check("chain", 15_000, 400_000, move || (prop::collection::vec(range(), 3), prop::collection::vec(op(), 1..=4)), |(rs, ops): &(Vec<Rng>, Vec<Op>)| {
        let parsed: Vec<VersionRange> = rs.iter().map(prange).collect::<Result<_, _>>()?;
        let ps = probes(&rs.iter().collect::<Vec<_>>(), &[]);
        let rvs: Vec<RV> = ps.iter().map(|p| RV::of(p)).collect();
        let mut model: Vec<bool> = rvs.iter().map(|v| rs[0].has(v)).collect();
        let mut cur = Some(parsed[0].clone());
        for (k, o) in ops.iter().enumerate() {
            let (i, f): (usize, fn(bool, bool) -> bool) = match o {
                Op::Union(i) => (*i as usize, |x, y| x || y),
                Op::Intersect(i) => (*i as usize, |x, y| x && y),
                Op::Subtract(i) => (*i as usize, |x, y| x && !y),
            };
            for (n, v) in rvs.iter().enumerate() {
                model[n] = f(model[n], rs[i].has(v));
            }
            let base = cur.unwrap_or_else(VersionRange::none);
            cur = match o {
                Op::Union(_) => Some(base.union(&parsed[i])),
                Op::Intersect(_) => base.intersect(&parsed[i]),
                Op::Subtract(_) => base.subtract(&parsed[i]),
            };
            for (n, p) in ps.iter().enumerate() {
                let got = cur.as_ref().is_some_and(|r| r.contains(&pv(p).unwrap()));
                if got != model[n] {
                    return Err(format!("after step {k} of {ops:?} on {:?}: {p:?} is {got}, should be {}", rs.iter().map(|r| r.text()).collect::<Vec<_>>(), model[n]));
                }
            }
        }
        // the text of a computed range denotes the same set
        if let Some(r) = &cur {
            let back = VersionRange::parse(r.as_str()).map_err(|e| format!("text {:?} of a computed range does not parse: {e}", r.as_str()))?;
            for (n, p) in ps.iter().enumerate() {
                if back.contains(&pv(p)?) != model[n] {
                    return Err(format!("computed range prints as {:?}, which answers differently for {p:?}", r.as_str()));
                }
            }
        }
        Ok(Info::new(model.iter().any(|x| *x) && model.iter().any(|x| !*x)).label(cur.is_none(), "became-empty"))
    });
}
