//! C20: package filters and package orders.
use super::envs::same;
use super::version::{pv, range, Rng};
use crate::core::*;
use crate::genr::{spec, Spec};
use crate::genv;
use crate::refv::RV;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::filter as fa;
use rez_next_package::package_order as po;
use rez_next_package::Package;
use rez_next_package_filter as fb;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Pkg {
    name: String,
    version: Option<String>,
    desc: Option<String>,
    time: Option<i64>,
}
fn names() -> Vec<&'static str> {
    vec!["maya", "may", "maya.beta", "b_1", "MAYA", "[ab]", "a\\d"]
}
fn pkg() -> BoxedStrategy<Pkg> {
    (
        select(names()).prop_map(str::to_string),
        prop::option::weighted(0.9, genv::simple()),
        prop::option::of(select(vec!["", "maya\nbeta", "beta", "a.b", "aab"]).prop_map(str::to_string)),
        prop::option::weighted(0.8, time()),
    )
        .prop_map(|(name, version, desc, time)| Pkg { name, version, desc, time })
        .boxed()
}
fn time() -> BoxedStrategy<i64> {
    prop_oneof![8 => -2i64..6, 1 => select(vec![1_700_000_000i64, 1_700_000_001, i64::MAX, -86_400])].boxed()
}
impl Pkg {
    fn real(&self) -> Package {
        Package {
            name: self.name.clone(),
            version: self.version.as_ref().map(|v| pv(v).unwrap()),
            description: self.desc.clone(),
            timestamp: self.time,
            ..Default::default()
        }
    }
    fn field(&self, f: u8) -> Option<String> {
        match f {
            1 => self.version.clone(),
            2 => Some(self.desc.clone().unwrap_or_default()),
            _ => Some(self.name.clone()),
        }
    }
}
/// pieces of a pattern, written as a glob or as a regular expression
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Piece {
    Lit(char),
    Any,
    Many,
    Set(String, bool),
}
fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        8 => select("maybet.1_[]\\d0(+A-2\n".chars().collect::<Vec<_>>()).prop_map(Piece::Lit),
        2 => Just(Piece::Any),
        3 => Just(Piece::Many),
        1 => (select(vec!["ab", "may", "01", "b."]).prop_map(str::to_string), any::<bool>()).prop_map(|(s, n)| Piece::Set(s, n)),
    ]
    .boxed()
}
fn is_match(p: &[Piece], t: &[char], nl: bool) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some(Piece::Many) => is_match(&p[1..], t, nl) || (!t.is_empty() && (nl || t[0] != '\n') && is_match(p, &t[1..], nl)),
        Some(x) => {
            !t.is_empty()
                && match x {
                    Piece::Lit(c) => t[0] == *c,
                    Piece::Any => nl || t[0] != '\n',
                    Piece::Set(s, neg) => s.contains(t[0]) != *neg,
                    Piece::Many => unreachable!(),
                }
                && is_match(&p[1..], &t[1..], nl)
        }
    }
}
fn glob_has(p: &[Piece], t: &str) -> bool {
    is_match(p, &t.chars().collect::<Vec<_>>(), true)
}
fn regex_has(p: &[Piece], anchored: bool, t: &str) -> bool {
    let t: Vec<char> = t.chars().collect();
    if anchored {
        return is_match(p, &t, false);
    }
    (0..=t.len()).any(|i| (i..=t.len()).any(|j| is_match(p, &t[i..j], false)))
}
fn set_text(s: &str, neg: bool, sign: char) -> String {
    if neg { format!("[{sign}{s}]") } else { format!("[{s}]") }
}
fn regex_text(p: &[Piece], anchored: bool) -> String {
    let b: String = p
        .iter()
        .map(|x| match x {
            Piece::Lit('\n') => "\\n".into(),
            Piece::Lit(c) if c.is_alphanumeric() || *c == '_' => c.to_string(),
            Piece::Lit(c) => format!("\\{c}"),
            Piece::Any => ".".into(),
            Piece::Many => ".*".into(),
            Piece::Set(s, n) => set_text(s, *n, '^'),
        })
        .collect();
    if anchored { format!("^{b}$") } else { b }
}
/// plain: brackets mean themselves
fn glob_text(p: &[Piece], plain: bool) -> String {
    p.iter()
        .map(|x| match x {
            Piece::Lit('[') if !plain => "[[]".into(),
            Piece::Lit(']') if !plain => "[]]".into(),
            Piece::Lit(c) => c.to_string(),
            Piece::Any => "?".into(),
            Piece::Many => "*".into(),
            Piece::Set(s, n) => set_text(s, *n, '!'),
        })
        .collect()
}
/// a pattern that may well match the name
fn pattern() -> BoxedStrategy<Vec<Piece>> {
    let edit = |(n, es): (String, Vec<(usize, Option<Piece>)>)| {
        let mut v: Vec<Piece> = n.chars().map(Piece::Lit).collect();
        for (i, e) in es {
            if v.is_empty() {
                break;
            }
            let i = i % v.len();
            match e {
                Some(p) => v[i] = p,
                None => {
                    v.truncate(i);
                    v.push(Piece::Many);
                }
            }
        }
        // neighbouring stars mean the same as one, and a glob crate calls them special
        v.dedup_by(|a, b| *a == Piece::Many && *b == Piece::Many);
        v
    };
    prop_oneof![
        5 => (prop_oneof![select(names()).prop_map(str::to_string), genv::simple()], prop::collection::vec((0usize..10, prop::option::weighted(0.7, piece())), 0..4)).prop_map(edit),
        1 => prop::collection::vec(piece(), 1..6).prop_map(move |v| { let mut v = v; v.dedup_by(|a, b| *a == Piece::Many && *b == Piece::Many); v }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum RB {
    Glob(u8, Vec<Piece>, bool),
    Regex(u8, Vec<Piece>, bool),
    Range(Option<String>, Rng, bool),
    Time(bool, i64),
}
fn rb() -> BoxedStrategy<RB> {
    let plain = || pattern().prop_map(|p| p.into_iter().map(|x| if let Piece::Set(..) = x { Piece::Any } else { x }).collect::<Vec<_>>());
    prop_oneof![
        4 => (0u8..4, plain(), any::<bool>()).prop_map(|(f, mut p, b)| {
            p.dedup_by(|a, b| *a == Piece::Many && *b == Piece::Many);
            if p.is_empty() { p.push(Piece::Many) }
            RB::Glob(f, p, b)
        }),
        3 => (select(vec![0u8, 2, 3]), pattern(), any::<bool>()).prop_map(|(f, p, a)| RB::Regex(f, p, a)),
        4 => (prop::option::of(select(vec!["maya", "may", "maya.beta", "b_1"]).prop_map(str::to_string)), range(), any::<bool>()).prop_map(|(f, r, b)| RB::Range(f, r, b)),
        2 => (any::<bool>(), time().prop_map(|t| t.max(0))).prop_map(|(b, t)| RB::Time(b, t)),
    ]
    .boxed()
}
impl RB {
    /// field 3: not written, meaning the name
    fn text(&self) -> String {
        let f = |f: &u8| ["name:", "version:", "description:", ""][*f as usize];
        match self {
            RB::Glob(k, p, bare) => {
                let t = glob_text(p, true);
                let star = t.contains(['*', '?']);
                if *bare && *k == 3 && star && !["glob(", "regex(", "range(", "before(", "after("].iter().any(|x| t.starts_with(x)) { t } else { format!("glob({}{t})", f(k)) }
            }
            RB::Regex(k, p, a) => format!("regex({}{})", f(k), regex_text(p, *a)),
            RB::Range(fam, r, bare) => {
                let t = fam.iter().map(|f| format!("{f}-")).collect::<String>() + &r.text();
                if *bare && !t.contains(['*', '?']) { t } else { format!("range({t})") }
            }
            RB::Time(b, t) => format!("{}({t})", if *b { "before" } else { "after" }),
        }
    }
    /// no family is meant but one would be read, as documented
    fn ambiguous(&self) -> bool {
        match self {
            RB::Range(None, r, _) => {
                let t = r.text();
                t.contains('-') && !t.starts_with(|c: char| c.is_ascii_digit() || "<>=!~".contains(c))
            }
            _ => false,
        }
    }
    fn has(&self, p: &Pkg) -> bool {
        match self {
            RB::Glob(f, g, _) => p.field(*f).is_some_and(|t| glob_has(g, &t)),
            RB::Regex(f, g, a) => p.field(*f).is_some_and(|t| regex_has(g, *a, &t)),
            RB::Range(f, r, _) => f.as_ref().is_none_or(|f| *f == p.name) && p.version.as_ref().is_some_and(|v| r.has(&RV::of(v))),
            RB::Time(b, t) => p.time.is_some_and(|x| if *b { x < *t } else { x > *t }),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum RA {
    Glob(Vec<Piece>, bool),
    Regex(Vec<Piece>, bool),
    Range(String, Spec),
    Time(bool, bool, i64),
}
fn ra() -> BoxedStrategy<RA> {
    prop_oneof![
        4 => (pattern(), any::<bool>()).prop_map(|(p, b)| RA::Glob(p, b)),
        3 => (pattern(), any::<bool>()).prop_map(|(p, a)| RA::Regex(p, a)),
        4 => (select(vec!["maya", "may", "b_1"]).prop_map(str::to_string), spec(genv::simple)).prop_map(|(n, s)| RA::Range(n, s)),
        3 => (any::<bool>(), any::<bool>(), time()).prop_map(|(b, i, t)| RA::Time(b, i, t)),
    ]
    .boxed()
}
impl RA {
    fn has(&self, p: &Pkg) -> Option<bool> {
        Some(match self {
            RA::Glob(g, _) => glob_has(g, &p.name),
            RA::Regex(g, a) => regex_has(g, *a, &p.name),
            RA::Range(n, s) => {
                *n == p.name
                    && match &p.version {
                        Some(v) => s.has(v)?,
                        None if *s == Spec::Star => return None,
                        None => s.text().is_empty(),
                    }
            }
            RA::Time(b, i, t) => p.time.is_some_and(|x| (*i && x == *t) || if *b { x < *t } else { x > *t }),
        })
    }
    fn rule(&self) -> Result<Box<dyn fa::Rule + Send + Sync>, String> {
        let text = |t: String| fa::parse_rule(&t).ok_or(format!("rule {t:?} rejected"));
        match self {
            RA::Glob(p, bare) => {
                let t = glob_text(p, false);
                let t2 = t.trim() == t && t.contains(['*', '?']) && *bare && !["glob(", "regex(", "range(", "timestamp("].iter().any(|x| t.starts_with(x));
                text(if t2 { t } else { format!("glob({t})") })
            }
            RA::Regex(p, a) => text(format!("regex({})", regex_text(p, *a))),
            RA::Range(n, s) => text(format!("range({n}{})", s.text())),
            RA::Time(b, i, t) => Ok(Box::new(match (b, i) {
                (true, false) => fa::TimestampRule::before(*t),
                (false, false) => fa::TimestampRule::after(*t),
                (true, true) => fa::TimestampRule::at_or_before(*t),
                (false, true) => fa::TimestampRule::at_or_after(*t),
            })),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Od {
    Null(Option<Vec<String>>),
    Sorted(bool, Option<Vec<String>>),
    Split(String, Option<Vec<String>>),
    Stamp(i64, i32, Option<Vec<String>>),
    Per(BTreeMap<String, Od>, Option<Box<Od>>),
}
fn od() -> BoxedStrategy<Od> {
    let fams = || prop::option::of(prop::collection::vec(select(names()).prop_map(str::to_string), 0..3));
    let leaf = prop_oneof![
        1 => fams().prop_map(Od::Null),
        3 => (any::<bool>(), fams()).prop_map(|(d, f)| Od::Sorted(d, f)),
        3 => (genv::simple(), fams()).prop_map(|(v, f)| Od::Split(v, f)),
        3 => (time(), -2i32..4, fams()).prop_map(|(t, r, f)| Od::Stamp(t, r, f)),
    ];
    leaf.prop_recursive(2, 6, 3, |i| {
        (prop::collection::btree_map(select(names()).prop_map(str::to_string), i.clone(), 0..4), prop::option::of(i)).prop_map(|(m, d)| Od::Per(m, d.map(Box::new)))
    })
    .boxed()
}
impl Od {
    fn real(&self) -> Box<dyn po::PackageOrder> {
        match self {
            Od::Null(f) => Box::new(po::NullPackageOrder::new(f.clone())),
            Od::Sorted(d, f) => Box::new(po::SortedOrder::new(*d, f.clone())),
            Od::Split(v, f) => Box::new(po::VersionSplitPackageOrder::new(pv(v).unwrap(), f.clone())),
            Od::Stamp(t, r, f) => Box::new(po::TimestampPackageOrder::new(*t, *r, f.clone())),
            Od::Per(m, d) => Box::new(po::PerFamilyOrder::new(m.iter().map(|(k, o)| (k.clone(), o.real())).collect(), d.as_ref().map(|o| o.real()))),
        }
    }
    fn applies(&self, n: &str) -> bool {
        match self {
            Od::Null(f) | Od::Sorted(_, f) | Od::Split(_, f) | Od::Stamp(_, _, f) => f.as_ref().is_none_or(|f| f.iter().any(|x| x == n)),
            Od::Per(..) => true,
        }
    }
    fn order(&self, ps: &[Pkg]) -> Option<Vec<Pkg>> {
        let mut out = ps.to_vec();
        let cmp = |a: &Option<String>, b: &Option<String>| match (a, b) {
            (Some(a), Some(b)) => RV::of(a).cmp(&RV::of(b)),
            _ => a.is_none().cmp(&b.is_none()),
        };
        match self {
            Od::Null(_) => return None,
            Od::Sorted(d, _) => out.sort_by(|a, b| if *d && a.version.is_some() && b.version.is_some() { cmp(&b.version, &a.version) } else { cmp(&a.version, &b.version) }),
            Od::Split(s, _) => {
                let late = |p: &Pkg| p.version.as_ref().is_none_or(|v| RV::of(s).lt(&RV::of(v)));
                out.sort_by(|a, b| late(a).cmp(&late(b)).then(cmp(&a.version, &b.version)))
            }
            Od::Stamp(t, _, _) => out.sort_by_key(|p| {
                let x = p.time.unwrap_or(0);
                (x > *t, -(x as i128))
            }),
            Od::Per(m, d) => {
                let mut fams: Vec<&String> = vec![];
                for p in ps {
                    if !fams.contains(&&p.name) {
                        fams.push(&p.name);
                    }
                }
                out = fams
                    .into_iter()
                    .flat_map(|f| {
                        let ps: Vec<Pkg> = ps.iter().filter(|p| p.name == *f).cloned().collect();
                        m.get(f).or(d.as_deref()).and_then(|o| o.order(&ps)).unwrap_or(ps)
                    })
                    .collect();
            }
        }
        Some(out)
    }
}
fn back(p: &Package) -> Pkg {
    Pkg { name: p.name.clone(), version: p.version.as_ref().map(|v| v.as_str().to_string()), desc: p.description.clone(), time: p.timestamp }
}

pub fn c20(c: &mut Ctx) {
    c.rule("text: filters of the filter crate written as text; rules: filters of the package crate with rules per family; order: package orders over package lists; broken: malformed rules; non-trivial = some package is excluded and some is not (filters), the order changes the list (order)");
    c.check("text", 8_000, 300_000, || (prop::collection::vec(rb(), 0..4), prop::collection::vec(rb(), 0..3), prop::collection::vec(pkg(), 1..8), prop::collection::vec(rb(), 0..2)), |(ex, inc, pkgs, other): &(Vec<RB>, Vec<RB>, Vec<Pkg>, Vec<RB>)| {
        if ex.iter().chain(inc).chain(other).any(RB::ambiguous) {
            return Ok(Info::new(false).label(true, "ambiguous"));
        }
        let make = |ex: &[RB], inc: &[RB]| -> Result<fb::PackageFilter, String> {
            let mut f = fb::PackageFilter::new();
            for r in ex {
                f.add_exclusion_from_str(&r.text()).map_err(|e| format!("{:?}: {e}", r.text()))?;
            }
            for r in inc {
                f.add_inclusion_from_str(&r.text()).map_err(|e| format!("{:?}: {e}", r.text()))?;
            }
            Ok(f)
        };
        let f = make(ex, inc)?;
        let pod = fb::PackageFilter::from_pod(&f.to_pod()).map_err(|e| e.to_string())?;
        let js: fb::PackageFilter = serde_json::from_str(&serde_json::to_string(&f).unwrap()).map_err(|e| e.to_string())?;
        let (mut y, mut n) = (0, 0);
        for p in pkgs {
            for r in ex.iter().chain(inc) {
                let rule = fb::parse_rule(&r.text()).map_err(|e| format!("{:?}: {e}", r.text()))?;
                same(&format!("rule {:?} matches {p:?}", r.text()), rule.apply(&p.real()) == fb::RuleMatch::Matches, r.has(p))?;
            }
            let want = (!inc.iter().any(|r| r.has(p))).then(|| ex.iter().position(|r| r.has(p))).flatten();
            for (how, f) in [("as made", &f), ("from its pod", &pod), ("from JSON", &js)] {
                let got = f.excludes(&p.real()).map(|r| f.exclusions.iter().position(|x| std::ptr::eq(x, r)).unwrap());
                same(&format!("filter {how}, rule excluding {p:?}"), got, want)?;
                same(&format!("filter {how}, includes {p:?}"), f.includes(&p.real()), want.is_none())?;
            }
            if want.is_some() { y += 1 } else { n += 1 }
        }
        same("sha1 of the same rules", make(ex, inc)?.sha1(), f.sha1())?;
        same("sha1 from its pod", pod.sha1(), f.sha1())?;
        if !other.is_empty() {
            let mut more = ex.clone();
            more.extend(other.iter().cloned());
            if make(&more, inc)?.sha1() == f.sha1() {
                return Err("one more exclusion, same sha1".into());
            }
            let mut more = inc.clone();
            more.extend(other.iter().cloned());
            if make(ex, &more)?.sha1() == f.sha1() {
                return Err("one more inclusion, same sha1".into());
            }
        }
        // a rule restricted to a family matches nothing else
        let ps = fb::GlobRule::new("*", fb::GlobField::Name, Some("may")).unwrap();
        let mut g = fb::PackageFilter::new();
        g.add_exclusion(Box::new(ps.clone()));
        let t = fb::TimestampRule::new(std::time::UNIX_EPOCH, false, Some("may"));
        for p in pkgs {
            same("family of a glob rule", fb::Rule::apply(&ps, &p.real()) == fb::RuleMatch::Matches, p.name == "may")?;
            same("family of a filter's rule", g.excludes(&p.real()).is_some(), p.name == "may")?;
            same("family of a time rule", fb::Rule::apply(&t, &p.real()) == fb::RuleMatch::Matches, p.name == "may" && p.time.is_some_and(|t| t > 0))?;
        }
        Ok(Info::new(y > 0 && n > 0).label(!inc.is_empty() && y > 0, "inclusions"))
    });
    let keyed = || prop::collection::vec((prop::option::of(select(names()).prop_map(str::to_string)), ra()), 0..4);
    c.check("rules", 12_000, 300_000, move || (prop::collection::vec((keyed(), keyed()), 1..3), prop::collection::vec(pkg(), 1..8)), |(fs, pkgs): &(Vec<(Vec<(Option<String>, RA)>, Vec<(Option<String>, RA)>)>, Vec<Pkg>)| {
        let mut list = fa::PackageFilterList::new();
        let mut pods = fa::PackageFilterList::new();
        for (ex, inc) in fs {
            let mut f = fa::PackageFilter::new();
            for (k, r) in ex {
                f.add_exclusion(k.as_deref(), r.rule()?);
            }
            for (k, r) in inc {
                f.add_inclusion(k.as_deref(), r.rule()?);
            }
            pods.add_filter(fa::PackageFilter::from_pod(&f.to_pod()).map_err(|e| format!("pod {:?}: {e}", f.to_pod()))?);
            list.add_filter(f.clone());
        }
        let hit = |rs: &[(Option<String>, RA)], p: &Pkg| -> Option<bool> {
            let mut any = false;
            for (k, r) in rs {
                any |= k.as_ref().is_none_or(|k| *k == p.name) && r.has(p)?;
            }
            Some(any)
        };
        let mut keep = vec![];
        let mut judged = vec![];
        for p in pkgs {
            let mut out = Some(false);
            for (i, (ex, inc)) in fs.iter().enumerate() {
                let w = hit(ex, p).zip(hit(inc, p)).map(|(e, i)| e && !i);
                if let Some(w) = w {
                    same(&format!("filter {i} excludes {p:?}"), list.filters[i].excludes(&p.real()), w)?;
                    same(&format!("filter {i} from its pod {:?} excludes {p:?}", list.filters[i].to_pod()), pods.filters[i].excludes(&p.real()), w)?;
                }
                out = out.zip(w).map(|(a, b)| a || b);
            }
            if let Some(o) = out {
                judged.push(p.clone());
                same(&format!("list excludes {p:?}"), list.excludes(&p.real()), o)?;
                if !o {
                    keep.push(p.clone());
                }
            }
        }
        let got = list.filter_packages(judged.iter().map(Pkg::real).collect());
        same("packages kept", got.iter().map(back).collect::<Vec<_>>(), keep.clone())?;
        Ok(Info::new(!keep.is_empty() && keep.len() < judged.len()).label(fs.len() > 1, "several-filters"))
    });
    c.check("order", 15_000, 400_000, || (prop::collection::vec(od(), 0..4), prop::collection::vec(pkg(), 0..10)), |(os, pkgs): &(Vec<Od>, Vec<Pkg>)| {
        let real: Vec<Package> = pkgs.iter().map(Pkg::real).collect();
        let mut changed = false;
        let mut list = po::PackageOrderList::new();
        for o in os {
            let want = o.order(pkgs);
            changed |= want.as_ref().is_some_and(|w| w != pkgs);
            let r = o.real();
            let copy = po::from_pod(&po::to_pod(&*r)).ok_or(format!("pod of {o:?} rejected"))?;
            for (how, r) in [("as made", &r), ("cloned", &r.clone()), ("from its pod", &copy)] {
                same(&format!("{o:?} {how}"), r.reorder(&real).map(|v| v.iter().map(back).collect::<Vec<_>>()), want.clone())?;
                same(&format!("sha1 of {o:?} {how}"), r.sha1(), o.real().sha1())?;
            }
            list.append(r);
        }
        for (i, a) in os.iter().enumerate() {
            for b in &os[..i] {
                if a != b && a.real().sha1() == b.real().sha1() {
                    return Err(format!("{a:?} and {b:?} have one sha1"));
                }
            }
        }
        let list2 = po::PackageOrderList::from_pod(&list.to_pod());
        for n in names() {
            let want = os.iter().find(|o| o.applies(n)).map(|o| o.real().to_pod());
            for l in [&list, &list2] {
                same(&format!("order for {n}"), l.get(n).map(|o| o.to_pod()), want.clone())?;
                same(&format!("get_orderer {n}"), po::get_orderer(n, Some(l)).to_pod(), want.clone().unwrap_or(Od::Null(None).real().to_pod()))?;
            }
        }
        Ok(Info::new(changed).label(os.iter().any(|o| matches!(o, Od::Per(..))), "per-family"))
    });
    c.check("broken", 4_000, 100_000, || prop_oneof![
        prop::collection::vec(prop_oneof![select(vec!["glob(", "regex(", "range(", "before(", "after(", "timestamp(", ")", "name:", "*", "-", "1.0", ">=", "maya", "before:", "after=:", "(", "["]).prop_map(str::to_string), any::<char>().prop_map(|c| c.to_string())], 0..6).prop_map(|v| v.concat()),
        select(vec!["glob()", "glob(name:)", "glob(other:x)", "glob(x", "regex((", "regex(x", "regex(version:1)", "range(>=1", "before(x)", "before(-1)", "before()", "after(1.5)", "after(1"]).prop_map(str::to_string)
    ], |t: &String| {
        let bad = ["glob()", "glob(name:)", "glob(other:x)", "glob(x", "regex((", "regex(x", "regex(version:1)", "range(>=1", "before(x)", "before(-1)", "before()", "after(1.5)", "after(1"].contains(&t.as_str());
        let r = fb::parse_rule(t);
        if bad && r.is_ok() {
            return Err(format!("{t:?} accepted as {}", r.unwrap()));
        }
        if let Ok(r) = &r {
            // what was accepted can be written down and read again
            let (k, p) = r.to_pod();
            let again = fb::parse_rule(&format!("{k}({p})")).map_err(|e| format!("{t:?} became {k}({p}), then {e}"))?;
            same(&format!("{t:?} written again"), again.to_pod(), (k, p))?;
        }
        let mut m = HashMap::new();
        m.insert("excludes".to_string(), vec![t.clone()]);
        same("rule and filter agree", fa::PackageFilter::from_pod(&m).is_ok(), fa::parse_rule(t).is_some())?;
        if let Some(r) = fa::parse_rule(t) {
            let w = r.to_pod();
            let again = fa::parse_rule(&w).ok_or(format!("{t:?} became {w:?}, then rejected"))?;
            same(&format!("{t:?} written again"), again.to_pod(), w)?;
        }
        Ok(Info::new(r.is_ok()))
    });
}
