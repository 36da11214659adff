use crate::core::*;
use proptest::prelude::*;
use rez_next_package::{Package, PackageRequirement};
use rez_next_solver::{ConflictResolution, ConflictResolver, ConflictStrategy, DependencyGraph};
use rez_next_version::Version;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8),
    Edge(u8, u8),
    Remove(u8),
    Exclude(u8),
    /// a request on family a: lower and upper bound (0 = none), or a plain version
    Require(u8, Rq),
    Constrain(u8, Rq),
    /// settle the conflicts found with the given strategy
    Settle(u8),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Rq {
    Any,
    Plain(u8),
    /// lower (inclusive), upper (exclusive)
    Span(Option<u8>, Option<u8>),
    Either(u8, u8),
}
impl Rq {
    fn spec(&self) -> Option<String> {
        Some(match self {
            Rq::Any | Rq::Span(None, None) => return None,
            Rq::Plain(v) => format!("{v}"),
            Rq::Span(Some(a), Some(b)) => format!("{a}+<{b}"),
            Rq::Span(Some(a), None) => format!("{a}+"),
            Rq::Span(None, Some(b)) => format!("<{b}"),
            Rq::Either(a, b) => format!("{a}|{b}"),
        })
    }
    /// is there room between n and n+1 (all bounds are whole numbers)
    fn has(&self, n: u8) -> bool {
        match self {
            Rq::Any => true,
            Rq::Plain(v) => *v == n,
            Rq::Span(a, b) => a.is_none_or(|a| n >= a) && b.is_none_or(|b| n < b),
            Rq::Either(a, b) => n == *a || n == *b,
        }
    }
    fn clashes(&self, o: &Rq) -> bool {
        !(0..40).any(|n| self.has(n) && o.has(n))
    }
}
fn rq() -> impl Strategy<Value = Rq> {
    // two-digit numbers, so that comparing texts is not comparing versions
    let n = || prop_oneof![2u8..5, 8u8..13];
    prop_oneof![
        1 => Just(Rq::Any),
        4 => n().prop_map(Rq::Plain),
        2 => (n(), 1u8..4).prop_map(|(a, w)| Rq::Span(Some(a), Some(a + w))),
        1 => n().prop_map(|a| Rq::Span(Some(a), None)),
        1 => n().prop_map(|a| Rq::Span(None, Some(a))),
        1 => (n(), n()).prop_map(|(a, b)| Rq::Either(a, b)),
    ]
}
const N: u8 = 8;
fn key(i: u8) -> String {
    // two versions per name, and one package without a version
    if i == 7 { "bare".into() } else { format!("p{}-{}.0", i / 2, i % 2 + 1) }
}
fn pkg(i: u8, tag: usize) -> Package {
    let mut p = Package::new(if i == 7 { "bare".into() } else { format!("p{}", i / 2) });
    if i != 7 {
        p.version = Some(Version::parse(&format!("{}.0", i % 2 + 1)).unwrap());
    }
    p.description = Some(format!("rev{tag}"));
    // what it requires depends on when it was added
    p.requires = reqs(i, tag).into_iter().map(|r| if tag % 2 == 0 { r } else { format!("{r}-1+") }).collect();
    p
}
fn reqs(i: u8, tag: usize) -> Vec<String> {
    (0..4u8).filter(|k| (i as usize + tag) & (1 << k) != 0 && *k != i / 2).map(|k| pname(k * 2)).collect()
}
fn pname(i: u8) -> String {
    if i == 7 { "bare".into() } else { format!("p{}", i / 2) }
}
#[derive(Default)]
struct Model {
    nodes: BTreeMap<u8, usize>,
    edges: BTreeSet<(u8, u8)>,
    excl: BTreeSet<String>,
    reqs: BTreeMap<u8, Vec<Rq>>,
    constraints: usize,
}
impl Model {
    fn conflicting(&self) -> Vec<u8> {
        self.reqs.iter().filter(|(_, r)| (0..r.len()).any(|i| (0..i).any(|j| r[i].clashes(&r[j])))).map(|x| *x.0).collect()
    }
    fn reach(&self, a: u8) -> BTreeSet<u8> {
        let mut r = BTreeSet::new();
        let mut todo: Vec<u8> = self.edges.iter().filter(|e| e.0 == a).map(|e| e.1).collect();
        while let Some(x) = todo.pop() {
            if r.insert(x) {
                todo.extend(self.edges.iter().filter(|e| e.0 == x).map(|e| e.1));
            }
        }
        r
    }
    fn cyclic(&self) -> bool {
        self.nodes.keys().any(|n| self.reach(*n).contains(n))
    }
    fn depth(&self, n: u8) -> usize {
        1 + self.edges.iter().filter(|e| e.0 == n).map(|e| self.depth(e.1)).max().unwrap_or(0)
    }
}
fn compare(g: &DependencyGraph, m: &Model) -> Result<(), String> {
    if g.len() != m.nodes.len() || g.is_empty() != m.nodes.is_empty() {
        return Err(format!("{} nodes, should be {}", g.len(), m.nodes.len()));
    }
    let st = g.get_stats();
    if st.node_count != m.nodes.len() || st.edge_count != m.edges.len() || st.exclusion_count != m.excl.len() {
        return Err(format!("statistics {st:?} for {} nodes, {} edges, {} exclusions", m.nodes.len(), m.edges.len(), m.excl.len()));
    }
    let bad = m.conflicting();
    if st.conflict_count != bad.len() || st.constraint_count != m.constraints {
        return Err(format!("statistics {st:?}, should be {} conflicts and {} constraints", bad.len(), m.constraints));
    }
    let mut found = g.detect_conflicts();
    found.sort_by(|a, b| a.package_name.cmp(&b.package_name));
    if found.iter().map(|f| f.package_name.clone()).collect::<Vec<_>>() != bad.iter().map(|k| pname(*k * 2)).collect::<Vec<_>>() {
        return Err(format!("conflicts on {:?}, should be on {:?}", found.iter().map(|f| &f.package_name).collect::<Vec<_>>(), bad.iter().map(|k| pname(*k * 2)).collect::<Vec<_>>()));
    }
    for (f, k) in found.iter().zip(&bad) {
        let specs: Vec<Option<String>> = f.conflicting_requirements.iter().map(|r| r.version_spec.clone()).collect();
        if specs != m.reqs[k].iter().map(|r| r.spec()).collect::<Vec<_>>() || f.conflicting_requirements.iter().any(|r| r.name != f.package_name) {
            return Err(format!("conflict on {} lists {:?}, requested was {:?}", f.package_name, f.conflicting_requirements, m.reqs[k]));
        }
        let mut src = f.source_packages.clone();
        src.sort();
        let mut want: Vec<String> = m.nodes.iter().filter(|(i, t)| reqs(**i, **t).contains(&f.package_name)).map(|(i, _)| key(*i)).collect();
        want.sort();
        if src != want {
            return Err(format!("conflict on {} is said to come from {src:?}, the packages requiring it are {want:?}", f.package_name));
        }
        if !matches!(f.severity, rez_next_solver::ConflictSeverity::Incompatible) {
            return Err(format!("conflict on {} has severity {:?} though no version satisfies both", f.package_name, f.severity));
        }
    }
    let acc = g.accessibility();
    for n in m.nodes.keys() {
        let mut want: Vec<String> = m.reach(*n).into_iter().chain([*n]).map(key).collect();
        want.sort();
        want.dedup();
        if acc.get(&key(*n)) != Some(&want) {
            return Err(format!("reachable from {}: {:?}, should be {want:?}", key(*n), acc.get(&key(*n))));
        }
    }
    if acc.len() != m.nodes.len() {
        return Err("accessibility lists unknown packages".into());
    }
    match (g.find_cycle(), m.cyclic()) {
        (None, false) => {}
        (Some(c), true) => {
            let id = |k: &String| (0..N).find(|i| key(*i) == *k).ok_or(format!("unknown {k}"));
            for i in 0..c.len() {
                if !m.edges.contains(&(id(&c[i])?, id(&c[(i + 1) % c.len()])?)) {
                    return Err(format!("{c:?} is not a cycle"));
                }
            }
            if c.is_empty() {
                return Err("empty cycle".into());
            }
        }
        (c, w) => return Err(format!("cycle {c:?}, should exist: {w}")),
    }
    match (g.get_resolved_packages(), m.cyclic()) {
        (Err(_), true) => {}
        (Ok(ps), false) => {
            let ks: Vec<String> = ps.iter().map(|p| p.version.as_ref().map(|v| format!("{}-{}", p.name, v.as_str())).unwrap_or(p.name.clone())).collect();
            let mut s = ks.clone();
            s.sort();
            let mut want: Vec<String> = m.nodes.keys().map(|k| key(*k)).collect();
            want.sort();
            if s != want {
                return Err(format!("ordered packages {ks:?}, should be a permutation of {want:?}"));
            }
            for (a, b) in &m.edges {
                let p = |x: u8| ks.iter().position(|k| *k == key(x)).unwrap();
                if p(*a) > p(*b) {
                    return Err(format!("{} comes after its dependency {} in {ks:?}", key(*a), key(*b)));
                }
            }
            for p in &ps {
                let i = (0..N).find(|i| pname(*i) == p.name && (*i == 7 || p.version.as_ref().is_some_and(|v| v.as_str() == format!("{}.0", i % 2 + 1)))).unwrap();
                if p.description != Some(format!("rev{}", m.nodes[&i])) {
                    return Err(format!("{} is not the package added last", key(i)));
                }
            }
            let d = m.nodes.keys().map(|n| m.depth(*n)).max().unwrap_or(0);
            if st.max_depth != d {
                return Err(format!("max_depth {}, longest chain has {d}", st.max_depth));
            }
        }
        (r, w) => return Err(format!("ordering is_ok={}, cyclic {w}", r.is_ok())),
    }
    Ok(())
}

pub fn c09(c: &mut Ctx) {
    c.rule("operation sequences over 8 packages; non-trivial = at least three edges existed at once");
    let op = || {
        prop_oneof![
            5 => (0..N).prop_map(Op::Add),
            8 => (0..N, 0..N).prop_map(|(a, b)| Op::Edge(a, b)),
            // mostly acyclic
            8 => (0..N, 0..N).prop_map(|(a, b)| Op::Edge(a.min(b), if a == b { (a + 1).min(N - 1) } else { a.max(b) })),
            2 => (0..N).prop_map(Op::Remove),
            1 => (0..N).prop_map(Op::Exclude),
            3 => (0..4u8, rq()).prop_map(|(k, r)| Op::Require(k, r)),
            1 => (0..4u8, rq()).prop_map(|(k, r)| Op::Constrain(k, r)),
            1 => (0..4u8).prop_map(Op::Settle),
        ]
    };
    let ops = move || (prop::collection::vec(op(), 1..40), prop::bool::weighted(0.05)).prop_map(|(mut o, c)| {
        let mut v: Vec<Op> = (0..N).map(Op::Add).collect();
        if c { let k = o.len() / 2; o.insert(k, Op::Clear); }
        v.extend(o);
        v
    });
    c.check("model", 3_000, 100_000, ops, |ops: &Vec<Op>| {
        let mut g = DependencyGraph::new();
        let mut m = Model::default();
        let mut peak = 0;
        let (mut cyc, mut acyc, mut settled, mut conf) = (false, false, false, false);
        for (t, o) in ops.iter().enumerate() {
            match o {
                Op::Add(i) => {
                    let r = g.add_package(pkg(*i, t));
                    let ok = !m.excl.contains(&pname(*i));
                    if r.is_ok() != ok {
                        return Err(format!("adding {}: {r:?}", key(*i)));
                    }
                    if ok {
                        m.nodes.insert(*i, t);
                    }
                }
                Op::Edge(a, b) => {
                    let r = g.add_dependency_edge(&key(*a), &key(*b));
                    let ok = m.nodes.contains_key(a) && m.nodes.contains_key(b);
                    if r.is_ok() != ok {
                        return Err(format!("edge {} -> {}: {r:?}", key(*a), key(*b)));
                    }
                    if ok {
                        m.edges.insert((*a, *b));
                    }
                }
                Op::Remove(i) => {
                    g.remove_package(&key(*i)).map_err(|e| e.to_string())?;
                    m.nodes.remove(i);
                    m.edges.retain(|e| e.0 != *i && e.1 != *i);
                }
                Op::Exclude(i) => {
                    g.add_exclusion(pname(*i)).map_err(|e| e.to_string())?;
                    m.excl.insert(pname(*i));
                }
                Op::Require(k, _) if m.reqs.get(k).is_some_and(|r| r.len() >= 4) => {}
                Op::Require(k, r) => {
                    let q = PackageRequirement { name: pname(*k * 2), version_spec: r.spec(), weak: false, conflict: false };
                    g.add_requirement(q).map_err(|e| e.to_string())?;
                    m.reqs.entry(*k).or_default().push(if r.spec().is_none() { Rq::Any } else { r.clone() });
                }
                Op::Constrain(k, r) => {
                    let q = PackageRequirement { name: pname(*k * 2), version_spec: r.spec(), weak: false, conflict: false };
                    g.add_constraint(q).map_err(|e| e.to_string())?;
                    m.constraints += 1;
                }
                Op::Settle(how) => {
                    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                    let found = g.detect_conflicts();
                    let n = found.len();
                    settled |= n > 0;
                    let strategy = match how { 0 => ConflictStrategy::LatestWins, 1 => ConflictStrategy::EarliestWins, 2 => ConflictStrategy::FindCompatible, _ => ConflictStrategy::FailOnConflict };
                    let srcs: Vec<(String, Vec<String>)> = found.iter().map(|f| (f.package_name.clone(), f.source_packages.clone())).collect();
                    let res = rt.block_on(ConflictResolver::new(strategy).resolve_conflicts(found));
                    if *how > 2 {
                        if res.is_ok() != (n == 0) {
                            return Err(format!("step {t}: {n} conflicts with the failing strategy: {res:?}"));
                        }
                        continue;
                    }
                    let res: Vec<ConflictResolution> = res.map_err(|e| e.to_string())?;
                    if res.len() != n {
                        return Err(format!("step {t}: {} answers for {n} conflicts", res.len()));
                    }
                    for (x, (name, src)) in res.into_iter().zip(srcs) {
                        let k = (0..4u8).find(|k| pname(*k * 2) == name).unwrap();
                        let plain: Vec<u8> = m.reqs[&k].iter().filter_map(|r| if let Rq::Plain(v) = r { Some(*v) } else { None }).collect();
                        // conflicting requirements have no common version: FindCompatible takes the latest
                        let want = if *how == 1 { plain.iter().min() } else { plain.iter().max() };
                        if x.package_name != name || x.selected_version.as_ref().map(|v| v.as_str().to_string()) != want.map(|v| v.to_string()) || x.modified_packages != src {
                            return Err(format!("step {t}: answer {x:?} for the conflict on {name} among {:?} from {src:?}", m.reqs[&k]));
                        }
                        g.apply_conflict_resolution(x).map_err(|e| e.to_string())?;
                        for i in 0..N {
                            if src.contains(&key(i)) {
                                m.nodes.remove(&i);
                                m.edges.retain(|e| e.0 != i && e.1 != i);
                            }
                        }
                        if let Some(v) = want {
                            m.reqs.insert(k, vec![Rq::Plain(*v)]);
                        }
                    }
                }
                Op::Clear => {
                    g.clear();
                    m = Model::default();
                }
            }
            conf |= !m.conflicting().is_empty();
            peak = peak.max(m.edges.len());
            // with requirements present a comparison is slow: after the steps that concern them, and every fifth
            let slow = !m.reqs.is_empty() && !matches!(o, Op::Require(..) | Op::Settle(_)) && t % 5 != 0 && t + 1 != ops.len();
            if t >= N as usize - 1 && !slow {
                compare(&g, &m).map_err(|e| format!("after {o:?} (step {t}): {e}"))?;
                if m.cyclic() { cyc = true } else if m.edges.len() >= 3 { acyc = true }
            }
        }
        Ok(Info::new(peak >= 3).label(cyc, "cyclic").label(acyc, "acyclic").label(conf, "conflicting requests").label(settled, "conflicts settled"))
    });
}
