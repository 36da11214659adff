use crate::core::*;
use crate::genr::Spec;
use crate::refv::RV;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_common::RezCoreError;
use rez_next_package::{Package, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager};
use rez_next_solver::{DependencyResolver, SolverConfig};
use rez_next_version::Version;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Req {
    pub flag: u8, // 0 plain, 1 weak, 2 conflict
    pub fam: usize,
    pub spec: Spec,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pkg {
    pub fam: usize,
    pub ver: String,
    pub requires: Vec<Req>,
    pub variants: Vec<Vec<Req>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub pkgs: Vec<Pkg>,
    pub requests: Vec<Req>,
}
pub const FAM: [&str; 7] = ["app", "bar", "core", "dcc", "ext", "fmt", "gui"];
impl Req {
    pub fn text(&self) -> String {
        format!("{}{}{}", ["", "~", "!"][self.flag as usize], FAM[self.fam], self.spec.text())
    }
    pub fn sat(&self, ver: &str) -> bool {
        self.spec.has(ver).unwrap()
    }
    /// does the choice `sel` (family -> version) respect this requirement
    pub fn ok(&self, sel: &BTreeMap<usize, &str>) -> bool {
        match (self.flag, sel.get(&self.fam)) {
            (0, None) => false,
            (_, None) => true,
            (2, Some(v)) => !self.sat(v),
            (_, Some(v)) => self.sat(v),
        }
    }
}
impl Pkg {
    pub fn package(&self) -> Package {
        let mut p = Package::new(FAM[self.fam].to_string());
        p.version = Some(Version::parse(&self.ver).unwrap());
        p.requires = self.requires.iter().map(Req::text).collect();
        p.variants = self.variants.iter().map(|v| v.iter().map(Req::text).collect()).collect();
        p
    }
    pub fn prerelease(&self) -> bool {
        self.ver.contains("alpha") || self.ver.contains("rc")
    }
}

pub struct MemRepo(pub Vec<Arc<Package>>, pub std::path::PathBuf);
#[async_trait::async_trait]
impl PackageRepository for MemRepo {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
        Ok(self.0.iter().filter(|p| p.name == name).cloned().collect())
    }
    async fn get_package(&self, name: &str, version: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> {
        Ok(self.0.iter().find(|p| p.name == name && version.is_none_or(|v| p.version.as_ref().is_some_and(|x| x.as_str() == v))).cloned())
    }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> {
        Ok(self.0.iter().map(|p| p.name.clone()).collect())
    }
    fn name(&self) -> &str {
        "mem"
    }
    fn root_path(&self) -> &std::path::Path {
        &self.1
    }
}

fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub fn manager(pkgs: &[Pkg]) -> Arc<RepositoryManager> {
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(MemRepo(pkgs.iter().map(|p| Arc::new(p.package())).collect(), "/nonexistent".into())));
    Arc::new(m)
}
/// family -> (version, variant)
type Sel = BTreeMap<usize, (String, Option<usize>)>;
type Outcome = Result<(Vec<(usize, String, Option<usize>)>, Vec<String>), String>;
pub fn solve(pkgs: &[Pkg], requests: &[Req], cfg: &SolverConfig) -> Result<Outcome, String> {
    solve_with(pkgs, requests, cfg, |_| Ok(()))
}
/// Does a result say truthfully who asked for each package?
fn reasons(d: &rez_next_solver::DetailedResolutionResult, pkgs: &[Pkg], requests: &[Req]) -> Result<(), String> {
    for p in &d.resolved_packages {
        let name = &p.package.name;
        let asks = |r: &Req| r.flag == 0 && FAM[r.fam] == name;
        if p.requested != requests.iter().any(asks) {
            return Err(format!("{name} is marked as requested = {}", p.requested));
        }
        let want: BTreeSet<&str> = d
            .resolved_packages
            .iter()
            .filter(|o| {
                pkgs.iter()
                    .find(|q| FAM[q.fam] == o.package.name && o.package.version.as_ref().is_some_and(|v| v.as_str() == q.ver))
                    .is_some_and(|q| q.requires.iter().chain(o.variant_index.and_then(|i| q.variants.get(i)).into_iter().flatten()).any(asks))
            })
            .map(|o| o.package.name.as_str())
            .collect();
        let got: BTreeSet<&str> = p.required_by.iter().map(String::as_str).collect();
        if got != want || got.len() != p.required_by.len() {
            return Err(format!("{name} is said to be required by {:?}, it is required by {want:?}", p.required_by));
        }
    }
    Ok(())
}
fn solve_with(pkgs: &[Pkg], requests: &[Req], cfg: &SolverConfig, look: impl Fn(&rez_next_solver::DetailedResolutionResult) -> Result<(), String>) -> Result<Outcome, String> {
    let reqs: Vec<Requirement> = requests.iter().map(|r| r.text().parse::<Requirement>()).collect::<Result<_, _>>().map_err(|e| format!("request rejected: {e}"))?;
    let mut r = DependencyResolver::new(manager(pkgs), cfg.clone());
    Ok(match block(r.resolve(reqs)) {
        Err(e) => Err(e.to_string()),
        Ok(d) => Ok({
            look(&d)?;
            (
            d.resolved_packages
                .iter()
                .map(|p| (FAM.iter().position(|f| *f == p.package.name).unwrap_or(99), p.package.version.as_ref().unwrap().as_str().to_string(), p.variant_index))
                .collect(),
            d.failed_requirements.iter().map(|r| r.to_string()).collect(),
            )
        }),
    })
}
pub fn find<'a>(w: &'a [Pkg], fam: usize, ver: &str) -> Option<&'a Pkg> {
    w.iter().find(|p| p.fam == fam && p.ver == ver)
}
fn cyclic(e: &BTreeMap<usize, Vec<usize>>) -> bool {
    let mut alive: BTreeSet<usize> = e.keys().copied().collect();
    loop {
        let n = alive.len();
        let keep: BTreeSet<usize> = alive.iter().copied().filter(|f| e[f].iter().any(|t| alive.contains(t))).collect();
        alive = keep;
        if alive.len() == n {
            return n > 0;
        }
    }
}
/// Why a claimed solution is not one.
pub fn valid(w: &[Pkg], requests: &[Req], got: &[(usize, String, Option<usize>)], pre: bool) -> Result<(), String> {
    let mut sel: BTreeMap<usize, &str> = BTreeMap::new();
    for (f, v, _) in got {
        if *f >= FAM.len() {
            return Err("a package from outside the repository was selected".into());
        }
        if sel.insert(*f, v).is_some() {
            return Err(format!("{} was selected twice", FAM[*f]));
        }
    }
    for r in requests {
        if !r.ok(&sel) {
            return Err(format!("the request {} is not respected", r.text()));
        }
    }
    let mut edges: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (f, v, var) in got {
        let Some(p) = find(w, *f, v) else { return Err(format!("{}-{v} does not exist in the repository", FAM[*f])) };
        if p.prerelease() && !pre {
            return Err(format!("prerelease {}-{v} was selected", FAM[*f]));
        }
        let extra: &[Req] = match (p.variants.is_empty(), var) {
            (true, None) => &[],
            (false, Some(i)) if *i < p.variants.len() => &p.variants[*i],
            _ => return Err(format!("{}-{v} has {} variants, selected {var:?}", FAM[*f], p.variants.len())),
        };
        for r in p.requires.iter().chain(extra) {
            if !r.ok(&sel) {
                return Err(format!("{}-{v} (variant {var:?}) requires {}, which the solution breaks", FAM[*f], r.text()));
            }
            if r.flag == 0 {
                edges.entry(*f).or_default().push(r.fam);
            }
        }
    }
    if cyclic(&edges) {
        return Err("the solution contains a dependency cycle".into());
    }
    let mut reach: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = requests.iter().filter(|r| r.flag == 0).map(|r| r.fam).collect();
    while let Some(f) = todo.pop() {
        if reach.insert(f) {
            todo.extend(edges.get(&f).into_iter().flatten());
        }
    }
    for (f, v, _) in got {
        if !reach.contains(f) {
            return Err(format!("{}-{v} is in the solution but nothing requires it", FAM[*f]));
        }
    }
    Ok(())
}
/// every valid selection (minimal closure) by exhaustive search; stops after `cap`
pub fn solutions(w: &[Pkg], requests: &[Req], pre: bool, cap: usize) -> Vec<Sel> {
    fn go(w: &[Pkg], requests: &[Req], pre: bool, cap: usize, sel: &mut Sel, out: &mut Vec<Sel>, budget: &mut u32) {
        if out.len() >= cap || *budget == 0 {
            return;
        }
        *budget -= 1;
        // constraints so far
        let mut need: Option<usize> = None;
        let s: BTreeMap<usize, &str> = sel.iter().map(|(k, v)| (*k, v.0.as_str())).collect();
        let mut check = |r: &Req| -> bool {
            match s.get(&r.fam) {
                None => {
                    if r.flag == 0 && need.is_none() {
                        need = Some(r.fam);
                    }
                    true
                }
                Some(_) => r.ok(&s),
            }
        };
        for r in requests {
            if !check(r) {
                return;
            }
        }
        for (f, (v, var)) in sel.iter() {
            let p = find(w, *f, v).unwrap();
            for r in p.requires.iter().chain(var.map(|i| &p.variants[i][..]).unwrap_or(&[])) {
                if !check(r) {
                    return;
                }
            }
        }
        let Some(f) = need else {
            let mut e: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (f, (v, var)) in sel.iter() {
                let p = find(w, *f, v).unwrap();
                e.insert(*f, p.requires.iter().chain(var.map(|i| &p.variants[i][..]).unwrap_or(&[])).filter(|r| r.flag == 0).map(|r| r.fam).collect());
            }
            if cyclic(&e) {
                return;
            }
            out.push(sel.clone());
            return;
        };
        for p in w.iter().filter(|p| p.fam == f && (pre || !p.prerelease())) {
            let vars: Vec<Option<usize>> = if p.variants.is_empty() { vec![None] } else { (0..p.variants.len()).map(Some).collect() };
            for v in vars {
                sel.insert(f, (p.ver.clone(), v));
                go(w, requests, pre, cap, sel, out, budget);
                sel.remove(&f);
            }
        }
    }
    let mut out = vec![];
    go(w, requests, pre, cap, &mut Sel::new(), &mut out, &mut 20_000);
    out
}

fn rv() -> BoxedStrategy<String> {
    select(vec!["1", "1", "1.0", "1.1", "1.2", "2", "2", "2.0", "2.1", "3", "3.0", "1.0.1"]).prop_map(str::to_string).boxed()
}
fn rspec() -> BoxedStrategy<Spec> {
    prop_oneof![
        9 => Just(Spec::None),
        3 => rv().prop_map(Spec::Prefix),
        2 => rv().prop_map(Spec::Plus),
        2 => (rv(), rv()).prop_map(|(a, b)| Spec::PlusLt(a, false, b)),
        4 => (select(vec!["==", ">=", "<=", ">", "<", "!=", "~="]), rv()).prop_map(|(o, v)| Spec::Ops(vec![(o.to_string(), v)])),
        1 => (rv(), rv()).prop_map(|(a, b)| Spec::Ops(vec![(">=".into(), a), ("<".into(), b)])),
    ]
    .boxed()
}
fn req(fams: Vec<usize>, weak: u32, conflict: u32) -> BoxedStrategy<Req> {
    (prop_oneof![20 => Just(0u8), weak => Just(1u8), conflict => Just(2u8)], select(fams), rspec()).prop_map(|(flag, fam, spec)| Req { flag, fam, spec }).boxed()
}
/// `nf` families; family i may require only later ones unless `cyclic`.
pub fn world(nf: usize, maxv: usize, cyclic: bool) -> BoxedStrategy<World> {
    let vers = vec!["1.0", "1.0.1", "1.1", "1.2", "2.0", "2.1", "2.1.alpha1", "3.0", "3.0.rc1", "3.1"];
    let mut fams = vec![];
    for f in 0..nf {
        let targets: Vec<usize> = if cyclic { (0..nf).filter(|x| *x != f).collect() } else { (f + 1..nf).collect() };
        let vers = proptest::sample::subsequence(vers.clone(), 1..=maxv);
        let reqs = move |n: usize| -> BoxedStrategy<Vec<Req>> {
            if targets.is_empty() { Just(vec![]).boxed() } else { prop::collection::vec(req(targets.clone(), 3, 3), 0..=n).boxed() }
        };
        let (ra, rb) = (reqs.clone(), reqs);
        fams.push(
            vers.prop_flat_map(move |vs| {
                let per: Vec<_> = vs
                    .iter()
                    .map(|v| {
                        let variants = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(rb(2), 1..=3)];
                        (Just(v.to_string()), ra(2), variants).prop_map(move |(ver, requires, variants)| Pkg { fam: f, ver, requires, variants })
                    })
                    .collect();
                per
            })
            .boxed(),
        );
    }
    (fams, prop::collection::vec(req((0..nf).collect(), 3, 3), 1..=3))
        .prop_map(|(f, requests)| World { pkgs: f.into_iter().flatten().collect(), requests })
        .boxed()
}

fn cfg(strict: bool, pre: bool, latest: bool) -> SolverConfig {
    SolverConfig { strict_mode: strict, allow_prerelease: pre, prefer_latest: latest, max_attempts: 20_000, ..Default::default() }
}

/// C07
pub fn c07(c: &mut Ctx) {
    c.hang_secs = 60;
    c.rule("repositories of 4 to 6 families with up to 4 versions, requires, variants, weak and conflict requirements, acyclic and cyclic; non-trivial = the solve succeeds with at least two packages, or fails although some version of every requested family exists");
    let worlds = || (prop_oneof![3 => world(5, 3, false), 2 => world(6, 4, false), 2 => world(4, 4, true), 1 => world(3, 4, true)], any::<bool>(), any::<bool>());
    c.check("strict", 40_000, 600_000, worlds, |(w, pre, latest): &(World, bool, bool)| {
        let got = solve_with(&w.pkgs, &w.requests, &cfg(true, *pre, *latest), |d| reasons(d, &w.pkgs, &w.requests))?;
        match got {
            Ok((sel, failed)) => {
                if !failed.is_empty() {
                    return Err(format!("strict solve succeeded with failed requirements {failed:?}"));
                }
                valid(&w.pkgs, &w.requests, &sel, *pre).map_err(|e| format!("{e}; solution {sel:?}"))?;
                Ok(Info::new(sel.len() >= 2).label(true, "solved").label(sel.iter().any(|s| s.2.is_some()), "variants"))
            }
            Err(_) => {
                let s = solutions(&w.pkgs, &w.requests, *pre, 1);
                if let Some(s) = s.first() {
                    return Err(format!("the solve failed although {s:?} is a solution"));
                }
                Ok(Info::new(w.requests.iter().all(|r| r.flag != 0 || w.pkgs.iter().any(|p| p.fam == r.fam && r.sat(&p.ver)))).label(true, "unsolved"))
            }
        }
    });
    c.check("lenient", 20_000, 300_000, worlds, |(w, pre, latest): &(World, bool, bool)| {
        match solve_with(&w.pkgs, &w.requests, &cfg(false, *pre, *latest), |d| reasons(d, &w.pkgs, &w.requests))? {
            Ok((sel, failed)) if failed.is_empty() => {
                valid(&w.pkgs, &w.requests, &sel, *pre).map_err(|e| format!("a solve that reports no failed requirement is not valid: {e}; solution {sel:?}"))?;
                Ok(Info::new(sel.len() >= 2).label(true, "solved"))
            }
            Ok((sel, failed)) => {
                let m: BTreeMap<usize, &str> = sel.iter().map(|s| (s.0, s.1.as_str())).collect();
                let mut all: Vec<&Req> = w.requests.iter().collect();
                for (f, v, var) in &sel {
                    let Some(p) = find(&w.pkgs, *f, v) else { return Err(format!("{f}-{v} is not in the repository")) };
                    all.extend(p.requires.iter().chain(var.and_then(|i| p.variants.get(i)).into_iter().flatten()));
                }
                let asked = |f: &String| w.requests.iter().chain(w.pkgs.iter().flat_map(|p| p.requires.iter().chain(p.variants.iter().flatten()))).any(|r| r.flag != 2 && r.text().parse::<Requirement>().unwrap().to_string() == *f);
                if let Some(f) = failed.iter().find(|f| !asked(f)) {
                    return Err(format!("{f} is reported as failed, but nothing ever asks for it"));
                }
                for r in all {
                    let norm = r.text().parse::<Requirement>().unwrap().to_string();
                    if r.flag == 0 && !r.ok(&m) && !failed.contains(&norm) {
                        return Err(format!("{norm} is not satisfied by {sel:?} and not among the failed requirements {failed:?}"));
                    }
                }
                Ok(Info::new(sel.len() >= 2).label(true, "partial"))
            }
            Err(_) => Ok(Info::new(false).label(true, "error")),
        }
    });
}

/// The selection that takes the preferred version at every step, when no step needs revising.
pub fn obvious(w: &[Pkg], requests: &[Req], pre: bool, latest: bool) -> Option<BTreeMap<usize, String>> {
    let best = |r: &Req| -> Option<&Pkg> {
        let it = w.iter().filter(|p| p.fam == r.fam && (pre || !p.prerelease()) && r.sat(&p.ver));
        if latest { it.max_by(|a, b| RV::of(&a.ver).cmp(&RV::of(&b.ver))) } else { it.min_by(|a, b| RV::of(&a.ver).cmp(&RV::of(&b.ver))) }
    };
    let mut sel: BTreeMap<usize, String> = BTreeMap::new();
    let mut queue: Vec<Req> = requests.to_vec();
    let mut all = queue.clone();
    while let Some(r) = queue.pop() {
        if r.flag != 0 {
            continue;
        }
        let p = best(&r)?;
        if !p.variants.is_empty() {
            return None;
        }
        match sel.get(&r.fam) {
            Some(v) if *v == p.ver => {}
            Some(_) => return None,
            None => {
                sel.insert(r.fam, p.ver.clone());
                queue.extend(p.requires.iter().cloned());
                all.extend(p.requires.iter().cloned());
            }
        }
    }
    let m: BTreeMap<usize, &str> = sel.iter().map(|(k, v)| (*k, v.as_str())).collect();
    all.iter().all(|r| r.ok(&m)).then_some(sel)
}

/// The selection in which every package is the preferred one among those that satisfy everything asked of it,
/// when it is found without taking back a choice: requests first, then what the packages selected so far require.
/// Of variants only the single possible one is taken.
pub fn settled(w: &[Pkg], requests: &[Req], pre: bool, latest: bool) -> Option<BTreeMap<usize, String>> {
    let fits = |asked: &[&Req], p: &Pkg| (pre || !p.prerelease()) && asked.iter().all(|r| r.fam != p.fam || if r.flag == 2 { !r.sat(&p.ver) } else { r.sat(&p.ver) });
    let best = |fam: usize, asked: &[&Req]| -> Option<&Pkg> {
        let it = w.iter().filter(|p| p.fam == fam && fits(asked, p));
        if latest { it.max_by(|a, b| RV::of(&a.ver).cmp(&RV::of(&b.ver))) } else { it.min_by(|a, b| RV::of(&a.ver).cmp(&RV::of(&b.ver))) }
    };
    let mut sel: BTreeMap<usize, &Pkg> = BTreeMap::new();
    let mut all: Vec<Req> = requests.to_vec();
    let mut next = 0;
    while next < all.len() {
        let r = all[next].clone();
        next += 1;
        if r.flag != 0 || sel.contains_key(&r.fam) {
            continue;
        }
        let p = best(r.fam, &all.iter().collect::<Vec<_>>())?;
        let requires: Vec<Req> = match p.variants.len() {
            0 => p.requires.clone(),
            _ => {
                let possible: Vec<&Vec<Req>> = p.variants.iter().filter(|v| v.iter().all(|r| r.flag != 0 || best(r.fam, &all.iter().chain(&p.requires).chain(v.iter()).collect::<Vec<_>>()).is_some())).collect();
                if possible.len() != 1 {
                    return None;
                }
                p.requires.iter().chain(possible[0]).cloned().collect()
            }
        };
        sel.insert(r.fam, p);
        all.extend(requires);
    }
    let asked: Vec<&Req> = all.iter().collect();
    let good = sel.iter().all(|(f, p)| best(*f, &asked).is_some_and(|b| b.ver == p.ver));
    let sel: BTreeMap<usize, String> = sel.into_iter().map(|(k, v)| (k, v.ver.clone())).collect();
    let m: BTreeMap<usize, &str> = sel.iter().map(|(k, v)| (*k, v.as_str())).collect();
    (good && all.iter().all(|r| r.ok(&m))).then_some(sel)
}

/// C08
pub fn c08(c: &mut Ctx) {
    c.hang_secs = 60;
    c.rule("preference: non-trivial = at least two packages, some with several admissible versions; determinism: non-trivial = at least two packages");
    c.check("preference", 80_000, 800_000, || (prop_oneof![2 => world(5, 4, false), 1 => world(6, 3, false)], any::<bool>(), any::<bool>(), any::<bool>()), |(w, pre, latest, strict): &(World, bool, bool, bool)| {
        let Some(want) = obvious(&w.pkgs, &w.requests, *pre, *latest) else { return Ok(Info::new(false).label(true, "not-obvious")) };
        let (sel, failed) = solve(&w.pkgs, &w.requests, &cfg(*strict, *pre, *latest))?.map_err(|e| format!("failed ({e}) although {want:?} is a solution"))?;
        let got: BTreeMap<usize, String> = sel.iter().map(|s| (s.0, s.1.clone())).collect();
        if got != want || !failed.is_empty() {
            return Err(format!("selected {got:?} (failed {failed:?}), the {} admissible versions are {want:?}", if *latest { "newest" } else { "oldest" }));
        }
        let multi = w.pkgs.iter().any(|p| want.get(&p.fam).is_some_and(|v| *v != p.ver));
        Ok(Info::new(want.len() >= 2 && multi))
    });
    c.check("settled", 60_000, 800_000, || (prop_oneof![2 => world(5, 4, false), 1 => world(6, 3, false)], any::<bool>(), any::<bool>(), any::<bool>()), |(w, pre, latest, strict): &(World, bool, bool, bool)| {
        let Some(want) = settled(&w.pkgs, &w.requests, *pre, *latest) else { return Ok(Info::new(false).label(true, "unsettled")) };
        let (sel, failed) = solve(&w.pkgs, &w.requests, &cfg(*strict, *pre, *latest))?.map_err(|e| format!("failed ({e}) although {want:?} is a solution"))?;
        let got: BTreeMap<usize, String> = sel.iter().map(|s| (s.0, s.1.clone())).collect();
        if got != want || !failed.is_empty() {
            return Err(format!("selected {got:?} (failed {failed:?}), the {} admissible versions are {want:?}", if *latest { "newest" } else { "oldest" }));
        }
        let multi = w.pkgs.iter().any(|p| want.get(&p.fam).is_some_and(|v| *v != p.ver));
        Ok(Info::new(want.len() >= 2 && multi).label(w.pkgs.iter().any(|p| !p.variants.is_empty() && want.get(&p.fam) == Some(&p.ver)), "variants"))
    });
    c.check("determinism", 12_000, 200_000, || (prop_oneof![world(5, 3, false), world(6, 4, false), world(4, 4, true)], any::<u64>(), any::<bool>(), any::<bool>()), |(w, shuffle, strict, latest): &(World, u64, bool, bool)| {
        let c = cfg(*strict, true, *latest);
        let a = solve(&w.pkgs, &w.requests, &c)?;
        let mut p2 = w.pkgs.clone();
        p2.sort_by_key(|p| h64((shuffle, p.fam, &p.ver)));
        let b = solve(&p2, &w.requests, &c)?;
        let a2 = solve(&w.pkgs, &w.requests, &c)?;
        for (how, x) in [("in another repository order", &b), ("again", &a2)] {
            let same = match (&a, x) {
                (Ok((s, f)), Ok((s2, f2))) => s == s2 && f == f2,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                return Err(format!("solving {how}: {a:?} then {x:?}"));
            }
        }
        Ok(Info::new(a.as_ref().is_ok_and(|a| a.0.len() >= 2)).label(a.is_ok(), "solved"))
    });
    c.check("request", 20_000, 300_000, || (world(5, 3, false), prop::collection::vec(req((0..5).collect(), 0, 0), 0..=2), prop::collection::vec(0usize..5, 0..=1)), |(w, cons, excl): &(World, Vec<Req>, Vec<usize>)| {
        use rez_next_package::PackageRequirement;
        use rez_next_solver::{DependencySolver, SolverRequest};
        let pr = |r: &Req| PackageRequirement::parse(&r.text()).map_err(|e| e.to_string());
        let mut sr = SolverRequest::new(w.requests.iter().map(pr).collect::<Result<_, _>>()?);
        let mut all = w.requests.clone();
        for c in cons {
            sr = sr.with_constraint(pr(c)?);
            all.push(Req { flag: 1, ..c.clone() });
        }
        for e in excl {
            sr = sr.with_exclude(FAM[*e].to_string());
            all.push(Req { flag: 2, fam: *e, spec: Spec::None });
        }
        let s = DependencySolver::with_config(cfg(true, false, true)).with_repository_manager(manager(&w.pkgs));
        match s.resolve(sr) {
            Ok(r) => {
                let got: BTreeMap<usize, String> = r.packages.iter().map(|p| (FAM.iter().position(|f| *f == p.name).unwrap_or(99), p.version.as_ref().unwrap().as_str().to_string())).collect();
                let sols = solutions(&w.pkgs, &all, false, 5_000);
                if sols.len() < 5_000 && !sols.iter().any(|s| s.iter().map(|(k, v)| (*k, v.0.clone())).collect::<BTreeMap<_, _>>() == got) {
                    return Err(format!("{got:?} does not solve the request"));
                }
                Ok(Info::new(got.len() >= 2 && !(cons.is_empty() && excl.is_empty())).label(true, "solved"))
            }
            Err(_) => {
                if let Some(s) = solutions(&w.pkgs, &all, false, 1).first() {
                    return Err(format!("failed although {s:?} is a solution"));
                }
                Ok(Info::new(false))
            }
        }
    });
}
