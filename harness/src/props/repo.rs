use crate::core::*;
use crate::props::solver::{self, FAM, Pkg, Req};
use crate::refv::RV;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_repository::package_repository::filesystem::FilesystemPackageRepository;
use rez_next_repository::package_repository::PackageRepository as FsRepo;
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager, SimpleRepository};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
/// every path below `root` (relative) with file contents
pub fn snapshot(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                let ft = e.file_type().unwrap();
                if ft.is_symlink() {
                    out.insert(rel, Some(format!("-> {}", fs::read_link(&p).unwrap().display()).into_bytes()));
                } else if ft.is_dir() {
                    out.insert(rel, None);
                    go(root, &p, out);
                } else {
                    out.insert(rel, fs::read(&p).ok());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(root, root, &mut m);
    m
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Ok,
    Broken,
    Ignored,
    /// directory without a descriptor
    Empty,
    /// markers of other names beside it
    Decoy,
    /// broken but hidden
    HiddenBroken,
    /// only a package.yaml
    Yaml,
    /// package.py and a package.yaml that says something else
    Both,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Disk {
    /// per repository: (family, version, kind)
    repos: Vec<Vec<(usize, String, Kind)>>,
    /// (repository, family): a package without a version, where nothing else of the family is
    flat: Vec<(usize, usize)>,
    ops: Vec<Q>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Q {
    List,
    Find(usize),
    Get(usize, String),
    Latest(usize),
}
const NAMES: [&str; 4] = ["alpha_lib", "maya", "py-tool", "x"];
fn ver() -> BoxedStrategy<String> {
    select(vec!["1", "1.0", "1.2", "1.10", "2.0", "2.0.1", "10.0", "2.0.rc1", "3"]).prop_map(str::to_string).boxed()
}
fn write_pkg(root: &Path, name: &str, ver: &str, body: &str) -> PathBuf {
    let d = root.join(name).join(ver);
    fs::create_dir_all(&d).unwrap();
    fs::write(d.join("package.py"), body).unwrap();
    d
}

/// C10
pub fn c10(c: &mut Ctx) {
    c.rule("1 to 3 repositories of up to 9 package directories (good, broken, ignored, empty, with a package.yaml, beside other markers) queried in any order; non-trivial = a family has packages in two repositories or several versions");
    let kind = || select(vec![Kind::Ok, Kind::Ok, Kind::Ok, Kind::Ok, Kind::Ok, Kind::Ok, Kind::Ignored, Kind::Empty, Kind::Broken, Kind::Decoy, Kind::HiddenBroken, Kind::Yaml, Kind::Both]);
    let q = || prop_oneof![1 => Just(Q::List), 3 => (0usize..4).prop_map(Q::Find), 3 => (0usize..4, ver()).prop_map(|(f, v)| Q::Get(f, v)), 2 => (0usize..4).prop_map(Q::Latest)];
    c.check("query", 6_000, 100_000, || (prop::collection::vec(prop::collection::vec((0usize..4, ver(), kind()), 0..9), 1..=3), prop::collection::vec((0usize..3, 0usize..4), 0..3), prop::collection::vec(q(), 1..8)).prop_map(|(repos, flat, ops)| Disk { repos, flat, ops }), |d: &Disk| {
        let tmp = tempfile::tempdir().unwrap();
        let mut mgr = RepositoryManager::new();
        // family -> version -> first repository, per repository too
        let mut good: Vec<BTreeMap<usize, BTreeSet<String>>> = vec![];
        let mut broken: BTreeSet<usize> = BTreeSet::new();
        let mut singles = vec![];
        for (i, r) in d.repos.iter().enumerate() {
            let root = tmp.path().join(format!("repo{i}"));
            fs::create_dir_all(&root).unwrap();
            let mut g: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
            let mut seen = BTreeSet::new();
            for (f, v, k) in r {
                // versions that are equal (1 and 1.0) would be ambiguous inside one repository
                if seen.iter().any(|(sf, sv): &(usize, String)| sf == f && RV::of(sv).cmp(&RV::of(v)).is_eq()) {
                    continue;
                }
                seen.insert((*f, v.clone()));
                let body = format!("name = '{}'\nversion = '{v}'\ndescription = 'from repo{i}'\nrequires = ['python-3']\n", NAMES[*f]);
                match k {
                    Kind::Ok => {
                        write_pkg(&root, NAMES[*f], v, &body);
                        g.entry(*f).or_default().insert(v.clone());
                    }
                    Kind::Decoy => {
                        // markers that are not this version's
                        write_pkg(&root, NAMES[*f], v, &body);
                        for other in [".ignore".to_string(), format!(".ignore{v}.old"), format!(".ignore{v}9"), format!("ignore{v}")] {
                            if other != ".ignore1.09" && other != ".ignore19" {
                                fs::write(root.join(NAMES[*f]).join(other), "").unwrap();
                            }
                        }
                        g.entry(*f).or_default().insert(v.clone());
                    }
                    Kind::HiddenBroken => {
                        write_pkg(&root, NAMES[*f], v, "name = 'x\nversion = [[\n");
                        fs::write(root.join(NAMES[*f]).join(format!(".ignore{v}")), "").unwrap();
                    }
                    Kind::Yaml | Kind::Both => {
                        // only package.py describes a package
                        let dir = root.join(NAMES[*f]).join(v);
                        fs::create_dir_all(&dir).unwrap();
                        fs::write(dir.join("package.yaml"), format!("name: {}\nversion: '{v}'\ndescription: not this one\nrequires: [python-3]\n", NAMES[*f])).unwrap();
                        if *k == Kind::Both {
                            fs::write(dir.join("package.py"), &body).unwrap();
                            g.entry(*f).or_default().insert(v.clone());
                        }
                    }
                    Kind::Broken => {
                        write_pkg(&root, NAMES[*f], v, "name = 'x\nversion = [[\n");
                        broken.insert(*f);
                    }
                    Kind::Ignored => {
                        write_pkg(&root, NAMES[*f], v, &body);
                        fs::write(root.join(NAMES[*f]).join(format!(".ignore{v}")), "").unwrap();
                    }
                    Kind::Empty => fs::create_dir_all(root.join(NAMES[*f]).join(v).join("bin")).unwrap(),
                }
            }
            for (_, f) in d.flat.iter().filter(|x| x.0 == i) {
                if !seen.iter().any(|(sf, _)| sf == f) {
                    fs::create_dir_all(root.join(NAMES[*f])).unwrap();
                    fs::write(root.join(NAMES[*f]).join("package.py"), format!("name = '{}'\ndescription = 'from repo{i}'\nrequires = ['python-3']\n", NAMES[*f])).unwrap();
                    g.entry(*f).or_default().insert(String::new());
                }
            }
            fs::write(root.join("README.txt"), "x").unwrap();
            good.push(g);
            mgr.add_repository(Box::new(SimpleRepository::new(&root, format!("repo{i}"))));
            singles.push(SimpleRepository::new(&root, format!("repo{i}")));
        }
        if mgr.repository_count() != d.repos.len() {
            return Err("repository count".into());
        }
        let all = |f: usize| -> Vec<(String, usize)> {
            let mut v: Vec<(String, usize)> = vec![];
            for (i, g) in good.iter().enumerate() {
                v.extend(g.get(&f).into_iter().flatten().map(|x| (x.clone(), i)));
            }
            v.sort_by(|a, b| a.0.is_empty().cmp(&b.0.is_empty()).then(if a.0.is_empty() || b.0.is_empty() { std::cmp::Ordering::Equal } else { RV::of(&b.0).cmp(&RV::of(&a.0)) }).then(a.1.cmp(&b.1)));
            v
        };
        let id = |p: &rez_next_package::Package| -> (String, usize) {
            let i: usize = p.description.as_deref().unwrap_or("").trim_start_matches("from repo").parse().unwrap_or(99);
            (p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default(), i)
        };
        for q in &d.ops {
            match q {
                Q::List => {
                    let got = block(mgr.list_packages()).map_err(|e| format!("list: {e}"))?;
                    let mut want: Vec<String> = (0..4).filter(|f| good.iter().any(|g| g.contains_key(f))).map(|f| NAMES[f].to_string()).collect();
                    want.sort();
                    if got != want {
                        return Err(format!("listed {got:?}, should be {want:?}"));
                    }
                    for (i, s) in singles.iter().enumerate() {
                        let got = block(s.list_packages()).map_err(|e| format!("list: {e}"))?;
                        let mut want: Vec<String> = good[i].keys().map(|f| NAMES[*f].to_string()).collect();
                        want.sort();
                        if got != want {
                            return Err(format!("repo{i} lists {got:?}, should be {want:?}"));
                        }
                    }
                }
                Q::Find(f) => match block(mgr.find_packages(NAMES[*f])) {
                    Err(e) => {
                        if !broken.contains(f) {
                            return Err(format!("find {}: {e}", NAMES[*f]));
                        }
                    }
                    Ok(ps) => {
                        if broken.contains(f) {
                            return Err(format!("find {} hides a broken descriptor", NAMES[*f]));
                        }
                        let got: Vec<(String, usize)> = ps.iter().map(|p| id(p)).collect();
                        if got != all(*f) {
                            return Err(format!("found {} {got:?}, should be {:?}", NAMES[*f], all(*f)));
                        }
                        for p in &ps {
                            let (v, i) = id(p);
                            let root = tmp.path().join(format!("repo{i}")).join(NAMES[*f]);
                            let root = if v.is_empty() { root } else { root.join(&v) };
                            if p.name != NAMES[*f] || p.requires != ["python-3"] || p.filepath.as_deref() != root.join("package.py").to_str() || p.root().map(PathBuf::from) != Some(root.clone()) {
                                return Err(format!("{}-{v} loaded as {:?} {:?} {:?} root {:?}", NAMES[*f], p.name, p.requires, p.filepath, p.root()));
                            }
                        }
                    }
                },
                Q::Get(f, v) => {
                    let want = good.iter().enumerate().find_map(|(i, g)| g.get(f).and_then(|s| s.iter().find(|x| !x.is_empty() && RV::of(x).cmp(&RV::of(v)).is_eq())).map(|x| (x.clone(), i)));
                    match block(mgr.get_package(NAMES[*f], Some(v))) {
                        Err(e) => {
                            if !broken.contains(f) {
                                return Err(format!("get {}-{v}: {e}", NAMES[*f]));
                            }
                        }
                        Ok(p) => {
                            let got = p.as_ref().map(|p| id(p));
                            if got != want && !broken.contains(f) {
                                return Err(format!("get {}-{v} gave {got:?}, should be {want:?}", NAMES[*f]));
                            }
                        }
                    }
                }
                Q::Latest(f) => {
                    for (i, s) in singles.iter().enumerate() {
                        if let Ok(ps) = block(s.find_packages(NAMES[*f])) {
                            let mut got: Vec<(String, usize)> = ps.iter().map(|p| id(p)).collect();
                            got.sort();
                            let mut want: Vec<(String, usize)> = all(*f).into_iter().filter(|x| x.1 == i).collect();
                            want.sort();
                            if got != want && !broken.contains(f) {
                                return Err(format!("repo{i} holds {} {got:?}, should be {want:?}", NAMES[*f]));
                            }
                        } else if !broken.contains(f) {
                            return Err(format!("repo{i}: find {} failed", NAMES[*f]));
                        }
                    }
                    let want = all(*f).into_iter().next();
                    match block(mgr.get_package(NAMES[*f], None)) {
                        Err(e) => {
                            if !broken.contains(f) {
                                return Err(format!("latest {}: {e}", NAMES[*f]));
                            }
                        }
                        Ok(p) => {
                            let got = p.as_ref().map(|p| id(p));
                            if got != want && !broken.contains(f) {
                                return Err(format!("latest {} gave {got:?}, should be {want:?}", NAMES[*f]));
                            }
                        }
                    }
                    for (i, s) in singles.iter().enumerate() {
                        let want = all(*f).into_iter().find(|x| x.1 == i);
                        if let Ok(p) = block(s.get_package(NAMES[*f], None)) {
                            let got = p.as_ref().map(|p| id(p));
                            if got != want && !broken.contains(f) {
                                return Err(format!("latest {} of repo{i} gave {got:?}, should be {want:?}", NAMES[*f]));
                            }
                        }
                    }
                }
            }
        }
        let multi = (0..4).any(|f| all(f).len() >= 2);
        Ok(Info::new(multi).label(!broken.is_empty(), "broken").label((0..4).any(|f| all(f).iter().any(|x| x.0.is_empty())), "versionless").label(d.repos.len() > 1, "several-repositories"))
    });
    c.check("solve", 5_000, 60_000, || (solver::world(4, 3, false), prop::collection::vec(0u8..3, 12), prop::option::weighted(0.3, 0usize..12)), |(w, place, bad): &(solver::World, Vec<u8>, Option<usize>)| {
        // the same packages spread over two repositories on disk give the in-memory solution
        let tmp = tempfile::tempdir().unwrap();
        let mut mgr = RepositoryManager::new();
        for i in 0..2 {
            fs::create_dir_all(tmp.path().join(format!("r{i}"))).unwrap();
        }
        let py = |l: &[Req]| format!("[{}]", l.iter().map(|r| format!("\"{}\"", r.text())).collect::<Vec<_>>().join(", "));
        for (k, p) in w.pkgs.iter().enumerate() {
            let body = |tag: &str| {
                let mut b = format!("name = \"{}\"\nversion = \"{}\"\ndescription = \"{tag}\"\nrequires = {}\n", FAM[p.fam], p.ver, py(&p.requires));
                if !p.variants.is_empty() {
                    b.push_str(&format!("variants = [{}]\n", p.variants.iter().map(|v| py(v)).collect::<Vec<_>>().join(", ")));
                }
                b
            };
            let where_ = place[k % place.len()];
            if where_ != 1 {
                write_pkg(&tmp.path().join("r0"), FAM[p.fam], &p.ver, &body("r0"));
            }
            if where_ != 0 {
                // a copy in the second repository is shadowed by one in the first
                write_pkg(&tmp.path().join("r1"), FAM[p.fam], &p.ver, &body("r1"));
            }
        }
        let bad = bad.map(|b| &w.pkgs[b % w.pkgs.len()]);
        if let Some(p) = bad {
            for r in ["r0", "r1"] {
                let f = tmp.path().join(r).join(FAM[p.fam]).join(&p.ver).join("package.py");
                if f.exists() {
                    fs::write(&f, "name = \n  (((").unwrap();
                }
            }
        }
        for i in 0..2 {
            mgr.add_repository(Box::new(SimpleRepository::new(tmp.path().join(format!("r{i}")), format!("r{i}"))));
        }
        let cfg = rez_next_solver::SolverConfig { strict_mode: true, ..Default::default() };
        let mem = solver::solve(&w.pkgs, &w.requests, &cfg)?;
        let reqs = w.requests.iter().map(|r| r.text().parse().unwrap()).collect();
        let disk = block(rez_next_solver::DependencyResolver::new(std::sync::Arc::new(mgr), cfg).resolve(reqs));
        if let Some(bad) = bad {
            // what cannot be read is never taken for absent
            let Ok(d) = disk else { return Ok(Info::new(true).label(true, "unreadable")) };
            let got: Vec<(usize, String, Option<usize>)> = d.resolved_packages.iter().map(|p| (FAM.iter().position(|f| *f == p.package.name).unwrap(), p.package.version.as_ref().unwrap().as_str().to_string(), p.variant_index)).collect();
            if got.iter().any(|g| g.0 == bad.fam) {
                return Err(format!("{got:?} holds {}, one version of which cannot be read", FAM[bad.fam]));
            }
            solver::valid(&w.pkgs, &w.requests, &got, false).map_err(|e| format!("with {}-{} unreadable: {e}", FAM[bad.fam], bad.ver))?;
            return Ok(Info::new(got.len() >= 2).label(true, "unreadable, not needed"));
        }
        match (mem, disk) {
            (Err(_), Err(_)) => Ok(Info::new(false).label(true, "unsolved")),
            (Ok((m, _)), Ok(d)) => {
                let got: Vec<(usize, String, Option<usize>)> = d.resolved_packages.iter().map(|p| (FAM.iter().position(|f| *f == p.package.name).unwrap(), p.package.version.as_ref().unwrap().as_str().to_string(), p.variant_index)).collect();
                if got != m {
                    return Err(format!("from disk {got:?}, from memory {m:?}"));
                }
                for p in &d.resolved_packages {
                    let k = w.pkgs.iter().position(|q: &Pkg| FAM[q.fam] == p.package.name && q.ver == p.package.version.as_ref().unwrap().as_str()).unwrap();
                    let want = if place[k % place.len()] == 1 { "r1" } else { "r0" };
                    if p.package.description.as_deref() != Some(want) {
                        return Err(format!("{} came from {:?}, should come from {want}", p.package.name, p.package.description));
                    }
                    let mut root = tmp.path().join(want).join(&p.package.name).join(&w.pkgs[k].ver);
                    if let Some(v) = p.variant_index {
                        for r in &w.pkgs[k].variants[v] {
                            root = root.join(r.text());
                        }
                    }
                    if p.materialized_package().root().map(PathBuf::from) != Some(root.clone()) {
                        return Err(format!("{} is rooted at {:?}, should be {root:?}", p.package.name, p.materialized_package().root()));
                    }
                }
                Ok(Info::new(m.len() >= 2).label(true, "solved"))
            }
            (m, d) => Err(format!("from memory {m:?}, from disk {:?}", d.map(|d| d.resolved_packages.len()))),
        }
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum L {
    Ignore(String, Option<String>, bool),
    Unignore(String, Option<String>),
    Remove(String, Option<String>),
    RemoveFamily(String, bool),
    RemoveIgnored(i32, bool),
    Get(String, Option<String>),
    Payload(String, Option<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    initial: Vec<(String, String)>,
    ops: Vec<L>,
    read_only: bool,
}
fn fam() -> BoxedStrategy<String> {
    prop_oneof![
        12 => select(vec!["maya", "py", "x"]).prop_map(str::to_string),
        // never more than two levels up: the repository lies eight levels inside the scratch directory
        2 => select(vec!["..", ".", "", "../sib", "maya/..", "py/1.0", "/@SCRATCH@/sib", "../repo/py", ".hidden"]).prop_map(str::to_string)
    ]
    .boxed()
}
fn lver() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        14 => select(vec!["1.0", "1.0.0", "2.0", "2.0.RC1", "2.0.rc1", "1.0-beta", "3.1"]).prop_map(|s| Some(s.to_string())),
        2 => select(vec!["..", ".", "", "../../sib", "../py", "1.0/bin", "/@SCRATCH@/sib"]).prop_map(|s| Some(s.to_string())),
        1 => Just(None)
    ]
    .boxed()
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.contains('/')
}
/// C11
pub fn c11(c: &mut Ctx) {
    c.rule("sequences of up to 14 lifecycle calls, one in six with a name or version that tries to leave the repository; non-trivial = at least two calls changed the repository");
    let op = || {
        prop_oneof![
            4 => (fam(), lver(), any::<bool>()).prop_map(|(a, b, c)| L::Ignore(a, b, c)),
            3 => (fam(), lver()).prop_map(|(a, b)| L::Unignore(a, b)),
            3 => (fam(), lver()).prop_map(|(a, b)| L::Remove(a, b)),
            1 => (fam(), any::<bool>()).prop_map(|(a, b)| L::RemoveFamily(a, b)),
            1 => (select(vec![0, 0, 1, 30, -1]), any::<bool>()).prop_map(|(a, b)| L::RemoveIgnored(a, b)),
            2 => (fam(), lver()).prop_map(|(a, b)| L::Get(a, b)),
            1 => (fam(), lver()).prop_map(|(a, b)| L::Payload(a, b)),
        ]
    };
    let init = || prop::collection::vec((select(vec!["maya", "py"]).prop_map(str::to_string), select(vec!["1.0", "2.0", "2.0.RC1", "2.0.rc1", "1.0-beta"]).prop_map(str::to_string)), 1..6);
    c.check("lifecycle", 9_000, 150_000, || (init(), prop::collection::vec(op(), 1..14), prop::bool::weighted(0.1)).prop_map(|(initial, ops, read_only)| Life { initial, ops, read_only }), |l: &Life| {
        let tmp = tempfile::tempdir().unwrap();
        let deep = tmp.path().join("a/b/c/d/e/f");
        let scratch = deep.to_string_lossy().trim_start_matches('/').to_string();
        let root = deep.join("repo");
        fs::create_dir_all(deep.join("sib/py/1.0")).unwrap();
        fs::write(deep.join("sib/keep"), "keep").unwrap();
        let mut pk: BTreeSet<(String, String)> = BTreeSet::new();
        for (n, v) in &l.initial {
            let d = write_pkg(&root, n, v, &format!("name = '{n}'\nversion = '{v}'\n"));
            fs::create_dir_all(d.join("bin")).unwrap();
            pk.insert((n.clone(), v.clone()));
        }
        fs::create_dir_all(root.join(".hidden/1.0")).unwrap();
        // files and directories that are no packages: a file named like a version or family, private directories
        fs::create_dir_all(root.join("_share/1.0")).unwrap();
        fs::write(root.join("notes"), "n").unwrap();
        let stray = ["3.1", "_cache", ".tmp"];
        let mut strays = pk.iter().any(|p| p.0 == "maya");
        if strays {
            fs::write(root.join("maya/3.1"), "not a directory").unwrap();
            fs::create_dir_all(root.join("maya/_cache")).unwrap();
            fs::create_dir_all(root.join("maya/.tmp")).unwrap();
        }
        let mut fams: BTreeSet<String> = pk.iter().map(|p| p.0.clone()).collect();
        let mut marks: BTreeSet<(String, String)> = BTreeSet::new();
        let mut repo = FilesystemPackageRepository::new(&root).with_read_only(l.read_only);
        let sub = |s: &String| s.replace("@SCRATCH@", &scratch);
        let osub = |s: &Option<String>| s.as_ref().map(|s| s.replace("@SCRATCH@", &scratch));
        let mut changed = 0;
        let mut escapes = false;
        for (t, op) in l.ops.iter().enumerate() {
            let ctx = |e: String| format!("step {t} {op:?}: {e}");
            let before = snapshot(tmp.path());
            let hostile = |n: &str, v: &Option<String>| !plain(n) || v.as_ref().is_none_or(|v| !plain(v));
            let mut want_change = true;
            match op {
                L::Ignore(n, v, miss) => {
                    let (n, v) = (sub(n), osub(v));
                    let r = repo.ignore_package(&n, v.as_deref(), *miss);
                    if l.read_only || hostile(&n, &v) {
                        escapes |= !l.read_only;
                        if r.is_ok() {
                            return Err(ctx(format!("accepted: {r:?}")));
                        }
                        want_change = false;
                    } else {
                        let k = (n, v.unwrap());
                        let exists = pk.contains(&k) || (k.0 == ".hidden" && k.1 == "1.0");
                        let want = if !exists && !miss { -1 } else if marks.contains(&k) { 0 } else { 1 };
                        if r.as_ref().ok() != Some(&want) {
                            return Err(ctx(format!("{r:?}, should be {want}")));
                        }
                        if want >= 0 {
                            fams.insert(k.0.clone());
                            marks.insert(k);
                        }
                    }
                }
                L::Unignore(n, v) => {
                    let (n, v) = (sub(n), osub(v));
                    let r = repo.unignore_package(&n, v.as_deref());
                    if l.read_only || hostile(&n, &v) {
                        escapes |= !l.read_only;
                        if r.is_ok() {
                            return Err(ctx(format!("accepted: {r:?}")));
                        }
                        want_change = false;
                    } else {
                        let k = (n, v.unwrap());
                        let had = marks.remove(&k);
                        let want = if pk.contains(&k) || (k.0 == ".hidden" && k.1 == "1.0") { i32::from(had) } else { -1 };
                        if r.as_ref().ok() != Some(&want) {
                            return Err(ctx(format!("{r:?}, should be {want}")));
                        }
                    }
                }
                L::Remove(n, v) => {
                    let (n, v) = (sub(n), osub(v));
                    if n == ".hidden" {
                        continue;
                    }
                    let r = repo.remove_package(&n, v.as_deref());
                    if l.read_only || hostile(&n, &v) {
                        escapes |= !l.read_only;
                        if r.is_ok() {
                            return Err(ctx(format!("accepted: {r:?}")));
                        }
                        want_change = false;
                    } else {
                        let k = (n, v.unwrap());
                        let had = pk.remove(&k);
                        if had {
                            marks.remove(&k);
                        }
                        if r.as_ref().ok() != Some(&had) {
                            return Err(ctx(format!("{r:?}, should be {had}")));
                        }
                    }
                }
                L::RemoveFamily(n, force) => {
                    let n = sub(n);
                    if n == ".hidden" || (strays && n == "maya" && !force && !pk.iter().any(|p| p.0 == n)) {
                        continue;
                    }
                    let r = repo.remove_package_family(&n, *force);
                    if l.read_only || !plain(&n) {
                        escapes |= !l.read_only;
                        if r.is_ok() {
                            return Err(ctx(format!("accepted: {r:?}")));
                        }
                        want_change = false;
                    } else {
                        let nonempty = pk.iter().any(|p| p.0 == n);
                        if !fams.contains(&n) {
                            if r.as_ref().ok() != Some(&false) {
                                return Err(ctx(format!("{r:?}, should be false")));
                            }
                        } else if nonempty && !force {
                            if r.is_ok() {
                                return Err(ctx("removed a family that has packages".into()));
                            }
                        } else {
                            if r.as_ref().ok() != Some(&true) {
                                return Err(ctx(format!("{r:?}, should be true")));
                            }
                            fams.remove(&n);
                            strays &= n != "maya";
                            pk.retain(|p| p.0 != n);
                            marks.retain(|p| p.0 != n);
                        }
                    }
                }
                L::RemoveIgnored(days, dry) => {
                    if marks.iter().any(|m| m.0 == ".hidden") {
                        continue;
                    }
                    let r = repo.remove_ignored_since(*days, *dry, false);
                    if l.read_only || *days < 0 {
                        if r.is_ok() {
                            return Err(ctx("accepted".into()));
                        }
                        want_change = false;
                    } else {
                        let hit: Vec<_> = if *days == 0 { marks.iter().filter(|m| pk.contains(m)).cloned().collect() } else { vec![] };
                        if r.as_ref().ok() != Some(&(hit.len() as i32)) {
                            return Err(ctx(format!("{r:?}, should be {}", hit.len())));
                        }
                        if *dry {
                            want_change = false;
                        } else {
                            for h in hit {
                                pk.remove(&h);
                                marks.remove(&h);
                            }
                        }
                    }
                }
                L::Get(n, v) => {
                    want_change = false;
                    let (n, v) = (sub(n), osub(v));
                    if n == ".hidden" {
                        continue;
                    }
                    let r = repo.get_package(&n, v.as_deref());
                    let vis: Vec<&(String, String)> = pk.iter().filter(|p| p.0 == n && !marks.contains(*p)).collect();
                    let got = match &r {
                        Ok(Some(p)) => Some(p.version().map(|v| v.as_str().to_string()).unwrap_or_default()),
                        _ => None,
                    };
                    let ok = match &v {
                        Some(v) => got == vis.iter().find(|p| p.1 == *v).map(|p| p.1.clone()),
                        None => got.is_some() == !vis.is_empty() && got.iter().all(|g| vis.iter().any(|p| p.1 == *g)),
                    };
                    if !ok {
                        return Err(ctx(format!("got {got:?} among visible {vis:?}")));
                    }
                }
                L::Payload(n, v) => {
                    want_change = false;
                    let (n, v) = (sub(n), osub(v));
                    let bad = !plain(&n) || v.as_ref().is_some_and(|v| !plain(v));
                    let r = repo.get_package_payload_path(&n, v.as_deref());
                    match (&r, bad) {
                        (Err(_), true) => {}
                        (Ok(Some(p)), false) if *p == v.iter().fold(root.join(&n), |p, v| p.join(v)) => {}
                        _ => return Err(ctx(format!("payload path {r:?}"))),
                    }
                }
            }
            let after = snapshot(tmp.path());
            if !want_change && before != after {
                return Err(ctx("changed the file system".into()));
            }
            if before != after {
                changed += 1;
            }
            // everything outside the repository is untouched, and inside matches the model
            let rel = root.strip_prefix(tmp.path()).unwrap().to_string_lossy().to_string();
            for (p, v) in &before {
                if !p.starts_with(&rel) && after.get(p) != Some(v) {
                    return Err(ctx(format!("touched {p} outside the repository")));
                }
            }
            for p in after.keys() {
                if !p.starts_with(&rel) && !before.contains_key(p) {
                    return Err(ctx(format!("created {p} outside the repository")));
                }
            }
            let got_f: BTreeSet<String> = repo.iter_package_families().map_err(|e| ctx(e.to_string()))?.into_iter().map(|f| f.name).collect();
            let want_f: BTreeSet<String> = fams.iter().filter(|f| *f != ".hidden").cloned().collect();
            if got_f != want_f {
                return Err(ctx(format!("families {got_f:?}, should be {want_f:?}")));
            }
            for f in &want_f {
                let fr = repo.get_package_family(f).map_err(|e| ctx(e.to_string()))?.ok_or(ctx("family not found".into()))?;
                let mut got: Vec<String> = repo.iter_packages(&fr).map_err(|e| ctx(e.to_string()))?.iter().map(|p| p.version().map(|v| v.as_str().to_string()).unwrap_or_default()).collect();
                got.sort();
                let want: Vec<String> = pk.iter().filter(|p| p.0 == *f && !marks.contains(*p)).map(|p| p.1.clone()).collect();
                if got != want {
                    return Err(ctx(format!("packages of {f}: {got:?}, should be {want:?}")));
                }
                for p in repo.iter_packages(&fr).map_err(|e| ctx(e.to_string()))? {
                    let up = repo.get_parent_package_family(&p).map_err(|e| ctx(e.to_string()))?;
                    if up.name != *f || p.name() != f {
                        return Err(ctx(format!("a package of {f} is named {} and belongs to {}", p.name(), up.name)));
                    }
                    for va in repo.iter_variants(&p).map_err(|e| ctx(e.to_string()))? {
                        let up = repo.get_parent_package(&va).map_err(|e| ctx(e.to_string()))?;
                        if up.name() != f || up.version() != p.version() {
                            return Err(ctx(format!("a variant of {f} {:?} belongs to {} {:?}", p.version(), up.name(), up.version())));
                        }
                    }
                }
            }
            if (strays && stray.iter().any(|s| !root.join("maya").join(s).exists())) || !root.join("notes").is_file() || !root.join("_share/1.0").is_dir() {
                return Err(ctx("removed something that is no package".into()));
            }
            for (n, v) in &pk {
                if !root.join(n).join(v).join("package.py").is_file() || !root.join(n).join(v).join("bin").is_dir() {
                    return Err(ctx(format!("payload of {n}-{v} damaged")));
                }
            }
        }
        Ok(Info::new(changed >= 2).label(escapes, "escape-attempt").label(l.read_only, "read-only"))
    });
}
