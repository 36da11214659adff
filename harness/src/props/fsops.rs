//! C12: copying, moving and removing packages.
use crate::core::*;
use crate::props::repo::snapshot;
use crate::refv::RV;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::package_copy::{PackageCopyConfig, copy_package, dir_size, find_package_dir};
use rez_next_package::package_move::{PackageMoveConfig, move_package};
use rez_next_package::package_remove::{PackageRemoveConfig, preview_removal, remove_package_family, remove_package_version};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

type Snap = BTreeMap<String, Option<Vec<u8>>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    File(String, usize),
    Dir(String),
    Link(String, String),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Lay {
    Plain,
    /// base/name/name-version
    Long,
    /// the version directory is a link to a directory elsewhere
    Linked,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct P {
    repo: usize,
    name: String,
    ver: String,
    lay: Lay,
    items: Vec<Item>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Copy { n: String, v: String, dest: usize, force: bool, search: Vec<usize> },
    Move { n: String, v: String, dest: usize, force: bool, keep: bool, search: Vec<usize> },
    RemV { n: String, v: String, search: Vec<usize>, force: bool, prune: bool },
    RemF { n: String, search: Vec<usize>, force: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pkgs: Vec<P>,
    ops: Vec<Op>,
}

fn items() -> BoxedStrategy<Vec<Item>> {
    let path = || select(vec!["a.txt", "bin/run", "bin/deep/x", "lib", "é.dat", ".dot", "sub dir/f"]).prop_map(str::to_string);
    prop::collection::vec(
        prop_oneof![
            5 => (path(), 0usize..300).prop_map(|(p, n)| Item::File(p, n)),
            1 => path().prop_map(Item::Dir),
            2 => (path(), select(vec!["a.txt", "../1.0", "missing", "..", "bin"]).prop_map(str::to_string)).prop_map(|(p, t)| Item::Link(p, t)),
        ],
        0..5,
    )
    .boxed()
}
fn name() -> BoxedStrategy<String> {
    prop_oneof![5 => Just("aa".to_string()), 4 => Just("bb".to_string()), 1 => hostile()].boxed()
}
fn ver() -> BoxedStrategy<String> {
    prop_oneof![6 => Just("1.0".to_string()), 4 => Just("2.0".to_string()), 1 => Just("9".to_string()), 1 => hostile()].boxed()
}
fn hostile() -> BoxedStrategy<String> {
    select(vec!["", ".", "..", "../r1", "../sib", "aa/1.0", "aa/..", "./aa", "/@S@/sib", "../../f/r1/aa", "1.0/", "1.0/bin"]).prop_map(str::to_string).boxed()
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.contains('/')
}
fn search() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![2 => Just(vec![0]), 2 => Just(vec![0, 1]), 2 => Just(vec![1, 0]), 2 => Just(vec![0, 1, 2]), 1 => Just(vec![2, 1]), 1 => Just(vec![1]), 1 => select(vec![vec![0, 0], vec![1, 0, 1], vec![0, 1, 0]])].boxed()
}
/// search paths with the repository that lies inside a package
fn nested() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![5 => search(), 1 => Just(vec![3]), 1 => select(vec![vec![3, 0], vec![0, 3], vec![1, 3]])].boxed()
}
fn op() -> BoxedStrategy<Op> {
    let dest = || prop_oneof![3 => Just(0usize), 3 => Just(1), 3 => Just(2), 2 => Just(3), 1 => Just(4), 1 => Just(5), 1 => Just(6)];
    prop_oneof![
        4 => (name(), ver(), dest(), any::<bool>(), nested()).prop_map(|(n, v, dest, force, search)| Op::Copy { n, v, dest, force, search }),
        4 => (name(), ver(), dest(), any::<bool>(), prop::bool::weighted(0.2), nested()).prop_map(|(n, v, dest, force, keep, search)| Op::Move { n, v, dest, force, keep, search }),
        3 => (name(), ver(), search(), prop::bool::weighted(0.75), any::<bool>()).prop_map(|(n, v, search, force, prune)| Op::RemV { n, v, search, force, prune }),
        1 => (name(), search(), prop::bool::weighted(0.6)).prop_map(|(n, search, force)| Op::RemF { n, search, force }),
    ]
    .boxed()
}
fn pkg() -> BoxedStrategy<P> {
    (prop_oneof![7 => 0usize..3, 1 => Just(3)], select(vec!["aa", "bb"]).prop_map(str::to_string), select(vec!["1.0", "2.0"]).prop_map(str::to_string), prop_oneof![6 => Just(Lay::Plain), 1 => Just(Lay::Long), 1 => Just(Lay::Linked)], items())
        .prop_map(|(repo, name, ver, lay, items)| P { repo, name, ver, lay, items })
        .boxed()
}

fn populate(dir: &Path, items: &[Item], salt: u64) {
    fs::create_dir_all(dir).unwrap();
    for it in items {
        let p = match it {
            Item::File(p, _) | Item::Dir(p) | Item::Link(p, _) => dir.join(p),
        };
        if fs::symlink_metadata(&p).is_ok() || fs::create_dir_all(p.parent().unwrap()).is_err() {
            continue;
        }
        // a parent that is a link could lead anywhere; keep payloads inside
        if fs::canonicalize(p.parent().unwrap()).ok().is_none_or(|c| !c.starts_with(fs::canonicalize(dir).unwrap())) {
            continue;
        }
        match it {
            Item::File(_, n) => drop(fs::write(&p, format!("{salt}:").repeat(*n / 2))),
            Item::Dir(_) => drop(fs::create_dir(&p)),
            Item::Link(_, t) => drop(std::os::unix::fs::symlink(t, &p)),
        }
    }
}
fn sub(s: &Snap, pre: &str) -> Snap {
    let p = format!("{pre}/");
    s.iter().filter_map(|(k, v)| k.strip_prefix(&p).map(|r| (r.to_string(), v.clone()))).collect()
}
fn drop_tree(s: &mut Snap, pre: &str) {
    let p = format!("{pre}/");
    s.retain(|k, _| k != pre && !k.starts_with(&p));
}
fn add_dirs(s: &mut Snap, path: &str) {
    let mut at = String::new();
    for c in path.split('/') {
        if !at.is_empty() {
            at.push('/');
        }
        at.push_str(c);
        s.entry(at.clone()).or_insert(None);
    }
}
fn real(p: &Path) -> PathBuf {
    match fs::canonicalize(p) {
        Ok(r) => r,
        Err(_) => match (p.parent(), p.file_name()) {
            (Some(d), Some(n)) => real(d).join(n),
            _ => p.to_path_buf(),
        },
    }
}
fn diff(want: &Snap, got: &Snap) -> Option<String> {
    if want == got {
        return None;
    }
    let mut o = vec![];
    for k in want.keys() {
        if !got.contains_key(k) {
            o.push(format!("lost {k}"));
        } else if want[k] != got[k] {
            o.push(format!("changed {k}"));
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            o.push(format!("created {k}"));
        }
    }
    o.truncate(6);
    Some(o.join(", "))
}
/// a search path given twice counts once
fn once(l: Vec<PathBuf>) -> Vec<PathBuf> {
    let mut o: Vec<PathBuf> = vec![];
    for p in l {
        if !o.contains(&p) {
            o.push(p);
        }
    }
    o
}
fn tree_size(s: &Snap, dir: &Path) -> (usize, u64) {
    let _ = s;
    let mut f = 0;
    let mut b = 0;
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let m = e.metadata().unwrap();
        if m.is_dir() {
            let (x, y) = tree_size(s, &e.path());
            f += x;
            b += y;
        } else {
            f += 1;
            if m.is_file() {
                b += m.len();
            }
        }
    }
    (f, b)
}

pub fn c12(c: &mut Ctx) {
    c.rule("library: up to 6 packages (files, directories, links, linked version directories) in three repositories and up to 6 copy, move and remove calls, one name or version in ten trying to leave the repository; non-trivial = a call changed the disk");
    c.assume("no concurrent change of the repositories during a call; symbolic links keep their target text when copied");
    c.check("library", 12_000, 120_000, || (prop::collection::vec(pkg(), 1..7), prop::collection::vec(op(), 1..7)).prop_map(|(pkgs, ops)| Case { pkgs, ops }), |cs: &Case| {
        let tmp = tempfile::tempdir().unwrap();
        let top = fs::canonicalize(tmp.path()).unwrap();
        let deep = top.join("a/b/c/d/e/f");
        let scratch = deep.to_string_lossy().trim_start_matches('/').to_string();
        let base = |i: usize| deep.join(["r0", "r1", "r2", "r0/aa/1.0/nest"][i]);
        for i in 0..3 {
            fs::create_dir_all(base(i)).unwrap();
        }
        fs::create_dir_all(deep.join("sib/aa/1.0")).unwrap();
        fs::write(deep.join("sib/keep"), "keep").unwrap();
        std::os::unix::fs::symlink(base(0), deep.join("alias0")).unwrap();
        let mut made: Vec<&P> = cs.pkgs.iter().collect();
        made.sort_by_key(|p| p.repo);
        for (k, p) in made.into_iter().enumerate() {
            if p.repo == 3 && base(0).join("aa/1.0").is_symlink() {
                continue;
            }
            let d = base(p.repo).join(&p.name).join(if p.lay == Lay::Long { format!("{}-{}", p.name, p.ver) } else { p.ver.clone() });
            if fs::symlink_metadata(&d).is_ok() {
                continue;
            }
            if p.lay == Lay::Linked {
                let t = deep.join(format!("store/{k}"));
                populate(&t, &p.items, k as u64);
                fs::create_dir_all(d.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(&t, &d).unwrap();
            } else {
                populate(&d, &p.items, k as u64);
            }
        }
        let rel = |p: &Path| p.strip_prefix(&top).unwrap().to_string_lossy().to_string();
        let mut changed = 0;
        let (mut overl, mut forced, mut host, mut shadow) = (false, false, false, false);
        for (t, op) in cs.ops.iter().enumerate() {
            let fix = |s: &String| s.replace("@S@", &scratch);
            let before = snapshot(&top);
            let ctx = |e: String| format!("step {t} {op:?}: {e}");
            let mut want = before.clone();
            let mut ignore_empty: Option<String> = None;
            match op {
                Op::Copy { n, v, dest, force, search } | Op::Move { n, v, dest, force, search, .. } => {
                    let (n, v) = (fix(n), fix(v));
                    let keep = !matches!(op, Op::Move { keep: false, .. });
                    let paths: Vec<PathBuf> = search.iter().map(|i| base(*i)).collect();
                    let cands: Vec<PathBuf> = if plain(&n) && plain(&v) { paths.iter().flat_map(|b| [b.join(&n).join(&v), b.join(&n).join(format!("{n}-{v}"))]).filter(|d| d.is_dir()).collect() } else { vec![] };
                    shadow |= cands.len() > 1;
                    let src = cands.first().cloned();
                    let dbase = match dest {
                        0..=2 => base(*dest),
                        3 => deep.join("fresh/new"),
                        4 => src.clone().unwrap_or(base(0)).join("inner"),
                        5 => base(1).join("../r0"),
                        _ => deep.join("alias0"),
                    };
                    host |= !plain(&n) || !plain(&v);
                    let want_ok = src.as_ref().is_some_and(|s| {
                        let d = dbase.join(&n).join(&v);
                        let (rs, rd) = (real(s), real(&d));
                        let over = rd.starts_with(&rs) || rs.starts_with(&rd);
                        overl |= over;
                        !over && (*force || !d.exists())
                    });
                    let found = find_package_dir(&n, &v, &paths);
                    if found.as_ref().ok() != src.as_ref().map(|s| real(s)).as_ref() {
                        return Err(ctx(format!("find_package_dir {found:?}, should be {src:?}")));
                    }
                    let dest_dir = dbase.join(&n).join(&v);
                    let (mut nf, mut nb) = (0, 0);
                    if want_ok {
                        let s = src.clone().unwrap();
                        forced |= dest_dir.exists();
                        (nf, nb) = tree_size(&before, &s);
                        let sz = dir_size(&s).map_err(|e| ctx(e.to_string()))?;
                        let _ = sz;
                        // where the copy lands (the parent may be reached through a link)
                        let d = rel(&real(dest_dir.parent().unwrap()).join(&v));
                        let content = sub(&before, &rel(&real(&s)));
                        drop_tree(&mut want, &d);
                        add_dirs(&mut want, &d);
                        for (k, x) in content {
                            want.insert(format!("{d}/{k}"), x);
                        }
                        if !keep {
                            let sr = rel(&s);
                            drop_tree(&mut want, &sr);
                            let fam = rel(s.parent().unwrap());
                            if !want.keys().any(|k| k.starts_with(&format!("{fam}/"))) {
                                drop_tree(&mut want, &fam);
                            }
                        }
                    }
                    let (ok, rsrc, rdst, rf, rb, removed) = if let Op::Move { keep, .. } = op {
                        let cfg = PackageMoveConfig { packages_path: paths, force: *force, keep_source: *keep, normalize_paths: true };
                        match move_package(&n, &v, &dbase, &cfg) {
                            Ok(r) => (true, r.source, r.destination, r.files_copied, r.bytes_copied, r.source_removed),
                            Err(_) => (false, PathBuf::new(), PathBuf::new(), 0, 0, false),
                        }
                    } else {
                        let cfg = PackageCopyConfig { packages_path: paths, force: *force, normalize_paths: true };
                        match copy_package(&n, &v, &dbase, &cfg) {
                            Ok(r) => (true, r.source, r.destination, r.files_copied, r.bytes_copied, false),
                            Err(_) => (false, PathBuf::new(), PathBuf::new(), 0, 0, false),
                        }
                    };
                    if ok != want_ok {
                        let d = diff(&before, &snapshot(&top));
                        return Err(ctx(format!("{} but should {}; disk: {d:?}", if ok { "succeeded" } else { "failed" }, if want_ok { "succeed" } else { "fail" })));
                    }
                    if ok {
                        if (rf, rb) != (nf, nb) {
                            return Err(ctx(format!("reported {rf} files {rb} bytes, copied {nf} files {nb} bytes")));
                        }
                        if rdst != dest_dir || real(&rsrc) != rsrc {
                            return Err(ctx(format!("reported source {rsrc:?} destination {rdst:?}")));
                        }
                        if removed == keep {
                            return Err(ctx(format!("source_removed = {removed}")));
                        }
                    }
                }
                Op::RemV { n, v, search, force, .. } => {
                    let (n, v) = (fix(n), fix(v));
                    let prune = matches!(op, Op::RemV { prune: true, .. });
                    let paths: Vec<PathBuf> = search.iter().map(|i| base(*i)).collect();
                    host |= !plain(&n) || !plain(&v);
                    let hit: Vec<PathBuf> = if plain(&n) && plain(&v) { paths.iter().map(|b| b.join(&n).join(&v)).filter(|d| d.is_dir()).collect() } else { vec![] };
                    let hit = once(hit);
                    let mut bytes = 0;
                    for h in &hit {
                        if !h.is_symlink() {
                            bytes += dir_bytes(h);
                        }
                        if *force {
                            drop_tree(&mut want, &rel(h));
                            let fam = rel(h.parent().unwrap());
                            if prune && !want.keys().any(|k| k.starts_with(&format!("{fam}/"))) {
                                drop_tree(&mut want, &fam);
                            }
                        }
                    }
                    if preview_removal(&n, Some(&v), &paths) != hit {
                        return Err(ctx(format!("preview {:?}, should be {hit:?}", preview_removal(&n, Some(&v), &paths))));
                    }
                    ignore_empty = Some(n.clone());
                    let cfg = PackageRemoveConfig { packages_path: paths, force: *force, prune_empty_families: prune };
                    match remove_package_version(&n, &v, &cfg) {
                        Ok(r) => {
                            if r.removed_paths != hit || r.versions_removed != hit.len() || r.bytes_freed != bytes {
                                return Err(ctx(format!("reported {r:?}, should be {hit:?} and {bytes} bytes")));
                            }
                        }
                        Err(e) => {
                            if !hit.is_empty() {
                                return Err(ctx(e.to_string()));
                            }
                        }
                    }
                }
                Op::RemF { n, search, force } => {
                    let n = fix(n);
                    let paths: Vec<PathBuf> = search.iter().map(|i| base(*i)).collect();
                    host |= !plain(&n);
                    let hit: Vec<PathBuf> = if plain(&n) { paths.iter().map(|b| b.join(&n)).filter(|d| d.is_dir()).collect() } else { vec![] };
                    let hit = once(hit);
                    let mut bytes = 0;
                    for h in &hit {
                        bytes += dir_bytes(h);
                        if *force {
                            drop_tree(&mut want, &rel(h));
                        }
                    }
                    if preview_removal(&n, None, &paths) != hit {
                        return Err(ctx("preview differs from what a removal removes".into()));
                    }
                    let cfg = PackageRemoveConfig { packages_path: paths, force: *force, prune_empty_families: true };
                    match remove_package_family(&n, &cfg) {
                        Ok(r) => {
                            if r.removed_paths != hit || r.bytes_freed != bytes {
                                return Err(ctx(format!("reported {r:?}, should be {hit:?} and {bytes} bytes")));
                            }
                        }
                        Err(e) => {
                            if !hit.is_empty() {
                                return Err(ctx(e.to_string()));
                            }
                        }
                    }
                }
            }
            let mut after = snapshot(&top);
            if let Some(n) = ignore_empty {
                // family directories that were empty before may be pruned or kept
                for i in 0..3 {
                    let f = rel(&base(i).join(&n));
                    if plain(&n) && before.get(&f) == Some(&None) && sub(&before, &f).is_empty() {
                        want.remove(&f);
                        after.remove(&f);
                    }
                }
            }
            if let Some(d) = diff(&want, &after) {
                return Err(ctx(format!("disk: {d}")));
            }
            if before != after {
                changed += 1;
            }
        }
        Ok(Info::new(changed > 0).label(overl, "onto-itself").label(forced, "overwrite").label(host, "hostile").label(shadow, "shadowed").label(changed > 1, "changes>1"))
    });

    c.rule("commands: rez cp, mv and rm run as processes over two repositories with ignored versions; non-trivial = the command changed the disk");
    c.check("commands", 5_000, 40_000, || {
        let p = || (0usize..2, select(vec!["aa", "bb", "py-tool"]).prop_map(str::to_string), select(vec!["1.0", "1.9", "1.10", "2.0", "10.0"]).prop_map(str::to_string), prop::bool::weighted(0.2), items());
        let v = || prop_oneof![3 => Just(None), 4 => select(vec!["1.0", "1.9", "1.10", "2.0", "10.0"]).prop_map(|s| Some(s.to_string()))];
        let n = || select(vec!["aa", "aa", "bb", "cc", "py-tool"]).prop_map(str::to_string);
        let ans = || select(vec!["y", "Y", "yes", "YES", " y ", "", "n", "no", "yeah", "yy", "1"]).prop_map(str::to_string);
        let cmd = prop_oneof![
            3 => (n(), v(), 0usize..3, any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(n, v, d, f, dry)| Cmd::Cp(n, v, d, f, dry)),
            3 => (n(), v(), 0usize..3, any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.2)).prop_map(|(n, v, d, f, dry, k)| Cmd::Mv(n, v, d, f, dry, k)),
            3 => (n(), v(), prop::bool::weighted(0.2), prop::option::of(prop::collection::vec(ans(), 0..5))).prop_map(|(n, v, dry, a)| Cmd::Rm(n, v, dry, a)),
            2 => (n(), prop::bool::weighted(0.2), prop::option::of(ans())).prop_map(|(n, dry, a)| Cmd::RmFam(n, dry, a)),
            1 => (any::<bool>(), any::<bool>()).prop_map(|(old, dry)| Cmd::RmIgnored(old, dry)),
        ];
        (prop::collection::vec(p(), 1..6), cmd)
    }, |(pkgs, cmd): &(Vec<(usize, String, String, bool, Vec<Item>)>, Cmd)| {
        let tmp = tempfile::tempdir().unwrap();
        let top = fs::canonicalize(tmp.path()).unwrap();
        let rel = |p: &Path| p.strip_prefix(&top).unwrap().to_string_lossy().to_string();
        let base = |i: usize| top.join(format!("w/r{i}"));
        let home = top.join("home");
        fs::create_dir_all(&home).unwrap();
        for i in 0..3 {
            fs::create_dir_all(base(i)).unwrap();
        }
        let mut have: Vec<(usize, String, String, bool)> = vec![];
        for (k, (r, n, v, ign, its)) in pkgs.iter().enumerate() {
            let d = base(*r).join(n).join(v);
            if d.exists() {
                continue;
            }
            populate(&d, its, k as u64);
            fs::write(d.join("package.py"), format!("name = '{n}'\nversion = '{v}'\n")).unwrap();
            if *ign {
                fs::write(base(*r).join(n).join(format!(".ignore{v}")), "").unwrap();
            }
            have.push((*r, n.clone(), v.clone(), *ign));
        }
        let pick = |n: &str, v: &Option<String>| -> Option<(usize, String)> {
            let mut vis: Vec<_> = have.iter().filter(|p| p.1 == n && !p.3 && v.as_ref().is_none_or(|v| *v == p.2)).collect();
            vis.sort_by(|a, b| RV::of(&b.2).cmp(&RV::of(&a.2)).then(a.0.cmp(&b.0)));
            vis.first().map(|p| (p.0, p.2.clone()))
        };
        let spec = |n: &str, v: &Option<String>| v.as_ref().map_or(n.to_string(), |v| format!("{n}-{v}"));
        let mut before = snapshot(&top);
        let mut want = before.clone();
        let mut args: Vec<String> = vec![];
        let mut want_ok = Some(true);
        let mut input = String::new();
        let (mut removed, mut report) = (0, None);
        match cmd {
            Cmd::Cp(n, v, d, f, dry) | Cmd::Mv(n, v, d, f, dry, _) => {
                let keep = !matches!(cmd, Cmd::Mv(_, _, _, _, _, false));
                args.push(if matches!(cmd, Cmd::Cp(..)) { "cp" } else { "mv" }.into());
                args.push(spec(n, v));
                args.push(base(*d).display().to_string());
                for i in 0..2 {
                    args.extend(["--src-path".to_string(), base(i).display().to_string()]);
                }
                if *f {
                    args.push("--force".into());
                }
                if *dry {
                    args.push("--dry-run".into());
                }
                if keep && matches!(cmd, Cmd::Mv(..)) {
                    args.push("--keep-source".into());
                }
                match pick(n, v) {
                    None => want_ok = Some(false),
                    Some((r, ver)) => {
                        let src = base(r).join(n).join(&ver);
                        let dst = base(*d).join(n).join(&ver);
                        if dst.exists() && !f {
                            want_ok = Some(false);
                        } else if *dry {
                            // reports only
                            if src == dst {
                                want_ok = None;
                            }
                        } else if src == dst {
                            want_ok = Some(false);
                        } else {
                            let (s, t) = (rel(&src), rel(&dst));
                            let content = sub(&before, &s);
                            drop_tree(&mut want, &t);
                            add_dirs(&mut want, &t);
                            for (k, x) in content {
                                want.insert(format!("{t}/{k}"), x);
                            }
                            if !keep {
                                drop_tree(&mut want, &s);
                            }
                        }
                    }
                }
            }
            Cmd::Rm(..) | Cmd::RmFam(..) => {
                let (n, v, dry, fam) = match cmd {
                    Cmd::Rm(n, v, dry, _) => (n, v.clone(), dry, false),
                    Cmd::RmFam(n, dry, _) => (n, None, dry, true),
                    _ => unreachable!(),
                };
                let yes = |a: &str| matches!(a.trim().to_lowercase().as_str(), "y" | "yes");
                let mut answers: Vec<bool> = vec![true; have.len()];
                match cmd {
                    Cmd::Rm(_, _, _, Some(a)) => {
                        args.push("--interactive".into());
                        answers = a.iter().map(|a| yes(a)).chain(vec![false; have.len()]).collect();
                        input = a.iter().map(|a| format!("{a}\n")).collect();
                    }
                    Cmd::RmFam(_, _, Some(a)) => {
                        answers = vec![yes(a); have.len()];
                        input = format!("{a}\n");
                    }
                    Cmd::RmFam(..) => args.push("--force-family".into()),
                    _ => {}
                }
                args.splice(0..0, ["rm".to_string(), spec(n, &v)]);
                if fam {
                    args.push("--family".to_string());
                }
                for i in 0..2 {
                    args.extend(["--paths".to_string(), base(i).display().to_string()]);
                }
                if *dry {
                    args.push("--dry-run".into());
                } else {
                    let mut hit: Vec<_> = have.iter().filter(|p| p.1 == *n && !p.3 && v.as_ref().is_none_or(|v| *v == p.2)).collect();
                    // asked about one by one, newest first
                    hit.sort_by(|a, b| RV::of(&b.2).cmp(&RV::of(&a.2)).then(a.0.cmp(&b.0)));
                    for (p, _) in hit.iter().zip(&answers).filter(|x| *x.1) {
                        drop_tree(&mut want, &rel(&base(p.0).join(&p.1).join(&p.2)));
                        removed += 1;
                    }
                    if !hit.is_empty() && (!fam || answers[0]) {
                        report = Some(removed);
                    }
                }
            }
            Cmd::RmIgnored(old, dry) => {
                args.extend(["rm".to_string(), "--ignored-since".into(), if *old { "2100-01-01".into() } else { "2w".into() }]);
                for i in 0..2 {
                    args.extend(["--paths".to_string(), base(i).display().to_string()]);
                }
                if *dry {
                    args.push("--dry-run".into());
                }
                // every marker is seconds old: past the first cutoff, not the second
                if *old && !dry {
                    for p in have.iter().filter(|p| p.3) {
                        drop_tree(&mut want, &rel(&base(p.0).join(&p.1).join(&p.2)));
                        want.remove(&rel(&base(p.0).join(&p.1).join(format!(".ignore{}", p.2))));
                    }
                }
            }
        }
        let (code, text) = cli_in(&args, &home, &[], &input);
        if let Some(n) = report
            && !text.lines().any(|l| l.contains("Removed") && l.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()) && l.contains("package"))
        {
            return Err(format!("rez {args:?} with input {input:?} does not report {n} removed: {text}"));
        }
        if code.is_none_or(|c| c > 1) || want_ok.is_some_and(|w| w != (code == Some(0))) {
            return Err(format!("rez {args:?} exited {code:?}, should {}: {text}", if want_ok == Some(true) { "succeed" } else { "fail" }));
        }
        let mut after = snapshot(&top);
        for m in [&mut before, &mut want, &mut after] {
            m.retain(|k, _| k.starts_with("w/"));
        }
        // an emptied family directory may be kept or pruned
        for r in 0..3 {
            for n in ["aa", "bb", "py-tool"] {
                let f = format!("w/r{r}/{n}");
                if sub(&want, &f).is_empty() && sub(&after, &f).is_empty() {
                    want.remove(&f);
                    after.remove(&f);
                }
            }
        }
        if let Some(d) = diff(&want, &after) {
            return Err(format!("rez {args:?} with input {input:?}: disk: {d}"));
        }
        Ok(Info::new(before != after).label(matches!(cmd, Cmd::Cp(..)), "cp").label(matches!(cmd, Cmd::Mv(..)), "mv").label(matches!(cmd, Cmd::Rm(..) | Cmd::RmFam(..)), "rm").label(matches!(cmd, Cmd::RmIgnored(..)), "rm-ignored").label(want_ok == Some(false), "refused").label(!input.is_empty(), "asked").label(removed > 0 && report.is_some(), "removed"))
    });
}

/// bytes in all files (links counted as the link itself)
fn dir_bytes(d: &Path) -> u64 {
    fs::read_dir(d)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| {
            let m = e.metadata().unwrap();
            if m.is_dir() { dir_bytes(&e.path()) } else { m.len() }
        })
        .sum()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Cp(String, Option<String>, usize, bool, bool),
    Mv(String, Option<String>, usize, bool, bool, bool),
    /// with the answers typed when asked, if --interactive
    Rm(String, Option<String>, bool, Option<Vec<String>>),
    /// with the answer typed, if not forced
    RmFam(String, bool, Option<String>),
    RmIgnored(bool, bool),
}

/// Run the command line program built from the repository's own main, with `home` as HOME.
pub fn cli(args: &[String], home: &Path, env: &[(&str, &str)]) -> (Option<i32>, String) {
    cli_in(args, home, env, "")
}
/// The same, with `input` typed.
pub fn cli_in(args: &[String], home: &Path, env: &[(&str, &str)], input: &str) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap().with_file_name("rezcli");
    let mut c = Command::new(exe);
    c.args(args).env_clear().env("HOME", home).env("PATH", "/usr/bin:/bin").env("TMPDIR", home).current_dir(home).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("rezcli runs");
    {
        use std::io::Write;
        // the answers fit into the pipe; a program that reads none of them is fine
        let _ = ch.stdin.take().unwrap().write_all(input.as_bytes());
    }
    let o = ch.wait_with_output().expect("rezcli runs");
    (o.status.code(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))
}
