//! C23: the commands that resolve.
use super::envs::same;
use super::fsops::cli;
use super::solver::{self, find, obvious, solutions, valid, Pkg, Req, World, FAM};
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::{PackageRequirement, Requirement};
use rez_next_solver::SolverConfig;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    w: World,
    /// 0: first repository, 1: second, 2: both, 3: both and hidden in the first
    place: Vec<u8>,
    swap: bool,
    /// 0: option, 1: environment, 2: configuration file
    via: u8,
    local: Option<usize>,
    slash: bool,
    no_local: bool,
    mode: u8,
    strict: bool,
    odd: Option<String>,
}
fn case() -> BoxedStrategy<Case> {
    (
        prop_oneof![
            2 => solver::world(5, 3, false),
            1 => solver::world(4, 3, true),
            1 => solver::world(3, 4, false),
            3 => solver::world(5, 3, false).prop_map(ease),
            1 => solver::world(7, 3, false).prop_map(ease),
        ],
        prop::collection::vec(prop_oneof![3 => 0u8..3, 1 => Just(3u8)], 12),
        any::<bool>(),
        0u8..3,
        (prop::option::of(0usize..2), any::<bool>(), any::<bool>()),
        0u8..6,
        any::<bool>(),
        prop_oneof![12 => Just(None), 1 => select(vec!["", "!", "app-", "app==", "app>=x y", "-app", "app bar", "é", "bar-1.0|", "missing", "!missing", "~missing-2"]).prop_map(|s| Some(s.to_string()))],
    )
        .prop_map(|(w, place, swap, via, (local, slash, no_local), mode, strict, odd)| Case { w, place, swap, via, local, slash, no_local, mode, strict, odd })
        .boxed()
}
impl Case {
    fn spots(&self, k: usize) -> Vec<(usize, bool)> {
        match self.place[k % self.place.len()] {
            0 => vec![(0, false)],
            1 => vec![(1, false)],
            2 => vec![(0, false), (1, false)],
            _ => vec![(0, true), (1, false)],
        }
    }
    /// packages that can be seen, with the repository they come from
    fn seen(&self, order: &[usize]) -> Vec<(Pkg, usize)> {
        self.w.pkgs.iter().enumerate().filter_map(|(k, p)| order.iter().find(|r| self.spots(k).contains(&(**r, false))).map(|r| (p.clone(), *r))).collect()
    }
}
/// without the requirements that nothing in the world could meet
fn ease(mut w: World) -> World {
    let all = w.pkgs.clone();
    let keep = |r: &Req| r.flag == 1 || r.flag == 0 && all.iter().any(|p| p.fam == r.fam && r.sat(&p.ver));
    for p in &mut w.pkgs {
        p.requires.retain(|r| keep(r) && r.fam != p.fam);
        let f = p.fam;
        p.variants.iter_mut().for_each(|v| v.retain(|r| keep(r) && r.fam != f));
    }
    if w.requests.iter().any(&keep) {
        w.requests.retain(keep);
    }
    w
}
/// `later`: the repository whose copies another one shadows; they require what nothing offers, or nothing
fn put(c: &Case, dir: &Path, later: Option<usize>) -> Vec<PathBuf> {
    let roots = vec![dir.join("r0"), dir.join("r1")];
    for r in &roots {
        std::fs::create_dir_all(r).unwrap();
    }
    for (k, p) in c.w.pkgs.iter().enumerate() {
        for (r, hidden) in c.spots(k) {
            let fam = roots[r].join(FAM[p.fam]);
            let d = fam.join(&p.ver);
            std::fs::create_dir_all(&d).unwrap();
            let j = |v: &[Req]| serde_json::to_string(&v.iter().map(Req::text).collect::<Vec<_>>()).unwrap();
            let shadowed = later == Some(r) && c.spots(k).contains(&(1 - r, false));
            let requires = if shadowed { ["['shadowed_copy']", "[]"][k % 2].to_string() } else { j(&p.requires) };
            let mut t = format!("name = '{}'\nversion = '{}'\nrequires = {requires}\n", FAM[p.fam], p.ver);
            if !p.variants.is_empty() {
                t += &format!("variants = [{}]\n", p.variants.iter().map(|v| j(v)).collect::<Vec<_>>().join(", "));
            }
            t += &format!("def commands():\n    env.MARK_{} = '{{root}}'\n", FAM[p.fam].to_uppercase());
            std::fs::write(d.join("package.py"), t).unwrap();
            if hidden {
                std::fs::write(fam.join(format!(".ignore{}", p.ver)), "").unwrap();
            }
        }
    }
    roots
}
fn requests(c: &Case) -> Vec<String> {
    c.w.requests.iter().map(Req::text).chain(c.odd.clone()).collect()
}
/// None: the requests cannot be read; Err: no selection
type Wanted = Option<Result<Vec<(usize, String, Option<usize>)>, String>>;
fn wanted(c: &Case, pkgs: &[Pkg]) -> Result<Wanted, String> {
    let cfg = SolverConfig { strict_mode: true, ..Default::default() };
    let mut reqs = c.w.requests.clone();
    if let Some(o) = &c.odd {
        match o.as_str() {
            "missing" => return Ok(Some(Err("missing".into()))),
            "!missing" | "~missing-2" => {}
            o if o.parse::<Requirement>().is_err() || PackageRequirement::parse(o).is_err() => return Ok(None),
            // odd but readable: only its family matters here
            _ => return Err("skip".into()),
        }
    }
    reqs.retain(|_| true);
    Ok(Some(solver::solve(pkgs, &reqs, &cfg)?.map(|x| x.0)))
}
fn judge(c: &Case, pkgs: &[Pkg], got: &[(usize, String, Option<usize>)]) -> Result<(), String> {
    valid(pkgs, &c.w.requests, got, false).map_err(|e| format!("{e}; selection {got:?}"))?;
    // a selection in which packages require each other in a circle is not one
    let a_solution = |o: &BTreeMap<usize, String>| solutions(pkgs, &c.w.requests, false, 500).iter().any(|s| s.len() == o.len() && s.iter().all(|(f, (v, _))| o.get(f) == Some(v)));
    if let Some(o) = obvious(pkgs, &c.w.requests, false, true).filter(a_solution) {
        same("selection, where the newest versions do", got.iter().map(|g| (g.0, g.1.clone())).collect::<BTreeMap<_, _>>(), o)?;
    }
    Ok(())
}
fn unsolvable(c: &Case, pkgs: &[Pkg]) -> Result<(), String> {
    match solutions(pkgs, &c.w.requests, false, 1).first() {
        Some(s) if c.odd.as_deref() != Some("missing") => Err(format!("the command fails although {s:?} is a solution")),
        _ => Ok(()),
    }
}
/// the variant whose payload directory this is
fn variant(p: &Pkg, rest: &str) -> Option<Option<usize>> {
    if p.variants.is_empty() {
        return rest.is_empty().then_some(None);
    }
    p.variants.iter().position(|v| v.iter().map(|r| format!("/{}", r.text())).collect::<String>() == rest).map(Some)
}
fn leftovers(dir: &Path) -> Vec<String> {
    std::fs::read_dir(dir).unwrap().filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().into_owned())).filter(|n| n != "r0" && n != "r1" && n != "ran" && n != "conf.yaml" && n != "out").collect()
}

pub fn c23(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("repositories of 3 to 5 families spread over two places (with shadowed and hidden copies), given by option, environment or configuration file; non-trivial = the command resolves at least two packages, or refuses a request although every requested family exists");
    c.assume("bash is the shell in which env runs commands");

    c.check("env", 1_200, 25_000, case, |c: &Case| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(c, t.path(), None);
        let mut order = if c.swap { vec![1, 0] } else { vec![0, 1] };
        let mut paths: Vec<String> = order.iter().map(|i| format!("{}{}", roots[*i].display(), if c.slash { "/" } else { "" })).collect();
        paths.insert(1, t.path().join("nothing").to_string_lossy().into_owned());
        if c.no_local {
            order.retain(|i| Some(*i) != c.local);
        }
        let joined = paths.join(":");
        let local = c.local.map(|i| roots[i].to_string_lossy().into_owned()).unwrap_or("/nonexistent/local".into());
        let conf = t.path().join("conf.yaml");
        let mut a: Vec<String> = vec!["env".into()];
        let mut env: Vec<(&str, &str)> = vec![];
        let conf_text = conf.to_string_lossy().into_owned();
        match c.via {
            0 => a.extend(["--paths".into(), joined.clone()]),
            1 => env.push(("REZ_PACKAGES_PATH", &joined)),
            _ => {}
        }
        std::fs::write(&conf, serde_json::json!({"packages_path": if c.via == 2 { paths.clone() } else { vec!["/nonexistent/configured".to_string()] }, "local_packages_path": local}).to_string()).unwrap();
        env.push(("REZ_CONFIG_FILE", &conf_text));
        if c.no_local {
            a.push("--no-local".into());
        }
        let seen = c.seen(&order);
        let pkgs: Vec<Pkg> = seen.iter().map(|s| s.0.clone()).collect();
        let want = match wanted(c, &pkgs) {
            Err(e) if e == "skip" => return Ok(Info::new(false)),
            w => w?,
        };
        let reqs = requests(c);
        let script = "echo ran >> ran; env -0 > out";
        let (mut command, mut tail) = (true, vec![]);
        match c.mode {
            0 => a.extend(["-q".into(), "-c".into(), script.into()]),
            1 | 5 => {
                a.push("-q".into());
                tail = vec!["--".to_string(), "sh".into(), "-c".into(), script.into()];
            }
            2 => a.extend(["-c".into(), script.into()]),
            3 => {
                a.push("--print-resolve".into());
                command = false;
            }
            _ => {
                a.extend(["--print-env".into(), "--format=json".into()]);
                command = false;
            }
        }
        if c.odd.as_deref().is_some_and(|o| o.starts_with('-')) {
            return Ok(Info::new(false));
        }
        a.extend(reqs.iter().cloned());
        a.extend(tail);
        let (rc, out) = cli(&a, t.path(), &env);
        let ran = t.path().join("ran");
        let Some(want) = want else {
            if rc == Some(0) || ran.exists() {
                return Err(format!("a malformed request is accepted: {a:?}: {out}"));
            }
            return Ok(Info::new(false).label(true, "malformed request"));
        };
        if rc != Some(0) {
            if ran.exists() {
                return Err(format!("the command ran although {a:?} fails with {rc:?}: {out}"));
            }
            unsolvable(c, &pkgs).map_err(|e| format!("{e}: {a:?}: {rc:?} {out}"))?;
            if want.is_ok() {
                return Err(format!("the solver selects {want:?} but {a:?} fails: {out}"));
            }
            same("files left behind", leftovers(t.path()), vec![])?;
            return Ok(Info::new(c.w.requests.iter().all(|r| r.flag != 0 || pkgs.iter().any(|p| p.fam == r.fam))).label(true, "refused"));
        }
        let want = want.map_err(|e| format!("{a:?} succeeds although the solver says {e}: {out}"))?;
        let texts: Vec<String> = want.iter().map(|w| format!("{}-{}", FAM[w.0], w.1)).collect();
        judge(c, &pkgs, &want)?;
        let info = Info::new(want.len() >= 2).label(true, "resolved").label(want.iter().any(|w| w.2.is_some()), "variants").label(c.no_local && c.local.is_some(), "without the local repository");
        if c.mode == 3 {
            same(&format!("{a:?}"), out.lines().map(str::to_string).collect(), texts)?;
            return Ok(info);
        }
        let vars: BTreeMap<String, String> = if command {
            same("runs", std::fs::read_to_string(&ran).unwrap_or_default().lines().count(), 1)?;
            let dump = std::fs::read(t.path().join("out")).unwrap_or_default();
            String::from_utf8_lossy(&dump).split('\0').filter_map(|l| l.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect()
        } else {
            serde_json::from_str(&out).map_err(|e| format!("{a:?}: not JSON ({e}): {out}"))?
        };
        let get = |k: &str| vars.get(k).cloned().unwrap_or_default();
        same("REZ_USED_RESOLVE", get("REZ_USED_RESOLVE"), texts.join(" "))?;
        same("requests in REZ_USED_REQUEST", get("REZ_USED_REQUEST").split(' ').count(), reqs.len())?;
        let marks: BTreeSet<String> = vars.keys().filter_map(|k| k.strip_prefix("MARK_")).map(str::to_lowercase).collect();
        same("packages activated", marks, want.iter().map(|w| FAM[w.0].to_string()).collect())?;
        let mut got = vec![];
        for (f, v, var) in &want {
            let (p, r) = seen.iter().find(|s| s.0.fam == *f && s.0.ver == *v).unwrap();
            let base = roots[*r].join(FAM[*f]).join(v).to_string_lossy().into_owned();
            let root = get(&format!("MARK_{}", FAM[*f].to_uppercase()));
            let Some(rest) = root.replace("//", "/").strip_prefix(&base).map(str::to_string) else {
                return Err(format!("{}-{v} is activated from {root:?}, it lies in {base:?}", FAM[*f]));
            };
            let Some(i) = variant(p, &rest) else {
                return Err(format!("{}-{v} is activated from {root:?}, which is no variant of it", FAM[*f]));
            };
            let _ = var;
            got.push((*f, v.clone(), i));
        }
        judge(c, &pkgs, &got)?;
        same("files left behind", leftovers(t.path()), vec![])?;
        Ok(info.label(command, "command run"))
    });

    c.check("solve", 1_200, 25_000, case, |c: &Case| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(c, t.path(), Some(usize::from(!c.swap)));
        let order = if c.swap { vec![1, 0] } else { vec![0, 1] };
        let mut a: Vec<String> = vec!["solve".into()];
        let paths: Vec<String> = order.iter().map(|i| roots[*i].to_string_lossy().into_owned()).collect();
        let joined = paths.join(":");
        let mut env: Vec<(&str, &str)> = vec![];
        if c.via == 0 {
            for p in &paths {
                a.extend(["-r".into(), p.clone()]);
            }
        } else {
            env.push(("REZ_PACKAGES_PATH", &joined));
        }
        let json = c.mode < 4;
        a.push(format!("--format={}", if json { "json" } else if c.mode == 4 { "summary" } else { "detailed" }));
        if c.strict {
            a.push("--strict".into());
        }
        let pkgs: Vec<Pkg> = c.seen(&order).into_iter().map(|s| s.0).collect();
        let reqs: Vec<String> = c.w.requests.iter().map(Req::text).collect();
        a.extend(reqs.iter().cloned());
        let (rc, out) = cli(&a, t.path(), &env);
        let cfg = SolverConfig { strict_mode: c.strict, ..Default::default() };
        let want = match (solver::solve(&pkgs, &c.w.requests, &cfg)?, rc) {
            (Err(_), Some(0)) => return Err(format!("{a:?} succeeds although the solver fails: {out}")),
            (Err(_), _) => {
                if c.strict {
                    unsolvable(c, &pkgs).map_err(|e| format!("{e}: {a:?}"))?;
                }
                return Ok(Info::new(c.strict).label(true, "refused"));
            }
            (Ok(w), Some(0)) => w,
            (Ok(w), _) => return Err(format!("the solver selects {w:?} but {a:?} fails with {rc:?}: {out}")),
        };
        if want.1.is_empty() {
            judge(c, &pkgs, &want.0)?;
        } else if c.strict {
            return Err(format!("{a:?} succeeds with failed requirements {:?}", want.1));
        }
        let requested = |f: usize| c.w.requests.iter().any(|r| r.fam == f && r.flag == 0);
        let info = Info::new(want.0.len() >= 2).label(!want.1.is_empty(), "failed requirements").label(!json, "text");
        if !json {
            let rows: Vec<String> = out.lines().filter(|l| l.starts_with("  ") && (l.ends_with("(requested)") || l.ends_with("(dependency)"))).map(|l| l.trim().to_string()).collect();
            same(&format!("{a:?}"), rows, want.0.iter().map(|w| format!("{} {} ({})", FAM[w.0], w.1, if requested(w.0) { "requested" } else { "dependency" })).collect())?;
            if c.mode == 5 {
                let vs: Vec<&str> = out.lines().filter_map(|l| l.strip_prefix("Version: ")).collect();
                same(&format!("versions of {a:?}"), vs, want.0.iter().map(|w| w.1.as_str()).collect())?;
            }
            return Ok(info);
        }
        let v: Value = serde_json::from_str(&out).map_err(|e| format!("{a:?}: not JSON ({e}): {out}"))?;
        let list = |x: &Value| x.as_array().map(|l| l.iter().map(|s| s.as_str().unwrap_or("?").to_string()).collect::<Vec<_>>()).unwrap_or_default();
        let rows = v["resolved_packages"].as_array().ok_or("no list of packages")?;
        same(&format!("{a:?}"), rows.iter().map(|r| (r["name"].as_str().unwrap_or("?").to_string(), r["version"].as_str().unwrap_or("?").to_string())).collect(), want.0.iter().map(|w| (FAM[w.0].to_string(), w.1.clone())).collect::<Vec<_>>())?;
        same("failed requirements", list(&v["failed_requirements"]), want.1.clone())?;
        for (r, (f, ..)) in rows.iter().zip(&want.0) {
            same(&format!("requested, {}", FAM[*f]), r["requested"].as_bool(), Some(requested(*f)))?;
            let by: BTreeSet<String> = list(&r["required_by"]).into_iter().collect();
            let needs: BTreeSet<String> = want.0.iter().filter(|(g, v, var)| find(&pkgs, *g, v).is_some_and(|p| p.requires.iter().chain(var.map(|i| &p.variants[i][..]).unwrap_or(&[])).any(|q| q.flag == 0 && q.fam == *f))).map(|w| FAM[w.0].to_string()).collect();
            same(&format!("required by, {}", FAM[*f]), by, needs)?;
        }
        Ok(info)
    });
}

type Tree = BTreeMap<String, (u32, Vec<u8>)>;
/// every entry below a directory: its kind and mode, and its content or target
fn tree(dir: &Path) -> Tree {
    fn walk(dir: &Path, pre: &str, out: &mut Tree) {
        use std::os::unix::fs::MetadataExt;
        use std::os::unix::ffi::OsStrExt;
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let (p, n) = (e.path(), format!("{pre}{}", e.file_name().to_string_lossy()));
            let m = std::fs::symlink_metadata(&p).unwrap();
            let data = if m.is_symlink() {
                std::fs::read_link(&p).unwrap().as_os_str().as_bytes().to_vec()
            } else if m.is_dir() {
                walk(&p, &format!("{n}/"), out);
                vec![]
            } else {
                std::fs::read(&p).unwrap()
            };
            out.insert(n, (if m.is_file() { m.mode() } else { m.mode() & 0o170000 }, data));
        }
    }
    let mut out = Tree::new();
    walk(dir, "", &mut out);
    out
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bundle {
    c: Case,
    /// parts of the payload of each package, by position
    parts: Vec<u8>,
    dest: String,
    absolute: bool,
    positional: bool,
    name: Option<String>,
    skip: bool,
    /// 0: nothing there, 1: an older bundle, 2: a file where a package has to go
    before: u8,
}
fn bundle() -> BoxedStrategy<Bundle> {
    (
        case(),
        prop::collection::vec(any::<u8>(), 12),
        select(vec!["out", "my bundle", "sub/dir", "it's", "a$HOME", "é"]).prop_map(str::to_string),
        (any::<bool>(), prop::bool::weighted(0.3)),
        prop::option::weighted(0.3, select(vec!["plain", "1.10", "yes: no", "# x", "it's \"q\"", "- a"]).prop_map(str::to_string)),
        prop::bool::weighted(0.1),
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(|(mut c, parts, dest, (absolute, positional), name, skip, before)| {
            if parts[0] & 64 == 0 {
                c.w = ease(c.w);
            }
            Bundle { c, parts, dest, absolute, positional, name, skip, before }
        })
        .boxed()
}
fn payload(b: &Bundle, roots: &[PathBuf]) {
    use std::os::unix::fs::{symlink, PermissionsExt};
    for (k, p) in b.c.w.pkgs.iter().enumerate() {
        let parts = b.parts[k % b.parts.len()];
        for (r, _) in b.c.spots(k) {
            let d = roots[r].join(FAM[p.fam]).join(&p.ver);
            let on = |i: u8| parts >> i & 1 == 1;
            if on(0) {
                std::fs::create_dir_all(d.join("bin")).unwrap();
                let f = d.join("bin").join(format!("tool_{}", FAM[p.fam]));
                std::fs::write(&f, format!("#!/bin/sh\necho {} {} {r}\n", FAM[p.fam], p.ver)).unwrap();
                std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
            if on(1) {
                std::fs::create_dir_all(d.join("lib/deep er/é")).unwrap();
                std::fs::write(d.join("lib/deep er/é/x"), format!("{k} {r}").repeat(50)).unwrap();
                std::fs::write(d.join("lib/empty"), "").unwrap();
            }
            if on(2) {
                symlink("package.py", d.join("link")).unwrap();
                symlink("/nonexistent/target", d.join("dangling")).unwrap();
            }
            if on(3) {
                symlink(".", d.join("loop")).unwrap();
            }
            if on(4) {
                std::fs::create_dir_all(d.join("nothing/inside")).unwrap();
            }
            if on(5) {
                std::fs::write(d.join(".hidden"), [0u8, 255, 10, parts]).unwrap();
                std::fs::set_permissions(d.join(".hidden"), std::fs::Permissions::from_mode(0o640)).unwrap();
            }
            for v in &p.variants {
                let at = v.iter().fold(d.clone(), |d, q| d.join(q.text()));
                std::fs::create_dir_all(&at).unwrap();
                std::fs::write(at.join("payload"), format!("{v:?} {r}")).unwrap();
            }
        }
    }
}

pub fn c25(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("requests on repositories of 3 to 5 families in two places (with shadowed and hidden copies) whose packages carry tools, nested files, links, variants; non-trivial = at least two packages go into the bundle");
    c.assume("bash is the shell in which bundles are activated");
    c.check("bundle", 1_200, 25_000, bundle, |b: &Bundle| {
        let c = &b.c;
        let t = tempfile::tempdir().unwrap();
        let roots = put(c, t.path(), None);
        payload(b, &roots);
        let order = if c.swap { vec![1, 0] } else { vec![0, 1] };
        let joined = order.iter().map(|i| roots[*i].to_string_lossy().into_owned()).collect::<Vec<_>>().join(":");
        let seen = c.seen(&order);
        let pkgs: Vec<Pkg> = seen.iter().map(|s| s.0.clone()).collect();
        let reqs: Vec<String> = c.w.requests.iter().map(Req::text).collect();
        let out = t.path().join(&b.dest);
        let want = solver::solve(&pkgs, &c.w.requests, &SolverConfig { strict_mode: true, ..Default::default() })?.ok().map(|x| x.0);
        let mut blocked = false;
        if let (Some((f, v, _)), true) = (want.as_ref().and_then(|w| w.first()), !b.skip) {
            match b.before {
                1 => {
                    let d = out.join("packages").join(FAM[*f]).join(v);
                    std::fs::create_dir_all(&d).unwrap();
                    std::fs::write(d.join("stale"), "old").unwrap();
                    std::fs::write(d.join("package.py"), "name = 'other'\n").unwrap();
                    for x in ["bundle.json", "bundle.yaml", "context.rxt", "activate.sh"] {
                        std::fs::write(out.join(x), "old ".repeat(5000)).unwrap();
                    }
                }
                2 => {
                    std::fs::create_dir_all(out.join("packages")).unwrap();
                    std::fs::write(out.join("packages").join(FAM[*f]), "in the way").unwrap();
                    blocked = true;
                }
                _ => {}
            }
        }
        let dest = if b.absolute { out.to_string_lossy().into_owned() } else { format!("./{}", b.dest) };
        let mut a: Vec<String> = vec!["bundle".into(), "--paths".into(), joined];
        if let Some(n) = &b.name {
            a.push(format!("--name={n}"));
        }
        if b.skip {
            a.push("--skip-copy".into());
        }
        a.extend(reqs.iter().cloned());
        if b.positional {
            a.push(dest);
        } else {
            a.extend(["-o".into(), dest]);
        }
        let before = (tree(&roots[0]), tree(&roots[1]));
        let (rc, said) = cli(&a, t.path(), &[]);
        if (tree(&roots[0]), tree(&roots[1])) != before {
            return Err(format!("{a:?} changed the repositories"));
        }
        if blocked {
            if rc == Some(0) {
                return Err(format!("{a:?} reports success although a package could not be copied: {said}"));
            }
            return Ok(Info::new(false).label(true, "copy fails"));
        }
        if rc != Some(0) {
            return Err(format!("{a:?} fails with {rc:?}: {said}"));
        }
        let Some(want) = want else {
            // what cannot be resolved gives a bundle without packages
            let v: Value = serde_json::from_str(&std::fs::read_to_string(out.join("bundle.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            same("packages of a request without a solution", v["packages"].as_array().map(Vec::len), Some(0))?;
            same("packages of a request without a solution", tree(&out.join("packages")).len(), 0)?;
            return Ok(Info::new(false).label(true, "no solution"));
        };
        judge(c, &pkgs, &want)?;
        let names: Vec<(String, String)> = want.iter().map(|w| (FAM[w.0].to_string(), w.1.clone())).collect();
        let json: Value = serde_json::from_str(&std::fs::read_to_string(out.join("bundle.json")).map_err(|e| e.to_string())?).map_err(|e| format!("bundle.json: {e}"))?;
        let yaml: Value = serde_yaml::from_str(&std::fs::read_to_string(out.join("bundle.yaml")).map_err(|e| e.to_string())?).map_err(|e| format!("bundle.yaml: {e}"))?;
        for (file, v) in [("bundle.json", &json), ("bundle.yaml", &yaml)] {
            same(&format!("requests in {file}"), v["requests"].clone(), serde_json::json!(reqs))?;
            if let Some(n) = &b.name {
                same(&format!("name in {file}"), v["name"].as_str(), Some(n.as_str()))?;
            }
            let got: Vec<(String, String)> = v["packages"].as_array().ok_or("no packages")?.iter().map(|p| (p["name"].as_str().unwrap_or("?").into(), p["version"].as_str().unwrap_or("?").into())).collect();
            same(&format!("packages in {file}"), got, names.clone())?;
        }
        let mut dirs = Tree::new();
        if !b.skip {
            for (f, v, _) in &want {
                let r = seen.iter().find(|s| s.0.fam == *f && s.0.ver == *v).unwrap().1;
                for (k, x) in tree(&roots[r].join(FAM[*f])) {
                    if k == *v || k.starts_with(&format!("{v}/")) {
                        dirs.insert(format!("{}/{k}", FAM[*f]), x);
                    }
                }
                dirs.insert(FAM[*f].into(), (0o040000, vec![]));
            }
        }
        let got = tree(&out.join("packages"));
        if got != dirs {
            let d: Vec<&String> = got.keys().chain(dirs.keys()).filter(|k| got.get(*k) != dirs.get(*k)).collect();
            return Err(format!("{a:?}: the files of the bundle differ from those of the packages resolved at {d:?}"));
        }
        let info = Info::new(want.len() >= 2).label(b.before == 1, "over an older bundle").label(b.skip, "without files").label(!b.absolute, "relative destination");
        if b.skip {
            return Ok(info);
        }
        // from now on the bundle stands alone
        std::fs::rename(&roots[0], t.path().join("gone0")).unwrap();
        std::fs::rename(&roots[1], t.path().join("gone1")).unwrap();
        for (p, (f, v, _)) in json["packages"].as_array().unwrap().iter().zip(&want) {
            let d = out.join("packages").join(p["bundle_path"].as_str().unwrap_or("?"));
            same(&format!("bundle_path of {}-{v}", FAM[*f]), d.join("package.py").is_file() && d.ends_with(Path::new(FAM[*f]).join(v)), true)?;
        }
        let ctx = super::envs::rt().block_on(rez_next_context::ContextSerializer::load_from_file(&out.join("context.rxt"))).map_err(|e| format!("context.rxt: {e}"))?;
        same("packages in context.rxt", ctx.resolved_packages.iter().map(|p| (p.name.clone(), p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default())).collect(), names.clone())?;
        let env = super::envs::rt()
            .block_on(rez_next_context::EnvironmentManager::with_base_environment(Default::default(), Default::default()).generate_rex_environment(&ctx.resolved_packages))
            .map_err(|e| format!("context.rxt: {e}"))?;
        for (f, v, var) in &want {
            let p = find(&pkgs, *f, v).unwrap();
            let base = var.map(|i| &p.variants[i][..]).unwrap_or(&[]).iter().fold(out.join("packages").join(FAM[*f]).join(v), |d, q| d.join(q.text()));
            let got = PathBuf::from(env.vars.get(&format!("MARK_{}", FAM[*f].to_uppercase())).cloned().unwrap_or_default());
            if std::fs::canonicalize(&got).ok().is_none_or(|g| Some(g) != std::fs::canonicalize(&base).ok()) {
                return Err(format!("context.rxt activates {}-{v} from {got:?}, the bundle holds it in {base:?}", FAM[*f]));
            }
        }
        let elsewhere = t.path().join("else where");
        std::fs::create_dir(&elsewhere).unwrap();
        let tools: Vec<&(usize, String, Option<usize>)> = want.iter().filter(|(f, v, _)| c.w.pkgs.iter().position(|p| p.fam == *f && p.ver == *v).is_some_and(|k| b.parts[k % b.parts.len()] & 1 == 1)).collect();
        let probe = format!("source \"$1\" || exit 9; /usr/bin/env -0 > vars; {}", tools.iter().map(|(f, ..)| format!("tool_{} || exit 8; ", FAM[*f])).collect::<String>());
        let o = std::process::Command::new("/bin/bash")
            .args(["--norc", "--noprofile", "-c", &probe, "probe"])
            .arg(out.join("activate.sh"))
            .env_clear()
            .env("PATH", "/usr/bin:/my own")
            .current_dir(&elsewhere)
            .output()
            .unwrap();
        if !o.status.success() || !o.stderr.is_empty() {
            return Err(format!("activate.sh: {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr)));
        }
        let said: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
        same("tools of the activated bundle", said, tools.iter().map(|(f, v, _)| format!("{} {v} {}", FAM[*f], seen.iter().find(|s| s.0.fam == *f && s.0.ver == *v).unwrap().1)).collect())?;
        let dump = std::fs::read(elsewhere.join("vars")).unwrap();
        let vars: BTreeMap<String, String> = String::from_utf8_lossy(&dump).split('\0').filter_map(|l| l.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
        let path = vars.get("PATH").cloned().unwrap_or_default();
        if !path.ends_with("/usr/bin:/my own") {
            return Err(format!("the activated bundle loses the caller's PATH: {path:?}"));
        }
        for (f, v, _) in &want {
            let root = PathBuf::from(vars.get(&format!("{}_ROOT", FAM[*f].to_uppercase())).cloned().unwrap_or_default());
            if !root.is_absolute() || std::fs::canonicalize(&root).ok() != std::fs::canonicalize(out.join("packages").join(FAM[*f]).join(v)).ok() {
                return Err(format!("root of {}-{v} in the activated bundle: {root:?}", FAM[*f]));
            }
        }
        Ok(info.label(!tools.is_empty(), "tools run").label(want.iter().any(|w| w.2.is_some()), "variants"))
    });
}
