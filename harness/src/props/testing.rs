//! C28: the test command.
use super::build::tree;
use super::envs::same;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pack {
    requires: Vec<String>,
    variants: Vec<Vec<String>>,
    /// name -> how it ends (256: by a signal)
    tests: BTreeMap<String, u16>,
    pre: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Placed {
    family: String,
    version: usize,
    /// bit per path: given by --paths, configured, local
    places: u8,
    hidden: bool,
    pack: Pack,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    repo: Vec<Placed>,
    /// package in the working directory: name, version; and in a directory below it
    here: Option<(String, usize, Pack)>,
    below: Option<Pack>,
    spec: String,
    tests: Vec<String>,
    list: bool,
    dry: bool,
    stop: bool,
    verbose: u8,
    extra: Option<String>,
    paths: bool,
    no_local: bool,
    /// run from elsewhere with --working-dir
    away: u8,
    /// run in the current environment, which has this version of the package at this place
    inplace: Option<(Option<usize>, bool)>,
}
const VERS: [&str; 5] = ["1.9", "1.10", "1.10.1", "2", "10"];
const NAMES: [&str; 9] = ["unit", "unit2", "a.b", "aXb", "u+", "lint", "x y", "[q]", "é"];
const PATTERNS: [&str; 19] = ["unit", "u*t", "*t", "uni*t", "unit*", "a.b", "a.b*", "*b", "u+*", "*", "[q]*", "none", "li*t", "it*", "*i*", "un", "é*", "**", "a*b"];

fn pack() -> BoxedStrategy<Pack> {
    (
        prop_oneof![4 => Just(vec![]), 2 => Just(vec!["dep"]), 2 => Just(vec!["dep-1"]), 1 => Just(vec!["gone"])],
        prop_oneof![4 => Just(vec![]), 2 => Just(vec![vec!["dep-1"], vec!["dep-2"]]), 1 => Just(vec![vec!["gone"], vec!["dep-2"]]), 1 => Just(vec![vec!["dep-2", "other"]])],
        prop::collection::btree_map(select(NAMES.to_vec()).prop_map(str::to_string), prop_oneof![6 => Just(0u16), 1 => Just(1u16), 1 => Just(3u16), 1 => Just(256u16)], 0..6),
        any::<bool>(),
    )
        .prop_map(|(r, v, tests, pre)| Pack { requires: r.into_iter().map(str::to_string).collect(), variants: v.into_iter().map(|v| v.into_iter().map(str::to_string).collect()).collect(), tests, pre })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let placed = (select(vec!["foo", "foo", "foo", "foo_x", "bar"]).prop_map(str::to_string), 0..VERS.len(), 1u8..8, prop::bool::weighted(0.15), pack()).prop_map(|(family, version, places, hidden, pack)| Placed { family, version, places, hidden, pack });
    (
        prop::collection::vec(placed, 0..7),
        prop::option::weighted(0.4, (select(vec!["foo", "bar", "foo_x"]).prop_map(str::to_string), 0..VERS.len(), pack())),
        prop::option::weighted(0.15, pack()),
        prop_oneof![8 => Just("foo"), 6 => select(vec!["foo-1", "foo-1.10", "foo-2", "foo-1.9+", "foo==1.9", "foo-10", "foo_x", "bar", "bar-1"]), 1 => Just("nope"), 2 => Just("."), 2 => Just("./sub"), 1 => Just("sub")].prop_map(str::to_string),
        prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec(select(PATTERNS.to_vec()).prop_map(str::to_string), 1..4)],
        (prop::bool::weighted(0.1), prop::bool::weighted(0.1), prop::bool::weighted(0.3), 0u8..3),
        prop::option::weighted(0.25, select(vec!["dep-1", "dep-2", "dep", "gone"]).prop_map(str::to_string)),
        (prop::bool::weighted(0.5), prop::bool::weighted(0.2), 0u8..3),
        prop::option::weighted(0.25, (prop::option::weighted(0.8, 0..VERS.len()), prop::bool::weighted(0.8))),
    )
        .prop_map(|(repo, here, below, spec, tests, (list, dry, stop, verbose), extra, (paths, no_local, away), inplace)| {
            let mut seen = BTreeSet::new();
            let repo = repo.into_iter().filter(|p: &Placed| seen.insert((p.family.clone(), p.version))).collect();
            let plain = inplace.is_some();
            Case { repo, here, below, spec, tests, list, dry, stop, verbose, extra: extra.filter(|_| !plain), paths: paths && !plain, no_local: no_local && !plain, away, inplace }
        })
        .boxed()
}
/// the version of dep in an environment with these requirements; None if there is none
fn solve(reqs: &[&String]) -> Option<Option<&'static str>> {
    let mut left = vec!["2", "1"];
    let mut any = false;
    for r in reqs {
        match r.as_str() {
            "dep" => any = true,
            "dep-1" | "dep-2" => {
                any = true;
                left.retain(|v| r.ends_with(v))
            }
            "other" => {}
            _ => return None,
        }
    }
    match (any, left.first()) {
        (false, _) => Some(None),
        (true, Some(v)) => Some(Some(v)),
        _ => None,
    }
}
fn fits(spec: &str, family: &str, version: usize) -> bool {
    let v = VERS[version];
    match spec {
        "foo" | "foo_x" | "bar" => spec == family,
        "foo==1.9" => family == "foo" && v == "1.9",
        "foo-1.9+" => family == "foo",
        _ => spec.split_once('-').is_some_and(|(f, p)| f == family && (v == p || v.starts_with(&format!("{p}.")))),
    }
}
fn matches(pattern: &str, name: &str) -> bool {
    fn go(p: &[char], n: &[char]) -> bool {
        match p.split_first() {
            None => n.is_empty(),
            Some(('*', rest)) => (0..=n.len()).any(|i| go(rest, &n[i..])),
            Some((c, rest)) => n.first() == Some(c) && go(rest, &n[1..]),
        }
    }
    go(&pattern.chars().collect::<Vec<_>>(), &name.chars().collect::<Vec<_>>())
}

pub fn c28(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("repositories in up to three places with hidden packages and a package in the working directory, test names full of pattern characters, tests that fail or die; non-trivial = at least two tests ran, or the choice was between several packages");
    c.assume("Unix; tests are commands given as text, the only form the definition reader accepts");
    c.check("cli", 1_500, 25_000, case, |s: &Case| {
        let t = tempfile::tempdir().unwrap();
        let root = std::fs::canonicalize(t.path()).unwrap();
        let home = root.join("home");
        let cwd = root.join("work dir");
        let log = root.join("log");
        let places = [root.join("given"), root.join("set"), root.join("local one")];
        for d in places.iter().chain([&home, &cwd]) {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(home.join(".rezconfig.yaml"), format!("packages_path: [{:?}, {:?}]\nlocal_packages_path: {:?}\n", places[1], places[2], places[2])).unwrap();
        for (n, v) in [("dep", "1"), ("dep", "2"), ("other", "1")] {
            let d = places[1].join(n).join(v);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("package.py"), format!("name = {n:?}\nversion = {v:?}\ndef commands():\n    env.SEEN_{} = \"{{version}}\"\n", n.to_uppercase())).unwrap();
        }
        let write = |dir: &Path, name: &str, version: &str, p: &Pack, who: &str| {
            std::fs::create_dir_all(dir).unwrap();
            let tests: BTreeMap<&String, String> = p.tests.iter().map(|(n, rc)| (n, format!("printf '%s\\n' {} \"$WHO\" \"$SEEN_DEP\" \"$PRE\" \"{{root}}\" \"$PWD\" \"$KEEP\" >> '{}'; {}", format!("'{n}'"), log.display(), if *rc == 256 { "kill -9 $$".to_string() } else { format!("exit {rc}") }))).collect();
            let mut d = format!("name = {name:?}\nversion = {version:?}\nrequires = {:?}\n", p.requires);
            if !p.variants.is_empty() {
                d += &format!("variants = {:?}\n", p.variants);
            }
            d += &format!("tests = {}\ndef commands():\n    env.WHO = {who:?}\n", serde_json::to_string(&tests).unwrap());
            if p.pre {
                d += "def pre_test_commands():\n    env.PRE = \"ready\"\n";
            }
            std::fs::write(dir.join("package.py"), d).unwrap();
        };
        for p in &s.repo {
            for (i, place) in places.iter().enumerate() {
                if p.places & (1 << i) != 0 {
                    let dir = place.join(&p.family).join(VERS[p.version]);
                    write(&dir, &p.family, VERS[p.version], &p.pack, &format!("{} {}", p.family, VERS[p.version]));
                    if p.hidden {
                        std::fs::write(place.join(&p.family).join(format!(".ignore{}", VERS[p.version])), "").unwrap();
                    }
                    for v in &p.pack.variants {
                        std::fs::create_dir_all(v.iter().fold(dir.clone(), |d, r| d.join(r))).unwrap();
                    }
                }
            }
        }
        if let Some((n, v, p)) = &s.here {
            write(&cwd, n, VERS[*v], p, "here");
        }
        if let Some(p) = &s.below {
            write(&cwd.join("sub"), "sub", "1", p, "below");
        }
        // which package, and in which environments its tests may run: (dep, root)
        let visible: Vec<usize> = (0..3).filter(|&i| (i != 0 || s.paths) && (i != 2 || !s.no_local)).collect();
        let extra: Vec<&String> = s.extra.iter().collect();
        let dev = |p: &Pack, dir: PathBuf| -> Option<Vec<(Option<&'static str>, PathBuf)>> {
            let sets: Vec<Vec<&String>> = if p.variants.is_empty() { vec![vec![]] } else { p.variants.iter().map(|v| v.iter().collect()).collect() };
            sets.iter().find_map(|v| solve(&p.requires.iter().chain(extra.iter().copied()).chain(v.iter().copied()).collect::<Vec<_>>())).map(|d| vec![(d, dir.clone())])
        };
        struct Chosen<'a> {
            pack: &'a Pack,
            who: String,
            name: &'a str,
            version: &'a str,
            dir: PathBuf,
            worlds: Option<Vec<(Option<&'static str>, PathBuf)>>,
        }
        let mut candidates = 0;
        let chosen: Option<Chosen> = if matches!(s.spec.as_str(), "." | "sub" | "./sub") {
            let (pack, dir, who, name, version) = if s.spec == "." { (s.here.as_ref().map(|h| &h.2), cwd.clone(), "here", s.here.as_ref().map_or("", |h| &h.0), s.here.as_ref().map_or("", |h| VERS[h.1])) } else { (s.below.as_ref(), cwd.join("sub"), "below", "sub", "1") };
            pack.map(|pack| Chosen { pack, who: who.into(), name, version, worlds: dev(pack, dir.clone()), dir })
        } else if let Some((n, v, pack)) = s.here.as_ref().filter(|h| fits(&s.spec, &h.0, h.1)) {
            Some(Chosen { pack, who: "here".into(), name: n, version: VERS[*v], worlds: dev(pack, cwd.clone()), dir: cwd.clone() })
        } else {
            let mut found: Vec<&Placed> = s.repo.iter().filter(|p| !p.hidden && fits(&s.spec, &p.family, p.version) && visible.iter().any(|i| p.places & (1 << i) != 0)).collect();
            found.sort_by_key(|p| std::cmp::Reverse(p.version));
            candidates = found.len();
            let make = |p: &&'_ Placed, solved: bool| {
                let at = visible.iter().find(|i| p.places & (1 << **i) != 0).unwrap();
                let dir = places[*at].join(&p.family).join(VERS[p.version]);
                let sets: Vec<Vec<&String>> = if p.pack.variants.is_empty() { vec![vec![]] } else { p.pack.variants.iter().map(|v| v.iter().collect()).collect() };
                let worlds: Vec<_> = sets
                    .iter()
                    .filter_map(|v| solve(&p.pack.requires.iter().chain(extra.iter().copied()).chain(v.iter().copied()).collect::<Vec<_>>()).map(|d| (d, v.iter().fold(dir.clone(), |d, r| d.join(r)))))
                    .collect();
                let _ = solved;
                (dir, worlds)
            };
            let mut pick = None;
            for p in &found {
                let (dir, worlds) = make(p, true);
                if s.inplace.is_some() || !worlds.is_empty() {
                    pick = Some((*p, dir, worlds));
                    break;
                }
            }
            match (pick, found.first()) {
                (Some((p, dir, worlds)), _) => Some(Chosen { pack: &p.pack, who: format!("{} {}", p.family, VERS[p.version]), name: &p.family, version: VERS[p.version], dir, worlds: Some(worlds) }),
                (None, Some(p)) => Some(Chosen { pack: &p.pack, who: String::new(), name: &p.family, version: VERS[p.version], dir: PathBuf::new(), worlds: None }),
                _ => None,
            }
        };
        // the command
        let mut a: Vec<String> = vec!["test".into(), s.spec.clone()];
        a.extend(s.tests.iter().cloned());
        for (on, f) in [(s.list, "--list"), (s.dry, "--dry-run"), (s.stop, "--stop-on-fail"), (s.no_local, "--no-local"), (s.inplace.is_some(), "--inplace"), (s.verbose > 0, "-v"), (s.verbose > 1, "-v")] {
            if on {
                a.push(f.into());
            }
        }
        if let Some(e) = &s.extra {
            a.extend(["--extra-packages".into(), e.clone()]);
        }
        if s.paths {
            a.extend(["--paths".into(), places[0].to_str().unwrap().into()]);
        }
        let from = match s.away {
            0 => cwd.clone(),
            1 => {
                a.extend(["-w".into(), cwd.to_str().unwrap().into()]);
                home.clone()
            }
            _ => {
                a.extend(["--working-dir".into(), "work dir".into()]);
                root.clone()
            }
        };
        let mut cmd = Command::new(std::env::current_exe().unwrap().with_file_name("rezcli"));
        cmd.args(&a).env_clear().env("HOME", &home).env("TMPDIR", &home).env("PATH", "/usr/local/bin:/usr/bin:/bin").env("KEEP", "kept").current_dir(&from).stdin(Stdio::null());
        let active = root.join("active");
        let mut current = false;
        if let (Some((v, there)), Some(ch)) = (&s.inplace, &chosen) {
            if *there {
                std::fs::create_dir_all(&active).unwrap();
            }
            let up = ch.name.to_uppercase();
            cmd.env(format!("{up}_ROOT"), &active).env("WHO", "current").env("SEEN_DEP", "9");
            if let Some(v) = v {
                cmd.env(format!("{up}_VERSION"), VERS[*v]);
            }
            current = *there && v.is_none_or(|v| VERS[v] == ch.version);
        }
        let before = tree(&root);
        let o = cmd.output().unwrap();
        let out = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        let what = |w: &str| format!("{w}: {a:?}\n{out}");
        // what should run
        let solved = chosen.as_ref().filter(|c| s.inplace.is_some() || c.worlds.is_some());
        let names: Vec<String> = match solved {
            None => vec![],
            Some(c) if s.tests.is_empty() => c.pack.tests.keys().cloned().collect(),
            Some(c) => {
                let mut l: Vec<String> = vec![];
                for p in &s.tests {
                    for n in c.pack.tests.keys().filter(|n| matches(p, n)) {
                        if !l.contains(n) {
                            l.push(n.clone());
                        }
                    }
                }
                l
            }
        };
        let runs = !s.list && !s.dry && (s.inplace.is_none() || current);
        let mut ran: Vec<&String> = vec![];
        let mut code = 0;
        let mut failed = 0;
        if runs {
            for n in &names {
                ran.push(n);
                let rc = solved.unwrap().pack.tests[n];
                if rc != 0 {
                    failed += 1;
                    if code == 0 {
                        code = if rc == 256 { 255 } else { rc as i32 };
                    }
                    if s.stop {
                        break;
                    }
                }
            }
        }
        match solved {
            None => {
                if o.status.code() == Some(0) || o.status.code().is_none() {
                    return Err(what("success without the package"));
                }
            }
            Some(_) => same(&what("exit status"), o.status.code(), Some(code))?,
        }
        let lines: Vec<String> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(str::to_string).collect();
        let got: Vec<&[String]> = lines.chunks(7).collect();
        same(&what("tests that ran"), got.iter().map(|l| &l[0]).collect::<Vec<_>>(), ran.clone())?;
        if let (Some(ch), Some(first)) = (solved, got.first()) {
            for l in &got {
                same(&what("environment of all tests"), &l[1..], &first[1..])?;
            }
            let (who, dep, pre, at, pwd, keep) = (&first[1], &first[2], &first[3], &first[4], &first[5], &first[6]);
            same(&what("inherited variable"), keep.as_str(), "kept")?;
            if s.inplace.is_some() {
                same(&what("current environment"), (who.as_str(), dep.as_str(), Path::new(at), Path::new(pwd)), ("current", "9", active.as_path(), active.as_path()))?;
            } else {
                same(&what("package tested"), who, &ch.who)?;
                same(&what("pre_test_commands"), pre.as_str(), if ch.pack.pre { "ready" } else { "" })?;
                same(&what("directory of the tests"), Path::new(pwd), ch.dir.as_path())?;
                let ws = ch.worlds.as_ref().unwrap();
                if !ws.iter().any(|(d, r)| d.unwrap_or("") == dep && r == Path::new(at)) {
                    return Err(what(&format!("tests ran with dep {dep:?} in {at:?}, not one of {ws:?}")));
                }
            }
        }
        if s.list && solved.is_some_and(|c| !c.pack.tests.is_empty()) {
            for n in solved.unwrap().pack.tests.keys() {
                if !out.lines().any(|l| l.trim_start().starts_with(n.as_str())) {
                    return Err(what(&format!("test {n:?} is not listed")));
                }
            }
        } else if !s.list && !names.is_empty() {
            let count = |k: &str| out.lines().find_map(|l| l.trim().strip_prefix(k).map(|v| v.trim().parse::<usize>().unwrap_or(999)));
            let total = if runs { ran.len() } else { names.len() };
            for (k, want) in [("Total:", total), ("Passed:", if runs { ran.len() - failed } else { 0 }), ("Failed:", failed), ("Errors:", 0), ("Skipped:", if runs { 0 } else { names.len() })] {
                same(&what(k), count(k), Some(want))?;
            }
        }
        let mut after = tree(&root);
        after.remove("log");
        same(&what("files"), after, before)?;
        Ok(Info::new(ran.len() > 1 || candidates > 1).label(ran.len() > 1, "several tests").label(candidates > 1, "several packages").label(failed > 0, "failing").label(solved.is_none(), "refused").label(s.inplace.is_some() && current, "in place"))
    });
}
