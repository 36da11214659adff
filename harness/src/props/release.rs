//! C27: releasing packages from git.
use super::build::{run, skipped, tree};
use super::envs::same;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rel {
    dry: bool,
    skip: bool,
    ignore: bool,
    variants: Option<String>,
    /// text given, and whether through a file
    message: Option<(String, bool)>,
    missing_file: bool,
    vcs: Option<String>,
    elsewhere: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// (file, content, committed)
    Edit(usize, usize, bool),
    /// what the build and the tests do: 0 succeed, 1 build fails, 2 tests fail
    State(usize),
    Version(usize),
    Commit,
    Origin(bool),
    RemoteTag,
    DropTag,
    Branch,
    /// a directory that is a repository no more
    Broken,
    Release(Rel),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    name: String,
    command: bool,
    variants: usize,
    tests: bool,
    ignore_file: bool,
    tilde: bool,
    ops: Vec<Op>,
}
const FILES: [&str; 5] = ["a.txt", "bin/tool", "lib/x y.py", "é", "notes.log"];
const TEXTS: [&str; 3] = ["one\n", "", "other text\nlines"];
const VERSIONS: [&str; 4] = ["1.0", "1.0.1", "2", "1.10-b"];
const STATES: [&str; 3] = ["fine\n", "fail\n", "tests\n"];

fn rel() -> BoxedStrategy<Rel> {
    (
        prop::bool::weighted(0.15),
        prop::bool::weighted(0.15),
        prop::bool::weighted(0.25),
        prop::option::weighted(0.3, select(vec!["0", "1", "1,0", "0, 0", "2", "x", "", ",", "-1", "0,9"]).prop_map(str::to_string)),
        prop::option::weighted(0.5, (select(vec!["note", "it's \"quoted\" $HOME `id`", "two\n\nparts; and\nmore", "-m dash", "é"]).prop_map(str::to_string), any::<bool>())),
        prop::bool::weighted(0.05),
        prop::option::weighted(0.15, select(vec!["git", "git", "svn", "hg", "none"]).prop_map(str::to_string)),
        any::<bool>(),
    )
        .prop_map(|(dry, skip, ignore, variants, message, missing_file, vcs, elsewhere)| Rel { dry, skip, ignore, variants, message, missing_file, vcs, elsewhere })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        10 => rel().prop_map(Op::Release),
        4 => (0..FILES.len(), 0..TEXTS.len(), prop::bool::weighted(0.7)).prop_map(|(f, t, c)| Op::Edit(f, t, c)),
        4 => (0..VERSIONS.len()).prop_map(Op::Version),
        2 => prop_oneof![2 => Just(0usize), 1 => Just(1), 1 => Just(2)].prop_map(Op::State),
        1 => Just(Op::Commit),
        2 => prop::bool::weighted(0.7).prop_map(Op::Origin),
        1 => Just(Op::RemoteTag),
        1 => Just(Op::DropTag),
        1 => Just(Op::Branch),
    ];
    (select(vec!["foo", "my_tool", "x-y"]).prop_map(str::to_string), any::<bool>(), prop_oneof![3 => Just(0usize), 3 => Just(1), 1 => Just(2)], any::<bool>(), prop::bool::weighted(0.85), any::<bool>(), prop::collection::vec(op, 2..10), prop::bool::weighted(0.06))
        .prop_map(|(name, command, variants, tests, ignore_file, tilde, mut ops, broken)| {
            if broken {
                ops.push(Op::Broken);
                ops.push(Op::Release(Rel { dry: false, skip: false, ignore: false, variants: None, message: None, missing_file: false, vcs: Some("git".into()), elsewhere: false }));
            }
            Case { name, command, variants, tests, ignore_file, tilde, ops }
        })
        .boxed()
}
fn git(dir: &Path, home: &Path, args: &[&str]) -> String {
    let o = Command::new("git").args(args).current_dir(dir).env("HOME", home).env("GIT_CONFIG_NOSYSTEM", "1").stdin(Stdio::null()).output().expect("git runs");
    if !o.status.success() {
        panic!("harness: git {args:?}: {}", String::from_utf8_lossy(&o.stderr));
    }
    String::from_utf8_lossy(&o.stdout).into_owned()
}
/// reference name -> (type, object, what it points at, text)
type Refs = BTreeMap<String, (String, String, String, String)>;
fn refs(dir: &Path, home: &Path) -> Refs {
    git(dir, home, &["for-each-ref", "--format=%(refname)%00%(objecttype)%00%(objectname)%00%(*objectname)%00%(contents)%00%01"])
        .split('\u{1}')
        .filter_map(|r| {
            let f: Vec<&str> = r.trim_start_matches('\n').split('\0').collect();
            (f.len() >= 5).then(|| (f[0].to_string(), (f[1].into(), f[2].into(), f[3].into(), f[4].trim().into())))
        })
        .collect()
}
type Tree = BTreeMap<String, (Vec<u8>, bool)>;

pub fn c27(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("histories of edits, commits, version changes, failing builds, a missing or differing origin and releases with generated options; non-trivial = at least two releases that reached the build, or a success next to a refusal");
    c.assume("git only, as the command itself requires; tag messages without the lines git cleans up");

    c.check("git", 600, 8_000, case, |s: &Case| {
        let t = tempfile::tempdir().unwrap();
        let root = std::fs::canonicalize(t.path()).unwrap();
        let (repo, home, src, origin) = (root.join("repo"), root.join("home"), root.join("my src"), root.join("origin.git"));
        for (n, v) in [("py", "3"), ("py", "4")] {
            let d = repo.join(n).join(v);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("package.py"), format!("name = {n:?}\nversion = {v:?}\n")).unwrap();
        }
        for d in [&home, &src, &origin] {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(home.join(".gitconfig"), "[user]\nname = me\nemail = me@here\n[init]\ndefaultBranch = main\n").unwrap();
        let out_dir = home.join("released here");
        std::fs::write(home.join(".rezconfig.yaml"), format!("release_packages_path: {:?}\n", if s.tilde { "~/released here".to_string() } else { out_dir.to_str().unwrap().into() })).unwrap();
        let variants: Vec<Vec<&str>> = match s.variants {
            0 => vec![],
            1 => vec![vec!["py-3"], vec!["py-4"]],
            _ => vec![vec!["py-4", "py"], vec!["gone-2"]],
        };
        let mut version = 0usize;
        let write_def = |v: usize| {
            let mut d = format!("name = {:?}\nversion = {:?}\n", s.name, VERSIONS[v]);
            if !variants.is_empty() {
                d += &format!("variants = {variants:?}\n");
            }
            if s.command {
                d += "build_command = \"if grep -q fail state; then exit 3; fi; mkdir -p \\\"{install_path}/lib\\\"; cp a.txt \\\"{install_path}/lib/made\\\"\"\n";
            }
            if s.tests {
                d += &format!("tests = {{\"all\": \"if grep -q tests '{}/state'; then exit 4; fi\"}}\n", src.display());
            }
            std::fs::write(src.join("package.py"), &d).unwrap();
        };
        let g = |args: &[&str]| git(&src, &home, args);
        git(&origin, &home, &["init", "-q", "--bare"]);
        g(&["init", "-q"]);
        g(&["remote", "add", "origin", origin.to_str().unwrap()]);
        write_def(version);
        std::fs::write(src.join("state"), STATES[0]).unwrap();
        std::fs::write(src.join("a.txt"), "start\n").unwrap();
        if s.ignore_file {
            std::fs::write(src.join(".gitignore"), ".rez_build\n").unwrap();
        }
        let commit = || {
            g(&["add", "-A"]);
            g(&["commit", "-q", "--allow-empty", "-m", "change"]);
        };
        commit();
        g(&["push", "-q", "-u", "origin", "main"]);
        let mut origin_there = true;
        let mut state = 0;
        let (mut built, mut released, mut refused, mut pushes_failed, mut builds_failed) = (0, 0, 0, 0, 0);
        for (i, op) in s.ops.iter().enumerate() {
            let r = match op {
                Op::Edit(f, x, done) => {
                    let p = src.join(FILES[*f]);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, TEXTS[*x]).unwrap();
                    if *done {
                        commit();
                    }
                    continue;
                }
                Op::State(n) => {
                    state = *n;
                    std::fs::write(src.join("state"), STATES[state]).unwrap();
                    commit();
                    continue;
                }
                Op::Version(v) => {
                    version = *v;
                    write_def(version);
                    commit();
                    continue;
                }
                Op::Commit => {
                    commit();
                    continue;
                }
                Op::Origin(there) => {
                    if *there != origin_there {
                        let away = root.join("away.git");
                        if *there {
                            std::fs::rename(&away, &origin).unwrap();
                        } else {
                            std::fs::rename(&origin, &away).unwrap();
                        }
                        origin_there = *there;
                    }
                    continue;
                }
                Op::RemoteTag => {
                    if origin_there {
                        let tag = format!("refs/tags/{}-{}", s.name, VERSIONS[version]);
                        git(&origin, &home, &["update-ref", &tag, "refs/heads/main"]);
                    }
                    continue;
                }
                Op::DropTag => {
                    let tag = format!("{}-{}", s.name, VERSIONS[version]);
                    if refs(&src, &home).contains_key(&format!("refs/tags/{tag}")) {
                        g(&["tag", "-d", &tag]);
                    }
                    continue;
                }
                Op::Branch => {
                    g(&["branch", "-f", &format!("{}-{}", s.name, VERSIONS[version])]);
                    continue;
                }
                Op::Broken => {
                    std::fs::rename(src.join(".git/HEAD"), src.join(".git/WAS")).unwrap();
                    continue;
                }
                Op::Release(r) => r,
            };
            let broken = !src.join(".git/HEAD").exists();
            let tag = format!("{}-{}", s.name, VERSIONS[version]);
            let full = format!("refs/tags/{tag}");
            let far = || refs(&if origin_there { origin.clone() } else { root.join("away.git") }, &home);
            let near = || if broken { Refs::new() } else { refs(&src, &home) };
            let head = if broken { String::new() } else { g(&["rev-parse", "HEAD"]).trim().to_string() };
            let dirty = broken || !g(&["status", "--porcelain"]).is_empty();
            let (near0, far0, out0) = (near(), far(), tree(&out_dir));
            let files = |all: bool| -> Tree { tree(&src).into_iter().filter(|(p, _)| !p.starts_with(".git/") && (all || !p.starts_with(".rez_build/"))).collect() };
            let (src0, all0) = (files(false), files(true));
            // the command
            let mut a: Vec<String> = vec!["release".into()];
            for (on, flag) in [(r.dry, "--dry-run"), (r.skip, "--skip-repo-errors"), (r.ignore, "--ignore-existing-tag")] {
                if on {
                    a.push(flag.into());
                }
            }
            if let Some(v) = &r.variants {
                a.push(format!("--variants={v}"));
            }
            if let Some(v) = &r.vcs {
                a.extend(["--vcs".into(), v.clone()]);
            }
            let note = home.join("note");
            let mut message = format!("Release {tag}");
            if r.missing_file {
                a.extend(["-F".into(), home.join("no such file").to_str().unwrap().into()]);
            } else if let Some((m, file)) = &r.message {
                message = m.clone();
                if *file {
                    std::fs::write(&note, m).unwrap();
                    a.extend(["--message-file".into(), note.to_str().unwrap().into()]);
                } else {
                    a.push(format!("--message={m}"));
                }
            }
            let cwd = if r.elsewhere { root.clone() } else { src.clone() };
            if r.elsewhere {
                a.extend(["-w".into(), src.to_str().unwrap().into()]);
            }
            // what should come of it
            let chosen: Option<Vec<Option<usize>>> = match (&r.variants, variants.len()) {
                (None, 0) => Some(vec![None]),
                (Some(v), 0) => v.trim().is_empty().then(|| vec![None]),
                (None, n) => Some((0..n).map(Some).collect()),
                (Some(v), n) => {
                    let parts: Vec<Option<usize>> = v.split(',').map(str::trim).filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().ok().filter(|i| *i < n)).collect();
                    let mut l: Vec<Option<usize>> = vec![];
                    for p in &parts {
                        if !l.contains(p) {
                            l.push(*p);
                        }
                    }
                    (!parts.is_empty() && parts.iter().all(Option::is_some)).then_some(l)
                }
            };
            let tagged = near0.contains_key(&full);
            let refuse = r.vcs.as_ref().is_some_and(|v| v != "git") || (dirty && !r.skip) || (tagged && !r.ignore) || chosen.is_none() || r.missing_file;
            let chosen = chosen.unwrap_or_default();
            let build_ok = !(s.command && state == 1) && !(s.tests && state == 2) && !chosen.iter().any(|v| v.is_some_and(|i| variants[i].contains(&"gone-2")));
            let push_ok = tagged || (origin_there && !far0.contains_key(&full));
            let (rc, out) = run(&a, &cwd, &home, &repo);
            // a tag made again within the second it was pushed is the very same object, which origin then already has
            let remade = !tagged && origin_there && rc == Some(0) && far0.get(&full).is_some_and(|f| f.0 == "tag" && near().get(&full) == Some(f));
            let push_ok = push_ok || remade;
            let want_ok = !refuse && (r.dry || (build_ok && push_ok));
            let what = |w: &str| format!("{w}: {a:?} (operation {i} of {:?})\n{out}", s.ops);
            same(&what("success"), rc == Some(0), want_ok)?;
            same(&what("source files"), files(false), src0.clone())?;
            if !broken {
                same(&what("HEAD"), g(&["rev-parse", "HEAD"]).trim(), head.as_str())?;
            }
            let (near1, far1, out1) = (near(), far(), tree(&out_dir));
            if refuse || r.dry {
                refused += refuse as usize;
                same(&what("references after a release that must do nothing"), (&near1, &far1), (&near0, &far0))?;
                same(&what("released files after a release that must do nothing"), out1, out0)?;
                same(&what("files in the working tree"), files(true), all0)?;
                continue;
            }
            built += 1;
            let place = PathBuf::from(&s.name).join(VERSIONS[version]);
            let others = |t: &Tree| -> Tree { t.iter().filter(|(p, _)| !Path::new(p).starts_with(&place)).map(|(k, v)| (k.clone(), v.clone())).collect() };
            same(&what("other released packages"), others(&out1), others(&out0))?;
            if !want_ok {
                same(&what("references after a failed release"), (&near1, &far1), (&near0, &far0))?;
                builds_failed += !build_ok as usize;
                pushes_failed += build_ok as usize;
                continue;
            }
            released += 1;
            let (mut near2, mut far2) = (near0.clone(), far0.clone());
            if !tagged {
                let t = near1.get(&full).ok_or_else(|| what("the tag is missing"))?;
                same(&what("the tag"), (t.0.as_str(), t.2.as_str(), t.3.as_str()), ("tag", head.as_str(), message.trim()))?;
                near2.insert(full.clone(), t.clone());
                far2.insert(full.clone(), t.clone());
            }
            same(&what("references after a release"), &near1, &near2)?;
            same(&what("references of origin after a release"), &far1, &far2)?;
            // what is released
            let mut want: Tree = out0.clone();
            let def = src0["package.py"].clone();
            want.insert(place.join("package.py").to_str().unwrap().into(), def);
            for v in &chosen {
                let at = place.join(v.map(|i| variants[i].iter().collect::<PathBuf>()).unwrap_or_default());
                for (p, f) in src0.iter().filter(|(p, _)| !skipped(p)) {
                    if p != "package.py" || v.is_none() {
                        want.insert(at.join(p).to_str().unwrap().into(), f.clone());
                    }
                }
                if s.command {
                    want.insert(at.join("lib/made").to_str().unwrap().into(), src0["a.txt"].clone());
                }
            }
            // the definition beside a variant's files may or may not be there
            let mut got = out1;
            if !variants.is_empty() {
                let top = place.join("package.py").to_str().unwrap().to_string();
                got.retain(|p, _| !p.ends_with("/package.py") || *p == top || want.contains_key(p));
                want.retain(|p, _| !(p.ends_with("/package.py") && Path::new(p).starts_with(&place) && *p != top));
                got.retain(|p, _| !(p.ends_with("/package.py") && Path::new(p).starts_with(&place) && *p != top));
            }
            same(&what("released files"), got, want)?;
        }
        Ok(Info::new(built > 1 || (released > 0 && refused > 0)).label(released > 0, "released").label(refused > 0, "refused").label(pushes_failed > 0, "push failed").label(builds_failed > 0, "build failed"))
    });
}
