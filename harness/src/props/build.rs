//! C26: building packages.
use super::envs::same;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// how the package is built
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    /// nothing there: the files are copied
    Plain,
    /// build_command = "" or "false"
    CopyOnly(bool),
    /// build_command with every placeholder
    Cmd,
    /// a build script: build.sh, build (with #!), rezbuild.py, or one named by build_system
    Sh,
    Exec,
    Rez,
    Named,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Into {
    Nowhere,
    Prefix,
    /// a prefix inside the source directory
    Inside,
    Local,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    name: String,
    version: String,
    desc: Option<String>,
    requires: Vec<String>,
    build_requires: Vec<String>,
    private: Vec<String>,
    variants: Vec<Vec<String>>,
    /// which variants are asked for
    select: Option<Vec<usize>>,
    kind: Kind,
    into: Into,
    /// (step, variant number) that fails
    fail: Option<(String, usize)>,
    files: Vec<(String, String, bool)>,
    /// package tests: name, exit status
    tests: Vec<(String, u8)>,
    skip_tests: bool,
    yaml: bool,
    dir: String,
    /// the source is named on the command line, from another directory
    named: bool,
    /// built a second time with this content in every file
    again: Option<String>,
}
const DEPS: [&str; 7] = ["py", "py-3", "py-4", "py-3+", "qt-5", "qt", "gone-1"];
fn reqs(max: usize) -> BoxedStrategy<Vec<String>> {
    prop::collection::vec(prop_oneof![8 => select(DEPS[..6].to_vec()), 40 => select(vec!["py", "py-3+", "qt-5", "qt"]), 1 => Just(DEPS[6])].prop_map(str::to_string), 0..max).boxed()
}
fn case() -> BoxedStrategy<Case> {
    let file = (
        select(vec!["a.txt", "bin/tool", "lib/deep/x.py", ".hidden", "data é.txt", "x.log", "build/obj.o", "dist/x", ".git/config", ".gitignore", "__pycache__/a.pyc", "m.pyc", "lib/sub/y", "node_modules/z", "docs/it's here", ".rez_build/old/f"]).prop_map(str::to_string),
        select(vec!["", "one\n", "two lines\nof text", "é\u{1}\u{7f}"]).prop_map(str::to_string),
        any::<bool>(),
    );
    (
        (
            select(vec!["foo", "my_tool", "x-y", "py"]).prop_map(str::to_string),
            select(vec!["1.2", "1", "2.0.11", "10.1-a"]).prop_map(str::to_string),
            prop::option::of(select(vec!["", " about it ", "it's \"quoted\" $HOME"]).prop_map(str::to_string)),
            reqs(3),
            reqs(2),
            reqs(2),
        ),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::btree_set(prop::collection::vec(select(vec!["py-3", "py-4", "qt-5", "py"]).prop_map(str::to_string), 1..3), 1..4).prop_map(|s| s.into_iter().collect::<Vec<_>>()).prop_shuffle()],
        prop::option::weighted(0.3, prop::collection::btree_set(0usize..4, 1..3).prop_map(|s| s.into_iter().collect::<Vec<_>>()).prop_shuffle()),
        prop_oneof![3 => Just(Kind::Plain), 1 => any::<bool>().prop_map(Kind::CopyOnly), 3 => Just(Kind::Cmd), 3 => Just(Kind::Sh), 1 => Just(Kind::Exec), 2 => Just(Kind::Rez), 1 => Just(Kind::Named)],
        prop_oneof![2 => Just(Into::Nowhere), 3 => Just(Into::Prefix), 1 => Just(Into::Inside), 2 => Just(Into::Local)],
        prop::option::weighted(0.3, (select(vec!["build", "install", "install"]).prop_map(str::to_string), 0usize..3)),
        prop::collection::vec(file, 0..8),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::btree_map(select(vec!["b", "a", "unit", "C"]).prop_map(str::to_string), prop_oneof![4 => Just(0u8), 1 => select(vec![1u8, 3])], 1..4).prop_map(|m| m.into_iter().collect::<Vec<_>>()).prop_shuffle()],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.2),
        select(vec!["src", "src", "my src", "it's", "é$x"]).prop_map(str::to_string),
        (prop::bool::weighted(0.2), prop::option::weighted(0.25, Just("changed\n".to_string()))),
    )
        .prop_map(|((name, version, desc, requires, build_requires, private), variants, select, kind, into, fail, files, tests, skip_tests, yaml, dir, (named, again))| {
            let mut seen = BTreeSet::new();
            let files: Vec<_> = files.into_iter().filter(|f| seen.insert(f.0.clone())).collect();
            // all of the selection is there, or none of it
            let select = match select {
                Some(s) if s.iter().any(|&i| i < variants.len()) => Some(s.into_iter().filter(|&i| i < variants.len()).collect()),
                s => s,
            };
            // commands take paths as they are
            let dir = if kind == Kind::Cmd || !tests.is_empty() { dir.replace(['\'', '$'], " ") } else { dir };
            let yaml = yaml && kind != Kind::Cmd;
            let fail = fail.filter(|(s, _)| !matches!(kind, Kind::Plain | Kind::CopyOnly(_)) && (kind != Kind::Cmd || s == "install"));
            // a file called build or dist at the top decides how to build, or is in the way of the script
            let files: Vec<_> = files.into_iter().filter(|f| !(f.0.starts_with("build/") && matches!(kind, Kind::Exec | Kind::Plain))).collect();
            Case { name, version, desc, requires, build_requires, private, variants, select, kind, into, fail, files, tests, skip_tests, yaml, dir, named, again }
        })
        .boxed()
}
/// the versions of py and qt that satisfy the requests, if they can be met
fn resolved(reqs: &[String]) -> Option<BTreeMap<&'static str, &'static str>> {
    let mut py: Vec<&str> = vec!["4", "3"];
    let (mut p, mut q) = (false, false);
    for r in reqs {
        match r.as_str() {
            "py" | "py-3+" => p = true,
            "py-3" => {
                p = true;
                py.retain(|v| *v == "3")
            }
            "py-4" => {
                p = true;
                py.retain(|v| *v == "4")
            }
            "qt" | "qt-5" => q = true,
            _ => return None,
        }
    }
    let mut m = BTreeMap::new();
    if p {
        m.insert("py", if *py.first()? == "4" { "4" } else { "3" });
    }
    if q {
        m.insert("qt", "5");
    }
    Some(m)
}
pub(super) fn walk(d: &Path, at: &Path, out: &mut BTreeMap<String, (Vec<u8>, bool)>) {
    use std::os::unix::fs::PermissionsExt;
    let Ok(es) = std::fs::read_dir(at) else { return };
    for e in es.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(d, &p, out)
        } else {
            let x = p.metadata().map(|m| m.permissions().mode() & 0o100 != 0).unwrap_or(false);
            out.insert(p.strip_prefix(d).unwrap().to_string_lossy().into_owned(), (std::fs::read(&p).unwrap_or_default(), x));
        }
    }
}
pub(super) fn tree(d: &Path) -> BTreeMap<String, (Vec<u8>, bool)> {
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}
pub(super) fn run(args: &[String], cwd: &Path, home: &Path, repo: &Path) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap().with_file_name("rezcli");
    let o = Command::new(exe)
        .args(args)
        .env_clear()
        .env("HOME", home)
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("TMPDIR", home)
        .env("REZ_PACKAGES_PATH", repo)
        .env("REZ_BUILD_TARGET_X", "given")
        .env("LEAK", "outside")
        .current_dir(cwd)
        .stdin(Stdio::null())
        .output()
        .expect("rezcli runs");
    (o.status.code(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))
}
fn q(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}
const SKIP: [&str; 6] = [".git", ".gitignore", "build", "dist", "__pycache__", "node_modules"];
pub(super) fn skipped(path: &str) -> bool {
    let top = path.split('/').next().unwrap();
    SKIP.contains(&top) || top == ".rez_build" || top == "inst" || (top == path && (path.ends_with(".log") || path.ends_with(".pyc")))
}

pub fn c26(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("packages with generated source files, requirements, variants and tests, built by copying, by build_command or by a build script that may fail at a chosen step; non-trivial = at least two variants, or a dependency in the build environment, or a failing step");
    c.assume("Unix; bash and Python scripts; no hashed_variants; variant requirement texts usable as directory names");

    c.check("cli", 1_000, 12_000, case, |s: &Case| {
        let t = tempfile::tempdir().unwrap();
        let t = std::fs::canonicalize(t.path()).map(|p| (t, p)).unwrap();
        let root = t.1.as_path();
        let (repo, log, home) = (root.join("repo"), root.join("log"), root.join("home"));
        for (n, v) in [("py", "3"), ("py", "4"), ("qt", "5")] {
            let d = repo.join(n).join(v);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("package.py"), format!("name = {n:?}\nversion = {v:?}\ndef commands():\n    env.SEEN_{} = \"{{version}}\"\n    env.PATH.prepend(\"{{root}}/bin\")\n", n.to_uppercase())).unwrap();
        }
        for d in [&log, &home] {
            std::fs::create_dir_all(d).unwrap();
        }
        let src = root.join(&s.dir);
        std::fs::create_dir_all(&src).unwrap();
        let put = |p: &str, text: &str, x: bool| {
            use std::os::unix::fs::PermissionsExt;
            let f = src.join(p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, text).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(if x { 0o755 } else { 0o644 })).unwrap();
        };
        for (p, text, x) in &s.files {
            put(p, text, *x);
        }
        let logq = q(log.to_str().unwrap());
        // the definition
        let mut def: Vec<(String, serde_json::Value)> = vec![("name".into(), s.name.clone().into()), ("version".into(), s.version.clone().into())];
        if let Some(d) = &s.desc {
            def.push(("description".into(), d.clone().into()));
        }
        for (k, l) in [("requires", &s.requires), ("build_requires", &s.build_requires), ("private_build_requires", &s.private)] {
            if !l.is_empty() {
                def.push((k.into(), l.clone().into()));
            }
        }
        if !s.variants.is_empty() {
            def.push(("variants".into(), s.variants.clone().into()));
        }
        if !s.tests.is_empty() {
            let m: serde_json::Map<String, serde_json::Value> = s.tests.iter().map(|(n, rc)| (n.clone(), format!("echo \"test {n} $REZ_BUILD_VARIANT_INDEX\" >> {logq}/steps; test -d '{{root}}' && echo '{{root}}' >> {logq}/roots; exit {rc}").into())).collect();
            def.push(("tests".into(), m.into()));
        }
        match s.kind {
            Kind::CopyOnly(e) => def.push(("build_command".into(), if e { "" } else { "false" }.into())),
            Kind::Cmd => {
                let fail = s.fail.as_ref().map(|(_, i)| format!("test \"$REZ_BUILD_VARIANT_INDEX\" != {i} || exit 7; ")).unwrap_or_default();
                def.push(("build_command".into(), format!("echo \"install $REZ_BUILD_VARIANT_INDEX\" >> {logq}/steps; /usr/bin/env -0 > {logq}/env.install.$REZ_BUILD_VARIANT_INDEX; printf '%s\\n' '{{install}}' '{{name}}' '{{version}}' '{{variant_index}}' > {logq}/args.$REZ_BUILD_VARIANT_INDEX; {fail}mkdir -p \"{{install_path}}/lib\"; echo made $REZ_BUILD_VARIANT_INDEX > \"{{install_path}}/lib/made\"; echo \"{{root}}\" > {logq}/root; echo \"{{build_path}}\" > {logq}/build_path").into()));
            }
            Kind::Named => def.push(("build_system".into(), "make me.sh".into())),
            _ => {}
        }
        let file = if s.yaml { "package.yaml" } else { "package.py" };
        let text: String = if s.yaml { serde_yaml::to_string(&def.iter().cloned().collect::<serde_json::Map<_, _>>()).unwrap() } else { def.iter().map(|(k, v)| format!("{k} = {v}\n")).collect::<String>() + "def commands():\n    env.WHERE = \"{root}\"\n" };
        put(file, &text, false);
        let fail = s.fail.as_ref().map(|(st, i)| format!("{st} {i}")).unwrap_or_else(|| "never".into());
        let sh = format!("echo \"$1 $REZ_BUILD_VARIANT_INDEX\" >> {logq}/steps\n/usr/bin/env -0 > {logq}/env.$1.$REZ_BUILD_VARIANT_INDEX\necho to stdout; echo to stderr >&2\ntest \"$1 $REZ_BUILD_VARIANT_INDEX\" != \"{fail}\" || exit 3\nmkdir -p \"$REZ_BUILD_INSTALL_PATH/lib\"\necho made $REZ_BUILD_VARIANT_INDEX > \"$REZ_BUILD_INSTALL_PATH/lib/$1\"\npwd > {logq}/root\n");
        match s.kind {
            Kind::Sh => put("build.sh", &sh, false),
            Kind::Named => put("make me.sh", &sh, false),
            Kind::Exec => put("build", &format!("#!/bin/bash\n{sh}"), true),
            Kind::Rez => put("rezbuild.py", &format!("import os, sys\nlog = {:?}\nstep, i = sys.argv[1], os.environ['REZ_BUILD_VARIANT_INDEX']\nopen(log + '/steps', 'a').write(step + ' ' + i + '\\n')\nopen(log + '/env.' + step + '.' + i, 'wb').write(b''.join(k + b'=' + v + b'\\0' for k, v in os.environb.items()))\nif step + ' ' + i == {fail:?}: sys.exit(3)\nd = os.environ['REZ_BUILD_INSTALL_PATH'] + '/lib'\nos.makedirs(d, exist_ok=True)\nopen(d + '/' + step, 'w').write('made ' + i + '\\n')\nopen(log + '/root', 'w').write(os.getcwd() + '\\n')\n", log.to_str().unwrap()), false),
            _ => {}
        }
        let before = tree(&src);
        // what should happen
        let chosen: Vec<Option<usize>> = match (&s.select, s.variants.len()) {
            (Some(l), n) if l.iter().all(|&i| i >= n) => vec![],
            (Some(l), _) => l.iter().map(|&i| Some(i)).collect(),
            (None, 0) => vec![None],
            (None, n) => (0..n).map(Some).collect(),
        };
        let copies = matches!(s.kind, Kind::Plain | Kind::CopyOnly(_) | Kind::Cmd);
        let prefix = match s.into {
            Into::Nowhere => None,
            Into::Prefix => Some(root.join("inst")),
            Into::Inside => Some(src.join("inst")),
            Into::Local => Some(home.join("packages")),
        };
        let mut steps: Vec<String> = vec![];
        let mut done: Vec<Option<usize>> = vec![];
        let mut ok = !chosen.is_empty();
        let mut envs: Vec<(String, Option<usize>, BTreeMap<&str, &str>)> = vec![];
        let mut tested: Vec<Option<usize>> = vec![];
        'all: for v in &chosen {
            let mut reqs: Vec<String> = s.requires.iter().chain(&s.build_requires).chain(&s.private).cloned().collect();
            if let Some(i) = v {
                reqs.extend(s.variants[*i].clone());
            }
            let Some(deps) = resolved(&reqs) else {
                ok = false;
                break;
            };
            let n = v.unwrap_or(0);
            let phases: &[&str] = match s.kind {
                Kind::Plain | Kind::CopyOnly(_) => &[],
                Kind::Cmd => &["install"],
                _ => &["build", "install"],
            };
            for p in phases {
                steps.push(format!("{p} {n}"));
                envs.push((p.to_string(), *v, deps.clone()));
                if s.fail.as_ref().is_some_and(|(st, i)| st == p && *i == n) {
                    ok = false;
                    break 'all;
                }
            }
            done.push(*v);
            if !s.skip_tests {
                let mut ts = s.tests.clone();
                ts.sort();
                if !ts.is_empty() {
                    tested.push(*v);
                }
                for (name, rc) in ts {
                    steps.push(format!("test {name} {n}"));
                    if rc != 0 {
                        ok = false;
                        break 'all;
                    }
                }
            }
        }
        let mut a: Vec<String> = vec!["build".into()];
        if let Some(l) = &s.select {
            a.extend(l.iter().flat_map(|i| ["--variants".to_string(), i.to_string()]));
        }
        match s.into {
            Into::Nowhere => {}
            Into::Local => a.push("-i".into()),
            Into::Prefix => a.extend(["-i".into(), "-p".into(), root.join("inst").to_str().unwrap().into()]),
            Into::Inside => a.extend(["-i".into(), "--prefix".into(), "inst".to_string()]),
        }
        if s.skip_tests {
            a.push("--skip-tests".into());
        }
        let named = s.named && matches!(s.into, Into::Prefix | Into::Local);
        let cwd = if named { home.clone() } else { src.clone() };
        if named {
            a.push(src.to_str().unwrap().into());
        }
        if let Some(p) = &prefix {
            if s.into == Into::Local {
                std::fs::write(home.join(".rezconfig.yaml"), format!("local_packages_path: {}\n", serde_json::to_string(p).unwrap())).unwrap();
            }
        }
        let before_repo = tree(&repo);
        let mut contents: BTreeMap<String, (Vec<u8>, bool)> = before.clone();
        for round in 0..if s.again.is_some() && ok { 2 } else { 1 } {
            if round == 1 {
                for (p, _, x) in &s.files {
                    put(p, s.again.as_ref().unwrap(), *x);
                    contents.insert(p.clone(), (s.again.clone().unwrap().into_bytes(), *x));
                }
                for f in std::fs::read_dir(&log).unwrap().flatten() {
                    std::fs::remove_file(f.path()).unwrap();
                }
            }
            let (rc, out) = run(&a, &cwd, &home, &repo);
            let what = |w: &str| format!("{w} of {a:?} (round {round})\n{text}\n{out}");
            same(&what("success"), rc == Some(0), ok)?;
            let got: Vec<String> = std::fs::read_to_string(log.join("steps")).unwrap_or_default().lines().map(str::to_string).collect();
            same(&what("steps run"), &got, &steps)?;
            // the sources are as they were
            let now: BTreeMap<_, _> = tree(&src).into_iter().filter(|(p, _)| contents.contains_key(p) || !(p.starts_with(".rez_build/") || (s.into == Into::Inside && p.starts_with("inst/")) || p.contains("__pycache__"))).collect();
            same(&what("source files"), &now, &contents)?;
            same(&what("dependencies' repository"), tree(&repo), before_repo.clone())?;
            // where each variant goes
            let sub = |v: &Option<usize>| v.map(|i| s.variants[i].iter().collect::<PathBuf>()).unwrap_or_default();
            let work = if named { home.join(".rez_build") } else { src.join(".rez_build") };
            let pdir = prefix.as_ref().map(|p| p.join(&s.name).join(&s.version));
            let inst = |v: &Option<usize>| match &pdir {
                Some(p) => p.join(sub(v)),
                None => work.join(&s.name).join(sub(v)).join("install"),
            };
            // what each step was told
            for (step, v, deps) in &envs {
                let n = v.unwrap_or(0);
                let raw = std::fs::read(log.join(format!("env.{step}.{n}"))).map_err(|e| what(&format!("environment of {step} {n}: {e}")))?;
                let env: BTreeMap<String, String> = raw.split(|b| *b == 0).filter_map(|l| String::from_utf8_lossy(l).split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
                let mut reqs: Vec<String> = s.requires.iter().chain(&s.build_requires).chain(&s.private).cloned().collect();
                if let Some(i) = v {
                    reqs.extend(s.variants[*i].clone());
                }
                let bare: Vec<&str> = reqs.iter().map(|r| r.split('-').next().unwrap()).collect();
                let place = |k: &str| std::fs::canonicalize(env.get(k).cloned().unwrap_or_default()).ok();
                for (k, want) in [
                    ("REZ_BUILD_ENV", "1".to_string()),
                    ("REZ_BUILD_INSTALL", if prefix.is_some() { "1" } else { "0" }.into()),
                    ("REZ_BUILD_PROJECT_NAME", s.name.clone()),
                    ("REZ_BUILD_PROJECT_VERSION", s.version.clone()),
                    ("REZ_BUILD_PACKAGE_NAME", s.name.clone()),
                    ("REZ_BUILD_PACKAGE_VERSION", s.version.clone()),
                    ("REZ_BUILD_PROJECT_DESCRIPTION", s.desc.clone().unwrap_or_default().trim().to_string()),
                    ("REZ_BUILD_VARIANT_INDEX", n.to_string()),
                    ("REZ_BUILD_VARIANT_REQUIRES", v.map(|i| s.variants[i].join(" ")).unwrap_or_default()),
                    ("REZ_BUILD_VARIANT_SUBPATH", sub(v).to_string_lossy().into_owned()),
                    ("REZ_BUILD_REQUIRES", reqs.join(" ")),
                    ("REZ_BUILD_REQUIRES_UNVERSIONED", bare.join(" ")),
                    ("REZ_BUILD_TARGET_X", "given".into()),
                ] {
                    same(&what(&format!("{k} in {step} {n}")), env.get(k), Some(&want))?;
                }
                for (k, n) in [("SEEN_PY", "py"), ("SEEN_QT", "qt")] {
                    same(&what(&format!("{k} in {step}")), env.get(k).map(String::as_str), deps.get(n).copied())?;
                    let bin = repo.join(n).join(deps.get(n).copied().unwrap_or("-")).join("bin");
                    same(&what(&format!("PATH has {n} in {step}")), env.get("PATH").is_some_and(|p| p.split(':').any(|d| Path::new(d) == bin)), deps.contains_key(n))?;
                }
                same(&what("caller's variables in the build"), env.get("LEAK"), None)?;
                same(&what(&format!("install path told to {step}")), env.get("REZ_BUILD_INSTALL_PATH").map(PathBuf::from), Some(inst(v)))?;
                if !named {
                    same(&what("source path"), place("REZ_BUILD_SOURCE_PATH"), Some(src.clone()))?;
                    same(&what("definition file"), place("REZ_BUILD_PROJECT_FILE"), Some(src.join(file)))?;
                    same(&what("working directory"), std::fs::read_to_string(log.join("root")).ok().map(|l| l.trim_end().to_string()), log.join("root").exists().then(|| src.to_str().unwrap().to_string()))?;
                }
                if s.kind == Kind::Cmd {
                    let l = std::fs::read_to_string(log.join(format!("args.{n}"))).unwrap_or_default();
                    same(&what("placeholders"), l, format!("{}\n{}\n{}\n{}\n", if prefix.is_some() { "install" } else { "" }, s.name, s.version, v.map(|i| i.to_string()).unwrap_or_default()))?;
                }
            }
            let roots: Vec<PathBuf> = std::fs::read_to_string(log.join("roots")).unwrap_or_default().lines().map(PathBuf::from).collect();
            for v in &tested {
                if !roots.contains(&inst(v)) {
                    return Err(what(&format!("tests of variant {v:?} ran in {roots:?}, not {}", inst(v).display())));
                }
            }
            // what is installed
            for v in &done {
                let mut want: BTreeMap<String, (Vec<u8>, bool)> = BTreeMap::new();
                if copies {
                    want.extend(contents.iter().filter(|(p, _)| !skipped(p)).map(|(p, c)| (p.clone(), c.clone())));
                }
                let made = format!("made {}\n", v.unwrap_or(0)).into_bytes();
                match s.kind {
                    Kind::Plain | Kind::CopyOnly(_) => {}
                    Kind::Cmd => {
                        want.insert("lib/made".into(), (made, false));
                    }
                    _ => {
                        want.insert("lib/build".into(), (made.clone(), false));
                        want.insert("lib/install".into(), (made, false));
                    }
                }
                let mut got = tree(&inst(v));
                // the package's own definition, and variants below this one, are looked at below
                got.retain(|p, _| want.contains_key(p) || p != file);
                let below: Vec<PathBuf> = chosen.iter().map(|w| inst(w)).filter(|w| *w != inst(v) && w.starts_with(inst(v))).collect();
                got.retain(|p, _| !below.iter().any(|b| inst(v).join(p).starts_with(b)));
                if prefix.is_none() {
                    let below: Vec<PathBuf> = chosen.iter().map(|w| work.join(&s.name).join(sub(w))).filter(|w| w.starts_with(inst(v))).collect();
                    got.retain(|p, _| !below.iter().any(|b| inst(v).join(p).starts_with(b)));
                }
                same(&what(&format!("files installed for variant {v:?}")), got, want)?;
            }
            if let Some(pdir) = &pdir {
                let d = std::fs::read(pdir.join(file)).ok();
                if !done.is_empty() {
                    same(&what("installed definition"), d, Some(text.clone().into_bytes()))?;
                } else {
                    same(&what("definition installed by a failed build"), d.is_some(), false)?;
                }
                // nothing beside it
                let extra: Vec<String> = tree(prefix.as_ref().unwrap()).into_keys().filter(|p| !Path::new(p).starts_with(Path::new(&s.name).join(&s.version))).collect();
                same(&what("other files in the repository"), extra, vec![])?;
            }
        }
        // and environments find what was built
        if let (true, Some(p)) = (ok, &prefix) {
            let both = std::env::join_paths([p, &repo]).unwrap();
            let v = done.last().unwrap();
            let mut b: Vec<String> = vec!["env".into(), format!("{}=={}", s.name, s.version)];
            if let Some(i) = v {
                b.extend(s.variants[*i].clone());
            }
            b.extend(["--".into(), "/bin/sh".into(), "-c".into(), "echo \"R=$WHERE\"".into()]);
            let own = s.name == "py" || (s.variants.len() > 1 && v.is_some_and(|i| (0..s.variants.len()).any(|j| j != i && resolved(&s.variants[i].iter().chain(&s.variants[j]).chain(&s.requires).cloned().collect::<Vec<_>>()).is_some())));
            if !own && !s.yaml && !s.version.contains('-') {
                let (rc, out) = run(&b, &home, &home, Path::new(&both));
                let sub: PathBuf = v.map(|i| s.variants[i].iter().collect()).unwrap_or_default();
                let at = p.join(&s.name).join(&s.version).join(sub);
                let line = out.lines().find_map(|l| l.strip_prefix("R=")).map(|l| PathBuf::from(l.trim_end_matches('/')));
                if rc != Some(0) || line.as_ref().map(|l| l.components().collect::<PathBuf>()) != Some(at.components().collect()) {
                    return Err(format!("{b:?} after {a:?}: {rc:?}, root {line:?}, installed in {}\n{text}\n{out}", at.display()));
                }
            }
        }
        Ok(Info::new(chosen.len() > 1 || envs.iter().any(|e| !e.2.is_empty()) || (!ok && !steps.is_empty()))
            .label(ok, "built")
            .label(!ok && !steps.is_empty(), "failed in a step")
            .label(!ok && steps.is_empty(), "refused")
            .label(chosen.len() > 1, "several variants")
            .label(copies, "files copied")
            .label(!s.tests.is_empty() && !s.skip_tests, "package tests")
            .label(named, "source named")
            .label(s.into == Into::Inside, "prefix in source"))
    });
}
