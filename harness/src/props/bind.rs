//! C29: binding system tools as packages.
use super::build::tree;
use super::envs::same;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const DIRS: [&str; 6] = ["one", "two words", "it's", "back\\slash", "é", "dou\"ble"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tool {
    /// the program and the directory it is in
    program: String,
    dir: usize,
    version: Vec<u8>,
    form: u8,
    code: u8,
    executable: bool,
    stderr: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tools: Vec<Tool>,
    dirs: Vec<String>,
    name: String,
    /// 0 none, 1 a prefix of the version, 2 version and above, 3 exactly
    request: u8,
    wanted: Vec<u8>,
    no_deps: bool,
    /// -i, configured local path, release path
    place: u8,
    search: bool,
    verbose: bool,
}
fn text(v: &[u8]) -> String {
    v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".")
}
impl Tool {
    fn line(&self) -> String {
        let v = text(&self.version);
        if self.form == 9 {
            return "no version here".into();
        }
        match (self.program.as_str(), self.form % 3) {
            ("git", 0) => format!("git version {v} (Apple Git-146)"),
            ("git", _) => format!("git version {v}"),
            ("cmake", 0) => format!("cmake version {v}-g37088a8"),
            ("cmake", _) => format!("cmake version {v}\n\nCMake suite maintained by Kitware 1.5"),
            ("clang", 0) => format!("Ubuntu clang version {v} (1ubuntu1)\nTarget: x86_64-pc-linux-gnu 2.5"),
            ("clang", _) => format!("clang version {v}"),
            ("gcc", 0) => format!("gcc (Ubuntu 7.8.9-6ubuntu2~24.04) {v}\nCopyright (C) 2023"),
            ("gcc", 1) => format!("gcc (GCC) {v} 20210514 (Red Hat 8.5.0-10)"),
            ("gcc", _) => format!("gcc-12 (Homebrew GCC 12.1) {v}"),
            ("pip" | "pip3", _) => format!("pip {v} from /usr/lib/python3/dist-packages/pip (python 3.11)"),
            _ => format!("Python {v}"),
        }
    }
}
fn version() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => prop::collection::vec(select(vec![0u8, 1, 2, 3, 9, 10, 11]), 2..4), 1 => prop::collection::vec(1u8..4, 2..3)].boxed()
}
fn case() -> BoxedStrategy<Case> {
    let tool = (select(vec!["git", "cmake", "clang", "gcc", "python", "python3", "pip", "pip3"]), 0usize..3, version(), prop_oneof![6 => 0u8..3, 1 => Just(9u8)], (prop_oneof![6 => Just(0u8), 1 => Just(1u8)], prop::bool::weighted(0.85), prop::bool::weighted(0.1)))
        .prop_map(|(p, dir, version, form, (code, executable, stderr))| Tool { program: p.into(), dir, version, form, code, executable, stderr });
    (
        prop::collection::vec(tool, 3..18),
        prop::sample::subsequence(DIRS.to_vec(), 3).prop_shuffle(),
        prop_oneof![9 => select(vec!["git", "cmake", "clang", "gcc", "python", "pip"]).prop_map(str::to_string), 1 => select(vec!["nope", "../up", "platform", "os", "arch", "x/y", "Git"]).prop_map(str::to_string)],
        prop_oneof![3 => Just(0u8), 4 => 1u8..4],
        (version(), any::<bool>(), any::<prop::sample::Index>()),
        (any::<bool>(), 0u8..3, prop::bool::weighted(0.07), any::<bool>()),
    )
        .prop_map(|(tools, dirs, name, request, (wanted, near, pick), (no_deps, place, search, verbose))| {
            let mut seen = BTreeSet::new();
            let tools: Vec<Tool> = tools.into_iter().filter(|t| seen.insert((t.program.clone(), t.dir))).collect();
            let of: Vec<&Tool> = tools.iter().filter(|t| t.program.starts_with(&name)).collect();
            let wanted = if near && !of.is_empty() {
                let v = of[pick.index(of.len())].version.clone();
                let n = if request == 1 { 1 + pick.index(v.len()) } else { v.len() };
                v[..n].to_vec()
            } else {
                wanted
            };
            Case { tools, dirs: dirs.into_iter().map(str::to_string).collect(), name, request, wanted, no_deps, place, search, verbose }
        })
        .boxed()
}
/// the tool bound under this name and the program found
fn detect<'a>(s: &'a Case, name: &str) -> Option<&'a Tool> {
    let programs: &[&str] = match name {
        "python" => &["python3", "python"],
        "pip" => &["pip3", "pip"],
        "git" => &["git"],
        "cmake" => &["cmake"],
        "clang" => &["clang"],
        "gcc" => &["gcc"],
        _ => &[],
    };
    programs.iter().find_map(|p| (0..3).find_map(|d| s.tools.iter().find(|t| t.program == *p && t.dir == d && t.executable)).filter(|t| t.code == 0 && t.form != 9 && (!t.stderr || name == "python")))
}
fn requires(name: &str) -> &'static [&'static str] {
    match name {
        "os" => &["platform", "arch"],
        "python" => &["os"],
        "pip" => &["python"],
        _ => &[],
    }
}
fn base(root: &Path) -> PathBuf {
    let b = root.join("base");
    std::fs::create_dir_all(&b).unwrap();
    for p in ["which", "sh"] {
        if let Some(at) = ["/usr/bin", "/bin", "/usr/local/bin"].iter().map(|d| Path::new(d).join(p)).find(|f| f.exists()) {
            std::os::unix::fs::symlink(at, b.join(p)).unwrap();
        }
    }
    b
}
fn script(file: &Path, line: &str, code: u8, stderr: bool, executable: bool) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    let text = format!("#!/bin/sh\ncat{} <<'EOT'\n{line}\nEOT\nexit {code}\n", if stderr { " >&2" } else { "" }).replace("cat", "/bin/cat");
    // written by a child: a file open for writing elsewhere cannot be run
    let mut c = Command::new("/bin/sh").args(["-c", "/bin/cat > \"$1\"", "sh"]).arg(file).stdin(Stdio::piped()).spawn().unwrap();
    std::io::Write::write_all(c.stdin.as_mut().unwrap(), text.as_bytes()).unwrap();
    drop(c.stdin.take());
    c.wait().unwrap();
    std::fs::set_permissions(file, std::fs::Permissions::from_mode(if executable { 0o755 } else { 0o644 })).unwrap();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lib {
    name: String,
    /// directory of the program and what it prints, where {} is the version
    program: Option<(String, String, Vec<u8>)>,
    version: Option<String>,
    force: bool,
    search: bool,
    uuid: Option<String>,
    before: bool,
}
fn lib() -> BoxedStrategy<Lib> {
    (
        prop_oneof![5 => select(vec!["tool", "my_tool", "tool2"]), 1 => select(vec!["../up", "..", ".", "", "a/b", "x\\y"])].prop_map(str::to_string),
        prop::option::weighted(0.85, (select(DIRS.to_vec()).prop_map(str::to_string), select(vec!["tool {}", "v{}", "go version go{} linux/amd64", "OpenSSL {}k  25 Mar", "tool ({})", "{}", "release {}, build x", "nothing", "tool {}-rc"]).prop_map(str::to_string), version())),
        prop_oneof![4 => Just(None), 4 => select(vec!["1.2.3", "2", "10.0"]).prop_map(|v| Some(v.to_string())), 1 => select(vec!["../../x", "..", "1/2", ""]).prop_map(|v| Some(v.to_string()))],
        any::<bool>(),
        prop::bool::weighted(0.85),
        prop::option::of(select(vec!["plain", "it's", "a\\nb", "two\nlines", "dou\"ble", "tab\t", "é", "\\"]).prop_map(str::to_string)),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(name, program, version, force, search, uuid, before)| Lib { name, program, version, force, search, uuid, before })
        .boxed()
}

pub fn c29(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("tools that are missing, broken, shadowed or print their version in several forms, in directories with odd names; non-trivial = something was bound, or a request was refused for the version found");
    c.assume("Unix; the directories of tools hold no braces or dollar signs, which a package definition expands");
    c.check("cli", 2_000, 30_000, case, |s: &Case| {
        let t = tempfile::tempdir().unwrap();
        let root = std::fs::canonicalize(t.path()).unwrap();
        let home = root.join("home");
        std::fs::create_dir_all(&home).unwrap();
        let base = base(&root);
        let dirs: Vec<PathBuf> = s.dirs.iter().map(|d| root.join("tools").join(d)).collect();
        for d in &dirs {
            std::fs::create_dir_all(d).unwrap();
        }
        for t in &s.tools {
            script(&dirs[t.dir].join(&t.program), &t.line(), t.code, t.stderr, t.executable);
        }
        let (local, release, given) = (root.join("local"), root.join("released"), root.join("some/where"));
        std::fs::write(home.join(".rezconfig.yaml"), format!("local_packages_path: {local:?}\nrelease_packages_path: {release:?}\n")).unwrap();
        let path = dirs.iter().chain([&base]).map(|d| d.to_str().unwrap()).collect::<Vec<_>>().join(":");
        let mut spec = s.name.clone();
        let w = text(&s.wanted);
        match s.request {
            1 => spec += &format!("-{w}"),
            2 => spec += &format!("-{w}+"),
            3 => spec += &format!("-{w}"),
            _ => {}
        }
        let mut a: Vec<String> = vec!["bind".into(), spec];
        let install = match s.place {
            0 => {
                a.extend(["-i".into(), given.to_str().unwrap().into()]);
                &given
            }
            1 => &local,
            _ => {
                a.push("--release".into());
                &release
            }
        };
        for (on, f) in [(s.no_deps, "--no-deps"), (s.search, "--search"), (s.verbose, "--verbose")] {
            if on {
                a.push(f.into());
            }
        }
        let run = |a: &[String], path: &str| {
            let o = Command::new(std::env::current_exe().unwrap().with_file_name("rezcli")).args(a).env_clear().env("HOME", &home).env("TMPDIR", &home).env("PATH", path).current_dir(&home).stdin(Stdio::null()).output().unwrap();
            (o.status.code(), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
        };
        let before = tree(&root);
        let (code, out, err) = run(&a, &path);
        let after = tree(&root);
        let what = |w: &str| format!("{w}: {a:?}\n{out}{err}");
        let builtin = matches!(s.name.as_str(), "os" | "platform" | "arch");
        if s.search {
            same(&what("files after a search"), after, before)?;
            return Ok(Info::new(false).label(true, "search"));
        }
        let tool = detect(s, &s.name);
        let fits = |v: &[u8]| match s.request {
            0 => true,
            2 => v >= &s.wanted[..],
            _ => v.starts_with(&s.wanted),
        };
        let ok = match tool {
            Some(t) => fits(&t.version),
            None => builtin,
        };
        if builtin && s.request != 0 {
            return Ok(Info::new(false));
        }
        if !ok {
            if code == Some(0) || code.is_none() {
                return Err(what("success although it cannot be bound"));
            }
            same(&what("files after a refusal"), after, before)?;
            return Ok(Info::new(tool.is_some()).label(tool.is_some(), "wrong version").label(tool.is_none(), "not found"));
        }
        same(&what("exit status"), code, Some(0))?;
        // what is bound, in the order asked for
        let mut names = vec![s.name.as_str()];
        let mut next = 0;
        let mut complete = true;
        while next < names.len() {
            let n = names[next];
            if n != s.name && !matches!(n, "os" | "platform" | "arch") && detect(s, n).is_none() {
                names.remove(next);
                complete = false;
                continue;
            }
            if !s.no_deps {
                for r in requires(n) {
                    if !names.contains(r) {
                        names.push(r);
                    }
                }
            }
            next += 1;
        }
        let rel = install.strip_prefix(&root).unwrap().to_str().unwrap().to_string();
        let mut rest = after.clone();
        for n in &names {
            let prefix = format!("{rel}/{n}/");
            let files: Vec<String> = rest.keys().filter(|k| k.starts_with(&prefix) && k.ends_with("/package.py")).cloned().collect();
            if files.len() != 1 {
                return Err(what(&format!("definitions of {n}: {files:?}")));
            }
            let (bytes, _) = rest.remove(&files[0]).unwrap();
            let def = String::from_utf8_lossy(&bytes).to_string();
            let p = rez_next_package::PythonAstParser::parse_package_py(&def).map_err(|e| what(&format!("definition of {n} cannot be read: {e}\n{def}")))?;
            let dir = files[0][prefix.len()..].strip_suffix("/package.py").unwrap();
            same(&what("name"), p.name.as_str(), n)?;
            same(&what("version and its directory"), p.version.as_ref().map(|v| v.as_str().to_string()), Some(dir.to_string()))?;
            if let Some(t) = detect(s, n) {
                same(&what(&format!("version of {n}")), dir.to_string(), text(&t.version))?;
                if !p.tools.iter().any(|x| x == n) {
                    return Err(what(&format!("tools of {n}: {:?}", p.tools)));
                }
            }
            let req: &[&str] = if s.no_deps { &[] } else { requires(n) };
            same(&what(&format!("requirements of {n}")), p.requires.iter().map(|r| r.as_str()).collect::<Vec<_>>(), req.to_vec())?;
        }
        // nothing else but the directories of the packages
        let mut allowed: BTreeSet<String> = BTreeSet::new();
        for n in &names {
            allowed.extend(after.keys().filter(|k| k.starts_with(&format!("{rel}/{n}/"))).cloned());
            allowed.insert(format!("{rel}/{n}"));
        }
        for (i, _) in rel.match_indices('/').chain([(rel.len(), "")]) {
            allowed.insert(rel[..i].to_string());
        }
        rest.retain(|k, v| before.get(k) == Some(v) || !(allowed.contains(k) && !k.ends_with(".py")));
        same(&what("other files"), rest, before)?;
        // the directory of a required tool may come first and hold a program of that name too
        let hidden = tool.is_some_and(|t| names.iter().skip(1).filter_map(|n| detect(s, n)).any(|d| d.dir != t.dir && s.tools.iter().any(|o| o.program == t.program && o.dir == d.dir && o.executable)));
        if let (Some(t), true, false) = (tool, complete, hidden) {
            let e: Vec<String> = ["env", &s.name, "--paths", install.to_str().unwrap(), "-c", &format!("command -v {p}; {p} --version", p = t.program)].iter().map(|x| x.to_string()).collect();
            let (code, out, err) = run(&e, "/usr/bin:/bin");
            let want = format!("{}\n{}\n", dirs[t.dir].join(&t.program).display(), t.line());
            if code != Some(0) || !(if t.stderr { out.contains(want.lines().next().unwrap()) && err.contains(&t.line()) } else { out.ends_with(&want) }) {
                return Err(format!("{}\nin the environment of the bound package {code:?}: {out}{err}\n  expected {want:?}", what("tool of the environment")));
            }
        }
        Ok(Info::new(true).label(names.len() > 1, "dependencies").label(tool.is_some_and(|t| t.dir > 0), "not in the first directory").label(s.request != 0, "version asked for").label(builtin, "built in"))
    });
    c.check_serial("library", 400, 4_000, lib, |s: &Lib| {
        use rez_next_bind::{BindError, BindOptions, PackageBinder};
        let t = tempfile::tempdir().unwrap();
        let root = std::fs::canonicalize(t.path()).unwrap();
        let base = base(&root);
        let install = root.join("deep/packages");
        std::fs::create_dir_all(&install).unwrap();
        let dir_name = |n: &str| !n.contains(['/', '\\']) && !matches!(n, "" | "." | "..");
        let mut path = base.display().to_string();
        let program = s.program.as_ref().filter(|_| dir_name(&s.name)).map(|(d, line, v)| {
            let d = root.join("tools").join(d);
            let line = line.replace("{}", &text(v));
            script(&d.join(&s.name), &line, 0, false, true);
            path = format!("{}:{path}", d.display());
            (d, line.contains(&text(v)).then(|| text(v)))
        });
        let version = match &s.version {
            Some(v) => Some(v.clone()),
            None => program.as_ref().and_then(|p| p.1.clone()),
        };
        let bad = !dir_name(&s.name) || version.as_ref().is_none_or(|v| !dir_name(v));
        let target = version.as_ref().filter(|_| !bad).map(|v| install.join(&s.name).join(v));
        if let (true, Some(t)) = (s.before, &target) {
            std::fs::create_dir_all(t).unwrap();
            std::fs::write(t.join("package.py"), "name = 'old'\n").unwrap();
        }
        let before = tree(&root);
        let old = std::env::var_os("PATH");
        unsafe { std::env::set_var("PATH", &path) };
        let r = guard(|| {
            PackageBinder::new().bind(
                &s.name,
                &BindOptions { version_override: s.version.clone(), install_path: Some(install.clone()), force: s.force, extra_metadata: s.uuid.iter().map(|u| ("uuid".to_string(), u.clone())).collect(), search_path: s.search },
            )
        });
        match old {
            Some(o) => unsafe { std::env::set_var("PATH", o) },
            None => unsafe { std::env::remove_var("PATH") },
        }
        let r = r?;
        let mut after = tree(&root);
        let Some(target) = target else {
            if let Ok(r) = r {
                return Err(format!("bound {r:?}"));
            }
            same("files after a refusal", after, before)?;
            return Ok(Info::new(false).label(true, "refused"));
        };
        if s.before && !s.force {
            if !matches!(r, Err(BindError::AlreadyExists(_))) {
                return Err(format!("existing package: {r:?}"));
            }
            same("files after a refusal", after, before)?;
            return Ok(Info::new(false).label(true, "already there"));
        }
        let r = r.map_err(|e| format!("bind: {e}"))?;
        let found = program.as_ref().filter(|_| s.search).map(|p| p.0.join(&s.name));
        same("result", (r.name.as_str(), r.version.clone(), r.install_path.clone(), r.executable_path.clone()), (s.name.as_str(), version.clone().unwrap(), target.clone(), found.clone()))?;
        let def = std::fs::read_to_string(target.join("package.py")).map_err(|e| e.to_string())?;
        let p = rez_next_package::PythonAstParser::parse_package_py(&def).map_err(|e| format!("{e}\n{def}"))?;
        same("definition", (p.name.clone(), p.version.as_ref().map(|v| v.as_str().to_string()), p.tools.clone(), p.uuid.clone()), (s.name.clone(), version, vec![s.name.clone()], s.uuid.clone()))?;
        let out = target.strip_prefix(&root).unwrap().to_str().unwrap().to_string();
        let mut b = before.clone();
        for m in [&mut after, &mut b] {
            m.retain(|k, _| !(out.starts_with(&format!("{k}/")) || *k == out || *k == format!("{out}/package.py")));
        }
        same("other files", after, b)?;
        if let Some(f) = &found {
            let o = Command::new(std::env::current_exe().unwrap().with_file_name("rezcli"))
                .args(["env", &s.name, "--paths", install.to_str().unwrap(), "-c", &format!("command -v {}", s.name)])
                .env_clear()
                .env("HOME", &root)
                .env("PATH", "/usr/bin:/bin")
                .current_dir(&root)
                .stdin(Stdio::null())
                .output()
                .unwrap();
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            if !o.status.success() || text.lines().last() != f.to_str() {
                return Err(format!("the environment runs {text}{}\n  expected {f:?}\n{def}", String::from_utf8_lossy(&o.stderr)));
            }
        }
        Ok(Info::new(true).label(s.uuid.is_some(), "metadata").label(s.before, "replaced").label(found.is_some(), "program found"))
    });
}
