//! C21: configuration.
use super::envs::{same, wild};
use super::fsops::cli;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::path::Path;

/// what a configuration file says
#[derive(Clone, Debug, Serialize, Deserialize)]
enum File {
    Missing,
    Directory,
    /// settings, written as YAML (block or flow) or JSON
    Says(Map<String, Value>, u8),
    /// text that is no configuration
    Bad(String),
}
const TEXTS: [&str; 10] = ["local_packages_path", "release_packages_path", "default_shell", "version", "tmpdir", "editor", "image_viewer", "browser", "difftool", "terminal_emulator_command"];
const FLAGS: [&str; 4] = ["use_rust_version", "use_rust_solver", "use_rust_repository", "rust_fallback"];
const LISTS: [&str; 3] = ["packages_path", "plugin_path", "package_cache_path"];
const CACHE: [&str; 4] = ["enable_memory_cache", "enable_disk_cache", "memory_cache_size", "cache_ttl_seconds"];

fn path() -> BoxedStrategy<String> {
    prop_oneof![6 => select(vec!["~/p0", "~/p1", "@/p2", "~", "~/p0/../p1", "/nowhere/é x", "rel/p"]).prop_map(str::to_string), 1 => wild()].boxed()
}
fn setting() -> BoxedStrategy<(String, Value)> {
    let s = |x: &str| x.to_string();
    prop_oneof![
        4 => (select(TEXTS.to_vec()), prop_oneof![path(), wild(), select(vec!["yes", "1.0", "null", "", "a: b", "# c"]).prop_map(str::to_string)]).prop_map(move |(k, v)| (s(k), json!(v))),
        2 => (select(FLAGS.to_vec()), any::<bool>()).prop_map(|(k, v)| (k.to_string(), json!(v))),
        4 => (select(LISTS.to_vec()), prop::collection::vec(path(), 0..4)).prop_map(|(k, v)| (k.to_string(), json!(v))),
        2 => prop::option::of(0usize..1000).prop_map(|n| ("thread_count".to_string(), json!(n))),
        3 => (prop::option::of(any::<bool>()), prop::option::of(any::<bool>()), prop::option::of(0u64..100_000), prop::option::of(any::<u64>())).prop_map(|(a, b, c, d)| {
            let mut m = Map::new();
            for (k, v) in CACHE.iter().zip([a.map(|x| json!(x)), b.map(|x| json!(x)), c.map(|x| json!(x)), d.map(|x| json!(x))]) {
                if let Some(v) = v {
                    m.insert(k.to_string(), v);
                }
            }
            ("cache".to_string(), Value::Object(m))
        }),
        1 => wild().prop_map(|v| ("some_other_setting".to_string(), json!(v))),
    ]
    .boxed()
}
fn file() -> BoxedStrategy<File> {
    prop_oneof![
        5 => Just(File::Missing),
        1 => Just(File::Directory),
        7 => (prop::collection::vec(setting(), 1..5), 0u8..3).prop_map(|(v, f)| File::Says(v.into_iter().collect(), f)),
        2 => select(vec!["[1, 2", "packages_path: 7\n", "{\"use_rust_solver\": \"maybe\"}", "- a\n- b\n", "cache: {memory_cache_size: -1}\n", "version: [1]\nlocal_packages_path: /x\n", "just text", "\u{1}"]).prop_map(|s| File::Bad(s.to_string())),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    named: Vec<File>,
    home: [File; 3],
    disable: Option<String>,
    packages: Option<Vec<String>>,
    local: Option<String>,
    release: Option<String>,
    ask: u8,
    field: String,
}
fn case() -> BoxedStrategy<Case> {
    let env_path = || prop_oneof![5 => select(vec!["~/p0", "~/p1", "@/p2", " ~/p0 ", "", "/nowhere"]).prop_map(str::to_string), 1 => "[a-zA-Z$'\" =/~.-]{0,8}".boxed()];
    (
        prop::collection::vec(file(), 0..3),
        [file(), file(), file()],
        prop::option::weighted(0.2, select(vec!["1", "0", "", "true"]).prop_map(str::to_string)),
        prop::option::weighted(0.3, prop::collection::vec(env_path(), 0..4)),
        prop::option::weighted(0.2, env_path()),
        prop::option::weighted(0.2, env_path()),
        0u8..10,
        select(TEXTS.iter().chain(&FLAGS).chain(&LISTS).copied().chain(["thread_count", "cache", "cache.memory_cache_size", "cache.cache_ttl_seconds", "cache.enable_disk_cache", "absent", "cache.absent", "version.x", "packages_path.0", ""]).collect::<Vec<_>>()).prop_map(str::to_string),
    )
        .prop_map(|(named, home, disable, packages, local, release, ask, field)| Case { named, home, disable, packages, local, release, ask, field })
        .boxed()
}
fn yaml(v: &Map<String, Value>, flow: u8) -> String {
    match flow {
        0 => serde_json::to_string(v).unwrap(),
        1 => serde_json::to_string_pretty(v).unwrap(),
        _ => v.iter().map(|(k, v)| if v.is_object() && v.as_object().is_some_and(|o| !o.is_empty()) { format!("{k}:\n{}", v.as_object().unwrap().iter().map(|(a, b)| format!("  {a}: {b}\n")).collect::<String>()) } else { format!("{k}: {v}\n") }).collect(),
    }
}
fn put(f: &File, p: &Path, home: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    match f {
        File::Missing => {}
        File::Directory => std::fs::create_dir_all(p).unwrap(),
        File::Says(m, k) => std::fs::write(p, yaml(m, *k).replace("@/", &format!("{home}/"))).unwrap(),
        File::Bad(t) => std::fs::write(p, t).unwrap(),
    }
}
fn at(v: &Value, home: &str) -> Value {
    match v {
        Value::String(s) => json!(s.replace("@/", &format!("{home}/"))),
        Value::Array(a) => Value::Array(a.iter().map(|x| at(x, home)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), at(x, home))).collect()),
        _ => v.clone(),
    }
}
/// the settings in force, and the file they come from
fn model(c: &Case, defaults: &Value, named: &[String], home: &str) -> (Value, Option<String>) {
    let mut v = defaults.clone();
    let mut files: Vec<(String, &File)> = named.iter().cloned().zip(&c.named).collect();
    if c.disable.as_deref() != Some("1") {
        for (n, f) in [".rezconfig", ".rezconfig.yaml", ".rez/config.yaml"].iter().zip(&c.home) {
            files.push((format!("{home}/{n}"), f));
        }
    }
    let mut used = None;
    for (n, f) in files {
        if let File::Says(m, _) = f {
            for (k, x) in m {
                if k == "cache" {
                    for (a, b) in x.as_object().unwrap() {
                        v["cache"][a] = b.clone();
                    }
                } else if !defaults[k].is_null() || k == "thread_count" {
                    v[k] = at(x, home);
                }
            }
            used = Some(n);
            break;
        }
    }
    if let Some(p) = &c.packages {
        v["packages_path"] = json!(p.iter().flat_map(|x| x.split(':').map(|y| y.trim().to_string()).collect::<Vec<_>>()).filter(|x| !x.is_empty()).map(|x| x.replace("@/", &format!("{home}/"))).collect::<Vec<_>>());
    }
    if let Some(p) = &c.local {
        v["local_packages_path"] = json!(p.replace("@/", &format!("{home}/")));
    }
    if let Some(p) = &c.release {
        v["release_packages_path"] = json!(p.replace("@/", &format!("{home}/")));
    }
    (v, used)
}
fn plain(v: &Value) -> String {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_str().map(|s| s.to_string() + "\n").unwrap_or(format!("{x}\n"))).collect(),
        Value::String(s) => format!("{s}\n"),
        _ => format!("{v}\n"),
    }
}

/// Layered configuration of rez-next-config
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layers {
    xdg: Option<Value>,
    home: Option<Value>,
    project: Option<Value>,
    broken: Option<u8>,
    env: Vec<(String, String)>,
    raw: bool,
    nested: bool,
}
fn tree() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        wild().prop_map(|s| json!(s.replace('\u{7f}', ""))),
        any::<bool>().prop_map(|b| json!(b)),
        any::<i64>().prop_map(|b| json!(b)),
        select(vec![0.5f64, -1.25, 1e10, 3.0]).prop_map(|b| json!(b)),
        prop::collection::vec(select(vec![json!(1), json!("x"), json!(true), json!("2024-01-01")]), 0..3).prop_map(Value::Array),
    ];
    let obj = |i: BoxedStrategy<Value>| prop::collection::btree_map(select(vec!["a", "b", "foo", "bar", "é k"]).prop_map(str::to_string), i, 0..4).prop_map(|m| Value::Object(m.into_iter().collect())).boxed();
    obj(leaf.prop_recursive(3, 12, 3, move |i| obj(i)).boxed())
}
fn toml(v: &Value, top: bool) -> String {
    match v {
        Value::Object(m) if top => m.iter().map(|(k, x)| format!("{} = {}\n", serde_json::to_string(k).unwrap(), toml(x, false))).collect(),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, x)| format!("{} = {}", serde_json::to_string(k).unwrap(), toml(x, false))).collect::<Vec<_>>().join(", ")),
        Value::Array(a) => format!("[{}]", a.iter().map(|x| toml(x, false)).collect::<Vec<_>>().join(", ")),
        Value::String(_) => v.to_string(),
        Value::Number(n) if n.is_f64() => {
            let f = n.as_f64().unwrap();
            if f.fract() == 0.0 && f.abs() < 1e15 { format!("{f:.1}") } else { format!("{f}") }
        }
        _ => v.to_string(),
    }
}
fn layers() -> BoxedStrategy<Layers> {
    let var = (prop::collection::vec(select(vec!["A", "B", "FOO", "BAR"]), 1..4).prop_map(|v| format!("REZ_{}", v.join("_"))), prop_oneof![select(vec!["1", "true", "null", "[1,\"x\"]", "{\"a\": {\"b\": 2}}", "plain", "", "1.5", "\"q\"", "[1", "é"]).prop_map(str::to_string), wild().prop_map(|s| s.replace('\0', ""))]);
    (prop::option::weighted(0.4, tree()), prop::option::weighted(0.5, tree()), prop::option::weighted(0.6, tree()), prop::option::weighted(0.1, 0u8..2), prop::collection::vec(var, 0..5), prop::bool::weighted(0.2), prop::bool::weighted(0.5))
        .prop_map(|(xdg, home, project, broken, env, raw, nested)| {
            let mut seen: std::collections::BTreeMap<String, String> = Default::default();
            seen.extend(env);
            Layers { xdg, home, project, broken, env: seen.into_iter().collect(), raw, nested }
        })
        .boxed()
}
fn merge(a: &mut Value, b: &Value) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in y {
                match x.get_mut(k) {
                    Some(o) if o.is_object() && v.is_object() => merge(o, v),
                    _ => {
                        x.insert(k.clone(), v.clone());
                    }
                }
            }
        }
        (a, b) => *a = b.clone(),
    }
}
fn assign(a: &mut Value, path: &[String], v: Value) {
    if !a.is_object() {
        *a = json!({});
    }
    let o = a.as_object_mut().unwrap();
    if path.len() == 1 {
        o.insert(path[0].clone(), v);
    } else {
        assign(o.entry(path[0].clone()).or_insert(json!({})), &path[1..], v);
    }
}
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => (x.is_f64() || y.is_f64()) && x.as_f64() == y.as_f64() || x == y,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| close(p, q))),
        _ => a == b,
    }
}
/// entry point of the child process: print what rez-next-config loads
pub fn worker() -> ! {
    match rez_next_config::Config::load() {
        Ok(c) => println!("{}", json!({"data": c.data(), "sources": c.sources().iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()})),
        Err(e) => println!("{}", json!({"error": e.to_string()})),
    }
    std::process::exit(0)
}

pub fn c21(c: &mut Ctx) {
    c.rule("files: configuration files in every searched place plus environment overrides, asked for through `rez-next config` (JSON, single fields, source list, search list) and through commands that look for packages; layers: rez-next-config with user and project TOML files and REZ_* variables, loaded in a child process; non-trivial = a file was used together with an override, or two layers set something");
    c.assume("no configuration in /etc, /usr/local/etc or beside the executable");
    let defaults = {
        let t = tempfile::tempdir().unwrap();
        let (_, out) = cli(&["config".into(), "--json".into()], t.path(), &[("TMPDIR", "/dev/shm")]);
        let mut v: Value = serde_json::from_str(&out).unwrap_or(json!({}));
        // documented defaults
        v["packages_path"] = json!(["~/packages", "~/.rez/packages/int", "~/.rez/packages/ext"]);
        v["local_packages_path"] = json!("~/packages");
        v["release_packages_path"] = json!("~/.rez/packages/int");
        v["tmpdir"] = json!("/dev/shm");
        v["thread_count"] = Value::Null;
        v["cache"] = json!({"enable_memory_cache": true, "enable_disk_cache": true, "memory_cache_size": 1000, "cache_ttl_seconds": 3600});
        v
    };
    c.check("files", 3_000, 60_000, case, |k: &Case| {
        let t = tempfile::tempdir().unwrap();
        let home = t.path().join("home");
        let h = home.to_string_lossy().into_owned();
        std::fs::create_dir_all(&home).unwrap();
        let named: Vec<String> = (0..k.named.len()).map(|i| t.path().join(format!("named/{i}.yaml")).to_string_lossy().into_owned()).collect();
        for (p, f) in named.iter().zip(&k.named) {
            put(f, Path::new(p), &h);
        }
        for (n, f) in [".rezconfig", ".rezconfig.yaml", ".rez/config.yaml"].iter().zip(&k.home) {
            put(f, &home.join(n), &h);
        }
        let mut env: Vec<(&str, String)> = vec![("TMPDIR", "/dev/shm".into())];
        if !named.is_empty() {
            env.push(("REZ_CONFIG_FILE", named.join(":")));
        }
        let h2 = |s: &str| s.replace("@/", &format!("{h}/"));
        for (n, v) in [("REZ_DISABLE_HOME_CONFIG", k.disable.clone()), ("REZ_PACKAGES_PATH", k.packages.as_ref().map(|p| h2(&p.join(":")))), ("REZ_LOCAL_PACKAGES_PATH", k.local.as_deref().map(h2)), ("REZ_RELEASE_PACKAGES_PATH", k.release.as_deref().map(h2))] {
            if let Some(v) = v {
                env.push((n, v));
            }
        }
        let env: Vec<(&str, &str)> = env.iter().map(|(a, b)| (*a, b.as_str())).collect();
        let run = |a: &[&str]| cli(&a.iter().map(|s| s.to_string()).collect::<Vec<_>>(), &home, &env);
        let (want, used) = model(k, &defaults, &named, &h);
        let info = Info::new(used.is_some() && (k.packages.is_some() || k.local.is_some() || k.release.is_some()))
            .label(used.is_none(), "no file")
            .label(used.as_ref().is_some_and(|u| named.contains(u)), "named file")
            .label(used.is_some() && k.named.iter().chain(&k.home).any(|f| matches!(f, File::Bad(_) | File::Directory)), "unreadable file passed over");
        match k.ask {
            0..=2 => {
                let (rc, out) = run(&["config", "--json"]);
                let got: Value = serde_json::from_str(&out).map_err(|e| format!("config --json: {rc:?} {e}: {out}"))?;
                same("config --json", got, want)?;
            }
            3..=4 => {
                let (rc, out) = run(&["config", "--source-list"]);
                same("config --source-list", (rc, out.lines().map(str::to_string).collect::<Vec<_>>()), (Some(0), used.clone().into_iter().collect()))?;
                let (_, out) = run(&["config", "--search-list"]);
                let mut paths = named.clone();
                paths.extend(["/etc/rez/config.yaml".into(), "/usr/local/etc/rez/config.yaml".into()]);
                if k.disable.as_deref() != Some("1") {
                    paths.extend([".rezconfig", ".rezconfig.yaml", ".rez/config.yaml"].map(|n| format!("{h}/{n}")));
                }
                same("config --search-list (after those beside the executable)", out.lines().skip(2).map(str::to_string).collect(), paths)?;
            }
            5..=6 => {
                let mut v = Some(&want);
                for p in k.field.split('.') {
                    v = v.and_then(|v| v.get(p));
                }
                let js = k.ask == 5;
                let (rc, out) = if js { run(&["config", "--json", &k.field]) } else { run(&["config", &k.field]) };
                match v {
                    None => {
                        if rc == Some(0) {
                            return Err(format!("config {:?} succeeds: {out}", k.field));
                        }
                    }
                    Some(v) if js => same("config --json FIELD", serde_json::from_str::<Value>(&out).map_err(|e| format!("{e}: {out}"))?, v.clone())?,
                    Some(v) if v.is_object() => same("config FIELD", serde_json::from_str::<Value>(&out).map_err(|e| format!("{e}: {out}"))?, v.clone())?,
                    Some(v) => same(&format!("config {}", k.field), out, plain(v))?,
                }
            }
            _ => {
                // packages are looked for exactly where the configuration says
                for (i, d) in ["p0", "p1", "p2", "packages", "other"].iter().enumerate() {
                    let p = home.join(d).join(format!("pk{i}")).join("1.0");
                    std::fs::create_dir_all(&p).unwrap();
                    std::fs::write(p.join("package.py"), format!("name = 'pk{i}'\nversion = '1.0'\ntools = ['tool{i}']\nrequires = ['base']\n")).unwrap();
                }
                let real = |p: &str| -> std::path::PathBuf {
                    if p == "~" {
                        home.clone()
                    } else if let Some(r) = p.strip_prefix("~/") {
                        home.join(r)
                    } else {
                        home.join(p)
                    }
                };
                let mut found = std::collections::BTreeSet::new();
                let list = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
                let mut dirs = list(&want["packages_path"]);
                if dirs.iter().any(|d| d == "~" || d.contains("..") || d == "." || d == "/" || (d.starts_with("./")) || home.join(d) == home) {
                    // a parent of other repositories: nested scan, not the subject here
                    return Ok(info.label(true, "overlapping paths"));
                }
                let which = k.ask % 3;
                if which == 1 {
                    let l = want["local_packages_path"].as_str().unwrap().to_string();
                    if l == "~" || l.contains("..") || l.is_empty() || l == "." || l == "/" || l.starts_with("./") {
                        return Ok(info.label(true, "overlapping paths"));
                    }
                    dirs.push(l);
                }
                for d in &dirs {
                    let r = real(d);
                    for (i, n) in ["p0", "p1", "p2", "packages", "other"].iter().enumerate() {
                        if std::fs::canonicalize(&r).ok() == std::fs::canonicalize(home.join(n)).ok() {
                            found.insert(format!("pk{i}"));
                        }
                    }
                }
                let found: Vec<String> = found.into_iter().collect();
                match which {
                    0 => {
                        let (rc, out) = run(&["complete", "--complete-packages"]);
                        same("packages completed", (rc, out.lines().map(str::to_string).collect::<Vec<_>>()), (Some(0), found.clone()))?;
                    }
                    1 => {
                        let (rc, out) = run(&["depends", "-q", "base"]);
                        let got: Vec<String> = if out.starts_with("No packages") { vec![] } else { out.split_whitespace().map(str::to_string).collect() };
                        same("dependents of base", (rc, got), (Some(0), found.clone()))?;
                    }
                    _ => {
                        let (rc, out) = run(&["search", "pk", "--format", "json"]);
                        let v: Value = serde_json::from_str(&out).map_err(|e| format!("search: {rc:?} {e} {out}"))?;
                        let mut got: Vec<String> = v.as_array().unwrap().iter().map(|x| x["name"].as_str().unwrap().to_string()).collect();
                        got.dedup();
                        same("packages searched", got, found.clone())?;
                        for i in 0..5 {
                            let n = format!("pk{i}");
                            let (rc, out) = run(&["view", &n]);
                            same(&format!("view {n} succeeds ({out})"), rc == Some(0), found.contains(&n))?;
                        }
                    }
                }
                return Ok(info.label(!found.is_empty(), "packages found"));
            }
        }
        Ok(info)
    });

    c.check("layers", 3_000, 60_000, layers, |l: &Layers| {
        let t = tempfile::tempdir().unwrap();
        let (home, xdg) = (t.path().join("h"), t.path().join("x"));
        let cwd = if l.nested { home.join("work") } else { t.path().join("proj") };
        for d in [&home, &xdg, &cwd] {
            std::fs::create_dir_all(d).unwrap();
        }
        let put = |f: std::path::PathBuf, v: &Option<Value>, bad: bool| {
            if let Some(v) = v {
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, if bad { "a = [1,\n= 2".to_string() } else { toml(v, true) }).unwrap();
            }
        };
        put(xdg.join("rez/rezconfig.toml"), &l.xdg, l.broken == Some(0));
        put(home.join(".rez/rezconfig.toml"), &l.home, false);
        put(cwd.join(".rez/rezconfig.toml"), &l.project, l.broken == Some(1));
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.arg("--config-worker").env_clear().env("HOME", &home).env("XDG_CONFIG_HOME", &xdg).current_dir(&cwd);
        for (a, b) in &l.env {
            cmd.env(a, b);
        }
        if l.raw {
            use std::os::unix::ffi::OsStrExt;
            cmd.env("OTHER", std::ffi::OsStr::from_bytes(b"\xff"));
        }
        let o = cmd.output().unwrap();
        let got: Value = serde_json::from_slice(&o.stdout).map_err(|e| format!("{e}: {} {}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))?;
        let user = l.xdg.as_ref().or(l.home.as_ref());
        let bad = (l.xdg.is_some() && l.broken == Some(0)) || (l.project.is_some() && l.broken == Some(1));
        if bad {
            return if got["error"].is_string() { Ok(Info::new(true).label(true, "broken file refused")) } else { Err(format!("a broken configuration file is accepted: {got}")) };
        }
        let mut want = json!({});
        let mut sources = vec![];
        if let Some(u) = user {
            merge(&mut want, u);
            sources.push("User");
        }
        if let Some(p) = &l.project {
            merge(&mut want, p);
            sources.push("Project");
        }
        let mut vars: Vec<&(String, String)> = l.env.iter().collect();
        vars.sort();
        for (a, b) in &vars {
            let p: Vec<String> = a.strip_prefix("REZ_").unwrap().to_lowercase().split('_').map(str::to_string).collect();
            assign(&mut want, &p, serde_json::from_str(b).unwrap_or(json!(b)));
        }
        if !close(&got["data"], &want) {
            return Err(format!("settings loaded: {}\n  expected {want}", got["data"]));
        }
        same("sources", got["sources"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect::<Vec<_>>()), Some(sources.iter().map(|s| s.to_string()).collect()))?;
        Ok(Info::new((user.is_some() && l.project.is_some()) || (!vars.is_empty() && !sources.is_empty())).label(vars.iter().any(|(a, _)| vars.iter().any(|(b, _)| b.starts_with(&format!("{a}_")))), "override under an override").label(l.xdg.is_some() && l.home.is_some(), "two user files"))
    });
}
