//! C15: package commands build the environment they describe. C16: that environment is what a process gets.
use super::pypkg::lit;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_context::{ContextConfig, ContextExecutor, EnvironmentManager, ExecutionConfig, PathStrategy, ResolvedContext, ShellExecutor, ShellType};
use rez_next_package::Package;
use rez_next_rex::{RexEnvironment, RexExecutor, generate_shell_script};
use rez_next_version::Version;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::LazyLock;

pub type Map = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Op {
    Set(String, String),
    Unset(String),
    Pre(String, String),
    App(String, String),
    Dflt(String, String),
    Alias(String, String),
    Cmd(String),
    Src(String),
    Info(String),
    Error(String),
    Reset(String),
    Stop(Option<String>),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Pkg {
    pub name: String,
    pub ver: Option<String>,
    pub file: Option<String>,
    pub tools: Vec<String>,
    pub phases: [Option<Vec<(Op, u8)>>; 3],
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct World {
    pub base: Map,
    pub pkgs: Vec<Pkg>,
    pub extra: Map,
    pub unset: Vec<String>,
    pub path: u8,
}

// ---- reference model ---------------------------------------------------------------

fn word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
}
/// One left-to-right pass over {key} and $KEY references.
fn expand(s: &str, vars: &Map) -> String {
    let c: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    'next: while i < c.len() {
        if c[i] == '{'
            && let Some(n) = c[i..].iter().position(|x| *x == '}')
        {
            let key: String = c[i + 1..i + n].iter().collect();
            if let Some(v) = vars.get(&key) {
                o += v;
                i += n + 1;
                continue;
            }
        }
        if c[i] == '$' {
            let mut keys: Vec<(&String, &String)> = vars.iter().collect();
            keys.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
            for (k, v) in keys {
                let k: Vec<char> = k.to_uppercase().chars().collect();
                if c[i + 1..].starts_with(&k) && !word(c.get(i + 1 + k.len()).copied()) {
                    o += v;
                    i += 1 + k.len();
                    continue 'next;
                }
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
fn package_vars(name: &str, root: Option<&str>, ver: Option<&str>) -> Map {
    let mut m = Map::new();
    for p in ["", "this."] {
        m.insert(format!("{p}name"), name.into());
        if let Some(r) = root {
            m.insert(format!("{p}root"), r.into());
        }
        if let Some(v) = ver {
            m.insert(format!("{p}version"), v.into());
        }
    }
    if let Some(v) = ver {
        for (k, t) in ["major", "minor", "patch"].iter().zip(v.split(['.', '-', '+'])) {
            m.insert(format!("this.version.{k}"), t.into());
        }
    }
    m
}
#[derive(Default, Debug, PartialEq, Clone)]
pub struct State {
    pub vars: Map,
    pub aliases: Map,
    pub commands: Vec<String>,
    pub sources: Vec<String>,
    pub infos: Vec<String>,
    pub stopped: bool,
    pub stop: Option<String>,
}
impl State {
    fn of(e: &RexEnvironment) -> State {
        State {
            vars: e.vars.clone().into_iter().collect(),
            aliases: e.aliases.clone().into_iter().collect(),
            commands: e.startup_commands.clone(),
            sources: e.sourced_scripts.clone(),
            infos: e.info_messages.clone(),
            stopped: e.stopped,
            stop: e.stop_message.clone(),
        }
    }
    fn apply(&mut self, op: &Op, base: &Map, x: &Map) {
        if self.stopped {
            return;
        }
        let e = |s: &String| expand(s, x);
        match op {
            Op::Set(k, v) => {
                self.vars.insert(k.clone(), e(v));
            }
            Op::Unset(k) => {
                self.vars.remove(k);
            }
            Op::Pre(k, v) | Op::App(k, v) => {
                let old = self.vars.remove(k).unwrap_or_default();
                let new = if old.is_empty() {
                    e(v)
                } else if matches!(op, Op::Pre(..)) {
                    format!("{}:{old}", e(v))
                } else {
                    format!("{old}:{}", e(v))
                };
                self.vars.insert(k.clone(), new);
            }
            Op::Dflt(k, v) => {
                self.vars.entry(k.clone()).or_insert_with(|| e(v));
            }
            Op::Alias(k, v) => {
                self.aliases.insert(k.clone(), e(v));
            }
            Op::Cmd(v) => self.commands.push(e(v)),
            Op::Src(v) => self.sources.push(e(v)),
            Op::Info(v) => self.infos.push(e(v)),
            Op::Error(v) => self.infos.push(format!("[error] {}", e(v))),
            Op::Reset(k) => match base.get(k) {
                Some(v) => {
                    self.vars.insert(k.clone(), v.clone());
                }
                None => {
                    self.vars.remove(k);
                }
            },
            Op::Stop(m) => {
                self.stopped = true;
                self.stop = m.as_ref().map(e);
            }
        }
    }
}
fn root_of(p: &Pkg) -> String {
    match &p.file {
        Some(f) => f[..f.rfind('/').unwrap()].to_string(),
        None => format!("/packages/{}", p.name),
    }
}
fn dedup(path: &str) -> String {
    let mut o: Vec<&str> = vec![];
    for e in path.split(':') {
        if !o.contains(&e) {
            o.push(e);
        }
    }
    o.join(":")
}
pub fn model(w: &World) -> State {
    let mut s = State { vars: w.base.clone(), ..Default::default() };
    for p in &w.pkgs {
        s.vars.insert(format!("{}_ROOT", p.name.to_uppercase()), root_of(p));
        if let Some(v) = &p.ver {
            s.vars.insert(format!("{}_VERSION", p.name.to_uppercase()), v.clone());
        }
    }
    for phase in 0..3 {
        for p in &w.pkgs {
            let x = package_vars(&p.name, Some(&root_of(p)), p.ver.as_deref());
            for (op, _) in p.phases[phase].iter().flatten() {
                s.apply(op, &w.base, &x);
            }
        }
    }
    s.vars.extend(w.extra.clone());
    let mut tools: Vec<String> = vec![];
    for p in w.pkgs.iter().filter(|p| !p.tools.is_empty()) {
        let root = root_of(p);
        let t = if p.tools.iter().any(|t| Path::new(&root).join(t).is_file()) { root } else { format!("{root}/bin") };
        if !tools.contains(&t) {
            tools.push(t);
        }
    }
    if !tools.is_empty() && w.path != 3 {
        let t = tools.join(":");
        let old = s.vars.get("PATH").cloned().unwrap_or_default();
        let new = match (w.path, old.is_empty()) {
            (2, _) | (_, true) => t,
            (0, _) => format!("{t}:{old}"),
            _ => format!("{old}:{t}"),
        };
        s.vars.insert("PATH".into(), new);
    }
    for u in &w.unset {
        s.vars.remove(u);
    }
    if let Some(p) = s.vars.get_mut("PATH") {
        *p = dedup(p);
    }
    s
}

// ---- rendering ------------------------------------------------------------------------

fn rex_lit(t: &str, style: u8) -> String {
    if !t.contains(['\'', '\n', '\r']) && (style % 2 == 0 || t.contains('"')) {
        format!("'{t}'")
    } else if !t.contains(['"', '\n', '\r']) {
        format!("\"{t}\"")
    } else {
        format!("u'{}'", t.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n").replace('\r', "\\r"))
    }
}
fn rex(op: &Op, style: u8) -> String {
    let l = |t: &String| rex_lit(t, style);
    let pick = |a: &'static str, b: &'static str| if style & 2 == 0 { a } else { b };
    let sp = pick(", ", " ,  ");
    match op {
        Op::Set(k, v) if style == 7 && word(k.chars().next()) && k.chars().all(|c| word(Some(c))) && !v.contains(['"', '\n', '\r']) && v.trim() == v => format!("export {k}=\"{v}\""),
        Op::Set(k, v) => format!("{}({}{sp}{})", pick("env.setenv", "setenv"), l(k), l(v)),
        Op::Unset(k) => format!("{}({})", pick("env.unsetenv", "unsetenv"), l(k)),
        Op::Pre(k, v) => format!("{}({}{sp}{})", pick("env.prepend_path", "prependenv"), l(k), l(v)),
        Op::App(k, v) => format!("{}({}{sp}{})", pick("env.append_path", "appendenv"), l(k), l(v)),
        Op::Dflt(k, v) => format!("env.setenv_if_empty({}{sp}{})", l(k), l(v)),
        Op::Alias(k, v) => format!("alias({}{sp}{})", l(k), l(v)),
        Op::Cmd(v) => format!("command({})", l(v)),
        Op::Src(v) => format!("source({})", l(v)),
        Op::Info(v) => format!("info({})", l(v)),
        Op::Error(v) => format!("error({})", l(v)),
        Op::Reset(k) => format!("{}({})", pick("resetenv", "env.resetenv"), l(k)),
        Op::Stop(None) => "stop()".into(),
        Op::Stop(Some(m)) => format!("stop({})", l(m)),
    }
}
fn rex_text(ops: &[(Op, u8)]) -> String {
    ops.iter().map(|(o, s)| format!("{}{}", if s & 4 == 0 { "" } else { "  # note\n\n" }, rex(o, *s))).collect::<Vec<_>>().join("\n")
}
/// The commands as package.py statements.
pub fn py(op: &Op) -> String {
    let l = |t: &String| lit(t, 0);
    match op {
        Op::Set(k, v) => format!("env.{k} = {}", l(v)),
        Op::Unset(k) => format!("env.unsetenv({})", l(k)),
        Op::Pre(k, v) => format!("env.{k}.prepend({})", l(v)),
        Op::App(k, v) => format!("env.{k}.append({})", l(v)),
        Op::Dflt(k, v) => format!("env.setenv_if_empty({}, {})", l(k), l(v)),
        Op::Alias(k, v) => format!("alias({}, {})", l(k), l(v)),
        Op::Cmd(v) => format!("command({})", l(v)),
        Op::Src(v) => format!("source({})", l(v)),
        Op::Info(v) => format!("info({})", l(v)),
        Op::Error(v) => format!("error({})", l(v)),
        Op::Reset(k) => format!("resetenv({})", l(k)),
        Op::Stop(None) => "stop()".into(),
        Op::Stop(Some(m)) => format!("stop({})", l(m)),
    }
}
fn package(p: &Pkg) -> Package {
    let mut k = Package::new(p.name.clone());
    k.version = p.ver.as_ref().map(|v| Version::parse(v).unwrap());
    k.filepath = p.file.clone();
    k.tools = p.tools.clone();
    let t = |i: usize| p.phases[i].as_ref().map(|o| rex_text(o));
    k.pre_commands = t(0);
    k.commands = t(1);
    k.post_commands = t(2);
    k
}

// ---- generators -------------------------------------------------------------------------

fn var() -> BoxedStrategy<String> {
    select(vec!["PATH", "FOO", "BAR", "A_ROOT", "Path", "A_VERSION", "X1"]).prop_map(str::to_string).boxed()
}
fn value() -> BoxedStrategy<String> {
    let piece = select(vec![
        "{root}", "{version}", "{name}", "{this.root}", "{this.version}", "{this.version.major}", "{this.version.minor}", "{this.version.patch}", "{this.name}", "$ROOT", "$VERSION", "$NAME", "_DIR", "/bin", ":", "x", "$THIS.ROOT", ".MAJOR", "{", "}", "$", "é", "it's",
        "\"q\"", "{other}", "$FOO", "{root", " ", "\\", "/usr/bin", "", "#",
    ]);
    prop_oneof![
        6 => prop::collection::vec(piece, 0..4).prop_map(|v| v.concat()),
        2 => select(vec!["/a:/b:/a", "one", "1", "two\nlines", "both ' and \""]).prop_map(str::to_string),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (var(), value()).prop_map(|(k, v)| Op::Set(k, v)),
        2 => var().prop_map(Op::Unset),
        5 => (var(), value()).prop_map(|(k, v)| Op::Pre(k, v)),
        5 => (var(), value()).prop_map(|(k, v)| Op::App(k, v)),
        3 => (var(), value()).prop_map(|(k, v)| Op::Dflt(k, v)),
        2 => (select(vec!["ll", "tool"]), value()).prop_map(|(k, v)| Op::Alias(k.into(), v)),
        2 => value().prop_map(Op::Cmd),
        2 => value().prop_map(Op::Src),
        1 => value().prop_map(Op::Info),
        1 => value().prop_map(Op::Error),
        3 => var().prop_map(Op::Reset),
        1 => prop::option::of(value()).prop_map(Op::Stop),
    ]
    .boxed()
}
fn ops(n: usize) -> BoxedStrategy<Vec<(Op, u8)>> {
    prop::collection::vec((op(), 0u8..8), 0..n).boxed()
}
static TOOLS: LazyLock<PathBuf> = LazyLock::new(|| {
    let d = std::env::temp_dir().join("envtools");
    std::fs::create_dir_all(d.join("has")).unwrap();
    std::fs::create_dir_all(d.join("no/t1")).unwrap(); // a directory is not a tool
    std::fs::write(d.join("has/t1"), "x").unwrap();
    d
});
fn version() -> BoxedStrategy<Option<String>> {
    prop_oneof![4 => select(vec!["1.2.3", "2", "1-2.0", "1.0+5", "3.1"]).prop_map(|s| Some(s.to_string())), 1 => Just(None)].boxed()
}
fn pkgs() -> BoxedStrategy<Vec<Pkg>> {
    let p = (
        version(),
        select(vec!["", "/r/%/1/package.py", "/r/{version}/$NAME/package.py", "@has/package.py", "@no/package.py", "/r/shared/package.py"]),
        prop::collection::vec(select(vec!["t1", "t2"]).prop_map(str::to_string), 0..3),
        prop::option::weighted(0.5, ops(5)),
        prop::option::weighted(0.8, ops(7)),
        prop::option::weighted(0.4, ops(4)),
    );
    prop::collection::vec(p, 0..4)
        .prop_map(|v| {
            v.into_iter()
                .zip(["a", "Bee", "c_d"])
                .map(|((ver, file, tools, x, y, z), name)| Pkg {
                    name: name.into(),
                    ver,
                    file: (!file.is_empty()).then(|| file.replace('%', name)),
                    tools,
                    phases: [x, y, z],
                })
                .collect()
        })
        .boxed()
}
fn map(n: usize) -> BoxedStrategy<Map> {
    prop::collection::btree_map(var(), prop_oneof![select(vec!["/usr/bin:/bin", "", "/a:/b:/a::", "{root}", "v", "a=b"]).prop_map(str::to_string), value()], 0..n).boxed()
}
fn world() -> BoxedStrategy<World> {
    (map(5), pkgs(), map(2), prop::collection::vec(var(), 0..2), 0u8..4).prop_map(|(base, pkgs, extra, unset, path)| World { base, pkgs, extra, unset, path }).boxed()
}
fn real(w: &World) -> World {
    let mut w = w.clone();
    for p in &mut w.pkgs {
        if let Some(f) = &mut p.file
            && let Some(r) = f.strip_prefix('@')
        {
            *f = TOOLS.join(r).to_string_lossy().into_owned();
        }
    }
    w
}
fn config(w: &World) -> ContextConfig {
    ContextConfig {
        additional_env_vars: w.extra.clone().into_iter().collect(),
        unset_vars: w.unset.clone(),
        path_strategy: [PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify][w.path as usize].clone(),
        ..Default::default()
    }
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?}\n  expected {want:?}")) }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
enum Call {
    Run { ops: Vec<(Op, u8)>, name: String, root: Option<String>, ver: Option<String> },
    Var(String, String),
    Clear,
}

pub fn c15(c: &mut Ctx) {
    c.rule("resolve: base environment, up to 3 packages with Rex text in up to three phases, and a configuration; executor: calls on one Rex executor; non-trivial = at least 3 actions on variables that are shared");
    c.assume("path separator ':' (Linux); variables of a package are {name} and $NAME forms of name, root, version and their this. spellings");
    c.check("resolve", 12_000, 400_000, world, |w: &World| {
        let w = real(w);
        let ps: Vec<Package> = w.pkgs.iter().map(package).collect();
        let m = EnvironmentManager::with_base_environment(config(&w), w.base.clone().into_iter().collect());
        let got = rt().block_on(m.generate_rex_environment(&ps)).map_err(|e| format!("refused: {e}"))?;
        let want = model(&w);
        same("environment", State::of(&got), want.clone())?;
        let vars = rt().block_on(m.generate_environment(&ps)).map_err(|e| e.to_string())?;
        same("generate_environment", vars.clone().into_iter().collect(), want.vars.clone())?;
        let d = m.get_env_diff(&vars);
        let mut removed = d.removed.clone();
        removed.sort();
        same("diff removed", removed, w.base.keys().filter(|k| !want.vars.contains_key(*k)).cloned().collect())?;
        same("diff added", d.added.into_iter().collect::<Map>(), want.vars.iter().filter(|(k, _)| !w.base.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())?;
        same(
            "diff modified",
            d.modified.into_iter().collect::<BTreeMap<_, _>>(),
            want.vars.iter().filter_map(|(k, v)| w.base.get(k).filter(|b| *b != v).map(|b| (k.clone(), (b.clone(), v.clone())))).collect(),
        )?;
        let n: usize = w.pkgs.iter().flat_map(|p| p.phases.iter().flatten()).map(Vec::len).sum();
        let is = |f: fn(&Op) -> bool| w.pkgs.iter().flat_map(|p| p.phases.iter().flatten().flatten()).any(|(o, _)| f(o));
        Ok(Info::new(n >= 3 && !w.base.is_empty()).label(want.stopped, "stopped").label(is(|o| matches!(o, Op::Reset(_))), "reset").label(w.pkgs.iter().any(|p| !p.tools.is_empty()), "tools").label(w.pkgs.len() > 1, "several-packages"))
    });
    let call = || {
        prop_oneof![
            6 => (ops(5), select(vec!["a", "b"]), prop::option::of(select(vec!["/r/a", "/r/{version}"])), version()).prop_map(|(ops, n, r, ver)| Call::Run { ops, name: n.into(), root: r.map(str::to_string), ver }),
            1 => (select(vec!["other", "root", "version", "FOO"]), select(vec!["val", "{name}", "$ROOT"])).prop_map(|(k, v)| Call::Var(k.into(), v.into())),
            1 => Just(Call::Clear),
        ]
    };
    c.check("executor", 8_000, 200_000, move || prop::collection::vec(call(), 1..5), |calls: &Vec<Call>| {
        let mut x = RexExecutor::new();
        let (mut own, mut done): (Map, Vec<(Op, Map)>) = Default::default();
        let mut n = 0;
        for call in calls {
            match call {
                Call::Var(k, v) => {
                    x.set_context_var(k, v);
                    own.insert(k.clone(), v.clone());
                }
                Call::Clear => {
                    x.clear();
                    done.clear();
                }
                Call::Run { ops, name, root, ver } => {
                    n += ops.len();
                    let got = x.execute_commands(&rex_text(ops), name, root.as_deref(), ver.as_deref()).map_err(|e| format!("refused: {e}"))?;
                    let mut vars = own.clone();
                    vars.extend(package_vars(name, root.as_deref(), ver.as_deref()));
                    done.extend(ops.iter().map(|(o, _)| (o.clone(), vars.clone())));
                    let mut want = State::default();
                    for (o, v) in &done {
                        want.apply(o, &Map::new(), v);
                    }
                    same(&format!("after {call:?}"), State::of(&got), want.clone())?;
                    let mut merged = got.clone();
                    let base: HashMap<String, String> = [("FOO", "b"), ("NEW", "n")].map(|(a, b)| (a.to_string(), b.to_string())).into();
                    merged.merge_with_base(&base);
                    for (k, v) in base {
                        want.vars.entry(k).or_insert(v);
                    }
                    same("merged", State::of(&merged), want)?;
                }
            }
        }
        Ok(Info::new(n >= 3).label(calls.len() > 1, "reused"))
    });
}

// ---- C16 -----------------------------------------------------------------------------------

pub fn wild() -> BoxedStrategy<String> {
    let piece = select(vec!["a", " ", "'", "\"", "\\", "$", "$X", "${X}", "$(echo pwn)", "`echo pwn`", "\n", "!", "!!", "*", "~", "#", ";", "&", "|", "<", "%", "%X%", "é", "’", "“", "\t", "(", ")", "{", "^", "/bin", ":", "=", "\\n", "-n", "''", "$'x'", "\r"]);
    prop_oneof![1 => Just(String::new()), 8 => prop::collection::vec(piece, 1..6).prop_map(|v| v.concat())].boxed()
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Script {
    vars: Map,
    aliases: Map,
    commands: u8,
    sources: Vec<String>,
    infos: Vec<String>,
}
fn script() -> BoxedStrategy<Script> {
    (
        prop::collection::btree_map(select(vec!["PATH", "FOO", "B_1", "x", "A-B", "1X", "BASH_FUNC_f%%", "HOME", "LONG"]).prop_map(str::to_string), wild(), 0..5),
        prop::collection::btree_map(select(vec!["ll", "my-tool", "t1.2"]).prop_map(str::to_string), wild(), 0..3),
        0u8..3,
        prop::collection::vec(wild().prop_map(|s| s.replace('/', "_").replace('\0', "")), 0..3),
        prop::collection::vec(wild(), 0..2),
    )
        .prop_map(|(vars, aliases, commands, sources, infos)| Script { vars, aliases, commands, sources, infos })
        .boxed()
}
fn ident(k: &str) -> bool {
    !k.starts_with(|c: char| c.is_ascii_digit()) && k.chars().all(|c| word(Some(c)))
}
/// NUL separated fields.
fn fields(b: &[u8]) -> Vec<String> {
    b.split(|c| *c == 0).map(|f| String::from_utf8_lossy(f).into_owned()).collect()
}
fn env_of(f: &[String]) -> Map {
    f.iter().filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
/// What a bash process sees after sourcing the text: (variables, aliases, record of commands run).
pub fn bash(dir: &Path, text: &str) -> Result<(Map, Map, String), String> {
    let f = dir.join("activate");
    std::fs::write(&f, text).unwrap();
    let probe = "source ./activate >/dev/null || exit 9; /usr/bin/env -0; printf '\\1\\0'; for a in \"${!BASH_ALIASES[@]}\"; do printf '%s=%s\\0' \"$a\" \"${BASH_ALIASES[$a]}\"; done; printf '\\1\\0%s' \"$REC\"";
    let o = Command::new("/bin/bash").args(["--norc", "--noprofile", "-c", probe]).env_clear().current_dir(dir).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.stderr.is_empty() || !o.status.success() {
        return Err(format!("bash status {:?}, says {}", o.status.code(), String::from_utf8_lossy(&o.stderr)));
    }
    let all = fields(&o.stdout);
    let parts: Vec<&[String]> = all.split(|l| l == "\u{1}").collect();
    if parts.len() != 3 {
        return Err("the script broke the probe".into());
    }
    let mut vars = env_of(parts[0]);
    for k in ["PWD", "OLDPWD", "SHLVL", "_"] {
        vars.remove(k);
    }
    Ok((vars, env_of(parts[1]), parts[2].concat()))
}
/// Double-quoted text with backslash escapes for `special`, starting after the quote.
fn dquote(s: &str, esc: char, special: &str, stop: &str, subst: &str) -> Result<(String, usize), String> {
    let mut o = String::new();
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if stop.contains(c) {
            return Ok((o, i + c.len_utf8()));
        }
        if subst.contains(c) {
            return Err(format!("{c:?} would be expanded in {s:?}"));
        }
        if c == esc {
            match it.peek() {
                Some((_, n)) if special.contains(*n) => {
                    o.push(*n);
                    it.next();
                }
                _ if esc == '`' => return Err("stray backtick".into()),
                _ => o.push(c),
            }
        } else {
            o.push(c);
        }
    }
    Err("unterminated string".into())
}
fn squote(s: &str, quotes: &str) -> Result<(String, usize), String> {
    let mut o = String::new();
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if !quotes.contains(c) {
            o.push(c);
        } else if let Some((_, n)) = it.peek()
            && quotes.contains(*n)
        {
            // two quotes in a row stand for the second
            o.push(*n);
            it.next();
        } else {
            return Ok((o, i + c.len_utf8()));
        }
    }
    Err("unterminated string".into())
}
/// Reads the assignments at the start of a script: `prefix NAME infix QUOTED` lines, comments and blank lines.
fn read_assignments(text: &str, fish: bool, dq: bool) -> Result<Map, String> {
    let mut m = Map::new();
    let mut s = text;
    while !s.is_empty() {
        if s.starts_with('#') || s.starts_with('\n') {
            s = s.split_once('\n').map_or("", |x| x.1);
            continue;
        }
        let head = if fish { ["set -gx ", "set -x "].iter().find_map(|p| s.strip_prefix(p)) } else { s.strip_prefix("$env:").or_else(|| s.strip_prefix("${env:")) };
        let Some(h) = head else { break };
        let end = h.find(if fish { " " } else { " = " }).ok_or("no value")?;
        let name = h[..end].trim_end_matches('}');
        let v = &h[end + if fish { 1 } else { 3 }..];
        let q = v.chars().next().ok_or("no value")?;
        let (val, n) = match (fish, dq, q) {
            (true, _, '"') => dquote(&v[1..], '\\', "\\\"$", "\"", "$")?,
            (false, false, '\'') => squote(&v[1..], "'‘’‚‛")?,
            (false, true, '"') => dquote(&v[1..], '`', "`\"$“”„", "\"“”„", "$")?,
            _ => return Err(format!("unquoted value {v:?}")),
        };
        let rest = &v[1 + n..];
        if !rest.is_empty() && !rest.starts_with('\n') {
            return Err(format!("text after the value of {name}: {rest:?}"));
        }
        m.insert(name.to_string(), val);
        s = rest.strip_prefix('\n').unwrap_or("");
    }
    Ok(m)
}
fn read_cmd(text: &str) -> Map {
    text.lines()
        .filter_map(|l| l.strip_prefix("SET \"").or_else(|| l.strip_prefix("set \""))?.strip_suffix('"'))
        .filter_map(|l| l.split_once('='))
        .map(|(k, v)| {
            // %% is a percent sign; a lone one starts a variable
            let v = v.split("%%").map(|x| if x.contains('%') { "<EXPANDED>".to_string() } else { x.to_string() }).collect::<Vec<_>>().join("%");
            (k.to_string(), v)
        })
        .collect()
}

/// Reads the statements after the assignments of a fish or PowerShell script: (aliases, sourced files).
fn read_rest(text: &str, fish: bool) -> Result<(Map, Vec<String>), String> {
    let (mut a, mut src) = (Map::new(), vec![]);
    let mut s = text;
    while !s.is_empty() {
        if s.starts_with('#') || s.starts_with('\n') {
            s = s.split_once('\n').map_or("", |x| x.1);
            continue;
        }
        let q = if fish { '"' } else { '\'' };
        let at = s.find(q).ok_or_else(|| format!("no quoted text in {s:?}"))?;
        let head = &s[..at];
        let (val, n) = if fish { dquote(&s[at + 1..], '\\', "\\\"$", "\"", "$")? } else { squote(&s[at + 1..], "'‘’‚‛")? };
        let rest = &s[at + 1 + n..];
        if !rest.is_empty() && !rest.starts_with('\n') {
            return Err(format!("text after {head}{val:?}: {rest:?}"));
        }
        s = rest.strip_prefix('\n').unwrap_or("");
        let words: Vec<&str> = head.split_whitespace().filter(|w| !w.starts_with('-')).collect();
        match (fish, words.as_slice()) {
            (true, ["alias", name]) | (false, ["Set-Alias", name]) => {
                a.insert(name.to_string(), val);
            }
            (true, ["source"]) | (false, ["."]) => src.push(val),
            (true, ["set", _]) => {}
            (false, [v, "="]) if v.starts_with('$') => {}
            _ => return Err(format!("what is {head:?}?")),
        }
    }
    Ok((a, src))
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Run {
    base: Map,
    ver: String,
    ops: Vec<Op>,
    args: Vec<String>,
    code: u8,
    mode: u8,
}
fn run_case() -> BoxedStrategy<Run> {
    let v = || select(vec!["FOO", "BAR", "PKG_HOME", "PATH", "INHERITED"]).prop_map(str::to_string);
    let t = || prop_oneof![3 => wild(), 3 => select(vec!["{root}/bin", "v{version}", "plain", "/a:/b", "$NAME"]).prop_map(str::to_string)];
    let op = prop_oneof![
        5 => (v(), t()).prop_map(|(k, x)| Op::Set(k, x)),
        2 => v().prop_map(Op::Unset),
        3 => (v(), t()).prop_map(|(k, x)| Op::Pre(k, x)),
        3 => (v(), t()).prop_map(|(k, x)| Op::App(k, x)),
        2 => (v(), t()).prop_map(|(k, x)| Op::Dflt(k, x)),
        1 => v().prop_map(Op::Reset),
        1 => t().prop_map(Op::Info),
    ];
    let base = prop::collection::btree_map(select(vec!["FOO", "INHERITED", "PATH", "OTHER", "weird.name"]).prop_map(str::to_string), prop_oneof![wild(), Just("/usr/bin:/bin".to_string())], 0..4);
    (base, select(vec!["1.0", "2.3.1"]), prop::collection::vec(op, 0..6), prop::collection::vec(wild(), 0..4), 0u8..120, 0u8..6)
        .prop_map(|(base, ver, ops, args, code, mode)| Run { base, ver: ver.into(), ops, args, code, mode })
        .boxed()
}
fn sh_quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\"'\"'"))
}

pub fn c16(c: &mut Ctx) {
    c.rule("scripts: activation scripts for generated environments, run in bash and read by a model of fish, PowerShell and cmd quoting; cli: rez-next env runs; exec: command execution with a given environment; non-trivial = some text holds a character special to the shell");
    c.assume("only bash is installed, so fish, PowerShell and cmd scripts are judged by models of their quoting rules; cmd cannot hold line breaks; printed scripts set variables and do not unset inherited ones");
    c.check("scripts", 2_500, 60_000, script, |s: &Script| {
        let dir = tempfile::tempdir().unwrap();
        let mut env = RexEnvironment::new();
        env.vars = s.vars.clone().into_iter().collect();
        env.aliases = s.aliases.clone().into_iter().collect();
        let mut rec = String::new();
        for i in 0..s.commands {
            env.startup_commands.push(format!("REC=\"$REC[c{i}]\""));
            rec += &format!("[c{i}]");
        }
        for (i, n) in s.sources.iter().enumerate() {
            let d = dir.path().join(format!("d{i}"));
            std::fs::create_dir_all(&d).unwrap();
            let f = d.join(format!("s{n}"));
            std::fs::write(&f, format!("REC=\"$REC[s{i}]\"\n")).unwrap();
            env.sourced_scripts.push(f.to_string_lossy().into_owned());
            rec += &format!("[s{i}]");
        }
        env.info_messages = s.infos.clone();
        let want: Map = s.vars.iter().filter(|(k, _)| ident(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        for sh in [rez_next_rex::ShellType::Bash, rez_next_rex::ShellType::Zsh] {
            let (v, a, r) = bash(dir.path(), &generate_shell_script(&env, &sh))?;
            same("bash variables", v, want.clone())?;
            same("bash aliases", a, s.aliases.clone())?;
            same("commands run", r, rec.clone())?;
        }
        let fish = generate_shell_script(&env, &rez_next_rex::ShellType::Fish);
        same("fish variables", read_assignments(&fish, true, true).map_err(|e| format!("fish: {e}\n{fish}"))?, s.vars.clone())?;
        let ps = generate_shell_script(&env, &rez_next_rex::ShellType::PowerShell);
        same("PowerShell variables", read_assignments(&ps, false, false).map_err(|e| format!("PowerShell: {e}\n{ps}"))?, s.vars.clone())?;
        {
            let mut e = env.clone();
            e.startup_commands.clear();
            for (what, sh, fish) in [("fish", rez_next_rex::ShellType::Fish, true), ("PowerShell", rez_next_rex::ShellType::PowerShell, false)] {
                let t = generate_shell_script(&e, &sh);
                let (a, src) = read_rest(&t, fish).map_err(|m| format!("{what}: {m}\n{t}"))?;
                same(&format!("{what} aliases"), a, s.aliases.clone())?;
                same(&format!("{what} sourced files"), src, e.sourced_scripts.clone())?;
            }
            e.aliases.retain(|_, v| !v.contains(['\n', '\r']));
            e.sourced_scripts.retain(|v| !v.contains(['\n', '\r', '"']));
            e.vars.clear();
            let t = generate_shell_script(&e, &rez_next_rex::ShellType::Cmd);
            let plain = |v: &str| v.split("%%").map(|x| if x.contains('%') { "<EXPANDED>".to_string() } else { x.to_string() }).collect::<Vec<_>>().join("%");
            let a: Map = t.split("\r\n").filter_map(|l| l.strip_prefix("DOSKEY ")?.split_once('=')).map(|(k, v)| (k.to_string(), plain(v))).collect();
            same("cmd aliases", a, e.aliases.clone().into_iter().collect())?;
            let src: Vec<String> = t.split("\r\n").filter_map(|l| l.strip_prefix("CALL \"")?.strip_suffix('"')).map(plain).collect();
            same("cmd scripts", src, e.sourced_scripts.clone())?;
        }
        let flat: Map = s.vars.iter().filter(|(_, v)| !v.contains(['\n', '\r'])).map(|(k, v)| (k.clone(), v.clone())).collect();
        env.vars = flat.clone().into_iter().collect();
        same("cmd variables", read_cmd(&generate_shell_script(&env, &rez_next_rex::ShellType::Cmd)), flat.clone())?;
        // the context's own generator
        let gen_ctx = |shell: ShellType, vars: &Map| {
            let m = EnvironmentManager::with_base_environment(ContextConfig { shell_type: shell, ..Default::default() }, HashMap::new());
            m.generate_shell_script(&vars.clone().into_iter().collect()).unwrap()
        };
        for sh in [ShellType::Bash, ShellType::Zsh] {
            same("context bash variables", bash(dir.path(), &gen_ctx(sh, &want))?.0, want.clone())?;
        }
        let fish = gen_ctx(ShellType::Fish, &s.vars);
        same("context fish variables", read_assignments(&fish, true, true).map_err(|e| format!("context fish: {e}\n{fish}"))?, s.vars.clone())?;
        let ps = gen_ctx(ShellType::PowerShell, &s.vars);
        same("context PowerShell variables", read_assignments(&ps, false, true).map_err(|e| format!("context PowerShell: {e}\n{ps}"))?, s.vars.clone())?;
        same("context cmd variables", read_cmd(&gen_ctx(ShellType::Cmd, &flat)), flat)?;
        let special = |t: &String| t.contains(['$', '`', '"', '\\', '\n', '\'']);
        Ok(Info::new(s.vars.values().chain(s.aliases.values()).any(special)).label(!s.sources.is_empty(), "sourced").label(!s.aliases.is_empty(), "aliases"))
    });
    c.check("cli", 1_500, 20_000, run_case, |r: &Run| {
        let dir = tempfile::tempdir().unwrap();
        let home = dir.path().join("home");
        let pk = dir.path().join("repo/app").join(&r.ver);
        std::fs::create_dir_all(&pk).unwrap();
        std::fs::create_dir_all(&home).unwrap();
        let mut ops = r.ops.clone();
        if r.mode < 3 {
            // the shell is looked up on the new PATH
            ops.push(Op::Pre("PATH".into(), "/usr/bin".into()));
        }
        let body: String = ops.iter().map(|o| format!("    {}\n", py(o))).collect();
        std::fs::write(pk.join("package.py"), format!("name = 'app'\nversion = '{}'\ndef commands():\n{}    pass\n", r.ver, body)).unwrap();
        let mut base = r.base.clone();
        base.insert("HOME".into(), home.to_string_lossy().into_owned());
        base.insert("TMPDIR".into(), home.to_string_lossy().into_owned());
        base.entry("PATH".into()).or_insert("/usr/bin:/bin".into());
        // bash itself must be found
        let p = base.get_mut("PATH").unwrap();
        *p = if p.is_empty() { "/usr/bin".into() } else { format!("/usr/bin:{p}") };
        let w = World {
            base: base.clone(),
            pkgs: vec![Pkg { name: "app".into(), ver: Some(r.ver.clone()), file: Some(pk.join("package.py").to_string_lossy().into_owned()), tools: vec![], phases: [None, Some(ops.iter().map(|o| (o.clone(), 0)).collect()), None] }],
            extra: Map::new(),
            unset: vec![],
            path: 0,
        };
        let exe = std::env::current_exe().unwrap().with_file_name("rezcli");
        let mut want = model(&w).vars;
        let bin = exe.parent().unwrap().to_string_lossy().into_owned();
        let path = want.get("PATH").cloned();
        want.insert("PATH".into(), match path {
            Some(p) if p.split(':').any(|e| e == bin) => p,
            Some(p) => format!("{bin}:{p}"),
            None => bin,
        });
        want.insert("REZ_USED_REQUEST".into(), "app".into());
        for k in ["REZ_USED_RESOLVE", "REZ_USED_PACKAGES_NAMES"] {
            want.insert(k.into(), format!("app-{}", r.ver));
        }
        let mut cmd = Command::new(&exe);
        cmd.args(["env", "app", "--paths"]).arg(dir.path().join("repo")).env_clear().envs(&base).current_dir(&home).stdin(Stdio::null());
        let probe = format!("printf '%s\\0' \"$@\"; printf '\\1\\0'; /usr/bin/env -0; exit {}", r.code);
        match r.mode {
            0 | 1 => cmd.args(["-q", "--", "/bin/bash", "-c", &probe, "x"]).args(&r.args),
            2 => cmd.args(["-q", "-c"]).arg(format!("set -- {}; {probe}", r.args.iter().map(|a| sh_quote(a)).collect::<Vec<_>>().join(" "))),
            3 => cmd.args(["--print-env", "--format", "json"]),
            4 => cmd.args(["--print-env"]),
            _ => cmd.args(["--print-env", "--format", "dict"]),
        };
        let o = cmd.output().map_err(|e| e.to_string())?;
        let err = || format!("status {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr));
        let mut got = match r.mode {
            0..=2 => {
                let all = fields(&o.stdout);
                let parts: Vec<&[String]> = all.split(|l| l == "\u{1}").collect();
                if parts.len() != 2 {
                    return Err(format!("the command did not run; {}", err()));
                }
                let args: Vec<String> = if r.args.is_empty() { vec![String::new()] } else { r.args.clone() };
                same("arguments", parts[0].to_vec(), args)?;
                same("exit status", o.status.code(), Some(r.code as i32))?;
                let left: Vec<_> = std::fs::read_dir(&home).unwrap().map(|e| e.unwrap().file_name()).collect();
                if !left.is_empty() {
                    return Err(format!("temporary files left behind: {left:?}"));
                }
                env_of(parts[1])
            }
            3 => serde_json::from_slice::<Map>(&o.stdout).map_err(|e| format!("{e}; {}", err()))?,
            4 => {
                let t = String::from_utf8(o.stdout.clone()).map_err(|e| e.to_string())?;
                bash(dir.path(), &t.replace("export weird.name=", "weird_name=")).map_err(|e| format!("{e}\n{t}"))?.0
            }
            _ => {
                let py = Command::new("python3")
                    .args(["-I", "-S", "-c", "import sys,ast,json;print(json.dumps(dict(list(ast.literal_eval('{'+l+'}').items())[0] for l in sys.stdin.buffer.read().decode().split('\\n') if l)))"])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::piped())
                    .spawn()
                    .and_then(|mut c| {
                        use std::io::Write;
                        c.stdin.take().unwrap().write_all(&o.stdout)?;
                        c.wait_with_output()
                    })
                    .map_err(|e| e.to_string())?;
                serde_json::from_slice::<Map>(&py.stdout).map_err(|_| format!("not a Python dictionary: {}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&py.stderr)))?
            }
        };
        if r.mode < 3 {
            for k in ["REZ_RXT_FILE", "REZ_CONTEXT_FILE"] {
                if got.remove(k).is_none() {
                    return Err(format!("{k} is not set"));
                }
            }
        }
        for k in ["PWD", "OLDPWD", "SHLVL", "_", "weird_name"] {
            got.remove(k);
            want.remove(k);
        }
        if r.mode == 4 {
            want.remove("weird.name");
        }
        same("environment", got, want)?;
        let special = |t: &String| t.contains(['$', '`', '"', '\\', '\n', '\'']);
        Ok(Info::new(r.args.iter().chain(r.base.values()).any(special) || !r.ops.is_empty()).label(r.ops.iter().any(|o| matches!(o, Op::Unset(_))), "unset").label(r.mode < 3, "executed"))
    });
    c.check("alias", 300, 6_000, || (0u8..4, prop::collection::vec(wild(), 0..4), prop::bool::weighted(0.3)), |(kind, args, other): &(u8, Vec<String>, bool)| {
        let dir = tempfile::tempdir().unwrap();
        let home = dir.path().join("home");
        let pk = dir.path().join("repo/app/1.0");
        std::fs::create_dir_all(&pk).unwrap();
        std::fs::create_dir_all(&home).unwrap();
        let text = ["printf '<%s>'", "printf '<%s>' first $* last", "printf '<%s>' first $@", "printf '<%s>' \"$FOO\""][*kind as usize];
        std::fs::write(pk.join("package.py"), format!("name = 'app'\nversion = '1.0'\ndef commands():\n    alias('other', 'exit 7')\n    alias('show', {})\n    env.FOO = 'foo value'\n", serde_json::to_string(text).unwrap())).unwrap();
        let mut a: Vec<String> = ["env", "app", "--paths"].map(String::from).to_vec();
        a.push(dir.path().join("repo").to_string_lossy().into_owned());
        a.extend(["-q".into(), "--".into(), if *other { "other" } else { "show" }.to_string()]);
        if !other {
            a.extend(args.iter().cloned());
        }
        let exe = std::env::current_exe().unwrap().with_file_name("rezcli");
        let o = Command::new(exe).args(&a).env_clear().env("HOME", &home).env("TMPDIR", &home).env("PATH", "/usr/bin:/bin").current_dir(&home).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        if *other {
            same("exit status of the alias", o.status.code(), Some(7))?;
            return Ok(Info::new(false).label(true, "status"));
        }
        let mut want: Vec<String> = match kind {
            0 => args.clone(),
            1 => [vec!["first".into()], args.clone(), vec!["last".into()]].concat(),
            2 => [vec!["first".into()], args.clone()].concat(),
            _ => [vec!["foo value".into()], args.clone()].concat(),
        };
        if want.is_empty() {
            want.push(String::new());
        }
        let want: String = want.iter().map(|w| format!("<{w}>")).collect();
        same("output of the alias", String::from_utf8_lossy(&o.stdout).into_owned(), want).map_err(|e| format!("{a:?} with {text:?}: {e}; {}", String::from_utf8_lossy(&o.stderr)))?;
        Ok(Info::new(!args.is_empty()).label(*kind == 1 || *kind == 2, "placeholder"))
    });
    let m = || prop::collection::btree_map(select(vec!["FOO", "B", "weird.name", "PATH", "VINHERIT"]).prop_map(str::to_string), wild(), 0..4);
    c.check("exec", 500, 10_000, move || (m(), m(), any::<bool>(), 0u8..6, 0u8..200), |(vars, extra, inherit, how, code): &(Map, Map, bool, u8, u8)| {
        let dir = tempfile::tempdir().unwrap();
        let cwd = std::fs::canonicalize(dir.path()).unwrap();
        let probe = format!("printf '%s\\0\\1\\0' \"$PWD\"; /usr/bin/env -0; echo err >&2; exit {code}");
        let mut want: Map = vars.clone();
        let (out, errs, status) = if *how < 2 {
            let x = ShellExecutor::with_shell(ShellType::Bash).with_environment(vars.clone().into_iter().collect()).with_inherit_parent_env(*inherit).with_working_directory(cwd.clone());
            let r = if *how == 0 {
                rt().block_on(x.execute(&probe))
            } else {
                std::fs::write(cwd.join("s.sh"), &probe).unwrap();
                rt().block_on(x.execute_script(&cwd.join("s.sh")))
            }
            .map_err(|e| e.to_string())?;
            (r.stdout, r.stderr, r.exit_code)
        } else {
            want.extend(extra.clone());
            let mut ctx = ResolvedContext::from_requirements(vec![]);
            ctx.environment_vars = vars.clone().into_iter().collect();
            let cfg = ExecutionConfig { shell_type: ShellType::Bash, working_directory: Some(cwd.clone()), inherit_parent_env: *inherit, additional_env_vars: extra.clone().into_iter().collect(), ..Default::default() };
            let x = if *how >= 4 {
                let mut x = ContextExecutor::new(ctx);
                x.set_config(cfg);
                x
            } else {
                ContextExecutor::with_config(ctx, cfg)
            };
            if *how == 5 {
                // every command runs, and each has its result
                let cmds = ["exit 0".to_string(), probe.clone(), "echo > after".to_string()];
                let mut r = rt().block_on(x.execute_batch(&cmds)).map_err(|e| e.to_string())?;
                same("results of a batch", r.len(), 3)?;
                same("the rest of the batch ran", cwd.join("after").exists(), true)?;
                let r = r.remove(1);
                (r.stdout, r.stderr, r.exit_code)
            } else if *how == 2 || *how == 4 {
                let r = rt().block_on(x.execute(&probe)).map_err(|e| e.to_string())?;
                (r.stdout, r.stderr, r.exit_code)
            } else {
                let r = rt().block_on(async { x.spawn_process("/bin/bash", &["-c".into(), probe.clone()]).await?.wait().await }).map_err(|e| e.to_string())?;
                (r.stdout, r.stderr, r.exit_code)
            }
        };
        if *inherit {
            for (k, v) in std::env::vars() {
                want.entry(k).or_insert(v);
            }
        }
        let all = fields(out.as_bytes());
        let parts: Vec<&[String]> = all.split(|l| l == "\u{1}").collect();
        same("working directory", parts.first().map(|p| p.concat()), Some(cwd.to_string_lossy().into_owned()))?;
        let mut got = env_of(parts.get(1).copied().unwrap_or_default());
        for k in ["PWD", "OLDPWD", "SHLVL", "_"] {
            got.remove(k);
            want.remove(k);
        }
        same("environment", got, want)?;
        same("stderr", errs, "err\n".to_string())?;
        same("exit status", status, *code as i32)?;
        Ok(Info::new(!vars.is_empty()).label(*inherit, "inherit").label(*how == 1, "script"))
    });
    c.check("timeout", 8, 64, || (any::<bool>(), 0u8..3), |(as_script, n): &(bool, u8)| {
        let dir = tempfile::tempdir().unwrap();
        let mark = dir.path().join("late");
        let text = format!("{} read -t 4 _ <> <(:); echo late > {}", "true;".repeat(*n as usize), mark.display());
        let x = ShellExecutor::with_shell(ShellType::Bash).with_inherit_parent_env(true).with_timeout(1);
        let t = std::time::Instant::now();
        let r = if *as_script {
            let f = dir.path().join("s.sh");
            std::fs::write(&f, &text).unwrap();
            rt().block_on(async {
                let r = x.execute_script(&f).await;
                tokio::time::sleep(std::time::Duration::from_millis(4500)).await;
                r
            })
        } else {
            rt().block_on(async {
                let r = x.execute(&text).await;
                tokio::time::sleep(std::time::Duration::from_millis(4500)).await;
                r
            })
        };
        if r.is_ok() {
            return Err("a command that takes longer than its timeout succeeded".into());
        }
        if mark.exists() {
            return Err(format!("a timed out command kept running ({:?})", t.elapsed()));
        }
        Ok(Info::new(true))
    });
    let _ = std::ffi::OsStr::new("").as_bytes();
}
