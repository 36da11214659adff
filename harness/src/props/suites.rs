//! C19: suites.
use super::envs::{same, wild};
use super::fsops::cli;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_suites::{Suite, SuiteManager, ToolConflictMode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(String, Vec<String>),
    Remove(String),
    Alias(String, String, String),
    Hide(String, String),
    Prefix(String, Option<String>),
    Priority(String, i32),
    Disable(String, bool),
    Describe(Option<String>),
    Mode(u8),
    Reload,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Ctxt {
    name: String,
    reqs: Vec<String>,
    aliases: BTreeMap<String, String>,
    hidden: Vec<String>,
    prefix: Option<String>,
    priority: i32,
    disabled: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Model {
    ctx: Vec<Ctxt>,
    desc: Option<String>,
    mode: u8,
}
/// exposed name -> (original, context, package, alias?)
type Tools = BTreeMap<String, (String, String, String, bool)>;

fn valid(n: &str) -> bool {
    !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_')
}
impl Model {
    fn at(&mut self, n: &str) -> Option<&mut Ctxt> {
        self.ctx.iter_mut().find(|c| c.name == n)
    }
    /// None: refused because of a conflict
    fn tools(&self) -> Option<Tools> {
        let mut offers: BTreeMap<String, Vec<(usize, &Ctxt, String)>> = BTreeMap::new();
        let mut out = Tools::new();
        let mut order: Vec<(usize, &Ctxt)> = self.ctx.iter().enumerate().filter(|(_, c)| !c.disabled).collect();
        // best first
        order.sort_by_key(|(i, c)| (-(c.priority as i64), if self.mode == 2 { -(*i as i64) } else { *i as i64 }));
        for (i, c) in &order {
            for (a, o) in &c.aliases {
                if !c.hidden.contains(o) {
                    offers.entry(format!("{}{a}", c.prefix.clone().unwrap_or_default())).or_default().push((*i, c, o.clone()));
                }
            }
        }
        let entry = |name: &str, c: &Ctxt, o: &str| (o.to_string(), c.name.clone(), c.reqs.first().cloned().unwrap_or_default(), name != o);
        if self.mode != 3 {
            for (name, v) in &offers {
                if v.len() > 1 && self.mode == 0 {
                    return None;
                }
                let (_, c, o) = &v[0];
                out.insert(name.clone(), entry(name, c, o));
            }
            return Some(out);
        }
        // prefix mode: in order of preference, whoever finds a name taken is renamed
        for (_, c) in &order {
            for (a, o) in &c.aliases {
                if c.hidden.contains(o) {
                    continue;
                }
                let mut name = format!("{}{a}", c.prefix.clone().unwrap_or_default());
                if out.contains_key(&name) {
                    name = format!("{}_{name}", c.name);
                }
                if out.contains_key(&name) {
                    return None;
                }
                out.insert(name.clone(), entry(&name, c, o));
            }
        }
        Some(out)
    }
}
fn mode(m: u8) -> ToolConflictMode {
    use ToolConflictMode::*;
    [Error, First, Last, Prefix][m as usize].clone()
}
fn see(s: &Suite) -> Model {
    Model {
        ctx: s
            .contexts()
            .iter()
            .map(|c| Ctxt {
                name: c.name.clone(),
                reqs: c.requests.clone(),
                aliases: c.tool_aliases.clone().into_iter().collect(),
                hidden: c.hidden_tools.clone(),
                prefix: c.prefix.clone(),
                priority: c.priority,
                disabled: c.disabled,
            })
            .collect(),
        desc: s.description.clone(),
        mode: (0..4).find(|m| mode(*m) == s.conflict_mode).unwrap(),
    }
}
fn see_tools(s: &Suite) -> Option<Tools> {
    s.get_tools().ok().map(|t| t.into_iter().map(|(k, t)| (k, (t.original_name, t.context_name, t.package, t.is_alias))).collect())
}
fn cname() -> BoxedStrategy<String> {
    prop_oneof![12 => select(vec!["a", "b", "a_b", "c-1", "é"]).prop_map(str::to_string), 1 => select(vec!["", "a b", "a/b", "../x", "a.b"]).prop_map(str::to_string)].boxed()
}
fn tname() -> BoxedStrategy<String> {
    select(vec!["t", "u", "b_t", "a_b_t", "pt", "b_pt"]).prop_map(str::to_string).boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (cname(), prop::collection::vec(prop_oneof![select(vec!["app-1.0", "lib>=2", "!x"]).prop_map(str::to_string), wild()], 0..3)).prop_map(|(n, r)| Op::Add(n, r)),
        1 => cname().prop_map(Op::Remove),
        10 => (cname(), tname(), tname()).prop_map(|(c, a, t)| Op::Alias(c, a, t)),
        2 => (cname(), tname()).prop_map(|(c, t)| Op::Hide(c, t)),
        2 => (cname(), prop::option::weighted(0.8, select(vec!["p", "b_", ""]).prop_map(str::to_string))).prop_map(|(c, p)| Op::Prefix(c, p)),
        3 => (cname(), -2i32..3).prop_map(|(c, p)| Op::Priority(c, p)),
        1 => (cname(), any::<bool>()).prop_map(|(c, d)| Op::Disable(c, d)),
        1 => prop::option::of(wild()).prop_map(Op::Describe),
        3 => (0u8..4).prop_map(Op::Mode),
        2 => Just(Op::Reload),
    ]
    .boxed()
}

/// most histories start with contexts to work on
fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    let start = || vec![Op::Add("a".into(), vec!["app-1.0".into()]), Op::Add("b".into(), vec!["lib>=2".into()]), Op::Add("a_b".into(), vec!["x".into()])];
    (0usize..4, prop::collection::vec(op(), 1..n)).prop_map(move |(k, v)| start().into_iter().take(k).chain(v).collect()).boxed()
}

pub fn c19(c: &mut Ctx) {
    c.rule("history: operations on one suite against a model, saved and loaded in between; cli: the same through rez-next suites; find: suites on search paths; non-trivial = some enabled context exposes a tool");
    c.check("history", 20_000, 400_000, || ops(25), |ops: &Vec<Op>| {
        let dir = tempfile::tempdir().unwrap();
        let mut s = Suite::new();
        let mut m = Model::default();
        let mut conflicts = false;
        for (n, o) in ops.iter().enumerate() {
            let err = |e: &dyn std::fmt::Display| format!("step {n} {o:?}: {e}");
            match o {
                Op::Add(k, r) => {
                    let ok = valid(k) && m.at(k).is_none();
                    if ok {
                        m.ctx.push(Ctxt { name: k.clone(), reqs: r.clone(), ..Default::default() });
                    }
                    same(&err(&"accepted"), s.add_context(k.clone(), r.clone()).is_ok(), ok)?;
                }
                Op::Remove(k) => {
                    let ok = m.at(k).is_some();
                    m.ctx.retain(|c| c.name != *k);
                    same(&err(&"accepted"), s.remove_context(k).is_ok(), ok)?;
                }
                Op::Alias(k, a, t) => {
                    let ok = m.at(k).map(|c| c.aliases.insert(a.clone(), t.clone())).is_some();
                    same(&err(&"accepted"), s.alias_tool(k, a.clone(), t.clone()).is_ok(), ok)?;
                }
                Op::Hide(k, t) => {
                    let ok = m.at(k).map(|c| if !c.hidden.contains(t) { c.hidden.push(t.clone()) }).is_some();
                    same(&err(&"accepted"), s.hide_tool(k, t).is_ok(), ok)?;
                }
                Op::Prefix(k, p) => {
                    if let (Some(a), Some(b)) = (m.at(k), s.get_context_mut(k)) {
                        a.prefix = p.clone();
                        b.prefix = p.clone();
                    }
                }
                Op::Priority(k, p) => {
                    if let (Some(a), Some(b)) = (m.at(k), s.get_context_mut(k)) {
                        a.priority = *p;
                        b.priority = *p;
                    }
                }
                Op::Disable(k, d) => {
                    if let (Some(a), Some(b)) = (m.at(k), s.get_context_mut(k)) {
                        a.disabled = *d;
                        b.disabled = *d;
                    }
                }
                Op::Describe(d) => {
                    m.desc = d.clone();
                    s.description = d.clone();
                }
                Op::Mode(x) => {
                    m.mode = *x;
                    s.conflict_mode = mode(*x);
                }
                Op::Reload => {
                    let p = dir.path().join("s");
                    s.save(&p).map_err(|e| err(&e))?;
                    s = Suite::load(&p).map_err(|e| err(&e))?;
                    same(&err(&"path"), s.path.clone(), Some(p))?;
                }
            }
            same(&err(&"suite"), see(&s), m.clone())?;
            same(&err(&"names"), s.context_names().into_iter().map(str::to_string).collect::<Vec<_>>(), m.ctx.iter().map(|c| c.name.clone()).collect())?;
            let want = m.tools();
            conflicts |= want.is_none();
            same(&err(&"tools"), see_tools(&s), want)?;
        }
        Ok(Info::new(m.tools().is_none_or(|t| !t.is_empty())).label(conflicts, "conflict-refused").label(m.mode == 3, "prefix-mode").label(m.ctx.iter().any(|c| c.priority != 0), "priority"))
    });
    c.check("cli", 120, 3_000, || (0u8..5, prop::option::of(select(vec!["plain text", "it's"]).prop_map(str::to_string)), (ops(12), any::<u32>()).prop_map(|(v, b)| v.into_iter().enumerate().map(|(i, o)| (o, b >> (i % 32) & 1 == 1)).collect::<Vec<_>>())), |(md, desc, ops): &(u8, Option<String>, Vec<(Op, bool)>)| {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("all/s");
        let ps = p.to_string_lossy().into_owned();
        let run = |a: &[&str]| cli(&std::iter::once("suites").chain(a.iter().copied()).map(str::to_string).collect::<Vec<_>>(), dir.path(), &[]);
        let modes = ["error", "first", "last", "prefix", "bogus"];
        let mut a = vec!["create", &ps, "--conflict-mode", modes[*md as usize]];
        if let Some(d) = desc {
            a.extend(["-d", d]);
        }
        let (code, out) = run(&a);
        if *md == 4 {
            if code == Some(0) || p.join("suite.yaml").exists() {
                return Err(format!("an unknown conflict mode was accepted: {out}"));
            }
            return Ok(Info::new(false));
        }
        same("create", code, Some(0))?;
        let mut m = Model { desc: desc.clone(), mode: *md, ..Default::default() };
        for (o, again) in ops {
            let (args, ok): (Vec<String>, bool) = match o {
                Op::Add(k, r) => {
                    let r: Vec<String> = r.iter().filter(|r| !r.starts_with('-') && !r.trim().is_empty() && !r.contains(char::is_control)).cloned().collect();
                    if r.is_empty() || k.is_empty() {
                        continue;
                    }
                    let ok = valid(k) && m.at(k).is_none();
                    let pri = k.len() as i32 * 3 % 5;
                    let pre = again.then(|| "p".to_string());
                    if ok {
                        m.ctx.push(Ctxt { name: k.clone(), reqs: r.clone(), prefix: pre.clone(), priority: pri, ..Default::default() });
                    }
                    let mut a = vec!["add-context".to_string(), format!("--priority={pri}")];
                    a.extend(pre.map(|p| format!("--prefix={p}")));
                    a.extend([ps.clone(), k.clone()]);
                    a.extend(r);
                    (a, ok)
                }
                Op::Remove(k) if !k.is_empty() => {
                    let ok = m.at(k).is_some();
                    m.ctx.retain(|c| c.name != *k);
                    (vec!["remove-context".into(), ps.clone(), k.clone()], ok)
                }
                Op::Alias(k, x, t) if !k.is_empty() => {
                    let ok = m.at(k).map(|c| c.aliases.insert(x.clone(), t.clone())).is_some();
                    (vec!["alias-tool".into(), ps.clone(), k.clone(), x.clone(), t.clone()], ok)
                }
                Op::Hide(k, t) if !k.is_empty() => {
                    let ok = m.at(k).map(|c| if !c.hidden.contains(t) { c.hidden.push(t.clone()) }).is_some();
                    (vec!["hide-tool".into(), ps.clone(), k.clone(), t.clone()], ok)
                }
                // what is there is not replaced
                Op::Describe(_) => (vec!["create".into(), ps.clone(), "-d".into(), "other".into()], false),
                _ => continue,
            };
            let (code, out) = run(&args.iter().map(String::as_str).collect::<Vec<_>>());
            same(&format!("{args:?} says {out}; success"), code == Some(0), ok)?;
            same(&format!("after {args:?}"), see(&Suite::load(&p).map_err(|e| e.to_string())?), m.clone())?;
        }
        let (code, out) = run(&["tools", &ps, "-v"]);
        match m.tools() {
            None => {
                if code == Some(0) {
                    return Err(format!("a conflict was not reported: {out}"));
                }
            }
            Some(t) => {
                same("tools", code, Some(0))?;
                let got: Vec<Vec<String>> = out.lines().skip(2).map(|l| l.split_whitespace().take(2).map(str::to_string).collect()).collect();
                same("listed tools", got, t.iter().map(|(k, v)| vec![k.clone(), v.1.clone()]).collect())?;
            }
        }
        let (_, out) = run(&["list", "--paths", &dir.path().join("all").to_string_lossy()]);
        let (_, out2) = run(&["--paths", &dir.path().join("all").to_string_lossy()]);
        if !out.lines().any(|l| l == "s") && !out2.lines().any(|l| l == "s") {
            return Err(format!("the suite is not listed: {out}{out2}"));
        }
        Ok(Info::new(!m.ctx.is_empty()).label(m.tools().is_none(), "conflict").label(m.ctx.iter().any(|c| !c.aliases.is_empty()), "aliases"))
    });
    c.check("find", 1_000, 20_000, || (prop::collection::vec((0usize..3, select(vec!["s1", "s2", "x", ".h"]).prop_map(str::to_string), 0u8..4), 0..8), prop::collection::vec(0usize..4, 0..4), 0usize..2000), |(made, paths, cut): &(Vec<(usize, String, u8)>, Vec<usize>, usize)| {
        let dir = tempfile::tempdir().unwrap();
        let mut have: BTreeMap<(usize, String), String> = BTreeMap::new();
        for (r, n, kind) in made {
            let d = dir.path().join(format!("r{r}"));
            let p = d.join(n);
            if p.exists() {
                continue;
            }
            match kind {
                0 => std::fs::create_dir_all(&p).unwrap(),
                1 => {
                    std::fs::create_dir_all(&d).unwrap();
                    std::fs::write(&p, "contexts: []").unwrap();
                }
                _ => {
                    let mut s = Suite::new().with_description(format!("{r}/{n}"));
                    s.add_context("c", vec![n.clone()]).unwrap();
                    s.save(&p).unwrap();
                    have.insert((*r, n.clone()), format!("{r}/{n}"));
                }
            }
        }
        let m = SuiteManager::with_paths(paths.iter().map(|r| dir.path().join(format!("r{r}"))).collect());
        let mut want: Vec<_> = paths.iter().flat_map(|r| have.keys().filter(|k| k.0 == *r).map(|k| dir.path().join(format!("r{}", k.0)).join(&k.1)).collect::<Vec<_>>()).collect();
        let mut got = m.find_suites();
        want.sort();
        got.sort();
        same("suites found", got, want)?;
        for n in ["s1", "s2", "x", ".h", "none"] {
            let want = paths.iter().find_map(|r| have.get(&(*r, n.to_string())).cloned());
            same(&format!("suite {n}"), m.load_suite(n).ok().and_then(|s| s.description), want)?;
        }
        // what a suite file leaves out has its default
        if let Some((r, n)) = have.keys().next_back() {
            let d = dir.path().join(format!("r{r}")).join(n);
            let f = d.join("suite.yaml");
            let t = std::fs::read_to_string(&f).unwrap();
            let short: String = t.lines().filter(|l| !["conflict_mode:", "description:"].iter().any(|k| l.starts_with(k))).map(|l| format!("{l}\n")).collect();
            std::fs::write(&f, short).unwrap();
            let got = see(&Suite::load(&d).map_err(|e| format!("a suite file without optional fields is refused: {e}"))?);
            same("suite without optional fields", got, Model { ctx: vec![Ctxt { name: "c".into(), reqs: vec![n.clone()], ..Default::default() }], ..Default::default() })?;
            std::fs::write(&f, t).unwrap();
        }
        // a damaged suite file is refused, not read as another suite
        if let Some((r, n)) = have.keys().next() {
            let f = dir.path().join(format!("r{r}")).join(n).join("suite.yaml");
            let t = std::fs::read_to_string(&f).unwrap();
            let bad = match cut % 3 {
                0 => t.replace("conflict_mode: error", "conflict_mode: bogus"),
                1 => t.replace("contexts:", "contexts: 5\nother:"),
                _ => String::new(),
            };
            std::fs::write(&f, bad).unwrap();
            if Suite::load(f.parent().unwrap()).is_ok() {
                return Err("a damaged suite was accepted".into());
            }
        }
        Ok(Info::new(!have.is_empty()).label(paths.len() > 1, "several-paths"))
    });
}
