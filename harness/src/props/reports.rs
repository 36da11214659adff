//! C24: what view, diff, status and complete report.
use super::envs::{same, wild};
use super::finding::{put, visible, world, Pk, World, NAMES, VERS};
use super::fsops::cli;
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    w: World,
    repos: u8,
    via_env: bool,
    a: usize,
    va: Option<usize>,
    b: Option<(usize, Option<usize>)>,
    json: bool,
    kind: u8,
    prefix: String,
    cut: usize,
}
fn case() -> BoxedStrategy<Case> {
    (
        world(),
        0u8..3,
        any::<bool>(),
        0usize..NAMES.len(),
        prop::option::of(0usize..VERS.len()),
        prop::option::of((0usize..NAMES.len(), prop::option::of(0usize..VERS.len()))),
        any::<bool>(),
        0u8..4,
        select(vec!["", "p", "py", "PY", "my_", "python-", "t", "é", "p€", "€", "€€"]).prop_map(str::to_string),
        0usize..30,
    )
        .prop_map(|(mut w, repos, via_env, a, va, b, json, kind, prefix, cut)| {
            // versions whose variants differ in their order only
            for i in 1..w.len() {
                if let Some(j) = (0..i).find(|&j| cut % 3 == 0 && w[j].name == w[i].name && !w[j].variants.is_empty()) {
                    w[i].variants = w[j].variants.iter().map(|v| v.iter().rev().cloned().collect()).collect();
                }
            }
            // name something that is there, most of the time
            let at = |n: usize, v: Option<usize>| match w.get((n * 7 + v.unwrap_or(0)) % w.len().max(1)) {
                Some(p) if n % 4 != 3 => (p.name, v.and(p.ver)),
                _ => (n, v),
            };
            let (a, va) = at(a, va);
            let b = b.map(|(n, v)| at(n, v));
            Case { w, repos, via_env, a, va, b, json, kind, prefix, cut }
        })
        .boxed()
}
/// versions with '-' cannot be told from names on these command lines
fn writable(v: Option<usize>) -> bool {
    v.is_none_or(|v| !VERS[v].contains('-'))
}
fn pick<'a>(l: &'a [Pk], name: usize, ver: Option<usize>) -> Option<&'a Pk> {
    l.iter().filter(|p| p.name == name).find(|p| ver.is_none() || p.ver == ver)
}
fn spec(n: usize, v: Option<usize>) -> String {
    format!("{}{}", NAMES[n], v.map(|v| format!("-{}", VERS[v])).unwrap_or_default())
}
/// fields a view shows
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shown {
    version: Option<String>,
    texts: BTreeMap<String, String>,
    lists: BTreeMap<String, Vec<String>>,
    variants: Vec<Vec<String>>,
    tests: BTreeMap<String, String>,
    py: bool,
    all: bool,
    brief: bool,
}
fn shown() -> BoxedStrategy<Shown> {
    let text = || prop_oneof![3 => wild(), 1 => select(vec!["yes", "1.0", "null", "a: b", "# c", "- x", "!tag", "~", "[a", "{", "two\nlines", "  lead", "end\n", "0x10", "2024-01-01", ".inf"]).prop_map(str::to_string)];
    let req = || select(vec!["python-3", "python>=3,<4", "!maya", "~nuke-13", "py|x", "foo==1.0", "a-1.10"]).prop_map(str::to_string);
    (
        prop::option::of(select(vec!["1", "1.10", "3.11.0", "2.0.beta", "1e5", "0x1"]).prop_map(str::to_string)),
        prop::collection::btree_map(select(vec!["description", "build_command", "uuid"]).prop_map(str::to_string), text(), 0..3),
        prop::collection::btree_map(select(vec!["authors", "tools"]).prop_map(str::to_string), prop::collection::vec(text().prop_filter("not empty", |t| !t.trim().is_empty()), 1..3), 0..3),
        prop::collection::vec(req(), 0..3),
        prop::collection::vec(prop::collection::vec(req(), 1..3), 0..3),
        prop::collection::btree_map(select(vec!["unit", "lint", "x y"]).prop_map(str::to_string), text(), 0..3),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(version, texts, mut lists, requires, variants, tests, py, all, brief)| {
            if !requires.is_empty() {
                lists.insert("requires".into(), requires);
            }
            Shown { version, texts, lists, variants, tests, py, all, brief }
        })
        .boxed()
}
/// a Python literal
fn lit(v: &Value) -> String {
    v.to_string()
}

pub fn c24(c: &mut Ctx) {
    c.hang_secs = 120;
    c.rule("generated repositories with several versions of a family in two places; non-trivial = the report is about at least two packages, or a view of at least three fields");
    c.assume("family names without '-' followed by a digit");

    c.check("view", 1_500, 30_000, shown, |s: &Shown| {
        let t = tempfile::tempdir().unwrap();
        let d = t.path().join("pkg");
        std::fs::create_dir(&d).unwrap();
        let mut want: Map<String, Value> = Map::new();
        want.insert("name".into(), json!("shown"));
        if let Some(v) = &s.version {
            want.insert("version".into(), json!(v));
        }
        for (k, v) in &s.texts {
            want.insert(k.clone(), json!(v));
        }
        for (k, v) in &s.lists {
            want.insert(k.clone(), json!(v));
        }
        if !s.variants.is_empty() {
            want.insert("variants".into(), json!(s.variants));
        }
        let mut text: String = want.iter().map(|(k, v)| format!("{k} = {}\n", lit(v))).collect();
        if !s.tests.is_empty() {
            text += &format!("tests = {}\n", lit(&json!(s.tests)));
            if s.all {
                want.insert("tests".into(), json!(s.tests));
            }
        }
        std::fs::write(d.join("package.py"), &text).unwrap();
        let mut a: Vec<String> = vec!["view".into(), "--format".into(), if s.py { "py" } else { "yaml" }.into()];
        for (on, f) in [(s.all, "--all"), (s.brief, "--brief")] {
            if on {
                a.push(f.into());
            }
        }
        a.push("pkg".into());
        let (rc, out) = cli(&a, t.path(), &[]);
        if rc != Some(0) {
            return Err(format!("{a:?} fails with {rc:?}: {out}\n{text}"));
        }
        if s.brief && out.lines().next().is_some_and(|l| l.starts_with('#')) {
            return Err(format!("a brief view begins with a comment: {out}"));
        }
        let mut got: Map<String, Value> = if s.py {
            let f = t.path().join("view.py");
            std::fs::write(&f, &out).unwrap();
            let o = std::process::Command::new("python3").args(["-c", "import json,sys\ng={}\nexec(compile(open(sys.argv[1],newline='').read(),'v','exec'),g)\ndel g['__builtins__']\nprint(json.dumps(g))"]).arg(&f).output().unwrap();
            serde_json::from_slice(&o.stdout).map_err(|e| format!("what {a:?} prints is not Python ({e}): {out}\n{}", String::from_utf8_lossy(&o.stderr)))?
        } else {
            serde_yaml::from_str(&out).map_err(|e| format!("what {a:?} prints is not YAML ({e}): {out}"))?
        };
        got.remove("commands");
        same(&format!("{a:?}, which prints\n{out}"), got, want.clone())?;
        Ok(Info::new(want.len() >= 3).label(s.py, "Python").label(s.all, "all").label(!s.variants.is_empty(), "variants"))
    });

    c.check("reports", 3_000, 40_000, case, |c: &Case| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(&c.w, t.path());
        let order: Vec<usize> = match c.repos {
            0 => vec![0, 1],
            1 => vec![1, 0],
            _ => vec![0],
        };
        let l = visible(&c.w, &order);
        let paths: Vec<String> = order.iter().map(|i| roots[*i].to_string_lossy().into_owned()).collect();
        let joined = paths.join(":");
        let mut env: Vec<(&str, &str)> = vec![];
        let mut opts: Vec<String> = vec![];
        if c.via_env {
            env.push(("REZ_PACKAGES_PATH", &joined));
        } else {
            for p in &paths {
                opts.extend(["--paths".into(), p.clone()]);
            }
        }
        let names: BTreeSet<&str> = l.iter().map(|p| p.name()).collect();
        match c.kind {
            0 => {
                if !writable(c.va) || c.b.is_some_and(|b| !writable(b.1)) {
                    return Ok(Info::new(false));
                }
                let mut a = vec!["diff".to_string()];
                a.extend(opts);
                a.push(format!("--format={}", if c.json { "json" } else { "text" }));
                a.push(spec(c.a, c.va));
                let one = pick(&l, c.a, c.va);
                let two = match c.b {
                    Some((n, v)) => {
                        a.push(spec(n, v));
                        pick(&l, n, v)
                    }
                    None => one.and_then(|p| l.iter().find(|q| q.name == p.name && q.v().zip(p.v()).is_some_and(|(x, y)| x.cmp(&y).is_lt()))),
                };
                let (rc, out) = cli(&a, t.path(), &env);
                let (Some(p), Some(q)) = (one, two) else {
                    if rc == Some(0) {
                        return Err(format!("{a:?} succeeds although there is nothing to compare: {out}"));
                    }
                    return Ok(Info::new(false).label(true, "nothing to compare"));
                };
                if rc != Some(0) {
                    return Err(format!("{a:?} fails with {rc:?}: {out}"));
                }
                let set = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
                let gone: Vec<String> = set(&p.requires).difference(&set(&q.requires)).cloned().collect();
                let new: Vec<String> = set(&q.requires).difference(&set(&p.requires)).cloned().collect();
                let ver = |p: &Pk| p.vtext().unwrap_or("unknown").to_string();
                let info = Info::new(true).label(c.b.is_none(), "previous version").label(!gone.is_empty() || !new.is_empty(), "requirements differ");
                if !c.json {
                    let head = format!("Package Diff: {}-{} vs {}-{}", p.name(), ver(p), q.name(), ver(q));
                    same(&format!("{a:?}"), out.lines().next().unwrap_or_default().to_string(), head)?;
                    let part = out.split("Requirements Changes:").nth(1).unwrap_or("").split("Variants Changes:").next().unwrap();
                    let lines = |s: &str| part.lines().filter_map(|l| l.strip_prefix(s)).map(str::to_string).collect::<Vec<_>>();
                    same(&format!("added, {a:?}"), lines("  + "), new.clone())?;
                    same(&format!("removed, {a:?}"), lines("  - "), gone.clone())?;
                    let equal = p.requires == q.requires && set(&p.requires) == set(&q.requires) && p.desc == q.desc && p.tools == q.tools && p.variants == q.variants;
                    if equal != out.contains("No differences found") && (equal || set(&p.requires) != set(&q.requires)) {
                        return Err(format!("{a:?}: {out}"));
                    }
                    return Ok(info);
                }
                let v: Value = serde_json::from_str(&out).map_err(|e| format!("{a:?}: not JSON ({e}): {out}"))?;
                let d = &v["differences"];
                same("packages", json!([v["pkg1_name"], v["pkg1_version"], v["pkg2_name"], v["pkg2_version"]]), json!([p.name(), ver(p), q.name(), ver(q)]))?;
                let sorted = |x: &Value| {
                    let mut l: Vec<String> = x.as_array().map(|l| l.iter().map(|s| s.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                    l.sort();
                    l
                };
                same("added", sorted(&d["requirements_changes"]["added"]), new)?;
                same("removed", sorted(&d["requirements_changes"]["removed"]), gone)?;
                same("variants", d["variants_changes"]["count_change"].clone(), json!([p.variants.len(), q.variants.len()]))?;
                let vs = |p: &Pk| p.variants.iter().cloned().collect::<BTreeSet<_>>();
                same("variants added", sorted(&d["variants_changes"]["added"]).len(), vs(q).difference(&vs(p)).count())?;
                same("variants removed", sorted(&d["variants_changes"]["removed"]).len(), vs(p).difference(&vs(q)).count())?;
                same("description", d["metadata_changes"]["description"].clone(), if p.desc == q.desc { Value::Null } else { json!([p.desc, q.desc]) })?;
                Ok(info.label(true, "JSON"))
            }
            1 => {
                let mut a = vec!["status".to_string()];
                a.extend(opts);
                if c.json {
                    a.push("--families".into());
                    let (rc, out) = cli(&a, t.path(), &env);
                    if rc != Some(0) {
                        return Err(format!("{a:?} fails with {rc:?}: {out}"));
                    }
                    let got: Vec<Vec<String>> = out.lines().skip_while(|l| !l.starts_with("------")).skip(1).take_while(|l| !l.is_empty()).map(|l| l.split_whitespace().map(str::to_string).collect()).collect();
                    let want: Vec<Vec<String>> = names
                        .iter()
                        .map(|n| {
                            let f: Vec<&Pk> = l.iter().filter(|p| p.name() == *n).collect();
                            vec![n.to_string(), f.len().to_string(), f[0].vtext().unwrap_or("unknown").to_string(), f.iter().map(|p| p.variants.len().max(1)).sum::<usize>().to_string()]
                        })
                        .collect();
                    same(&format!("{a:?}"), got, want)?;
                    return Ok(Info::new(names.len() > 1).label(true, "families"));
                }
                let (rc, out) = cli(&a, t.path(), &env);
                if rc != Some(0) {
                    return Err(format!("{a:?} fails with {rc:?}: {out}"));
                }
                let num = |k: &str| out.lines().find_map(|l| l.trim().strip_prefix(k)?.trim().parse::<usize>().ok());
                same(&format!("{a:?}"), [num("Total packages:"), num("Package families:"), num("Total variants:")], [Some(l.len()), Some(names.len()), Some(l.iter().map(|p| p.variants.len().max(1)).sum())])?;
                Ok(Info::new(l.len() > 1).label(true, "overview"))
            }
            2 => {
                let via_env = c.json;
                let mut a = vec![if via_env { "view" } else { "status" }.to_string()];
                let (name, ver) = (c.a, c.va);
                if via_env {
                    if !writable(ver) {
                        return Ok(Info::new(false));
                    }
                    a.extend(["--brief".into(), spec(name, ver)]);
                    let (rc, out) = cli(&a, t.path(), &[("REZ_PACKAGES_PATH", &joined)]);
                    let Some(p) = pick(&l, name, ver) else {
                        if rc == Some(0) {
                            return Err(format!("{a:?} shows a package that is not there: {out}"));
                        }
                        return Ok(Info::new(false));
                    };
                    if rc != Some(0) {
                        return Err(format!("{a:?} fails with {rc:?}: {out}"));
                    }
                    let v: Map<String, Value> = serde_yaml::from_str(&out).map_err(|e| format!("{a:?}: not YAML ({e}): {out}"))?;
                    let list = |k: &str| v.get(k).cloned().unwrap_or(json!([]));
                    same(&format!("{a:?}"), json!([v["name"], v.get("version"), v.get("description"), list("requires"), list("tools"), list("variants")]), json!([p.name(), p.vtext(), p.desc, p.requires, p.tools, p.variants]))?;
                    return Ok(Info::new(l.iter().filter(|q| q.name == name).count() > 1).label(true, "view"));
                }
                a.extend(opts);
                a.push(NAMES[name].to_string());
                let (rc, out) = cli(&a, t.path(), &env);
                if rc != Some(0) {
                    return Err(format!("{a:?} fails with {rc:?}: {out}"));
                }
                let got: Vec<String> = out.lines().filter_map(|l| l.strip_prefix("Version ")?.split_once(": ").map(|x| x.1.to_string())).collect();
                let want: Vec<String> = l.iter().filter(|p| p.name == name).map(|p| p.vtext().unwrap_or("unknown").to_string()).collect();
                let n = want.len();
                same(&format!("{a:?}"), got, want)?;
                Ok(Info::new(n > 1).label(true, "versions"))
            }
            _ => {
                let env = [("REZ_PACKAGES_PATH", joined.as_str())];
                let mut a = vec!["complete".to_string()];
                let want: Vec<String>;
                let mut sorted = true;
                if c.json {
                    a.extend(["--complete-packages".into(), "--current".into(), c.prefix.clone()]);
                    want = names.iter().filter(|n| n.starts_with(&c.prefix)).map(|n| n.to_string()).collect();
                } else if c.via_env {
                    a.extend(["--complete-versions".into(), NAMES[c.a].into(), "--current".into(), c.prefix.clone()]);
                    want = l.iter().filter(|p| p.name == c.a).filter_map(|p| Some(format!("{}-{}", p.name(), p.vtext()?))).filter(|s| s.starts_with(&c.prefix)).collect();
                } else {
                    // the word the cursor is at the end of
                    let line = format!("rez {} {}rest", ["env", "solve", "x", "s"][c.a % 4], if c.cut % 2 == 0 { "" } else { "maya " });
                    let line = format!("{}{}", line.trim_end_matches("rest"), c.prefix);
                    let line = if c.va.is_some() { line.replace(' ', "\t") } else { line };
                    // anywhere, or near the end
                    let point = if c.cut >= 20 { (line.len() + 2).saturating_sub((c.cut - 20) % 5) } else { c.cut.min(line.len() + 3) };
                    a.extend(["--dynamic".into(), "--comp-line".into(), line.clone(), "--comp-point".into(), point.to_string()]);
                    let mut end = point.min(line.len());
                    while !line.is_char_boundary(end) {
                        end -= 1;
                    }
                    let left = &line[..end];
                    let mut words: Vec<&str> = left.split([' ', '\t']).collect();
                    let last = words.pop().unwrap();
                    words.retain(|w| !w.is_empty());
                    if words.len() < 2 {
                        // sub-commands: judged by what must and must not be there
                        let (rc, out) = cli(&a, t.path(), &env);
                        if rc != Some(0) || out.lines().any(|l| !l.starts_with(last)) || ["env", "solve", "search", "view"].iter().any(|w| w.starts_with(last) && !out.lines().any(|l| l == *w)) {
                            return Err(format!("{a:?}: {rc:?} {out}"));
                        }
                        return Ok(Info::new(false).label(true, "sub-command"));
                    }
                    want = if ["env", "solve"].contains(&words[1]) { names.iter().filter(|n| n.starts_with(last)).map(|n| n.to_string()).collect() } else { vec![] };
                    sorted = true;
                }
                let (rc, out) = cli(&a, t.path(), &env);
                if rc != Some(0) {
                    return Err(format!("{a:?} fails with {rc:?}: {out}"));
                }
                let mut got: Vec<String> = out.lines().map(str::to_string).collect();
                if !sorted {
                    got.sort();
                }
                let n = want.len();
                same(&format!("{a:?}"), got, want)?;
                Ok(Info::new(n > 1).label(true, "complete"))
            }
        }
    });
}
