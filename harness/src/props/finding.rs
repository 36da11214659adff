//! C22: searches and reverse dependencies.
use super::envs::same;
use super::fsops::cli;
use super::version::{range, Rng};
use crate::core::*;
use crate::refv::RV;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_repository::package_search::{get_plugins, get_reverse_dependency_tree};
use rez_next_search::{FilterMode, PackageSearcher, SearchFilter, SearchOptions, SearchScope};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

pub const NAMES: [&str; 7] = ["py", "python", "my_python", "PyTool", "maya", "py3", "t"];
pub const VERS: [&str; 9] = ["1.0", "1.2", "1.10", "2", "10", "9", "1.0.b", "1.0-a", "2.0.1"];
pub const TIMES: [i64; 5] = [0, 86_400, 1_704_067_200, 1_704_067_201, 1_735_689_600];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pk {
    pub repo: usize,
    pub name: usize,
    pub ver: Option<usize>,
    pub requires: Vec<String>,
    pub variants: Vec<Vec<String>>,
    pub build: Vec<String>,
    pub private: Vec<String>,
    pub plugin_for: Vec<usize>,
    pub tools: Vec<String>,
    pub desc: Option<String>,
    pub time: Option<i64>,
    pub hidden: bool,
}
fn req() -> BoxedStrategy<String> {
    (select(vec!["", "", "", "", "", "", "", "", "!", "~"]), prop_oneof![2 => 0usize..3, 1 => 0usize..NAMES.len()], select(vec!["", "", "-1.2", "-1+", "==2", ">=1.0,<2", "-1..2"])).prop_map(|(s, n, v)| format!("{s}{}{v}", NAMES[n])).boxed()
}
fn pk() -> BoxedStrategy<Pk> {
    let reqs = || prop::collection::vec(req(), 0..3);
    (
        (0usize..2, 0usize..NAMES.len(), prop::option::weighted(0.93, 0usize..VERS.len())),
        reqs(),
        prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(prop::collection::vec(req(), 0..3), 1..3)],
        prop_oneof![3 => Just(vec![]), 1 => reqs()],
        prop_oneof![3 => Just(vec![]), 1 => reqs()],
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0usize..NAMES.len(), 1..3)],
        prop::collection::vec(select(vec!["pytool", "maya", "T2", "x.y"]).prop_map(str::to_string), 0..3),
        prop::option::of(select(vec!["", "The Python tool", "a maya plugin", "héllo wörld, a Déscription long enough to cut ünder any width", "x.y and \\d"]).prop_map(str::to_string)),
        prop::option::weighted(0.7, select(TIMES.to_vec())),
        prop::bool::weighted(0.08),
    )
        .prop_map(|((repo, name, ver), requires, variants, build, private, plugin_for, tools, desc, time, hidden)| Pk { repo, name, ver, requires, variants, build, private, plugin_for, tools, desc, time, hidden })
        .boxed()
}
pub type World = Vec<Pk>;
/// one package per directory, and a family without a version has nothing below it
fn tidy(w: World) -> World {
    let mut out: World = vec![];
    for p in w {
        if !out.iter().any(|q| q.repo == p.repo && q.name == p.name && (q.ver == p.ver || q.ver.is_none() || p.ver.is_none())) {
            out.push(p);
        }
    }
    out
}
pub fn world() -> BoxedStrategy<World> {
    prop_oneof![4 => prop::collection::vec(pk(), 3..12), 1 => prop::collection::vec(pk(), 0..2), 5 => prop::collection::vec(pk(), 10..24)].prop_map(tidy).boxed()
}
pub fn put(w: &World, dir: &Path) -> Vec<PathBuf> {
    let roots = vec![dir.join("r0"), dir.join("r1")];
    for r in &roots {
        std::fs::create_dir_all(r).unwrap();
    }
    let j = |v: &[String]| serde_json::to_string(v).unwrap();
    for p in w {
        let fam = roots[p.repo].join(NAMES[p.name]);
        let d = p.ver.map(|v| fam.join(VERS[v])).unwrap_or(fam.clone());
        std::fs::create_dir_all(&d).unwrap();
        let mut t = format!("name = '{}'\n", NAMES[p.name]);
        if let Some(v) = p.ver {
            t += &format!("version = '{}'\n", VERS[v]);
        }
        for (k, v) in [("requires", &p.requires), ("build_requires", &p.build), ("private_build_requires", &p.private), ("tools", &p.tools)] {
            if !v.is_empty() {
                t += &format!("{k} = {}\n", j(v));
            }
        }
        if !p.variants.is_empty() {
            t += &format!("variants = {}\n", serde_json::to_string(&p.variants).unwrap());
        }
        if !p.plugin_for.is_empty() {
            t += &format!("plugin_for = {}\n", j(&p.plugin_for.iter().map(|n| NAMES[*n].to_string()).collect::<Vec<_>>()));
        }
        if let Some(d) = &p.desc {
            t += &format!("description = {}\n", serde_json::to_string(d).unwrap());
        }
        if let Some(d) = p.time {
            t += &format!("timestamp = {d}\n");
        }
        std::fs::write(d.join("package.py"), t).unwrap();
        if p.hidden {
            let name = d.file_name().unwrap().to_string_lossy().into_owned();
            std::fs::write(d.parent().unwrap().join(format!(".ignore{name}")), "").unwrap();
        }
    }
    roots
}
impl Pk {
    pub fn v(&self) -> Option<RV> {
        self.ver.map(|v| RV::of(VERS[v]))
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.name]
    }
    pub fn vtext(&self) -> Option<&'static str> {
        self.ver.map(|v| VERS[v])
    }
}
/// newest first, without a version last
fn newer(a: &Pk, b: &Pk) -> std::cmp::Ordering {
    match (a.v(), b.v()) {
        (Some(x), Some(y)) => y.cmp(&x),
        (Some(_), None) => std::cmp::Ordering::Less,
        (None, Some(_)) => std::cmp::Ordering::Greater,
        _ => std::cmp::Ordering::Equal,
    }
}
/// visible packages of the repositories given, by name, newest first, then by repository order
pub fn visible(w: &World, repos: &[usize]) -> Vec<Pk> {
    let mut v: Vec<(usize, &Pk)> = w.iter().filter(|p| !p.hidden).filter_map(|p| repos.iter().position(|r| *r == p.repo).map(|i| (i, p))).collect();
    v.sort_by(|a, b| a.1.name().cmp(b.1.name()).then(newer(a.1, b.1)).then(a.0.cmp(&b.0)));
    v.into_iter().map(|x| x.1.clone()).collect()
}
fn latest(w: &World, repos: &[usize]) -> BTreeMap<&'static str, Pk> {
    let mut m = BTreeMap::new();
    for p in visible(w, repos) {
        m.entry(p.name()).or_insert(p);
    }
    m
}
fn needs(p: &Pk, build: bool, private: bool) -> BTreeSet<String> {
    let mut all: Vec<&String> = p.requires.iter().chain(p.variants.iter().flatten()).collect();
    if build {
        all.extend(&p.build);
    }
    if private {
        all.extend(&p.private);
    }
    all.iter()
        .filter(|r| !r.starts_with('!') && !r.starts_with('~'))
        .map(|r| r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
        .collect()
}
/// layers and edges (needed, needing)
fn tree(w: &World, repos: &[usize], root: &str, depth: Option<usize>, build: bool, private: bool) -> (Vec<BTreeSet<String>>, BTreeSet<(String, String)>) {
    let l = latest(w, repos);
    let mut layers = vec![BTreeSet::from([root.to_string()])];
    let mut edges = BTreeSet::new();
    let mut seen = layers[0].clone();
    while depth.is_none_or(|d| layers.len() <= d) {
        let mut next = BTreeSet::new();
        for cur in layers.last().unwrap() {
            for (n, p) in &l {
                if needs(p, build, private).contains(cur) {
                    edges.insert((cur.clone(), n.to_string()));
                    if seen.insert(n.to_string()) {
                        next.insert(n.to_string());
                    }
                }
            }
        }
        if next.is_empty() {
            break;
        }
        layers.push(next);
    }
    (layers, edges)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dep {
    w: World,
    root: String,
    depth: Option<usize>,
    build: bool,
    private: bool,
    quiet: bool,
    repos: u8,
    via: u8,
}
fn root() -> BoxedStrategy<String> {
    prop_oneof![12 => (0..3usize).prop_map(|i| NAMES[i].to_string()), 5 => (0..NAMES.len()).prop_map(|i| NAMES[i].to_string()), 1 => Just("absent".to_string())].boxed()
}
fn repos(k: u8) -> Vec<usize> {
    [vec![0, 1], vec![1, 0], vec![0]][k as usize % 3].clone()
}
fn deps() -> BoxedStrategy<Dep> {
    (world(), root(), prop::option::weighted(0.4, 0usize..4), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..3, 0u8..4).prop_map(|(w, root, depth, build, private, quiet, repos, via)| Dep { w, root, depth, build, private, quiet, repos, via }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query {
    w: World,
    q: String,
    regex: bool,
    case: bool,
    fields: u8,
    latest: bool,
    limit: Option<usize>,
    sort: Option<String>,
    newer: Option<String>,
    older: Option<String>,
    kind: Option<String>,
    variant: Option<String>,
    repos: u8,
    env: bool,
    table: bool,
}
fn date() -> BoxedStrategy<String> {
    prop_oneof![12 => select(vec!["2024-01-01", "2024-01-01T00:00:00", "2024-01-01T00:00:01", "2025-01-01", "1970-01-02", "1w", "1d"]), 1 => select(vec!["soon", "2024-13-01", "1é", "é", "99999999999999999y", ""])].prop_map(str::to_string).boxed()
}
fn query() -> BoxedStrategy<Query> {
    let plain = select(vec!["", "", "py", "PY", "Py", "y", "Python", "t", "maya", "x.y", "The", "-1", "\\d", "!", "é", "É"]);
    let re = select(vec!["^py", "^Py.*", "y|t", "^PY.*n$", "\\D\\d$", "\\S{6}", "[A-Z]", "x\\.y", ".", "t$", "(", "é.*Ü", "\\bmaya\\b", "^$"]);
    (
        world(),
        prop_oneof![(Just(false), plain), (Just(true), re)],
        (any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 0u8..8]),
        (prop::bool::weighted(0.3), prop::option::weighted(0.2, 0usize..4)),
        prop::option::weighted(0.6, select(vec!["name", "version", "date", "score"]).prop_map(str::to_string)),
        (prop::option::weighted(0.12, date()), prop::option::weighted(0.12, date())),
        prop_oneof![4 => Just((None, None)), 2 => Just((Some("family".to_string()), None)), 1 => (prop::option::of(select(vec!["variant", "package"]).prop_map(str::to_string)), prop::option::weighted(0.7, select(vec!["py", "MAYA-1.2", "~", "t"]).prop_map(str::to_string)))],
        (0u8..3, any::<bool>(), prop::bool::weighted(0.2)),
    )
        .prop_map(|(w, (regex, q), (case, fields), (latest, limit), sort, (newer, older), (kind, variant), (repos, env, table))| Query { w, q: q.to_string(), regex, case, fields, latest, limit, sort, newer, older, kind, variant, repos, env, table })
        .boxed()
}
/// Some(None): not a date; relative ones are measured from now, far from every timestamp used
fn moment(d: &Option<String>) -> Option<Option<i64>> {
    d.as_ref().map(|d| match d.as_str() {
        "2024-01-01" | "2024-01-01T00:00:00" => Some(1_704_067_200),
        "2024-01-01T00:00:01" => Some(1_704_067_201),
        "2025-01-01" => Some(1_735_689_600),
        "1970-01-02" => Some(86_400),
        "1w" | "1d" => Some(1_750_000_000),
        _ => None,
    })
}
type Row = (String, Option<String>, f64, Vec<String>);
fn search(q: &Query) -> Result<Vec<(Pk, Row)>, ()> {
    let re = if q.regex { Some(regex::RegexBuilder::new(&q.q).case_insensitive(!q.case).build().map_err(|_| ())?) } else { None };
    let (newer_than, older_than) = (moment(&q.newer), moment(&q.older));
    if newer_than == Some(None) || older_than == Some(None) {
        return Err(());
    }
    let fold = |t: &str| if q.case { t.to_string() } else { t.to_lowercase() };
    let hit = |t: &str| match &re {
        Some(r) => r.is_match(t),
        None => fold(t).contains(&fold(&q.q)),
    };
    let mut out: Vec<(Pk, Row)> = vec![];
    for p in visible(&q.w, &repos(q.repos)) {
        let t = p.time.unwrap_or(0);
        if newer_than.flatten().is_some_and(|n| t <= n) || older_than.flatten().is_some_and(|o| t >= o) {
            continue;
        }
        if q.kind.as_deref() == Some("variant") && p.variants.is_empty() {
            continue;
        }
        if let Some(v) = &q.variant {
            if !p.variants.iter().flatten().any(|r| r.to_lowercase().contains(&v.to_lowercase())) {
                continue;
            }
        }
        let (mut score, mut fields) = (0.0, vec![]);
        let mut add = |on: bool, s: f64, f: &str| {
            if on {
                score += s;
                fields.push(f.to_string());
            }
        };
        let n = p.name();
        add(hit(n), if q.regex || fold(n) == fold(&q.q) { 10.0 } else { 5.0 }, "name");
        let (d, tl, rq) = (p.desc.as_ref().is_some_and(|d| hit(d)), p.tools.iter().any(|t| hit(t)), p.requires.iter().any(|t| hit(t)));
        if q.fields == 0 {
            add(d, 2.0, "description");
            add(tl, 1.0, "tools");
        } else {
            add(q.fields & 1 != 0 && d, 3.0, "description");
            add(q.fields & 2 != 0 && tl, 2.0, "tools");
            add(q.fields & 4 != 0 && rq, 1.0, "requirements");
        }
        if score > 0.0 {
            let row = (n.to_string(), p.vtext().map(str::to_string), score, fields);
            out.push((p, row));
        }
    }
    let best = |v: Vec<(Pk, Row)>, better: &dyn Fn(&(Pk, Row), &(Pk, Row)) -> bool| {
        let mut kept: Vec<(Pk, Row)> = vec![];
        for r in v {
            match kept.iter_mut().find(|k| k.0.name == r.0.name) {
                Some(k) => {
                    if better(&r, k) {
                        *k = r
                    }
                }
                None => kept.push(r),
            }
        }
        kept
    };
    if q.kind.as_deref() == Some("family") {
        out = best(out, &|a, b| a.1 .2 > b.1 .2);
    }
    if q.latest {
        out = best(out, &|a, b| newer(&a.0, &b.0).is_lt());
    }
    match q.sort.as_deref() {
        Some("version") => out.sort_by(|a, b| newer(&a.0, &b.0)),
        Some("date") => out.sort_by_key(|r| -r.0.time.unwrap_or(0)),
        Some("score") => out.sort_by(|a, b| b.1 .2.total_cmp(&a.1 .2)),
        _ => {}
    }
    out.truncate(q.limit.unwrap_or(50));
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lib {
    w: World,
    q: String,
    mode: u8,
    scope: u8,
    range: Option<Rng>,
    limit: usize,
    repos: u8,
}
fn lib() -> BoxedStrategy<Lib> {
    (world(), select(vec!["", "py", "PY", "Python", "t", "maya", "^py", "[A-Z]", "n$", "x"]), 0u8..4, 0u8..3, prop::option::weighted(0.4, range()), prop_oneof![2 => Just(0usize), 1 => 1usize..4], 0u8..3)
        .prop_map(|(w, q, mode, scope, range, limit, repos)| Lib { w, q: q.to_string(), mode, scope, range, limit, repos })
        .boxed()
}

pub fn c22(c: &mut Ctx) {
    c.rule("search: two generated repositories and a query with its options, run through `rez-next search --format json` (and table) against a model of which packages match, their score, order, and the limit; library: PackageSearcher the same way; depends: `rez-next depends` (layers, quiet, graph) and get_reverse_dependency_tree / get_plugins against a model over the latest visible version of each family; non-trivial = at least two packages reported, or an edge at depth two");
    c.assume("family names are directory names; no broken package definitions in the repositories searched");

    c.check("search", 3_000, 60_000, query, |q: &Query| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(&q.w, t.path());
        let order: Vec<String> = repos(q.repos).iter().map(|i| roots[*i].to_string_lossy().into_owned()).collect();
        let mut a = vec!["search".to_string()];
        let joined = order.join(":");
        let mut env = vec![];
        if q.env {
            env.push(("REZ_PACKAGES_PATH", joined.as_str()));
        } else {
            for r in &order {
                a.extend(["-r".to_string(), r.clone()]);
            }
        }
        for (on, f) in [(q.regex, "--regex"), (q.case, "--case-sensitive"), (q.fields & 1 != 0, "--description"), (q.fields & 2 != 0, "--tools"), (q.fields & 4 != 0, "--requirements"), (q.latest, "--latest-only")] {
            if on {
                a.push(f.to_string());
            }
        }
        for (k, v) in [("--limit", &q.limit.map(|l| l.to_string())), ("--sort", &q.sort), ("--newer-than", &q.newer), ("--older-than", &q.older), ("--type", &q.kind), ("--has-variant", &q.variant)] {
            if let Some(v) = v {
                a.push(format!("{k}={v}"));
            }
        }
        a.extend([format!("--format={}", if q.table { "table" } else { "json" }), "--".into(), q.q.clone()]);
        let (rc, out) = cli(&a, t.path(), &env);
        let want = match search(q) {
            Ok(w) => w,
            Err(()) => {
                if rc == Some(0) {
                    return Err(format!("a malformed pattern or date is accepted: {a:?}: {out}"));
                }
                if out.contains("panicked") {
                    return Err(format!("{a:?}: {out}"));
                }
                return Ok(Info::new(true).label(true, "malformed pattern or date"));
            }
        };
        if rc != Some(0) {
            return Err(format!("{a:?} fails with {rc:?}: {out}"));
        }
        if q.table {
            let rows: Vec<Vec<String>> = out.lines().skip_while(|l| !l.starts_with("-----")).skip(1).map(|l| l.split_whitespace().take(2).map(str::to_string).collect()).collect();
            let want: Vec<Vec<String>> = want.iter().map(|(_, r)| vec![r.0.clone(), r.1.clone().unwrap_or("unknown".into())]).collect();
            same(&format!("table of {a:?}"), rows, want.clone())?;
            return Ok(Info::new(want.len() > 1).label(true, "table"));
        }
        let got: Value = serde_json::from_str(&out).map_err(|e| format!("{a:?}: not JSON ({e}): {out}"))?;
        let got = got.as_array().ok_or("not a list")?;
        let rows: Vec<Row> = got
            .iter()
            .map(|g| (g["name"].as_str().unwrap_or("?").to_string(), g["version"].as_str().map(str::to_string), g["match_score"].as_f64().unwrap_or(-1.0), g["match_fields"].as_array().map(|f| f.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default()))
            .collect();
        same(&format!("results of {a:?}"), rows, want.iter().map(|w| w.1.clone()).collect())?;
        for (g, (p, _)) in got.iter().zip(&want) {
            let list = |k: &str| g[k].as_array().map(|f| f.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect::<Vec<_>>()).unwrap_or_default();
            same("tools", list("tools"), p.tools.clone())?;
            same("requires", list("requires"), p.requires.clone())?;
            same("description", g["description"].as_str(), p.desc.as_deref())?;
            same("timestamp", g["timestamp"].as_i64(), p.time)?;
        }
        let families: BTreeSet<usize> = want.iter().map(|w| w.0.name).collect();
        Ok(Info::new(want.len() > 1)
            .label(want.is_empty(), "nothing found")
            .label(families.len() < want.len(), "several versions of a family")
            .label(q.regex, "regular expression")
            .label(q.latest && families.len() > 1, "latest only")
            .label(q.kind.as_deref() == Some("family"), "families")
            .label(q.variant.is_some() && !want.is_empty(), "by variant")
            .label(q.limit.is_some_and(|l| want.len() == l && l > 0), "limit reached")
            .label((q.newer.is_some() || q.older.is_some()) && !want.is_empty(), "by date"))
    });

    c.check("library", 4_000, 120_000, lib, |l: &Lib| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(&l.w, t.path());
        let order = repos(l.repos);
        let mode = [FilterMode::Exact, FilterMode::Prefix, FilterMode::Contains, FilterMode::Regex][l.mode as usize].clone();
        let mut filter = SearchFilter::new(l.q.clone()).with_mode(mode).with_limit(l.limit);
        if let Some(r) = &l.range {
            filter = filter.with_version_range(r.text());
        }
        let mut paths: Vec<PathBuf> = order.iter().map(|i| roots[*i].clone()).collect();
        paths.insert(1, t.path().join("missing"));
        let o = SearchOptions { paths: Some(paths), scope: [SearchScope::Families, SearchScope::Packages, SearchScope::LatestOnly][l.scope as usize].clone(), filter, include_hidden: false };
        let set = PackageSearcher::new(o).search();
        let (n, q) = (|s: &str| s.to_lowercase(), l.q.to_lowercase());
        let hit = |name: &str| {
            l.q.is_empty()
                || match l.mode {
                    0 => n(name) == q,
                    1 => n(name).starts_with(&q),
                    2 => n(name).contains(&q),
                    _ => regex::Regex::new(&l.q).unwrap().is_match(name),
                }
        };
        let mut want: Vec<(String, Vec<String>, String)> = vec![];
        for i in &order {
            let mut fams: BTreeMap<&str, Vec<String>> = BTreeMap::new();
            for p in visible(&l.w, &[*i]).iter().rev() {
                if !hit(p.name()) || l.range.as_ref().is_some_and(|r| p.v().is_some_and(|v| !r.has(&v))) {
                    continue;
                }
                fams.entry(p.name()).or_default().push(p.vtext().unwrap_or("unknown").to_string());
            }
            for (n, mut v) in fams {
                if l.scope == 2 {
                    v = v[v.len() - 1..].to_vec();
                }
                want.push((n.to_string(), v, roots[*i].to_string_lossy().into_owned()));
            }
        }
        want.sort_by(|a, b| a.0.cmp(&b.0));
        if l.limit > 0 {
            want.truncate(l.limit);
        }
        same(&format!("search {:?} mode {} scope {} range {:?} limit {}", l.q, l.mode, l.scope, l.range.as_ref().map(|r| r.text()), l.limit), set.results.iter().map(|r| (r.name.clone(), r.versions.clone(), r.repo_path.clone())).collect(), want.clone())?;
        for r in &set.results {
            same("latest", r.latest.clone(), r.versions.last().cloned())?;
        }
        Ok(Info::new(want.len() > 1).label(want.iter().any(|w| w.1.len() > 1), "several versions").label(l.limit > 0 && want.len() == l.limit, "limit reached").label(l.range.is_some() && !want.is_empty(), "by range"))
    });

    c.check("depends", 3_000, 60_000, deps, |d: &Dep| {
        let t = tempfile::tempdir().unwrap();
        let roots = put(&d.w, t.path());
        let order = repos(d.repos);
        let paths: Vec<String> = order.iter().map(|i| roots[*i].to_string_lossy().into_owned()).collect();
        let (layers, edges) = tree(&d.w, &order, &d.root, d.depth, d.build, d.private);
        let info = Info::new(layers.len() > 2).label(layers.len() == 1, "nothing depends on it").label(edges.iter().any(|(_, b)| *b == d.root), "a cycle").label(d.depth.is_some_and(|x| x + 1 == layers.len() && x > 0), "depth limit reached").label(edges.iter().any(|(a, _)| edges.iter().filter(|e| e.1 == *a).count() > 1), "reached twice");
        if d.via == 0 {
            let mut p = paths.clone();
            p.insert(1, t.path().join("missing").to_string_lossy().into_owned());
            let (l, g) = get_reverse_dependency_tree(&d.root, d.depth, Some(p.clone()), d.build, d.private);
            same("layers", l.iter().map(|x| x.iter().cloned().collect::<BTreeSet<_>>()).collect::<Vec<_>>(), layers.clone())?;
            if l.iter().map(Vec::len).sum::<usize>() != layers.iter().map(BTreeSet::len).sum::<usize>() {
                return Err(format!("a package is listed twice in {l:?}"));
            }
            let flat = |g: HashMap<String, Vec<String>>| g.into_iter().flat_map(|(a, v)| v.into_iter().map(move |b| (a.clone(), b))).collect::<BTreeSet<_>>();
            same("graph", flat(g), edges)?;
            let want: Vec<String> = latest(&d.w, &order).into_iter().filter(|(_, q)| q.plugin_for.iter().any(|n| NAMES[*n] == d.root)).map(|(n, _)| n.to_string()).collect();
            let n = want.len();
            same("plugins", get_plugins(&d.root, Some(p)), want)?;
            return Ok(info.label(true, "library").label(n > 0, "has plugins"));
        }
        let mut a = vec!["depends".to_string()];
        let joined = paths.join(":");
        let mut env = vec![];
        if d.via == 1 {
            env.push(("REZ_PACKAGES_PATH", joined.as_str()));
        } else {
            a.push(format!("--paths={joined}"));
        }
        for (on, f) in [(d.build, "-b"), (d.private, "-p"), (d.quiet, "-q"), (d.via == 3, "--print-graph")] {
            if on {
                a.push(f.to_string());
            }
        }
        if let Some(x) = d.depth {
            a.push(format!("--depth={x}"));
        }
        a.push(d.root.clone());
        let (rc, out) = cli(&a, t.path(), &env);
        if rc != Some(0) {
            return Err(format!("{a:?} fails with {rc:?}: {out}"));
        }
        if d.via == 3 {
            let got: BTreeSet<(String, String)> = out.lines().filter_map(|l| l.trim().strip_suffix(';')?.split_once(" -> ").map(|(x, y)| (x.trim_matches('"').to_string(), y.trim_matches('"').to_string()))).collect();
            same(&format!("graph of {a:?}"), got, edges)?;
            return Ok(info.label(true, "graph"));
        }
        let want: Vec<String> = if layers.len() == 1 {
            vec![format!("No packages depend on '{}'", d.root)]
        } else {
            layers.iter().enumerate().skip(1).map(|(i, l)| format!("{}{}", if d.quiet { String::new() } else { format!("#{i}: ") }, l.iter().cloned().collect::<Vec<_>>().join(" "))).collect()
        };
        same(&format!("{a:?}"), out.lines().map(str::to_string).collect(), want)?;
        Ok(info)
    });
}
