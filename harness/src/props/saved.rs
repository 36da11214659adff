//! C18: saved contexts are the contexts that were resolved.
use super::envs::{Map, Op, Pkg, World, bash, model, py, rt, same, wild};
use super::fsops::cli;
use super::serial::{Doc, build, doc, view};
use crate::core::*;
use crate::genr::{Spec, spec};
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_context::{ContextBuilder, ContextConfig, ContextFormat, ContextSerializer, ContextStatus, ExportFormat, PathStrategy, ResolvedContext, ResolvedPackage, RezResolvedContext, ShellType};
use rez_next_package::{Package, PackageRequirement, Requirement};
use rez_next_version::Version;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Saved {
    reqs: Vec<(u8, Spec)>,
    pkgs: Vec<(Doc, Option<String>)>,
    env: Map,
    meta: Map,
    extra: Map,
    unset: Vec<String>,
    texts: Vec<Option<String>>,
    created: i64,
    kinds: [u8; 4],
    /// where the file is cut
    cut: usize,
}
fn texts(n: usize) -> BoxedStrategy<Vec<String>> {
    prop::collection::vec(prop_oneof![wild(), Just(String::new()), Just("/opt/app/1.0/package.py".to_string()), Just("é/x y".to_string())], 0..n).boxed()
}
fn maps(n: usize) -> BoxedStrategy<Map> {
    prop::collection::btree_map(prop_oneof![select(vec!["PATH", "A", "b.c", "", "FOO_ROOT"]).prop_map(str::to_string), wild()], wild(), 0..n).boxed()
}
fn saved() -> BoxedStrategy<Saved> {
    let opt = || prop::option::of(prop_oneof![wild(), Just(String::new()), Just("linux".to_string())]);
    (
        prop::collection::vec((0u8..3, spec(crate::genv::simple)), 0..4),
        prop::collection::vec((doc(), opt()), 0..4),
        maps(4),
        maps(3),
        maps(3),
        texts(3),
        prop::collection::vec(opt(), 6),
        prop_oneof![any::<i64>(), 0i64..2_000_000_000],
        [0u8..4, 0u8..5, 0u8..4, 0u8..2],
        0usize..100_000,
    )
        .prop_map(|(reqs, pkgs, env, meta, extra, unset, texts, created, kinds, cut)| Saved { reqs, pkgs, env, meta, extra, unset, texts, created, kinds, cut })
        .boxed()
}
fn request(i: usize, kind: u8, s: &Spec) -> String {
    format!("{}pkg{i}{}", ["", "!", "~"][kind as usize], s.text())
}
fn context(s: &Saved) -> ResolvedContext {
    let reqs = s.reqs.iter().enumerate().filter_map(|(i, (k, r))| PackageRequirement::parse(&request(i, *k, r)).ok()).collect();
    let mut c = ResolvedContext::from_requirements(reqs);
    c.resolved_packages = packages(s);
    c.environment_vars = s.env.clone().into_iter().collect();
    c.metadata = s.meta.clone().into_iter().collect();
    if let Some(id) = &s.texts[0] {
        c.id = id.clone();
    }
    c.name = s.texts[1].clone();
    c.suite = s.texts[2].clone();
    c.platform = s.texts[3].clone();
    c.arch = s.texts[4].clone();
    c.created_at = s.created;
    use ContextStatus::*;
    c.status = [Resolving, Resolved, Failed, Cached][s.kinds[0] as usize].clone();
    c.config = ContextConfig {
        inherit_parent_env: s.kinds[3] == 1,
        shell_type: [ShellType::Bash, ShellType::Zsh, ShellType::Fish, ShellType::Cmd, ShellType::PowerShell][s.kinds[1] as usize].clone(),
        working_directory: s.texts[5].clone().map(PathBuf::from),
        additional_env_vars: s.extra.clone().into_iter().collect(),
        unset_vars: s.unset.clone(),
        path_strategy: [PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify][s.kinds[2] as usize].clone(),
    };
    c
}
/// the builder gives the same context, and the accessors report what is in it
fn built(s: &Saved, c: &ResolvedContext) -> Result<(), String> {
    let mut b = ContextBuilder::new().with_config(c.config.clone());
    let half = c.requirements.len() / 2;
    b = b.with_requirements(c.requirements[..half].to_vec());
    for r in &c.requirements[half..] {
        b = b.with_requirement(r.clone());
    }
    if let Some(n) = &c.name {
        b = b.with_name(n.clone());
    }
    if let Some(n) = &c.suite {
        b = b.with_suite(n.clone());
    }
    if let Some(n) = &c.platform {
        b = b.with_platform(n.clone());
    }
    if let Some(n) = &c.arch {
        b = b.with_arch(n.clone());
    }
    for (k, v) in &c.metadata {
        b = b.with_metadata(k.clone(), v.clone());
    }
    let mut x = b.build();
    (x.id, x.created_at, x.status, x.resolved_packages, x.environment_vars) = (c.id.clone(), c.created_at, c.status.clone(), c.resolved_packages.clone(), c.environment_vars.clone());
    same("built context", see(&x), see(c))?;
    let mut y = ResolvedContext::from_requirements(c.requirements.clone());
    (y.id, y.created_at, y.status, y.resolved_packages) = (c.id.clone(), c.created_at, c.status.clone(), c.resolved_packages.clone());
    c.name.clone().map(|v| y.set_name(v));
    c.suite.clone().map(|v| y.set_suite(v));
    c.platform.clone().map(|v| y.set_platform(v));
    c.arch.clone().map(|v| y.set_arch(v));
    y.set_config(c.config.clone());
    for (k, v) in &c.metadata {
        y.add_metadata(k.clone(), v.clone());
    }
    for (k, v) in &s.env {
        y.set_env_var(k.clone(), v.clone());
        same("variable", y.get_env_var(k), Some(v.clone()))?;
    }
    same("context set field by field", see(&y), see(c))?;
    let z = c.clone_with_new_id();
    let (mut a, mut b) = (see(&z), see(c));
    for v in [&mut a, &mut b] {
        v["id"] = json!(0);
        v["created"] = json!(0);
    }
    same("clone", a, b)?;
    if z.id == c.id {
        return Err("the clone has the same identity".into());
    }
    let tools: std::collections::BTreeSet<String> = c.resolved_packages.iter().flat_map(|p| p.tools.clone()).collect();
    same("tools", c.get_all_tools(), tools.into_iter().collect::<Vec<_>>())?;
    same("names", c.get_package_names(), c.resolved_packages.iter().map(|p| p.name.clone()).collect::<Vec<_>>())?;
    for p in &c.resolved_packages {
        let first = c.resolved_packages.iter().find(|q| q.name == p.name).unwrap();
        same("package by name", c.get_package(&p.name).map(see_package), Some(see_package(first)))?;
        same("contains", c.contains_package(&p.name), true)?;
        if let Some(v) = &p.version {
            let first = c.resolved_packages.iter().find(|q| q.name == p.name && q.version.as_ref().is_some_and(|w| w == v)).unwrap();
            same("package by version", c.get_package_by_version(&p.name, v).map(see_package), Some(see_package(first)))?;
        }
    }
    same("contains", c.contains_package("no such package"), false)?;
    let m = c.get_summary();
    let versions: Map = c.resolved_packages.iter().map(|p| (p.name.clone(), p.version.as_ref().map_or("latest".into(), |v| v.as_str().to_string()))).collect();
    same(
        "summary",
        json!([m.id, m.name, m.package_count, m.tool_count, m.env_var_count, format!("{:?}", m.status), m.created_at, m.package_versions.into_iter().collect::<Map>()]),
        json!([c.id, c.name, c.resolved_packages.len(), c.resolved_packages.iter().map(|p| p.tools.len()).sum::<usize>(), s.env.len(), format!("{:?}", c.status), c.created_at, versions]),
    )
}
fn packages(s: &Saved) -> Vec<Package> {
    s.pkgs
        .iter()
        .map(|(d, f)| {
            let mut p = build(d);
            p.filepath = f.clone();
            p
        })
        .collect()
}
fn see_package(p: &Package) -> Value {
    json!({"definition": view(p), "filepath": p.filepath, "root": p.root()})
}
fn see(c: &ResolvedContext) -> Value {
    json!({
        "id": c.id, "name": c.name, "requirements": c.requirements.iter().map(|r| json!([r.name, r.version_spec, r.weak, r.conflict])).collect::<Vec<_>>(),
        "packages": c.resolved_packages.iter().map(see_package).collect::<Vec<_>>(),
        "env": c.environment_vars.clone().into_iter().collect::<Map>(), "meta": c.metadata.clone().into_iter().collect::<Map>(),
        "created": c.created_at, "suite": c.suite, "platform": c.platform, "arch": c.arch, "status": format!("{:?}", c.status),
        "config": [json!(c.config.inherit_parent_env), json!(format!("{:?}", c.config.shell_type)), json!(c.config.working_directory), json!(c.config.additional_env_vars.clone().into_iter().collect::<Map>()), json!(c.config.unset_vars), json!(format!("{:?}", c.config.path_strategy))],
    })
}
fn rez(s: &Saved) -> RezResolvedContext {
    let reqs = s.reqs.iter().enumerate().filter_map(|(i, (k, r))| request(i, *k, r).parse::<Requirement>().ok()).collect();
    let mut c = RezResolvedContext::new(reqs);
    for (i, p) in packages(s).into_iter().enumerate() {
        let mut r = ResolvedPackage::new(Arc::new(p), PathBuf::from(s.unset.get(i).cloned().unwrap_or("/r".into())), (s.cut >> i) & 1 == 1);
        r.variant_index = ((s.cut >> i) & 2 == 2).then_some(s.cut % 7);
        r.conflict = s.texts[i].clone();
        r.parent_packages = s.unset.clone();
        c.resolved_packages.push(r);
    }
    c.environ = s.env.clone().into_iter().collect();
    c.metadata = s.meta.clone().into_iter().collect();
    c.suite_path = s.texts[2].clone().map(PathBuf::from);
    c.failed = s.kinds[3] == 1;
    c.failure_description = s.texts[1].clone();
    if let Some(p) = &s.texts[3] {
        c.platform = p.clone();
    }
    if let Some(p) = &s.texts[4] {
        c.user = p.clone();
        c.arch = format!("{p}a");
        c.host = format!("{p}h");
    }
    c
}
fn see_rez(c: &RezResolvedContext) -> Value {
    json!({
        "packages": c.resolved_packages.iter().map(|r| json!([see_package(&r.package), r.variant_index, r.root, r.requested, r.conflict, r.parent_packages])).collect::<Vec<_>>(),
        "requirements": c.requirements.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(), "environ": c.environ.clone().into_iter().collect::<Map>(),
        "suite": c.suite_path, "failed": c.failed, "why": c.failure_description, "at": c.timestamp.to_rfc3339(), "user": c.user, "host": c.host, "platform": c.platform, "arch": c.arch,
        "rez": c.rez_version, "meta": c.metadata.clone().into_iter().collect::<Map>(),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tool {
    deps: Vec<u8>,
    /// 0 none, else variant count
    variants: u8,
    tools: Vec<String>,
    ops: Vec<Op>,
    style: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Live {
    pkgs: Vec<Tool>,
    base: Map,
    no_env: bool,
    after: u8,
    prune: u8,
}
const NAMES: [&str; 4] = ["app", "app_lib", "base", "py"];
fn live() -> BoxedStrategy<Live> {
    let v = || select(vec!["FOO", "BAR", "APP_HOME", "MYPATH", "INHERITED"]).prop_map(str::to_string);
    let t = || prop_oneof![3 => wild(), 3 => select(vec!["{root}/bin", "v{version}", "plain", "/a:/b", "{name}"]).prop_map(str::to_string)];
    let op = prop_oneof![
        5 => (v(), t()).prop_map(|(k, x)| Op::Set(k, x)),
        1 => v().prop_map(Op::Unset),
        3 => (v(), t()).prop_map(|(k, x)| Op::Pre(k, x)),
        3 => (v(), t()).prop_map(|(k, x)| Op::App(k, x)),
        2 => (v(), t()).prop_map(|(k, x)| Op::Dflt(k, x)),
    ];
    let tool = (prop::collection::vec(0u8..4, 0..3), 0u8..3, prop::collection::vec(select(vec!["run", "t1", "edit-x"]).prop_map(str::to_string), 0..3), prop::collection::vec(op, 0..4), 0u8..5)
        .prop_map(|(deps, variants, tools, ops, style)| Tool { deps, variants, tools, ops, style });
    let base = prop::collection::btree_map(select(vec!["FOO", "INHERITED", "MYPATH"]).prop_map(str::to_string), wild(), 0..3);
    (prop::collection::vec(tool, 1..5), base, any::<bool>(), 0u8..3, 0u8..5).prop_map(|(pkgs, base, no_env, after, prune)| Live { pkgs, base, no_env, after, prune }).boxed()
}
fn dep(j: usize, style: u8) -> String {
    let n = NAMES[j];
    match style {
        0 => n.into(),
        1 => format!("{n}-1"),
        2 => format!("{n}>=1.0"),
        3 => format!("{n}-1+<2"),
        _ => format!("{n}==1.{j}"),
    }
}

pub fn c18(c: &mut Ctx) {
    c.rule("roundtrip: generated contexts through every format, and cut files; holds: requests against resolved packages; cli: contexts saved by rez-next env and read by rez-next context after the repository changed; non-trivial = a package has a location (roundtrip), the requested package is present with a version (holds), a package has commands or tools (cli)");
    c.assume("whether a package without a version meets an exclusion with a range is not specified");
    c.check("roundtrip", 4_000, 100_000, saved, |s: &Saved| {
        let ctx = context(s);
        let want = see(&ctx);
        built(s, &ctx)?;
        let dir = tempfile::tempdir().unwrap();
        let e = |x: &dyn std::fmt::Display| x.to_string();
        for (f, ext) in [(ContextFormat::Json, "rxt"), (ContextFormat::Binary, "rxtb")] {
            let bytes = ContextSerializer::serialize(&ctx, f.clone()).map_err(|x| e(&x))?;
            same("bytes", see(&ContextSerializer::deserialize(&bytes, f.clone()).map_err(|x| e(&x))?), want.clone())?;
            let t = ContextSerializer::to_string(&ctx, f.clone()).map_err(|x| e(&x))?;
            same("text", see(&ContextSerializer::from_string(&t, f.clone()).map_err(|x| e(&x))?), want.clone())?;
            let path = dir.path().join(format!("sub/d/c.{ext}"));
            rt().block_on(ContextSerializer::save_to_file(&ctx, &path, f.clone())).map_err(|x| e(&x))?;
            same("file", see(&rt().block_on(ContextSerializer::load_from_file(&path)).map_err(|x| e(&x))?), want.clone())?;
            let valid = rt().block_on(ContextSerializer::validate_file(&path)).map_err(|x| e(&x))?;
            same("validate_file agrees with validate", valid.is_valid, ctx.validate().is_ok())?;
            // an interrupted write never reads as a context
            let cut = s.cut % bytes.len();
            if ContextSerializer::deserialize(&bytes[..cut], f.clone()).is_ok() {
                return Err(format!("the first {cut} of {} bytes read as a context", bytes.len()));
            }
            std::fs::write(&path, &bytes[..cut]).unwrap();
            if rt().block_on(ContextSerializer::load_from_file(&path)).is_ok() || rt().block_on(ContextSerializer::validate_file(&path)).is_ok_and(|v| v.is_valid) {
                return Err(format!("a file cut after {cut} bytes is accepted"));
            }
        }
        let y = ContextSerializer::export_context(&ctx, ExportFormat::Yaml).map_err(|x| e(&x))?;
        let back: ResolvedContext = serde_yaml::from_str(&y).map_err(|x| format!("{x}\n{y}"))?;
        same("yaml", see(&back), want)?;
        let r = rez(s);
        let path = dir.path().join("r.rxt");
        r.save(&path).map_err(|x| e(&x))?;
        same("rez context", see_rez(&RezResolvedContext::load(&path).map_err(|x| e(&x))?), see_rez(&r))?;
        Ok(Info::new(s.pkgs.iter().any(|p| p.1.is_some())).label(s.pkgs.len() > 1, "packages").label(!s.reqs.is_empty(), "requests"))
    });
    let v = || prop_oneof![6 => crate::genv::simple().prop_map(Some), 1 => Just(None)];
    c.check("holds", 5_000, 400_000, move || (prop::collection::vec((0u8..3, spec(crate::genv::simple)), 1..4), prop::collection::vec(prop::option::weighted(0.8, v()), 4)), |(reqs, pk): &(Vec<(u8, Spec)>, Vec<Option<Option<String>>>)| {
        let mut ctx = ResolvedContext::from_requirements(vec![]);
        for (i, p) in pk.iter().enumerate().rev() {
            if let Some(v) = p {
                let mut k = Package::new(format!("pkg{i}"));
                k.version = match v {
                    Some(t) => match Version::parse(t) {
                        Ok(v) => Some(v),
                        Err(_) => return Ok(Info::new(false)),
                    },
                    None => None,
                };
                ctx.resolved_packages.push(k);
            }
        }
        let mut all = Some(true);
        let mut hit = false;
        for (i, (kind, s)) in reqs.iter().enumerate() {
            let text = request(i, *kind, s);
            let Ok(r) = PackageRequirement::parse(&text) else {
                continue;
            };
            ctx.requirements.push(r.clone());
            let want = match &pk[i] {
                None => Some(*kind != 0),
                Some(None) if *kind == 1 && *s != Spec::None => None,
                Some(None) => Some(*kind != 1),
                Some(Some(v)) => s.has(v).map(|h| h != (*kind == 1)),
            };
            hit |= matches!(&pk[i], Some(Some(_)));
            if let Some(w) = want {
                same(&format!("{text} with {:?}", pk[i]), ctx.satisfies_requirement(&r), w)?;
            }
            all = match (all, want) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            };
        }
        if let Some(w) = all {
            same("validate", ctx.validate().is_ok(), w)?;
        }
        Ok(Info::new(hit).label(all == Some(true), "valid").label(all == Some(false), "invalid"))
    });
    c.check("cli", 500, 8_000, live, |l: &Live| {
        let dir = tempfile::tempdir().unwrap();
        let root = std::fs::canonicalize(dir.path()).unwrap();
        let home = root.join("home");
        let repo = root.join("repo");
        std::fs::create_dir_all(&home).unwrap();
        let n = l.pkgs.len();
        let mut text = vec![];
        let mut requires = vec![];
        for (i, p) in l.pkgs.iter().enumerate() {
            let d = repo.join(NAMES[i]).join(format!("1.{i}"));
            std::fs::create_dir_all(&d).unwrap();
            // acyclic: only later packages are required
            let mut deps: Vec<usize> = p.deps.iter().map(|x| *x as usize).filter(|x| *x > i && *x < n).collect();
            deps.sort();
            deps.dedup();
            let mut req: Vec<String> = deps.iter().map(|j| dep(*j, p.style)).collect();
            if p.variants > 0 {
                // an exclusion is no dependency
                req.insert(0, "!absent-2+".into());
            }
            let variants: Vec<Vec<String>> = (0..p.variants).map(|_| deps.iter().take(1).map(|j| NAMES[*j].to_string()).collect::<Vec<_>>()).filter(|v: &Vec<String>| !v.is_empty()).collect();
            let body: String = p.ops.iter().map(|o| format!("    {}\n", py(o))).collect();
            let t = format!("name = '{}'\nversion = '1.{i}'\nrequires = {req:?}\nvariants = {variants:?}\ntools = {:?}\ndef commands():\n{body}    pass\n", NAMES[i], p.tools);
            std::fs::write(d.join("package.py"), &t).unwrap();
            text.push((d, t));
            requires.push((req, deps, !variants.is_empty()));
        }
        let out = root.join("out.rxt");
        let mut args: Vec<String> = vec!["env".into()];
        args.extend((0..n).map(|i| NAMES[i].to_string()));
        args.extend(["--paths".into(), repo.to_string_lossy().into_owned(), "-q".into(), "--".into(), "/bin/sh".into(), "-c".into(), format!("/bin/cp \"$REZ_RXT_FILE\" {}; echo $REZ_USED_RESOLVE > {}", out.display(), root.join("resolve").display())]);
        let mut base = l.base.clone();
        base.insert("PATH".into(), "/usr/bin:/bin".into());
        let env: Vec<(&str, &str)> = base.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let (code, log) = cli(&args, &home, &env);
        if code != Some(0) || !out.exists() {
            return Err(format!("env failed: {code:?} {log}"));
        }
        // the repository moves on; the saved context does not
        match l.after {
            0 => std::fs::remove_dir_all(&repo).unwrap(),
            1 => {
                for (d, t) in &text {
                    std::fs::write(d.join("package.py"), t.replace("def commands():\n", "def commands():\n    env.setenv('LATER', 'x')\n").replace("tools = [", "tools = ['later', ")).unwrap();
                }
                let d = repo.join("app/9.0");
                std::fs::create_dir_all(&d).unwrap();
                std::fs::write(d.join("package.py"), "name = 'app'\nversion = '9.0'\n").unwrap();
            }
            _ => {}
        }
        let rxt = out.to_string_lossy().into_owned();
        let run = |extra: &[&str]| -> Result<String, String> {
            let mut a = vec!["context".to_string(), rxt.clone()];
            a.extend(extra.iter().map(|s| s.to_string()));
            let (code, out) = cli(&a, &home, &env);
            if code != Some(0) {
                return Err(format!("{a:?}: {code:?} {out}"));
            }
            Ok(out)
        };
        let lines = |t: String| -> Vec<String> { t.lines().skip(1).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect() };
        same("requests", lines(run(&["--print-request"])?), (0..n).map(|i| NAMES[i].to_string()).collect())?;
        let order: Vec<usize> = std::fs::read_to_string(root.join("resolve")).unwrap().split_whitespace().map(|w| NAMES.iter().position(|x| w.rsplit_once('-').unwrap().0 == *x).unwrap()).collect();
        let roots: Vec<PathBuf> = (0..n).map(|i| { let (req, deps, var) = &requires[i]; let _ = req; let d = text[i].0.clone(); if *var { d.join(NAMES[deps[0]]) } else { d } }).collect();
        same("resolve in order", lines(run(&["--print-resolve", "--source-order", "--show-uris"])?), order.iter().map(|i| format!("{} 1.{i} ({})", NAMES[*i], roots[*i].display())).collect())?;
        let mut sorted = order.clone();
        sorted.sort_by_key(|i| NAMES[*i]);
        same("resolve", lines(run(&["--print-resolve"])?), sorted.iter().map(|i| format!("{} 1.{i}", NAMES[*i])).collect())?;
        // tools: the first package on PATH provides a tool
        let mut tools = Map::new();
        for i in &order {
            for t in &l.pkgs[*i].tools {
                tools.entry(t.clone()).or_insert(roots[*i].join("bin").join(t).to_string_lossy().into_owned());
            }
        }
        let mut got = lines(run(&["-t"])?);
        got.sort();
        let want: Vec<String> = if tools.is_empty() { vec!["(no tools available)".into()] } else { tools.iter().map(|(k, v)| format!("{k} -> {v}")).collect() };
        same("tools", got, want)?;
        for t in ["run", "later"] {
            let got = run(&["--which", t])?;
            match tools.get(t) {
                Some(p) => same("which", got.trim().to_string(), p.clone())?,
                None if got.contains("/repo/") => return Err(format!("found {t}: {got}")),
                None => {}
            }
        }
        // the graph
        let prune = (l.prune as usize) < n;
        let g = if prune { run(&["--print-graph", "--prune-package", NAMES[l.prune as usize]])? } else { run(&["--print-graph"])? };
        let keep: Vec<usize> = order.iter().copied().filter(|i| !prune || *i == l.prune as usize || requires[*i].1.contains(&(l.prune as usize))).collect();
        let mut nodes = vec![];
        let mut edges = vec![];
        let mut ids = Map::new();
        for line in g.lines().map(str::trim) {
            let Some((head, rest)) = line.split_once(" [label=\"") else {
                continue;
            };
            let label = rest.split('"').next().unwrap().to_string();
            match head.split_once(" -> ") {
                None => {
                    ids.insert(head.into(), label.clone());
                    nodes.push(label);
                }
                Some((a, b)) => edges.push((ids.get(a).cloned().unwrap_or_default(), ids.get(b).cloned().unwrap_or_default())),
            }
        }
        let lab = |i: usize| format!("{}-1.{i}", NAMES[i]);
        same("graph nodes", nodes, keep.iter().map(|i| lab(*i)).collect())?;
        let mut want: Vec<(String, String)> = keep.iter().flat_map(|i| requires[*i].1.iter().filter(|j| keep.contains(j)).map(|j| (lab(*i), lab(*j))).collect::<Vec<_>>()).collect();
        want.sort();
        edges.sort();
        same(&format!("graph edges of\n{g}"), edges, want)?;
        // the environment
        let mut start = if l.no_env { Map::new() } else { base.clone() };
        if !l.no_env {
            start.insert("HOME".into(), home.to_string_lossy().into_owned());
            start.insert("TMPDIR".into(), home.to_string_lossy().into_owned());
        }
        let w = World {
            base: start.clone(),
            pkgs: order.iter().map(|i| Pkg { name: NAMES[*i].into(), ver: Some(format!("1.{i}")), file: Some(roots[*i].join("package.py").to_string_lossy().into_owned()), tools: l.pkgs[*i].tools.clone(), phases: [None, Some(l.pkgs[*i].ops.iter().map(|o| (o.clone(), 0)).collect()), None] }).collect(),
            extra: Map::new(),
            unset: vec![],
            path: 0,
        };
        let want: Map = model(&w).vars.into_iter().filter(|(k, v)| start.get(k) != Some(v)).collect();
        let mut a = vec!["-i", "-f", "json"];
        if l.no_env {
            a.push("--no-env");
        }
        let t = run(&a)?;
        same("interpreted environment", serde_json::from_str::<Map>(&t).map_err(|e| format!("{e}: {t}"))?, want.clone())?;
        a[2] = "bash";
        let t = run(&a)?;
        let mut got = bash(&home, &t).map_err(|e| format!("{e}\n{t}"))?.0;
        // bash itself supplies a PATH when none is set
        if !want.contains_key("PATH") {
            got.remove("PATH");
        }
        same("interpreted script", got, want)?;
        // damaged or missing files are refused
        let bytes = std::fs::read(&out).unwrap();
        std::fs::write(&out, &bytes[..bytes.len() * (l.prune as usize + 1) / 8]).unwrap();
        if let Ok(o) = run(&["--print-request"]) {
            return Err(format!("a damaged context was accepted: {o}"));
        }
        std::fs::remove_file(&out).unwrap();
        if let Ok(o) = run(&["--print-request"]) {
            return Err(format!("a missing context was accepted: {o}"));
        }
        Ok(Info::new(l.pkgs.iter().any(|p| !p.ops.is_empty() || !p.tools.is_empty())).label(l.after < 2, "repository-changed").label(requires.iter().any(|r| r.2), "variant").label(requires.iter().any(|r| !r.1.is_empty()), "dependencies"))
    });
}
