//! C13: the package payload cache.
use crate::core::*;
use crate::props::repo::snapshot;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::package_cache::{CacheConfig, CacheStatus, PackageCache, VariantHandle};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

type Snap = BTreeMap<String, Option<Vec<u8>>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct H {
    name: String,
    ver: Option<String>,
    idx: Option<usize>,
    attrs: Vec<(String, String)>,
}
impl H {
    fn real(&self, scratch: &str) -> VariantHandle {
        let mut h = VariantHandle::new(self.name.replace("@S@", scratch), self.ver.as_ref().map(|v| v.replace("@S@", scratch)), self.idx);
        h.attributes = self.attrs.iter().cloned().collect();
        h
    }
    fn plain(&self) -> bool {
        let ok = |s: &str| !s.is_empty() && s != "." && s != ".." && !s.contains('/');
        ok(&self.name) && self.ver.as_ref().is_none_or(|v| ok(v))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(H, usize, bool),
    Get(H),
    Remove(H),
    Clean,
    Reopen,
    /// damage to the n-th entry, as a crash or another process leaves it
    BadJson(usize),
    NoPayload(usize),
    NoJson(usize),
    Copying(usize, bool),
    Accessed(usize, i64),
    /// occupy later increments next to the n-th entry
    Fill(usize, String),
    /// files that are no part of the cache next to the n-th entry
    Stray(usize),
    /// another file is added to the source
    Touch(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    max_age: Option<u64>,
    no_space: bool,
    max_size: Option<u64>,
    ops: Vec<Op>,
}

fn handle() -> BoxedStrategy<H> {
    let attrs = select(vec![
        vec![],
        vec![],
        vec![("index", "0")],
        vec![("x", "1")],
        vec![("x", "1, y=2")],
        vec![("x", "1"), ("y", "2")],
    ])
    .prop_map(|v| v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>());
    let good = (select(vec!["pkg", "pkg", "PKG", "other-lib"]), select(vec![Some("1.0"), Some("1.0"), None, Some("_NO_VERSION"), Some("1.0-Beta")]), select(vec![None, Some(0), Some(1)]), attrs)
        .prop_map(|(n, v, idx, attrs)| H { name: n.into(), ver: v.map(str::to_string), idx, attrs });
    let bad = (select(vec!["..", "", "../sib", "a/b", "/@S@/sib", "."]), select(vec![None, Some("1.0")]), any::<bool>()).prop_map(|(n, v, swap)| {
        if swap { H { name: "pkg".into(), ver: Some(n.into()), idx: None, attrs: vec![] } } else { H { name: n.into(), ver: v.map(str::to_string), idx: None, attrs: vec![] } }
    });
    prop_oneof![14 => good, 1 => bad].boxed()
}
fn op(pool: Vec<H>) -> BoxedStrategy<Op> {
    let handle = || prop_oneof![4 => select(pool.clone()), 1 => handle()];
    let n = || 0usize..6;
    prop_oneof![
        10 => (handle(), 0usize..4, prop::bool::weighted(0.3)).prop_map(|(h, s, f)| Op::Add(h, s, f)),
        5 => handle().prop_map(Op::Get),
        4 => handle().prop_map(Op::Remove),
        3 => Just(Op::Clean),
        1 => Just(Op::Reopen),
        1 => n().prop_map(Op::BadJson),
        1 => n().prop_map(Op::NoPayload),
        1 => n().prop_map(Op::NoJson),
        2 => (n(), any::<bool>()).prop_map(|(a, b)| Op::Copying(a, b)),
        3 => (n(), select(vec![5000i64, -5000, -100, 0])).prop_map(|(a, b)| Op::Accessed(a, b)),
        2 => (n(), select(vec!["z", "az", "zz", "aa"]).prop_map(str::to_string)).prop_map(|(a, b)| Op::Fill(a, b)),
        2 => n().prop_map(Op::Stray),
        1 => (0usize..4).prop_map(Op::Touch),
    ]
    .boxed()
}
#[derive(Clone, PartialEq, Debug)]
enum St {
    Found,
    Missing,
    Copying,
    Stalled,
}
struct E {
    h: H,
    path: PathBuf,
    content: Snap,
    st: St,
    /// seconds added to the time of access
    shift: i64,
}
fn size(s: &Snap) -> u64 {
    s.values().flatten().map(|v| v.len() as u64).sum()
}
fn now() -> i64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() as i64
}

pub fn c13(c: &mut Ctx) {
    c.rule("cache: up to 16 cache calls over 90 handles, mixed with damage as crashes leave it (lost payload, lost or garbled metadata, copy flags, skewed clocks); non-trivial = at least two entries cached");
    c.assume("sources are not changed while they are being copied; free disk space exceeds the payloads (a few kB)");
    c.check("cache", 14_000, 250_000, || (select(vec![None, Some(1000u64)]), prop::bool::weighted(0.08), select(vec![None, None, None, Some(900u64)]), prop::collection::vec(handle(), 1..4).prop_flat_map(|p| prop::collection::vec(op(p), 1..16))).prop_map(|(max_age, no_space, max_size, ops)| Case { max_age, no_space, max_size, ops }), |cs: &Case| {
        let tmp = tempfile::tempdir().unwrap();
        let top = fs::canonicalize(tmp.path()).unwrap();
        let deep = top.join("a/b/c/d");
        let scratch = deep.to_string_lossy().trim_start_matches('/').to_string();
        let root = deep.join("cache");
        fs::create_dir_all(&root).unwrap();
        fs::create_dir_all(deep.join("sib/1.0")).unwrap();
        let src = |k: usize| deep.join(format!("src{k}"));
        for k in 0..4 {
            fs::create_dir_all(src(k).join("bin/empty")).unwrap();
            fs::write(src(k).join("bin/run"), format!("payload {k}").repeat(k * 20 + 1)).unwrap();
            fs::write(src(k).join("package.py"), "x").unwrap();
        }
        // source 3 cannot be copied
        std::os::unix::fs::symlink("missing-target", src(3).join("bin/dangling")).unwrap();
        let cfg = CacheConfig { max_size_bytes: cs.max_size, min_free_space_bytes: if cs.no_space { u64::MAX } else { 0 }, max_age_secs: cs.max_age, cache_local: true };
        let mut cache = PackageCache::with_config(&root, cfg.clone()).map_err(|e| e.to_string())?;
        let mut es: Vec<E> = vec![];
        let mut trash: Vec<u64> = vec![];
        let mut most = 0;
        let (mut hostile, mut damaged, mut incs, mut dup) = (false, false, false, false);
        let outside = |s: &Snap| -> Snap { s.iter().filter(|(k, _)| !k.starts_with("a/b/c/d/cache")).map(|(k, v)| (k.clone(), v.clone())).collect() };
        for (t, op) in cs.ops.iter().enumerate() {
            let ctx = |e: String| format!("step {t} {op:?}: {e}");
            if let Op::Touch(k) = op {
                fs::write(src(*k).join(format!("extra{t}")), "more").unwrap();
            }
            let out0 = outside(&snapshot(&top));
            let pick = |n: &usize, es: &[E]| if es.is_empty() { None } else { Some(n % es.len()) };
            match op {
                Op::Touch(_) => {}
                Op::Reopen => cache = PackageCache::with_config(&root, cfg.clone()).map_err(|e| e.to_string())?,
                Op::Add(h, k, force) => {
                    let r = cache.add_variant(&h.real(&scratch), &src(*k), *force);
                    hostile |= !h.plain();
                    if !h.plain() {
                        if r.is_ok() {
                            return Err(ctx(format!("accepted: {r:?}")));
                        }
                    } else if let Some(e) = es.iter_mut().find(|e| e.h == *h && e.st != St::Missing) {
                        dup = true;
                        let want = match e.st {
                            St::Found => CacheStatus::Found,
                            St::Copying => CacheStatus::Copying,
                            _ => CacheStatus::CopyStalled,
                        };
                        if !matches!(&r, Ok((s, p)) if *s == want && *p == e.path) {
                            return Err(ctx(format!("{r:?}, already cached as {want:?} at {:?}", e.path)));
                        }
                        if want == CacheStatus::Found {
                            e.shift = 0;
                        }
                    } else {
                        let content = snapshot(&src(*k));
                        let used: u64 = es.iter().map(|e| if e.path.is_dir() { size(&e.content) } else { 0 }).sum();
                        // the dangling link of source 3 has no size of its own
                        let need = size(&content) - if *k == 3 { content["bin/dangling"].as_ref().unwrap().len() as u64 } else { 0 };
                        if !force && (cs.no_space || cs.max_size.is_some_and(|m| used + need > m)) {
                            if !matches!(&r, Ok((CacheStatus::Skipped, _))) {
                                return Err(ctx(format!("{r:?}, should be skipped: no room")));
                            }
                        } else if *k == 3 {
                            if r.is_ok() {
                                return Err(ctx(format!("{r:?} although the payload cannot be copied completely")));
                            }
                        } else {
                            match r {
                                Ok((CacheStatus::Created, p)) => {
                                    if es.iter().any(|e| e.path == p) {
                                        return Err(ctx(format!("{p:?} is already used by another entry")));
                                    }
                                    if !p.starts_with(&root) {
                                        return Err(ctx(format!("{p:?} is outside the cache")));
                                    }
                                    es.push(E { h: h.clone(), path: p, content, st: St::Found, shift: 0 });
                                }
                                o => return Err(ctx(format!("{o:?}, should be created"))),
                            }
                        }
                    }
                }
                Op::Get(h) => {
                    let r = cache.get_cached_root(&h.real(&scratch));
                    hostile |= !h.plain();
                    let e = es.iter_mut().find(|e| e.h == *h && e.st != St::Missing);
                    let want = match &e {
                        None => (CacheStatus::NotFound, None),
                        Some(e) => (
                            match e.st {
                                St::Found => CacheStatus::Found,
                                St::Copying => CacheStatus::Copying,
                                _ => CacheStatus::CopyStalled,
                            },
                            Some(e.path.clone()),
                        ),
                    };
                    if r != want {
                        return Err(ctx(format!("{r:?}, should be {want:?}")));
                    }
                    if let Some(e) = e.filter(|e| e.st == St::Found) {
                        e.shift = 0;
                    }
                }
                Op::Remove(h) => {
                    let r = cache.remove_variant(&h.real(&scratch));
                    let i = es.iter().position(|e| e.h == *h && e.st != St::Missing);
                    let want = match i.map(|i| &es[i].st) {
                        None => CacheStatus::NotFound,
                        Some(St::Found) => CacheStatus::Removed,
                        Some(St::Copying) => CacheStatus::Copying,
                        Some(_) => CacheStatus::CopyStalled,
                    };
                    if r.0 != want {
                        return Err(ctx(format!("{r:?}, should be {want:?}")));
                    }
                    if want == CacheStatus::Removed {
                        let e = es.remove(i.unwrap());
                        trash.push(size(&e.content));
                    }
                }
                Op::Clean => {
                    let mut bytes: u64 = trash.drain(..).sum();
                    let mut n = 0;
                    let before = es.len();
                    es.retain(|e| {
                        let aged = e.st == St::Found && cs.max_age.is_some_and(|m| e.shift < -(m as i64));
                        if aged {
                            // moved to the trash; emptied by the next clean
                            trash.push(size(&e.content));
                        }
                        if aged || e.st == St::Stalled {
                            bytes += size(&e.content);
                            n += 1;
                        }
                        !(aged || e.st == St::Stalled)
                    });
                    let _ = (before, n);
                    let s = cache.clean(None);
                    if s.deleted_bytes != bytes {
                        return Err(ctx(format!("reported {} bytes freed, removed {bytes}", s.deleted_bytes)));
                    }
                    let left = fs::read_dir(root.join(".sys/to_delete")).map(|d| d.count()).unwrap_or(0);
                    if left != trash.len() {
                        return Err(ctx(format!("{left} removed payloads left on disk, should be {}", trash.len())));
                    }
                }
                Op::BadJson(n) => {
                    if let Some(i) = pick(n, &es) {
                        damaged = true;
                        let e = es.remove(i);
                        fs::write(e.path.with_extension("json"), "{\"handle\": {\"na").unwrap();
                    }
                }
                Op::NoJson(n) => {
                    if let Some(i) = pick(n, &es) {
                        damaged = true;
                        let e = es.remove(i);
                        let _ = fs::remove_file(e.path.with_extension("json"));
                        let _ = fs::remove_file(e.path.with_file_name(format!(".copying-{}", e.path.file_name().unwrap().to_string_lossy())));
                    }
                }
                Op::NoPayload(n) => {
                    if let Some(i) = pick(n, &es) {
                        if es[i].st == St::Found {
                            damaged = true;
                            let _ = fs::remove_dir_all(&es[i].path);
                            es[i].st = St::Missing;
                        }
                    }
                }
                Op::Copying(n, stalled) => {
                    if let Some(i) = pick(n, &es) {
                        if es[i].st == St::Found {
                            damaged = true;
                            let flag = es[i].path.with_file_name(format!(".copying-{}", es[i].path.file_name().unwrap().to_string_lossy()));
                            let f = fs::File::create(&flag).unwrap();
                            if *stalled {
                                f.set_modified(SystemTime::now() - Duration::from_secs(4000)).unwrap();
                            }
                            es[i].st = if *stalled { St::Stalled } else { St::Copying };
                        }
                    }
                }
                Op::Accessed(n, shift) => {
                    if let Some(i) = pick(n, &es) {
                        let j = es[i].path.with_extension("json");
                        let mut v: serde_json::Value = serde_json::from_slice(&fs::read(&j).map_err(|e| ctx(format!("metadata: {e}")))?).map_err(|e| ctx(format!("metadata: {e}")))?;
                        v["last_accessed"] = serde_json::json!(now() + shift);
                        fs::write(&j, v.to_string()).unwrap();
                        es[i].shift = *shift;
                    }
                }
                Op::Stray(n) => {
                    if let Some(i) = pick(n, &es) {
                        let d = es[i].path.parent().unwrap();
                        for (k, n) in ["Z9", "README.txt", "note"].iter().enumerate() {
                            let d = d.ancestors().nth(k).unwrap();
                            fs::write(d.join(n), "stray").unwrap();
                            fs::write(d.join(format!("0{n}")), "stray").unwrap();
                        }
                    }
                }
                Op::Fill(n, inc) => {
                    if let Some(i) = pick(n, &es) {
                        let f = es[i].path.with_file_name(format!("{inc}.json"));
                        if !f.exists() {
                            incs = true;
                            fs::write(f, "garbled").unwrap();
                        }
                    }
                }
            }
            if outside(&snapshot(&top)) != out0 {
                return Err(ctx("changed something outside the cache".into()));
            }
            // the listing is exactly the model, and every payload is intact
            let mut got: Vec<(String, PathBuf, String)> = cache.list_cached().into_iter().map(|(h, p, s)| (key(&h), p, format!("{s:?}"))).collect();
            got.sort();
            let mut want: Vec<(String, PathBuf, String)> = es
                .iter()
                .map(|e| {
                    let s = match e.st {
                        St::Found => CacheStatus::Found,
                        St::Missing => CacheStatus::Pending,
                        St::Copying => CacheStatus::Copying,
                        St::Stalled => CacheStatus::CopyStalled,
                    };
                    (key(&e.h.real(&scratch)), e.path.clone(), format!("{s:?}"))
                })
                .collect();
            want.sort();
            if got != want {
                return Err(ctx(format!("listing {got:?}, should be {want:?}")));
            }
            for e in es.iter().filter(|e| e.st != St::Missing) {
                if snapshot(&e.path) != e.content {
                    return Err(ctx(format!("payload of {:?} differs from what was cached", e.h)));
                }
            }
            most = most.max(es.len());
        }
        Ok(Info::new(most > 1).label(hostile, "hostile").label(damaged, "crash-damage").label(incs, "increments").label(dup, "already-cached").label(cs.max_size.is_some() || cs.no_space, "limits"))
    });

    c.rule("concurrent: 2 to 4 threads add and read the same few handles; non-trivial = two threads used the same handle");
    c.check("concurrent", 2_000, 8_000, || (prop::collection::vec(prop::collection::vec((0usize..3, any::<bool>()), 1..5), 2..5), 1usize..14), |(plan, files): &(Vec<Vec<(usize, bool)>>, usize)| {
        let tmp = tempfile::tempdir().unwrap();
        let root = tmp.path().join("cache");
        fs::create_dir_all(&root).unwrap();
        let src = |k: usize| tmp.path().join(format!("src{k}"));
        let mut content = vec![];
        for k in 0..3 {
            fs::create_dir_all(src(k)).unwrap();
            for f in 0..*files {
                fs::write(src(k).join(format!("f{f}")), format!("{k}/{f}").repeat(2000)).unwrap();
            }
            content.push(snapshot(&src(k)));
        }
        let hs: Vec<VariantHandle> = (0..3).map(|k| VariantHandle::new("pkg".into(), Some("1.0".into()), Some(k))).collect();
        let cfg = CacheConfig { min_free_space_bytes: 0, ..Default::default() };
        PackageCache::with_config(&root, cfg.clone()).map_err(|e| e.to_string())?;
        let check = |k: usize, p: &Path, what: &str| if snapshot(p) == content[k] { Ok(()) } else { Err(format!("{what} of handle {k} gave an incomplete or foreign payload at {p:?}")) };
        let errs: Vec<String> = std::thread::scope(|s| {
            let js: Vec<_> = plan
                .iter()
                .map(|ops| {
                    let (root, cfg, hs, src, check) = (&root, cfg.clone(), &hs, &src, &check);
                    s.spawn(move || -> Result<(), String> {
                        let cache = PackageCache::with_config(root, cfg).map_err(|e| e.to_string())?;
                        for (k, add) in ops {
                            if *add {
                                match cache.add_variant(&hs[*k], &src(*k), false) {
                                    Ok((CacheStatus::Created | CacheStatus::Found, p)) => check(*k, &p, "adding")?,
                                    Ok((CacheStatus::Copying, _)) => {}
                                    o => return Err(format!("adding handle {k}: {o:?}")),
                                }
                            } else {
                                match cache.get_cached_root(&hs[*k]) {
                                    (CacheStatus::Found, Some(p)) => check(*k, &p, "looking up")?,
                                    (CacheStatus::NotFound | CacheStatus::Copying, _) => {}
                                    o => return Err(format!("looking up handle {k}: {o:?}")),
                                }
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            js.into_iter().filter_map(|j| j.join().unwrap_or(Err("panic".into())).err()).collect()
        });
        if let Some(e) = errs.first() {
            return Err(e.clone());
        }
        let cache = PackageCache::with_config(&root, cfg).map_err(|e| e.to_string())?;
        for k in 0..3 {
            let added = plan.iter().flatten().any(|o| o.0 == k && o.1);
            match cache.get_cached_root(&hs[k]) {
                (CacheStatus::Found, Some(p)) if added => check(k, &p, "the final lookup")?,
                (CacheStatus::NotFound, None) if !added => {}
                o => return Err(format!("finally handle {k} is {o:?}")),
            }
        }
        let shared = (0..3).any(|k| plan.iter().filter(|ops| ops.iter().any(|o| o.0 == k && o.1)).count() > 1);
        Ok(Info::new(shared).label(shared, "same-handle"))
    });
}
fn key(h: &VariantHandle) -> String {
    let mut a: Vec<_> = h.attributes.iter().collect();
    a.sort();
    format!("{:?}", (&h.name, &h.version, &h.index, a))
}
