use crate::core::*;
use crate::genr::*;
use crate::genv;
use crate::props::version::pv;
use proptest::prelude::*;
use rez_next_package::{PackageRequirement, Requirement};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

fn probes(s: &Spec, ex: &[String]) -> Vec<String> {
    let mut out: Vec<String> = ["0", "1", "1.0", "2", "3.1"].iter().map(|s| s.to_string()).collect();
    out.extend(ex.iter().cloned());
    for m in s.mentioned() {
        if m.is_empty() {
            continue;
        }
        let t: Vec<&str> = m.split('.').collect();
        for k in 1..t.len() {
            out.push(t[..k].join("."));
        }
        for suf in ["0", "1", "A", "0a", "0.1"] {
            out.push(format!("{m}.{suf}"));
        }
        let mut up: Vec<String> = t.iter().map(|s| s.to_string()).collect();
        if let Ok(n) = up.last().unwrap().parse::<u64>().map(|n| n.min(u64::MAX - 1)) {
            *up.last_mut().unwrap() = (n + 1).to_string();
            out.push(up.join("."));
            if n > 0 {
                *up.last_mut().unwrap() = (n - 1).to_string();
                out.push(up.join("."));
            }
        }
        out.push(m);
    }
    out.retain(|s| rez_next_version::Version::parse(s).is_ok());
    out
}

/// C05
pub fn c05(c: &mut Ctx) {
    c.rule("requirement texts of every form over small and large versions, probed with the mentioned versions, their prefixes, extensions and neighbours; non-trivial = some probe satisfies and some probe does not");
    c.check("satisfaction", 15_000, 500_000, || (name(), spec(dotted), prop::collection::vec(genv::version(false), 0..4)), |(n, s, ex): &(String, Spec, Vec<String>)| {
        let text = format!("{n}{}", s.text());
        let r: Requirement = text.parse().map_err(|e| format!("{text:?} rejected: {e}"))?;
        let pr = PackageRequirement::parse(&text).map_err(|e| format!("{text:?} rejected: {e}"))?;
        if r.name != *n || pr.name != *n {
            return Err(format!("{text:?} parsed as package {:?} / {:?}", r.name, pr.name));
        }
        if r.weak || r.conflict || pr.weak || pr.conflict || r.namespace.is_some() {
            return Err(format!("{text:?} parsed with flags"));
        }
        let (mut y, mut no) = (0, 0);
        for p in probes(s, ex) {
            let Some(want) = s.has(&p) else { continue };
            let v = pv(&p)?;
            if r.is_satisfied_by(&v) != want {
                return Err(format!("{text:?} satisfied by {p:?}: got {}, should be {want}", !want));
            }
            if pr.satisfied_by(&v) != want {
                return Err(format!("{text:?} (as a package request) satisfied by {p:?}: got {}, should be {want}", !want));
            }
            if want { y += 1 } else { no += 1 }
        }
        Ok(Info::new(y > 0 && no > 0).label(matches!(s, Spec::Ops(_)), "ops").label(matches!(s, Spec::Wild(_)), "wildcard"))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Full {
    flag: u8, // 0 none, 1 weak, 2 conflict
    ns: Option<String>,
    name: String,
    spec: Spec,
    /// platform, arch, negate
    platform: Option<(String, Option<String>, bool)>,
    /// var, expected (None: exists), negate
    env: Vec<(String, Option<String>, bool)>,
}
impl Full {
    fn text(&self) -> String {
        let mut s = String::new();
        s.push_str(["", "~", "!"][self.flag as usize]);
        if let Some(n) = &self.ns {
            s.push_str(&format!("{n}::"));
        }
        s.push_str(&self.name);
        s.push_str(&self.spec.text());
        if let Some((p, a, neg)) = &self.platform {
            let arch = a.as_ref().map(|a| format!(" and arch=='{a}'")).unwrap_or_default();
            s.push_str(&format!("[platform{}'{p}'{arch}]", if *neg { "!=" } else { "==" }));
        }
        for (k, v, neg) in &self.env {
            match v {
                Some(v) => s.push_str(&format!("[env.{k}{}'{v}']", if *neg { "!=" } else { "==" })),
                None if *neg => s.push_str(&format!("[env.{k}!=None]")),
                None => s.push_str(&format!("[env.{k}]")),
            }
        }
        s
    }
}
fn full() -> BoxedStrategy<Full> {
    let plat = || proptest::sample::select(vec!["linux", "windows", "darwin"]).prop_map(str::to_string);
    let arch = || proptest::sample::select(vec!["x86_64", "arm64"]).prop_map(str::to_string);
    let var = || proptest::sample::select(vec!["DCC", "STUDIO_ENV", "X"]).prop_map(str::to_string);
    let val = || proptest::sample::select(vec!["maya", "1", "a b", "dev-2"]).prop_map(str::to_string);
    (
        0u8..3,
        prop::option::weighted(0.25, "[a-z][a-z0-9_]{0,5}"),
        name(),
        spec(dotted),
        prop::option::weighted(0.4, (plat(), prop::option::of(arch()), any::<bool>())),
        prop::collection::vec((var(), prop::option::of(val()), any::<bool>()), 0..=2),
    )
        .prop_map(|(flag, ns, name, spec, platform, env)| Full { flag, ns, name, spec, platform, env })
        .boxed()
}

/// C06
pub fn c06(c: &mut Ctx) {
    c.rule("requirements with flags, namespace, version spec, platform and environment conditions; non-trivial = at least two of those parts are present");
    c.check("parts", 15_000, 400_000, || (full(), prop::collection::vec(genv::version(false), 1..5)), |(f, vs): &(Full, Vec<String>)| {
        let text = f.text();
        let r: Requirement = text.parse().map_err(|e| format!("{text:?} rejected: {e}"))?;
        let printed = r.to_string();
        let r2: Requirement = printed.parse().map_err(|e| format!("{text:?} prints as {printed:?}, which is rejected: {e}"))?;
        let j = serde_json::to_string(&r).map_err(|e| e.to_string())?;
        let r3: Requirement = serde_json::from_str(&j).map_err(|e| format!("{text:?} does not load back from its serialized form: {e}"))?;
        for (how, r) in [("parsed", &r), ("printed and parsed again", &r2), ("serialized and loaded", &r3)] {
            if r.name != f.name || r.namespace != f.ns || r.weak != (f.flag == 1) || r.conflict != (f.flag == 2) {
                return Err(format!("{text:?} {how}: name {:?}, namespace {:?}, weak {}, conflict {}", r.name, r.namespace, r.weak, r.conflict));
            }
            let q = f.ns.as_ref().map(|n| format!("{n}::{}", f.name)).unwrap_or(f.name.clone());
            if r.qualified_name() != q {
                return Err(format!("{text:?} {how}: qualified name {:?}", r.qualified_name()));
            }
            for p in probes(&f.spec, vs) {
                if let Some(want) = f.spec.has(&p) {
                    if r.is_satisfied_by(&pv(&p)?) != want {
                        return Err(format!("{text:?} {how}: satisfied by {p:?} should be {want}"));
                    }
                }
            }
            for plat in ["linux", "windows", "darwin", "other"] {
                for arch in [None, Some("x86_64"), Some("arm64")] {
                    let want = match &f.platform {
                        None => true,
                        Some((p, a, neg)) => (p == plat && a.as_deref().is_none_or(|a| Some(a) == arch)) != *neg,
                    };
                    if r.is_platform_satisfied(plat, arch) != want {
                        return Err(format!("{text:?} {how}: platform {plat}/{arch:?} should be {want}"));
                    }
                }
            }
            for combo in 0..27u32 {
                let mut env = HashMap::new();
                for (i, k) in ["DCC", "STUDIO_ENV", "X"].iter().enumerate() {
                    match combo / 3u32.pow(i as u32) % 3 {
                        0 => {}
                        1 => drop(env.insert(k.to_string(), "maya".to_string())),
                        _ => drop(env.insert(k.to_string(), "a b".to_string())),
                    }
                }
                let want = f.env.iter().all(|(k, v, neg)| {
                    let m = match v {
                        Some(v) => env.get(k) == Some(v),
                        None => env.contains_key(k),
                    };
                    m != *neg
                });
                if r.is_env_satisfied(&env) != want {
                    return Err(format!("{text:?} {how}: environment {env:?} should be {want}"));
                }
            }
        }
        if f.ns.is_none() && f.platform.is_none() && f.env.is_empty() {
            let pr = PackageRequirement::parse(&text).map_err(|e| format!("{text:?} rejected: {e}"))?;
            let back = PackageRequirement::parse(&pr.to_string()).map_err(|e| format!("{:?} rejected: {e}", pr.to_string()))?;
            for pr in [&pr, &back] {
                if pr.name != f.name || pr.weak != (f.flag == 1) || pr.conflict != (f.flag == 2) {
                    return Err(format!("{text:?} as a package request: {pr:?}"));
                }
                for p in probes(&f.spec, vs) {
                    if let Some(want) = f.spec.has(&p) {
                        if pr.satisfied_by(&pv(&p)?) != want {
                            return Err(format!("{text:?} as a package request {pr}: {p:?} should be {want}"));
                        }
                    }
                }
            }
        }
        let parts = [f.flag > 0, f.ns.is_some(), f.spec != Spec::None, f.platform.is_some(), !f.env.is_empty()].iter().filter(|x| **x).count();
        Ok(Info::new(parts >= 2).label(f.flag == 1, "weak").label(f.flag == 2, "conflict").label(f.platform.is_some(), "platform").label(!f.env.is_empty(), "env"))
    });
    c.check("malformed", 15_000, 400_000, || {
        prop_oneof![
            (full(), any::<prop::sample::Index>(), "[<>=!@#$%^&*(){};:|/\\\\? \\t\\n]{1,2}").prop_map(|(f, i, x)| { let mut s = f.text(); let k = i.index(s.len() + 1); s.insert_str(k, &x); s }).boxed(),
            "[a-z0-9.<>=!~+,*\\[\\]:' -]{0,14}".boxed(), any::<String>().boxed()
        ]
    }, |s: &String| {
        match s.parse::<Requirement>() {
            Err(_) => Ok(Info::new(s.len() > 2).label(true, "rejected")),
            Ok(r) => {
                if r.name.is_empty() || !r.name.chars().all(|c| c.is_ascii_alphanumeric() || "_-.".contains(c)) {
                    return Err(format!("{s:?} accepted as a package called {:?}", r.name));
                }
                Ok(Info::new(s.len() > 2).label(true, "accepted"))
            }
        }
    });
}
