//! C17: package definitions survive writing and reading in every format.
use super::pypkg::{actions, python};
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::serialization::{PackageFormat, PackageSerializer, SerializationOptions};
use rez_next_package::{DeveloperPackage, Package};
use rez_next_serialise::{FileFormat, dict_to_attributes_code, dump_package_data, read_package_data};
use rez_next_version::Version;
use serde_json::{Map, Value, json};

pub type Doc = Map<String, Value>;

const TEXTS: [&str; 13] = ["description", "build_command", "build_system", "requires_rez_version", "uuid", "help", "revision", "changelog", "release_message", "previous_revision", "vcs", "base", "preprocess"];
const COMMANDS: [&str; 5] = ["pre_commands", "commands", "post_commands", "pre_test_commands", "pre_build_commands"];
const VERSIONS: [&str; 2] = ["version", "previous_version"];
const LISTS: [&str; 6] = ["authors", "requires", "build_requires", "private_build_requires", "tools", "plugin_for"];
const BOOLS: [&str; 4] = ["relocatable", "cachable", "has_plugins", "hashed_variants"];

fn text() -> BoxedStrategy<String> {
    let piece = select(vec![
        "a", "B c", "'", "\"", "\\", "\n", "\r", "\t", "é漢", "😀", "{root}", "%s", "# ", "- ", ": ", ",", "[", "]", "<b>", "</name>", "&amp;", "&lt;", "'''", "\"\"\"", "\\n", "\\u0041", "  ", "\n- x", "\n\n", "!", "*", "|", ">", "\u{1}", "\u{7f}", "null", "0", "\u{feff}",
    ]);
    prop_oneof![
        3 => select(vec!["plain", "two words", "", "yes", "null", "1.0", "~", "0x1F", "12e3", " lead", "trail ", "- item", "a: b", "!tag", "&anchor", "true", "2020-01-01", "---", "...", "x\ny", "x\n", "\n", "tab\tbed", "{}", "[a]", "'quoted'", "%YAML", "=", "<<"]).prop_map(str::to_string),
        4 => prop::collection::vec(piece, 1..6).prop_map(|v| v.concat()),
    ]
    .boxed()
}
fn some_text() -> BoxedStrategy<String> {
    text().prop_map(|t| if t.is_empty() { "x".into() } else { t }).boxed()
}
fn commands() -> BoxedStrategy<String> {
    let line = prop_oneof![
        4 => select(vec!["env.setenv('A', 'b')", "env.setenv(\"A\", \"{root}/bin\")", "env.PATH.prepend('{root}/bin')", "alias('x', 'y -z')", "stop()", "# note", "", "export A=\"b c\"", "command('echo \"hi\"')", "    indented", "unsetenv('X')", "info('it''s')", "x = 1", "if True:", "def commands():"]).prop_map(str::to_string),
        1 => text(),
    ];
    prop::collection::vec(line, 0..4).prop_map(|l| l.join("\n")).boxed()
}
fn field() -> BoxedStrategy<(String, Value)> {
    let named = |n: &'static [&'static str]| select(n.to_vec()).prop_map(str::to_string);
    let ver = || select(vec!["1.0", "1", "2.0.1", "1.0-beta.1", "007", "alpha", "1.2.3.4"]);
    prop_oneof![
        5 => (named(&TEXTS), text()).prop_map(|(k, v)| (k, json!(v))),
        3 => (named(&COMMANDS), commands()).prop_map(|(k, v)| (k, json!(v))),
        3 => (named(&VERSIONS), ver()).prop_map(|(k, v)| (k, json!(v))),
        5 => (named(&LISTS), prop::collection::vec(some_text(), 0..4)).prop_map(|(k, v)| (k, json!(v))),
        3 => prop::collection::vec(prop::collection::vec(some_text(), 0..3), 0..4).prop_map(|v| ("variants".into(), json!(v))),
        2 => prop::collection::btree_map(text(), text(), 0..4).prop_map(|v| ("tests".into(), json!(v))),
        2 => (named(&BOOLS), any::<bool>()).prop_map(|(k, v)| (k, json!(v))),
        1 => prop_oneof![any::<i64>(), 0i64..2_000_000_000].prop_map(|v| ("timestamp".into(), json!(v))),
        1 => any::<i32>().prop_map(|v| ("format_version".into(), json!(v))),
    ]
    .boxed()
}
pub fn doc() -> BoxedStrategy<Doc> {
    (select(vec!["foo", "my_pkg", "a-b", "x1", "_u", "Été", "null", "yes", "1"]), prop::collection::vec(field(), 0..12))
        .prop_map(|(n, f)| {
            let mut d: Doc = f.into_iter().collect();
            d.insert("name".into(), json!(n));
            d
        })
        .boxed()
}

/// The package a document describes.
pub fn build(d: &Doc) -> Package {
    let s = |k: &str| d.get(k).map(|v| v.as_str().unwrap().to_string());
    let l = |k: &str| -> Vec<String> { d.get(k).map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_default() };
    let b = |k: &str| d.get(k).and_then(|v| v.as_bool());
    let v = |k: &str| s(k).map(|t| Version::parse(&t).unwrap());
    let mut p = Package::new(s("name").unwrap());
    p.version = v("version");
    p.previous_version = v("previous_version");
    p.description = s("description");
    p.build_command = s("build_command");
    p.build_system = s("build_system");
    p.requires_rez_version = s("requires_rez_version");
    p.uuid = s("uuid");
    p.help = s("help");
    p.revision = s("revision");
    p.changelog = s("changelog");
    p.release_message = s("release_message");
    p.previous_revision = s("previous_revision");
    p.vcs = s("vcs");
    p.base = s("base");
    p.preprocess = s("preprocess");
    p.pre_commands = s("pre_commands");
    p.commands = s("commands");
    p.post_commands = s("post_commands");
    p.pre_test_commands = s("pre_test_commands");
    p.pre_build_commands = s("pre_build_commands");
    p.authors = l("authors");
    p.requires = l("requires");
    p.build_requires = l("build_requires");
    p.private_build_requires = l("private_build_requires");
    p.tools = l("tools");
    p.plugin_for = l("plugin_for");
    p.variants = d.get("variants").map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_default();
    p.tests = d.get("tests").map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_default();
    p.relocatable = b("relocatable");
    p.cachable = b("cachable");
    p.has_plugins = b("has_plugins");
    p.hashed_variants = b("hashed_variants");
    p.timestamp = d.get("timestamp").and_then(|v| v.as_i64());
    p.format_version = d.get("format_version").and_then(|v| v.as_i64()).map(|v| v as i32);
    p
}
/// The document a package stands for: every field that is set.
pub fn view(p: &Package) -> Doc {
    let mut d = Doc::new();
    let mut put = |k: &str, v: Value| {
        if !(v.is_null() || v.as_array().is_some_and(|a| a.is_empty()) || v.as_object().is_some_and(|a| a.is_empty())) {
            d.insert(k.into(), v);
        }
    };
    put("name", json!(p.name));
    put("version", json!(p.version.as_ref().map(|v| v.as_str().to_string())));
    put("previous_version", json!(p.previous_version.as_ref().map(|v| v.as_str().to_string())));
    for (k, v) in [
        ("description", &p.description), ("build_command", &p.build_command), ("build_system", &p.build_system), ("requires_rez_version", &p.requires_rez_version), ("uuid", &p.uuid),
        ("help", &p.help), ("revision", &p.revision), ("changelog", &p.changelog), ("release_message", &p.release_message), ("previous_revision", &p.previous_revision), ("vcs", &p.vcs),
        ("base", &p.base), ("preprocess", &p.preprocess), ("pre_commands", &p.pre_commands), ("commands", &p.commands), ("post_commands", &p.post_commands),
        ("pre_test_commands", &p.pre_test_commands), ("pre_build_commands", &p.pre_build_commands),
    ] {
        put(k, json!(v));
    }
    for (k, v) in [("authors", &p.authors), ("requires", &p.requires), ("build_requires", &p.build_requires), ("private_build_requires", &p.private_build_requires), ("tools", &p.tools), ("plugin_for", &p.plugin_for)] {
        put(k, json!(v));
    }
    put("variants", json!(p.variants));
    put("tests", json!(p.tests));
    for (k, v) in [("relocatable", p.relocatable), ("cachable", p.cachable), ("has_plugins", p.has_plugins), ("hashed_variants", p.hashed_variants), ("is_dev_package", p.is_dev_package)] {
        put(k, json!(v));
    }
    put("timestamp", json!(p.timestamp));
    put("format_version", json!(p.format_version));
    d
}
fn compare(what: &str, got: Doc, want: &Doc, text: &dyn Fn() -> String) -> Result<(), String> {
    let keys: std::collections::BTreeSet<&String> = got.keys().chain(want.keys()).collect();
    for k in keys {
        if got.get(k) != want.get(k) {
            return Err(format!("{what}: {k} is {:?}, expected {:?}\n{}", got.get(k), want.get(k), text()));
        }
    }
    Ok(())
}
/// What the Python worker reports for a JSON value.
fn enc(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "none"}),
        Value::Bool(b) => json!({"t": "bool", "v": b, "s": if *b { "True" } else { "False" }}),
        Value::Number(n) if n.is_f64() => json!({"t": "float", "s": n.as_f64().unwrap().to_bits().to_string()}),
        Value::Number(n) => json!({"t": "int", "s": n.to_string()}),
        Value::String(s) => json!({"t": "str", "s": s}),
        Value::Array(a) => json!({"t": "list", "v": a.iter().map(enc).collect::<Vec<_>>()}),
        Value::Object(o) => {
            let mut e: Vec<Value> = o.iter().map(|(k, x)| json!([enc(&json!(k)), enc(x)])).collect();
            e.sort_by_key(|x| x.to_string());
            json!({"t": "dict", "v": e})
        }
    }
}
/// Floats by bits, dictionary items in a fixed order.
fn canon(v: &Value) -> Value {
    match v["t"].as_str() {
        Some("float") => json!({"t": "float", "s": v["s"].as_str().unwrap().parse::<f64>().unwrap().to_bits().to_string()}),
        Some("list") => json!({"t": "list", "v": v["v"].as_array().unwrap().iter().map(canon).collect::<Vec<_>>()}),
        Some("dict") => {
            let mut e: Vec<Value> = v["v"].as_array().unwrap().iter().map(|p| json!([canon(&p[0]), canon(&p[1])])).collect();
            e.sort_by_key(|x| x.to_string());
            json!({"t": "dict", "v": e})
        }
        _ => v.clone(),
    }
}

const FORMATS: [PackageFormat; 8] = [PackageFormat::Yaml, PackageFormat::Json, PackageFormat::Python, PackageFormat::YamlCompressed, PackageFormat::JsonCompressed, PackageFormat::Binary, PackageFormat::Toml, PackageFormat::Xml];
const XML: [&str; 5] = ["name", "version", "description", "authors", "requires"];

fn wild_json(d: u32) -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        4 => text().prop_map(Value::from),
        1 => any::<bool>().prop_map(Value::from),
        1 => Just(Value::Null),
        1 => any::<i64>().prop_map(Value::from),
        1 => any::<u64>().prop_map(Value::from),
        1 => prop_oneof![any::<i16>().prop_map(|i| i as f64 / 8.0), (0i32..100).prop_map(|i| i as f64), Just(1e300), Just(-2.5e-7), Just(1e16), Just(1.5e16)].prop_map(Value::from),
    ];
    if d == 0 {
        return leaf.boxed();
    }
    prop_oneof![
        3 => leaf,
        2 => prop::collection::vec(wild_json(d - 1), 0..4).prop_map(Value::from),
        2 => prop::collection::btree_map(text(), wild_json(d - 1), 0..4).prop_map(|m| Value::Object(m.into_iter().collect())),
    ]
    .boxed()
}

fn dedent(t: &str) -> String {
    let n = t.split('\n').filter(|l| !l.trim().is_empty()).map(|l| l.chars().take_while(|c| *c == ' ').count()).min().unwrap_or(0);
    t.split('\n').map(|l| l.get(n..).unwrap_or("")).collect::<Vec<_>>().join("\n").trim_end_matches('\n').to_string()
}

pub fn c17(c: &mut Ctx) {
    c.rule("formats: packages written and read back in all eight formats with generated options; documents: YAML and JSON documents read and compared field by field; python: attribute code executed by Python; garbage: damaged documents; non-trivial = some text holds a quote, backslash, newline, control or non-ASCII character, or a variant list is nested");
    c.assume("XML holds name, version, description, authors and requirements only; config, filepath and includes are not part of the written form; help, tests and revisions hold texts only; the YAML library mangles U+2028 and U+0085 in block texts, so these are not generated");
    let special = |d: &Doc| Value::Object(d.clone()).to_string().contains(['\\', '\'']) || d.get("variants").and_then(|v| v.as_array()).is_some_and(|v| v.iter().any(|x| x.as_array().unwrap().len() > 1));
    c.check(
        "formats",
        20_000,
        300_000,
        || (doc(), select(FORMATS.to_vec()).prop_map(|f| FORMATS.iter().position(|x| *x == f).unwrap()), 0u8..5, any::<bool>(), any::<bool>(), any::<bool>(), prop::option::of(prop::collection::vec(0usize..34, 0..6)), prop::option::of(prop::collection::vec(0usize..34, 0..6))),
        |(d, f, how, pretty, meta, stamps, only, without): &(Doc, usize, u8, bool, bool, bool, Option<Vec<usize>>, Option<Vec<usize>>)| {
            let p = build(d);
            let f = FORMATS[*f];
            let mut want = view(&p);
            let name = |i: &usize| {
                TEXTS.iter().chain(&COMMANDS).chain(&VERSIONS).chain(&LISTS).chain(&BOOLS).chain(&["variants", "tests", "timestamp", "format_version"]).nth(*i).unwrap().to_string()
            };
            let dir = tempfile::tempdir().unwrap();
            let path = dir.path().join(f.default_filename());
            let written;
            let got = if *how == 0 {
                written = PackageSerializer::save_to_string(&p, f).map_err(|e| format!("{f:?}: {e}"))?;
                PackageSerializer::load_from_string(&written, f)
            } else {
                let o = match how {
                    1 => None,
                    2 => Some(SerializationOptions::minimal()),
                    3 => {
                        want.remove("description");
                        want.remove("help");
                        Some(SerializationOptions::compact())
                    }
                    _ => {
                        let mut o = SerializationOptions { pretty_print: *pretty, include_metadata: *meta, include_timestamps: *stamps, ..SerializationOptions::new() };
                        if f != PackageFormat::Binary {
                            if let Some(x) = only {
                                let x: Vec<String> = x.iter().map(name).collect();
                                want.retain(|k, _| k == "name" || x.contains(k));
                                o.set_include_only(x);
                            }
                            if let Some(x) = without {
                                let x: Vec<String> = x.iter().map(name).collect();
                                want.retain(|k, _| !x.contains(k));
                                o.set_exclude_fields(x);
                            }
                        }
                        Some(o)
                    }
                };
                if f == PackageFormat::Binary {
                    want = view(&p);
                }
                PackageSerializer::save_to_file_with_options(&p, &path, f, o).map_err(|e| format!("{f:?}: {e}"))?;
                written = String::from_utf8_lossy(&std::fs::read(&path).unwrap()).into_owned();
                PackageSerializer::load_from_file(&path)
            };
            let text = || format!("{f:?} text:\n{written}");
            let got = got.map_err(|e| format!("{f:?}: what was written cannot be read: {e}\n{}", text()))?;
            let mut got = view(&got);
            if f == PackageFormat::Xml {
                want.retain(|k, _| XML.contains(&k.as_str()));
                got.retain(|k, _| XML.contains(&k.as_str()));
            }
            if f == PackageFormat::Python {
                // commands may be spelled differently if they do the same
                for k in COMMANDS {
                    if let (Some(a), Some(b)) = (got.get(k).and_then(|v| v.as_str()), want.get(k).and_then(|v| v.as_str())) {
                        let (a, b) = (dedent(a), dedent(b));
                        let same = a == b || b.lines().all(|l| l.ends_with(')')) && actions(&b).map_or(true, |b| actions(&a) == Ok(b));
                        got.insert(k.into(), json!(a));
                        want.insert(k.into(), json!(if same { a } else { b }));
                    }
                }
            }
            compare(&format!("{f:?}, way {how}"), got, &want, &text)?;
            if f == PackageFormat::Python {
                // and Python itself agrees
                let py = python(&written);
                if !py["error"].is_null() {
                    return Err(format!("Python refuses what was written: {}\n{}", py["error"], text()));
                }
                for (k, v) in &want {
                    let text_of = |x: &Value| if COMMANDS.contains(&k.as_str()) { x["s"].as_str().map_or(x.clone(), |t| enc(&json!(dedent(t)))) } else { x.clone() };
                    match py["fields"].get(k).map(text_of).as_ref() {
                        Some(x) if canon(x) == enc(v) => {}
                        None if COMMANDS.contains(&k.as_str()) && py["actions"].get(k).is_some() => {}
                        x => return Err(format!("Python reads {k} as {x:?}, expected {v}\n{}", text())),
                    }
                }
            }
            Ok(Info::new(special(d)).label(f == PackageFormat::Python, "python").label(matches!(f, PackageFormat::Yaml | PackageFormat::YamlCompressed), "yaml").label(*how == 4, "options"))
        },
    );
    c.check("documents", 15_000, 200_000, || (doc(), prop::option::of((0usize..34, wild_json(1))), 0u8..4, any::<bool>(), prop::collection::btree_map("[a-z]{3,6}_x", wild_json(1), 0..3), prop::option::of(prop::collection::vec(text(), 0..3))), |(d, bad, how, nulls, extra, lines): &(Doc, Option<(usize, Value)>, u8, bool, std::collections::BTreeMap<String, Value>, Option<Vec<String>>)| {
        let mut want = view(&build(d));
        let mut doc = d.clone();
        doc.extend(extra.clone());
        if *nulls {
            for k in TEXTS {
                doc.entry(k).or_insert(Value::Null);
            }
        }
        if let Some(l) = lines {
            doc.insert("commands".into(), json!(l));
            want.insert("commands".into(), json!(l.join("\n")));
        }
        let mut refused = false;
        if let Some((i, v)) = bad {
            let all: Vec<&str> = TEXTS.into_iter().chain(COMMANDS).chain(VERSIONS).chain(LISTS).chain(BOOLS).chain(["variants", "timestamp", "format_version", "name"]).collect();
            let k = all[*i];
            let texts_only = |v: &Value| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string()));
            let fits = v.is_null() && k != "name"
                || (TEXTS.contains(&k) || COMMANDS.contains(&k)) && v.is_string()
                || (LISTS.contains(&k) || COMMANDS.contains(&k)) && texts_only(v)
                || BOOLS.contains(&k) && v.is_boolean()
                || k == "variants" && v.as_array().is_some_and(|a| a.iter().all(texts_only))
                || k == "timestamp" && v.as_i64().is_some()
                || k == "format_version" && v.as_i64().is_some_and(|n| i32::try_from(n).is_ok())
                || VERSIONS.contains(&k) && v.as_str().is_some_and(|t| Version::parse(t).is_ok())
                || k == "name" && v.as_str().is_some_and(|t| !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-'))
                || ["help", "revision", "previous_revision"].contains(&k);
            if !fits {
                doc.insert(k.into(), v.clone());
                refused = true;
            }
        }
        let doc = Value::Object(doc);
        let dir = tempfile::tempdir().unwrap();
        let (text, got) = match how {
            0 => {
                let t = doc.to_string();
                (t.clone(), PackageSerializer::load_from_json(&t).map_err(|e| e.to_string()))
            }
            1 => {
                let t = serde_yaml::to_string(&doc).unwrap();
                (t.clone(), PackageSerializer::load_from_yaml(&t).map_err(|e| e.to_string()))
            }
            2 => {
                // JSON is YAML
                let t = doc.to_string().replace('\u{7f}', "\\u007f").replace('\u{85}', "\\u0085").replace('\u{feff}', "\\ufeff").replace('\u{2028}', "\\u2028");
                std::fs::write(dir.path().join("package.yaml"), &t).unwrap();
                (t, PackageSerializer::load_from_file(&dir.path().join("package.yaml")).map_err(|e| e.to_string()))
            }
            _ => {
                let t = serde_yaml::to_string(&doc).unwrap();
                std::fs::write(dir.path().join("package.yaml"), &t).unwrap();
                (t, DeveloperPackage::from_path(dir.path()).map(|p| p.package).map_err(|e| e.to_string()))
            }
        };
        match (got, refused) {
            (Err(_), true) => {}
            (Ok(p), true) => return Err(format!("a field of the wrong type was accepted: {:?}\n{text}", view(&p))),
            (Err(e), false) => return Err(format!("refused: {e}\n{text}")),
            (Ok(p), false) => compare("document", view(&p), &want, &|| text.clone())?,
        }
        Ok(Info::new(special(d)).label(refused, "wrong-type").label(*how > 1, "file"))
    });
    // every flag on its own, as the package's own writer spells it
    c.check("flags", 60, 60, || (select(BOOLS.to_vec()).prop_map(str::to_string), any::<bool>()), |(k, v): &(String, bool)| {
        let mut d = Doc::new();
        d.insert("name".into(), json!("x"));
        d.insert(k.clone(), json!(v));
        let code = build(&d).to_package_py();
        let py = python(&code);
        if !py["error"].is_null() || py["fields"].get(k).map(canon) != Some(enc(&json!(v))) {
            return Err(format!("Python reads {k} = {v} as {:?} {}\n{code}", py["fields"].get(k), py["error"]));
        }
        Ok(Info::new(true))
    });
    c.check("python", 10_000, 150_000, || prop::collection::btree_map(prop_oneof![select(vec!["name", "version", "requires", "tests", "config", "zeta"]).prop_map(str::to_string), "[a-z]{2,5}_[a-z0-9]"], wild_json(3), 0..6), |m: &std::collections::BTreeMap<String, Value>| {
        let code = dict_to_attributes_code(m).map_err(|e| e.to_string())?;
        let py = python(&code);
        if !py["error"].is_null() {
            return Err(format!("Python refuses the code: {}\n{code}", py["error"]));
        }
        let got = py["fields"].as_object().unwrap();
        if got.len() != m.len() {
            return Err(format!("Python finds {:?}\n{code}", got.keys().collect::<Vec<_>>()));
        }
        for (k, v) in m {
            let g = got.get(k).map(canon);
            if g != Some(enc(v)) {
                return Err(format!("Python reads {k} as {g:?}, expected {v}\n{code}"));
            }
        }
        let dir = tempfile::tempdir().unwrap();
        for (i, f) in [FileFormat::Yaml, FileFormat::Json, FileFormat::YamlCompressed, FileFormat::JsonCompressed].into_iter().enumerate() {
            let p = dir.path().join(format!("f{i}"));
            dump_package_data(m, &p, f).map_err(|e| e.to_string())?;
            let back: Value = read_package_data(&p, f).map_err(|e| e.to_string())?;
            if enc(&back) != enc(&json!(m)) {
                return Err(format!("{f:?} reads back {back}, wrote {}", json!(m)));
            }
        }
        Ok(Info::new(json!(m).to_string().contains(['\\', '\''])).label(m.values().any(|v| v.is_object()), "nested"))
    });
    c.check(
        "garbage",
        20_000,
        500_000,
        || (doc(), 0usize..8, prop::collection::vec((any::<u32>(), prop_oneof![3 => select(vec!["", "<", ">", "</name>", "<name>", "\n", "'", "\"", "{", "[", "\0", "é", ":", "- ", "&", "99999999999999999999", "!!", "\\"]).prop_map(str::to_string), 1 => "\\PC{0,4}"], 0usize..6), 1..6)),
        |(d, f, edits): &(Doc, usize, Vec<(u32, String, usize)>)| {
            let f = FORMATS[*f];
            let mut t: Vec<char> = PackageSerializer::save_to_string(&build(d), f).map_err(|e| e.to_string())?.chars().collect();
            for (at, new, cut) in edits {
                let i = *at as usize % (t.len() + 1);
                let j = (i + cut).min(t.len());
                t.splice(i..j, new.chars());
            }
            let t: String = t.into_iter().collect();
            let r = PackageSerializer::load_from_string(&t, f);
            Ok(Info::new(true).label(r.is_ok(), "accepted"))
        },
    );
}
