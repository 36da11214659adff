//! C14: package.py files mean what Python says they mean.
use crate::core::*;
use proptest::prelude::*;
use proptest::sample::select;
use rez_next_package::Package;
use rez_next_package::serialization::PackageSerializer;
use rez_next_rex::{RexActionType, RexParser};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}
/// What the Python interpreter makes of a package.py.
pub fn python(src: &str) -> Value {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let py = p.get_or_insert_with(|| {
            let mut child = Command::new("python3")
                .args(["-I", "-S", "-u", "-c", include_str!("pyworker.py")])
                .env("VPKG_SET", "On/x")
                .env_remove("VPKG_UNSET")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("python3");
            let (i, o) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Py { child, i, o }
        });
        writeln!(py.i, "{}", serde_json::to_string(src).unwrap()).unwrap();
        py.i.flush().unwrap();
        let mut l = String::new();
        py.o.read_line(&mut l).unwrap();
        serde_json::from_str(&l).unwrap_or_else(|e| panic!("python worker said {l:?}: {e}"))
    })
}

// ---- source generators -------------------------------------------------------

pub fn lit(t: &str, style: usize) -> String {
    let esc = |q: char| {
        let mut o = String::new();
        for c in t.chars() {
            match c {
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                '\t' => o += "\\t",
                '\r' => o += "\\r",
                c if c == q => {
                    o.push('\\');
                    o.push(c)
                }
                c => o.push(c),
            }
        }
        o
    };
    let raw_ok = !t.contains(['\'', '\\', '\n', '\r']);
    match style {
        1 => format!("'{}'", esc('\'')),
        2 if raw_ok => format!("r'{t}'"),
        3 if raw_ok && !t.is_empty() => {
            let k = t.char_indices().nth(t.chars().count() / 2).unwrap().0;
            format!("'{}' \"{}\"", &t[..k], t[k..].replace('"', "\\\""))
        }
        4 if !t.contains(['"', '\\', '\r']) => format!("\"\"\"{t}\"\"\""),
        _ => format!("\"{}\"", esc('"')),
    }
}
fn text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["a", "B", "x-1.0", "bin", "", "Foo Bar", "{root}/bin", "/opt/a:b", "1"]).prop_map(str::to_string),
        2 => select(vec!["it's", "say \"hi\"", "a\\b", "é漢", "two\nlines", "$HOME", "C:\\new", "a', 'b", "x')\nsetenv('Y', 'z", "\u{e000}", "{{x}}", "'\"", "#no", "tab\there", "`id`", "%s"]).prop_map(str::to_string),
        1 => "[a-zA-Z'\"{}\\\\$ .\n]{0,8}",
    ]
    .boxed()
}
fn str_lit() -> BoxedStrategy<String> {
    (text(), 0usize..5).prop_map(|(t, s)| lit(&t, s)).boxed()
}
fn int_lit() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (0i64..5).prop_map(|i| i.to_string()),
        1 => select(vec!["9223372036854775807", "4611686018427387904", "3037000500", "0x10", "1_000", "9223372036854775808", "2147483648", "4294967298"]).prop_map(str::to_string),
    ]
    .boxed()
}
/// Well-typed expressions of the supported kinds. `wild` adds everything else.
fn s_expr(d: u32, wild: bool) -> BoxedStrategy<String> {
    let leaf = prop_oneof![
        8 => str_lit(),
        3 => select(vec!["s1", "s2", "this.name", "this.version"]).prop_map(str::to_string),
        1 => select(vec!["this.version.major", "this.version.minor", "this.version.patch", "os.getenv('VPKG_SET')", "os.getenv('VPKG_UNSET', 'dflt')", "system.platform", "os.name"]).prop_map(str::to_string),
    ];
    if d == 0 {
        return leaf.boxed();
    }
    let s = || s_expr(d - 1, wild);
    let fmt = (prop::collection::vec(select(vec!["{0}", "{1}", "a", "-", "{{", "}}", "{0}", "é"]), 1..5), prop::collection::vec(prop_oneof![4 => s(), 2 => i_expr(0, false), 1 => b_expr(0, false), 1 => float()], 2..4))
        .prop_map(|(f, a)| format!("{}.format({})", lit(&f.concat(), 0), a.join(", ")));
    let mut v: Vec<(u32, BoxedStrategy<String>)> = vec![
        (8, leaf.boxed()),
        (4, (s(), s()).prop_map(|(a, b)| format!("({a} + {b})")).boxed()),
        (1, (s(), select(vec!["0", "1", "2", "-1", "3"])).prop_map(|(a, b)| format!("{a} * {b}")).boxed()),
        (1, s().prop_map(|a| format!("({a}).lower()")).boxed()),
        (2, fmt.boxed()),
        (2, (s(), b_expr(d - 1, wild), s()).prop_map(|(a, c, b)| format!("({a} if {c} else {b})")).boxed()),
    ];
    if wild {
        v.extend(vec![
            (1, (s(), s()).prop_map(|(a, b)| format!("({a} or {b})")).boxed()),
            (1, (s(), s()).prop_map(|(a, b)| format!("({a} and {b})")).boxed()),
            (1, s().prop_map(|a| format!("(os.getenv('VPKG_UNSET') or {a})")).boxed()),
            (1, (s(), s()).prop_map(|(a, b)| format!("'{{}}-{{}}'.format({a}, {b})")).boxed()),
            (1, s().prop_map(|a| format!("'{{k}}-{{0}}'.format('z', k={a})")).boxed()),
            (1, s().prop_map(|a| format!("'{{0:>9}}{{0!r}}'.format({a})")).boxed()),
            (1, select(vec!["'{0}'.format()", "'{'.format(1)", "'}'.format(1)", "'{2}'.format('a', 'b')", "'{name}/{0}'.format('x')", "'{ 0 }'.format('x')", "'{00}'.format('x')", "'{{{0}}}'.format('x')"]).prop_map(str::to_string).boxed()),
            (1, s().prop_map(|a| format!("f'<{{s1}}>' + {a}")).boxed()),
            (1, s().prop_map(|a| format!("({a})[0]")).boxed()),
            (1, s().prop_map(|a| format!("({a}).upper()")).boxed()),
            (1, s().prop_map(|a| format!("'%s' % ({a},)")).boxed()),
            (1, s().prop_map(|a| format!("({a}).lower(1)")).boxed()),
            (1, (s(), select(vec!["4611686018427387904", "-4611686018427387904"])).prop_map(|(a, b)| format!("{a} * {b}")).boxed()),
            (1, select(vec!["undefined_name", "s1 + 1", "this.nope", "this.version.major.x", "2 * 'ab'", "os.getenv('VPKG_UNSET')", "os.environ['VPKG_SET']"]).prop_map(str::to_string).boxed()),
        ]);
    }
    prop::strategy::Union::new_weighted(v).boxed()
}
fn float() -> BoxedStrategy<String> {
    select(vec!["1.0", "0.5", "2.25", "1e16", "1e-5", "0.0001", "123456789.125", "1e22", "100.0", "-0.0", "3e100"]).prop_map(str::to_string).boxed()
}
fn i_expr(d: u32, wild: bool) -> BoxedStrategy<String> {
    let leaf = if wild { prop_oneof![4 => int_lit(), 1 => Just("n1".to_string())].boxed() } else { prop_oneof![4 => (0i64..50).prop_map(|i| i.to_string()), 1 => Just("n1".to_string())].boxed() };
    if d == 0 {
        return leaf;
    }
    let i = || i_expr(d - 1, wild);
    prop_oneof![3 => leaf, 3 => (i(), select(vec!["+", "-", "*"]), i()).prop_map(|(a, o, b)| format!("({a} {o} {b})")), 1 => i().prop_map(|a| format!("-{a}")), 1 => i().prop_map(|a| format!("+{a}"))].boxed()
}
fn b_expr(d: u32, wild: bool) -> BoxedStrategy<String> {
    let leaf = prop_oneof![
        3 => select(vec!["True", "False", "b1", "(system.platform == 'linux')", "(os.name == 'nt')"]).prop_map(str::to_string),
        3 => (i_expr(0, wild), select(vec!["==", "<", ">"]), i_expr(0, wild)).prop_map(|(a, o, b)| format!("({a} {o} {b})")),
        2 => (i_expr(0, false), select(vec!["==", "<", ">"]), i_expr(0, false), select(vec!["==", "<", ">"]), i_expr(0, false)).prop_map(|(a, o, b, p, c)| format!("({a} {o} {b} {p} {c})")),
        2 => (str_lit(), select(vec!["==", "!="]), str_lit()).prop_map(|(a, o, b)| format!("({a} {o} {b})")),
        1 => (select(vec!["s1", "s2", "this.name"]), select(vec!["==", "!="]), str_lit()).prop_map(|(a, o, b)| format!("({a} {o} {b})")),
    ];
    if d == 0 {
        return leaf.boxed();
    }
    let b = || b_expr(d - 1, wild);
    let mut v: Vec<(u32, BoxedStrategy<String>)> = vec![
        (5, leaf.boxed()),
        (1, b().prop_map(|a| format!("(not {a})")).boxed()),
        (2, (b(), select(vec!["and", "or"]), b()).prop_map(|(a, o, c)| format!("({a} {o} {c})")).boxed()),
        (1, (b(), b()).prop_map(|(a, c)| format!("({a} == {c})")).boxed()),
    ];
    if wild {
        v.push((2, (b(), select(vec!["and", "or", "==", "!=", "<=", "in", "is"]), s_expr(0, true)).prop_map(|(a, o, c)| format!("({a} {o} {c})")).boxed()));
        v.push((1, s_expr(0, true).prop_map(|a| format!("(not {a})")).boxed()));
        v.push((1, (i_expr(1, true), select(vec!["<=", ">=", "!=", "=="]), float()).prop_map(|(a, o, c)| format!("({a} {o} {c})")).boxed()));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}
fn l_expr(d: u32, wild: bool, item: fn(u32, bool) -> BoxedStrategy<String>) -> BoxedStrategy<String> {
    let l = (prop::collection::vec(item(d, wild), 0..4), any::<bool>()).prop_map(|(v, tuple)| {
        if tuple && v.len() > 1 { format!("({})", v.join(", ")) } else { format!("[{}]", v.join(", ")) }
    });
    let list = prop::collection::vec(item(d, wild), 0..4).prop_map(|v| format!("[{}]", v.join(", ")));
    if wild {
        prop_oneof![4 => l.clone(), 2 => (list.clone(), l).prop_map(|(a, b)| format!("{a} + {b}")), 1 => list.clone().prop_map(|a| format!("[x for x in {a}]")), 1 => list.clone().prop_map(|a| format!("{a} * 2")), 1 => list.prop_map(|a| format!("[*{a}]"))].boxed()
    } else {
        prop_oneof![4 => l, 2 => (list.clone(), list).prop_map(|(a, b)| format!("{a} + {b}"))].boxed()
    }
}
fn req(_: u32, _: bool) -> BoxedStrategy<String> {
    select(vec!["'a'", "\"b-1.0+\"", "'c>=1.2,<2'", "('d-' + '1.5')", "'~e-2'", "'!f'", "'g-{0}'.format('3')"]).prop_map(str::to_string).boxed()
}
const STRS: [&str; 9] = ["description", "build_command", "build_system", "uuid", "help", "base", "requires_rez_version", "preprocess", "pre_build_commands"];
const LISTS: [&str; 2] = ["authors", "plugin_for"];
const REQS: [&str; 3] = ["requires", "build_requires", "private_build_requires"];
const BOOLS: [&str; 4] = ["relocatable", "cachable", "hashed_variants", "has_plugins"];

type Lines = Vec<String>;
fn indent(l: Lines) -> Lines {
    if l.is_empty() { vec!["    pass".into()] } else { l.into_iter().map(|x| format!("    {x}")).collect() }
}
/// Mostly supported statements, now and then a wild one.
fn mix(d: u32, wild: bool, f: fn(u32, bool) -> BoxedStrategy<Lines>) -> BoxedStrategy<Lines> {
    if wild { prop_oneof![9 => f(d, false), 1 => f(d, true)].boxed() } else { f(d, false) }
}
fn block(items: BoxedStrategy<Lines>, n: usize) -> BoxedStrategy<Lines> {
    prop::collection::vec(items, 0..n).prop_map(|v| v.concat()).boxed()
}
fn stmt(d: u32, wild: bool) -> BoxedStrategy<Lines> {
    let one = |s: BoxedStrategy<String>| s.prop_map(|x| vec![x]).boxed();
    let sfield = if wild { (select(STRS.to_vec()), prop_oneof![6 => s_expr(2, true), 1 => i_expr(1, true), 1 => float(), 1 => b_expr(1, true), 1 => Just("None".to_string())]).boxed() } else { (select(STRS.to_vec()), s_expr(2, false)).boxed() };
    let mut v: Vec<(u32, BoxedStrategy<Lines>)> = vec![
        (4, one(sfield.prop_map(|(f, e)| format!("{f} = {e}")).boxed())),
        (2, one((select(vec!["s1", "s2"]), s_expr(2, wild)).prop_map(|(f, e)| format!("{f} = {e}")).boxed())),
        (1, one(i_expr(2, wild).prop_map(|e| format!("n1 = {e}")).boxed())),
        (1, one(b_expr(2, wild).prop_map(|e| format!("b1 = {e}")).boxed())),
        (2, one((select(LISTS.to_vec()), l_expr(1, wild, s_expr)).prop_map(|(f, e)| format!("{f} = {e}")).boxed())),
        (2, one((select(REQS.to_vec()), l_expr(1, wild, req)).prop_map(|(f, e)| format!("{f} = {e}")).boxed())),
        (1, one(prop::collection::vec(l_expr(0, false, req), 0..4).prop_map(|e| format!("variants = [{}]", e.join(", "))).boxed())),
        (1, one(prop::collection::vec((str_lit(), s_expr(1, wild)), 0..3).prop_map(|e| format!("tests = {{{}}}", e.into_iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", "))).boxed())),
        (2, one((select(BOOLS.to_vec()), b_expr(2, wild)).prop_map(|(f, e)| format!("{f} = {e}")).boxed())),
        (1, one(i_expr(1, wild).prop_map(|e| format!("format_version = {e}")).boxed())),
        (1, one(select(vec!["version = '1.2.3'", "version = '2'", "version = '1-2.0'", "version = '1.0-beta+5'"]).prop_map(str::to_string).boxed())),
        (1, one(prop_oneof![Just("name = 'pkg' + '2'".to_string()), Just("\"\"\"doc\"\"\"".to_string()), Just("import os".to_string()), Just("# note".to_string())].boxed())),
    ];
    if d > 0 {
        v.push((2, (b_expr(2, wild), block(mix(d - 1, wild, stmt), 3), block(mix(d - 1, wild, stmt), 3)).prop_map(|(c, a, b)| {
            let mut o = vec![format!("if {c}:")];
            o.extend(indent(a));
            o.push("else:".into());
            o.extend(indent(b));
            o
        }).boxed()));
    }
    if wild {
        v.push((1, one(select(vec!["s1 = description = 'both'", "description = s1 = 'both'", "s1, s2 = 'x', 'y'", "description, help = 'd', 'h'", "name += 'x'", "s1: str = 't'", "tests = {**{'a': 'b'}}", "tests = {1: 'x'}", "variants = [['a']] + [['b']]", "variants = (('a',), ('b',))", "variants = [['a'], 'bc']", "requires = 'abc'", "authors = [None]", "tools = ['t', 1, True]", "commands = 'env.setenv(\"A\", \"b\")'", "commands = None", "commands = ['export A=b']", "for s1 in ['x']:\n    description = s1", "description = [1, 2]", "with_x = 1", "relocatable = None", "relocatable = 1", "format_version = True", "version = 1.0", "version = 3", "version = 1.10", "def helper():\n    return 1", "class X:\n    pass", "del s1", "s1.lower()", "assert True", "name = 5", "this.name = 'x'", "s1[0] = 'x'", "from os import path", "b1 = 1 if s1 else 2", "if s1:\n    description = 'truthy'", "if n1:\n    description = 'truthy'", "commands = 'x' 'y'"]).prop_map(str::to_string).boxed())));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}
fn cmd(d: u32, wild: bool) -> BoxedStrategy<Lines> {
    let one = |s: BoxedStrategy<String>| s.prop_map(|x| vec![x]).boxed();
    let var = || select(vec!["PATH", "FOO", "PKG_ROOT", "x_1"]);
    let s = || s_expr(2, wild);
    let mut v: Vec<(u32, BoxedStrategy<Lines>)> = vec![
        (3, one((var(), s()).prop_map(|(k, e)| format!("env.{k} = {e}")).boxed())),
        (4, one((select(vec!["env.setenv", "env.prepend_path", "env.append_path", "env.setenv_if_empty", "setenv", "prependenv", "appendenv"]), var(), s()).prop_map(|(f, k, e)| format!("{f}('{k}', {e})")).boxed())),
        (3, one((var(), select(vec!["prepend", "append", "set"]), s()).prop_map(|(k, f, e)| format!("env.{k}.{f}({e})")).boxed())),
        (1, one((select(vec!["env.unsetenv", "unsetenv", "resetenv"]), var()).prop_map(|(f, k)| format!("{f}('{k}')")).boxed())),
        (2, one((select(vec!["command", "source", "info", "error"]), s()).prop_map(|(f, e)| format!("{f}({e})")).boxed())),
        (1, one((select(vec!["ll", "my-tool"]), s()).prop_map(|(k, e)| format!("alias('{k}', {e})")).boxed())),
        (1, one(select(vec!["stop()", "stop('no')", "import os", "pass", "\"\"\"doc\"\"\""]).prop_map(str::to_string).boxed())),
        (1, one((select(vec!["s1", "s2"]), s_expr(1, false)).prop_map(|(f, e)| format!("{f}_l = {e}")).boxed())),
    ];
    if d > 0 {
        v.push((1, (b_expr(1, wild), block(mix(d - 1, wild, cmd), 3), block(mix(d - 1, wild, cmd), 3)).prop_map(|(c, a, b)| {
            let mut o = vec![format!("if {c}:")];
            o.extend(indent(a));
            o.push("else:".into());
            o.extend(indent(b));
            o
        }).boxed()));
    }
    if wild {
        v.push((2, one((select(vec!["env['X'] = 'sub'", "env.X.unset()", "env.X.unset('y')", "env.X.append('a', 'b')", "env.setenv('A', 'b', 'c')", "env.setenv('A')", "env.setenv(k='A', v='b')", "env.X = env.Y = 'two'", "env.X += 'more'", "env.X = None", "env.X = 1", "env.X = 1.0", "env.X = True", "env.X = [1]", "env.setenv('A', 1e16)", "alias('a', 'b', 'c')", "info('a', 'b')", "stop('a', 'b')", "for k in ['a']:\n        env.X = k", "return", "unknown('x')", "env.nosuch('A', 'b')", "env.X.nosuch('b')", "s1_l = s2_l = 'z'", "a, b = 'x', 'y'", "env.setenv(1, 2)", "env.setenv('two words', 'x')", "env.setenv('', 'x')", "this.x = 1", "s1_l + 'x'", "env.unsetenv('A', 'B')", "undefined_fn", "if s1:\n        env.X = 'truthy'"])).prop_map(str::to_string).boxed())));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}
fn source(wild: bool) -> BoxedStrategy<String> {
    let defs = prop::collection::vec((select(vec!["commands", "commands", "pre_commands", "post_commands", "pre_test_commands"]), block(mix(1, wild, cmd), 6)), 0..3);
    (block(mix(1, wild, stmt), 8), defs, block(mix(1, wild, stmt), 4))
        .prop_map(|(body, defs, after)| {
            let mut l: Lines = vec!["import os".into(), "name = 'pkg'".into(), "version = '1.5.2'".into(), "s1 = 'one'".into(), "s2 = \"Two\"".into(), "n1 = 7".into(), "b1 = True".into()];
            l.extend(body);
            for (n, b) in defs {
                l.push(format!("def {n}():"));
                l.extend(indent(b));
            }
            l.extend(after);
            l.join("\n") + "\n"
        })
        .boxed()
}

// ---- comparison ----------------------------------------------------------------

pub fn actions(text: &str) -> Result<Vec<Vec<String>>, String> {
    let a = RexParser::new().parse(text).map_err(|e| e.to_string())?;
    Ok(a.into_iter()
        .map(|a| match a.action_type {
            RexActionType::Setenv { name, value } => vec!["set".into(), name, value],
            RexActionType::Unsetenv { name } => vec!["unset".into(), name],
            RexActionType::PrependPath { name, value, .. } => vec!["prepend".into(), name, value],
            RexActionType::AppendPath { name, value, .. } => vec!["append".into(), name, value],
            RexActionType::SetenvIfEmpty { name, value } => vec!["default".into(), name, value],
            RexActionType::Alias { name, value } => vec!["alias".into(), name, value],
            RexActionType::Command { cmd } => vec!["command".into(), cmd],
            RexActionType::Source { path } => vec!["source".into(), path],
            RexActionType::Comment { text } => vec!["comment".into(), text],
            RexActionType::Resetenv { name } => vec!["reset".into(), name],
            RexActionType::Info { message } => vec!["info".into(), message],
            RexActionType::Error { message } => vec!["error".into(), message],
            RexActionType::Stop { message } => std::iter::once("stop".to_string()).chain(message).collect(),
        })
        .collect())
}
fn scalar(v: &Value) -> Value {
    v.get("s").cloned().unwrap_or(Value::Null)
}
fn list(v: &Value) -> Value {
    match v["v"].as_array() {
        Some(a) if v["t"] == "list" => Value::Array(a.iter().map(scalar).collect()),
        _ => v.clone(),
    }
}
/// Err(difference); Ok(number of fields and actions compared).
fn agree(pkg: &Package, py: &Value, refused: &mut bool) -> Result<usize, String> {
    if py.get("error").is_some() {
        return Ok(0); // Python gives it no meaning to compare with
    }
    let f = &py["fields"];
    let mut n = 0;
    let mut cmp = |k: &str, got: Value, conv: &dyn Fn(&Value) -> Value, absent: Value| {
        let want = f.get(k).map(conv).unwrap_or(absent);
        n += usize::from(f.get(k).is_some());
        if got == want { Ok(()) } else { Err(format!("{k} is {got}, Python says {want}")) }
    };
    let s = |v: &Value| scalar(v);
    cmp("name", json!(pkg.name), &s, json!(null))?;
    cmp("version", json!(pkg.version.as_ref().map(|v| v.as_str())), &s, json!(null))?;
    for k in STRS {
        let got = match k {
            "description" => &pkg.description,
            "build_command" => &pkg.build_command,
            "build_system" => &pkg.build_system,
            "uuid" => &pkg.uuid,
            "help" => &pkg.help,
            "base" => &pkg.base,
            "requires_rez_version" => &pkg.requires_rez_version,
            "preprocess" => &pkg.preprocess,
            _ => &pkg.pre_build_commands,
        };
        cmp(k, json!(got), &s, json!(null))?;
    }
    let l = |v: &Value| list(v);
    cmp("authors", json!(pkg.authors), &l, json!([]))?;
    cmp("plugin_for", json!(pkg.plugin_for), &l, json!([]))?;
    cmp("tools", json!(pkg.tools), &l, json!([]))?;
    cmp("requires", json!(pkg.requires), &l, json!([]))?;
    cmp("build_requires", json!(pkg.build_requires), &l, json!([]))?;
    cmp("private_build_requires", json!(pkg.private_build_requires), &l, json!([]))?;
    cmp("variants", json!(pkg.variants), &|v: &Value| v["v"].as_array().map(|a| Value::Array(a.iter().map(list).collect())).unwrap_or_else(|| v.clone()), json!([]))?;
    cmp("tests", json!(pkg.tests), &|v: &Value| {
        v["v"].as_array().map(|a| Value::Object(a.iter().map(|kv| (scalar(&kv[0]).as_str().unwrap_or("?").to_string(), scalar(&kv[1]))).collect())).unwrap_or_else(|| v.clone())
    }, json!({}))?;
    let b = |v: &Value| v.get("v").cloned().unwrap_or(Value::Null);
    cmp("relocatable", json!(pkg.relocatable), &b, json!(null))?;
    cmp("cachable", json!(pkg.cachable), &b, json!(null))?;
    cmp("hashed_variants", json!(pkg.hashed_variants), &b, json!(null))?;
    cmp("has_plugins", json!(pkg.has_plugins), &b, json!(null))?;
    cmp("format_version", json!(pkg.format_version.map(|i| i.to_string())), &s, json!(null))?;
    for (k, got) in [("commands", &pkg.commands), ("pre_commands", &pkg.pre_commands), ("post_commands", &pkg.post_commands), ("pre_test_commands", &pkg.pre_test_commands)] {
        if let Some(v) = f.get(k) {
            n += 1;
            let want = scalar(v);
            if json!(got) != want {
                return Err(format!("{k} is {got:?}, Python says {want}"));
            }
            continue;
        }
        let want: Vec<Vec<String>> = serde_json::from_value(py["actions"].get(k).cloned().unwrap_or(json!([]))).unwrap();
        let got = match got.as_deref().map(actions) {
            None => vec![],
            Some(Ok(a)) => a,
            Some(Err(_)) => {
                *refused = true;
                continue;
            }
        };
        n += want.len();
        if got != want {
            return Err(format!("{k} gives {got:?}, Python gives {want:?}"));
        }
    }
    Ok(n)
}

pub fn c14(c: &mut Ctx) {
    // SAFETY: set before any worker thread exists
    unsafe {
        std::env::set_var("VPKG_SET", "On/x");
        std::env::remove_var("VPKG_UNSET");
    }
    c.rule("supported: package.py text from well-typed assignments, conditions, expressions and command functions, which must be read as Python executes it; any: the same mixed with ill-typed and unsupported constructs, which may instead be refused; non-trivial = at least 6 values or commands compared");
    c.assume("python3 is the reference");
    c.check("supported", 4_000, 400_000, || source(false), |src: &String| {
        let py = python(src);
        let loaded = PackageSerializer::load_from_python(src);
        if let (Some(_), Err(_)) = (py.get("error"), &loaded) {
            return Ok(Info::new(false).label(true, "both-refuse"));
        }
        let pkg = loaded.map_err(|e| format!("refused: {e}\n{src}"))?;
        let mut refused = false;
        let n = agree(&pkg, &py, &mut refused).map_err(|e| format!("{e}\n{src}"))?;
        if refused {
            return Err(format!("commands refused\n{src}"));
        }
        Ok(Info::new(n >= 6).label(src.contains("if "), "conditions").label(src.contains("def "), "commands").label(src.contains(".format("), "format"))
    });
    c.check("any", 7_000, 800_000, || source(true), |src: &String| {
        let py = python(src);
        let Ok(pkg) = PackageSerializer::load_from_python(src) else {
            return Ok(Info::new(false).label(true, "refused").label(py.get("error").is_none(), "refused-valid"));
        };
        let mut refused = false;
        let n = agree(&pkg, &py, &mut refused).map_err(|e| format!("{e}\n{src}"))?;
        Ok(Info::new(n >= 6).label(true, "accepted").label(py.get("error").is_some(), "python-fails").label(refused, "commands-refused"))
    });
}
