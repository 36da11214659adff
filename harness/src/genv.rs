//! Generators for version text.
use proptest::prelude::*;
use proptest::sample::select;

pub fn num_tok() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["0", "1", "2", "3", "9", "10", "11"]).prop_map(str::to_string),
        2 => select(vec!["00", "01", "010", "99", "100", "000"]).prop_map(str::to_string),
        2 => (0u32..3000).prop_map(|n| n.to_string()),
        1 => select(vec!["2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
            "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999", "100000000000000000000000000000000000000000"])
            .prop_map(str::to_string),
    ]
    .boxed()
}
pub fn alpha_tok() -> BoxedStrategy<String> {
    prop_oneof![
        5 => select(vec!["a", "b", "A", "B", "alpha", "beta", "rc", "dev", "z", "Z", "alphb", "x"]).prop_map(str::to_string),
        2 => "[a-zA-Z]{1,8}".prop_filter("reserved", |s| s != "not" && s != "version"),
        1 => "[a-z]{1,3}_[a-z]{1,3}",
    ]
    .boxed()
}
pub fn mixed_tok() -> BoxedStrategy<String> {
    prop_oneof![
        5 => select(vec!["rc1", "rc2", "rc10", "rc01", "alpha1", "alpha2", "alpha10", "1a", "2a", "10a", "1b", "a1b2", "a1b10", "a01b2", "0a", "1a1", "a0", "a00", "b1", "1rc1"]).prop_map(str::to_string),
        2 => (alpha_short(), 0u32..12).prop_map(|(a, n)| format!("{a}{n}")),
        2 => (0u32..12, alpha_short()).prop_map(|(n, a)| format!("{n}{a}")),
        1 => "[a-c][0-2]{1,2}[a-c]{0,2}[0-2]{0,2}",
        1 => "[0-9]{1,2}_[0-9]{1,2}",
        1 => select(vec!["a18446744073709551616", "a9", "a18446744073709551615", "99999999999999999999a"]).prop_map(|s| s[..s.len().min(30)].to_string()),
    ]
    .boxed()
}
fn alpha_short() -> BoxedStrategy<String> {
    "[a-cA-B]{1,2}".boxed()
}
pub fn tok() -> BoxedStrategy<String> {
    prop_oneof![6 => num_tok(), 2 => alpha_tok(), 3 => mixed_tok()].boxed()
}
fn join(ts: Vec<String>, seps: Vec<char>) -> String {
    let mut s = String::new();
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            s.push(seps[(i - 1) % seps.len()]);
        }
        s.push_str(t);
    }
    if s.starts_with(['v', 'V']) || s == "inf" || s == "epsilon" {
        s.insert(0, '1');
    }
    s
}
/// token lists of up to 5 tokens, joined; `+` only when `plus`
pub fn version(plus: bool) -> BoxedStrategy<String> {
    let sep = if plus { vec!['.', '.', '.', '.', '-', '+'] } else { vec!['.', '.', '.', '.', '-'] };
    prop_oneof![
        6 => (prop::collection::vec(tok(), 1..=5), prop::collection::vec(select(sep), 1..=2)).prop_map(|(t, s)| join(t, s)),
        6 => prop::collection::vec(num_tok(), 1..=4).prop_map(|t| t.join(".")),
        5 => prop::collection::vec(select(vec!["0", "1", "2", "3"]), 1..=4).prop_map(|t| t.join(".")),
    ]
    .boxed()
}
pub fn version_or_special(plus: bool) -> BoxedStrategy<String> {
    prop_oneof![20 => version(plus), 1 => Just(String::new()), 1 => Just("inf".to_string()), 1 => Just("epsilon".to_string())].boxed()
}
/// Small plain numeric versions (dense collisions).
pub fn simple() -> BoxedStrategy<String> {
    prop::collection::vec(0u8..4, 1..=3).prop_map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")).boxed()
}

#[derive(Clone, Debug)]
pub enum Mut {
    Same,
    AppendZero,
    Append(String),
    DropLast,
    Replace(usize, String),
    LeadingZero(usize),
    Sep(char),
}
fn muts() -> BoxedStrategy<Mut> {
    prop_oneof![
        1 => Just(Mut::Same),
        2 => Just(Mut::AppendZero),
        3 => tok().prop_map(Mut::Append),
        2 => Just(Mut::DropLast),
        4 => (0usize..5, tok()).prop_map(|(i, t)| Mut::Replace(i, t)),
        1 => (0usize..5).prop_map(Mut::LeadingZero),
        1 => select(vec!['.', '-', '+']).prop_map(Mut::Sep),
    ]
    .boxed()
}
pub fn mutate(s: &str, m: &Mut) -> String {
    let mut t: Vec<String> = s.split(['.', '-', '+']).map(str::to_string).collect();
    let sep = match m {
        Mut::Sep(c) => *c,
        _ => '.',
    };
    match m {
        Mut::AppendZero if t.len() < 5 => t.push("0".into()),
        Mut::Append(x) if t.len() < 5 => t.push(x.clone()),
        Mut::DropLast if t.len() > 1 => {
            t.pop();
        }
        Mut::Replace(i, x) => {
            let n = t.len();
            t[i % n] = x.clone();
        }
        Mut::LeadingZero(i) => {
            let n = t.len();
            let x = &mut t[i % n];
            if x.starts_with(|c: char| c.is_ascii_digit()) {
                x.insert(0, '0');
            }
        }
        _ => {}
    }
    join(t, vec![sep])
}
/// `n` related versions: each derived from a common base by up to two mutations.
pub fn related(n: usize, plus: bool) -> BoxedStrategy<Vec<String>> {
    let rel = (version(plus), prop::collection::vec(prop::collection::vec(muts(), 0..=2), n)).prop_map(|(b, ms)| {
        ms.iter().map(|m| m.iter().fold(b.clone(), |s, x| mutate(&s, x))).collect::<Vec<_>>()
    });
    prop_oneof![
        5 => rel,
        2 => prop::collection::vec(version_or_special(plus), n),
        2 => prop::collection::vec(simple(), n),
    ]
    .prop_map(move |v| if plus { v } else { v.into_iter().map(|s| s.replace('+', ".")).collect() })
    .boxed()
}
