//! Requirement expressions with their own meaning (reference model).
use crate::refv::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spec {
    None,
    /// operators ==, >=, <=, >, <, ~=, !=
    Ops(Vec<(String, String)>),
    /// ==a.b.*
    Wild(Vec<String>),
    /// -1.2
    Prefix(String),
    /// -1.2+
    Plus(String),
    /// -1.2+<2 or -1.2+<=2
    PlusLt(String, bool, String),
    /// -1..2
    Interval(String, String),
    /// -*
    Star,
}

/// compare at the depth of the constraint
pub fn at_depth(v: &RV, c: &RV) -> Ordering {
    match (v, c) {
        (RV::Toks(a), RV::Toks(b)) if a.len() > b.len() => RV::Toks(a[..b.len()].to_vec()).cmp(c),
        _ => v.cmp(c),
    }
}
fn op_has(op: &str, c: &str, v: &RV) -> bool {
    let c = RV::of(c);
    let o = at_depth(v, &c);
    match op {
        "==" => o == Ordering::Equal,
        ">=" => o != Ordering::Less,
        "<=" => o != Ordering::Greater,
        ">" => o == Ordering::Greater,
        "<" => o == Ordering::Less,
        "!=" => v.cmp(&c) != Ordering::Equal,
        "~=" => {
            let t = c.toks();
            let locked = RV::Toks(t[..t.len() - 1].to_vec());
            v.has_prefix(&locked) && o != Ordering::Less
        }
        _ => unreachable!(),
    }
}
impl Spec {
    pub fn text(&self) -> String {
        match self {
            Spec::None => String::new(),
            Spec::Ops(o) => o.iter().map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>().join(","),
            Spec::Wild(t) => format!("=={}", t.iter().cloned().chain(["*".to_string()]).collect::<Vec<_>>().join(".")),
            Spec::Prefix(v) => format!("-{v}"),
            Spec::Plus(v) => format!("-{v}+"),
            Spec::PlusLt(v, incl, w) => format!("-{v}+<{}{w}", if *incl { "=" } else { "" }),
            Spec::Interval(a, b) => format!("-{a}..{b}"),
            Spec::Star => "-*".into(),
        }
    }
    /// None: not fixed by the property
    pub fn has(&self, vs: &str) -> Option<bool> {
        let v = RV::of(vs);
        Some(match self {
            Spec::None | Spec::Star => true,
            Spec::Ops(o) => o.iter().all(|(op, c)| op_has(op, c, &v)),
            Spec::Wild(t) => {
                let toks: Vec<&str> = vs.split('.').collect();
                let textual = toks.len() >= t.len() && t.iter().zip(&toks).all(|(a, b)| a == b);
                let semantic = t.is_empty() || v.has_prefix(&RV::of(&t.join(".")));
                if textual != semantic {
                    return None;
                }
                textual
            }
            Spec::Prefix(p) => v.has_prefix(&RV::of(p)),
            Spec::Plus(a) => op_has(">=", a, &v),
            Spec::PlusLt(a, incl, b) => op_has(">=", a, &v) && op_has(if *incl { "<=" } else { "<" }, b, &v),
            Spec::Interval(a, b) => op_has(">=", a, &v) && op_has("<", b, &v),
        })
    }
    pub fn mentioned(&self) -> Vec<String> {
        match self {
            Spec::None | Spec::Star => vec![],
            Spec::Ops(o) => o.iter().map(|x| x.1.clone()).collect(),
            Spec::Wild(t) => vec![t.join(".")],
            Spec::Prefix(v) | Spec::Plus(v) => vec![v.clone()],
            Spec::PlusLt(a, _, b) | Spec::Interval(a, b) => vec![a.clone(), b.clone()],
        }
    }
}
pub fn ops() -> BoxedStrategy<String> {
    select(vec!["==", ">=", "<=", ">", "<", "~=", "!="]).prop_map(str::to_string).boxed()
}
pub fn spec(v: fn() -> BoxedStrategy<String>) -> BoxedStrategy<Spec> {
    prop_oneof![
        2 => Just(Spec::None),
        6 => prop::collection::vec((ops(), v()), 1..=3).prop_map(Spec::Ops),
        2 => prop::collection::vec(0u8..4, 0..=2).prop_map(|t| Spec::Wild(t.iter().map(|x| x.to_string()).collect())),
        3 => v().prop_map(Spec::Prefix),
        2 => v().prop_map(Spec::Plus),
        2 => (v(), any::<bool>(), v()).prop_map(|(a, i, b)| Spec::PlusLt(a, i, b)),
        2 => (v(), v()).prop_map(|(a, b)| Spec::Interval(a, b)),
        1 => Just(Spec::Star),
    ]
    .boxed()
}
/// dotted versions without special spellings
pub fn dotted() -> BoxedStrategy<String> {
    prop_oneof![
        5 => crate::genv::simple(),
        3 => prop::collection::vec(crate::genv::tok(), 1..=4).prop_map(|t| {
            let s = t.join(".");
            if s.starts_with(['v', 'V']) || s == "inf" || s == "epsilon" { format!("1{s}") } else { s }
        }),
    ]
    .boxed()
}
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![4 => select(vec!["foo", "python", "maya_usd", "lib3", "a"]).prop_map(str::to_string), 2 => "[a-z][a-z0-9_]{0,8}"].boxed()
}
