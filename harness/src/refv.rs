//! Reference model of versions, written from the documented rules only.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Alpha(String),
    /// digits without leading zeros
    Num(String),
}
#[derive(Clone, Debug)]
pub enum RV {
    Empty,
    Inf,
    Toks(Vec<Vec<Seg>>),
}

fn segs(t: &str) -> Vec<Seg> {
    let mut out: Vec<(bool, String)> = vec![];
    for c in t.chars() {
        let d = c.is_ascii_digit();
        match out.last_mut() {
            Some((ld, s)) if *ld == d => s.push(c),
            _ => out.push((d, c.to_string())),
        }
    }
    out.into_iter()
        .map(|(d, s)| if d { Seg::Num(s.trim_start_matches('0').to_string()) } else { Seg::Alpha(s) })
        .collect()
}

fn cmp_seg(a: &Seg, b: &Seg) -> Ordering {
    match (a, b) {
        (Seg::Alpha(x), Seg::Alpha(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Seg::Alpha(_), Seg::Num(_)) => Ordering::Less,
        (Seg::Num(_), Seg::Alpha(_)) => Ordering::Greater,
        (Seg::Num(x), Seg::Num(y)) => (x.len(), x).cmp(&(y.len(), y)),
    }
}
pub fn cmp_tok(a: &[Seg], b: &[Seg]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        let c = cmp_seg(&a[i], &b[i]);
        if c != Ordering::Equal {
            return c;
        }
    }
    a.len().cmp(&b.len())
}

impl RV {
    /// `s` must be well formed.
    pub fn of(s: &str) -> RV {
        let s = s.trim();
        match s {
            "" | "epsilon" => RV::Empty,
            "inf" => RV::Inf,
            _ => RV::Toks(s.split(['.', '-', '+']).map(segs).collect()),
        }
    }
    pub fn rank(&self) -> u8 {
        match self {
            RV::Empty => 0,
            RV::Toks(_) => 1,
            RV::Inf => 2,
        }
    }
    pub fn cmp(&self, o: &RV) -> Ordering {
        if let (RV::Toks(a), RV::Toks(b)) = (self, o) {
            let zero = vec![Seg::Num(String::new())];
            for i in 0..a.len().max(b.len()) {
                let c = cmp_tok(a.get(i).unwrap_or(&zero), b.get(i).unwrap_or(&zero));
                if c != Ordering::Equal {
                    return c;
                }
            }
            return Ordering::Equal;
        }
        self.rank().cmp(&o.rank())
    }
    pub fn lt(&self, o: &RV) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &RV) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn eq(&self, o: &RV) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn toks(&self) -> &[Vec<Seg>] {
        match self {
            RV::Toks(t) => t,
            _ => &[],
        }
    }
    /// every token of `p` equals the token of self at the same place
    pub fn has_prefix(&self, p: &RV) -> bool {
        let (a, b) = (self.toks(), p.toks());
        a.len() >= b.len() && b.iter().zip(a).all(|(x, y)| cmp_tok(x, y) == Ordering::Equal)
    }
}

pub fn rcmp(a: &str, b: &str) -> Ordering {
    RV::of(a).cmp(&RV::of(b))
}

/// Well-formedness of version text, as far as the property fixes it:
/// Some(true) must be accepted, Some(false) must be rejected, None unspecified.
pub fn well_formed(s: &str) -> Option<bool> {
    let s = s.trim();
    if s.is_empty() || s == "inf" || s == "epsilon" {
        return Some(true);
    }
    if s.starts_with('v') || s.starts_with('V') {
        return Some(false);
    }
    let toks: Vec<&str> = s.split(['.', '-', '+']).collect();
    let mut limits = toks.len() > 5;
    for t in &toks {
        if t.is_empty() || !t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
            return Some(false);
        }
        if t.starts_with('_') || t.ends_with('_') {
            return Some(false);
        }
        if t.len() > 10 && !t.chars().all(|c| c.is_ascii_digit()) || *t == "not" || *t == "version" {
            limits = true;
        }
    }
    if limits { None } else { Some(true) }
}
