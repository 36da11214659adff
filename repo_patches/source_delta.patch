From 672256970b7ff45d8a6409613f96a917fcf8d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 01/48] fix: make version ordering transitive when versions
 have different lengths

1.0 == 1.0.0, 1.0.0 < 1.0.1 and 1.0.1 < 1.0 all held at once. Compare the
shorter version as if padded with the implicit zeros.
---
 crates/rez-next-version/src/version.rs | 73 +++++---------------------
 1 file changed, 14 insertions(+), 59 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..a45637e 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -410,66 +410,21 @@ impl Version {
 
     /// Compare token arrays using rez-compatible rules.
     /// In rez, trailing zeros are implicit: 1.0 == 1.0.0 == 1.0.0.0
-    /// Rez epoch semantics: shorter version = higher epoch
-    /// - If extra tokens are all zeros → equal (trailing zeros implicit)
-    /// - If extra tokens start with non-zero numeric → shorter is greater (higher epoch)
-    /// - If extra tokens start with alpha → shorter is LESS (pre-release, so longer is greater)
+    ///
+    /// The shorter version is compared as if it were padded with zeros, which is the only
+    /// reading of implicit trailing zeros that keeps the ordering transitive:
+    /// - If extra tokens are all zeros → equal (1.0 == 1.0.0)
+    /// - If the first differing extra token is numeric → longer is greater (1.0 < 1.0.1)
+    /// - If the first differing extra token is alpha → shorter is greater (1.0 > 1.0.alpha)
     fn compare_token_strings(tokens1: &[String], tokens2: &[String]) -> Ordering {
-        for (t1, t2) in tokens1.iter().zip(tokens2.iter()) {
-            let cmp = Self::compare_single_token(t1, t2);
-            if cmp != Ordering::Equal {
-                return cmp;
-            }
-        }
-
-        // If all compared tokens are equal, check extra tokens
-        // Rez semantics: trailing zeros are implicit
-        // - 2 == 2.0.0 (extra tokens are all "0")
-        // - 1.0.1 > 1.0 (shorter has implicit Z+ which is > any digit)
-        // - 1.0 > 1.0.alpha (release > pre-release)
-        if tokens1.len() < tokens2.len() {
-            // tokens1 is shorter, tokens2 has extra tokens
-            let extra_tokens = &tokens2[tokens1.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens2[tokens1.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // Shorter has implicit Z+ which is > any digit
-                    Ordering::Greater
-                } else {
-                    // Extra token is alpha → tokens2 is pre-release
-                    // Release (tokens1) > pre-release (tokens2)
-                    Ordering::Greater
-                }
-            }
-        } else if tokens2.len() < tokens1.len() {
-            // tokens2 is shorter, tokens1 has extra tokens
-            let extra_tokens = &tokens1[tokens2.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens1[tokens2.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // tokens2 has implicit Z+ which is > any digit
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                } else {
-                    // Extra token is alpha → tokens1 is pre-release
-                    // tokens2 is release, Release > pre-release
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                }
-            }
-        } else {
-            Ordering::Equal
-        }
+        (0..tokens1.len().max(tokens2.len()))
+            .map(|i| {
+                let t1 = tokens1.get(i).map_or("0", String::as_str);
+                let t2 = tokens2.get(i).map_or("0", String::as_str);
+                Self::compare_single_token(t1, t2)
+            })
+            .find(|cmp| *cmp != Ordering::Equal)
+            .unwrap_or(Ordering::Equal)
     }
 }
 
-- 
2.43.0


From ac500e0cb5c2718b794cdcaef6e0d346b499a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 02/48] fix: compare version numbers of any size numerically

Digit runs beyond the 64-bit range were compared as text, so
1.99999999999999999999 sorted below 1.5 and the ordering had cycles.
---
 crates/rez-next-version/src/version.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index a45637e..040caf4 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -331,10 +331,6 @@ impl Version {
     /// 4. Mixed alphanumeric tokens (e.g. "alpha10"): split into alternating segments and
     ///    apply rules 1–3 per segment pair.
     fn compare_single_token(t1: &str, t2: &str) -> Ordering {
-        // Fast path: both purely numeric
-        if let (Ok(n1), Ok(n2)) = (t1.parse::<i64>(), t2.parse::<i64>()) {
-            return n1.cmp(&n2);
-        }
         // Fast path: equal strings
         if t1 == t2 {
             return Ordering::Equal;
@@ -345,6 +341,10 @@ impl Version {
         let t2_all_alpha = t2.chars().all(|c| c.is_alphabetic() || c == '_');
         let t1_all_num = t1.chars().all(|c| c.is_ascii_digit());
         let t2_all_num = t2.chars().all(|c| c.is_ascii_digit());
+        // Both purely numeric
+        if t1_all_num && t2_all_num {
+            return Self::compare_digits(t1, t2);
+        }
         if t1_all_alpha && t2_all_num {
             return Ordering::Less;
         }
@@ -362,14 +362,10 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
+            let s1_is_num = s1.starts_with(|c: char| c.is_ascii_digit());
+            let s2_is_num = s2.starts_with(|c: char| c.is_ascii_digit());
             let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+                (true, true) => Self::compare_digits(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +377,12 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    /// Compare two runs of ASCII digits by numeric value, whatever their length.
+    fn compare_digits(d1: &str, d2: &str) -> Ordering {
+        let (d1, d2) = (d1.trim_start_matches('0'), d2.trim_start_matches('0'));
+        d1.len().cmp(&d2.len()).then_with(|| d1.cmp(d2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
-- 
2.43.0


From 5be46353b2948845c5beacf3d596990837f0cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:06 +0000
Subject: [PATCH 03/48] fix: hash equal versions equally

1.0 == 1.0.0 but they hashed differently, so a hash map could hold both.
---
 crates/rez-next-version/src/version.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 040caf4..fa8d12e 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -452,7 +452,25 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Hash exactly what equality compares: tokens with leading zeros of every
+        // digit run and trailing zero tokens removed.
+        self.is_inf().hash(state);
+        self.is_empty().hash(state);
+        let significant = self
+            .tokens
+            .iter()
+            .rposition(|t| Self::compare_single_token(t, "0") != Ordering::Equal)
+            .map_or(0, |last| last + 1);
+        for token in &self.tokens[..significant] {
+            for segment in Self::split_token_segments(token) {
+                if segment.starts_with(|c: char| c.is_ascii_digit()) {
+                    segment.trim_start_matches('0').hash(state);
+                } else {
+                    segment.hash(state);
+                }
+            }
+            ".".hash(state);
+        }
     }
 }
 
-- 
2.43.0


From 8055fc0560cc6a4103dc2839ffa4cb52647298c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:59 +0000
Subject: [PATCH 04/48] fix: parse a..b intervals inside a union of ranges

'3|1..2' was read as '>=3|1,<2' because the interval syntax was expanded
before the union was split.
---
 crates/rez-next-version/src/range/parser.rs | 43 ++++++++++-----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/crates/rez-next-version/src/range/parser.rs b/crates/rez-next-version/src/range/parser.rs
index 419e334..0068a5d 100644
--- a/crates/rez-next-version/src/range/parser.rs
+++ b/crates/rez-next-version/src/range/parser.rs
@@ -9,14 +9,30 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
     if s.is_empty() || s == "*" {
         return Ok(vec![BoundSet::any()]);
     }
+    // Split on | for OR (union)
+    let or_parts: Vec<&str> = s.split('|').collect();
+    let mut result = Vec::new();
+
+    for or_part in or_parts {
+        let bound_set = parse_conjunction(or_part.trim())?;
+        result.push(bound_set);
+    }
+
+    Ok(result)
+}
+
+/// Parse a conjunction of constraints (AND semantics)
+/// Supports: `>=1.0,<2.0` (comma) or `>=1.0 <2.0` (space) or `1.0+<2.0` (rez syntax)
+pub(super) fn parse_conjunction(s: &str) -> Result<BoundSet, RezCoreError> {
+    if s.is_empty() || s == "*" {
+        return Ok(BoundSet::any());
+    }
     if s == "empty" || s == "!*" {
-        return Ok(vec![BoundSet::none()]);
+        return Ok(BoundSet::none());
     }
 
     // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
-    // Note: must check before splitting on |
     if s.contains("..") && !s.starts_with('.') {
-        // Only handle if it's a simple "a..b" form (no | or other operators in the whole string)
         if let Some(dot_pos) = s.find("..") {
             let left = &s[..dot_pos];
             let right = &s[dot_pos + 2..];
@@ -31,30 +47,11 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
             {
                 // "left..right" -> ">=left,<right"
                 let new_s = format!(">={},<{}", left.trim(), right.trim());
-                return parse_range_str(&new_s);
+                return parse_conjunction(&new_s);
             }
         }
     }
 
-    // Split on | for OR (union)
-    let or_parts: Vec<&str> = s.split('|').collect();
-    let mut result = Vec::new();
-
-    for or_part in or_parts {
-        let bound_set = parse_conjunction(or_part.trim())?;
-        result.push(bound_set);
-    }
-
-    Ok(result)
-}
-
-/// Parse a conjunction of constraints (AND semantics)
-/// Supports: `>=1.0,<2.0` (comma) or `>=1.0 <2.0` (space) or `1.0+<2.0` (rez syntax)
-pub(super) fn parse_conjunction(s: &str) -> Result<BoundSet, RezCoreError> {
-    if s.is_empty() || s == "*" {
-        return Ok(BoundSet::any());
-    }
-
     // Handle rez shorthand: "1.0+" = ">=1.0"
     // Handle rez shorthand: "1.0+<2.0" = ">=1.0,<2.0"
     // The `+` in rez means "this version and above", with optional upper bound after it
-- 
2.43.0


From f8cadc2bf5ca26d9b90442412a9336dcd5398b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:59 +0000
Subject: [PATCH 05/48] fix: make version range set operations agree with
 membership

Overlap ignored != and ~= bounds, subset and difference were decided on a
handful of guessed versions, a union forgot what had been subtracted from
its operands, and a range loaded from its serialized form contained every
version. Decide all of them on versions that cover every gap between the
bounds, express a difference in bounds, and give computed ranges a text
that parses back.
---
 crates/rez-next-version/src/range/mod.rs      | 137 +++++++-----------
 .../src/range/satisfiability.rs               |  51 +++++--
 crates/rez-next-version/src/range/types.rs    |  81 +++++++----
 crates/rez-next-version/src/version.rs        |  14 ++
 4 files changed, 165 insertions(+), 118 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..443591f 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -14,11 +14,12 @@ use serde::{Deserialize, Serialize};
 use types::BoundSet;
 
 use parser::parse_range_str;
-use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
-use types::Bound;
+use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable, probe_versions};
+use types::{Bound, bound_sets_to_string, complement};
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
 #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "VersionRangeText")]
 pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
@@ -28,9 +29,20 @@ pub struct VersionRange {
     /// Whether the range was successfully parsed
     #[serde(skip)]
     is_parsed: bool,
-    /// Ranges to subtract (for set difference operations)
-    #[serde(skip)]
-    subtract_from: Vec<VersionRange>,
+}
+
+/// Serialized form of a `VersionRange`: its text, parsed again on load
+#[derive(Deserialize)]
+struct VersionRangeText {
+    range_str: String,
+}
+
+impl TryFrom<VersionRangeText> for VersionRange {
+    type Error = RezCoreError;
+
+    fn try_from(text: VersionRangeText) -> Result<Self, Self::Error> {
+        Self::parse(&text.range_str)
+    }
 }
 
 impl VersionRange {
@@ -46,7 +58,6 @@ impl VersionRange {
             range_str: String::new(),
             bound_sets: vec![BoundSet::any()],
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -56,7 +67,6 @@ impl VersionRange {
             range_str: "!*".to_string(),
             bound_sets: vec![BoundSet::none()],
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -78,7 +88,6 @@ impl VersionRange {
             range_str: range_str.to_string(),
             bound_sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
         })
     }
 
@@ -88,17 +97,7 @@ impl VersionRange {
             return true;
         }
         // Disjunction: any bound_set matching means the version is included
-        let in_self = self.bound_sets.iter().any(|bs| bs.contains(version));
-        if !in_self {
-            return false;
-        }
-        // Subtract: if version is in any subtract range, exclude it
-        for sub_range in &self.subtract_from {
-            if sub_range.contains(version) {
-                return false;
-            }
-        }
-        true
+        self.bound_sets.iter().any(|bs| bs.contains(version))
     }
 
     /// Get the string representation
@@ -108,10 +107,6 @@ impl VersionRange {
 
     /// Check if this range intersects with another range
     pub fn intersects(&self, other: &VersionRange) -> bool {
-        // Conservative: if either is "any", they intersect
-        if self.is_any() || other.is_any() {
-            return true;
-        }
         // Check if the ranges have any overlap by checking bounds interaction
         // For exact versions, check containment
         for bs_self in &self.bound_sets {
@@ -127,6 +122,9 @@ impl VersionRange {
 
     /// Compute the intersection of two ranges
     pub fn intersect(&self, other: &VersionRange) -> Option<VersionRange> {
+        if !self.intersects(other) {
+            return None;
+        }
         if self.is_any() {
             return Some(other.clone());
         }
@@ -151,27 +149,21 @@ impl VersionRange {
         if result_sets.is_empty() {
             return None;
         }
-        let new_str = format!("({})&({})", self.range_str, other.range_str);
-        let mut combined_subtracts = self.subtract_from.clone();
-        combined_subtracts.extend(other.subtract_from.clone());
         Some(VersionRange {
-            range_str: new_str,
+            range_str: bound_sets_to_string(&result_sets),
             bound_sets: result_sets,
             is_parsed: true,
-            subtract_from: combined_subtracts,
         })
     }
 
     /// Compute the union of two ranges (pipe-separated)
     pub fn union(&self, other: &VersionRange) -> VersionRange {
-        let new_str = format!("{}|{}", self.range_str, other.range_str);
         let mut sets = self.bound_sets.clone();
         sets.extend(other.bound_sets.clone());
         VersionRange {
-            range_str: new_str,
+            range_str: format!("{}|{}", self.range_str, other.range_str),
             bound_sets: sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -182,25 +174,35 @@ impl VersionRange {
             return None; // self - any = empty
         }
         if other.is_empty() {
-            return Some(self.clone());
+            return self.intersects(self).then(|| self.clone());
         }
         if self.is_empty() {
             return None;
         }
-        // Use subtract_from field: self with other excluded via contains() check
-        let new_str = format!("({})-({})", self.range_str, other.range_str);
-        let mut subtracts = self.subtract_from.clone();
-        subtracts.push(other.clone());
-        let range = VersionRange {
-            range_str: new_str,
-            bound_sets: self.bound_sets.clone(),
+        // Cut every bound set of `other` out of `self` in turn
+        let mut remaining = self.bound_sets.clone();
+        for removed in &other.bound_sets {
+            let mut cut = Vec::new();
+            for bs in &remaining {
+                for outside in removed.bounds.iter().flat_map(complement) {
+                    let mut bounds = bs.bounds.clone();
+                    bounds.push(outside);
+                    let piece = BoundSet { bounds };
+                    if is_bound_set_satisfiable(&piece) {
+                        cut.push(piece);
+                    }
+                }
+            }
+            remaining = cut;
+        }
+        if remaining.is_empty() {
+            return None;
+        }
+        Some(VersionRange {
+            range_str: bound_sets_to_string(&remaining),
+            bound_sets: remaining,
             is_parsed: true,
-            subtract_from: subtracts,
-        };
-        // Quick sanity: at least one probe version must be in the result
-        let probes = self.collect_probe_versions_with_other(other);
-        let has_any = probes.iter().any(|v| range.contains(v));
-        if has_any { Some(range) } else { None }
+        })
     }
 
     /// Check if this range is the "any" range (matches all versions)
@@ -221,14 +223,7 @@ impl VersionRange {
         if other.is_any() {
             return true;
         }
-        if self.is_any() {
-            return other.is_any();
-        }
-        if self.is_empty() {
-            return true;
-        }
-        let probe_versions = self.collect_probe_versions_with_other(other);
-        for v in &probe_versions {
+        for v in &self.collect_probe_versions_with_other(other) {
             if self.contains(v) && !other.contains(v) {
                 return false;
             }
@@ -241,36 +236,14 @@ impl VersionRange {
         other.is_subset_of(self)
     }
 
-    /// Collect probe versions from both self and other's bounds, plus "beyond" versions
+    /// Collect versions that tell `self` and `other` apart if any version does
     fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
-        let mut versions = Vec::new();
-        for range in [self as &VersionRange, other] {
-            for bs in &range.bound_sets {
-                for bound in &bs.bounds {
-                    match bound {
-                        Bound::Ge(v)
-                        | Bound::Gt(v)
-                        | Bound::Le(v)
-                        | Bound::Lt(v)
-                        | Bound::Eq(v)
-                        | Bound::Ne(v)
-                        | Bound::Compatible(v) => {
-                            versions.push(v.clone());
-                            if let Ok(bumped) = Version::parse(&format!("{}.999999", v.as_str())) {
-                                versions.push(bumped);
-                            }
-                        }
-                        _ => {}
-                    }
-                }
-            }
-        }
-        for s in &["0.0.1", "999.999.999"] {
-            if let Ok(v) = Version::parse(s) {
-                versions.push(v);
-            }
-        }
-        versions
+        probe_versions(
+            self.bound_sets
+                .iter()
+                .chain(&other.bound_sets)
+                .flat_map(|bs| &bs.bounds),
+        )
     }
 
     /// Check if this range is empty (no versions match)
diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index df6dceb..773c328 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -1,7 +1,40 @@
 //! Satisfiability checking for version range `BoundSet`s.
 
 use super::super::Version;
-use super::types::{Bound, BoundSet};
+use super::types::{Bound, BoundSet, compatible_upper_bound};
+
+/// Versions that tell apart everything `bounds` can tell apart: every version mentioned, and
+/// one version inside every gap below, between and above them.
+pub(super) fn probe_versions<'a>(bounds: impl Iterator<Item = &'a Bound>) -> Vec<Version> {
+    let mut mentioned = Vec::new();
+    for bound in bounds {
+        match bound {
+            Bound::Ge(v)
+            | Bound::Gt(v)
+            | Bound::Le(v)
+            | Bound::Lt(v)
+            | Bound::Eq(v)
+            | Bound::Ne(v) => mentioned.push(v.clone()),
+            Bound::Compatible(v) => {
+                mentioned.extend(compatible_upper_bound(v));
+                mentioned.push(v.clone());
+            }
+            Bound::Any | Bound::None => {}
+        }
+    }
+    let depth = mentioned.iter().map(Version::len).max().unwrap_or(0);
+    let mut probes = vec![Version::empty(), Version::inf()];
+    for v in &mentioned {
+        // Below "0" at the first position no mentioned version has, and above it.
+        probes.push(v.neighbour(depth, "A"));
+        probes.push(v.neighbour(depth, "0a"));
+    }
+    if mentioned.is_empty() {
+        probes.push(Version::empty().neighbour(0, "0"));
+    }
+    probes.extend(mentioned);
+    probes
+}
 
 /// Check if a single `BoundSet` is satisfiable (not trivially empty due to conflicting bounds)
 pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
@@ -89,18 +122,14 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
         }
     }
 
-    true
+    // The bounds above leave room; the remaining ones may still exclude all of it
+    probe_versions(bs.bounds.iter())
+        .iter()
+        .any(|v| bs.contains(v))
 }
 
 /// Check if two `BoundSet`s can simultaneously be satisfied (have intersection)
 pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
-    // Quick check: if either is Any, they intersect
-    let a_any = a.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    let b_any = b.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    if a_any || b_any {
-        return true;
-    }
-
     // Combine all bounds and check for structural impossibilities
     let combined_bounds: Vec<&Bound> = a.bounds.iter().chain(b.bounds.iter()).collect();
 
@@ -189,5 +218,7 @@ pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
         }
     }
 
-    true
+    probe_versions(combined_bounds.into_iter())
+        .iter()
+        .any(|v| a.contains(v) && b.contains(v))
 }
diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..3a1e6aa 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -71,32 +71,61 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
             if version < v {
                 return false; // Must be >= v (lower bound)
             }
-            let parts: Vec<&str> = v.as_str().split('.').collect();
-            if parts.len() < 2 {
-                return version >= v;
-            }
-            // Calculate upper bound
-            let upper_str = if parts.len() == 2 {
-                // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
-                } else {
-                    return true;
-                }
-            } else {
-                // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
-                } else {
-                    return true;
-                }
-            };
-            if let Ok(upper) = Version::parse(&upper_str) {
-                version < &upper
-            } else {
-                // Fallback: just check >= v
-                version >= v
-            }
+            compatible_upper_bound(v).is_none_or(|upper| version < &upper)
         }
     }
 }
+
+/// Exclusive upper bound of `~=version`, or `None` when it has no upper bound.
+pub(super) fn compatible_upper_bound(v: &Version) -> Option<Version> {
+    let parts: Vec<&str> = v.as_str().split('.').collect();
+    if parts.len() < 2 {
+        return None;
+    }
+    let upper_str = if parts.len() == 2 {
+        // X.Y -> (X+1).0
+        let x = parts[0].parse::<u64>().ok()?;
+        format!("{}.0", x.checked_add(1)?)
+    } else {
+        // X.Y.Z... -> X.(Y+1).0
+        let y = parts[1].parse::<u64>().ok()?;
+        format!("{}.{}.0", parts[0], y.checked_add(1)?)
+    };
+    Version::parse(&upper_str).ok()
+}
+
+/// The bounds whose union is exactly the complement of `bound`.
+pub(super) fn complement(bound: &Bound) -> Vec<Bound> {
+    match bound {
+        Bound::Ge(v) => vec![Bound::Lt(v.clone())],
+        Bound::Gt(v) => vec![Bound::Le(v.clone())],
+        Bound::Le(v) => vec![Bound::Gt(v.clone())],
+        Bound::Lt(v) => vec![Bound::Ge(v.clone())],
+        Bound::Eq(v) => vec![Bound::Ne(v.clone())],
+        Bound::Ne(v) => vec![Bound::Eq(v.clone())],
+        Bound::Compatible(v) => {
+            let mut outside = vec![Bound::Lt(v.clone())];
+            outside.extend(compatible_upper_bound(v).map(Bound::Ge));
+            outside
+        }
+        Bound::Any => vec![Bound::None],
+        Bound::None => vec![Bound::Any],
+    }
+}
+
+/// Text that parses back into `sets`
+pub(super) fn bound_sets_to_string(sets: &[BoundSet]) -> String {
+    let bound = |b: &Bound| match b {
+        Bound::Ge(v) => format!(">={v}"),
+        Bound::Gt(v) => format!(">{v}"),
+        Bound::Le(v) => format!("<={v}"),
+        Bound::Lt(v) => format!("<{v}"),
+        Bound::Eq(v) => format!("=={v}"),
+        Bound::Ne(v) => format!("!={v}"),
+        Bound::Compatible(v) => format!("~={v}"),
+        Bound::Any => "*".to_string(),
+        Bound::None => "!*".to_string(),
+    };
+    let set = |bs: &BoundSet| bs.bounds.iter().map(bound).collect::<Vec<_>>().join(",");
+    sets.iter().map(set).collect::<Vec<_>>().join("|")
+}
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index fa8d12e..578ae2e 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -269,6 +269,20 @@ impl Version {
         false
     }
 
+    /// This version's tokens zero-padded to `depth`, followed by `token`.
+    pub(crate) fn neighbour(&self, depth: usize, token: &str) -> Self {
+        let mut tokens = self.tokens.clone();
+        tokens.resize(depth.max(tokens.len()), "0".to_string());
+        tokens.push(token.to_string());
+        let string_repr = tokens.join(".");
+        Self {
+            separators: vec![".".to_string(); tokens.len() - 1],
+            tokens,
+            string_repr,
+            cached_hash: None,
+        }
+    }
+
     /// Parse a version string into a Version object
     pub fn parse(s: &str) -> Result<Self, RezCoreError> {
         let s = s.trim();
-- 
2.43.0


From b79bbda0c7940d27c5686d2df3457610c0012755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:06 +0000
Subject: [PATCH 06/48] fix: compare short versions with longer requirement
 versions

A version with fewer tokens than the constraint compared equal to it, so
package version 1 satisfied ==1.5, and letters compared above digits,
opposite to version ordering. Compare with version ordering at the depth
of the constraint.
---
 .../rez-next-package/src/requirement/types.rs | 57 +++----------------
 crates/rez-next-version/src/version.rs        | 21 +++++++
 2 files changed, 29 insertions(+), 49 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..f0c44e9 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -261,30 +261,9 @@ impl VersionConstraint {
                 // Rule:
                 //   ~=X.Y   → prefix=["X"] (locked), minor >= Y
                 //   ~=X.Y.Z → prefix=["X","Y"] (locked), patch >= Z
-                let version_parts: Vec<&str> = version.as_str().split('.').collect();
-                let constraint_parts: Vec<&str> = v.as_str().split('.').collect();
-
-                if constraint_parts.is_empty() {
-                    return true;
-                }
-                if version_parts.len() < constraint_parts.len() {
-                    return false;
-                }
-
-                let last_idx = constraint_parts.len() - 1;
-                for i in 0..last_idx {
-                    if version_parts[i] != constraint_parts[i] {
-                        return false;
-                    }
-                }
-
-                let v_last = version_parts[last_idx];
-                let c_last = constraint_parts[last_idx];
-                if let (Ok(vn), Ok(cn)) = (v_last.parse::<u64>(), c_last.parse::<u64>()) {
-                    vn >= cn
-                } else {
-                    v_last >= c_last
-                }
+                let locked = v.len().saturating_sub(1);
+                version.has_prefix(&v.truncated(locked))
+                    && Self::cmp_at_depth(version, v) != std::cmp::Ordering::Less
             }
             VersionConstraint::Range(min, max) => version >= min && version < max,
             VersionConstraint::Multiple(constraints) => {
@@ -326,32 +305,12 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
+        if constraint_ver.is_empty() || version.len() <= constraint_ver.len() {
+            return version.cmp(constraint_ver);
         }
-
-        std::cmp::Ordering::Equal
+        version
+            .truncated(constraint_ver.len())
+            .cmp(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 578ae2e..c85a906 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -269,6 +269,27 @@ impl Version {
         false
     }
 
+    /// The version made of this version's first `len` tokens.
+    #[must_use]
+    pub fn truncated(&self, len: usize) -> Self {
+        if len >= self.tokens.len() {
+            return self.clone();
+        }
+        let mut string_repr = String::new();
+        for (i, token) in self.tokens[..len].iter().enumerate() {
+            if i > 0 {
+                string_repr.push_str(&self.separators[i - 1]);
+            }
+            string_repr.push_str(token);
+        }
+        Self {
+            tokens: self.tokens[..len].to_vec(),
+            separators: self.separators[..len.saturating_sub(1)].to_vec(),
+            string_repr,
+            cached_hash: None,
+        }
+    }
+
     /// This version's tokens zero-padded to `depth`, followed by `token`.
     pub(crate) fn neighbour(&self, depth: usize, token: &str) -> Self {
         let mut tokens = self.tokens.clone();
-- 
2.43.0


From 3aa8da65c2143df0654fdd8da87a5f770153250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:20 +0000
Subject: [PATCH 07/48] fix: parse every requirement form that requirements
 print as

foo!=1.0 (and any other malformed text) was read as a package of that
name without constraint, an architecture condition was lost, and a
negated existence condition printed as its opposite.
---
 .../src/requirement/display.rs                |  1 +
 .../src/requirement/parser.rs                 | 30 +++++++++++--------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..68227b4 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -15,6 +15,7 @@ struct RequirementPatterns {
     basic_version: Regex,
     namespace: Regex,
     wildcard: Regex,
+    name: Regex,
 }
 
 impl RequirementParser {
@@ -107,17 +108,10 @@ impl RequirementParser {
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
             let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
+                condition[platform_start + 1 + platform_end + 1..]
+                    .split('\'')
+                    .nth(1)
+                    .map(str::to_string)
             } else {
                 None
             };
@@ -206,6 +200,7 @@ impl RequirementParser {
                 "<" => VersionConstraint::LessThan(version),
                 "<=" => VersionConstraint::LessThanOrEqual(version),
                 "~=" => VersionConstraint::Compatible(version),
+                "!=" => VersionConstraint::Exclude(vec![version]),
                 _ => return Err(format!("Unknown version operator: {}", op)),
             };
 
@@ -237,6 +232,9 @@ impl RequirementParser {
             }
         }
 
+        if !self.patterns.name.is_match(s) {
+            return Err(format!("Invalid requirement: {}", s));
+        }
         Ok((s.to_string(), None))
     }
 
@@ -260,6 +258,10 @@ impl RequirementParser {
 
     /// Parse rez-native version spec attached after the '-' separator.
     fn parse_rez_version_spec(spec: &str) -> Option<VersionConstraint> {
+        if spec == "*" {
+            return Some(VersionConstraint::Any);
+        }
+
         if let Some(dot_pos) = spec.find("..") {
             let min_str = &spec[..dot_pos];
             let max_str = &spec[dot_pos + 2..];
@@ -307,7 +309,7 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=)(.+)$").unwrap();
+        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=|!=)(.+)$").unwrap();
 
         if let Some(captures) = version_pattern.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
@@ -322,6 +324,7 @@ impl RequirementParser {
                 "<" => Ok(VersionConstraint::LessThan(version)),
                 "<=" => Ok(VersionConstraint::LessThanOrEqual(version)),
                 "~=" => Ok(VersionConstraint::Compatible(version)),
+                "!=" => Ok(VersionConstraint::Exclude(vec![version])),
                 _ => Err(format!("Unknown version operator: {}", op)),
             }
         } else {
@@ -333,9 +336,10 @@ impl RequirementParser {
 impl RequirementPatterns {
     fn new() -> Self {
         Self {
-            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=)(.+)$").unwrap(),
+            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=|!=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
             wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
+            name: Regex::new(r"^[a-zA-Z0-9_\-\.]+$").unwrap(),
         }
     }
 }
-- 
2.43.0


From 93e0d6cec032dd1379e663cdd9d73b571ddba3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 08/48] fix: give both requirement types the same meaning and
 text

A request like python>=3.9 printed as python->=3.9, which the solver read
as a package called 'python-', and python-3.9 accepted 3.9.1 in the solver
but not when a context was validated.
---
 .../src/package/requirement.rs                | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..85eb10c 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -21,8 +21,14 @@ pub struct PackageRequirement {
 
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+        let base = if let Some(version) = &self.version_spec {
+            // Operator specs follow the name directly; "name->=1" would not parse back
+            let separator = if version.starts_with(['<', '>', '=', '!', '~']) {
+                ""
+            } else {
+                "-"
+            };
+            format!("{}{separator}{version}", self.name)
         } else {
             self.name.clone()
         };
@@ -133,6 +139,15 @@ impl PackageRequirement {
     fn check_single_constraint(version: &Version, spec: &str) -> bool {
         use rez_next_version::VersionRange;
 
+        // Every form the solver understands means the same here
+        let requirement = Self::with_version("package".to_string(), spec.to_string());
+        if let Ok(parsed) = requirement.to_string().parse::<ParsedRequirement>()
+            && parsed.name == requirement.name
+            && parsed.version_constraint.is_some()
+        {
+            return parsed.is_satisfied_by(version);
+        }
+
         let (op, ver_str) = if let Some(rest) = spec.strip_prefix(">=") {
             (">=", rest)
         } else if let Some(rest) = spec.strip_prefix("<=") {
-- 
2.43.0


From 626f091affc10e9cb6497d90805313f64e908dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 09/48] fix: reject invalid package names in name-version
 requirements and accept ==*

---
 crates/rez-next-package/src/requirement/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 68227b4..66e6a70 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -213,7 +213,7 @@ impl RequirementParser {
         {
             let name = without_plus[..dash_pos].to_string();
             let version_str = &without_plus[dash_pos + 1..];
-            if Version::parse(version_str).is_ok() {
+            if self.patterns.name.is_match(&name) && Version::parse(version_str).is_ok() {
                 let version = Version::parse(version_str)
                     .map_err(|e| format!("Invalid version {}: {}", version_str, e))?;
                 return Ok((name, Some(VersionConstraint::GreaterThanOrEqual(version))));
@@ -226,7 +226,9 @@ impl RequirementParser {
                 let name = s[..pos].to_string();
                 let ver_spec = &s[pos + 1..];
 
-                if let Some(constraint) = Self::parse_rez_version_spec(ver_spec) {
+                if self.patterns.name.is_match(&name)
+                    && let Some(constraint) = Self::parse_rez_version_spec(ver_spec)
+                {
                     return Ok((name, Some(constraint)));
                 }
             }
@@ -338,7 +340,7 @@ impl RequirementPatterns {
         Self {
             basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=|!=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
-            wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
+            wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.*\*.*)$").unwrap(),
             name: Regex::new(r"^[a-zA-Z0-9_\-\.]+$").unwrap(),
         }
     }
-- 
2.43.0


From 753172a313e70f550156e11fe93cc041cd7592dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:06 +0000
Subject: [PATCH 10/48] fix: honour a package's conflicts with packages
 selected before it

---
 crates/rez-next-solver/src/dependency_resolver.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..1e13bae 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -497,6 +497,15 @@ impl DependencyResolver {
             dependencies.push(dep_requirement);
         }
 
+        if let Some(excluded) = conflicts.iter().find(|conflict| {
+            conflict.name != candidate.name && state.find_satisfying_package(conflict).is_some()
+        }) {
+            return Err(RezCoreError::Solver(format!(
+                "Package {} conflicts with selected package {}",
+                candidate.name, excluded.name
+            )));
+        }
+
         Ok((resolved_info, dependencies, conflicts))
     }
 
-- 
2.43.0


From 1d6f8ee5545094941aabfe0cf4f89d9648b6d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 11/48] fix: stop a solve whose package choices undo each other

---
 crates/rez-next-solver/src/dependency_resolver.rs | 9 +++++++++
 crates/rez-next-solver/src/resolution_state.rs    | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 1e13bae..e134a8d 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -189,6 +189,15 @@ impl DependencyResolver {
     ) -> Result<Vec<ResolvedPackageInfo>, RezCoreError> {
         // Get next requirement to resolve
         while let Some(requirement) = state.get_next_requirement() {
+            // Packages whose versions undo each other's choices would be
+            // replaced forever.
+            if state.replacements > self.config.max_attempts {
+                return Err(RezCoreError::Solver(format!(
+                    "No consistent selection found after {} attempts",
+                    self.config.max_attempts
+                )));
+            }
+
             // Check if we already have a package that satisfies this requirement
             if let Some(existing) = state.find_satisfying_package(&requirement) {
                 // Mark this requirement as satisfied
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..f832a75 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -51,6 +51,7 @@ pub(crate) struct ResolutionState {
     pub(crate) packages_considered: usize,
     pub(crate) variants_evaluated: usize,
     pub(crate) backtrack_steps: usize,
+    pub(crate) replacements: usize,
 }
 
 impl ResolutionState {
@@ -78,6 +79,7 @@ impl ResolutionState {
             packages_considered: 0,
             variants_evaluated: 0,
             backtrack_steps: 0,
+            replacements: 0,
         };
         state.rebuild_constraints();
         state
@@ -365,6 +367,7 @@ impl ResolutionState {
             .find(|existing| existing.package.name == package.package.name)
         {
             *existing = package;
+            self.replacements += 1;
         } else {
             self.resolved_packages.push(package);
         }
-- 
2.43.0


From f33e87bee30f47104d7e90b296b5d326d3dad143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:44 +0000
Subject: [PATCH 12/48] fix: find a consistent selection whenever one exists,
 and ignore weak requirements in cycles

---
 .../src/dependency_resolver.rs                | 143 ++++++++++++++++--
 .../rez-next-solver/src/resolution_state.rs   |   5 +-
 2 files changed, 134 insertions(+), 14 deletions(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index e134a8d..1076e5b 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -6,7 +6,7 @@ use rez_next_common::RezCoreError;
 use rez_next_package::{Package, Requirement, VersionConstraint};
 use rez_next_repository::simple_repository::RepositoryManager;
 use rez_next_version::Version;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -134,7 +134,21 @@ impl DependencyResolver {
         let mut resolution_state = ResolutionState::new(requirements.clone());
 
         // Perform resolution
-        let result = self.resolve_recursive(&mut resolution_state).await?;
+        let outcome = self.resolve_recursive(&mut resolution_state).await;
+
+        // Replacing one package at a time can miss combinations that do exist
+        let unresolved = outcome.is_err()
+            || !resolution_state.failed_requirements.is_empty()
+            || resolution_state.detect_cycle().is_some();
+        let result = if self.config.strict_mode
+            && unresolved
+            && let Some(found) = self.search_combinations(&requirements).await?
+        {
+            resolution_state = found;
+            resolution_state.resolved_packages.clone()
+        } else {
+            outcome?
+        };
 
         // Check for cyclic dependencies after full resolution
         if let Some(cycle) = resolution_state.detect_cycle() {
@@ -291,6 +305,100 @@ impl DependencyResolver {
         Ok(state.resolved_packages.clone())
     }
 
+    /// Search the combinations of candidates and variants depth first, in
+    /// preference order, for one that satisfies every requirement.
+    async fn search_combinations(
+        &mut self,
+        requirements: &[Requirement],
+    ) -> Result<Option<ResolutionState>, RezCoreError> {
+        // Load every package family that the search can reach
+        let mut loaded = HashSet::new();
+        let mut pending: Vec<Requirement> = requirements.to_vec();
+        while let Some(requirement) = pending.pop() {
+            if requirement.weak || requirement.conflict || !loaded.insert(requirement.name.clone())
+            {
+                continue;
+            }
+            self.find_candidate_packages(&requirement).await?;
+            for package in self.package_cache.get(&requirement.name).into_iter().flatten() {
+                pending.extend(
+                    package
+                        .requires
+                        .iter()
+                        .chain(package.variants.iter().flatten())
+                        .filter_map(|raw| raw.parse::<Requirement>().ok()),
+                );
+            }
+        }
+
+        let mut attempts = self.config.max_attempts;
+        Ok(self.search_selection(requirements, &mut Vec::new(), &mut attempts))
+    }
+
+    fn search_selection(
+        &self,
+        requirements: &[Requirement],
+        selected: &mut Vec<(ResolvedPackageInfo, Vec<Requirement>, Vec<Requirement>)>,
+        attempts: &mut usize,
+    ) -> Option<ResolutionState> {
+        if *attempts == 0 {
+            return None;
+        }
+        *attempts -= 1;
+
+        let mut state = ResolutionState::new(requirements.to_vec());
+        for (info, dependencies, conflicts) in selected.iter() {
+            state.add_resolved_package(info.clone());
+            state.set_package_requirements(
+                info.package.name.clone(),
+                dependencies.clone(),
+                conflicts.clone(),
+            );
+        }
+        if selected.iter().any(|(info, _, _)| {
+            state
+                .check_conflicts(&info.package, &Requirement::new(info.package.name.clone()))
+                .is_some()
+        }) {
+            return None;
+        }
+
+        let missing = state.requirement_queue.iter().find(|requirement| {
+            !requirement.weak && state.find_satisfying_package(requirement).is_none()
+        });
+        let Some(requirement) = missing.cloned() else {
+            return state.detect_cycle().is_none().then_some(state);
+        };
+
+        let packages = self.package_cache.get(&requirement.name)?;
+        for candidate in self.filter_and_sort_candidates(packages, &requirement) {
+            let variants = match candidate.variants.len() {
+                0 => vec![None],
+                count => (0..count).map(Some).collect(),
+            };
+            for variant_index in variants {
+                let requires = self.get_effective_requires(&candidate, variant_index);
+                let Ok((dependencies, conflicts)) = Self::split_requires(&requires) else {
+                    continue;
+                };
+                let info = ResolvedPackageInfo {
+                    package: candidate.clone(),
+                    variant_index,
+                    requested: state.is_original_requirement(&requirement),
+                    required_by: vec![requirement.name.clone()],
+                    satisfying_requirement: Some(requirement.clone()),
+                };
+                selected.push((info, dependencies, conflicts));
+                let found = self.search_selection(requirements, selected, attempts);
+                selected.pop();
+                if found.is_some() {
+                    return found;
+                }
+            }
+        }
+        None
+    }
+
     async fn backtrack_dependency_source(
         &mut self,
         state: &mut ResolutionState,
@@ -489,9 +597,27 @@ impl DependencyResolver {
             satisfying_requirement: Some(requirement.clone()),
         };
 
+        let (dependencies, conflicts) = Self::split_requires(&effective_requires)?;
+
+        if let Some(excluded) = conflicts.iter().find(|conflict| {
+            conflict.name != candidate.name && state.find_satisfying_package(conflict).is_some()
+        }) {
+            return Err(RezCoreError::Solver(format!(
+                "Package {} conflicts with selected package {}",
+                candidate.name, excluded.name
+            )));
+        }
+
+        Ok((resolved_info, dependencies, conflicts))
+    }
+
+    /// Separate a package's requires into dependencies and conflicts
+    fn split_requires(
+        requires: &[String],
+    ) -> Result<(Vec<Requirement>, Vec<Requirement>), RezCoreError> {
         let mut dependencies = Vec::new();
         let mut conflicts = Vec::new();
-        for dep_req_str in &effective_requires {
+        for dep_req_str in requires {
             let (conflict, dep_requirement) = Self::parse_variant_requirement(dep_req_str)
                 .map_err(|e| {
                     RezCoreError::RequirementParse(format!(
@@ -506,16 +632,7 @@ impl DependencyResolver {
             dependencies.push(dep_requirement);
         }
 
-        if let Some(excluded) = conflicts.iter().find(|conflict| {
-            conflict.name != candidate.name && state.find_satisfying_package(conflict).is_some()
-        }) {
-            return Err(RezCoreError::Solver(format!(
-                "Package {} conflicts with selected package {}",
-                candidate.name, excluded.name
-            )));
-        }
-
-        Ok((resolved_info, dependencies, conflicts))
+        Ok((dependencies, conflicts))
     }
 
     /// Select the best variant for a package given current resolution state
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index f832a75..0cafc22 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -218,7 +218,10 @@ impl ResolutionState {
         let package_requirements = self.package_requirements.clone();
         for (source, requirements) in package_requirements {
             for requirement in requirements {
-                self.record_dependency(&source, &requirement.name);
+                // A weak requirement constrains a package without depending on it
+                if !requirement.weak {
+                    self.record_dependency(&source, &requirement.name);
+                }
                 self.insert_active_requirement(requirement);
             }
         }
-- 
2.43.0


From d5a8d14105174928337145ed5ddbc2c9f025564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:36 +0000
Subject: [PATCH 13/48] fix: apply the constraints and excludes of a solver
 request

---
 crates/rez-next-solver/src/solver.rs | 29 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..026d8cd 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -208,16 +208,25 @@ impl DependencySolver {
                 .map_err(|e| RezCoreError::Solver(format!("Failed to create runtime: {}", e)))?;
 
             // Convert PackageRequirement -> Requirement via string parsing
-            let requirements: Vec<Requirement> = request
-                .requirements
-                .into_iter()
-                .map(|pr| {
-                    let req_str = pr.to_string();
-                    req_str
-                        .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
-                })
-                .collect();
+            let convert = |pr: PackageRequirement| {
+                let req_str = pr.to_string();
+                req_str
+                    .parse::<Requirement>()
+                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+            };
+            let mut requirements: Vec<Requirement> =
+                request.requirements.into_iter().map(convert).collect();
+            // Constraints restrict packages without requesting them
+            requirements.extend(request.constraints.into_iter().map(|pr| {
+                let mut requirement = convert(pr);
+                requirement.weak = !requirement.conflict;
+                requirement
+            }));
+            requirements.extend(request.excludes.into_iter().map(|name| {
+                let mut requirement = Requirement::new(name);
+                requirement.conflict = true;
+                requirement
+            }));
 
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
-- 
2.43.0


From 044fc5bd3fc544d95fe141519afcc5be90f1eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:11 +0000
Subject: [PATCH 14/48] fix: keep dependency graph edges consistent and measure
 its depth correctly

---
 crates/rez-next-solver/src/graph.rs | 49 +++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index dc6cc1e..64351df 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -164,8 +164,12 @@ impl DependencyGraph {
             )));
         }
 
-        let node = GraphNode::new(package);
-        self.nodes.insert(key, node);
+        // Adding a package again updates it and keeps its edges
+        if let Some(node) = self.nodes.get_mut(&key) {
+            node.package = package;
+        } else {
+            self.nodes.insert(key, GraphNode::new(package));
+        }
 
         Ok(())
     }
@@ -198,24 +202,24 @@ impl DependencyGraph {
         from_key: &str,
         to_key: &str,
     ) -> Result<(), RezCoreError> {
+        // Both ends must exist before either is changed
+        for key in [from_key, to_key] {
+            if !self.nodes.contains_key(key) {
+                return Err(RezCoreError::Solver(format!(
+                    "Package {} not found in graph",
+                    key
+                )));
+            }
+        }
+
         // Add dependency to the from node
         if let Some(from_node) = self.nodes.get_mut(from_key) {
             from_node.add_dependency(to_key.to_string());
-        } else {
-            return Err(RezCoreError::Solver(format!(
-                "Package {} not found in graph",
-                from_key
-            )));
         }
 
         // Add dependent to the to node
         if let Some(to_node) = self.nodes.get_mut(to_key) {
             to_node.add_dependent(from_key.to_string());
-        } else {
-            return Err(RezCoreError::Solver(format!(
-                "Package {} not found in graph",
-                to_key
-            )));
         }
 
         Ok(())
@@ -544,24 +548,29 @@ impl DependencyGraph {
 
     /// Calculate the depth of a node in the graph
     fn calculate_node_depth(&self, node_key: &str) -> usize {
-        let mut visited = HashSet::new();
-        self.calculate_depth_recursive(node_key, &mut visited)
+        self.calculate_depth_recursive(node_key, &mut HashMap::new())
     }
 
-    /// Recursive helper for depth calculation
-    fn calculate_depth_recursive(&self, node_key: &str, visited: &mut HashSet<String>) -> usize {
-        if visited.contains(node_key) {
-            return 0; // Avoid infinite recursion
+    /// Recursive helper for depth calculation; `depths` holds the depth of every
+    /// node seen so far (0 while it is still being calculated)
+    fn calculate_depth_recursive<'a>(
+        &'a self,
+        node_key: &'a str,
+        depths: &mut HashMap<&'a str, usize>,
+    ) -> usize {
+        if let Some(depth) = depths.get(node_key) {
+            return *depth; // Avoid infinite recursion
         }
 
-        visited.insert(node_key.to_string());
+        depths.insert(node_key, 0);
 
         if let Some(node) = self.nodes.get(node_key) {
             let mut max_dep_depth = 0;
             for dep_key in &node.dependencies {
-                let dep_depth = self.calculate_depth_recursive(dep_key, visited);
+                let dep_depth = self.calculate_depth_recursive(dep_key, depths);
                 max_dep_depth = max_dep_depth.max(dep_depth);
             }
+            depths.insert(node_key, max_dep_depth + 1);
             max_dep_depth + 1
         } else {
             0
-- 
2.43.0


From 5a6b3c3efd7ac7452cef0efdc3524afce1666c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 15/48] fix: hide ignored packages from resolves, report broken
 families every time, find the latest in any repository

---
 .../src/simple_repository.rs                    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 348fcfe..1ee2de0 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -87,6 +87,12 @@ impl SimpleRepository {
                 let path = entry.path();
 
                 if path.is_dir() {
+                    // Rez hides a version when a sibling `.ignore{version}` marker exists.
+                    let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+                    if dir_path.join(marker).is_file() {
+                        continue;
+                    }
+
                     // Check if this directory contains any supported package descriptor.
                     // Priority follows the canonical `REZ_PACKAGE_FILENAMES` order.
                     let pkg_file = REZ_PACKAGE_FILENAMES
@@ -142,15 +148,15 @@ impl SimpleRepository {
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
         // Check cache first
+        if let Some(error) = self.package_errors.read().await.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
         {
             let cache = self.package_cache.read().await;
             if let Some(packages) = cache.get(name) {
                 return Ok(packages.clone());
             }
         }
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
 
         // If not in cache, scan and try again
         self.scan().await?;
@@ -260,6 +266,11 @@ impl RepositoryManager {
         name: &str,
         version: Option<&str>,
     ) -> Result<Option<Arc<Package>>, RezCoreError> {
+        if version.is_none() {
+            // The latest version may live in any repository
+            return Ok(self.find_packages(name).await?.into_iter().next());
+        }
+
         for repository in &self.repositories {
             if let Some(package) = repository.get_package(name, version).await? {
                 return Ok(Some(package));
-- 
2.43.0


From 766195fbde00918c7dfb48efc7066150b8de9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 16/48] fix: count only removable packages in a dry run and
 keep family lookups inside the repository

---
 .../src/package_repository/filesystem.rs              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..d18a2c4 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -160,7 +160,9 @@ impl PackageRepository for FilesystemPackageRepository {
         name: &str,
     ) -> Result<Option<PackageFamilyResource>, RezCoreError> {
         // Check if directory <location>/<name> exists
-        let family_path = self.location.join(name);
+        let Ok(family_path) = self.family_path(name) else {
+            return Ok(None);
+        };
 
         if !family_path.is_dir() {
             return Ok(None);
@@ -528,7 +530,12 @@ impl PackageRepository for FilesystemPackageRepository {
                     "removing ignored package"
                 );
             }
-            if dry_run || self.remove_package(&name, Some(&version))? {
+            let present = if dry_run {
+                self.version_path(&name, &version)?.is_dir()
+            } else {
+                self.remove_package(&name, Some(&version))?
+            };
+            if present {
                 removed += 1;
             }
         }
-- 
2.43.0


From 2ef47befbe1b78950a88d8851ac0b35564904bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 17/48] fix: never destroy the source of a package copy or
 move, and honour removal dry runs

Copying onto itself with force deleted the source; moving deleted the version from every
search path including the destination; removal ignored force=false, counted only top-level
bytes and followed names like '..'. rez cp and mv without a version took the oldest one.
---
 crates/rez-next-package/src/package_copy.rs   | 107 +++++++++++++-----
 crates/rez-next-package/src/package_move.rs   |  14 ++-
 crates/rez-next-package/src/package_remove.rs |  61 +++++-----
 src/cli/commands/cp.rs                        |  37 ++----
 src/cli/commands/mv.rs                        |  36 ++----
 5 files changed, 137 insertions(+), 118 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..f4e36c2 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -98,10 +98,38 @@ pub fn copy_package(
 
     let dest = dest_base.join(name).join(version);
 
+    // Perform the copy
+    let stats = copy_package_dir(&src, &dest, config.force)?;
+
+    Ok(PackageCopyResult {
+        source: src,
+        destination: dest,
+        files_copied: stats.files,
+        bytes_copied: stats.bytes,
+    })
+}
+
+/// Copy a package directory to `dest`, replacing what is there only with `force`.
+pub fn copy_package_dir(
+    src: &Path,
+    dest: &Path,
+    force: bool,
+) -> Result<CopyStats, PackageCopyError> {
+    let resolved_src = resolve_existing(&std::path::absolute(src)?);
+    // Overwriting the source, or anything inside or around it, would destroy it
+    let resolved_dest = resolve_existing(&std::path::absolute(dest)?);
+    if resolved_dest.starts_with(&resolved_src) || resolved_src.starts_with(&resolved_dest) {
+        return Err(PackageCopyError::Other(format!(
+            "Cannot copy {} onto itself: {}",
+            src.display(),
+            dest.display()
+        )));
+    }
+
     // Check destination
     if dest.exists() {
-        if config.force {
-            fs::remove_dir_all(&dest)?;
+        if force {
+            fs::remove_dir_all(dest)?;
         } else {
             return Err(PackageCopyError::DestinationExists {
                 path: dest.display().to_string(),
@@ -115,14 +143,7 @@ pub fn copy_package(
     }
 
     // Perform the copy
-    let stats = copy_dir_recursive(&src, &dest)?;
-
-    Ok(PackageCopyResult {
-        source: src,
-        destination: dest,
-        files_copied: stats.files,
-        bytes_copied: stats.bytes,
-    })
+    Ok(copy_dir_recursive(src, dest)?)
 }
 
 /// Find a package directory by name and version across search paths.
@@ -131,24 +152,49 @@ pub fn find_package_dir(
     version: &str,
     search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
-    for base in search_paths {
-        // Check both version and version subdir patterns
-        let candidates = [
-            base.join(name).join(version),
-            base.join(name).join(format!("{}-{}", name, version)),
-        ];
-
-        for candidate in &candidates {
-            if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
-            }
-        }
+    locate_package_dir(name, version, search_paths)
+        .map(|dir| normalize_path(&dir))
+        .ok_or_else(|| PackageCopyError::VersionNotFound {
+            name: name.to_string(),
+            version: version.to_string(),
+        })
+}
+
+/// The package directory as named in the search paths, symbolic links not followed.
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
+) -> Option<PathBuf> {
+    if !is_path_component(name) || !is_path_component(version) {
+        return None;
     }
+    search_paths
+        .iter()
+        .flat_map(|base| {
+            // Check both version and version subdir patterns
+            [
+                base.join(name).join(version),
+                base.join(name).join(format!("{}-{}", name, version)),
+            ]
+        })
+        .find(|candidate| candidate.is_dir())
+}
 
-    Err(PackageCopyError::VersionNotFound {
-        name: name.to_string(),
-        version: version.to_string(),
-    })
+/// Whether `value` names one entry of a directory: not empty, `.`, `..`, absolute or nested.
+pub(crate) fn is_path_component(value: &str) -> bool {
+    let mut components = Path::new(value).components();
+    matches!(components.next(), Some(std::path::Component::Normal(c)) if c == value)
+        && components.next().is_none()
+}
+
+/// `path` with symbolic links resolved in the part of it that exists.
+fn resolve_existing(path: &Path) -> PathBuf {
+    match (dunce::canonicalize(path), path.parent(), path.file_name()) {
+        (Ok(resolved), _, _) => resolved,
+        (Err(_), Some(parent), Some(name)) => resolve_existing(parent).join(name),
+        _ => path.to_path_buf(),
+    }
 }
 
 /// Normalize a path to avoid UNC path issues on Windows.
@@ -159,10 +205,13 @@ fn normalize_path(path: &Path) -> PathBuf {
     dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
 }
 
+/// What a directory copy consisted of.
 #[derive(Debug, Default)]
-struct CopyStats {
-    files: usize,
-    bytes: u64,
+pub struct CopyStats {
+    /// Number of files and symbolic links copied.
+    pub files: usize,
+    /// Total bytes copied.
+    pub bytes: u64,
 }
 
 /// Recursively copy a directory, preserving symlinks and permissions.
diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..eb1b113 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -85,10 +85,10 @@ impl PackageMoveConfig {
         }
     }
 
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
+    /// Create a PackageRemoveConfig from this move config, for the source repository.
+    fn to_remove_config(&self, source_base: &Path) -> PackageRemoveConfig {
         PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
+            packages_path: vec![source_base.to_path_buf()],
             force: true, // We always force remove during move
             prune_empty_families: true,
         }
@@ -124,6 +124,8 @@ pub fn move_package(
     // Prevent moving to the same location
     let dest = dest_base.join(name).join(version);
     let src = package_copy::find_package_dir(name, version, &config.packages_path)?;
+    let source = package_copy::locate_package_dir(name, version, &config.packages_path)
+        .unwrap_or_else(|| src.clone());
 
     // Normalize both paths
     let src_normalized = dunce::canonicalize(&src).unwrap_or_else(|_| src.clone());
@@ -141,7 +143,11 @@ pub fn move_package(
 
     // Phase 2: Remove source (unless keep_source)
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        // Only what was copied: other search paths may hold the version too, and
+        // one of them may be the destination
+        let base = source.ancestors().nth(2).unwrap_or(Path::new("/"));
+        let dir_name = source.file_name().unwrap_or_default().to_string_lossy();
+        package_remove::remove_package_version(name, &dir_name, &config.to_remove_config(base))?;
         true
     } else {
         false
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..848f884 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -9,10 +9,12 @@
 //! - **Dry-run support**: Always provide a way to preview what will be removed.
 
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use thiserror::Error;
 
+use crate::package_copy::{dir_size, is_path_component};
+
 /// Errors that can occur during package remove operations.
 #[derive(Debug, Error)]
 pub enum PackageRemoveError {
@@ -84,21 +86,14 @@ pub fn remove_package_version(
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-    for base in &config.packages_path {
-        let version_dir = base.join(name).join(version);
-        if version_dir.exists() && version_dir.is_dir() {
-            // Calculate size before removal
-            if let Ok(dir_entry) = fs::read_dir(&version_dir) {
-                for entry in dir_entry.flatten() {
-                    if let Ok(meta) = entry.metadata() {
-                        bytes_freed += meta.len();
-                    }
-                }
-            }
+    for version_dir in preview_removal(name, Some(version), &config.packages_path) {
+        // Calculate size before removal
+        bytes_freed += freed_bytes(&version_dir);
 
+        if config.force {
             fs::remove_dir_all(&version_dir)?;
-            removed_paths.push(version_dir);
         }
+        removed_paths.push(version_dir);
     }
 
     if removed_paths.is_empty() {
@@ -106,7 +101,7 @@ pub fn remove_package_version(
     }
 
     // Prune empty family directories
-    if config.prune_empty_families {
+    if config.force && config.prune_empty_families {
         for base in &config.packages_path {
             let family_dir = base.join(name);
             if family_dir.exists()
@@ -135,15 +130,14 @@ pub fn remove_package_family(
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-    for base in &config.packages_path {
-        let family_dir = base.join(name);
-        if family_dir.exists() && family_dir.is_dir() {
-            // Calculate total size
-            bytes_freed += crate::package_copy::dir_size(&family_dir).unwrap_or(0);
+    for family_dir in preview_removal(name, None, &config.packages_path) {
+        // Calculate total size
+        bytes_freed += freed_bytes(&family_dir);
 
+        if config.force {
             fs::remove_dir_all(&family_dir)?;
-            removed_paths.push(family_dir);
         }
+        removed_paths.push(family_dir);
     }
 
     if removed_paths.is_empty() {
@@ -157,25 +151,32 @@ pub fn remove_package_family(
     })
 }
 
+/// Bytes that removing `dir` frees: nothing when it is only a link to a directory.
+fn freed_bytes(dir: &Path) -> u64 {
+    if dir.is_symlink() {
+        return 0;
+    }
+    dir_size(dir).unwrap_or(0)
+}
+
 /// Preview what would be removed (dry-run).
 pub fn preview_removal(
     name: &str,
     version: Option<&str>,
     search_paths: &[PathBuf],
 ) -> Vec<PathBuf> {
-    let mut paths = Vec::new();
+    let mut paths: Vec<PathBuf> = Vec::new();
+    if !is_path_component(name) || version.is_some_and(|ver| !is_path_component(ver)) {
+        return paths;
+    }
 
     for base in search_paths {
+        let mut dir = base.join(name);
         if let Some(ver) = version {
-            let version_dir = base.join(name).join(ver);
-            if version_dir.exists() {
-                paths.push(version_dir);
-            }
-        } else {
-            let family_dir = base.join(name);
-            if family_dir.exists() {
-                paths.push(family_dir);
-            }
+            dir.push(ver);
+        }
+        if dir.is_dir() && !paths.contains(&dir) {
+            paths.push(dir);
         }
     }
 
diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..d69d64f 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -7,7 +7,7 @@ use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Arguments for the cp command
 #[derive(Args, Clone, Debug)]
@@ -224,13 +224,18 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
     };
 
     // Find the actual filesystem path
+    if let Some(dir) = pkg.filepath.as_deref().and_then(|p| Path::new(p).parent())
+        && dir.is_dir()
+    {
+        return Ok(((*pkg).clone(), dir.to_path_buf()));
+    }
     let ver_str = pkg
         .version
         .as_ref()
@@ -262,13 +267,8 @@ async fn copy_package_directory(
     source_package: &Package,
     args: &CpArgs,
 ) -> RezCoreResult<CopyResult> {
-    // Remove existing destination if force
-    if args.force && dest_root.exists() {
-        std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
-    }
-
-    // Recursively copy directory
-    copy_dir_recursive(source_root, dest_root)?;
+    rez_next_package::package_copy::copy_package_dir(source_root, dest_root, args.force)
+        .map_err(|e| RezCoreError::PackageParse(e.to_string()))?;
 
     let variants_copied = if args.all_variants {
         source_package.variants.len().max(1)
@@ -285,25 +285,6 @@ async fn copy_package_directory(
     })
 }
 
-/// Recursively copy a directory
-fn copy_dir_recursive(src: &PathBuf, dest: &PathBuf) -> RezCoreResult<()> {
-    std::fs::create_dir_all(dest).map_err(RezCoreError::Io)?;
-
-    for entry in std::fs::read_dir(src).map_err(RezCoreError::Io)? {
-        let entry = entry.map_err(RezCoreError::Io)?;
-        let src_path = entry.path();
-        let dest_path = dest.join(entry.file_name());
-
-        if src_path.is_dir() {
-            copy_dir_recursive(&src_path, &dest_path)?;
-        } else {
-            std::fs::copy(&src_path, &dest_path).map_err(RezCoreError::Io)?;
-        }
-    }
-
-    Ok(())
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..de5c7e7 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -7,7 +7,7 @@ use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Arguments for the mv command
 #[derive(Args, Clone, Debug)]
@@ -247,12 +247,17 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
     };
 
+    if let Some(dir) = pkg.filepath.as_deref().and_then(|p| Path::new(p).parent())
+        && dir.is_dir()
+    {
+        return Ok(((*pkg).clone(), dir.to_path_buf()));
+    }
     let ver_str = pkg
         .version
         .as_ref()
@@ -282,13 +287,8 @@ async fn move_package_directory(
     dest_root: &PathBuf,
     args: &MvArgs,
 ) -> RezCoreResult<MoveResult> {
-    // Remove existing destination if force
-    if args.force && dest_root.exists() {
-        std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
-    }
-
-    // Copy source to destination
-    copy_dir_recursive(source_path, dest_root)?;
+    rez_next_package::package_copy::copy_package_dir(source_path, dest_root, args.force)
+        .map_err(|e| RezCoreError::PackageParse(e.to_string()))?;
 
     // Remove source unless keeping it
     if !args.keep_source {
@@ -319,24 +319,6 @@ async fn move_package_directory(
     })
 }
 
-fn copy_dir_recursive(src: &PathBuf, dest: &PathBuf) -> RezCoreResult<()> {
-    std::fs::create_dir_all(dest).map_err(RezCoreError::Io)?;
-
-    for entry in std::fs::read_dir(src).map_err(RezCoreError::Io)? {
-        let entry = entry.map_err(RezCoreError::Io)?;
-        let src_path = entry.path();
-        let dest_path = dest.join(entry.file_name());
-
-        if src_path.is_dir() {
-            copy_dir_recursive(&src_path, &dest_path)?;
-        } else {
-            std::fs::copy(&src_path, &dest_path).map_err(RezCoreError::Io)?;
-        }
-    }
-
-    Ok(())
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fc376de3be727f5ce8326484ff07bf1a863c4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 18/48] fix: rez rm --ignored-since removes ignored packages
 only

It removed every package whose descriptor was older than the given time, ignored or not, and
rez rm could remove an ignored copy of a version in place of the visible one.
---
 src/cli/commands/rm.rs | 162 +++++++++++------------------------------
 1 file changed, 44 insertions(+), 118 deletions(-)

diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..e24ec6d 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -7,7 +7,8 @@ use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
-use std::path::PathBuf;
+use rez_next_repository::{FilesystemPackageRepository, PackageRepository};
+use std::path::{Path, PathBuf};
 
 /// Arguments for the rm command
 #[derive(Args, Clone, Debug)]
@@ -279,120 +280,55 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     // Parse time specification (absolute ISO datetime or relative like 1d/2w/1m/1y)
     let cutoff_timestamp = parse_time_spec(time_spec)?;
 
-    let repo_manager = setup_repositories(args).await?;
+    // Whole days, rounded up so that nothing ignored more recently is removed
+    let now = std::time::SystemTime::now()
+        .duration_since(std::time::UNIX_EPOCH)
+        .map_or(0, |elapsed| elapsed.as_secs());
+    let days = now.saturating_sub(cutoff_timestamp).div_ceil(24 * 60 * 60);
+    let days = i32::try_from(days).unwrap_or(i32::MAX);
 
-    // Get all package family names, then fetch their versions
-    let package_names = repo_manager.list_packages().await?;
-    let mut removal_candidates: Vec<Package> = Vec::new();
-
-    for name in &package_names {
-        let packages = repo_manager.find_packages(name).await?;
-        for pkg_arc in packages {
-            let pkg = (*pkg_arc).clone();
-            // Retrieve install dir by walking the configured repo paths
-            let pkg_path = {
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown");
-                // Construct candidate paths: <repo>/<name>/<version>/package.py
-                let mut found_path = std::path::PathBuf::new();
-                for path in &args.paths {
-                    let candidate = path.join(&pkg.name).join(ver_str).join("package.py");
-                    if candidate.exists() {
-                        found_path = candidate;
-                        break;
-                    }
-                }
-                found_path
-            };
-
-            if !pkg_path.as_os_str().is_empty()
-                && let Ok(metadata) = std::fs::metadata(&pkg_path)
-                && let Ok(modified) = metadata.modified()
-                && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
-                && dur.as_secs() < cutoff_timestamp
-            {
-                removal_candidates.push(pkg);
-            }
-        }
+    let mut removed = 0;
+    for path in repository_paths(args) {
+        let mut repository = FilesystemPackageRepository::new(&path);
+        removed += repository.remove_ignored_since(days, args.dry_run, args.verbose)?;
     }
 
-    if removal_candidates.is_empty() {
+    if removed == 0 {
         println!(
             "No packages found matching time filter (ignored since {})",
             time_spec
         );
-        return Ok(());
-    }
-
-    if args.verbose || args.dry_run {
-        println!("Packages to remove ({}):", removal_candidates.len());
-        for pkg in &removal_candidates {
-            let ver = pkg
-                .version
-                .as_ref()
-                .map(|v| v.as_str())
-                .unwrap_or("unknown");
-            println!("  {}-{}", pkg.name, ver);
-        }
-    }
-
-    if args.dry_run {
+    } else if args.dry_run {
+        println!("[dry-run] Would remove {} package(s)", removed);
+    } else {
         println!(
-            "[dry-run] Would remove {} package(s)",
-            removal_candidates.len()
+            "✅ Removed {} package(s) ignored since {}",
+            removed, time_spec
         );
-        return Ok(());
     }
+    Ok(())
+}
 
-    // Perform actual removal via the existing single-package remove path
-    let mut removed = 0usize;
-    for pkg in &removal_candidates {
-        match remove_single_package(pkg, args).await {
-            Ok(_) => {
-                removed += 1;
-                if args.verbose {
-                    println!(
-                        "  Removed {}-{}",
-                        pkg.name,
-                        pkg.version
-                            .as_ref()
-                            .map(|v| v.as_str())
-                            .unwrap_or("unknown")
-                    );
-                }
-            }
-            Err(e) => eprintln!("  Warning: failed to remove {}: {}", pkg.name, e),
-        }
-    }
+/// Repository paths given on the command line, or the configured ones
+fn repository_paths(args: &RmArgs) -> Vec<PathBuf> {
+    use rez_next_common::config::RezCoreConfig;
 
-    println!(
-        "✅ Removed {} package(s) ignored since {}",
-        removed, time_spec
-    );
-    Ok(())
+    if !args.paths.is_empty() {
+        return args.paths.clone();
+    }
+    RezCoreConfig::load()
+        .packages_path
+        .iter()
+        .map(|p| expand_home_path(p))
+        .filter(|p| p.exists())
+        .collect()
 }
 
 /// Setup repository manager
 async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
-    use rez_next_common::config::RezCoreConfig;
-
     let mut repo_manager = RepositoryManager::new();
-    let paths: Vec<PathBuf> = if !args.paths.is_empty() {
-        args.paths.clone()
-    } else {
-        let config = RezCoreConfig::load();
-        config
-            .packages_path
-            .iter()
-            .map(|p| expand_home_path(p))
-            .filter(|p| p.exists())
-            .collect()
-    };
 
-    for (i, path) in paths.iter().enumerate() {
+    for (i, path) in repository_paths(args).iter().enumerate() {
         let repo_name = format!("repo_{}", i);
         let simple_repo = SimpleRepository::new(path.clone(), repo_name);
         repo_manager.add_repository(Box::new(simple_repo));
@@ -423,9 +359,6 @@ async fn find_packages_to_remove(
 
 /// Remove a single package from disk
 async fn remove_single_package(package: &Package, args: &RmArgs) -> RezCoreResult<RemoveResult> {
-    use rez_next_common::config::RezCoreConfig;
-
-    let config = RezCoreConfig::load();
     let ver_str = package
         .version
         .as_ref()
@@ -433,24 +366,17 @@ async fn remove_single_package(package: &Package, args: &RmArgs) -> RezCoreResul
         .unwrap_or("unknown");
 
     // Try to find actual path
-    let mut package_path: Option<PathBuf> = None;
-    let search_paths: Vec<PathBuf> = if !args.paths.is_empty() {
-        args.paths.clone()
-    } else {
-        config
-            .packages_path
-            .iter()
-            .map(|p| expand_home_path(p))
-            .collect()
-    };
-
-    for base in &search_paths {
-        let candidate = base.join(&package.name).join(ver_str);
-        if candidate.exists() {
-            package_path = Some(candidate);
-            break;
-        }
-    }
+    let package_path = package
+        .filepath
+        .as_deref()
+        .and_then(|descriptor| Path::new(descriptor).parent())
+        .map(Path::to_path_buf)
+        .or_else(|| {
+            repository_paths(args)
+                .iter()
+                .map(|base| base.join(&package.name).join(ver_str))
+                .find(|candidate| candidate.exists())
+        });
 
     let pkg_path = match package_path {
         Some(p) => p,
-- 
2.43.0


From c186107de9cf4a98d5e6f0fb57c7755d787b1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:35 +0000
Subject: [PATCH 19/48] fix: serve only complete payloads of the same variant
 from the package cache

---
 crates/rez-next-package/src/package_cache.rs | 184 +++++++++++++++----
 1 file changed, 144 insertions(+), 40 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1086bf4..2d16296 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -125,7 +125,7 @@ pub enum PackageCacheError {
 /// Serializable representation of a variant handle.
 ///
 /// This is used to match cached payloads to their corresponding variants.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct VariantHandle {
     /// Package name
     pub name: String,
@@ -319,6 +319,22 @@ impl PackageCache {
             .join(hash_prefix)
     }
 
+    /// Whether the handle's name and version each name one directory of the cache.
+    fn has_valid_path(handle: &VariantHandle) -> bool {
+        let version = handle.version.as_deref().unwrap_or("_NO_VERSION");
+        crate::package_copy::is_path_component(&handle.name)
+            && !handle.name.starts_with('.')
+            && crate::package_copy::is_path_component(version)
+    }
+
+    /// The flag file that exists while the payload is being copied.
+    fn copying_flag(payload_path: &Path) -> PathBuf {
+        payload_path.with_file_name(format!(
+            ".copying-{}",
+            payload_path.file_name().unwrap().to_string_lossy()
+        ))
+    }
+
     /// Get the sys directory (.sys)
     fn sys_dir(&self) -> PathBuf {
         self.root.join(".sys")
@@ -341,7 +357,7 @@ impl PackageCache {
     pub fn get_cached_root(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
         let hash_path = self.hash_path(handle);
 
-        if !hash_path.is_dir() {
+        if !Self::has_valid_path(handle) || !hash_path.is_dir() {
             return (CacheStatus::NotFound, None);
         }
 
@@ -365,12 +381,9 @@ impl PackageCache {
                     Err(_) => continue, // Skip corrupted entries
                 };
 
-                if metadata.handle.hashable_repr() == handle.hashable_repr() {
+                if metadata.handle == *handle {
                     // Check for .copying file (still copying)
-                    let copying_flag = json_path.with_file_name(format!(
-                        ".copying-{}",
-                        payload_path.file_name().unwrap().to_string_lossy()
-                    ));
+                    let copying_flag = Self::copying_flag(&payload_path);
 
                     if copying_flag.is_file() {
                         // Check if stalled
@@ -380,6 +393,11 @@ impl PackageCache {
                         return (CacheStatus::Copying, Some(payload_path));
                     }
 
+                    // A removal that was cut short leaves metadata without payload
+                    if !payload_path.is_dir() {
+                        continue;
+                    }
+
                     // Update last accessed time
                     let _ = Self::update_access_time(&json_path);
 
@@ -416,6 +434,13 @@ impl PackageCache {
             ));
         }
 
+        if !Self::has_valid_path(handle) {
+            return Err(PackageCacheError::PathError(format!(
+                "name and version must be single path components: {}",
+                handle.hashable_repr()
+            )));
+        }
+
         // Check if already cached
         let (status, cached_path) = self.get_cached_root(handle);
         match status {
@@ -436,7 +461,7 @@ impl PackageCache {
         // Check disk space
         if !force {
             let source_size = Self::directory_size(source_root)?;
-            if !self.check_disk_space(source_size)? {
+            if !self.check_cache_size(source_size) || !self.check_disk_space(source_size)? {
                 return Ok((CacheStatus::Skipped, self.hash_path(handle)));
             }
         }
@@ -445,16 +470,49 @@ impl PackageCache {
         let hash_path = self.hash_path(handle);
         fs::create_dir_all(&hash_path)?;
 
-        // Determine increment name (a, b, ..., aa, ab, ...)
-        let increment = Self::next_increment(&hash_path)?;
+        // Claim an unused increment name (a, b, ..., aa, ab, ...) by creating its
+        // copying flag
+        let mut increment = Self::next_increment(&hash_path)?;
+        let copying_flag = loop {
+            let flag = hash_path.join(format!(".copying-{}", increment));
+            match File::create_new(&flag) {
+                Ok(_) if !hash_path.join(format!("{}.json", increment)).exists() => break flag,
+                Ok(_) => {
+                    // Completed by someone else since the name was chosen
+                    fs::remove_file(&flag)?;
+                    increment = increment_string(&increment);
+                }
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                    increment = increment_string(&increment);
+                }
+                Err(e) => return Err(e.into()),
+            }
+        };
 
         let payload_path = hash_path.join(&increment);
         let json_path = hash_path.join(format!("{}.json", increment));
-        let copying_flag = hash_path.join(format!(".copying-{}", increment));
 
-        // Create copying flag
-        File::create(&copying_flag)?;
+        let copied = Self::write_entry(handle, source_root, &payload_path, &json_path);
+        if copied.is_err() {
+            // Leave nothing behind that would look like a copy in progress
+            let _ = fs::remove_file(&json_path);
+            let _ = fs::remove_dir_all(&payload_path);
+        }
+
+        // Remove copying flag
+        let _ = fs::remove_file(copying_flag);
+        copied?;
+
+        Ok((CacheStatus::Created, payload_path))
+    }
 
+    /// Write the metadata and payload of a cache entry.
+    fn write_entry(
+        handle: &VariantHandle,
+        source_root: &Path,
+        payload_path: &Path,
+        json_path: &Path,
+    ) -> Result<(), PackageCacheError> {
         // Create metadata
         let now = SystemTime::now()
             .duration_since(UNIX_EPOCH)
@@ -469,16 +527,11 @@ impl PackageCache {
         };
 
         // Write metadata
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        File::create(&json_path)?.write_all(json_str.as_bytes())?;
+        Self::write_metadata(json_path, &metadata)?;
 
         // Copy payload
-        Self::copy_dir_recursive(source_root, &payload_path)?;
-
-        // Remove copying flag
-        let _ = fs::remove_file(copying_flag);
-
-        Ok((CacheStatus::Created, payload_path))
+        Self::copy_dir_recursive(source_root, payload_path)?;
+        Ok(())
     }
 
     /// Remove a variant from the cache.
@@ -564,7 +617,14 @@ impl PackageCache {
                                             && let Ok(metadata) = Self::read_metadata(&meta_path)
                                         {
                                             let payload_path = meta_path.with_extension("");
-                                            let status = if payload_path.is_dir() {
+                                            let flag = Self::copying_flag(&payload_path);
+                                            let status = if flag.is_file() {
+                                                if Self::is_file_stalled(&flag) {
+                                                    CacheStatus::CopyStalled
+                                                } else {
+                                                    CacheStatus::Copying
+                                                }
+                                            } else if payload_path.is_dir() {
                                                 CacheStatus::Found
                                             } else {
                                                 CacheStatus::Pending
@@ -603,13 +663,30 @@ impl PackageCache {
                     break;
                 }
                 let path = entry.path();
+                let size = Self::directory_size(&path).unwrap_or(0);
                 if path.is_dir() && fs::remove_dir_all(&path).is_ok() {
-                    stats.deleted_bytes += Self::directory_size(&path).unwrap_or(0);
+                    stats.deleted_bytes += size;
                     stats.entries_deleted += 1;
                 }
             }
         }
 
+        // Clean stalled copies
+        for (_, path, status) in self.list_cached() {
+            if Self::check_time_limit(start, time_limit_secs) {
+                break;
+            }
+            if status == CacheStatus::CopyStalled {
+                let size = Self::directory_size(&path).unwrap_or(0);
+                let _ = fs::remove_dir_all(&path);
+                let _ = fs::remove_file(path.with_extension("json"));
+                let _ = fs::remove_file(Self::copying_flag(&path));
+                Self::cleanup_empty_dirs(&path);
+                stats.deleted_bytes += size;
+                stats.entries_deleted += 1;
+            }
+        }
+
         // Clean old entries
         if let Some(max_age) = self.config.max_age_secs {
             let now = SystemTime::now()
@@ -630,7 +707,7 @@ impl PackageCache {
                 let json_path = path.with_extension("json");
                 if let Ok(metadata) = Self::read_metadata(&json_path)
                     && let Some(accessed) = metadata.last_accessed
-                    && now - accessed > max_age
+                    && now.saturating_sub(accessed) > max_age
                 {
                     let _ = self.remove_variant(&handle);
                     stats.entries_deleted += 1;
@@ -661,9 +738,21 @@ impl PackageCache {
                 .unwrap()
                 .as_secs(),
         );
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        let mut file = File::create(json_path)?;
-        file.write_all(json_str.as_bytes())?;
+        Self::write_metadata(json_path, &metadata)
+    }
+
+    /// Write metadata to a JSON file; a reader sees the old or the new text, never a part.
+    fn write_metadata(
+        json_path: &Path,
+        metadata: &CachedVariantInfo,
+    ) -> Result<(), PackageCacheError> {
+        let json_str = serde_json::to_string_pretty(metadata)?;
+        let tmp_path = json_path.with_extension(format!("tmp-{}", uuid::Uuid::new_v4()));
+        File::create(&tmp_path)?.write_all(json_str.as_bytes())?;
+        if let Err(e) = fs::rename(&tmp_path, json_path) {
+            let _ = fs::remove_file(&tmp_path);
+            return Err(e.into());
+        }
         Ok(())
     }
 
@@ -680,21 +769,23 @@ impl PackageCache {
 
     /// Get the next increment name for a hash path.
     fn next_increment(hash_path: &Path) -> Result<String, PackageCacheError> {
-        let mut max_inc = None;
+        let mut max_inc: Option<String> = None;
 
         if let Ok(entries) = fs::read_dir(hash_path) {
             for entry in entries.flatten() {
+                // Metadata, payload and copying flag all occupy their increment
                 let name = entry.file_name().to_string_lossy().to_string();
-                if name.ends_with(".json") {
-                    let inc = name.trim_end_matches(".json");
-                    match &max_inc {
-                        None => max_inc = Some(inc.to_string()),
-                        Some(current) => {
-                            if inc > current.as_str() {
-                                max_inc = Some(inc.to_string());
-                            }
-                        }
-                    }
+                let name = name.strip_prefix(".copying-").unwrap_or(&name);
+                let inc = name.split('.').next().unwrap_or_default();
+                if inc.is_empty() || !inc.bytes().all(|b| b.is_ascii_lowercase()) {
+                    continue;
+                }
+                // Base26: a longer name is always later
+                if max_inc
+                    .as_ref()
+                    .is_none_or(|max| (inc.len(), inc) > (max.len(), max.as_str()))
+                {
+                    max_inc = Some(inc.to_string());
                 }
             }
         }
@@ -778,7 +869,20 @@ impl PackageCache {
     /// Check if there's enough disk space.
     fn check_disk_space(&self, needed: u64) -> Result<bool, PackageCacheError> {
         let available = fs2::available_space(&self.root)?;
-        Ok(available - needed > self.config.min_free_space_bytes)
+        Ok(available.saturating_sub(needed) > self.config.min_free_space_bytes)
+    }
+
+    /// Check if the payload fits within the configured maximum cache size.
+    fn check_cache_size(&self, needed: u64) -> bool {
+        let Some(max_size) = self.config.max_size_bytes else {
+            return true;
+        };
+        let cached: u64 = self
+            .list_cached()
+            .iter()
+            .map(|(_, path, _)| Self::directory_size(path).unwrap_or(0))
+            .sum();
+        cached.saturating_add(needed) <= max_size
     }
 
     /// Check if the cache disk is near full.
@@ -811,7 +915,7 @@ impl PackageCache {
         let variant_size = Self::directory_size(variant_root).unwrap_or(0);
 
         // Check: available - variant_size > min_free_space
-        available > variant_size + self.config.min_free_space_bytes
+        available > variant_size.saturating_add(self.config.min_free_space_bytes)
     }
 
     /// Remove empty parent directories.
-- 
2.43.0


From 8008233ace0cc40acc29b3d9dfa803052840129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:45 +0000
Subject: [PATCH 20/48] fix: let Rex string literals hold quotes, backslashes
 and newlines

---
 crates/rez-next-rex/src/parser.rs | 119 ++++++++++++++++--------------
 1 file changed, 62 insertions(+), 57 deletions(-)

diff --git a/crates/rez-next-rex/src/parser.rs b/crates/rez-next-rex/src/parser.rs
index 8144bdb..9c734f8 100644
--- a/crates/rez-next-rex/src/parser.rs
+++ b/crates/rez-next-rex/src/parser.rs
@@ -39,33 +39,52 @@ pub struct RexParser {
     comment_fn_re: Regex,
 }
 
+/// Compile a call pattern in which `TEXT` stands for a captured string literal and `NAME`
+/// for a non-empty one. A literal keeps its content as written unless it is a `u'...'`
+/// literal, which understands backslash escapes and so can hold any text.
+fn call_regex(pattern: &str) -> Regex {
+    let pattern = pattern
+        .replace("NAME", r#"(u'(?:[^'\\]|\\.)+'|'[^']+'|"[^"]+")"#)
+        .replace("TEXT", r#"(u'(?:[^'\\]|\\.)*'|'[^']*'|"[^"]*")"#);
+    Regex::new(&pattern).unwrap()
+}
+
+/// The text a captured string literal stands for.
+fn literal_text(literal: &str) -> String {
+    let Some(escaped) = literal.strip_prefix('u') else {
+        return literal[1..literal.len() - 1].to_string();
+    };
+    let mut text = String::new();
+    let mut chars = escaped[1..escaped.len() - 1].chars();
+    while let Some(c) = chars.next() {
+        text.push(match c {
+            '\\' => match chars.next() {
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some(escaped) => escaped,
+                None => '\\',
+            },
+            c => c,
+        });
+    }
+    text
+}
+
 impl RexParser {
     pub fn new() -> Self {
         Self {
             // env.setenv('VAR', 'value') or env.setenv("VAR", "value")
-            setenv_re: Regex::new(
-                r#"^(?:env\.)?setenv\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            setenv_re: call_regex(r#"^(?:env\.)?setenv\s*\(\s*NAME\s*,\s*TEXT\s*\)$"#),
             // env.unsetenv('VAR') or unsetenv('VAR')
-            unsetenv_re: Regex::new(
-                r#"^(?:env\.)?unsetenv\s*\(\s*['"]([^'"]+)['"]\s*\)$"#
-            ).unwrap(),
+            unsetenv_re: call_regex(r#"^(?:env\.)?unsetenv\s*\(\s*NAME\s*\)$"#),
             // env.prepend_path('VAR', 'value') or prependenv('VAR', 'value')
-            prepend_re: Regex::new(
-                r#"^(?:env\.prepend_path|prependenv)\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            prepend_re: call_regex(r#"^(?:env\.prepend_path|prependenv)\s*\(\s*NAME\s*,\s*TEXT\s*\)$"#),
             // env.append_path('VAR', 'value') or appendenv('VAR', 'value')
-            append_re: Regex::new(
-                r#"^(?:env\.append_path|appendenv)\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            append_re: call_regex(r#"^(?:env\.append_path|appendenv)\s*\(\s*NAME\s*,\s*TEXT\s*\)$"#),
             // env.setenv_if_empty('VAR', 'value')
-            setenv_if_empty_re: Regex::new(
-                r#"^env\.setenv_if_empty\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            setenv_if_empty_re: call_regex(r#"^env\.setenv_if_empty\s*\(\s*NAME\s*,\s*TEXT\s*\)$"#),
             // alias('name', 'cmd')
-            alias_re: Regex::new(
-                r#"^(?:env\.)?alias\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            alias_re: call_regex(r#"^(?:env\.)?alias\s*\(\s*NAME\s*,\s*TEXT\s*\)$"#),
             // export VAR="value" or export VAR=value
             export_re: Regex::new(
                 r#"^export\s+([A-Za-z_][A-Za-z0-9_]*)\s*=\s*"?([^"\n]*)"?$"#
@@ -75,33 +94,19 @@ impl RexParser {
                 r#"^setenv\s+([A-Za-z_][A-Za-z0-9_]*)\s+(.+)$"#
             ).unwrap(),
             // command('cmd arg1 arg2') or command("cmd")
-            command_re: Regex::new(
-                r#"^command\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            command_re: call_regex(r#"^command\s*\(\s*TEXT\s*\)$"#),
             // source('path') or source("path")
-            source_re: Regex::new(
-                r#"^source\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            source_re: call_regex(r#"^source\s*\(\s*TEXT\s*\)$"#),
             // resetenv('VAR') or env.resetenv('VAR')
-            resetenv_re: Regex::new(
-                r#"^(?:env\.)?resetenv\s*\(\s*['"]([^'"]+)['"]\s*\)$"#
-            ).unwrap(),
+            resetenv_re: call_regex(r#"^(?:env\.)?resetenv\s*\(\s*NAME\s*\)$"#),
             // info('message') or info("message")
-            info_re: Regex::new(
-                r#"^info\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            info_re: call_regex(r#"^info\s*\(\s*TEXT\s*\)$"#),
             // error('message') or error("message")
-            error_re: Regex::new(
-                r#"^error\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            error_re: call_regex(r#"^error\s*\(\s*TEXT\s*\)$"#),
             // stop() or stop('message') or stop("message")
-            stop_re: Regex::new(
-                r#"^stop\s*\(\s*(?:['"]([^'"]*)['"]\s*)?\)$"#
-            ).unwrap(),
+            stop_re: call_regex(r#"^stop\s*\(\s*(?:TEXT\s*)?\)$"#),
             // comment('text') or comment("text")
-            comment_fn_re: Regex::new(
-                r#"^comment\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
-            ).unwrap(),
+            comment_fn_re: call_regex(r#"^comment\s*\(\s*TEXT\s*\)$"#),
         }
     }
 
@@ -129,23 +134,23 @@ impl RexParser {
             if let Some(caps) = self.setenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Setenv {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: literal_text(&caps[1]),
+                        value: literal_text(&caps[2]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.unsetenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Unsetenv {
-                        name: caps[1].to_string(),
+                        name: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.prepend_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::PrependPath {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: literal_text(&caps[1]),
+                        value: literal_text(&caps[2]),
                         separator: None,
                     },
                     source_package: None,
@@ -153,8 +158,8 @@ impl RexParser {
             } else if let Some(caps) = self.append_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::AppendPath {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: literal_text(&caps[1]),
+                        value: literal_text(&caps[2]),
                         separator: None,
                     },
                     source_package: None,
@@ -162,65 +167,65 @@ impl RexParser {
             } else if let Some(caps) = self.setenv_if_empty_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::SetenvIfEmpty {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: literal_text(&caps[1]),
+                        value: literal_text(&caps[2]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.alias_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Alias {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: literal_text(&caps[1]),
+                        value: literal_text(&caps[2]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.command_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Command {
-                        cmd: caps[1].to_string(),
+                        cmd: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.source_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Source {
-                        path: caps[1].to_string(),
+                        path: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.resetenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Resetenv {
-                        name: caps[1].to_string(),
+                        name: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.info_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Info {
-                        message: caps[1].to_string(),
+                        message: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.error_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Error {
-                        message: caps[1].to_string(),
+                        message: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.stop_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Stop {
-                        message: caps.get(1).map(|m| m.as_str().to_string()),
+                        message: caps.get(1).map(|m| literal_text(m.as_str())),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.comment_fn_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Comment {
-                        text: caps[1].to_string(),
+                        text: literal_text(&caps[1]),
                     },
                     source_package: None,
                 });
-- 
2.43.0


From fdec88e6a71737906a0528299094c2e017e20709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:45 +0000
Subject: [PATCH 21/48] fix: evaluate package.py expressions and commands as
 Python does, refuse the rest

---
 .../src/python_ast_parser/commands.rs         | 289 ++++++------------
 .../src/python_ast_parser/eval.rs             | 155 ++++++----
 .../src/python_ast_parser/extract.rs          |  45 ++-
 .../src/python_ast_parser/mod.rs              |  32 +-
 .../src/python_ast_parser/types.rs            |  42 +++
 5 files changed, 281 insertions(+), 282 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 70dbe3e..f6bdd44 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -101,214 +101,37 @@ impl PythonAstParser {
 
             // Handle `env.VAR = "value"` (attribute assignment shorthand)
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name)) = assign.targets.first() {
+                if let [Expr::Name(name)] = assign.targets.as_slice() {
                     let value = self.evaluate_expression(&assign.value)?;
                     self.context.variables.insert(name.id.to_string(), value);
                     return Ok(None);
                 }
-                if let Some(Expr::Attribute(attr)) = assign.targets.first()
+                if let [Expr::Attribute(attr)] = assign.targets.as_slice()
                     && let Expr::Name(name_expr) = &*attr.value
                     && name_expr.id.as_str() == "env"
                 {
-                    let var_name = attr.attr.as_str();
-                    if let Ok(value) = self.extract_string_value(&assign.value) {
-                        return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
-                    }
+                    let value = self.extract_string_value(&assign.value)?;
+                    return Ok(Some(rex_call("env.setenv", &[attr.attr.as_str(), &value])));
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command statement: {stmt:?}"
+                )));
             }
 
+            // Docstrings have no effect
+            Stmt::Expr(expr_stmt) if matches!(&*expr_stmt.value, Expr::Constant(_)) => {}
+
             // Handle function calls: env.method(...) and top-level Rex calls
             Stmt::Expr(expr_stmt) => {
-                if let Expr::Call(call) = &*expr_stmt.value {
-                    if let Expr::Attribute(attr) = &*call.func {
-                        // ─── env.method('VAR', ...) ───────────────────────────
-                        if let Expr::Name(obj) = &*attr.value
-                            && obj.id.as_str() == "env"
-                        {
-                            let method = attr.attr.as_str();
-                            match method {
-                                "setenv" if call.args.len() >= 2 => {
-                                    if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
-                                    ) {
-                                        return Ok(Some(format!("env.setenv('{}', '{}')", k, v)));
-                                    }
-                                }
-                                "unsetenv" => {
-                                    if let Some(arg) = call.args.first()
-                                        && let Ok(k) = self.extract_string_value(arg)
-                                    {
-                                        return Ok(Some(format!("env.unsetenv('{}')", k)));
-                                    }
-                                }
-                                "prepend_path" if call.args.len() >= 2 => {
-                                    if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
-                                    ) {
-                                        return Ok(Some(format!(
-                                            "env.prepend_path('{}', '{}')",
-                                            k, v
-                                        )));
-                                    }
-                                }
-                                "append_path" if call.args.len() >= 2 => {
-                                    if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
-                                    ) {
-                                        return Ok(Some(format!(
-                                            "env.append_path('{}', '{}')",
-                                            k, v
-                                        )));
-                                    }
-                                }
-                                "setenv_if_empty" if call.args.len() >= 2 => {
-                                    if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
-                                    ) {
-                                        return Ok(Some(format!(
-                                            "env.setenv_if_empty('{}', '{}')",
-                                            k, v
-                                        )));
-                                    }
-                                }
-                                _ => {}
-                            }
-                        }
-
-                        // ─── env.VAR.prepend / env.VAR.append ─────────────────
-                        if let Expr::Attribute(env_attr) = &*attr.value
-                            && let Expr::Name(obj) = &*env_attr.value
-                            && obj.id.as_str() == "env"
-                        {
-                            let var_name = env_attr.attr.as_str();
-                            let method = attr.attr.as_str();
-                            if let Some(arg) = call.args.first()
-                                && let Ok(value) = self.extract_string_value(arg)
-                            {
-                                match method {
-                                    "prepend" => {
-                                        return Ok(Some(format!(
-                                            "env.prepend_path('{}', '{}')",
-                                            var_name, value
-                                        )));
-                                    }
-                                    "append" => {
-                                        return Ok(Some(format!(
-                                            "env.append_path('{}', '{}')",
-                                            var_name, value
-                                        )));
-                                    }
-                                    "set" => {
-                                        return Ok(Some(format!(
-                                            "env.setenv('{}', '{}')",
-                                            var_name, value
-                                        )));
-                                    }
-                                    "unset" => {
-                                        return Ok(Some(format!("env.unsetenv('{}')", var_name)));
-                                    }
-                                    _ => {}
-                                }
-                            }
-                        }
-                    }
-
-                    // ─── Top-level Rex calls ──────────────────────────────────
-                    if let Expr::Name(func_name) = &*call.func {
-                        match func_name.id.as_str() {
-                            "alias" if call.args.len() >= 2 => {
-                                if let (Ok(name), Ok(cmd)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
-                                ) {
-                                    return Ok(Some(format!("alias('{}', '{}')", name, cmd)));
-                                }
-                            }
-                            "command" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(cmd) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("command('{}')", cmd)));
-                                }
-                            }
-                            "source" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(path) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("source('{}')", path)));
-                                }
-                            }
-                            "info" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(msg) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("info('{}')", msg)));
-                                }
-                            }
-                            "error" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(msg) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("error('{}')", msg)));
-                                }
-                            }
-                            "stop" => {
-                                if call.args.is_empty() {
-                                    return Ok(Some("stop()".to_string()));
-                                } else if let Ok(msg) = self.extract_string_value(&call.args[0]) {
-                                    return Ok(Some(format!("stop('{}')", msg)));
-                                }
-                            }
-                            "resetenv" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(var) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("resetenv('{}')", var)));
-                                }
-                            }
-                            "setenv" if call.args.len() >= 2 => {
-                                if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
-                                ) {
-                                    return Ok(Some(format!("setenv('{}', '{}')", k, v)));
-                                }
-                            }
-                            "prependenv" if call.args.len() >= 2 => {
-                                if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
-                                ) {
-                                    return Ok(Some(format!("prependenv('{}', '{}')", k, v)));
-                                }
-                            }
-                            "appendenv" if call.args.len() >= 2 => {
-                                if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
-                                ) {
-                                    return Ok(Some(format!("appendenv('{}', '{}')", k, v)));
-                                }
-                            }
-                            "unsetenv" => {
-                                if let Some(arg) = call.args.first()
-                                    && let Ok(k) = self.extract_string_value(arg)
-                                {
-                                    return Ok(Some(format!("unsetenv('{}')", k)));
-                                }
-                            }
-                            _ => {}
-                        }
-                    }
-
-                    return Err(RezCoreError::PackageParse(format!(
-                        "Unsupported command statement: {call:?}"
-                    )));
+                if let Expr::Call(call) = &*expr_stmt.value
+                    && call.keywords.is_empty()
+                    && let Some(command) = self.extract_command_from_call(call)?
+                {
+                    return Ok(Some(command));
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command statement: {stmt:?}"
+                )));
             }
             Stmt::Import(_) | Stmt::ImportFrom(_) | Stmt::Pass(_) => {}
             _ => {
@@ -320,4 +143,80 @@ impl PythonAstParser {
 
         Ok(None)
     }
+
+    /// Extract a Rex DSL command from a call, or `None` if the call is not supported.
+    fn extract_command_from_call(
+        &self,
+        call: &rustpython_ast::ExprCall,
+    ) -> Result<Option<String>, RezCoreError> {
+        let args = call
+            .args
+            .iter()
+            .map(|arg| self.extract_string_value(arg))
+            .collect::<Result<Vec<_>, _>>()?;
+        let args: Vec<&str> = args.iter().map(String::as_str).collect();
+
+        let command = match &*call.func {
+            Expr::Attribute(attr) => match &*attr.value {
+                // ─── env.method('VAR', ...) ───────────────────────────
+                Expr::Name(obj) if obj.id.as_str() == "env" => {
+                    match (attr.attr.as_str(), args.len()) {
+                        ("setenv", 2) => rex_call("env.setenv", &args),
+                        ("unsetenv", 1) => rex_call("env.unsetenv", &args),
+                        ("prepend_path", 2) => rex_call("env.prepend_path", &args),
+                        ("append_path", 2) => rex_call("env.append_path", &args),
+                        ("setenv_if_empty", 2) => rex_call("env.setenv_if_empty", &args),
+                        _ => return Ok(None),
+                    }
+                }
+                // ─── env.VAR.prepend / env.VAR.append ─────────────────
+                Expr::Attribute(env_attr)
+                    if matches!(&*env_attr.value, Expr::Name(obj) if obj.id.as_str() == "env") =>
+                {
+                    let var_name = env_attr.attr.as_str();
+                    match (attr.attr.as_str(), args.as_slice()) {
+                        ("prepend", [value]) => rex_call("env.prepend_path", &[var_name, value]),
+                        ("append", [value]) => rex_call("env.append_path", &[var_name, value]),
+                        ("set", [value]) => rex_call("env.setenv", &[var_name, value]),
+                        ("unset", []) => rex_call("env.unsetenv", &[var_name]),
+                        _ => return Ok(None),
+                    }
+                }
+                _ => return Ok(None),
+            },
+            // ─── Top-level Rex calls ──────────────────────────────────
+            Expr::Name(func_name) => match (func_name.id.as_str(), args.len()) {
+                (name @ ("alias" | "setenv" | "prependenv" | "appendenv"), 2)
+                | (
+                    name @ ("command" | "source" | "info" | "error" | "stop" | "resetenv"
+                    | "unsetenv"),
+                    1,
+                )
+                | (name @ "stop", 0) => rex_call(name, &args),
+                _ => return Ok(None),
+            },
+            _ => return Ok(None),
+        };
+        Ok(Some(command))
+    }
+}
+
+/// Render a Rex call, one line whatever the argument texts are.
+fn rex_call(function: &str, args: &[&str]) -> String {
+    let literals: Vec<String> = args
+        .iter()
+        .map(|text| {
+            if text.contains(['\'', '"', '\n', '\r']) {
+                let escaped = text
+                    .replace('\\', "\\\\")
+                    .replace('\'', "\\'")
+                    .replace('\n', "\\n")
+                    .replace('\r', "\\r");
+                format!("u'{escaped}'")
+            } else {
+                format!("'{text}'")
+            }
+        })
+        .collect();
+    format!("{function}({})", literals.join(", "))
 }
diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 297fe1e..8919cc0 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -6,6 +6,16 @@ use rez_next_common::RezCoreError;
 use rustpython_ast::{BoolOp, CmpOp, Constant, Expr, Operator, UnaryOp};
 use std::collections::HashMap;
 
+/// Upper bound for the result of a string repetition in a package.py.
+const MAX_REPEATED_LEN: usize = 1 << 20;
+
+/// The result of integer arithmetic, refused when it leaves the supported range.
+fn checked(result: Option<i64>) -> Result<PythonValue, RezCoreError> {
+    result
+        .map(PythonValue::Integer)
+        .ok_or_else(|| RezCoreError::PackageParse("Integer too large".to_string()))
+}
+
 impl PythonAstParser {
     /// Evaluate a Python expression to a value
     pub(super) fn evaluate_expression(&self, expr: &Expr) -> Result<PythonValue, RezCoreError> {
@@ -81,7 +91,7 @@ impl PythonAstParser {
                 Ok(PythonValue::String(format!("{}{}", l, r)))
             }
             (PythonValue::Integer(l), Operator::Add, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l + r))
+                checked(l.checked_add(*r))
             }
             (PythonValue::Float(l), Operator::Add, PythonValue::Float(r)) => {
                 Ok(PythonValue::Float(l + r))
@@ -92,13 +102,19 @@ impl PythonAstParser {
                 Ok(PythonValue::List(result))
             }
             (PythonValue::Integer(l), Operator::Sub, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l - r))
+                checked(l.checked_sub(*r))
             }
             (PythonValue::Integer(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l * r))
+                checked(l.checked_mul(*r))
             }
             (PythonValue::String(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::String(l.repeat(*r as usize)))
+                let count = usize::try_from(*r).unwrap_or(0);
+                if l.len().saturating_mul(count) > MAX_REPEATED_LEN {
+                    return Err(RezCoreError::PackageParse(
+                        "Repeated string is too long".to_string(),
+                    ));
+                }
+                Ok(PythonValue::String(l.repeat(count)))
             }
             _ => Err(RezCoreError::PackageParse(format!(
                 "Unsupported binary operation: {left:?} {:?} {right:?}",
@@ -117,7 +133,7 @@ impl PythonAstParser {
         match (&unaryop.op, &operand) {
             (UnaryOp::Not, PythonValue::Boolean(b)) => Ok(PythonValue::Boolean(!b)),
             (UnaryOp::UAdd, PythonValue::Integer(i)) => Ok(PythonValue::Integer(*i)),
-            (UnaryOp::USub, PythonValue::Integer(i)) => Ok(PythonValue::Integer(-i)),
+            (UnaryOp::USub, PythonValue::Integer(i)) => checked(i.checked_neg()),
             (UnaryOp::UAdd, PythonValue::Float(f)) => Ok(PythonValue::Float(*f)),
             (UnaryOp::USub, PythonValue::Float(f)) => Ok(PythonValue::Float(-f)),
             _ => Err(RezCoreError::PackageParse(format!(
@@ -132,7 +148,7 @@ impl PythonAstParser {
         &self,
         compare: &rustpython_ast::ExprCompare,
     ) -> Result<PythonValue, RezCoreError> {
-        let left = self.evaluate_expression(&compare.left)?;
+        let mut left = self.evaluate_expression(&compare.left)?;
 
         if compare.ops.len() != compare.comparators.len() {
             return Err(RezCoreError::PackageParse(
@@ -160,6 +176,7 @@ impl PythonAstParser {
             if !result {
                 return Ok(PythonValue::Boolean(false));
             }
+            left = right;
         }
 
         Ok(PythonValue::Boolean(true))
@@ -170,26 +187,16 @@ impl PythonAstParser {
         &self,
         boolop: &rustpython_ast::ExprBoolOp,
     ) -> Result<PythonValue, RezCoreError> {
-        match &boolop.op {
-            BoolOp::And => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(false) = result {
-                        return Ok(PythonValue::Boolean(false));
-                    }
-                }
-                Ok(PythonValue::Boolean(true))
-            }
-            BoolOp::Or => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(true) = result {
-                        return Ok(PythonValue::Boolean(true));
-                    }
-                }
-                Ok(PythonValue::Boolean(false))
+        // Python yields the operand that decides the outcome, not its truth value.
+        let stop_at = matches!(boolop.op, BoolOp::Or);
+        let mut result = PythonValue::None;
+        for value in &boolop.values {
+            result = self.evaluate_expression(value)?;
+            if result.is_truthy() == stop_at {
+                break;
             }
         }
+        Ok(result)
     }
 
     /// Evaluate list expressions
@@ -228,6 +235,10 @@ impl PythonAstParser {
                         "Dictionary keys must be strings".to_string(),
                     ));
                 }
+            } else {
+                return Err(RezCoreError::PackageParse(
+                    "Unsupported dictionary unpacking".to_string(),
+                ));
             }
         }
         Ok(PythonValue::Dict(result))
@@ -243,29 +254,32 @@ impl PythonAstParser {
                 && owner.id.as_str() == "os"
                 && attribute.attr.as_str() == "getenv"
                 && let Some(name) = call.args.first()
+                && call.args.len() <= 2
+                && call.keywords.is_empty()
                 && let PythonValue::String(name) = self.evaluate_expression(name)?
             {
-                return Ok(match std::env::var(name) {
-                    Ok(value) => PythonValue::String(value),
-                    Err(_) => call
-                        .args
-                        .get(1)
-                        .map(|default| self.evaluate_expression(default))
-                        .transpose()?
-                        .unwrap_or(PythonValue::None),
-                });
+                let default = call
+                    .args
+                    .get(1)
+                    .map(|default| self.evaluate_expression(default))
+                    .transpose()?
+                    .unwrap_or(PythonValue::None);
+                return Ok(std::env::var(name).map_or(default, PythonValue::String));
             }
 
             if attribute.attr.as_str() == "lower"
+                && call.args.is_empty()
+                && call.keywords.is_empty()
                 && let PythonValue::String(value) = self.evaluate_expression(&attribute.value)?
             {
                 return Ok(PythonValue::String(value.to_lowercase()));
             }
 
             if attribute.attr.as_str() == "format"
+                && call.keywords.is_empty()
                 && let PythonValue::String(value) = self.evaluate_expression(&attribute.value)?
             {
-                return self.format_string(value, &call.args);
+                return self.format_string(&value, &call.args);
             }
         }
         Err(RezCoreError::PackageParse(format!(
@@ -273,31 +287,58 @@ impl PythonAstParser {
         )))
     }
 
+    /// Apply `str.format` with positional arguments: `{}` and `{N}` fields only.
     fn format_string(
         &self,
-        value: String,
+        template: &str,
         arguments: &[Expr],
     ) -> Result<PythonValue, RezCoreError> {
-        const OPEN_BRACE: &str = "\u{e000}";
-        const CLOSE_BRACE: &str = "\u{e001}";
-        let mut formatted = value.replace("{{", OPEN_BRACE).replace("}}", CLOSE_BRACE);
-        for (index, argument) in arguments.iter().enumerate() {
-            let value = match self.evaluate_expression(argument)? {
-                PythonValue::String(value) => value,
-                PythonValue::Integer(value) => value.to_string(),
-                PythonValue::Float(value) => value.to_string(),
-                PythonValue::Boolean(value) => value.to_string(),
-                value => {
-                    return Err(RezCoreError::PackageParse(format!(
-                        "Unsupported format argument: {value:?}"
-                    )));
-                }
+        let unsupported =
+            || RezCoreError::PackageParse(format!("Unsupported format string: {template:?}"));
+        let mut values = Vec::with_capacity(arguments.len());
+        for argument in arguments {
+            let value = self.evaluate_expression(argument)?;
+            values.push(value.to_text().ok_or_else(|| {
+                RezCoreError::PackageParse(format!("Unsupported format argument: {value:?}"))
+            })?);
+        }
+
+        let mut formatted = String::new();
+        let mut numbered = None;
+        let mut next_index = 0;
+        let mut rest = template;
+        while let Some(position) = rest.find(['{', '}']) {
+            let (literal, tail) = rest.split_at(position);
+            formatted.push_str(literal);
+            if let Some(tail) = tail
+                .strip_prefix("{{")
+                .inspect(|_| formatted.push('{'))
+                .or_else(|| tail.strip_prefix("}}").inspect(|_| formatted.push('}')))
+            {
+                rest = tail;
+                continue;
+            }
+            let (field, tail) = tail
+                .strip_prefix('{')
+                .and_then(|tail| tail.split_once('}'))
+                .ok_or_else(unsupported)?;
+            let index = if field.is_empty() {
+                next_index += 1;
+                next_index - 1
+            } else if field.bytes().all(|byte| byte.is_ascii_digit()) {
+                field.parse::<usize>().map_err(|_| unsupported())?
+            } else {
+                return Err(unsupported());
             };
-            formatted = formatted.replace(&format!("{{{index}}}"), &value);
+            // Python rejects templates mixing automatic and explicit numbering.
+            if *numbered.get_or_insert(!field.is_empty()) == field.is_empty() {
+                return Err(unsupported());
+            }
+            formatted.push_str(values.get(index).ok_or_else(unsupported)?);
+            rest = tail;
         }
-        Ok(PythonValue::String(
-            formatted.replace(OPEN_BRACE, "{").replace(CLOSE_BRACE, "}"),
-        ))
+        formatted.push_str(rest);
+        Ok(PythonValue::String(formatted))
     }
 
     /// Evaluate package command context attributes used by Rez package.py files.
@@ -342,10 +383,12 @@ impl PythonAstParser {
             && version.attr.as_str() == "version"
             && let Some(PythonValue::String(value)) = self.context.variables.get("version")
         {
+            let mut tokens =
+                value.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_'));
             let component = match attr.attr.as_str() {
-                "major" => value.split('.').next(),
-                "minor" => value.split('.').nth(1),
-                "patch" => value.split('.').nth(2),
+                "major" => tokens.next(),
+                "minor" => tokens.nth(1),
+                "patch" => tokens.nth(2),
                 _ => None,
             };
             if let Some(component) = component {
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index f46a868..04a3884 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -9,26 +9,24 @@ use std::collections::HashMap;
 impl PythonAstParser {
     /// Extract a string value from an expression
     pub(super) fn extract_string_value(&self, expr: &Expr) -> Result<String, RezCoreError> {
-        match self.evaluate_expression(expr) {
-            Ok(PythonValue::String(s)) => Ok(s),
-            Ok(PythonValue::Integer(i)) => Ok(i.to_string()),
-            Ok(PythonValue::Float(f)) => Ok(f.to_string()),
-            Ok(PythonValue::Boolean(b)) => Ok(b.to_string()),
-            _ => match expr {
-                Expr::Constant(constant) => match &constant.value {
-                    Constant::Str(s) => Ok(s.clone()),
-                    Constant::Int(i) => Ok(i.to_string()),
-                    Constant::Float(f) => Ok(f.to_string()),
-                    _ => Err(RezCoreError::PackageParse(format!(
-                        "Expected string/number value, got: {:?}",
-                        constant.value
-                    ))),
-                },
+        if let Ok(Some(text)) = self
+            .evaluate_expression(expr)
+            .map(|value| value.to_text())
+        {
+            return Ok(text);
+        }
+        match expr {
+            Expr::Constant(constant) => match &constant.value {
+                Constant::Int(i) => Ok(i.to_string()),
                 _ => Err(RezCoreError::PackageParse(format!(
-                    "Expected constant value, got: {:?}",
-                    expr
+                    "Expected string/number value, got: {:?}",
+                    constant.value
                 ))),
             },
+            _ => Err(RezCoreError::PackageParse(format!(
+                "Expected constant value, got: {:?}",
+                expr
+            ))),
         }
     }
 
@@ -57,7 +55,9 @@ impl PythonAstParser {
     /// Extract an integer value from an expression
     pub(super) fn extract_int_value(&self, expr: &Expr) -> Result<i32, RezCoreError> {
         match self.evaluate_expression(expr) {
-            Ok(PythonValue::Integer(i)) => Ok(i as i32),
+            Ok(PythonValue::Integer(i)) => i32::try_from(i).map_err(|e| {
+                RezCoreError::PackageParse(format!("Integer too large for i32: {}", e))
+            }),
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Int(i) => i.to_string().parse::<i32>().map_err(|e| {
@@ -82,12 +82,9 @@ impl PythonAstParser {
             Ok(PythonValue::List(list)) => {
                 let mut result = Vec::new();
                 for item in list {
-                    match item {
-                        PythonValue::String(s) => result.push(s),
-                        PythonValue::Integer(i) => result.push(i.to_string()),
-                        PythonValue::Float(f) => result.push(f.to_string()),
-                        PythonValue::Boolean(b) => result.push(b.to_string()),
-                        _ => {
+                    match item.to_text() {
+                        Some(text) => result.push(text),
+                        None => {
                             return Err(RezCoreError::PackageParse(
                                 "List contains non-string values".to_string(),
                             ));
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..4971b75 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -23,6 +23,8 @@ use types::{PackageData, ParsingContext};
 pub struct PythonAstParser {
     /// Context for tracking variables and imports during parsing
     pub(crate) context: ParsingContext,
+    /// Command functions, which run only after the whole file was read
+    command_functions: Vec<rustpython_ast::StmtFunctionDef>,
 }
 
 impl PythonAstParser {
@@ -30,6 +32,7 @@ impl PythonAstParser {
     pub fn new() -> Self {
         Self {
             context: ParsingContext::default(),
+            command_functions: Vec::new(),
         }
     }
 
@@ -49,6 +52,9 @@ impl PythonAstParser {
         for stmt in &ast {
             self.process_statement(stmt, &mut package_data)?;
         }
+        for func_def in std::mem::take(&mut self.command_functions) {
+            self.process_function_definition(&func_def, &mut package_data)?;
+        }
 
         Self::build_package(package_data)
     }
@@ -61,12 +67,16 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name_expr)) = assign.targets.first() {
-                    self.process_assignment(&name_expr.id, &assign.value, package_data)?;
-                }
+                let [Expr::Name(name_expr)] = assign.targets.as_slice() else {
+                    return Err(RezCoreError::PackageParse(format!(
+                        "Unsupported package.py assignment: {assign:?}"
+                    )));
+                };
+                self.process_assignment(&name_expr.id, &assign.value, package_data)?;
             }
             Stmt::FunctionDef(func_def) => {
-                self.process_function_definition(func_def, package_data)?;
+                self.forget_command_function(&func_def.name);
+                self.command_functions.push(func_def.clone());
             }
             Stmt::Import(import) => {
                 self.process_import_statement(import)?;
@@ -102,6 +112,12 @@ impl PythonAstParser {
         Ok(())
     }
 
+    /// Drop a command function whose name is bound anew.
+    fn forget_command_function(&mut self, name: &str) {
+        self.command_functions
+            .retain(|func_def| func_def.name.as_str() != name);
+    }
+
     /// Process import statements (`import os`)
     fn process_import_statement(
         &mut self,
@@ -202,6 +218,7 @@ impl PythonAstParser {
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
         let python_value = self.evaluate_expression(value)?;
+        self.forget_command_function(var_name);
         self.context
             .variables
             .insert(var_name.to_string(), python_value);
@@ -247,9 +264,10 @@ impl PythonAstParser {
                 package_data.tests = self.extract_tests(value)?;
             }
             "commands" => {
-                if let Ok(s) = self.extract_string_value(value) {
-                    package_data.commands_function = Some(s);
-                }
+                package_data.commands_function = match self.evaluate_expression(value)? {
+                    types::PythonValue::None => None,
+                    _ => Some(self.extract_string_value(value)?),
+                };
             }
             "pre_commands" => {
                 package_data.pre_commands = Some(self.extract_string_value(value)?);
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index f1a6025..6597a6d 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -23,6 +23,48 @@ pub(crate) enum PythonValue {
     None,
 }
 
+impl PythonValue {
+    /// Truth value as defined by Python.
+    pub fn is_truthy(&self) -> bool {
+        match self {
+            Self::String(value) => !value.is_empty(),
+            Self::Integer(value) => *value != 0,
+            Self::Float(value) => *value != 0.0,
+            Self::Boolean(value) => *value,
+            Self::List(value) => !value.is_empty(),
+            Self::Dict(value) => !value.is_empty(),
+            Self::None => false,
+        }
+    }
+
+    /// Text of a scalar as given by Python's `str()`.
+    pub fn to_text(&self) -> Option<String> {
+        match self {
+            Self::String(value) => Some(value.clone()),
+            Self::Integer(value) => Some(value.to_string()),
+            Self::Float(value) if value.is_nan() => Some("nan".to_string()),
+            Self::Float(value) => {
+                // Same shortest digits as Python; only the exponent is spelt differently.
+                let text = format!("{value:?}");
+                Some(match text.split_once('e') {
+                    Some((digits, exponent)) => {
+                        let (sign, exponent) = match exponent.strip_prefix('-') {
+                            Some(exponent) => ('-', exponent),
+                            None => ('+', exponent),
+                        };
+                        let digits = digits.strip_suffix(".0").unwrap_or(digits);
+                        format!("{digits}e{sign}{exponent:0>2}")
+                    }
+                    None => text,
+                })
+            }
+            Self::Boolean(true) => Some("True".to_string()),
+            Self::Boolean(false) => Some("False".to_string()),
+            Self::List(_) | Self::Dict(_) | Self::None => None,
+        }
+    }
+}
+
 /// Intermediate data structure for collecting package information during parsing
 #[derive(Debug, Default)]
 pub(crate) struct PackageData {
-- 
2.43.0


From 743c44fb314657906880435ad899467376d9911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 22/48] fix: evaluate Rex commands and build context
 environments without cross-talk

Expand each {token} once and per package, let stop() end the activation,
restore inherited values on resetenv, accept non-Unicode inherited variables,
and quote values in generated scripts.
---
 crates/rez-next-context/src/environment.rs | 53 +++++++++++++--
 crates/rez-next-rex/src/executor.rs        | 79 ++++++++++++++--------
 2 files changed, 98 insertions(+), 34 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..4407538 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -54,8 +54,14 @@ impl EnvironmentManager {
     /// Create a new environment manager
     pub fn new(config: ContextConfig) -> Self {
         let base_env = if config.inherit_parent_env {
-            env::vars()
-                .map(|(name, value)| (environment_key(&name), value))
+            // Variables that are not valid text cannot be represented here.
+            env::vars_os()
+                .filter_map(|(name, value)| {
+                    Some((
+                        environment_key(name.to_str()?),
+                        value.into_string().ok()?,
+                    ))
+                })
                 .collect()
         } else {
             HashMap::new()
@@ -124,12 +130,21 @@ impl EnvironmentManager {
             |package| package.commands.as_deref(),
             |package| package.post_commands.as_deref(),
         ];
-        for commands_for in command_phases {
+        'phases: for commands_for in command_phases {
             for package in packages {
                 if let Some(commands) = commands_for(package) {
                     let (definitions, actions) = self.rex_effects(package, commands, priority)?;
                     env_definitions.extend(definitions);
                     shell_actions.extend(actions);
+                    if matches!(
+                        shell_actions.last(),
+                        Some(RexAction {
+                            action_type: RexActionType::Stop { .. },
+                            ..
+                        })
+                    ) {
+                        break 'phases;
+                    }
                 }
                 priority += 1;
             }
@@ -254,10 +269,20 @@ impl EnvironmentManager {
                 RexActionType::SetenvIfEmpty { name, value } => {
                     Some((name.clone(), EnvOperation::SetIfEmpty(value.clone())))
                 }
+                RexActionType::Resetenv { name } => {
+                    let operation = match self.base_env.get(&environment_key(name)) {
+                        Some(value) => EnvOperation::Set(value.clone()),
+                        None => EnvOperation::Unset,
+                    };
+                    Some((name.clone(), operation))
+                }
                 _ => None,
             };
             let Some((name, operation)) = definition else {
                 shell_actions.push(action.clone());
+                if matches!(action.action_type, RexActionType::Stop { .. }) {
+                    break;
+                }
                 continue;
             };
             definitions.push(EnvVarDefinition {
@@ -415,7 +440,11 @@ impl EnvironmentManager {
                 script.push_str("REM Generated by rez-core\n\n");
 
                 for (name, value) in env_vars {
-                    script.push_str(&format!("set {}={}\n", name, value));
+                    script.push_str(&format!(
+                        "set \"{}={}\"\n",
+                        name,
+                        value.replace('%', "%%")
+                    ));
                 }
             }
             ShellType::PowerShell => {
@@ -461,6 +490,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace("\\", "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -468,12 +498,21 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace("`", "``")
+            .replace("\"", "`\"")
+            .replace('\u{201c}', "`\u{201c}")
+            .replace('\u{201d}', "`\u{201d}")
+            .replace('\u{201e}', "`\u{201e}")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace("\\", "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
@@ -558,7 +597,7 @@ fn environment_key(name: &str) -> String {
 pub fn normalize_environment_paths(env_vars: &mut HashMap<String, String>) {
     let path_key = env_vars
         .keys()
-        .find(|name| name.eq_ignore_ascii_case("PATH"))
+        .find(|name| cfg!(windows) && name.eq_ignore_ascii_case("PATH"))
         .cloned()
         .unwrap_or_else(|| environment_key("PATH"));
     let Some(path) = env_vars.get_mut(&path_key) else {
diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..498dddd 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -35,30 +35,25 @@ impl RexExecutor {
         root: Option<&str>,
         version: Option<&str>,
     ) -> Result<RexEnvironment, RezCoreError> {
-        // Set default context vars
+        // Set default context vars, which hold for this package only
+        let mut context_vars = self.context_vars.clone();
         if let Some(root) = root {
-            self.context_vars
-                .insert("root".to_string(), root.to_string());
-            self.context_vars
-                .insert("this.root".to_string(), root.to_string());
+            context_vars.insert("root".to_string(), root.to_string());
+            context_vars.insert("this.root".to_string(), root.to_string());
         }
         if let Some(version) = version {
-            self.context_vars
-                .insert("version".to_string(), version.to_string());
-            self.context_vars
-                .insert("this.version".to_string(), version.to_string());
-            let mut components = version.split('.');
+            context_vars.insert("version".to_string(), version.to_string());
+            context_vars.insert("this.version".to_string(), version.to_string());
+            let mut components =
+                version.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_'));
             for component in ["major", "minor", "patch"] {
                 if let Some(value) = components.next() {
-                    self.context_vars
-                        .insert(format!("this.version.{component}"), value.to_string());
+                    context_vars.insert(format!("this.version.{component}"), value.to_string());
                 }
             }
         }
-        self.context_vars
-            .insert("name".to_string(), package_name.to_string());
-        self.context_vars
-            .insert("this.name".to_string(), package_name.to_string());
+        context_vars.insert("name".to_string(), package_name.to_string());
+        context_vars.insert("this.name".to_string(), package_name.to_string());
 
         // Parse and execute commands (using cached parser for efficiency)
         let parser = crate::parser::get_cached_parser();
@@ -66,7 +61,7 @@ impl RexExecutor {
 
         // Expand variables in actions
         for mut action in raw_actions {
-            action = self.expand_action_vars(action);
+            action = Self::expand_action_vars(&context_vars, action);
             action.source_package = Some(package_name.to_string());
             self.actions.push(action);
         }
@@ -87,16 +82,11 @@ impl RexExecutor {
     }
 
     /// Expand {variable} references in action values
-    fn expand_action_vars(&self, action: RexAction) -> RexAction {
-        let expand = |s: &str| -> String {
-            let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
-                result = result.replace(&format!("{{{}}}", key), value);
-                // Also support $NAME style
-                result = result.replace(&format!("${}", key.to_uppercase()), value);
-            }
-            result
-        };
+    fn expand_action_vars(
+        context_vars: &HashMap<String, String>,
+        action: RexAction,
+    ) -> RexAction {
+        let expand = |s: &str| expand_text(context_vars, s);
 
         let new_action_type = match action.action_type {
             RexActionType::Setenv { name, value } => RexActionType::Setenv {
@@ -152,6 +142,41 @@ impl RexExecutor {
     }
 }
 
+/// Expand `{name}` and whole-word `$NAME` references in one pass, so that expanded
+/// values are never expanded again.
+fn expand_text(context_vars: &HashMap<String, String>, text: &str) -> String {
+    let mut result = String::new();
+    let mut rest = text;
+    while let Some(position) = rest.find(['{', '$']) {
+        result.push_str(&rest[..position]);
+        rest = &rest[position..];
+        let is_word = |c: char| c.is_ascii_alphanumeric() || c == '_';
+        let reference = context_vars
+            .iter()
+            .filter_map(|(key, value)| {
+                if let Some(tail) = rest.strip_prefix('{') {
+                    let tail = tail.strip_prefix(key.as_str())?.strip_prefix('}')?;
+                    return Some((tail, value));
+                }
+                let tail = rest[1..].strip_prefix(key.to_uppercase().as_str())?;
+                (!tail.starts_with(is_word)).then_some((tail, value))
+            })
+            .min_by_key(|(tail, _)| tail.len());
+        match reference {
+            Some((tail, value)) => {
+                result.push_str(value);
+                rest = tail;
+            }
+            None => {
+                result.push_str(&rest[..1]);
+                rest = &rest[1..];
+            }
+        }
+    }
+    result.push_str(rest);
+    result
+}
+
 impl Default for RexExecutor {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From f42b243c8df67f0bd877b9ee133b234d5d2a0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 23/48] fix: quote shell scripts and run commands in exactly
 the resolved environment

---
 crates/rez-next-context/src/shell.rs | 14 +++++-
 crates/rez-next-rex/src/shell.rs     | 74 +++++++++++++++++++++-------
 src/cli/commands/env.rs              | 40 +++++++++++++--
 3 files changed, 103 insertions(+), 25 deletions(-)

diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index 79366ed..52bc7d0 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -225,7 +225,9 @@ impl ShellExecutor {
             cmd.arg(self.shell_type.command_flag()).arg(command);
             None
         };
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
+        cmd.stdout(Stdio::piped())
+            .stderr(Stdio::piped())
+            .kill_on_drop(true);
 
         // Set working directory
         if let Some(ref wd) = self.working_directory {
@@ -339,7 +341,9 @@ impl ShellExecutor {
             }
         }
 
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
+        cmd.stdout(Stdio::piped())
+            .stderr(Stdio::piped())
+            .kill_on_drop(true);
 
         // Set working directory
         if let Some(ref wd) = self.working_directory {
@@ -347,6 +351,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
@@ -388,6 +395,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..7ce111d 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -46,6 +46,41 @@ pub fn generate_shell_script(env: &RexEnvironment, shell: &ShellType) -> String
     }
 }
 
+/// Whether a name can be assigned in a POSIX shell.
+fn is_identifier(name: &str) -> bool {
+    !name.starts_with(|c: char| c.is_ascii_digit())
+        && !name.is_empty()
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+}
+
+/// Escape text for a double-quoted bash/zsh string.
+fn escape_bash(text: &str) -> String {
+    escape(text, &['\\', '"', '$', '`'], |_| '\\')
+}
+
+/// Escape text for a double-quoted fish string.
+fn escape_fish(text: &str) -> String {
+    escape(text, &['\\', '"', '$'], |_| '\\')
+}
+
+/// Escape text for a single-quoted PowerShell string, where typographic quotes count too.
+fn escape_powershell(text: &str) -> String {
+    let quotes = ['\'', '\u{2018}', '\u{2019}', '\u{201a}', '\u{201b}'];
+    escape(text, &quotes, |quote| quote)
+}
+
+/// Put the given prefix in front of every special character.
+fn escape(text: &str, special: &[char], prefix: fn(char) -> char) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        if special.contains(&c) {
+            escaped.push(prefix(c));
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -56,9 +91,10 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        // Escape double quotes in value
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("export {}=\"{}\"", key, escaped));
+        // The shell cannot export other names; they reach child processes unchanged
+        if is_identifier(key) {
+            lines.push(format!("export {}=\"{}\"", key, escape_bash(value)));
+        }
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -87,8 +123,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
-            lines.push(format!("source \"{}\"", escaped));
+            lines.push(format!("source \"{}\"", escape_bash(script)));
         }
     }
 
@@ -98,7 +133,9 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
             let escaped = msg.replace('\'', "'\\''");
-            lines.push(format!("# [info] {}", escaped));
+            for line in escaped.split('\n') {
+                lines.push(format!("# [info] {}", line));
+            }
         }
     }
 
@@ -114,8 +151,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("set -gx {} \"{}\"", key, escaped));
+        lines.push(format!("set -gx {} \"{}\"", key, escape_fish(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -125,7 +161,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        lines.push(format!("alias {} \"{}\"", name, escape_fish(cmd)));
     }
 
     if !env.startup_commands.is_empty() {
@@ -139,8 +175,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     if !env.sourced_scripts.is_empty() {
         lines.push(String::new());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
-            lines.push(format!("source \"{}\"", escaped));
+            lines.push(format!("source \"{}\"", escape_fish(script)));
         }
     }
 
@@ -157,7 +192,7 @@ fn generate_cmd_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        lines.push(format!("SET \"{}={}\"", key, value));
+        lines.push(format!("SET \"{}={}\"", key, value.replace('%', "%%")));
     }
 
     if !env.aliases.is_empty() {
@@ -166,7 +201,7 @@ fn generate_cmd_script(env: &RexEnvironment) -> String {
         let mut aliases: Vec<_> = env.aliases.iter().collect();
         aliases.sort_by_key(|(k, _)| k.as_str());
         for (name, cmd) in &aliases {
-            lines.push(format!("DOSKEY {}={}", name, cmd));
+            lines.push(format!("DOSKEY {}={}", name, cmd.replace('%', "%%")));
         }
     }
 
@@ -181,7 +216,7 @@ fn generate_cmd_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("REM Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            lines.push(format!("CALL \"{}\"", script));
+            lines.push(format!("CALL \"{}\"", script.replace('%', "%%")));
         }
     }
 
@@ -197,7 +232,7 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\'', "''");
+        let escaped = escape_powershell(value);
         let variable = if key
             .chars()
             .all(|character| character.is_ascii_alphanumeric() || character == '_')
@@ -216,7 +251,11 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        lines.push(format!(
+            "Set-Alias -Name {} -Value '{}'",
+            name,
+            escape_powershell(cmd)
+        ));
     }
 
     if !env.startup_commands.is_empty() {
@@ -231,8 +270,7 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('\'', "''");
-            lines.push(format!(". '{}'", escaped));
+            lines.push(format!(". '{}'", escape_powershell(script)));
         }
     }
 
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 2256567..5ecff66 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -440,13 +440,13 @@ fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult
         }
         Some("dict") => {
             for (key, value) in env_vars.iter() {
-                println!("'{}': '{}'", key, value);
+                println!("{}: {}", python_literal(key), python_literal(value));
             }
         }
         _ => {
             // Shell format (default)
             for (key, value) in env_vars.iter() {
-                println!("export {}=\"{}\"", key, value);
+                println!("export {}={}", key, quote_posix_argument(value));
             }
         }
     }
@@ -509,6 +509,21 @@ fn create_activation_script(
     Ok((directory, path))
 }
 
+/// Give a child process the resolved environment, without the inherited variables that
+/// activation unset.
+fn set_command_environment(cmd: &mut Command, environment: &RexEnvironment) {
+    if !cfg!(windows) {
+        for (name, value) in std::env::vars_os() {
+            if let (Some(name), Some(_)) = (name.to_str(), value.to_str())
+                && !environment.vars.contains_key(name)
+            {
+                cmd.env_remove(name);
+            }
+        }
+    }
+    cmd.envs(&environment.vars);
+}
+
 fn remove_temporary_context(environment: &RexEnvironment) {
     if let Some(path) = environment.vars.get("REZ_RXT_FILE") {
         let _ = std::fs::remove_file(path);
@@ -580,7 +595,7 @@ fn execute_shell_command_in_environment(
         }
     }
 
-    cmd.envs(&environment.vars);
+    set_command_environment(&mut cmd, &environment);
 
     // Execute the command
     let status = cmd
@@ -646,10 +661,25 @@ fn quote_shell_argument(argument: &str) -> String {
             argument.to_string()
         }
     } else {
-        format!("'{}'", argument.replace('\'', "'\\''"))
+        quote_posix_argument(argument)
     }
 }
 
+fn quote_posix_argument(argument: &str) -> String {
+    format!("'{}'", argument.replace('\'', "'\\''"))
+}
+
+/// Quote text as a Python string literal.
+fn python_literal(text: &str) -> String {
+    format!(
+        "'{}'",
+        text.replace('\\', "\\\\")
+            .replace('\'', "\\'")
+            .replace('\n', "\\n")
+            .replace('\r', "\\r")
+    )
+}
+
 /// Spawn an interactive shell in the resolved context
 fn spawn_shell_in_context(
     context: &ResolvedContext,
@@ -697,7 +727,7 @@ fn spawn_shell_in_context(
         }
     }
 
-    cmd.envs(&environment.vars);
+    set_command_environment(&mut cmd, &environment);
 
     // Set up stdio
     cmd.stdin(Stdio::inherit())
-- 
2.43.0


From e01807de998579ec1f602a86f42c3f004d42651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:31 +0000
Subject: [PATCH 24/48] fix: keep every package field when writing and reading
 package definitions

---
 .../rez-next-package/src/package/methods.rs   | 280 ++++++++++--------
 crates/rez-next-package/src/package/mod.rs    |   1 +
 .../rez-next-package/src/package/serialize.rs |   3 +-
 .../src/python_ast_parser/extract.rs          |   8 +
 .../src/python_ast_parser/mod.rs              |  28 ++
 .../src/python_ast_parser/types.rs            |   8 +
 .../src/serialization/load.rs                 | 229 ++++++++------
 .../src/serialization/save.rs                 | 142 +++------
 .../src/package_serialise.rs                  | 114 ++++---
 9 files changed, 442 insertions(+), 371 deletions(-)

diff --git a/crates/rez-next-package/src/package/methods.rs b/crates/rez-next-package/src/package/methods.rs
index b4a1ca4..beed5da 100644
--- a/crates/rez-next-package/src/package/methods.rs
+++ b/crates/rez-next-package/src/package/methods.rs
@@ -276,158 +276,182 @@ impl Package {
     /// Serialize the package to package.py format string.
     /// Compatible with rez package.py format.
     pub fn to_package_py(&self) -> String {
-        let mut lines = Vec::new();
-
-        // name (required)
-        lines.push(format!("name = \"{}\"", self.name));
-
-        // version (optional)
-        if let Some(ref version) = self.version {
-            lines.push(format!("version = \"{}\"", version.as_str()));
-        }
+        self.render_package_py(["false", "true"])
+    }
 
-        // description (optional)
-        if let Some(ref desc) = self.description {
-            // Escape quotes in description
-            let desc_escaped = desc.replace("\"", "\\\"");
-            lines.push(format!("description = \"{}\"", desc_escaped));
-        }
+    /// Write the package definition, with the given words for the flags that have always been
+    /// written in lower case by `to_package_py`.
+    pub(crate) fn render_package_py(&self, words: [&str; 2]) -> String {
+        let mut lines = vec![format!("name = {}", python_literal(&self.name))];
 
-        // authors (optional)
-        if !self.authors.is_empty() {
-            let authors_str = self
-                .authors
-                .iter()
-                .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
-                .collect::<Vec<_>>()
-                .join(", ");
-            lines.push(format!("authors = [{}]", authors_str));
+        let mut text = |key: &str, value: Option<&str>| {
+            if let Some(value) = value {
+                lines.push(format!("{} = {}", key, python_literal(value)));
+            }
+        };
+        text("version", self.version.as_ref().map(|v| v.as_str()));
+        text("description", self.description.as_deref());
+        text("uuid", self.uuid.as_deref());
+        text("help", self.help.as_deref());
+        text("base", self.base.as_deref());
+        text("build_system", self.build_system.as_deref());
+        text("build_command", self.build_command.as_deref());
+        text("requires_rez_version", self.requires_rez_version.as_deref());
+        text("preprocess", self.preprocess.as_deref());
+        text("revision", self.revision.as_deref());
+        text("changelog", self.changelog.as_deref());
+        text("release_message", self.release_message.as_deref());
+        text(
+            "previous_version",
+            self.previous_version.as_ref().map(|v| v.as_str()),
+        );
+        text("previous_revision", self.previous_revision.as_deref());
+        text("vcs", self.vcs.as_deref());
+
+        for (key, value, words) in [
+            ("relocatable", self.relocatable, words),
+            ("cachable", self.cachable, words),
+            ("has_plugins", self.has_plugins, PYTHON_BOOLS),
+            ("hashed_variants", self.hashed_variants, PYTHON_BOOLS),
+        ] {
+            if let Some(value) = value {
+                lines.push(format!("{} = {}", key, words[usize::from(value)]));
+            }
         }
-
-        // requires (optional)
-        if !self.requires.is_empty() {
-            let req_str = self
-                .requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("requires = [\n{}\n]", req_str));
+        if let Some(timestamp) = self.timestamp {
+            lines.push(format!("timestamp = {}", timestamp));
         }
-
-        // build_requires (optional)
-        if !self.build_requires.is_empty() {
-            let req_str = self
-                .build_requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("build_requires = [\n{}\n]", req_str));
+        if let Some(format_version) = self.format_version {
+            lines.push(format!("format_version = {}", format_version));
         }
 
-        // private_build_requires (optional)
-        if !self.private_build_requires.is_empty() {
-            let req_str = self
-                .private_build_requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("private_build_requires = [\n{}\n]", req_str));
+        for (key, values) in [
+            ("authors", &self.authors),
+            ("requires", &self.requires),
+            ("build_requires", &self.build_requires),
+            ("private_build_requires", &self.private_build_requires),
+            ("tools", &self.tools),
+            ("plugin_for", &self.plugin_for),
+        ] {
+            if !values.is_empty() {
+                lines.push(format!("{} = [", key));
+                lines.extend(values.iter().map(|v| format!("    {},", python_literal(v))));
+                lines.push("]".to_string());
+            }
         }
 
-        // variants (optional)
         if !self.variants.is_empty() {
-            let mut variant_lines = Vec::new();
+            lines.push("variants = [".to_string());
             for variant in &self.variants {
-                let var_str = variant
-                    .iter()
-                    .map(|r| format!("\"{}\"", r))
-                    .collect::<Vec<_>>()
-                    .join(", ");
-                variant_lines.push(format!("    [{}]", var_str));
+                let requirements: Vec<String> = variant.iter().map(|r| python_literal(r)).collect();
+                lines.push(format!("    [{}],", requirements.join(", ")));
             }
-            lines.push(format!("variants = [\n{}\n]", variant_lines.join(",\n")));
-        }
-
-        // tools (optional)
-        if !self.tools.is_empty() {
-            let tools_str = self
-                .tools
-                .iter()
-                .map(|t| format!("\"{}\"", t))
-                .collect::<Vec<_>>()
-                .join(", ");
-            lines.push(format!("tools = [{}]", tools_str));
+            lines.push("]".to_string());
         }
 
-        // uuid (optional)
-        if let Some(ref uuid) = self.uuid {
-            lines.push(format!("uuid = \"{}\"", uuid));
+        if !self.tests.is_empty() {
+            let mut tests: Vec<_> = self.tests.iter().collect();
+            tests.sort();
+            lines.push("tests = {".to_string());
+            lines.extend(tests.into_iter().map(|(name, command)| {
+                format!("    {}: {},", python_literal(name), python_literal(command))
+            }));
+            lines.push("}".to_string());
         }
 
-        // relocatable (optional)
-        if let Some(ref relocatable) = self.relocatable {
-            lines.push(format!("relocatable = {}", relocatable));
+        for (key, commands) in [
+            ("pre_commands", &self.pre_commands),
+            ("commands", &self.commands),
+            ("post_commands", &self.post_commands),
+            ("pre_test_commands", &self.pre_test_commands),
+        ] {
+            if let Some(commands) = commands {
+                lines.push(commands_to_python(key, commands));
+            }
         }
-
-        // cachable (optional)
-        if let Some(ref cachable) = self.cachable {
-            lines.push(format!("cachable = {}", cachable));
+        if let Some(ref commands) = self.pre_build_commands {
+            lines.push(format!("pre_build_commands = {}", python_literal(commands)));
         }
 
-        // commands function (optional)
-        if let Some(ref commands) = self.commands {
-            lines.push("\ndef commands():".to_string());
-            // Add commands function body with proper indentation
-            for line in commands.lines() {
-                if line.trim().is_empty() {
-                    lines.push("".to_string());
-                } else {
-                    lines.push(format!("    {}", line));
-                }
-            }
-        }
+        lines.join("\n")
+    }
+}
 
-        // pre_commands (optional)
-        if let Some(ref pre_commands) = self.pre_commands {
-            lines.push("\ndef pre_commands():".to_string());
-            for line in pre_commands.lines() {
-                if line.trim().is_empty() {
-                    lines.push("".to_string());
-                } else {
-                    lines.push(format!("    {}", line));
-                }
-            }
+/// How Python spells false and true.
+pub(crate) const PYTHON_BOOLS: [&str; 2] = ["False", "True"];
+
+/// Quote text as a Python string literal.
+fn python_literal(text: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => literal.extend(['\\', c]),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c if c.is_control() => literal.push_str(&format!("\\u{:04x}", c as u32)),
+            c => literal.push(c),
         }
+    }
+    literal.push('"');
+    literal
+}
 
-        // post_commands (optional)
-        if let Some(ref post_commands) = self.post_commands {
-            lines.push("\ndef post_commands():".to_string());
-            for line in post_commands.lines() {
-                if line.trim().is_empty() {
-                    lines.push("".to_string());
-                } else {
-                    lines.push(format!("    {}", line));
-                }
-            }
+/// Write commands as a function when reading that function gives them back, else as text.
+fn commands_to_python(key: &str, commands: &str) -> String {
+    let mut function = format!("\ndef {}():", key);
+    for line in dedent(commands).lines() {
+        function.push('\n');
+        if !line.trim().is_empty() {
+            function.push_str("    ");
+            function.push_str(line);
         }
+    }
+    let read = crate::PythonAstParser::parse_package_py(&format!("name = 'x'{}\n", function))
+        .ok()
+        .and_then(|package| match key {
+            "pre_commands" => package.pre_commands,
+            "post_commands" => package.post_commands,
+            "pre_test_commands" => package.pre_test_commands,
+            _ => package.commands,
+        });
+    let readable = read.is_some_and(|read| {
+        let text = dedent(commands);
+        // Simple calls mean the same in a function; each of them reads back as one line.
+        read == text
+            || (text.lines().all(is_simple_call) && read.lines().count() == text.lines().count())
+    });
+    if readable {
+        function
+    } else {
+        format!("{} = {}", key, python_literal(commands))
+    }
+}
 
-        // tests (optional) - simplified serialization
-        if !self.tests.is_empty() {
-            lines.push("\ntests = {".to_string());
-            for test_name in self.tests.keys() {
-                // Simplified: just add a comment, full serialization is complex
-                lines.push(format!("    \"{}\": {{", test_name));
-                lines.push("        # test definition".to_string());
-                lines.push("    },".to_string());
-            }
-            lines.push("}".to_string());
-        }
+/// Whether a line is one call whose arguments are plain string literals.
+fn is_simple_call(line: &str) -> bool {
+    static CALL: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| {
+        regex::Regex::new(
+            r#"^[A-Za-z_][\w.]*\((?:(?:"[^"\\]*"|'[^'\\]*')(?:,\s*(?:"[^"\\]*"|'[^'\\]*'))*)?\)$"#,
+        )
+        .expect("valid pattern")
+    });
+    CALL.is_match(line)
+}
 
-        lines.join("\n")
-    }
+/// The text without the indentation all its lines share, and without blank lines at its end.
+fn dedent(text: &str) -> String {
+    let indent = text
+        .split('\n')
+        .filter(|line| !line.trim().is_empty())
+        .map(|line| line.len() - line.trim_start_matches(' ').len())
+        .min()
+        .unwrap_or(0);
+    let lines: Vec<&str> = text
+        .split('\n')
+        .map(|line| line.get(indent..).unwrap_or(""))
+        .collect();
+    lines.join("\n").trim_end_matches('\n').to_string()
 }
 
 #[cfg(test)]
diff --git a/crates/rez-next-package/src/package/mod.rs b/crates/rez-next-package/src/package/mod.rs
index f97dbec..4574c2d 100644
--- a/crates/rez-next-package/src/package/mod.rs
+++ b/crates/rez-next-package/src/package/mod.rs
@@ -7,6 +7,7 @@ mod serialize;
 pub mod test_runner;
 pub mod types;
 
+pub(crate) use methods::PYTHON_BOOLS;
 pub use help::{HelpSection, PackageHelp};
 pub use requirement::PackageRequirement;
 pub use test_runner::{
diff --git a/crates/rez-next-package/src/package/serialize.rs b/crates/rez-next-package/src/package/serialize.rs
index bc18cf5..99a2b55 100644
--- a/crates/rez-next-package/src/package/serialize.rs
+++ b/crates/rez-next-package/src/package/serialize.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use super::types::Package;
 
 /// Number of fields serialized in the Package struct (excludes `config` and `commands_function`).
-const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 35;
+const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 36;
 
 impl Serialize for Package {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -51,6 +51,7 @@ impl Serialize for Package {
         state.serialize_field("plugin_for", &self.plugin_for)?;
         state.serialize_field("hashed_variants", &self.hashed_variants)?;
         state.serialize_field("preprocess", &self.preprocess)?;
+        state.serialize_field("is_dev_package", &self.is_dev_package)?;
         state.end()
     }
 }
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index 04a3884..6a06bb7 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -30,6 +30,14 @@ impl PythonAstParser {
         }
     }
 
+    /// Extract text, ignoring values of other types
+    pub(super) fn optional_text(&self, expr: &Expr) -> Result<Option<String>, RezCoreError> {
+        Ok(match self.evaluate_expression(expr)? {
+            PythonValue::String(text) => Some(text),
+            _ => None,
+        })
+    }
+
     /// Extract an optional boolean value from an expression
     pub(super) fn extract_bool_value(&self, expr: &Expr) -> Result<Option<bool>, RezCoreError> {
         match self.evaluate_expression(expr) {
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index 4971b75..361549d 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -311,6 +311,23 @@ impl PythonAstParser {
             "preprocess" => {
                 package_data.preprocess = Some(self.extract_string_value(value)?);
             }
+            "timestamp" => {
+                package_data.timestamp = match self.evaluate_expression(value)? {
+                    types::PythonValue::None => None,
+                    types::PythonValue::Integer(timestamp) => Some(timestamp),
+                    other => {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Expected integer timestamp, got: {other:?}"
+                        )));
+                    }
+                };
+            }
+            "revision" => package_data.revision = self.optional_text(value)?,
+            "changelog" => package_data.changelog = self.optional_text(value)?,
+            "release_message" => package_data.release_message = self.optional_text(value)?,
+            "previous_version" => package_data.previous_version = self.optional_text(value)?,
+            "previous_revision" => package_data.previous_revision = self.optional_text(value)?,
+            "vcs" => package_data.vcs = self.optional_text(value)?,
             _ => {
                 package_data
                     .extra_fields
@@ -420,6 +437,17 @@ impl PythonAstParser {
         package.plugin_for = data.plugin_for;
         package.format_version = data.format_version;
         package.preprocess = data.preprocess;
+        package.timestamp = data.timestamp;
+        package.revision = data.revision;
+        package.changelog = data.changelog;
+        package.release_message = data.release_message;
+        package.previous_revision = data.previous_revision;
+        package.vcs = data.vcs;
+        if let Some(version_str) = data.previous_version {
+            package.previous_version = Some(Version::parse(&version_str).map_err(|e| {
+                RezCoreError::PackageParse(format!("Invalid previous version: {}", e))
+            })?);
+        }
 
         package.validate()?;
 
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index 6597a6d..4f03c7a 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -98,6 +98,14 @@ pub(crate) struct PackageData {
     pub plugin_for: Vec<String>,
     pub format_version: Option<i32>,
     pub preprocess: Option<String>,
+    // Release information
+    pub timestamp: Option<i64>,
+    pub revision: Option<String>,
+    pub changelog: Option<String>,
+    pub release_message: Option<String>,
+    pub previous_version: Option<String>,
+    pub previous_revision: Option<String>,
+    pub vcs: Option<String>,
 }
 
 impl PackageData {
diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..9707e05 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -119,8 +119,16 @@ impl PackageLoader {
 
     /// Shared implementation: build a Package from a JSON-compatible HashMap
     fn load_from_json_data(
-        json_data: HashMap<String, serde_json::Value>,
+        mut json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // Files saved with metadata wrap the package in a container.
+        if !json_data.contains_key("name")
+            && json_data.contains_key("schema_version")
+            && let Some(serde_json::Value::Object(package)) = json_data.remove("package")
+        {
+            json_data = package.into_iter().collect();
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
@@ -131,83 +139,62 @@ impl PackageLoader {
 
         let mut package = Package::new(name);
 
-        if let Some(version_value) = json_data.get("version")
-            && let Some(version_str) = version_value.as_str()
-        {
-            let version = Version::parse(version_str)
-                .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
-            package.version = Some(version);
-        }
-
-        if let Some(description_value) = json_data.get("description")
-            && let Some(description) = description_value.as_str()
-        {
-            package.description = Some(description.to_string());
-        }
-
-        if let Some(authors_value) = json_data.get("authors")
-            && let Some(authors_array) = authors_value.as_array()
-        {
-            package.authors = authors_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(requires_value) = json_data.get("requires")
-            && let Some(requires_array) = requires_value.as_array()
-        {
-            package.requires = requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(build_requires_value) = json_data.get("build_requires")
-            && let Some(build_requires_array) = build_requires_value.as_array()
-        {
-            package.build_requires = build_requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(private_build_requires_value) = json_data.get("private_build_requires")
-            && let Some(arr) = private_build_requires_value.as_array()
-        {
-            package.private_build_requires = arr
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
+        if let Some(version) = text_field(&json_data, "version")? {
+            package.version = Some(
+                Version::parse(&version)
+                    .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?,
+            );
         }
-
-        if let Some(variants_value) = json_data.get("variants")
-            && let Some(variants_array) = variants_value.as_array()
-        {
-            package.variants = variants_array
-                .iter()
-                .filter_map(|v| v.as_array())
-                .map(|variant_array| {
-                    variant_array
-                        .iter()
-                        .filter_map(|v| v.as_str())
-                        .map(|s| s.to_string())
-                        .collect()
-                })
-                .collect();
+        if let Some(version) = text_field(&json_data, "previous_version")? {
+            package.previous_version = Some(Version::parse(&version).map_err(|e| {
+                RezCoreError::PackageParse(format!("Invalid previous_version: {}", e))
+            })?);
         }
 
-        if let Some(tools_value) = json_data.get("tools")
-            && let Some(tools_array) = tools_value.as_array()
-        {
-            package.tools = tools_array
+        package.description = text_field(&json_data, "description")?;
+        package.build_command = text_field(&json_data, "build_command")?;
+        package.build_system = text_field(&json_data, "build_system")?;
+        package.requires_rez_version = text_field(&json_data, "requires_rez_version")?;
+        package.uuid = text_field(&json_data, "uuid")?;
+        package.changelog = text_field(&json_data, "changelog")?;
+        package.release_message = text_field(&json_data, "release_message")?;
+        package.vcs = text_field(&json_data, "vcs")?;
+        package.base = text_field(&json_data, "base")?;
+        package.preprocess = text_field(&json_data, "preprocess")?;
+
+        package.pre_commands = commands_field(&json_data, "pre_commands")?;
+        package.commands = commands_field(&json_data, "commands")?;
+        package.commands_function = package.commands.clone();
+        package.post_commands = commands_field(&json_data, "post_commands")?;
+        package.pre_test_commands = commands_field(&json_data, "pre_test_commands")?;
+        package.pre_build_commands = commands_field(&json_data, "pre_build_commands")?;
+
+        package.authors = list_field(&json_data, "authors")?;
+        package.requires = list_field(&json_data, "requires")?;
+        package.build_requires = list_field(&json_data, "build_requires")?;
+        package.private_build_requires = list_field(&json_data, "private_build_requires")?;
+        package.tools = list_field(&json_data, "tools")?;
+        package.plugin_for = list_field(&json_data, "plugin_for")?;
+        package.variants = optional_field::<Vec<Vec<String>>>(&json_data, "variants")?
+            .unwrap_or_default();
+
+        package.relocatable = optional_field(&json_data, "relocatable")?;
+        package.cachable = optional_field(&json_data, "cachable")?;
+        package.has_plugins = optional_field(&json_data, "has_plugins")?;
+        package.hashed_variants = optional_field(&json_data, "hashed_variants")?;
+        package.is_dev_package = optional_field(&json_data, "is_dev_package")?;
+        package.timestamp = optional_field(&json_data, "timestamp")?;
+        package.format_version = optional_field(&json_data, "format_version")?;
+
+        // A package holds only the textual forms of these.
+        let text = |key: &str| Some(json_data.get(key)?.as_str()?.to_string());
+        package.help = text("help");
+        package.revision = text("revision");
+        package.previous_revision = text("previous_revision");
+        if let Some(tests) = json_data.get("tests").and_then(|v| v.as_object()) {
+            package.tests = tests
                 .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
+                .filter_map(|(name, command)| Some((name.clone(), command.as_str()?.to_string())))
                 .collect();
         }
 
@@ -239,32 +226,22 @@ impl PackageLoader {
 
     /// Load a package from XML content (simplified)
     pub fn load_from_xml(content: &str) -> Result<Package, RezCoreError> {
-        let name_start = content
-            .find("<name>")
+        let name = xml_elements(content, "name")
+            .next()
             .ok_or_else(|| RezCoreError::PackageParse("Missing <name> tag in XML".to_string()))?;
-        let name_end = content
-            .find("</name>")
-            .ok_or_else(|| RezCoreError::PackageParse("Missing </name> tag in XML".to_string()))?;
+        let mut package = Package::new(xml_unescape(name));
 
-        let name = content[name_start + 6..name_end].to_string();
-        let mut package = Package::new(name);
-
-        if let (Some(version_start), Some(version_end)) =
-            (content.find("<version>"), content.find("</version>"))
-        {
-            let version_str = &content[version_start + 9..version_end];
-            if let Ok(version) = Version::parse(version_str) {
-                package.version = Some(version);
-            }
-        }
-
-        if let (Some(desc_start), Some(desc_end)) = (
-            content.find("<description>"),
-            content.find("</description>"),
-        ) {
-            let description = content[desc_start + 13..desc_end].to_string();
-            package.description = Some(description);
+        if let Some(version) = xml_elements(content, "version").next() {
+            package.version = Some(
+                Version::parse(&xml_unescape(version))
+                    .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?,
+            );
         }
+        package.description = xml_elements(content, "description").next().map(xml_unescape);
+        package.authors = xml_elements(content, "author").map(xml_unescape).collect();
+        package.requires = xml_elements(content, "requirement")
+            .map(xml_unescape)
+            .collect();
 
         Ok(package)
     }
@@ -295,3 +272,61 @@ impl PackageLoader {
         Ok(content)
     }
 }
+
+/// Read a field of a package definition, if it is given and not null.
+fn optional_field<T: serde::de::DeserializeOwned>(
+    data: &HashMap<String, serde_json::Value>,
+    key: &str,
+) -> Result<Option<T>, RezCoreError> {
+    match data.get(key) {
+        None => Ok(None),
+        Some(value) => serde_json::from_value(value.clone())
+            .map_err(|e| RezCoreError::PackageParse(format!("Invalid '{}' field: {}", key, e))),
+    }
+}
+
+fn text_field(
+    data: &HashMap<String, serde_json::Value>,
+    key: &str,
+) -> Result<Option<String>, RezCoreError> {
+    optional_field(data, key)
+}
+
+fn list_field(
+    data: &HashMap<String, serde_json::Value>,
+    key: &str,
+) -> Result<Vec<String>, RezCoreError> {
+    Ok(optional_field(data, key)?.unwrap_or_default())
+}
+
+/// Commands are a text or a list of lines.
+fn commands_field(
+    data: &HashMap<String, serde_json::Value>,
+    key: &str,
+) -> Result<Option<String>, RezCoreError> {
+    if data.get(key).is_some_and(|value| value.is_array()) {
+        return Ok(Some(list_field(data, key)?.join("\n")));
+    }
+    text_field(data, key)
+}
+
+/// The contents of every `<tag>` element, in order.
+fn xml_elements<'a>(content: &'a str, tag: &str) -> impl Iterator<Item = &'a str> {
+    let (open, close) = (format!("<{}>", tag), format!("</{}>", tag));
+    let mut rest = content;
+    std::iter::from_fn(move || {
+        let start = rest.find(&open)? + open.len();
+        let end = start + rest[start..].find(&close)?;
+        let element = &rest[start..end];
+        rest = &rest[end + close.len()..];
+        Some(element)
+    })
+}
+
+/// Undo `xml_escape`.
+fn xml_unescape(text: &str) -> String {
+    text.replace("&#13;", "\r")
+        .replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&amp;", "&")
+}
diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..4bc70eb 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -1,6 +1,7 @@
 //! Package serialization (save) logic.
 
 use crate::Package;
+use crate::package::PYTHON_BOOLS;
 use chrono::Utc;
 use flate2::Compression;
 use flate2::write::GzEncoder;
@@ -155,43 +156,22 @@ impl PackageSaver {
         package: &Package,
         options: &SerializationOptions,
     ) -> Result<Package, RezCoreError> {
-        let mut filtered = package.clone();
-
-        if let Some(ref exclude_fields) = options.exclude_fields {
-            for field in exclude_fields {
-                match field.as_str() {
-                    "description" => filtered.description = None,
-                    "help" => filtered.help = None,
-                    "authors" => filtered.authors.clear(),
-                    "tools" => filtered.tools.clear(),
-                    _ => {}
-                }
-            }
-        }
-
-        if let Some(ref include_only) = options.include_only {
-            let mut new_package = Package::new(filtered.name.clone());
-
-            for field in include_only {
-                match field.as_str() {
-                    "name" => {}
-                    "version" => new_package.version = filtered.version.clone(),
-                    "description" => new_package.description = filtered.description.clone(),
-                    "authors" => new_package.authors = filtered.authors.clone(),
-                    "requires" => new_package.requires = filtered.requires.clone(),
-                    "build_requires" => {
-                        new_package.build_requires = filtered.build_requires.clone()
-                    }
-                    "variants" => new_package.variants = filtered.variants.clone(),
-                    "tools" => new_package.tools = filtered.tools.clone(),
-                    _ => {}
-                }
-            }
-
-            filtered = new_package;
+        let mut value = serde_json::to_value(package).map_err(|e| {
+            RezCoreError::PackageParse(format!("Failed to filter package fields: {}", e))
+        })?;
+        if let Some(fields) = value.as_object_mut() {
+            let listed = |list: &Option<Vec<String>>, key: &String| {
+                list.as_ref().map(|fields| fields.contains(key))
+            };
+            fields.retain(|key, _| {
+                key == "name"
+                    || (listed(&options.include_only, key) != Some(false)
+                        && listed(&options.exclude_fields, key) != Some(true))
+            });
         }
-
-        Ok(filtered)
+        serde_json::from_value(value).map_err(|e| {
+            RezCoreError::PackageParse(format!("Failed to filter package fields: {}", e))
+        })
     }
 
     fn save_container_to_yaml(
@@ -231,12 +211,16 @@ impl PackageSaver {
 
         let mut output = String::with_capacity(raw.len() + 64);
         output.push_str("# ---\n");
-        for line in raw.lines() {
-            if line.starts_with("- ") {
+        // Indent the lists below top-level keys, with everything inside them.
+        let mut in_list = false;
+        for line in raw.split_inclusive('\n') {
+            if !line.starts_with([' ', '\n']) {
+                in_list = line.starts_with("- ");
+            }
+            if in_list {
                 output.push_str("  ");
             }
             output.push_str(line);
-            output.push('\n');
         }
         Ok(output)
     }
@@ -267,62 +251,8 @@ impl PackageSaver {
             content.push_str("# Do not edit manually\n\n");
         }
 
-        content.push_str(&format!("name = \"{}\"\n", package.name));
-
-        if let Some(ref version) = package.version {
-            content.push_str(&format!("version = \"{}\"\n", version.as_str()));
-        }
-
-        if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
-        }
-
-        if !package.authors.is_empty() {
-            content.push_str("authors = [\n");
-            for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.requires.is_empty() {
-            content.push_str("requires = [\n");
-            for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.build_requires.is_empty() {
-            content.push_str("build_requires = [\n");
-            for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.variants.is_empty() {
-            content.push_str("variants = [\n");
-            for variant in &package.variants {
-                content.push_str("    [");
-                for (i, req) in variant.iter().enumerate() {
-                    if i > 0 {
-                        content.push_str(", ");
-                    }
-                    content.push_str(&format!("\"{}\"", req));
-                }
-                content.push_str("],\n");
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.tools.is_empty() {
-            content.push_str("tools = [\n");
-            for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
-            }
-            content.push_str("]\n");
-        }
+        content.push_str(&package.render_package_py(PYTHON_BOOLS));
+        content.push('\n');
 
         Ok(content)
     }
@@ -358,20 +288,23 @@ impl PackageSaver {
         }
 
         content.push_str("<package>\n");
-        content.push_str(&format!("  <name>{}</name>\n", package.name));
+        content.push_str(&format!("  <name>{}</name>\n", xml_escape(&package.name)));
 
         if let Some(ref version) = package.version {
             content.push_str(&format!("  <version>{}</version>\n", version.as_str()));
         }
 
         if let Some(ref description) = package.description {
-            content.push_str(&format!("  <description>{}</description>\n", description));
+            content.push_str(&format!(
+                "  <description>{}</description>\n",
+                xml_escape(description)
+            ));
         }
 
         if !package.authors.is_empty() {
             content.push_str("  <authors>\n");
             for author in &package.authors {
-                content.push_str(&format!("    <author>{}</author>\n", author));
+                content.push_str(&format!("    <author>{}</author>\n", xml_escape(author)));
             }
             content.push_str("  </authors>\n");
         }
@@ -379,7 +312,10 @@ impl PackageSaver {
         if !package.requires.is_empty() {
             content.push_str("  <requires>\n");
             for req in &package.requires {
-                content.push_str(&format!("    <requirement>{}</requirement>\n", req));
+                content.push_str(&format!(
+                    "    <requirement>{}</requirement>\n",
+                    xml_escape(req)
+                ));
             }
             content.push_str("  </requires>\n");
         }
@@ -425,6 +361,14 @@ impl PackageSaver {
     }
 }
 
+/// Escape text for an XML element.
+fn xml_escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('\r', "&#13;")
+}
+
 /// Convert YAML value to JSON value
 pub fn yaml_to_json_value(yaml_value: serde_yaml::Value) -> serde_json::Value {
     match yaml_value {
diff --git a/crates/rez-next-serialise/src/package_serialise.rs b/crates/rez-next-serialise/src/package_serialise.rs
index 29e289f..b9320e7 100644
--- a/crates/rez-next-serialise/src/package_serialise.rs
+++ b/crates/rez-next-serialise/src/package_serialise.rs
@@ -230,7 +230,7 @@ pub fn dict_to_attributes_code<T: Serialize>(data: &T) -> Result<String> {
     let mut output = String::from("# -*- coding: utf-8 -*-\n");
     output.push_str("# Rez package definition\n\n");
 
-    dict_to_python_code(&json_value, &mut output, 0)?;
+    dict_to_python_code(&json_value, &mut output)?;
 
     Ok(output)
 }
@@ -246,12 +246,43 @@ pub fn package_key_order() -> Vec<&'static str> {
 
 // ── Internal Helpers ───────────────────────────────────────────────────────────
 
-/// Recursively convert a JSON value to Python code.
-fn dict_to_python_code(
-    value: &serde_json::Value,
-    output: &mut String,
-    indent: usize,
-) -> Result<()> {
+/// Convert a JSON object to Python assignments.
+fn dict_to_python_code(value: &serde_json::Value, output: &mut String) -> Result<()> {
+    match value {
+        serde_json::Value::Object(map) => {
+            // Generate Python attribute code (key = value) for package.py format
+            // Use IndexMap to preserve key order
+            let mut keys: Vec<&String> = map.keys().collect();
+
+            // Sort keys according to PACKAGE_KEY_ORDER if possible
+            keys.sort_by(|a, b| {
+                let a_idx = PACKAGE_KEY_ORDER.iter().position(|&k| k == a.as_str());
+                let b_idx = PACKAGE_KEY_ORDER.iter().position(|&k| k == b.as_str());
+                match (a_idx, b_idx) {
+                    (Some(a), Some(b)) => a.cmp(&b),
+                    (Some(_), None) => std::cmp::Ordering::Less,
+                    (None, Some(_)) => std::cmp::Ordering::Greater,
+                    (None, None) => a.cmp(b),
+                }
+            });
+
+            for (i, key) in keys.iter().enumerate() {
+                if i > 0 {
+                    output.push('\n');
+                }
+                output.push_str(key);
+                output.push_str(" = ");
+                value_to_python_code(&map[*key], output, 0);
+            }
+        }
+        other => value_to_python_code(other, output, 0),
+    }
+
+    Ok(())
+}
+
+/// Convert a JSON value to a Python expression.
+fn value_to_python_code(value: &serde_json::Value, output: &mut String, indent: usize) {
     let indent_str = " ".repeat(indent);
 
     match value {
@@ -264,8 +295,9 @@ fn dict_to_python_code(
         serde_json::Value::Number(n) => {
             if let Some(i) = n.as_i64() {
                 output.push_str(&i.to_string());
-            } else if let Some(f) = n.as_f64() {
-                output.push_str(&f.to_string());
+            } else {
+                // JSON and Python spell other numbers alike
+                output.push_str(&n.to_string());
             }
         }
         serde_json::Value::String(s) => {
@@ -276,7 +308,7 @@ fn dict_to_python_code(
             for (i, item) in arr.iter().enumerate() {
                 output.push_str(&indent_str);
                 output.push_str("    ");
-                dict_to_python_code(item, output, indent + 4)?;
+                value_to_python_code(item, output, indent + 4);
                 if i < arr.len() - 1 {
                     output.push(',');
                 }
@@ -286,52 +318,42 @@ fn dict_to_python_code(
             output.push(']');
         }
         serde_json::Value::Object(map) => {
-            // Generate Python attribute code (key = value) for package.py format
-            // Use IndexMap to preserve key order
-            let mut keys: Vec<&String> = map.keys().collect();
-
-            // Sort keys according to PACKAGE_KEY_ORDER if possible
-            keys.sort_by(|a, b| {
-                let a_idx = PACKAGE_KEY_ORDER.iter().position(|&k| k == a.as_str());
-                let b_idx = PACKAGE_KEY_ORDER.iter().position(|&k| k == b.as_str());
-                match (a_idx, b_idx) {
-                    (Some(a), Some(b)) => a.cmp(&b),
-                    (Some(_), None) => std::cmp::Ordering::Less,
-                    (None, Some(_)) => std::cmp::Ordering::Greater,
-                    (None, None) => a.cmp(b),
-                }
-            });
-
-            for (i, key) in keys.iter().enumerate() {
-                if i > 0 {
-                    output.push('\n');
-                }
+            output.push_str("{\n");
+            for (key, item) in map {
                 output.push_str(&indent_str);
-                output.push_str(key);
-                output.push_str(" = ");
-                dict_to_python_code(&map[*key], output, indent)?;
-                if i < keys.len() - 1 {
-                    output.push(',');
-                }
+                output.push_str("    ");
+                output.push_str(&format_python_string(key));
+                output.push_str(": ");
+                value_to_python_code(item, output, indent + 4);
+                output.push_str(",\n");
             }
+            output.push_str(&indent_str);
+            output.push('}');
         }
     }
-
-    Ok(())
 }
 
 /// Format a string as a Python string literal.
 fn format_python_string(s: &str) -> String {
-    if s.contains('\n') {
-        // Multiline string - use triple quotes (align with Rez's package.py format)
-        format!("'''{}'''", s.replace("'''", "\\'\\'\\'"))
-    } else if s.contains('\'') && s.contains('"') {
-        // Use triple quotes
-        format!("'''{}'''", s.replace("'''", "\\'\\'\\'"))
+    let escape = |quote: Option<char>| -> String {
+        s.chars()
+            .map(|c| match c {
+                '\\' => "\\\\".to_string(),
+                '\n' if quote.is_none() => c.to_string(),
+                c if quote.unwrap_or('\'') == c => format!("\\{c}"),
+                c if c.is_control() => format!("\\u{:04x}", c as u32),
+                c => c.to_string(),
+            })
+            .collect()
+    };
+
+    if s.contains('\n') || (s.contains('\'') && s.contains('"')) {
+        // Use triple quotes (align with Rez's package.py format)
+        format!("'''{}'''", escape(None))
     } else if s.contains('\'') {
-        format!("\"{}\"", s)
+        format!("\"{}\"", escape(Some('"')))
     } else {
-        format!("'{}'", s.replace('\'', "\\'"))
+        format!("'{}'", escape(Some('\'')))
     }
 }
 
-- 
2.43.0


From 6ffb18513271dcda2b2fe0dede32b9b6b61cad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:16 +0000
Subject: [PATCH 25/48] fix: saved contexts keep package locations, and context
 reports what was resolved

---
 crates/rez-next-context/src/context.rs        |  74 ++++++++--
 .../rez-next-context/src/resolved_context.rs  |  26 +++-
 crates/rez-next-context/src/serialization.rs  |   5 +-
 src/cli/commands/context.rs                   | 132 +++++++++---------
 src/cli/commands/env.rs                       |  13 +-
 5 files changed, 161 insertions(+), 89 deletions(-)

diff --git a/crates/rez-next-context/src/context.rs b/crates/rez-next-context/src/context.rs
index 2354ebe..63d50e6 100644
--- a/crates/rez-next-context/src/context.rs
+++ b/crates/rez-next-context/src/context.rs
@@ -22,6 +22,7 @@ pub struct ResolvedContext {
     pub requirements: Vec<PackageRequirement>,
 
     /// Resolved packages in dependency order
+    #[serde(with = "located_packages")]
     pub resolved_packages: Vec<Package>,
 
     /// Environment variables
@@ -49,6 +50,61 @@ pub struct ResolvedContext {
     pub config: ContextConfig,
 }
 
+/// Serialises packages together with where they were found, which their own definition does
+/// not record.
+pub(crate) mod located_packages {
+    use rez_next_package::Package;
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    #[derive(Serialize)]
+    pub(crate) struct SavedPackage<'a> {
+        #[serde(skip_serializing_if = "Option::is_none")]
+        filepath: Option<&'a str>,
+        #[serde(flatten)]
+        package: &'a Package,
+    }
+
+    impl<'a> From<&'a Package> for SavedPackage<'a> {
+        fn from(package: &'a Package) -> Self {
+            Self {
+                filepath: package.filepath.as_deref(),
+                package,
+            }
+        }
+    }
+
+    #[derive(Deserialize)]
+    pub(crate) struct LoadedPackage {
+        #[serde(default)]
+        filepath: Option<String>,
+        #[serde(flatten)]
+        package: Package,
+    }
+
+    impl From<LoadedPackage> for Package {
+        fn from(loaded: LoadedPackage) -> Self {
+            Package {
+                filepath: loaded.filepath,
+                ..loaded.package
+            }
+        }
+    }
+
+    pub(crate) fn serialize<S: Serializer>(
+        packages: &[Package],
+        serializer: S,
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(packages.iter().map(SavedPackage::from))
+    }
+
+    pub(crate) fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<Vec<Package>, D::Error> {
+        let loaded = Vec::<LoadedPackage>::deserialize(deserializer)?;
+        Ok(loaded.into_iter().map(Package::from).collect())
+    }
+}
+
 /// Context status enumeration
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
 pub enum ContextStatus {
@@ -219,17 +275,15 @@ impl ResolvedContext {
 
     /// Check if context satisfies a requirement
     pub fn satisfies_requirement(&self, requirement: &PackageRequirement) -> bool {
-        for package in &self.resolved_packages {
-            if package.name == requirement.name {
-                if let Some(ref version) = package.version {
-                    return requirement.satisfied_by(version);
-                } else {
-                    // Package without version satisfies any requirement for that package
-                    return true;
-                }
-            }
+        let Some(package) = self.get_package(&requirement.name) else {
+            // Only an ordinary requirement needs the package to be there.
+            return requirement.conflict || requirement.weak;
+        };
+        match &package.version {
+            Some(version) => requirement.satisfied_by(version) != requirement.conflict,
+            // Package without version satisfies any requirement for that package
+            None => !requirement.conflict,
         }
-        false
     }
 
     /// Get context summary
diff --git a/crates/rez-next-context/src/resolved_context.rs b/crates/rez-next-context/src/resolved_context.rs
index 83ea4cd..09e3089 100644
--- a/crates/rez-next-context/src/resolved_context.rs
+++ b/crates/rez-next-context/src/resolved_context.rs
@@ -137,9 +137,10 @@ impl RezResolvedContext {
 
         for resolved_pkg in &self.resolved_packages {
             for tool in &resolved_pkg.package.tools {
-                // Tool path is typically {root}/bin/{tool}
-                let tool_path = resolved_pkg.root.join("bin").join(tool);
-                tools.insert(tool.clone(), tool_path);
+                // Tool path is typically {root}/bin/{tool}; earlier packages come first on PATH
+                tools
+                    .entry(tool.clone())
+                    .or_insert_with(|| resolved_pkg.root.join("bin").join(tool));
             }
         }
 
@@ -302,6 +303,18 @@ impl ResolvedPackage {
         }
     }
 
+    /// The package definition, located at this package's root.
+    pub fn located_package(&self) -> Package {
+        let mut package = (*self.package).clone();
+        if package.root().map(PathBuf::from).as_ref() != Some(&self.root)
+            && !self.root.as_os_str().is_empty()
+        {
+            let descriptor = self.root.join("package.py");
+            package.filepath = Some(descriptor.to_string_lossy().into_owned());
+        }
+        package
+    }
+
     /// Set the variant index for this package
     pub fn with_variant(mut self, variant_index: usize) -> Self {
         self.variant_index = Some(variant_index);
@@ -319,21 +332,22 @@ impl ResolvedPackage {
 /// Custom serialization for `Arc<Package>`
 mod arc_package_serde {
     use super::*;
+    use crate::context::located_packages::{LoadedPackage, SavedPackage};
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     pub fn serialize<S>(package: &Arc<Package>, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
-        package.as_ref().serialize(serializer)
+        SavedPackage::from(package.as_ref()).serialize(serializer)
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<Arc<Package>, D::Error>
     where
         D: Deserializer<'de>,
     {
-        let package = Package::deserialize(deserializer)?;
-        Ok(Arc::new(package))
+        let package = LoadedPackage::deserialize(deserializer)?;
+        Ok(Arc::new(package.into()))
     }
 }
 
diff --git a/crates/rez-next-context/src/serialization.rs b/crates/rez-next-context/src/serialization.rs
index c19b4e3..c700649 100644
--- a/crates/rez-next-context/src/serialization.rs
+++ b/crates/rez-next-context/src/serialization.rs
@@ -331,7 +331,10 @@ impl ContextFileUtils {
     pub fn get_default_filename(context: &ResolvedContext) -> String {
         match &context.name {
             Some(name) => format!("{}.rxt", name.replace(" ", "_").to_lowercase()),
-            None => format!("context_{}.rxt", &context.id[..8]),
+            None => format!(
+                "context_{}.rxt",
+                context.id.chars().take(8).collect::<String>()
+            ),
         }
     }
 
diff --git a/src/cli/commands/context.rs b/src/cli/commands/context.rs
index f93bb42..a31a1b2 100644
--- a/src/cli/commands/context.rs
+++ b/src/cli/commands/context.rs
@@ -5,8 +5,13 @@
 
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
-use rez_next_context::{ContextStatus, ResolvedContext, ResolvedPackage, RezResolvedContext};
+use rez_next_context::{
+    ContextConfig, ContextStatus, EnvironmentManager, ResolvedContext, ResolvedPackage,
+    RezResolvedContext,
+};
 use rez_next_package::Requirement;
+use rez_next_rex::{ShellType as RexShellType, generate_shell_script};
+use std::collections::HashMap;
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -216,6 +221,7 @@ fn convert_context(context: ResolvedContext) -> RezCoreResult<RezResolvedContext
     let requested_names = context
         .requirements
         .iter()
+        .filter(|requirement| !requirement.conflict)
         .map(|requirement| requirement.name.clone())
         .collect::<std::collections::HashSet<_>>();
     let requirements = context
@@ -303,6 +309,8 @@ fn print_available_tools(context: &RezResolvedContext) {
         return;
     }
 
+    let mut tools: Vec<_> = tools.into_iter().collect();
+    tools.sort();
     for (tool_name, tool_path) in tools {
         println!("  {} -> {}", tool_name, tool_path.display());
     }
@@ -321,66 +329,54 @@ fn locate_command(context: &RezResolvedContext, cmd: &str) {
 
 /// Interpret context and generate shell code
 fn interpret_context(context: &RezResolvedContext, args: &ContextArgs) -> RezCoreResult<()> {
-    let environ = context.get_environ()?;
-
-    let format = args.format.as_ref().unwrap_or(&OutputFormat::Bash);
-
-    match format {
-        OutputFormat::Bash | OutputFormat::Zsh => {
-            for (key, value) in &environ {
-                if is_package_variable(key, context) {
-                    println!("export {}=\"{}\"", key, value);
-                }
-            }
-        }
-        OutputFormat::Fish => {
-            for (key, value) in &environ {
-                if is_package_variable(key, context) {
-                    println!("set -x {} \"{}\"", key, value);
-                }
-            }
-        }
-        OutputFormat::Cmd => {
-            for (key, value) in &environ {
-                if is_package_variable(key, context) {
-                    println!("set {}={}", key, value);
-                }
-            }
-        }
-        OutputFormat::PowerShell => {
-            for (key, value) in &environ {
-                if is_package_variable(key, context) {
-                    println!("$env:{} = \"{}\"", key, value);
-                }
-            }
-        }
+    let base: HashMap<String, String> = if args.no_env {
+        HashMap::new()
+    } else {
+        std::env::vars_os()
+            .filter_map(|(name, value)| Some((name.into_string().ok()?, value.into_string().ok()?)))
+            .collect()
+    };
+    let packages: Vec<_> = context
+        .resolved_packages
+        .iter()
+        .map(ResolvedPackage::located_package)
+        .collect();
+    let manager =
+        EnvironmentManager::with_base_environment(ContextConfig::default(), base.clone());
+    let mut environment = tokio::runtime::Runtime::new()
+        .map_err(RezCoreError::Io)?
+        .block_on(manager.generate_rex_environment(&packages))?;
+    if environment.stopped {
+        return Err(RezCoreError::ExecutionError(
+            environment
+                .stop_message
+                .unwrap_or_else(|| "Package stopped environment activation".to_string()),
+        ));
+    }
+    // Only what the packages changed is printed.
+    environment
+        .vars
+        .retain(|name, value| base.get(name) != Some(value));
+
+    let shell = match args.format.as_ref().unwrap_or(&OutputFormat::Bash) {
+        OutputFormat::Bash => RexShellType::Bash,
+        OutputFormat::Zsh => RexShellType::Zsh,
+        OutputFormat::Fish => RexShellType::Fish,
+        OutputFormat::Cmd => RexShellType::Cmd,
+        OutputFormat::PowerShell => RexShellType::PowerShell,
         OutputFormat::Json => {
-            let package_vars: std::collections::HashMap<String, String> = environ
-                .into_iter()
-                .filter(|(key, _)| is_package_variable(key, context))
-                .collect();
-            println!("{}", serde_json::to_string_pretty(&package_vars)?);
+            println!("{}", serde_json::to_string_pretty(&environment.vars)?);
+            return Ok(());
         }
-        _ => {
+        format => {
             println!("Format {:?} not supported for interpretation", format);
+            return Ok(());
         }
-    }
-
+    };
+    println!("{}", generate_shell_script(&environment, &shell));
     Ok(())
 }
 
-/// Check if a variable was set by packages
-fn is_package_variable(var_name: &str, context: &RezResolvedContext) -> bool {
-    for resolved_pkg in &context.resolved_packages {
-        if let Some(ref commands) = resolved_pkg.package.commands
-            && commands.contains(&format!("export {}", var_name))
-        {
-            return true;
-        }
-    }
-    false
-}
-
 /// Print context summary
 fn print_context_summary(context: &RezResolvedContext) {
     let summary = context.get_summary();
@@ -415,6 +411,12 @@ fn print_context_summary(context: &RezResolvedContext) {
     }
 }
 
+/// The package a requirement asks for; excluding a package is not depending on it.
+fn dependency_name(requirement: &str) -> Option<String> {
+    let requirement = requirement.parse::<Requirement>().ok()?;
+    (!requirement.conflict).then_some(requirement.name)
+}
+
 /// Generate DOT graph string for a resolved context
 fn generate_dot_graph(context: &RezResolvedContext, prune_pkg: Option<&str>) -> String {
     let mut dot = String::from("digraph rez_context {\n");
@@ -430,7 +432,10 @@ fn generate_dot_graph(context: &RezResolvedContext, prune_pkg: Option<&str>) ->
             .filter(|rp| {
                 rp.package.name == prune || {
                     // Include packages that depend on prune target
-                    rp.package.requires.iter().any(|r| r.starts_with(prune))
+                    rp.package
+                        .requires
+                        .iter()
+                        .any(|r| dependency_name(r).as_deref() == Some(prune))
                 }
             })
             .collect()
@@ -448,28 +453,23 @@ fn generate_dot_graph(context: &RezResolvedContext, prune_pkg: Option<&str>) ->
             .map(|v| v.as_str())
             .unwrap_or("?");
         let label = format!("{}-{}", name, version);
-        let node_id = name.replace(['-', '.'], "_");
-        dot.push_str(&format!("    {} [label=\"{}\"];\n", node_id, label));
+        dot.push_str(&format!("    \"{}\" [label=\"{}\"];\n", name, label));
     }
 
     dot.push('\n');
 
     // Edges (requires relationships)
     for resolved_pkg in &packages {
-        let from_id = resolved_pkg.package.name.replace(['-', '.'], "_");
         for req in &resolved_pkg.package.requires {
-            // req is like "python-3.9" or "numpy>=1.0"
-            let dep_name = req
-                .split(|c: char| !c.is_alphanumeric() && c != '_' && c != '-')
-                .next()
-                .unwrap_or(req);
-            let to_id = dep_name.replace(['-', '.'], "_");
+            let Some(dep_name) = dependency_name(req) else {
+                continue;
+            };
             // Only emit edge if target node exists in graph
             let target_exists = packages.iter().any(|rp| rp.package.name == dep_name);
             if target_exists {
                 dot.push_str(&format!(
-                    "    {} -> {} [label=\"{}\"];\n",
-                    from_id, to_id, req
+                    "    \"{}\" -> \"{}\" [label=\"{}\"];\n",
+                    resolved_pkg.package.name, dep_name, req
                 ));
             }
         }
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 5ecff66..cf34349 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -256,15 +256,16 @@ fn resolve_environment(
     let repo_arc = Arc::new(repo_manager);
 
     // Convert PackageRequirement -> Requirement via string parsing
-    let resolver_reqs: Vec<Requirement> = requirements
+    let resolver_reqs = requirements
         .iter()
         .map(|pr| {
-            let req_str = pr.to_string();
-            req_str
-                .parse::<Requirement>()
-                .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+            pr.to_string().parse::<Requirement>().map_err(|error| {
+                RezCoreError::RequirementParse(format!(
+                    "Invalid package requirement '{pr}': {error}"
+                ))
+            })
         })
-        .collect();
+        .collect::<RezCoreResult<Vec<_>>>()?;
 
     // Run the dependency resolver
     let rt = tokio::runtime::Runtime::new().map_err(RezCoreError::Io)?;
-- 
2.43.0


From 6c2621e2d92eb8a171aae4222f1e57fd1f5c4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:34 +0000
Subject: [PATCH 26/48] fix: suites honour priorities, prefixes and conflict
 modes, and are not overwritten

---
 crates/rez-next-suites/src/suite.rs         | 37 +++++++++++++--------
 crates/rez-next-suites/src/suite_manager.rs | 13 ++++----
 src/cli/commands/suites.rs                  | 14 +++++---
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..56707fd 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -167,21 +167,28 @@ impl Suite {
         let mut tools: HashMap<String, SuiteTool> = HashMap::new();
         let mut conflicts: HashMap<String, Vec<String>> = HashMap::new();
 
-        for ctx in &self.contexts {
-            if ctx.disabled {
-                continue;
-            }
+        // A higher priority wins whichever end of the list the mode prefers.
+        let mut contexts: Vec<&SuiteContext> =
+            self.contexts.iter().filter(|c| !c.disabled).collect();
+        if self.conflict_mode == ToolConflictMode::Last {
+            contexts.sort_by_key(|c| c.priority);
+        } else {
+            contexts.sort_by_key(|c| std::cmp::Reverse(c.priority));
+        }
 
+        for ctx in contexts {
             // Generate tool entries for this context
             // Since we don't have actual resolved contexts here (that would require async),
             // we use the alias map and any known tools
-            for (alias, original) in &ctx.tool_aliases {
+            let mut aliases: Vec<_> = ctx.tool_aliases.iter().collect();
+            aliases.sort();
+            for (alias, original) in aliases {
                 if !ctx.is_tool_visible(original) {
                     continue;
                 }
 
                 let tool = SuiteTool::new(
-                    alias.clone(),
+                    ctx.get_prefixed_tool_name(alias),
                     original.clone(),
                     ctx.name.clone(),
                     ctx.requests.first().cloned().unwrap_or_default(),
@@ -212,7 +219,13 @@ impl Suite {
                         }
                         ToolConflictMode::Prefix => {
                             // Rename with context prefix
-                            let prefixed_name = format!("{}_{}", ctx.name, alias);
+                            let prefixed_name = format!("{}_{}", ctx.name, tool.name);
+                            if let Some(taken) = tools.get(&prefixed_name) {
+                                return Err(SuiteError::ToolConflict {
+                                    contexts: format!("{}, {}", taken.context_name, ctx.name),
+                                    tool: prefixed_name,
+                                });
+                            }
                             let prefixed_tool = SuiteTool::new(
                                 prefixed_name.clone(),
                                 original.clone(),
@@ -277,12 +290,10 @@ impl Suite {
         let suite_file: SuiteFile =
             serde_yaml::from_str(&content).map_err(|e| SuiteError::Serialization(e.to_string()))?;
 
-        let conflict_mode = suite_file
-            .conflict_mode
-            .as_deref()
-            .unwrap_or("error")
-            .parse()
-            .unwrap_or_default();
+        let conflict_mode = match suite_file.conflict_mode.as_deref() {
+            Some(mode) => mode.parse().map_err(SuiteError::Serialization)?,
+            None => ToolConflictMode::default(),
+        };
 
         Ok(Suite {
             contexts: suite_file.contexts,
diff --git a/crates/rez-next-suites/src/suite_manager.rs b/crates/rez-next-suites/src/suite_manager.rs
index 81a7ba9..5a11e66 100644
--- a/crates/rez-next-suites/src/suite_manager.rs
+++ b/crates/rez-next-suites/src/suite_manager.rs
@@ -38,12 +38,13 @@ impl SuiteManager {
             }
 
             if let Ok(entries) = std::fs::read_dir(base_path) {
-                for entry in entries.flatten() {
-                    let path = entry.path();
-                    if path.is_dir() && Suite::is_suite(&path) {
-                        suites.push(path);
-                    }
-                }
+                let mut found: Vec<PathBuf> = entries
+                    .flatten()
+                    .map(|entry| entry.path())
+                    .filter(|path| path.is_dir() && Suite::is_suite(path))
+                    .collect();
+                found.sort();
+                suites.extend(found);
             }
         }
 
diff --git a/src/cli/commands/suites.rs b/src/cli/commands/suites.rs
index a0a9daa..038134f 100644
--- a/src/cli/commands/suites.rs
+++ b/src/cli/commands/suites.rs
@@ -198,6 +198,13 @@ fn cmd_create(args: CreateSuiteArgs) -> RezCoreResult<()> {
         .parse()
         .map_err(|e: String| RezCoreError::RequirementParse(e))?;
 
+    if Suite::is_suite(&args.path) {
+        return Err(RezCoreError::ExecutionError(format!(
+            "Suite already exists: {}",
+            args.path.display()
+        )));
+    }
+
     let mut suite = Suite::new().with_conflict_mode(conflict_mode);
     if let Some(desc) = args.description {
         suite = suite.with_description(desc);
@@ -256,10 +263,9 @@ fn cmd_add_context(args: AddContextArgs) -> RezCoreResult<()> {
         .add_context(args.context_name.clone(), args.requests.clone())
         .map_err(|e| RezCoreError::ExecutionError(e.to_string()))?;
 
-    if let Some(prefix) = args.prefix
-        && let Some(ctx) = suite.get_context_mut(&args.context_name)
-    {
-        ctx.prefix = Some(prefix);
+    if let Some(ctx) = suite.get_context_mut(&args.context_name) {
+        ctx.prefix = args.prefix;
+        ctx.priority = args.priority;
     }
 
     suite
-- 
2.43.0


From 53c30cca8b11a6c45fb99cebb2fb750480c4cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 27/48] fix: package filters and orders mean what their rules
 say

---
 crates/rez-next-package-filter/src/filter.rs |  47 +++++----
 crates/rez-next-package-filter/src/rule.rs   |  58 ++++++++---
 crates/rez-next-package/src/filter.rs        | 101 +++++++++----------
 crates/rez-next-package/src/package_order.rs |  30 ++++--
 4 files changed, 142 insertions(+), 94 deletions(-)

diff --git a/crates/rez-next-package-filter/src/filter.rs b/crates/rez-next-package-filter/src/filter.rs
index 8530f1c..932f816 100644
--- a/crates/rez-next-package-filter/src/filter.rs
+++ b/crates/rez-next-package-filter/src/filter.rs
@@ -18,12 +18,12 @@ use super::RuleMatch;
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct PackageFilter {
     /// Exclusion rules - packages matching any of these are excluded
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub exclusions: Vec<RulePod>,
 
     /// Inclusion rules - packages matching any of these are included
     /// (overrides exclusion)
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub inclusions: Vec<RulePod>,
 
     /// Cache for computed SHA1 (lazily computed)
@@ -38,6 +38,9 @@ pub struct RulePod {
     pub rule_type: String,
     /// Rule pattern/value
     pub pattern: String,
+    /// Package family the rule is restricted to
+    #[serde(default, skip_serializing_if = "Option::is_none")]
+    pub family: Option<String>,
 }
 
 impl PackageFilter {
@@ -57,17 +60,12 @@ impl PackageFilter {
     pub fn excludes(&self, package: &Package) -> Option<&RulePod> {
         // Check exclusion rules
         for rule_pod in &self.exclusions {
-            if let Ok(rule) = self.pod_to_rule(rule_pod)
-                && matches!(rule.apply(package), RuleMatch::Matches)
-            {
+            if self.pod_matches(rule_pod, package) {
                 // Check if any inclusion rule matches
-                let included = self.inclusions.iter().any(|inc| {
-                    if let Ok(r) = self.pod_to_rule(inc) {
-                        matches!(r.apply(package), RuleMatch::Matches)
-                    } else {
-                        false
-                    }
-                });
+                let included = self
+                    .inclusions
+                    .iter()
+                    .any(|inc| self.pod_matches(inc, package));
 
                 if !included {
                     return Some(rule_pod);
@@ -84,9 +82,7 @@ impl PackageFilter {
     pub fn includes(&self, package: &Package) -> bool {
         // Check inclusion rules first
         for rule_pod in &self.inclusions {
-            if let Ok(rule) = self.pod_to_rule(rule_pod)
-                && matches!(rule.apply(package), RuleMatch::Matches)
-            {
+            if self.pod_matches(rule_pod, package) {
                 return true;
             }
         }
@@ -180,7 +176,8 @@ impl PackageFilter {
         use sha1::{Digest, Sha1};
 
         let mut hasher = Sha1::new();
-        let repr = format!("{}", self);
+        // Debug quotes the texts, so that different rules never read the same
+        let repr = format!("{:?} {:?}", self.exclusions, self.inclusions);
         hasher.update(repr.as_bytes());
 
         let result = hasher
@@ -197,7 +194,23 @@ impl PackageFilter {
     /// Convert a rule to POD representation.
     fn rule_to_pod(&self, rule: &dyn Rule) -> RulePod {
         let (rule_type, pattern) = rule.to_pod();
-        RulePod { rule_type, pattern }
+        // A range rule's pattern names its family already
+        let family = (rule_type != "range")
+            .then(|| rule.family().map(String::from))
+            .flatten();
+        RulePod {
+            rule_type,
+            pattern,
+            family,
+        }
+    }
+
+    /// Check whether a rule in POD form matches a package.
+    fn pod_matches(&self, pod: &RulePod, package: &Package) -> bool {
+        pod.family.as_ref().is_none_or(|f| package.name == *f)
+            && self
+                .pod_to_rule(pod)
+                .is_ok_and(|rule| matches!(rule.apply(package), RuleMatch::Matches))
     }
 
     /// Convert POD to a rule.
diff --git a/crates/rez-next-package-filter/src/rule.rs b/crates/rez-next-package-filter/src/rule.rs
index 3420a0b..2302ad9 100644
--- a/crates/rez-next-package-filter/src/rule.rs
+++ b/crates/rez-next-package-filter/src/rule.rs
@@ -65,6 +65,19 @@ pub trait Rule: Send + Sync + fmt::Display {
     fn to_pod(&self) -> (String, String);
 }
 
+/// Whether a rule applies to packages of this family at all.
+fn in_family(rule: &dyn Rule, package: &Package) -> bool {
+    rule.family().is_none_or(|family| package.name == family)
+}
+
+/// Whether a text can be a package family name (and so is not part of a version range).
+fn is_family_name(txt: &str) -> bool {
+    txt.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && txt
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.')
+}
+
 /// A rule that matches packages using glob patterns.
 ///
 /// # Examples
@@ -141,21 +154,17 @@ impl GlobRule {
     fn matches_glob(pattern: &str, text: &str) -> bool {
         // Convert glob pattern to regex
         let mut regex_pattern = String::with_capacity(pattern.len() * 2);
-        regex_pattern.push('^');
+        regex_pattern.push_str(r"(?s)\A");
 
         for c in pattern.chars() {
             match c {
                 '*' => regex_pattern.push_str(".*"),
                 '?' => regex_pattern.push('.'),
-                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' => {
-                    regex_pattern.push('\\');
-                    regex_pattern.push(c);
-                }
-                _ => regex_pattern.push(c),
+                _ => regex_pattern.push_str(&regex::escape(c.encode_utf8(&mut [0; 4]))),
             }
         }
 
-        regex_pattern.push('$');
+        regex_pattern.push_str(r"\z");
 
         if let Ok(re) = regex::Regex::new(&regex_pattern) {
             re.is_match(text)
@@ -167,9 +176,16 @@ impl GlobRule {
 
 impl Rule for GlobRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if !in_family(self, package) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         let text = match self.field {
             GlobField::Name => &package.name,
-            GlobField::Version => return RuleMatch::DoesNotMatch, // Version is a struct
+            GlobField::Version => match &package.version {
+                Some(version) => version.as_str(),
+                None => return RuleMatch::DoesNotMatch,
+            },
             GlobField::Description => package.description.as_deref().unwrap_or(""),
         };
 
@@ -293,6 +309,10 @@ impl RegexRule {
 
 impl Rule for RegexRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if !in_family(self, package) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         let text = match self.field {
             RegexField::Name => &package.name,
             RegexField::Description => package.description.as_deref().unwrap_or(""),
@@ -385,7 +405,9 @@ impl RangeRule {
 
         // Try to auto-detect "family-version_range" format
         // e.g, "maya-2024" -> family="maya", range="2024"
-        if let Some((family, range_str)) = inner.split_once('-') {
+        if let Some((family, range_str)) = inner.split_once('-')
+            && is_family_name(family)
+        {
             // Check if the second part looks like a version range
             if let Ok(range) = VersionRange::parse(range_str) {
                 return Ok(Box::new(RangeRule {
@@ -402,9 +424,7 @@ impl RangeRule {
 impl Rule for RangeRule {
     fn apply(&self, package: &Package) -> RuleMatch {
         // Check family
-        if let Some(family) = self.family()
-            && package.name != family
-        {
+        if !in_family(self, package) {
             return RuleMatch::DoesNotMatch;
         }
 
@@ -516,12 +536,18 @@ impl TimestampRule {
 
 impl Rule for TimestampRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if !in_family(self, package) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         // Check package timestamp (package.timestamp is Option<i64>)
         if let Some(ts) = package.timestamp {
-            if ts < 0 {
-                return RuleMatch::DoesNotMatch;
-            }
-            let pkg_time = UNIX_EPOCH + Duration::from_secs(ts as u64);
+            let since_epoch = Duration::from_secs(ts.unsigned_abs());
+            let pkg_time = if ts < 0 {
+                UNIX_EPOCH - since_epoch
+            } else {
+                UNIX_EPOCH + since_epoch
+            };
 
             let matches = if self.before {
                 pkg_time < self.timestamp
diff --git a/crates/rez-next-package/src/filter.rs b/crates/rez-next-package/src/filter.rs
index 30f61f5..b55f56e 100644
--- a/crates/rez-next-package/src/filter.rs
+++ b/crates/rez-next-package/src/filter.rs
@@ -145,14 +145,13 @@ impl RangeRule {
 
 impl Rule for RangeRule {
     fn matches(&self, package: &Package) -> bool {
-        if let Some(ref version) = package.version {
-            if let Some(ref vc) = self.requirement.version_constraint {
-                vc.is_satisfied_by(version)
-            } else {
-                false
-            }
-        } else {
-            false
+        if package.name != self.requirement.name {
+            return false;
+        }
+        match (&self.requirement.version_constraint, &package.version) {
+            (Some(vc), Some(version)) => vc.is_satisfied_by(version),
+            (Some(_), None) => false,
+            (None, _) => true,
         }
     }
 
@@ -251,8 +250,8 @@ impl Rule for TimestampRule {
 
     fn to_pod(&self) -> String {
         let prefix = if self.before { "before" } else { "after" };
-        let incl = if self.inclusive { ":" } else { "" };
-        format!("timestamp({}{}{})", prefix, incl, self.timestamp)
+        let incl = if self.inclusive { "=" } else { "" };
+        format!("timestamp({}{}:{})", prefix, incl, self.timestamp)
     }
 
     fn clone_box(&self) -> Box<dyn Rule + Send + Sync> {
@@ -383,27 +382,22 @@ impl PackageFilter {
     }
 
     /// Convert the filter to POD format for serialization.
+    ///
+    /// Rules for all packages are under `excludes` and `includes`, those of one
+    /// family under `excludes:family` and `includes:family`.
     pub fn to_pod(&self) -> HashMap<String, Vec<String>> {
         let mut pod = HashMap::new();
 
-        let excludes: Vec<String> = self
-            .excludes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !excludes.is_empty() {
-            pod.insert("excludes".to_string(), excludes);
-        }
-
-        let includes: Vec<String> = self
-            .includes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !includes.is_empty() {
-            pod.insert("includes".to_string(), includes);
+        for (key, rules) in [("excludes", &self.excludes), ("includes", &self.includes)] {
+            for (family, rules) in rules {
+                let key = match family {
+                    Some(family) => format!("{key}:{family}"),
+                    None => key.to_string(),
+                };
+                if !rules.is_empty() {
+                    pod.insert(key, rules.iter().map(|r| r.to_pod()).collect());
+                }
+            }
         }
 
         pod
@@ -413,22 +407,23 @@ impl PackageFilter {
     pub fn from_pod(pod: &HashMap<String, Vec<String>>) -> Result<Self, String> {
         let mut filter = PackageFilter::new();
 
-        if let Some(excludes) = pod.get("excludes") {
-            for rule_str in excludes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_exclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse exclusion rule: {}", rule_str));
-                }
-            }
-        }
-
-        if let Some(includes) = pod.get("includes") {
-            for rule_str in includes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_inclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse inclusion rule: {}", rule_str));
+        for (key, rules) in pod {
+            let (kind, family) = match key.split_once(':') {
+                Some((kind, family)) => (kind, Some(family)),
+                None => (key.as_str(), None),
+            };
+            for rule_str in rules {
+                let rule = parse_rule(rule_str);
+                match (kind, rule) {
+                    ("excludes", Some(rule)) => filter.add_exclusion(family, rule),
+                    ("includes", Some(rule)) => filter.add_inclusion(family, rule),
+                    ("excludes", None) => {
+                        return Err(format!("Failed to parse exclusion rule: {}", rule_str));
+                    }
+                    ("includes", None) => {
+                        return Err(format!("Failed to parse inclusion rule: {}", rule_str));
+                    }
+                    _ => {}
                 }
             }
         }
@@ -506,6 +501,7 @@ impl fmt::Display for PackageFilterList {
 /// - `regex(pattern)` - Regex pattern
 /// - `range(req)` - Version range
 /// - `timestamp(before:ts)` or `timestamp(after:ts)` - Timestamp rule
+/// - `timestamp(before=:ts)` or `timestamp(after=:ts)` - Inclusive timestamp rule
 pub fn parse_rule(s: &str) -> Option<Box<dyn Rule + Send + Sync>> {
     let s = s.trim();
 
@@ -535,15 +531,14 @@ pub fn parse_rule(s: &str) -> Option<Box<dyn Rule + Send + Sync>> {
         let parts: Vec<&str> = inner.splitn(2, ':').collect();
         if parts.len() == 2 {
             let timestamp = parts[1].parse::<i64>().ok()?;
-            if parts[0] == "before" {
-                return Some(
-                    Box::new(TimestampRule::before(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            } else if parts[0] == "after" {
-                return Some(
-                    Box::new(TimestampRule::after(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            }
+            let rule = match parts[0] {
+                "before" => TimestampRule::before(timestamp),
+                "after" => TimestampRule::after(timestamp),
+                "before=" => TimestampRule::at_or_before(timestamp),
+                "after=" => TimestampRule::at_or_after(timestamp),
+                _ => return None,
+            };
+            return Some(Box::new(rule));
         }
     }
 
diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 68a33b8..b873c82 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -200,8 +200,10 @@ impl PackageOrder for VersionSplitPackageOrder {
             }
         }
 
-        before.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
-        after.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
+        // Packages without a version come last
+        let key = |p: &Package| (p.version.is_none(), p.version.clone());
+        before.sort_by_key(key);
+        after.sort_by_key(key);
 
         let mut result = before;
         result.extend(after);
@@ -251,13 +253,13 @@ impl PackageOrder for PerFamilyOrder {
     }
 
     fn reorder(&self, packages: &[Package]) -> Option<Vec<Package>> {
-        // Group by family
-        let mut grouped: HashMap<String, Vec<Package>> = HashMap::new();
+        // Group by family, in order of first appearance
+        let mut grouped: Vec<(String, Vec<Package>)> = Vec::new();
         for pkg in packages {
-            grouped
-                .entry(pkg.name.clone())
-                .or_default()
-                .push(pkg.clone());
+            match grouped.iter_mut().find(|(family, _)| *family == pkg.name) {
+                Some((_, pkgs)) => pkgs.push(pkg.clone()),
+                None => grouped.push((pkg.name.clone(), vec![pkg.clone()])),
+            }
         }
 
         let mut result = Vec::new();
@@ -477,6 +479,18 @@ pub fn from_pod(data: &serde_json::Value) -> Option<Box<dyn PackageOrder>> {
                 timestamp, rank, packages,
             )))
         }
+        "per_family" => {
+            let mut order_dict = HashMap::new();
+            for (family, order) in data.get("order_dict")?.as_object()? {
+                order_dict.insert(family.clone(), from_pod(order)?);
+            }
+            let default_order = match data.get("default_order") {
+                None | Some(serde_json::Value::Null) => None,
+                Some(order) => Some(from_pod(order)?),
+            };
+
+            Some(Box::new(PerFamilyOrder::new(order_dict, default_order)))
+        }
         _ => None,
     }
 }
-- 
2.43.0


From b13b52c76b753df845758dbadf43c609da75dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 28/48] fix: configuration files keep defaults and
 REZ_CONFIG_FILE takes a path list

---
 crates/rez-next-common/src/config.rs | 45 ++++++++++++++--------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/crates/rez-next-common/src/config.rs b/crates/rez-next-common/src/config.rs
index b08dff6..ed15b43 100644
--- a/crates/rez-next-common/src/config.rs
+++ b/crates/rez-next-common/src/config.rs
@@ -7,6 +7,7 @@ use std::path::PathBuf;
 /// Configuration for rez-core components
 #[derive(Debug, Clone, Serialize, Deserialize)]
 #[allow(clippy::struct_excessive_bools)]
+#[serde(default)]
 pub struct RezCoreConfig {
     /// Enable Rust version system
     pub use_rust_version: bool,
@@ -68,6 +69,7 @@ pub struct RezCoreConfig {
 
 /// Cache configuration
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(default)]
 pub struct CacheConfig {
     /// Enable memory cache
     pub enable_memory_cache: bool,
@@ -151,9 +153,11 @@ impl RezCoreConfig {
 
         // 2. Environment variable REZ_CONFIG_FILE
         if let Ok(config_file) = env::var("REZ_CONFIG_FILE") {
-            for path in config_file.split(std::path::MAIN_SEPARATOR) {
-                paths.push(PathBuf::from(path));
-            }
+            paths.extend(
+                split_env_paths(&config_file)
+                    .into_iter()
+                    .map(PathBuf::from),
+            );
         }
 
         // 3. System-wide config
@@ -195,32 +199,27 @@ impl RezCoreConfig {
     pub fn get_sourced_paths() -> Vec<PathBuf> {
         Self::get_search_paths()
             .into_iter()
-            .filter(|path| path.exists())
+            .find(|path| Self::load_file(path).is_some())
+            .into_iter()
             .collect()
     }
 
+    /// Read one configuration file (YAML or JSON); fields it does not mention keep their defaults
+    fn load_file(path: &std::path::Path) -> Option<Self> {
+        let content = std::fs::read_to_string(path).ok()?;
+        serde_yaml::from_str(&content)
+            .ok()
+            .or_else(|| serde_json::from_str(&content).ok())
+    }
+
     /// Load configuration from files (reads actual rezconfig files)
     #[must_use]
     pub fn load() -> Self {
-        let mut config = Self::default();
-
-        // Try to load from config files in priority order
-        for path in Self::get_search_paths() {
-            if path.exists()
-                && let Ok(content) = std::fs::read_to_string(&path)
-            {
-                // Try YAML format
-                if let Ok(loaded) = serde_yaml::from_str::<RezCoreConfig>(&content) {
-                    config = loaded;
-                    break;
-                }
-                // Try JSON format
-                if let Ok(loaded) = serde_json::from_str::<RezCoreConfig>(&content) {
-                    config = loaded;
-                    break;
-                }
-            }
-        }
+        // The first config file in priority order that can be read
+        let mut config = Self::get_search_paths()
+            .iter()
+            .find_map(|path| Self::load_file(path))
+            .unwrap_or_default();
 
         // Override with environment variables
         if let Ok(packages_path) = env::var("REZ_PACKAGES_PATH") {
-- 
2.43.0


From b64e9325b9dc69dd1fa83088314c87f4b40a7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 29/48] fix: searches and reverse dependencies look at every
 package

---
 .../rez-next-repository/src/package_search.rs | 221 +++++++-----------
 crates/rez-next-search/src/searcher.rs        |  29 ++-
 src/cli/commands/depends.rs                   | 113 +++++----
 src/cli/commands/search_v2/display.rs         |  10 +-
 src/cli/commands/search_v2/filter.rs          |  36 ++-
 src/cli/commands/search_v2/matcher.rs         | 187 +++++++--------
 src/cli/utils.rs                              |  14 +-
 7 files changed, 278 insertions(+), 332 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a4d5c43..daccf52 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -7,9 +7,10 @@
 //!
 //! This aligns with Rez's `package_search.py` interface.
 
-use std::collections::{HashMap, HashSet};
-use std::path::Path;
+use std::collections::{BTreeMap, HashMap, HashSet};
+use std::path::{Path, PathBuf};
 
+use rez_next_package::Requirement;
 use rez_next_package::package::Package;
 
 /// Result of a resource search.
@@ -65,71 +66,53 @@ impl ResourceSearchResult {
 pub fn get_plugins(package_name: &str, paths: Option<Vec<String>>) -> Vec<String> {
     let search_paths = paths.unwrap_or_else(get_default_package_paths);
 
-    let mut plugins = Vec::new();
-    let mut visited = HashSet::new();
-
-    for path in search_paths {
-        let path = Path::new(&path);
-        if !path.exists() {
-            continue;
-        }
-
-        // Scan for packages that have plugin_for == package_name
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
-
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("");
-
-                if visited.contains(family_name) {
-                    continue;
-                }
-
-                // Check if this package is a plugin for package_name
-                if is_plugin_for(&family_path, package_name) {
-                    plugins.push(family_name.to_string());
-                    visited.insert(family_name.to_string());
-                }
-            }
-        }
-    }
-
-    plugins.sort();
-    plugins
+    latest_packages(&search_paths)
+        .into_iter()
+        .filter(|(_, package)| package.plugin_for.iter().any(|name| name == package_name))
+        .map(|(family, _)| family)
+        .collect()
 }
 
-/// Check if a package family is a plugin for the given package.
-fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
+/// Load the latest version of each package family found in the given paths.
+fn latest_packages(paths: &[String]) -> BTreeMap<String, Package> {
+    let mut latest: BTreeMap<String, Package> = BTreeMap::new();
 
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check plugin_for field (direct field on Package struct)
-                for plugin in &pkg.plugin_for {
-                    if plugin == target_package {
-                        return true;
+    for path in paths {
+        for (family, family_path) in visible_dirs(Path::new(path)) {
+            let version_paths = visible_dirs(&family_path).into_iter().map(|(_, dir)| dir);
+            for package in std::iter::once(family_path.clone())
+                .chain(version_paths)
+                .filter_map(|dir| load_package_from_dir(&dir))
+            {
+                match latest.get(&family) {
+                    Some(known) if known.version >= package.version => {}
+                    _ => {
+                        latest.insert(family.clone(), package);
                     }
                 }
             }
-
-            // Only check the first version
-            break;
         }
     }
 
-    false
+    latest
+}
+
+/// List the sub-directories of a directory that no `.ignore` marker hides.
+fn visible_dirs(dir: &Path) -> Vec<(String, PathBuf)> {
+    let Ok(entries) = std::fs::read_dir(dir) else {
+        return Vec::new();
+    };
+    entries
+        .flatten()
+        .filter(|entry| entry.path().is_dir())
+        .map(|entry| {
+            (
+                entry.file_name().to_string_lossy().into_owned(),
+                entry.path(),
+            )
+        })
+        .filter(|(name, _)| !dir.join(format!(".ignore{name}")).is_file())
+        .collect()
 }
 
 /// Load a package from a version directory.
@@ -170,9 +153,10 @@ pub fn get_reverse_dependency_tree(
     depth: Option<usize>,
     paths: Option<Vec<String>>,
     build_requires: bool,
-    _private_build_requires: bool,
+    private_build_requires: bool,
 ) -> (Vec<Vec<String>>, HashMap<String, Vec<String>>) {
     let search_paths = paths.unwrap_or_else(get_default_package_paths);
+    let packages = latest_packages(&search_paths);
 
     let mut graph: HashMap<String, Vec<String>> = HashMap::new();
     let mut layers: Vec<Vec<String>> = Vec::new();
@@ -191,16 +175,16 @@ pub fn get_reverse_dependency_tree(
 
         for pkg_name in &current_layer {
             // Find packages that depend on pkg_name
-            let dependents = find_dependents(pkg_name, &search_paths, build_requires);
+            let dependents = find_dependents(pkg_name, &packages, build_requires, private_build_requires);
 
             for dep in dependents {
                 if !visited.contains(&dep) {
                     visited.insert(dep.clone());
                     next_layer.push(dep.clone());
-
-                    // Add to graph
-                    graph.entry(pkg_name.clone()).or_default().push(dep);
                 }
+
+                // Add to graph
+                graph.entry(pkg_name.clone()).or_default().push(dep);
             }
         }
 
@@ -217,96 +201,57 @@ pub fn get_reverse_dependency_tree(
 /// Find packages that depend on a given package.
 fn find_dependents(
     package_name: &str,
-    paths: &[String],
+    packages: &BTreeMap<String, Package>,
     include_build_requires: bool,
+    include_private_build_requires: bool,
 ) -> Vec<String> {
-    let mut dependents = Vec::new();
-    let mut visited = HashSet::new();
-
-    for path in paths {
-        let path = Path::new(path);
-        if !path.exists() {
-            continue;
-        }
-
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
-
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("")
-                    .to_string();
-
-                if visited.contains(&family_name) {
-                    continue;
-                }
-
-                // Check if this package depends on package_name
-                if package_depends_on(&family_path, package_name, include_build_requires) {
-                    dependents.push(family_name.clone());
-                    visited.insert(family_name);
-                }
-            }
-        }
-    }
-
-    dependents.sort();
-    dependents
+    packages
+        .iter()
+        .filter(|(_, package)| {
+            package_depends_on(
+                package,
+                package_name,
+                include_build_requires,
+                include_private_build_requires,
+            )
+        })
+        .map(|(family, _)| family.clone())
+        .collect()
 }
 
 /// Check if a package depends on a given package.
 fn package_depends_on(
-    family_path: &Path,
+    package: &Package,
     target_package: &str,
     include_build_requires: bool,
+    include_private_build_requires: bool,
 ) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct)
-                for req in &pkg.requires {
-                    if req.contains(target_package) {
-                        return true;
-                    }
-                }
-
-                // Check build_requires if requested (direct field on Package struct)
-                if include_build_requires {
-                    for req in &pkg.build_requires {
-                        if req.contains(target_package) {
-                            return true;
-                        }
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
+    package
+        .requires
+        .iter()
+        .chain(package.variants.iter().flatten())
+        .chain(
+            package
+                .build_requires
+                .iter()
+                .filter(|_| include_build_requires),
+        )
+        .chain(
+            package
+                .private_build_requires
+                .iter()
+                .filter(|_| include_private_build_requires),
+        )
+        .filter_map(|requirement| requirement.parse::<Requirement>().ok())
+        .any(|r| r.name == target_package && !r.conflict && !r.weak)
 }
 
 /// Get default package paths from environment or common locations.
 fn get_default_package_paths() -> Vec<String> {
     // Check REZ_PACKAGES_PATH environment variable
     if let Ok(paths_str) = std::env::var("REZ_PACKAGES_PATH") {
-        return paths_str
-            .split(';')
-            .map(|s| s.trim().to_string())
+        return std::env::split_paths(&paths_str)
+            .map(|p| p.to_string_lossy().trim().to_string())
             .filter(|s| !s.is_empty())
             .collect();
     }
diff --git a/crates/rez-next-search/src/searcher.rs b/crates/rez-next-search/src/searcher.rs
index 2192aec..8b5146e 100644
--- a/crates/rez-next-search/src/searcher.rs
+++ b/crates/rez-next-search/src/searcher.rs
@@ -95,17 +95,25 @@ impl PackageSearcher {
                 format!("repo_{}", idx),
             )));
 
-            // Use empty string to get all packages from this repository
-            let all_packages = match repo_manager.find_packages("").await {
-                Ok(pkgs) => pkgs,
+            let names = match repo_manager.list_packages().await {
+                Ok(names) => names,
                 Err(_) => continue,
             };
+            let mut all_packages = Vec::new();
+            for name in names {
+                if let Ok(packages) = repo_manager.find_packages(&name).await {
+                    all_packages.extend(packages);
+                }
+            }
 
             result_set.total_scanned += all_packages.len();
 
             // Group by family, applying name filter
-            let mut family_map: std::collections::HashMap<String, Vec<String>> =
-                std::collections::HashMap::new();
+            let mut family_map: std::collections::BTreeMap<String, Vec<String>> =
+                std::collections::BTreeMap::new();
+
+            // Latest version first, as the manager sorts them: reverse to ascending order
+            all_packages.reverse();
 
             for pkg in &all_packages {
                 if !self.options.filter.matches_name(&pkg.name) {
@@ -136,7 +144,6 @@ impl PackageSearcher {
             // Convert to SearchResult
             let repo_path_str = repo_path.to_string_lossy().to_string();
             for (name, mut versions) in family_map {
-                versions.sort();
                 versions.dedup();
 
                 let result = match self.options.scope {
@@ -148,16 +155,16 @@ impl PackageSearcher {
                 };
 
                 result_set.add(result);
-
-                // Respect limit
-                if self.options.filter.limit > 0 && result_set.len() >= self.options.filter.limit {
-                    return result_set;
-                }
             }
         }
 
         // Sort by family name for deterministic output
         result_set.results.sort_by(|a, b| a.name.cmp(&b.name));
+
+        // Respect limit
+        if self.options.filter.limit > 0 {
+            result_set.results.truncate(self.options.filter.limit);
+        }
         result_set
     }
 }
diff --git a/src/cli/commands/depends.rs b/src/cli/commands/depends.rs
index f045e15..2cf863a 100644
--- a/src/cli/commands/depends.rs
+++ b/src/cli/commands/depends.rs
@@ -2,12 +2,14 @@
 
 use clap::Args;
 use rez_next_common::{RezCoreConfig, RezCoreError};
+use rez_next_package::{Package, Requirement};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use rez_next_version::Version;
 use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::PathBuf;
+use std::sync::Arc;
 
-use crate::cli::utils::split_package_paths;
+use crate::cli::utils::{expand_home_path, split_package_paths};
 
 /// Arguments for the depends command
 #[derive(Args, Clone, Debug)]
@@ -94,6 +96,11 @@ impl ReverseDependencyTree {
             self.depth_levels[depth].push(dependent.clone());
         }
 
+        self.add_edge(dependent, dependency, depth);
+    }
+
+    /// Record that `dependent` depends on `dependency`, leaving the layers as they are
+    fn add_edge(&mut self, dependent: String, dependency: String, depth: usize) {
         // Update or create node
         let dependency_key = dependency.clone();
         let node = self
@@ -134,9 +141,13 @@ pub async fn execute_depends(args: DependsArgs) -> Result<(), RezCoreError> {
         split_package_paths(paths)
     } else {
         let config = RezCoreConfig::load();
-        let mut paths: Vec<PathBuf> = config.packages_path.iter().map(PathBuf::from).collect();
+        let mut paths: Vec<PathBuf> = config
+            .packages_path
+            .iter()
+            .map(|path| expand_home_path(path))
+            .collect();
         // Also include local packages path
-        let local = PathBuf::from(&config.local_packages_path);
+        let local = expand_home_path(&config.local_packages_path);
         if !paths.contains(&local) {
             paths.push(local);
         }
@@ -152,6 +163,9 @@ pub async fn execute_depends(args: DependsArgs) -> Result<(), RezCoreError> {
 
     // Add filesystem repositories
     for (i, path) in package_paths.iter().enumerate() {
+        if !path.exists() {
+            continue;
+        }
         let repo_name = format!("repo_{}", i);
         let simple_repo = SimpleRepository::new(path.clone(), repo_name);
         repo_manager.add_repository(Box::new(simple_repo));
@@ -218,6 +232,12 @@ async fn build_reverse_dependency_tree(
         println!("🔍 Building reverse dependency tree...");
     }
 
+    // As in Rez, the latest version of each family is the one considered
+    let mut latest_packages = Vec::new();
+    for name in repo_manager.list_packages().await? {
+        latest_packages.extend(repo_manager.get_package(&name, None).await?);
+    }
+
     while let Some((current_package, depth)) = queue.pop_front() {
         // Check depth limit
         if let Some(max_depth) = max_depth
@@ -232,18 +252,19 @@ async fn build_reverse_dependency_tree(
 
         // Find all packages that depend on current_package
         let dependents = find_package_dependents(
-            repo_manager,
+            &latest_packages,
             &current_package,
             include_build_requires,
             include_private_build_requires,
-        )
-        .await?;
+        );
 
         for dependent in dependents {
             if !visited.contains(&dependent) {
                 visited.insert(dependent.clone());
                 queue.push_back((dependent.clone(), depth + 1));
                 tree.add_dependency(dependent, current_package.clone(), depth + 1);
+            } else {
+                tree.add_edge(dependent, current_package.clone(), depth + 1);
             }
         }
     }
@@ -252,54 +273,42 @@ async fn build_reverse_dependency_tree(
 }
 
 /// Find packages that depend on the target package
-async fn find_package_dependents(
-    repo_manager: &RepositoryManager,
+fn find_package_dependents(
+    packages: &[Arc<Package>],
     target_package: &str,
     include_build_requires: bool,
     include_private_build_requires: bool,
-) -> Result<Vec<String>, RezCoreError> {
-    let mut dependents = Vec::new();
-
-    // Get all packages by searching with empty string (gets all)
-    let all_packages = repo_manager.find_packages("").await?;
-
-    for package in all_packages {
-        let mut has_dependency = false;
-
-        // Check regular requires
-        for req_name in &package.requires {
-            if req_name == target_package {
-                has_dependency = true;
-                break;
-            }
-        }
-
-        // Check build requires if requested
-        if !has_dependency && include_build_requires {
-            for req_name in &package.build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
-        }
-
-        // Check private build requires if requested
-        if !has_dependency && include_private_build_requires {
-            for req_name in &package.private_build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
-        }
-
-        if has_dependency {
-            dependents.push(package.name.clone());
-        }
-    }
+) -> Vec<String> {
+    packages
+        .iter()
+        .filter(|package| {
+            package
+                .requires
+                .iter()
+                .chain(package.variants.iter().flatten())
+                .chain(
+                    package
+                        .build_requires
+                        .iter()
+                        .filter(|_| include_build_requires),
+                )
+                .chain(
+                    package
+                        .private_build_requires
+                        .iter()
+                        .filter(|_| include_private_build_requires),
+                )
+                .any(|requirement| requires_package(requirement, target_package))
+        })
+        .map(|package| package.name.clone())
+        .collect()
+}
 
-    Ok(dependents)
+/// Whether a requirement needs the package; a conflict (`!`) or weak (`~`) one does not
+fn requires_package(requirement: &str, target_package: &str) -> bool {
+    requirement
+        .parse::<Requirement>()
+        .is_ok_and(|r| r.name == target_package && !r.conflict && !r.weak)
 }
 
 /// Generate DOT graph representation of the dependency tree
@@ -317,7 +326,9 @@ fn generate_dot_graph(tree: &ReverseDependencyTree) -> Result<String, RezCoreErr
     ));
 
     // Add all nodes and edges
-    for (package_name, node) in &tree.nodes {
+    let mut nodes: Vec<_> = tree.nodes.iter().collect();
+    nodes.sort_by(|a, b| a.0.cmp(b.0));
+    for (package_name, node) in nodes {
         // Add node
         dot.push_str(&format!("  \"{}\";\n", package_name));
 
diff --git a/src/cli/commands/search_v2/display.rs b/src/cli/commands/search_v2/display.rs
index 9513013..a119929 100644
--- a/src/cli/commands/search_v2/display.rs
+++ b/src/cli/commands/search_v2/display.rs
@@ -57,7 +57,7 @@ fn display_table_format(results: &[SearchResult], args: &SearchArgs) -> RezCoreR
             .package
             .version
             .as_ref()
-            .map(|v| format!("{:?}", v))
+            .map(|v| v.as_str().to_string())
             .unwrap_or_else(|| "unknown".to_string());
 
         if args.verbose {
@@ -75,8 +75,8 @@ fn display_table_format(results: &[SearchResult], args: &SearchArgs) -> RezCoreR
                 .description
                 .as_ref()
                 .map(|d| {
-                    if d.len() > 37 {
-                        format!("{}...", &d[..37])
+                    if d.chars().count() > 37 {
+                        format!("{}...", d.chars().take(37).collect::<String>())
                     } else {
                         d.clone()
                     }
@@ -100,7 +100,7 @@ fn display_json_format(results: &[SearchResult]) -> RezCoreResult<()> {
         .map(|result| {
             serde_json::json!({
                 "name": result.package.name,
-                "version": result.package.version.as_ref().map(|v| format!("{:?}", v)),
+                "version": result.package.version.as_ref().map(|v| v.as_str().to_string()),
                 "description": result.package.description,
                 "tools": result.package.tools,
                 "requires": result.package.requires,
@@ -128,7 +128,7 @@ fn display_detailed_format(results: &[SearchResult], _args: &SearchArgs) -> RezC
         println!("--- {} ---", result.package.name);
 
         if let Some(ref version) = result.package.version {
-            println!("Version: {:?}", version);
+            println!("Version: {}", version.as_str());
         }
 
         if let Some(ref desc) = result.package.description {
diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 110774b..ce7519f 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -3,12 +3,12 @@
 //! Result filtering, deduplication, sorting, and the core search pipeline
 //! for the `rez search` command.
 
-use super::matcher::{evaluate_package_match, get_package_timestamp};
+use super::matcher::{TextQuery, evaluate_package_match, get_package_timestamp};
 use super::types::{SearchArgs, SearchResult};
 use crate::cli::utils::parse_timestamp;
-use rez_next_common::error::RezCoreResult;
+use rez_next_common::error::{RezCoreError, RezCoreResult};
 use rez_next_repository::simple_repository::RepositoryManager;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Perform the actual search against all repositories
 pub async fn perform_search(
@@ -18,8 +18,9 @@ pub async fn perform_search(
     let mut all_results = Vec::new();
 
     // Parse timestamp filters
-    let newer_than = args.newer_than.as_deref().and_then(parse_timestamp);
-    let older_than = args.older_than.as_deref().and_then(parse_timestamp);
+    let newer_than = parse_date(args.newer_than.as_deref())?;
+    let older_than = parse_date(args.older_than.as_deref())?;
+    let query = TextQuery::new(args)?;
 
     // Get all available packages
     let all_package_names = repo_manager.list_packages().await?;
@@ -84,7 +85,7 @@ pub async fn perform_search(
                 }
             }
 
-            if let Some(result) = evaluate_package_match(&package, args, "default") {
+            if let Some(result) = evaluate_package_match(&package, args, &query, "default") {
                 all_results.push(result);
             }
         }
@@ -92,7 +93,7 @@ pub async fn perform_search(
 
     // For family type: deduplicate by package name (keep highest score)
     if args.search_type == "family" {
-        let mut family_map: HashMap<String, SearchResult> = HashMap::new();
+        let mut family_map: BTreeMap<String, SearchResult> = BTreeMap::new();
         for result in all_results {
             let name = result.package.name.clone();
             if let Some(existing) = family_map.get(&name) {
@@ -106,20 +107,29 @@ pub async fn perform_search(
         all_results = family_map.into_values().collect();
     }
 
-    // Sort results
-    sort_results(&mut all_results, &args.sort);
-
     // Filter to latest only if requested
     if args.latest_only {
         all_results = filter_latest_versions(all_results);
     }
 
+    // Sort results
+    sort_results(&mut all_results, &args.sort);
+
     // Limit results
     all_results.truncate(args.limit);
 
     Ok(all_results)
 }
 
+/// Parse a date given on the command line
+fn parse_date(date: Option<&str>) -> RezCoreResult<Option<i64>> {
+    date.map(|date| {
+        parse_timestamp(date)
+            .ok_or_else(|| RezCoreError::CliError(format!("Invalid date: '{date}'")))
+    })
+    .transpose()
+}
+
 /// Sort search results
 pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
     match sort_by {
@@ -136,6 +146,10 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
                 }
             });
         }
+        "date" => {
+            // Newest first
+            results.sort_by_key(|r| std::cmp::Reverse(get_package_timestamp(&r.package)));
+        }
         "score" => {
             results.sort_by(|a, b| {
                 b.match_score
@@ -152,7 +166,7 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
 
 /// Filter to keep only latest versions of each package
 pub fn filter_latest_versions(results: Vec<SearchResult>) -> Vec<SearchResult> {
-    let mut latest_map: HashMap<String, SearchResult> = HashMap::new();
+    let mut latest_map: BTreeMap<String, SearchResult> = BTreeMap::new();
 
     for result in results {
         let package_name = &result.package.name;
diff --git a/src/cli/commands/search_v2/matcher.rs b/src/cli/commands/search_v2/matcher.rs
index 13bdd48..0def405 100644
--- a/src/cli/commands/search_v2/matcher.rs
+++ b/src/cli/commands/search_v2/matcher.rs
@@ -3,6 +3,7 @@
 //! Package match scoring and timestamp utilities for the `rez search` command.
 
 use super::types::{SearchArgs, SearchResult};
+use rez_next_common::error::{RezCoreError, RezCoreResult};
 use rez_next_package::Package;
 use std::sync::Arc;
 
@@ -16,141 +17,109 @@ pub fn get_package_timestamp(package: &Arc<Package>) -> i64 {
     0
 }
 
+/// The query of a search, ready to be matched against package text
+pub struct TextQuery {
+    query: String,
+    regex: Option<regex::Regex>,
+    case_sensitive: bool,
+}
+
+impl TextQuery {
+    /// Prepare the query; an invalid regex is an error
+    pub fn new(args: &SearchArgs) -> RezCoreResult<Self> {
+        let regex = if args.regex {
+            let regex = regex::RegexBuilder::new(&args.query)
+                .case_insensitive(!args.case_sensitive)
+                .build()
+                .map_err(|e| RezCoreError::CliError(format!("Invalid regex: {e}")))?;
+            Some(regex)
+        } else {
+            None
+        };
+        let mut text_query = Self {
+            query: String::new(),
+            regex,
+            case_sensitive: args.case_sensitive,
+        };
+        text_query.query = text_query.fold(&args.query);
+        Ok(text_query)
+    }
+
+    fn fold(&self, text: &str) -> String {
+        if self.case_sensitive {
+            text.to_string()
+        } else {
+            text.to_lowercase()
+        }
+    }
+
+    fn matches(&self, text: &str) -> bool {
+        match &self.regex {
+            Some(regex) => regex.is_match(text),
+            None => self.fold(text).contains(&self.query),
+        }
+    }
+
+    fn is_whole(&self, text: &str) -> bool {
+        self.regex.is_some() || self.fold(text) == self.query
+    }
+}
+
 /// Evaluate if a package matches the search criteria
 pub fn evaluate_package_match(
     package: &Arc<Package>,
     args: &SearchArgs,
+    query: &TextQuery,
     repo_name: &str,
 ) -> Option<SearchResult> {
     let mut match_score = 0.0;
     let mut match_fields = Vec::new();
-
-    let query = if args.case_sensitive {
-        args.query.clone()
-    } else {
-        args.query.to_lowercase()
+    let description_matches = || {
+        package
+            .description
+            .as_ref()
+            .is_some_and(|description| query.matches(description))
     };
+    let any_matches = |texts: &[String]| texts.iter().any(|text| query.matches(text));
 
     // Check package name
-    let package_name = if args.case_sensitive {
-        package.name.clone()
-    } else {
-        package.name.to_lowercase()
-    };
-
-    if args.regex {
-        if let Ok(regex) = regex::Regex::new(&query)
-            && regex.is_match(&package_name)
-        {
-            match_score += 10.0;
-            match_fields.push("name".to_string());
-        }
-    } else if package_name.contains(&query) {
-        match_score += if package_name == query { 10.0 } else { 5.0 };
+    if query.matches(&package.name) {
+        match_score += if query.is_whole(&package.name) {
+            10.0
+        } else {
+            5.0
+        };
         match_fields.push("name".to_string());
     }
 
     // Check description if requested
-    if args.description
-        && let Some(ref desc) = package.description
-    {
-        let desc_text = if args.case_sensitive {
-            desc.clone()
-        } else {
-            desc.to_lowercase()
-        };
-
-        if args.regex {
-            if let Ok(regex) = regex::Regex::new(&query)
-                && regex.is_match(&desc_text)
-            {
-                match_score += 3.0;
-                match_fields.push("description".to_string());
-            }
-        } else if desc_text.contains(&query) {
-            match_score += 3.0;
-            match_fields.push("description".to_string());
-        }
+    if args.description && description_matches() {
+        match_score += 3.0;
+        match_fields.push("description".to_string());
     }
 
     // Check tools if requested
-    if args.tools {
-        for tool in &package.tools {
-            let tool_name = if args.case_sensitive {
-                tool.clone()
-            } else {
-                tool.to_lowercase()
-            };
-
-            if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
-                    && regex.is_match(&tool_name)
-                {
-                    match_score += 2.0;
-                    match_fields.push("tools".to_string());
-                    break;
-                }
-            } else if tool_name.contains(&query) {
-                match_score += 2.0;
-                match_fields.push("tools".to_string());
-                break;
-            }
-        }
+    if args.tools && any_matches(&package.tools) {
+        match_score += 2.0;
+        match_fields.push("tools".to_string());
     }
 
     // Check requirements if requested
-    if args.requirements {
-        for req in &package.requires {
-            let req_text = if args.case_sensitive {
-                req.clone()
-            } else {
-                req.to_lowercase()
-            };
-
-            if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
-                    && regex.is_match(&req_text)
-                {
-                    match_score += 1.0;
-                    match_fields.push("requirements".to_string());
-                    break;
-                }
-            } else if req_text.contains(&query) {
-                match_score += 1.0;
-                match_fields.push("requirements".to_string());
-                break;
-            }
-        }
+    if args.requirements && any_matches(&package.requires) {
+        match_score += 1.0;
+        match_fields.push("requirements".to_string());
     }
 
-    // If no specific fields requested, search all by default
+    // If no specific search fields are requested, search all by default
     if !args.description && !args.tools && !args.requirements {
-        // Already checked name above, check description and tools by default
-        if let Some(ref desc) = package.description {
-            let desc_text = if args.case_sensitive {
-                desc.clone()
-            } else {
-                desc.to_lowercase()
-            };
-
-            if desc_text.contains(&query) {
-                match_score += 2.0;
-                match_fields.push("description".to_string());
-            }
+        if description_matches() {
+            match_score += 2.0;
+            match_fields.push("description".to_string());
         }
 
-        for tool in &package.tools {
-            let tool_name = if args.case_sensitive {
-                tool.clone()
-            } else {
-                tool.to_lowercase()
-            };
-
-            if tool_name.contains(&query) {
-                match_score += 1.0;
-                match_fields.push("tools".to_string());
-                break;
-            }
+        if any_matches(&package.tools) {
+            match_score += 1.0;
+            match_fields.push("tools".to_string());
         }
     }
 
diff --git a/src/cli/utils.rs b/src/cli/utils.rs
index 836316c..a7caa7e 100644
--- a/src/cli/utils.rs
+++ b/src/cli/utils.rs
@@ -175,17 +175,17 @@ pub fn parse_relative_time(s: &str) -> Option<i64> {
     if s.is_empty() {
         return None;
     }
-    let (digits, unit) = s.split_at(s.len() - 1);
+    let (digits, unit) = s.split_at_checked(s.len() - 1)?;
     let n: i64 = digits.parse().ok()?;
-    let seconds_ago: i64 = match unit {
-        "d" | "D" => n * 86_400,
-        "w" | "W" => n * 7 * 86_400,
-        "m" | "M" => n * 30 * 86_400,
-        "y" | "Y" => n * 365 * 86_400,
+    let unit_seconds: i64 = match unit {
+        "d" | "D" => 86_400,
+        "w" | "W" => 7 * 86_400,
+        "m" | "M" => 30 * 86_400,
+        "y" | "Y" => 365 * 86_400,
         _ => return None,
     };
     let now = chrono::Utc::now().timestamp();
-    Some(now - seconds_ago)
+    now.checked_sub(n.checked_mul(unit_seconds)?)
 }
 
 /// Parse a time specification into a Unix timestamp (`u64`, seconds since
-- 
2.43.0


From d7bc6a3e46c561b277248561caff00b1e1df6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:56 +0000
Subject: [PATCH 30/48] fix: environment overrides apply in a fixed order, and
 plugins and release expand the home directory

---
 crates/rez-next-config/src/lib.rs | 10 +++++++++-
 src/cli/commands/plugins.rs       | 10 ++++++++--
 src/cli/commands/release.rs       |  4 +++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 9d08151..2f5e370 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -266,7 +266,12 @@ impl Config {
     /// plain strings are stored as strings.
     fn apply_env_overrides(&mut self) -> Result<(), ConfigError> {
         let mut count = 0usize;
-        for (key, value) in env::vars() {
+        // In name order, so that REZ_FOO never depends on where REZ_FOO_BAR is listed
+        let mut variables: Vec<(String, String)> = env::vars_os()
+            .filter_map(|(key, value)| Some((key.into_string().ok()?, value.into_string().ok()?)))
+            .collect();
+        variables.sort();
+        for (key, value) in variables {
             if let Some(config_key) = key.strip_prefix("REZ_") {
                 let dotted = config_key.to_lowercase().replace('_', ".");
                 let parsed: JsonValue = serde_json::from_str(&value)
@@ -373,6 +378,9 @@ fn get_or_create_nested<'v>(root: &'v mut JsonValue, segments: &[&str]) -> &'v m
             .entry(seg.to_string())
             .or_insert(JsonValue::Object(serde_json::Map::new()));
     }
+    if !current.is_object() {
+        *current = JsonValue::Object(serde_json::Map::new());
+    }
     current
 }
 
diff --git a/src/cli/commands/plugins.rs b/src/cli/commands/plugins.rs
index 3ff9cda..37517cf 100644
--- a/src/cli/commands/plugins.rs
+++ b/src/cli/commands/plugins.rs
@@ -2,6 +2,7 @@
 //!
 //! Implements the `rez plugins` command for listing and managing package plugins.
 
+use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
 use rez_next_package::Package;
@@ -103,11 +104,16 @@ async fn setup_repositories(args: &PluginsArgs) -> RezCoreResult<RepositoryManag
     let paths: Vec<PathBuf> = if args.paths.is_empty() {
         // Use real config paths
         let config = RezCoreConfig::load();
-        let mut p: Vec<PathBuf> = config.packages_path.iter().map(PathBuf::from).collect();
-        let local = PathBuf::from(&config.local_packages_path);
+        let mut p: Vec<PathBuf> = config
+            .packages_path
+            .iter()
+            .map(|path| expand_home_path(path))
+            .collect();
+        let local = expand_home_path(&config.local_packages_path);
         if !p.contains(&local) {
             p.push(local);
         }
+        p.retain(|path| path.exists());
         p
     } else {
         args.paths.clone()
diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3b00ba4..eb7ab1c 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -367,7 +367,9 @@ fn read_message_file(path: Option<&PathBuf>) -> Option<String> {
 
 /// Get release packages path from config
 fn get_release_path() -> String {
-    RezCoreConfig::load().release_packages_path
+    crate::cli::utils::expand_home_path(&RezCoreConfig::load().release_packages_path)
+        .to_string_lossy()
+        .into_owned()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8e6d47445b6c64bc67edd0a72a66841d67f7d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:58 +0000
Subject: [PATCH 31/48] fix: report what was resolved: valid JSON from solve,
 correct requested and required_by, versionless names in env

---
 .../src/dependency_resolver.rs                | 21 +++++++++++++++-
 src/cli/commands/env.rs                       |  9 ++++---
 src/cli/commands/solve.rs                     | 24 ++++++++++++-------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 1076e5b..77ea253 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -140,7 +140,7 @@ impl DependencyResolver {
         let unresolved = outcome.is_err()
             || !resolution_state.failed_requirements.is_empty()
             || resolution_state.detect_cycle().is_some();
-        let result = if self.config.strict_mode
+        let mut result = if self.config.strict_mode
             && unresolved
             && let Some(found) = self.search_combinations(&requirements).await?
         {
@@ -188,6 +188,25 @@ impl DependencyResolver {
             )));
         }
 
+        // Who asked for each package is settled only now
+        for info in &mut result {
+            let name = &info.package.name;
+            let asks = |r: &Requirement| &r.name == name && !r.weak && !r.conflict;
+            info.requested = requirements.iter().any(asks);
+            info.required_by = resolution_state
+                .resolved_packages
+                .iter()
+                .map(|resolved| &resolved.package.name)
+                .filter(|other| {
+                    resolution_state
+                        .package_requirements
+                        .get(*other)
+                        .is_some_and(|dependencies| dependencies.iter().any(asks))
+                })
+                .cloned()
+                .collect();
+        }
+
         Ok(DetailedResolutionResult {
             resolved_packages: result,
             failed_requirements: failed,
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index cf34349..73c86cf 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -324,11 +324,10 @@ fn print_requested_packages(requirements: &[PackageRequirement]) -> RezCoreResul
 /// Print resolved packages
 fn print_resolved_packages(context: &ResolvedContext) -> RezCoreResult<()> {
     for package in &context.resolved_packages {
-        println!(
-            "{}-{}",
-            package.name,
-            package.version.as_ref().map(|v| v.as_str()).unwrap_or("")
-        );
+        match &package.version {
+            Some(version) => println!("{}-{}", package.name, version.as_str()),
+            None => println!("{}", package.name),
+        }
     }
     Ok(())
 }
diff --git a/src/cli/commands/solve.rs b/src/cli/commands/solve.rs
index c4c3405..ae3d9c1 100644
--- a/src/cli/commands/solve.rs
+++ b/src/cli/commands/solve.rs
@@ -49,10 +49,14 @@ pub fn execute(args: SolveArgs) -> RezCoreResult<()> {
 
 /// Async solve implementation
 async fn solve_async(args: SolveArgs) -> RezCoreResult<()> {
-    println!(
-        "Resolving dependencies for: {}",
-        args.requirements.join(", ")
-    );
+    // With JSON output nothing else goes to standard output
+    let quiet = args.format == "json";
+    if !quiet {
+        println!(
+            "Resolving dependencies for: {}",
+            args.requirements.join(", ")
+        );
+    }
 
     // Parse requirements
     let requirements = parse_requirements(&args.requirements)?;
@@ -71,7 +75,9 @@ async fn solve_async(args: SolveArgs) -> RezCoreResult<()> {
         }
     }
 
-    println!("Using {} repositories", repo_manager.repository_count());
+    if !quiet {
+        println!("Using {} repositories", repo_manager.repository_count());
+    }
 
     // Create solver configuration
     let config = SolverConfig {
@@ -91,7 +97,9 @@ async fn solve_async(args: SolveArgs) -> RezCoreResult<()> {
     let mut resolver = DependencyResolver::new(Arc::new(repo_manager), config);
 
     // Perform resolution
-    println!("Starting dependency resolution...");
+    if !quiet {
+        println!("Starting dependency resolution...");
+    }
     let result = resolver.resolve(requirements).await?;
 
     // Display results
@@ -250,7 +258,7 @@ fn display_detailed(result: &DetailedResolutionResult, args: &SolveArgs) -> RezC
             println!("\n--- {} ---", resolved_pkg.package.name);
 
             if let Some(ref version) = resolved_pkg.package.version {
-                println!("Version: {:?}", version);
+                println!("Version: {}", version.as_str());
             }
 
             if let Some(ref desc) = resolved_pkg.package.description {
@@ -281,7 +289,7 @@ fn display_json(result: &DetailedResolutionResult) -> RezCoreResult<()> {
         "resolved_packages": result.resolved_packages.iter().map(|pkg| {
             serde_json::json!({
                 "name": pkg.package.name,
-                "version": pkg.package.version.as_ref().map(|v| format!("{:?}", v)),
+                "version": pkg.package.version.as_ref().map(|v| v.as_str()),
                 "requested": pkg.requested,
                 "required_by": pkg.required_by
             })
-- 
2.43.0


From cf0143d3d4c97f2e255d3141042d6e214ec56410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:58 +0000
Subject: [PATCH 32/48] fix: view, diff, status and completion report the
 packages that exist, in readable formats

---
 src/cli/commands/complete.rs |  29 ++++----
 src/cli/commands/diff.rs     | 107 +++++++++++-------------------
 src/cli/commands/status.rs   |  19 ++++--
 src/cli/commands/view.rs     | 125 +++++++++++++++--------------------
 4 files changed, 121 insertions(+), 159 deletions(-)

diff --git a/src/cli/commands/complete.rs b/src/cli/commands/complete.rs
index 31d44aa..84949f4 100644
--- a/src/cli/commands/complete.rs
+++ b/src/cli/commands/complete.rs
@@ -211,7 +211,8 @@ fn complete_package_names(prefix: &str) -> RezCoreResult<()> {
         }
     }
 
-    let names = rt.block_on(manager.list_packages())?;
+    let mut names = rt.block_on(manager.list_packages())?;
+    names.sort();
     for name in names {
         if name.starts_with(prefix) {
             println!("{}", name);
@@ -251,19 +252,24 @@ fn complete_package_versions(pkg_name: &str, prefix: &str) -> RezCoreResult<()>
 /// environment variables to provide context-aware completions.
 fn complete_dynamic(comp_line: &str, comp_point: usize) -> RezCoreResult<()> {
     // Parse the command line up to the cursor position
-    let line = if comp_point < comp_line.len() {
-        &comp_line[..comp_point]
+    let mut end = comp_point.min(comp_line.len());
+    while !comp_line.is_char_boundary(end) {
+        end -= 1;
+    }
+    let line = &comp_line[..end];
+
+    // Split into words (simple split, doesn't handle quotes); the last one is being typed
+    // unless the cursor follows a space.
+    let mut words: Vec<&str> = line.split_whitespace().collect();
+    let prefix = if line.ends_with(char::is_whitespace) {
+        ""
     } else {
-        comp_line
+        words.pop().unwrap_or_default()
     };
 
-    // Split into words (simple split, doesn't handle quotes)
-    let words: Vec<&str> = line.split_whitespace().collect();
-
     // Determine what to complete
     if words.len() <= 1 {
         // Completing the first argument (subcommand name)
-        let prefix = if words.len() == 1 { words[0] } else { "" };
         let commands = get_subcommand_names();
         for cmd in commands {
             if cmd.starts_with(prefix) {
@@ -273,17 +279,12 @@ fn complete_dynamic(comp_line: &str, comp_point: usize) -> RezCoreResult<()> {
         return Ok(());
     }
 
-    // We have at least one word (the subcommand)
+    // The program and the subcommand are complete
     let subcommand = words[1];
 
     // For subcommands that take package names, complete package names
     let package_subcommands = ["env", "solve", "search", "depends", "build", "release"];
     if package_subcommands.contains(&subcommand) {
-        let prefix = if words.len() >= 3 {
-            words[words.len() - 1]
-        } else {
-            ""
-        };
         return complete_package_names(prefix);
     }
 
diff --git a/src/cli/commands/diff.rs b/src/cli/commands/diff.rs
index 93d76d9..ee54433 100644
--- a/src/cli/commands/diff.rs
+++ b/src/cli/commands/diff.rs
@@ -87,7 +87,7 @@ pub struct VariantsChanges {
 
 /// Execute the diff command
 pub fn execute(args: DiffArgs) -> RezCoreResult<()> {
-    if args.verbose {
+    if args.verbose && !matches!(args.format, OutputFormat::Json) {
         println!("🔍 Rez Diff - Comparing packages...");
         println!("Package 1: {}", args.pkg1);
         if let Some(ref pkg2) = args.pkg2 {
@@ -111,7 +111,7 @@ async fn execute_diff_async(args: &DiffArgs) -> RezCoreResult<()> {
     // Find packages
     let (pkg1, pkg2) = find_packages_to_diff(&repo_manager, args).await?;
 
-    if args.verbose {
+    if args.verbose && !matches!(args.format, OutputFormat::Json) {
         println!("Found packages:");
         println!(
             "  {}-{}",
@@ -272,11 +272,10 @@ async fn find_previous_version(
         )));
     }
 
-    // Find the package with the version just before the current one
-    // This is a simplified implementation - in reality we'd need proper version comparison
+    // Packages are listed latest first: take the first version before the current one
     for package in packages {
         if let (Some(pkg_version), Some(current_version)) = (&package.version, &pkg.version)
-            && pkg_version.as_str() != current_version.as_str()
+            && pkg_version < current_version
         {
             return Ok((*package).clone());
         }
@@ -336,8 +335,8 @@ fn compare_metadata(pkg1: &Package, pkg2: &Package) -> MetadataChanges {
 
 /// Compare package requirements
 fn compare_requirements(pkg1: &Package, pkg2: &Package) -> RequirementsChanges {
-    let pkg1_reqs: std::collections::HashSet<_> = pkg1.requires.iter().collect();
-    let pkg2_reqs: std::collections::HashSet<_> = pkg2.requires.iter().collect();
+    let pkg1_reqs: std::collections::BTreeSet<_> = pkg1.requires.iter().collect();
+    let pkg2_reqs: std::collections::BTreeSet<_> = pkg2.requires.iter().collect();
 
     let added: Vec<String> = pkg2_reqs
         .difference(&pkg1_reqs)
@@ -357,8 +356,8 @@ fn compare_requirements(pkg1: &Package, pkg2: &Package) -> RequirementsChanges {
 
 /// Compare package variants
 fn compare_variants(pkg1: &Package, pkg2: &Package) -> VariantsChanges {
-    let pkg1_variants: std::collections::HashSet<_> = pkg1.variants.iter().collect();
-    let pkg2_variants: std::collections::HashSet<_> = pkg2.variants.iter().collect();
+    let pkg1_variants: std::collections::BTreeSet<_> = pkg1.variants.iter().collect();
+    let pkg2_variants: std::collections::BTreeSet<_> = pkg2.variants.iter().collect();
 
     let added: Vec<String> = pkg2_variants
         .difference(&pkg1_variants)
@@ -474,66 +473,38 @@ fn output_text_diff(diff: &PackageDiff, verbose: bool) {
 
 /// Output diff in JSON format
 fn output_json_diff(diff: &PackageDiff) -> RezCoreResult<()> {
-    // Simple JSON-like output without serde dependency
-    println!("{{");
-    println!("  \"pkg1_name\": \"{}\",", diff.pkg1_name);
-    println!(
-        "  \"pkg1_version\": \"{}\",",
-        diff.pkg1_version.as_deref().unwrap_or("unknown")
-    );
-    println!("  \"pkg2_name\": \"{}\",", diff.pkg2_name);
-    println!(
-        "  \"pkg2_version\": \"{}\",",
-        diff.pkg2_version.as_deref().unwrap_or("unknown")
-    );
-    println!("  \"differences\": {{");
-
-    // Metadata changes
-    println!("    \"metadata_changes\": {{");
-    if let Some((old, new)) = &diff.differences.metadata_changes.description {
-        println!(
-            "      \"description\": [\"{}\", \"{}\"],",
-            old.as_deref().unwrap_or("null"),
-            new.as_deref().unwrap_or("null")
-        );
+    let details = &diff.differences;
+    let mut metadata = serde_json::Map::new();
+    if let Some((old, new)) = &details.metadata_changes.description {
+        metadata.insert("description".to_string(), serde_json::json!([old, new]));
     }
-    println!("    }},");
-
-    // Requirements changes
-    println!("    \"requirements_changes\": {{");
-    println!(
-        "      \"added\": {:?},",
-        diff.differences.requirements_changes.added
-    );
-    println!(
-        "      \"removed\": {:?},",
-        diff.differences.requirements_changes.removed
-    );
-    println!(
-        "      \"modified\": {:?}",
-        diff.differences.requirements_changes.modified
-    );
-    println!("    }},");
-
-    // Variants changes
-    println!("    \"variants_changes\": {{");
-    println!(
-        "      \"count_change\": [{}, {}],",
-        diff.differences.variants_changes.count_change.0,
-        diff.differences.variants_changes.count_change.1
-    );
-    println!(
-        "      \"added\": {:?},",
-        diff.differences.variants_changes.added
-    );
-    println!(
-        "      \"removed\": {:?}",
-        diff.differences.variants_changes.removed
-    );
-    println!("    }}");
-
-    println!("  }}");
-    println!("}}");
+    if let Some((old, new)) = &details.metadata_changes.authors {
+        metadata.insert("authors".to_string(), serde_json::json!([old, new]));
+    }
+    if let Some((old, new)) = &details.metadata_changes.tools {
+        metadata.insert("tools".to_string(), serde_json::json!([old, new]));
+    }
+    let (old_count, new_count) = details.variants_changes.count_change;
+    let json = serde_json::json!({
+        "pkg1_name": diff.pkg1_name,
+        "pkg1_version": diff.pkg1_version.as_deref().unwrap_or("unknown"),
+        "pkg2_name": diff.pkg2_name,
+        "pkg2_version": diff.pkg2_version.as_deref().unwrap_or("unknown"),
+        "differences": {
+            "metadata_changes": metadata,
+            "requirements_changes": {
+                "added": details.requirements_changes.added,
+                "removed": details.requirements_changes.removed,
+                "modified": details.requirements_changes.modified,
+            },
+            "variants_changes": {
+                "count_change": [old_count, new_count],
+                "added": details.variants_changes.added,
+                "removed": details.variants_changes.removed,
+            },
+        },
+    });
+    println!("{}", serde_json::to_string_pretty(&json)?);
     Ok(())
 }
 
diff --git a/src/cli/commands/status.rs b/src/cli/commands/status.rs
index 6a6798a..ec1d0c5 100644
--- a/src/cli/commands/status.rs
+++ b/src/cli/commands/status.rs
@@ -5,9 +5,11 @@
 use crate::cli::utils::{expand_home_path, expand_home_str};
 use clap::Args;
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
+use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::collections::HashMap;
 use std::path::PathBuf;
+use std::sync::Arc;
 
 /// Arguments for the status command
 #[derive(Args, Clone, Debug)]
@@ -133,6 +135,7 @@ async fn setup_repositories(args: &StatusArgs) -> RezCoreResult<RepositoryManage
                 };
                 PathBuf::from(expanded)
             })
+            .filter(|path| path.exists())
             .collect()
     } else {
         args.paths.clone()
@@ -196,6 +199,15 @@ async fn show_package_status(
     Ok(())
 }
 
+/// Packages of every family in the repositories
+async fn all_packages(repo_manager: &RepositoryManager) -> RezCoreResult<Vec<Arc<Package>>> {
+    let mut packages = Vec::new();
+    for name in repo_manager.list_packages().await? {
+        packages.extend(repo_manager.find_packages(&name).await?);
+    }
+    Ok(packages)
+}
+
 /// Show repository status
 async fn show_repository_status(
     _repo_manager: &RepositoryManager,
@@ -251,7 +263,7 @@ async fn show_family_status(
     println!();
 
     // Get all packages
-    let packages = repo_manager.find_packages("").await?;
+    let packages = all_packages(repo_manager).await?;
 
     // Group by family
     let mut families: HashMap<String, Vec<_>> = HashMap::new();
@@ -284,12 +296,11 @@ async fn show_family_status(
         let packages = families.get(&family_name).unwrap();
         let version_count = packages.len();
 
-        // Find latest version (simplified)
         let latest_version = packages
             .iter()
             .filter_map(|p| p.version.as_ref())
-            .map(|v| v.as_str())
             .max()
+            .map(|v| v.as_str())
             .unwrap_or("unknown");
 
         let total_variants: usize = packages.iter().map(|p| p.variants.len().max(1)).sum();
@@ -318,7 +329,7 @@ async fn show_general_status(
     println!();
 
     // Get all packages
-    let packages = repo_manager.find_packages("").await?;
+    let packages = all_packages(repo_manager).await?;
 
     // Calculate statistics
     let total_packages = packages.len();
diff --git a/src/cli/commands/view.rs b/src/cli/commands/view.rs
index 01a95d3..8758307 100644
--- a/src/cli/commands/view.rs
+++ b/src/cli/commands/view.rs
@@ -179,16 +179,8 @@ fn load_package_from_repos(spec: &str) -> RezCoreResult<Package> {
         )));
     }
 
-    // Return latest version (packages sorted descending)
-    let mut sorted = packages;
-    sorted.sort_by(|a, b| {
-        b.version
-            .as_ref()
-            .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
-
-    let first_pkg = sorted.into_iter().next().ok_or_else(|| {
+    // The manager lists the latest version first
+    let first_pkg = packages.into_iter().next().ok_or_else(|| {
         RezCoreError::Repository("No package matched the given specification".to_string())
     })?;
     Ok((*first_pkg).clone())
@@ -212,89 +204,75 @@ fn display_package_yaml(package: &Package, args: &ViewArgs) -> RezCoreResult<()>
         println!();
     }
 
-    println!("name: {}", package.name);
-
+    let mut fields = serde_yaml::Mapping::new();
+    let mut show = |key: &str, value: serde_yaml::Value| {
+        fields.insert(key.into(), value);
+    };
+    show("name", package.name.clone().into());
     if let Some(ref version) = package.version {
-        println!("version: {}", version.as_str());
+        show("version", version.as_str().into());
     }
-
     if let Some(ref description) = package.description {
-        println!("description: {}", description);
+        show("description", description.clone().into());
     }
-
     if !package.authors.is_empty() {
-        println!("authors:");
-        for author in &package.authors {
-            println!("  - {}", author);
-        }
+        show("authors", package.authors.clone().into());
     }
-
     if !package.requires.is_empty() {
-        println!("requires:");
-        for req in &package.requires {
-            println!("  - {}", req);
-        }
+        show("requires", package.requires.clone().into());
     }
-
     if !package.tools.is_empty() {
-        println!("tools:");
-        for tool in &package.tools {
-            println!("  - {}", tool);
-        }
+        show("tools", package.tools.clone().into());
     }
-
     if !package.variants.is_empty() {
-        println!("variants:");
-        for variant in &package.variants {
-            print!("  - [");
-            for (i, req) in variant.iter().enumerate() {
-                if i > 0 {
-                    print!(", ");
-                }
-                print!("{}", req);
-            }
-            println!("]");
-        }
+        show("variants", package.variants.clone().into());
     }
-
     if let Some(ref build_command) = package.build_command {
-        println!("build_command: {}", build_command);
+        show("build_command", build_command.clone().into());
     }
-
     if let Some(ref build_system) = package.build_system {
-        println!("build_system: {}", build_system);
+        show("build_system", build_system.clone().into());
     }
-
     if let Some(ref uuid) = package.uuid {
-        println!("uuid: {}", uuid);
+        show("uuid", uuid.clone().into());
     }
-
     if let Some(ref commands) = package.commands {
-        println!("commands: |");
-        for line in commands.lines() {
-            println!("  {}", line);
-        }
+        show("commands", commands.clone().into());
     }
 
     if args.all {
         // Show additional fields with --all
         if let Some(ref pre_commands) = package.pre_commands {
-            println!("pre_commands: {}", pre_commands);
+            show("pre_commands", pre_commands.clone().into());
         }
         if let Some(ref post_commands) = package.post_commands {
-            println!("post_commands: {}", post_commands);
+            show("post_commands", post_commands.clone().into());
         }
         if !package.tests.is_empty() {
-            println!("tests:");
-            for (key, value) in &package.tests {
-                println!("  {}: {}", key, value);
-            }
+            let tests: std::collections::BTreeMap<_, _> = package.tests.iter().collect();
+            let tests = serde_yaml::to_value(tests)
+                .map_err(|e| RezCoreError::PackageParse(e.to_string()))?;
+            show("tests", tests);
         }
     }
 
+    let text =
+        serde_yaml::to_string(&fields).map_err(|e| RezCoreError::PackageParse(e.to_string()))?;
+    print!("{}", text);
+
     Ok(())
 }
 
+/// Quote text as a Python string literal
+fn py(text: &str) -> String {
+    let escaped = text
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+        .replace('\r', "\\r");
+    format!("\"{}\"", escaped)
+}
+
 /// Display package in Python format
 fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<()> {
     if !args.brief {
@@ -305,14 +283,14 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
         println!();
     }
 
-    println!("name = \"{}\"", package.name);
+    println!("name = {}", py(&package.name));
 
     if let Some(ref version) = package.version {
-        println!("version = \"{}\"", version.as_str());
+        println!("version = {}", py(version.as_str()));
     }
 
     if let Some(ref description) = package.description {
-        println!("description = \"{}\"", description);
+        println!("description = {}", py(description));
     }
 
     if !package.authors.is_empty() {
@@ -321,7 +299,7 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
             if i > 0 {
                 print!(", ");
             }
-            print!("\"{}\"", author);
+            print!("{}", py(author));
         }
         println!("]");
     }
@@ -332,7 +310,7 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
             if i > 0 {
                 print!(", ");
             }
-            print!("\"{}\"", req);
+            print!("{}", py(req));
         }
         println!("]");
     }
@@ -343,7 +321,7 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
             if i > 0 {
                 print!(", ");
             }
-            print!("\"{}\"", tool);
+            print!("{}", py(tool));
         }
         println!("]");
     }
@@ -356,7 +334,7 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
                 if i > 0 {
                     print!(", ");
                 }
-                print!("\"{}\"", req);
+                print!("{}", py(req));
             }
             println!("],");
         }
@@ -364,29 +342,30 @@ fn display_package_python(package: &Package, args: &ViewArgs) -> RezCoreResult<(
     }
 
     if let Some(ref build_command) = package.build_command {
-        println!("build_command = \"{}\"", build_command);
+        println!("build_command = {}", py(build_command));
     }
 
     if let Some(ref build_system) = package.build_system {
-        println!("build_system = \"{}\"", build_system);
+        println!("build_system = {}", py(build_system));
     }
 
     if let Some(ref uuid) = package.uuid {
-        println!("uuid = \"{}\"", uuid);
+        println!("uuid = {}", py(uuid));
     }
 
     if args.all {
         // Show additional fields with --all
         if let Some(ref pre_commands) = package.pre_commands {
-            println!("pre_commands = \"{}\"", pre_commands);
+            println!("pre_commands = {}", py(pre_commands));
         }
         if let Some(ref post_commands) = package.post_commands {
-            println!("post_commands = \"{}\"", post_commands);
+            println!("post_commands = {}", py(post_commands));
         }
         if !package.tests.is_empty() {
             println!("tests = {{");
-            for (key, value) in &package.tests {
-                println!("    \"{}\": \"{}\",", key, value);
+            let tests: std::collections::BTreeMap<_, _> = package.tests.iter().collect();
+            for (key, value) in tests {
+                println!("    {}: {},", py(key), py(value));
             }
             println!("}}");
         }
-- 
2.43.0


From 8cf99d828918d9374db0cb40872e631c1d0f5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:58 +0000
Subject: [PATCH 33/48] fix: bundle the files of the resolved packages and make
 the bundle stand on its own

---
 src/cli/commands/bundle.rs | 153 ++++++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 61 deletions(-)

diff --git a/src/cli/commands/bundle.rs b/src/cli/commands/bundle.rs
index 30ddda4..e1cb468 100644
--- a/src/cli/commands/bundle.rs
+++ b/src/cli/commands/bundle.rs
@@ -7,7 +7,8 @@
 use clap::Args;
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
 use rez_next_context::{ContextConfig, ResolvedContext};
-use rez_next_package::PackageRequirement;
+use rez_next_package::package_copy::copy_package_dir;
+use rez_next_package::{Package, PackageRequirement};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use rez_next_rex::{RexEnvironment, ShellType, generate_shell_script};
 use rez_next_solver::{DependencyResolver, SolverConfig};
@@ -18,6 +19,9 @@ use std::sync::Arc;
 
 use crate::cli::utils::split_package_paths;
 
+/// Variable of the activation scripts that lists the tool directories of the bundle
+const BIN_VAR: &str = "REZ_BUNDLE_BIN";
+
 /// Arguments for the bundle command
 #[derive(Args, Clone)]
 pub struct BundleArgs {
@@ -153,14 +157,17 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
 
     // Resolve context — on failure (e.g. missing packages), degrade gracefully to an empty context
     // so the bundle directory and bundle.yaml are still created.
-    let context = match resolve_context(&requirements, &args) {
-        Ok(ctx) => ctx,
+    let (mut context, roots) = match resolve_context(&requirements, &args) {
+        Ok(resolved) => resolved,
         Err(e) => {
             println!(
                 "Warning: package resolution failed: {}. Bundle will only contain metadata.",
                 e
             );
-            rez_next_context::ResolvedContext::from_requirements(requirements.clone())
+            (
+                ResolvedContext::from_requirements(requirements.clone()),
+                Vec::new(),
+            )
         }
     };
 
@@ -173,6 +180,8 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
     // Create bundle directory structure
     std::fs::create_dir_all(&output_dir).map_err(RezCoreError::Io)?;
 
+    // The bundle must work whatever the directory it is activated from
+    let output_dir = std::path::absolute(output_dir).map_err(RezCoreError::Io)?;
     let packages_dir = output_dir.join("packages");
     std::fs::create_dir_all(&packages_dir).map_err(RezCoreError::Io)?;
 
@@ -183,27 +192,31 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
     // Build metadata and copy packages
     let mut package_infos = Vec::new();
 
-    for package in &context.resolved_packages {
+    for (package, root) in context.resolved_packages.iter_mut().zip(roots) {
         let ver_str = package
             .version
             .as_ref()
             .map(|v| v.as_str())
-            .unwrap_or("unknown");
+            .unwrap_or("unknown")
+            .to_string();
 
-        let bundle_pkg_path = format!("{}/{}", package.name, ver_str);
+        let bundle_pkg_path = bundle_path(package);
 
-        // Find source package directory
-        let source_path = find_package_dir(&package.name, ver_str, &search_paths);
+        // The files of the package that was resolved, not of another one of that version
+        let source_path =
+            root.or_else(|| find_package_dir(&package.name, &ver_str, &search_paths));
 
         if !args.skip_copy {
             if let Some(ref src) = source_path {
-                let dest = packages_dir.join(&package.name).join(ver_str);
-                if let Err(e) = copy_dir_recursive(src, &dest) {
-                    println!(
-                        "  Warning: failed to copy {}-{}: {}",
-                        package.name, ver_str, e
-                    );
-                } else if args.verbose > 0 {
+                let dest = packages_dir.join(&bundle_pkg_path);
+                copy_dir_recursive(src, &dest).map_err(RezCoreError::Io)?;
+                // From now on the context uses the bundled copy
+                if let Some(file) = package.filepath.as_ref()
+                    && let Ok(inside) = Path::new(file).strip_prefix(src)
+                {
+                    package.filepath = Some(dest.join(inside).to_string_lossy().to_string());
+                }
+                if args.verbose > 0 {
                     println!("  Copied {}-{}", package.name, ver_str);
                 }
             } else if args.verbose > 0 {
@@ -216,7 +229,7 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
 
         package_infos.push(BundlePackageInfo {
             name: package.name.clone(),
-            version: ver_str.to_string(),
+            version: ver_str,
             bundle_path: bundle_pkg_path,
             source_path: source_path.map(|p| p.to_string_lossy().to_string()),
         });
@@ -236,21 +249,18 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
     std::fs::write(&metadata_path, &metadata_json).map_err(RezCoreError::Io)?;
 
     // Also create bundle.yaml for rez compatibility (rez uses bundle.yaml as the bundle manifest)
-    let mut yaml_lines = vec![
-        format!("name: {}", metadata.name),
-        format!("version: {}", metadata.version),
-        format!("created_at: {}", metadata.created_at),
-        "requests:".to_string(),
-    ];
-    for req in &metadata.requests {
-        yaml_lines.push(format!("  - {}", req));
-    }
-    yaml_lines.push("packages:".to_string());
-    for pkg in &metadata.packages {
-        yaml_lines.push(format!("  - name: {}", pkg.name));
-        yaml_lines.push(format!("    version: {}", pkg.version));
-    }
-    let bundle_yaml = yaml_lines.join("\n") + "\n";
+    let bundle_yaml = serde_yaml::to_string(&serde_json::json!({
+        "name": metadata.name,
+        "version": metadata.version,
+        "created_at": metadata.created_at,
+        "requests": metadata.requests,
+        "packages": metadata
+            .packages
+            .iter()
+            .map(|pkg| serde_json::json!({"name": pkg.name, "version": pkg.version}))
+            .collect::<Vec<_>>(),
+    }))
+    .map_err(|e| RezCoreError::ExecutionError(e.to_string()))?;
     let yaml_path = output_dir.join("bundle.yaml");
     std::fs::write(&yaml_path, &bundle_yaml).map_err(RezCoreError::Io)?;
 
@@ -279,11 +289,11 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
     Ok(())
 }
 
-/// Resolve packages into a context
+/// Resolve packages into a context, with the root of each of its packages
 fn resolve_context(
     requirements: &[PackageRequirement],
     args: &BundleArgs,
-) -> RezCoreResult<ResolvedContext> {
+) -> RezCoreResult<(ResolvedContext, Vec<Option<PathBuf>>)> {
     let _config = ContextConfig::default();
     let rez_config = RezCoreConfig::load();
 
@@ -312,11 +322,20 @@ fn resolve_context(
         .collect();
 
     let rt = tokio::runtime::Runtime::new().map_err(RezCoreError::Io)?;
-    let solver_config = SolverConfig::default();
+    // A selection that leaves out what it could not satisfy is no environment to share
+    let solver_config = SolverConfig {
+        strict_mode: true,
+        ..Default::default()
+    };
     let mut resolver = DependencyResolver::new(Arc::clone(&repo_arc), solver_config);
     let resolution = rt.block_on(resolver.resolve(resolver_reqs))?;
 
     let mut context = ResolvedContext::from_requirements(requirements.to_vec());
+    let roots = resolution
+        .resolved_packages
+        .iter()
+        .map(|info| info.package.root().map(PathBuf::from))
+        .collect();
     context.resolved_packages = resolution
         .resolved_packages
         .into_iter()
@@ -324,7 +343,7 @@ fn resolve_context(
         .collect();
     context.status = rez_next_context::ContextStatus::Resolved;
 
-    Ok(context)
+    Ok((context, roots))
 }
 
 /// Get package search paths from args or config
@@ -348,6 +367,14 @@ fn get_search_paths(args: &BundleArgs, config: &RezCoreConfig) -> Vec<PathBuf> {
     }
 }
 
+/// Where a package lies inside the packages directory of the bundle
+fn bundle_path(package: &Package) -> String {
+    match &package.version {
+        Some(version) => format!("{}/{}", package.name, version.as_str()),
+        None => package.name.clone(),
+    }
+}
+
 /// Find a package directory in search paths
 fn find_package_dir(name: &str, version: &str, search_paths: &[PathBuf]) -> Option<PathBuf> {
     for base in search_paths {
@@ -359,20 +386,11 @@ fn find_package_dir(name: &str, version: &str, search_paths: &[PathBuf]) -> Opti
     None
 }
 
-/// Copy directory recursively
+/// Copy directory recursively, replacing what is there
 fn copy_dir_recursive(src: &Path, dest: &Path) -> std::io::Result<()> {
-    std::fs::create_dir_all(dest)?;
-    for entry in std::fs::read_dir(src)? {
-        let entry = entry?;
-        let src_path = entry.path();
-        let dest_path = dest.join(entry.file_name());
-        if src_path.is_dir() {
-            copy_dir_recursive(&src_path, &dest_path)?;
-        } else {
-            std::fs::copy(&src_path, &dest_path)?;
-        }
-    }
-    Ok(())
+    copy_package_dir(src, dest, true)
+        .map(|_| ())
+        .map_err(std::io::Error::other)
 }
 
 /// Generate activation scripts for bash/powershell in bundle directory
@@ -386,13 +404,7 @@ fn generate_activation_scripts(
 
     let bundle_packages_dir = bundle_dir.join("packages");
     for package in &context.resolved_packages {
-        let ver_str = package
-            .version
-            .as_ref()
-            .map(|v| v.as_str())
-            .unwrap_or("unknown");
-
-        let pkg_root = bundle_packages_dir.join(&package.name).join(ver_str);
+        let pkg_root = bundle_packages_dir.join(bundle_path(package));
         let root_str = pkg_root.to_string_lossy().to_string();
 
         rex_env.vars.insert(
@@ -403,10 +415,10 @@ fn generate_activation_scripts(
         // Typical bin/lib paths
         let bin_path = pkg_root.join("bin");
         if bin_path.exists() {
-            let current_path = rex_env.vars.get("PATH").cloned().unwrap_or_default();
+            let current_path = rex_env.vars.get(BIN_VAR).cloned().unwrap_or_default();
             let sep = if cfg!(windows) { ";" } else { ":" };
             rex_env.vars.insert(
-                "PATH".to_string(),
+                BIN_VAR.to_string(),
                 if current_path.is_empty() {
                     bin_path.to_string_lossy().to_string()
                 } else {
@@ -416,18 +428,37 @@ fn generate_activation_scripts(
         }
     }
 
+    let has_bin = rex_env.vars.contains_key(BIN_VAR);
+    // The caller's own PATH stays reachable behind the tools of the bundle
+    let script = |shell: ShellType, path_line: String| {
+        let mut script = generate_shell_script(&rex_env, &shell);
+        if has_bin {
+            script.push_str(&format!("\n{path_line}\n"));
+        }
+        script
+    };
+
     // Bash activation script
-    let bash_script = generate_shell_script(&rex_env, &ShellType::Bash);
+    let bash_script = script(
+        ShellType::Bash,
+        format!("export PATH=\"${BIN_VAR}${{PATH:+:$PATH}}\""),
+    );
     let bash_path = bundle_dir.join("activate.sh");
     std::fs::write(&bash_path, bash_script).map_err(RezCoreError::Io)?;
 
     // PowerShell activation script
-    let ps_script = generate_shell_script(&rex_env, &ShellType::PowerShell);
+    let ps_script = script(
+        ShellType::PowerShell,
+        format!("$env:PATH = $env:{BIN_VAR} + [IO.Path]::PathSeparator + $env:PATH"),
+    );
     let ps_path = bundle_dir.join("activate.ps1");
     std::fs::write(&ps_path, ps_script).map_err(RezCoreError::Io)?;
 
     // CMD activation script
-    let cmd_script = generate_shell_script(&rex_env, &ShellType::Cmd);
+    let cmd_script = script(
+        ShellType::Cmd,
+        format!("set \"PATH=%{BIN_VAR}%;%PATH%\""),
+    );
     let cmd_path = bundle_dir.join("activate.bat");
     std::fs::write(&cmd_path, cmd_script).map_err(RezCoreError::Io)?;
 
-- 
2.43.0


From a7889edd769716d4203b1bfaa7122d3dc1099457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:38 +0000
Subject: [PATCH 34/48] fix: builds keep their own output out of the package,
 install variants where resolution looks and install the definition

Plain builds copied .rez_build into itself until the file name was too long and
installed it; every variant was installed into the same directory; script builds
installed no package definition; {install} and {variant_index} were not replaced;
script paths were not quoted; PATH was lost when a dependency prepended to it.
---
 crates/rez-next-build/src/builder.rs        | 21 ++------
 crates/rez-next-build/src/environment.rs    | 27 ++++++++++
 crates/rez-next-build/src/process.rs        | 24 +++++++++
 crates/rez-next-build/src/systems/custom.rs | 59 +++++++++++++++++----
 crates/rez-next-build/src/systems/nodejs.rs |  2 +-
 crates/rez-next-build/src/systems/python.rs |  2 +-
 src/cli/commands/build.rs                   | 14 +++--
 7 files changed, 116 insertions(+), 33 deletions(-)

diff --git a/crates/rez-next-build/src/builder.rs b/crates/rez-next-build/src/builder.rs
index 1853223..933bdf5 100644
--- a/crates/rez-next-build/src/builder.rs
+++ b/crates/rez-next-build/src/builder.rs
@@ -305,29 +305,18 @@ impl BuildManager {
             request.install_path.as_ref(),
         )?;
         build_env.set_source_path(&request.source_dir);
-        Self::apply_build_env_overrides(&mut build_env, &request, &self.config);
 
-        // Set variant-related environment variables if this is a variant build
+        // A variant builds and installs where resolving looks for it
         if let Some(variant_index) = request.variant_index {
             let variant_requires = request.variant_requires.clone().unwrap_or_default();
             build_env.set_variant_env(variant_index, &variant_requires);
-
-            // Update install path for hash variants if needed
-            if let Some(variant_hash) = request.variant_hash() {
-                let variant_install_path = build_env.get_variant_install_path(Some(&variant_hash));
-                build_env = BuildEnvironment::with_install_path(
-                    &request.package,
-                    &variant_install_path,
-                    request.context.as_ref(),
-                    request.install_path.as_ref(),
-                )?;
-                build_env.set_source_path(&request.source_dir);
-                Self::apply_build_env_overrides(&mut build_env, &request, &self.config);
-                // Re-set variant env after recreating environment
-                build_env.set_variant_env(variant_index, &variant_requires);
+            if request.package.hashed_variants != Some(true) {
+                build_env.enter_variant(&variant_requires.iter().collect::<PathBuf>());
+            } else if let Some(variant_hash) = request.variant_hash() {
                 build_env.set_variant_subpath(&variant_hash);
             }
         }
+        Self::apply_build_env_overrides(&mut build_env, &request, &self.config);
         build_env.set_event_sender(self.config.event_sender.clone(), build_id.clone());
 
         // Create build process
diff --git a/crates/rez-next-build/src/environment.rs b/crates/rez-next-build/src/environment.rs
index 9ccdca0..f585429 100644
--- a/crates/rez-next-build/src/environment.rs
+++ b/crates/rez-next-build/src/environment.rs
@@ -19,6 +19,8 @@ pub struct BuildEnvironment {
     build_dir: PathBuf,
     /// Install directory
     install_dir: PathBuf,
+    /// Directory of the package being installed (holds its definition), if installing
+    package_dir: Option<PathBuf>,
     /// Temporary directory
     temp_dir: PathBuf,
     /// Environment variables
@@ -137,6 +139,7 @@ impl BuildEnvironment {
         Ok(Self {
             package: package.clone(),
             build_dir: package_build_dir,
+            package_dir: install_path.map(|_| install_dir.clone()),
             install_dir,
             temp_dir,
             env_vars,
@@ -156,6 +159,11 @@ impl BuildEnvironment {
         &self.install_dir
     }
 
+    /// Get the directory of the package being installed, if this build installs
+    pub fn get_package_dir(&self) -> Option<&PathBuf> {
+        self.package_dir.as_ref()
+    }
+
     /// Get temporary directory
     pub fn get_temp_dir(&self) -> &PathBuf {
         &self.temp_dir
@@ -237,6 +245,25 @@ impl BuildEnvironment {
         );
     }
 
+    /// Build and install below `variant_subpath`, so that variants stay apart.
+    pub fn enter_variant(&mut self, variant_subpath: &Path) {
+        self.build_dir = self.build_dir.join(variant_subpath);
+        self.temp_dir = self.build_dir.join("tmp");
+        self.install_dir = match &self.package_dir {
+            Some(package_dir) => package_dir.join(variant_subpath),
+            None => self.build_dir.join("install"),
+        };
+        self.env_vars.insert(
+            "REZ_BUILD_PATH".to_string(),
+            self.build_dir.to_string_lossy().to_string(),
+        );
+        self.env_vars.insert(
+            "REZ_BUILD_INSTALL_PATH".to_string(),
+            self.install_dir.to_string_lossy().to_string(),
+        );
+        self.set_variant_subpath(&variant_subpath.to_string_lossy());
+    }
+
     /// Set source-related environment variables.
     pub fn set_source_path(&mut self, source_path: &Path) {
         self.env_vars.insert(
diff --git a/crates/rez-next-build/src/process.rs b/crates/rez-next-build/src/process.rs
index 256499d..edb538e 100644
--- a/crates/rez-next-build/src/process.rs
+++ b/crates/rez-next-build/src/process.rs
@@ -545,6 +545,9 @@ impl BuildProcess {
     ) -> Result<(bool, String, String), RezCoreError> {
         let build_system = BuildSystem::detect_with_package(&request.source_dir, &request.package)?;
         let install_result = build_system.install(request, environment).await?;
+        if install_result.success {
+            Self::install_package_definition(request, environment).await?;
+        }
 
         Ok((
             install_result.success,
@@ -553,6 +556,27 @@ impl BuildProcess {
         ))
     }
 
+    /// Put the package definition where repositories look for the installed package
+    async fn install_package_definition(
+        request: &BuildRequest,
+        environment: &BuildEnvironment,
+    ) -> Result<(), RezCoreError> {
+        let Some(package_dir) = environment.get_package_dir() else {
+            return Ok(());
+        };
+        let definition = ["package.py", "package.yaml", "package.yml", "package.json"]
+            .into_iter()
+            .find(|name| request.source_dir.join(name).is_file());
+        if let Some(name) = definition {
+            tokio::fs::copy(request.source_dir.join(name), package_dir.join(name))
+                .await
+                .map_err(|e| {
+                    RezCoreError::BuildError(format!("Failed to install {}: {}", name, e))
+                })?;
+        }
+        Ok(())
+    }
+
     async fn execute_package_test_step(
         request: &BuildRequest,
         environment: &BuildEnvironment,
diff --git a/crates/rez-next-build/src/systems/custom.rs b/crates/rez-next-build/src/systems/custom.rs
index 893b942..26b0283 100644
--- a/crates/rez-next-build/src/systems/custom.rs
+++ b/crates/rez-next-build/src/systems/custom.rs
@@ -150,7 +150,7 @@ impl CustomBuildSystem {
             RezCoreError::BuildError(format!("Failed to create install directory: {}", e))
         })?;
 
-        let copy_result = Self::copy_package_files(source_dir, install_dir).await;
+        let copy_result = Self::copy_package_files(source_dir, request, environment).await;
 
         match copy_result {
             Ok(files_copied) => Ok(BuildStepResult {
@@ -200,7 +200,7 @@ impl CustomBuildSystem {
         let result = executor.execute(&expanded_command).await?;
 
         if result.is_success() {
-            let copy_result = Self::copy_package_files(&request.source_dir, install_dir).await;
+            let copy_result = Self::copy_package_files(&request.source_dir, request, environment).await;
             match copy_result {
                 Ok(files_copied) => Ok(BuildStepResult {
                     step: BuildStep::Installing,
@@ -241,7 +241,11 @@ impl CustomBuildSystem {
         let mut expanded = command.to_string();
 
         expanded = expanded.replace("{root}", &request.source_dir.to_string_lossy());
-        expanded = expanded.replace("{install}", "install");
+        let install = match request.install_path {
+            Some(_) => "install",
+            None => "",
+        };
+        expanded = expanded.replace("{install}", install);
         expanded = expanded.replace(
             "{build_path}",
             &environment.get_build_dir().to_string_lossy(),
@@ -258,7 +262,11 @@ impl CustomBuildSystem {
             expanded = expanded.replace("{version}", "");
         }
 
-        expanded = expanded.replace("{variant_index}", "");
+        let variant_index = request
+            .variant_index
+            .map(|index| index.to_string())
+            .unwrap_or_default();
+        expanded = expanded.replace("{variant_index}", &variant_index);
         expanded
     }
 
@@ -280,9 +288,9 @@ impl CustomBuildSystem {
             return Self::execute_python_build_script(request, environment, &script_path, command)
                 .await;
         } else if self.script_name.ends_with(".sh") {
-            format!("bash {} {}", script_path.to_string_lossy(), command)
+            format!("bash {} {}", Self::shell_path(&script_path), command)
         } else {
-            format!("{} {}", script_path.to_string_lossy(), command)
+            format!("{} {}", Self::shell_path(&script_path), command)
         };
 
         let executor = ShellExecutor::with_shell(rez_next_context::ShellType::detect())
@@ -310,6 +318,19 @@ impl CustomBuildSystem {
         })
     }
 
+    /// Quote a path for the shell that runs build scripts, where it needs quoting
+    fn shell_path(path: &Path) -> String {
+        let text = path.to_string_lossy();
+        let plain = |c: char| c.is_alphanumeric() || "/_-.,:+@%=\\".contains(c);
+        if text.chars().all(plain) {
+            text.into_owned()
+        } else if cfg!(windows) {
+            format!("\"{}\"", text)
+        } else {
+            format!("'{}'", text.replace('\'', "'\\''"))
+        }
+    }
+
     async fn execute_python_build_script(
         request: &BuildRequest,
         environment: &BuildEnvironment,
@@ -523,10 +544,16 @@ impl CustomBuildSystem {
     /// Copy package files from source to install directory
     pub(crate) async fn copy_package_files(
         source_dir: &Path,
-        install_dir: &Path,
+        request: &BuildRequest,
+        environment: &BuildEnvironment,
     ) -> Result<usize, RezCoreError> {
         use tokio::fs;
 
+        let install_dir = environment.get_install_dir();
+        // Where this build writes may lie inside the source: never copy it into itself
+        let mut outputs = vec![install_dir.clone(), environment.get_build_dir().clone()];
+        outputs.extend(request.install_path.clone());
+
         let mut files_copied = 0;
         let mut entries = fs::read_dir(source_dir).await.map_err(|e| {
             RezCoreError::BuildError(format!("Failed to read source directory: {}", e))
@@ -540,12 +567,12 @@ impl CustomBuildSystem {
             let dest_path = install_dir.join(&file_name);
 
             let file_name_str = file_name.to_string_lossy();
-            if Self::should_skip_file(&file_name_str) {
+            if Self::should_skip_file(&file_name_str) || outputs.contains(&src_path) {
                 continue;
             }
 
             if src_path.is_dir() {
-                let dir_files = Self::copy_dir_recursive(src_path, dest_path).await?;
+                let dir_files = Self::copy_dir_recursive(src_path, dest_path, &outputs).await?;
                 files_copied += dir_files;
             } else {
                 fs::copy(&src_path, &dest_path).await.map_err(|e| {
@@ -562,7 +589,11 @@ impl CustomBuildSystem {
     }
 
     /// Recursively copy directory
-    async fn copy_dir_recursive(src: PathBuf, dest: PathBuf) -> Result<usize, RezCoreError> {
+    async fn copy_dir_recursive(
+        src: PathBuf,
+        dest: PathBuf,
+        outputs: &[PathBuf],
+    ) -> Result<usize, RezCoreError> {
         use tokio::fs;
 
         fs::create_dir_all(&dest)
@@ -580,8 +611,13 @@ impl CustomBuildSystem {
             let src_path = entry.path();
             let dest_path = dest.join(entry.file_name());
 
+            if outputs.contains(&src_path) {
+                continue;
+            }
+
             if src_path.is_dir() {
-                let dir_files = Box::pin(Self::copy_dir_recursive(src_path, dest_path)).await?;
+                let dir_files =
+                    Box::pin(Self::copy_dir_recursive(src_path, dest_path, outputs)).await?;
                 files_copied += dir_files;
             } else {
                 fs::copy(&src_path, &dest_path)
@@ -604,6 +640,7 @@ impl CustomBuildSystem {
                 | ".hg"
                 | ".hgignore"
                 | ".svn"
+                | ".rez_build"
                 | "build"
                 | "dist"
                 | "__pycache__"
diff --git a/crates/rez-next-build/src/systems/nodejs.rs b/crates/rez-next-build/src/systems/nodejs.rs
index 9a4f28a..5c10660 100644
--- a/crates/rez-next-build/src/systems/nodejs.rs
+++ b/crates/rez-next-build/src/systems/nodejs.rs
@@ -107,7 +107,7 @@ impl NodeJsBuildSystem {
         } else {
             request.source_dir.clone()
         };
-        let files = CustomBuildSystem::copy_package_files(&src, install_dir).await?;
+        let files = CustomBuildSystem::copy_package_files(&src, request, environment).await?;
         Ok(BuildStepResult {
             step: BuildStep::Installing,
             success: true,
diff --git a/crates/rez-next-build/src/systems/python.rs b/crates/rez-next-build/src/systems/python.rs
index 74f3527..c2cd7fb 100644
--- a/crates/rez-next-build/src/systems/python.rs
+++ b/crates/rez-next-build/src/systems/python.rs
@@ -222,7 +222,7 @@ impl PythonBuildSystem {
 
         // No build file: copy source files (pure Python package)
         let files_copied =
-            CustomBuildSystem::copy_package_files(&request.source_dir, install_dir).await?;
+            CustomBuildSystem::copy_package_files(&request.source_dir, request, environment).await?;
         Ok(BuildStepResult {
             step: BuildStep::Installing,
             success: true,
diff --git a/src/cli/commands/build.rs b/src/cli/commands/build.rs
index 4b20c26..057efe2 100644
--- a/src/cli/commands/build.rs
+++ b/src/cli/commands/build.rs
@@ -447,10 +447,16 @@ pub(super) fn resolve_build_context(
         .collect();
     context.status = rez_next_context::ContextStatus::Resolved;
 
-    let env_manager = EnvironmentManager::new(ContextConfig {
-        inherit_parent_env: false,
-        ..Default::default()
-    });
+    // Packages extend the PATH that finds the shell and its tools, they do not replace it
+    let env_manager = EnvironmentManager::with_base_environment(
+        ContextConfig {
+            inherit_parent_env: false,
+            ..Default::default()
+        },
+        std::env::var("PATH")
+            .map(|path| HashMap::from([("PATH".to_string(), path)]))
+            .unwrap_or_default(),
+    );
     context.environment_vars =
         rt.block_on(env_manager.generate_environment(&context.resolved_packages))?;
 
-- 
2.43.0


From 5437cb5415bac026bc8da05e53fb8a7d135ebace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:05 +0000
Subject: [PATCH 35/48] fix: release checks its arguments and the repository
 state before it builds, and keeps an existing tag when told to

A failing git status counted as a clean tree, an unreadable message file as no
message, invalid variants passed a dry run, --ignore-existing-tag built and then
failed on the tag, and a branch of the same name made the push ambiguous.
---
 src/cli/commands/release.rs | 51 ++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index eb7ab1c..ed402b2 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -100,16 +100,23 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
     }
 
     // 4. Check for existing release tag
-    if !args.ignore_existing_tag {
-        let tag = format!("{}-{}", package.name, version_str);
-        if check_tag_exists(&working_dir, &tag) {
-            return Err(RezCoreError::BuildError(format!(
-                "Release tag '{}' already exists. Use --ignore-existing-tag to override.",
-                tag
-            )));
-        }
+    let tag = format!("{}-{}", package.name, version_str);
+    let tag_exists = check_tag_exists(&working_dir, &tag);
+    if tag_exists && !args.ignore_existing_tag {
+        return Err(RezCoreError::BuildError(format!(
+            "Release tag '{}' already exists. Use --ignore-existing-tag to override.",
+            tag
+        )));
     }
 
+    // Invalid arguments must be reported before anything is released
+    let variant_indices = release_variant_indices(&package, args.variants.as_deref())?;
+    let message = match (&args.message, &args.message_file) {
+        (Some(message), _) => message.clone(),
+        (None, Some(path)) => read_message_file(path)?,
+        (None, None) => format!("Release {}", tag),
+    };
+
     if args.dry_run {
         println!("[dry-run] Would release {}-{}", package.name, version_str);
         println!("[dry-run] VCS: {}", vcs_type);
@@ -132,7 +139,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .map_err(|e| RezCoreError::BuildError(format!("Failed to create runtime: {}", e)))?;
 
     let mut build_manager = BuildManager::new();
-    for variant_index in release_variant_indices(&package, args.variants.as_deref())? {
+    for variant_index in variant_indices {
         let variant_requires = variant_index.map(|index| package.variants[index].clone());
         let context = super::build::resolve_build_context(
             &package,
@@ -166,14 +173,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
     println!("Build successful.");
 
     // 6. Create release tag in VCS
-    let tag = format!("{}-{}", package.name, version_str);
-    let message = args
-        .message
-        .clone()
-        .or_else(|| read_message_file(args.message_file.as_ref()))
-        .unwrap_or_else(|| format!("Release {}", tag));
-
-    if vcs_type == "git" {
+    if vcs_type == "git" && !tag_exists {
         create_git_tag(&working_dir, &tag, &message, args.verbose)?;
     }
 
@@ -272,6 +272,12 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
             .output()
             .map_err(|e| RezCoreError::BuildError(format!("Failed to run git status: {}", e)))?;
 
+        if !output.status.success() {
+            return Err(RezCoreError::BuildError(format!(
+                "Failed to read the repository state: {}",
+                String::from_utf8_lossy(&output.stderr).trim()
+            )));
+        }
         if !output.stdout.is_empty() {
             let dirty_files = String::from_utf8_lossy(&output.stdout);
             return Err(RezCoreError::BuildError(format!(
@@ -334,7 +340,7 @@ fn create_git_tag(
     }
 
     let push = Command::new("git")
-        .args(["push", "origin", tag])
+        .args(["push", "origin", &format!("refs/tags/{tag}")])
         .current_dir(working_dir)
         .output()
         .map_err(|error| {
@@ -361,8 +367,13 @@ fn create_git_tag(
 }
 
 /// Read release message from file
-fn read_message_file(path: Option<&PathBuf>) -> Option<String> {
-    path.and_then(|p| std::fs::read_to_string(p).ok())
+fn read_message_file(path: &Path) -> RezCoreResult<String> {
+    std::fs::read_to_string(path).map_err(|error| {
+        RezCoreError::BuildError(format!(
+            "Failed to read message file '{}': {error}",
+            path.display()
+        ))
+    })
 }
 
 /// Get release packages path from config
-- 
2.43.0


From 70037ec4a2c7bffdef162e2c2fada5a0bf0cb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:05 +0000
Subject: [PATCH 36/48] fix: test runs the tests of the package asked for

It tested whatever package was in the working directory, took the last version
directory by text of the first path, ignored .ignore markers, versions in the
request were not understood, patterns matched anywhere and dots matched anything,
and {root} was left in test commands that a build expands.
---
 src/cli/commands/test.rs | 226 +++++++++++++++++++++++----------------
 1 file changed, 135 insertions(+), 91 deletions(-)

diff --git a/src/cli/commands/test.rs b/src/cli/commands/test.rs
index ef11ac5..80ae871 100644
--- a/src/cli/commands/test.rs
+++ b/src/cli/commands/test.rs
@@ -125,6 +125,8 @@ pub struct PackageTestRunner {
     test_definitions: HashMap<String, TestDefinition>,
     /// Resolved package environment used by test commands.
     test_environment: Option<HashMap<String, String>>,
+    /// Root of the tested package, for placeholders in test commands.
+    package_root: Option<String>,
     /// Why an inplace test cannot run in the current resolved environment.
     inplace_skip_reason: Option<String>,
 }
@@ -146,6 +148,7 @@ impl PackageTestRunner {
             test_results: Vec::new(),
             test_definitions: HashMap::new(),
             test_environment: None,
+            package_root: None,
             inplace_skip_reason: None,
         };
 
@@ -175,77 +178,64 @@ impl PackageTestRunner {
                 search_paths.push(path);
             }
         }
-        let candidates = [working_dir.join("package.py")];
-
-        for candidate in &candidates {
-            if candidate.exists() {
-                let mut package = PackageSerializer::load_from_file(candidate)?;
-                package.filepath = Some(candidate.to_string_lossy().into_owned());
-                self.working_dir = candidate
-                    .parent()
-                    .map(Path::to_path_buf)
-                    .unwrap_or_else(|| working_dir.to_path_buf());
-                self.extract_tests_from_package(&package, args, &search_paths, false)?;
-                return Ok(());
-            }
+        // A directory that holds a package definition
+        let package_file = working_dir.join(package_spec).join("package.py");
+        if package_file.is_file() {
+            let package = load_developer_package(&package_file)?;
+            return self.load_developer_tests(&package, args, &search_paths);
         }
 
-        // If not found in working_dir, try to find by name in configured paths
-        for search_path in &search_paths {
-            let pkg_path = search_path.join(package_spec);
-            if pkg_path.exists() {
-                // Look for latest version
-                if let Ok(entries) = std::fs::read_dir(&pkg_path) {
-                    let mut versions: Vec<PathBuf> = entries
-                        .flatten()
-                        .filter(|e| e.path().is_dir())
-                        .map(|e| e.path())
-                        .collect();
-                    versions.sort();
-                    if let Some(latest) = versions.last() {
-                        let package_file = latest.join("package.py");
-                        if package_file.exists() {
-                            let mut package = PackageSerializer::load_from_file(&package_file)?;
-                            package.filepath = Some(package_file.to_string_lossy().into_owned());
-                            self.working_dir = latest.clone();
-                            self.extract_tests_from_package(&package, args, &search_paths, true)?;
-                            return Ok(());
-                        }
-                    }
-                }
+        let request: Requirement = package_spec.parse().map_err(|error| {
+            RezCoreError::RequirementParse(format!("Invalid package '{package_spec}': {error}"))
+        })?;
+
+        // The package in the working directory, when it is the one asked for
+        let package_file = working_dir.join("package.py");
+        if package_file.is_file() {
+            let package = load_developer_package(&package_file)?;
+            if satisfies_request(&package, &request) {
+                return self.load_developer_tests(&package, args, &search_paths);
             }
         }
 
-        Err(RezCoreError::CliError(format!(
-            "Package '{package_spec}' not found in the working directory or configured package paths"
-        )))
+        // The latest package in the configured paths
+        let runtime = create_runtime()?;
+        let repositories = test_repositories(&search_paths);
+        let package = runtime
+            .block_on(repositories.find_packages(&request.name))?
+            .into_iter()
+            .find(|package| satisfies_request(package, &request))
+            .ok_or_else(|| {
+                RezCoreError::CliError(format!(
+                    "Package '{package_spec}' not found in the working directory or configured package paths"
+                ))
+            })?;
+        self.extract_tests_from_package(&package, args, &search_paths, Some(package_spec))
     }
 
-    /// Extract test definitions from a loaded package
-    fn extract_tests_from_package(
+    /// Load the tests of a package that is still in its source directory
+    fn load_developer_tests(
         &mut self,
         package: &rez_next_package::Package,
         args: &TestArgs,
         search_paths: &[PathBuf],
-        from_repository: bool,
     ) -> RezCoreResult<()> {
-        // Package.tests is HashMap<String, String> where value is the command
-        for (test_name, command_str) in &package.tests {
-            let cmd = TestCommand::String(command_str.clone());
-
-            self.test_definitions.insert(
-                test_name.clone(),
-                TestDefinition {
-                    name: test_name.clone(),
-                    command: cmd,
-                    requires: vec![],
-                    run_on: vec!["default".to_string()],
-                    on_variants: None,
-                },
-            );
+        if let Some(directory) = package.root() {
+            self.working_dir = PathBuf::from(directory);
         }
+        self.extract_tests_from_package(package, args, search_paths, None)
+    }
 
+    /// Extract test definitions from a loaded package
+    fn extract_tests_from_package(
+        &mut self,
+        package: &rez_next_package::Package,
+        args: &TestArgs,
+        search_paths: &[PathBuf],
+        repository_request: Option<&str>,
+    ) -> RezCoreResult<()> {
         if args.inplace {
+            self.add_test_definitions(package);
             let mut environment = std::env::vars().collect();
             normalize_environment_paths(&mut environment);
             let root_variable = format!("{}_ROOT", package.name.to_uppercase());
@@ -263,24 +253,16 @@ impl PackageTestRunner {
                     package.qualified_name()
                 ));
             } else if let Some(root) = current_root {
+                self.package_root = Some(root.to_string_lossy().into_owned());
                 self.working_dir = root;
             }
             self.test_environment = Some(environment);
             return Ok(());
         }
 
-        let runtime = tokio::runtime::Runtime::new().map_err(|error| {
-            RezCoreError::CliError(format!("Failed to create test runtime: {error}"))
-        })?;
-        let mut repositories = RepositoryManager::new();
-        for (index, path) in search_paths.iter().filter(|path| path.exists()).enumerate() {
-            repositories.add_repository(Box::new(SimpleRepository::new(
-                path,
-                format!("test_repo_{index}"),
-            )));
-        }
-        let repositories = Arc::new(repositories);
-        let requirement_sets = test_requirement_sets(package, args, from_repository);
+        let runtime = create_runtime()?;
+        let repositories = test_repositories(search_paths);
+        let requirement_sets = test_requirement_sets(package, args, repository_request);
         let mut last_error = None;
         let mut packages = None;
         for requirement_strings in requirement_sets {
@@ -298,19 +280,13 @@ impl PackageTestRunner {
             );
             match runtime.block_on(resolver.resolve(requirements)) {
                 Ok(result) => {
-                    packages = Some(
-                        result
-                            .resolved_packages
-                            .iter()
-                            .map(|resolved| resolved.materialized_package())
-                            .collect(),
-                    );
+                    packages = Some(result.resolved_packages);
                     break;
                 }
                 Err(error) => last_error = Some(error),
             }
         }
-        let mut packages = packages.ok_or_else(|| {
+        let resolved = packages.ok_or_else(|| {
             last_error.unwrap_or_else(|| {
                 RezCoreError::CliError(format!(
                     "No compatible test variant found for package '{}'",
@@ -318,22 +294,33 @@ impl PackageTestRunner {
                 ))
             })
         })?;
-        if from_repository {
-            let resolved_package = packages
-                .iter_mut()
-                .find(|resolved| resolved.name == package.name)
+        let mut packages: Vec<_> = resolved
+            .iter()
+            .map(|resolved| resolved.materialized_package())
+            .collect();
+        let tested = if repository_request.is_some() {
+            // The tests are those of the package in the test environment
+            let index = packages
+                .iter()
+                .position(|resolved| resolved.name == package.name)
                 .ok_or_else(|| {
                     RezCoreError::CliError(format!(
                         "Resolved test environment omitted package '{}'",
                         package.qualified_name()
                     ))
                 })?;
-            apply_pre_test_commands(resolved_package);
+            if let Some(directory) = resolved[index].package.root() {
+                self.working_dir = PathBuf::from(directory);
+            }
+            &mut packages[index]
         } else {
-            let mut test_package = package.clone();
-            apply_pre_test_commands(&mut test_package);
-            packages.push(test_package);
-        }
+            packages.push(package.clone());
+            &mut packages[resolved.len()]
+        };
+        apply_pre_test_commands(tested);
+        self.package_root = tested.root();
+        let tested = tested.clone();
+        self.add_test_definitions(&tested);
         let manager = EnvironmentManager::new(ContextConfig {
             inherit_parent_env: true,
             ..ContextConfig::default()
@@ -342,6 +329,25 @@ impl PackageTestRunner {
         Ok(())
     }
 
+    /// Register the tests of a package
+    fn add_test_definitions(&mut self, package: &rez_next_package::Package) {
+        // Package.tests is HashMap<String, String> where value is the command
+        for (test_name, command_str) in &package.tests {
+            let cmd = TestCommand::String(command_str.clone());
+
+            self.test_definitions.insert(
+                test_name.clone(),
+                TestDefinition {
+                    name: test_name.clone(),
+                    command: cmd,
+                    requires: vec![],
+                    run_on: vec!["default".to_string()],
+                    on_variants: None,
+                },
+            );
+        }
+    }
+
     /// Get available test names from loaded package definition
     pub fn get_test_names(&self) -> RezCoreResult<Vec<String>> {
         if self.test_definitions.is_empty() {
@@ -365,7 +371,8 @@ impl PackageTestRunner {
 
         for pattern in requested {
             if pattern.contains('*') {
-                let regex_pattern = pattern.replace('*', ".*");
+                let regex_pattern =
+                    format!("^(?s){}$", regex::escape(pattern).replace(r"\*", ".*"));
                 let regex = regex::Regex::new(&regex_pattern).map_err(|e| {
                     RezCoreError::CliError(format!("Invalid pattern '{}': {}", pattern, e))
                 })?;
@@ -480,10 +487,16 @@ impl PackageTestRunner {
         let (program, args) = match &test_def.command {
             TestCommand::String(cmd) => {
                 // Shell-execute the string command
+                let cmd = match &self.package_root {
+                    Some(root) => ["{this.root}", "{this.base}", "{root}", "{base}"]
+                        .iter()
+                        .fold(cmd.clone(), |cmd, name| cmd.replace(name, root)),
+                    None => cmd.clone(),
+                };
                 if cfg!(windows) {
-                    ("cmd".to_string(), vec!["/c".to_string(), cmd.clone()])
+                    ("cmd".to_string(), vec!["/c".to_string(), cmd])
                 } else {
-                    ("sh".to_string(), vec!["-c".to_string(), cmd.clone()])
+                    ("sh".to_string(), vec!["-c".to_string(), cmd])
                 }
             }
             TestCommand::List(parts) if !parts.is_empty() => {
@@ -592,6 +605,37 @@ impl PackageTestRunner {
     }
 }
 
+fn create_runtime() -> RezCoreResult<tokio::runtime::Runtime> {
+    tokio::runtime::Runtime::new()
+        .map_err(|error| RezCoreError::CliError(format!("Failed to create test runtime: {error}")))
+}
+
+fn test_repositories(search_paths: &[PathBuf]) -> Arc<RepositoryManager> {
+    let mut repositories = RepositoryManager::new();
+    for (index, path) in search_paths.iter().filter(|path| path.exists()).enumerate() {
+        repositories.add_repository(Box::new(SimpleRepository::new(
+            path,
+            format!("test_repo_{index}"),
+        )));
+    }
+    Arc::new(repositories)
+}
+
+fn load_developer_package(package_file: &Path) -> RezCoreResult<rez_next_package::Package> {
+    let package_file = std::path::absolute(package_file)?;
+    let mut package = PackageSerializer::load_from_file(&package_file)?;
+    package.filepath = Some(package_file.to_string_lossy().into_owned());
+    Ok(package)
+}
+
+fn satisfies_request(package: &rez_next_package::Package, request: &Requirement) -> bool {
+    package.name == request.name
+        && match &package.version {
+            Some(version) => request.is_satisfied_by(version),
+            None => request.version_constraint.is_none(),
+        }
+}
+
 fn parse_test_requirements(requirements: &[String]) -> RezCoreResult<Vec<Requirement>> {
     requirements
         .iter()
@@ -608,11 +652,11 @@ fn parse_test_requirements(requirements: &[String]) -> RezCoreResult<Vec<Require
 fn test_requirement_sets(
     package: &rez_next_package::Package,
     args: &TestArgs,
-    from_repository: bool,
+    repository_request: Option<&str>,
 ) -> Vec<Vec<String>> {
-    if from_repository {
+    if let Some(request) = repository_request {
         return vec![
-            std::iter::once(package.qualified_name())
+            std::iter::once(request.to_string())
                 .chain(args.extra_packages.iter().cloned())
                 .collect(),
         ];
-- 
2.43.0


From 0caf032314e82614820ebfc4cac37bc06cbc44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:05 +0000
Subject: [PATCH 37/48] fix: the solver keeps name-1 and name-1.0 apart and
 prefers variants that can be satisfied

Both compare equal but admit different versions, so the second was dropped; and a
variant contradicting the request was chosen before one that fits, which gave an
older version or a failed requirement.
---
 .../src/dependency_resolver.rs                | 68 ++++++++++++++++++-
 .../rez-next-solver/src/resolution_state.rs   |  4 +-
 2 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 77ea253..95cbef2 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -339,7 +339,12 @@ impl DependencyResolver {
                 continue;
             }
             self.find_candidate_packages(&requirement).await?;
-            for package in self.package_cache.get(&requirement.name).into_iter().flatten() {
+            for package in self
+                .package_cache
+                .get(&requirement.name)
+                .into_iter()
+                .flatten()
+            {
                 pending.extend(
                     package
                         .requires
@@ -594,6 +599,17 @@ impl DependencyResolver {
         candidate: &Arc<Package>,
         requirement: &Requirement,
     ) -> Result<(ResolvedPackageInfo, Vec<Requirement>, Vec<Requirement>), RezCoreError> {
+        // Variants are judged by the packages that could satisfy them
+        if !candidate.variants.is_empty() {
+            let requires = candidate.requires.iter();
+            for raw in requires.chain(candidate.variants.iter().flatten()) {
+                if let Ok((_, requirement)) = Self::parse_variant_requirement(raw) {
+                    // One that cannot be read matters only once it is needed
+                    let _ = self.find_candidate_packages(&requirement).await;
+                }
+            }
+        }
+
         // Determine which variant to use (if package has variants)
         let variant_index = self.select_variant(candidate, state);
         state.variants_evaluated += candidate.variants.len().max(1);
@@ -713,6 +729,7 @@ impl DependencyResolver {
                     })
                     .collect();
                 (
+                    self.variant_is_satisfiable(package, *index, state),
                     resolved_matches,
                     shared,
                     std::cmp::Reverse(positive.len()),
@@ -723,6 +740,55 @@ impl DependencyResolver {
             .map(|(index, _)| index)
     }
 
+    /// Whether each package that a variant names could be selected, given what
+    /// the request and the other selected packages ask of it
+    fn variant_is_satisfiable(
+        &self,
+        package: &Package,
+        index: usize,
+        state: &ResolutionState,
+    ) -> bool {
+        let requires = self.get_effective_requires(package, Some(index));
+        let Ok((dependencies, conflicts)) = Self::split_requires(&requires) else {
+            return false;
+        };
+        let of_others = |by_package: &HashMap<String, Vec<Requirement>>| -> Vec<Requirement> {
+            by_package
+                .iter()
+                .filter(|(name, _)| **name != package.name)
+                .flat_map(|(_, requirements)| requirements.clone())
+                .collect()
+        };
+        let mut asked = of_others(&state.package_requirements);
+        let mut excluded = of_others(&state.package_conflict_requirements);
+        for requirement in &state.original_requirements {
+            if requirement.conflict {
+                excluded.push(requirement.clone());
+            } else {
+                asked.push(requirement.clone());
+            }
+        }
+        asked.extend(dependencies.iter().cloned());
+        excluded.extend(conflicts.iter().cloned());
+
+        dependencies.iter().chain(&conflicts).all(|named| {
+            let asked: Vec<_> = asked.iter().filter(|r| r.name == named.name).collect();
+            asked.iter().all(|requirement| requirement.weak)
+                || self.package_cache.get(&named.name).is_some_and(|packages| {
+                    self.filter_and_sort_candidates(packages, asked[0])
+                        .iter()
+                        .any(|candidate| {
+                            let version = candidate.version.as_ref();
+                            version.is_none_or(|v| asked.iter().all(|r| r.is_satisfied_by(v)))
+                                && !excluded.iter().any(|r| {
+                                    r.name == named.name
+                                        && version.is_none_or(|v| r.is_satisfied_by(v))
+                                })
+                        })
+                })
+        })
+    }
+
     fn constraint_version_floor(constraint: &VersionConstraint) -> Option<Version> {
         match constraint {
             VersionConstraint::Exact(version)
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 0cafc22..3f4d7d0 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -238,7 +238,9 @@ impl ResolutionState {
             .active_requirements
             .entry(requirement.name.clone())
             .or_default();
-        if !requirements.contains(&requirement) {
+        // name-1 and name-1.0 are equal but admit different versions
+        let text = requirement.to_string();
+        if !requirements.iter().any(|other| other.to_string() == text) {
             requirements.push(requirement);
         }
     }
-- 
2.43.0


From 034e1de44676412389f0e45fb79c9b8457485f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:05 +0000
Subject: [PATCH 38/48] fix: requirement parsing compiles its grammar once

Every parsed requirement compiled five expressions, so that solving ten packages
could take minutes.
---
 crates/rez-next-package/src/requirement/parser.rs | 6 ++++--
 crates/rez-next-package/src/requirement/types.rs  | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 66e6a70..c5d08fe 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -2,6 +2,7 @@
 
 use regex::Regex;
 use rez_next_version::Version;
+use std::sync::LazyLock;
 
 use super::types::{EnvCondition, PlatformCondition, Requirement, VersionConstraint};
 
@@ -311,9 +312,10 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=|!=)(.+)$").unwrap();
+        static VERSION_PATTERN: LazyLock<Regex> =
+            LazyLock::new(|| Regex::new(r"^(==|>=|<=|>|<|~=|!=)(.+)$").unwrap());
 
-        if let Some(captures) = version_pattern.captures(constraint_str) {
+        if let Some(captures) = VERSION_PATTERN.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
             let version_str = captures.get(2).unwrap().as_str();
             let version = Version::parse(version_str)
diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index f0c44e9..bef82ee 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -4,6 +4,7 @@ use rez_next_version::Version;
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::str::FromStr;
+use std::sync::LazyLock;
 
 /// A package requirement specification
 #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
@@ -308,9 +309,7 @@ impl VersionConstraint {
         if constraint_ver.is_empty() || version.len() <= constraint_ver.len() {
             return version.cmp(constraint_ver);
         }
-        version
-            .truncated(constraint_ver.len())
-            .cmp(constraint_ver)
+        version.truncated(constraint_ver.len()).cmp(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
@@ -350,6 +349,8 @@ impl FromStr for Requirement {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        super::parser::RequirementParser::new().parse(s)
+        static PARSER: LazyLock<super::parser::RequirementParser> =
+            LazyLock::new(super::parser::RequirementParser::new);
+        PARSER.parse(s)
     }
 }
-- 
2.43.0


From 27038fac3918377fdd972ce505a5163c5aa7efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:45 +0000
Subject: [PATCH 39/48] fix: bind fails when the tool is not on the system

An unknown or missing tool was bound as an invented 1.0.0 package (and a
name such as ../x wrote outside the install path).
---
 src/cli/commands/bind/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index 55642ff..2fd14bb 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -242,7 +242,6 @@ fn bind_package(package_spec: &str, args: &BindArgs) -> RezCoreResult<()> {
 
     let (package_name, _version_range) = parse_package_spec(package_spec)?;
     let install_path = get_install_path(args)?;
-    std::fs::create_dir_all(&install_path).map_err(RezCoreError::Io)?;
 
     match bind_single_package(&package_name, &install_path, args.no_deps, args) {
         Ok(result) => {
@@ -309,14 +308,12 @@ fn bind_single_package(
     no_deps: bool,
     args: &BindArgs,
 ) -> RezCoreResult<BindResult> {
-    let detected = detect::detect_system_tool(name);
-
-    let version_str = detected
-        .as_ref()
-        .map(|d| d.version.clone())
-        .unwrap_or_else(|| "1.0.0".to_string());
+    let detected = detect::detect_system_tool(name).ok_or_else(|| {
+        RezCoreError::PackageParse(format!("'{}' was not found on this system", name))
+    })?;
 
-    let exe_path = detected.as_ref().and_then(|d| d.executable_path.clone());
+    let version_str = detected.version.clone();
+    let exe_path = detected.executable_path.clone();
 
     let requires = if no_deps {
         vec![]
-- 
2.43.0


From df1424764a679f34349889a4c8459855bf0deef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 40/48] fix: bind honours the requested version

bind python-2.7 bound whatever Python was installed.
---
 src/cli/commands/bind/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index 2fd14bb..b07a1f8 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -165,7 +165,7 @@ fn execute_quickstart(args: &BindArgs) -> RezCoreResult<()> {
             install_path.display()
         );
 
-        match bind_single_package(package_name, &install_path, true, args) {
+        match bind_single_package(package_name, None, &install_path, true, args) {
             Ok(result) => {
                 if result.success {
                     if args.verbose {
@@ -240,10 +240,16 @@ fn bind_package(package_spec: &str, args: &BindArgs) -> RezCoreResult<()> {
         println!("Binding package: {}", package_spec);
     }
 
-    let (package_name, _version_range) = parse_package_spec(package_spec)?;
+    let (package_name, version_range) = parse_package_spec(package_spec)?;
     let install_path = get_install_path(args)?;
 
-    match bind_single_package(&package_name, &install_path, args.no_deps, args) {
+    match bind_single_package(
+        &package_name,
+        version_range.as_deref(),
+        &install_path,
+        args.no_deps,
+        args,
+    ) {
         Ok(result) => {
             if result.success {
                 println!("Successfully bound package '{}'", package_name);
@@ -304,6 +310,7 @@ fn get_install_path(args: &BindArgs) -> RezCoreResult<PathBuf> {
 
 fn bind_single_package(
     name: &str,
+    version_range: Option<&str>,
     install_path: &Path,
     no_deps: bool,
     args: &BindArgs,
@@ -326,6 +333,14 @@ fn bind_single_package(
     let commands = package_gen::get_package_commands(name, exe_path.as_ref());
 
     let version = rez_next_version::Version::parse(&version_str)?;
+    if let Some(range) = version_range
+        && !rez_next_version::VersionRange::parse(range)?.contains(&version)
+    {
+        return Err(RezCoreError::PackageParse(format!(
+            "the {} found on this system is version {}, not {}",
+            name, version_str, range
+        )));
+    }
 
     let package = Package {
         name: name.to_string(),
-- 
2.43.0


From 9ecec448315e23196614baab0daf7d3616ad9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:37 +0000
Subject: [PATCH 41/48] fix: bind quotes the tool's directory in the package
 definition

A quote in it made the definition unreadable and a backslash named
another directory.
---
 src/cli/commands/bind/package_gen.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands/bind/package_gen.rs b/src/cli/commands/bind/package_gen.rs
index 8dc6df0..688fb9c 100644
--- a/src/cli/commands/bind/package_gen.rs
+++ b/src/cli/commands/bind/package_gen.rs
@@ -55,7 +55,7 @@ pub fn get_package_commands(name: &str, exe_path: Option<&PathBuf>) -> Option<St
                 if !dir.is_empty() {
                     return Some(format!(
                         "    import os\n    env.PATH.prepend('{}')\n",
-                        dir.replace('\\', "/")
+                        escape_directory(&dir)
                     ));
                 }
             }
@@ -70,7 +70,7 @@ pub fn get_package_commands(name: &str, exe_path: Option<&PathBuf>) -> Option<St
                 if !dir.is_empty() {
                     return Some(format!(
                         "    import os\n    env.PATH.prepend('{}')\n",
-                        dir.replace('\\', "/")
+                        escape_directory(&dir)
                     ));
                 }
             }
@@ -80,6 +80,15 @@ pub fn get_package_commands(name: &str, exe_path: Option<&PathBuf>) -> Option<St
     }
 }
 
+/// Write a directory the way it stands between single quotes in Python.
+fn escape_directory(dir: &str) -> String {
+    if cfg!(windows) {
+        dir.replace('\\', "/").replace('\'', "\\'")
+    } else {
+        dir.replace('\\', "\\\\").replace('\'', "\\'")
+    }
+}
+
 /// Return a human-readable description for a known package name.
 pub fn get_package_description(name: &str) -> String {
     match name {
-- 
2.43.0


From f97a5391f9f8d99619e417bf909a6ae286b645e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 42/48] fix: bind takes gcc's version, not that of its
 distribution package

---
 src/cli/commands/bind/detect.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cli/commands/bind/detect.rs b/src/cli/commands/bind/detect.rs
index bd49776..a81587e 100644
--- a/src/cli/commands/bind/detect.rs
+++ b/src/cli/commands/bind/detect.rs
@@ -124,7 +124,7 @@ fn detect_gcc() -> Option<DetectedTool> {
     {
         let version_output = String::from_utf8_lossy(&output.stdout).to_string();
         let first_line = version_output.lines().next().unwrap_or("");
-        if let Some(ver) = parse_version_from_string(first_line) {
+        if let Some(ver) = gcc_version(first_line) {
             return Some(DetectedTool {
                 version: ver,
                 executable_path: which_executable("gcc"),
@@ -135,6 +135,25 @@ fn detect_gcc() -> Option<DetectedTool> {
     None
 }
 
+/// The version in a line such as `gcc (Ubuntu 13.3.0-6ubuntu2) 13.3.0`: what stands in
+/// parentheses describes the build.
+fn gcc_version(line: &str) -> Option<String> {
+    let mut depth = 0usize;
+    let mut outside = String::new();
+    for c in line.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            c if depth == 0 => outside.push(c),
+            _ => {}
+        }
+    }
+    let word = outside
+        .split_whitespace()
+        .find(|word| word.starts_with(|c: char| c.is_ascii_digit()));
+    parse_version_from_string(word.unwrap_or(line))
+}
+
 fn detect_clang() -> Option<DetectedTool> {
     if let Ok(output) = Command::new("clang").args(["--version"]).output()
         && output.status.success()
-- 
2.43.0


From fed7e2d24bc333f8b1d8d3fd8ff80f9667691625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 43/48] fix: bind also binds the packages the bound package
 requires

Without --no-deps the requirements were written but never bound, so the
bound package did not resolve.
---
 src/cli/commands/bind/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index b07a1f8..638b7ef 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -265,6 +265,8 @@ fn bind_package(package_spec: &str, args: &BindArgs) -> RezCoreResult<()> {
                         println!("     Description: {}", description);
                     }
                 }
+
+                bind_dependencies(&result.package.requires, &install_path, args);
             } else {
                 eprintln!(
                     "Failed to bind package '{}': {}",
@@ -283,6 +285,28 @@ fn bind_package(package_spec: &str, args: &BindArgs) -> RezCoreResult<()> {
     Ok(())
 }
 
+/// Bind what a bound package requires, and what that requires in turn. One that cannot be
+/// bound is reported and does not stop the others.
+fn bind_dependencies(requires: &[String], install_path: &Path, args: &BindArgs) {
+    let mut names = requires.to_vec();
+    let mut next = 0;
+    while next < names.len() {
+        let name = names[next].clone();
+        next += 1;
+        match bind_single_package(&name, None, install_path, args.no_deps, args) {
+            Ok(result) => {
+                println!("   Bound dependency: {}", result.install_path.display());
+                for required in result.package.requires {
+                    if !names.contains(&required) {
+                        names.push(required);
+                    }
+                }
+            }
+            Err(e) => eprintln!("   Warning: could not bind dependency '{}': {}", name, e),
+        }
+    }
+}
+
 /// Parse package specification, e.g. `"python-3.9"` → `("python", Some("3.9"))`.
 pub(crate) fn parse_package_spec(spec: &str) -> RezCoreResult<(String, Option<String>)> {
     if let Some(dash_pos) = spec.rfind('-') {
-- 
2.43.0


From 9d335ca1e50bdd5a4c428f237dfad5496827f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 44/48] fix: a bound tool's version is read whole

v18.17.0 was read as 17.0, go1.21.0 as 21.0 and 1.1.1k as 1.1.
---
 crates/rez-next-bind/src/detect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-bind/src/detect.rs b/crates/rez-next-bind/src/detect.rs
index 603c1b6..ade26fe 100644
--- a/crates/rez-next-bind/src/detect.rs
+++ b/crates/rez-next-bind/src/detect.rs
@@ -56,9 +56,12 @@ pub fn detect_tool_version(executable: &str) -> String {
 /// Falls back to returning the first whitespace-delimited token if no semver found.
 pub fn extract_version_from_output(output: &str) -> Option<String> {
     // Match patterns like "3.11.4", "2.42.0", "1.8"
-    let semver_re = regex::Regex::new(r"\b(\d+\.\d+(?:\.\d+)*)\b").ok()?;
-    if let Some(cap) = semver_re.captures(output) {
-        return Some(cap[1].to_string());
+    // at the start of a word, else anywhere ("go1.21.0")
+    for pattern in [r"(?:^|[\s(])v?(\d+(?:\.\d+)+)", r"(\d+(?:\.\d+)+)"] {
+        let semver_re = regex::Regex::new(pattern).ok()?;
+        if let Some(cap) = semver_re.captures(output) {
+            return Some(cap[1].to_string());
+        }
     }
     // Fallback: first word-like token that contains a digit
     for token in output.split_whitespace() {
-- 
2.43.0


From 50f5e6dfc41d887948ff4b9b04357e3ab98d8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 45/48] fix: a bound package's definition quotes its values

A quote or backslash in the tool's directory or in the extra metadata
made the written package.py unreadable or changed the value.
---
 crates/rez-next-bind/src/binder.rs | 45 +++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-bind/src/binder.rs b/crates/rez-next-bind/src/binder.rs
index 526a16a..1e6c6e4 100644
--- a/crates/rez-next-bind/src/binder.rs
+++ b/crates/rez-next-bind/src/binder.rs
@@ -158,13 +158,20 @@ impl PackageBinder {
         let extra_fields: String = options
             .extra_metadata
             .iter()
-            .map(|(k, v)| format!("{} = '{}'\n", k, v))
+            .map(|(k, v)| format!("{} = {}\n", k, python_literal(v)))
             .collect();
 
         let tool_bin_path = exe_path
             .as_ref()
             .and_then(|p| p.parent())
-            .map(|d| d.to_string_lossy().replace('\\', "/"))
+            .map(|d| {
+                let dir = d.to_string_lossy().to_string();
+                if cfg!(windows) {
+                    dir.replace('\\', "/")
+                } else {
+                    dir
+                }
+            })
             .unwrap_or_default();
 
         let commands_block = if tool_bin_path.is_empty() {
@@ -173,24 +180,26 @@ impl PackageBinder {
             format!(
                 r#"
 def commands():
-    env.prepend_path('PATH', r'{bin}')
+    env.prepend_path('PATH', {bin})
 "#,
-                bin = tool_bin_path
+                bin = python_literal(&tool_bin_path)
             )
         };
 
         format!(
             r#"# Auto-generated by rez-next bind
 {exe_comment}
-name = '{name}'
-version = '{version}'
-description = 'System-installed {name} bound by rez-next bind'
-tools = ['{name}']
+name = {name}
+version = {version}
+description = {description}
+tools = [{name}]
 {extra_fields}{commands_block}
 "#,
             exe_comment = exe_comment,
-            name = name,
-            version = version,
+            name = python_literal(name),
+            version = python_literal(version),
+            description =
+                python_literal(&format!("System-installed {} bound by rez-next bind", name)),
             extra_fields = extra_fields,
             commands_block = commands_block,
         )
@@ -249,6 +258,22 @@ pub fn list_bound_packages_in(install_root: &std::path::Path) -> Vec<(String, Ve
     result
 }
 
+/// Quote text as a Python string literal.
+fn python_literal(text: &str) -> String {
+    let mut literal = String::from("'");
+    for c in text.chars() {
+        match c {
+            '\'' | '\\' => literal.extend(['\\', c]),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c => literal.push(c),
+        }
+    }
+    literal.push('\'');
+    literal
+}
+
 fn expand_home(p: &str) -> String {
     if (p.starts_with("~/") || p == "~")
         && let Ok(home) = std::env::var("USERPROFILE").or_else(|_| std::env::var("HOME"))
-- 
2.43.0


From a449e2e21d156633cb97d91ecbc7455be6860179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 46/48] fix: bind writes only inside the install path

A tool name or version such as ../x wrote outside it.
---
 crates/rez-next-bind/src/binder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/rez-next-bind/src/binder.rs b/crates/rez-next-bind/src/binder.rs
index 1e6c6e4..c98d4fb 100644
--- a/crates/rez-next-bind/src/binder.rs
+++ b/crates/rez-next-bind/src/binder.rs
@@ -117,6 +117,15 @@ impl PackageBinder {
                 .ok_or_else(|| BindError::VersionNotFound(tool_name.to_string()))?
         };
 
+        for part in [tool_name, version.as_str()] {
+            if !is_directory_name(part) {
+                return Err(BindError::Other(format!(
+                    "'{}' cannot name a package directory",
+                    part
+                )));
+            }
+        }
+
         // 3. Determine install root
         let install_root = options
             .install_path
@@ -258,6 +267,11 @@ pub fn list_bound_packages_in(install_root: &std::path::Path) -> Vec<(String, Ve
     result
 }
 
+/// Whether `text` names an entry of a directory, rather than a path leading elsewhere.
+fn is_directory_name(text: &str) -> bool {
+    !text.contains(['/', '\\']) && !matches!(text, "" | "." | "..")
+}
+
 /// Quote text as a Python string literal.
 fn python_literal(text: &str) -> String {
     let mut literal = String::from("'");
-- 
2.43.0


From 7bb61a648416ff19e1335877d4b73372a7ad5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 47/48] fix: bind reads the requested version as requirements
 do

python-3 means any 3.x.
---
 src/cli/commands/bind/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index 638b7ef..99025a6 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -18,7 +18,7 @@ mod tests;
 use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
-use rez_next_package::Package;
+use rez_next_package::{Package, Requirement};
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
@@ -357,13 +357,16 @@ fn bind_single_package(
     let commands = package_gen::get_package_commands(name, exe_path.as_ref());
 
     let version = rez_next_version::Version::parse(&version_str)?;
-    if let Some(range) = version_range
-        && !rez_next_version::VersionRange::parse(range)?.contains(&version)
-    {
-        return Err(RezCoreError::PackageParse(format!(
-            "the {} found on this system is version {}, not {}",
-            name, version_str, range
-        )));
+    if let Some(range) = version_range {
+        let request: Requirement = format!("{}-{}", name, range)
+            .parse()
+            .map_err(RezCoreError::RequirementParse)?;
+        if !request.is_satisfied_by(&version) {
+            return Err(RezCoreError::PackageParse(format!(
+                "the {} found on this system is version {}, not {}",
+                name, version_str, range
+            )));
+        }
     }
 
     let package = Package {
-- 
2.43.0


From 1a3a4461c203bfe385bc7840d2d53518e9fd6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:03 +0000
Subject: [PATCH 48/48] fix: a solve uses the first repository's copy of a
 version only

A shadowed copy in a later repository was tried when the first one did
not fit.
---
 crates/rez-next-solver/src/dependency_resolver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 95cbef2..baad8e3 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -537,11 +537,15 @@ impl DependencyResolver {
         }
 
         // Search repositories
-        let packages = self
+        let mut packages = self
             .repository_manager
             .find_packages(&requirement.name)
             .await?;
 
+        // A version in an earlier repository hides the same version in later ones
+        let mut seen = HashSet::new();
+        packages.retain(|pkg| seen.insert(pkg.version.as_ref().map(|v| v.as_str().to_string())));
+
         // Cache the results
         self.package_cache
             .insert(requirement.name.clone(), packages.clone());
-- 
2.43.0

