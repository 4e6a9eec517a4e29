From 624f76d3738fe8a4ad2b8c286722faa37c4f7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 01/44] fix: unique search no longer ends when it meets a node
 a second time

---
 search/src/search.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..0ce4b5c 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,17 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+            None
         }
     }
 }
-- 
2.43.0


From 2a350dd3d76c9fc42aa0fa3e18e633e0fbafc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/44] fix: a UniqueHeap made from a vector holds each element
 once

---
 unique-heap/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..83ab696 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,7 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter().map(|(w, i)| (i, w)).collect()
     }
 }
 
-- 
2.43.0


From 86e8cb151aa3797ad45bb7108cce8fa82a1fb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 03/44] fix: loading a partition with overlapping cells reports
 an error instead of panicking

---
 src/util/partition.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..460f7f0 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -76,7 +76,8 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
         match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
+            Ok(cells) => Partition::new(cells)
+                .ok_or_else(|| Error::custom("the cells of a partition must be disjoint")),
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From e1efde76135725e77a013e8e6f8c6f7606683c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 04/44] fix: lines of blanks in a file of equivalence classes
 are ignored

---
 src/approximation/equivalence_classes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..a59c430 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
-- 
2.43.0


From bbc01df1630552b91dd40192c4371f91adec8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 05/44] fix: an equivalence class written on several lines
 keeps all its members

---
 src/approximation/equivalence_classes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a59c430..6cd6529 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -136,7 +136,7 @@ where
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut map = HashMap::new();
+        let mut map: HashMap<B, HashSet<A>> = HashMap::new();
         let mut default = None;
 
         for l in s.lines() {
@@ -146,7 +146,7 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        map.entry(label).or_default().extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
                         default = Some(label);
-- 
2.43.0


From 87f9bf4c50a285cbb36f1fb75f6da7bcf882098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 06/44] fix: a second default class in a file of equivalence
 classes is an error

---
 src/approximation/equivalence_classes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index 6cd6529..8623ba7 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -149,7 +149,11 @@ where
                         map.entry(label).or_default().extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
-                        default = Some(label);
+                        if default.replace(label).is_some() {
+                            return Err(String::from(
+                                "There can only be one default class in the equivalence relation!",
+                            ));
+                        }
                     }
                 }
             }
-- 
2.43.0


From a320efbfb7c91e77180fdf1f5c9bd11e1e55cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 07/44] fix: blank lines and indented initial declarations in
 grammar files are read as documented

---
 src/util/parsing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..2645278 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -130,7 +130,7 @@ where
 
     while let Some(l) = it.next() {
         if l.trim_start().starts_with("initial:") {
-            match parse_initials(l.as_bytes()) {
+            match parse_initials(l.trim_start().as_bytes()) {
                 IResult::Done(_, mut result) => initial.append(&mut result),
                 _ => {
                     return Err(format!(
@@ -139,7 +139,7 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+        } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
             rules.push(l.trim().parse()?);
         }
     }
-- 
2.43.0


From e9c4a61378d5e988b2893061d984a2a1c44bb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 08/44] fix: a PMCFG rule with a malformed weight is an error,
 as for CFG rules, and no panic

---
 src/grammars/pmcfg/from_str.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..cf0c4c7 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -75,11 +75,11 @@ where
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
-- 
2.43.0


From ccf8691f31e81396bcdaac818e8e9e0e4122b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 09/44] fix: a variable index that does not fit is an error and
 no panic

---
 src/grammars/pmcfg/from_str.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index cf0c4c7..b235c2f 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -103,13 +103,12 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i_s: map_res!(digit, from_utf8)
+                        >> i: expr_res!(i_s.parse())
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j_s: map_res!(digit, from_utf8)
+                        >> j: expr_res!(j_s.parse())
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From ca3366a79f9ef9ebb49d7870bf308a28f0d18779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 10/44] fix: the weight of a rule ends at a tab or at the
 comment that follows it

---
 src/grammars/cfg/from_str.rs   | 2 +-
 src/grammars/pmcfg/from_str.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammars/cfg/from_str.rs b/src/grammars/cfg/from_str.rs
index b3d432f..326a811 100644
--- a/src/grammars/cfg/from_str.rs
+++ b/src/grammars/cfg/from_str.rs
@@ -64,7 +64,7 @@ where
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
                         >> weight: expr_res!(weight_s.parse())
                         >> (weight)
                 )))
diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index b235c2f..1d40847 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -74,7 +74,7 @@ where
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
                         >> weight: expr_res!(weight_s.parse())
                         >> (weight)
                 )))
-- 
2.43.0


From 0c19b69ef97e365c631a10dcf5cbe5005e45dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 11/44] fix: the initial nonterminal of a printed LCFRS is
 quoted like all other symbols

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..37993ff 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -76,7 +76,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From 5b95c35257623e1b3a0f36460f6f2c2ccae5316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 12/44] fix: tokens without quotes may contain symbols that
 share a byte with the arrow

---
 src/util/parsing.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index 2645278..768152c 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -1,7 +1,20 @@
-use nom::{is_space, IResult};
+use nom::{is_space, ErrorKind, IResult};
 use std::fmt::Debug;
 use std::str::{from_utf8, FromStr};
 
+/// Parses a string that is not delimited by `'"'`. The symbol `'→'` ends it as a whole; other symbols
+/// whose encodings share a byte with it do not.
+fn parse_unquoted(input: &[u8]) -> IResult<&[u8], &[u8]> {
+    let end = (0..input.len()).find(|&i| {
+        b" \\\"-,;)]%#".contains(&input[i]) || input[i..].starts_with("→".as_bytes())
+    });
+
+    match end.unwrap_or(input.len()) {
+        0 => IResult::Error(error_position!(ErrorKind::IsNot, input)),
+        n => IResult::Done(&input[n..], &input[..n]),
+    }
+}
+
 /// Parses a token (i.e. a terminal symbol or a non-terminal symbol).
 /// A *token* can be of one of the following two forms:
 ///
@@ -20,7 +33,7 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | call!(parse_unquoted)
             ),
             from_utf8
         )
-- 
2.43.0


From e1eddebc32428dcfbe7a0593ef467a99ca11a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 13/44] fix: a pseudocount with denominator 0 in a discodop
 file is an error and no panic

---
 src/grammars/lcfrs/from_discodop.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..e26be93 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -78,16 +78,19 @@ fn parse_pseudocount<W>(s: &str) -> IResult<&str, W>
 where
     W: Div<Output = W> + FromStr,
 {
-    map_res!(
+    map_opt!(
         s,
         tuple!(digit, opt!(complete!(preceded!(tag!("/"), digit)))),
-        |(num, denom): (&str, Option<&str>)| -> Result<W, W::Err> {
+        |(num, denom): (&str, Option<&str>)| -> Option<W> {
             if let Some(denominator) = denom {
-                let numerator: W = num.parse()?;
-                let denominator: W = denominator.parse()?;
-                Ok(numerator / denominator)
+                if denominator.chars().all(|c| c == '0') {
+                    return None;
+                }
+                let numerator: W = num.parse().ok()?;
+                let denominator: W = denominator.parse().ok()?;
+                Some(numerator / denominator)
             } else {
-                num.parse()
+                num.parse().ok()
             }
         }
     )
-- 
2.43.0


From 0cf1e9eedd9958d0b1189ab094f8b601a2378e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 14/44] fix: a discodop yield component with more than 64
 variables is an error and no panic

---
 src/grammars/lcfrs/from_discodop.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index e26be93..b2ba2d2 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -33,6 +33,9 @@ fn is_binary_digit(c: char) -> bool {
 
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 fn from_binary(s: &str) -> Option<u64> {
+    if s.len() > 64 {
+        return None;
+    }
     s.chars()
         .enumerate()
         .map(|(i, c)| match c {
-- 
2.43.0


From 25b4df86ecbd23ee872e27be755e4716f1949223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 15/44] fix: discodop files with malformed lines are rejected
 instead of cut short

---
 src/grammars/lcfrs/from_discodop.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index b2ba2d2..6bf351c 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -31,6 +31,16 @@ fn is_binary_digit(c: char) -> bool {
     c == '0' || c == '1'
 }
 
+/// The result of a parser that must not leave anything but white space unread.
+fn read_all<O>(result: IResult<&str, O>) -> Result<O, nom::Err<u32>> {
+    match result {
+        IResult::Done(rest, _) if !rest.trim().is_empty() => {
+            Err(error_position!(ErrorKind::Eof, rest))
+        }
+        result => result.to_result(),
+    }
+}
+
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 fn from_binary(s: &str) -> Option<u64> {
     if s.len() > 64 {
@@ -175,8 +185,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = read_all(parse_yield(y)).map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = read_all(parse_pseudocount(w)).map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
@@ -338,7 +348,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: read_all(parse_discodop_constituents(constituent_str))?,
             lexer: None,
         })
     }
@@ -355,7 +365,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        read_all(parse_discodop_lexer(lexer_str))
     }
 }
 
-- 
2.43.0


From 5773883b6d9a6211ef8743115bedca4027a61fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 16/44] hook: make the rparse import reachable under
 cfg(rustomata_verif)

---
 src/grammars/lcfrs/from_rparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index 3de68a4..165890c 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -136,6 +136,18 @@ where
     }
 }
 
+/// Reads an rparse grammar. Nothing else makes this import reachable from outside of the crate.
+#[cfg(rustomata_verif)]
+pub fn lcfrs_from_rparse<N, W>(s: &str) -> Result<Lcfrs<N, (), W>, ()>
+where
+    N: FromStr,
+    W: FromStr,
+    <N as FromStr>::Err: Debug,
+    <W as FromStr>::Err: Debug,
+{
+    s.parse::<RparseClauses<N, W>>().map(Into::into)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From ba2ad9db817d5b88b30a7e75c455125be08f4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 17/44] fix: a terminal in front of variables is separated, too

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..66ef688 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -478,6 +478,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0


From c4b0fa50936a625482f7b6c92c38d6a1807b7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 18/44] fix: rules with a successor that has no rules are no
 LCFRS and no panic

---
 src/grammars/lcfrs/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 37993ff..e6dfb55 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,12 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                // a successor without rules has no fanout
+                let fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
-- 
2.43.0


From 7e58f9ba6a13feeddefa3dc96db8c01213cd1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 19/44] fix: the conversion of an MCFG skips rules whose
 successors have no rules

---
 src/grammars/lcfrs/conversion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..2ecd7f6 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -70,6 +70,10 @@ where
         .uniques()
         {
             for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
+                // rules with a successor that has no rules are of no use
+                if !rule.tail.iter().all(|nt| fanouts.contains_key(nt)) {
+                    continue;
+                }
                 rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
             }
         }
-- 
2.43.0


From 0cf8802139339c55ca50e8ad703d4a9fe331ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 20/44] fix: collecting into a UniqueHeap no longer reserves
 the upper bound of the size hint

---
 unique-heap/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 83ab696..66bcace 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -107,10 +107,8 @@ where
         T: IntoIterator<Item = (I, W)>,
     {
         let iter = iter.into_iter();
-        let n = match iter.size_hint() {
-            (_, Some(upper)) => upper,
-            (lower, None) => lower,
-        };
+        // the upper bound may be far greater than what the iterator yields
+        let (n, _) = iter.size_hint();
         let mut heap = BinaryHeap::with_capacity(n);
         let mut current_items = HashSet::with_capacity_and_hasher(n, Default::default());
 
-- 
2.43.0


From f82fd17d5f669361f4eb9910ce992cc6ea773cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 21/44] fix: a tree-stack automaton reads all terminals behind
 the last variable of a component

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..8033afe 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From 0b8f42c353853904047605628fd7e491c17f6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 22/44] fix: a PMCFG with a nonterminal without rules has a
 tree-stack automaton and does not panic

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 8033afe..02feda7 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -125,7 +125,10 @@ impl<
         for r in g.rules {
             agenda.push((
                 r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
+                r.tail
+                    .iter()
+                    .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                    .collect(),
             ));
         }
 
-- 
2.43.0


From d9fd2c4c0087f6dd9f7cc30495f1ce33d282218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 23/44] fix: coarse-to-fine recognition goes on behind the
 first coarse parse

---
 src/recognisable/coarse_to_fine.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..99cf67b 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -70,9 +70,14 @@ where
         if self.input_buffer.is_none() {
             self.input_buffer = Some(self.sublevel_parses.next());
         }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
+        // an empty buffer makes the next call ask for the next parse; `Some(None)` marks the end
+        match self.input_buffer.take() {
+            Some(None) => {
+                self.input_buffer = Some(None);
+                None
+            }
+            Some(item) => item,
+            None => unreachable!(),
         }
     }
 }
-- 
2.43.0


From 8ae2ee0a36881480c95903c719bce6a858b4f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 24/44] fix: approximated transitions that were merged are
 found again

---
 src/approximation/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..f75fdf9 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -53,8 +53,9 @@ where
     T: Clone + Eq + Ord,
     W: Clone + MulAssign + One + Ord,
 {
-    reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+    // by word and instruction: the automaton may merge approximated transitions, which changes
+    // their weights
+    reverse_transition_map: BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +96,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +106,10 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        match self
+            .reverse_transition_map
+            .get(&(t2.word.clone(), t2.instruction.clone()))
+        {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From 0451bf35dc357b2b14b9aad143f9cdf513784750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 25/44] fix: blank lines in automaton files may contain blanks

---
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..197d6c3 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
-- 
2.43.0


From 83584a267c11beace948665fc2c3fb8db01ff44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 26/44] fix: an empty tree-stack instruction is an error and no
 panic

---
 src/automata/tree_stack_automaton/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 197d6c3..8009b03 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match v.first().cloned().unwrap_or("") {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
-- 
2.43.0


From 0b830026005dc2cb546f030d66f05b802dde1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 27/44] fix: a transition with a malformed instruction or
 weight is an error and no panic

---
 src/recognisable/from_str.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..5ad343a 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -5,7 +5,7 @@ use std::str::{from_utf8, FromStr};
 use std::vec::Vec;
 
 use crate::recognisable::{Instruction, Transition};
-use crate::util::parsing::{parse_comment, parse_token, parse_vec};
+use crate::util::parsing::{parse_token, parse_vec};
 
 impl<I: Instruction + FromStr, T: FromStr, W: FromStr> FromStr for Transition<I, T, W>
 where
@@ -46,20 +46,22 @@ where
                     delimited!(tag!("("), take_until!(")"), tag!(")")),
                     from_utf8
                 )
+            >> instruction: expr_res!(instruction.parse())
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> opt!(complete!(parse_comment))
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction,
             })
     )
 }
-- 
2.43.0


From 2ff7133ce7edb76b6dece7c7789ec5d3bdb110cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 28/44] fix: the weight of a transition ends at a tab or at the
 comment that follows it

---
 src/recognisable/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index 5ad343a..4548ca7 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -52,7 +52,7 @@ where
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
+                        >> weight_s: map_res!(is_not!(" \t%"), from_utf8)
                         >> weight: expr_res!(weight_s.parse())
                         >> (weight)
                 )))
-- 
2.43.0


From 48e1662f8b1e77006e7be0b01d6f759faa7db92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 29/44] fix: a printed tree-stack automaton names its initial
 label and not the number of it

---
 src/automata/tree_stack_automaton/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d9ad20a..4a4ca08 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -246,7 +246,7 @@ where
         write!(
             f,
             "initial: {}\n\n{}",
-            self.initial.current_symbol(),
+            self.initial().current_symbol(),
             formatted_transitions
         )
     }
-- 
2.43.0


From 5e425a3d9c2dc49eeb9e8d02c412c1497a738f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 30/44] fix: a printed finite automaton names its states, lists
 all final ones and can be read again

---
 src/automata/finite_state_automaton/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/automata/finite_state_automaton/mod.rs b/src/automata/finite_state_automaton/mod.rs
index ffa771a..3fe29c5 100644
--- a/src/automata/finite_state_automaton/mod.rs
+++ b/src/automata/finite_state_automaton/mod.rs
@@ -210,7 +210,7 @@ where
     Q: Display,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{} → {}", self.source_state, self.target_state)
+        write!(f, "({} → {})", self.source_state, self.target_state)
     }
 }
 
@@ -221,19 +221,19 @@ where
     W: Clone + Display + Ord,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let name = |i| self.q_integeriser.find_value(i).unwrap();
         let mut buffer = "".to_string();
-        buffer.push_str(&format!("initial: {}\n", self.initial_state));
+        buffer.push_str(&format!("initial: \"{}\"\n", name(self.initial_state)));
 
         buffer.push_str("final: [");
         let mut first = true;
-        for i in 0..self.final_states.len() {
-            if self.final_states.contains(i) {
-                if first {
-                    buffer.push_str(", ");
-                    first = false;
-                }
-                buffer.push_str(&format!("\"{}\"", i));
+        for i in self.final_states.iter() {
+            if first {
+                first = false;
+            } else {
+                buffer.push_str(", ");
             }
+            buffer.push_str(&format!("\"{}\"", name(i)));
         }
         buffer.push_str("]\n\n");
         for t in self.list_transitions() {
-- 
2.43.0


From 886eed78d6f054a088fad962f7b52948ef0e680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 31/44] =?UTF-8?q?fix:=20the=20Chomsky-Sch=C3=BCtzenberger?=
 =?UTF-8?q?=20parser=20uses=20a=20terminal=20rule=20only=20where=20its=20t?=
 =?UTF-8?q?erminal=20is?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs    | 14 +++++++++++++-
 .../lcfrs/csparsing/automaton/kbest/mod.rs         |  3 +--
 src/grammars/lcfrs/csparsing/automaton/mod.rs      |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 3adacc0..9d05d6e 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -1,4 +1,4 @@
-use super::{RangeT, StateT};
+use super::{RangeT, RuleIdT, StateT};
 use num_traits::Zero;
 use std::ops::AddAssign;
 
@@ -11,6 +11,7 @@ pub struct DenseChart<W>(
     usize,            // n
     usize,            // states
     u16,              // max no. of constituents per span
+    Vec<Vec<RuleIdT>>, // terminal rules per position
 );
 
 pub fn chart_size(n: usize) -> usize {
@@ -44,6 +45,7 @@ impl<W: Copy> DenseChart<W> {
             n,
             states,
             bt_per_cell as u16,
+            vec![ Vec::new(); n ],
         )
     }
 
@@ -58,6 +60,11 @@ impl<W: Copy> DenseChart<W> {
         }
     }
 
+    /// Adds a rule for the terminal at a position.
+    pub fn add_terminal_rule(&mut self, i: RangeT, rule: RuleIdT) {
+        self.6[i as usize].push(rule);
+    }
+
     /// Gets weight for specific constituent and span.
     pub fn get_weight(&self, i: RangeT, j: RangeT, q: StateT) -> Option<W>
     where
@@ -92,6 +99,11 @@ impl<W> DenseChart<W> {
         (self.3, self.4, self.5 as usize)
     }
 
+    /// Checks if the terminal at a position is the one of a rule.
+    pub fn has_terminal_rule(&self, i: RangeT, rule: RuleIdT) -> bool {
+        self.6[i as usize].contains(&rule)
+    }
+
     /// Iterates all constituents for a span.
     pub fn iterate_nont<'a>(
         &'a self,
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..dd4cdcc 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -126,9 +126,8 @@ where
         if j - i == 1 {
             for &(r, w) in nullaries[q as usize]
                 .iter()
-                .filter(|&(r, _)| filter[*r as usize])
+                .filter(|&(r, _)| filter[*r as usize] && chart.has_terminal_rule(i, *r))
             {
-                // is is not correct in general, but ok for terminal-seperated rules
                 heap.push(IndexedBacktrace::Nullary(r, w), w);
             }
         }
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..436d8b1 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -290,6 +290,9 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 // initial predictions for each position in word
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
+                        for &(rid, _) in initials {
+                            chart.add_terminal_rule(l as u8, rid);
+                        }
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
                             if !rule_filter[rid as usize] {
                                 return None;
-- 
2.43.0


From 8143af293e7e9c32abaf694b2a7dba3c3ad031ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 32/44] fix: chain rules with weight one do not lead the
 enumeration of derivations into endless recursion

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs | 10 ++++++++++
 .../lcfrs/csparsing/automaton/kbest/mod.rs      | 17 ++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 9d05d6e..1e67a80 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -104,6 +104,16 @@ impl<W> DenseChart<W> {
         self.6[i as usize].contains(&rule)
     }
 
+    /// Checks if a constituent was added to a span before another one, or the
+    /// other one was not added at all.
+    pub fn was_added_before(&self, i: RangeT, j: RangeT, q1: StateT, q2: StateT) -> bool {
+        self.iterate_nont(i, j)
+            .map(|&(q, _)| q)
+            .find(|&q| q == q1 || q == q2)
+            == Some(q1)
+            && q1 != q2
+    }
+
     /// Iterates all constituents for a span.
     pub fn iterate_nont<'a>(
         &'a self,
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index dd4cdcc..a3fae21 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -159,7 +159,22 @@ where
                 Entry::Vacant(ve) => {
                     let mut bts =
                         Self::backtraces(chart, binaries, unaries, nullaries, &rulefilter, i, j, q);
-                    if let Some((first, vit)) = bts.pop() {
+                    // If there are chain rules with weight one, then the best backtrace may
+                    // lead back to this very constituent. The first backtrace must not;
+                    // it uses constituents that were found before.
+                    let mut postponed = Vec::new();
+                    let mut best = bts.pop();
+                    while let Some((IndexedBacktrace::Unary(r, q1, w, index), vit)) = best {
+                        if chart.was_added_before(i, j, q1, q) {
+                            break;
+                        }
+                        postponed.push((IndexedBacktrace::Unary(r, q1, w, index), vit));
+                        best = bts.pop();
+                    }
+                    for (backtrace, weight) in postponed {
+                        bts.push(backtrace, weight);
+                    }
+                    if let Some((first, vit)) = best {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
                         ve.insert((vec, bts));
-- 
2.43.0


From afbd5836f44c20043cd254e71c669e1403848de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 33/44] fix: no derivation is enumerated twice if weights are
 rounded

---
 src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs
index 978ba58..e88b4ac 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/backtrace.rs
@@ -74,11 +74,11 @@ impl<'a, W: Copy> Iterator for Iter<'a, W> {
         match *self {
             Iter(&Binary(r, q1, m, q2, w, i1, i2), 2) => {
                 self.1 = 1;
-                Some(Binary(r, q1, m, q2, w, i1, i2 + 1))
+                Some(Binary(r, q1, m, q2, w, i1 + 1, i2))
             }
             Iter(&Binary(r, q1, m, q2, w, i1, i2), 1) => {
                 self.1 = 0;
-                Some(Binary(r, q1, m, q2, w, i1 + 1, i2))
+                Some(Binary(r, q1, m, q2, w, i1, i2 + 1))
             }
             Iter(&Unary(r, q, w, i), 1) => {
                 self.1 = 0;
@@ -103,7 +103,9 @@ impl<'a, W: Copy> IntoIterator for &'a IndexedBacktrace<W> {
     fn into_iter(self) -> Self::IntoIter {
         use self::IndexedBacktrace::*;
         match *self {
-            Binary(_, _, _, _, _, _, _) => Iter(self, 2),
+            // each pair of indices has exactly one predecessor, so that none is found twice
+            Binary(_, _, _, _, _, _, 0) => Iter(self, 2),
+            Binary(_, _, _, _, _, _, _) => Iter(self, 1),
             Unary(_, _, _, _) => Iter(self, 1),
             _ => Iter(self, 0),
         }
-- 
2.43.0


From 99b709be02199dda8c7f4ad7e26a4e685cbafe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 34/44] fix: a beam of width zero is empty and does not panic

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 436d8b1..d5b7229 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -330,7 +330,11 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 let mut i = beam;
                 let worst_weight =
                     delta * heap_of_nonterminals.peek().map_or(W::zero(), |&(w, _)| w);
-                while let Some((w, q)) = heap_of_nonterminals.pop() {
+                while i > 0 {
+                    let (w, q) = match heap_of_nonterminals.pop() {
+                        Some(constituent) => constituent,
+                        None => break,
+                    };
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
@@ -345,7 +349,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                         },
                     ));
                     i -= 1;
-                    if i == 0 || w < worst_weight {
+                    if w < worst_weight {
                         break;
                     }
                 }
-- 
2.43.0


From 83b5551e11236bd3b2cb60ea0027a5deb18e15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 35/44] =?UTF-8?q?fix:=20Chomsky-Sch=C3=BCtzenberger=20pars?=
 =?UTF-8?q?ing=20is=20not=20limited=20to=20255=20tokens?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs |  4 ++--
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 10 +++++-----
 src/grammars/lcfrs/csparsing/mod.rs                 |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index a3fae21..ba94c51 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -298,8 +298,8 @@ impl<'a, W: Ord + Copy + Mul<Output = W> + Zero> Iterator for ChartIterator<'a,
         let &mut ChartIterator { initial, n, k, .. } = self;
         self.k += 1;
 
-        self.kth(0u8, n as u8, initial, k)
-            .map(|(backtrace, _)| self.read(0u8, n as u8, &backtrace))
+        self.kth(0, n as RangeT, initial, k)
+            .map(|(backtrace, _)| self.read(0, n as RangeT, &backtrace))
     }
 }
 
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index d5b7229..7d1261d 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -22,7 +22,7 @@ pub use self::rulemask::RuleMaskBuilder;
 
 pub type RuleIdT = u32;
 pub type StateT = u32;
-pub type RangeT = u8;
+pub type RangeT = u16;
 
 /// stores a lhs state and weight of a rule
 pub type BuRule<W> = (W, StateT);
@@ -291,7 +291,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
                         for &(rid, _) in initials {
-                            chart.add_terminal_rule(l as u8, rid);
+                            chart.add_terminal_rule(l as RangeT, rid);
                         }
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
                             if !rule_filter[rid as usize] {
@@ -305,7 +305,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
 
                 // binary step
                 for mid in l + 1..r {
-                    for &(lnt, lew) in chart.iterate_nont(l as u8, mid as u8) {
+                    for &(lnt, lew) in chart.iterate_nont(l as RangeT, mid as RangeT) {
                         let available_rules = &self.0[lnt as usize];
                         let cache = (NOSTATE, None);
                         heap_of_nonterminals.extend(available_rules.iter().filter_map(
@@ -316,7 +316,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 let riw = if cache.0 == rnt {
                                     cache.1
                                 } else {
-                                    chart.get_weight(mid as u8, r as u8, rnt)
+                                    chart.get_weight(mid as RangeT, r as RangeT, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
                                 Some((lew * ruw * riw, lhs))
@@ -338,7 +338,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
-                    chart.add_entry(l as u8, r as u8, q, w);
+                    chart.add_entry(l as RangeT, r as RangeT, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
                             if !rule_filter[rid as usize] {
diff --git a/src/grammars/lcfrs/csparsing/mod.rs b/src/grammars/lcfrs/csparsing/mod.rs
index 29a3cd8..9e8c98c 100644
--- a/src/grammars/lcfrs/csparsing/mod.rs
+++ b/src/grammars/lcfrs/csparsing/mod.rs
@@ -220,7 +220,7 @@ where
             Automaton::from_grammar(rules_with_id, initial.clone())
         };
         let rulemaskbuilder = RuleMaskBuilder::new(rules.iter(), &initial);
-        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u8);
+        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u16);
 
         CSRepresentation {
             generator,
-- 
2.43.0


From 21ec80b0cbf8944e6de61944d89963b721b7d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 36/44] fix: grammars with more than 65535 states can be parsed
 without a beam

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 1e67a80..eef39de 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -5,12 +5,12 @@ use std::ops::AddAssign;
 /// A chart for cfg parsing.
 #[derive(Debug, Clone)]
 pub struct DenseChart<W>(
-    Vec<u16>,         // no. of saved nonterminals per span
+    Vec<u32>,         // no. of saved nonterminals per span
     Vec<(StateT, W)>, // nonterminals with viterbi weigh per span (max <beam> entries)
     Vec<W>,           // viterbi weight per span and nonterminal
     usize,            // n
     usize,            // states
-    u16,              // max no. of constituents per span
+    u32,              // max no. of constituents per span
     Vec<Vec<RuleIdT>>, // terminal rules per position
 );
 
@@ -37,14 +37,14 @@ impl<W: Copy> DenseChart<W> {
     where
         W: Zero,
     {
-        assert!(bt_per_cell <= u16::max_value() as usize);
+        assert!(bt_per_cell <= u32::max_value() as usize);
         DenseChart(
             vec![ 0; chart_size(n) ],
             vec![ (0, W::zero()); chart_size(n) * bt_per_cell ],
             vec![ W::zero(); chart_size_with_states(n, states) ],
             n,
             states,
-            bt_per_cell as u16,
+            bt_per_cell as u32,
             vec![ Vec::new(); n ],
         )
     }
-- 
2.43.0


From 96bb2e252df034fb51c5bd288a109b861fefdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 37/44] fix: the coarse-to-fine option of tsa recognise is not
 ignored

---
 src/bin/tree_stack_automata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index b149be6..b4f6620 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -82,14 +82,14 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
                 None => None,
             };
 
-            match tsa_recognise_matches.value_of("strategies") {
+            match tsa_recognise_matches.value_of("coarse-to-fine") {
                 Some("tts") => {
                     let rec = coarse_to_fine_recogniser!(automaton; TTSElement::new());
 
                     recognise_corpus(rec, n, beam, corpus)
                 }
-                Some(e) => panic!("[ERR] Strategy \"{}\" unknown.", e),
-                None => recognise_corpus(automaton, n, beam, corpus),
+                Some(e) if !e.is_empty() => panic!("[ERR] Strategy \"{}\" unknown.", e),
+                _ => recognise_corpus(automaton, n, beam, corpus),
             }
         }
         _ => (),
-- 
2.43.0


From 8880dd5a65a3ec661151a7bab574712df023d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 38/44] fix: rules of a PMCFG are ordered by what makes them
 equal

---
 src/grammars/pmcfg/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index 66ef688..58ea763 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::hash::{Hash, Hasher};
@@ -130,7 +131,7 @@ impl<'a, T> IntoIterator for &'a mut Composition<T> {
 ///     PMCFGRule::from_str("A → [[T a, Var 0 0, T b], [T c, Var 0 1]] (A) # 0.4").unwrap()
 /// );
 /// ```
-#[derive(Debug, PartialOrd, Ord, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct PMCFGRule<N, T, W> {
     pub head: N,
     pub tail: Vec<N>,
@@ -211,6 +212,27 @@ impl<N: PartialEq, T: PartialEq, W> PartialEq for PMCFGRule<N, T, W> {
 
 impl<N: Eq, T: Eq, W> Eq for PMCFGRule<N, T, W> {}
 
+// like `PartialEq`, not by the weight
+impl<N: PartialOrd, T: PartialOrd, W> PartialOrd for PMCFGRule<N, T, W> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        (&self.head, &self.tail, &self.composition).partial_cmp(&(
+            &other.head,
+            &other.tail,
+            &other.composition,
+        ))
+    }
+}
+
+impl<N: Ord, T: Ord, W> Ord for PMCFGRule<N, T, W> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (&self.head, &self.tail, &self.composition).cmp(&(
+            &other.head,
+            &other.tail,
+            &other.composition,
+        ))
+    }
+}
+
 impl<T: fmt::Display> fmt::Display for Composition<T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
-- 
2.43.0


From 3246892204031e38de707c444e401e2ae4b93fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 39/44] fix: a malformed rparse clause is an error, neither a
 panic nor the end of the grammar

---
 src/grammars/lcfrs/from_rparse.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/grammars/lcfrs/from_rparse.rs b/src/grammars/lcfrs/from_rparse.rs
index 165890c..0db88e1 100644
--- a/src/grammars/lcfrs/from_rparse.rs
+++ b/src/grammars/lcfrs/from_rparse.rs
@@ -51,21 +51,29 @@ where
             tag!("\n"),
             do_parse!(
                 terminated!(digit, space)
-                    >> weight: take_while1!(|c| is_token(c) && c != ':')
+                    >> weight: map_res!(
+                        take_while1!(|c| is_token(c) && c != ':'),
+                        FromStr::from_str
+                    )
                     >> tag!(":")
-                    >> lhs: take_while1!(is_token)
+                    >> lhs: map_res!(take_while1!(is_token), FromStr::from_str)
                     >> delimited!(space, tag!("-->"), space)
-                    >> rhs1: take_while1!(is_token)
+                    >> rhs1: map_res!(take_while1!(is_token), FromStr::from_str)
                     >> space
-                    >> o_rhs2: opt!(delimited!(not!(tag!("[[[")), take_while1!(is_token), space))
+                    >> o_rhs2:
+                        opt!(delimited!(
+                            not!(tag!("[[[")),
+                            map_res!(take_while1!(is_token), FromStr::from_str),
+                            space
+                        ))
                     >> y: complete!(parse_rparse_yield)
                     >> (
-                        weight.parse().unwrap(),
-                        lhs.parse().unwrap(),
+                        weight,
+                        lhs,
                         if let Some(rhs2) = o_rhs2 {
-                            Rhs::Binary(rhs1.parse().unwrap(), rhs2.parse().unwrap())
+                            Rhs::Binary(rhs1, rhs2)
                         } else {
-                            Rhs::Chain(rhs1.parse().unwrap())
+                            Rhs::Chain(rhs1)
                         },
                         y
                     )
@@ -85,7 +93,8 @@ where
     type Err = ();
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_rparse_clauses(s) {
-            IResult::Done(_, clauses) => Ok(clauses),
+            // a clause that cannot be read must not end the grammar early
+            IResult::Done(rest, clauses) if rest.trim().is_empty() => Ok(clauses),
             _ => Err(()),
         }
     }
-- 
2.43.0


From 832c9d2a5504da974b8257eafed2bd3dd783f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 40/44] fix: rules of a CFG are ordered by what makes them
 equal

---
 src/grammars/cfg/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/grammars/cfg/mod.rs b/src/grammars/cfg/mod.rs
index ad390d4..c9b6fd3 100644
--- a/src/grammars/cfg/mod.rs
+++ b/src/grammars/cfg/mod.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::fmt;
 use std::hash::{Hash, Hasher};
 
@@ -42,7 +43,7 @@ impl<N, T> From<Vec<LetterT<N, T>>> for CFGComposition<N, T> {
 ///     CFGRule::from_str("S → [T a, Nt S, T b] # 0.4").unwrap()
 /// );
 /// ```
-#[derive(Debug, PartialOrd, Ord, Clone)]
+#[derive(Debug, Clone)]
 pub struct CFGRule<N, T, W> {
     pub head: N,
     pub composition: CFGComposition<N, T>,
@@ -91,6 +92,19 @@ impl<N: PartialEq, T: PartialEq, W> PartialEq for CFGRule<N, T, W> {
 
 impl<N: Eq, T: Eq, W> Eq for CFGRule<N, T, W> {}
 
+// like `PartialEq`, not by the weight
+impl<N: PartialOrd, T: PartialOrd, W> PartialOrd for CFGRule<N, T, W> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        (&self.head, &self.composition).partial_cmp(&(&other.head, &other.composition))
+    }
+}
+
+impl<N: Ord, T: Ord, W> Ord for CFGRule<N, T, W> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (&self.head, &self.composition).cmp(&(&other.head, &other.composition))
+    }
+}
+
 impl<N: fmt::Display, T: fmt::Display> fmt::Display for CFGComposition<N, T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
-- 
2.43.0


From dc87453e42386fa880f860cca9ace646c43977a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 41/44] fix: coarse-to-fine recognition can be used with a beam

---
 src/recognisable/coarse_to_fine.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 99cf67b..be770ab 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -143,10 +143,16 @@ where
 
     fn recognise_beam_search<'a>(
         &'a self,
-        _: usize,
-        _: Vec<T>,
+        beam: usize,
+        word: Vec<T>,
     ) -> Box<dyn Iterator<Item = Self::Parse> + 'a> {
-        unimplemented!()
+        Box::new(CoarseToFineParseForest {
+            sublevel_parses: self.sublevel.recognise_beam_search(beam, word),
+            recogniser: self.recogniser.clone(),
+            approximation_instance: self.approximation_instance.clone(),
+            input_buffer: None,
+            output_buffer: BinaryHeap::new(),
+        })
     }
 }
 
-- 
2.43.0


From f7d4aa504124cdd7a80f64ac37fd81b3faf31afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 42/44] fix: terminals of a printed transition are written as
 they are read

---
 src/automata/tree_stack_automaton/mod.rs |  4 ++--
 src/recognisable/transition.rs           | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index 4a4ca08..7bf3fc9 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -2,7 +2,7 @@ extern crate num_traits;
 
 use std::collections::{BinaryHeap, HashMap};
 use std::convert::From;
-use std::fmt::{self, Debug, Display};
+use std::fmt::{self, Display};
 use std::hash::Hash;
 use std::ops::{Mul, MulAssign};
 use std::rc::Rc;
@@ -234,7 +234,7 @@ where
 impl<A, T, W> Display for TreeStackAutomaton<A, T, W>
 where
     A: Ord + PartialEq + Clone + Hash + Display,
-    T: Clone + Eq + Debug + Hash + Ord,
+    T: Clone + Eq + Display + Hash + Ord,
     W: One + Mul<Output = W> + Clone + Copy + Eq + Ord + Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
diff --git a/src/recognisable/transition.rs b/src/recognisable/transition.rs
index b06058f..7763737 100644
--- a/src/recognisable/transition.rs
+++ b/src/recognisable/transition.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::fmt::{self, Debug, Display};
+use std::fmt::{self, Display};
 use std::hash::{Hash, Hasher};
 use std::ops::Mul;
 
@@ -145,14 +145,18 @@ where
 impl<I, T, W> Display for Transition<I, T, W>
 where
     I: Display,
-    T: Debug,
+    T: Display,
     W: Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        // the symbols are written as `parse_token` reads them
+        let word: Vec<String> = self.word.iter().map(|t| format!("\"{}\"", t)).collect();
         write!(
             f,
-            "Transition {:?} {}  # {}",
-            self.word, self.instruction, self.weight
+            "Transition [{}] {}  # {}",
+            word.join(", "),
+            self.instruction,
+            self.weight
         )
     }
 }
-- 
2.43.0


From fe3b9d136d460e1e30c5a30a94e3cc47b8c78ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 43/44] fix: the initial label of a printed tree-stack
 automaton is quoted like other symbols

---
 src/automata/tree_stack_automaton/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index 7bf3fc9..d237e0b 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -245,7 +245,7 @@ where
         }
         write!(
             f,
-            "initial: {}\n\n{}",
+            "initial: \"{}\"\n\n{}",
             self.initial().current_symbol(),
             formatted_transitions
         )
-- 
2.43.0


From 6140f3ab634297b83b4ce814e85b510f58478337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 44/44] fix: rules of a PMCFG that differ only in their weights
 do not multiply the runs of its automaton

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 02feda7..67203e6 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -122,7 +122,13 @@ impl<
         // each [r, [r₁, …, rₖ]] on the agenda signifies that r(r₁(…), …, rₖ(…)) is a possible subderivation
         let mut agenda: Vec<DerivationSnippet<N, T, W>> = Vec::new();
 
+        // rules that differ only in their weights share all transitions but those that push them
+        let mut rules = BTreeSet::new();
+
         for r in g.rules {
+            if !rules.insert(r.clone()) {
+                continue;
+            }
             agenda.push((
                 r.clone(),
                 r.tail
@@ -202,6 +208,12 @@ impl<
             }
         }
 
+        let mut moves = BTreeSet::new();
+        transitions.retain(|t| match t.instruction {
+            TreeStackInstruction::Push { .. } => true,
+            _ => moves.insert((t.word.clone(), t.instruction.clone())),
+        });
+
         TreeStackAutomaton::new(transitions, TreeStack::new(PosState::Initial))
     }
 }
-- 
2.43.0

