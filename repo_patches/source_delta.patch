From 8f9c3259ad42c2c4b063d757fabc632425c79b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 01/14] fix: :adl contains :conditional-effects and the
 quantified preconditions

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..652a0bf 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -147,6 +147,9 @@ impl Requirement {
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ExistentialPreconditions // via Self::QuantifiedPreconditions
+                    || other == Self::UniversalPreconditions // via Self::QuantifiedPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From 34713a1e84a3795af3a27918b9d4fea10140178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 02/14] fix: numbers beyond the range of f32 are an error
 instead of a panic

---
 src/parsers/number.rs | 4 ++--
 src/types/number.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..55ace99 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |x| Number::try_new(x).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From 0655cd7d39c871db2088aedd0956bf8b6ee18971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 03/14] fix: equality and partial order of Number agree with
 its total order and hash for negative zero

---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..7ed09f5 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        Ord::cmp(self, &value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(Ord::cmp(self, other))
     }
 }
 
-- 
2.43.0


From 1856ec354bed16bba0302ea583babee7201ab032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 04/14] fix: names with the same text are equal and hash alike
 however they were constructed

---
 src/types/name.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..ff58519 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone, Eq)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,21 @@ impl Deref for NameVariant {
     }
 }
 
+impl PartialEq for NameVariant {
+    /// Names are equal if their texts are equal, regardless of how they are stored.
+    fn eq(&self, other: &Self) -> bool {
+        let (lhs, rhs): (&str, &str) = (self, other);
+        lhs == rhs
+    }
+}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let text: &str = self;
+        text.hash(state);
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 0c89204c911f7c828298d42b1114333ea38de950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 05/14] fix: a type name that merely starts with "object" is
 not cut short

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From dfe790a4c3f1851d62bc48741e26f8d3c37bfd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 06/14] fix: an empty comment is a comment

---
 src/parsers/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..46ace98 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -35,7 +35,7 @@ pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()
     value(
         (), // Output is thrown away.
         opt(terminated(
-            pair(char(';'), is_not("\r\n")),
+            pair(char(';'), opt(is_not("\r\n"))),
             tuple((multispace0, opt(ignore_eol_comment))),
         )),
     )(input.into())
-- 
2.43.0


From 2bb81d8079ae4c42cbf114038e2cb4e684dcbe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 07/14] fix: whitespace and comments before a closing
 parenthesis are skipped

---
 src/parsers/function_term.rs | 4 ++--
 src/parsers/utilities.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..cc1ccaf 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -75,7 +75,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From 3c731b9883a9b8ef7f73811da80e35298e90e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 08/14] fix: whitespace inside an empty pair of parentheses is
 skipped

---
 src/parsers/duration_constraint.rs | 4 +++-
 src/parsers/empty_or.rs            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..f4e52a2 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -2,7 +2,9 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
+use nom::character::complete::multispace0;
 use nom::combinator::map;
+use nom::sequence::tuple;
 
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
 use crate::parsers::{prefix_expr, space_separated_list1};
@@ -60,7 +62,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(tuple((tag("("), multispace0, tag(")"))), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..c442145 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -2,8 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
+use nom::character::complete::multispace0;
 use nom::combinator::map;
 use nom::error::ParseError;
+use nom::sequence::tuple;
 
 use crate::parsers::{ParseResult, Span};
 
@@ -26,7 +28,7 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    let empty_parser = map(tuple((tag("("), multispace0, tag(")"))), |_| None);
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
-- 
2.43.0


From f7d9d1be33df141c3d0589c62322717c7dfc6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 09/14] fix: comments between the sections of an action are
 skipped

---
 src/parsers/action_def.rs |  2 +-
 src/parsers/da_def.rs     | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..b0b360a 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -70,7 +70,7 @@ pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Acti
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(multispace1, ws(parameters)),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..51afda6 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for durative action definitions.
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ws, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
@@ -75,11 +75,11 @@ pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durative
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(multispace1, ws(parameters)),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(multispace1, ws(duration)),
+            preceded(multispace1, ws(condition)),
+            preceded(multispace1, ws(effect)),
         )),
     );
 
-- 
2.43.0


From 12624955672e3d6b3b41b9210fbe4cddc06928a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 10/14] fix: a keyword is not recognised as the prefix of a
 longer word

---
 src/parsers/metric_f_exp.rs |  5 ++---
 src/parsers/mod.rs          |  2 +-
 src/parsers/utilities.rs    | 21 ++++++++++++++++++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..32e0ba7 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -115,7 +114,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..b206e8a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index cc1ccaf..d047799 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,8 +1,10 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
+use nom::combinator::not;
 use nom::multi::{separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded};
 
@@ -13,7 +15,24 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), keyword(name)),
+        ws(inner),
+        ws(tag(")")),
+    )
+}
+
+/// A parser for the keyword `name`. If it is a word, it must not be followed by characters
+/// that would make it a longer name.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    let is_word = name.ends_with(|c: char| c.is_ascii_alphanumeric());
+    move |input| {
+        let (remainder, keyword) = tag(name)(input)?;
+        if is_word {
+            not(parse_any_char)(remainder)?;
+        }
+        Ok((remainder, keyword))
+    }
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
-- 
2.43.0


From c8be1351c50984663c8ee40293b51488b8a0b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 11/14] fix: any whitespace may separate the words of "(at end
 ...)"

---
 src/parsers/con_gd.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..6935fbc 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    keyword, parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0,
+    typed_list, ws, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
@@ -174,7 +174,10 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(keyword("end"), ws(parse_gd))),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From 5d86b7d1ac7ea9dd4aef0344a945f6213681fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 12/14] hook: read access to the timeless literals of a domain
 under cfg(pddl_verif)

---
 src/types/domain.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/domain.rs b/src/types/domain.rs
index 43ceb55..dbf0177 100644
--- a/src/types/domain.rs
+++ b/src/types/domain.rs
@@ -208,6 +208,13 @@ impl Domain {
         self.constraints.value()
     }
 
+    /// Returns the timeless literals (verification hook).
+    #[cfg(pddl_verif)]
+    #[allow(missing_docs)]
+    pub const fn timeless(&self) -> &Timeless {
+        &self.timeless
+    }
+
     /// Returns the domain structure definitions.
     pub const fn structure(&self) -> &StructureDefs {
         &self.structure
-- 
2.43.0


From b7b28873f6508e465815ddae659f7102cdac8064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 13/14] fix: a modal operator nested in a constraint is not
 read as an atomic formula

---
 src/parsers/con_gd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 6935fbc..22c17b3 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -265,7 +265,8 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    // A modal operator also reads as a predicate symbol, hence the constraint goes first.
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From c2f5f113f28d0fb5a114361d606c051c7387870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 14/14] fix: hash and order requirements like the text they
 borrow as

Requirement implements Borrow<str>, but hashed and ordered by its
discriminant, so that looking up a requirement by its key in a HashSet or
BTreeSet failed although the requirement was present.
---
 src/types/requirement.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 652a0bf..f827c6b 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -1,7 +1,9 @@
 //! Contains domain requirements such as [Strips](Requirement::Strips).
 
 use std::borrow::Borrow;
+use std::cmp::Ordering;
 use std::fmt::{Display, Formatter};
+use std::hash::{Hash, Hasher};
 
 /// Domain requirements.
 ///
@@ -15,7 +17,7 @@ use std::fmt::{Display, Formatter};
 ///
 /// ## References
 /// - "Complete BNF description of PDDL 3.1 (completely corrected)", Daniel L. Kovacs (`dkovacs@mit.bme.hu`).
-#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Default)]
+#[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
 pub enum Requirement {
     /// Basic STRIPS-style adds and deletes.
     #[default]
@@ -257,6 +259,25 @@ impl Borrow<str> for Requirement {
     }
 }
 
+// Hashing and ordering must agree with the borrowed `str`, see `Borrow<str>`.
+impl Hash for Requirement {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state)
+    }
+}
+
+impl Ord for Requirement {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
+impl PartialOrd for Requirement {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl AsRef<str> for Requirement {
     fn as_ref(&self) -> &str {
         self.as_str()
-- 
2.43.0

