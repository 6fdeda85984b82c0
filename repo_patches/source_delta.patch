From 85c36d4fb366c42ef5b63eb5814d53571509294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 01/11] fix: do not split type names that start with 'object'

---
 src/parsers/primitive_type.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..98866f3 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,9 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    // The well-known type `object` has the syntax of a name; matching it as a keyword
+    // first would cut names that merely start with it (e.g. `object-type`) short.
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From 7da741ef3d4740afcb91460eb00c496504b38771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 02/11] fix: accept white space, comments and adjoining
 parentheses wherever PDDL allows them

A closing parenthesis could not follow white space or a comment in parens()
and function terms, an empty comment was not a comment, a comment could not
separate two elements, an opening parenthesis needed white space before it,
and '(at end' and '(=' had to be spelt with exactly that spacing.
---
 src/parsers/action_def.rs                 | 13 +++---
 src/parsers/atomic_formula.rs             |  4 +-
 src/parsers/c_effect.rs                   |  6 +--
 src/parsers/comments.rs                   | 10 ++---
 src/parsers/con_gd.rs                     | 28 +++++++------
 src/parsers/da_def.rs                     | 18 ++++----
 src/parsers/da_effect.rs                  |  6 +--
 src/parsers/da_gd.rs                      |  4 +-
 src/parsers/derived_predicate.rs          |  7 +---
 src/parsers/domain.rs                     | 18 ++++----
 src/parsers/duration_constraint.rs        |  5 ++-
 src/parsers/empty_or.rs                   | 10 ++++-
 src/parsers/f_assign_da.rs                |  6 +--
 src/parsers/f_comp.rs                     |  6 +--
 src/parsers/f_exp.rs                      | 13 +++---
 src/parsers/f_exp_da.rs                   | 13 +++---
 src/parsers/f_exp_t.rs                    |  6 +--
 src/parsers/f_head.rs                     |  4 +-
 src/parsers/function_term.rs              |  4 +-
 src/parsers/function_typed_list.rs        |  2 +-
 src/parsers/gd.rs                         |  8 ++--
 src/parsers/init_el.rs                    | 11 ++---
 src/parsers/metric_f_exp.rs               | 16 ++++---
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   | 10 ++---
 src/parsers/pre_gd.rs                     |  4 +-
 src/parsers/pref_con_gd.rs                |  6 +--
 src/parsers/pref_gd.rs                    |  4 +-
 src/parsers/pref_timed_gd.rs              |  7 +---
 src/parsers/problem.rs                    | 18 ++++----
 src/parsers/simple_duration_constraint.rs |  6 +--
 src/parsers/timed_effect.rs               | 16 +++----
 src/parsers/timed_gd.rs                   |  6 +--
 src/parsers/typed_list.rs                 |  2 +-
 src/parsers/utilities.rs                  | 51 ++++++++++++++++-------
 35 files changed, 182 insertions(+), 168 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..bcfca72 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for action definitions.
 
+use crate::parsers::separator;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
@@ -55,22 +55,19 @@ use crate::types::ActionDefinition;
 pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ActionDefinition> {
     let precondition = preceded(
         tag(":precondition"),
-        preceded(multispace1, empty_or(parse_pre_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_effect)),
+        preceded(separator, empty_or(parse_pre_gd)),
     );
+    let effect = preceded(tag(":effect"), preceded(separator, empty_or(parse_effect)));
     let action_def_body = tuple((opt(ws(precondition)), opt(ws(effect))));
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
     let action_def = prefix_expr(
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..eac39a0 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -7,7 +7,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::{delimited, pair, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
 ///
@@ -31,7 +31,7 @@ where
 {
     let equality = map(
         delimited(
-            ws(tag("(=")),
+            pair(ws(tag("(")), ws(tag("="))),
             tuple((ws(inner.clone()), ws(inner.clone()))),
             ws(char(')')),
         ),
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..c3fbefe 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for c-effects.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -130,7 +130,7 @@ pub fn parse_forall_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a,
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_effect),
+                preceded(separator, parse_effect),
             )),
         ),
         ForallCEffect::from,
@@ -186,7 +186,7 @@ pub fn parse_when_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, W
     map(
         prefix_expr(
             "when",
-            tuple((parse_gd, preceded(multispace1, parse_cond_effect))),
+            tuple((parse_gd, preceded(separator, parse_cond_effect))),
         ),
         WhenCEffect::from,
     )(input.into())
diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..1495867 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,8 +1,9 @@
 use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
 use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
-use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
+use nom::multi::many0_count;
+use nom::sequence::tuple;
+use nom::{bytes::complete::is_not, combinator::value};
 
 /// Parses a comment and swallows trailing whitespace / newline.
 ///
@@ -34,10 +35,7 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
-        )),
+        many0_count(tuple((char(';'), opt(is_not("\r\n")), multispace0))),
     )(input.into())
 }
 
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..770b853 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,14 +1,15 @@
 //! Provides parsers for conditional goal definitions.
 
+use crate::parsers::separator;
 use crate::parsers::{
     parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
     ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
+use nom::bytes::complete::tag;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{pair, preceded, tuple};
 
 /// Parses conditional goal definitions.
 ///
@@ -168,13 +169,16 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_con_gd),
+                preceded(separator, parse_con_gd),
             )),
         ),
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(pair(tag("end"), separator), parse_gd)),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
@@ -183,7 +187,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let within = map(
         prefix_expr(
             "within",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(num, gd)| ConGD::new_within(num, gd),
     );
@@ -196,7 +200,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_after = map(
         prefix_expr(
             "sometime-after",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_after(a, b),
     );
@@ -204,7 +208,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_before = map(
         prefix_expr(
             "sometime-before",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_before(a, b),
     );
@@ -214,8 +218,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "always-within",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_con2_gd),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(num, a, b)| ConGD::new_always_within(num, a, b),
@@ -226,8 +230,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "hold-during",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_number),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_number),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),
@@ -236,7 +240,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let hold_after = map(
         prefix_expr(
             "hold-after",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(time, gd)| ConGD::new_hold_after(time, gd),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..2e47cbf 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for durative action definitions.
 
+use crate::parsers::separator;
 use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,31 +55,31 @@ use nom::sequence::{preceded, tuple};
 pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, DurativeActionDefinition> {
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
 
     let duration = preceded(
         tag(":duration"),
-        preceded(multispace1, parse_duration_constraint),
+        preceded(separator, parse_duration_constraint),
     );
     let condition = preceded(
         tag(":condition"),
-        preceded(multispace1, empty_or(parse_da_gd)),
+        preceded(separator, empty_or(parse_da_gd)),
     );
     let effect = preceded(
         tag(":effect"),
-        preceded(multispace1, empty_or(parse_da_effect)),
+        preceded(separator, empty_or(parse_da_effect)),
     );
 
     let da_def = prefix_expr(
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(separator, duration),
+            preceded(separator, condition),
+            preceded(separator, effect),
         )),
     );
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..19eba0e 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action effects.
 
+use crate::parsers::separator;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -90,7 +90,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_effect),
+                preceded(separator, parse_da_effect),
             )),
         ),
         DurativeActionEffect::from,
@@ -100,7 +100,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
     let when = map(
         prefix_expr(
             "when",
-            tuple((parse_da_gd, preceded(multispace1, parse_timed_effect))),
+            tuple((parse_da_gd, preceded(separator, parse_timed_effect))),
         ),
         DurativeActionEffect::from,
     );
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..9b5213b 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action goal definitions.
 
+use crate::parsers::separator;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -99,7 +99,7 @@ pub fn parse_da_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_gd),
+                preceded(separator, parse_da_gd),
             )),
         ),
         |(vars, gd)| DurativeActionGoalDefinition::new_forall(vars, gd),
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..1e8b6e8 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
+use crate::parsers::separator;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -31,10 +31,7 @@ pub fn parse_derived_predicate<'a, T: Into<Span<'a>>>(
     map(
         prefix_expr(
             ":derived",
-            tuple((
-                parse_atomic_formula_skeleton,
-                preceded(multispace1, parse_gd),
-            )),
+            tuple((parse_atomic_formula_skeleton, preceded(separator, parse_gd))),
         ),
         DerivedPredicate::from,
     )(input.into())
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..40719a1 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::separator;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
@@ -66,20 +66,20 @@ pub fn parse_domain<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Domain>
             tuple((
                 prefix_expr("domain", parse_name),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     prefix_expr(":extends", space_separated_list1(parse_name)),
                 )),
-                opt(preceded(multispace1, parse_require_def)),
+                opt(preceded(separator, parse_require_def)),
                 // :typing
-                opt(preceded(multispace1, parse_types_def)),
-                opt(preceded(multispace1, parse_constants_def)),
-                opt(preceded(multispace1, parse_predicates_def)),
+                opt(preceded(separator, parse_types_def)),
+                opt(preceded(separator, parse_constants_def)),
+                opt(preceded(separator, parse_predicates_def)),
                 // :fluents
-                opt(preceded(multispace1, parse_functions_def)),
+                opt(preceded(separator, parse_functions_def)),
                 // :constraints
-                opt(preceded(multispace1, parse_domain_constraints_def)),
+                opt(preceded(separator, parse_domain_constraints_def)),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     map(
                         space_separated_list1(parse_structure_def),
                         StructureDefs::new,
diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..c74bb23 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -3,9 +3,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
+use nom::sequence::pair;
 
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
+use crate::parsers::{prefix_expr, space_separated_list1, ws};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +61,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(pair(tag("("), ws(tag(")"))), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..291db1b 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -2,10 +2,12 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
+use nom::character::complete::multispace0;
 use nom::combinator::map;
 use nom::error::ParseError;
+use nom::sequence::tuple;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 
 /// Parser combinator that takes a parser `inner` and produces a parser that
 /// consumes `()` and returns [`None`] or the result of `inner` and produces [`Some(O)`](Some).
@@ -26,7 +28,11 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    let comment = |input| ignore_eol_comment(input).or(Ok((input, ())));
+    let empty_parser = map(
+        tuple((tag("("), multispace0, comment, tag(")"))),
+        |_: (Span, Span, (), Span)| None,
+    );
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..aae3e3d 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,9 @@
 //! Provides parsers for f-assign-das.
 
+use crate::parsers::separator;
 use crate::parsers::{parens, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -18,8 +18,8 @@ pub fn parse_f_assign_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FAs
     map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_da),
         ))),
         FAssignDa::from,
     )(input.into())
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..a6aa42f 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
+use crate::parsers::separator;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -34,8 +34,8 @@ pub fn parse_f_comp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FComp> {
     map(
         parens(tuple((
             parse_binary_comp,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         FComp::from,
     )(input.into())
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..fb229eb 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,7 +1,8 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::{separator, ws};
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -53,8 +54,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
     );
@@ -63,15 +64,15 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
+            preceded(separator, parse_f_exp),
+            preceded(separator, space_separated_list1(parse_f_exp)),
         ))),
         |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
     );
 
     // :numeric-fluents
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
+        parens(preceded(char('-'), ws(parse_f_exp))),
         FExp::new_negative,
     );
 
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..2685f4e 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,8 +1,9 @@
 //! Provides parsers for f-exp-da values..
 
+use crate::parsers::{separator, ws};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -43,8 +44,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
         ))),
         |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
     );
@@ -52,14 +53,14 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, space_separated_list1(parse_f_exp_da)),
         ))),
         |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
+        parens(preceded(char('-'), ws(parse_f_exp_da))),
         FExpDa::new_negative,
     );
 
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..aa9e0f9 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::separator;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -46,8 +46,8 @@ pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT>
         prefix_expr(
             "*",
             alt((
-                preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                preceded(tuple((tag("#t"), separator)), parse_f_exp),
+                terminated(parse_f_exp, tuple((separator, tag("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..3402741 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for f-heads.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -35,7 +35,7 @@ pub fn parse_f_head<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FHead> {
     let with_terms = map(
         parens(tuple((
             parse_function_symbol,
-            preceded(multispace1, space_separated_list0(parse_term)),
+            preceded(separator, space_separated_list0(parse_term)),
         ))),
         |(symbol, terms)| FHead::new_with_terms(symbol, terms),
     );
diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
diff --git a/src/parsers/function_typed_list.rs b/src/parsers/function_typed_list.rs
index 78696d9..0601f62 100644
--- a/src/parsers/function_typed_list.rs
+++ b/src/parsers/function_typed_list.rs
@@ -47,7 +47,7 @@ where
     let explicitly_typed = map(
         tuple((
             space_separated_list1(inner.clone()),
-            preceded(ws(char('-')), parse_type),
+            preceded(ws(char('-')), ws(parse_type)),
         )),
         |(os, t)| {
             os.into_iter()
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..8ff67e8 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -157,7 +157,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
 
     // :disjunctive-preconditions
     let imply = map(
-        prefix_expr("imply", tuple((parse_gd, preceded(multispace1, parse_gd)))),
+        prefix_expr("imply", tuple((parse_gd, preceded(separator, parse_gd)))),
         GoalDefinition::new_imply_tuple,
     );
 
@@ -167,7 +167,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "exists",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_exists_tuple,
@@ -179,7 +179,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_forall_tuple,
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..5f4017f 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for initial state list elements.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -60,7 +60,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_number, preceded(multispace1, literal(parse_name)))),
+            tuple((parse_number, preceded(separator, literal(parse_name)))),
         ),
         |(time, name)| InitElement::new_at(time, name),
     );
@@ -69,10 +69,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_numeric = map(
         prefix_expr(
             "=",
-            tuple((
-                parse_basic_function_term,
-                preceded(multispace1, parse_number),
-            )),
+            tuple((parse_basic_function_term, preceded(separator, parse_number))),
         ),
         |(fun, value)| InitElement::new_is_value(fun, value),
     );
@@ -81,7 +78,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_object = map(
         prefix_expr(
             "=",
-            tuple((parse_basic_function_term, preceded(multispace1, parse_name))),
+            tuple((parse_basic_function_term, preceded(separator, parse_name))),
         ),
         |(fun, name)| InitElement::new_is_object(fun, name),
     );
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..a2b0af2 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::separator;
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     space_separated_list0, space_separated_list1, ws, ParseResult, Span,
@@ -8,7 +9,7 @@ use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -79,8 +80,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
     );
@@ -88,17 +89,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, space_separated_list1(parse_metric_f_exp)),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
+        parens(preceded(char('-'), ws(parse_metric_f_exp))),
         MetricFExp::new_negative,
     );
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..1b84291 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..faea02a 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for p-effects.
 
+use crate::parsers::separator;
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
     ParseResult, Span,
@@ -8,7 +9,6 @@ use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -76,8 +76,8 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let numeric = map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),
     );
@@ -86,14 +86,14 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((multispace1, tag("undefined")))),
+            terminated(parse_function_term, tuple((separator, tag("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
     let object = map(
         prefix_expr(
             "assign",
-            tuple((parse_function_term, preceded(multispace1, parse_term))),
+            tuple((parse_function_term, preceded(separator, parse_term))),
         ),
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..9af06c6 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -84,7 +84,7 @@ pub fn parse_pre_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pre_gd),
+                preceded(separator, parse_pre_gd),
             )),
         ),
         |(vars, gd)| {
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..15af7c2 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for preferred goal definitions.
 
+use crate::parsers::separator;
 use crate::parsers::{
     parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
     typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -92,7 +92,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pref_con_gd),
+                preceded(separator, parse_pref_con_gd),
             )),
         ),
         |(vars, gd)| PrefConGDs::new_forall(vars, gd),
@@ -102,7 +102,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
     let named_preference = map(
         prefix_expr(
             "preference",
-            tuple((parse_pref_name, preceded(multispace1, parse_con_gd))),
+            tuple((parse_pref_name, preceded(separator, parse_con_gd))),
         ),
         |(name, gd)| PrefConGDs::new_preference(Some(name), gd),
     );
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..6a7a8cc 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for preference goal definitions.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
@@ -62,7 +62,7 @@ pub fn parse_pref_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Prefere
     let pref_named = map(
         prefix_expr(
             "preference",
-            tuple((opt(parse_pref_name), preceded(multispace1, parse_gd))),
+            tuple((opt(parse_pref_name), preceded(separator, parse_gd))),
         ),
         |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
     );
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..5b6b350 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
+use crate::parsers::separator;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
@@ -67,10 +67,7 @@ pub fn parse_pref_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, P
     let preference = map(
         prefix_expr(
             "preference",
-            tuple((
-                opt(terminated(parse_pref_name, multispace1)),
-                parse_timed_gd,
-            )),
+            tuple((opt(terminated(parse_pref_name, separator)), parse_timed_gd)),
         ),
         PrefTimedGD::from,
     );
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..9e100da 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::separator;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
@@ -42,17 +42,17 @@ pub fn parse_problem<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Problem
             "define",
             tuple((
                 prefix_expr("problem", parse_name),
-                preceded(multispace1, prefix_expr(":domain", parse_name)),
-                opt(preceded(multispace1, parse_require_def)),
-                opt(preceded(multispace1, parse_problem_objects_declaration)),
-                preceded(multispace1, parse_problem_init_def),
-                preceded(multispace1, parse_problem_goal_def),
+                preceded(separator, prefix_expr(":domain", parse_name)),
+                opt(preceded(separator, parse_require_def)),
+                opt(preceded(separator, parse_problem_objects_declaration)),
+                preceded(separator, parse_problem_init_def),
+                preceded(separator, parse_problem_goal_def),
                 // :constraints
-                opt(preceded(multispace1, parse_problem_constraints_def)),
+                opt(preceded(separator, parse_problem_constraints_def)),
                 // :numeric-fluents
-                opt(preceded(multispace1, parse_problem_metric_spec)),
+                opt(preceded(separator, parse_problem_metric_spec)),
                 // Deprecated since PDDL 2.1
-                opt(preceded(multispace1, parse_problem_length_spec)),
+                opt(preceded(separator, parse_problem_length_spec)),
             )),
         )),
         |(name, domain, reqs, objects, init, goal, constraints, metric, length)| {
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..b06cd65 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for simple duration constraints.
 
+use crate::parsers::separator;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,7 +42,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
         parens(tuple((
             parse_d_op,
             preceded(
-                tuple((multispace1, tag("?duration"), multispace1)),
+                tuple((separator, tag("?duration"), separator)),
                 parse_d_value,
             ),
         ))),
@@ -54,7 +54,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
             "at",
             tuple((
                 parse_time_specifier,
-                preceded(multispace1, parse_simple_duration_constraint),
+                preceded(separator, parse_simple_duration_constraint),
             )),
         ),
         SimpleDurationConstraint::from,
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..200e160 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for timed effects.
 
+use crate::parsers::separator;
 use crate::parsers::{parens, prefix_expr, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
@@ -7,7 +8,6 @@ use crate::parsers::{
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,10 +55,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let cond = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_cond_effect),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_cond_effect))),
         ),
         TimedEffect::from,
     );
@@ -67,10 +64,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let fluent = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_f_assign_da),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_f_assign_da))),
         ),
         TimedEffect::from,
     );
@@ -79,8 +73,8 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let continuous = map(
         parens(tuple((
             parse_assign_op_t,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_t),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_t),
         ))),
         TimedEffect::from,
     );
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..6512c63 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for timed goal definitions.
 
+use crate::parsers::separator;
 use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,7 +42,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_time_specifier, preceded(multispace1, parse_gd))),
+            tuple((parse_time_specifier, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
@@ -50,7 +50,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let over = map(
         prefix_expr(
             "over",
-            tuple((parse_interval, preceded(multispace1, parse_gd))),
+            tuple((parse_interval, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
diff --git a/src/parsers/typed_list.rs b/src/parsers/typed_list.rs
index 62e4140..cd2ce85 100644
--- a/src/parsers/typed_list.rs
+++ b/src/parsers/typed_list.rs
@@ -57,7 +57,7 @@ where
     let explicitly_typed = map(
         tuple((
             space_separated_list1(inner.clone()),
-            preceded(ws(char('-')), parse_type),
+            preceded(ws(char('-')), ws(parse_type)),
         )),
         |(os, t)| {
             os.into_iter()
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..a6cbc5d 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -2,9 +2,9 @@
 
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
-use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded};
+use nom::character::complete::{char, multispace0};
+use nom::combinator::{map, opt, peek, recognize, value};
+use nom::sequence::{delimited, pair, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -13,7 +13,11 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(tag(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
@@ -49,22 +53,41 @@ pub fn space_separated_list0<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> Pars
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list0(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    map(opt(space_separated_list1(inner)), Option::unwrap_or_default)
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
-pub fn space_separated_list1<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
+pub fn space_separated_list1<'a, F, O>(
+    mut inner: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list1(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    move |input| {
+        let (mut rest, first) = ws(&mut inner)(input)?;
+        let mut list = vec![first];
+        loop {
+            match preceded(separator, &mut inner)(rest) {
+                Ok((next, item)) => {
+                    rest = next;
+                    list.push(item);
+                }
+                Err(nom::Err::Error(_)) => return Ok((rest, list)),
+                Err(e) => return Err(e),
+            }
+        }
+    }
+}
+
+/// Consumes what separates two elements: white space and line comments, or nothing at all
+/// in front of an opening parenthesis.
+pub fn separator(input: Span) -> ParseResult<()> {
+    let (rest, blank) = recognize(pair(multispace0, ignore_eol_comment))(input)?;
+    if blank.is_empty() {
+        return value((), peek(char('(')))(rest);
+    }
+    Ok((rest, ()))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that consumes
@@ -75,7 +98,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From bc6683e7272f3617609f25933346740d700cbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 03/11] fix: match keywords as whole words

'(preferencex (p))' was read as a preference named x, '(domainfoo)' as
'(domain foo)', and a function symbol starting with 'total-time' could not
be used in a metric.
---
 src/parsers/metric_f_exp.rs |  5 ++---
 src/parsers/mod.rs          |  2 +-
 src/parsers/utilities.rs    | 16 ++++++++++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index a2b0af2..25ef88f 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -2,13 +2,12 @@
 
 use crate::parsers::separator;
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -113,7 +112,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 1b84291..6f80ae9 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index a6cbc5d..176a591 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,9 +1,10 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{map, opt, peek, recognize, value};
+use nom::combinator::{map, not, opt, peek, recognize, value};
 use nom::sequence::{delimited, pair, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
@@ -14,12 +15,23 @@ where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
     delimited(
-        preceded(ws(tag("(")), ws(tag(name))),
+        preceded(ws(tag("(")), ws(keyword(name))),
         ws(inner),
         ws(tag(")")),
     )
 }
 
+/// Parses `name` as a whole word, i.e. not as the start of a longer name.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    move |input| {
+        let (rest, word) = tag(name)(input)?;
+        if name.ends_with(char::is_alphanumeric) {
+            not(parse_any_char)(rest)?;
+        }
+        Ok((rest, word))
+    }
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
 /// returning the output of `inner`.
 ///
-- 
2.43.0


From 02366bcbdc524cdc4fbbdf86e5e0863167b451ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 04/11] fix: parse nested trajectory constraints as constraints

Inside a modal operator, '(sometime (p))' was read as a predicate called
sometime applied to a function term.
---
 src/parsers/con_gd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 770b853..c1a4e2d 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -266,7 +266,8 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    // A constraint has the form of an atomic formula over function terms, so it needs to go first.
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From b0d6084f376e6b7baf34782e2287fd36d57418bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:07 +0000
Subject: [PATCH 05/11] fix: compare numbers consistently

Eq and PartialOrd told -0 from +0 while Ord and Hash do not.
---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..4a823cd 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 53daa6ce6cf0b24a6114f862d50e84894acb4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:21 +0000
Subject: [PATCH 06/11] fix: report numbers that are too large instead of
 panicking

---
 src/parsers/number.rs | 4 ++--
 src/types/number.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..55ace99 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |x| Number::try_new(x).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 4a823cd..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From 11b180f0dbc4824e53e8b54a3e7921bb15e0f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 07/11] fix: compare and hash names by their text

A name made by Name::new_static differed from the same name made by Name::new.
---
 src/types/name.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..634458a 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,20 @@ impl Deref for NameVariant {
     }
 }
 
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
+impl Eq for NameVariant {}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.deref().hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 0aaddaa6fb63ed5d1a5f943f93ab1085f2cce9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:02 +0000
Subject: [PATCH 08/11] fix: let :adl contain everything it stands for

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..3f62c77 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -147,6 +147,9 @@ impl Requirement {
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From dc269253f58918958ba9098a9ed5ca5e77cb5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 09/11] fix: do not allow white space inside a variable

---
 src/parsers/name.rs     | 10 ++++++----
 src/parsers/variable.rs |  7 +++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parsers/name.rs b/src/parsers/name.rs
index e457b13..d58248b 100644
--- a/src/parsers/name.rs
+++ b/src/parsers/name.rs
@@ -26,10 +26,12 @@ use nom::sequence::tuple;
 /// assert!(parse_name("-1").is_err());
 ///```
 pub fn parse_name<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Name> {
-    map(
-        ws(recognize(tuple((alpha1, many0(parse_any_char))))),
-        |x: Span| Name::from(*x.fragment()),
-    )(input.into())
+    map(ws(parse_name_token), |x: Span| Name::from(*x.fragment()))(input.into())
+}
+
+/// Parses the characters of a name, without skipping any white space.
+pub fn parse_name_token(input: Span) -> ParseResult<Span> {
+    recognize(tuple((alpha1, many0(parse_any_char))))(input)
 }
 
 /// Parses any accepted character.
diff --git a/src/parsers/variable.rs b/src/parsers/variable.rs
index d3924c3..92f4a51 100644
--- a/src/parsers/variable.rs
+++ b/src/parsers/variable.rs
@@ -4,7 +4,8 @@ use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::preceded;
 
-use crate::parsers::{parse_name, ParseResult, Span};
+use crate::parsers::name::parse_name_token;
+use crate::parsers::{ParseResult, Span};
 use crate::types::Variable;
 
 /// Parses a variable, i.e. `?<name>` and returns its name.
@@ -22,7 +23,9 @@ use crate::types::Variable;
 /// assert!(parse_variable(Span::new("?1")).is_err());
 ///```
 pub fn parse_variable<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Variable> {
-    map(preceded(tag("?"), parse_name), Variable::from)(input.into())
+    map(preceded(tag("?"), parse_name_token), |x: Span| {
+        Variable::from(*x.fragment())
+    })(input.into())
 }
 
 impl crate::parsers::Parser for Variable {
-- 
2.43.0


From 9595ace8c3f9b52a60c53a89bb5aa314131e818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 10/11] fix: match operators and requirement keys as whole
 words

---
 src/parsers/assign_op.rs      | 15 ++++++------
 src/parsers/assign_op_t.rs    |  5 ++--
 src/parsers/interval.rs       |  5 ++--
 src/parsers/optimization.rs   |  5 ++--
 src/parsers/requirements.rs   | 45 +++++++++++++++++------------------
 src/parsers/time_specifier.rs | 10 ++++----
 6 files changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/parsers/assign_op.rs b/src/parsers/assign_op.rs
index 91aa330..55ece4a 100644
--- a/src/parsers/assign_op.rs
+++ b/src/parsers/assign_op.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for assignment operations.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{keyword, ParseResult, Span};
 use crate::types::assign_op::names;
 use crate::types::AssignOp;
 
@@ -20,12 +19,12 @@ use crate::types::AssignOp;
 pub fn parse_assign_op<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, AssignOp> {
     map(
         alt((
-            tag(names::CHANGE), // deprecated
-            tag(names::ASSIGN),
-            tag(names::SCALE_UP),
-            tag(names::SCALE_DOWN),
-            tag(names::INCREASE),
-            tag(names::DECREASE),
+            keyword(names::CHANGE), // deprecated
+            keyword(names::ASSIGN),
+            keyword(names::SCALE_UP),
+            keyword(names::SCALE_DOWN),
+            keyword(names::INCREASE),
+            keyword(names::DECREASE),
         )),
         |x: Span| AssignOp::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
diff --git a/src/parsers/assign_op_t.rs b/src/parsers/assign_op_t.rs
index 84e4a7a..0e07de7 100644
--- a/src/parsers/assign_op_t.rs
+++ b/src/parsers/assign_op_t.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for assignment operations.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{keyword, ParseResult, Span};
 use crate::types::assign_op_t::names;
 use crate::types::AssignOpT;
 
@@ -19,7 +18,7 @@ use crate::types::AssignOpT;
 ///```
 pub fn parse_assign_op_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, AssignOpT> {
     map(
-        alt((tag(names::INCREASE), tag(names::DECREASE))),
+        alt((keyword(names::INCREASE), keyword(names::DECREASE))),
         |x: Span| AssignOpT::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/interval.rs b/src/parsers/interval.rs
index f92a9ab..b0265a9 100644
--- a/src/parsers/interval.rs
+++ b/src/parsers/interval.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for assignment operations.
 
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{keyword, ParseResult, Span};
 use crate::types::interval::names;
 use crate::types::Interval;
 
@@ -16,7 +15,7 @@ use crate::types::Interval;
 /// assert!(parse_interval("all").is_value(Interval::All));
 ///```
 pub fn parse_interval<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Interval> {
-    map(tag(names::ALL), |x: Span| {
+    map(keyword(names::ALL), |x: Span| {
         Interval::try_from(*x.fragment()).expect("unhandled variant")
     })(input.into())
 }
diff --git a/src/parsers/optimization.rs b/src/parsers/optimization.rs
index 13d63d8..f893143 100644
--- a/src/parsers/optimization.rs
+++ b/src/parsers/optimization.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for optimization.
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{keyword, ParseResult, Span};
 use crate::types::{optimization::names, Optimization};
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 /// Parses an optimization goal, i.e. `minimize | maximize`.
@@ -17,7 +16,7 @@ use nom::combinator::map;
 ///```
 pub fn parse_optimization<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Optimization> {
     map(
-        alt((tag(names::MINIMIZE), tag(names::MAXIMIZE))),
+        alt((keyword(names::MINIMIZE), keyword(names::MAXIMIZE))),
         |x: Span| Optimization::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/requirements.rs b/src/parsers/requirements.rs
index 9bc54f6..b3bee83 100644
--- a/src/parsers/requirements.rs
+++ b/src/parsers/requirements.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for requirements.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{prefix_expr, space_separated_list1, ParseResult, Span};
+use crate::parsers::{keyword, prefix_expr, space_separated_list1, ParseResult, Span};
 use crate::types::requirement::{names, Requirement};
 use crate::types::Requirements;
 
@@ -58,27 +57,27 @@ pub fn parse_require_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Req
 pub fn parse_require_key<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Requirement> {
     map(
         alt((
-            tag(names::STRIPS),
-            tag(names::TYPING),
-            tag(names::NEGATIVE_PRECONDITIONS),
-            tag(names::DISJUNCTIVE_PRECONDITIONS),
-            tag(names::EQUALITY),
-            tag(names::EXISTENTIAL_PRECONDITIONS),
-            tag(names::UNIVERSAL_PRECONDITIONS),
-            tag(names::QUANTIFIED_PRECONDITIONS),
-            tag(names::CONDITIONAL_EFFECTS),
-            tag(names::FLUENTS),
-            tag(names::NUMERIC_FLUENTS),
-            tag(names::OBJECT_FLUENTS),
-            tag(names::ADL),
-            tag(names::DURATIVE_ACTIONS),
-            tag(names::DURATION_INEQUALITIES),
-            tag(names::CONTINUOUS_EFFECTS),
-            tag(names::DERIVED_PREDICATES),
-            tag(names::TIMED_INITIAL_LITERALS),
-            tag(names::PREFERENCES),
-            tag(names::CONSTRAINTS),
-            tag(names::ACTION_COSTS),
+            keyword(names::STRIPS),
+            keyword(names::TYPING),
+            keyword(names::NEGATIVE_PRECONDITIONS),
+            keyword(names::DISJUNCTIVE_PRECONDITIONS),
+            keyword(names::EQUALITY),
+            keyword(names::EXISTENTIAL_PRECONDITIONS),
+            keyword(names::UNIVERSAL_PRECONDITIONS),
+            keyword(names::QUANTIFIED_PRECONDITIONS),
+            keyword(names::CONDITIONAL_EFFECTS),
+            keyword(names::FLUENTS),
+            keyword(names::NUMERIC_FLUENTS),
+            keyword(names::OBJECT_FLUENTS),
+            keyword(names::ADL),
+            keyword(names::DURATIVE_ACTIONS),
+            keyword(names::DURATION_INEQUALITIES),
+            keyword(names::CONTINUOUS_EFFECTS),
+            keyword(names::DERIVED_PREDICATES),
+            keyword(names::TIMED_INITIAL_LITERALS),
+            keyword(names::PREFERENCES),
+            keyword(names::CONSTRAINTS),
+            keyword(names::ACTION_COSTS),
         )),
         |x: Span| Requirement::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
diff --git a/src/parsers/time_specifier.rs b/src/parsers/time_specifier.rs
index 15b9768..3520c31 100644
--- a/src/parsers/time_specifier.rs
+++ b/src/parsers/time_specifier.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for assignment operations.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{keyword, ParseResult, Span};
 use crate::types::time_specifier::names;
 use crate::types::TimeSpecifier;
 
@@ -18,9 +17,10 @@ use crate::types::TimeSpecifier;
 /// assert!(parse_time_specifier("end").is_value(TimeSpecifier::End));
 ///```
 pub fn parse_time_specifier<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimeSpecifier> {
-    map(alt((tag(names::START), tag(names::END))), |x: Span| {
-        TimeSpecifier::try_from(*x.fragment()).expect("unhandled variant")
-    })(input.into())
+    map(
+        alt((keyword(names::START), keyword(names::END))),
+        |x: Span| TimeSpecifier::try_from(*x.fragment()).expect("unhandled variant"),
+    )(input.into())
 }
 
 impl crate::parsers::Parser for TimeSpecifier {
-- 
2.43.0


From 0a8ae9ffb7c7e79e2c814ed11b4d8e28b89951ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:42 +0000
Subject: [PATCH 11/11] fix: accept comments between the optimization and the
 metric

---
 src/parsers/metric_f_exp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 25ef88f..d8755a4 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -120,7 +120,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         MetricFExp::new_is_violated,
     );
 
-    alt((
+    ws(alt((
         number,
         binary_op,
         multi_op,
@@ -129,7 +129,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         is_violated,
         complex_function,
         simple_function,
-    ))(input.into())
+    )))(input.into())
 }
 
 impl crate::parsers::Parser for MetricFExp {
-- 
2.43.0

