//! Every type with a parser: its parse function, a generator of texts for it,
//! and the canonical text of its values.
use crate::ast::Build;
use crate::dump::{self, s, O};
use crate::gen::*;
use crate::rt::*;
use pddl::parsers::*;
use pddl::*;

/// What a parse did, without the value.
pub struct Seen {
    pub ok: bool,
    /// offset, line, length and place of the remainder, or of each error
    pub at: Vec<(usize, u32, usize, *const u8)>,
    pub dump: O,
}
impl Seen {
    pub fn left(&self) -> usize {
        self.at[0].2
    }
}
fn place(s: &Span) -> (usize, u32, usize, *const u8) {
    (s.location_offset(), s.location_line(), s.fragment().len(), s.fragment().as_ptr())
}
fn opt(o: &Optimization) -> &'static str {
    match o {
        Optimization::Minimize => "minimize",
        Optimization::Maximize => "maximize",
    }
}
fn seen<T>(r: ParseResult<T>, dump: impl Fn(&mut O, &T), want: bool) -> Seen {
    match r {
        Ok((rest, v)) => {
            let mut o = Vec::new();
            if want {
                o.reserve(512);
                dump(&mut o, &v);
            }
            Seen { ok: true, at: vec![place(&rest)], dump: o }
        }
        Err(e) => {
            let mut at = vec![];
            let _ = e.map(|g| at = g.errors.iter().map(|e| place(&e.0)).collect());
            Seen { ok: false, at, dump: vec![] }
        }
    }
}
/// The parse function and the trait's ways in give the same answer.
fn agree<T: Parser>(src: &str, free: fn(Span) -> ParseResult<T::Item>, what: &str)
where
    T::Item: PartialEq + Clone,
{
    let a = free(Span::new(src));
    let b = T::parse(src);
    let c = T::parse(Span::new(src));
    let d = T::parse_span(Span::new(src));
    let e = T::from_str(src);
    // the same text further down in a longer one
    let mut long = String::with_capacity(src.len() + 16);
    long.push_str("(p q)\n\n (");
    let n = long.len();
    long.push_str(src);
    let span = Span::new(&long);
    let (span, _) = skip(span, n);
    let f = T::parse_span(span);
    match &a {
        Ok((rest, v)) => {
            for (i, x) in [&b, &c, &d].iter().enumerate() {
                match x {
                    Ok((r2, v2)) if r2 == rest && v2 == v && r2.location_offset() == rest.location_offset() => {}
                    _ => crate::fail_at(what, ["parse(text) disagrees", "parse(span) disagrees", "parse_span disagrees"][i]),
                }
            }
            match &e {
                Ok(v2) if v2 == v => {}
                _ => crate::fail_at(what, "from_str disagrees"),
            }
            match &f {
                Ok((r2, v2)) if v2 == v && r2.fragment().len() == rest.fragment().len() => {
                    if r2.location_offset() != rest.location_offset() + n || r2.location_line() != rest.location_line() + 2 {
                        crate::fail_at(what, "parsed inside a longer text, the remainder has the wrong position")
                    }
                }
                _ => crate::fail_at(what, "parsed inside a longer text disagrees"),
            }
            if &v.clone() != v {
                crate::fail_at(what, "is not equal to its clone");
            }
            reach(1);
        }
        Err(_) => {
            if b.is_ok() || c.is_ok() || d.is_ok() || e.is_ok() || f.is_ok() {
                crate::fail_at(what, "is accepted through one way in and rejected through another");
            }
            reach(2);
        }
    }
}
fn skip(s: Span, n: usize) -> (Span, ()) {
    // the first n characters, through the public interface of the span type
    let (a, b) = s.fragment().split_at(n);
    let lines = a.bytes().filter(|b| *b == b'\n').count() as u32;
    // SAFETY: offset and line are those of b in the whole text
    (unsafe { Span::new_from_raw_offset(n, 1 + lines, b, ()) }, ())
}
/// Equality of two values and of their canonical texts.
fn equal<T: PartialEq>(a: &str, b: &str, f: fn(Span) -> ParseResult<T>, dump: impl Fn(&mut O, &T), what: &str) {
    let (Ok((ra, va)), Ok((rb, vb))) = (f(Span::new(a)), f(Span::new(b))) else { return };
    if !ra.fragment().is_empty() || !rb.fragment().is_empty() {
        return;
    }
    let (mut da, mut db) = (Vec::with_capacity(512), Vec::with_capacity(512));
    dump::fine(true);
    dump(&mut da, &va);
    dump(&mut db, &vb);
    dump::fine(false);
    let e = same(&da, &db);
    if (va == vb) != e || (vb == va) != e || (va != vb) == e {
        crate::fail_at(what, "values are equal although they say different things, or differ although they say the same");
    }
    if e {
        reach(1)
    } else {
        reach(2)
    }
}

/// A value made again of its parts is the same.
fn build<T: PartialEq + Build>(src: &str, f: fn(Span) -> ParseResult<T>, dump: impl Fn(&mut O, &T), what: &str) {
    let Ok((rest, v)) = f(Span::new(src)) else { reject() };
    if !rest.fragment().is_empty() {
        reject()
    }
    let w = v.build();
    let (mut da, mut db) = (Vec::with_capacity(512), Vec::with_capacity(512));
    dump::fine(true);
    dump(&mut da, &v);
    dump(&mut db, &w);
    dump::fine(false);
    if w != v || !same(&da, &db) {
        crate::fail_at(what, "made again of its parts is another");
    }
    reach(1);
}

fn parse_con2(s: Span) -> ParseResult<Con2GD> {
    Con2GD::parse_span(s)
}

macro_rules! table {
    ($($t:ident, $f:ident, $g:expr, $d:expr;)*) => {
        pub const TYPES: &[&str] = &[$(stringify!($t)),*];
        #[allow(unused_assignments)]
        pub fn generate(k: usize, p: &mut P, d: i32) {
            let mut i = 0;
            $(if k == i { return ($g)(p, d); } i += 1;)*
        }
        #[allow(unused_assignments)]
        pub fn run(k: usize, src: Span, want: bool) -> Seen {
            let mut i = 0;
            $(if k == i { return seen($f(src), $d, want); } i += 1;)*
            unreachable!()
        }
        #[allow(unused_assignments)]
        pub fn check_agree(k: usize, src: &str) {
            let mut i = 0;
            $(if k == i { return agree::<$t>(src, |s| $f(s), stringify!($t)); } i += 1;)*
        }
        #[allow(unused_assignments)]
        pub fn check_equal(k: usize, a: &str, b: &str) {
            let mut i = 0;
            $(if k == i { return equal(a, b, |s| $f(s), $d, stringify!($t)); } i += 1;)*
        }
        #[allow(unused_assignments)]
        pub fn check_build(k: usize, a: &str) {
            let mut i = 0;
            $(if k == i { return build(a, |s| $f(s), $d, stringify!($t)); } i += 1;)*
        }
    };
}

table! {
    Name, parse_name, |p: &mut P, d: i32| p.obj(), dump::name;
    Variable, parse_variable, |p: &mut P, d: i32| p.var(), dump::var;
    Number, parse_number, |p: &mut P, d: i32| p.num(), dump::num;
    PrimitiveType, parse_primitive_type, |p: &mut P, d: i32| p.typ(), dump::prim;
    Type, parse_type, |p: &mut P, d: i32| { let t = type_expr(p, d.max(0)); p.o.extend_from_slice(&t) }, dump::ty;
    FunctionType, parse_function_type, |p: &mut P, d: i32| { let t = type_expr(p, d.max(0)); p.o.extend_from_slice(&t) }, { |o: &mut O, t: &FunctionType| dump::ty(o, t) };
    Predicate, parse_predicate, |p: &mut P, d: i32| p.pred(), { |o: &mut O, t: &Predicate| dump::nm(o, t) };
    FunctionSymbol, parse_function_symbol, |p: &mut P, d: i32| p.fun(), { |o: &mut O, t: &FunctionSymbol| dump::nm(o, t) };
    ActionSymbol, parse_action_symbol, |p: &mut P, d: i32| p.obj(), { |o: &mut O, t: &ActionSymbol| dump::nm(o, t) };
    DurativeActionSymbol, parse_da_symbol, |p: &mut P, d: i32| p.obj(), { |o: &mut O, t: &DurativeActionSymbol| dump::nm(o, t) };
    PreferenceName, parse_pref_name, |p: &mut P, d: i32| p.prefname(), { |o: &mut O, t: &PreferenceName| dump::nm(o, t) };
    Requirement, parse_require_key, |p: &mut P, d: i32| word(p, d, REQS), { |o: &mut O, t: &Requirement| s(o, t.as_str()) };
    BinaryComp, parse_binary_comp, |p: &mut P, d: i32| word(p, d, &["<", "<=", "=", ">=", ">"]), { |o: &mut O, t: &BinaryComp| s(o, dump::comp(t)) };
    BinaryOp, parse_binary_op, |p: &mut P, d: i32| word(p, d, &["*", "+", "-", "/"]), { |o: &mut O, t: &BinaryOp| s(o, dump::bop(t)) };
    MultiOp, parse_multi_op, |p: &mut P, d: i32| word(p, d, &["*", "+"]), { |o: &mut O, t: &MultiOp| s(o, dump::mop(t)) };
    AssignOp, parse_assign_op, |p: &mut P, d: i32| word(p, d, &["assign", "scale-up", "scale-down", "increase", "decrease"]), { |o: &mut O, t: &AssignOp| s(o, dump::aop(t)) };
    AssignOpT, parse_assign_op_t, |p: &mut P, d: i32| word(p, d, &["increase", "decrease"]), { |o: &mut O, t: &AssignOpT| s(o, dump::aopt(t)) };
    DOp, parse_d_op, |p: &mut P, d: i32| word(p, d, &["<=", ">=", "="]), { |o: &mut O, t: &DOp| s(o, dump::dop(t)) };
    TimeSpecifier, parse_time_specifier, |p: &mut P, d: i32| word(p, d, &["start", "end"]), { |o: &mut O, t: &TimeSpecifier| s(o, dump::ts(t)) };
    Optimization, parse_optimization, |p: &mut P, d: i32| word(p, d, &["minimize", "maximize"]), { |o: &mut O, t: &Optimization| s(o, opt(t)) };
    Interval, parse_interval, |p: &mut P, d: i32| word(p, d, &["all"]), { |o: &mut O, t: &Interval| match t { Interval::All => s(o, "all") } };
    Term, parse_term, |p: &mut P, d: i32| term(p, d), dump::term;
    FunctionTerm, parse_function_term, |p: &mut P, d: i32| fterm(p, d), dump::fterm;
    BasicFunctionTerm, parse_basic_function_term, |p: &mut P, d: i32| bft(p, d), dump::bft;
    AtomicFormulaSkeleton, parse_atomic_formula_skeleton, |p: &mut P, d: i32| skeleton(p, d), dump::skeleton;
    AtomicFunctionSkeleton, parse_atomic_function_skeleton, |p: &mut P, d: i32| fskeleton(p, d), dump::fskeleton;
    GoalDefinition, parse_gd, |p: &mut P, d: i32| gd(p, d), dump::gd;
    FComp, parse_f_comp, |p: &mut P, d: i32| fcomp(p, d), dump::fcomp;
    FHead, parse_f_head, |p: &mut P, d: i32| fhead(p, d), dump::fhead;
    FExp, parse_f_exp, |p: &mut P, d: i32| fexp(p, d), dump::fexp;
    FExpDa, parse_f_exp_da, |p: &mut P, d: i32| fexpda(p, d), dump::fexpda;
    FExpT, parse_f_exp_t, |p: &mut P, d: i32| fexpt(p, d), dump::fexpt;
    MetricFExp, parse_metric_f_exp, |p: &mut P, d: i32| metric(p, d), dump::metric;
    MetricSpec, parse_problem_metric_spec, |p: &mut P, d: i32| metricspec(p, d), dump::metricspec;
    PEffect, parse_p_effect, |p: &mut P, d: i32| peff(p, d), dump::peff;
    CEffect, parse_c_effect, |p: &mut P, d: i32| ceff(p, d), dump::ceff;
    ForallCEffect, parse_forall_c_effect, |p: &mut P, d: i32| forall_ceff(p, d), dump::forall_ceff;
    WhenCEffect, parse_when_c_effect, |p: &mut P, d: i32| when_ceff(p, d), dump::when_ceff;
    ConditionalEffect, parse_cond_effect, |p: &mut P, d: i32| condeff(p, d), dump::condeff;
    Effects, parse_effect, |p: &mut P, d: i32| effects(p, d), dump::effects;
    FAssignDa, parse_f_assign_da, |p: &mut P, d: i32| fassignda(p, d), dump::fassignda;
    PreferenceGD, parse_pref_gd, |p: &mut P, d: i32| prefgd(p, d), dump::prefgd;
    PreconditionGoalDefinitions, parse_pre_gd, |p: &mut P, d: i32| pregds(p, d), dump::pregds;
    ConGD, parse_con_gd, |p: &mut P, d: i32| congd(p, d), dump::con;
    Con2GD, parse_con2, |p: &mut P, d: i32| con2(p, d), dump::con2;
    PrefConGDs, parse_pref_con_gd, |p: &mut P, d: i32| prefcons(p, d), dump::prefcons;
    DurationValue, parse_d_value, |p: &mut P, d: i32| dvalue(p, d), dump::dvalue;
    SimpleDurationConstraint, parse_simple_duration_constraint, |p: &mut P, d: i32| sdur(p, d), dump::sdur;
    TimedGD, parse_timed_gd, |p: &mut P, d: i32| timedgd(p, d), dump::timedgd;
    PrefTimedGD, parse_pref_timed_gd, |p: &mut P, d: i32| preftimed(p, d), dump::preftimed;
    DurativeActionGoalDefinition, parse_da_gd, |p: &mut P, d: i32| dagd(p, d), dump::dagd;
    TimedEffect, parse_timed_effect, |p: &mut P, d: i32| timedeff(p, d), dump::timedeff;
    DurativeActionEffect, parse_da_effect, |p: &mut P, d: i32| daeff(p, d), dump::daeff;
    ActionDefinition, parse_action_def, |p: &mut P, d: i32| action(p, d), dump::action;
    DurativeActionDefinition, parse_da_def, |p: &mut P, d: i32| durative(p, d), dump::durative;
    DerivedPredicate, parse_derived_predicate, |p: &mut P, d: i32| derived(p, d), dump::derived;
    StructureDef, parse_structure_def, |p: &mut P, d: i32| structure(p, d), dump::structure;
    Requirements, parse_require_def, |p: &mut P, d: i32| reqs(p, if d < 0 { 2 } else { 1 + choose(2) }, d), dump::reqs;
    Types, parse_types_def, |p: &mut P, d: i32| section_names(p, d, ":types"), { |o: &mut O, t: &Types| dump::tnames(o, t.values()) };
    Constants, parse_constants_def, |p: &mut P, d: i32| section_names(p, d, ":constants"), { |o: &mut O, t: &Constants| dump::tnames(o, t) };
    Objects, parse_problem_objects_declaration, |p: &mut P, d: i32| section_names(p, d, ":objects"), { |o: &mut O, t: &Objects| dump::tnames(o, t) };
    PredicateDefinitions, parse_predicates_def, |p: &mut P, d: i32| preds(p, d), dump::preds;
    Functions, parse_functions_def, |p: &mut P, d: i32| funs(p, d), { |o: &mut O, t: &Functions| dump::flist(o, t) };
    DomainConstraintsDef, parse_domain_constraints_def, |p: &mut P, d: i32| domcon(p, d), { |o: &mut O, t: &DomainConstraintsDef| dump::con(o, t) };
    Timeless, parse_timeless_def, |p: &mut P, d: i32| timeless(p, d), dump::timeless;
    Domain, parse_domain, |p: &mut P, d: i32| { let h = if d < 0 { 9 } else { choose(8) }; domain(p, d, h, 255) }, dump::domain;
    InitElement, parse_init_el, |p: &mut P, d: i32| init_el(p, d), dump::init;
    InitElements, parse_problem_init_def, |p: &mut P, d: i32| inits(p, d), dump::inits;
    GoalDef, parse_problem_goal_def, |p: &mut P, d: i32| goal(p, d), { |o: &mut O, t: &GoalDef| dump::pregds(o, t) };
    ProblemConstraintsDef, parse_problem_constraints_def, |p: &mut P, d: i32| probcon(p, d), { |o: &mut O, t: &ProblemConstraintsDef| dump::prefcons(o, t) };
    LengthSpec, parse_problem_length_spec, |p: &mut P, d: i32| length(p, d), dump::length;
    Problem, parse_problem, |p: &mut P, d: i32| { let h = if d < 0 { 9 } else { choose(8) }; problem(p, d, h, 255) }, dump::problem;
}
