//! Rebuilds a value from its parts through the public constructors, conversions
//! and builders, and checks that it gives its parts back.
use crate::fail_at;
use crate::rt::*;
use pddl::*;

static mut WAY: u8 = 0;
static mut TIMELESS: Option<Timeless> = None;
/// Which of the ways to make a value is taken.
fn way(i: u8) -> bool {
    // SAFETY: one thread
    unsafe { WAY == i }
}
pub fn start(way: u8, timeless: Option<Timeless>) {
    // SAFETY: one thread
    unsafe {
        WAY = way;
        TIMELESS = timeless;
    }
}
fn check(ok: bool, what: &str, why: &str) {
    if !ok {
        fail_at(what, why)
    }
}
const PARTS: &str = "does not give back the parts it was made of";

pub trait Build: Sized {
    fn build(&self) -> Self;
}
fn all<T: Build>(v: &[T]) -> Vec<T> {
    let mut o = Vec::with_capacity(v.len());
    for x in v {
        o.push(x.build());
    }
    o
}
impl<T: Build> Build for Option<T> {
    fn build(&self) -> Self {
        self.as_ref().map(|x| x.build())
    }
}
/// Iteration, length and emptiness of a list-like value agree with its elements.
fn list<'a, T: PartialEq + 'a>(what: &str, want: &[T], len: usize, empty: bool, it: impl Iterator<Item = &'a T>) {
    check(len == want.len(), what, "reports the wrong length");
    check(empty == want.is_empty(), what, "reports emptiness wrongly");
    same_items(what, want, it);
}
fn same_items<'a, T: PartialEq + 'a>(what: &str, want: &[T], it: impl Iterator<Item = &'a T>) {
    let mut n = 0;
    for x in it {
        check(n < want.len() && *x == want[n], what, "iterates over other elements than it has");
        n += 1;
    }
    check(n == want.len(), what, "leaves elements out of its iteration");
}
fn owned_items<T: PartialEq>(what: &str, want: &[T], it: impl Iterator<Item = T>) {
    let mut n = 0;
    for x in it {
        check(n < want.len() && x == want[n], what, "iterates over other elements than it has");
        n += 1;
    }
    check(n == want.len(), what, "leaves elements out of its iteration");
}

// ------------------------------------------------------------------ names

impl Build for Name {
    fn build(&self) -> Self {
        let t: &str = self.as_ref();
        check(self.len() == t.len() && self.is_empty() == t.is_empty(), "Name", "reports the wrong length");
        if way(0) {
            Name::new(t)
        } else if way(1) {
            t.into()
        } else {
            Name::new(t.to_string())
        }
    }
}
macro_rules! symbols {
    ($($t:ident)*) => {$(
        impl Build for $t {
            fn build(&self) -> Self {
                let t: &str = self;
                let n: Name = t.into();
                let v = if way(0) { $t::new(n.clone()) } else if way(1) { $t::from(t) } else { $t::from_str(t) };
                check(v == $t::from_name(n), stringify!($t), "made in two ways differs");
                v
            }
        }
    )*};
}
symbols! { Variable Predicate FunctionSymbol ActionSymbol DurativeActionSymbol PreferenceName }
macro_rules! as_names {
    ($($t:ident)*) => {$(
        {
            let v = $t::from("a-b");
            check(AsRef::<Name>::as_ref(&v) == "a-b" && AsRef::<str>::as_ref(&v) == "a-b" && &*v == "a-b", stringify!($t), PARTS);
        }
    )*};
}
impl Build for PrimitiveType {
    fn build(&self) -> Self {
        let t: &str = self;
        check(AsRef::<str>::as_ref(self) == t, "PrimitiveType", PARTS);
        if way(0) {
            PrimitiveType::new(Name::new(t))
        } else {
            PrimitiveType::from(t)
        }
    }
}
impl Build for Number {
    fn build(&self) -> Self {
        let v: f32 = **self;
        if way(0) {
            Number::new(v)
        } else if way(1) {
            Number::from(v)
        } else {
            Number::try_new(v).unwrap_or_else(|_| fail_at("Number", "made of a number is refused"))
        }
    }
}
macro_rules! plain {
    ($($t:ident)*) => {$( impl Build for $t { fn build(&self) -> Self { self.clone() } } )*};
}
plain! { Requirement BinaryComp BinaryOp MultiOp AssignOp AssignOpT DOp TimeSpecifier Optimization Interval }

// ------------------------------------------------------------------ types

impl Build for Type {
    fn build(&self) -> Self {
        let (v, parts) = match self {
            Type::Exactly(p) => {
                let t: &str = p;
                let v = if way(0) {
                    Type::Exactly(p.build())
                } else if way(1) {
                    p.build().into()
                } else {
                    Type::from(t)
                };
                (v, vec![p.build()])
            }
            Type::EitherOf(ps) => {
                let v = if way(0) {
                    Type::from(all(ps))
                } else if way(1) {
                    all(ps).into_iter().collect()
                } else {
                    let w: Vec<&str> = ps.iter().map(|p| &**p).collect();
                    Type::from(w)
                };
                (v, all(ps))
            }
        };
        check(self.len() == parts.len(), "Type", "reports the wrong length");
        owned_items("Type", &parts, self.clone().into_iter());
        v
    }
}
impl Build for FunctionType {
    fn build(&self) -> Self {
        let t: Type = (**self).build();
        if way(0) {
            FunctionType::new(t)
        } else if way(1) {
            // the constructor of that name, not the conversion
            FunctionType::from(t)
        } else {
            match t {
                Type::Exactly(p) => <FunctionType as From<&str>>::from(&p),
                Type::EitherOf(ps) => {
                    let w: Vec<&str> = ps.iter().map(|p| &**p).collect();
                    <FunctionType as From<Vec<&str>>>::from(w)
                }
            }
        }
    }
}
impl<T: Build + Clone + PartialEq + ToTyped<T>> Build for Typed<T> {
    fn build(&self) -> Self {
        let (v, t) = (self.value().build(), self.type_().build());
        check(**self == v, "Typed", PARTS);
        if t == Type::OBJECT {
            check(Typed::new_object(v.clone()) == *self && Typed::from(v.clone()) == *self, "Typed", "of the type object differs when made without one");
        }
        check(Type::default() == Type::OBJECT, "Type", "is not `object` by default");
        if way(0) {
            Typed::new(v, t)
        } else {
            match t {
                Type::Exactly(_) => v.to_typed(t),
                Type::EitherOf(ps) => v.to_typed_either(ps),
            }
        }
    }
}
impl<T: Build + Clone + PartialEq + ToTyped<T>> Build for TypedList<T> {
    fn build(&self) -> Self {
        let v: Vec<Typed<T>> = all(self.value());
        list("TypedList", &v, self.len(), self.is_empty(), self.iter());
        owned_items("TypedList", &v, self.clone().into_iter());
        check(*self == v && *self == v[..], "TypedList", "differs from its elements");
        let mut fewer = v.clone();
        if fewer.pop().is_some() {
            check(*self != fewer && *self != fewer[..], "TypedList", "equals a part of itself");
        }
        if way(0) {
            TypedList::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for AtomicFunctionSkeleton {
    fn build(&self) -> Self {
        let (f, v) = (self.symbol().build(), self.variables().build());
        if way(0) {
            AtomicFunctionSkeleton::new(f, v)
        } else if way(1) {
            (f, v).into()
        } else {
            let v: Vec<Typed<Variable>> = v.into_iter().collect();
            (f, v).into()
        }
    }
}
impl Build for AtomicFormulaSkeleton {
    fn build(&self) -> Self {
        let (p, v) = (self.predicate().build(), self.variables().build());
        let t: &str = &p;
        check(self.name() == t, "AtomicFormulaSkeleton", PARTS);
        if way(0) {
            AtomicFormulaSkeleton::new(p, v)
        } else {
            (p, v).into()
        }
    }
}
impl Build for FunctionTyped<AtomicFunctionSkeleton> {
    fn build(&self) -> Self {
        let (v, t) = (self.value_ref().build(), self.type_ref().build());
        check(**self == v, "FunctionTyped", PARTS);
        check(FunctionType::default() == FunctionType::NUMBER, "FunctionType", "is not `number` by default");
        if t == FunctionType::NUMBER {
            check(FunctionTyped::new_number(v.clone()) == *self && FunctionTyped::from(v.clone()) == *self, "FunctionTyped", "of the type number differs when made without one");
        }
        if way(0) {
            FunctionTyped::new(v, t)
        } else {
            FunctionTyped::from_type(v, (*t).clone())
        }
    }
}
impl Build for FunctionTypedList<AtomicFunctionSkeleton> {
    fn build(&self) -> Self {
        let v: Vec<FunctionTyped<AtomicFunctionSkeleton>> = all(self.values());
        list("FunctionTypedList", &v, self.len(), self.is_empty(), self.iter());
        check(*self == v && *self == v[..], "FunctionTypedList", "differs from its elements");
        let mut fewer = v.clone();
        if fewer.pop().is_some() {
            check(*self != fewer && *self != fewer[..], "FunctionTypedList", "equals a part of itself");
        }
        if way(0) {
            FunctionTypedList::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}

// ------------------------------------------------------------------ terms and formulas

impl Build for Term {
    fn build(&self) -> Self {
        match self {
            Term::Name(n) => {
                if way(0) {
                    Term::new_name(n.build())
                } else {
                    n.build().into()
                }
            }
            Term::Variable(v) => {
                if way(0) {
                    Term::new_variable(v.build())
                } else {
                    v.build().into()
                }
            }
            Term::Function(f) => {
                if way(0) {
                    Term::new_function(f.build())
                } else {
                    f.build().into()
                }
            }
        }
    }
}
impl Build for FunctionTerm {
    fn build(&self) -> Self {
        check(AsRef::<FunctionSymbol>::as_ref(self) == self.symbol(), "FunctionTerm", PARTS);
        check(AsRef::<Vec<Term>>::as_ref(self) == self.terms(), "FunctionTerm", PARTS);
        FunctionTerm::new(self.symbol().build(), all(self.terms()))
    }
}
impl Build for BasicFunctionTerm {
    fn build(&self) -> Self {
        check(AsRef::<FunctionSymbol>::as_ref(self) == self.symbol(), "BasicFunctionTerm", PARTS);
        check(AsRef::<[Name]>::as_ref(self) == self.names(), "BasicFunctionTerm", PARTS);
        BasicFunctionTerm::new(self.symbol().build(), all(self.names()))
    }
}
impl<T: Build + PartialEq + Clone> Build for AtomicFormula<T> {
    fn build(&self) -> Self {
        match self {
            AtomicFormula::Equality(e) => {
                let (a, b) = (e.first().build(), e.second().build());
                if way(0) {
                    AtomicFormula::new_equality(a, b)
                } else if way(1) {
                    EqualityAtomicFormula::new(a, b).into()
                } else {
                    AtomicFormula::Equality((a, b).into())
                }
            }
            AtomicFormula::Predicate(p) => {
                let (n, v) = (p.predicate().build(), all(p.values()));
                same_items("PredicateAtomicFormula", &v, p.iter());
                if way(0) {
                    AtomicFormula::new_predicate(n, v)
                } else if way(1) {
                    PredicateAtomicFormula::new(n, v).into()
                } else {
                    AtomicFormula::Predicate((n, v).into())
                }
            }
        }
    }
}
impl<T: Build + PartialEq + Clone> Build for Literal<T> {
    fn build(&self) -> Self {
        match self {
            Literal::AtomicFormula(a) => {
                check(!self.is_negated(), "Literal", "that is not negated says it is");
                if way(0) {
                    Literal::new(a.build())
                } else {
                    a.build().into()
                }
            }
            Literal::NotAtomicFormula(a) => {
                check(self.is_negated(), "Literal", "that is negated says it is not");
                Literal::new_not(a.build())
            }
        }
    }
}
/// Whether there is nothing in a goal or constraint but connectives.
trait Bare {
    fn bare(&self) -> bool;
}
impl Bare for GoalDefinition {
    fn bare(&self) -> bool {
        match self {
            GoalDefinition::AtomicFormula(_) | GoalDefinition::Literal(_) | GoalDefinition::FComp(_) => false,
            GoalDefinition::And(v) | GoalDefinition::Or(v) => {
                for x in v {
                    if !x.bare() {
                        return false;
                    }
                }
                true
            }
            GoalDefinition::Not(x) | GoalDefinition::Exists(_, x) | GoalDefinition::ForAll(_, x) => x.bare(),
            GoalDefinition::Imply(x, y) => x.bare() && y.bare(),
        }
    }
}
impl Bare for Con2GD {
    fn bare(&self) -> bool {
        match self {
            Con2GD::Goal(g) => g.bare(),
            Con2GD::Nested(c) => c.bare(),
        }
    }
}
impl Bare for ConGD {
    fn bare(&self) -> bool {
        match self {
            ConGD::And(v) => {
                for x in v {
                    if !x.bare() {
                        return false;
                    }
                }
                true
            }
            ConGD::Forall(_, c) => c.bare(),
            ConGD::AtEnd(g) => g.bare(),
            ConGD::Always(x) | ConGD::Sometime(x) | ConGD::Within(_, x) | ConGD::AtMostOnce(x) | ConGD::HoldDuring(_, _, x) | ConGD::HoldAfter(_, x) => x.bare(),
            ConGD::SometimeAfter(x, y) | ConGD::SometimeBefore(x, y) | ConGD::AlwaysWithin(_, x, y) => x.bare() && y.bare(),
        }
    }
}
const BARE: &str = "says wrongly whether there is anything in it";
impl Build for GoalDefinition {
    fn build(&self) -> Self {
        type G = GoalDefinition;
        check(self.is_empty() == self.bare(), "GoalDefinition", BARE);
        match self {
            G::AtomicFormula(a) => G::new_atomic_formula(a.build()),
            G::Literal(l) => G::new_literal(l.build()),
            G::And(v) => G::new_and(all(v)),
            G::Or(v) => G::new_or(all(v)),
            G::Not(g) => G::new_not(g.build()),
            G::Imply(a, b) if way(0) => G::new_imply(a.build(), b.build()),
            G::Imply(a, b) => G::new_imply_tuple((a.build(), b.build())),
            G::Exists(v, g) if way(0) => G::new_exists(v.build(), g.build()),
            G::Exists(v, g) => G::new_exists_tuple((v.build(), g.build())),
            G::ForAll(v, g) if way(0) => G::new_forall(v.build(), g.build()),
            G::ForAll(v, g) => G::new_forall_tuple((v.build(), g.build())),
            G::FComp(c) => G::new_f_comp(c.build()),
        }
    }
}
impl Build for FComp {
    fn build(&self) -> Self {
        let (c, a, b) = (self.comparison().build(), self.first().build(), self.second().build());
        if way(0) {
            FComp::new(c, a, b)
        } else {
            (c, a, b).into()
        }
    }
}
impl Build for FHead {
    fn build(&self) -> Self {
        match self {
            FHead::Simple(f) => FHead::new(f.build()),
            FHead::WithTerms(f, t) => FHead::new_with_terms(f.build(), all(t)),
        }
    }
}
impl Build for FExp {
    fn build(&self) -> Self {
        match self {
            FExp::Number(n) if way(0) => FExp::new_number(n.build()),
            FExp::Number(n) => FExp::new_number(**n),
            FExp::Function(f) => FExp::new_function(f.build()),
            FExp::Negative(a) => FExp::new_negative(a.build()),
            FExp::BinaryOp(op, a, b) => FExp::new_binary_op(op.build(), a.build(), b.build()),
            FExp::MultiOp(op, a, b) => FExp::new_multi_op(op.build(), a.build(), all(b)),
        }
    }
}
impl Build for FExpDa {
    fn build(&self) -> Self {
        match self {
            FExpDa::Assign(..) => self.clone(),
            FExpDa::Duration => FExpDa::new_duration(),
            FExpDa::FExp(f) if way(0) => FExpDa::new_f_exp(f.build()),
            FExpDa::FExp(f) => f.build().into(),
            FExpDa::Negative(a) => FExpDa::new_negative(a.build()),
            FExpDa::BinaryOp(op, a, b) => FExpDa::new_binary_op(op.build(), a.build(), b.build()),
            FExpDa::MultiOp(op, a, b) => FExpDa::new_multi_op(op.build(), a.build(), all(b)),
        }
    }
}
impl Build for FExpT {
    fn build(&self) -> Self {
        match self {
            FExpT::Now if way(0) => FExpT::new(),
            FExpT::Now => FExpT::default(),
            FExpT::Scaled(e) if way(0) => FExpT::new_scaled(e.build()),
            FExpT::Scaled(e) => e.build().into(),
        }
    }
}
impl Build for MetricFExp {
    fn build(&self) -> Self {
        type M = MetricFExp;
        match self {
            M::Number(n) if way(0) => M::new_number(n.build()),
            M::Number(n) => M::new_number(**n),
            M::Function(f, n) => M::new_function(f.build(), all(n)),
            M::Negative(a) => M::new_negative(a.build()),
            M::BinaryOp(op, a, b) => M::new_binary_op(op.build(), a.build(), b.build()),
            M::MultiOp(op, a, b) => M::new_multi_op(op.build(), a.build(), all(b)),
            M::TotalTime => M::new_total_time(),
            M::IsViolated(p) => M::new_is_violated(p.build()),
        }
    }
}
impl Build for MetricSpec {
    fn build(&self) -> Self {
        MetricSpec::new(self.optimization().build(), self.expression().build())
    }
}
impl Build for LengthSpec {
    fn build(&self) -> Self {
        match (self.serial(), self.parallel()) {
            (Some(a), None) if way(1) => LengthSpec::new_serial(a),
            (None, Some(b)) if way(1) => LengthSpec::new_parallel(b),
            (a, b) => LengthSpec::new(a, b),
        }
    }
}

// ------------------------------------------------------------------ effects

impl Build for PEffect {
    fn build(&self) -> Self {
        match self {
            PEffect::AtomicFormula(a) => PEffect::new(a.build()),
            PEffect::NotAtomicFormula(a) => PEffect::new_not(a.build()),
            PEffect::AssignNumericFluent(op, h, e) => PEffect::new_numeric_fluent(op.build(), h.build(), e.build()),
            PEffect::AssignObjectFluent(f, t) => PEffect::new_object_fluent(f.build(), t.build()),
        }
    }
}
impl Build for ForallCEffect {
    fn build(&self) -> Self {
        let (v, e) = (self.variables.build(), self.effects.build());
        if way(0) {
            ForallCEffect::new(v, e)
        } else {
            (v, e).into()
        }
    }
}
impl Build for WhenCEffect {
    fn build(&self) -> Self {
        let (c, e) = (self.condition.build(), self.effect.build());
        if way(0) {
            WhenCEffect::new(c, e)
        } else {
            (c, e).into()
        }
    }
}
impl Build for CEffect {
    fn build(&self) -> Self {
        let p: Result<PEffect, ()> = self.clone().try_into();
        let f: Result<ForallCEffect, ()> = self.clone().try_into();
        let w: Result<WhenCEffect, ()> = self.clone().try_into();
        const W: &str = "is taken for another kind of effect than it is";
        match self {
            CEffect::Effect(x) => {
                check(p.as_ref() == Ok(x) && f.is_err() && w.is_err(), "CEffect", W);
                if way(0) {
                    CEffect::new_p_effect(x.build())
                } else {
                    x.build().into()
                }
            }
            CEffect::Forall(x) => {
                check(f.as_ref() == Ok(x) && p.is_err() && w.is_err(), "CEffect", W);
                if way(0) {
                    CEffect::new_forall(x.variables.build(), x.effects.build())
                } else {
                    x.build().into()
                }
            }
            CEffect::When(x) => {
                check(w.as_ref() == Ok(x) && f.is_err() && p.is_err(), "CEffect", W);
                if way(0) {
                    CEffect::new_when(x.condition.build(), x.effect.build())
                } else {
                    x.build().into()
                }
            }
        }
    }
}
const SINGLE: &str = "gives a single element although it has none or several, or none although it has one";
impl Build for Effects {
    fn build(&self) -> Self {
        let v: Vec<CEffect> = all(self);
        list("Effects", &v, self.len(), self.is_empty(), self.iter());
        same_items("Effects", &v, AsRef::<[CEffect]>::as_ref(self).iter());
        owned_items("Effects", &v, self.clone().into_iter());
        let one = if v.len() == 1 { Some(&v[0]) } else { None };
        check(self.clone().try_get_single().as_ref() == one, "Effects", SINGLE);
        let t: Result<CEffect, ()> = self.clone().try_into();
        check(t.ok().as_ref() == one, "Effects", SINGLE);
        if let Some(x) = one {
            check(Effects::new(x.clone()) == *self && Effects::from(x.clone()) == *self, "Effects", "made of one effect differ");
        }
        check(Effects::default().is_empty(), "Effects", "are not empty by default");
        if way(0) {
            Effects::new_and(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for ConditionalEffect {
    fn build(&self) -> Self {
        match self {
            ConditionalEffect::Single(p) => {
                let p = p.build();
                owned_items("ConditionalEffect", std::slice::from_ref(&p), self.clone().into_iter());
                if way(0) {
                    ConditionalEffect::new(p)
                } else {
                    p.into()
                }
            }
            ConditionalEffect::All(v) => {
                let v = all(v);
                owned_items("ConditionalEffect", &v, self.clone().into_iter());
                if way(0) {
                    ConditionalEffect::new_and(v)
                } else if way(1) {
                    v.into()
                } else {
                    v.into_iter().collect()
                }
            }
        }
    }
}
impl Build for FAssignDa {
    fn build(&self) -> Self {
        let (a, b, c) = (self.operation().build(), self.function().build(), self.function_expr().build());
        if way(0) {
            FAssignDa::new(a, b, c)
        } else {
            (a, b, c).into()
        }
    }
}

// ------------------------------------------------------------------ goals with preferences, constraints

impl Build for Preference {
    fn build(&self) -> Self {
        check(self.is_empty() == self.goal().bare(), "Preference", BARE);
        let (n, g) = (self.name().build(), self.goal().build());
        match n {
            Some(n) if way(2) => (n, g).into(),
            None if way(2) => g.into(),
            n if way(1) => (n, g).into(),
            n => Preference::new(n, g),
        }
    }
}
impl Build for PreferenceGD {
    fn build(&self) -> Self {
        match self {
            PreferenceGD::Goal(g) if way(0) => PreferenceGD::from_gd(g.build()),
            PreferenceGD::Goal(g) => g.build().into(),
            PreferenceGD::Preference(p) if way(0) => PreferenceGD::from_preference(p.build()),
            PreferenceGD::Preference(p) => p.build().into(),
        }
    }
}
impl Build for PreconditionGoalDefinition {
    fn build(&self) -> Self {
        type P = PreconditionGoalDefinition;
        match self {
            P::Preference(p) => {
                let p = p.build();
                check(PreconditionGoalDefinitions::new_preference(p.clone()) == PreconditionGoalDefinitions::new(vec![self.clone()]), "PreconditionGoalDefinitions", "made of one goal differ");
                match p {
                    PreferenceGD::Preference(p) if way(2) => p.into(),
                    p if way(1) => p.into(),
                    p => P::new_preference(p),
                }
            }
            P::Forall(v, g) => {
                let (v, g) = (v.build(), g.build());
                check(PreconditionGoalDefinitions::new_forall(v.clone(), g.clone()) == PreconditionGoalDefinitions::new(vec![self.clone()]), "PreconditionGoalDefinitions", "made of one goal differ");
                P::new_forall(v, g)
            }
        }
    }
}
impl Build for PreconditionGoalDefinitions {
    fn build(&self) -> Self {
        type P = PreconditionGoalDefinitions;
        const W: &str = "PreconditionGoalDefinitions";
        let v: Vec<PreconditionGoalDefinition> = all(self);
        list(W, &v, self.len(), self.is_empty(), self.iter());
        same_items(W, &v, AsRef::<[PreconditionGoalDefinition]>::as_ref(self).iter());
        owned_items(W, &v, self.clone().into_iter());
        let w: Vec<PreconditionGoalDefinition> = self.clone().into();
        check(w == v, W, PARTS);
        let one = if v.len() == 1 { Some(&v[0]) } else { None };
        check(self.clone().try_get_single().as_ref() == one, W, SINGLE);
        let t: Result<PreconditionGoalDefinition, ()> = self.clone().try_into();
        check(t.ok().as_ref() == one, W, SINGLE);
        if let Some(x) = one {
            check(P::from(x.clone()) == *self && P::from(Some(x.clone())) == *self, W, "made of one goal differ");
        }
        check(P::from(Some(self.clone())) == *self, W, "change in a conversion");
        check(P::from(None::<PreconditionGoalDefinition>).is_empty() && P::from(None::<P>).is_empty() && P::default().is_empty(), W, "made of nothing are not empty");
        if way(0) {
            P::new(v)
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for ConGD {
    fn build(&self) -> Self {
        check(self.is_empty() == self.bare(), "ConGD", BARE);
        match self {
            ConGD::And(v) => ConGD::new_and(all(v)),
            ConGD::Forall(v, g) => ConGD::new_forall(v.build(), g.build()),
            ConGD::AtEnd(g) => ConGD::new_at_end(g.build()),
            ConGD::Always(g) => ConGD::new_always(g.build()),
            ConGD::Sometime(g) => ConGD::new_sometime(g.build()),
            ConGD::Within(n, g) => ConGD::new_within(n.build(), g.build()),
            ConGD::AtMostOnce(g) => ConGD::new_at_most_once(g.build()),
            ConGD::SometimeAfter(a, b) => ConGD::new_sometime_after(a.build(), b.build()),
            ConGD::SometimeBefore(a, b) => ConGD::new_sometime_before(a.build(), b.build()),
            ConGD::AlwaysWithin(n, a, b) => ConGD::new_always_within(n.build(), a.build(), b.build()),
            ConGD::HoldDuring(n, m, g) => ConGD::new_hold_during(n.build(), m.build(), g.build()),
            ConGD::HoldAfter(n, g) => ConGD::new_hold_after(n.build(), g.build()),
        }
    }
}
impl Build for Con2GD {
    fn build(&self) -> Self {
        check(self.is_empty() == self.bare(), "Con2GD", BARE);
        match self {
            Con2GD::Goal(g) if way(0) => Con2GD::new_goal(g.build()),
            Con2GD::Goal(g) => g.build().into(),
            Con2GD::Nested(c) if way(0) => Con2GD::new_nested((**c).build()),
            Con2GD::Nested(c) => (**c).build().into(),
        }
    }
}
impl Build for PrefConGD {
    fn build(&self) -> Self {
        const W: &str = "PrefConGDs";
        const Y: &str = "made of one constraint differ";
        let me = || PrefConGDs::new(vec![self.clone()]);
        match self {
            PrefConGD::Goal(c) => {
                check(self.is_empty() == c.bare(), "PrefConGD", BARE);
                let c = c.build();
                check(PrefConGDs::new_goal(c.clone()) == me() && PrefConGDs::from(c.clone()) == me(), W, Y);
                PrefConGD::new_goal(c)
            }
            PrefConGD::Forall(v, g) => {
                check(self.is_empty() == g.is_empty(), "PrefConGD", BARE);
                let (v, g) = (v.build(), g.build());
                check(PrefConGDs::new_forall(v.clone(), g.clone()) == me(), W, Y);
                PrefConGD::new_forall(v, g)
            }
            PrefConGD::Preference(n, c) => {
                check(self.is_empty() == c.bare(), "PrefConGD", BARE);
                let (n, c) = (n.build(), c.build());
                check(PrefConGDs::new_preference(n.clone(), c.clone()) == me(), W, Y);
                PrefConGD::new_preference(n, c)
            }
        }
    }
}
impl Build for PrefConGDs {
    fn build(&self) -> Self {
        type P = PrefConGDs;
        const W: &str = "PrefConGDs";
        let v: Vec<PrefConGD> = all(self);
        list(W, &v, self.len(), self.is_empty(), self.iter());
        same_items(W, &v, AsRef::<[PrefConGD]>::as_ref(self).iter());
        owned_items(W, &v, self.clone().into_iter());
        let w: Vec<PrefConGD> = self.clone().into();
        check(w == v, W, PARTS);
        let one = if v.len() == 1 { Some(&v[0]) } else { None };
        check(self.clone().try_get_single().as_ref() == one, W, SINGLE);
        let t: Result<PrefConGD, ()> = self.clone().try_into();
        check(t.ok().as_ref() == one, W, SINGLE);
        if let Some(x) = one {
            check(P::from(x.clone()) == *self && P::from(Some(x.clone())) == *self, W, "made of one constraint differ");
        }
        check(P::from(Some(self.clone())) == *self, W, "change in a conversion");
        check(P::from(None::<PrefConGD>).is_empty() && P::from(None::<P>).is_empty() && P::default().is_empty(), W, "made of nothing are not empty");
        if way(0) {
            P::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}

// ------------------------------------------------------------------ durative

impl Build for DurationValue {
    fn build(&self) -> Self {
        match self {
            DurationValue::Number(n) if way(0) => DurationValue::new_number(n.build()),
            DurationValue::Number(n) => n.build().into(),
            DurationValue::FExp(e) if way(0) => DurationValue::new_f_exp(e.build()),
            DurationValue::FExp(e) => e.build().into(),
        }
    }
}
impl Build for SimpleDurationConstraint {
    fn build(&self) -> Self {
        type S = SimpleDurationConstraint;
        match self {
            S::Op(o, v) if way(0) => S::new_op(o.build(), v.build()),
            S::Op(o, v) => (o.build(), v.build()).into(),
            S::At(t, c) if way(0) => S::new_at(t.build(), (**c).build()),
            S::At(t, c) => (t.build(), (**c).build()).into(),
        }
    }
}
impl Build for DurationConstraint {
    fn build(&self) -> Self {
        type D = DurationConstraint;
        let (v, parts) = match self {
            D::Single(c) => (if way(0) { D::new(c.build()) } else { c.build().into() }, vec![c.build()]),
            D::All(v) => (if way(0) { D::new_all(all(v)) } else { all(v).into_iter().collect() }, all(v)),
        };
        list("DurationConstraint", &parts, self.len(), self.is_empty(), parts.iter());
        owned_items("DurationConstraint", &parts, self.clone().into_iter());
        v
    }
}
impl Build for TimedGD {
    fn build(&self) -> Self {
        match self {
            TimedGD::At(t, g) if way(0) => TimedGD::new_at(t.build(), g.build()),
            TimedGD::At(t, g) => (t.build(), g.build()).into(),
            TimedGD::Over(i, g) if way(0) => TimedGD::new_over(i.build(), g.build()),
            TimedGD::Over(i, g) => (i.build(), g.build()).into(),
        }
    }
}
impl Build for PrefTimedGD {
    fn build(&self) -> Self {
        match self {
            PrefTimedGD::Required(t) if way(0) => PrefTimedGD::new_required(t.build()),
            PrefTimedGD::Required(t) => t.build().into(),
            PrefTimedGD::Preference(n, t) if way(0) => PrefTimedGD::new_preference(n.build(), t.build()),
            PrefTimedGD::Preference(n, t) => (n.build(), t.build()).into(),
        }
    }
}
impl Build for DurativeActionGoalDefinition {
    fn build(&self) -> Self {
        type D = DurativeActionGoalDefinition;
        match self {
            D::Timed(t) if way(0) => D::new_timed(t.build()),
            D::Timed(t) => t.build().into(),
            D::And(v) => D::new_and(all(v)),
            D::Forall(v, g) => D::new_forall(v.build(), (**g).build()),
        }
    }
}
impl Build for TimedEffect {
    fn build(&self) -> Self {
        type T = TimedEffect;
        match self {
            T::Conditional(t, e) if way(0) => T::new_conditional(t.build(), e.build()),
            T::Conditional(t, e) => (t.build(), e.build()).into(),
            T::NumericFluent(t, f) if way(0) => T::new_fluent(t.build(), f.build()),
            T::NumericFluent(t, f) => (t.build(), f.build()).into(),
            T::ContinuousEffect(o, h, e) if way(0) => T::new_continuous(o.build(), h.build(), e.build()),
            T::ContinuousEffect(o, h, e) => (o.build(), h.build(), e.build()).into(),
        }
    }
}
impl Build for DurativeActionEffect {
    fn build(&self) -> Self {
        type D = DurativeActionEffect;
        match self {
            D::Timed(t) if way(0) => D::new_timed(t.build()),
            D::Timed(t) => t.build().into(),
            D::All(v) if way(0) => D::new_and(all(v)),
            D::All(v) => all(v).into_iter().collect(),
            D::Forall(v, e) if way(0) => D::new_forall(v.build(), (**e).build()),
            D::Forall(v, e) => (v.build(), (**e).build()).into(),
            D::When(g, e) if way(0) => D::new_when(g.build(), e.build()),
            D::When(g, e) => (g.build(), e.build()).into(),
        }
    }
}

// ------------------------------------------------------------------ definitions

impl Build for ActionDefinition {
    fn build(&self) -> Self {
        check(AsRef::<ActionSymbol>::as_ref(self) == self.symbol(), "ActionDefinition", PARTS);
        ActionDefinition::new(self.symbol().build(), self.parameters().build(), self.precondition().build(), self.effect().build())
    }
}
impl Build for DurativeActionDefinition {
    fn build(&self) -> Self {
        const W: &str = "DurativeActionDefinition";
        check(AsRef::<DurativeActionSymbol>::as_ref(self) == self.symbol(), W, PARTS);
        check(AsRef::<TypedVariables>::as_ref(self) == self.parameters(), W, PARTS);
        check(AsRef::<Option<DurationConstraint>>::as_ref(self) == self.duration(), W, PARTS);
        check(AsRef::<Option<DurativeActionGoalDefinition>>::as_ref(self) == self.condition(), W, PARTS);
        check(AsRef::<Option<DurativeActionEffect>>::as_ref(self) == self.effect(), W, PARTS);
        DurativeActionDefinition::new(self.symbol().build(), self.parameters().build(), self.duration().build(), self.condition().build(), self.effect().build())
    }
}
impl Build for DerivedPredicate {
    fn build(&self) -> Self {
        check(AsRef::<AtomicFormulaSkeleton>::as_ref(self) == self.predicate(), "DerivedPredicate", PARTS);
        check(AsRef::<GoalDefinition>::as_ref(self) == self.expression(), "DerivedPredicate", PARTS);
        let (p, g) = (self.predicate().build(), self.expression().build());
        if way(0) {
            DerivedPredicate::new(p, g)
        } else {
            (p, g).into()
        }
    }
}
impl Build for StructureDef {
    fn build(&self) -> Self {
        match self {
            StructureDef::Action(a) if way(0) => StructureDef::new_action(a.build()),
            StructureDef::Action(a) => a.build().into(),
            StructureDef::DurativeAction(a) if way(0) => StructureDef::new_durative_action(a.build()),
            StructureDef::DurativeAction(a) => a.build().into(),
            StructureDef::Derived(d) if way(0) => StructureDef::new_derived(d.build()),
            StructureDef::Derived(d) => d.build().into(),
        }
    }
}
impl Build for StructureDefs {
    fn build(&self) -> Self {
        let v = all(self.values());
        list("StructureDefs", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            StructureDefs::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for Requirements {
    fn build(&self) -> Self {
        let v: Vec<Requirement> = all(self);
        list("Requirements", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Requirements::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for Types {
    fn build(&self) -> Self {
        let v = self.values().build();
        list("Types", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Types::new(v)
        } else {
            v.into()
        }
    }
}
impl Build for Constants {
    fn build(&self) -> Self {
        let v = (**self).build();
        list("Constants", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Constants::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for Objects {
    fn build(&self) -> Self {
        let v = self.values().build();
        list("Objects", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Objects::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for PredicateDefinitions {
    fn build(&self) -> Self {
        let v: Vec<AtomicFormulaSkeleton> = all(self.values());
        list("PredicateDefinitions", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            PredicateDefinitions::new(v)
        } else if way(1) {
            // the constructor of that name
            PredicateDefinitions::from(v)
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for Functions {
    fn build(&self) -> Self {
        let v = self.values().build();
        list("Functions", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Functions::new(v)
        } else if way(1) {
            v.into()
        } else {
            v.iter().cloned().collect()
        }
    }
}
impl Build for DomainConstraintsDef {
    fn build(&self) -> Self {
        let c = self.value().build();
        check(*self == c && **self == c && ConGD::from(self.clone()) == c, "DomainConstraintsDef", PARTS);
        if way(0) {
            DomainConstraintsDef::new(c)
        } else {
            c.into()
        }
    }
}
impl Build for Timeless {
    fn build(&self) -> Self {
        let v: Vec<NameLiteral> = all(self.values());
        list("Timeless", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            Timeless::new(v)
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for Domain {
    fn build(&self) -> Self {
        const W: &str = "Domain";
        check(AsRef::<Requirements>::as_ref(self) == self.requirements(), W, PARTS);
        check(AsRef::<Types>::as_ref(self) == self.types(), W, PARTS);
        check(AsRef::<PredicateDefinitions>::as_ref(self) == self.predicates(), W, PARTS);
        check(AsRef::<Functions>::as_ref(self) == self.functions(), W, PARTS);
        check(AsRef::<StructureDefs>::as_ref(self) == self.structure(), W, PARTS);
        let mut d = Domain::builder(self.name().build(), self.structure().build());
        // SAFETY: one thread
        #[allow(static_mut_refs)]
        let timeless = unsafe { TIMELESS.as_ref() };
        // in either order, and only what there is
        for i in 0..8 {
            let i = if way(0) { i } else { 7 - i };
            d = match i {
                0 if !self.extends().is_empty() => d.with_extends(all(self.extends())),
                1 if !self.requirements().is_empty() => d.with_requirements(self.requirements().build()),
                2 if !self.types().is_empty() => {
                    if way(0) {
                        d.with_types(self.types().build())
                    } else {
                        d.with_types(self.types().values().build())
                    }
                }
                3 if !self.constants().is_empty() => d.with_constants(self.constants().build()),
                4 if !self.predicates().is_empty() => {
                    if way(0) {
                        d.with_predicates(self.predicates().build())
                    } else {
                        d.with_predicates(all(self.predicates().values()))
                    }
                }
                5 if !self.functions().is_empty() => d.with_functions(self.functions().build()),
                6 if *self.constraints() != ConGD::default() => d.with_constraints(DomainConstraintsDef::new(self.constraints().build())),
                7 => match timeless {
                    Some(t) => d.with_timeless(t.build()),
                    None => d,
                },
                _ => d,
            };
        }
        d
    }
}
impl Build for InitElement {
    fn build(&self) -> Self {
        match self {
            InitElement::Literal(l) => InitElement::new_literal(l.build()),
            InitElement::At(n, l) => InitElement::new_at(n.build(), l.build()),
            InitElement::IsValue(b, n) => InitElement::new_is_value(b.build(), n.build()),
            InitElement::IsObject(b, n) => InitElement::new_is_object(b.build(), n.build()),
        }
    }
}
impl Build for InitElements {
    fn build(&self) -> Self {
        let v = all(self.values());
        list("InitElements", &v, self.len(), self.is_empty(), self.iter());
        if way(0) {
            InitElements::new(v)
        } else {
            v.into_iter().collect()
        }
    }
}
impl Build for GoalDef {
    fn build(&self) -> Self {
        let g = self.value().build();
        check(*self == g && **self == g && PreconditionGoalDefinitions::from(self.clone()) == g, "GoalDef", PARTS);
        if g.len() == 1 {
            check(GoalDef::from(g[0].clone()) == *self, "GoalDef", "made of one goal differs");
        }
        if way(0) {
            GoalDef::new(g)
        } else if way(1) {
            g.into()
        } else {
            g.into_iter().collect()
        }
    }
}
impl Build for ProblemConstraintsDef {
    fn build(&self) -> Self {
        let g = self.value().build();
        check(*self == g && **self == g && PrefConGDs::from(self.clone()) == g, "ProblemConstraintsDef", PARTS);
        if way(0) {
            ProblemConstraintsDef::new(g)
        } else {
            g.into()
        }
    }
}
impl Build for Problem {
    fn build(&self) -> Self {
        if way(2) {
            return Problem::new(
                self.name().build(),
                self.domain().build(),
                self.requirements().build(),
                self.objects().build(),
                self.init().build(),
                self.goals().build().into(),
                self.constraints().build().into(),
                self.metric_spec().build(),
                self.length_spec().build(),
            );
        }
        let mut p = Problem::builder(self.name().build(), self.domain().build(), self.init().build(), GoalDef::new(self.goals().build()));
        for i in 0..5 {
            let i = if way(0) { i } else { 4 - i };
            p = match i {
                0 if !self.requirements().is_empty() => p.with_requirements(self.requirements().build()),
                1 if !self.objects().is_empty() => p.with_objects(self.objects().build()),
                2 if !self.constraints().is_empty() => p.with_constraints(self.constraints().build()),
                3 => match self.metric_spec() {
                    Some(m) => p.with_metric_spec(m.build()),
                    None => p,
                },
                4 => match self.length_spec() {
                    Some(l) => p.with_length_spec(l.build()),
                    None => p,
                },
                _ => p,
            };
        }
        p
    }
}

/// The symbols that give their name back in each form.
pub fn symbols() {
    as_names! { Variable Predicate FunctionSymbol ActionSymbol DurativeActionSymbol }
    check(&*PreferenceName::from("a-b") == "a-b", "PreferenceName", PARTS);
}
/// The one part of a domain that it does not give back.
pub fn timeless() {
    let domain = |names: &[&'static str]| {
        let d = Domain::builder("d".into(), StructureDefs::default());
        if names.is_empty() {
            return d;
        }
        let v: Vec<NameLiteral> = names.iter().map(|n| NameLiteral::new(AtomicFormula::new_predicate(Predicate::new(Name::new_static(n)), []))).collect();
        d.with_timeless(Timeless::new(v))
    };
    let all: [&[&'static str]; 4] = [&[], &["a"], &["b"], &["a", "b"]];
    for i in 0..4 {
        for j in 0..4 {
            check((domain(all[i]) == domain(all[j])) == (i == j), "Domain", "does not keep what is timeless");
        }
    }
}
