//! Canonical text of an AST, read through the crate's public accessors.
//! Two encodings of one meaning get one text: an atomic goal and its one-literal
//! wrapper, a negated literal and `not` over an atom, `change` and `assign`.
use pddl::*;

pub type O = Vec<u8>;

/// Write the encoding as well: what equality of values goes by.
static mut FINE: bool = false;
pub fn fine(on: bool) {
    // SAFETY: one thread
    unsafe { FINE = on }
}
fn mark(o: &mut O, t: &str) {
    // SAFETY: one thread
    if unsafe { FINE } {
        s(o, t)
    }
}

pub fn s(o: &mut O, t: &str) {
    o.extend_from_slice(t.as_bytes());
}
pub fn nm(o: &mut O, n: &str) {
    o.push(b'\'');
    o.extend_from_slice(n.as_bytes());
    o.push(b'\'');
}
pub fn bits(o: &mut O, v: f32) {
    s(o, "#");
    let b = v.to_bits();
    let mut i = 8;
    while i > 0 {
        i -= 1;
        o.push(b"0123456789abcdef"[(b >> (4 * i) & 15) as usize]);
    }
}
pub fn num(o: &mut O, n: &Number) {
    bits(o, **n);
}
fn many<'a, T: 'a>(o: &mut O, it: impl IntoIterator<Item = &'a T>, f: impl Fn(&mut O, &T)) {
    s(o, "[");
    for x in it {
        f(o, x);
        s(o, ";");
    }
    s(o, "]");
}
pub fn prim(o: &mut O, t: &PrimitiveType) {
    nm(o, t);
}
pub fn ty(o: &mut O, t: &Type) {
    match t {
        Type::Exactly(p) => prim(o, p),
        Type::EitherOf(v) => {
            s(o, "Either");
            many(o, v, prim)
        }
    }
}
pub fn var(o: &mut O, v: &Variable) {
    s(o, "?");
    nm(o, v);
}
pub fn name(o: &mut O, v: &Name) {
    nm(o, v);
}
pub fn tlist<T>(o: &mut O, l: &[Typed<T>], f: impl Fn(&mut O, &T)) {
    s(o, "{");
    for t in l {
        f(o, t.value());
        s(o, ":");
        ty(o, t.type_());
        s(o, ";");
    }
    s(o, "}");
}
pub fn tvars(o: &mut O, l: &TypedVariables) {
    tlist(o, l.value(), var)
}
pub fn tnames(o: &mut O, l: &TypedNames) {
    tlist(o, l.value(), name)
}
pub fn term(o: &mut O, t: &Term) {
    match t {
        Term::Name(n) => nm(o, n),
        Term::Variable(v) => var(o, v),
        Term::Function(f) => fterm(o, f),
    }
}
pub fn fterm(o: &mut O, f: &FunctionTerm) {
    s(o, "fn ");
    nm(o, f.symbol());
    many(o, f.terms().iter(), term);
}
pub fn af<T>(o: &mut O, a: &AtomicFormula<T>, f: impl Fn(&mut O, &T)) {
    match a {
        AtomicFormula::Equality(e) => {
            s(o, "Eq(");
            f(o, e.first());
            s(o, ",");
            f(o, e.second());
            s(o, ")");
        }
        AtomicFormula::Predicate(p) => {
            s(o, "Pred ");
            nm(o, p.predicate());
            many(o, p.values().iter(), f);
        }
    }
}
pub fn literal<T>(o: &mut O, l: &Literal<T>, f: impl Fn(&mut O, &T)) {
    match l {
        Literal::AtomicFormula(a) => af(o, a, f),
        Literal::NotAtomicFormula(a) => {
            s(o, "Not(");
            af(o, a, f);
            s(o, ")");
        }
    }
}
pub fn gd(o: &mut O, g: &GoalDefinition) {
    match g {
        GoalDefinition::AtomicFormula(a) => af(o, a, term),
        GoalDefinition::Literal(l) => {
            mark(o, "~lit ");
            literal(o, l, term)
        }
        GoalDefinition::And(v) => {
            s(o, "And");
            many(o, v, gd)
        }
        GoalDefinition::Or(v) => {
            s(o, "Or");
            many(o, v, gd)
        }
        GoalDefinition::Not(g) => {
            s(o, "Not(");
            gd(o, g);
            s(o, ")");
        }
        GoalDefinition::Imply(a, b) => {
            s(o, "Imply(");
            gd(o, a);
            s(o, ",");
            gd(o, b);
            s(o, ")");
        }
        GoalDefinition::Exists(v, g) => {
            s(o, "Exists");
            tvars(o, v);
            gd(o, g);
        }
        GoalDefinition::ForAll(v, g) => {
            s(o, "Forall");
            tvars(o, v);
            gd(o, g);
        }
        GoalDefinition::FComp(c) => {
            s(o, "Cmp");
            s(o, comp(c.comparison()));
            s(o, "(");
            fexp(o, c.first());
            s(o, ",");
            fexp(o, c.second());
            s(o, ")");
        }
    }
}
pub fn comp(c: &BinaryComp) -> &'static str {
    match c {
        BinaryComp::GreaterThan => ">",
        BinaryComp::LessThan => "<",
        BinaryComp::Equal => "=",
        BinaryComp::GreaterOrEqual => ">=",
        BinaryComp::LessThanOrEqual => "<=",
    }
}
pub fn bop(c: &BinaryOp) -> &'static str {
    match c {
        BinaryOp::Multiplication => "*",
        BinaryOp::Addition => "+",
        BinaryOp::Subtraction => "-",
        BinaryOp::Division => "/",
    }
}
pub fn mop(c: &MultiOp) -> &'static str {
    match c {
        MultiOp::Multiplication => "*",
        MultiOp::Addition => "+",
    }
}
pub fn fhead(o: &mut O, f: &FHead) {
    s(o, "F ");
    match f {
        FHead::Simple(f) => {
            nm(o, f);
            s(o, "[]");
        }
        FHead::WithTerms(f, t) => {
            nm(o, f);
            many(o, t, term);
        }
    }
}
fn op2<T>(o: &mut O, op: &str, a: &T, b: &T, f: impl Fn(&mut O, &T)) {
    s(o, "Op");
    s(o, op);
    s(o, "(");
    f(o, a);
    s(o, ",");
    f(o, b);
    s(o, ",)");
}
fn opn<T>(o: &mut O, op: &str, a: &T, b: &[T], f: impl Fn(&mut O, &T)) {
    s(o, "Op");
    s(o, op);
    s(o, "(");
    f(o, a);
    s(o, ",");
    for x in b {
        f(o, x);
        s(o, ",");
    }
    s(o, ")");
}
fn neg<T>(o: &mut O, a: &T, f: impl Fn(&mut O, &T)) {
    s(o, "Neg(");
    f(o, a);
    s(o, ")");
}
pub fn fexp(o: &mut O, e: &FExp) {
    match e {
        FExp::Number(n) => num(o, n),
        FExp::Function(f) => fhead(o, f),
        FExp::Negative(a) => neg(o, &**a, fexp),
        FExp::BinaryOp(op, a, b) => op2(o, bop(op), &**a, &**b, fexp),
        FExp::MultiOp(op, a, b) => opn(o, mop(op), &**a, b, fexp),
    }
}
pub fn fexpda(o: &mut O, e: &FExpDa) {
    match e {
        FExpDa::Assign(..) => s(o, "ASSIGN?"),
        FExpDa::Duration => s(o, "?duration"),
        FExpDa::FExp(f) => {
            mark(o, "~f ");
            fexp(o, f)
        }
        FExpDa::Negative(a) => neg(o, &**a, fexpda),
        FExpDa::BinaryOp(op, a, b) => op2(o, bop(op), &**a, &**b, fexpda),
        FExpDa::MultiOp(op, a, b) => opn(o, mop(op), &**a, b, fexpda),
    }
}
pub fn fexpt(o: &mut O, e: &FExpT) {
    match e {
        FExpT::Now => s(o, "#t"),
        FExpT::Scaled(e) => {
            s(o, "#t*(");
            fexp(o, e);
            s(o, ")");
        }
    }
}
pub fn metric(o: &mut O, e: &MetricFExp) {
    match e {
        MetricFExp::Number(n) => num(o, n),
        MetricFExp::Function(f, n) => {
            s(o, "F ");
            nm(o, f);
            many(o, n, name);
        }
        MetricFExp::Negative(a) => neg(o, &**a, metric),
        MetricFExp::BinaryOp(op, a, b) => op2(o, bop(op), &**a, &**b, metric),
        MetricFExp::MultiOp(op, a, b) => opn(o, mop(op), &**a, b, metric),
        MetricFExp::TotalTime => s(o, "total-time"),
        MetricFExp::IsViolated(p) => {
            s(o, "violated ");
            nm(o, p);
        }
    }
}
pub fn aop(a: &AssignOp) -> &'static str {
    match a {
        AssignOp::Assign => "assign",
        AssignOp::ScaleUp => "scale-up",
        AssignOp::ScaleDown => "scale-down",
        AssignOp::Increase => "increase",
        AssignOp::Decrease => "decrease",
    }
}
pub fn aopt(a: &AssignOpT) -> &'static str {
    match a {
        AssignOpT::Increase => "increase",
        AssignOpT::Decrease => "decrease",
    }
}
pub fn peff(o: &mut O, e: &PEffect) {
    match e {
        PEffect::AtomicFormula(a) => af(o, a, term),
        PEffect::NotAtomicFormula(a) => {
            s(o, "Not(");
            af(o, a, term);
            s(o, ")");
        }
        PEffect::AssignNumericFluent(op, h, e) => {
            s(o, "Set ");
            s(o, aop(op));
            s(o, "(");
            fhead(o, h);
            s(o, ",");
            fexp(o, e);
            s(o, ")");
        }
        PEffect::AssignObjectFluent(f, t) => {
            s(o, "SetObj(");
            fterm(o, f);
            s(o, ",");
            match t {
                None => s(o, "undefined"),
                Some(t) => term(o, t),
            }
            s(o, ")");
        }
    }
}
pub fn ceff(o: &mut O, e: &CEffect) {
    match e {
        CEffect::Effect(p) => peff(o, p),
        CEffect::Forall(f) => {
            s(o, "Forall");
            tvars(o, &f.variables);
            effects(o, &f.effects);
        }
        CEffect::When(w) => {
            s(o, "When(");
            gd(o, &w.condition);
            s(o, ",");
            condeff(o, &w.effect);
            s(o, ")");
        }
    }
}
pub fn effects(o: &mut O, e: &Effects) {
    many(o, e.iter(), ceff)
}
pub fn condeff(o: &mut O, e: &ConditionalEffect) {
    match e {
        ConditionalEffect::Single(p) => {
            mark(o, "~one ");
            many(o, [p], peff)
        }
        ConditionalEffect::All(v) => many(o, v, peff),
    }
}
pub fn pref(o: &mut O, p: &Preference) {
    s(o, "Pref(");
    match p.name() {
        None => s(o, "-"),
        Some(n) => nm(o, n),
    }
    s(o, ",");
    gd(o, p.goal());
    s(o, ")");
}
pub fn pregd(o: &mut O, p: &PreconditionGoalDefinition) {
    match p {
        PreconditionGoalDefinition::Preference(PreferenceGD::Goal(g)) => gd(o, g),
        PreconditionGoalDefinition::Preference(PreferenceGD::Preference(p)) => pref(o, p),
        PreconditionGoalDefinition::Forall(v, g) => {
            s(o, "FORALL");
            tvars(o, v);
            pregds(o, g);
        }
    }
}
pub fn pregds(o: &mut O, p: &PreconditionGoalDefinitions) {
    many(o, p.iter(), pregd)
}
pub fn con(o: &mut O, c: &ConGD) {
    let mut one = |o: &mut O, k: &str, n: &[&Number], g: &[&Con2GD]| {
        s(o, k);
        s(o, "(");
        for n in n {
            num(o, n);
            s(o, ",");
        }
        for g in g {
            con2(o, g);
            s(o, ",");
        }
        s(o, ")");
    };
    match c {
        ConGD::And(v) => {
            s(o, "CAnd");
            many(o, v, con)
        }
        ConGD::Forall(v, g) => {
            s(o, "CForall");
            tvars(o, v);
            con(o, g);
        }
        ConGD::AtEnd(g) => {
            s(o, "at-end(");
            gd(o, g);
            s(o, ")");
        }
        ConGD::Always(g) => one(o, "always", &[], &[g]),
        ConGD::Sometime(g) => one(o, "sometime", &[], &[g]),
        ConGD::Within(n, g) => one(o, "within", &[n], &[g]),
        ConGD::AtMostOnce(g) => one(o, "at-most-once", &[], &[g]),
        ConGD::SometimeAfter(a, b) => one(o, "sometime-after", &[], &[a, b]),
        ConGD::SometimeBefore(a, b) => one(o, "sometime-before", &[], &[a, b]),
        ConGD::AlwaysWithin(n, a, b) => one(o, "always-within", &[n], &[a, b]),
        ConGD::HoldDuring(n, m, g) => one(o, "hold-during", &[n, m], &[g]),
        ConGD::HoldAfter(n, g) => one(o, "hold-after", &[n], &[g]),
    }
}
pub fn con2(o: &mut O, c: &Con2GD) {
    match c {
        Con2GD::Goal(g) => gd(o, g),
        Con2GD::Nested(c) => {
            mark(o, "~nested ");
            if vacuous(c) {
                vacuous_gd(o, c)
            } else {
                con(o, c)
            }
        }
    }
}
/// `(and)` and the like are a goal as much as a constraint; these go as a goal.
fn vacuous(c: &ConGD) -> bool {
    match c {
        ConGD::And(v) => v.iter().all(vacuous),
        ConGD::Forall(_, c) => vacuous(c),
        _ => false,
    }
}
fn vacuous_gd(o: &mut O, c: &ConGD) {
    match c {
        ConGD::And(v) => {
            s(o, "And");
            many(o, v, vacuous_gd)
        }
        ConGD::Forall(v, c) => {
            s(o, "Forall");
            tvars(o, v);
            vacuous_gd(o, c)
        }
        _ => (),
    }
}
pub fn prefcon(o: &mut O, p: &PrefConGD) {
    match p {
        PrefConGD::Goal(c) => con(o, c),
        PrefConGD::Forall(v, g) => {
            s(o, "PForall");
            tvars(o, v);
            prefcons(o, g);
        }
        PrefConGD::Preference(n, c) => {
            s(o, "Pref(");
            match n {
                None => s(o, "-"),
                Some(n) => nm(o, n),
            }
            s(o, ",");
            con(o, c);
            s(o, ")");
        }
    }
}
pub fn prefcons(o: &mut O, p: &PrefConGDs) {
    many(o, p.iter(), prefcon)
}
pub fn dop(d: &DOp) -> &'static str {
    match d {
        DOp::LessThanOrEqual => "<=",
        DOp::GreaterOrEqual => ">=",
        DOp::Equal => "=",
    }
}
pub fn ts(t: &TimeSpecifier) -> &'static str {
    match t {
        TimeSpecifier::Start => "start",
        TimeSpecifier::End => "end",
    }
}
pub fn sdur(o: &mut O, d: &SimpleDurationConstraint) {
    match d {
        SimpleDurationConstraint::Op(op, v) => {
            s(o, "D");
            s(o, dop(op));
            s(o, "(");
            match v {
                DurationValue::Number(n) => {
                    mark(o, "~n ");
                    num(o, n)
                }
                DurationValue::FExp(e) => fexp(o, e),
            }
            s(o, ")");
        }
        SimpleDurationConstraint::At(t, d) => {
            s(o, "At ");
            s(o, ts(t));
            s(o, "(");
            sdur(o, d);
            s(o, ")");
        }
    }
}
pub fn dur(o: &mut O, d: &Option<DurationConstraint>) {
    match d {
        None => {
            mark(o, "~none ");
            s(o, "[]")
        }
        Some(DurationConstraint::Single(d)) => {
            mark(o, "~one ");
            many(o, [d], sdur)
        }
                Some(DurationConstraint::All(v)) => many(o, v, sdur),
    }
}
pub fn timedgd(o: &mut O, t: &TimedGD) {
    match t {
        TimedGD::At(t, g) => {
            s(o, "At ");
            s(o, ts(t));
            s(o, "(");
            gd(o, g);
            s(o, ")");
        }
        TimedGD::Over(i, g) => {
            s(
                o,
                match i {
                    Interval::All => "Over all(",
                },
            );
            gd(o, g);
            s(o, ")");
        }
    }
}
pub fn dagd(o: &mut O, d: &DurativeActionGoalDefinition) {
    match d {
        DurativeActionGoalDefinition::Timed(PrefTimedGD::Required(t)) => timedgd(o, t),
        DurativeActionGoalDefinition::Timed(PrefTimedGD::Preference(n, t)) => {
            s(o, "Pref(");
            match n {
                None => s(o, "-"),
                Some(n) => nm(o, n),
            }
            s(o, ",");
            timedgd(o, t);
            s(o, ")");
        }
        DurativeActionGoalDefinition::And(v) => {
            s(o, "DAnd");
            many(o, v, dagd)
        }
        DurativeActionGoalDefinition::Forall(v, g) => {
            s(o, "DForall");
            tvars(o, v);
            dagd(o, g);
        }
    }
}
pub fn timedeff(o: &mut O, e: &TimedEffect) {
    match e {
        TimedEffect::Conditional(t, e) => {
            s(o, "At ");
            s(o, ts(t));
            condeff(o, e);
        }
        TimedEffect::NumericFluent(t, f) => {
            s(o, "At ");
            s(o, ts(t));
            s(o, "[Set ");
            s(o, aop(f.operation()));
            s(o, "(");
            fhead(o, f.function());
            s(o, ",");
            fexpda(o, f.function_expr());
            s(o, ");]");
        }
        TimedEffect::ContinuousEffect(op, h, e) => {
            s(o, "Cont ");
            s(o, aopt(op));
            s(o, "(");
            fhead(o, h);
            s(o, ",");
            fexpt(o, e);
            s(o, ")");
        }
    }
}
pub fn daeff(o: &mut O, e: &DurativeActionEffect) {
    match e {
        DurativeActionEffect::Timed(t) => timedeff(o, t),
        DurativeActionEffect::All(v) => {
            s(o, "EAnd");
            many(o, v, daeff)
        }
        DurativeActionEffect::Forall(v, e) => {
            s(o, "EForall");
            tvars(o, v);
            daeff(o, e);
        }
        DurativeActionEffect::When(g, e) => {
            s(o, "When(");
            dagd(o, g);
            s(o, ",");
            timedeff(o, e);
            s(o, ")");
        }
    }
}
pub fn action(o: &mut O, a: &ActionDefinition) {
    s(o, "Action ");
    nm(o, a.symbol());
    tvars(o, a.parameters());
    s(o, "pre");
    pregds(o, a.precondition());
    s(o, "eff");
    match a.effect() {
        None => {
            mark(o, "~none ");
            s(o, "[]")
        }
        Some(e) => effects(o, e),
    }
}
pub fn durative(o: &mut O, a: &DurativeActionDefinition) {
    s(o, "Durative ");
    nm(o, a.symbol());
    tvars(o, a.parameters());
    s(o, "dur");
    dur(o, a.duration());
    s(o, "cond");
    match a.condition() {
        None => s(o, "()"),
        Some(c) => dagd(o, c),
    }
    s(o, "eff");
    match a.effect() {
        None => s(o, "()"),
        Some(e) => daeff(o, e),
    }
}
pub fn skeleton(o: &mut O, a: &AtomicFormulaSkeleton) {
    s(o, "P ");
    nm(o, a.predicate());
    tvars(o, a.variables());
}
pub fn fskeleton(o: &mut O, a: &AtomicFunctionSkeleton) {
    s(o, "FS ");
    nm(o, a.symbol());
    tvars(o, a.variables());
}
pub fn derived(o: &mut O, d: &DerivedPredicate) {
    s(o, "Derived ");
    skeleton(o, d.predicate());
    s(o, "<-");
    gd(o, d.expression());
}
pub fn structure(o: &mut O, d: &StructureDef) {
    match d {
        StructureDef::Action(a) => action(o, a),
        StructureDef::DurativeAction(a) => durative(o, a),
        StructureDef::Derived(d) => derived(o, d),
    }
}
pub fn reqs(o: &mut O, r: &Requirements) {
    s(o, "[");
    for x in r.iter() {
        s(o, x.as_str());
        s(o, ";");
    }
    s(o, "]");
}
pub fn flist(o: &mut O, l: &FunctionTypedList<AtomicFunctionSkeleton>) {
    s(o, "{");
    for t in l.values() {
        fskeleton(o, t.value_ref());
        s(o, ":");
        ty(o, t.type_ref());
        s(o, ";");
    }
    s(o, "}");
}
pub fn domain(o: &mut O, d: &Domain) {
    s(o, "Domain ");
    nm(o, d.name());
    s(o, "\nextends");
    many(o, d.extends(), name);
    s(o, "\nreq");
    reqs(o, d.requirements());
    s(o, "\ntypes");
    tnames(o, d.types().values());
    s(o, "\nconst");
    tnames(o, d.constants());
    s(o, "\npred");
    many(o, d.predicates().values(), skeleton);
    s(o, "\nfun");
    flist(o, d.functions());
    s(o, "\ncon ");
    con(o, d.constraints());
    s(o, "\n");
    many(o, d.structure().values(), structure);
}
pub fn init(o: &mut O, i: &InitElement) {
    match i {
        InitElement::Literal(l) => literal(o, l, name),
        InitElement::At(n, l) => {
            s(o, "At ");
            num(o, n);
            s(o, "(");
            literal(o, l, name);
            s(o, ")");
        }
        InitElement::IsValue(b, n) => {
            s(o, "Val(");
            bft(o, b);
            s(o, ",");
            num(o, n);
            s(o, ")");
        }
        InitElement::IsObject(b, n) => {
            s(o, "Obj(");
            bft(o, b);
            s(o, ",");
            nm(o, n);
            s(o, ")");
        }
    }
}
pub fn u64_(o: &mut O, mut v: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    o.extend_from_slice(&b[i..]);
}
pub fn length(o: &mut O, l: &LengthSpec) {
    s(o, "Len(");
    match l.serial() {
        None => s(o, "-"),
        Some(v) => u64_(o, v),
    }
    s(o, ",");
    match l.parallel() {
        None => s(o, "-"),
        Some(v) => u64_(o, v),
    }
    s(o, ")");
}
pub fn metricspec(o: &mut O, m: &MetricSpec) {
    s(
        o,
        match m.optimization() {
            Optimization::Minimize => "minimize ",
            Optimization::Maximize => "maximize ",
        },
    );
    metric(o, m.expression());
}
pub fn problem(o: &mut O, p: &Problem) {
    s(o, "Problem ");
    nm(o, p.name());
    s(o, "\ndomain ");
    nm(o, p.domain());
    s(o, "\nreq");
    reqs(o, p.requirements());
    s(o, "\nobjects");
    tnames(o, p.objects());
    s(o, "\ninit");
    many(o, p.init().iter(), init);
    s(o, "\ngoal");
    pregds(o, p.goals());
    s(o, "\ncon");
    prefcons(o, p.constraints());
    s(o, "\nmetric ");
    match p.metric_spec() {
        None => s(o, "-"),
        Some(m) => metricspec(o, m),
    }
    s(o, "\nlen ");
    match p.length_spec() {
        None => s(o, "-"),
        Some(l) => length(o, l),
    }
    s(o, "\n");
}
pub fn timeless(o: &mut O, t: &Timeless) {
    many(o, t.values(), |o, l| literal(o, l, name))
}

pub fn bft(o: &mut O, b: &BasicFunctionTerm) {
    s(o, "F ");
    nm(o, b.symbol());
    many(o, b.names(), name);
}
pub fn fcomp(o: &mut O, f: &FComp) {
    s(o, "Cmp");
    s(o, comp(f.comparison()));
    s(o, "(");
    fexp(o, f.first());
    s(o, ",");
    fexp(o, f.second());
    s(o, ")");
}
pub fn forall_ceff(o: &mut O, f: &ForallCEffect) {
    s(o, "Forall");
    tvars(o, &f.variables);
    effects(o, &f.effects);
}
pub fn when_ceff(o: &mut O, w: &WhenCEffect) {
    s(o, "When(");
    gd(o, &w.condition);
    s(o, ",");
    condeff(o, &w.effect);
    s(o, ")");
}
pub fn fassignda(o: &mut O, f: &FAssignDa) {
    s(o, "Set ");
    s(o, aop(f.operation()));
    s(o, "(");
    fhead(o, f.function());
    s(o, ",");
    fexpda(o, f.function_expr());
    s(o, ")");
}
pub fn prefgd(o: &mut O, p: &PreferenceGD) {
    match p {
        PreferenceGD::Goal(g) => gd(o, g),
        PreferenceGD::Preference(p) => pref(o, p),
    }
}
pub fn dvalue(o: &mut O, v: &DurationValue) {
    match v {
        DurationValue::Number(n) => {
                    mark(o, "~n ");
                    num(o, n)
                }
        DurationValue::FExp(e) => fexp(o, e),
    }
}
pub fn preftimed(o: &mut O, p: &PrefTimedGD) {
    match p {
        PrefTimedGD::Required(t) => timedgd(o, t),
        PrefTimedGD::Preference(n, t) => {
            s(o, "Pref(");
            match n {
                None => s(o, "-"),
                Some(n) => nm(o, n),
            }
            s(o, ",");
            timedgd(o, t);
            s(o, ")");
        }
    }
}
pub fn preds(o: &mut O, p: &PredicateDefinitions) {
    many(o, p.values(), skeleton)
}
pub fn inits(o: &mut O, p: &InitElements) {
    many(o, p.values(), init)
}
