//! The fixed vocabulary: requirement keys, operators and other closed enums.
use crate::rt::*;
use crate::{as_str, fail_at};
use pddl::parsers::*;
use pddl::*;
use std::borrow::Borrow;
use std::fmt::Display;

/// The texts and members of one enum, and its ways to and from text.
struct Vocab<T: 'static> {
    what: &'static str,
    words: &'static [(&'static str, T)],
    /// other texts that are read as a member
    more: &'static [(&'static str, T)],
    read: fn(&str) -> ParseResult<T>,
    from: fn(&str) -> Option<T>,
    /// accessors that give the text of a member
    texts: &'static [fn(&T) -> &str],
    /// comparisons with texts
    eqs: &'static [fn(&T, &str) -> bool],
}

pub const REQUIREMENTS: [(&str, Requirement); 21] = [
    (":strips", Requirement::Strips),
    (":typing", Requirement::Typing),
    (":negative-preconditions", Requirement::NegativePreconditions),
    (":disjunctive-preconditions", Requirement::DisjunctivePreconditions),
    (":equality", Requirement::Equality),
    (":existential-preconditions", Requirement::ExistentialPreconditions),
    (":universal-preconditions", Requirement::UniversalPreconditions),
    (":quantified-preconditions", Requirement::QuantifiedPreconditions),
    (":conditional-effects", Requirement::ConditionalEffects),
    (":fluents", Requirement::Fluents),
    (":numeric-fluents", Requirement::NumericFluents),
    (":object-fluents", Requirement::ObjectFluents),
    (":adl", Requirement::Adl),
    (":durative-actions", Requirement::DurativeActions),
    (":duration-inequalities", Requirement::DurationInequalities),
    (":continuous-effects", Requirement::ContinuousEffects),
    (":derived-predicates", Requirement::DerivedPredicates),
    (":timed-initial-literals", Requirement::TimedInitialLiterals),
    (":preferences", Requirement::Preferences),
    (":constraints", Requirement::Constraints),
    (":action-costs", Requirement::ActionCosts),
];

/// How the task writes the text: bits 0-3 of the argument.
/// 0 every member's own text, 1 one byte of a text replaced, 2 one put in, 3 one taken out, 4 cut off,
/// 5 bits 4-7 arbitrary bytes, 6 upper case at one place
fn check<T: PartialEq + Display + Clone + 'static>(v: Vocab<T>, arg: u32) {
    let how = arg & 15;
    if how == 0 {
        let i = choose(v.words.len() as u8) as usize;
        let j = choose(v.words.len() as u8) as usize;
        let (w, m) = &v.words[i];
        let (x, n) = &v.words[j];
        text(w.as_bytes());
        if (m == n) != (i == j) {
            fail_at(v.what, "two different members are equal");
        }
        if !same(format!("{m}").as_bytes(), w.as_bytes()) {
            fail_at(v.what, "is displayed as another text");
        }
        for f in v.texts {
            if !same(f(m).as_bytes(), w.as_bytes()) {
                fail_at(v.what, "gives another text");
            }
        }
        for f in v.eqs {
            if f(m, x) != (i == j) {
                fail_at(v.what, "compares wrongly with a text");
            }
        }
        match (v.from)(&format!("{m}")) {
            Some(k) if k == *m => {}
            _ => fail_at(v.what, "is not the member its text is converted to"),
        }
        reach(1);
        return;
    }
    let t: Vec<u8> = if how == 5 {
        (0..arg >> 4 & 15).map(|_| set(&ASCII)).collect()
    } else {
        let i = choose((v.words.len() + v.more.len()) as u8) as usize;
        let w = if i < v.words.len() { v.words[i].0 } else { v.more[i - v.words.len()].0 };
        let mut t = w.as_bytes().to_vec();
        let at = choose((t.len() + (how == 2) as usize) as u8) as usize;
        match how {
            1 => t[at] = set(&ASCII),
            2 => t.insert(at, set(&ASCII)),
            3 => {
                t.remove(at);
            }
            4 => t.truncate(at),
            _ => t[at] = t[at].to_ascii_uppercase(),
        }
        t
    };
    text(&t);
    let s = as_str(&t);
    let spelled = |s: &[u8]| v.words.iter().chain(v.more).find(|(w, _)| same(w.as_bytes(), s)).map(|(_, m)| m.clone());
    let want = spelled(&t);
    let got = (v.from)(s);
    if got != want {
        fail_at(v.what, if want.is_some() { "does not know one of its texts" } else { "is made from a text that is none of its own" });
    }
    match (v.read)(s) {
        Err(_) => {
            if want.is_some() {
                fail_at(v.what, "is not read from its text");
            }
            reach(2);
        }
        Ok((rest, m)) => {
            let n = t.len() - rest.fragment().len();
            // blanks and comments may stand in front
            let mut i = 0;
            while i < n {
                if t[i] == b';' {
                    while i < n && t[i] != b'\n' && t[i] != b'\r' {
                        i += 1;
                    }
                } else if matches!(t[i], b' ' | b'\t' | b'\r' | b'\n') {
                    i += 1;
                } else {
                    break;
                }
            }
            if spelled(&t[i..n]) != Some(m) {
                fail_at(v.what, "is read from a text that is not its own");
            }
            if want.is_some() && n != t.len() {
                fail_at(v.what, "is read from a part of a longer member's text");
            }
            if n > 0 && n < t.len() && t[n - 1].is_ascii_alphanumeric() && (t[n].is_ascii_alphanumeric() || t[n] == b'-' || t[n] == b'_') {
                fail_at(v.what, "is read from the beginning of a longer word");
            }
            reach(3);
        }
    }
}

macro_rules! vocab {
    ($arg:ident, $what:expr, $t:ty, $read:ident, $words:expr, $more:expr, [$($f:expr),*], [$($e:expr),*]) => {
        check(
            Vocab::<$t> {
                what: $what,
                words: $words,
                more: $more,
                read: |s| $read(s),
                from: |s| <$t>::try_from(s).ok(),
                texts: &[$($f),*],
                eqs: &[$($e),*],
            },
            $arg,
        )
    };
}

pub fn vocab(arg: u32) {
    let kind = if arg >> 16 & 255 == 255 { choose(10) as u32 } else { arg >> 16 & 255 };
    match kind {
        0 => vocab!(
            arg, "requirement", Requirement, parse_require_key, &REQUIREMENTS, &[],
            [|m| m.as_str(), |m| m.as_ref(), |m| <Requirement as Borrow<str>>::borrow(m)],
            [|m, s| *m == s, |m, s| *m == s.to_string()]
        ),
        1 => vocab!(
            arg, "assignment operator", AssignOp, parse_assign_op,
            &[
                ("assign", AssignOp::Assign), ("scale-up", AssignOp::ScaleUp), ("scale-down", AssignOp::ScaleDown),
                ("increase", AssignOp::Increase), ("decrease", AssignOp::Decrease)
            ],
            &[("change", AssignOp::Assign)],
            [|m| m.as_str(), |m| m.as_ref(), |m| <AssignOp as Borrow<str>>::borrow(m)],
            [|m, s| *m == s, |m, s| *m == s.to_string()]
        ),
        2 => vocab!(
            arg, "timed assignment operator", AssignOpT, parse_assign_op_t,
            &[("increase", AssignOpT::Increase), ("decrease", AssignOpT::Decrease)], &[], [], []
        ),
        3 => vocab!(
            arg, "comparison", BinaryComp, parse_binary_comp,
            &[
                (">", BinaryComp::GreaterThan), ("<", BinaryComp::LessThan), ("=", BinaryComp::Equal),
                (">=", BinaryComp::GreaterOrEqual), ("<=", BinaryComp::LessThanOrEqual)
            ],
            &[], [], []
        ),
        4 => vocab!(
            arg, "binary operator", BinaryOp, parse_binary_op,
            &[
                ("*", BinaryOp::Multiplication), ("+", BinaryOp::Addition), ("-", BinaryOp::Subtraction), ("/", BinaryOp::Division)
            ],
            &[], [], []
        ),
        5 => vocab!(
            arg, "operator for any number of operands", MultiOp, parse_multi_op,
            &[("*", MultiOp::Multiplication), ("+", MultiOp::Addition)], &[], [], []
        ),
        6 => vocab!(
            arg, "duration comparison", DOp, parse_d_op,
            &[("=", DOp::Equal), (">=", DOp::GreaterOrEqual), ("<=", DOp::LessThanOrEqual)], &[], [], []
        ),
        7 => vocab!(arg, "interval", Interval, parse_interval, &[("all", Interval::All)], &[], [], []),
        8 => vocab!(
            arg, "time specifier", TimeSpecifier, parse_time_specifier,
            &[("start", TimeSpecifier::Start), ("end", TimeSpecifier::End)], &[], [], []
        ),
        _ => vocab!(
            arg, "optimization", Optimization, parse_optimization,
            &[("minimize", Optimization::Minimize), ("maximize", Optimization::Maximize)], &[], [], []
        ),
    }
}

/// The conversions between operator types.
pub fn convert(_: u32) {
    let b = [BinaryOp::Multiplication, BinaryOp::Addition, BinaryOp::Subtraction, BinaryOp::Division][choose(4) as usize];
    let m = [MultiOp::Multiplication, MultiOp::Addition][choose(2) as usize];
    text(format!("{b} {m}").as_bytes());
    let back = BinaryOp::from(m);
    if format!("{back}") != format!("{m}") {
        fail("an operator becomes another one as binary operator");
    }
    match MultiOp::try_from(b) {
        Ok(x) => {
            if format!("{x}") != format!("{b}") {
                fail("an operator becomes another one as operator for any number of operands");
            }
        }
        Err(_) => {
            if matches!(b, BinaryOp::Multiplication | BinaryOp::Addition) {
                fail("an operator for any number of operands is not converted");
            }
        }
    }
    if MultiOp::try_from(back).ok() != Some(m) {
        fail("an operator does not survive conversion to and fro");
    }
    reach(1);
}

/// What a requirement stands for, besides itself.
fn parts(r: Requirement) -> &'static [Requirement] {
    use Requirement::*;
    match r {
        QuantifiedPreconditions => &[ExistentialPreconditions, UniversalPreconditions],
        Fluents => &[NumericFluents, ObjectFluents],
        Adl => &[
            Strips, Typing, NegativePreconditions, DisjunctivePreconditions, Equality, ExistentialPreconditions,
            UniversalPreconditions, ConditionalEffects,
        ],
        _ => &[],
    }
}
fn any_requirement() -> Requirement {
    REQUIREMENTS[choose(21) as usize].1
}

/// contains and expand, for any two requirements.
pub fn expand(_: u32) {
    let (a, b) = (any_requirement(), any_requirement());
    text(format!("{a} {b}").as_bytes());
    let want = a == b
        || parts(a).contains(&b)
        // a shorthand whose parts are all among those of a
        || (!parts(b).is_empty() && parts(b).iter().all(|x| parts(a).contains(x)));
    let got = a.contains(b);
    if got != a.contains(&b) {
        fail("contains depends on how the requirement is passed");
    }
    if got != want {
        if a == Requirement::Adl && b == Requirement::ContinuousEffects {
            known("adl-contains-continuous-effects");
        } else {
            fail(if want { "a requirement does not contain one it stands for" } else { "a requirement contains one it does not stand for" });
        }
    }
    let e = a.expand();
    let ref_: &[Requirement] = if parts(a).is_empty() { &[a] } else { parts(a) };
    if e.iter().any(|x| !ref_.contains(x)) || ref_.iter().any(|x| !e.contains(x)) {
        fail("a requirement is expanded to something else than what it stands for");
    }
    for (i, x) in e.iter().enumerate() {
        if e[..i].contains(x) {
            fail("an expansion lists a requirement twice");
        }
        if x.expand() != vec![*x] {
            fail("an expansion can be expanded further");
        }
        if !a.contains(x) {
            fail("a requirement does not contain a part of its expansion");
        }
    }
    reach(1);
}

/// The effective requirements of any list of up to `arg` requirements.
pub fn effective(arg: u32) {
    let n = choose(arg as u8 + 1);
    let list: Vec<Requirement> = (0..n).map(|_| any_requirement()).collect();
    let mut t = String::new();
    for r in &list {
        t.push_str(r.as_str());
        t.push(' ');
    }
    text(t.as_bytes());
    let rs = match choose(3) {
        0 => Requirements::new(list.clone()),
        1 => Requirements::from(list.clone()),
        _ => list.iter().copied().collect::<Requirements>(),
    };
    if rs.len() != list.len() || rs.iter().zip(&list).any(|(a, b)| *a != *b) {
        fail("the requirements are not those given");
    }
    let e = rs.to_effective();
    for (_, r) in &REQUIREMENTS {
        let want = if list.is_empty() {
            *r == Requirement::Strips
        } else {
            list.iter().any(|x| if parts(*x).is_empty() { x == r } else { parts(*x).contains(r) })
        };
        if want && !e.contains(r) {
            fail("an effective requirement is missing");
        }
        if !want && e.contains(r) {
            fail("a requirement is effective that is not in the list");
        }
    }
    if e.len() > 21 {
        fail("too many effective requirements");
    }
    reach(1);
}
