//! A reader of PDDL written from the grammar alone: whether a text is well
//! formed, and the canonical text of what it says.  It works on the tree of
//! parentheses, so it shares nothing with the way the crate reads.
use crate::dump::{bits, nm, s, O};
use crate::gen::REQS;
use crate::rt::*;
use crate::tok::{layout, letter, part};

/// A word or a group, by its place in the text.
pub enum S {
    A(usize, usize),
    L(Vec<S>),
}
use S::*;

pub struct R<'a> {
    pub t: &'a [u8],
    pub o: O,
}
/// The whole text as one word or group; and whether its words stand apart.
pub fn tree(t: &[u8]) -> Option<(S, bool)> {
    let mut stack: Vec<Vec<S>> = vec![];
    let mut apart = true;
    let mut i = 0;
    let mut done: Option<S> = None;
    // 1 behind a word, 2 behind a closing parenthesis
    let mut behind = 0;
    loop {
        let j = layout(&t[i..]) + i;
        if j > i {
            behind = 0;
            // layout around the whole text is not part of it
            if i == 0 || done.is_some() {
                apart = false;
            }
        }
        i = j;
        if i >= t.len() {
            break;
        }
        if done.is_some() {
            return None;
        }
        let x = if t[i] == b'(' {
            if behind == 1 && i > 8 && (same(&t[i - 8..i], b"minimize") || same(&t[i - 8..i], b"maximize")) {
                apart = false; // the known finding metric-without-blank
            }
            stack.push(vec![]);
            i += 1;
            behind = 0;
            continue;
        } else if t[i] == b')' {
            i += 1;
            behind = 2;
            L(stack.pop()?)
        } else {
            let a = i;
            i = end_of_word(t, i);
            if behind != 0 {
                apart = false;
            }
            behind = 1;
            A(a, i)
        };
        match stack.last_mut() {
            Some(l) => l.push(x),
            None => done = Some(x),
        }
    }
    if stack.is_empty() {
        done.map(|d| (d, apart))
    } else {
        None
    }
}


/// The longest word that begins here.
fn end_of_word(t: &[u8], i: usize) -> usize {
    let run = |mut i: usize, f: fn(u8) -> bool| {
        while i < t.len() && f(t[i]) {
            i += 1;
        }
        i
    };
    let c = t[i];
    if letter(c) || c == b'?' || c == b':' || c == b'#' {
        return run(i + 1, part);
    }
    let digit: fn(u8) -> bool = |c| c.is_ascii_digit();
    if digit(c) {
        let j = run(i, digit);
        if j + 1 < t.len() && t[j] == b'.' && digit(t[j + 1]) {
            return run(j + 1, digit);
        }
        return j;
    }
    if (c == b'<' || c == b'>') && t.get(i + 1) == Some(&b'=') {
        return i + 2;
    }
    i + 1
}

/// The alternatives in turn; what a failed one wrote is taken back.
macro_rules! alt {
    ($r:ident, $($x:expr),+ $(,)?) => {{
        let n = $r.o.len();
        $(({ $r.o.truncate(n); $x }) ||)+ { $r.o.truncate(n); false }
    }};
}

impl<'a> R<'a> {
    fn d(&mut self, x: &str) -> bool {
        s(&mut self.o, x);
        true
    }
    fn bytes(&self, e: &S) -> Option<&'a [u8]> {
        match e {
            A(a, b) => Some(&self.t[*a..*b]),
            L(_) => None,
        }
    }
    fn is(&self, e: &S, w: &str) -> bool {
        self.bytes(e).is_some_and(|b| same(b, w.as_bytes()))
    }
    fn one(&self, e: &S, ws: &[&'static str]) -> Option<&'static str> {
        ws.iter().copied().find(|w| self.is(e, w))
    }
    fn head<'e>(&self, e: &'e S, w: &str) -> Option<&'e [S]> {
        match e {
            L(v) if !v.is_empty() && self.is(&v[0], w) => Some(&v[1..]),
            _ => None,
        }
    }
    fn head_n<'e, const N: usize>(&self, e: &'e S, w: &str) -> Option<&'e [S; N]> {
        self.head(e, w).and_then(|v| v.try_into().ok())
    }
    fn get_name(&self, e: &S) -> Option<&'a [u8]> {
        self.bytes(e).filter(|b| word(b))
    }
    fn put(&mut self, b: &[u8]) -> bool {
        self.o.push(b'\'');
        self.o.extend_from_slice(b);
        self.o.push(b'\'');
        true
    }
    pub fn name(&mut self, e: &S) -> bool {
        self.get_name(e).is_some_and(|b| self.put(b))
    }
    pub fn var(&mut self, e: &S) -> bool {
        match self.bytes(e) {
            Some(b) if b[0] == b'?' && word(&b[1..]) => self.d("?") && self.put(&b[1..]),
            _ => false,
        }
    }
    pub fn num(&mut self, e: &S) -> bool {
        let Some(b) = self.bytes(e) else { return false };
        if !decimal(b) {
            return false;
        }
        match std::str::from_utf8(b).ok().and_then(|b| b.parse::<f32>().ok()) {
            Some(v) if v.is_finite() => {
                bits(&mut self.o, v);
                true
            }
            _ => false,
        }
    }
    /// each of them, with something behind each
    fn all(&mut self, v: &[S], end: &str, f: fn(&mut Self, &S) -> bool) -> bool {
        v.iter().all(|e| f(self, e) && self.d(end))
    }
    fn many(&mut self, v: &[S], f: fn(&mut Self, &S) -> bool) -> bool {
        self.d("[") && self.all(v, ";", f) && self.d("]")
    }
    pub fn typ(&mut self, e: &S) -> bool {
        alt!(self, self.name(e), match self.head(e, "either") {
            Some(v) if !v.is_empty() => self.d("Either") && self.many(v, Self::name),
            _ => false,
        })
    }
    fn typed(&mut self, v: &[S], default: &str, f: fn(&mut Self, &S) -> bool) -> bool {
        self.d("{");
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j < v.len() && !self.is(&v[j], "-") {
                j += 1;
            }
            let keep = std::mem::take(&mut self.o);
            if j == v.len() {
                nm(&mut self.o, default);
            } else if j == i || j + 1 == v.len() || !self.typ(&v[j + 1]) {
                self.o = keep;
                return false;
            }
            let ty = std::mem::replace(&mut self.o, keep);
            for e in &v[i..j] {
                if !f(self, e) {
                    return false;
                }
                self.d(":");
                self.o.extend_from_slice(&ty);
                self.d(";");
            }
            i = j + 2;
        }
        self.d("}")
    }
    fn tvars(&mut self, v: &[S]) -> bool {
        self.typed(v, "object", Self::var)
    }
    fn params(&mut self, e: &S) -> bool {
        match e {
            L(v) => self.tvars(v),
            _ => false,
        }
    }
    pub fn term(&mut self, e: &S) -> bool {
        alt!(self, self.name(e), self.var(e), self.fterm(e))
    }
    pub fn fterm(&mut self, e: &S) -> bool {
        match e {
            L(v) if !v.is_empty() => self.d("fn ") && self.name(&v[0]) && self.many(&v[1..], Self::term),
            _ => false,
        }
    }
    fn af(&mut self, e: &S, f: fn(&mut Self, &S) -> bool) -> bool {
        if let Some([a, b]) = self.head_n(e, "=") {
            return self.d("Eq(") && f(self, a) && self.d(",") && f(self, b) && self.d(")");
        }
        match e {
            L(v) if !v.is_empty() => self.d("Pred ") && self.name(&v[0]) && self.many(&v[1..], f),
            _ => false,
        }
    }
    fn aft(&mut self, e: &S) -> bool {
        self.af(e, Self::term)
    }
    fn not_af(&mut self, e: &S, f: fn(&mut Self, &S) -> bool) -> bool {
        match self.head_n(e, "not") {
            Some([x]) => self.d("Not(") && self.af(x, f) && self.d(")"),
            _ => false,
        }
    }
    fn literal(&mut self, e: &S) -> bool {
        alt!(self, self.not_af(e, Self::name), self.af(e, Self::name))
    }
    fn quant(&mut self, e: &S, kw: &str, tag: &str, f: fn(&mut Self, &S) -> bool) -> bool {
        match self.head_n(e, kw) {
            Some([v, x]) => self.d(tag) && self.params(v) && f(self, x),
            _ => false,
        }
    }
    fn listed(&mut self, e: &S, kw: &str, tag: &str, f: fn(&mut Self, &S) -> bool) -> bool {
        match self.head(e, kw) {
            Some(v) => self.d(tag) && self.many(v, f),
            _ => false,
        }
    }
    pub fn gd(&mut self, e: &S) -> bool {
        alt!(
            self,
            self.listed(e, "and", "And", Self::gd),
            self.listed(e, "or", "Or", Self::gd),
            match self.head_n(e, "not") {
                Some([x]) => self.d("Not(") && self.gd(x) && self.d(")"),
                _ => false,
            },
            match self.head_n(e, "imply") {
                Some([a, b]) => self.d("Imply(") && self.gd(a) && self.d(",") && self.gd(b) && self.d(")"),
                _ => false,
            },
            self.quant(e, "exists", "Exists", Self::gd),
            self.quant(e, "forall", "Forall", Self::gd),
            self.aft(e),
            self.fcomp(e),
        )
    }
    pub fn fcomp(&mut self, e: &S) -> bool {
        let L(v) = e else { return false };
        let [op, a, b] = &v[..] else { return false };
        match self.one(op, &["<", "<=", "=", ">=", ">"]) {
            Some(op) => self.d("Cmp") && self.d(op) && self.d("(") && self.fexp(a) && self.d(",") && self.fexp(b) && self.d(")"),
            None => false,
        }
    }
    pub fn fhead(&mut self, e: &S) -> bool {
        self.d("F ")
            && match e {
                A(..) => self.name(e) && self.d("[]"),
                L(v) => !v.is_empty() && self.name(&v[0]) && self.many(&v[1..], Self::term),
            }
    }
    fn ops(&mut self, e: &S, f: fn(&mut Self, &S) -> bool) -> bool {
        let L(v) = e else { return false };
        if v.len() < 2 {
            return false;
        }
        match self.one(&v[0], &["*", "+", "-", "/"]) {
            Some("-") if v.len() == 2 => self.d("Neg(") && f(self, &v[1]) && self.d(")"),
            Some(op) if v.len() == 3 || (v.len() > 3 && (op == "*" || op == "+")) => {
                self.d("Op") && self.d(op) && self.d("(") && self.all(&v[1..], ",", f) && self.d(")")
            }
            _ => false,
        }
    }
    pub fn fexp(&mut self, e: &S) -> bool {
        alt!(self, self.num(e), self.ops(e, Self::fexp), self.fhead(e))
    }
    pub fn fexpda(&mut self, e: &S) -> bool {
        alt!(self, self.is(e, "?duration") && self.d("?duration"), self.ops(e, Self::fexpda), self.fexp(e))
    }
    pub fn fexpt(&mut self, e: &S) -> bool {
        alt!(self, self.is(e, "#t") && self.d("#t"), match self.head_n(e, "*") {
            Some([a, b]) if self.is(a, "#t") => self.d("#t*(") && self.fexp(b) && self.d(")"),
            Some([a, b]) if self.is(b, "#t") => self.d("#t*(") && self.fexp(a) && self.d(")"),
            _ => false,
        })
    }
    pub fn metric(&mut self, e: &S) -> bool {
        alt!(
            self,
            self.num(e),
            self.ops(e, Self::metric),
            self.is(e, "total-time") && self.d("total-time"),
            match self.head_n(e, "is-violated") {
                Some([n]) => self.d("violated ") && self.name(n),
                _ => false,
            },
            match e {
                A(..) => self.d("F ") && self.name(e) && self.d("[]"),
                L(v) if !v.is_empty() => self.d("F ") && self.name(&v[0]) && self.many(&v[1..], Self::name),
                _ => false,
            },
        )
    }
    fn set(&mut self, e: &S, f: fn(&mut Self, &S) -> bool) -> bool {
        let L(v) = e else { return false };
        let [op, a, b] = &v[..] else { return false };
        match self.one(op, &["assign", "change", "increase", "decrease", "scale-up", "scale-down"]) {
            Some(op) => {
                self.d("Set ") && self.d(if op == "change" { "assign" } else { op }) && self.d("(") && self.fhead(a) && self.d(",") && f(self, b) && self.d(")")
            }
            None => false,
        }
    }
    pub fn peff(&mut self, e: &S) -> bool {
        alt!(
            self,
            self.not_af(e, Self::term),
            match self.head_n(e, "assign") {
                Some([f, x]) => {
                    self.d("SetObj(") && self.fterm(f) && self.d(",") && alt!(self, self.is(x, "undefined") && self.d("undefined"), self.term(x)) && self.d(")")
                }
                _ => false,
            },
            self.set(e, Self::fexp),
            self.aft(e),
        )
    }
    pub fn condeff(&mut self, e: &S) -> bool {
        alt!(self, self.listed(e, "and", "", Self::peff), self.d("[") && self.peff(e) && self.d(";]"))
    }
    pub fn forall_ceff(&mut self, e: &S) -> bool {
        self.quant(e, "forall", "Forall", Self::effects)
    }
    pub fn when_ceff(&mut self, e: &S) -> bool {
        match self.head_n(e, "when") {
            Some([c, x]) => self.d("When(") && self.gd(c) && self.d(",") && self.condeff(x) && self.d(")"),
            _ => false,
        }
    }
    pub fn ceff(&mut self, e: &S) -> bool {
        alt!(self, self.forall_ceff(e), self.when_ceff(e), self.peff(e))
    }
    pub fn effects(&mut self, e: &S) -> bool {
        alt!(self, self.listed(e, "and", "", Self::ceff), self.d("[") && self.ceff(e) && self.d(";]"))
    }
    fn pref(&mut self, e: &S, f: fn(&mut Self, &S) -> bool) -> bool {
        match self.head(e, "preference") {
            Some([n, x]) => self.d("Pref(") && self.name(n) && self.d(",") && f(self, x) && self.d(")"),
            Some([x]) => self.d("Pref(-,") && f(self, x) && self.d(")"),
            _ => false,
        }
    }
    pub fn prefgd(&mut self, e: &S) -> bool {
        alt!(self, self.pref(e, Self::gd), self.gd(e))
    }
    fn pregd_in(&mut self, e: &S) -> bool {
        alt!(
            self,
            match self.head(e, "and") {
                Some(v) => self.all(v, "", Self::pregd_in),
                None => false,
            },
            self.quant(e, "forall", "FORALL", Self::pregds) && self.d(";"),
            self.prefgd(e) && self.d(";"),
        )
    }
    pub fn pregds(&mut self, e: &S) -> bool {
        self.d("[") && self.pregd_in(e) && self.d("]")
    }
    fn modal(&mut self, e: &S) -> bool {
        let L(v) = e else { return false };
        if v.is_empty() {
            return false;
        }
        const M: &[(&str, usize, usize)] = &[
            ("always", 0, 1),
            ("sometime", 0, 1),
            ("within", 1, 1),
            ("at-most-once", 0, 1),
            ("sometime-after", 0, 2),
            ("sometime-before", 0, 2),
            ("always-within", 1, 2),
            ("hold-during", 2, 1),
            ("hold-after", 1, 1),
        ];
        for (kw, n, g) in M {
            if v.len() == 1 + n + g && self.is(&v[0], kw) {
                return self.d(kw) && self.d("(") && self.all(&v[1..1 + n], ",", Self::num) && self.all(&v[1 + n..], ",", Self::con2) && self.d(")");
            }
        }
        v.len() == 3 && self.is(&v[0], "at") && self.is(&v[1], "end") && self.d("at-end(") && self.gd(&v[2]) && self.d(")")
    }
    pub fn con(&mut self, e: &S) -> bool {
        alt!(self, self.listed(e, "and", "CAnd", Self::con), self.quant(e, "forall", "CForall", Self::con), self.modal(e))
    }
    /// made of `and` and `forall` alone
    fn vacuous(&self, e: &S) -> bool {
        match (self.head(e, "and"), self.head_n(e, "forall")) {
            (Some(v), _) => v.iter().all(|e| self.vacuous(e)),
            (_, Some([_, x])) => self.vacuous(x),
            _ => false,
        }
    }
    pub fn con2(&mut self, e: &S) -> bool {
        if self.vacuous(e) {
            return self.gd(e);
        }
        alt!(self, self.con(e), self.gd(e))
    }
    fn prefcon_in(&mut self, e: &S) -> bool {
        alt!(
            self,
            match self.head(e, "and") {
                Some(v) => self.all(v, "", Self::prefcon_in),
                None => false,
            },
            self.quant(e, "forall", "PForall", Self::prefcons) && self.d(";"),
            self.pref(e, Self::con) && self.d(";"),
            self.con(e) && self.d(";"),
        )
    }
    pub fn prefcons(&mut self, e: &S) -> bool {
        self.d("[") && self.prefcon_in(e) && self.d("]")
    }
    fn time(&mut self, e: &S) -> bool {
        match self.one(e, &["start", "end"]) {
            Some(t) => self.d("At ") && self.d(t),
            None => false,
        }
    }
    pub fn sdur(&mut self, e: &S) -> bool {
        let L(v) = e else { return false };
        let [a, b, c] = &v[..] else { return false };
        match self.one(a, &["<=", ">=", "=", "at"]) {
            Some("at") => self.time(b) && self.d("(") && self.sdur(c) && self.d(")"),
            Some(op) => self.is(b, "?duration") && self.d("D") && self.d(op) && self.d("(") && self.fexp(c) && self.d(")"),
            None => false,
        }
    }
    pub fn dur(&mut self, e: &S) -> bool {
        match e {
            L(v) if v.is_empty() => return self.d("[]"),
            _ => {}
        }
        alt!(
            self,
            match self.head(e, "and") {
                Some(v) if !v.is_empty() => self.many(v, Self::sdur),
                _ => false,
            },
            self.d("[") && self.sdur(e) && self.d(";]"),
        )
    }
    pub fn timedgd(&mut self, e: &S) -> bool {
        alt!(
            self,
            match self.head_n(e, "at") {
                Some([t, g]) => self.time(t) && self.d("(") && self.gd(g) && self.d(")"),
                None => false,
            },
            match self.head_n(e, "over") {
                Some([a, g]) => self.is(a, "all") && self.d("Over all(") && self.gd(g) && self.d(")"),
                None => false,
            },
        )
    }
    pub fn preftimed(&mut self, e: &S) -> bool {
        alt!(self, self.pref(e, Self::timedgd), self.timedgd(e))
    }
    pub fn dagd(&mut self, e: &S) -> bool {
        alt!(self, self.listed(e, "and", "DAnd", Self::dagd), self.quant(e, "forall", "DForall", Self::dagd), self.preftimed(e))
    }
    pub fn fassignda(&mut self, e: &S) -> bool {
        self.set(e, Self::fexpda)
    }
    pub fn timedeff(&mut self, e: &S) -> bool {
        alt!(
            self,
            match self.head_n(e, "at") {
                Some([t, x]) => self.time(t) && alt!(self, self.d("[") && self.fassignda(x) && self.d(";]"), self.condeff(x)),
                None => false,
            },
            self.cont(e, "increase"),
            self.cont(e, "decrease"),
        )
    }
    fn cont(&mut self, e: &S, op: &str) -> bool {
        match self.head_n(e, op) {
            Some([h, x]) => self.d("Cont ") && self.d(op) && self.d("(") && self.fhead(h) && self.d(",") && self.fexpt(x) && self.d(")"),
            None => false,
        }
    }
    pub fn daeff(&mut self, e: &S) -> bool {
        alt!(
            self,
            self.listed(e, "and", "EAnd", Self::daeff),
            self.quant(e, "forall", "EForall", Self::daeff),
            match self.head_n(e, "when") {
                Some([c, x]) => self.d("When(") && self.dagd(c) && self.d(",") && self.timedeff(x) && self.d(")"),
                None => false,
            },
            self.timedeff(e),
        )
    }
    fn or_empty(&mut self, e: &S, none: &str, f: fn(&mut Self, &S) -> bool) -> bool {
        match e {
            L(v) if v.is_empty() => self.d(none),
            _ => f(self, e),
        }
    }
    pub fn action(&mut self, e: &S) -> bool {
        let Some([n, kw, ps, rest @ ..]) = self.head(e, ":action") else { return false };
        if !(self.d("Action ") && self.name(n) && self.is(kw, ":parameters") && self.params(ps) && self.d("pre")) {
            return false;
        }
        let mut rest = rest;
        if rest.len() >= 2 && self.is(&rest[0], ":precondition") {
            if !self.or_empty(&rest[1], "[]", Self::pregds) {
                return false;
            }
            rest = &rest[2..];
        } else {
            self.d("[]");
        }
        self.d("eff");
        match rest {
            [] => self.d("[]"),
            [kw, x] => self.is(kw, ":effect") && self.or_empty(x, "[]", Self::effects),
            _ => false,
        }
    }
    pub fn durative(&mut self, e: &S) -> bool {
        let Some([n, k1, ps, k2, d, k3, c, k4, x]) = self.head_n(e, ":durative-action") else { return false };
        self.d("Durative ")
            && self.name(n)
            && self.is(k1, ":parameters")
            && self.params(ps)
            && self.is(k2, ":duration")
            && self.d("dur")
            && self.dur(d)
            && self.is(k3, ":condition")
            && self.d("cond")
            && self.or_empty(c, "()", Self::dagd)
            && self.is(k4, ":effect")
            && self.d("eff")
            && self.or_empty(x, "()", Self::daeff)
    }
    pub fn skeleton(&mut self, e: &S) -> bool {
        self.skel(e, "P ")
    }
    pub fn fskeleton(&mut self, e: &S) -> bool {
        self.skel(e, "FS ")
    }
    fn skel(&mut self, e: &S, tag: &str) -> bool {
        match e {
            L(v) if !v.is_empty() => self.d(tag) && self.name(&v[0]) && self.tvars(&v[1..]),
            _ => false,
        }
    }
    pub fn derived(&mut self, e: &S) -> bool {
        match self.head_n(e, ":derived") {
            Some([p, g]) => self.d("Derived ") && self.skeleton(p) && self.d("<-") && self.gd(g),
            None => false,
        }
    }
    pub fn structure(&mut self, e: &S) -> bool {
        alt!(self, self.action(e), self.durative(e), self.derived(e))
    }
    fn req(&mut self, e: &S) -> bool {
        self.one(e, REQS).is_some_and(|r| self.d(r))
    }
    fn section(&mut self, e: &S, kw: &str, least: usize, f: fn(&mut Self, &[S]) -> bool) -> bool {
        match self.head(e, kw) {
            Some(v) if v.len() >= least => f(self, v),
            _ => false,
        }
    }
    pub fn reqs(&mut self, e: &S) -> bool {
        self.section(e, ":requirements", 1, |r, v| r.many(v, Self::req))
    }
    fn names(&mut self, e: &S, kw: &str) -> bool {
        self.section(e, kw, 0, |r, v| r.typed(v, "object", Self::name))
    }
    pub fn preds(&mut self, e: &S) -> bool {
        self.section(e, ":predicates", 1, |r, v| r.many(v, Self::skeleton))
    }
    pub fn funs(&mut self, e: &S) -> bool {
        self.section(e, ":functions", 0, |r, v| r.typed(v, "number", Self::fskeleton))
    }
    pub fn domcon(&mut self, e: &S) -> bool {
        self.section(e, ":constraints", 1, |r, v| v.len() == 1 && r.con(&v[0]))
    }
    pub fn probcon(&mut self, e: &S) -> bool {
        self.section(e, ":constraints", 1, |r, v| v.len() == 1 && r.prefcons(&v[0]))
    }
    pub fn timeless(&mut self, e: &S) -> bool {
        self.section(e, ":timeless", 1, |r, v| r.many(v, Self::literal))
    }
    /// one optional section: written, or what stands for its absence
    fn maybe<'e>(&mut self, v: &'e [S], kw: &str, none: &str, f: impl Fn(&mut Self, &S) -> bool) -> Option<&'e [S]> {
        match v {
            [x, rest @ ..] if self.head(x, kw).is_some() => f(self, x).then_some(rest),
            _ => {
                self.d(none);
                Some(v)
            }
        }
    }
    fn domain_(&mut self, e: &S) -> Option<()> {
        let [d, v @ ..] = self.head(e, "define")? else { return None };
        let [n] = self.head_n(d, "domain")?;
        self.d("Domain ");
        self.name(n).then_some(())?;
        self.d("\nextends");
        let v = self.maybe(v, ":extends", "[]", |r, e| r.section(e, ":extends", 1, |r, v| r.many(v, Self::name)))?;
        self.d("\nreq");
        let v = self.maybe(v, ":requirements", "[]", Self::reqs)?;
        self.d("\ntypes");
        let v = self.maybe(v, ":types", "{}", |r, e| r.names(e, ":types"))?;
        self.d("\nconst");
        let v = self.maybe(v, ":constants", "{}", |r, e| r.names(e, ":constants"))?;
        self.d("\npred");
        let v = self.maybe(v, ":predicates", "[]", Self::preds)?;
        self.d("\nfun");
        let v = self.maybe(v, ":functions", "{}", Self::funs)?;
        self.d("\ncon ");
        let v = self.maybe(v, ":constraints", "CAnd[]", Self::domcon)?;
        self.d("\n");
        self.many(v, Self::structure).then_some(())
    }
    pub fn domain(&mut self, e: &S) -> bool {
        self.domain_(e).is_some()
    }
    fn nameterm(&mut self, e: &S) -> bool {
        self.name(e)
    }
    pub fn bft(&mut self, e: &S) -> bool {
        self.d("F ")
            && match e {
                A(..) => self.name(e) && self.d("[]"),
                L(v) => !v.is_empty() && self.name(&v[0]) && self.many(&v[1..], Self::nameterm),
            }
    }
    pub fn init_el(&mut self, e: &S) -> bool {
        alt!(
            self,
            match self.head_n(e, "at") {
                Some([n, l]) => self.d("At ") && self.num(n) && self.d("(") && self.literal(l) && self.d(")"),
                None => false,
            },
            self.literal(e),
            match self.head_n(e, "=") {
                Some([f, n]) => alt!(
                    self,
                    self.d("Val(") && self.bft(f) && self.d(",") && self.num(n) && self.d(")"),
                    self.d("Obj(") && self.bft(f) && self.d(",") && self.name(n) && self.d(")"),
                ),
                None => false,
            },
        )
    }
    pub fn inits(&mut self, e: &S) -> bool {
        self.section(e, ":init", 0, |r, v| r.many(v, Self::init_el))
    }
    pub fn goal(&mut self, e: &S) -> bool {
        self.section(e, ":goal", 1, |r, v| v.len() == 1 && r.pregds(&v[0]))
    }
    pub fn metricspec(&mut self, e: &S) -> bool {
        match self.head_n(e, ":metric") {
            Some([o, m]) => match self.one(o, &["minimize", "maximize"]) {
                Some(o) => self.d(o) && self.d(" ") && self.metric(m),
                None => false,
            },
            None => false,
        }
    }
    fn steps<'e>(&mut self, v: &'e [S], kw: &str) -> Option<&'e [S]> {
        self.maybe(v, kw, "-", |r, e| match r.head_n(e, kw) {
            Some([n]) => match r.bytes(n) {
                Some(b) if whole(b) => {
                    let z = b.iter().take_while(|c| **c == b'0').count().min(b.len() - 1);
                    r.o.extend_from_slice(&b[z..]);
                    true
                }
                _ => false,
            },
            None => false,
        })
    }
    pub fn length(&mut self, e: &S) -> bool {
        let Some(v) = self.head(e, ":length") else { return false };
        self.d("Len(");
        let Some(v) = self.steps(v, ":serial") else { return false };
        self.d(",");
        let Some(v) = self.steps(v, ":parallel") else { return false };
        v.is_empty() && self.d(")")
    }
    fn problem_(&mut self, e: &S) -> Option<()> {
        let [p, d, v @ ..] = self.head(e, "define")? else { return None };
        let [p] = self.head_n(p, "problem")?;
        let [d] = self.head_n(d, ":domain")?;
        self.d("Problem ");
        self.name(p).then_some(())?;
        self.d("\ndomain ");
        self.name(d).then_some(())?;
        self.d("\nreq");
        let v = self.maybe(v, ":requirements", "[]", Self::reqs)?;
        self.d("\nobjects");
        let v = self.maybe(v, ":objects", "{}", |r, e| r.names(e, ":objects"))?;
        self.d("\ninit");
        let [i, g, v @ ..] = v else { return None };
        self.inits(i).then_some(())?;
        self.d("\ngoal");
        self.goal(g).then_some(())?;
        self.d("\ncon");
        let v = self.maybe(v, ":constraints", "[]", Self::probcon)?;
        self.d("\nmetric ");
        let v = self.maybe(v, ":metric", "-", Self::metricspec)?;
        self.d("\nlen ");
        let v = self.maybe(v, ":length", "-", Self::length)?;
        self.d("\n");
        v.is_empty().then_some(())
    }
    pub fn problem(&mut self, e: &S) -> bool {
        self.problem_(e).is_some()
    }
    fn keyword(&mut self, e: &S, ws: &[&'static str]) -> bool {
        self.one(e, ws).is_some_and(|w| self.d(w))
    }
}
fn word(b: &[u8]) -> bool {
    !b.is_empty() && letter(b[0]) && b[1..].iter().all(|b| part(*b))
}
fn digits(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| c.is_ascii_digit())
}
fn decimal(b: &[u8]) -> bool {
    match b.iter().position(|c| *c == b'.') {
        Some(i) => digits(&b[..i]) && digits(&b[i + 1..]),
        None => digits(b),
    }
}
/// a whole number below 2^64
fn whole(b: &[u8]) -> bool {
    digits(b) && std::str::from_utf8(b).is_ok_and(|b| b.parse::<u64>().is_ok())
}

/// Whether the text, with any layout around it, is a well-formed element of type `what`,
/// and what it says; and whether its words stand apart.
pub fn read(what: &str, t: &[u8]) -> Option<(O, bool)> {
    let (e, apart) = tree(t)?;
    let mut r = R { t, o: Vec::with_capacity(512) };
    let x = &mut r;
    let e = &e;
    let ok = match what {
        "Name" | "Predicate" | "FunctionSymbol" | "ActionSymbol" | "DurativeActionSymbol" | "PreferenceName" | "PrimitiveType" => x.name(e),
        "Variable" => x.var(e),
        "Number" => x.num(e),
        "Type" | "FunctionType" => x.typ(e),
        "Requirement" => x.req(e),
        "BinaryComp" => x.keyword(e, &["<", "<=", "=", ">=", ">"]),
        "BinaryOp" => x.keyword(e, &["*", "+", "-", "/"]),
        "MultiOp" => x.keyword(e, &["*", "+"]),
        "AssignOp" => x.is(e, "change") && x.d("assign") || x.keyword(e, &["assign", "scale-up", "scale-down", "increase", "decrease"]),
        "AssignOpT" => x.keyword(e, &["increase", "decrease"]),
        "DOp" => x.keyword(e, &["<=", ">=", "="]),
        "TimeSpecifier" => x.keyword(e, &["start", "end"]),
        "Optimization" => x.keyword(e, &["minimize", "maximize"]),
        "Interval" => x.keyword(e, &["all"]),
        "Term" => x.term(e),
        "FunctionTerm" => x.fterm(e),
        "BasicFunctionTerm" => x.bft(e),
        "AtomicFormulaSkeleton" => x.skeleton(e),
        "AtomicFunctionSkeleton" => x.fskeleton(e),
        "GoalDefinition" => x.gd(e),
        "FComp" => x.fcomp(e),
        "FHead" => x.fhead(e),
        "FExp" => x.fexp(e),
        "FExpDa" => x.fexpda(e),
        "FExpT" => x.fexpt(e),
        "MetricFExp" => x.metric(e),
        "MetricSpec" => x.metricspec(e),
        "PEffect" => x.peff(e),
        "CEffect" => x.ceff(e),
        "ForallCEffect" => x.forall_ceff(e),
        "WhenCEffect" => x.when_ceff(e),
        "ConditionalEffect" => x.condeff(e),
        "Effects" => x.effects(e),
        "FAssignDa" => x.fassignda(e),
        "PreferenceGD" => x.prefgd(e),
        "PreconditionGoalDefinitions" => x.pregds(e),
        "ConGD" => x.con(e),
        "Con2GD" => x.con2(e),
        "PrefConGDs" => x.prefcons(e),
        "DurationValue" => x.fexp(e),
        "SimpleDurationConstraint" => x.sdur(e),
        "TimedGD" => x.timedgd(e),
        "PrefTimedGD" => x.preftimed(e),
        "DurativeActionGoalDefinition" => x.dagd(e),
        "TimedEffect" => x.timedeff(e),
        "DurativeActionEffect" => x.daeff(e),
        "ActionDefinition" => x.action(e),
        "DurativeActionDefinition" => x.durative(e),
        "DerivedPredicate" => x.derived(e),
        "StructureDef" => x.structure(e),
        "Requirements" => x.reqs(e),
        "Types" => x.names(e, ":types"),
        "Constants" => x.names(e, ":constants"),
        "Objects" => x.names(e, ":objects"),
        "PredicateDefinitions" => x.preds(e),
        "Functions" => x.funs(e),
        "DomainConstraintsDef" => x.domcon(e),
        "Timeless" => x.timeless(e),
        "Domain" => x.domain(e),
        "InitElement" => x.init_el(e),
        "InitElements" => x.inits(e),
        "GoalDef" => x.goal(e),
        "ProblemConstraintsDef" => x.probcon(e),
        "LengthSpec" => x.length(e),
        "Problem" => x.problem(e),
        _ => unreachable!(),
    };
    ok.then_some((r.o, apart))
}
