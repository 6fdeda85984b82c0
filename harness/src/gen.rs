//! PDDL 3.1 text written from the grammar, side by side with the canonical
//! text of what it means.  Every choice below is a symbolic byte, names and
//! digits are symbolic bytes in the slots the configuration opens.
use crate::dump::{bits, s, O};
use crate::rt::*;

#[derive(Clone)]
pub enum Tok {
    /// characters of one token (or of a part of one)
    B(Vec<u8>),
    /// white space is required here by the grammar as ordinarily written
    Sep,
    /// likewise, where the code is known to insist on a blank
    Blank,
    /// white space is allowed here
    Gap,
}

/// Which names are symbolic and how.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// occurrences skip..skip+count of names are symbolic
    pub skip: u32,
    pub count: u32,
    /// number of symbolic characters of a symbolic name
    pub len: u32,
    /// put a keyword-like stem in front of the symbolic characters
    pub stem: bool,
    /// the position of a name window is itself symbolic, below this bound
    pub float: u32,
    /// all children of a node vary, not just one
    pub full: bool,
    /// how the tokens are laid out: 0 one space, 1 one arbitrary place is
    /// filled arbitrarily, 2 all places are filled alike with arbitrary blanks
    pub layout: u32,
    /// blanks may precede the text
    pub front: bool,
    /// TWIN: siblings are alike; WIDE: one list is long; DEEP: nesting repeats itself
    pub mode: u32,
    /// symbolic names are long ones instead
    pub long: bool,
}
pub const TWIN: u32 = 1;
pub const WIDE: u32 = 2;
pub const DEEP: u32 = 3;
/// with full: the innermost choices are among the first two only, and of more than two children only two vary
pub const LEAN: u32 = 4;
pub const PLAIN: Cfg = Cfg {
    skip: 0,
    count: 0,
    len: 2,
    stem: false,
    float: 0,
    full: false,
    layout: 0,
    front: false,
    mode: 0,
    long: false,
};

pub struct P {
    pub t: Vec<Tok>,
    pub o: O,
    pub c: Cfg,
    pub n: u32,
    pub u: u32,
    /// the text is one that is known to be rejected
    pub known: std::cell::Cell<bool>,
    /// names (1), numbers (2) are all the same, names take turns (4)
    pub same: u8,
    /// how many names and numbers there were, and which one is another one than it would be
    pub words: u32,
    pub other: Option<u32>,
    /// a long list is still to come
    pub wide: bool,
    /// the highest level, and the choices made at each level
    pub top: i32,
    pub made: Vec<(Vec<u8>, usize)>,
}

pub const RESERVED: &[&str] = &[
    "and",
    "or",
    "not",
    "imply",
    "exists",
    "forall",
    "when",
    "preference",
    "assign",
    "change",
    "increase",
    "decrease",
    "scale-up",
    "scale-down",
    "always",
    "sometime",
    "within",
    "at-most-once",
    "sometime-after",
    "sometime-before",
    "always-within",
    "hold-during",
    "hold-after",
    "is-violated",
    "total-time",
    "undefined",
    "either",
];
/// names a keyword recogniser without a word boundary would cut short
const PRED: &[&str] = &[
    "p",
    "andy",
    "not-at",
    "orb",
    "forall-b",
    "at",
    "imply-x",
    "exists1",
    "q_2",
    "over",
    "when2",
    "always1",
    "preference-1",
];
const FUN: &[&str] = &[
    "f",
    "total-timer",
    "assignx",
    "cost",
    "g-h",
    "increase-b",
    "total-cost",
    "is-violated2",
];
const OBJ: &[&str] = &[
    "a",
    "object1",
    "start",
    "and",
    "b-1",
    "end2",
    "undefined1",
    "all",
    "not",
    "x_y",
    "either",
];
const TYP: &[&str] = &["t", "object", "number", "u-v", "eithers", "w"];
const PREF: &[&str] = &["pr", "and-1", "forall", "p2"];
const STEMS: &[&str] = &[
    "",
    "a",
    "and",
    "or",
    "not",
    "at",
    "object",
    "number",
    "forall",
    "exists",
    "imply",
    "when",
    "either",
    "total-time",
    "increase",
    "x-",
    "within",
    "always",
    "assign",
    "over",
    "end",
    "preference",
    "minimize",
    "start",
    "problem",
    "assignment",
];

impl P {
    pub fn new(c: Cfg) -> P {
        let mut c = c;
        if c.float > 0 {
            c.skip += choose(c.float as u8) as u32;
        }
        P {
            t: Vec::with_capacity(256),
            o: Vec::with_capacity(1024),
            c,
            n: 0,
            u: 0,
            known: Default::default(),
            same: match c.mode {
                TWIN => [0, 1, 2, 3, 0x12, 0x22][choose(6) as usize],
                WIDE => [0, 3, 4][choose(3) as usize],
                _ => 0,
            },
            words: 0,
            other: None,
            wide: c.mode == WIDE,
            top: -1,
            made: vec![],
        }
    }
    pub fn k(&mut self, x: &str) {
        self.t.push(Tok::B(x.as_bytes().to_vec()));
    }
    pub fn sp(&mut self) {
        self.t.push(Tok::Sep);
    }
    pub fn gap(&mut self) {
        self.t.push(Tok::Gap);
    }
    pub fn d(&mut self, x: &str) {
        s(&mut self.o, x);
    }
    pub fn open(&mut self, kw: &str) {
        self.k("(");
        self.gap();
        if !kw.is_empty() {
            self.k(kw);
        }
    }
    pub fn close(&mut self) {
        self.gap();
        self.k(")");
    }
    pub fn paren(&mut self, kw: &str, f: impl FnOnce(&mut P)) {
        self.open(kw);
        f(self);
        self.close();
    }
    /// The bytes of the next name.
    pub fn raw(&mut self, list: &[&str], head: bool) -> Vec<u8> {
        let mut b = self.raw_plain(list, head);
        if self.differs() {
            b.push(b'x');
        }
        b
    }
    /// Whether the name or number that comes now is the one that differs.
    fn differs(&mut self) -> bool {
        let i = self.words;
        self.words += 1;
        self.other == Some(i)
    }
    fn raw_plain(&mut self, list: &[&str], head: bool) -> Vec<u8> {
        if self.same & 1 == 1 {
            return list[0].as_bytes().to_vec();
        }
        let i = self.n;
        self.n += 1;
        if self.same & 4 == 4 {
            return list[i as usize % 2].as_bytes().to_vec();
        }
        if i < self.c.skip || i >= self.c.skip + self.c.count {
            let mut b = list[i as usize % list.len()].as_bytes().to_vec();
            if i as usize >= list.len() {
                b.push(b'0' + (i % 10) as u8);
            }
            return b;
        }
        if self.c.long {
            const N: &[u16] = &[12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 256, 257];
            let n = N[choose(N.len() as u8) as usize] as usize;
            return b"longName-0_Z9x".iter().cycle().take(n).copied().collect();
        }
        let mut b = vec![];
        if self.c.stem {
            // nothing behind it: the word itself
            let skip = (self.c.len == 0) as usize;
            let st = STEMS[skip + choose((STEMS.len() - skip) as u8) as usize];
            b.extend_from_slice(st.as_bytes());
        }
        for _ in 0..self.c.len {
            b.push(if b.is_empty() {
                set(&ALPHA)
            } else {
                set(&NAMECH)
            });
        }
        if head {
            self.not_reserved(&b);
        }
        b
    }
    pub fn not_reserved(&self, b: &[u8]) {
        let mut bad = false;
        for r in RESERVED {
            if r.len() == b.len() {
                bad |= same(r.as_bytes(), b);
            }
        }
        if bad {
            reject();
        }
    }
    pub fn put(&mut self, b: Vec<u8>) {
        self.o.push(b'\'');
        self.o.extend_from_slice(&b);
        self.o.push(b'\'');
        self.t.push(Tok::B(b));
    }
    pub fn put_raw(&mut self, b: Vec<u8>) {
        self.o.extend_from_slice(&b);
        self.t.push(Tok::B(b));
    }
    pub fn pred(&mut self) {
        let b = self.raw(PRED, true);
        self.put(b)
    }
    pub fn fun(&mut self) {
        let b = self.raw(FUN, true);
        self.put(b)
    }
    pub fn obj(&mut self) {
        let b = self.raw(OBJ, false);
        self.put(b)
    }
    /// a name where a keyword could stand as well
    pub fn obj_nk(&mut self) {
        let b = self.raw(&["a", "object1", "undefined1", "undefinede"], true);
        self.put(b)
    }
    pub fn typ(&mut self) {
        let b = self.raw(TYP, false);
        self.put(b)
    }
    pub fn prefname(&mut self) {
        let b = self.raw(PREF, false);
        self.put(b)
    }
    pub fn var(&mut self) {
        let b = self.raw(&["x", "duration1", "y-2", "object", "and", "z_"], false);
        self.k("?");
        self.d("?");
        self.put(b);
    }
    pub fn uniq(&mut self) -> u32 {
        self.u += 1;
        self.u
    }
    /// A number literal from a fixed list.
    pub fn num(&mut self) {
        const L: &[&str] = &[
            "0", "1", "2.5", "10", "0.125", "007", "3.14159", "100.50", "16777217", "99999.99",
            "0.1", "1234567", "340282346638528859811704183484516925440", "4294967296", "0.00000000001", "2147483648.75",
        ];
        if self.differs() {
            return self.num_of("77.25");
        }
        if self.same & 2 == 2 {
            return self.num_of(["2.5", "0", "1"][(self.same >> 4) as usize]);
        }
        let l = L[self.uniq() as usize % L.len()];
        self.num_of(l);
    }
    pub fn num_of(&mut self, l: &str) {
        let v: f32 = l.parse().unwrap();
        self.k(l);
        bits(&mut self.o, v);
    }
    /// A choice that is open only when hot.
    pub fn pick(&mut self, hot: i32, n: u8) -> u8 {
        if hot < 0 {
            0
        } else if self.c.mode == DEEP {
            self.echo(hot, n)
        } else if self.c.mode == LEAN && hot == 0 {
            choose(n.min(2))
        } else {
            choose(n)
        }
    }
    /// Which one of the parts is hot, if not all of them are.
    pub fn split(&mut self, d: i32, n: u8) -> u8 {
        if self.c.full {
            0
        } else {
            self.pick(d, n)
        }
    }
    pub fn on(&self, h: u8, i: u8, d: i32) -> i32 {
        if h == i || self.c.full {
            d
        } else {
            -1
        }
    }
    /// Free choices at the two highest levels, which the lower levels repeat in turn.
    fn echo(&mut self, level: i32, n: u8) -> u8 {
        if self.top < 0 {
            self.top = level;
            self.made = vec![(vec![], 0); level as usize + 1];
        }
        if level > self.top {
            return choose(n);
        }
        let l = level as usize;
        if level >= self.top - 1 {
            let v = choose(n);
            self.made[l].0.push(v);
            return v;
        }
        let at = self.made[l].1;
        self.made[l].1 += 1;
        if level == 0 {
            return if at == 0 { choose(n) } else { 0 };
        }
        let src = (self.top - (self.top - level) % 2) as usize;
        self.made[src].0.get(at).copied().filter(|v| *v < n).unwrap_or(0)
    }
    /// The number of elements of a list that may have any number of them, up
    /// to `max` in most texts.
    pub fn widen(&mut self, n: u8, max: u8, d: i32) -> u8 {
        if !self.wide || d < 0 || n != max || choose(2) == 0 {
            return n;
        }
        self.wide = false;
        const W: &[u8] = &[4, 5, 7, 8, 9, 16, 17, 33, 65];
        W[choose(W.len() as u8) as usize]
    }
    /// n children, separated; one of them (or all, if full) is generated at
    /// depth d-1, the others cold.
    pub fn kids(&mut self, n: u8, d: i32, end: &str, f: impl Fn(&mut P, i32)) {
        let hot = if d < 0 || n < 2 || self.c.full || self.c.mode == TWIN {
            0
        } else if n > 3 {
            [0, n / 2, n - 2, n - 1][choose(4) as usize]
        } else {
            self.pick(d, n)
        };
        let twin = self.c.mode == TWIN && d >= 0;
        let mut made = vec![];
        for i in 0..n {
            if i > 0 {
                self.sp();
            }
            if twin && i == 0 && n > 1 {
                push(Frame::Record(vec![]));
                f(self, d - 1);
                made = pop();
            } else if twin && i > 0 {
                push(Frame::Play(std::mem::take(&mut made), 0));
                f(self, d - 1);
                made = pop();
            } else {
                let h = d >= 0 && (self.c.full && (i < 2 || self.c.mode != LEAN) || i == hot);
                f(self, if h { d - 1 } else { -1 });
            }
            self.d(end);
        }
    }
    /// as kids, where the number of children may be any
    pub fn list(&mut self, n: u8, max: u8, d: i32, end: &str, f: impl Fn(&mut P, i32)) {
        let w = self.widen(n, max, d);
        self.kids(w, if w != n { d.min(1) } else { d }, end, f)
    }
    /// two operands
    pub fn pair(&mut self, d: i32, f: impl Fn(&mut P, i32)) {
        if self.c.mode == TWIN && d >= 0 {
            push(Frame::Record(vec![]));
            f(self, d - 1);
            let made = pop();
            self.d(",");
            self.sp();
            push(Frame::Play(made, 0));
            f(self, d - 1);
            pop();
            return;
        }
        let all = self.c.full && d >= 0;
        let h = if all { 2 } else { self.pick(d, 2) };
        f(self, if all || h == 0 { d - 1 } else { -1 });
        self.d(",");
        self.sp();
        f(self, if all || h == 1 { d - 1 } else { -1 });
    }
    pub fn render(&self) -> Vec<u8> {
        if self.wide {
            reject();
        }
        match self.c.layout {
            0 => self.plain(),
            1 => self.one_place(),
            _ => self.all_places(),
        }
    }
    /// Where blanks may stand: (index into t, may they be left out)
    fn places(&self) -> Vec<(usize, bool)> {
        let paren = |i: usize| match self.t.get(i) {
            Some(Tok::B(b)) => b.len() == 1 && (b[0] == b'(' || b[0] == b')'),
            _ => false,
        };
        let mut v = vec![];
        for (i, t) in self.t.iter().enumerate() {
            match t {
                Tok::B(_) => {}
                Tok::Sep | Tok::Blank => v.push((i, paren(i + 1))),
                Tok::Gap => v.push((i, true)),
            }
        }
        v
    }
    fn one_place(&self) -> Vec<u8> {
        let v = self.places();
        // the place in front of the whole text is one of them
        if v.is_empty() && !self.c.front {
            reject();
        }
        let at = choose2(v.len() as u32 + self.c.front as u32) as usize;
        let (site, omit) = if at == v.len() {
            (usize::MAX, true)
        } else {
            v[at]
        };
        let mut f = vec![];
        match choose(if omit { FILLS + 1 } else { FILLS }) {
            FILLS => {}
            i => fill(&mut f, i, &BLANK),
        }
        let mut o = Vec::with_capacity(256);
        if site == usize::MAX {
            o.extend_from_slice(&f);
        }
        for (i, t) in self.t.iter().enumerate() {
            match t {
                Tok::B(b) => o.extend_from_slice(b),
                _ if i == site => {
                    self.note(t, &f);
                    o.extend_from_slice(&f)
                }
                Tok::Sep | Tok::Blank => o.push(b' '),
                Tok::Gap => {}
            }
        }
        o
    }
    fn all_places(&self) -> Vec<u8> {
        let v = self.places();
        let kind = choose(FILLS + 1);
        // per place: the filler (unless this is the tight layout)
        let mut o = Vec::with_capacity(512);
        let mut f = vec![];
        if kind < FILLS {
            fill(&mut f, kind, &BLANK1);
        }
        if self.c.front {
            o.extend_from_slice(&f);
        }
        let mut n = 0;
        for t in self.t.iter() {
            match t {
                Tok::B(b) => o.extend_from_slice(b),
                _ => {
                    let omit = v[n].1;
                    n += 1;
                    if matches!(t, Tok::Blank) && (f.is_empty() || f[0] == b';') {
                        o.push(b' ');
                    }
                    if kind == FILLS {
                        if !omit {
                            o.push(b' ');
                        }
                    } else {
                        o.extend_from_slice(&f);
                    }
                }
            }
        }
        o
    }
    fn plain(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(256);
        for t in &self.t {
            match t {
                Tok::B(b) => o.extend_from_slice(b),
                Tok::Sep | Tok::Blank => o.push(b' '),
                Tok::Gap => {}
            }
        }
        o
    }
    /// the known finding metric-without-blank
    fn note(&self, t: &Tok, f: &[u8]) {
        if matches!(t, Tok::Blank) && (f.is_empty() || f[0] == b';') {
            self.known.set(true);
        }
    }
}

/// A choice among n alternatives, n < 65536.
pub fn choose2(n: u32) -> u32 {
    if n <= 255 {
        return choose(n as u8) as u32;
    }
    let h = choose((n / 255 + 1) as u8) as u32;
    let l = choose(255) as u32;
    if h * 255 + l >= n {
        reject();
    }
    h * 255 + l
}
const FILLS: u8 = 10;
const BLANK: [u8; 32] = mask_of(b" \t\r\n");
/// one line break more or less at every place makes the line counts too large a formula
const BLANK1: [u8; 32] = mask_of(b" \t\r");
const COMMENT: [u8; 32] = range(mask_of(b"\t"), 32, 126);
/// Blanks of one of these kinds, at least one character.
fn fill(f: &mut Vec<u8>, kind: u8, blank: &[u8; 32]) {
    match kind {
        0 => f.push(set(blank)),
        1 => {
            for _ in 0..3 {
                f.push(set(blank));
            }
        }
        2 => f.extend_from_slice(b";\n"),
        3 => {
            f.push(b';');
            f.push(set(&COMMENT));
            f.push(b'\n');
        }
        4 => {
            f.push(set(blank));
            f.push(b';');
            f.push(set(&COMMENT));
            f.push(set(&COMMENT));
            f.extend_from_slice(b"\r\n");
            f.push(set(blank));
        }
        5 => f.extend_from_slice("; caf\u{e9} \u{1f600} \u{3042}(\n".as_bytes()),
        6 => {
            f.extend_from_slice(b"; (a ;b)\n\n;;;\r\n\t;");
            f.push(set(&COMMENT));
            f.extend_from_slice(b")\n");
        }
        7 => f.extend_from_slice(b"\n"),
        8 => {
            for _ in 0..40 {
                f.push(b' ');
            }
        }
        _ => {
            for _ in 0..6 {
                f.extend_from_slice(b"; x (\n ");
            }
        }
    }
}

pub fn seps(p: &mut P, n: u8, f: impl Fn(&mut P)) {
    for i in 0..n {
        if i > 0 {
            p.sp();
        }
        f(p);
    }
}

/// `d < 0`: one fixed simple shape.  `d == 0`: all leaf shapes.  `d > 0`: all
/// shapes whose nesting below this node is at most d.
pub fn term(p: &mut P, d: i32) {
    let n = if d > 0 { 6 } else { 2 };
    let i = if d < 0 {
        (p.uniq() % 2) as u8 & !p.same & 1
    } else {
        p.pick(d, n)
    };
    match i {
        0 => p.obj(),
        1 => p.var(),
        i => {
            p.d("fn ");
            p.k("(");
            p.gap();
            p.fun();
            p.d("[");
            let k = i - 2;
            if k > 0 {
                p.sp();
            }
            p.list(k, 3, d, ";", term);
            p.d("]");
            p.close();
        }
    }
}
pub fn name_(p: &mut P, _d: i32) {
    p.obj()
}
pub fn af(p: &mut P, d: i32, f: impl Fn(&mut P, i32)) {
    match p.pick(d, 5) {
        0 => {
            p.open("");
            p.d("Pred ");
            p.pred();
            p.d("[");
            p.sp();
            p.kids(1, d, ";", &f);
            p.d("]");
            p.close();
        }
        1 => {
            p.open("=");
            p.d("Eq(");
            p.sp();
            p.pair(d, &f);
            p.d(")");
            p.close();
        }
        i => {
            let n = [0, 2, 3][i as usize - 2];
            p.open("");
            p.d("Pred ");
            p.pred();
            p.d("[");
            if n > 0 {
                p.sp();
            }
            p.list(n, 3, d, ";", &f);
            p.d("]");
            p.close();
        }
    }
}
pub fn literal(p: &mut P, d: i32, f: impl Fn(&mut P, i32)) {
    if p.pick(d, 2) == 1 {
        p.open("not");
        p.d("Not(");
        p.sp();
        af(p, d, f);
        p.d(")");
        p.close();
    } else {
        af(p, d, f)
    }
}

/// One type expression, with its canonical text appended to `o`.
pub fn type_expr(p: &mut P, d: i32) -> O {
    let keep = std::mem::take(&mut p.o);
    match if d == EI { 2 } else { p.pick(d, 4) } {
        0 => p.typ(),
        n => {
            let n = p.widen(n, 3, d);
            p.open("either");
            p.d("Either[");
            p.sp();
            for i in 0..n {
                if i > 0 {
                    p.sp();
                }
                p.typ();
                p.d(";");
            }
            p.d("]");
            p.close();
        }
    }
    std::mem::replace(&mut p.o, keep)
}
/// A typed list given as groups: (names, type expression?).
pub fn typed(p: &mut P, groups: &[(u8, i32)], default: &str, f: impl Fn(&mut P)) {
    p.d("{");
    let mut first = true;
    for (n, t) in groups {
        let mut pieces: Vec<O> = vec![];
        for _ in 0..*n {
            if !first {
                p.sp();
            }
            first = false;
            let keep = std::mem::take(&mut p.o);
            f(p);
            pieces.push(std::mem::replace(&mut p.o, keep));
        }
        let ty = if *t == -2 {
            let mut o = O::new();
            crate::dump::nm(&mut o, default);
            o
        } else {
            p.sp();
            p.k("-");
            p.sp();
            type_expr(p, *t)
        };
        for x in pieces {
            p.o.extend_from_slice(&x);
            p.d(":");
            p.o.extend_from_slice(&ty);
            p.d(";");
        }
    }
    p.d("}");
}
const EI: i32 = -3; // `either` of two
const NT: i32 = -2; // no explicit type
pub fn typed_some(p: &mut P, d: i32, default: &str, f: impl Fn(&mut P)) {
    const SH: &[&[(u8, i32)]] = &[
        &[(1, -1)],
        &[],
        &[(1, NT)],
        &[(2, NT)],
        &[(2, -1)],
        &[(1, 1)],
        &[(1, -1), (1, NT)],
        &[(1, -1), (1, -1)],
        &[(1, 1), (2, -1), (1, NT)],
    ];
    if d >= 0 && p.wide && choose(2) == 1 {
        // long groups, or many of them
        let k = p.widen(1, 1, d);
        let one: Vec<(u8, i32)> = match choose(5) {
            0 => vec![(k, NT)],
            1 => vec![(k, -1)],
            2 => vec![(k, -1), (1, NT)],
            3 => vec![(1, -1); k as usize],
            _ => (0..k).map(|i| if i % 3 == 1 { (2, EI) } else { (1, -1) }).collect(),
        };
        return typed(p, &one, default, f);
    }
    let i = p.pick(d, SH.len() as u8);
    typed(p, SH[i as usize], default, f)
}
pub fn tvars(p: &mut P, d: i32) {
    p.open("");
    typed_some(p, d, "object", |p| p.var());
    p.close();
}

fn quant(p: &mut P, d: i32, kw: &str, tag: &str, f: impl Fn(&mut P, i32)) {
    p.open(kw);
    p.d(tag);
    p.sp();
    let h = if p.c.mode == DEEP { 0 } else { p.split(d, 2) };
    let two = p.c.full && d >= 0;
    tvars(p, if h == 0 && !two { -1 } else { d });
    p.sp();
    f(p, p.on(h, 0, d - 1));
    p.close();
}

pub fn gd(p: &mut P, d: i32) {
    let n = if d > 0 { 13 } else { 2 };
    match p.pick(d, n) {
        0 => af(p, d, term),
        1 => fcomp(p, d),
        2 => {
            p.open("not");
            p.d("Not(");
            p.sp();
            gd(p, d - 1);
            p.d(")");
            p.close();
        }
        i @ 3..=6 => {
            p.open("and");
            p.d("And[");
            if i > 3 {
                p.sp();
            }
            p.list(i - 3, 3, d, ";", gd);
            p.d("]");
            p.close();
        }
        i @ 7..=9 => {
            p.open("or");
            p.d("Or[");
            if i > 7 {
                p.sp();
            }
            p.list(i - 7, 2, d, ";", gd);
            p.d("]");
            p.close();
        }
        10 => {
            p.open("imply");
            p.d("Imply(");
            p.sp();
            p.pair(d, gd);
            p.d(")");
            p.close();
        }
        11 => quant(p, d, "exists", "Exists", gd),
        _ => quant(p, d, "forall", "Forall", gd),
    }
}
pub fn fcomp(p: &mut P, d: i32) {
    let op = [">", "<", "=", ">=", "<="][p.pick(d, 5) as usize];
    p.open(op);
    p.d("Cmp");
    p.d(op);
    p.d("(");
    p.sp();
    let h = p.pick(d, 2);
    if (p.c.mode == TWIN || p.c.full) && op != "=" {
        p.pair(d, fexp);
        p.d(")");
        p.close();
        return;
    }
    // for "=" one side must be no term, or the text is an equality of terms
    if h == 0 {
        fexp(p, d - 1);
    } else {
        p.num();
    }
    p.d(",");
    p.sp();
    if h == 1 {
        fexp(p, d - 1);
    } else {
        p.num();
    }
    p.d(")");
    p.close();
}
pub fn fhead(p: &mut P, d: i32) {
    p.d("F ");
    match p.pick(d, 4) {
        0 => {
            p.open("");
            p.fun();
            p.d("[");
            p.sp();
            p.kids(1, d, ";", term);
            p.d("]");
            p.close();
        }
        1 => {
            p.fun();
            p.d("[]");
        }
        2 => {
            p.open("");
            p.fun();
            p.d("[]");
            p.close();
        }
        _ => {
            p.open("");
            p.fun();
            p.d("[");
            p.sp();
            p.list(2, 2, d, ";", term);
            p.d("]");
            p.close();
        }
    }
}
/// An operator node over any kind of expression.
fn opnode(p: &mut P, i: u8, d: i32, f: impl Fn(&mut P, i32)) {
    const OPS: &[(&str, u8)] = &[
        ("+", 2),
        ("-", 2),
        ("*", 2),
        ("/", 2),
        ("+", 3),
        ("*", 3),
        ("-", 1),
        ("+", 4),
    ];
    let (op, n) = OPS[i as usize];
    p.open(op);
    p.sp();
    if n == 1 {
        p.d("Neg(");
        f(p, d - 1);
    } else {
        p.d("Op");
        p.d(op);
        p.d("(");
        p.list(n, 4, d, ",", f);
    }
    p.d(")");
    p.close();
}
pub fn fexp(p: &mut P, d: i32) {
    let n = if d > 0 { 10 } else { 2 };
    match p.pick(d, n) {
        0 => p.num(),
        1 => fhead(p, d),
        i => opnode(p, i - 2, d, fexp),
    }
}
pub fn fexpda(p: &mut P, d: i32) {
    let n = if d > 0 { 11 } else { 3 };
    match p.pick(d, n) {
        0 => {
            p.k("?duration");
            p.d("?duration");
        }
        1 => p.num(),
        2 => fhead(p, d),
        i => opnode(p, i - 3, d, fexpda),
    }
}
pub fn fexpt(p: &mut P, d: i32) {
    match p.pick(d, 3) {
        0 => {
            p.k("#t");
            p.d("#t");
        }
        i => {
            p.open("*");
            p.sp();
            p.d("#t*(");
            if i == 1 {
                p.k("#t");
                p.sp();
                fexp(p, d - 1);
            } else {
                fexp(p, d - 1);
                p.sp();
                p.k("#t");
            }
            p.d(")");
            p.close();
        }
    }
}
pub fn metric(p: &mut P, d: i32) {
    let n = if d > 0 { 14 } else { 6 };
    match p.pick(d, n) {
        0 => p.num(),
        1 => {
            p.k("total-time");
            p.d("total-time");
        }
        2 => {
            p.open("is-violated");
            p.d("violated ");
            p.sp();
            p.prefname();
            p.close();
        }
        3 => {
            p.d("F ");
            p.fun();
            p.d("[]");
        }
        i @ 4..=5 => {
            p.d("F ");
            p.open("");
            p.fun();
            p.d("[");
            let k = p.widen(i - 4, 1, d);
            for _ in 0..if i == 4 { 0 } else { k + 1 } {
                p.sp();
                p.obj();
                p.d(";");
            }
            p.d("]");
            p.close();
        }
        i => opnode(p, i - 6, d, metric),
    }
}

pub fn peff(p: &mut P, d: i32) {
    match p.pick(d, 6) {
        0 => af(p, d, term),
        1 => {
            p.open("not");
            p.d("Not(");
            p.sp();
            af(p, d, term);
            p.d(")");
            p.close();
        }
        2 => {
            // an expression that is no term, so that it cannot be an object assignment
            p.open("assign");
            p.d("Set assign(");
            p.sp();
            numset(p, d);
        }
        3 => {
            let op =
                ["increase", "decrease", "scale-up", "scale-down", "change"][p.pick(d, 5) as usize];
            p.open(op);
            p.d("Set ");
            p.d(if op == "change" { "assign" } else { op });
            p.d("(");
            p.sp();
            let h = p.split(d, 2);
            fhead(p, p.on(h, 0, d));
            p.d(",");
            p.sp();
            fexp(p, p.on(h, 1, d - 1));
            p.d(")");
            p.close();
        }
        4 => {
            p.open("assign");
            p.d("SetObj(");
            p.sp();
            fterm(p, d);
            p.d(",");
            p.sp();
            p.k("undefined");
            p.d("undefined)");
            p.close();
        }
        _ => {
            p.open("assign");
            p.d("SetObj(");
            p.sp();
            let h = p.pick(d, 2);
            fterm(p, if h == 0 { d } else { -1 });
            p.d(",");
            p.sp();
            if h == 0 {
                p.obj_nk();
            } else {
                match p.pick(d, 3) {
                    0 => p.var(),
                    1 => p.obj_nk(),
                    _ => fterm(p, d),
                }
            }
            p.d(")");
            p.close();
        }
    }
}
fn numset(p: &mut P, d: i32) {
    match p.pick(d, 3) {
        0 => {
            fhead(p, d);
            p.d(",");
            p.sp();
            p.num();
        }
        i => {
            fhead(p, -1);
            p.d(",");
            p.sp();
            if i == 1 {
                opnode(p, 1, d, fexp)
            } else {
                opnode(p, 4, d, fexp)
            }
        }
    }
    p.d(")");
    p.close();
}
pub fn fterm(p: &mut P, d: i32) {
    let k = p.pick(d, 3);
    p.d("fn ");
    p.open("");
    p.fun();
    p.d("[");
    if k > 0 {
        p.sp();
    }
    p.list(k, 2, d, ";", term);
    p.d("]");
    p.close();
}
/// `[e;e;]` as in Effects: no conjunction and a conjunction look alike.
pub fn effects(p: &mut P, d: i32) {
    p.d("[");
    match p.pick(d, 5) {
        0 => {
            ceff(p, d);
            p.d(";");
        }
        i => {
            p.open("and");
            if i > 1 {
                p.sp();
            }
            p.list(i - 1, 3, d, ";", ceff);
            p.close();
        }
    }
    p.d("]");
}
pub fn condeff(p: &mut P, d: i32) {
    p.d("[");
    match p.pick(d, 5) {
        0 => {
            peff(p, d);
            p.d(";");
        }
        i => {
            p.open("and");
            if i > 1 {
                p.sp();
            }
            p.list(i - 1, 3, d, ";", peff);
            p.close();
        }
    }
    p.d("]");
}
pub fn ceff(p: &mut P, d: i32) {
    let n = if d > 0 { 3 } else { 1 };
    match p.pick(d, n) {
        0 => peff(p, d),
        1 => quant(p, d, "forall", "Forall", effects),
        _ => {
            p.open("when");
            p.d("When(");
            p.sp();
            let h = p.split(d, 2);
            gd(p, p.on(h, 0, d - 1));
            p.d(",");
            p.sp();
            condeff(p, p.on(h, 1, d - 1));
            p.d(")");
            p.close();
        }
    }
}

pub fn pref(p: &mut P, d: i32, f: impl Fn(&mut P, i32)) {
    p.open("preference");
    p.d("Pref(");
    p.sp();
    if p.pick(d, 2) == 0 {
        p.prefname();
        p.sp();
    } else {
        p.d("-");
    }
    p.d(",");
    f(p, d - 1);
    p.d(")");
    p.close();
}
/// The elements of a pre-GD: conjunctions are flattened, so this writes
/// `x;` for each element without brackets.
pub fn pregd_in(p: &mut P, d: i32) {
    let n = if d > 0 { 7 } else { 2 };
    match p.pick(d, n) {
        0 => {
            // not a conjunction: that would be flattened
            af(p, d, term);
            p.d(";");
        }
        1 => {
            pref(p, d, gd);
            p.d(";");
        }
        i @ 2..=4 => {
            p.open("and");
            if i > 2 {
                p.sp();
            }
            p.list(i - 2, 2, d, "", pregd_in);
            p.close();
        }
        5 => {
            quant(p, d, "forall", "FORALL", pregds);
            p.d(";");
        }
        _ => {
            gd_noand(p, d);
            p.d(";");
        }
    }
}
/// A goal formula with a head that pre-GD has no rule for.
fn gd_noand(p: &mut P, d: i32) {
    match p.pick(d, 4) {
        0 => {
            p.open("not");
            p.d("Not(");
            p.sp();
            gd(p, d - 1);
            p.d(")");
            p.close();
        }
        1 => {
            p.open("or");
            p.d("Or[");
            p.sp();
            p.list(2, 2, d, ";", gd);
            p.d("]");
            p.close();
        }
        2 => quant(p, d, "exists", "Exists", gd),
        _ => fcomp(p, d),
    }
}
pub fn pregds(p: &mut P, d: i32) {
    p.d("[");
    pregd_in(p, d);
    p.d("]");
}

/// A constraint that starts with a modal operator (or one of these below `and` and `forall`).
pub fn nested(p: &mut P, d: i32) {
    let n = if d > 0 { 12 } else { 1 };
    match p.pick(d, n) {
        10 => {
            p.open("and");
            p.d("CAnd[");
            p.sp();
            p.list(2, 2, d, ";", |p, d| {
                let i = p.pick(d, 10);
                modal(p, d, i)
            });
            p.d("]");
            p.close();
        }
        11 => quant(p, d, "forall", "CForall", |p, d| {
            let i = p.pick(d, 10);
            modal(p, d, i)
        }),
        i => modal(p, d, i),
    }
}
fn modal(p: &mut P, d: i32, i: u8) {
    let two = |p: &mut P, kw: &str, nums: u8| {
        p.open(kw);
        p.d(kw);
        p.d("(");
        for _ in 0..nums {
            p.sp();
            p.num();
            p.d(",");
        }
        p.sp();
        p.kids(2, d, ",", con2);
        p.d(")");
        p.close();
    };
    let one = |p: &mut P, kw: &str, nums: u8| {
        p.open(kw);
        p.d(kw);
        p.d("(");
        for _ in 0..nums {
            p.sp();
            p.num();
            p.d(",");
        }
        p.sp();
        con2(p, d - 1);
        p.d(",)");
        p.close();
    };
    match i {
        0 => one(p, "always", 0),
        1 => one(p, "sometime", 0),
        2 => one(p, "within", 1),
        3 => one(p, "at-most-once", 0),
        4 => two(p, "sometime-after", 0),
        5 => two(p, "sometime-before", 0),
        6 => two(p, "always-within", 1),
        7 => one(p, "hold-during", 2),
        8 => one(p, "hold-after", 1),
        _ => {
            p.open("at");
            p.sp();
            p.k("end");
            p.d("at-end(");
            p.sp();
            gd(p, d - 1);
            p.d(")");
            p.close();
        }
    }
}
pub fn congd(p: &mut P, d: i32) {
    let n = if d > 0 { 15 } else { 1 };
    match p.pick(d, n) {
        i @ 0..=9 => modal(p, d, i),
        i @ 10..=13 => {
            p.open("and");
            p.d("CAnd[");
            if i > 10 {
                p.sp();
            }
            p.list(i - 10, 3, d, ";", congd);
            p.d("]");
            p.close();
        }
        _ => quant(p, d, "forall", "CForall", congd),
    }
}
pub fn con2(p: &mut P, d: i32) {
    let n = if d > 0 { 2 } else { 1 };
    if p.pick(d, n) == 0 {
        gd(p, d)
    } else {
        nested(p, d)
    }
}
pub fn prefcon_in(p: &mut P, d: i32) {
    let n = if d > 0 { 6 } else { 2 };
    match p.pick(d, n) {
        0 => {
            // not `and` or `forall`, which pref-con-GD has rules of its own for
            p.open("sometime");
            p.d("sometime(");
            p.sp();
            gd(p, d - 1);
            p.d(",);");
            p.close();
        }
        1 => {
            pref(p, d, congd);
            p.d(";");
        }
        i @ 2..=4 => {
            p.open("and");
            if i > 2 {
                p.sp();
            }
            p.list(i - 2, 2, d, "", prefcon_in);
            p.close();
        }
        _ => {
            quant(p, d, "forall", "PForall", prefcons);
            p.d(";");
        }
    }
}
pub fn prefcons(p: &mut P, d: i32) {
    p.d("[");
    prefcon_in(p, d);
    p.d("]");
}

pub fn sdur(p: &mut P, d: i32) {
    let n = if d > 0 { 2 } else { 1 };
    match p.pick(d, n) {
        0 => {
            let op = ["=", "<=", ">="][p.pick(d, 3) as usize];
            p.open(op);
            p.d("D");
            p.d(op);
            p.d("(");
            p.sp();
            p.k("?duration");
            p.sp();
            fexp(p, d - 1);
            p.d(")");
            p.close();
        }
        _ => {
            at(p, d);
            p.d("(");
            sdur(p, d - 1);
            p.d(")");
            p.close();
        }
    }
}
pub fn at(p: &mut P, d: i32) {
    p.open("at");
    p.sp();
    let t = ["start", "end"][p.pick(d, 2) as usize];
    p.k(t);
    p.sp();
    p.d("At ");
    p.d(t);
}
pub fn dur(p: &mut P, d: i32) {
    p.d("[");
    match p.pick(d, 5) {
        0 => {
            sdur(p, d);
            p.d(";");
        }
        1 => {
            p.open("");
            p.close();
        }
        i => {
            p.open("and");
            p.sp();
            p.list(i - 1, 3, d, ";", sdur);
            p.close();
        }
    }
    p.d("]");
}
pub fn timedgd(p: &mut P, d: i32) {
    if p.pick(d, 2) == 0 {
        at(p, d);
        p.d("(");
    } else {
        p.open("over");
        p.sp();
        p.k("all");
        p.sp();
        p.d("Over all(");
    }
    gd(p, d - 1);
    p.d(")");
    p.close();
}
pub fn dagd(p: &mut P, d: i32) {
    let n = if d > 0 { 7 } else { 2 };
    match p.pick(d, n) {
        0 => timedgd(p, d),
        1 => pref(p, d + 1, timedgd),
        i @ 2..=5 => {
            p.open("and");
            p.d("DAnd[");
            if i > 2 {
                p.sp();
            }
            p.list(i - 2, 3, d, ";", dagd);
            p.d("]");
            p.close();
        }
        _ => quant(p, d, "forall", "DForall", dagd),
    }
}
pub fn timedeff(p: &mut P, d: i32) {
    match p.pick(d, 3) {
        0 => {
            at(p, d);
            condeff_nonnum(p, d);
            p.close();
        }
        1 => {
            at(p, d);
            let op = [
                "assign",
                "increase",
                "decrease",
                "scale-up",
                "scale-down",
                "change",
            ][p.pick(d, 6) as usize];
            p.d("[Set ");
            p.d(if op == "change" { "assign" } else { op });
            p.d("(");
            p.open(op);
            p.sp();
            let h = p.pick(d, 2);
            // with `assign`, a function head and a term make an object assignment
            if op == "assign" && h == 0 {
                fhead(p, d);
                p.d(",");
                p.sp();
                p.num();
            } else if op == "assign" {
                fhead(p, -1);
                p.d(",");
                p.sp();
                opnode(p, 0, d, fexpda);
            } else {
                fhead(p, if h == 0 { d } else { -1 });
                p.d(",");
                p.sp();
                fexpda(p, if h == 1 { d - 1 } else { -1 });
            }
            p.d(");]");
            p.close();
            p.close();
        }
        _ => {
            let op = ["increase", "decrease"][p.pick(d, 2) as usize];
            p.open(op);
            p.d("Cont ");
            p.d(op);
            p.d("(");
            p.sp();
            let h = p.split(d, 2);
            fhead(p, p.on(h, 0, d));
            p.d(",");
            p.sp();
            fexpt(p, p.on(h, 1, d));
            p.d(")");
            p.close();
        }
    }
}
/// A conditional effect that is not one bare numeric assignment.
fn condeff_nonnum(p: &mut P, d: i32) {
    p.d("[");
    match p.pick(d, 5) {
        0 => {
            if p.pick(d, 2) == 0 {
                af(p, d, term);
            } else {
                p.open("not");
                p.d("Not(");
                p.sp();
                af(p, d, term);
                p.d(")");
                p.close();
            }
            p.d(";");
        }
        i => {
            p.open("and");
            if i > 1 {
                p.sp();
            }
            p.list(i - 1, 3, d, ";", peff);
            p.close();
        }
    }
    p.d("]");
}
pub fn daeff(p: &mut P, d: i32) {
    let n = if d > 0 { 7 } else { 1 };
    match p.pick(d, n) {
        0 => timedeff(p, d),
        i @ 1..=4 => {
            p.open("and");
            p.d("EAnd[");
            if i > 1 {
                p.sp();
            }
            p.list(i - 1, 3, d, ";", daeff);
            p.d("]");
            p.close();
        }
        5 => quant(p, d, "forall", "EForall", daeff),
        _ => {
            p.open("when");
            p.d("When(");
            p.sp();
            let h = p.split(d, 2);
            dagd(p, p.on(h, 0, d - 1));
            p.d(",");
            p.sp();
            timedeff(p, p.on(h, 1, d - 1));
            p.d(")");
            p.close();
        }
    }
}
/// An action; each optional part present or not, one part hot.
pub fn action(p: &mut P, d: i32) {
    p.open(":action");
    p.d("Action ");
    p.sp();
    let b = p.raw(&["act", "and", "move-to", "pre"], false);
    p.put(b);
    p.sp();
    p.k(":parameters");
    p.sp();
    let h = p.split(d, 3);
    tvars(p, p.on(h, 0, d));
    p.d("pre");
    match if h == 1 { p.pick(d, 3) } else { p.pick(d, 2) } {
        0 => {
            p.sp();
            p.k(":precondition");
            p.sp();
            pregds(p, p.on(h, 1, d - 1));
        }
        1 => p.d("[]"),
        _ => {
            p.sp();
            p.k(":precondition");
            p.sp();
            {
                p.open("");
                p.close();
            };
            p.d("[]");
        }
    }
    p.d("eff");
    match if h == 2 { p.pick(d, 3) } else { p.pick(d, 2) } {
        0 => {
            p.sp();
            p.k(":effect");
            p.sp();
            effects(p, if h == 2 { d - 1 } else { -1 });
        }
        1 => p.d("[]"),
        _ => {
            p.sp();
            p.k(":effect");
            p.sp();
            {
                p.open("");
                p.close();
            };
            p.d("[]");
        }
    }
    p.close();
}
pub fn durative(p: &mut P, d: i32) {
    p.open(":durative-action");
    p.d("Durative ");
    p.sp();
    let b = p.raw(&["dact", "at", "fly-to"], false);
    p.put(b);
    p.sp();
    p.k(":parameters");
    p.sp();
    let h = p.split(d, 4);
    tvars(p, p.on(h, 0, d));
    p.sp();
    p.k(":duration");
    p.sp();
    p.d("dur");
    dur(p, p.on(h, 1, d - 1));
    p.sp();
    p.k(":condition");
    p.sp();
    p.d("cond");
    if h == 2 && p.pick(d, 2) == 1 {
        {
            p.open("");
            p.close();
        };
        p.d("()");
    } else {
        dagd(p, p.on(h, 2, d - 1));
    }
    p.sp();
    p.k(":effect");
    p.sp();
    p.d("eff");
    if h == 3 && p.pick(d, 2) == 1 {
        {
            p.open("");
            p.close();
        };
        p.d("()");
    } else {
        daeff(p, p.on(h, 3, d - 1));
    }
    p.close();
}
pub fn skeleton(p: &mut P, d: i32) {
    p.open("");
    p.d("P ");
    p.pred();
    skel_args(p, d);
}
fn skel_args(p: &mut P, d: i32) {
    // no white space after a lone symbol
    let mark = p.t.len();
    p.sp();
    let at = p.t.len();
    typed_some(p, d, "object", |p| p.var());
    if p.t.len() == at {
        p.t.truncate(mark);
    }
    p.close();
}
pub fn fskeleton(p: &mut P, d: i32) {
    p.open("");
    p.d("FS ");
    p.fun();
    skel_args(p, d);
}
pub fn derived(p: &mut P, d: i32) {
    p.open(":derived");
    p.d("Derived ");
    p.sp();
    let h = p.split(d, 2);
    skeleton(p, p.on(h, 0, d));
    p.d("<-");
    p.sp();
    gd(p, p.on(h, 1, d - 1));
    p.close();
}
pub fn structure(p: &mut P, d: i32) {
    match p.pick(d, 3) {
        0 => action(p, d),
        1 => durative(p, d),
        _ => derived(p, d),
    }
}
/// A typed list of function skeletons.
pub fn flist(p: &mut P, groups: &[(u8, i32)], d: i32) {
    let total: u8 = groups.iter().map(|g| g.0).sum();
    let hot = p.pick(d, total.max(1)) as i32;
    let i = std::cell::Cell::new(-1);
    // the canonical text of FunctionTypedList is the same as of a typed list
    typed(p, groups, "number", |p| {
        i.set(i.get() + 1);
        fskeleton(p, if i.get() == hot { d } else { -1 })
    });
}
pub const FSH: &[&[(u8, i32)]] = &[
    &[(1, NT)],
    &[],
    &[(2, NT)],
    &[(1, -1)],
    &[(2, -1)],
    &[(1, -1), (1, NT)],
    &[(1, -1), (1, -1)],
    &[(1, 1), (2, -1), (1, NT)],
];

pub const REQS: &[&str] = &[
    ":strips",
    ":typing",
    ":negative-preconditions",
    ":disjunctive-preconditions",
    ":equality",
    ":existential-preconditions",
    ":universal-preconditions",
    ":quantified-preconditions",
    ":conditional-effects",
    ":fluents",
    ":numeric-fluents",
    ":object-fluents",
    ":adl",
    ":durative-actions",
    ":duration-inequalities",
    ":continuous-effects",
    ":derived-predicates",
    ":timed-initial-literals",
    ":preferences",
    ":constraints",
    ":action-costs",
];
pub fn reqs(p: &mut P, n: u8, d: i32) {
    p.open(":requirements");
    p.d("[");
    let n = p.widen(n, 2, d);
    let d = if n > 3 { -1 } else { d };
    for _ in 0..n {
        p.sp();
        let i = if d < 0 {
            p.uniq() as usize * 5 % REQS.len()
        } else {
            choose(REQS.len() as u8) as usize
        };
        p.k(REQS[i]);
        p.d(REQS[i]);
        p.d(";");
    }
    p.d("]");
    p.close();
}
pub fn section_names(p: &mut P, d: i32, kw: &str) {
    p.open(kw);
    let mark = p.t.len();
    p.sp();
    let at = p.t.len();
    typed_some(p, d, "object", |p| p.obj());
    if p.t.len() == at {
        p.t.truncate(mark);
    }
    p.close();
}
/// `hot` picks the one section that varies in detail, `mask` the sections present.
pub fn domain(p: &mut P, d: i32, hot: u8, mask: u16) {
    let on = |i: u16| mask >> i & 1 == 1;
    let h = |i: u8| if hot == i { d } else { -1 };
    p.open("define");
    p.sp();
    p.open("domain");
    p.sp();
    p.d("Domain ");
    let b = p.raw(&["dom", "domain"], false);
    p.put(b);
    p.close();
    p.d("\nextends[");
    if on(0) {
        p.sp();
        p.open(":extends");
        let n = 1 + p.pick(h(0), 3);
        let n = p.widen(n, 3, h(0));
        for _ in 0..n {
            p.sp();
            p.obj();
            p.d(";");
        }
        p.close();
    }
    p.d("]\nreq");
    if on(1) {
        p.sp();
        let n = 1 + p.pick(h(1), 3);
        reqs(p, n, h(1));
    } else {
        p.d("[]");
    }
    p.d("\ntypes");
    if on(2) {
        p.sp();
        section_names(p, h(2), ":types");
    } else {
        p.d("{}");
    }
    p.d("\nconst");
    if on(3) {
        p.sp();
        section_names(p, h(3), ":constants");
    } else {
        p.d("{}");
    }
    p.d("\npred[");
    if on(4) {
        p.sp();
        p.open(":predicates");
        p.sp();
        let n = 1 + p.pick(h(4), 3);
        p.list(n, 3, h(4), ";", |p, d| skeleton(p, d));
        p.close();
    }
    p.d("]\nfun");
    if on(5) {
        p.sp();
        p.open(":functions");
        let i = p.pick(h(5), FSH.len() as u8) as usize;
        if !FSH[i].is_empty() {
            p.sp();
        }
        flist(p, FSH[i], -1);
        p.close();
    } else {
        p.d("{}");
    }
    p.d("\ncon ");
    if on(6) {
        p.sp();
        p.open(":constraints");
        p.sp();
        congd(p, h(6));
        p.close();
    } else {
        p.d("CAnd[]");
    }
    p.d("\n[");
    if on(7) {
        p.sp();
        let n = 1 + p.pick(h(7), 3);
        p.list(n, 3, h(7), ";", structure);
    }
    p.d("]");
    p.close();
}
pub fn init_el(p: &mut P, d: i32) {
    match p.pick(d, 4) {
        0 => literal(p, d, name_),
        1 => {
            p.open("at");
            p.d("At ");
            p.sp();
            p.num();
            p.sp();
            p.d("(");
            literal(p, d, name_);
            p.d(")");
            p.close();
        }
        2 => {
            p.open("=");
            p.d("Val(");
            p.sp();
            bft(p, p_bft(d));
            p.d(",");
            p.sp();
            p.num();
            p.d(")");
            p.close();
        }
        _ => {
            p.open("=");
            p.d("Obj(");
            p.sp();
            // a bare symbol and a name would be an equality of names
            let k = 1 + p.pick(d, 3);
            bft_k(p, k);
            p.d(",");
            p.sp();
            p.obj();
            p.d(")");
            p.close();
        }
    }
}
fn p_bft(d: i32) -> i32 {
    d
}
pub fn bft(p: &mut P, d: i32) {
    let k = p.pick(d, 4);
    bft_k(p, k)
}
fn bft_k(p: &mut P, k: u8) {
    p.d("F ");
    if k == 0 {
        p.fun();
        p.d("[]");
        return;
    }
    p.open("");
    p.fun();
    p.d("[");
    let k = p.widen(k, 3, 0);
    for _ in 1..k {
        p.sp();
        p.obj();
        p.d(";");
    }
    p.d("]");
    p.close();
}
pub fn metricspec(p: &mut P, d: i32) {
    p.open(":metric");
    p.sp();
    let o = ["minimize", "maximize"][p.pick(d, 2) as usize];
    p.k(o);
    p.d(o);
    p.d(" ");
    p.t.push(Tok::Blank);
    metric(p, d);
    p.close();
}
pub fn length(p: &mut P, d: i32) {
    p.open(":length");
    p.d("Len(");
    const L: &[&str] = &["7", "0", "42", "18446744073709551615", "256", "65536", "4294967295", "4294967296"];
    let m = if d < 0 { 3 } else { p.pick(d, 4) };
    if m & 1 == 1 {
        p.sp();
        p.open(":serial");
        p.sp();
        let l = L[p.pick(d, L.len() as u8) as usize];
        p.k(l);
        p.d(l);
        p.close();
    } else {
        p.d("-");
    }
    p.d(",");
    if m & 2 == 2 {
        p.sp();
        p.open(":parallel");
        p.sp();
        let l = L[p.pick(d, L.len() as u8) as usize];
        p.k(l);
        p.d(l);
        p.close();
    } else {
        p.d("-");
    }
    p.d(")");
    p.close();
}
pub fn problem(p: &mut P, d: i32, hot: u8, mask: u16) {
    let on = |i: u16| mask >> i & 1 == 1;
    let h = |i: u8| if hot == i { d } else { -1 };
    p.open("define");
    p.sp();
    p.open("problem");
    p.sp();
    p.d("Problem ");
    let b = p.raw(&["prob", "problem"], false);
    p.put(b);
    p.close();
    p.sp();
    p.open(":domain");
    p.sp();
    p.d("\ndomain ");
    let b = p.raw(&["dom", "domain"], false);
    p.put(b);
    p.close();
    p.d("\nreq");
    if on(1) {
        p.sp();
        let n = 1 + p.pick(h(1), 3);
        reqs(p, n, h(1));
    } else {
        p.d("[]");
    }
    p.d("\nobjects");
    if on(2) {
        p.sp();
        section_names(p, h(2), ":objects");
    } else {
        p.d("{}");
    }
    p.d("\ninit[");
    p.sp();
    p.open(":init");
    let n = if h(3) >= 0 { choose(4) } else { 2 };
    if n > 0 {
        p.sp();
    }
    p.list(n, 3, h(3), ";", |p, d| init_el(p, d));
    p.close();
    p.d("]\ngoal");
    p.sp();
    p.open(":goal");
    p.sp();
    pregds(p, h(4));
    p.close();
    p.d("\ncon");
    if on(5) {
        p.sp();
        p.open(":constraints");
        p.sp();
        prefcons(p, h(5));
        p.close();
    } else {
        p.d("[]");
    }
    p.d("\nmetric ");
    if on(6) {
        p.sp();
        metricspec(p, h(6));
    } else {
        p.d("-");
    }
    p.d("\nlen ");
    if on(7) {
        p.sp();
        length(p, h(7));
    } else {
        p.d("-");
    }
    p.d("\n");
    p.close();
}

// Parts of the above as texts of their own.
pub fn word(p: &mut P, d: i32, list: &[&str]) {
    let i = p.pick(d, list.len() as u8) as usize;
    p.k(list[i]);
    p.d(list[i]);
}
pub fn forall_ceff(p: &mut P, d: i32) {
    quant(p, d, "forall", "Forall", effects)
}
pub fn when_ceff(p: &mut P, d: i32) {
    p.open("when");
    p.d("When(");
    p.sp();
    let h = p.split(d, 2);
    gd(p, p.on(h, 0, d - 1));
    p.d(",");
    p.sp();
    condeff(p, p.on(h, 1, d - 1));
    p.d(")");
    p.close();
}
pub fn fassignda(p: &mut P, d: i32) {
    let op = ["increase", "assign", "decrease", "scale-up", "scale-down", "change"][p.pick(d, 6) as usize];
    p.d("Set ");
    p.d(if op == "change" { "assign" } else { op });
    p.d("(");
    p.open(op);
    p.sp();
    let h = p.split(d, 2);
    fhead(p, p.on(h, 0, d));
    p.d(",");
    p.sp();
    fexpda(p, p.on(h, 1, d - 1));
    p.d(")");
    p.close();
}
pub fn prefgd(p: &mut P, d: i32) {
    if p.pick(d, 2) == 0 {
        gd(p, d)
    } else {
        pref(p, d, gd)
    }
}
pub fn dvalue(p: &mut P, d: i32) {
    fexp(p, d)
}
pub fn preftimed(p: &mut P, d: i32) {
    if p.pick(d, 2) == 0 {
        timedgd(p, d)
    } else {
        pref(p, d + 1, timedgd)
    }
}
pub fn preds(p: &mut P, d: i32) {
    p.open(":predicates");
    p.sp();
    p.d("[");
    let n = if d < 0 { 2 } else { 1 + choose(3) };
    p.list(n, 3, d, ";", |p, d| skeleton(p, d));
    p.d("]");
    p.close();
}
pub fn funs(p: &mut P, d: i32) {
    p.open(":functions");
    let i = if d < 0 { 7 } else { choose(FSH.len() as u8) } as usize;
    if !FSH[i].is_empty() {
        p.sp();
    }
    flist(p, FSH[i], -1);
    p.close();
}
pub fn domcon(p: &mut P, d: i32) {
    p.open(":constraints");
    p.sp();
    congd(p, d);
    p.close();
}
pub fn probcon(p: &mut P, d: i32) {
    p.open(":constraints");
    p.sp();
    prefcons(p, d);
    p.close();
}
pub fn timeless(p: &mut P, d: i32) {
    p.open(":timeless");
    p.sp();
    p.d("[");
    let n = if d < 0 { 2 } else { 1 + choose(3) };
    p.list(n, 3, d, ";", |p, d| literal(p, d, name_));
    p.d("]");
    p.close();
}
pub fn inits(p: &mut P, d: i32) {
    p.open(":init");
    p.d("[");
    let n = if d < 0 { 2 } else { choose(4) };
    if n > 0 {
        p.sp();
    }
    p.list(n, 3, d, ";", init_el);
    p.d("]");
    p.close();
}
pub fn goal(p: &mut P, d: i32) {
    p.open(":goal");
    p.sp();
    pregds(p, d);
    p.close();
}
