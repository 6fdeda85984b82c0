//! Names, variables and numbers: arbitrary texts against a reference scanner.
use crate::rt::*;
use crate::{as_str, fail_at};
use pddl::parsers::*;
use pddl::*;

pub fn blank(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\r' | b'\n')
}
pub fn letter(b: u8) -> bool {
    b.is_ascii_alphabetic()
}
pub fn part(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'-' || b == b'_'
}
/// Where the text begins behind blanks and comments.
pub fn layout(t: &[u8]) -> usize {
    let mut i = 0;
    while i < t.len() {
        if t[i] == b';' {
            while i < t.len() && t[i] != b'\n' && t[i] != b'\r' {
                i += 1;
            }
        } else if blank(t[i]) {
            i += 1;
        } else {
            break;
        }
    }
    i
}

fn got<'a, T>(r: ParseResult<'a, T>, f: impl Fn(&T) -> &str) -> Option<(Vec<u8>, usize, usize)> {
    match r {
        Ok((rest, v)) => Some((f(&v).as_bytes().to_vec(), rest.location_offset(), rest.fragment().len())),
        Err(_) => None,
    }
}

const KINDS: [&str; 11] = [
    "name", "predicate", "function symbol", "action symbol", "durative action symbol", "preference name", "type name", "variable",
    "term", "term (variable)", "object term",
];

/// bits 0-3 the number of arbitrary bytes, bits 4-7: 0 nothing else, 1 a name before them,
/// 2 a character outside ASCII behind them, 3 a character outside ASCII before them, 4 `?` before them, 5 a long name before them
pub fn token(arg: u32) {
    let k = choose(KINDS.len() as u8) as usize;
    let what = KINDS[k];
    let n = arg & 15;
    let mut t = vec![];
    match arg >> 4 & 15 {
        1 => t.extend_from_slice([&b"a"[..], b"Object", b"x-1_", b"?v", b"not"][choose(5) as usize]),
        3 => t.extend_from_slice("\u{e9}".as_bytes()),
        4 => t.push(b'?'),
        5 => {
            // a long name, in which one character may be any other
            let n = LONG[choose(LONG.len() as u8) as usize];
            if k == 7 || k == 9 {
                t.push(b'?');
            }
            t.extend(long(n));
            let at = [t.len() - 1, t.len() - n / 2, 7, 3][choose(4) as usize];
            t[at] = set(&ASCII);
        }
        _ => {}
    }
    for _ in 0..n {
        t.push(set(&ASCII));
    }
    if arg >> 4 & 15 == 2 {
        t.extend_from_slice(["\u{e9}", "\u{661}", "\u{2003}", "\u{1f600}"][choose(4) as usize].as_bytes());
    }
    text(&t);
    let s = as_str(&t);
    let variable = k == 7 || k == 9;
    let r = match k {
        0 => got(parse_name(s), |v| v.as_ref()),
        1 => got(parse_predicate(s), |v| v.as_ref()),
        2 => got(parse_function_symbol(s), |v| v.as_ref()),
        3 => got(parse_action_symbol(s), |v| v.as_ref()),
        4 => got(parse_da_symbol(s), |v| v.as_ref()),
        5 => got(parse_pref_name(s), |v| v),
        6 => got(parse_primitive_type(s), |v| v.as_ref()),
        7 => got(parse_variable(s), |v| v.as_ref()),
        8 => got(parse_term(s), |v| match v {
            Term::Name(n) => n.as_ref(),
            _ => "?",
        }),
        9 => got(parse_term(s), |v| match v {
            Term::Variable(n) => n.as_ref(),
            _ => "?",
        }),
        _ => got(parse_basic_function_term(s), |_| ""),
    };
    if k == 10 {
        // `sym` or `(sym ...)`: only the part up to the first parenthesis is judged here
        if let Some((_, off, left)) = &r {
            if off + left != t.len() {
                fail_at(what, "loses its place in the text");
            }
        }
        let i = layout(&t);
        if i == 0 && !t.is_empty() && letter(t[0]) && r.is_none() {
            fail_at(what, "is not read although it is a name");
        }
        reach(1);
        return;
    }
    let i = layout(&t);
    let at = i + variable as usize;
    let begins = at < t.len() && letter(t[at]) && (!variable || t[i] == b'?');
    match r {
        None => {
            // whether blanks may stand in front is the business of what surrounds it
            if begins && i == 0 {
                fail_at(what, "is not read although it is well-formed");
            }
            reach(2);
        }
        Some((text, off, left)) => {
            if k == 8 || k == 9 {
                // the other kinds of term are judged by the other case, and by the grammar tasks
                if same(&text, b"?") {
                    reach(3);
                    return;
                }
            }
            if !begins {
                fail_at(what, "is read from a text that does not begin with one");
            }
            let mut e = at;
            while e < t.len() && part(t[e]) {
                e += 1;
            }
            if off != e || left != t.len() - e {
                fail_at(what, "does not end where its last character is");
            }
            if !same(&text, &t[at..e]) {
                fail_at(what, "is not what is written");
            }
            reach(1);
        }
    }
}

/// The digits, how many bytes the number has, and how many digits stand behind the point.
fn scan_number(t: &[u8]) -> Option<(usize, Big, u32)> {
    let mut i = 0;
    let mut m = Big(vec![]);
    let mut k = 0;
    while i < t.len() && t[i].is_ascii_digit() {
        m.mul_add(10, (t[i] - b'0') as u32);
        i += 1;
    }
    if i == 0 {
        return None;
    }
    if i + 1 < t.len() && t[i] == b'.' && t[i + 1].is_ascii_digit() {
        i += 1;
        while i < t.len() && t[i].is_ascii_digit() {
            m.mul_add(10, (t[i] - b'0') as u32);
            k += 1;
            i += 1;
        }
    }
    Some((i, m, k))
}

/// A natural number of any size, lowest part first, without leading zeros.
#[derive(Clone)]
struct Big(Vec<u32>);
impl Big {
    fn mul_add(&mut self, f: u32, a: u32) {
        let mut c = a as u64;
        for x in &mut self.0 {
            c += *x as u64 * f as u64;
            *x = c as u32;
            c >>= 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn times_two_to(mut self, n: u32) -> Big {
        for _ in 0..n / 16 {
            self.mul_add(1 << 16, 0);
        }
        self.mul_add(1 << (n % 16), 0);
        self
    }
    fn times_ten_to(mut self, n: u32) -> Big {
        for _ in 0..n {
            self.mul_add(10, 0);
        }
        self
    }
    fn cmp(&self, o: &Big) -> core::cmp::Ordering {
        let by = self.0.len().cmp(&o.0.len());
        if by.is_ne() {
            return by;
        }
        for i in (0..self.0.len()).rev() {
            let by = self.0[i].cmp(&o.0[i]);
            if by.is_ne() {
                return by;
            }
        }
        by
    }
}
/// Compares `m / 10^k` with `x * 2^e`.
fn against(m: &Big, k: u32, x: u32, e: i32) -> core::cmp::Ordering {
    let mut b = Big(vec![]);
    b.mul_add(1, x);
    let b = b.times_ten_to(k);
    if e < 0 {
        m.clone().times_two_to(-e as u32).cmp(&b)
    } else {
        m.cmp(&b.times_two_to(e as u32))
    }
}
/// Whether the float of these bits is the one nearest to `m / 10^k`, of two equally near ones the even one.
fn nearest(m: &Big, k: u32, bits: u32) -> bool {
    let (exp, frac) = ((bits >> 23) as i32, bits & 0x7f_ffff);
    let (x, e) = if exp == 0 { (frac, -149) } else { (frac | 1 << 23, exp - 150) };
    let odd = x % 2 == 1;
    let up = against(m, k, 2 * x + 1, e - 1);
    if up.is_gt() || up.is_eq() && odd {
        return false;
    }
    if x == 0 {
        return true;
    }
    let down = if frac == 0 && exp > 1 { against(m, k, 4 * x - 1, e - 2) } else { against(m, k, 2 * x - 1, e - 1) };
    !(down.is_lt() || down.is_eq() && odd)
}
/// Whether `m / 10^k` is nearer to 2^128 than to the largest float, or in the middle.
fn too_large(m: &Big, k: u32) -> bool {
    !against(m, k, (1 << 25) - 1, 103).is_lt()
}

/// Digits that stand in the middle of two floats, or where the smallest ones begin.
const HALF: &[&str] = &[
    "16777217",
    "16777219",
    "1.000000059604644775390625",
    "1.00000017881393432617187",
    "340282356779733661637539395458142568447",
    "340282356779733661637539395458142568448",
    "0.000000000000000000000000000000000000011754943",
    "0.0000000000000000000000000000000000000000000007006492321624085354618",
    "0.00000000000000000000000000000000000000000000140129846432481707",
    "8388608.5",
    "33554433.",
    "2147483712",
    "9007199791611905",
    "0.1",
    "0.333333333",
    "123456.789",
    "000000000000000000000000000000000000000000000000000000000000000000017",
    "00000000000000000000000000000000000000000000000016777217",
    "0000000000000000000000000000000000000000.00000000000000000000000000000000000000000000000000000000000000000000000000000000001",
];

/// bits 0-3 n, bits 4-7: 0 n arbitrary bytes, 1 a beginning and n digits, 2 digits around a point, 3 large numbers, 4 about the middle of two floats
pub fn number(arg: u32) {
    let n = arg & 15;
    let mut t: Vec<u8> = vec![];
    let digit = || pin(set(&DIGIT));
    match arg >> 4 & 15 {
        0 => {
            for _ in 0..n {
                t.push(set(&ASCII));
            }
        }
        1 => {
            t.extend_from_slice([&b"0"[..], b"00", b"1", b"1677721", b"0.0", b"0.00000", b"99.9", b"1."][choose(8) as usize]);
            for _ in 0..n {
                t.push(digit());
            }
            t.extend_from_slice([&b""[..], b".", b"e5", b"E5", b"e", b"f", b".x", b" 1", b"-1", b"_1", b".5.5", b")", b"inf"][choose(13) as usize]);
        }
        2 => {
            let i = choose(n as u8 + 1) as u32;
            for j in 0..n {
                if i == j {
                    t.push(b'.');
                }
                t.push(digit());
            }
        }
        4 => {
            t.extend_from_slice(HALF[choose(HALF.len() as u8) as usize].as_bytes());
            if choose(2) == 1 {
                // the digit in front changes as well
                t.pop();
                t.push(digit());
            }
            if !t.contains(&b'.') && choose(2) == 1 {
                t.push(b'.');
            }
            let zeros = [0, 1, 7, 13, 20, 31, 50][choose(7) as usize];
            for _ in 0..zeros {
                t.push(b'0');
            }
            for _ in 0..n {
                t.push(digit());
            }
        }
        _ => {
            // about the largest number there is
            t.extend_from_slice([&b"340282"[..], b"3402823", b"999999", b"34028234663852885981170418348451692544", b"123456789"][choose(5) as usize]);
            for _ in 0..n {
                t.push(digit());
            }
            let zeros = [0, 10, 30, 31, 32, 33][choose(6) as usize];
            for _ in 0..zeros {
                t.push(b'0');
            }
        }
    }
    // the digits are values, not text
    for b in &mut t {
        if b.is_ascii_digit() {
            *b = pin(*b);
        }
    }
    text(&t);
    let s = as_str(&t);
    let r = parse_number(s);
    let want = scan_number(&t);
    let (len, m, k) = match want {
        None => {
            if let Ok((_, v)) = &r {
                let _ = v;
                fail("a number is read from a text that does not begin with one");
            }
            reach(2);
            return;
        }
        Some(w) => w,
    };
    let large = too_large(&m, k);
    match r {
        Err(_) => {
            if !large {
                fail("a well-formed number is not read");
            }
            reach(3);
        }
        Ok((rest, v)) => {
            if large {
                fail("a number too large to be represented is read");
            }
            if rest.location_offset() != len || rest.fragment().len() != t.len() - len {
                fail("a number does not end where its last digit is");
            }
            let value = *v;
            if !nearest(&m, k, value.to_bits()) {
                fail("a number does not have the value that is written");
            }
            if v != Number::from(value) {
                fail("a number read is not equal to one made from its value");
            }
            reach(1);
        }
    }
}

/// Remembers everything it is given.
#[derive(Default)]
struct Tape(Vec<u8>);
impl std::hash::Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape<T: std::hash::Hash>(x: &T) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}

/// The i-th of the names made before the others.
fn filler(order: u8, i: u32, n: u32) -> Vec<u8> {
    // 7 has no factor in common with n + 1
    let i = match order {
        0 => i,
        1 => n - 1 - i,
        _ => (i * 7 + 3) % n,
    };
    let mut t = [&b""[..], b"name-", b"objec", b"a-rather-long-beginning-of-a-name-that-others-have-as-well-"][(i % 4) as usize].to_vec();
    t.extend_from_slice(&[b'a' + (i % 16) as u8, b'0' + (i / 16) as u8]);
    t
}

/// A text of so many characters.
fn long(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"a-long_Name4you"[i % 15]).collect()
}
const LONG: [usize; 12] = [8, 15, 16, 17, 23, 24, 32, 33, 64, 128, 256, 300];

/// The name of the text, and everything that is a name under another type, made in every way there is.
fn symbols(t: &[u8], n: &Name) {
    let s = as_str(t);
    let fixed: &'static str = Box::leak(s.to_string().into_boxed_str());
    macro_rules! all {
        ($t:ident: $($e:expr),+) => {{
            let made: Vec<$t> = vec![$t::from_str(s), $t::from_name(n.clone()), $t::new(n.clone()), $t::from(s), $t::from(s.to_string()), $t::from(n.clone()), $($e),+];
            for x in &made {
                let name: &Name = &**x;
                let text: &str = &***x;
                if !same(text.as_bytes(), t) || x.len() != s.chars().count() || x.is_empty() != t.is_empty() {
                    fail_at(stringify!($t), "is not the text it was made from");
                }
                if name != n || !same(&tape(name), &tape(n)) {
                    fail_at(stringify!($t), "is another name than the one of the same text");
                }
                if *x != made[0] || made[0] != *x || *x != x.clone() {
                    fail_at(stringify!($t), "is not equal to another one of the same text");
                }
            }
            made
        }};
    }
    macro_rules! more {
        ($t:ident: $($e:expr),+) => {{
            let made = all!($t: $($e),+);
            for x in &made {
                let text: &str = x.as_ref();
                let name: &Name = x.as_ref();
                if !same(text.as_bytes(), t) || name != n || !same(&tape(x), &tape(&made[0])) {
                    fail_at(stringify!($t), "is another name than the one of the same text");
                }
            }
        }};
    }
    more!(Variable: Variable::from_static(fixed));
    more!(Predicate: Predicate::from_static(fixed));
    more!(FunctionSymbol: FunctionSymbol::from(fixed));
    more!(ActionSymbol: ActionSymbol::from(fixed));
    more!(DurativeActionSymbol: DurativeActionSymbol::from(fixed));
    all!(PreferenceName: PreferenceName::from_static(fixed));
    let types = [PrimitiveType::new(n.clone()), PrimitiveType::from(s), PrimitiveType::from(s.to_string()), PrimitiveType::from(n.clone())];
    for x in &types {
        let text: &str = x.as_ref();
        let deref: &str = x;
        if !same(text.as_bytes(), t) || !same(deref.as_bytes(), t) || *x != types[0] || !same(&tape(x), &tape(&types[0])) {
            fail_at("PrimitiveType", "is not the text it was made from");
        }
        if !matches!(Type::from(x.clone()), Type::Exactly(y) if y == *x) || !matches!(Type::from(s), Type::Exactly(y) if y == *x) {
            fail_at("Type", "is not the text it was made from");
        }
    }
    for (x, y) in [(s == "object", Type::Exactly(types[0].clone()) == Type::OBJECT), (s == "number", Type::Exactly(types[0].clone()) == Type::NUMBER)] {
        if x != y {
            fail_at("PrimitiveType", "is not the text it was made from");
        }
    }
    let (a, b) = (Term::new_name(n.clone()), Term::from(Variable::new(n.clone())));
    if a == b || a != Term::from(Name::new(s)) || b != Term::new_variable(Variable::from(s)) {
        fail_at("Term", "is compared otherwise than its name");
    }
}

/// A sequence of names (as many as the argument says, of up to bits 4-7 arbitrary bytes),
/// each made in one of the ways there are.  Bit 8: others were made before, in one of three orders.
/// Bit 9: also long texts, and the other types of name.
pub fn names(arg: u32) {
    let count = arg & 15;
    let len = arg >> 4 & 15;
    let mut all: Vec<(Vec<u8>, Name)> = vec![];
    let mut log: Vec<u8> = vec![];
    let mut old: Vec<(Vec<u8>, Name)> = vec![];
    if arg >> 8 & 1 == 1 {
        let n = [3, 17, 64, 100][choose(4) as usize];
        let order = choose(3);
        for i in 0..n {
            let t = filler(order, i, n);
            let s = as_str(&t);
            let name = match i % 3 {
                0 => Name::new(s),
                1 => Name::from(s.to_string()),
                _ => match parse_name(s) {
                    Ok((_, n)) => n,
                    _ => fail("a name is not read"),
                },
            };
            old.push((t, name));
        }
        log.extend_from_slice(&[b'0' + order, b' ', b'0' + n as u8 % 10, b'\n']);
    }
    let big = arg >> 9 & 1 == 1;
    let size = if big { LONG[choose(LONG.len() as u8) as usize] } else { 0 };
    for c in 0..count {
        let pool = if !big { choose(6) } else if count > 1 { 6 } else { choose(7) };
        let mut t: Vec<u8> = match pool {
            0 => b"object".to_vec(),
            1 => b"number".to_vec(),
            2 => "\u{e9}x".as_bytes().to_vec(),
            3 => {
                let mut t = b"object".to_vec();
                let i = choose(6) as usize;
                t[i] = set(&NAMECH);
                t
            }
            6 => {
                let mut t = long(size);
                if c + 1 == count {
                    let at = [0, 7, size / 2, size - 1][choose(4) as usize];
                    t[at] = set(&NAMECH);
                }
                t
            }
            _ => vec![],
        };
        if t.is_empty() {
            let n = choose(len as u8 + 1);
            t = (0..n).map(|_| byte(b' ', b'~')).collect();
        }
        log.extend_from_slice(&t);
        log.push(b'\n');
        text(&log);
        let s = as_str(&t);
        let name: Name = match if big && count > 1 { 3 * choose(2) } else { choose(9) } {
            0 => Name::new(s),
            1 => Name::new(s.to_string()),
            2 => Name::from(s),
            3 => Name::new_static(Box::leak(s.to_string().into_boxed_str())),
            4 => match parse_name(s) {
                Ok((rest, n)) if rest.fragment().is_empty() && !t.is_empty() && !blank(t[0]) && t[0] != b';' => n,
                _ => reject(),
            },
            5 => match all.last() {
                Some((u, n)) if same(u, &t) => n.clone(),
                _ => reject(),
            },
            6 => {
                let p = Predicate::from(s);
                let n: &Name = p.as_ref();
                n.clone()
            }
            7 => {
                let v = Variable::from(s);
                let n: &Name = v.as_ref();
                n.clone()
            }
            _ => {
                let v = PrimitiveType::from(s);
                Name::from(&*v)
            }
        };
        all.push((t, name));
        for (i, (t, n)) in all.iter().enumerate() {
            let s = as_str(t);
            let as_ref: &str = n.as_ref();
            if !same(as_ref.as_bytes(), t) || !same((**n).as_bytes(), t) {
                fail("a name is not the text it was made from");
            }
            if n.len() != s.chars().count() || n.is_empty() != t.is_empty() {
                fail("a name does not have the length of its text");
            }
            if *n != *s || *n != s || *n != s.to_string() {
                fail("a name is not equal to its text");
            }
            if !n.eq(&n.clone()) {
                fail("a name is not equal to its copy");
            }
            for (u, m) in &all[..i] {
                let eq = same(t, u);
                if (n == m) != eq || (m == n) != eq {
                    fail("names are equal although their texts differ, or the other way round");
                }
                if eq && !same(&tape(n), &tape(m)) {
                    fail("equal names do not hash alike");
                }
                if !eq && (*n == *as_str(u) || *n == as_str(u) || *n == as_str(u).to_string()) {
                    fail("a name is equal to another text");
                }
                // everything that is a name under another type follows
                let (a, b) = (PrimitiveType::new(n.clone()), PrimitiveType::new(m.clone()));
                if (a == b) != eq || (eq && !same(&tape(&a), &tape(&b))) {
                    fail("types are compared otherwise than their names");
                }
                let (a, b) = (FunctionSymbol::new(n.clone()), FunctionSymbol::new(m.clone()));
                if (a == b) != eq {
                    fail("function symbols are compared otherwise than their names");
                }
            }
        }
    }
    if big && count == 1 {
        for (t, n) in &all {
            symbols(t, n);
        }
    }
    for (t, n) in &old {
        let as_ref: &str = n.as_ref();
        if !same(as_ref.as_bytes(), t) || n.len() != t.len() {
            fail("a name does not keep its text");
        }
        let again = Name::new(as_str(t));
        let as_ref: &str = again.as_ref();
        if *n != again || !same(as_ref.as_bytes(), t) || !same(&tape(n), &tape(&again)) {
            fail("a name is not equal to one made of the same text later");
        }
        for (u, m) in &all {
            if (n == m) != same(t, u) {
                fail("names are equal although their texts differ, or the other way round");
            }
        }
    }
    for i in 1..old.len() {
        if old[i - 1].1 == old[i].1 || old[0].1 == old[i].1 {
            fail("names of different texts are equal");
        }
    }
    reach(1);
}
