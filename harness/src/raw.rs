//! Arbitrary, malformed and near-miss texts.
use crate::gen::*;
use crate::rt::*;
use crate::table;
use crate::{as_str, fail_at};
use pddl::parsers::Span;

/// The type a task is about: bits 16-23 of the argument, 255 for any, 254 for any but the largest.
fn kind(arg: u32) -> usize {
    let k = arg >> 16 & 255;
    if k == 255 {
        choose(table::TYPES.len() as u8) as usize
    } else if k == 254 {
        // any but the largest
        let i = choose(table::TYPES.len() as u8) as usize;
        if matches!(table::TYPES[i], "Domain" | "Problem" | "StructureDef" | "ActionDefinition" | "DurativeActionDefinition") {
            reject();
        }
        i
    } else {
        k as usize
    }
}
/// bits 0-3: depth + 1
fn deep(arg: u32) -> i32 {
    (arg & 15) as i32 - 1
}
/// bits 12-13 the mode, 14 all parts vary (with mode 3: leanly), 15 one name is a keyword, 24 one name is a long one
fn how_made(arg: u32) -> Cfg {
    let bit = |i: u32| arg >> i & 1 == 1;
    let one = bit(15) || bit(24);
    Cfg {
        mode: (arg >> 12 & 3) + (bit(12) && bit(13) && bit(14)) as u32,
        full: bit(14),
        stem: bit(15),
        long: bit(24),
        count: one as u32,
        float: if one { 6 } else { 0 },
        len: 0,
        ..PLAIN
    }
}
fn written(k: usize, arg: u32) -> P {
    let mut p = P::new(how_made(arg));
    table::generate(k, &mut p, deep(arg));
    p
}
/// The parts of a well-formed text: every word, and every group in parentheses
/// from the opening to the closing one, with the group it stands in.
fn parts(t: &[u8]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    let mut open: Vec<usize> = vec![];
    let mut i = 0;
    while i < t.len() {
        let up = open.last().copied().unwrap_or(usize::MAX);
        match t[i] {
            b' ' => i += 1,
            b'(' => {
                open.push(v.len());
                v.push((i, i, up));
                i += 1;
            }
            b')' => {
                i += 1;
                if let Some(o) = open.pop() {
                    v[o].1 = i;
                }
            }
            _ => {
                let a = i;
                while i < t.len() && !matches!(t[i], b' ' | b'(' | b')') {
                    i += 1;
                }
                v.push((a, i, up));
            }
        }
    }
    v
}
/// Words that mean something, or look as if they did.
const WORDS: &[&str] = &[
    "", "()", "(and)", "0", "1", "2.5", "2.50", "00000000000000000000000000000002.5", "18446744073709551615", "18446744073709551616", "4294967297",
    "340282350000000000000000000000000000000", "340282360000000000000000000000000000000", "99999999999999999999999999999999999999999999999999", "-1", "1.", ".5", "1e3", "a", "A", "object", "number", "?x", "?duration",
    "#t", "and", "or", "not", "either", "forall", "when", "at", "start", "end", "over", "all", "=", "<", ">=", "+", "-", "*", "/", "assign", "increase", "undefined", "preference", "total-time",
    "minimize", ":strips", ":adl", ":length", ":serial", "(a)", "(at end (a))", "(not (a))", "(preference (a))", "(= a b)", "(= (f) 1)", "(either a b)", "- a", "- (either)", "a - b", "?x - b", "(?x)",
    "@12", "@17", "@33", "@65", "@256", "@300", "~65", "~300",
];
/// The word, or one as long as it says.
fn word(w: &str) -> Vec<u8> {
    let w = w.as_bytes();
    if w.is_empty() || w[0] != b'@' && w[0] != b'~' {
        return w.to_vec();
    }
    let n = w[1..].iter().fold(0, |n, d| n * 10 + (d - b'0') as usize);
    let of: &[u8] = if w[0] == b'@' { b"longName-0_Z9x" } else { b"0" };
    of.iter().cycle().take(n).copied().collect()
}
/// The text with one of its parts treated in one way.
/// 8 left out, 9 doubled, 10 exchanged with the next one, 11 another word instead,
/// 12 two words instead, 13 put in parentheses, 14 its parentheses taken away
fn rebuild(t: Vec<u8>, how: u32) -> Vec<u8> {
    let v = parts(&t);
    if v.is_empty() {
        reject();
    }
    let i = choose2(v.len() as u32) as usize;
    let (a, b, up) = v[i];
    let mut o = Vec::with_capacity(t.len() + 80);
    let cat = |o: &mut Vec<u8>, xs: &[&[u8]]| {
        for x in xs {
            o.extend_from_slice(x)
        }
    };
    match how {
        8 => cat(&mut o, &[&t[..a], &t[b..]]),
        9 => cat(&mut o, &[&t[..b], b" ", &t[a..]]),
        10 => {
            let mut j = i + 1;
            while j < v.len() && v[j].2 != up {
                j += 1;
            }
            if j == v.len() || v[j].0 < b {
                reject();
            }
            let (c, d, _) = v[j];
            cat(&mut o, &[&t[..a], &t[c..d], b" ", &t[a..b], &t[d..]]);
        }
        11 | 12 => {
            let w = word(WORDS[choose(WORDS.len() as u8) as usize]);
            cat(&mut o, &[&t[..a], &w[..]]);
            if how == 12 {
                cat(&mut o, &[b" ", &t[a..b]]);
            }
            cat(&mut o, &[&t[b..]]);
        }
        13 => cat(&mut o, &[&t[..a], b"(", &t[a..b], b")", &t[b..]]),
        _ => {
            if t[a] != b'(' {
                reject();
            }
            cat(&mut o, &[&t[..a], &t[a + 1..b - 1], &t[b..]]);
        }
    }
    o
}
/// The text with something done to one place of it.
/// 0 one byte replaced, 1 cut off, 2 one byte put in, 3 a character outside ASCII put in, 4 one byte taken out
fn mangle(t: Vec<u8>, how: u32) -> Vec<u8> {
    if how >= 8 {
        return rebuild(t, how);
    }
    let i = choose2(t.len() as u32 + (how == 2 || how == 3) as u32) as usize;
    let mut o = t[..i].to_vec();
    match how {
        0 => {
            o.push(set(&ASCII));
            o.extend_from_slice(&t[i + 1..]);
        }
        1 => {}
        2 => {
            o.push(set(&ASCII));
            o.extend_from_slice(&t[i..]);
        }
        3 => {
            o.extend_from_slice(["\u{e9}", "\u{2003}", "\u{1f600}", "\0"][choose(4) as usize].as_bytes());
            o.extend_from_slice(&t[i..]);
        }
        _ => o.extend_from_slice(&t[i + 1..]),
    }
    o
}
/// A text for type k: bits 4-7 of the argument say which.
fn some_text(k: usize, arg: u32) -> Vec<u8> {
    let how = arg >> 4 & 15;
    let n = arg >> 8 & 15;
    match how {
        0..=4 | 8.. => mangle(written(k, arg).render(), how),
        5 => (0..n).map(|_| set(&ASCII)).collect(),
        6 => {
            // the beginning of a well-formed text, then anything
            let t = written(k, arg).render();
            let i = choose2(t.len() as u32 + 1) as usize;
            let mut o = t[..i].to_vec();
            for _ in 0..n {
                o.push(set(&ASCII));
            }
            o
        }
        _ => written(k, arg).render(),
    }
}

/// Nothing panics, and what is reported about positions is true.
pub fn total(arg: u32) {
    let k = kind(arg);
    let t = some_text(k, arg);
    text(&t);
    let src = as_str(&t);
    let r = table::run(k, Span::new(src), false);
    let base = t.as_ptr();
    let what = table::TYPES[k];
    for (i, (off, line, left, ptr)) in r.at.iter().enumerate() {
        if *off + *left > t.len() || (r.ok && *off + *left != t.len()) {
            fail_at(what, "reports a position outside the text");
        }
        if base.wrapping_add(*off) != *ptr {
            fail_at(what, "reports an offset that is not that of the text it points at");
        }
        // one line number per outcome is enough
        if i == 0 {
            let mut n = 1;
            for b in &t[..*off] {
                n += (*b == b'\n') as u32;
            }
            if n != *line {
                fail_at(what, "reports the wrong line");
            }
        }
    }
    reach(1);
    reach(if r.ok { 2 } else { 3 });
}

pub fn agree(arg: u32) {
    let k = kind(arg);
    let t = some_text(k, arg);
    text(&t);
    table::check_agree(k, as_str(&t));
}

pub fn read(arg: u32) {
    let k = kind(arg);
    let p = written(k, arg);
    let t = p.render();
    text(&t);
    let r = table::run(k, Span::new(as_str(&t)), true);
    let what = table::TYPES[k];
    if !r.ok {
        fail_at(what, "rejected a well-formed text");
    }
    if r.left() != 0 {
        fail_at(what, "left a part of a well-formed text unread");
    }
    if !same(&r.dump, &p.o) {
        #[cfg(not(target_arch = "wasm32"))]
        {
            println!("expected: {}", String::from_utf8_lossy(&p.o));
            println!("got:      {}", String::from_utf8_lossy(&r.dump));
        }
        fail_at(what, "gave a syntax tree that does not say what the text says");
    }
    reach(1);
}

/// Two texts that differ in one place.
pub fn equal(arg: u32) {
    let k = kind(arg);
    let t = written(k, arg).render();
    let u = mangle(t.clone(), arg >> 4 & 15);
    let mut both = t.clone();
    both.push(b'\n');
    both.extend_from_slice(&u);
    text(&both);
    table::check_equal(k, as_str(&t), as_str(&u));
}

/// Two texts of one element; one choice of the grammar differs (bits 4-7: 0), or one name or number (1).
pub fn vary(arg: u32) {
    let k = kind(arg);
    let c = how_made(arg);
    let same = if c.mode == 0 { 3 * choose(2) } else { 255 };
    let make = |f: Frame, other: Option<u32>| {
        push(f);
        let mut p = P::new(c);
        if same < 255 {
            p.same = same;
        }
        p.other = other;
        table::generate(k, &mut p, deep(arg));
        (pop(), p)
    };
    let (tape, p) = make(Frame::Record(vec![]), None);
    let q = if arg >> 4 & 15 == 1 {
        if p.words == 0 {
            reject();
        }
        let i = choose2(p.words);
        make(Frame::Play(tape, 0), Some(i)).1
    } else {
        if tape.is_empty() {
            reject();
        }
        let place = choose2(tape.len() as u32) as usize;
        make(Frame::Change(tape, 0, place), None).1
    };
    let (t, u) = (p.render(), q.render());
    let mut both = t.clone();
    both.push(b'\n');
    both.extend_from_slice(&u);
    text(&both);
    table::check_equal(k, as_str(&t), as_str(&u));
}

/// One text, laid out in two ways.
pub fn layouts(arg: u32) {
    let k = kind(arg);
    let mut p = P::new(PLAIN);
    table::generate(k, &mut p, deep(arg));
    let t = p.render();
    p.c.layout = arg >> 4 & 15;
    let u = p.render();
    if p.known.get() {
        reject();
    }
    let mut both = t.clone();
    both.push(b'\n');
    both.extend_from_slice(&u);
    text(&both);
    table::check_equal(k, as_str(&t), as_str(&u));
}

/// The crate accepts exactly what the reference reader accepts, and reads the same in it.
pub fn refer(arg: u32) {
    let k = kind(arg);
    let t = some_text(k, arg);
    text(&t);
    let what = table::TYPES[k];
    let r = table::run(k, Span::new(as_str(&t)), true);
    let whole = r.ok && r.left() == 0;
    match crate::refer::read(what, &t) {
        None => {
            if whole {
                fail_at(what, "accepted a text that is not well-formed");
            }
            reach(2);
        }
        Some((o, apart)) => {
            if !whole {
                if apart {
                    fail_at(what, "rejected a well-formed text");
                }
                reach(3);
                return;
            }
            // what words that run into each other say depends on where one looks for them
            if apart && !same(&r.dump, &o) {
                #[cfg(not(target_arch = "wasm32"))]
                {
                    println!("expected: {}", String::from_utf8_lossy(&o));
                    println!("got:      {}", String::from_utf8_lossy(&r.dump));
                }
                fail_at(what, "gave a syntax tree that does not say what the text says");
            }
            reach(1);
        }
    }
}

/// A value made again of its parts is the same, and gives its parts back.
pub fn built(arg: u32) {
    let k = kind(arg);
    let way = choose(3);
    let t = some_text(k, arg);
    text(&t);
    // the one part of a domain that it does not give back
    let mut timeless = None;
    if table::TYPES[k] == "Domain" {
        let head = b"(:timeless";
        let mut i = 0;
        while i + head.len() <= t.len() {
            if same(&t[i..i + head.len()], head) {
                timeless = pddl::parsers::parse_timeless_def(as_str(&t[i..])).ok().map(|x| x.1);
                break;
            }
            i += 1;
        }
    }
    crate::ast::start(way, timeless);
    crate::ast::symbols();
    if table::TYPES[k] == "Domain" {
        crate::ast::timeless();
    }
    table::check_build(k, as_str(&t));
}
