//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::fmt::Write;

pub type Id = u32; // 0 = none
pub const MAXV: usize = 128;
pub type Sup = [u64; 2];
pub type Dom = [u64; 4];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const, Var, Zext, Sext, Extract, Concat,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Rotl, Rotr,
    Eq, Ult, Slt, Not, BAnd, BOr, Ite, Clz, Ctz, Popcnt,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub v: u64, // Const value, Var index, Extract low bit
    pub sup: Sup,
    pub hash: u64,  // named structural hash
    pub ahash: u64, // structural hash with the only variable anonymised (single-var nodes)
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
pub fn sext(v: u64, w: u8) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}
pub fn mixh(h: u64, x: u64) -> u64 {
    mix(h.rotate_left(5).wrapping_add(0x1234567), x)
}

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<(K, u8, Id, Id, Id, u64), Id>,
    tabs: HashMap<Id, Dom>,
    memo: HashMap<Id, u64>,
}

pub fn sup_count(s: &Sup) -> u32 {
    s[0].count_ones() + s[1].count_ones()
}
pub fn sup_first(s: &Sup) -> usize {
    if s[0] != 0 { s[0].trailing_zeros() as usize } else { 64 + s[1].trailing_zeros() as usize }
}
pub fn sup_has(s: &Sup, i: usize) -> bool {
    s[i / 64] >> (i % 64) & 1 == 1
}
pub fn sup_iter(s: &Sup) -> impl Iterator<Item = usize> + '_ {
    (0..MAXV).filter(move |i| sup_has(s, *i))
}

pub fn apply(k: K, w: u8, aw: u8, a: u64, b: u64, c: u64, v: u64, bw: u8) -> u64 {
    let m = mask(w);
    let r = match k {
        K::Const | K::Var => v,
        K::Zext => a,
        K::Sext => sext(a, aw) as u64,
        K::Extract => a >> v,
        K::Concat => (a << bw) | b,
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => if b == 0 { m } else { a / b },
        K::URem => if b == 0 { a } else { a % b },
        K::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u64 }
        }
        K::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u64 }
        }
        K::And | K::BAnd => a & b,
        K::Or | K::BOr => a | b,
        K::Xor => a ^ b,
        K::Shl => if b >= w as u64 { 0 } else { a << b },
        K::LShr => if b >= w as u64 { 0 } else { a >> b },
        K::AShr => (sext(a, w) >> b.min(63)) as u64,
        K::Rotl => {
            let s = (b % w as u64) as u32;
            if s == 0 { a } else { (a << s) | (a >> (w as u32 - s)) }
        }
        K::Rotr => {
            let s = (b % w as u64) as u32;
            if s == 0 { a } else { (a >> s) | (a << (w as u32 - s)) }
        }
        K::Eq => (a == b) as u64,
        K::Ult => (a < b) as u64,
        K::Slt => (sext(a, aw) < sext(b, aw)) as u64,
        K::Not => a ^ 1,
        K::Ite => if a != 0 { b } else { c },
        K::Clz => if a == 0 { w as u64 } else { (a.leading_zeros() - (64 - w as u32)) as u64 },
        K::Ctz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
        K::Popcnt => a.count_ones() as u64,
    };
    r & m
}

impl Arena {
    pub fn new() -> Self {
        let z = Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, v: 0, sup: [0; 2], hash: 0, ahash: 0 };
        Arena { n: vec![z], map: HashMap::new(), tabs: HashMap::new(), memo: HashMap::new() }
    }
    fn raw(&mut self, k: K, w: u8, a: Id, b: Id, c: Id, v: u64) -> Id {
        let key = (k, w, a, b, c, v);
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let (mut sup, mut hash, mut ah) = ([0u64; 2], mix(k as u64 + 1, w as u64), mix(k as u64 + 77, w as u64));
        if k == K::Var {
            sup[v as usize / 64] |= 1 << (v % 64);
            hash = mixh(hash, v);
        } else {
            hash = mixh(hash, v);
            ah = mixh(ah, v);
        }
        for x in [a, b, c] {
            if x != 0 {
                let q = &self.n[x as usize];
                sup[0] |= q.sup[0];
                sup[1] |= q.sup[1];
                hash = mixh(hash, q.hash);
                ah = mixh(ah, q.ahash);
            } else {
                hash = mixh(hash, 3);
                ah = mixh(ah, 3);
            }
        }
        let id = self.n.len() as Id;
        self.n.push(Node { k, w, a, b, c, v, sup, hash, ahash: ah });
        self.map.insert(key, id);
        id
    }
    #[inline]
    pub fn node(&self, i: Id) -> &Node {
        &self.n[i as usize]
    }
    pub fn w(&self, i: Id) -> u8 {
        self.n[i as usize].w
    }
    pub fn konst(&mut self, w: u8, v: u64) -> Id {
        self.raw(K::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, i: usize) -> Id {
        self.raw(K::Var, 8, 0, 0, 0, i as u64)
    }
    pub fn as_const(&self, i: Id) -> Option<u64> {
        let n = &self.n[i as usize];
        if n.k == K::Const { Some(n.v) } else { None }
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let n = *self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => self.konst(w, n.v),
            K::Zext => self.zext(n.a, w),
            _ => self.raw(K::Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let n = *self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => self.konst(w, sext(n.v, n.w) as u64),
            K::Zext => self.zext(n.a, w),
            K::Sext => self.sext(n.a, w),
            _ => self.raw(K::Sext, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let n = *self.node(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.k {
            K::Const => return self.konst(w, n.v >> lo),
            K::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            K::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            K::Extract => return self.extract(n.a, n.v as u8 + lo, w),
            K::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.k, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.k, x, y);
            }
            K::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.raw(K::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (h, l) = (*self.node(hi), *self.node(lo));
        let w = h.w + l.w;
        if h.k == K::Const && l.k == K::Const {
            return self.konst(w, (h.v << l.w) | l.v);
        }
        if h.k == K::Const && h.v == 0 {
            return self.zext(lo, w);
        }
        if h.k == K::Extract && l.k == K::Extract && h.a == l.a && h.v == l.v + l.w as u64 {
            return self.extract(h.a, l.v as u8, w);
        }
        if h.k == K::Zext {
            let inner = self.concat(h.a, lo);
            return self.zext(inner, w);
        }
        self.raw(K::Concat, w, hi, lo, 0, 0)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = *self.node(a);
        match n.k {
            K::Const => self.konst(1, n.v ^ 1),
            K::Not => n.a,
            _ => self.raw(K::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn band(&mut self, a: Id, b: Id) -> Id {
        match (self.as_const(a), self.as_const(b)) {
            (Some(0), _) | (_, Some(0)) => return self.konst(1, 0),
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        self.raw(K::BAnd, 1, a, b, 0, 0)
    }
    pub fn bor(&mut self, a: Id, b: Id) -> Id {
        match (self.as_const(a), self.as_const(b)) {
            (Some(1), _) | (_, Some(1)) => return self.konst(1, 1),
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        self.raw(K::BOr, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        if self.node(c).k == K::Not {
            let i = self.node(c).a;
            return self.ite(i, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.band(nc, b);
                }
                (Some(_), _) => return self.bor(c, b),
                (_, Some(0)) => return self.band(c, a),
                (_, Some(_)) => {
                    let nc = self.not(c);
                    return self.bor(nc, a);
                }
                _ => {}
            }
        } else if let (Some(1), Some(0)) = (self.as_const(a), self.as_const(b)) {
            return self.zext(c, w);
        } else if let (Some(0), Some(1)) = (self.as_const(a), self.as_const(b)) {
            let nc = self.not(c);
            return self.zext(nc, w);
        }
        self.raw(K::Ite, w, c, a, b, 0)
    }
    /// the bool "a != 0"
    pub fn nonzero(&mut self, a: Id) -> Id {
        let n = *self.node(a);
        if n.w == 1 {
            return a;
        }
        match n.k {
            K::Const => self.konst(1, (n.v != 0) as u64),
            K::Zext => self.nonzero(n.a),
            K::Or | K::Concat => {
                let x = self.nonzero(n.a);
                let y = self.nonzero(n.b);
                self.bor(x, y)
            }
            K::And => {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    if self.as_const(y) == Some(1) {
                        return self.extract(x, 0, 1);
                    }
                }
                let z = self.konst(n.w, 0);
                let e = self.raw(K::Eq, 1, a, z, 0, 0);
                self.not(e)
            }
            K::Xor | K::Sub => {
                let e = self.eq(n.a, n.b);
                self.not(e)
            }
            K::Ite => {
                let x = self.nonzero(n.b);
                let y = self.nonzero(n.c);
                self.ite(n.a, x, y)
            }
            _ => {
                let z = self.konst(n.w, 0);
                let e = self.raw(K::Eq, 1, a, z, 0, 0);
                self.not(e)
            }
        }
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let (x, y) = (*self.node(a), *self.node(b));
        if x.w == 1 {
            return match y.k {
                K::Const => if y.v == 1 { a } else { self.not(a) },
                _ => if self.node(a).hash <= self.node(b).hash { self.raw(K::Eq, 1, a, b, 0, 0) } else { self.raw(K::Eq, 1, b, a, 0, 0) },
            };
        }
        if y.k == K::Const {
            if x.k == K::Const {
                return self.konst(1, (x.v == y.v) as u64);
            }
            if y.v == 0 {
                let nz = self.nonzero(a);
                return self.not(nz);
            }
            match x.k {
                K::Zext => {
                    let iw = self.w(x.a);
                    if y.v > mask(iw) {
                        return self.konst(1, 0);
                    }
                    let c = self.konst(iw, y.v);
                    return self.eq(x.a, c);
                }
                K::Concat => {
                    let lw = self.w(x.b);
                    let hw = self.w(x.a);
                    let cl = self.konst(lw, y.v);
                    let ch = self.konst(hw, y.v >> lw);
                    let p = self.eq(x.b, cl);
                    let q = self.eq(x.a, ch);
                    return self.band(p, q);
                }
                K::Add => {
                    if let Some(k) = self.as_const(x.b) {
                        let c = self.konst(x.w, y.v.wrapping_sub(k));
                        return self.eq(x.a, c);
                    }
                }
                K::Xor => {
                    if let Some(k) = self.as_const(x.b) {
                        let c = self.konst(x.w, y.v ^ k);
                        return self.eq(x.a, c);
                    }
                }
                K::Ite => {
                    if self.as_const(x.b).is_some() || self.as_const(x.c).is_some() {
                        let p = self.eq(x.b, b);
                        let q = self.eq(x.c, b);
                        return self.ite(x.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if x.k == K::Zext && y.k == K::Zext && self.w(x.a) == self.w(y.a) {
                return self.eq(x.a, y.a);
            }
            if x.k == K::Concat && y.k == K::Concat && self.w(x.a) == self.w(y.a) {
                let p = self.eq(x.b, y.b);
                let q = self.eq(x.a, y.a);
                return self.band(p, q);
            }
            if x.hash > y.hash {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(K::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 0);
        }
        let (x, y) = (*self.node(a), *self.node(b));
        if let (K::Const, K::Const) = (x.k, y.k) {
            return self.konst(1, (x.v < y.v) as u64);
        }
        if y.k == K::Const {
            if y.v == 0 {
                return self.konst(1, 0);
            }
            if y.v == 1 {
                let z = self.konst(x.w, 0);
                return self.eq(a, z);
            }
            if x.k == K::Zext {
                let iw = self.w(x.a);
                if y.v > mask(iw) {
                    return self.konst(1, 1);
                }
                let c = self.konst(iw, y.v);
                return self.ult(x.a, c);
            }
        }
        if x.k == K::Const {
            if x.v == mask(x.w) {
                return self.konst(1, 0);
            }
            if x.v == 0 {
                return self.nonzero(b);
            }
            if y.k == K::Zext {
                let iw = self.w(y.a);
                if x.v >= mask(iw) {
                    return self.konst(1, 0);
                }
                let c = self.konst(iw, x.v);
                return self.ult(c, y.a);
            }
        }
        if x.k == K::Zext && y.k == K::Zext && self.w(x.a) == self.w(y.a) {
            return self.ult(x.a, y.a);
        }
        self.raw(K::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 0);
        }
        let (x, y) = (*self.node(a), *self.node(b));
        if let (K::Const, K::Const) = (x.k, y.k) {
            return self.konst(1, (sext(x.v, x.w) < sext(y.v, y.w)) as u64);
        }
        // both known non-negative -> unsigned
        let nn = |n: &Node| n.k == K::Zext || (n.k == K::Const && n.v >> (n.w - 1) == 0);
        if nn(&x) && nn(&y) {
            return self.ult(a, b);
        }
        if nn(&x) && y.k == K::Const {
            return self.konst(1, 0);
        }
        if nn(&y) && x.k == K::Const {
            return self.konst(1, 1);
        }
        if x.k == K::Sext && y.k == K::Const {
            let iw = self.w(x.a);
            let k = sext(y.v, y.w);
            let (lo, hi) = (-(1i64 << (iw - 1)), (1i64 << (iw - 1)) - 1);
            if k > hi {
                return self.konst(1, 1);
            }
            if k <= lo {
                return self.konst(1, 0);
            }
            let c = self.konst(iw, k as u64);
            return self.slt(x.a, c);
        }
        if y.k == K::Sext && x.k == K::Const {
            let iw = self.w(y.a);
            let k = sext(x.v, x.w);
            let (lo, hi) = (-(1i64 << (iw - 1)), (1i64 << (iw - 1)) - 1);
            if k >= hi {
                return self.konst(1, 0);
            }
            if k < lo {
                return self.konst(1, 1);
            }
            let c = self.konst(iw, k as u64);
            return self.slt(c, y.a);
        }
        self.raw(K::Slt, 1, a, b, 0, 0)
    }
    fn bytes_of(&mut self, a: Id, out: &mut Vec<Id>) -> bool {
        let n = *self.node(a);
        if n.w % 8 != 0 {
            return false;
        }
        match n.k {
            K::Const => {
                for i in 0..n.w / 8 {
                    let c = self.konst(8, n.v >> (8 * i));
                    out.push(c);
                }
                true
            }
            K::Zext => {
                if self.w(n.a) % 8 != 0 {
                    return false;
                }
                if !self.bytes_of(n.a, out) {
                    return false;
                }
                let z = self.konst(8, 0);
                for _ in 0..(n.w - self.w(n.a)) / 8 {
                    out.push(z);
                }
                true
            }
            K::Concat => {
                if self.w(n.b) % 8 != 0 {
                    return false;
                }
                self.bytes_of(n.b, out) && self.bytes_of(n.a, out)
            }
            _ if n.w == 8 => {
                out.push(a);
                true
            }
            _ => false,
        }
    }
    pub fn bin(&mut self, k: K, a: Id, b: Id) -> Id {
        let (x, y) = (*self.node(a), *self.node(b));
        let w = x.w;
        if let (K::Const, K::Const) = (x.k, y.k) {
            return self.konst(w, apply(k, w, w, x.v, y.v, 0, 0, w));
        }
        let (mut a, mut b, mut x, mut y) = (a, b, x, y);
        if x.k == K::Const && matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut x, &mut y);
        }
        if w == 1 {
            match k {
                K::And | K::Mul => return self.band(a, b),
                K::Or => return self.bor(a, b),
                K::Xor | K::Add | K::Sub => {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                _ => {}
            }
        }
        let c = if y.k == K::Const { Some(y.v) } else { None };
        match k {
            K::Add => {
                if c == Some(0) {
                    return a;
                }
                if let Some(c) = c {
                    if x.k == K::Add {
                        if let Some(c2) = self.as_const(x.b) {
                            let s = self.konst(w, c.wrapping_add(c2));
                            return self.bin(K::Add, x.a, s);
                        }
                    }
                }
            }
            K::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = c {
                    let s = self.konst(w, 0u64.wrapping_sub(c));
                    return self.bin(K::Add, a, s);
                }
            }
            K::Mul => {
                if c == Some(0) {
                    return b;
                }
                if c == Some(1) {
                    return a;
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = c {
                    if c == 0 {
                        return b;
                    }
                    if c == mask(w) {
                        return a;
                    }
                    if x.k == K::Zext {
                        let iw = self.w(x.a);
                        let cc = self.konst(iw, c);
                        let i = self.bin(K::And, x.a, cc);
                        return self.zext(i, w);
                    }
                    if (c & c.wrapping_add(1)) == 0 {
                        let bits = c.count_ones() as u8;
                        let e = self.extract(a, 0, bits);
                        return self.zext(e, w);
                    }
                }
                if x.k == K::Zext && y.k == K::Zext && self.w(x.a) == self.w(y.a) {
                    let i = self.bin(K::And, x.a, y.a);
                    return self.zext(i, w);
                }
            }
            K::Or | K::Xor => {
                if a == b {
                    return if k == K::Or { a } else { self.konst(w, 0) };
                }
                if c == Some(0) {
                    return a;
                }
                if k == K::Or && c == Some(mask(w)) {
                    return b;
                }
                if x.k == K::Zext && y.k == K::Zext && self.w(x.a) == self.w(y.a) {
                    let i = self.bin(k, x.a, y.a);
                    return self.zext(i, w);
                }
                if let (K::Xor, K::Zext, Some(c)) = (k, x.k, c) {
                    let iw = self.w(x.a);
                    if c <= mask(iw) {
                        let cc = self.konst(iw, c);
                        let i = self.bin(K::Xor, x.a, cc);
                        return self.zext(i, w);
                    }
                }
                if w >= 16 {
                    let (mut p, mut q) = (vec![], vec![]);
                    if self.bytes_of(a, &mut p) && self.bytes_of(b, &mut q) {
                        let z = self.konst(8, 0);
                        let any_zero = p.iter().zip(&q).all(|(s, t)| *s == z || *t == z);
                        if any_zero {
                            let mut r = 0;
                            for (s, t) in p.iter().zip(&q) {
                                let e = if *s == z { *t } else { *s };
                                r = if r == 0 { e } else { self.concat(e, r) };
                            }
                            return r;
                        }
                    }
                }
            }
            K::Shl => {
                if let Some(c) = c {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u64 {
                        return self.konst(w, 0);
                    }
                    let h = self.extract(a, 0, w - c as u8);
                    let l = self.konst(c as u8, 0);
                    return self.concat(h, l);
                }
            }
            K::LShr => {
                if let Some(c) = c {
                    if c >= w as u64 {
                        return self.konst(w, 0);
                    }
                    let h = self.extract(a, c as u8, w - c as u8);
                    return self.zext(h, w);
                }
            }
            K::AShr => {
                if let Some(c) = c {
                    let c = c.min(w as u64 - 1) as u8;
                    let h = self.extract(a, c, w - c);
                    return self.sext(h, w);
                }
            }
            K::Rotl => {
                if let Some(c) = c {
                    let c = (c % w as u64) as u8;
                    if c == 0 {
                        return a;
                    }
                    let l = self.extract(a, w - c, c);
                    let h = self.extract(a, 0, w - c);
                    return self.concat(h, l);
                }
            }
            K::Rotr => {
                if let Some(c) = c {
                    let c = (c % w as u64) as u8;
                    if c == 0 {
                        return a;
                    }
                    let l = self.extract(a, c, w - c);
                    let h = self.extract(a, 0, c);
                    return self.concat(h, l);
                }
            }
            K::UDiv | K::URem => {
                if let Some(c) = c {
                    if c == 1 {
                        return if k == K::UDiv { a } else { self.konst(w, 0) };
                    }
                }
            }
            _ => {}
        }
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor) && y.k != K::Const && self.node(a).hash > self.node(b).hash {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(k, w, a, b, 0, 0)
    }
    pub fn un(&mut self, k: K, a: Id) -> Id {
        let n = *self.node(a);
        if n.k == K::Const {
            return self.konst(n.w, apply(k, n.w, n.w, n.v, 0, 0, 0, 0));
        }
        self.raw(k, n.w, a, 0, 0, 0)
    }

    /// concrete evaluation under a full assignment
    pub fn eval(&mut self, e: Id, f: &dyn Fn(usize) -> u8) -> u64 {
        self.memo.clear();
        self.ev(e, f)
    }
    fn ev(&mut self, e: Id, f: &dyn Fn(usize) -> u8) -> u64 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return f(n.v as usize) as u64,
            _ => {}
        }
        if let Some(v) = self.memo.get(&e) {
            return *v;
        }
        let a = self.ev(n.a, f);
        let r = if n.k == K::Ite {
            if a != 0 { self.ev(n.b, f) } else { self.ev(n.c, f) }
        } else {
            let b = if n.b != 0 { self.ev(n.b, f) } else { 0 };
            let bw = if n.b != 0 { self.w(n.b) } else { 0 };
            let aw = self.w(n.a);
            apply(n.k, n.w, aw, a, b, 0, n.v, bw)
        };
        self.memo.insert(e, r);
        r
    }
    /// truth set of a single-variable boolean
    pub fn truth(&mut self, e: Id) -> Dom {
        if let Some(d) = self.tabs.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        for v in 0..256usize {
            if self.eval(e, &|_| v as u8) != 0 {
                d[v / 64] |= 1 << (v % 64);
            }
        }
        self.tabs.insert(e, d);
        d
    }
    /// SMT-LIB term; `defs` receives `(define-fun ...)` lines for shared nodes
    pub fn smt(&self, e: Id, done: &mut HashMap<Id, ()>, defs: &mut String) -> String {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return format!("(_ bv{} {})", n.v, n.w),
            K::Var => return format!("x{}", n.v),
            _ => {}
        }
        if done.contains_key(&e) {
            return format!("n{e}");
        }
        let a = self.smt(n.a, done, defs);
        let b = if n.b != 0 { self.smt(n.b, done, defs) } else { String::new() };
        let c = if n.c != 0 { self.smt(n.c, done, defs) } else { String::new() };
        let bv = |s: String| format!("(ite {s} (_ bv1 1) (_ bv0 1))");
        let t = match n.k {
            K::Zext => format!("((_ zero_extend {}) {a})", n.w - self.w(n.a)),
            K::Sext => format!("((_ sign_extend {}) {a})", n.w - self.w(n.a)),
            K::Extract => format!("((_ extract {} {}) {a})", n.v + n.w as u64 - 1, n.v),
            K::Concat => format!("(concat {a} {b})"),
            K::Add => format!("(bvadd {a} {b})"),
            K::Sub => format!("(bvsub {a} {b})"),
            K::Mul => format!("(bvmul {a} {b})"),
            K::UDiv => format!("(bvudiv {a} {b})"),
            K::SDiv => format!("(bvsdiv {a} {b})"),
            K::URem => format!("(bvurem {a} {b})"),
            K::SRem => format!("(bvsrem {a} {b})"),
            K::And | K::BAnd => format!("(bvand {a} {b})"),
            K::Or | K::BOr => format!("(bvor {a} {b})"),
            K::Xor => format!("(bvxor {a} {b})"),
            K::Shl => format!("(bvshl {a} {b})"),
            K::LShr => format!("(bvlshr {a} {b})"),
            K::AShr => format!("(bvashr {a} {b})"),
            K::Rotl | K::Rotr => {
                let w = n.w;
                let (s1, s2) = if n.k == K::Rotl { ("bvshl", "bvlshr") } else { ("bvlshr", "bvshl") };
                let r = format!("(bvurem {b} (_ bv{w} {w}))");
                format!("(bvor ({s1} {a} {r}) ({s2} {a} (bvsub (_ bv{w} {w}) {r})))")
            }
            K::Eq => bv(format!("(= {a} {b})")),
            K::Ult => bv(format!("(bvult {a} {b})")),
            K::Slt => bv(format!("(bvslt {a} {b})")),
            K::Not => format!("(bvnot {a})"),
            K::Ite => format!("(ite (= {a} (_ bv1 1)) {b} {c})"),
            K::Clz | K::Ctz => {
                let w = n.w;
                let mut s = format!("(_ bv{w} {w})");
                for j in 0..w {
                    // last wrapped is tested first
                    let (bit, val) = if n.k == K::Clz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                    s = format!("(ite (= ((_ extract {bit} {bit}) {a}) (_ bv1 1)) (_ bv{val} {w}) {s})");
                }
                s
            }
            K::Popcnt => {
                let w = n.w;
                let mut s = format!("(_ bv0 {w})");
                for j in 0..w {
                    s = format!("(bvadd {s} ((_ zero_extend {}) ((_ extract {j} {j}) {a})))", w - 1);
                }
                s
            }
            K::Const | K::Var => unreachable!(),
        };
        writeln!(defs, "(define-fun n{e} () (_ BitVec {}) {t})", n.w).unwrap();
        done.insert(e, ());
        format!("n{e}")
    }
}
