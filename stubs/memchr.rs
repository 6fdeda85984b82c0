//! Stand-in for memchr 2.8.3 used ONLY in the wasm build that the symbolic
//! executor runs (see DESIGN.md, "environment").  Same results as the real
//! crate, written as plain byte loops so that one run of a search does not
//! fork once per byte of SIMD-width padding.  The native replay build links
//! the real crate.
#![no_std]
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr_iter(n: u8, h: &[u8]) -> Memchr<'_> {
    Memchr::new(n, h)
}
#[derive(Clone, Debug)]
pub struct Memchr<'h> {
    n: u8,
    h: &'h [u8],
    i: usize,
}
impl<'h> Memchr<'h> {
    pub fn new(n: u8, h: &'h [u8]) -> Memchr<'h> {
        Memchr { n, h, i: 0 }
    }
}
impl<'h> Iterator for Memchr<'h> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.i < self.h.len() {
            self.i += 1;
            if self.h[self.i - 1] == self.n {
                return Some(self.i - 1);
            }
        }
        None
    }
    // no branch per byte: the number of newlines stays one symbolic sum
    fn count(self) -> usize {
        let mut c = 0usize;
        let mut j = self.i;
        while j < self.h.len() {
            c += (self.h[j] == self.n) as usize;
            j += 1;
        }
        c
    }
}
