//! The interface between a harness and whatever runs it: the symbolic executor
//! (wasm) or the native replay binary.

#[cfg(target_arch = "wasm32")]
mod imp {
    mod host {
        #[link(wasm_import_module = "env")]
        extern "C" {
            pub fn sym_byte(lo: i32, hi: i32) -> i32;
            pub fn sym_set(mask: *const u8) -> i32;
            pub fn sym_fail(p: *const u8, n: usize);
            pub fn sym_known(p: *const u8, n: usize);
            pub fn sym_reject();
            pub fn sym_reach(id: i32);
            pub fn sym_text(p: *const u8, n: usize);
            pub fn sym_pin(v: i32) -> i32;
            pub fn sym_is_symbolic(v: i32) -> i32;
        }
    }
    pub fn byte(lo: u8, hi: u8) -> u8 {
        unsafe { host::sym_byte(lo as i32, hi as i32) as u8 }
    }
    pub fn set(mask: &[u8; 32]) -> u8 {
        unsafe { host::sym_set(mask.as_ptr()) as u8 }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { host::sym_fail(m.as_ptr(), m.len()) };
        loop {}
    }
    pub fn known(m: &str) {
        unsafe { host::sym_known(m.as_ptr(), m.len()) };
    }
    pub fn reject() -> ! {
        unsafe { host::sym_reject() };
        loop {}
    }
    pub fn reach(id: u32) {
        unsafe { host::sym_reach(id as i32) };
    }
    pub fn text(t: &[u8]) {
        unsafe { host::sym_text(t.as_ptr(), t.len()) };
    }
    pub fn pin(v: u8) -> u8 {
        unsafe { host::sym_pin(v as i32) as u8 }
    }
    pub fn is_symbolic(v: u8) -> bool {
        unsafe { host::sym_is_symbolic(v as i32) != 0 }
    }

    // allocation never fails and is never reused within a run
    struct Bump;
    static mut NEXT: usize = 0;
    extern "C" {
        static __heap_base: u8;
    }
    unsafe impl core::alloc::GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
            if NEXT == 0 {
                NEXT = core::ptr::addr_of!(__heap_base) as usize;
            }
            let p = (NEXT + l.align() - 1) & !(l.align() - 1);
            NEXT = p + l.size();
            let have = core::arch::wasm32::memory_size(0) << 16;
            if NEXT > have {
                let pages = ((NEXT - have) >> 16) + 16;
                core::arch::wasm32::memory_grow(0, pages);
            }
            p as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) {
            // give the top block back, so that growing the last Vec is cheap
            if p as usize + l.size() == NEXT {
                NEXT = p as usize;
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: core::alloc::Layout, n: usize) -> *mut u8 {
            if p as usize + l.size() == NEXT && n >= l.size() {
                NEXT = p as usize;
                let nl = core::alloc::Layout::from_size_align_unchecked(n, l.align());
                return self.alloc(nl);
            }
            let nl = core::alloc::Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            core::ptr::copy_nonoverlapping(p, q, if n < l.size() { n } else { l.size() });
            q
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
}

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    use std::cell::RefCell;
    pub struct State {
        pub model: Vec<u8>,
        pub next: usize,
        pub text: Vec<u8>,
        pub known: Vec<String>,
    }
    thread_local! {
        pub static S: RefCell<State> = RefCell::new(State { model: vec![], next: 0, text: vec![], known: vec![] });
    }
    fn next(d: u8) -> u8 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.next;
            s.next += 1;
            s.model.get(i).copied().unwrap_or(d)
        })
    }
    pub fn byte(lo: u8, hi: u8) -> u8 {
        let b = next(lo);
        assert!(
            b >= lo && b <= hi,
            "HARNESS: model byte {b} outside {lo}..={hi}"
        );
        b
    }
    pub fn set(mask: &[u8; 32]) -> u8 {
        let d = (0..=255u8)
            .find(|b| mask[*b as usize / 8] >> (b % 8) & 1 == 1)
            .expect("empty set");
        let b = next(d);
        assert!(
            mask[b as usize / 8] >> (b % 8) & 1 == 1,
            "HARNESS: model byte {b} outside the set"
        );
        b
    }
    pub fn show() {
        S.with(|s| {
            let s = s.borrow();
            println!("input: {:?}", String::from_utf8_lossy(&s.text));
            for k in &s.known {
                println!("KNOWN {k}");
            }
        });
    }
    pub fn fail(m: &str) -> ! {
        show();
        println!("FAILED: {m}");
        std::process::exit(1);
    }
    pub fn known(m: &str) {
        S.with(|s| s.borrow_mut().known.push(m.to_string()));
    }
    pub fn reject() -> ! {
        show();
        println!("REJECTED");
        std::process::exit(3);
    }
    pub fn reach(_id: u32) {}
    pub fn text(t: &[u8]) {
        S.with(|s| s.borrow_mut().text = t.to_vec());
    }
    pub fn pin(v: u8) -> u8 {
        v
    }
    pub fn is_symbolic(_v: u8) -> bool {
        false
    }
}
pub use imp::*;

/// Earlier choices, recorded and taken again.
pub enum Frame {
    Record(Vec<u8>),
    Play(Vec<u8>, usize),
    /// as played, but the choice at this place comes out differently
    Change(Vec<u8>, usize, usize),
}
static mut FRAMES: Vec<Frame> = Vec::new();
#[allow(static_mut_refs)]
fn frames() -> &'static mut Vec<Frame> {
    // SAFETY: one thread, and no reference outlives a call below
    unsafe { &mut FRAMES }
}
pub fn push(f: Frame) {
    frames().push(f)
}
pub fn pop() -> Vec<u8> {
    match frames().pop() {
        Some(Frame::Record(t) | Frame::Play(t, _) | Frame::Change(t, _, _)) => t,
        None => vec![],
    }
}
fn fresh(n: u8) -> u8 {
    if n <= 1 {
        return 0;
    }
    pin(byte(0, n - 1))
}
fn choose_at(i: usize, n: u8) -> u8 {
    if i == 0 {
        return fresh(n);
    }
    let old = |t: &Vec<u8>, at: usize| t.get(at).copied().filter(|v| *v < n.max(1)).unwrap_or(0);
    match &mut frames()[i - 1] {
        Frame::Record(_) => {}
        Frame::Play(t, at) => {
            *at += 1;
            return old(t, *at - 1);
        }
        Frame::Change(t, at, place) => {
            *at += 1;
            let v = old(t, *at - 1);
            if *at - 1 == *place {
                if n <= 1 {
                    reject();
                }
                let by = 1 + fresh(n - 1) as u32;
                return ((v as u32 + by) % n as u32) as u8;
            }
            return v;
        }
    }
    let v = choose_at(i - 1, n);
    if let Frame::Record(t) = &mut frames()[i - 1] {
        t.push(v);
    }
    v
}
/// A choice among n alternatives, one symbolic byte.
pub fn choose(n: u8) -> u8 {
    choose_at(frames().len(), n)
}

pub const fn mask_of(s: &[u8]) -> [u8; 32] {
    let mut m = [0u8; 32];
    let mut i = 0;
    while i < s.len() {
        m[s[i] as usize / 8] |= 1 << (s[i] % 8);
        i += 1;
    }
    m
}
pub const fn range(mut m: [u8; 32], lo: u8, hi: u8) -> [u8; 32] {
    let mut b = lo as usize;
    while b <= hi as usize {
        m[b / 8] |= 1 << (b % 8);
        b += 1;
    }
    m
}
pub const ALPHA: [u8; 32] = range(range([0; 32], b'a', b'z'), b'A', b'Z');
pub const NAMECH: [u8; 32] = range(
    range(range(mask_of(b"-_"), b'a', b'z'), b'A', b'Z'),
    b'0',
    b'9',
);
pub const DIGIT: [u8; 32] = range([0; 32], b'0', b'9');
pub const ASCII: [u8; 32] = range(mask_of(b"\t\r\n"), 32, 126);

/// a == b with one condition over all bytes.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
