//! Concolic (generational) symbolic executor over the lowered wasm code.
//! Every worker re-executes the module from a fresh snapshot for each work
//! item; a work item is an input model plus the number of leading decisions
//! that were already expanded by an ancestor.
use crate::expr::*;
use crate::wasm::*;
use crate::z3::{Res, Solver};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, RwLock};
use std::time::Instant;

pub const MEM: usize = 192 << 20;
const PG: usize = 4096;
const STACK: usize = 1 << 20;

#[derive(Clone, Copy)]
pub struct V {
    pub c: u64,
    pub e: Id,
}
#[inline(always)]
fn cv(c: u64) -> V {
    V { c, e: 0 }
}

#[derive(Clone, Debug)]
pub struct Item {
    pub model: Vec<u8>,
    pub depth: u32,
    pub hash: u64,
}

#[derive(Debug)]
pub enum End {
    Ok,
    Reject,
    Violation(String),
    Known(String),
    Incomplete(String),
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub msg: String,
    pub model: Vec<u8>,
    pub text: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64,
    pub rejected: AtomicU64,
    pub instrs: AtomicU64,
    pub decisions: AtomicU64,
    pub forks: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_cached: AtomicU64,
    pub pruned: AtomicU64,
    pub z3_us: AtomicU64,
    pub max_decisions: AtomicU64,
    pub max_vars: AtomicU64,
    pub max_path_instrs: AtomicU64,
}

pub struct Shared<'m> {
    pub m: &'m Module,
    pub init: Vec<u8>,
    pub entry: usize,
    pub arg: u32,
    pub queue: Mutex<(Vec<Item>, usize)>, // items, idle workers
    pub cond: Condvar,
    pub idle: AtomicUsize,
    pub nworkers: usize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub timed_out: AtomicBool,
    pub stats: Stats,
    pub cache: RwLock<HashSet<u64>>,
    pub findings: Mutex<Vec<Finding>>,
    pub known: Mutex<Vec<Finding>>,
    pub incomplete: Mutex<Vec<String>>,
    pub samples: Mutex<Vec<(Vec<u8>, Vec<u8>)>>,
    pub reach: Mutex<HashMap<u32, u64>>,
    pub entered: Vec<AtomicBool>,
    pub symbolic_in: Vec<AtomicBool>,
    pub sites: Mutex<HashMap<(u32, u32), u64>>,
    pub prof: bool,
    pub max_path_instrs: u64,
    pub max_findings: usize,
    pub random: bool,
    pub seed: u64,
}

struct Frame {
    func: u32,
    pc: u32,
    base: u32, // index of locals in stack
}

pub struct Worker<'a, 'm> {
    sh: &'a Shared<'m>,
    ar: Arena,
    z3: Option<Solver>,
    mem: Vec<u8>,
    msize: usize,
    dirty: Vec<bool>,
    dirty_list: Vec<u32>,
    shidx: Vec<u32>,
    shpool: Vec<Box<[u64; PG]>>,
    shfree: Vec<u32>,
    shused: Vec<u32>,
    stack: Vec<V>,
    globals: Vec<V>,
    // path state
    item: Item,
    vals: Vec<u8>,
    dom0: Vec<Dom>,
    dom: Vec<Dom>,
    cons: Vec<Vec<(Id, bool)>>,
    mcons: Vec<(Id, bool)>,
    multi: Vec<bool>,
    decided: HashMap<Id, bool>,
    k: u32,
    phash: u64,
    local: Vec<Item>,
    lcache: HashSet<u64>,
    text: Vec<u8>,
    cur: (u32, u32),
    frames: Vec<Frame>,
    entered: Vec<bool>,
    symin: Vec<bool>,
    sites: HashMap<(u32, u32), u64>,
    reach: HashMap<u32, u64>,
    rng: u64,
}

fn dempty(d: &Dom) -> bool {
    d.iter().all(|x| *x == 0)
}
fn dand(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dnot(a: &Dom) -> Dom {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn dfirst(d: &Dom) -> u8 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i * 64) as u8 + d[i].trailing_zeros() as u8;
        }
    }
    unreachable!()
}
fn dsize(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dhas(d: &Dom, v: u8) -> bool {
    d[v as usize / 64] >> (v % 64) & 1 == 1
}

impl<'a, 'm> Worker<'a, 'm> {
    pub fn new(sh: &'a Shared<'m>, idx: usize) -> Self {
        Worker {
            sh,
            ar: Arena::new(),
            z3: None,
            mem: vec![0u8; MEM],
            msize: 0,
            dirty: vec![false; MEM / PG],
            dirty_list: vec![],
            shidx: vec![0; MEM / PG + 1],
            shpool: vec![Box::new([0; PG])],
            shfree: vec![],
            shused: vec![],
            stack: vec![cv(0); STACK],
            globals: vec![],
            item: Item { model: vec![], depth: 0, hash: 0 },
            vals: vec![],
            dom0: vec![],
            dom: vec![],
            cons: vec![],
            mcons: vec![],
            multi: vec![],
            decided: HashMap::new(),
            k: 0,
            phash: 0,
            local: vec![],
            lcache: HashSet::new(),
            text: vec![],
            cur: (0, 0),
            frames: vec![],
            entered: vec![false; sh.m.funcs.len()],
            symin: vec![false; sh.m.funcs.len()],
            sites: HashMap::new(),
            reach: HashMap::new(),
            rng: sh.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (idx as u64 + 1),
        }
    }

    pub fn work(&mut self) {
        self.mem[..self.sh.init.len()].copy_from_slice(&self.sh.init);
        'outer: loop {
            let item = if let Some(i) = self.take_local() {
                i
            } else {
                let mut g = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) {
                        break 'outer;
                    }
                    if let Some(i) = g.0.pop() {
                        break i;
                    }
                    g.1 += 1;
                    self.sh.idle.store(g.1, Relaxed);
                    if g.1 == self.sh.nworkers {
                        self.sh.stop.store(true, Relaxed);
                        self.sh.cond.notify_all();
                        break 'outer;
                    }
                    g = self.sh.cond.wait(g).unwrap();
                    g.1 -= 1;
                    self.sh.idle.store(g.1, Relaxed);
                }
            };
            if Instant::now() > self.sh.deadline {
                self.sh.timed_out.store(true, Relaxed);
                self.sh.stop.store(true, Relaxed);
                let _g = self.sh.queue.lock().unwrap();
                self.sh.cond.notify_all();
            }
            if self.sh.stop.load(Relaxed) {
                break;
            }
            self.run_item(item);
            if self.local.len() > 1 && self.sh.idle.load(Relaxed) > 0 {
                let n = self.local.len() / 2;
                let give: Vec<Item> = self.local.drain(..n).collect();
                let mut g = self.sh.queue.lock().unwrap();
                g.0.extend(give);
                self.sh.cond.notify_all();
            }
            if self.ar.n.len() > 4_000_000 {
                self.ar = Arena::new();
                self.lcache.clear();
            }
        }
        for (i, b) in self.entered.iter().enumerate() {
            if *b {
                self.sh.entered[i].store(true, Relaxed);
            }
        }
        for (i, b) in self.symin.iter().enumerate() {
            if *b {
                self.sh.symbolic_in[i].store(true, Relaxed);
            }
        }
        let mut r = self.sh.reach.lock().unwrap();
        for (k, v) in &self.reach {
            *r.entry(*k).or_default() += v;
        }
        if self.sh.prof {
            let mut s = self.sh.sites.lock().unwrap();
            for (k, v) in &self.sites {
                *s.entry(*k).or_default() += v;
            }
        }
        if let Some(z) = &self.z3 {
            self.sh.stats.z3_us.fetch_add((z.secs * 1e6) as u64, Relaxed);
        }
    }
    /// one run of the initial item; nothing is expanded
    pub fn once(&mut self) {
        self.mem[..self.sh.init.len()].copy_from_slice(&self.sh.init);
        let mut i = self.sh.queue.lock().unwrap().0.pop().unwrap();
        i.depth = u32::MAX;
        self.run_item(i);
    }
    fn take_local(&mut self) -> Option<Item> {
        if self.sh.random && self.local.len() > 1 {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let i = (self.rng % self.local.len() as u64) as usize;
            return Some(self.local.swap_remove(i));
        }
        self.local.pop()
    }

    fn reset(&mut self) {
        for p in self.dirty_list.drain(..) {
            let s = p as usize * PG;
            let il = self.sh.init.len();
            self.dirty[p as usize] = false;
            if s + PG <= il {
                self.mem[s..s + PG].copy_from_slice(&self.sh.init[s..s + PG]);
            } else {
                self.mem[s..s + PG].fill(0);
                if s < il {
                    self.mem[s..il].copy_from_slice(&self.sh.init[s..il]);
                }
            }
        }
        for p in self.shused.drain(..) {
            let i = self.shidx[p as usize];
            self.shidx[p as usize] = 0;
            self.shpool[i as usize].fill(0);
            self.shfree.push(i);
        }
        self.msize = self.sh.m.mem_pages as usize * 65536;
        self.globals.clear();
        self.globals.extend(self.sh.m.globals.iter().map(|g| cv(*g)));
        self.vals.clear();
        self.dom.clear();
        self.dom0.clear();
        self.cons.clear();
        self.mcons.clear();
        self.multi.clear();
        self.decided.clear();
        self.k = 0;
        self.phash = 0;
        self.text.clear();
        self.frames.clear();
    }

    fn run_item(&mut self, item: Item) {
        self.reset();
        self.item = item;
        let (end, n) = self.exec();
        let s = &self.sh.stats;
        s.instrs.fetch_add(n, Relaxed);
        s.max_path_instrs.fetch_max(n, Relaxed);
        s.decisions.fetch_add(self.k as u64, Relaxed);
        s.max_decisions.fetch_max(self.k as u64, Relaxed);
        s.max_vars.fetch_max(self.vals.len() as u64, Relaxed);
        match end {
            End::Ok | End::Known(_) => {
                let n = s.paths.fetch_add(1, Relaxed);
                if n < 4 || (n & (n - 1)) == 0 {
                    self.sh.samples.lock().unwrap().push((self.vals.clone(), self.text.clone()));
                }
                if let End::Known(msg) = end {
                    let mut g = self.sh.known.lock().unwrap();
                    if !g.iter().any(|x| x.msg == msg) {
                        g.push(Finding { msg, model: self.vals.clone(), text: self.text.clone(), stack: vec![] });
                    }
                }
            }
            End::Reject => {
                s.rejected.fetch_add(1, Relaxed);
            }
            End::Violation(msg) => {
                s.paths.fetch_add(1, Relaxed);
                let stack = self.frames.iter().rev().take(12).map(|f| self.sh.m.funcs[f.func as usize].name.clone()).collect();
                let mut g = self.sh.findings.lock().unwrap();
                g.push(Finding { msg, model: self.vals.clone(), text: self.text.clone(), stack });
                if g.len() >= self.sh.max_findings {
                    self.sh.stop.store(true, Relaxed);
                }
            }
            End::Incomplete(msg) => {
                let mut g = self.sh.incomplete.lock().unwrap();
                if g.len() < 20 {
                    let t = String::from_utf8_lossy(&self.text).into_owned();
                    g.push(format!("{msg} [model {:?}] [{t}]", self.vals));
                }
            }
        }
    }

    // ---------------------------------------------------------------- memory
    #[inline(always)]
    fn touch(&mut self, addr: usize, n: usize) {
        let (p0, p1) = (addr / PG, (addr + n - 1) / PG);
        for p in p0..=p1 {
            if !self.dirty[p] {
                self.dirty[p] = true;
                self.dirty_list.push(p as u32);
            }
        }
    }
    #[inline(always)]
    fn sh_get(&self, a: usize) -> u64 {
        let i = self.shidx[a / PG];
        if i == 0 { 0 } else { self.shpool[i as usize][a % PG] }
    }
    fn sh_set(&mut self, a: usize, v: u64) {
        let p = a / PG;
        let mut i = self.shidx[p];
        if i == 0 {
            if v == 0 {
                return;
            }
            i = match self.shfree.pop() {
                Some(i) => i,
                None => {
                    self.shpool.push(Box::new([0; PG]));
                    self.shpool.len() as u32 - 1
                }
            };
            self.shidx[p] = i;
            self.shused.push(p as u32);
        }
        self.shpool[i as usize][a % PG] = v;
    }
    #[inline(always)]
    fn load(&mut self, a: u64, n: u8) -> Result<V, End> {
        let a = a as usize;
        let n = n as usize;
        if a + n > self.msize || a < 8 {
            return Err(End::Violation(format!("trap: memory access out of bounds at {a:#x}")));
        }
        let mut c = 0u64;
        // little endian
        unsafe {
            std::ptr::copy_nonoverlapping(self.mem.as_ptr().add(a), &mut c as *mut u64 as *mut u8, n);
        }
        if self.shidx[a / PG] | self.shidx[(a + n - 1) / PG] == 0 {
            return Ok(cv(c));
        }
        Ok(self.load_sym(a, n, c))
    }
    fn load_sym(&mut self, a: usize, n: usize, c: u64) -> V {
        let mut s = [0u64; 8];
        let mut any = false;
        for i in 0..n {
            s[i] = self.sh_get(a + i);
            if s[i] != 0 {
                let e = s[i] as u32;
                let sup = self.ar.node(e).sup;
                if sup_count(&sup) == 1 && dsize(&self.dom[sup_first(&sup)]) == 1 {
                    s[i] = 0; // value is pinned by the path condition
                }
            }
            any |= s[i] != 0;
        }
        if !any {
            return cv(c);
        }
        let w = (n * 8) as u8;
        // same node, consecutive bytes from 0
        if s[0] != 0 && s[0] >> 32 == 0 {
            let e = s[0] as u32;
            let ew = self.ar.w(e);
            let nb = (ew as usize + 7) / 8;
            if nb <= n && (1..nb).all(|i| s[i] == (e as u64 | (i as u64) << 32)) && (nb..n).all(|i| s[i] == 0 && self.mem[a + i] == 0) {
                let e2 = self.ar.zext(e, w.max(ew));
                return V { c, e: e2 };
            }
        }
        let mut r = 0;
        for i in 0..n {
            let b = if s[i] == 0 {
                self.ar.konst(8, self.mem[a + i] as u64)
            } else {
                self.byte_of(s[i])
            };
            r = if i == 0 { b } else { self.ar.concat(b, r) };
        }
        if let Some(c) = self.ar.as_const(r) {
            return cv(c);
        }
        V { c, e: r }
    }
    fn byte_of(&mut self, s: u64) -> Id {
        let (e, i) = (s as u32, (s >> 32) as u8);
        let w = self.ar.w(e);
        if w <= i * 8 {
            return self.ar.konst(8, 0);
        }
        let avail = w - i * 8;
        if avail >= 8 {
            self.ar.extract(e, i * 8, 8)
        } else {
            let x = self.ar.extract(e, i * 8, avail);
            self.ar.zext(x, 8)
        }
    }
    #[inline(always)]
    fn store(&mut self, a: u64, v: V, n: u8) -> Result<(), End> {
        let a = a as usize;
        let n = n as usize;
        if a + n > self.msize || a < 8 {
            return Err(End::Violation(format!("trap: memory access out of bounds at {a:#x}")));
        }
        self.touch(a, n);
        unsafe {
            std::ptr::copy_nonoverlapping(&v.c as *const u64 as *const u8, self.mem.as_mut_ptr().add(a), n);
        }
        if v.e != 0 {
            let nb = (self.ar.w(v.e) as usize + 7) / 8;
            for i in 0..n {
                self.sh_set(a + i, if i < nb { v.e as u64 | (i as u64) << 32 } else { 0 });
            }
        } else if self.shidx[a / PG] | self.shidx[(a + n - 1) / PG] != 0 {
            for i in 0..n {
                self.sh_set(a + i, 0);
            }
        }
        Ok(())
    }
    fn range_sym(&self, a: usize, n: usize) -> bool {
        n > 0 && (a / PG..=(a + n - 1) / PG).any(|p| self.shidx[p] != 0)
    }
    fn memcopy(&mut self, d: usize, s: usize, n: usize) -> Result<(), End> {
        if n == 0 {
            return Ok(());
        }
        if d + n > self.msize || s + n > self.msize || d < 8 || s < 8 {
            return Err(End::Violation("trap: memory.copy out of bounds".into()));
        }
        self.touch(d, n);
        self.mem.copy_within(s..s + n, d);
        if self.range_sym(s, n) || self.range_sym(d, n) {
            let t: Vec<u64> = (0..n).map(|i| self.sh_get(s + i)).collect();
            for (i, x) in t.into_iter().enumerate() {
                self.sh_set(d + i, x);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------- decisions
    fn coerce(&mut self, v: V, w: u8) -> Id {
        if v.e == 0 {
            return self.ar.konst(w, v.c);
        }
        let ew = self.ar.w(v.e);
        if ew == w {
            v.e
        } else if ew < w {
            self.ar.zext(v.e, w)
        } else {
            self.ar.extract(v.e, 0, w)
        }
    }
    fn mk(&mut self, e: Id, c: u64) -> V {
        if self.ar.node(e).k == K::Const { cv(c) } else { V { c, e } }
    }
    fn eval(&mut self, e: Id) -> u64 {
        let vals = std::mem::take(&mut self.vals);
        let r = self.ar.eval(e, &|i| vals[i]);
        self.vals = vals;
        r
    }
    fn branch(&mut self, v: V, w: u8) -> Result<bool, End> {
        let d = v.c != 0;
        if v.e == 0 {
            return Ok(d);
        }
        let e = self.coerce(v, w);
        let b = self.ar.nonzero(e);
        self.decide(b, d)?;
        Ok(d)
    }
    fn decide(&mut self, b: Id, d: bool) -> Result<(), End> {
        let n = *self.ar.node(b);
        match n.k {
            K::Const => {
                if (n.v != 0) != d {
                    return Err(End::Incomplete("engine: constant decision disagrees with concrete value".into()));
                }
                Ok(())
            }
            K::Not => self.decide(n.a, !d),
            K::BAnd if d => {
                self.decide(n.a, true)?;
                self.decide(n.b, true)
            }
            K::BOr if !d => {
                self.decide(n.a, false)?;
                self.decide(n.b, false)
            }
            K::BAnd => {
                if self.eval(n.a) == 0 {
                    self.decide(n.a, false)
                } else {
                    self.decide(n.a, true)?;
                    self.decide(n.b, false)
                }
            }
            K::BOr => {
                if self.eval(n.a) != 0 {
                    self.decide(n.a, true)
                } else {
                    self.decide(n.a, false)?;
                    self.decide(n.b, true)
                }
            }
            _ => self.multiway(&[(b, d), (b, !d)]),
        }
    }
    fn assume(&mut self, b: Id, d: bool) {
        let sup = self.ar.node(b).sup;
        self.decided.insert(b, d);
        if sup_count(&sup) == 1 {
            let v = sup_first(&sup);
            let t = self.ar.truth(b);
            let t = if d { t } else { dnot(&t) };
            self.dom[v] = dand(&self.dom[v], &t);
            self.cons[v].push((b, d));
        } else {
            self.mcons.push((b, d));
            let vs: Vec<usize> = sup_iter(&sup).collect();
            for v in vs {
                self.multi[v] = true;
            }
        }
    }
    /// options partition the possibilities; the first one is what the concrete run does
    fn multiway(&mut self, opts: &[(Id, bool)]) -> Result<(), End> {
        let (b, d) = opts[0];
        if let Some(x) = self.decided.get(&b) {
            if *x == d {
                return Ok(());
            }
        }
        // every byte it depends on has a single value left
        let sup = self.ar.node(b).sup;
        if sup_count(&sup) > 1 && sup_iter(&sup).all(|x| dsize(&self.dom[x]) == 1) {
            return Ok(());
        }
        let before = self.phash;
        self.k += 1;
        let nh = self.ar.node(b).hash;
        self.phash = mixh(mixh(before, nh), d as u64);
        if self.k == self.item.depth && self.phash != self.item.hash {
            return Err(End::Incomplete("engine: re-execution diverged".into()));
        }
        if self.k > self.item.depth {
            let f = self.cur.0 as usize;
            if !self.symin[f] {
                self.symin[f] = true;
            }
            for (ob, od) in &opts[1..] {
                let child = self.feasible(*ob, *od)?;
                if let Some(model) = child {
                    self.sh.stats.forks.fetch_add(1, Relaxed);
                    if self.sh.prof {
                        *self.sites.entry(self.cur).or_default() += 1;
                    }
                    let h = mixh(mixh(before, self.ar.node(*ob).hash), *od as u64);
                    self.local.push(Item { model, depth: self.k, hash: h });
                } else {
                    self.sh.stats.pruned.fetch_add(1, Relaxed);
                }
            }
        }
        self.assume(b, d);
        Ok(())
    }
    /// a model of (path condition and (b == want)), or None when the solver refutes it
    fn feasible(&mut self, b: Id, want: bool) -> Result<Option<Vec<u8>>, End> {
        let n = *self.ar.node(b);
        if n.k == K::Const {
            return Ok(if (n.v != 0) == want { Some(self.vals.clone()) } else { None });
        }
        let sup = n.sup;
        if sup_count(&sup) == 1 && !self.multi[sup_first(&sup)] {
            let v = sup_first(&sup);
            let t = self.ar.truth(b);
            let t = if want { t } else { dnot(&t) };
            let alt = dand(&self.dom[v], &t);
            if !dempty(&alt) {
                let mut m = self.vals.clone();
                m[v] = dfirst(&alt);
                return Ok(Some(m));
            }
            self.refute1(v, b, want)?;
            return Ok(None);
        }
        // several variables: close over shared constraints
        let mut vs: Sup = sup;
        let mut used: Vec<usize> = vec![];
        loop {
            let mut grew = false;
            for (i, (c, _)) in self.mcons.iter().enumerate() {
                if used.contains(&i) {
                    continue;
                }
                let s = self.ar.node(*c).sup;
                if s[0] & vs[0] != 0 || s[1] & vs[1] != 0 {
                    vs[0] |= s[0];
                    vs[1] |= s[1];
                    used.push(i);
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        // a witness next to the current model needs no solver
        for v in sup_iter(&sup) {
            if dsize(&self.dom[v]) == 1 {
                continue;
            }
            if dsize(&self.dom[v]) > 64 && sup_count(&sup) > 4 {
                continue;
            }
            let mut m = self.vals.clone();
            for x in 0..=255u8 {
                if !dhas(&self.dom[v], x) || x == self.vals[v] {
                    continue;
                }
                m[v] = x;
                if (self.ar.eval(b, &|i| m[i]) != 0) != want {
                    continue;
                }
                let mut ok = true;
                for i in &used {
                    let (c, d) = self.mcons[*i];
                    if (self.ar.eval(c, &|i| m[i]) != 0) != d {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    return Ok(Some(m));
                }
            }
        }
        let vars: Vec<usize> = sup_iter(&vs).collect();
        let mut key = 23u64;
        for v in &vars {
            key = mixh(key, *v as u64);
            for x in self.dom0[*v] {
                key = mixh(key, x);
            }
            for (c, d) in &self.cons[*v] {
                key = mixh(key, self.ar.node(*c).ahash ^ *d as u64);
            }
        }
        for i in &used {
            let (c, d) = self.mcons[*i];
            key = mixh(key, self.ar.node(c).hash ^ d as u64);
        }
        key = mixh(key, n.hash ^ want as u64);
        if self.lcache.contains(&key) {
            self.sh.stats.q_cached.fetch_add(1, Relaxed);
            return Ok(None);
        }
        match self.query(&vars, &used, (b, want)) {
            Res::Unsat => {
                self.lcache.insert(key);
                Ok(None)
            }
            Res::Sat(m) => {
                let mut r = self.vals.clone();
                for (v, x) in m {
                    r[v] = x;
                }
                Ok(Some(r))
            }
            Res::Unknown(m) => Err(End::Incomplete(format!("solver: {m}"))),
        }
    }
    /// the domain table says (b == want) is impossible: the solver decides it
    /// (memoised on the structure of the formulas)
    fn refute1(&mut self, v: usize, b: Id, want: bool) -> Result<(), End> {
        let mut key = 17u64;
        for x in self.dom0[v] {
            key = mixh(key, x);
        }
        for (c, d) in &self.cons[v] {
            key = mixh(key, self.ar.node(*c).ahash ^ *d as u64);
        }
        key = mixh(key, self.ar.node(b).ahash ^ want as u64);
        if self.lcache.contains(&key) {
            self.sh.stats.q_cached.fetch_add(1, Relaxed);
            return Ok(());
        }
        if self.sh.cache.read().unwrap().contains(&key) {
            self.lcache.insert(key);
            self.sh.stats.q_cached.fetch_add(1, Relaxed);
            return Ok(());
        }
        match self.query(&[v], &[], (b, want)) {
            Res::Unsat => {
                self.lcache.insert(key);
                self.sh.cache.write().unwrap().insert(key);
                Ok(())
            }
            Res::Sat(_) => Err(End::Incomplete("engine: solver and domain table disagree".into())),
            Res::Unknown(m) => Err(End::Incomplete(format!("solver: {m}"))),
        }
    }
    fn query(&mut self, vars: &[usize], used: &[usize], goal: (Id, bool)) -> Res {
        use std::fmt::Write;
        if Instant::now() > self.sh.deadline {
            self.sh.timed_out.store(true, Relaxed);
            return Res::Unknown("out of time".into());
        }
        let mut body = String::new();
        let mut done = HashMap::new();
        for v in vars {
            writeln!(body, "(declare-const x{v} (_ BitVec 8))").unwrap();
            // initial domain as ranges
            let d = self.dom0[*v];
            if d != [!0u64; 4] {
                let mut parts = String::new();
                let mut i = 0usize;
                while i < 256 {
                    if dhas(&d, i as u8) {
                        let s = i;
                        while i < 256 && dhas(&d, i as u8) {
                            i += 1;
                        }
                        write!(parts, "(and (bvule (_ bv{s} 8) x{v}) (bvule x{v} (_ bv{} 8)))", i - 1).unwrap();
                    } else {
                        i += 1;
                    }
                }
                writeln!(body, "(assert (or {parts} false))").unwrap();
            }
        }
        let mut all: Vec<(Id, bool)> = vec![];
        for v in vars {
            all.extend(self.cons[*v].iter().copied());
        }
        for i in used {
            all.push(self.mcons[*i]);
        }
        all.push(goal);
        for (c, d) in all {
            let mut defs = String::new();
            let t = self.ar.smt(c, &mut done, &mut defs);
            body.push_str(&defs);
            writeln!(body, "(assert (= {t} (_ bv{} 1)))", d as u8).unwrap();
        }
        if self.z3.is_none() {
            self.z3 = Some(Solver::new());
        }
        let r = self.z3.as_mut().unwrap().check(&body, vars);
        match &r {
            Res::Sat(_) => self.sh.stats.q_sat.fetch_add(1, Relaxed),
            Res::Unsat => self.sh.stats.q_unsat.fetch_add(1, Relaxed),
            _ => 0,
        };
        r
    }
    /// fix a symbolic value to its concrete one, queueing every other feasible value
    fn concretize(&mut self, v: V, w: u8) -> Result<u64, End> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let e = self.coerce(v, w);
        if let Some(c) = self.ar.as_const(e) {
            return Ok(c);
        }
        let cc = self.ar.konst(w, v.c);
        let eqc = self.ar.eq(e, cc);
        if self.decided.get(&eqc) == Some(&true) || self.ar.as_const(eqc) == Some(1) {
            return Ok(v.c);
        }
        let sup = self.ar.node(e).sup;
        if sup_iter(&sup).all(|x| dsize(&self.dom[x]) == 1) {
            return Ok(v.c);
        }
        let mut opts = vec![(eqc, true)];
        if self.k + 1 > self.item.depth {
            if sup_count(&sup) == 1 && !self.multi[sup_first(&sup)] {
                let x = sup_first(&sup);
                let mut seen = vec![v.c & mask(w)];
                for b in 0..256usize {
                    if dhas(&self.dom[x], b as u8) {
                        let val = self.ar.eval(e, &|_| b as u8);
                        if !seen.contains(&val) {
                            seen.push(val);
                        }
                    }
                }
                let mut none = self.ar.konst(1, 0);
                for s in &seen {
                    let c = self.ar.konst(w, *s);
                    let q = self.ar.eq(e, c);
                    none = self.ar.bor(none, q);
                    if *s != v.c & mask(w) {
                        opts.push((q, true));
                    }
                }
                // the listed values are exhaustive
                if self.feasible(none, false)?.is_some() {
                    return Err(End::Incomplete("engine: value enumeration incomplete".into()));
                }
            } else {
                let mut none = eqc;
                loop {
                    match self.feasible(none, false)? {
                        None => break,
                        Some(m) => {
                            let val = self.ar.eval(e, &|i| m[i]);
                            let c = self.ar.konst(w, val);
                            let q = self.ar.eq(e, c);
                            none = self.ar.bor(none, q);
                            opts.push((q, true));
                            if opts.len() > 4096 {
                                return Err(End::Incomplete("too many values to concretise".into()));
                            }
                        }
                    }
                }
            }
        }
        self.multiway(&opts)?;
        Ok(v.c)
    }

    /// fix the value of a numeric operand: values made of a few bytes are fixed byte by byte
    fn concretize_operand(&mut self, v: V, w: u8) -> Result<u64, End> {
        if v.e != 0 {
            let e = self.coerce(v, w);
            let sup = self.ar.node(e).sup;
            let n = sup_count(&sup);
            if n > 1 && n <= 12 {
                for x in sup_iter(&sup) {
                    let xe = self.ar.var(x);
                    let xv = V { c: self.vals[x] as u64, e: xe };
                    self.concretize(xv, 8)?;
                }
            }
        }
        self.concretize(v, w)
    }

    fn new_var(&mut self, d: Dom) -> Result<V, End> {
        let i = self.vals.len();
        if i >= MAXV {
            return Err(End::Incomplete("too many symbolic bytes".into()));
        }
        if dempty(&d) {
            return Err(End::Incomplete("empty symbolic domain".into()));
        }
        let v = match self.item.model.get(i) {
            Some(x) if dhas(&d, *x) => *x,
            _ => dfirst(&d),
        };
        self.vals.push(v);
        self.dom.push(d);
        self.dom0.push(d);
        self.cons.push(vec![]);
        self.multi.push(false);
        if dsize(&d) == 1 {
            return Ok(cv(v as u64));
        }
        let e = self.ar.var(i);
        Ok(V { c: v as u64, e })
    }

    // --------------------------------------------------------------- running
    fn exec(&mut self) -> (End, u64) {
        let mut n = 0u64;
        let e = match self.run(&mut n) {
            Ok(()) => End::Ok,
            Err(e) => e,
        };
        (e, n)
    }

    fn cmp(&mut self, w: u8, c: Cmp, a: V, b: V) -> V {
        let m = mask(w);
        let (x, y) = (a.c & m, b.c & m);
        let (sx, sy) = (sext(x, w), sext(y, w));
        let r = match c {
            Cmp::Eq => x == y,
            Cmp::Ne => x != y,
            Cmp::LtS => sx < sy,
            Cmp::LtU => x < y,
            Cmp::GtS => sx > sy,
            Cmp::GtU => x > y,
            Cmp::LeS => sx <= sy,
            Cmp::LeU => x <= y,
            Cmp::GeS => sx >= sy,
            Cmp::GeU => x >= y,
        } as u64;
        if a.e | b.e == 0 {
            return cv(r);
        }
        let p = self.coerce(a, w);
        let q = self.coerce(b, w);
        let ar = &mut self.ar;
        let e = match c {
            Cmp::Eq => ar.eq(p, q),
            Cmp::Ne => {
                let e = ar.eq(p, q);
                ar.not(e)
            }
            Cmp::LtS => ar.slt(p, q),
            Cmp::LtU => ar.ult(p, q),
            Cmp::GtS => ar.slt(q, p),
            Cmp::GtU => ar.ult(q, p),
            Cmp::LeS => {
                let e = ar.slt(q, p);
                ar.not(e)
            }
            Cmp::LeU => {
                let e = ar.ult(q, p);
                ar.not(e)
            }
            Cmp::GeS => {
                let e = ar.slt(p, q);
                ar.not(e)
            }
            Cmp::GeU => {
                let e = ar.ult(p, q);
                ar.not(e)
            }
        };
        if self.settled(e, r != 0) {
            return cv(r);
        }
        self.mk(e, r)
    }
    /// a condition over one variable that the path has settled already
    fn settled(&mut self, e: Id, want: bool) -> bool {
        let n = *self.ar.node(e);
        if n.k == K::Const || sup_count(&n.sup) != 1 {
            return false;
        }
        let v = sup_first(&n.sup);
        if self.cons[v].is_empty() && self.dom0[v] == [!0u64; 4] {
            return false;
        }
        let t = self.ar.truth(e);
        let other = if want { dnot(&t) } else { t };
        if !dempty(&dand(&self.dom[v], &other)) {
            return false;
        }
        matches!(self.refute1(v, e, !want), Ok(()))
    }
    fn binop(&mut self, w: u8, o: Bin, a: V, b: V) -> Result<V, End> {
        let m = mask(w);
        if a.e | b.e == 0 {
            let (x, y) = (a.c & m, b.c & m);
            let sh = (y % w as u64) as u32;
            let r = match o {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => x << sh,
                Bin::ShrU => x >> sh,
                Bin::ShrS => (sext(x, w) >> sh) as u64,
                Bin::Rotl => {
                    if w == 32 { (x as u32).rotate_left(sh) as u64 } else { x.rotate_left(sh) }
                }
                Bin::Rotr => {
                    if w == 32 { (x as u32).rotate_right(sh) as u64 } else { x.rotate_right(sh) }
                }
                _ => {
                    if y == 0 {
                        return Err(End::Violation("trap: division by zero".into()));
                    }
                    match o {
                        Bin::DivU => x / y,
                        Bin::RemU => x % y,
                        Bin::DivS => {
                            if sext(x, w) == sext(1 << (w - 1), w) && sext(y, w) == -1 {
                                return Err(End::Violation("trap: division overflow".into()));
                            }
                            sext(x, w).wrapping_div(sext(y, w)) as u64
                        }
                        _ => sext(x, w).wrapping_rem(sext(y, w)) as u64,
                    }
                }
            };
            return Ok(cv(r & m));
        }
        let mut b = b;
        if matches!(o, Bin::DivS | Bin::DivU | Bin::RemS | Bin::RemU) {
            b = cv(self.concretize(b, w)?);
            if b.c & m == 0 {
                return Err(End::Violation("trap: division by zero".into()));
            }
        }
        if matches!(o, Bin::Shl | Bin::ShrS | Bin::ShrU | Bin::Rotl | Bin::Rotr) {
            b = if b.e == 0 {
                cv(b.c % w as u64)
            } else {
                let q = self.coerce(b, w);
                let k = self.ar.konst(w, w as u64 - 1);
                let e = self.ar.bin(K::And, q, k);
                self.mk(e, b.c % w as u64)
            };
        }
        let p = self.coerce(a, w);
        let q = self.coerce(b, w);
        let k = match o {
            Bin::Add => K::Add,
            Bin::Sub => K::Sub,
            Bin::Mul => K::Mul,
            Bin::DivS => K::SDiv,
            Bin::DivU => K::UDiv,
            Bin::RemS => K::SRem,
            Bin::RemU => K::URem,
            Bin::And => K::And,
            Bin::Or => K::Or,
            Bin::Xor => K::Xor,
            Bin::Shl => K::Shl,
            Bin::ShrS => K::AShr,
            Bin::ShrU => K::LShr,
            Bin::Rotl => K::Rotl,
            Bin::Rotr => K::Rotr,
        };
        let c = apply(k, w, w, a.c & m, b.c & m, 0, 0, w);
        let e = self.ar.bin(k, p, q);
        Ok(self.mk(e, c))
    }

    fn run(&mut self, icount: &mut u64) -> Result<(), End> {
        let sh = self.sh;
        let m = sh.m;
        let ni = m.imports.len();
        let stack: *mut V = self.stack.as_mut_ptr();
        let mut sp = 0usize; // next free
        let mut n = 0u64;
        let limit = sh.max_path_instrs;
        macro_rules! push { ($v:expr) => {{ let v = $v; unsafe { *stack.add(sp) = v; } sp += 1; }}; }
        macro_rules! pop { () => {{ sp -= 1; unsafe { *stack.add(sp) } }}; }
        macro_rules! at { ($i:expr) => { unsafe { &mut *stack.add($i) } }; }
        // initial frame
        let mut fi = sh.entry - ni;
        let mut f = &m.funcs[fi];
        let mut base = 0usize;
        push!(cv(sh.arg as u64));
        if f.nparams == 0 {
            sp = 0;
        }
        for _ in f.nparams..f.nlocals {
            push!(cv(0));
        }
        let mut pc = 0usize;
        self.entered[fi] = true;
        macro_rules! doret { () => {{
            let nr = f.nresults;
            for i in 0..nr { *at!(base + i) = *at!(sp - nr + i); }
            sp = base + nr;
            match self.frames.pop() {
                None => { *icount = n; return Ok(()); }
                Some(fr) => { fi = fr.func as usize; f = &m.funcs[fi]; pc = fr.pc as usize; base = fr.base as usize; }
            }
        }}; }
        macro_rules! shuffle { ($arity:expr, $height:expr) => {{
            let ar = $arity as usize;
            let dst = base + f.nlocals + $height as usize;
            if dst + ar != sp { for i in 0..ar { *at!(dst + i) = *at!(sp - ar + i); } sp = dst + ar; }
        }}; }
        macro_rules! tr { ($e:expr) => { match $e { Ok(v) => v, Err(x) => { *icount = n; self.frames.push(Frame{func: fi as u32, pc: pc as u32, base: base as u32}); return Err(x); } } }; }
        macro_rules! call { ($t:expr) => {{
            let t: usize = $t;
            if t < ni {
                self.cur = (fi as u32, pc as u32 - 1);
                let name = m.imports[t].1.as_str();
                match name {
                    "sym_byte" => { let hi = pop!().c; let lo = pop!().c;
                        let mut d = [0u64;4]; for i in lo..=hi { d[i as usize/64] |= 1<<(i%64); }
                        let v = tr!(self.new_var(d)); push!(v); }
                    "sym_set" => { let p = pop!().c as usize;
                        let mut d = [0u64;4]; for i in 0..4 { d[i] = u64::from_le_bytes(self.mem[p+i*8..p+i*8+8].try_into().unwrap()); }
                        let v = tr!(self.new_var(d)); push!(v); }
                    "sym_fail" => { let l = pop!().c as usize; let p = pop!().c as usize;
                        let s = String::from_utf8_lossy(&self.mem[p..p+l]).into_owned();
                        tr!(Err::<(),End>(End::Violation(s))); }
                    "sym_known" => { let l = pop!().c as usize; let p = pop!().c as usize;
                        let s = String::from_utf8_lossy(&self.mem[p..p+l]).into_owned();
                        tr!(Err::<(),End>(End::Known(s))); }
                    "sym_reject" => { tr!(Err::<(),End>(End::Reject)); }
                    "sym_reach" => { let i = pop!().c as u32; *self.reach.entry(i).or_default() += 1; }
                    "sym_text" => { let l = pop!().c as usize; let p = pop!().c as usize; let t = self.mem[p..p+l].to_vec(); self.text = t; }
                    "sym_pin" => { let v = pop!(); let c = tr!(self.concretize(v, 32)); push!(cv(c)); }
                    "sym_is_symbolic" => { let v = pop!(); push!(cv((v.e != 0) as u64)); }
                    o => panic!("unknown import {o}"),
                }
            } else {
                if self.frames.len() > 20000 || sp + 4096 > STACK { tr!(Err::<(),End>(End::Violation("trap: call stack exhausted".into()))); }
                self.frames.push(Frame{func: fi as u32, pc: pc as u32, base: base as u32});
                fi = t - ni; f = &m.funcs[fi];
                self.entered[fi] = true;
                base = sp - f.nparams;
                for _ in f.nparams..f.nlocals { push!(cv(0)); }
                pc = 0;
            }
        }}; }
        loop {
            n += 1;
            if n & 0xfffff == 0 {
                if n > limit {
                    tr!(Err::<(), End>(End::Incomplete("instruction budget exhausted".into())));
                }
                if sh.stop.load(Relaxed) || Instant::now() > sh.deadline {
                    sh.timed_out.store(true, Relaxed);
                    tr!(Err::<(), End>(End::Incomplete("deadline".into())));
                }
            }
            let op = unsafe { *f.code.get_unchecked(pc) };
            pc += 1;
            match op {
                Op::Nop => {}
                Op::Unreachable => tr!(Err::<(), End>(End::Violation("trap: unreachable (panic or abort)".into()))),
                Op::LocalGet(i) => push!(*at!(base + i as usize)),
                Op::LocalGet2(i, j) => {
                    push!(*at!(base + i as usize));
                    push!(*at!(base + j as usize));
                }
                Op::LocalSet(i) => *at!(base + i as usize) = pop!(),
                Op::LocalTee(i) => *at!(base + i as usize) = *at!(sp - 1),
                Op::GlobalGet(i) => push!(self.globals[i as usize]),
                Op::GlobalSet(i) => self.globals[i as usize] = pop!(),
                Op::Const(c) => push!(cv(c)),
                Op::Drop => sp -= 1,
                Op::LgConstBin(l, c, w, o) => {
                    let a = *at!(base + l as usize);
                    if a.e == 0 && o == Bin::Add {
                        push!(cv((a.c as u32).wrapping_add(c) as u64));
                    } else {
                        self.cur = (fi as u32, pc as u32 - 1);
                        let v = tr!(self.binop(w, o, a, cv(c as u64)));
                        push!(v);
                    }
                }
                Op::LgLoad { l, off, bytes, w, sx } => {
                    let a = *at!(base + l as usize);
                    let ad = if a.e == 0 { a.c } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.concretize(a, 32)) };
                    let v = tr!(self.load(ad + off as u64, bytes));
                    push!(if sx { self.sx(v, bytes * 8, w) } else { v });
                }
                Op::Load { off, bytes, w, sx } => {
                    let a = pop!();
                    let ad = if a.e == 0 { a.c } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.concretize(a, 32)) };
                    let v = tr!(self.load(ad + off as u64, bytes));
                    push!(if sx { self.sx(v, bytes * 8, w) } else { v });
                }
                Op::Store { off, bytes, w: _ } => {
                    let v = pop!();
                    let a = pop!();
                    let ad = if a.e == 0 { a.c } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.concretize(a, 32)) };
                    tr!(self.store(ad + off as u64, v, bytes));
                }
                Op::Br { pc: t, arity, height } => {
                    shuffle!(arity, height);
                    pc = t as usize;
                }
                Op::BrIf { pc: t, arity, height } => {
                    let c = pop!();
                    let d = if c.e == 0 { c.c != 0 } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.branch(c, 32)) };
                    if d {
                        shuffle!(arity, height);
                        pc = t as usize;
                    }
                }
                Op::BrIfZ { pc: t } => {
                    let c = pop!();
                    let d = if c.e == 0 { c.c != 0 } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.branch(c, 32)) };
                    if !d {
                        pc = t as usize;
                    }
                }
                Op::BrTable { idx } => {
                    let v = pop!();
                    let tab = &f.tables[idx as usize];
                    if v.e != 0 {
                        self.cur = (fi as u32, pc as u32 - 1);
                        tr!(self.br_table(v, tab));
                    }
                    let t = &tab[(v.c as usize).min(tab.len() - 1)];
                    shuffle!(t.arity, t.height);
                    pc = t.pc as usize;
                }
                Op::Return => doret!(),
                Op::Call(t) => call!(t as usize),
                Op::CallIndirect { ty } => {
                    let v = pop!();
                    let c = if v.e == 0 { v.c } else { self.cur = (fi as u32, pc as u32 - 1); tr!(self.concretize(v, 32)) };
                    let t = match m.table.get(c as usize) {
                        Some(Some(t)) => *t as usize,
                        _ => tr!(Err(End::Violation("trap: bad indirect call".into()))),
                    };
                    let tt = if t < ni { m.imports[t].2 } else { m.funcs[t - ni].ty };
                    if tt != ty as usize && m.types[tt].sig != m.types[ty as usize].sig {
                        tr!(Err::<(), End>(End::Violation("trap: indirect call type mismatch".into())));
                    }
                    call!(t)
                }
                Op::Select => {
                    let c = pop!();
                    let b = pop!();
                    let a = pop!();
                    if c.e == 0 {
                        push!(if c.c != 0 { a } else { b });
                    } else {
                        let ce = self.coerce(c, 32);
                        let cb = self.ar.nonzero(ce);
                        let v = self.select(cb, c.c != 0, a, b);
                        push!(v);
                    }
                }
                Op::MemSize => push!(cv((self.msize / 65536) as u64)),
                Op::MemGrow => {
                    let v = pop!();
                    let d = tr!(self.concretize(v, 32)) as usize;
                    let old = self.msize / 65536;
                    if self.msize + d * 65536 > MEM {
                        tr!(Err::<(), End>(End::Incomplete("memory budget exhausted".into())));
                    }
                    self.msize += d * 65536;
                    push!(cv(old as u64));
                }
                Op::MemCopy => {
                    let l = pop!();
                    let s = pop!();
                    let d = pop!();
                    self.cur = (fi as u32, pc as u32 - 1);
                    let l = tr!(self.concretize(l, 32)) as usize;
                    let s = tr!(self.concretize(s, 32)) as usize;
                    let d = tr!(self.concretize(d, 32)) as usize;
                    tr!(self.memcopy(d, s, l));
                }
                Op::MemFill => {
                    let l = pop!();
                    let v = pop!();
                    let d = pop!();
                    self.cur = (fi as u32, pc as u32 - 1);
                    let l = tr!(self.concretize(l, 32)) as usize;
                    let d = tr!(self.concretize(d, 32)) as usize;
                    for i in 0..l {
                        tr!(self.store((d + i) as u64, v, 1));
                    }
                }
                Op::Eqz(w) => {
                    let a = pop!();
                    if a.e == 0 {
                        push!(cv((a.c == 0) as u64));
                    } else {
                        let e = self.coerce(a, w);
                        let z = self.ar.nonzero(e);
                        let z = self.ar.not(z);
                        let r = self.mk(z, (a.c == 0) as u64);
                        push!(r);
                    }
                }
                Op::Cmp(w, c) => {
                    let b = pop!();
                    let a = pop!();
                    let v = self.cmp(w, c, a, b);
                    push!(v);
                }
                Op::Bin(w, o) => {
                    let b = pop!();
                    let a = pop!();
                    self.cur = (fi as u32, pc as u32 - 1);
                    let v = tr!(self.binop(w, o, a, b));
                    push!(v);
                }
                Op::Un(w, o) => {
                    let a = pop!();
                    let k = match o {
                        Un::Clz => K::Clz,
                        Un::Ctz => K::Ctz,
                        Un::Popcnt => K::Popcnt,
                    };
                    let c = apply(k, w, w, a.c, 0, 0, 0, 0);
                    if a.e == 0 {
                        push!(cv(c));
                    } else {
                        let e = self.coerce(a, w);
                        let e = self.ar.un(k, e);
                        let r = self.mk(e, c);
                        push!(r);
                    }
                }
                Op::Wrap => {
                    let a = pop!();
                    let c = a.c as u32 as u64;
                    if a.e == 0 {
                        push!(cv(c));
                    } else {
                        let e = self.coerce(a, 32);
                        let r = self.mk(e, c);
                        push!(r);
                    }
                }
                Op::ExtU => {
                    let a = at!(sp - 1);
                    if a.e != 0 {
                        let e = self.coerce(*a, 32);
                        let r = self.mk(e, a.c);
                        *at!(sp - 1) = r;
                    }
                }
                Op::ExtS => {
                    let a = pop!();
                    let r = self.sx(a, 32, 64);
                    push!(r);
                }
                Op::Sext { from, w } => {
                    let a = pop!();
                    let r = self.sx(a, from, w);
                    push!(r);
                }
                Op::Reinterpret => {}
                Op::Float(o) => {
                    let two = matches!(o, 0x5b..=0x66 | 0x92..=0x98 | 0xa0..=0xa6);
                    self.cur = (fi as u32, pc as u32 - 1);
                    let b = if two { let v = pop!(); tr!(self.concretize_operand(v, 64)) } else { 0 };
                    let v = pop!();
                    let a = tr!(self.concretize_operand(v, 64));
                    let r = tr!(float(o, a, b));
                    push!(cv(r));
                }
            }
        }
    }
    fn sx(&mut self, v: V, from: u8, w: u8) -> V {
        let c = (sext(v.c, from) as u64) & mask(w);
        if v.e == 0 {
            return cv(c);
        }
        let e = self.coerce(v, from);
        let e = self.ar.sext(e, w);
        self.mk(e, c)
    }
    fn select(&mut self, cb: Id, d: bool, a: V, b: V) -> V {
        let cur = if d { a } else { b };
        let wa = if a.e != 0 { self.ar.w(a.e) } else { 1 };
        let wb = if b.e != 0 { self.ar.w(b.e) } else { 1 };
        let need = |c: u64| if c <= 1 { 1 } else if c <= 0xff { 8 } else if c <= 0xffff { 16 } else if c <= 0xffff_ffff { 32 } else { 64 };
        let mut w = wa.max(wb);
        if a.e == 0 {
            w = w.max(need(a.c));
        }
        if b.e == 0 {
            w = w.max(need(b.c));
        }
        let x = self.coerce(a, w);
        let y = self.coerce(b, w);
        let e = self.ar.ite(cb, x, y);
        self.mk(e, cur.c)
    }
    fn br_table(&mut self, v: V, tab: &[Target]) -> Result<(), End> {
        let e = self.coerce(v, 32);
        if self.ar.as_const(e).is_some() {
            return Ok(());
        }
        let dflt = tab.last().unwrap().pc;
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut any = self.ar.konst(1, 0);
        for (i, t) in tab[..tab.len() - 1].iter().enumerate() {
            if t.pc == dflt {
                continue;
            }
            let c = self.ar.konst(32, i as u64);
            let q = self.ar.eq(e, c);
            any = self.ar.bor(any, q);
            match groups.iter_mut().find(|g| g.0 == t.pc) {
                Some(g) => {
                    let o = g.1;
                    g.1 = self.ar.bor(o, q);
                }
                None => groups.push((t.pc, q)),
            }
        }
        let here = tab[(v.c as usize).min(tab.len() - 1)].pc;
        let mut opts: Vec<(Id, bool)> = vec![];
        for (t, q) in &groups {
            if *t == here {
                opts.insert(0, (*q, true));
            } else {
                opts.push((*q, true));
            }
        }
        if here == dflt {
            opts.insert(0, (any, false));
        } else {
            opts.push((any, false));
        }
        let opts: Vec<(Id, bool)> = opts.into_iter().filter(|o| self.ar.as_const(o.0).is_none() || (self.ar.as_const(o.0) == Some(1)) == o.1).collect();
        if opts.len() == 1 {
            return Ok(());
        }
        self.multiway(&opts)
    }
}

fn float(o: u16, a: u64, b: u64) -> Result<u64, End> {
    let f = |x: u64| f32::from_bits(x as u32);
    let d = |x: u64| f64::from_bits(x);
    let rf = |x: f32| Ok(x.to_bits() as u64);
    let rd = |x: f64| Ok(x.to_bits());
    let rb = |x: bool| Ok(x as u64);
    let trap = || Err(End::Violation("trap: float to int conversion".into()));
    fn near32(x: f32) -> f32 { x.round_ties_even() }
    fn near64(x: f64) -> f64 { x.round_ties_even() }
    match o {
        0x5b => rb(f(a) == f(b)),
        0x5c => rb(f(a) != f(b)),
        0x5d => rb(f(a) < f(b)),
        0x5e => rb(f(a) > f(b)),
        0x5f => rb(f(a) <= f(b)),
        0x60 => rb(f(a) >= f(b)),
        0x61 => rb(d(a) == d(b)),
        0x62 => rb(d(a) != d(b)),
        0x63 => rb(d(a) < d(b)),
        0x64 => rb(d(a) > d(b)),
        0x65 => rb(d(a) <= d(b)),
        0x66 => rb(d(a) >= d(b)),
        0x8b => Ok(a & 0x7fff_ffff),
        0x8c => Ok((a ^ 0x8000_0000) & 0xffff_ffff),
        0x8d => rf(f(a).ceil()),
        0x8e => rf(f(a).floor()),
        0x8f => rf(f(a).trunc()),
        0x90 => rf(near32(f(a))),
        0x91 => rf(f(a).sqrt()),
        0x92 => rf(f(a) + f(b)),
        0x93 => rf(f(a) - f(b)),
        0x94 => rf(f(a) * f(b)),
        0x95 => rf(f(a) / f(b)),
        0x96 => rf(if f(a).is_nan() || f(b).is_nan() { f32::NAN } else { f(a).min(f(b)) }),
        0x97 => rf(if f(a).is_nan() || f(b).is_nan() { f32::NAN } else { f(a).max(f(b)) }),
        0x98 => rf(f(a).copysign(f(b))),
        0x99 => Ok(a & !(1 << 63)),
        0x9a => Ok(a ^ (1 << 63)),
        0x9b => rd(d(a).ceil()),
        0x9c => rd(d(a).floor()),
        0x9d => rd(d(a).trunc()),
        0x9e => rd(near64(d(a))),
        0x9f => rd(d(a).sqrt()),
        0xa0 => rd(d(a) + d(b)),
        0xa1 => rd(d(a) - d(b)),
        0xa2 => rd(d(a) * d(b)),
        0xa3 => rd(d(a) / d(b)),
        0xa4 => rd(if d(a).is_nan() || d(b).is_nan() { f64::NAN } else { d(a).min(d(b)) }),
        0xa5 => rd(if d(a).is_nan() || d(b).is_nan() { f64::NAN } else { d(a).max(d(b)) }),
        0xa6 => rd(d(a).copysign(d(b))),
        0xa8 => { let x = f(a); if x.is_nan() || x >= 2147483648.0 || x < -2147483648.0 { trap() } else { Ok(x as i32 as u32 as u64) } }
        0xa9 => { let x = f(a); if x.is_nan() || x >= 4294967296.0 || x <= -1.0 { trap() } else { Ok(x as u32 as u64) } }
        0xaa => { let x = d(a); if x.is_nan() || x >= 2147483648.0 || x <= -2147483649.0 { trap() } else { Ok(x as i32 as u32 as u64) } }
        0xab => { let x = d(a); if x.is_nan() || x >= 4294967296.0 || x <= -1.0 { trap() } else { Ok(x as u32 as u64) } }
        0xae => { let x = f(a); if x.is_nan() || x >= 9223372036854775808.0 || x < -9223372036854775808.0 { trap() } else { Ok(x as i64 as u64) } }
        0xaf => { let x = f(a); if x.is_nan() || x >= 18446744073709551616.0 || x <= -1.0 { trap() } else { Ok(x as u64) } }
        0xb0 => { let x = d(a); if x.is_nan() || x >= 9223372036854775808.0 || x < -9223372036854775808.0 { trap() } else { Ok(x as i64 as u64) } }
        0xb1 => { let x = d(a); if x.is_nan() || x >= 18446744073709551616.0 || x <= -1.0 { trap() } else { Ok(x as u64) } }
        0xb2 => rf(a as u32 as i32 as f32),
        0xb3 => rf(a as u32 as f32),
        0xb4 => rf(a as i64 as f32),
        0xb5 => rf(a as f32),
        0xb6 => rf(d(a) as f32),
        0xb7 => rd(a as u32 as i32 as f64),
        0xb8 => rd(a as u32 as f64),
        0xb9 => rd(a as i64 as f64),
        0xba => rd(a as f64),
        0xbb => rd(f(a) as f64),
        0xfc00 => Ok(f(a) as i32 as u32 as u64),
        0xfc01 => Ok(f(a) as u32 as u64),
        0xfc02 => Ok(d(a) as i32 as u32 as u64),
        0xfc03 => Ok(d(a) as u32 as u64),
        0xfc04 => Ok(f(a) as i64 as u64),
        0xfc05 => Ok(f(a) as u64),
        0xfc06 => Ok(d(a) as i64 as u64),
        0xfc07 => Ok(d(a) as u64),
        _ => Err(End::Incomplete(format!("float opcode {o:#x}"))),
    }
}
