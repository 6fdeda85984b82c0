//! Decoder for the subset of WebAssembly that rustc emits for
//! wasm32-unknown-unknown, lowered to a flat code form with resolved branches.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FuncType {
    pub params: usize,
    pub results: usize,
    pub sig: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add, Sub, Mul, DivS, DivU, RemS, RemU, And, Or, Xor, Shl, ShrS, ShrU, Rotl, Rotr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Eq, Ne, LtS, LtU, GtS, GtU, LeS, LeU, GeS, GeU,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Clz, Ctz, Popcnt,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    Nop,
    Br { pc: u32, arity: u32, height: u32 },
    BrIf { pc: u32, arity: u32, height: u32 },
    /// jump to pc when the popped condition is zero (no stack shuffle)
    BrIfZ { pc: u32 },
    BrTable { idx: u32 },
    Return,
    Call(u32),
    CallIndirect { ty: u32 },
    Drop,
    Select,
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    /// load: bytes, result width bits (32/64), sign
    Load { off: u32, bytes: u8, w: u8, sx: bool },
    Store { off: u32, bytes: u8, w: u8 },
    MemSize,
    MemGrow,
    MemCopy,
    MemFill,
    Const(u64),
    Eqz(u8),
    Cmp(u8, Cmp),
    Bin(u8, Bin),
    Un(u8, Un),
    Wrap,
    ExtS,
    ExtU,
    /// sign-extend low `from` bits within width w
    Sext { from: u8, w: u8 },
    Reinterpret,
    /// any float operation: the raw opcode (0xFCxx for the prefixed ones)
    Float(u16),
    // fused forms
    LocalGet2(u32, u32),
    LgConstBin(u32, u32, u8, Bin),
    LgLoad { l: u32, off: u32, bytes: u8, w: u8, sx: bool },
}

#[derive(Clone, Debug, Default)]
pub struct Target {
    pub pc: u32,
    pub arity: u32,
    pub height: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub ty: usize,
    pub nparams: usize,
    pub nlocals: usize, // including params
    pub nresults: usize,
    pub code: Vec<Op>,
    pub tables: Vec<Vec<Target>>,
    pub name: String,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<(String, String, usize)>,
    pub funcs: Vec<Func>, // defined functions; index space offset by imports.len()
    pub table: Vec<Option<u32>>,
    pub mem_pages: u32,
    pub globals: Vec<u64>,
    pub exports: Vec<(String, u32)>,
    pub data: Vec<(u32, Vec<u8>)>,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn u32(&mut self) -> u32 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                break;
            }
        }
        r as u32
    }
    fn s64(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                break;
            }
        }
        r
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let v = &self.b[self.p..self.p + n];
        self.p += n;
        v
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn limits(&mut self) -> u32 {
        let f = self.u8();
        let min = self.u32();
        if f & 1 != 0 {
            self.u32();
        }
        min
    }
    fn const_expr(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0u64;
        loop {
            match self.u8() {
                0x41 => v = self.s64() as u32 as u64,
                0x42 => v = self.s64() as u64,
                0x43 => v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64,
                0x44 => v = u64::from_le_bytes(self.bytes(8).try_into().unwrap()),
                0x23 => {
                    let g = self.u32();
                    v = globals[g as usize]
                }
                0xd2 => v = self.u32() as u64,
                0x0b => return v,
                o => panic!("const expr opcode {o:x}"),
            }
        }
    }
}

pub fn parse(b: &[u8]) -> Module {
    assert_eq!(&b[0..8], b"\0asm\x01\0\0\0");
    let mut r = R { b, p: 8 };
    let mut m = Module::default();
    let mut func_types: Vec<usize> = vec![];
    let mut code_at: Vec<(usize, usize)> = vec![];
    let mut names: Vec<(u32, String)> = vec![];
    while r.p < b.len() {
        let id = r.u8();
        let size = r.u32() as usize;
        let end = r.p + size;
        match id {
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u32() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            for _ in 0..r.u32() {
                                let i = r.u32();
                                let s = r.name();
                                names.push((i, s));
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                for _ in 0..r.u32() {
                    assert_eq!(r.u8(), 0x60);
                    let np = r.u32() as usize;
                    let mut sig = r.bytes(np).to_vec();
                    sig.push(0);
                    let nr = r.u32() as usize;
                    sig.extend_from_slice(r.bytes(nr));
                    m.types.push(FuncType { params: np, results: nr, sig });
                }
            }
            2 => {
                for _ in 0..r.u32() {
                    let md = r.name();
                    let nm = r.name();
                    match r.u8() {
                        0 => {
                            let t = r.u32() as usize;
                            m.imports.push((md, nm, t));
                        }
                        k => panic!("unsupported import kind {k}"),
                    }
                }
            }
            3 => {
                for _ in 0..r.u32() {
                    func_types.push(r.u32() as usize);
                }
            }
            4 => {
                let n = r.u32();
                assert!(n <= 1, "multiple tables");
                for _ in 0..n {
                    r.u8();
                    let min = r.limits();
                    m.table = vec![None; min as usize];
                }
            }
            5 => {
                assert_eq!(r.u32(), 1);
                m.mem_pages = r.limits();
            }
            6 => {
                for _ in 0..r.u32() {
                    r.u8();
                    r.u8();
                    let v = r.const_expr(&m.globals);
                    m.globals.push(v);
                }
            }
            7 => {
                for _ in 0..r.u32() {
                    let n = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    if k == 0 {
                        m.exports.push((n, i));
                    }
                }
            }
            8 => panic!("start section unsupported"),
            9 => {
                for _ in 0..r.u32() {
                    let flags = r.u32();
                    assert_eq!(flags, 0, "element segment kind {flags}");
                    let off = r.const_expr(&m.globals) as usize;
                    for i in 0..r.u32() as usize {
                        let f = r.u32();
                        m.table[off + i] = Some(f);
                    }
                }
            }
            10 => {
                for _ in 0..r.u32() {
                    let sz = r.u32() as usize;
                    code_at.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                for _ in 0..r.u32() {
                    let flags = r.u32();
                    assert_eq!(flags, 0, "data segment kind {flags}");
                    let off = r.const_expr(&m.globals) as u32;
                    let n = r.u32() as usize;
                    let d = r.bytes(n).to_vec();
                    m.data.push((off, d));
                }
            }
            12 => {
                r.u32();
            }
            _ => panic!("section {id}"),
        }
        r.p = end;
    }
    for (i, (s, e)) in code_at.iter().enumerate() {
        let ty = func_types[i];
        let f = compile(&m, &b[*s..*e], ty, &func_types);
        m.funcs.push(f);
    }
    let ni = m.imports.len() as u32;
    for (i, n) in names {
        if i >= ni && ((i - ni) as usize) < m.funcs.len() {
            m.funcs[(i - ni) as usize].name = n;
        }
    }
    m
}

struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 func
    height: u32,
    params: u32,
    results: u32,
    start: u32,
    fix: Vec<Fix>,
    else_fix: Option<usize>,
    unreachable: bool,
}
enum Fix {
    Op(usize),
    Tab(usize, usize),
}

fn compile(m: &Module, b: &[u8], ty: usize, func_types: &[usize]) -> Func {
    let mut r = R { b, p: 0 };
    let t = &m.types[ty];
    let mut nlocals = t.params;
    for _ in 0..r.u32() {
        let n = r.u32();
        r.u8();
        nlocals += n as usize;
    }
    let mut f = Func { ty, nparams: t.params, nlocals, nresults: t.results, ..Default::default() };
    let mut ctl: Vec<Ctl> = vec![Ctl {
        kind: 3, height: 0, params: 0, results: t.results as u32, start: 0, fix: vec![], else_fix: None, unreachable: false,
    }];
    let mut h: u32 = 0; // operand height
    let ni = m.imports.len();
    let mut barrier = 0usize; // no fusion across this code index
    macro_rules! emit {
        ($o:expr) => {
            f.code.push($o)
        };
    }
    fn block_type(r: &mut R, m: &Module) -> (u32, u32) {
        let v = r.s64();
        if v == -64 {
            (0, 0)
        } else if v < 0 {
            (0, 1)
        } else {
            let t = &m.types[v as usize];
            (t.params as u32, t.results as u32)
        }
    }
    loop {
        let op = r.u8();
        let dead = ctl.last().unwrap().unreachable;
        match op {
            0x00 => {
                emit!(Op::Unreachable);
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (p, q) = block_type(&mut r, m);
                let start = f.code.len() as u32;
                if op == 0x03 {
                    barrier = f.code.len();
                }
                ctl.push(Ctl {
                    kind: if op == 2 { 0 } else { 1 }, height: h.wrapping_sub(p), params: p, results: q, start, fix: vec![], else_fix: None, unreachable: dead,
                });
                if dead {
                    let c = ctl.last_mut().unwrap();
                    c.height = 0;
                    h = p;
                }
            }
            0x04 => {
                let (p, q) = block_type(&mut r, m);
                if !dead {
                    h -= 1;
                }
                emit!(Op::BrIfZ { pc: 0 });
                let at = f.code.len() - 1;
                ctl.push(Ctl {
                    kind: 2, height: if dead { 0 } else { h - p }, params: p, results: q, start: 0, fix: vec![], else_fix: Some(at), unreachable: dead,
                });
                if dead {
                    h = p;
                }
            }
            0x05 => {
                // else
                let n = f.code.len();
                let c = ctl.last_mut().unwrap();
                // jump over else part
                f.code.push(Op::Br { pc: 0, arity: c.results, height: c.height });
                c.fix.push(Fix::Op(n));
                let at = c.else_fix.take().unwrap();
                if let Op::BrIfZ { pc } = &mut f.code[at] {
                    *pc = n as u32 + 1;
                }
                h = c.height + c.params;
                let parent_dead = if ctl.len() >= 2 { ctl[ctl.len() - 2].unreachable } else { false };
                ctl.last_mut().unwrap().unreachable = parent_dead;
                barrier = f.code.len();
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let here = f.code.len() as u32;
                if let Some(at) = c.else_fix {
                    if let Op::BrIfZ { pc } = &mut f.code[at] {
                        *pc = here;
                    }
                }
                for x in c.fix {
                    match x {
                        Fix::Op(i) => match &mut f.code[i] {
                            Op::Br { pc, .. } | Op::BrIf { pc, .. } => *pc = here,
                            _ => unreachable!(),
                        },
                        Fix::Tab(t, i) => f.tables[t][i].pc = here,
                    }
                }
                barrier = f.code.len();
                if c.kind == 3 {
                    emit!(Op::Return);
                    break;
                }
                h = c.height + c.results;
            }
            0x0c | 0x0d => {
                let l = r.u32() as usize;
                if op == 0x0d && !dead {
                    h -= 1;
                }
                let n = f.code.len();
                let ci = ctl.len() - 1 - l;
                let c = &mut ctl[ci];
                let (arity, pc) = if c.kind == 1 { (c.params, c.start) } else { (c.results, 0) };
                let height = c.height;
                if c.kind != 1 {
                    c.fix.push(Fix::Op(n));
                }
                if op == 0x0c {
                    emit!(Op::Br { pc, arity, height });
                    let c = ctl.last_mut().unwrap();
                    c.unreachable = true;
                    h = c.height;
                } else {
                    emit!(Op::BrIf { pc, arity, height });
                }
            }
            0x0e => {
                let n = r.u32() as usize;
                let ti = f.tables.len();
                let mut tab = vec![];
                for i in 0..=n {
                    let l = r.u32() as usize;
                    let ci = ctl.len() - 1 - l;
                    let c = &mut ctl[ci];
                    let (arity, pc) = if c.kind == 1 { (c.params, c.start) } else { (c.results, 0) };
                    if c.kind != 1 {
                        c.fix.push(Fix::Tab(ti, i));
                    }
                    tab.push(Target { pc, arity, height: c.height });
                }
                f.tables.push(tab);
                emit!(Op::BrTable { idx: ti as u32 });
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x0f => {
                emit!(Op::Return);
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x10 => {
                let i = r.u32() as usize;
                let t = if i < ni { &m.types[m.imports[i].2] } else { &m.types[func_types[i - ni]] };
                emit!(Op::Call(i as u32));
                if !dead {
                    h = h - t.params as u32 + t.results as u32;
                }
            }
            0x11 => {
                let ti = r.u32() as usize;
                r.u32();
                let t = &m.types[ti];
                emit!(Op::CallIndirect { ty: ti as u32 });
                if !dead {
                    h = h - 1 - t.params as u32 + t.results as u32;
                }
            }
            0x1a => {
                emit!(Op::Drop);
                if !dead {
                    h -= 1;
                }
            }
            0x1b | 0x1c => {
                if op == 0x1c {
                    for _ in 0..r.u32() {
                        r.u8();
                    }
                }
                emit!(Op::Select);
                if !dead {
                    h -= 2;
                }
            }
            0x20 => {
                let i = r.u32();
                let n = f.code.len();
                if n > barrier && matches!(f.code[n - 1], Op::LocalGet(_)) {
                    if let Op::LocalGet(j) = f.code[n - 1] {
                        f.code[n - 1] = Op::LocalGet2(j, i);
                    }
                } else {
                    emit!(Op::LocalGet(i));
                }
                h += 1;
            }
            0x21 => {
                emit!(Op::LocalSet(r.u32()));
                if !dead {
                    h -= 1;
                }
            }
            0x22 => emit!(Op::LocalTee(r.u32())),
            0x23 => {
                emit!(Op::GlobalGet(r.u32()));
                h += 1;
            }
            0x24 => {
                emit!(Op::GlobalSet(r.u32()));
                if !dead {
                    h -= 1;
                }
            }
            0x28..=0x35 => {
                r.u32();
                let off = r.u32();
                let (bytes, w, sx) = match op {
                    0x28 | 0x2a => (4, 32, false),
                    0x29 | 0x2b => (8, 64, false),
                    0x2c => (1, 32, true),
                    0x2d => (1, 32, false),
                    0x2e => (2, 32, true),
                    0x2f => (2, 32, false),
                    0x30 => (1, 64, true),
                    0x31 => (1, 64, false),
                    0x32 => (2, 64, true),
                    0x33 => (2, 64, false),
                    0x34 => (4, 64, true),
                    _ => (4, 64, false),
                };
                let n = f.code.len();
                match f.code.last() {
                    Some(Op::LocalGet(l)) if n > barrier => {
                        let l = *l;
                        f.code[n - 1] = Op::LgLoad { l, off, bytes, w, sx };
                    }
                    _ => emit!(Op::Load { off, bytes, w, sx }),
                }
            }
            0x36..=0x3e => {
                r.u32();
                let off = r.u32();
                let (bytes, w) = match op {
                    0x36 | 0x38 => (4, 32),
                    0x37 | 0x39 => (8, 64),
                    0x3a => (1, 32),
                    0x3b => (2, 32),
                    0x3c => (1, 64),
                    0x3d => (2, 64),
                    _ => (4, 64),
                };
                emit!(Op::Store { off, bytes, w });
                if !dead {
                    h -= 2;
                }
            }
            0x3f => {
                r.u8();
                emit!(Op::MemSize);
                h += 1;
            }
            0x40 => {
                r.u8();
                emit!(Op::MemGrow);
            }
            0x41 => {
                emit!(Op::Const(r.s64() as u32 as u64));
                h += 1;
            }
            0x42 => {
                emit!(Op::Const(r.s64() as u64));
                h += 1;
            }
            0x43 => {
                emit!(Op::Const(u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64));
                h += 1;
            }
            0x44 => {
                emit!(Op::Const(u64::from_le_bytes(r.bytes(8).try_into().unwrap())));
                h += 1;
            }
            0x45 => emit!(Op::Eqz(32)),
            0x50 => emit!(Op::Eqz(64)),
            0x46..=0x4f | 0x51..=0x5a => {
                let (w, k) = if op <= 0x4f { (32, op - 0x46) } else { (64, op - 0x51) };
                let c = [Cmp::Eq, Cmp::Ne, Cmp::LtS, Cmp::LtU, Cmp::GtS, Cmp::GtU, Cmp::LeS, Cmp::LeU, Cmp::GeS, Cmp::GeU][k as usize];
                emit!(Op::Cmp(w, c));
                if !dead {
                    h -= 1;
                }
            }
            0x5b..=0x66 | 0x92..=0x98 | 0xa0..=0xa6 => {
                emit!(Op::Float(op as u16));
                if !dead {
                    h -= 1;
                }
            }
            0x67..=0x69 => emit!(Op::Un(32, [Un::Clz, Un::Ctz, Un::Popcnt][(op - 0x67) as usize])),
            0x79..=0x7b => emit!(Op::Un(64, [Un::Clz, Un::Ctz, Un::Popcnt][(op - 0x79) as usize])),
            0x6a..=0x78 | 0x7c..=0x8a => {
                let (w, k) = if op <= 0x78 { (32, op - 0x6a) } else { (64, op - 0x7c) };
                let bn = [
                    Bin::Add, Bin::Sub, Bin::Mul, Bin::DivS, Bin::DivU, Bin::RemS, Bin::RemU, Bin::And, Bin::Or, Bin::Xor, Bin::Shl,
                    Bin::ShrS, Bin::ShrU, Bin::Rotl, Bin::Rotr,
                ][k as usize];
                let n = f.code.len();
                let mut fused = false;
                if n >= 2 && n - 2 >= barrier {
                    if let (Op::LocalGet(l), Op::Const(c)) = (f.code[n - 2], f.code[n - 1]) {
                        if w == 32 {
                            f.code.truncate(n - 2);
                            f.code.push(Op::LgConstBin(l, c as u32, w, bn));
                            fused = true;
                        }
                    }
                }
                if !fused {
                    emit!(Op::Bin(w, bn));
                }
                if !dead {
                    h -= 1;
                }
            }
            0x8b..=0x91 | 0x99..=0x9f | 0xa8..=0xab | 0xae..=0xb1 | 0xb2..=0xb6 | 0xb7..=0xbb => emit!(Op::Float(op as u16)),
            0xa7 => emit!(Op::Wrap),
            0xac => emit!(Op::ExtS),
            0xad => emit!(Op::ExtU),
            0xbc..=0xbf => emit!(Op::Reinterpret),
            0xc0 => emit!(Op::Sext { from: 8, w: 32 }),
            0xc1 => emit!(Op::Sext { from: 16, w: 32 }),
            0xc2 => emit!(Op::Sext { from: 8, w: 64 }),
            0xc3 => emit!(Op::Sext { from: 16, w: 64 }),
            0xc4 => emit!(Op::Sext { from: 32, w: 64 }),
            0xfc => {
                let s = r.u32();
                match s {
                    0..=7 => emit!(Op::Float(0xfc00 | s as u16)),
                    10 => {
                        r.u8();
                        r.u8();
                        emit!(Op::MemCopy);
                        if !dead {
                            h -= 3;
                        }
                    }
                    11 => {
                        r.u8();
                        emit!(Op::MemFill);
                        if !dead {
                            h -= 3;
                        }
                    }
                    _ => panic!("fc opcode {s}"),
                }
            }
            o => panic!("unsupported opcode {o:#x}"),
        }
    }
    f
}
