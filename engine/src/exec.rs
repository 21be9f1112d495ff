//! The symbolic executor: interpreter, path forking, externals and harness intrinsics.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub struct Slot {
    pub c: u64,
    pub s: T,
}
#[inline(always)]
fn k(c: u64) -> Slot {
    Slot { c, s: 0 }
}
#[inline(always)]
fn m64(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}
#[inline(always)]
fn sx(v: u64, bits: u32) -> i64 {
    let sh = 64 - bits;
    ((v << sh) as i64) >> sh
}

pub const HEAP_BASE: u64 = 0x1000_0000;
pub const HEAP_END: u64 = 0x5000_0000;
pub const STACK_BASE: u64 = 0x6000_0000;
pub const STACK_SIZE: u64 = 8 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Free,
    Bcmp,
    Memcmp,
    Strlen,
    Write,
    Errno,
    ClockGettime,
    GetRandom,
    Dlsym,
    Syscall,
    Zero,    // returns 0
    MinusOne,
    Getenv,
    Abort,
    PanicFmt,
    AllocErr,
    Exit,
    Pow,
    Powf,
    Fmod,
    Fmodf,
    SMake,
    SAssume,
    SAssert,
    SFail,
    SCover,
    SNote,
    SEnd,
    SConc,
    SIsSym,
    SLive,
    SLiveBlocks,
    SFuel,
    SHashXor,
    SNative,
    SSteps,
    SDebug,
    SFixed,
    SInit,
    Unknown,
}

/// the harness defines `exit`
pub static OWN_EXIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn has_external(name: &str) -> bool {
    matches!(ext_lookup(name, false), Some(e) if e != Ext::Unknown)
}

/// None: call the definition in the module
pub fn ext_lookup(n: &str, defined: bool) -> Option<Ext> {
    if defined {
        if n.contains("4core9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") {
            return Some(Ext::PanicFmt);
        }
        if n.contains("RNvNtCs") && n.ends_with("3std7process4exit") && !OWN_EXIT.load(std::sync::atomic::Ordering::Relaxed) {
            return Some(Ext::Exit);
        }
        if n.contains("18handle_alloc_error") || n.contains("17rust_begin_unwind") || n.contains("20rust_panic_with_hook") || n.contains("12___rust_abort") {
            return Some(Ext::AllocErr);
        }
        return None;
    }
    Some(match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "posix_memalign" => Ext::Memalign,
        "free" => Ext::Free,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "write" => Ext::Write,
        "__errno_location" => Ext::Errno,
        "clock_gettime" => Ext::ClockGettime,
        "getrandom" => Ext::GetRandom,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "sigaltstack" | "mprotect" | "munmap" | "pthread_attr_destroy" => Ext::Zero,
        "getenv" => Ext::Getenv,
        "abort" => Ext::Abort,
        "exit" | "_exit" => Ext::Exit,
        "pow" => Ext::Pow,
        "powf" => Ext::Powf,
        "fmod" => Ext::Fmod,
        "fmodf" => Ext::Fmodf,
        "dlsym" => Ext::Dlsym,
        "syscall" => Ext::Syscall,
        "__symx_make" => Ext::SMake,
        "__symx_assume" => Ext::SAssume,
        "__symx_assert" => Ext::SAssert,
        "__symx_fail" => Ext::SFail,
        "__symx_cover" => Ext::SCover,
        "__symx_note" => Ext::SNote,
        "__symx_end" => Ext::SEnd,
        "__symx_concretize" => Ext::SConc,
        "__symx_is_symbolic" => Ext::SIsSym,
        "__symx_live_bytes" => Ext::SLive,
        "__symx_live_blocks" => Ext::SLiveBlocks,
        "__symx_fuel" => Ext::SFuel,
        "__symx_hash_xor" => Ext::SHashXor,
        "__symx_native" => Ext::SNative,
        "__symx_steps" => Ext::SSteps,
        "__symx_debug" => Ext::SDebug,
        "__symx_fixed" => Ext::SFixed,
        "__symx_init" => Ext::SInit,
        _ => Ext::Unknown,
    })
}

pub struct Frame {
    pub func: Rc<Func>,
    pub fid: u32,
    pub pc: u32,
    pub base: u32,
    pub ret: u32, // absolute register index in the caller's window
    pub sp: u64,  // stack pointer to restore on return
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame { func: self.func.clone(), fid: self.fid, pc: self.pc, base: self.base, ret: self.ret, sp: self.sp }
    }
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub bits: u32,
    pub t: T,
}

pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Slot>,
    pub mem: Mem,
    pub sp: u64,
    pub cs: Vec<T>,
    pub model: Rc<Model>,
    pub fixed: Vec<u64>, // bitset of variable ids
    pub inputs: Vec<Input>,
    pub brk: u64,
    pub bins: [u64; 64],
    pub live: u64,
    pub blocks: u64,
    pub steps: u64,
    pub fuel: u64,
    pub clock: u64,
    pub rnd: u64,
    pub hash_xor: u64,
    pub notes: Vec<Rc<(Vec<u8>, Vec<T>)>>,
    pub forks: u32,
    pub case: u64,
}
impl Clone for State {
    fn clone(&self) -> Self {
        let top = self.frames.last().map_or(0, |f| f.base + f.func.nregs) as usize;
        State {
            frames: self.frames.clone(),
            regs: self.regs[..top.min(self.regs.len())].to_vec(),
            mem: self.mem.clone(),
            sp: self.sp,
            cs: self.cs.clone(),
            model: self.model.clone(),
            fixed: self.fixed.clone(),
            inputs: self.inputs.clone(),
            brk: self.brk,
            bins: self.bins,
            live: self.live,
            blocks: self.blocks,
            steps: self.steps,
            fuel: self.fuel,
            clock: self.clock,
            rnd: self.rnd,
            hash_xor: self.hash_xor,
            notes: self.notes.clone(),
            forks: self.forks,
            case: self.case,
        }
    }
}
impl State {
    pub fn is_fixed(&self, v: u32) -> bool {
        self.fixed.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1)
    }
    pub fn fix(&mut self, v: u32) {
        let i = v as usize / 64;
        if self.fixed.len() <= i {
            self.fixed.resize(i + 1, 0);
        }
        self.fixed[i] |= 1 << (v % 64);
    }
}

#[derive(Debug)]
pub enum Stop {
    Infeasible,
    Done,
    Abandon,
    /// path ended with a reportable failure: kind, message
    Bad(&'static str, String),
    /// engine limitation: path not covered
    Limit(String),
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::Bad("memory-fault", format!("access to unmapped address {:#x}", f.0))
    }
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, u32, u64)>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
    pub count: u64,
    pub case: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub concretizations: u64,
    pub sym_branches: u64,
    pub max_cs: usize,
    pub limits: HashMap<String, u64>,
    pub covers: HashMap<String, u64>,
    pub pending: u64,
}

pub struct Exec {
    pub m: Module,
    pub tm: Terms,
    pub sv: Solver,
    pub stack: VecDeque<State>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub samples: Vec<Violation>,
    pub token_fd: [i32; 2],
    pub deadline: Instant,
    pub started: Instant,
    pub verbose: bool,
    pub used_fns: Vec<bool>,
    pub hash_hits: u64,
    pub max_viol: usize,
    pub printed: Vec<u8>,
    pub input_vars: HashMap<(usize, String, u32), T>,
}

extern "C" {
    fn pow(a: f64, b: f64) -> f64;
    fn powf(a: f32, b: f32) -> f32;
    fn fmod(a: f64, b: f64) -> f64;
    fn fmodf(a: f32, b: f32) -> f32;
    fn fork() -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
}

pub fn pretty(n: &str) -> String {
    // cheap v0/legacy demangling: list the identifiers
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n.to_string();
    }
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && i > 0 && (b[i - 1] == b'C' || b[i - 1] == b'N' || b[i - 1].is_ascii_lowercase()) {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(String::from_utf8_lossy(&b[j..j + l]).to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Exec {
    // ---------- terms and constraints ----------
    fn term(&mut self, s: Slot, bits: u32) -> T {
        if s.s != 0 {
            debug_assert_eq!(self.tm.bits(s.s), bits);
            s.s
        } else {
            self.tm.konst(s.c as u128, bits)
        }
    }
    fn slot(&self, t: T) -> Slot {
        match self.tm.is_const(t) {
            Some(v) => k(v as u64),
            None => Slot { c: 0, s: t },
        }
    }
    fn all_fixed(&self, st: &State, t: T) -> bool {
        self.tm.vars(t).iter().all(|&v| st.is_fixed(v))
    }
    fn norm(&self, st: &State, t: T) -> Slot {
        if let Some(v) = self.tm.is_const(t) {
            return k(v as u64);
        }
        if !st.fixed.is_empty() && self.all_fixed(st, t) {
            return k(st.model.eval(&self.tm, t) as u64);
        }
        Slot { c: 0, s: t }
    }
    fn slice(&mut self, st: &State, cond: T) -> Vec<T> {
        let mut seen: Vec<u32> = vec![];
        let mut work: Vec<u32> = vec![];
        let mut out = vec![cond];
        let add = |v: u32, seen: &mut Vec<u32>, work: &mut Vec<u32>| {
            if !seen.contains(&v) {
                seen.push(v);
                work.push(v);
            }
        };
        let mut fixed: Vec<u32> = vec![];
        for &v in self.tm.vars(cond).iter() {
            add(v, &mut seen, &mut work);
        }
        let mut used = vec![false; st.cs.len()];
        while let Some(v) = work.pop() {
            if st.is_fixed(v) {
                fixed.push(v);
                continue;
            }
            for (i, &c) in st.cs.iter().enumerate() {
                if !used[i] && self.tm.vars(c).binary_search(&v).is_ok() {
                    used[i] = true;
                    out.push(c);
                    let vs = self.tm.vars(c).clone();
                    for &w in vs.iter() {
                        add(w, &mut seen, &mut work);
                    }
                }
            }
        }
        for v in fixed {
            let val = st.model.var(v);
            let (_, b, t) = self.tm.var_names[v as usize].clone();
            let kc = self.tm.konst(val as u128, b as u32);
            let e = self.tm.bin(Op::Eq, t, kc);
            out.push(e);
        }
        out
    }
    /// is cond satisfiable together with the path condition?
    fn feasible(&mut self, st: &State, cond: T) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.tm.is_const(cond) {
            return Ok(if v != 0 { Some(st.model.clone()) } else { None });
        }
        let cs = self.slice(st, cond);
        match self.sv.check(&self.tm, cs.clone()) {
            Res::Sat(h) => {
                let mut m = Model { vals: st.model.vals.clone(), cache: Default::default() };
                for (a, b) in h.iter() {
                    m.vals.insert(*a, *b);
                }
                for &c in &cs {
                    if m.eval(&self.tm, c) == 0 {
                        return Err(Stop::Limit("solver model rejected by term evaluator".into()));
                    }
                }
                Ok(Some(Rc::new(m)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Limit("solver: unknown".into())),
        }
    }
    fn limit(&mut self, s: &str) {
        *self.st.limits.entry(s.to_string()).or_insert(0) += 1;
    }
    fn add_cs(&mut self, st: &mut State, c: T) {
        if self.tm.is_const(c).is_some() {
            return;
        }
        // conjunctions are split for better slicing
        let n = self.tm.n(c);
        if n.op == Op::And && n.bits == 1 {
            self.add_cs(st, n.a);
            self.add_cs(st, n.b);
            return;
        }
        if n.op == Op::Eq && self.tm.is_const(n.b).is_some() {
            let a = self.tm.n(n.a);
            if a.op == Op::Var {
                st.fix(a.k as u32);
            }
        } else if n.bits == 1 && n.op == Op::Var {
            st.fix(n.k as u32);
        } else if n.op == Op::Xor && n.bits == 1 && self.tm.is_const(n.b) == Some(1) {
            let a = self.tm.n(n.a);
            if a.op == Op::Var {
                st.fix(a.k as u32);
            }
        }
        if !st.cs.contains(&c) {
            st.cs.push(c);
        }
        self.st.max_cs = self.st.max_cs.max(st.cs.len());
    }
    /// queue an alternative state, possibly handing work to another process
    fn push(&mut self, s: State) -> R<()> {
        self.st.forks += 1;
        self.stack.push_back(s);
        self.try_split()
    }
    fn try_split(&mut self) -> R<()> {
        if self.token_fd[0] < 0 || self.started.elapsed().as_millis() < 30 {
            return Ok(());
        }
        let mut b = [0u8; 1];
        let r = unsafe { read(self.token_fd[0], b.as_mut_ptr(), 1) };
        if r != 1 {
            return Ok(());
        }
        let oldest = self.stack.pop_front().unwrap();
        let pid = unsafe { fork() };
        if pid == 0 {
            self.stack.clear();
            self.stack.push_back(oldest);
            self.st = Stats::default();
            self.violations.clear();
            self.samples.clear();
            self.sv.reset_stats();
            self.started = Instant::now();
            self.hash_hits = 0;
            return Err(Stop::Abandon);
        }
        if pid < 0 {
            self.stack.push_front(oldest);
            crate::put_token(self.token_fd[1]);
        }
        Ok(())
    }
    /// decide a symbolic 1-bit condition: returns the direction taken, queues the other one.
    /// `alt` edits the other state.
    fn decide(&mut self, st: &mut State, c: T, alt: &mut dyn FnMut(&mut State)) -> R<bool> {
        self.st.sym_branches += 1;
        let v = st.model.eval(&self.tm, c) != 0;
        if self.all_fixed(st, c) {
            return Ok(v);
        }
        let nc = self.tm.not1(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other) {
            Ok(Some(m)) => {
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.add_cs(&mut o, other);
                alt(&mut o);
                self.add_cs(st, mine);
                st.forks += 1;
                self.push(o)?;
            }
            Ok(None) => {}
            Err(Stop::Limit(s)) => {
                self.limit(&s);
                self.add_cs(st, mine);
            }
            Err(e) => return Err(e),
        }
        Ok(v)
    }
    /// force a value to be concrete; the frame's pc must point at the current instruction
    pub fn conc(&mut self, st: &mut State, s: Slot) -> R<u64> {
        if s.s == 0 {
            return Ok(s.c);
        }
        if self.all_fixed(st, s.s) {
            return Ok(st.model.eval(&self.tm, s.s) as u64);
        }
        if self.tm.size[s.s as usize] > 300 {
            let vs = self.tm.vars(s.s).clone();
            for &v in vs.iter() {
                if !st.is_fixed(v) {
                    let t = self.tm.var_names[v as usize].2;
                    self.conc1(st, t)?;
                }
            }
            return Ok(st.model.eval(&self.tm, s.s) as u64);
        }
        self.conc1(st, s.s)
    }
    fn conc1(&mut self, st: &mut State, t: T) -> R<u64> {
        self.st.concretizations += 1;
        let v = st.model.eval(&self.tm, t);
        let bits = self.tm.bits(t);
        let kc = self.tm.konst(v, bits);
        let eq = self.tm.bin(Op::Eq, t, kc);
        if self.tm.is_const(eq).is_some() {
            return Ok(v as u64);
        }
        self.decide(st, eq, &mut |_| {})?;
        // when t cannot differ from v under the path condition a variable is pinned
        if self.tm.n(t).op == Op::Var {
            self.add_cs(st, eq);
        }
        Ok(v as u64)
    }

    // ---------- memory ----------
    fn load(&mut self, st: &mut State, p: Slot, bytes: u32, bits: u32) -> R<Slot> {
        if p.s != 0 {
            if let Some(s) = self.load_table(st, p.s, bytes, bits)? {
                return Ok(s);
            }
        }
        let a = self.conc(st, p)?;
        self.load_at(st, a, bytes, bits)
    }
    fn load_at(&mut self, st: &State, a: u64, bytes: u32, bits: u32) -> R<Slot> {
        if let Some(v) = st.mem.read(a, bytes)? {
            return Ok(k(v & m64(bits)));
        }
        let mut t = 0;
        for i in (0..bytes).rev() {
            let (c, s) = st.mem.byte(a + i as u64)?;
            let b = if s != 0 { s } else { self.tm.konst(c as u128, 8) };
            t = if t == 0 { b } else { self.tm.concat(t, b) };
        }
        if bits < bytes * 8 {
            t = self.tm.extract(t, 0, bits);
        }
        Ok(self.norm(st, t))
    }
    /// loads through a symbolic address with few candidates become an if-then-else chain
    fn load_table(&mut self, st: &State, t: T, bytes: u32, bits: u32) -> R<Option<Slot>> {
        let (lo, hi) = self.tm.urange(t);
        if hi - lo > 4096 {
            return Ok(None);
        }
        // stride
        let mut stride = 1u64;
        let mut x = t;
        loop {
            let n = self.tm.n(x);
            match n.op {
                Op::Add if self.tm.is_const(n.b).is_some() => x = n.a,
                Op::Mul => {
                    if let Some(c) = self.tm.is_const(n.b) {
                        stride = c as u64;
                    }
                    break;
                }
                Op::Shl => {
                    if let Some(c) = self.tm.is_const(n.b) {
                        if c < 12 {
                            stride = 1 << c;
                        }
                    }
                    break;
                }
                Op::Concat => {
                    if self.tm.is_const(n.b) == Some(0) {
                        stride = 1 << self.tm.bits(n.b).min(12);
                    }
                    break;
                }
                Op::ZExt => x = n.a,
                _ => break,
            }
        }
        let stride = stride.max(1);
        if (hi - lo) % stride != 0 || (hi - lo) / stride > 256 {
            return Ok(None);
        }
        let mut a = hi;
        let mut acc: T = 0;
        loop {
            let v = match st.mem.read(a, bytes) {
                Ok(Some(v)) => {
                    let v = v & m64(bits);
                    self.tm.konst(v as u128, bits)
                }
                Ok(None) => {
                    let s = self.load_at(st, a, bytes, bits)?;
                    self.term(s, bits)
                }
                Err(_) => return Ok(None),
            };
            if acc == 0 {
                acc = v;
            } else {
                let kc = self.tm.konst(a as u128, 64);
                let c = self.tm.bin(Op::Eq, t, kc);
                acc = self.tm.ite(c, v, acc);
            }
            if a == lo {
                break;
            }
            a -= stride;
        }
        Ok(Some(self.slot(acc)))
    }
    fn store_at(&mut self, st: &mut State, a: u64, v: Slot, bytes: u32, bits: u32) -> R<()> {
        if v.s == 0 {
            st.mem.write(a, bytes, v.c)?;
            return Ok(());
        }
        let t = if bits < bytes * 8 { self.tm.zext(v.s, bytes * 8) } else { v.s };
        for i in 0..bytes {
            let b = self.tm.extract(t, 8 * i, 8);
            match self.tm.is_const(b) {
                Some(c) => st.mem.write(a + i as u64, 1, c as u64)?,
                None => st.mem.write_sym(a + i as u64, b)?,
            }
        }
        Ok(())
    }
    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(100_000) {
            match st.mem.byte(p + i) {
                Ok((c, 0)) => v.push(c),
                Ok((_, t)) => v.push(st.model.eval(&self.tm, t) as u8),
                Err(_) => break,
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        if n > 200 << 20 {
            return Err(Stop::Bad("huge-allocation", format!("allocation of {n} bytes")));
        }
        let n = n.max(1);
        st.live += n;
        st.blocks += 1;
        if align <= 16 {
            let sz = (n + 15) / 16 * 16;
            // classes: exact multiples of 16 up to 512, then powers of two
            let (cls, csz) = size_class(sz);
            if let Some(c) = cls {
                let h = st.bins[c];
                if h != 0 {
                    let next = st.mem.read(h, 8)?.unwrap();
                    st.bins[c] = next;
                    st.mem.write(h - 16, 8, n)?;
                    return Ok(h);
                }
            }
            let a = st.brk + 16;
            st.brk = a + csz;
            if st.brk >= HEAP_END {
                return Err(Stop::Limit("simulated heap exhausted".into()));
            }
            st.mem.map(a - 16, csz + 16);
            st.mem.write(a - 16, 8, n)?;
            st.mem.write(a - 8, 8, 0)?;
            return Ok(a);
        }
        let a = (st.brk + 16 + align - 1) / align * align;
        let sz = (n + 15) / 16 * 16;
        st.brk = a + sz;
        if st.brk >= HEAP_END {
            return Err(Stop::Limit("simulated heap exhausted".into()));
        }
        st.mem.map(a - 16, sz + 16);
        st.mem.write(a - 16, 8, n)?;
        st.mem.write(a - 8, 8, 1)?; // aligned block: never recycled
        Ok(a)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let n = st.mem.read(p - 16, 8)?.unwrap_or(0);
        let al = st.mem.read(p - 8, 8)?.unwrap_or(0);
        if n == 0 {
            return Err(Stop::Bad("double-free", format!("free of {p:#x}")));
        }
        st.live -= n;
        st.blocks -= 1;
        st.mem.write(p - 16, 8, 0)?;
        if al == 0 {
            let (cls, _) = size_class((n + 15) / 16 * 16);
            if let Some(c) = cls {
                st.mem.write(p, 8, st.bins[c])?;
                st.bins[c] = p;
            }
        }
        Ok(())
    }

    // ---------- symbolic operators ----------
    fn sym_bin(&mut self, st: &State, op: BinOp, bits: u32, a: Slot, b: Slot) -> R<Slot> {
        let (x, y) = (self.term(a, bits), self.term(b, bits));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor | BinOp::Sip => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => return Err(Stop::Limit("symbolic float remainder".into())),
        };
        let t = if (o as u8) >= Op::FAdd as u8 { self.tm.fop2(o, x, y) } else { self.tm.bin(o, x, y) };
        Ok(self.norm(st, t))
    }
    fn sym_icmp(&mut self, p: Pred, bits: u32, a: Slot, b: Slot) -> T {
        let (x, y) = (self.term(a, bits), self.term(b, bits));
        self.t_icmp(p, x, y)
    }
    fn t_icmp(&mut self, p: Pred, x: T, y: T) -> T {
        match p {
            Pred::Eq => self.tm.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.tm.bin(Op::Eq, x, y);
                self.tm.not1(e)
            }
            Pred::Ult => self.tm.bin(Op::Ult, x, y),
            Pred::Ule => self.tm.bin(Op::Ule, x, y),
            Pred::Ugt => self.tm.bin(Op::Ult, y, x),
            Pred::Uge => self.tm.bin(Op::Ule, y, x),
            Pred::Slt => self.tm.bin(Op::Slt, x, y),
            Pred::Sle => self.tm.bin(Op::Sle, x, y),
            Pred::Sgt => self.tm.bin(Op::Slt, y, x),
            Pred::Sge => self.tm.bin(Op::Sle, y, x),
        }
    }
    fn sym_fcmp(&mut self, p: FPred, bits: u32, a: Slot, b: Slot) -> T {
        let (x, y) = (self.term(a, bits), self.term(b, bits));
        let tm = &mut self.tm;
        let (neg, base) = match p {
            FPred::False => return tm.konst(0, 1),
            FPred::True => return tm.konst(1, 1),
            FPred::Oeq => (false, FPred::Oeq),
            FPred::Une => (true, FPred::Oeq),
            FPred::Olt => (false, FPred::Olt),
            FPred::Uge => (true, FPred::Olt),
            FPred::Ole => (false, FPred::Ole),
            FPred::Ugt => (true, FPred::Ole),
            FPred::Ogt => (false, FPred::Ogt),
            FPred::Ule => (true, FPred::Ogt),
            FPred::Oge => (false, FPred::Oge),
            FPred::Ult => (true, FPred::Oge),
            FPred::Uno => (false, FPred::Uno),
            FPred::Ord => (true, FPred::Uno),
            FPred::One => (false, FPred::One),
            FPred::Ueq => (true, FPred::One),
        };
        let t = match base {
            FPred::Oeq => tm.fop2(Op::FEq, x, y),
            FPred::Olt => tm.fop2(Op::FLt, x, y),
            FPred::Ole => tm.fop2(Op::FLe, x, y),
            FPred::Ogt => tm.fop2(Op::FLt, y, x),
            FPred::Oge => tm.fop2(Op::FLe, y, x),
            FPred::Uno => tm.fop2(Op::FUno, x, y),
            _ => {
                let l = tm.fop2(Op::FLt, x, y);
                let g = tm.fop2(Op::FLt, y, x);
                tm.bin(Op::Or, l, g)
            }
        };
        if neg {
            tm.not1(t)
        } else {
            t
        }
    }
    fn sym_cast(&mut self, op: Cast, from: u32, to: u32, a: T) -> T {
        let tm = &mut self.tm;
        match op {
            Cast::ZExt => tm.zext(a, to),
            Cast::SExt => tm.sext(a, to),
            Cast::Trunc => tm.extract(a, 0, to),
            Cast::FToSI => tm.fop1(Op::FToSISat, a, to),
            Cast::FToUI => tm.fop1(Op::FToUISat, a, to),
            Cast::SIToF => tm.fop1(Op::SIToF, a, to),
            Cast::UIToF => tm.fop1(Op::UIToF, a, to),
            Cast::FExt => tm.fop1(Op::FExt, a, to),
            Cast::FTrunc => tm.fop1(Op::FTrunc, a, to),
            Cast::Bit => {
                debug_assert!(from == to);
                a
            }
        }
    }
    fn wide(&mut self, a: [Slot; 2], bits: u32) -> T {
        let lo = self.term(a[0], 64);
        let hi = self.term(a[1], bits - 64);
        self.tm.concat(hi, lo)
    }
    fn unwide(&mut self, t: T, bits: u32) -> [Slot; 2] {
        let lo = self.tm.extract(t, 0, 64);
        let hi = self.tm.extract(t, 64, bits - 64);
        [self.slot(lo), self.slot(hi)]
    }

    pub fn enter(&mut self, st: &mut State, fid: u32, args: &[Slot], ret: u32) -> R<()> {
        let f = match self.m.decode(fid) {
            Ok(f) => f,
            Err(e) => return Err(Stop::Limit(format!("decode: {e}"))),
        };
        self.used_fns[fid as usize] = true;
        let base = st.frames.last().map_or(0, |f| f.base + f.func.nregs);
        let need = (base + f.nregs) as usize;
        if st.regs.len() < need {
            st.regs.resize(need + 256, k(0));
        }
        for (i, a) in args.iter().enumerate() {
            st.regs[base as usize + i] = *a;
        }
        st.frames.push(Frame { func: f, fid, pc: 0, base, ret, sp: st.sp });
        Ok(())
    }

    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(40).map(|f| pretty(&f.func.name)).collect()
    }

    fn eval_notes(&self, st: &State, model: &Model) -> Vec<String> {
        st.notes
            .iter()
            .map(|n| {
                let b: Vec<u8> = n.0.iter().zip(n.1.iter()).map(|(c, t)| if *t == 0 { *c } else { model.eval(&self.tm, *t) as u8 }).collect();
                String::from_utf8_lossy(&b).to_string()
            })
            .collect()
    }

    /// a finished path kept for native replay (translator validation): a spread of early and late ones
    fn sample(&mut self, st: &State) {
        if self.samples.len() >= 24 || !self.st.paths.is_power_of_two() {
            return;
        }
        let model = st.model.clone();
        let inputs = st.inputs.iter().map(|i| (i.name.to_string(), i.bits, model.eval(&self.tm, i.t) as u64)).collect();
        let v = Violation { kind: "sample".into(), msg: String::new(), inputs, stack: vec![], notes: self.eval_notes(st, &model), count: 1, case: st.case };
        self.samples.push(v);
    }

    fn record(&mut self, st: &State, model: &Model, kind: &str, msg: String) {
        if let Some(v) = self.violations.iter_mut().find(|v| v.kind == kind && v.msg == msg) {
            v.count += 1;
            return;
        }
        if self.violations.len() >= self.max_viol {
            self.limit("violation list full");
            return;
        }
        let inputs = st.inputs.iter().map(|i| (i.name.to_string(), i.bits, model.eval(&self.tm, i.t) as u64)).collect();
        let v = Violation {
            kind: kind.into(),
            msg,
            inputs,
            stack: self.stack_trace(st),
            notes: self.eval_notes(st, model),
            count: 1,
            case: st.case,
        };
        if self.verbose {
            eprintln!("[symx] {} {} inputs={:?}\n   at {}\n   notes {:?}", v.kind, v.msg, v.inputs, v.stack.join("\n      "), v.notes);
        }
        self.violations.push(v);
    }

    /// explore everything reachable from the queued states
    pub fn explore(&mut self) {
        // mostly depth first, mixed with picks from anywhere: an exploration that the deadline cuts
        // short has then still seen every part of the tree
        let mut rnd: u64 = 0x9e37_79b9_7f4a_7c15;
        loop {
            let n = self.stack.len();
            rnd ^= rnd << 13;
            rnd ^= rnd >> 7;
            rnd ^= rnd << 17;
            if n > 2 && n < 700 && rnd & 1 == 0 {
                let i = (rnd >> 20) as usize % n;
                self.stack.swap(i, n - 1);
            }
            let Some(mut st) = self.stack.pop_back() else { break };
            if Instant::now() > self.deadline {
                self.st.pending += 1 + self.stack.len() as u64;
                self.stack.clear();
                break;
            }
            if !self.stack.is_empty() {
                self.stack.push_back(st);
                if self.try_split().is_err() {
                    continue;
                }
                st = self.stack.pop_back().unwrap();
            }
            let before = st.steps;
            let r = self.run(&mut st);
            self.st.steps += st.steps - before.min(st.steps);
            match r {
                Err(Stop::Abandon) => {
                    self.st.steps = 0;
                    continue;
                }
                Ok(()) | Err(Stop::Done) => {
                    self.st.paths += 1;
                    self.sample(&st);
                }
                Err(Stop::Infeasible) => self.st.infeasible += 1,
                Err(Stop::Bad(kind, msg)) => {
                    self.st.paths += 1;
                    let m = st.model.clone();
                    self.record(&st, &m, kind, msg);
                }
                Err(Stop::Limit(s)) => {
                    if self.verbose {
                        eprintln!("[symx] limit: {s}\n   at {}", self.stack_trace(&st).join("\n      "));
                    }
                    self.limit(&s);
                }
            }
        }
    }

    pub fn run(&mut self, st: &mut State) -> R<()> {
        let mut n: u64 = 0;
        let r = self.run_inner(st, &mut n);
        st.steps += n;
        r
    }

    #[allow(unused_assignments)]
    fn run_inner(&mut self, st: &mut State, nn: &mut u64) -> R<()> {
        let mut check = 0u32;
        'frame: loop {
            let fr = match st.frames.last() {
                Some(f) => f,
                None => return Ok(()),
            };
            let func: *const Func = Rc::as_ptr(&fr.func);
            let func: &Func = unsafe { &*func };
            let ops: *const I = func.ops.as_ptr();
            let consts: *const u64 = func.consts.as_ptr();
            let base = fr.base;
            let regs: *mut Slot = unsafe { st.regs.as_mut_ptr().add(base as usize) };
            let mut pc = fr.pc;
            macro_rules! get {
                ($o:expr) => {{
                    let o: u32 = $o;
                    unsafe {
                        if o & CBIT != 0 {
                            k(*consts.add((o & !CBIT) as usize))
                        } else {
                            *regs.add(o as usize)
                        }
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v: Slot = $v;
                    unsafe {
                        *regs.add($d as usize) = v;
                    }
                }};
            }
            // make the frame point at the current instruction (for re-execution after a fork)
            macro_rules! sync {
                () => {{
                    st.frames.last_mut().unwrap().pc = pc - 1;
                }};
            }
            macro_rules! take {
                ($e:expr) => {{
                    let e: &Edge = &func.edges[$e as usize];
                    if e.hazard {
                        let tmp: Vec<Slot> = e.moves.iter().map(|m| get!(m.1)).collect();
                        for (m, v) in e.moves.iter().zip(tmp) {
                            set!(m.0, v);
                        }
                    } else {
                        for m in &e.moves {
                            set!(m.0, get!(m.1));
                        }
                    }
                    pc = e.pc;
                }};
            }
            loop {
                *nn += 1;
                let op = unsafe { &*ops.add(pc as usize) };
                pc += 1;
                match op {
                    I::Load { dst, p, bytes, bits } => {
                        let a = get!(*p);
                        if a.s == 0 {
                            match st.mem.read(a.c, *bytes) {
                                Ok(Some(v)) => {
                                    set!(*dst, k(v & m64(*bits)));
                                    continue;
                                }
                                _ => {}
                            }
                        }
                        sync!();
                        let v = self.load(st, a, *bytes, *bits)?;
                        set!(*dst, v);
                    }
                    I::Store { v, p, bytes, bits } => {
                        let a = get!(*p);
                        let x = get!(*v);
                        if a.s | x.s == 0 {
                            if st.mem.write(a.c, *bytes, x.c).is_ok() {
                                continue;
                            }
                        }
                        sync!();
                        let a = self.conc(st, a)?;
                        self.store_at(st, a, x, *bytes, *bits)?;
                    }
                    I::Gep0 { dst, p, off } => {
                        let a = get!(*p);
                        if a.s == 0 {
                            set!(*dst, k(a.c.wrapping_add(*off as u64)));
                        } else {
                            let o = self.tm.konst(*off as u64 as u128, 64);
                            let t = self.tm.bin(Op::Add, a.s, o);
                            set!(*dst, self.slot(t));
                        }
                    }
                    I::Gep1 { dst, p, off, idx, scale, bits } => {
                        let a = get!(*p);
                        let i = get!(*idx);
                        if a.s | i.s == 0 {
                            set!(*dst, k(a.c.wrapping_add(*off as u64).wrapping_add((sx(i.c, *bits)).wrapping_mul(*scale) as u64)));
                        } else {
                            let t = self.gep_sym(a, *off, &[(i, *scale, *bits)]);
                            set!(*dst, self.slot(t));
                        }
                    }
                    I::Gep { dst, p, off, terms } => {
                        let a = get!(*p);
                        let v: Vec<(Slot, i64, u32)> = terms.iter().map(|t| (get!(t.0), t.1, t.2)).collect();
                        if a.s == 0 && v.iter().all(|x| x.0.s == 0) {
                            let mut r = a.c.wrapping_add(*off as u64);
                            for (i, s, b) in v {
                                r = r.wrapping_add(sx(i.c, b).wrapping_mul(s) as u64);
                            }
                            set!(*dst, k(r));
                        } else {
                            let t = self.gep_sym(a, *off, &v);
                            set!(*dst, self.slot(t));
                        }
                    }
                    I::Br(e) => {
                        take!(*e);
                        check += 1;
                        if check >= 4096 {
                            check = 0;
                            if st.steps + *nn > st.fuel {
                                st.frames.last_mut().unwrap().pc = pc;
                                return Err(Stop::Bad("hang", format!("more than {} instructions executed on one path", st.fuel)));
                            }
                            if Instant::now() > self.deadline {
                                self.st.pending += 1;
                                return Err(Stop::Limit("deadline".into()));
                            }
                        }
                    }
                    I::CondBr { c, t, f } => {
                        let v = get!(*c);
                        if v.s == 0 {
                            check += 1;
                            if check >= 4096 {
                                check = 0;
                                if st.steps + *nn > st.fuel {
                                    sync!();
                                    return Err(Stop::Bad("hang", format!("more than {} instructions executed on one path", st.fuel)));
                                }
                                if Instant::now() > self.deadline {
                                    self.st.pending += 1;
                                    return Err(Stop::Limit("deadline".into()));
                                }
                            }
                            if v.c & 1 != 0 {
                                take!(*t)
                            } else {
                                take!(*f)
                            }
                        } else {
                            sync!();
                            let (te, fe) = (*t, *f);
                            // the alternative re-executes the branch with its condition made concrete
                            let creg = *c;
                            let mv = st.model.eval(&self.tm, v.s) != 0;
                            let d = self.decide(st, v.s, &mut |o: &mut State| {
                                let b = o.frames.last().unwrap().base as usize;
                                o.regs[b + creg as usize] = k(!mv as u64);
                            })?;
                            set!(creg, k(d as u64));
                            if d {
                                take!(te)
                            } else {
                                take!(fe)
                            }
                        }
                    }
                    I::Icmp { p, bits, dst, a, b, lanes } => {
                        for l in 0..*lanes {
                            let x = get!(*a + l);
                            let y = get!(*b + l);
                            if x.s | y.s == 0 {
                                let r = match p {
                                    Pred::Eq => x.c == y.c,
                                    Pred::Ne => x.c != y.c,
                                    Pred::Ult => x.c < y.c,
                                    Pred::Ule => x.c <= y.c,
                                    Pred::Ugt => x.c > y.c,
                                    Pred::Uge => x.c >= y.c,
                                    Pred::Slt => sx(x.c, *bits) < sx(y.c, *bits),
                                    Pred::Sle => sx(x.c, *bits) <= sx(y.c, *bits),
                                    Pred::Sgt => sx(x.c, *bits) > sx(y.c, *bits),
                                    Pred::Sge => sx(x.c, *bits) >= sx(y.c, *bits),
                                };
                                set!(*dst + l, k(r as u64));
                            } else {
                                let t = self.sym_icmp(*p, *bits, x, y);
                                let s = self.norm(st, t);
                                set!(*dst + l, s);
                            }
                        }
                    }
                    I::Bin { op, bits, dst, a, b, lanes } => {
                        for l in 0..*lanes {
                            let x = get!(*a + l);
                            let y = get!(*b + l);
                            if x.s | y.s == 0 {
                                let m = m64(*bits);
                                let r = match op {
                                    BinOp::Add => x.c.wrapping_add(y.c) & m,
                                    BinOp::Sub => x.c.wrapping_sub(y.c) & m,
                                    BinOp::Mul => x.c.wrapping_mul(y.c) & m,
                                    BinOp::And => x.c & y.c,
                                    BinOp::Or => x.c | y.c,
                                    BinOp::Xor => x.c ^ y.c,
                                    BinOp::Sip => {
                                        self.hash_hits += 1;
                                        x.c ^ y.c ^ st.hash_xor
                                    }
                                    BinOp::Shl => {
                                        if y.c >= *bits as u64 {
                                            0
                                        } else {
                                            (x.c << y.c) & m
                                        }
                                    }
                                    BinOp::LShr => {
                                        if y.c >= *bits as u64 {
                                            0
                                        } else {
                                            x.c >> y.c
                                        }
                                    }
                                    _ => match conc_bin(*op, *bits, x.c, y.c) {
                                        Some(v) => v,
                                        None => {
                                            sync!();
                                            return Err(Stop::Bad("div-by-zero", "hardware division fault".into()));
                                        }
                                    },
                                };
                                set!(*dst + l, k(r));
                            } else {
                                sync!();
                                let s = self.sym_bin(st, *op, *bits, x, y)?;
                                set!(*dst + l, s);
                            }
                        }
                    }
                    I::Copy { dst, a, lanes } => {
                        for l in 0..*lanes {
                            set!(*dst + l, get!(*a + l));
                        }
                    }
                    I::Cast { op, from, to, dst, a, lanes } => {
                        for l in 0..*lanes {
                            let x = get!(*a + l);
                            if x.s == 0 {
                                let v = match op {
                                    Cast::ZExt => x.c,
                                    Cast::SExt => sx(x.c, *from) as u64 & m64(*to),
                                    Cast::Trunc => x.c & m64(*to),
                                    Cast::Bit => x.c,
                                    Cast::FToSI => eval_op(Op::FToSISat, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                    Cast::FToUI => eval_op(Op::FToUISat, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                    Cast::SIToF => eval_op(Op::SIToF, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                    Cast::UIToF => eval_op(Op::UIToF, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                    Cast::FExt => eval_op(Op::FExt, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                    Cast::FTrunc => eval_op(Op::FTrunc, *to, *from, 0, x.c as u128, 0, 0) as u64,
                                };
                                set!(*dst + l, k(v));
                            } else {
                                let t = self.sym_cast(*op, *from, *to, x.s);
                                let s = self.norm(st, t);
                                set!(*dst + l, s);
                            }
                        }
                    }
                    I::Select { dst, c, a, b, lanes, vec, l } => {
                        let mut pure = true;
                        for i in 0..*lanes {
                            let cv = get!(if *vec { *c + i } else { *c });
                            if cv.s == 0 {
                                let v = if cv.c & 1 != 0 { get!(*a + i) } else { get!(*b + i) };
                                set!(*dst + i, v);
                            } else {
                                pure = false;
                                let (x, y) = (get!(*a + i), get!(*b + i));
                                let bits = l[i as usize].bits;
                                let (x, y) = (self.term(x, bits), self.term(y, bits));
                                let t = self.tm.ite(cv.s, x, y);
                                set!(*dst + i, self.slot(t));
                            }
                        }
                        let _ = pure;
                    }
                    I::InsertVal { dst, a, lanes, v, at, vl } => {
                        // destination registers never alias sources (SSA)
                        for i in 0..*lanes {
                            let x = if i >= *at && i < *at + *vl { get!(*v + (i - *at)) } else { get!(*a + i) };
                            set!(*dst + i, x);
                        }
                    }
                    I::Alloca { dst, size, n, align } => {
                        let cnt = get!(*n);
                        sync!();
                        let cnt = self.conc(st, cnt)?;
                        let sz = size * cnt;
                        let sp = (st.sp.wrapping_sub(sz)) & !(*align.max(&8) - 1);
                        if sp < STACK_BASE + 65536 || sz > STACK_SIZE {
                            return Err(Stop::Bad("stack-overflow", "stack exhausted".into()));
                        }
                        st.sp = sp;
                        set!(*dst, k(sp));
                    }
                    I::Call(ci) => {
                        match &ci.callee {
                            Callee::Func(id) => {
                                let id = *id;
                                st.frames.last_mut().unwrap().pc = pc;
                                let mut buf = [k(0); 48];
                                let mut na = 0;
                                for (o, nl) in &ci.args {
                                    for j in 0..*nl {
                                        if na >= 48 {
                                            return Err(Stop::Limit("too many argument lanes".into()));
                                        }
                                        buf[na] = get!(*o + j);
                                        na += 1;
                                    }
                                }
                                if st.frames.len() > 20000 {
                                    return Err(Stop::Bad("stack-overflow", "call depth exhausted".into()));
                                }
                                if st.sp < STACK_BASE + 65536 {
                                    return Err(Stop::Bad("stack-overflow", "stack exhausted".into()));
                                }
                                let sp = st.sp;
                                self.enter(st, id, &buf[..na], base + ci.dst)?;
                                // account for saved registers and the return address
                                st.frames.last_mut().unwrap().sp = sp;
                                st.sp = sp - 64;
                                continue 'frame;
                            }
                            Callee::Intr(i) => {
                                sync!();
                                let r = self.intrinsic(st, *i, ci, regs, consts)?;
                                if let Some(v) = r {
                                    for (j, s) in v.iter().enumerate() {
                                        set!(ci.dst + j as u32, *s);
                                    }
                                }
                            }
                            Callee::Ext(e, name) => {
                                sync!();
                                let args: Vec<Slot> = ci.args.iter().flat_map(|(o, nl)| (0..*nl).map(move |j| o + j)).map(|o| get!(o)).collect();
                                let nf = st.frames.len();
                                st.steps += *nn;
                                *nn = 0;
                                let r = self.ext(st, *e, name, &args, base + ci.dst)?;
                                if st.frames.len() != nf {
                                    // entered the original definition
                                    let i = st.frames.len() - 2;
                                    st.frames[i].pc = pc;
                                    continue 'frame;
                                }
                                if ci.ret_lanes > 0 {
                                    set!(ci.dst, r.unwrap_or(k(0)));
                                }
                            }
                            Callee::Ind(o) => {
                                let p = get!(*o);
                                sync!();
                                let p = self.conc(st, p)?;
                                if p < FN_BASE || p >= FN_BASE + 16 * self.m.funcs.len() as u64 || p % 16 != 0 {
                                    return Err(Stop::Bad("memory-fault", format!("indirect call to {p:#x}")));
                                }
                                let id = ((p - FN_BASE) / 16) as u32;
                                let mut buf = [k(0); 48];
                                let mut na = 0;
                                for (o, nl) in &ci.args {
                                    for j in 0..*nl {
                                        buf[na] = get!(*o + j);
                                        na += 1;
                                    }
                                }
                                let defined = self.m.funcs[id as usize].defined;
                                let name = self.m.funcs[id as usize].name.clone();
                                if let Some(e) = ext_lookup(&name, defined) {
                                    let nf = st.frames.len();
                                    let r = self.ext(st, e, &name, &buf[..na], base + ci.dst)?;
                                    if st.frames.len() != nf {
                                        let i = st.frames.len() - 2;
                                        st.frames[i].pc = pc;
                                        continue 'frame;
                                    }
                                    if ci.ret_lanes > 0 {
                                        set!(ci.dst, r.unwrap_or(k(0)));
                                    }
                                } else {
                                    st.frames.last_mut().unwrap().pc = pc;
                                    if st.frames.len() > 20000 || st.sp < STACK_BASE + 65536 {
                                        return Err(Stop::Bad("stack-overflow", "call depth exhausted".into()));
                                    }
                                    let sp = st.sp;
                                    self.enter(st, id, &buf[..na], base + ci.dst)?;
                                    st.frames.last_mut().unwrap().sp = sp;
                                    st.sp = sp - 64;
                                    continue 'frame;
                                }
                            }
                            Callee::Asm(kind) => {
                                if *kind == 1 {
                                    set!(ci.dst, get!(ci.args[0].0));
                                } else {
                                    for j in 0..ci.ret_lanes {
                                        set!(ci.dst + j, k(0));
                                    }
                                }
                            }
                        }
                    }
                    I::Ret { v, lanes } => {
                        let f = st.frames.last().unwrap();
                        let ret = f.ret as usize;
                        st.sp = f.sp;
                        for l in 0..*lanes {
                            let x = get!(*v + l);
                            st.regs[ret + l as usize] = x;
                        }
                        st.frames.pop();
                        if st.frames.is_empty() {
                            return Ok(());
                        }
                        continue 'frame;
                    }
                    I::Switch { v, bits, cases, def } => {
                        let x = get!(*v);
                        if x.s == 0 {
                            let mut e = *def;
                            for (cv, ce) in cases {
                                if *cv == x.c {
                                    e = *ce;
                                    break;
                                }
                            }
                            take!(e);
                        } else {
                            sync!();
                            let e = self.switch(st, x.s, *bits, cases, *def)?;
                            take!(e);
                        }
                    }
                    I::Fcmp { p, bits, dst, a, b, lanes } => {
                        for l in 0..*lanes {
                            let x = get!(*a + l);
                            let y = get!(*b + l);
                            let t = self.sym_fcmp(*p, *bits, x, y);
                            let s = self.norm(st, t);
                            set!(*dst + l, s);
                        }
                    }
                    I::FNeg { bits, dst, a, lanes } => {
                        for l in 0..*lanes {
                            let x = get!(*a + l);
                            let sign = 1u64 << (bits - 1);
                            if x.s == 0 {
                                set!(*dst + l, k(x.c ^ sign));
                            } else {
                                let c = self.tm.konst(sign as u128, *bits);
                                let t = self.tm.bin(Op::Xor, x.s, c);
                                set!(*dst + l, self.slot(t));
                            }
                        }
                    }
                    I::LoadM { dst, p, l } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.conc(st, a)?;
                        for (i, la) in l.iter().enumerate() {
                            let v = self.load_at(st, a + la.off as u64, (la.bits + 7) / 8, la.bits)?;
                            set!(*dst + i as u32, v);
                        }
                    }
                    I::StoreM { v, p, l } => {
                        let a = get!(*p);
                        sync!();
                        let a = self.conc(st, a)?;
                        for (i, la) in l.iter().enumerate() {
                            let x = get!(*v + i as u32);
                            self.store_at(st, a + la.off as u64, x, (la.bits + 7) / 8, la.bits)?;
                        }
                    }
                    I::BinW { op, bits, dst, a, b } => {
                        let x = [get!(*a), get!(*a + 1)];
                        let y = [get!(*b), get!(*b + 1)];
                        let r = if x[0].s | x[1].s | y[0].s | y[1].s == 0 {
                            let xv = x[0].c as u128 | (x[1].c as u128) << 64;
                            let yv = y[0].c as u128 | (y[1].c as u128) << 64;
                            let o = bin_op(*op);
                            let v = eval_op(o, *bits, *bits, 0, xv, yv, 0);
                            [k(v as u64), k((v >> 64) as u64)]
                        } else {
                            let (xt, yt) = (self.wide(x, *bits), self.wide(y, *bits));
                            let t = self.tm.bin(bin_op(*op), xt, yt);
                            self.unwide(t, *bits)
                        };
                        set!(*dst, r[0]);
                        set!(*dst + 1, r[1]);
                    }
                    I::IcmpW { p, bits, dst, a, b } => {
                        let x = [get!(*a), get!(*a + 1)];
                        let y = [get!(*b), get!(*b + 1)];
                        let (xt, yt) = (self.wide(x, *bits), self.wide(y, *bits));
                        let t = self.t_icmp(*p, xt, yt);
                        let s = self.norm(st, t);
                        set!(*dst, s);
                    }
                    I::CastW { op, from, to, dst, a } => {
                        let x = if *from > 64 {
                            let w = [get!(*a), get!(*a + 1)];
                            self.wide(w, *from)
                        } else {
                            let w = get!(*a);
                            self.term(w, *from)
                        };
                        let t = self.sym_cast(*op, *from, *to, x);
                        if *to > 64 {
                            let r = self.unwide(t, *to);
                            set!(*dst, r[0]);
                            set!(*dst + 1, r[1]);
                        } else {
                            let s = self.norm(st, t);
                            set!(*dst, s);
                        }
                    }
                    I::BitPack { from, fl, to, tl, dst, a } => {
                        // reinterpret fl lanes of `from` bits as tl lanes of `to` bits
                        let mut bitsv: Vec<Slot> = (0..*fl).map(|i| get!(*a + i)).collect();
                        if bitsv.iter().all(|s| s.s == 0) && *from * *fl <= 128 {
                            let mut v: u128 = 0;
                            for (i, s) in bitsv.iter().enumerate() {
                                v |= (s.c as u128) << (*from * i as u32);
                            }
                            for i in 0..*tl {
                                set!(*dst + i, k(((v >> (*to * i)) as u64) & m64(*to)));
                            }
                        } else if *from * *fl <= 128 {
                            let mut t = 0;
                            for s in bitsv.drain(..).rev() {
                                let x = self.term(s, *from);
                                t = if t == 0 { x } else { self.tm.concat(t, x) };
                            }
                            for i in 0..*tl {
                                let e = self.tm.extract(t, *to * i, *to);
                                let s = self.norm(st, e);
                                set!(*dst + i, s);
                            }
                        } else {
                            sync!();
                            return Err(Stop::Limit("wide bitcast".into()));
                        }
                    }
                    I::ExtractElt { dst, v, lanes, idx } => {
                        let i = get!(*idx);
                        sync!();
                        let i = self.conc(st, i)?;
                        set!(*dst, get!(*v + (i as u32).min(*lanes - 1)));
                    }
                    I::InsertElt { dst, v, e, lanes, idx } => {
                        let i = get!(*idx);
                        sync!();
                        let i = self.conc(st, i)? as u32;
                        for j in 0..*lanes {
                            let x = if j == i { get!(*e) } else { get!(*v + j) };
                            set!(*dst + j, x);
                        }
                    }
                    I::Shuffle { dst, a, b, lanes, mask } => {
                        for (j, &mi) in mask.iter().enumerate() {
                            let x = if mi < 0 {
                                k(0)
                            } else if (mi as u32) < *lanes {
                                get!(*a + mi as u32)
                            } else {
                                get!(*b + (mi as u32 - *lanes))
                            };
                            set!(*dst + j as u32, x);
                        }
                    }
                    I::AtomicRmw { op, dst, p, v, bytes, bits } => {
                        let a = get!(*p);
                        let x = get!(*v);
                        sync!();
                        let a = self.conc(st, a)?;
                        let old = self.load_at(st, a, *bytes, *bits)?;
                        let new = match op {
                            RmwOp::Xchg => x,
                            _ => {
                                let bop = match op {
                                    RmwOp::Add => BinOp::Add,
                                    RmwOp::Sub => BinOp::Sub,
                                    RmwOp::And => BinOp::And,
                                    RmwOp::Or => BinOp::Or,
                                    RmwOp::Xor => BinOp::Xor,
                                    _ => return Err(Stop::Limit("atomicrmw".into())),
                                };
                                self.sym_bin(st, bop, *bits, old, x)?
                            }
                        };
                        self.store_at(st, a, new, *bytes, *bits)?;
                        set!(*dst, old);
                    }
                    I::CmpXchg { dst, p, cmp, new, bytes, bits } => {
                        let a = get!(*p);
                        let (x, y) = (get!(*cmp), get!(*new));
                        sync!();
                        let a = self.conc(st, a)?;
                        let old = self.load_at(st, a, *bytes, *bits)?;
                        let t = self.sym_icmp(Pred::Eq, *bits, old, x);
                        let s = self.norm(st, t);
                        let eq = self.conc(st, s)? != 0;
                        if eq {
                            self.store_at(st, a, y, *bytes, *bits)?;
                        }
                        set!(*dst, old);
                        set!(*dst + 1, k(eq as u64));
                    }
                    I::Unreach => {
                        sync!();
                        return Err(Stop::Bad("unreachable", "unreachable code executed".into()));
                    }
                    I::Unsupported(s) => {
                        sync!();
                        return Err(Stop::Limit(format!("unsupported instruction: {s}")));
                    }
                }
            }
        }
    }

    fn gep_sym(&mut self, a: Slot, off: i64, v: &[(Slot, i64, u32)]) -> T {
        let mut t = self.term(a, 64);
        let mut c = off as u64;
        for (i, s, b) in v {
            if i.s == 0 {
                c = c.wrapping_add(sx(i.c, *b).wrapping_mul(*s) as u64);
            } else {
                let x = self.tm.sext(i.s, 64);
                let kc = self.tm.konst(*s as u64 as u128, 64);
                let p = self.tm.bin(Op::Mul, x, kc);
                t = self.tm.bin(Op::Add, t, p);
            }
        }
        let kc = self.tm.konst(c as u128, 64);
        self.tm.bin(Op::Add, t, kc)
    }

    /// symbolic switch: one state per distinct target
    fn switch(&mut self, st: &mut State, x: T, bits: u32, cases: &[(u64, u32)], def: u32) -> R<u32> {
        let mut targets: Vec<u32> = vec![];
        for (_, e) in cases {
            if !targets.contains(e) {
                targets.push(*e);
            }
        }
        if !targets.contains(&def) {
            targets.push(def);
        }
        // binary decisions; alternatives re-execute the switch under the added constraint
        let v = st.model.eval(&self.tm, x) as u64;
        let mine = cases.iter().find(|c| c.0 == v).map_or(def, |c| c.1);
        let mut cond = self.tm.konst(0, 1);
        if mine == def {
            let mut any = self.tm.konst(0, 1);
            for (cv, e) in cases {
                if *e != def {
                    let kc = self.tm.konst(*cv as u128, bits);
                    let q = self.tm.bin(Op::Eq, x, kc);
                    any = self.tm.bin(Op::Or, any, q);
                }
            }
            cond = self.tm.not1(any);
        } else {
            for (cv, e) in cases {
                if *e == mine {
                    let kc = self.tm.konst(*cv as u128, bits);
                    let q = self.tm.bin(Op::Eq, x, kc);
                    cond = self.tm.bin(Op::Or, cond, q);
                }
            }
        }
        if self.tm.is_const(cond).is_none() {
            self.decide(st, cond, &mut |_| {})?;
        }
        Ok(mine)
    }

    fn ext(&mut self, st: &mut State, e: Ext, name: &str, args: &[Slot], dst: u32) -> R<Option<Slot>> {
        Ok(match e {
            Ext::Malloc => {
                let n = self.conc(st, args[0])?;
                Some(k(self.malloc(st, n, 16)?))
            }
            Ext::Calloc => {
                let a = self.conc(st, args[0])?;
                let b = self.conc(st, args[1])?;
                let p = self.malloc(st, a * b, 16)?;
                st.mem.fill(p, a * b, 0)?;
                Some(k(p))
            }
            Ext::Realloc => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                if p == 0 {
                    return Ok(Some(k(self.malloc(st, n, 16)?)));
                }
                let old = st.mem.read(p - 16, 8)?.unwrap_or(0);
                let q = self.malloc(st, n, 16)?;
                st.mem.copy(q, p, old.min(n))?;
                self.free(st, p)?;
                Some(k(q))
            }
            Ext::Memalign => {
                let pp = self.conc(st, args[0])?;
                let al = self.conc(st, args[1])?;
                let n = self.conc(st, args[2])?;
                let q = self.malloc(st, n, al)?;
                st.mem.write(pp, 8, q)?;
                Some(k(0))
            }
            Ext::Free => {
                let p = self.conc(st, args[0])?;
                self.free(st, p)?;
                None
            }
            Ext::Bcmp | Ext::Memcmp => {
                let a = self.conc(st, args[0])?;
                let b = self.conc(st, args[1])?;
                let n = self.conc(st, args[2])?;
                let mut any_sym = false;
                let mut res = 0i32;
                for i in 0..n {
                    let (x, xs) = st.mem.byte(a + i)?;
                    let (y, ys) = st.mem.byte(b + i)?;
                    if xs != 0 || ys != 0 {
                        if xs == ys {
                            continue;
                        }
                        any_sym = true;
                        if e == Ext::Memcmp {
                            break;
                        }
                        continue;
                    }
                    if x != y {
                        res = if x < y { -1 } else { 1 };
                        break;
                    }
                }
                if e == Ext::Bcmp && res != 0 {
                    return Ok(Some(k(1)));
                }
                if !any_sym {
                    return Ok(Some(k(res as u32 as u64)));
                }
                if e == Ext::Bcmp {
                    let mut t = self.tm.konst(1, 1);
                    for i in 0..n {
                        let (x, xs) = st.mem.byte(a + i)?;
                        let (y, ys) = st.mem.byte(b + i)?;
                        if xs == 0 && ys == 0 {
                            continue;
                        }
                        let xt = if xs != 0 { xs } else { self.tm.konst(x as u128, 8) };
                        let yt = if ys != 0 { ys } else { self.tm.konst(y as u128, 8) };
                        let q = self.tm.bin(Op::Eq, xt, yt);
                        t = self.tm.bin(Op::And, t, q);
                    }
                    let ne = self.tm.not1(t);
                    let z = self.tm.zext(ne, 32);
                    Some(self.norm(st, z))
                } else {
                    let mut t = self.tm.konst(0, 32);
                    let m1 = self.tm.konst(0xffff_ffff, 32);
                    let p1 = self.tm.konst(1, 32);
                    for i in (0..n).rev() {
                        let (x, xs) = st.mem.byte(a + i)?;
                        let (y, ys) = st.mem.byte(b + i)?;
                        if xs == 0 && ys == 0 {
                            if x != y {
                                t = if x < y { m1 } else { p1 };
                            }
                            continue;
                        }
                        let xt = if xs != 0 { xs } else { self.tm.konst(x as u128, 8) };
                        let yt = if ys != 0 { ys } else { self.tm.konst(y as u128, 8) };
                        let q = self.tm.bin(Op::Eq, xt, yt);
                        let l = self.tm.bin(Op::Ult, xt, yt);
                        let d = self.tm.ite(l, m1, p1);
                        t = self.tm.ite(q, t, d);
                    }
                    Some(self.norm(st, t))
                }
            }
            Ext::Strlen => {
                let a = self.conc(st, args[0])?;
                let mut n = 0;
                loop {
                    let s = self.load_at(st, a + n, 1, 8)?;
                    if self.conc(st, s)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(k(n))
            }
            Ext::Write => {
                let a = self.conc(st, args[1])?;
                let n = self.conc(st, args[2])?;
                let s = self.read_str(st, a, n);
                if self.verbose {
                    eprint!("{s}");
                }
                self.printed.extend(s.as_bytes());
                Some(k(n))
            }
            Ext::Errno => {
                // a dedicated page below the stack
                Some(k(STACK_BASE + STACK_SIZE + 4096))
            }
            Ext::ClockGettime => {
                let p = self.conc(st, args[1])?;
                st.clock += 1000;
                st.mem.write(p, 8, 1_000_000 + st.clock / 1_000_000_000)?;
                st.mem.write(p + 8, 8, st.clock % 1_000_000_000)?;
                Some(k(0))
            }
            Ext::GetRandom => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                for i in 0..n {
                    st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    st.mem.write(p + i, 1, (st.rnd >> 56) & 0xff)?;
                }
                Some(k(n))
            }
            Ext::Dlsym => {
                let p = self.conc(st, args[1])?;
                let mut n = 0;
                while n < 100 && st.mem.read(p + n, 1)?.unwrap_or(0) != 0 {
                    n += 1;
                }
                let s = self.read_str(st, p, n);
                Some(k(self.m.global_addr(&s).unwrap_or(0)))
            }
            Ext::Syscall => {
                let n = self.conc(st, args[0])?;
                match n {
                    318 => return self.ext(st, Ext::GetRandom, name, &args[1..], dst),
                    // statx: the C library does not have it (std falls back to stat)
                    332 => {
                        st.mem.write(STACK_BASE + STACK_SIZE + 4096, 4, 38)?;
                        Some(k(u64::MAX))
                    }
                    _ => return Err(Stop::Limit(format!("syscall {n}"))),
                }
            }
            Ext::Zero => Some(k(0)),
            Ext::MinusOne => Some(k(u32::MAX as u64)),
            Ext::Getenv => Some(k(0)),
            Ext::Abort => return Err(Stop::Bad("panic", "abort".into())),
            Ext::Exit => return Err(Stop::Done),
            Ext::AllocErr => {
                let s = self.stack_trace(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
                return Err(Stop::Bad("panic", format!("{} {}", pretty(name), s)));
            }
            Ext::PanicFmt => {
                let loc = args.last().map_or(0, |s| s.c);
                let mut msg = String::new();
                if args.len() >= 3 && args[1].s == 0 && args[1].c & 1 == 1 {
                    let n = args[1].c >> 1;
                    if n < 500 {
                        msg = self.read_str(st, args[0].c, n);
                    }
                }
                let f = (|| -> Option<String> {
                    let p = st.mem.read(loc, 8).ok()??;
                    let n = st.mem.read(loc + 8, 8).ok()??;
                    let line = st.mem.read(loc + 16, 4).ok()??;
                    let col = st.mem.read(loc + 20, 4).ok()??;
                    if n > 400 {
                        return None;
                    }
                    let s = self.read_str(st, p, n);
                    Some(format!("{s}:{line}:{col}"))
                })();
                return Err(Stop::Bad("panic", format!("{} {}", f.unwrap_or_default(), msg).trim().to_string()));
            }
            Ext::Pow | Ext::Fmod | Ext::Powf | Ext::Fmodf => {
                let a = self.conc(st, args[0])?;
                let b = self.conc(st, args[1])?;
                Some(k(unsafe {
                    match e {
                        Ext::Pow => pow(f64::from_bits(a), f64::from_bits(b)).to_bits(),
                        Ext::Fmod => fmod(f64::from_bits(a), f64::from_bits(b)).to_bits(),
                        Ext::Powf => powf(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u64,
                        _ => fmodf(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u64,
                    }
                }))
            }
            Ext::SMake => {
                let bits = self.conc(st, args[0])? as u32;
                let p = self.conc(st, args[1])?;
                let n = self.conc(st, args[2])?;
                let name = self.read_str(st, p, n);
                let key = (st.inputs.len(), name.clone(), bits);
                let v = match self.input_vars.get(&key) {
                    Some(&v) => v,
                    None => {
                        let v = self.tm.new_var(&name, bits);
                        self.input_vars.insert(key, v);
                        v
                    }
                };
                st.inputs.push(Input { name: name.into(), bits, t: v });
                let t = self.tm.zext(v, 64);
                Some(self.slot(t))
            }
            Ext::SAssume => {
                let c = args[0];
                if c.s == 0 {
                    if c.c & 1 == 0 {
                        return Err(Stop::Infeasible);
                    }
                } else {
                    let c = self.bit(c.s);
                    match self.feasible(st, c)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => {
                            if st.model.eval(&self.tm, c) == 0 {
                                st.model = m;
                            }
                            self.add_cs(st, c);
                        }
                    }
                }
                None
            }
            Ext::SAssert => {
                self.st.asserts += 1;
                let p = self.conc(st, args[1])?;
                let n = self.conc(st, args[2])?;
                let c = args[0];
                if c.s == 0 {
                    if c.c & 1 == 0 {
                        let msg = self.read_str(st, p, n);
                        let m = st.model.clone();
                        self.record(st, &m, "assert", msg);
                        return Err(Stop::Done);
                    }
                } else {
                    self.st.asserts_sym += 1;
                    let c = self.bit(c.s);
                    let nc = self.tm.not1(c);
                    match self.feasible(st, nc) {
                        Ok(Some(m)) => {
                            let msg = self.read_str(st, p, n);
                            self.record(st, &m, "assert", msg);
                            match self.feasible(st, c)? {
                                None => return Err(Stop::Done),
                                Some(m) => {
                                    if st.model.eval(&self.tm, c) == 0 {
                                        st.model = m;
                                    }
                                    self.add_cs(st, c);
                                }
                            }
                        }
                        Ok(None) => {}
                        Err(Stop::Limit(s)) => {
                            self.limit(&format!("{s} (assertion)"));
                            if st.model.eval(&self.tm, c) == 0 {
                                return Err(Stop::Done);
                            }
                            self.add_cs(st, c);
                        }
                        Err(e) => return Err(e),
                    }
                }
                None
            }
            Ext::SFail => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                let msg = self.read_str(st, p, n);
                let m = st.model.clone();
                self.record(st, &m, "assert", msg);
                return Err(Stop::Done);
            }
            Ext::SCover => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                let s = self.read_str(st, p, n);
                *self.st.covers.entry(s).or_insert(0) += 1;
                None
            }
            Ext::SNote => {
                let p = self.conc(st, args[0])?;
                let n = self.conc(st, args[1])?;
                if self.verbose {
                    let s = self.read_str(st, p, n);
                    eprintln!("[note] {s}");
                }
                let mut v = (vec![], vec![]);
                for i in 0..n.min(100_000) {
                    let (c, t) = st.mem.byte(p + i)?;
                    v.0.push(c);
                    v.1.push(t);
                }
                st.notes.push(Rc::new(v));
                None
            }
            Ext::SEnd => return Err(Stop::Done),
            Ext::SConc => Some(k(self.conc(st, args[0])?)),
            Ext::SIsSym => Some(k((args[0].s != 0) as u64)),
            Ext::SLive => Some(k(st.live)),
            Ext::SLiveBlocks => Some(k(st.blocks)),
            Ext::SFuel => {
                let n = self.conc(st, args[0])?;
                st.fuel = st.steps + n;
                None
            }
            Ext::SHashXor => {
                let n = self.conc(st, args[0])?;
                st.hash_xor = n;
                None
            }
            Ext::SNative => Some(k(0)),
            Ext::SSteps => Some(k(st.steps)),
            Ext::SDebug => {
                let s = args[0];
                if s.s != 0 {
                    eprintln!("[debug] {}", self.tm.show(s.s));
                } else {
                    eprintln!("[debug] {:#x}", s.c);
                }
                None
            }
            Ext::SFixed => Some(k(0)),
            Ext::SInit => Some(k(self.m.global_addr(&self.m.init).unwrap_or(0))),
            Ext::Unknown => {
                // output through std (panic messages) is irrelevant; anything else is a limitation
                return Err(Stop::Limit(format!("external function {name}")));
            }
        })
    }
    fn bit(&mut self, t: T) -> T {
        if self.tm.bits(t) == 1 {
            t
        } else {
            self.tm.extract(t, 0, 1)
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, ci: &CallInfo, regs: *mut Slot, consts: *const u64) -> R<Option<Vec<Slot>>> {
        let get = |o: u32| -> Slot {
            unsafe {
                if o & CBIT != 0 {
                    k(*consts.add((o & !CBIT) as usize))
                } else {
                    *regs.add(o as usize)
                }
            }
        };
        let arg = |n: usize, l: u32| get(ci.args[n].0 + l);
        match i {
            Intr::Nop => return Ok(None),
            Intr::Memcpy | Intr::Memmove => {
                let (d, s, n) = (arg(0, 0), arg(1, 0), arg(2, 0));
                let d = self.conc(st, d)?;
                let s = self.conc(st, s)?;
                let n = self.conc(st, n)?;
                st.mem.copy(d, s, n)?;
                return Ok(None);
            }
            Intr::Memset => {
                let (d, v, n) = (arg(0, 0), arg(1, 0), arg(2, 0));
                let d = self.conc(st, d)?;
                let n = self.conc(st, n)?;
                if v.s == 0 {
                    st.mem.fill(d, n, v.c as u8)?;
                } else {
                    for i in 0..n {
                        st.mem.write_sym(d + i, v.s)?;
                    }
                }
                return Ok(None);
            }
            Intr::LoadRel => {
                let (p, o) = (arg(0, 0), arg(1, 0));
                let p = self.conc(st, p)?;
                let o = self.conc(st, o)?;
                let v = self.load_at(st, p.wrapping_add(o), 4, 32)?;
                let v = self.conc(st, v)?;
                return Ok(Some(vec![k(p.wrapping_add(sx(v, 32) as u64))]));
            }
            Intr::Trap => return Err(Stop::Bad("panic", "trap".into())),
            Intr::ThreadLocal => return Ok(Some(vec![arg(0, 0)])),
            Intr::IsConstant => return Ok(Some(vec![k(0)])),
            Intr::Expect => return Ok(Some(vec![arg(0, 0)])),
            Intr::ObjectSize => return Ok(Some(vec![k(u64::MAX)])),
            Intr::Xgetbv => return Ok(Some(vec![k(0)])),
            Intr::Movmsk => {
                let n = ci.lanes;
                let mut v = 0u64;
                let mut sym = false;
                for l in 0..n {
                    let s = arg(0, l);
                    if s.s != 0 {
                        sym = true;
                    }
                    v |= (s.c >> 7 & 1) << l;
                }
                if !sym {
                    return Ok(Some(vec![k(v)]));
                }
                let mut t = 0;
                for l in (0..n).rev() {
                    let s = arg(0, l);
                    let x = self.term(s, 8);
                    let b = self.tm.extract(x, 7, 1);
                    t = if t == 0 { b } else { self.tm.concat(t, b) };
                }
                let t = self.tm.zext(t, 32);
                return Ok(Some(vec![self.norm(st, t)]));
            }
            Intr::VReduce(kind) => {
                let bits = ci.bits;
                let mut acc = arg(0, 0);
                for l in 1..ci.lanes {
                    let y = arg(0, l);
                    acc = match kind {
                        0 => self.bin_slot(st, BinOp::Or, bits, acc, y)?,
                        1 => self.bin_slot(st, BinOp::And, bits, acc, y)?,
                        2 => self.bin_slot(st, BinOp::Add, bits, acc, y)?,
                        3 => self.bin_slot(st, BinOp::Xor, bits, acc, y)?,
                        _ => {
                            let c = self.sym_icmp(if kind == 4 { Pred::Ugt } else { Pred::Ult }, bits, acc, y);
                            let (x, yy) = (self.term(acc, bits), self.term(y, bits));
                            let t = self.tm.ite(c, x, yy);
                            self.norm(st, t)
                        }
                    };
                }
                return Ok(Some(vec![acc]));
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO | Intr::UAddO | Intr::USubO | Intr::UMulO => {
                let bits = ci.bits;
                if bits > 64 {
                    let x = [arg(0, 0), arg(0, 1)];
                    let y = [arg(1, 0), arg(1, 1)];
                    if x[0].s | x[1].s | y[0].s | y[1].s != 0 {
                        return Err(Stop::Limit("symbolic 128-bit overflow arithmetic".into()));
                    }
                    let xv = x[0].c as u128 | (x[1].c as u128) << 64;
                    let yv = y[0].c as u128 | (y[1].c as u128) << 64;
                    if bits != 128 {
                        return Err(Stop::Limit("odd wide overflow op".into()));
                    }
                    let (r, o) = match i {
                        Intr::UAddO => xv.overflowing_add(yv),
                        Intr::USubO => xv.overflowing_sub(yv),
                        Intr::UMulO => xv.overflowing_mul(yv),
                        Intr::SAddO => {
                            let (r, o) = (xv as i128).overflowing_add(yv as i128);
                            (r as u128, o)
                        }
                        Intr::SSubO => {
                            let (r, o) = (xv as i128).overflowing_sub(yv as i128);
                            (r as u128, o)
                        }
                        _ => {
                            let (r, o) = (xv as i128).overflowing_mul(yv as i128);
                            (r as u128, o)
                        }
                    };
                    return Ok(Some(vec![k(r as u64), k((r >> 64) as u64), k(o as u64)]));
                }
                if ci.lanes != 1 {
                    return Err(Stop::Limit("vector overflow op".into()));
                }
                let (x, y) = (arg(0, 0), arg(1, 0));
                let signed = matches!(i, Intr::SAddO | Intr::SSubO | Intr::SMulO);
                let op = match i {
                    Intr::SAddO | Intr::UAddO => Op::Add,
                    Intr::SSubO | Intr::USubO => Op::Sub,
                    _ => Op::Mul,
                };
                if x.s | y.s == 0 {
                    let (a, b) = if signed {
                        (sx(x.c, bits) as i128, sx(y.c, bits) as i128)
                    } else {
                        (x.c as i128, y.c as i128)
                    };
                    let (r, o) = if matches!(i, Intr::UMulO) {
                        let r = (x.c as u128) * (y.c as u128);
                        (r as u64, r > mask(bits))
                    } else {
                        let r = match op {
                            Op::Add => a + b,
                            Op::Sub => a - b,
                            _ => a * b,
                        };
                        let o = if signed {
                            r < -(1i128 << (bits - 1)) || r >= (1i128 << (bits - 1))
                        } else {
                            r < 0 || r > mask(bits) as i128
                        };
                        (r as u64, o)
                    };
                    return Ok(Some(vec![k(r & m64(bits)), k(o as u64)]));
                }
                let (xt, yt) = (self.term(x, bits), self.term(y, bits));
                let w = if op == Op::Mul { bits * 2 } else { bits + 1 };
                let (xw, yw) = if signed {
                    (self.tm.sext(xt, w), self.tm.sext(yt, w))
                } else {
                    (self.tm.zext(xt, w), self.tm.zext(yt, w))
                };
                let r = self.tm.bin(op, xt, yt);
                let rw = self.tm.bin(op, xw, yw);
                let back = if signed { self.tm.sext(r, w) } else { self.tm.zext(r, w) };
                let eq = self.tm.bin(Op::Eq, rw, back);
                let o = self.tm.not1(eq);
                return Ok(Some(vec![self.norm(st, r), self.norm(st, o)]));
            }
            _ => {}
        }
        // lane-wise operations
        let bits = ci.bits;
        if bits > 64 && !matches!(i, Intr::FToSISat | Intr::FToUISat) {
            let x = [arg(0, 0), arg(0, 1)];
            if x[0].s | x[1].s != 0 {
                return Err(Stop::Limit(format!("symbolic wide intrinsic {i:?}")));
            }
            let xv = x[0].c as u128 | (x[1].c as u128) << 64;
            let yv = if ci.args.len() > 1 && ci.args[1].1 == 2 { arg(1, 0).c as u128 | (arg(1, 1).c as u128) << 64 } else { 0 };
            let sh = 128 - bits;
            let r: u128 = match i {
                Intr::Ctlz => ((xv << sh).leading_zeros().min(bits)) as u128,
                Intr::Cttz => xv.trailing_zeros().min(bits) as u128,
                Intr::Ctpop => xv.count_ones() as u128,
                Intr::Bswap => xv.swap_bytes() >> sh,
                Intr::UMax => xv.max(yv),
                Intr::UMin => xv.min(yv),
                _ => return Err(Stop::Limit(format!("wide intrinsic {i:?}"))),
            };
            return Ok(Some(vec![k(r as u64), k((r >> 64) as u64)]));
        }
        let mut out = vec![];
        for l in 0..ci.lanes.max(1) {
            let a = arg(0, l);
            let b = if ci.args.len() > 1 && l < ci.args[1].1 { arg(1, l) } else { k(0) };
            let c = if ci.args.len() > 2 && l < ci.args[2].1 { arg(2, l) } else { k(0) };
            let v = self.lane_intr(st, i, ci, bits, a, b, c)?;
            out.push(v);
        }
        Ok(Some(out))
    }
    fn bin_slot(&mut self, st: &State, op: BinOp, bits: u32, a: Slot, b: Slot) -> R<Slot> {
        if a.s | b.s == 0 {
            return conc_bin(op, bits, a.c, b.c).map(k).ok_or(Stop::Bad("div-by-zero", String::new()));
        }
        self.sym_bin(st, op, bits, a, b)
    }
    fn lane_intr(&mut self, st: &mut State, i: Intr, ci: &CallInfo, bits: u32, a: Slot, b: Slot, c: Slot) -> R<Slot> {
        let conc = a.s | b.s | c.s == 0;
        let m = m64(bits);
        let to = {
            let t = ci.ret_ty;
            self.m.elem_bits(t)
        };
        if conc {
            let (x, y) = (a.c, b.c);
            let f2 = |g32: fn(f32, f32) -> f32, g64: fn(f64, f64) -> f64| -> u64 {
                if bits == 32 {
                    g32(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64
                } else {
                    g64(f64::from_bits(x), f64::from_bits(y)).to_bits()
                }
            };
            let f1 = |g32: fn(f32) -> f32, g64: fn(f64) -> f64| -> u64 {
                if bits == 32 {
                    g32(f32::from_bits(x as u32)).to_bits() as u64
                } else {
                    g64(f64::from_bits(x)).to_bits()
                }
            };
            let r = match i {
                Intr::UMax => x.max(y),
                Intr::UMin => x.min(y),
                Intr::SMax => {
                    if sx(x, bits) > sx(y, bits) {
                        x
                    } else {
                        y
                    }
                }
                Intr::SMin => {
                    if sx(x, bits) < sx(y, bits) {
                        x
                    } else {
                        y
                    }
                }
                Intr::USubSat => x.saturating_sub(y),
                Intr::UAddSat => (x as u128 + y as u128).min(m as u128) as u64,
                Intr::SSubSat | Intr::SAddSat => {
                    let (p, q) = (sx(x, bits) as i128, sx(y, bits) as i128);
                    let r = if i == Intr::SAddSat { p + q } else { p - q };
                    let lo = -(1i128 << (bits - 1));
                    let hi = (1i128 << (bits - 1)) - 1;
                    (r.clamp(lo, hi) as u64) & m
                }
                Intr::Cttz => (x.trailing_zeros().min(bits)) as u64,
                Intr::Ctlz => (x.leading_zeros() - (64 - bits)) as u64,
                Intr::Ctpop => x.count_ones() as u64,
                Intr::Bswap => x.swap_bytes() >> (64 - bits),
                Intr::BitRev => x.reverse_bits() >> (64 - bits),
                Intr::Fshl | Intr::Fshr => {
                    let s = (c.c % bits as u64) as u32;
                    let w = ((x as u128) << bits) | y as u128;
                    if i == Intr::Fshl {
                        ((w << s) >> bits) as u64 & m
                    } else {
                        (w >> s) as u64 & m
                    }
                }
                Intr::Abs => (sx(x, bits).wrapping_abs() as u64) & m,
                Intr::Scmp => {
                    let o = sx(x, bits).cmp(&sx(y, bits)) as i64;
                    o as u64 & m64(to)
                }
                Intr::Ucmp => (x.cmp(&y) as i64) as u64 & m64(to),
                Intr::FToSISat => eval_op(Op::FToSISat, to, bits, 0, x as u128, 0, 0) as u64,
                Intr::FToUISat => eval_op(Op::FToUISat, to, bits, 0, x as u128, 0, 0) as u64,
                Intr::CopySign => {
                    let s = 1u64 << (bits - 1);
                    (x & !s) | (y & s)
                }
                Intr::PtrMask => x & y,
                Intr::Fma => {
                    if bits == 32 {
                        f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(c.c as u32)).to_bits() as u64
                    } else {
                        f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(c.c)).to_bits()
                    }
                }
                Intr::FloatFn(kk) => match kk {
                    0 => f2(f32::min, f64::min),
                    1 => f2(f32::max, f64::max),
                    2 => f1(f32::floor, f64::floor),
                    3 => f1(f32::ceil, f64::ceil),
                    4 => f1(f32::trunc, f64::trunc),
                    5 => f1(f32::abs, f64::abs),
                    6 => unsafe {
                        if bits == 32 {
                            powf(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64
                        } else {
                            pow(f64::from_bits(x), f64::from_bits(y)).to_bits()
                        }
                    },
                    7 => {
                        let e = y as u32 as i32;
                        if bits == 32 {
                            f32::from_bits(x as u32).powi(e).to_bits() as u64
                        } else {
                            f64::from_bits(x).powi(e).to_bits()
                        }
                    }
                    8 => f1(f32::sqrt, f64::sqrt),
                    9 => f1(f32::round, f64::round),
                    10 => f1(f32::round_ties_even, f64::round_ties_even),
                    12 => f1(f32::exp2, f64::exp2),
                    _ => return Err(Stop::Limit("float function".into())),
                },
                _ => return Err(Stop::Limit(format!("intrinsic {i:?}"))),
            };
            return Ok(k(r));
        }
        let x = self.term(a, bits);
        let tm = &mut self.tm;
        let t = match i {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let y = self.term(b, bits);
                let p = match i {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.t_icmp(p, x, y);
                self.tm.ite(c, x, y)
            }
            Intr::USubSat => {
                let y = self.term(b, bits);
                let c = self.tm.bin(Op::Ult, x, y);
                let d = self.tm.bin(Op::Sub, x, y);
                let z = self.tm.konst(0, bits);
                self.tm.ite(c, z, d)
            }
            Intr::UAddSat => {
                let y = self.term(b, bits);
                let d = self.tm.bin(Op::Add, x, y);
                let c = self.tm.bin(Op::Ult, d, x);
                let z = self.tm.konst(mask(bits), bits);
                self.tm.ite(c, z, d)
            }
            Intr::SSubSat | Intr::SAddSat => {
                let y = self.term(b, bits);
                let o = if i == Intr::SAddSat { Op::Add } else { Op::Sub };
                let (xw, yw) = (self.tm.sext(x, bits + 1), self.tm.sext(y, bits + 1));
                let r = self.tm.bin(o, xw, yw);
                let lo = self.tm.konst((-(1i128 << (bits - 1))) as u128, bits + 1);
                let hi = self.tm.konst(((1i128 << (bits - 1)) - 1) as u128, bits + 1);
                let c1 = self.tm.bin(Op::Slt, r, lo);
                let c2 = self.tm.bin(Op::Slt, hi, r);
                let r = self.tm.ite(c2, hi, r);
                let r = self.tm.ite(c1, lo, r);
                self.tm.extract(r, 0, bits)
            }
            Intr::Cttz | Intr::Ctlz => {
                let mut r = tm.konst(bits as u128, bits);
                for j in 0..bits {
                    // last wins: scan so that the decisive bit is handled last
                    let pos = if i == Intr::Cttz { bits - 1 - j } else { j };
                    let bt = tm.extract(x, pos, 1);
                    let val = if i == Intr::Cttz { pos } else { bits - 1 - pos };
                    let kc = tm.konst(val as u128, bits);
                    r = tm.ite(bt, kc, r);
                }
                r
            }
            Intr::Ctpop => {
                let mut r = tm.konst(0, bits);
                for j in 0..bits {
                    let bt = tm.extract(x, j, 1);
                    let z = tm.zext(bt, bits);
                    r = tm.bin(Op::Add, r, z);
                }
                r
            }
            Intr::Bswap => {
                let mut r = 0;
                for j in 0..bits / 8 {
                    let by = tm.extract(x, 8 * j, 8);
                    r = if r == 0 { by } else { tm.concat(r, by) };
                }
                r
            }
            Intr::Fshl | Intr::Fshr => {
                let y = self.term(b, bits);
                let s = self.term(c, bits);
                let bm = self.tm.konst(bits as u128, bits);
                let s = self.tm.bin(Op::URem, s, bm);
                let w = self.tm.concat(x, y);
                let sw = self.tm.zext(s, bits * 2);
                if i == Intr::Fshl {
                    let r = self.tm.bin(Op::Shl, w, sw);
                    self.tm.extract(r, bits, bits)
                } else {
                    let r = self.tm.bin(Op::LShr, w, sw);
                    self.tm.extract(r, 0, bits)
                }
            }
            Intr::Abs => {
                let z = tm.konst(0, bits);
                let c = tm.bin(Op::Slt, x, z);
                let n = tm.bin(Op::Sub, z, x);
                tm.ite(c, n, x)
            }
            Intr::Scmp | Intr::Ucmp => {
                let y = self.term(b, bits);
                let lt = self.tm.bin(if i == Intr::Scmp { Op::Slt } else { Op::Ult }, x, y);
                let eq = self.tm.bin(Op::Eq, x, y);
                let m1 = self.tm.konst(mask(to), to);
                let z = self.tm.konst(0, to);
                let p1 = self.tm.konst(1, to);
                let r = self.tm.ite(eq, z, p1);
                self.tm.ite(lt, m1, r)
            }
            Intr::FToSISat => tm.fop1(Op::FToSISat, x, to),
            Intr::FToUISat => tm.fop1(Op::FToUISat, x, to),
            Intr::CopySign => {
                let y = self.term(b, bits);
                let sm = self.tm.konst(1u128 << (bits - 1), bits);
                let nm = self.tm.konst(mask(bits) >> 1, bits);
                let p = self.tm.bin(Op::And, x, nm);
                let q = self.tm.bin(Op::And, y, sm);
                self.tm.bin(Op::Or, p, q)
            }
            Intr::PtrMask => {
                let y = self.term(b, bits);
                self.tm.bin(Op::And, x, y)
            }
            Intr::FloatFn(kk) => match kk {
                0 | 1 => {
                    let y = self.term(b, bits);
                    self.tm.fop2(if kk == 0 { Op::FMin } else { Op::FMax }, x, y)
                }
                2 => tm.fop1(Op::FFloor, x, bits),
                3 => tm.fop1(Op::FCeil, x, bits),
                4 => tm.fop1(Op::FTruncI, x, bits),
                5 => {
                    let nm = tm.konst(mask(bits) >> 1, bits);
                    tm.bin(Op::And, x, nm)
                }
                _ => {
                    let av = self.conc(st, a)?;
                    let bv = self.conc(st, b)?;
                    return self.lane_intr(st, i, ci, bits, k(av), k(bv), k(0));
                }
            },
            _ => return Err(Stop::Limit(format!("symbolic intrinsic {i:?}"))),
        };
        Ok(self.norm(st, t))
    }
}

fn size_class(sz: u64) -> (Option<usize>, u64) {
    // sz is a multiple of 16, >= 16
    if sz <= 512 {
        (Some((sz / 16 - 1) as usize), sz)
    } else {
        let p = sz.next_power_of_two();
        let c = 32 + (p.trailing_zeros() as usize - 10);
        if c < 64 {
            (Some(c), p)
        } else {
            (None, p)
        }
    }
}
fn bin_op(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor | BinOp::Sip => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::FAdd => Op::FAdd,
        BinOp::FSub => Op::FSub,
        BinOp::FMul => Op::FMul,
        BinOp::FDiv => Op::FDiv,
        BinOp::FRem => Op::FRem,
    }
}
fn conc_bin(op: BinOp, bits: u32, x: u64, y: u64) -> Option<u64> {
    match op {
        BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return None,
        _ => {}
    }
    Some(eval_op(bin_op(op), bits, bits, 0, x as u128, y as u128, 0) as u64)
}
