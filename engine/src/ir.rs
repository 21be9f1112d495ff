//! Parser for the textual LLVM IR emitted by rustc, and decoder to a compact op stream.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Opaque,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lane {
    pub bits: u32, // 1..=64
    pub off: u32,
}

pub struct TyInfo {
    pub ty: Ty,
    pub size: u64, // alloc size
    pub align: u64,
    pub offs: Vec<u64>, // struct offsets
}

#[derive(Default)]
pub struct Types {
    pub infos: Vec<TyInfo>,
    map: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    named_src: HashMap<String, (usize, usize)>,
    lanes: HashMap<TyId, Rc<Vec<Lane>>>,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let mut offs = vec![];
        let (size, align) = match &t {
            Ty::Void | Ty::Opaque => (0, 1),
            Ty::Int(b) => {
                let s = ((*b as u64) + 7) / 8;
                let s2 = s.next_power_of_two();
                let a = s2.min(16);
                (up(s, a), a)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Vec(n, e) => {
                let bits = match self.infos[*e as usize].ty {
                    Ty::Int(b) => b as u64,
                    Ty::F32 => 32,
                    _ => 64,
                };
                let s = (bits * *n as u64 + 7) / 8;
                let a = s.next_power_of_two();
                (up(s, a), a)
            }
            Ty::Arr(n, e) => {
                let i = &self.infos[*e as usize];
                (i.size * n, i.align)
            }
            Ty::Struct(es, packed) => {
                let mut o = 0;
                let mut al = 1;
                for e in es {
                    let i = &self.infos[*e as usize];
                    let a = if *packed { 1 } else { i.align };
                    o = up(o, a);
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                }
                (up(o, al), al)
            }
        };
        let id = self.infos.len() as TyId;
        self.infos.push(TyInfo { ty: t.clone(), size, align, offs });
        self.map.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.infos[t as usize].size
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.infos[t as usize].ty
    }
    /// store size of a scalar in bytes
    pub fn lanes(&mut self, t: TyId) -> Rc<Vec<Lane>> {
        if let Some(l) = self.lanes.get(&t) {
            return l.clone();
        }
        let mut v = vec![];
        self.flat(t, 0, &mut v);
        let r = Rc::new(v);
        self.lanes.insert(t, r.clone());
        r
    }
    fn flat(&self, t: TyId, off: u64, out: &mut Vec<Lane>) {
        match &self.infos[t as usize].ty {
            Ty::Void | Ty::Opaque => {}
            Ty::Int(b) => {
                let mut b = *b;
                let mut o = off;
                while b > 64 {
                    out.push(Lane { bits: 64, off: o as u32 });
                    b -= 64;
                    o += 8;
                }
                out.push(Lane { bits: b, off: o as u32 });
            }
            Ty::Ptr | Ty::F64 => out.push(Lane { bits: 64, off: off as u32 }),
            Ty::F32 => out.push(Lane { bits: 32, off: off as u32 }),
            Ty::Vec(n, e) => {
                let bits = match self.infos[*e as usize].ty {
                    Ty::Int(b) => b as u64,
                    Ty::F32 => 32,
                    _ => 64,
                };
                for i in 0..*n as u64 {
                    // sub-byte lanes get a fake offset; they cannot be loaded or stored
                    out.push(Lane { bits: bits as u32, off: (off + i * bits / 8) as u32 });
                }
            }
            Ty::Arr(n, e) => {
                let s = self.infos[*e as usize].size;
                for i in 0..*n {
                    self.flat(*e, off + i * s, out);
                }
            }
            Ty::Struct(es, _) => {
                let offs = self.infos[t as usize].offs.clone();
                for (i, e) in es.iter().enumerate() {
                    self.flat(*e, off + offs[i], out);
                }
            }
        }
    }
    pub fn nlanes(&mut self, t: TyId) -> u32 {
        self.lanes(t).len() as u32
    }
}

pub type Opd = u32; // MSB set = constant pool index
pub const CBIT: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Sip,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    FToSI,
    FToUI,
    SIToF,
    UIToF,
    FExt,
    FTrunc,
    Bit,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Opd)>, // dst lane, src
    pub hazard: bool,
}

#[derive(Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Intr(Intr),
    Ext(crate::exec::Ext, String),
    Asm(u8), // 0 = nop/void, 1 = identity, 2 = cpuid
}
#[derive(Debug)]
pub struct CallInfo {
    pub callee: Callee,
    pub args: Vec<(Opd, u32)>, // (first operand, lanes)
    pub arg_tys: Vec<TyId>,
    pub dst: u32,
    pub ret_ty: TyId,
    pub ret_lanes: u32,
    pub bits: u32, // element bits of the result (or first arg when void/bool)
    pub lanes: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Trap,
    ThreadLocal,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    SAddO,
    SSubO,
    SMulO,
    UAddO,
    USubO,
    UMulO,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    BitRev,
    Fshl,
    Fshr,
    Abs,
    Scmp,
    Ucmp,
    FToSISat,
    FToUISat,
    FloatFn(u8),
    IsConstant,
    Expect,
    ObjectSize,
    VReduce(u8),
    PtrMask,
    Fma,
    CopySign,
    Movmsk,
    Xgetbv,
    LoadRel,
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, bits: u32, dst: u32, a: Opd, b: Opd, lanes: u32 },
    BinW { op: BinOp, bits: u32, dst: u32, a: Opd, b: Opd }, // 65..128 bits, 2 lanes
    Icmp { p: Pred, bits: u32, dst: u32, a: Opd, b: Opd, lanes: u32 },
    IcmpW { p: Pred, bits: u32, dst: u32, a: Opd, b: Opd },
    Fcmp { p: FPred, bits: u32, dst: u32, a: Opd, b: Opd, lanes: u32 },
    FNeg { bits: u32, dst: u32, a: Opd, lanes: u32 },
    Cast { op: Cast, from: u32, to: u32, dst: u32, a: Opd, lanes: u32 },
    CastW { op: Cast, from: u32, to: u32, dst: u32, a: Opd },
    BitPack { from: u32, fl: u32, to: u32, tl: u32, dst: u32, a: Opd },
    Copy { dst: u32, a: Opd, lanes: u32 },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, lanes: u32, vec: bool, l: Rc<Vec<Lane>> },
    Alloca { dst: u32, size: u64, n: Opd, align: u64 },
    Load { dst: u32, p: Opd, bytes: u32, bits: u32 },
    LoadM { dst: u32, p: Opd, l: Rc<Vec<Lane>> },
    Store { v: Opd, p: Opd, bytes: u32, bits: u32 },
    StoreM { v: Opd, p: Opd, l: Rc<Vec<Lane>> },
    Gep { dst: u32, p: Opd, off: i64, terms: Vec<(Opd, i64, u32)> }, // (index, scale, bits)
    Gep1 { dst: u32, p: Opd, off: i64, idx: Opd, scale: i64, bits: u32 },
    Gep0 { dst: u32, p: Opd, off: i64 },
    ExtractElt { dst: u32, v: Opd, lanes: u32, idx: Opd },
    InsertElt { dst: u32, v: Opd, e: Opd, lanes: u32, idx: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, lanes: u32, mask: Vec<i32> },
    InsertVal { dst: u32, a: Opd, lanes: u32, v: Opd, at: u32, vl: u32 },
    Call(Box<CallInfo>),
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, bits: u32, cases: Vec<(u64, u32)>, def: u32 },
    Ret { v: Opd, lanes: u32 },
    Unreach,
    AtomicRmw { op: RmwOp, dst: u32, p: Opd, v: Opd, bytes: u32, bits: u32 },
    CmpXchg { dst: u32, p: Opd, cmp: Opd, new: Opd, bytes: u32, bits: u32 },
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub ops: Vec<I>,
    pub edges: Vec<Edge>,
    pub consts: Vec<u64>,
    pub nregs: u32,
    pub nparams: u32, // lanes
}

pub struct FuncDecl {
    pub name: String,
    pub text: (usize, usize), // header line start .. end of body ; (0,0) for declarations
    pub body: Option<Rc<Func>>,
    pub addr: u64,
    pub defined: bool,
}

pub struct Module {
    pub src: &'static [u8],
    pub types: Types,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub global_list: Vec<(u64, u64, String)>,
    pub image: Vec<(u64, Vec<u8>)>,
    pub ctors: Vec<u64>,
    pub aliases: HashMap<String, String>,
    pub init: String,
}

pub const FN_BASE: u64 = 0x10000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        P { s, i: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at: {}", c as char, self.rest(60)))
        }
    }
    pub fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).to_string()
    }
    pub fn word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'+')) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let sv = self.i;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.i = sv;
            false
        }
    }
    pub fn name(&mut self) -> String {
        // after sigil
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = unescape(&self.s[st..self.i]);
            self.i += 1;
            return String::from_utf8_lossy(&r).to_string();
        }
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    pub fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn int(&mut self) -> Option<i128> {
        let w = self.peek_word();
        let s = std::str::from_utf8(w).ok()?;
        let v = s.parse::<i128>().ok()?;
        self.word();
        Some(v)
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                is_type_word(w)
            }
        }
    }
    /// skip attribute words (and metadata-ish) until `stop`
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let sv = self.i;
            let w = self.word();
            if w.is_empty() {
                return;
            }
            if is_attr_word(w) {
                if w == b"align" || w == b"addrspace" {
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.word();
                    }
                } else if self.i < self.s.len() && self.s[self.i] == b'(' {
                    self.balanced();
                }
                continue;
            }
            self.i = sv;
            return;
        }
    }
}
fn is_type_word(w: &[u8]) -> bool {
    if w.len() >= 2 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) {
        return true;
    }
    matches!(w, b"void" | b"ptr" | b"float" | b"double" | b"half" | b"label" | b"metadata" | b"token" | b"x86_fp80" | b"fp128")
}
fn is_attr_word(w: &[u8]) -> bool {
    if w.is_empty() || !w[0].is_ascii_alphabetic() {
        return false;
    }
    if is_type_word(w) {
        return false;
    }
    !matches!(
        w,
        b"null" | b"true" | b"false" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"splat" | b"getelementptr"
            | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"addrspacecast" | b"trunc" | b"sub" | b"add" | b"xor" | b"mul"
            | b"c" | b"blockaddress" | b"asm" | b"dso_local_equivalent" | b"no_cfi" | b"to" | b"unwind" | b"label" | b"ptrtoaddr"
            | b"nan" | b"inf"
    )
}

pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

pub struct FnCtx {
    regs: HashMap<String, (u32, TyId)>,
    nregs: u32,
    consts: Vec<u64>,
    cmap: HashMap<Vec<u64>, u32>,
}
impl FnCtx {
    fn pool(&mut self, v: Vec<u64>) -> Opd {
        if let Some(&i) = self.cmap.get(&v) {
            return i | CBIT;
        }
        let i = self.consts.len() as u32;
        self.consts.extend(v.iter());
        self.cmap.insert(v, i);
        i | CBIT
    }
}

fn float_bits(s: &str, f32_: bool) -> Result<u64, String> {
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{e} {s}"))?)
    } else {
        s.parse::<f64>().map_err(|e| format!("float {s}: {e}"))?
    };
    Ok(if f32_ { (d as f32).to_bits() as u64 } else { d.to_bits() })
}

impl Module {
    pub fn parse(src: Vec<u8>) -> Result<Module, String> {
        let src: &'static [u8] = Box::leak(src.into_boxed_slice());
        let mut m = Module {
            src,
            types: Types::default(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: HashMap::new(),
            global_list: vec![],
            image: vec![],
            ctors: vec![],
            aliases: HashMap::new(),
            init: String::new(),
        };
        let mut i = 0;
        let mut globals: Vec<(String, usize, usize, TyId)> = vec![]; // name, init pos, end, type
        let mut next = GLOBAL_BASE;
        while i < src.len() {
            let e = memchr(b'\n', src, i);
            let line = &src[i..e];
            if line.starts_with(b"@") {
                let mut p = P { s: &src[..e], i: i + 1 };
                let name = p.name();
                p.need(b'=')?;
                // linkage etc
                let mut is_alias = false;
                loop {
                    let w = p.peek_word();
                    match w {
                        b"constant" | b"global" => {
                            p.word();
                            break;
                        }
                        b"alias" => {
                            is_alias = true;
                            break;
                        }
                        b"" => return Err(format!("global? {}", String::from_utf8_lossy(&line[..line.len().min(200)]))),
                        _ => {
                            p.word();
                            if p.i < p.s.len() && p.s[p.i] == b'(' {
                                p.balanced();
                            }
                        }
                    }
                }
                if is_alias {
                    // @a = ... alias TYPE, ptr @b
                    let t = String::from_utf8_lossy(line).to_string();
                    let at = t.rfind("ptr @").ok_or("alias")?;
                    let mut q = P::new(t[at + 5..].as_bytes());
                    let target = q.name();
                    m.aliases.insert(name, target);
                } else {
                    let external = {
                        let l = &src[i..p.i];
                        contains(l, b" external ") || contains(l, b" extern_weak ")
                    };
                    let ty = m.ty(&mut p)?;
                    let sz = m.types.size(ty);
                    let al = {
                        // align N anywhere at tail
                        let t = &src[p.i..e];
                        match rfind(t, b", align ") {
                            Some(k) => {
                                let mut q = P { s: t, i: k + 8 };
                                q.int().unwrap_or(16) as u64
                            }
                            None => 16,
                        }
                    };
                    next = up(next, al.max(8));
                    if contains(&src[p.i..e], b"section \".init_array") {
                        // the one the standard library takes the program's arguments with
                        if let Some(k) = src[p.i..e].iter().position(|c| *c == b'@') {
                            let mut q = P::new(&src[p.i + k + 1..e]);
                            m.init = q.name();
                        }
                    }
                    m.globals.insert(name.clone(), next);
                    m.global_list.push((next, sz, name.clone()));
                    if !external {
                        globals.push((name, p.i, e, ty));
                    }
                    next += sz.max(1) + 8;
                }
                i = e + 1;
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let def = line.starts_with(b"define");
                let at = line.iter().position(|&c| c == b'@').ok_or("fn name")?;
                let mut p = P { s: &src[..e], i: i + at + 1 };
                let name = p.name();
                let mut end = e;
                if def {
                    // find "\n}\n"
                    let mut k = e;
                    loop {
                        if src[k] == b'\n' && k + 1 < src.len() && src[k + 1] == b'}' {
                            end = k;
                            break;
                        }
                        k = memchr(b'\n', src, k + 1);
                    }
                }
                let id = m.funcs.len() as u32;
                if name == "exit" && line.starts_with(b"define") {
                    crate::exec::OWN_EXIT.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl {
                    name,
                    text: (i, end),
                    body: None,
                    addr: FN_BASE + 16 * id as u64,
                    defined: def,
                });
                i = if def { end + 3 } else { e + 1 };
            } else if line.starts_with(b"%") {
                let mut p = P { s: &src[..e], i: i + 1 };
                let name = p.name();
                p.need(b'=')?;
                if !p.eat_word("type") {
                    return Err("type def".into());
                }
                m.types.named_src.insert(name, (p.i, e));
                i = e + 1;
            } else {
                i = e + 1;
            }
        }
        if FN_BASE + 16 * m.funcs.len() as u64 >= GLOBAL_BASE {
            return Err("too many functions".into());
        }
        for (name, pos, end, ty) in globals {
            let addr = m.globals[&name];
            let mut buf = vec![0u8; m.types.size(ty) as usize];
            let mut p = P { s: &src[..end], i: pos };
            m.const_bytes(&mut p, ty, &mut buf).map_err(|e| format!("global {name}: {e}"))?;
            if name == "llvm.global_ctors" {
                // { i32, ptr, ptr }
                for c in buf.chunks(24) {
                    m.ctors.push(u64::from_le_bytes(c[8..16].try_into().unwrap()));
                }
            }
            m.image.push((addr, buf));
        }
        Ok(m)
    }

    pub fn ty(&mut self, p: &mut P) -> Result<TyId, String> {
        let c = p.peek();
        match c {
            b'[' => {
                p.i += 1;
                let n = p.int().ok_or("arr n")? as u64;
                if !p.eat_word("x") {
                    return Err("arr x".into());
                }
                let e = self.ty(p)?;
                p.need(b']')?;
                Ok(self.types.mk(Ty::Arr(n, e)))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    let es = self.struct_elems(p)?;
                    p.need(b'>')?;
                    return Ok(self.types.mk(Ty::Struct(es, true)));
                }
                let n = p.int().ok_or("vec n")? as u32;
                if !p.eat_word("x") {
                    return Err("vec x".into());
                }
                let e = self.ty(p)?;
                p.need(b'>')?;
                Ok(self.types.mk(Ty::Vec(n, e)))
            }
            b'{' => {
                let es = self.struct_elems(p)?;
                Ok(self.types.mk(Ty::Struct(es, false)))
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                if let Some(t) = self.types.named.get(&n) {
                    return Ok(*t);
                }
                let (a, b) = self.types.named_src.get(&n).copied().ok_or(format!("named type {n}"))?;
                let mut q = P { s: &self.src[..b], i: a };
                let t = if q.eat_word("opaque") { self.types.mk(Ty::Opaque) } else { self.ty(&mut q)? };
                self.types.named.insert(n, t);
                Ok(t)
            }
            _ => {
                let w = p.word();
                let s = std::str::from_utf8(w).unwrap();
                let t = match s {
                    "void" => Ty::Void,
                    "ptr" => {
                        if p.peek_word() == b"addrspace" {
                            p.word();
                            p.balanced();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" => Ty::Opaque,
                    "half" => Ty::Int(16),
                    _ => {
                        if s.starts_with('i') {
                            Ty::Int(s[1..].parse::<u32>().map_err(|_| format!("type {s}"))?)
                        } else {
                            return Err(format!("type '{}' at {}", s, p.rest(40)));
                        }
                    }
                };
                Ok(self.types.mk(t))
            }
        }
    }
    fn struct_elems(&mut self, p: &mut P) -> Result<Vec<TyId>, String> {
        p.need(b'{')?;
        let mut v = vec![];
        if p.eat(b'}') {
            return Ok(v);
        }
        loop {
            v.push(self.ty(p)?);
            if p.eat(b',') {
                continue;
            }
            p.need(b'}')?;
            return Ok(v);
        }
    }

    pub fn global_addr(&self, name: &str) -> Result<u64, String> {
        if let Some(a) = self.globals.get(name) {
            return Ok(*a);
        }
        if let Some(f) = self.fidx.get(name) {
            let fd = &self.funcs[*f as usize];
            // weak externals that we do not provide resolve to null
            if !fd.defined {
                let (a, b) = fd.text;
                if contains(&self.src[a..b], b"extern_weak") && !crate::exec::has_external(name) {
                    return Ok(0);
                }
            }
            return Ok(fd.addr);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.global_addr(a);
        }
        Err(format!("unknown global @{name}"))
    }

    /// parse a constant of type ty at p and write it into buf
    fn const_bytes(&mut self, p: &mut P, ty: TyId, buf: &mut [u8]) -> Result<(), String> {
        let w = p.peek_word();
        match w {
            b"zeroinitializer" | b"undef" | b"poison" | b"null" | b"none" => {
                p.word();
                return Ok(());
            }
            _ => {}
        }
        let t = self.types.ty(ty).clone();
        match t {
            Ty::Arr(_, e) | Ty::Vec(_, e) if matches!(t, Ty::Arr(..)) || p.peek() == b'<' || w == b"splat" || p.peek() == b'c' => {
                let n = if let Ty::Vec(k, _) = t { k as u64 } else { n_of(&t, 0) };
                let es = self.types.size(e) as usize;
                if w == b"c" && p.s.get(p.i + 1).map_or(false, |_| true) && {
                    p.ws();
                    p.s[p.i + 1] == b'"'
                } {
                    p.i += 2;
                    let st = p.i;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    let b = unescape(&p.s[st..p.i]);
                    p.i += 1;
                    buf[..b.len()].copy_from_slice(&b);
                    return Ok(());
                }
                if w == b"splat" {
                    p.word();
                    p.need(b'(')?;
                    let et = self.ty(p)?;
                    let sv = p.i;
                    for k in 0..n as usize {
                        p.i = sv;
                        self.const_bytes(p, et, &mut buf[k * es..(k + 1) * es])?;
                    }
                    p.need(b')')?;
                    return Ok(());
                }
                let (o, c) = if p.peek() == b'[' { (b'[', b']') } else { (b'<', b'>') };
                p.need(o)?;
                for k in 0..n as usize {
                    let et = self.ty(p)?;
                    self.const_bytes(p, et, &mut buf[k * es..(k + 1) * es])?;
                    if k + 1 < n as usize {
                        p.need(b',')?;
                    }
                }
                p.need(c)
            }
            Ty::Struct(es, packed) => {
                let offs = self.types.infos[ty as usize].offs.clone();
                if packed {
                    p.need(b'<')?;
                }
                p.need(b'{')?;
                for k in 0..es.len() {
                    let et = self.ty(p)?;
                    let s = self.types.size(et) as usize;
                    let o = offs[k] as usize;
                    self.const_bytes(p, et, &mut buf[o..o + s])?;
                    if k + 1 < es.len() {
                        p.need(b',')?;
                    }
                }
                p.need(b'}')?;
                if packed {
                    p.need(b'>')?;
                }
                Ok(())
            }
            _ => {
                let v = self.const_scalar(p, ty)?;
                let b = v.to_le_bytes();
                let n = buf.len().min(16);
                buf[..n].copy_from_slice(&b[..n]);
                Ok(())
            }
        }
    }

    fn const_scalar(&mut self, p: &mut P, ty: TyId) -> Result<u128, String> {
        let t = self.types.ty(ty).clone();
        if p.peek() == b'@' {
            p.i += 1;
            let n = p.name();
            return Ok(self.global_addr(&n)? as u128);
        }
        let sv = p.i;
        let w = p.word();
        let s = std::str::from_utf8(w).unwrap();
        match s {
            "null" | "zeroinitializer" | "undef" | "poison" | "none" | "false" => return Ok(0),
            "true" => return Ok(1),
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' {
                        // inrange(...)?
                        let sv2 = p.i;
                        p.i += 1;
                        if p.at_type() {
                            p.i = sv2;
                            break;
                        }
                        p.i = sv2;
                        p.balanced();
                    }
                }
                p.need(b'(')?;
                let base = self.ty(p)?;
                p.need(b',')?;
                let pt = self.ty(p)?;
                let mut addr = self.const_scalar(p, pt)? as i128;
                let mut cur = base;
                let mut first = true;
                while p.eat(b',') {
                    let it = self.ty(p)?;
                    let raw = self.const_scalar(p, it)?;
                    let bits = match self.types.ty(it) {
                        Ty::Int(b) => *b,
                        _ => 64,
                    };
                    let idx = crate::term::sext128(raw, bits);
                    if first {
                        addr += idx * self.types.size(cur) as i128;
                        first = false;
                    } else {
                        match self.types.ty(cur).clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                addr += idx * self.types.size(e) as i128;
                                cur = e;
                            }
                            Ty::Struct(es, _) => {
                                addr += self.types.infos[cur as usize].offs[idx as usize] as i128;
                                cur = es[idx as usize];
                            }
                            _ => return Err("const gep".into()),
                        }
                    }
                }
                p.need(b')')?;
                return Ok(addr as u64 as u128);
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                p.need(b'(')?;
                let t1 = self.ty(p)?;
                let v = self.const_scalar(p, t1)?;
                if !p.eat_word("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty(p)?;
                p.need(b')')?;
                let bits = self.scalar_bits(t2);
                return Ok(v & crate::term::mask(bits));
            }
            "add" | "sub" | "xor" | "mul" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.need(b'(')?;
                let t1 = self.ty(p)?;
                let a = self.const_scalar(p, t1)?;
                p.need(b',')?;
                let t2 = self.ty(p)?;
                let b = self.const_scalar(p, t2)?;
                p.need(b')')?;
                let bits = self.scalar_bits(t1);
                let r = match s {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                return Ok(r & crate::term::mask(bits));
            }
            "" => return Err(format!("const at {}", p.rest(80))),
            _ => {}
        }
        match t {
            Ty::F32 => return Ok(float_bits(s, true)? as u128),
            Ty::F64 => return Ok(float_bits(s, false)? as u128),
            Ty::Int(b) => {
                if let Ok(v) = s.parse::<i128>() {
                    return Ok((v as u128) & crate::term::mask(b));
                }
                if let Ok(v) = s.parse::<u128>() {
                    return Ok(v & crate::term::mask(b));
                }
                if s.starts_with("u0x") || s.starts_with("s0x") {
                    return u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string());
                }
            }
            _ => {}
        }
        p.i = sv;
        Err(format!("scalar const {:?} at {}", t, p.rest(80)))
    }
    pub fn scalar_bits(&self, t: TyId) -> u32 {
        match self.types.ty(t) {
            Ty::Int(b) => *b,
            Ty::F32 => 32,
            _ => 64,
        }
    }
    pub fn elem_bits(&self, t: TyId) -> u32 {
        match self.types.ty(t) {
            Ty::Vec(_, e) => self.scalar_bits(*e),
            _ => self.scalar_bits(t),
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.types.ty(t), Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }

    /// parse an operand of known type
    fn opd(&mut self, p: &mut P, ty: TyId, f: &mut FnCtx) -> Result<Opd, String> {
        match p.peek() {
            b'%' => {
                p.i += 1;
                let n = p.name();
                match f.regs.get(&n) {
                    Some(r) => Ok(r.0),
                    None => Err(format!("unknown reg %{n}")),
                }
            }
            _ => {
                let lanes = self.types.lanes(ty);
                if lanes.len() == 1 && self.is_scalar(ty) {
                    let v = self.const_scalar(p, ty)?;
                    return Ok(f.pool(vec![v as u64]));
                }
                // vector of i1 constants: const_bytes has no sub-byte layout, handle lanes by hand
                let t = self.types.ty(ty).clone();
                if let Ty::Vec(n, e) = t {
                    let w = p.peek_word();
                    let vals = match w {
                        b"zeroinitializer" | b"undef" | b"poison" => {
                            p.word();
                            vec![0u64; n as usize]
                        }
                        b"splat" => {
                            p.word();
                            p.need(b'(')?;
                            let et = self.ty(p)?;
                            let v = self.const_scalar(p, et)? as u64;
                            p.need(b')')?;
                            vec![v; n as usize]
                        }
                        b"bitcast" => return Err("vector bitcast const".into()),
                        _ => {
                            if p.peek() == b'c' {
                                let mut buf = vec![0u8; self.types.size(ty) as usize];
                                self.const_bytes(p, ty, &mut buf)?;
                                buf.iter().map(|&b| b as u64).collect()
                            } else {
                                p.need(b'<')?;
                                let mut v = vec![];
                                for k in 0..n {
                                    let et = self.ty(p)?;
                                    v.push(self.const_scalar(p, et)? as u64);
                                    if k + 1 < n {
                                        p.need(b',')?;
                                    }
                                }
                                p.need(b'>')?;
                                v
                            }
                        }
                    };
                    let _ = e;
                    return Ok(f.pool(vals));
                }
                let mut buf = vec![0u8; self.types.size(ty) as usize + 16];
                let sz = self.types.size(ty) as usize;
                self.const_bytes(p, ty, &mut buf[..sz])?;
                let vals = lanes
                    .iter()
                    .map(|l| {
                        let nb = ((l.bits + 7) / 8) as usize;
                        let mut x = [0u8; 8];
                        x[..nb].copy_from_slice(&buf[l.off as usize..l.off as usize + nb]);
                        u64::from_le_bytes(x)
                    })
                    .collect();
                Ok(f.pool(vals))
            }
        }
    }
    fn typed_opd(&mut self, p: &mut P, f: &mut FnCtx) -> Result<(TyId, Opd), String> {
        let t = self.ty(p)?;
        p.skip_attrs();
        let o = self.opd(p, t, f)?;
        Ok((t, o))
    }
    fn def(&mut self, f: &mut FnCtx, name: &str, ty: TyId) -> u32 {
        let n = self.types.nlanes(ty);
        let r = f.nregs;
        f.nregs += n;
        f.regs.insert(name.to_string(), (r, ty));
        r
    }

    pub fn decode(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(b) = &self.funcs[id as usize].body {
            return Ok(b.clone());
        }
        let name = self.funcs[id as usize].name.clone();
        let r = self.decode_inner(id).map_err(|e| format!("decoding {name}: {e}"))?;
        let r = Rc::new(r);
        self.funcs[id as usize].body = Some(r.clone());
        Ok(r)
    }

    fn decode_inner(&mut self, id: u32) -> Result<Func, String> {
        let (st, en) = self.funcs[id as usize].text;
        let src = self.src;
        let hdr_end = memchr(b'\n', src, st);
        let hdr = &src[st..hdr_end];
        let mut f = FnCtx { regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
        // params
        let at = hdr.iter().position(|&c| c == b'@').unwrap();
        let mut p = P { s: hdr, i: at + 1 };
        p.name();
        p.need(b'(')?;
        let mut unnamed = 0;
        let mut nparams = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    return Err("varargs definition".into());
                }
                let t = self.ty(&mut p)?;
                p.skip_attrs();
                p.need(b'%')?;
                let n = p.name();
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                self.def(&mut f, &n, t);
                nparams += self.types.nlanes(t);
                if p.eat(b',') {
                    continue;
                }
                p.need(b')')?;
                break;
            }
        }
        // split in blocks of logical lines
        struct Blk<'a> {
            name: String,
            lines: Vec<&'a [u8]>,
        }
        let mut blocks: Vec<Blk> = vec![];
        let mut i = hdr_end + 1;
        while i < en {
            let mut e = memchr(b'\n', src, i).min(en);
            let line = &src[i..e];
            if line.is_empty() {
                i = e + 1;
                continue;
            }
            if line[0] != b' ' {
                if line[0] == b';' {
                    i = e + 1;
                    continue;
                }
                let mut q = P::new(line);
                let n = q.name();
                blocks.push(Blk { name: n, lines: vec![] });
                i = e + 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Blk { name: unnamed.to_string(), lines: vec![] });
            }
            let tr = trim(line);
            if tr.starts_with(b"#dbg") || tr.starts_with(b";") {
                i = e + 1;
                continue;
            }
            // continuation lines
            if tr.starts_with(b"switch ") && !contains(line, b"]") {
                while !trim(&src[i..e]).contains(&b']') || !last_line(&src[i..e]).starts_with(b"]") {
                    e = memchr(b'\n', src, e + 1).min(en);
                }
            } else if contains(tr, b"invoke ") && !contains(tr, b" to label ") {
                e = memchr(b'\n', src, e + 1).min(en);
            } else if contains(tr, b"landingpad ") {
                loop {
                    let e2 = memchr(b'\n', src, e + 1).min(en);
                    if e2 <= e {
                        break;
                    }
                    let l2 = trim(&src[e + 1..e2]);
                    if l2.starts_with(b"cleanup") || l2.starts_with(b"catch") || l2.starts_with(b"filter") {
                        e = e2;
                    } else {
                        break;
                    }
                }
            }
            blocks.last_mut().unwrap().lines.push(&src[i..e]);
            i = e + 1;
        }
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
        // pass 1: define result registers (need types -> parse result types)
        for b in &blocks {
            for l in &b.lines {
                let mut p = P::new(l);
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    p.need(b'=')?;
                    let t = self.result_type(&mut p, &f).map_err(|e| format!("{e} in {}", String::from_utf8_lossy(l)))?;
                    self.def(&mut f, &n, t);
                }
            }
        }
        // pass 2
        let mut ops: Vec<I> = vec![];
        let mut starts = vec![0u32; blocks.len()];
        // phis: block -> Vec<(dst, lanes, Vec<(pred block, opd)>)>
        let mut phis: Vec<Vec<(u32, u32, Vec<(usize, Opd)>)>> = vec![];
        let mut edges: Vec<(usize, usize)> = vec![]; // (from,to)
        let mut emap: HashMap<(usize, usize), u32> = HashMap::new();
        for (bi, b) in blocks.iter().enumerate() {
            starts[bi] = ops.len() as u32;
            phis.push(vec![]);
            for l in &b.lines {
                let mut p = P::new(l);
                let mut edge = |to: &str| -> Result<u32, String> {
                    let t = *bidx.get(to).ok_or(format!("label {to}"))?;
                    Ok(*emap.entry((bi, t)).or_insert_with(|| {
                        edges.push((bi, t));
                        (edges.len() - 1) as u32
                    }))
                };
                let r = self.instr(&mut p, &mut f, &mut ops, phis.last_mut().unwrap(), &bidx, &mut edge);
                if let Err(e) = r {
                    ops.push(I::Unsupported(format!("{e} :: {}", String::from_utf8_lossy(l))));
                }
            }
        }
        let mut es = vec![];
        for (from, to) in edges {
            let mut moves = vec![];
            for (dst, lanes, inc) in &phis[to] {
                let o = inc.iter().find(|x| x.0 == from).ok_or("phi incoming")?.1;
                for k in 0..*lanes {
                    if o + k != dst + k {
                        moves.push((dst + k, o + k));
                    }
                }
            }
            let mut hazard = false;
            for (i, m) in moves.iter().enumerate() {
                for n in &moves[i + 1..] {
                    if n.1 == m.0 {
                        hazard = true;
                    }
                }
            }
            es.push(Edge { pc: starts[to], moves, hazard });
        }
        Ok(Func {
            name: self.funcs[id as usize].name.clone(),
            ops,
            edges: es,
            consts: f.consts,
            nregs: f.nregs,
            nparams,
        })
    }

    /// position p after '%x =' ; compute result type without consuming semantics
    fn result_type(&mut self, p: &mut P, f: &FnCtx) -> Result<TyId, String> {
        let mut w = p.word();
        while matches!(w, b"tail" | b"musttail" | b"notail") {
            w = p.word();
        }
        let ptr = self.types.mk(Ty::Ptr);
        match w {
            b"alloca" | b"getelementptr" => {
                // vector GEPs are not used by rustc
                Ok(ptr)
            }
            b"load" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                self.ty(p)
            }
            b"icmp" | b"fcmp" => {
                loop {
                    let sv = p.i;
                    if p.at_type() {
                        break;
                    }
                    if p.word().is_empty() {
                        return Err(format!("icmp {}", p.rest(30)));
                    }
                    let _ = sv;
                }
                let t = self.ty(p)?;
                let i1 = self.types.mk(Ty::Int(1));
                Ok(match self.types.ty(t) {
                    Ty::Vec(n, _) => {
                        let n = *n;
                        self.types.mk(Ty::Vec(n, i1))
                    }
                    _ => i1,
                })
            }
            b"phi" | b"freeze" | b"fneg" | b"va_arg" => {
                while !p.at_type() {
                    p.word();
                }
                self.ty(p)
            }
            b"select" => {
                // select [fmf] i1 %c, T %a, T %b
                while !p.at_type() {
                    p.word();
                }
                self.ty(p)?;
                skip_value(p);
                p.need(b',')?;
                self.ty(p)
            }
            b"zext" | b"sext" | b"trunc" | b"fptosi" | b"fptoui" | b"sitofp" | b"uitofp" | b"fpext" | b"fptrunc" | b"bitcast" | b"ptrtoint" | b"inttoptr" | b"addrspacecast" | b"ptrtoaddr" => {
                while !p.at_type() {
                    p.word();
                }
                self.ty(p)?;
                skip_value(p);
                if !p.eat_word("to") {
                    return Err(format!("cast to: {}", p.rest(30)));
                }
                self.ty(p)
            }
            b"extractvalue" => {
                let mut t = self.ty(p)?;
                skip_value(p);
                while p.eat(b',') {
                    if let Some(i) = p.int() {
                        t = match self.types.ty(t) {
                            Ty::Struct(es, _) => es[i as usize],
                            Ty::Arr(_, e) => *e,
                            _ => return Err("extractvalue".into()),
                        };
                    } else {
                        break;
                    }
                }
                Ok(t)
            }
            b"insertvalue" => self.ty(p),
            b"extractelement" => {
                let t = self.ty(p)?;
                match self.types.ty(t) {
                    Ty::Vec(_, e) => Ok(*e),
                    _ => Err("extractelement".into()),
                }
            }
            b"insertelement" => self.ty(p),
            b"shufflevector" => {
                let t = self.ty(p)?;
                skip_value(p);
                p.need(b',')?;
                self.ty(p)?;
                skip_value(p);
                p.need(b',')?;
                let mt = self.ty(p)?;
                let n = match self.types.ty(mt) {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("shuffle".into()),
                };
                let e = match self.types.ty(t) {
                    Ty::Vec(_, e) => *e,
                    _ => return Err("shuffle".into()),
                };
                Ok(self.types.mk(Ty::Vec(n, e)))
            }
            b"call" | b"invoke" => {
                p.skip_attrs();
                self.ty(p)
            }
            b"landingpad" => self.ty(p),
            b"atomicrmw" => {
                p.eat_word("volatile");
                p.word();
                self.ty(p)?; // ptr
                skip_value(p);
                p.need(b',')?;
                self.ty(p)
            }
            b"cmpxchg" => {
                p.eat_word("weak");
                p.eat_word("volatile");
                self.ty(p)?;
                skip_value(p);
                p.need(b',')?;
                let t = self.ty(p)?;
                let i1 = self.types.mk(Ty::Int(1));
                Ok(self.types.mk(Ty::Struct(vec![t, i1], false)))
            }
            _ => {
                // binary ops
                while !p.at_type() {
                    if p.word().is_empty() {
                        return Err(format!("op {} at {}", String::from_utf8_lossy(w), p.rest(30)));
                    }
                }
                let _ = f;
                self.ty(p)
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn instr(
        &mut self,
        p: &mut P,
        f: &mut FnCtx,
        ops: &mut Vec<I>,
        phis: &mut Vec<(u32, u32, Vec<(usize, Opd)>)>,
        bidx: &HashMap<String, usize>,
        edge: &mut dyn FnMut(&str) -> Result<u32, String>,
    ) -> Result<(), String> {
        let mut dst = 0;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.need(b'=')?;
            dst = f.regs[&n].0;
        }
        let mut w = p.word();
        while matches!(w, b"tail" | b"musttail" | b"notail") {
            w = p.word();
        }
        let ws = std::str::from_utf8(w).unwrap();
        let bop = match ws {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = bop {
            while !p.at_type() {
                p.word();
            }
            let (t, a) = self.typed_opd(p, f)?;
            p.need(b',')?;
            // SipHash starts from its key xored with this constant: where the order of hash tables is varied
            p.peek();
            let sip = op == BinOp::Xor && p.s[p.i..].starts_with(b"8317987319222330741");
            let op = if sip { BinOp::Sip } else { op };
            let b = self.opd(p, t, f)?;
            let bits = self.elem_bits(t);
            let lanes = self.types.nlanes(t);
            if bits > 64 {
                if bits > 128 || self.is_vec(t) {
                    return Err("wide bin".into());
                }
                ops.push(I::BinW { op, bits, dst, a, b });
            } else {
                ops.push(I::Bin { op, bits, dst, a, b, lanes });
            }
            return Ok(());
        }
        match ws {
            "icmp" => {
                let mut pr = p.word();
                if pr == b"samesign" {
                    pr = p.word();
                }
                let pred = match pr {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                let (t, a) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let b = self.opd(p, t, f)?;
                let bits = self.elem_bits(t);
                let lanes = self.types.nlanes(t);
                if bits > 64 {
                    ops.push(I::IcmpW { p: pred, bits, dst, a, b });
                } else {
                    ops.push(I::Icmp { p: pred, bits, dst, a, b, lanes });
                }
            }
            "fcmp" => {
                let mut pr;
                let pred = loop {
                    pr = p.word();
                    break match pr {
                        b"false" => FPred::False,
                        b"oeq" => FPred::Oeq,
                        b"ogt" => FPred::Ogt,
                        b"oge" => FPred::Oge,
                        b"olt" => FPred::Olt,
                        b"ole" => FPred::Ole,
                        b"one" => FPred::One,
                        b"ord" => FPred::Ord,
                        b"ueq" => FPred::Ueq,
                        b"ugt" => FPred::Ugt,
                        b"uge" => FPred::Uge,
                        b"ult" => FPred::Ult,
                        b"ule" => FPred::Ule,
                        b"une" => FPred::Une,
                        b"uno" => FPred::Uno,
                        b"true" => FPred::True,
                        b"" => return Err("fpred".into()),
                        _ => continue,
                    };
                };
                let (t, a) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let b = self.opd(p, t, f)?;
                let bits = self.elem_bits(t);
                let lanes = self.types.nlanes(t);
                ops.push(I::Fcmp { p: pred, bits, dst, a, b, lanes });
            }
            "fneg" => {
                while !p.at_type() {
                    p.word();
                }
                let (t, a) = self.typed_opd(p, f)?;
                let lanes = self.types.nlanes(t);
                ops.push(I::FNeg { bits: self.elem_bits(t), dst, a, lanes });
            }
            "zext" | "sext" | "trunc" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while !p.at_type() {
                    p.word();
                }
                let (t, a) = self.typed_opd(p, f)?;
                if !p.eat_word("to") {
                    return Err("to".into());
                }
                let t2 = self.ty(p)?;
                let (from, to) = (self.elem_bits(t), self.elem_bits(t2));
                let lanes = self.types.nlanes(t2);
                let op = match ws {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "fptosi" => Cast::FToSI,
                    "fptoui" => Cast::FToUI,
                    "sitofp" => Cast::SIToF,
                    "uitofp" => Cast::UIToF,
                    "fpext" => Cast::FExt,
                    "fptrunc" => Cast::FTrunc,
                    "ptrtoint" | "ptrtoaddr" => {
                        if to < 64 {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    }
                    "inttoptr" => {
                        if from < 64 {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                let fl = self.types.nlanes(t);
                if op == Cast::Bit && (fl != lanes || from != to) {
                    ops.push(I::BitPack { from: from.min(64), fl, to: to.min(64), tl: lanes, dst, a });
                } else if op == Cast::Bit {
                    ops.push(I::Copy { dst, a, lanes });
                } else if from > 64 || to > 64 {
                    if self.is_vec(t) {
                        return Err("wide vec cast".into());
                    }
                    ops.push(I::CastW { op, from, to, dst, a });
                } else {
                    ops.push(I::Cast { op, from, to, dst, a, lanes });
                }
            }
            "freeze" => {
                let (t, a) = self.typed_opd(p, f)?;
                let lanes = self.types.nlanes(t);
                ops.push(I::Copy { dst, a, lanes });
            }
            "select" => {
                while !p.at_type() {
                    p.word();
                }
                let (ct, c) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (t, a) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, b) = self.typed_opd(p, f)?;
                let l = self.types.lanes(t);
                let vec = self.is_vec(ct);
                ops.push(I::Select { dst, c, a, b, lanes: l.len() as u32, vec, l });
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = self.ty(p)?;
                let mut n = f.pool(vec![1]);
                let mut align = self.types.infos[t as usize].align;
                while p.eat(b',') {
                    if p.eat_word("align") {
                        align = p.int().ok_or("align")? as u64;
                    } else if p.at_type() {
                        let (_, o) = self.typed_opd(p, f)?;
                        n = o;
                    } else {
                        break;
                    }
                }
                ops.push(I::Alloca { dst, size: self.types.size(t), n, align });
            }
            "load" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let t = self.ty(p)?;
                p.need(b',')?;
                let (_, a) = self.typed_opd(p, f)?;
                let l = self.types.lanes(t);
                if l.len() == 1 && self.is_scalar(t) {
                    let bits = l[0].bits;
                    ops.push(I::Load { dst, p: a, bytes: (bits + 7) / 8, bits });
                } else if self.is_vec(t) && l[0].bits == 1 && l.len() <= 64 && l.len() % 8 == 0 {
                    let n = l.len() as u32;
                    let tmp = f.nregs;
                    f.nregs += 1;
                    ops.push(I::Load { dst: tmp, p: a, bytes: n / 8, bits: n });
                    ops.push(I::BitPack { from: n, fl: 1, to: 1, tl: n, dst, a: tmp });
                } else {
                    if l.iter().any(|x| x.bits % 8 != 0 && x.bits != 1) || (self.is_vec(t) && l[0].bits == 1) {
                        return Err("load of odd lanes".into());
                    }
                    ops.push(I::LoadM { dst, p: a, l });
                }
            }
            "store" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let (t, v) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, a) = self.typed_opd(p, f)?;
                let l = self.types.lanes(t);
                if l.len() == 1 && self.is_scalar(t) {
                    let bits = l[0].bits;
                    ops.push(I::Store { v, p: a, bytes: (bits + 7) / 8, bits });
                } else {
                    if self.is_vec(t) && l[0].bits == 1 {
                        let n = l.len() as u32;
                        if n > 64 || n % 8 != 0 {
                            return Err("store of odd i1 vector".into());
                        }
                        let tmp = f.nregs;
                        f.nregs += 1;
                        ops.push(I::BitPack { from: 1, fl: n, to: n, tl: 1, dst: tmp, a: v });
                        ops.push(I::Store { v: tmp, p: a, bytes: n / 8, bits: n });
                    } else {
                        ops.push(I::StoreM { v, p: a, l });
                    }
                }
            }
            "getelementptr" => {
                loop {
                    let w = p.peek_word();
                    if w == b"inrange" {
                        p.word();
                        p.balanced();
                        continue;
                    }
                    if p.at_type() {
                        break;
                    }
                    p.word();
                }
                let base = self.ty(p)?;
                p.need(b',')?;
                let (_, ptr) = self.typed_opd(p, f)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = base;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.typed_opd(p, f)?;
                    let bits = self.scalar_bits(it);
                    let stride;
                    if first {
                        stride = self.types.size(cur) as i64;
                        first = false;
                    } else {
                        match self.types.ty(cur).clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                stride = self.types.size(e) as i64;
                                cur = e;
                            }
                            Ty::Struct(es, _) => {
                                let k = f.consts[(o & !CBIT) as usize] as usize;
                                off += self.types.infos[cur as usize].offs[k] as i64;
                                cur = es[k];
                                continue;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    if o & CBIT != 0 {
                        let v = f.consts[(o & !CBIT) as usize];
                        let v = crate::term::sext128(v as u128, bits) as i64;
                        off = off.wrapping_add(v.wrapping_mul(stride));
                    } else {
                        terms.push((o, stride, bits));
                    }
                }
                ops.push(match terms.len() {
                    0 => I::Gep0 { dst, p: ptr, off },
                    1 => I::Gep1 { dst, p: ptr, off, idx: terms[0].0, scale: terms[0].1, bits: terms[0].2 },
                    _ => I::Gep { dst, p: ptr, off, terms },
                });
            }
            "extractvalue" => {
                let (t, a) = self.typed_opd(p, f)?;
                let (off, rt) = self.agg_path(p, t)?;
                let lanes = self.types.nlanes(rt);
                ops.push(I::Copy { dst, a: a + off, lanes });
            }
            "insertvalue" => {
                let (t, a) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (vt, v) = self.typed_opd(p, f)?;
                let (off, _) = self.agg_path(p, t)?;
                let lanes = self.types.nlanes(t);
                let vl = self.types.nlanes(vt);
                ops.push(I::InsertVal { dst, a, lanes, v, at: off, vl });
            }
            "extractelement" => {
                let (t, v) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, idx) = self.typed_opd(p, f)?;
                ops.push(I::ExtractElt { dst, v, lanes: self.types.nlanes(t), idx });
            }
            "insertelement" => {
                let (t, v) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, e) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, idx) = self.typed_opd(p, f)?;
                ops.push(I::InsertElt { dst, v, e, lanes: self.types.nlanes(t), idx });
            }
            "shufflevector" => {
                let (t, a) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, b) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (mt, m) = self.typed_opd(p, f)?;
                let n = self.types.nlanes(mt);
                let mask = (0..n).map(|k| f.consts[((m & !CBIT) + k) as usize] as u32 as i32).collect();
                ops.push(I::Shuffle { dst, a, b, lanes: self.types.nlanes(t), mask });
            }
            "phi" => {
                while !p.at_type() {
                    p.word();
                }
                let t = self.ty(p)?;
                let lanes = self.types.nlanes(t);
                let mut inc = vec![];
                loop {
                    p.need(b'[')?;
                    let o = self.opd(p, t, f)?;
                    p.need(b',')?;
                    p.need(b'%')?;
                    let n = p.name();
                    p.need(b']')?;
                    inc.push((*bidx.get(&n).ok_or(format!("phi label {n}"))?, o));
                    if !p.eat(b',') {
                        break;
                    }
                    if p.peek() == b'!' {
                        break;
                    }
                }
                phis.push((dst, lanes, inc));
            }
            "br" => {
                if p.eat_word("label") {
                    p.need(b'%')?;
                    let n = p.name();
                    let e = edge(&n)?;
                    ops.push(I::Br(e));
                } else {
                    let (_, c) = self.typed_opd(p, f)?;
                    p.need(b',')?;
                    p.eat_word("label");
                    p.need(b'%')?;
                    let t = p.name();
                    p.need(b',')?;
                    p.eat_word("label");
                    p.need(b'%')?;
                    let fl = p.name();
                    let (t, fl) = (edge(&t)?, edge(&fl)?);
                    ops.push(I::CondBr { c, t, f: fl });
                }
            }
            "switch" => {
                let (t, v) = self.typed_opd(p, f)?;
                let bits = self.scalar_bits(t);
                p.need(b',')?;
                p.eat_word("label");
                p.need(b'%')?;
                let d = p.name();
                let def = edge(&d)?;
                p.need(b'[')?;
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = self.ty(p)?;
                    let c = self.const_scalar(p, ct)?;
                    p.need(b',')?;
                    p.eat_word("label");
                    p.need(b'%')?;
                    let n = p.name();
                    cases.push((c as u64, edge(&n)?));
                }
                if bits > 64 {
                    return Err("wide switch".into());
                }
                ops.push(I::Switch { v, bits, cases, def });
            }
            "ret" => {
                let t = self.ty(p)?;
                if matches!(self.types.ty(t), Ty::Void) {
                    ops.push(I::Ret { v: 0, lanes: 0 });
                } else {
                    let v = self.opd(p, t, f)?;
                    ops.push(I::Ret { v, lanes: self.types.nlanes(t) });
                }
            }
            "unreachable" => ops.push(I::Unreach),
            "resume" | "landingpad" | "cleanupret" | "catchswitch" => ops.push(I::Unreach),
            "fence" => {}
            "atomicrmw" => {
                p.eat_word("volatile");
                let o = p.word();
                let op = match o {
                    b"xchg" => RmwOp::Xchg,
                    b"add" => RmwOp::Add,
                    b"sub" => RmwOp::Sub,
                    b"and" => RmwOp::And,
                    b"or" => RmwOp::Or,
                    b"xor" => RmwOp::Xor,
                    b"nand" => RmwOp::Nand,
                    b"max" => RmwOp::Max,
                    b"min" => RmwOp::Min,
                    b"umax" => RmwOp::UMax,
                    b"umin" => RmwOp::UMin,
                    _ => return Err("rmw".into()),
                };
                let (_, ptr) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (t, v) = self.typed_opd(p, f)?;
                let bits = self.scalar_bits(t);
                ops.push(I::AtomicRmw { op, dst, p: ptr, v, bytes: (bits + 7) / 8, bits });
            }
            "cmpxchg" => {
                p.eat_word("weak");
                p.eat_word("volatile");
                let (_, ptr) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (t, cmp) = self.typed_opd(p, f)?;
                p.need(b',')?;
                let (_, new) = self.typed_opd(p, f)?;
                let bits = self.scalar_bits(t);
                ops.push(I::CmpXchg { dst, p: ptr, cmp, new, bytes: (bits + 7) / 8, bits });
            }
            "call" | "invoke" => {
                p.skip_attrs();
                let rt = self.ty(p)?;
                // optional function type for varargs
                if p.peek() == b'(' {
                    p.balanced();
                }
                let ret_lanes = self.types.nlanes(rt);
                let callee;
                let c = p.peek();
                if c == b'@' {
                    p.i += 1;
                    let mut n = p.name();
                    while let Some(a) = self.aliases.get(&n) {
                        n = a.clone();
                    }
                    if n.starts_with("llvm.") {
                        if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") {
                            return Ok(());
                        }
                        callee = Callee::Intr(intrinsic(&n)?);
                    } else {
                        let id = *self.fidx.get(&n).ok_or(format!("callee {n}"))?;
                        let defined = self.funcs[id as usize].defined;
                        callee = match crate::exec::ext_lookup(&n, defined) {
                            Some(e) => Callee::Ext(e, n),
                            None => Callee::Func(id),
                        };
                    }
                } else if p.peek_word() == b"asm" {
                    let rest = p.rest(400);
                    let kind = if rest.contains("cpuid") {
                        2
                    } else if matches!(self.types.ty(rt), Ty::Void) {
                        0
                    } else if rest.contains("/*$") {
                        1
                    } else {
                        return Err(format!("asm {}", rest));
                    };
                    // skip to '(' after the two strings
                    let mut strs = 0;
                    while strs < 2 {
                        if p.s[p.i] == b'"' {
                            p.i += 1;
                            while p.s[p.i] != b'"' {
                                p.i += 1;
                            }
                            strs += 1;
                        }
                        p.i += 1;
                    }
                    callee = Callee::Asm(kind);
                } else {
                    let ptr = self.types.mk(Ty::Ptr);
                    callee = Callee::Ind(self.opd(p, ptr, f)?);
                }
                p.need(b'(')?;
                let mut args = vec![];
                let mut arg_tys = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = self.ty(p)?;
                        if matches!(self.types.ty(t), Ty::Opaque) {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            while d > 0 || !matches!(p.s[p.i], b',' | b')') {
                                match p.s[p.i] {
                                    b'(' | b'{' => d += 1,
                                    b')' | b'}' => d -= 1,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                        } else {
                            p.skip_attrs();
                            let o = self.opd(p, t, f)?;
                            args.push((o, self.types.nlanes(t)));
                            arg_tys.push(t);
                        }
                        if p.eat(b',') {
                            continue;
                        }
                        p.need(b')')?;
                        break;
                    }
                }
                let is_invoke = ws == "invoke";
                let bits_ty = if arg_tys.is_empty() { rt } else { arg_tys[0] };
                let (bits, lanes) = if matches!(self.types.ty(bits_ty), Ty::Void | Ty::Opaque) {
                    (0, 0)
                } else {
                    (self.elem_bits(bits_ty), self.types.nlanes(bits_ty))
                };
                if !matches!(callee, Callee::Intr(Intr::Nop)) {
                    ops.push(I::Call(Box::new(CallInfo { callee, args, arg_tys, dst, ret_ty: rt, ret_lanes, bits, lanes })));
                }
                if is_invoke {
                    let rest = &p.s[p.i..];
                    let k = find(rest, b"to label %").ok_or("invoke to")?;
                    p.i += k + 10;
                    let n = p.name();
                    let e = edge(&n)?;
                    ops.push(I::Br(e));
                }
            }
            _ => return Err(format!("unknown instruction {ws}")),
        }
        Ok(())
    }
    fn is_vec(&self, t: TyId) -> bool {
        matches!(self.types.ty(t), Ty::Vec(..))
    }
    fn agg_path(&mut self, p: &mut P, t: TyId) -> Result<(u32, TyId), String> {
        let mut off = 0;
        let mut cur = t;
        while p.eat(b',') {
            let i = match p.int() {
                Some(i) => i as usize,
                None => break,
            };
            match self.types.ty(cur).clone() {
                Ty::Struct(es, _) => {
                    for e in &es[..i] {
                        off += self.types.nlanes(*e);
                    }
                    cur = es[i];
                }
                Ty::Arr(_, e) => {
                    off += self.types.nlanes(e) * i as u32;
                    cur = e;
                }
                _ => return Err("agg path".into()),
            }
        }
        Ok((off, cur))
    }
}

fn n_of(t: &Ty, n: u64) -> u64 {
    match t {
        Ty::Arr(k, _) => *k,
        _ => n,
    }
}

fn skip_value(p: &mut P) {
    // skip an operand token (register, constant, or constant expression)
    p.skip_attrs();
    match p.peek() {
        b'%' | b'@' => {
            p.i += 1;
            p.name();
        }
        b'<' => {
            let mut d = 0;
            loop {
                match p.s[p.i] {
                    b'<' => d += 1,
                    b'>' => {
                        d -= 1;
                        if d == 0 {
                            p.i += 1;
                            return;
                        }
                    }
                    b'"' => {
                        p.i += 1;
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                    }
                    _ => {}
                }
                p.i += 1;
            }
        }
        b'{' | b'[' => p.balanced(),
        b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
            p.i += 2;
            while p.s[p.i] != b'"' {
                p.i += 1;
            }
            p.i += 1;
        }
        _ => {
            p.word();
            // constant expression arguments
            loop {
                let sv = p.i;
                if p.peek() == b'(' {
                    p.balanced();
                    return;
                }
                let w = p.word();
                if matches!(w, b"inbounds" | b"nuw" | b"nusw" | b"nsw") {
                    continue;
                }
                p.i = sv;
                return;
            }
        }
    }
}

pub fn intrinsic(n: &str) -> Result<Intr, String> {
    let b = &n[5..];
    let pre = |s: &str| b.starts_with(s);
    Ok(if pre("lifetime") || pre("assume") || pre("invariant") || pre("prefetch") || pre("donothing") || pre("x86.sse2.pause") || pre("va_") {
        Intr::Nop
    } else if pre("memcpy") {
        Intr::Memcpy
    } else if pre("memmove") {
        Intr::Memmove
    } else if pre("memset") {
        Intr::Memset
    } else if pre("trap") || pre("debugtrap") || pre("ubsantrap") {
        Intr::Trap
    } else if pre("threadlocal") {
        Intr::ThreadLocal
    } else if pre("umax") {
        Intr::UMax
    } else if pre("umin") {
        Intr::UMin
    } else if pre("smax") {
        Intr::SMax
    } else if pre("smin") {
        Intr::SMin
    } else if pre("usub.sat") {
        Intr::USubSat
    } else if pre("uadd.sat") {
        Intr::UAddSat
    } else if pre("ssub.sat") {
        Intr::SSubSat
    } else if pre("sadd.sat") {
        Intr::SAddSat
    } else if pre("sadd.with") {
        Intr::SAddO
    } else if pre("ssub.with") {
        Intr::SSubO
    } else if pre("smul.with") {
        Intr::SMulO
    } else if pre("uadd.with") {
        Intr::UAddO
    } else if pre("usub.with") {
        Intr::USubO
    } else if pre("umul.with") {
        Intr::UMulO
    } else if pre("cttz") {
        Intr::Cttz
    } else if pre("ctlz") {
        Intr::Ctlz
    } else if pre("ctpop") {
        Intr::Ctpop
    } else if pre("bswap") {
        Intr::Bswap
    } else if pre("bitreverse") {
        Intr::BitRev
    } else if pre("fshl") {
        Intr::Fshl
    } else if pre("fshr") {
        Intr::Fshr
    } else if pre("abs") {
        Intr::Abs
    } else if pre("scmp") {
        Intr::Scmp
    } else if pre("ucmp") {
        Intr::Ucmp
    } else if pre("fptosi.sat") {
        Intr::FToSISat
    } else if pre("fptoui.sat") {
        Intr::FToUISat
    } else if pre("is.constant") {
        Intr::IsConstant
    } else if pre("expect") {
        Intr::Expect
    } else if pre("objectsize") {
        Intr::ObjectSize
    } else if pre("vector.reduce.or") {
        Intr::VReduce(0)
    } else if pre("vector.reduce.and") {
        Intr::VReduce(1)
    } else if pre("vector.reduce.add") {
        Intr::VReduce(2)
    } else if pre("vector.reduce.xor") {
        Intr::VReduce(3)
    } else if pre("vector.reduce.umax") {
        Intr::VReduce(4)
    } else if pre("vector.reduce.umin") {
        Intr::VReduce(5)
    } else if pre("ptrmask") {
        Intr::PtrMask
    } else if pre("minnum") || pre("minimumnum") {
        Intr::FloatFn(0)
    } else if pre("maxnum") || pre("maximumnum") {
        Intr::FloatFn(1)
    } else if pre("floor") {
        Intr::FloatFn(2)
    } else if pre("ceil") {
        Intr::FloatFn(3)
    } else if pre("trunc.") {
        Intr::FloatFn(4)
    } else if pre("fabs") {
        Intr::FloatFn(5)
    } else if pre("pow.") {
        Intr::FloatFn(6)
    } else if pre("powi.") {
        Intr::FloatFn(7)
    } else if pre("sqrt") {
        Intr::FloatFn(8)
    } else if pre("round.") {
        Intr::FloatFn(9)
    } else if pre("rint") || pre("nearbyint") || pre("roundeven") {
        Intr::FloatFn(10)
    } else if pre("ldexp") {
        Intr::FloatFn(11)
    } else if pre("exp2.") {
        Intr::FloatFn(12)
    } else if pre("copysign") {
        Intr::CopySign
    } else if pre("fma") || pre("fmuladd") {
        Intr::Fma
    } else if pre("x86.sse2.pmovmskb") {
        Intr::Movmsk
    } else if pre("load.relative") {
        Intr::LoadRel
    } else if pre("x86.xgetbv") {
        Intr::Xgetbv
    } else {
        return Err(format!("intrinsic {n}"));
    })
}

pub fn memchr(c: u8, s: &[u8], from: usize) -> usize {
    extern "C" {
        #[link_name = "memchr"]
        fn c_memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    }
    if from >= s.len() {
        return s.len();
    }
    unsafe {
        let r = c_memchr(s.as_ptr().add(from), c as i32, s.len() - from);
        if r.is_null() {
            s.len()
        } else {
            r as usize - s.as_ptr() as usize
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).rposition(|w| w == n)
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    find(h, n).is_some()
}
fn trim(s: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < s.len() && s[i] == b' ' {
        i += 1;
    }
    &s[i..]
}
fn last_line(s: &[u8]) -> &[u8] {
    let k = s.iter().rposition(|&c| c == b'\n').map_or(0, |k| k + 1);
    trim(&s[k..])
}
