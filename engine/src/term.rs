//! Hash-consed bit-vector / float terms with eager simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32; // 0 = "not symbolic"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a high, b low
    Extract, // k = low bit index, bits = width
    ZExt,
    SExt,
    // floats (operands are bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FUno,
    FToSISat, // k = destination width in bits
    FToUISat,
    SIToF,
    UIToF,
    FExt,
    FTrunc,
    FFloor,
    FCeil,
    FTruncI,
    FMin,
    FMax,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub bits: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub type VarSet = Rc<Vec<u32>>;

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    vars: Vec<VarSet>,
    urange: Vec<Option<(u64, u64)>>,
    pub size: Vec<u32>,
    pub var_names: Vec<(String, u16, T)>,
    empty: VarSet,
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
pub fn sext128(v: u128, bits: u32) -> i128 {
    let sh = 128 - bits;
    ((v << sh) as i128) >> sh
}

fn f32b(x: u128) -> f32 {
    f32::from_bits(x as u32)
}
fn f64b(x: u128) -> f64 {
    f64::from_bits(x as u64)
}
fn ftoint(x: f64, bits: u32, signed: bool) -> u128 {
    if x.is_nan() {
        return 0;
    }
    let v = if signed {
        let lo = -(2f64.powi(bits as i32 - 1));
        let hi = 2f64.powi(bits as i32 - 1);
        if x >= hi {
            (mask(bits) >> 1) as i128
        } else if x <= lo {
            -(1i128 << (bits - 1))
        } else {
            x.trunc() as i128
        }
    } else if x <= 0.0 {
        0
    } else if x >= 2f64.powi(bits as i32) {
        return mask(bits);
    } else {
        x.trunc() as i128
    };
    (v as u128) & mask(bits)
}

/// Concrete semantics of every operator; shared by simplification and model evaluation.
pub fn eval_op(op: Op, bits: u32, ab: u32, k: u128, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(bits);
    let r = match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, bits), sext128(b, bits));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, bits), sext128(b, bits));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= bits as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= bits as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, bits);
            let s = if b >= bits as u128 { bits - 1 } else { b as u32 };
            (x >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, ab) < sext128(b, ab)) as u128,
        Op::Sle => (sext128(a, ab) <= sext128(b, ab)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => (a << (bits - ab)) | b,
        Op::Extract => a >> (k as u32),
        Op::ZExt => a,
        Op::SExt => sext128(a, ab) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax | Op::FRem => {
            if bits == 32 {
                let (x, y) = (f32b(a), f32b(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    Op::FMin => x.min(y),
                    Op::FRem => x % y,
                    _ => x.max(y),
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64b(a), f64b(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    Op::FMin => x.min(y),
                    Op::FRem => x % y,
                    _ => x.max(y),
                })
                .to_bits() as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
            let (x, y) = if ab == 32 {
                (f32b(a) as f64, f32b(b) as f64)
            } else {
                (f64b(a), f64b(b))
            };
            (match op {
                Op::FEq => x == y,
                Op::FLt => x < y,
                Op::FLe => x <= y,
                _ => x.is_nan() || y.is_nan(),
            }) as u128
        }
        Op::FToSISat | Op::FToUISat => {
            let x = if ab == 32 { f32b(a) as f64 } else { f64b(a) };
            ftoint(x, bits, op == Op::FToSISat)
        }
        Op::SIToF => {
            let x = sext128(a, ab);
            if bits == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::UIToF => {
            if bits == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FExt => (f32b(a) as f64).to_bits() as u128,
        Op::FTrunc => (f64b(a) as f32).to_bits() as u128,
        Op::FFloor | Op::FCeil | Op::FTruncI => {
            if bits == 32 {
                let x = f32b(a);
                (match op {
                    Op::FFloor => x.floor(),
                    Op::FCeil => x.ceil(),
                    _ => x.trunc(),
                })
                .to_bits() as u128
            } else {
                let x = f64b(a);
                (match op {
                    Op::FFloor => x.floor(),
                    Op::FCeil => x.ceil(),
                    _ => x.trunc(),
                })
                .to_bits() as u128
            }
        }
    };
    r & m
}

impl Terms {
    pub fn new() -> Self {
        let e = Rc::new(vec![]);
        Terms {
            nodes: vec![Node { op: Op::Const, bits: 1, a: 0, b: 0, c: 0, k: 0xdead }],
            map: HashMap::new(),
            vars: vec![e.clone()],
            urange: vec![None],
            size: vec![1],
            var_names: vec![],
            empty: e,
        }
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn bits(&self, t: T) -> u32 {
        self.nodes[t as usize].bits as u32
    }
    pub fn is_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn vars(&self, t: T) -> &VarSet {
        &self.vars[t as usize]
    }
    pub fn new_var(&mut self, name: &str, bits: u32) -> T {
        let id = self.var_names.len();
        let t = self.nodes.len() as T;
        self.nodes.push(Node { op: Op::Var, bits: bits as u16, a: 0, b: 0, c: 0, k: id as u128 });
        self.vars.push(Rc::new(vec![id as u32]));
        self.urange.push(None);
        self.size.push(1);
        self.var_names.push((name.to_string(), bits as u16, t));
        t
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        let mut sz = 1u32;
        let vs = {
            let mut acc: Option<VarSet> = None;
            for &x in &[n.a, n.b, n.c] {
                if x != 0 {
                    sz = sz.saturating_add(self.size[x as usize]);
                    let v = &self.vars[x as usize];
                    if v.is_empty() {
                        continue;
                    }
                    acc = Some(match acc {
                        None => v.clone(),
                        Some(p) => {
                            if Rc::ptr_eq(&p, v) || *p == **v {
                                p
                            } else {
                                let mut r: Vec<u32> = Vec::with_capacity(p.len() + v.len());
                                let (mut i, mut j) = (0, 0);
                                while i < p.len() || j < v.len() {
                                    if j >= v.len() || (i < p.len() && p[i] < v[j]) {
                                        r.push(p[i]);
                                        i += 1;
                                    } else if i >= p.len() || v[j] < p[i] {
                                        r.push(v[j]);
                                        j += 1;
                                    } else {
                                        r.push(p[i]);
                                        i += 1;
                                        j += 1;
                                    }
                                }
                                if r.len() == p.len() {
                                    p
                                } else if r.len() == v.len() {
                                    v.clone()
                                } else {
                                    Rc::new(r)
                                }
                            }
                        }
                    });
                }
            }
            acc.unwrap_or_else(|| self.empty.clone())
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.urange.push(None);
        self.size.push(sz);
        self.map.insert(n, t);
        t
    }
    pub fn konst(&mut self, v: u128, bits: u32) -> T {
        self.intern(Node { op: Op::Const, bits: bits as u16, a: 0, b: 0, c: 0, k: v & mask(bits) })
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    fn mk(&mut self, op: Op, bits: u32, a: T, b: T, c: T, k: u128) -> T {
        // constant folding
        let ca = self.is_const(a);
        let cb = if b != 0 { self.is_const(b) } else { Some(0) };
        let cc = if c != 0 { self.is_const(c) } else { Some(0) };
        if let (Some(x), Some(y), Some(z)) = (ca, cb, cc) {
            let v = eval_op(op, bits, self.bits(a), k, x, y, z);
            return self.konst(v, bits);
        }
        self.intern(Node { op, bits: bits as u16, a, b, c, k })
    }
    pub fn not1(&mut self, a: T) -> T {
        debug_assert!(self.bits(a) == 1);
        let n = self.n(a);
        match n.op {
            Op::Const => return self.konst(1 ^ n.k, 1),
            Op::Xor => {
                if self.is_const(n.b) == Some(1) {
                    return n.a;
                }
            }
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.intern(Node { op: Op::Xor, bits: 1, a, b: one, c: 0, k: 0 })
    }
    pub fn urange(&mut self, t: T) -> (u64, u64) {
        // only meaningful for <=64 bits
        if let Some(r) = self.urange[t as usize] {
            return r;
        }
        let n = self.n(t);
        let full = (0u64, mask((n.bits as u32).min(64)) as u64);
        let m = full.1;
        let r = if n.bits > 64 {
            (0, u64::MAX)
        } else {
            match n.op {
                Op::Const => (n.k as u64, n.k as u64),
                Op::ZExt => self.urange(n.a),
                Op::Add => {
                    let (al, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    let cb = self.is_const(n.b);
                    match (ah as u128 + bh as u128) <= m as u128 {
                        true => (al + bl, ah + bh),
                        // a + (negative const) with a >= |const| never wraps below zero
                        false => match cb {
                            Some(k) if (al as u128 + k) > m as u128 => {
                                (al.wrapping_add(k as u64) & m, ah.wrapping_add(k as u64) & m)
                            }
                            _ => full,
                        },
                    }
                }
                Op::Sub => {
                    let (al, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    if al >= bh {
                        (al - bh, ah - bl)
                    } else {
                        full
                    }
                }
                Op::Mul => {
                    let (al, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    if (ah as u128) * (bh as u128) <= m as u128 {
                        (al * bl, ah * bh)
                    } else {
                        full
                    }
                }
                Op::UDiv => {
                    let (al, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    if bl > 0 {
                        (al / bh, ah / bl)
                    } else {
                        full
                    }
                }
                Op::URem => {
                    let (_, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    if bl > 0 {
                        (0, (bh - 1).min(ah))
                    } else {
                        (0, ah)
                    }
                }
                Op::And => {
                    let (_, ah) = self.urange(n.a);
                    let (_, bh) = self.urange(n.b);
                    (0, ah.min(bh))
                }
                Op::Or | Op::Xor => {
                    let (_, ah) = self.urange(n.a);
                    let (_, bh) = self.urange(n.b);
                    let x = ah | bh;
                    let hi = if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
                    (0, hi & m)
                }
                Op::LShr => {
                    let (al, ah) = self.urange(n.a);
                    match self.is_const(n.b) {
                        Some(k) if k < 64 => (al >> k, ah >> k),
                        _ => (0, ah),
                    }
                }
                Op::Shl => {
                    let (al, ah) = self.urange(n.a);
                    match self.is_const(n.b) {
                        Some(k) if k < 64 && ((ah as u128) << k) <= m as u128 => (al << k, ah << k),
                        _ => full,
                    }
                }
                Op::Ite => {
                    let (al, ah) = self.urange(n.b);
                    let (bl, bh) = self.urange(n.c);
                    (al.min(bl), ah.max(bh))
                }
                Op::Extract => {
                    if n.k == 0 && self.bits(n.a) <= 64 {
                        let (al, ah) = self.urange(n.a);
                        if ah <= m {
                            (al, ah)
                        } else {
                            full
                        }
                    } else {
                        full
                    }
                }
                Op::Concat => {
                    let lb = self.bits(n.b);
                    let (al, ah) = self.urange(n.a);
                    let (bl, bh) = self.urange(n.b);
                    ((al << lb) | bl, (ah << lb) | bh)
                }
                _ => full,
            }
        };
        self.urange[t as usize] = Some(r);
        r
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let bits = self.bits(a);
        debug_assert!(
            self.bits(a) == self.bits(b),
            "{:?} {} {}",
            op,
            self.bits(a),
            self.bits(b)
        );
        let (mut a, mut b) = (a, b);
        let rb = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => bits,
        };
        // commutative: constant to the right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if self.is_const(a).is_some() && self.is_const(b).is_none() {
                    std::mem::swap(&mut a, &mut b);
                } else if self.is_const(b).is_none() && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let cb = self.is_const(b);
        let ca = self.is_const(a);
        let m = mask(bits);
        if ca.is_some() && cb.is_some() {
            return self.mk(op, rb, a, b, 0, 0);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.is_const(n.b) {
                            let kk = self.konst(k.wrapping_add(k2), bits);
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, bits);
                }
                if let Some(k) = cb {
                    let kk = self.konst((0u128).wrapping_sub(k), bits);
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, bits);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, bits);
                        return self.bin(Op::LShr, a, s);
                    }
                    if bits <= 64 && self.urange(a).1 < k as u64 {
                        return self.konst(0, bits);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, bits);
                        return self.bin(Op::And, a, s);
                    }
                    if bits <= 64 && k != 0 && self.urange(a).1 < k as u64 {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if let Some(k) = cb {
                    if k == m {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let Some(k2) = self.is_const(n.b) {
                            let kk = self.konst(k & k2, bits);
                            return self.bin(Op::And, n.a, kk);
                        }
                    }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() {
                        let w = (k + 1).trailing_zeros();
                        if bits <= 64 && self.urange(a).1 as u128 <= k {
                            return a;
                        }
                        if n.op == Op::ZExt || n.op == Op::Concat || w % 8 == 0 {
                            let e = self.extract(a, 0, w);
                            return self.zext(e, bits);
                        }
                    }
                    if n.op == Op::ZExt {
                        let ib = self.bits(n.a);
                        let kk = self.konst(k & mask(ib), ib);
                        let x = self.bin(Op::And, n.a, kk);
                        return self.zext(x, bits);
                    }
                }
                if bits == 1 {
                    let na = self.not1_if_exists(a);
                    if na == Some(b) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // disjoint or of shifted pieces: (x << k) | zext(y) -> concat, common byte loads
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, bits);
                }
                if cb == Some(0) {
                    return a;
                }
                if bits == 1 && cb == Some(1) {
                    return self.not1(a);
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(k2) = self.is_const(n.b) {
                            let kk = self.konst(k ^ k2, bits);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= bits as u128 && op != Op::AShr {
                        return self.konst(0, bits);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        let e = self.extract(a, k, bits - k);
                        return self.zext(e, bits);
                    }
                    if op == Op::Shl {
                        let e = self.extract(a, 0, bits - k);
                        let z = self.konst(0, k);
                        return self.concat(e, z);
                    }
                    if op == Op::AShr && k < bits {
                        let e = self.extract(a, k, bits - k);
                        return self.sext(e, bits);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if bits == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not1(a);
                    }
                }
                if bits <= 64 {
                    let (al, ah) = self.urange(a);
                    let (bl, bh) = self.urange(b);
                    if ah < bl || bh < al {
                        return self.konst(0, 1);
                    }
                }
                if let Some(k) = cb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let ib = self.bits(n.a);
                            if k > mask(ib) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, ib);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::SExt => {
                            let ib = self.bits(n.a);
                            let lowk = k & mask(ib);
                            if (sext128(lowk, ib) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(lowk, ib);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.is_const(n.b) {
                                let kk = self.konst(k.wrapping_sub(k2), bits);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.is_const(n.b) {
                                let kk = self.konst(k ^ k2, bits);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Concat => {
                            let lb = self.bits(n.b);
                            let hb = bits - lb;
                            let kh = self.konst(k >> lb, hb);
                            let kl = self.konst(k, lb);
                            let x = self.bin(Op::Eq, n.a, kh);
                            if self.is_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (c1, c2) = (self.is_const(n.b), self.is_const(n.c));
                            if c1.is_some() || c2.is_some() {
                                let x = self.bin(Op::Eq, n.b, b);
                                let y = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.bits(na.a) == self.bits(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.bits(na.a) == self.bits(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.bits(na.b) == self.bits(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst((op == Op::Ule) as u128, 1);
                }
                if bits <= 64 {
                    let (al, ah) = self.urange(a);
                    let (bl, bh) = self.urange(b);
                    if op == Op::Ult {
                        if ah < bl {
                            return self.konst(1, 1);
                        }
                        if al >= bh {
                            return self.konst(0, 1);
                        }
                    } else {
                        if ah <= bl {
                            return self.konst(1, 1);
                        }
                        if al > bh {
                            return self.konst(0, 1);
                        }
                    }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt {
                    let ib = self.bits(na.a);
                    if let Some(k) = cb {
                        if k <= mask(ib) {
                            let kk = self.konst(k, ib);
                            return self.bin(op, na.a, kk);
                        }
                    }
                    if nb.op == Op::ZExt && self.bits(nb.a) == ib {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == Op::ZExt {
                    let ib = self.bits(nb.a);
                    if let Some(k) = ca {
                        if k <= mask(ib) {
                            let kk = self.konst(k, ib);
                            return self.bin(op, kk, nb.a);
                        }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                if bits <= 64 {
                    let half = 1u64 << (bits - 1);
                    let (_, ah) = self.urange(a);
                    let (_, bh) = self.urange(b);
                    if ah < half && bh < half {
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::SExt && nb.op == Op::SExt && self.bits(na.a) == self.bits(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if na.op == Op::SExt && cb.is_some() {
                    let ib = self.bits(na.a);
                    let k = sext128(cb.unwrap(), bits);
                    if k >= -(1i128 << (ib - 1)) && k < (1i128 << (ib - 1)) {
                        let kk = self.konst(k as u128, ib);
                        return self.bin(op, na.a, kk);
                    }
                }
                if nb.op == Op::SExt && ca.is_some() {
                    let ib = self.bits(nb.a);
                    let k = sext128(ca.unwrap(), bits);
                    if k >= -(1i128 << (ib - 1)) && k < (1i128 << (ib - 1)) {
                        let kk = self.konst(k as u128, ib);
                        return self.bin(op, kk, nb.a);
                    }
                }
            }
            _ => {}
        }
        self.mk(op, rb, a, b, 0, 0)
    }
    fn not1_if_exists(&self, a: T) -> Option<T> {
        let n = self.n(a);
        if n.op == Op::Xor && self.is_const(n.b) == Some(1) {
            return Some(n.a);
        }
        None
    }
    fn or_concat(&mut self, hi: T, lo: T) -> Option<T> {
        // hi = concat(x, 0:k), lo = zext(y) with bits(y) <= k
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Concat && self.is_const(nh.b) == Some(0) {
            let k = self.bits(nh.b);
            if nl.op == Op::ZExt && self.bits(nl.a) <= k {
                let y = self.zext(nl.a, k);
                return Some(self.concat(nh.a, y));
            }
            if let Some(v) = self.is_const(lo) {
                if v <= mask(k) {
                    let y = self.konst(v, k);
                    return Some(self.concat(nh.a, y));
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.is_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        let bits = self.bits(a);
        if bits == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let n = self.n(b);
        if n.op == Op::Ite && n.a == c {
            return self.ite(c, a, n.c);
        }
        let n = self.n(a);
        if n.op == Op::Ite && n.a == c {
            return self.ite(c, n.b, b);
        }
        self.intern(Node { op: Op::Ite, bits: bits as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let bits = nh.bits as u32 + nl.bits as u32;
        assert!(bits <= 128);
        if nh.op == Op::Const {
            if nl.op == Op::Const {
                return self.konst((nh.k << nl.bits) | nl.k, bits);
            }
            if nh.k == 0 {
                return self.zext(lo, bits);
            }
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.bits as u128 {
            return self.extract(nh.a, nl.k as u32, bits);
        }
        // concat(extract(x,..), concat(extract(x,..), rest))
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let n2 = self.n(nl.a);
            if n2.op == Op::Extract && n2.a == nh.a && nh.k == n2.k + n2.bits as u128 {
                let e = self.extract(nh.a, n2.k as u32, nh.bits as u32 + n2.bits as u32);
                return self.concat(e, nl.b);
            }
        }
        // sext pieces: concat(extract(sext x hi), ..) handled by extract of the same node
        self.intern(Node { op: Op::Concat, bits: bits as u16, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: T, low: u32, bits: u32) -> T {
        let n = self.n(a);
        let ab = n.bits as u32;
        debug_assert!(low + bits <= ab);
        if low == 0 && bits == ab {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> low, bits),
            Op::Extract => return self.extract(n.a, low + n.k as u32, bits),
            Op::Concat => {
                let lb = self.bits(n.b);
                if low + bits <= lb {
                    return self.extract(n.b, low, bits);
                }
                if low >= lb {
                    return self.extract(n.a, low - lb, bits);
                }
                let lo = self.extract(n.b, low, lb - low);
                let hi = self.extract(n.a, 0, bits - (lb - low));
                return self.concat(hi, lo);
            }
            Op::ZExt => {
                let ib = self.bits(n.a);
                if low >= ib {
                    return self.konst(0, bits);
                }
                if low + bits <= ib {
                    return self.extract(n.a, low, bits);
                }
                let e = self.extract(n.a, low, ib - low);
                return self.zext(e, bits);
            }
            Op::SExt => {
                let ib = self.bits(n.a);
                if low + bits <= ib {
                    return self.extract(n.a, low, bits);
                }
                if low == 0 {
                    return self.sext(n.a, bits);
                }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, low, bits);
                    let y = self.extract(n.c, low, bits);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() {
                    let x = self.extract(n.a, low, bits);
                    let y = self.extract(n.b, low, bits);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul => {
                if low == 0 {
                    // truncation distributes
                    let x = self.extract(n.a, 0, bits);
                    let y = self.extract(n.b, 0, bits);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        if ab <= 64 && low > 0 {
            let (_, h) = self.urange(a);
            if (h >> low) == 0 {
                return self.konst(0, bits);
            }
        }
        self.intern(Node { op: Op::Extract, bits: bits as u16, a, b: 0, c: 0, k: low as u128 })
    }
    pub fn zext(&mut self, a: T, bits: u32) -> T {
        let n = self.n(a);
        if n.bits as u32 == bits {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k, bits),
            Op::ZExt => return self.zext(n.a, bits),
            _ => {}
        }
        self.intern(Node { op: Op::ZExt, bits: bits as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, bits: u32) -> T {
        let n = self.n(a);
        let ab = n.bits as u32;
        if ab == bits {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(sext128(n.k, ab) as u128, bits),
            Op::SExt => return self.sext(n.a, bits),
            Op::ZExt => return self.zext(n.a, bits),
            _ => {}
        }
        if ab <= 64 && ab > 1 {
            let (_, h) = self.urange(a);
            if h < 1u64 << (ab - 1) {
                return self.zext(a, bits);
            }
        }
        self.intern(Node { op: Op::SExt, bits: bits as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn fop2(&mut self, op: Op, a: T, b: T) -> T {
        let bits = match op {
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1,
            _ => self.bits(a),
        };
        self.mk(op, bits, a, b, 0, 0)
    }
    pub fn fop1(&mut self, op: Op, a: T, bits: u32) -> T {
        self.mk(op, bits, a, 0, 0, 0)
    }
    pub fn show(&self, t: T) -> String {
        let mut budget = 400;
        self.show_(t, &mut budget)
    }
    fn show_(&self, t: T, b: &mut i32) -> String {
        *b -= 1;
        if *b < 0 {
            return "..".into();
        }
        let n = self.n(t);
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => self.var_names[n.k as usize].0.clone(),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.bits);
                if n.op == Op::Extract {
                    s.push_str(&format!("@{}", n.k));
                }
                for c in [n.a, n.b, n.c] {
                    if c != 0 {
                        s.push(' ');
                        s.push_str(&self.show_(c, b));
                    }
                }
                s.push(')');
                s
            }
        }
    }
}
