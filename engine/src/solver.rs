//! z3 (C API) back end with slicing and caching.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
}

#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, u64>, // var id -> value (absent = 0)
    pub cache: std::cell::RefCell<HashMap<T, u128>>,
}
impl Model {
    pub fn var(&self, id: u32) -> u64 {
        self.vals.get(&id).copied().unwrap_or(0)
    }
    pub fn eval(&self, tm: &Terms, t: T) -> u128 {
        let n = tm.n(t);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.var(n.k as u32) as u128,
            _ => {}
        }
        if let Some(&v) = self.cache.borrow().get(&t) {
            return v;
        }
        // iterative post-order
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.cache.borrow().contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = tm.n(x);
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => self.var(n.k as u32) as u128,
                _ => {
                    let mut ready = true;
                    let mut vs = [0u128; 3];
                    for (i, &c) in [n.a, n.b, n.c].iter().enumerate() {
                        if c == 0 {
                            continue;
                        }
                        let cn = tm.n(c);
                        match cn.op {
                            Op::Const => vs[i] = cn.k,
                            Op::Var => vs[i] = self.var(cn.k as u32) as u128,
                            _ => match self.cache.borrow().get(&c) {
                                Some(&v) => vs[i] = v,
                                None => {
                                    stack.push(c);
                                    ready = false;
                                }
                            },
                        }
                    }
                    if !ready {
                        continue;
                    }
                    eval_op(n.op, n.bits as u32, tm.bits(n.a), n.k, vs[0], vs[1], vs[2])
                }
            };
            self.cache.borrow_mut().insert(x, v);
            stack.pop();
        }
        let v = self.cache.borrow()[&t];
        v
    }
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<HashMap<u32, u64>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<T, P>,
    bo: HashMap<T, P>,
    cache: HashMap<Vec<T>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unknowns: u64,
    pub time: std::time::Duration,
    pub max_time: std::time::Duration,
    pub sat: u64,
    pub unsat: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let me = Solver {
                c,
                s,
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                unknowns: 0,
                time: Default::default(),
                max_time: Default::default(),
                sat: 0,
                unsat: 0,
            };
            me.set_rlimit(s, 3_000_000);
            me
        }
    }
    unsafe fn set_rlimit(&self, s: P, n: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let sym = Z3_mk_string_symbol(self.c, k.as_ptr());
        Z3_params_set_uint(self.c, p, sym, n);
        Z3_solver_set_params(self.c, s, p);
    }
    fn ready(&self, _tm: &Terms, t: T, want_bool: bool) -> bool {
        if want_bool {
            self.bo.contains_key(&t)
        } else {
            self.bv.contains_key(&t)
        }
    }
    fn is_boolish(n: &Node) -> bool {
        n.bits == 1
            && matches!(
                n.op,
                Op::Const
                    | Op::Eq
                    | Op::Ult
                    | Op::Ule
                    | Op::Slt
                    | Op::Sle
                    | Op::And
                    | Op::Or
                    | Op::Xor
                    | Op::Ite
                    | Op::FEq
                    | Op::FLt
                    | Op::FLe
                    | Op::FUno
            )
    }
    /// translate with explicit worklist (terms can be deep)
    fn tr(&mut self, tm: &Terms, root: T, root_bool: bool) -> P {
        let mut st = vec![(root, root_bool)];
        while let Some(&(t, wb)) = st.last() {
            if self.ready(tm, t, wb) {
                st.pop();
                continue;
            }
            let n = tm.n(t);
            unsafe {
                let c = self.c;
                if wb {
                    if !Self::is_boolish(&n) {
                        if let Some(&b) = self.bv.get(&t) {
                            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                            let e = Z3_mk_eq(c, b, one);
                            self.bo.insert(t, e);
                            st.pop();
                        } else {
                            st.push((t, false));
                        }
                        continue;
                    }
                    // children needs
                    let kids: Vec<(T, bool)> = match n.op {
                        Op::Const => vec![],
                        Op::And | Op::Or | Op::Xor => vec![(n.a, true), (n.b, true)],
                        Op::Ite => vec![(n.a, true), (n.b, true), (n.c, true)],
                        _ => vec![(n.a, false), (n.b, false)],
                    };
                    let mut ok = true;
                    for k in &kids {
                        if !self.ready(tm, k.0, k.1) {
                            st.push(*k);
                            ok = false;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let g = |s: &Self, i: usize| if kids[i].1 { s.bo[&kids[i].0] } else { s.bv[&kids[i].0] };
                    let e = match n.op {
                        Op::Const => {
                            if n.k != 0 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        }
                        Op::And => {
                            let a = [g(self, 0), g(self, 1)];
                            Z3_mk_and(c, 2, a.as_ptr())
                        }
                        Op::Or => {
                            let a = [g(self, 0), g(self, 1)];
                            Z3_mk_or(c, 2, a.as_ptr())
                        }
                        Op::Xor => {
                            if tm.is_const(n.b) == Some(1) {
                                Z3_mk_not(c, g(self, 0))
                            } else {
                                Z3_mk_xor(c, g(self, 0), g(self, 1))
                            }
                        }
                        Op::Ite => Z3_mk_ite(c, g(self, 0), g(self, 1), g(self, 2)),
                        Op::Eq => Z3_mk_eq(c, g(self, 0), g(self, 1)),
                        Op::Ult => Z3_mk_bvult(c, g(self, 0), g(self, 1)),
                        Op::Ule => Z3_mk_bvule(c, g(self, 0), g(self, 1)),
                        Op::Slt => Z3_mk_bvslt(c, g(self, 0), g(self, 1)),
                        Op::Sle => Z3_mk_bvsle(c, g(self, 0), g(self, 1)),
                        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                            let b = tm.bits(n.a);
                            let x = self.fp(g(self, 0), b);
                            let y = self.fp(g(self, 1), b);
                            match n.op {
                                Op::FEq => Z3_mk_fpa_eq(c, x, y),
                                Op::FLt => Z3_mk_fpa_lt(c, x, y),
                                Op::FLe => Z3_mk_fpa_leq(c, x, y),
                                _ => {
                                    let a = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                                    Z3_mk_or(c, 2, a.as_ptr())
                                }
                            }
                        }
                        _ => unreachable!(),
                    };
                    self.bo.insert(t, e);
                    st.pop();
                } else {
                    if n.op != Op::Const && Self::is_boolish(&n) {
                        if let Some(&b) = self.bo.get(&t) {
                            let s1 = Z3_mk_bv_sort(c, 1);
                            let e = Z3_mk_ite(
                                c,
                                b,
                                Z3_mk_unsigned_int64(c, 1, s1),
                                Z3_mk_unsigned_int64(c, 0, s1),
                            );
                            self.bv.insert(t, e);
                            st.pop();
                        } else {
                            st.push((t, true));
                        }
                        continue;
                    }
                    let mut kids: Vec<(T, bool)> = vec![];
                    match n.op {
                        Op::Const | Op::Var => {}
                        Op::Ite => {
                            kids.push((n.a, true));
                            kids.push((n.b, false));
                            kids.push((n.c, false));
                        }
                        _ => {
                            kids.push((n.a, false));
                            if n.b != 0 {
                                kids.push((n.b, false));
                            }
                        }
                    }
                    let mut ok = true;
                    for k in &kids {
                        if !self.ready(tm, k.0, k.1) {
                            st.push(*k);
                            ok = false;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let g = |s: &Self, i: usize| if kids[i].1 { s.bo[&kids[i].0] } else { s.bv[&kids[i].0] };
                    let bits = n.bits as u32;
                    let e = match n.op {
                        Op::Const => {
                            let so = Z3_mk_bv_sort(c, bits);
                            if bits <= 64 {
                                Z3_mk_unsigned_int64(c, n.k as u64, so)
                            } else {
                                let s = CString::new(n.k.to_string()).unwrap();
                                Z3_mk_numeral(c, s.as_ptr(), so)
                            }
                        }
                        Op::Var => {
                            let so = Z3_mk_bv_sort(c, bits);
                            Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), so)
                        }
                        Op::Add => Z3_mk_bvadd(c, g(self, 0), g(self, 1)),
                        Op::Sub => Z3_mk_bvsub(c, g(self, 0), g(self, 1)),
                        Op::Mul => Z3_mk_bvmul(c, g(self, 0), g(self, 1)),
                        Op::UDiv => Z3_mk_bvudiv(c, g(self, 0), g(self, 1)),
                        Op::SDiv => Z3_mk_bvsdiv(c, g(self, 0), g(self, 1)),
                        Op::URem => Z3_mk_bvurem(c, g(self, 0), g(self, 1)),
                        Op::SRem => Z3_mk_bvsrem(c, g(self, 0), g(self, 1)),
                        Op::And => Z3_mk_bvand(c, g(self, 0), g(self, 1)),
                        Op::Or => Z3_mk_bvor(c, g(self, 0), g(self, 1)),
                        Op::Xor => Z3_mk_bvxor(c, g(self, 0), g(self, 1)),
                        Op::Shl => Z3_mk_bvshl(c, g(self, 0), g(self, 1)),
                        Op::LShr => Z3_mk_bvlshr(c, g(self, 0), g(self, 1)),
                        Op::AShr => Z3_mk_bvashr(c, g(self, 0), g(self, 1)),
                        Op::Ite => Z3_mk_ite(c, g(self, 0), g(self, 1), g(self, 2)),
                        Op::Concat => Z3_mk_concat(c, g(self, 0), g(self, 1)),
                        Op::Extract => {
                            let l = n.k as u32;
                            Z3_mk_extract(c, l + bits - 1, l, g(self, 0))
                        }
                        Op::ZExt => Z3_mk_zero_ext(c, bits - tm.bits(n.a), g(self, 0)),
                        Op::SExt => Z3_mk_sign_ext(c, bits - tm.bits(n.a), g(self, 0)),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax => {
                            let rm = Z3_mk_fpa_rne(c);
                            let x = self.fp(g(self, 0), bits);
                            let y = self.fp(g(self, 1), bits);
                            let r = match n.op {
                                Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                                Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                                Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                                Op::FDiv => Z3_mk_fpa_div(c, rm, x, y),
                                Op::FMin => Z3_mk_fpa_min(c, x, y),
                                _ => Z3_mk_fpa_max(c, x, y),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        Op::FToSISat | Op::FToUISat => {
                            let fb = tm.bits(n.a);
                            let x = self.fp(g(self, 0), fb);
                            let so = if fb == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                            let signed = n.op == Op::FToSISat;
                            let (lo, hi) = if signed {
                                (-(2f64.powi(bits as i32 - 1)), 2f64.powi(bits as i32 - 1))
                            } else {
                                (-1.0, 2f64.powi(bits as i32))
                            };
                            let zhi = Z3_mk_fpa_numeral_double(c, hi, so);
                            let zlo = Z3_mk_fpa_numeral_double(c, lo, so);
                            let bs = Z3_mk_bv_sort(c, bits);
                            let zero = Z3_mk_unsigned_int64(c, 0, bs);
                            let (maxv, minv) = if signed {
                                ((mask(bits) >> 1) as u64, 1u64 << (bits - 1))
                            } else {
                                (mask(bits) as u64, 0)
                            };
                            let zmax = Z3_mk_unsigned_int64(c, maxv, bs);
                            let zmin = Z3_mk_unsigned_int64(c, minv, bs);
                            let rtz = Z3_mk_fpa_rtz(c);
                            let conv = if signed {
                                Z3_mk_fpa_to_sbv(c, rtz, x, bits)
                            } else {
                                Z3_mk_fpa_to_ubv(c, rtz, x, bits)
                            };
                            let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, zlo), zmin, conv);
                            let r = Z3_mk_ite(c, Z3_mk_fpa_geq(c, x, zhi), zmax, r);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), zero, r)
                        }
                        Op::SIToF | Op::UIToF => {
                            let so = if bits == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                            let rm = Z3_mk_fpa_rne(c);
                            let r = if n.op == Op::SIToF {
                                Z3_mk_fpa_to_fp_signed(c, rm, g(self, 0), so)
                            } else {
                                Z3_mk_fpa_to_fp_unsigned(c, rm, g(self, 0), so)
                            };
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        Op::FExt | Op::FTrunc => {
                            let x = self.fp(g(self, 0), tm.bits(n.a));
                            let so = if bits == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                            let rm = Z3_mk_fpa_rne(c);
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rm, x, so))
                        }
                        Op::FFloor | Op::FCeil | Op::FTruncI => {
                            let x = self.fp(g(self, 0), bits);
                            let rm = match n.op {
                                Op::FFloor => Z3_mk_fpa_rtn(c),
                                Op::FCeil => Z3_mk_fpa_rtp(c),
                                _ => Z3_mk_fpa_rtz(c),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, x))
                        }
                        _ => panic!("solver: unsupported op {:?}", n.op),
                    };
                    self.bv.insert(t, e);
                    st.pop();
                }
            }
        }
        if root_bool {
            self.bo[&root]
        } else {
            self.bv[&root]
        }
    }
    unsafe fn fp(&self, a: P, bits: u32) -> P {
        let so = if bits == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
        Z3_mk_fpa_to_fp_bv(self.c, a, so)
    }

    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.cache_hits = 0;
        self.unknowns = 0;
        self.sat = 0;
        self.unsat = 0;
        self.time = Default::default();
        self.max_time = Default::default();
    }
    /// Is (conjunction of cs) satisfiable?
    pub fn check(&mut self, tm: &Terms, mut cs: Vec<T>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return r.clone();
        }
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let asts: Vec<P> = cs.iter().map(|&t| self.tr(tm, t, true)).collect();
        let mut vars: Vec<u32> = vec![];
        for &t in &cs {
            vars.extend(tm.vars(t).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        let zvars: Vec<P> = vars.iter().map(|&v| { let t = tm.var_names[v as usize].2; self.tr(tm, t, false) }).collect();
        let r = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for &a in &asts {
                Z3_solver_assert(c, self.s, a);
            }
            let code = Z3_solver_check(c, self.s);
            let mut res = self.get_model(self.s, &vars, &zvars, code);
            Z3_solver_pop(c, self.s, 1);
            if code == 0 {
                // fall back to the tactic based solver with a larger limit
                let any_fp = cs.iter().any(|&t| has_fp(tm, t));
                let k = CString::new(if any_fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr()));
                Z3_solver_inc_ref(c, s);
                self.set_rlimit(s, 200_000_000);
                for &a in &asts {
                    Z3_solver_assert(c, s, a);
                }
                let code = Z3_solver_check(c, s);
                res = self.get_model(s, &vars, &zvars, code);
                Z3_solver_dec_ref(c, s);
            }
            if Z3_get_error_code(c) != 0 {
                eprintln!("z3 error code {}", Z3_get_error_code(c));
                res = Res::Unknown;
            }
            res
        };
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknowns += 1,
        }
        self.cache.insert(cs, r.clone());
        r
    }
    unsafe fn get_model(&self, s: P, vars: &[u32], zvars: &[P], code: c_int) -> Res {
        match code {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut h = HashMap::new();
                for (i, &v) in vars.iter().enumerate() {
                    let mut out: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.c, m, zvars[i], true, &mut out) {
                        Z3_get_numeral_uint64(self.c, out, &mut val);
                    }
                    h.insert(v, val);
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(Rc::new(h))
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
}

fn has_fp(tm: &Terms, t: T) -> bool {
    let mut st = vec![t];
    let mut seen = std::collections::HashSet::new();
    while let Some(x) = st.pop() {
        if x == 0 || !seen.insert(x) {
            continue;
        }
        let n = tm.n(x);
        if (n.op as u8) >= Op::FAdd as u8 {
            return true;
        }
        st.push(n.a);
        st.push(n.b);
        st.push(n.c);
    }
    false
}
