//! Minimal binding to libz3's C API (dlopen), plus an incremental path solver.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::collections::HashMap;
use std::rc::Rc;

type P = *mut c_void;
extern "C" { fn dlopen(f: *const c_char, flag: c_int) -> P; fn dlsym(h: P, s: *const c_char) -> P; }

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: { let n = CString::new(stringify!($name)).unwrap(); let p = dlsym(h, n.as_ptr()); assert!(!p.is_null(), "missing {}", stringify!($name)); std::mem::transmute(p) },)* }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> c_uint;
    Z3_get_error_msg: fn(P, c_uint) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_int_symbol: fn(P, c_int) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_add: fn(P, c_uint, *const P) -> P;
    Z3_mk_sub: fn(P, c_uint, *const P) -> P;
    Z3_mk_mul: fn(P, c_uint, *const P) -> P;
    Z3_mk_div: fn(P, P, P) -> P;
    Z3_mk_mod: fn(P, P, P) -> P;
    Z3_mk_lt: fn(P, P, P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_mk_fpa_sort: fn(P, c_uint, c_uint) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_tactic_and_then: fn(P, P, P) -> P;
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
}

unsafe extern "C" fn on_err(c: P, e: c_uint) {
    let a = API.as_ref().unwrap();
    let m = CStr::from_ptr((a.Z3_get_error_msg)(c, e)).to_string_lossy().to_string();
    eprintln!("z3 error: {m}");
    std::process::exit(70);
}

static mut API: Option<Api> = None;
#[allow(static_mut_refs)]
fn api() -> &'static Api {
    unsafe {
        if API.is_none() {
            let mut cands: Vec<String> = vec![];
            if let Ok(p) = std::env::var("LLSYM_LIBZ3") { cands.push(p); }
            for p in ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so.4", "libz3.so", "libz3.so.4"] { cands.push(p.into()); }
            let mut h: P = std::ptr::null_mut();
            for c in cands {
                let cs = CString::new(c).unwrap();
                h = dlopen(cs.as_ptr(), 2);
                if !h.is_null() { break; }
            }
            assert!(!h.is_null(), "libz3 not found");
            API = Some(Api::load(h));
        }
        API.as_ref().unwrap()
    }
}

pub fn version() -> String { unsafe { CStr::from_ptr((api().Z3_get_full_version)()).to_string_lossy().to_string() } }

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Solver {
    c: P,
    is: P,
    istack: Vec<T>,
    im: HashMap<T, P>,
    ibounds: HashMap<T, Rc<Vec<T>>>,
    icls: HashMap<T, u8>, iub: HashMap<T, u128>,
    isort: P,
    pub int_queries: u64,
    bv: HashMap<T, P>,
    bo: HashMap<T, P>,
    fp_memo: HashMap<T, bool>,
    sorts: HashMap<u16, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    pub slowest: std::time::Duration,
    pub timeout_ms: u32,
    pub fallback_ms: u32,
    nterms: usize,
    lim: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32, fallback_ms: u32) -> Solver {
        let mut s = Solver { c: std::ptr::null_mut(), is: std::ptr::null_mut(), istack: vec![], im: HashMap::new(), ibounds: HashMap::new(), icls: HashMap::new(), iub: HashMap::new(), isort: std::ptr::null_mut(), int_queries: 0, bv: HashMap::new(), bo: HashMap::new(), fp_memo: HashMap::new(), sorts: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: Default::default(), slowest: Default::default(), timeout_ms, fallback_ms, nterms: 0, lim: 0 };
        s.fresh();
        s
    }
    /// (Re)creates the z3 context; also used after fork().
    pub fn fresh(&mut self) {
        unsafe {
            let a = api();
            if !self.c.is_null() { (a.Z3_del_context)(self.c); }
            self.c = (a.Z3_mk_context)((a.Z3_mk_config)());
            (a.Z3_set_error_handler)(self.c, on_err as P);
            self.is = (a.Z3_mk_simple_solver)(self.c);
            (a.Z3_solver_inc_ref)(self.c, self.is);
            self.set_timeout(self.is, self.timeout_ms);
            self.lim = self.timeout_ms;
            self.isort = (a.Z3_mk_int_sort)(self.c);
        }
        self.istack.clear();
        self.im.clear();
        self.bv.clear();
        self.bo.clear();
        self.sorts.clear();
        self.nterms = 0;
    }
    pub fn abandon(&mut self) { self.c = std::ptr::null_mut(); self.fresh(); }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let a = api();
        let p = (a.Z3_mk_params)(self.c);
        (a.Z3_params_inc_ref)(self.c, p);
        let n = CString::new("timeout").unwrap();
        (a.Z3_params_set_uint)(self.c, p, (a.Z3_mk_string_symbol)(self.c, n.as_ptr()), ms);
        (a.Z3_solver_set_params)(self.c, s, p);
    }
    /// Time limit of the next check of the integer solver.
    unsafe fn limit(&mut self, ms: u32) {
        if self.lim == ms { return; }
        self.lim = ms;
        self.set_timeout(self.is, ms);
    }
    fn sort(&mut self, w: u16) -> P {
        if let Some(s) = self.sorts.get(&w) { return *s; }
        let s = unsafe { (api().Z3_mk_bv_sort)(self.c, w as c_uint) };
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        if v <= u64::MAX as u128 { return unsafe { (api().Z3_mk_unsigned_int64)(self.c, v as u64, s) }; }
        let cs = CString::new(v.to_string()).unwrap();
        unsafe { (api().Z3_mk_numeral)(self.c, cs.as_ptr(), s) }
    }
    fn has_fp(&mut self, t: T) -> bool {
        if let Some(b) = self.fp_memo.get(&t) { return *b; }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.fp_memo.contains_key(&x) { st.pop(); continue; }
            let n = node(x);
            let own = matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::U2F | Op::S2F | Op::F2U | Op::F2S | Op::FExt | Op::FTrunc | Op::FRoundInt | Op::FSqrt);
            if own { self.fp_memo.insert(x, true); st.pop(); continue; }
            let mut r = false;
            let mut miss = false;
            if !matches!(n.op, Op::Const | Op::Var) {
                for y in [n.a, n.b, n.c] { if y != 0 { match self.fp_memo.get(&y) { Some(b) => r |= *b, None => { st.push(y); miss = true; } } } }
            }
            if !miss { self.fp_memo.insert(x, r); st.pop(); }
        }
        self.fp_memo[&t]
    }
    fn is_bool_op(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno) }

    /// Makes sure all sub-terms are translated, without deep recursion.
    fn prepare(&mut self, t: T) {
        let mut st = vec![(t, false)];
        while let Some((x, ready)) = st.pop() {
            if self.bv.contains_key(&x) || self.bo.contains_key(&x) { continue; }
            let n = node(x);
            if ready || matches!(n.op, Op::Const | Op::Var) {
                self.tr(x);
            } else {
                st.push((x, true));
                for y in [n.a, n.b, n.c] { if y != 0 { st.push((y, false)); } }
            }
        }
    }
    fn fpsort(&self, w: u16) -> P { unsafe { if w == 64 { (api().Z3_mk_fpa_sort)(self.c, 11, 53) } else { (api().Z3_mk_fpa_sort)(self.c, 8, 24) } } }
    fn fp(&mut self, t: T) -> P {
        // avoid round trips through bits where possible is left to z3's rewriter
        let b = self.as_bv(t);
        let s = self.fpsort(width(t));
        unsafe { (api().Z3_mk_fpa_to_fp_bv)(self.c, b, s) }
    }
    fn as_bv(&mut self, t: T) -> P {
        if let Some(p) = self.bv.get(&t) { return *p; }
        self.prepare(t);
        if let Some(p) = self.bv.get(&t) { return *p; }
        let b = self.bo[&t];
        let one = self.num(1, 1);
        let zero = self.num(1, 0);
        let r = unsafe { (api().Z3_mk_ite)(self.c, b, one, zero) };
        self.bv.insert(t, r);
        r
    }
    fn as_bool(&mut self, t: T) -> P {
        if let Some(p) = self.bo.get(&t) { return *p; }
        self.prepare(t);
        if let Some(p) = self.bo.get(&t) { return *p; }
        let b = self.bv[&t];
        let one = self.num(1, 1);
        let r = unsafe { (api().Z3_mk_eq)(self.c, b, one) };
        self.bo.insert(t, r);
        r
    }
    fn tr(&mut self, t: T) {
        self.nterms += 1;
        let n = node(t);
        let a = api();
        let c = self.c;
        unsafe {
            let r: P;
            let mut isb = n.w == 1 && Self::is_bool_op(n.op);
            match n.op {
                Op::Const => {
                    if n.w == 1 { isb = true; r = if n.k == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) }; } else { r = self.num(n.w, n.k); }
                }
                Op::Var => {
                    let s = self.sort(n.w);
                    let nm = CString::new(format!("v{}", n.k)).unwrap();
                    r = (a.Z3_mk_const)(c, (a.Z3_mk_string_symbol)(c, nm.as_ptr()), s);
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    isb = true;
                    let x = self.as_bool(n.a);
                    if n.op == Op::Xor && is_const(n.b) == Some(1) { r = (a.Z3_mk_not)(c, x); }
                    else {
                        let y = self.as_bool(n.b);
                        r = match n.op { Op::And => (a.Z3_mk_and)(c, 2, [x, y].as_ptr()), Op::Or => (a.Z3_mk_or)(c, 2, [x, y].as_ptr()), _ => (a.Z3_mk_xor)(c, x, y) };
                    }
                }
                Op::Ite => {
                    let x = self.as_bool(n.a);
                    if n.w == 1 { isb = true; let (y, z) = (self.as_bool(n.b), self.as_bool(n.c)); r = (a.Z3_mk_ite)(c, x, y, z); }
                    else { let (y, z) = (self.as_bv(n.b), self.as_bv(n.c)); r = (a.Z3_mk_ite)(c, x, y, z); }
                }
                Op::Eq => {
                    if width(n.a) == 1 { let (x, y) = (self.as_bool(n.a), self.as_bool(n.b)); r = (a.Z3_mk_eq)(c, x, y); }
                    else { let (x, y) = (self.as_bv(n.a), self.as_bv(n.b)); r = (a.Z3_mk_eq)(c, x, y); }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.fp(n.a), self.fp(n.b));
                    let rm = (a.Z3_mk_fpa_rne)(c);
                    let f = match n.op { Op::FAdd => (a.Z3_mk_fpa_add)(c, rm, x, y), Op::FSub => (a.Z3_mk_fpa_sub)(c, rm, x, y), Op::FMul => (a.Z3_mk_fpa_mul)(c, rm, x, y), _ => (a.Z3_mk_fpa_div)(c, rm, x, y) };
                    r = (a.Z3_mk_fpa_to_ieee_bv)(c, f);
                }
                Op::FSqrt => { let x = self.fp(n.a); let f = (a.Z3_mk_fpa_sqrt)(c, (a.Z3_mk_fpa_rne)(c), x); r = (a.Z3_mk_fpa_to_ieee_bv)(c, f); }
                Op::FEq => { let (x, y) = (self.fp(n.a), self.fp(n.b)); r = (a.Z3_mk_fpa_eq)(c, x, y); }
                Op::FLt => { let (x, y) = (self.fp(n.a), self.fp(n.b)); r = (a.Z3_mk_fpa_lt)(c, x, y); }
                Op::FLe => { let (x, y) = (self.fp(n.a), self.fp(n.b)); r = (a.Z3_mk_fpa_leq)(c, x, y); }
                Op::FUno => { let (x, y) = (self.fp(n.a), self.fp(n.b)); let (p, q) = ((a.Z3_mk_fpa_is_nan)(c, x), (a.Z3_mk_fpa_is_nan)(c, y)); r = (a.Z3_mk_or)(c, 2, [p, q].as_ptr()); }
                Op::U2F => { let x = self.as_bv(n.a); let s = self.fpsort(n.w); let f = (a.Z3_mk_fpa_to_fp_unsigned)(c, (a.Z3_mk_fpa_rne)(c), x, s); r = (a.Z3_mk_fpa_to_ieee_bv)(c, f); }
                Op::S2F => { let x = self.as_bv(n.a); let s = self.fpsort(n.w); let f = (a.Z3_mk_fpa_to_fp_signed)(c, (a.Z3_mk_fpa_rne)(c), x, s); r = (a.Z3_mk_fpa_to_ieee_bv)(c, f); }
                Op::F2U => { let x = self.fp(n.a); r = (a.Z3_mk_fpa_to_ubv)(c, (a.Z3_mk_fpa_rtz)(c), x, n.w as c_uint); }
                Op::F2S => { let x = self.fp(n.a); r = (a.Z3_mk_fpa_to_sbv)(c, (a.Z3_mk_fpa_rtz)(c), x, n.w as c_uint); }
                Op::FExt | Op::FTrunc => { let x = self.fp(n.a); let s = self.fpsort(n.w); let f = (a.Z3_mk_fpa_to_fp_float)(c, (a.Z3_mk_fpa_rne)(c), x, s); r = (a.Z3_mk_fpa_to_ieee_bv)(c, f); }
                Op::FRoundInt => {
                    let x = self.fp(n.a);
                    let rm = match n.k { 0 => (a.Z3_mk_fpa_rtn)(c), 1 => (a.Z3_mk_fpa_rtp)(c), 2 => (a.Z3_mk_fpa_rtz)(c), 3 => (a.Z3_mk_fpa_rne)(c), _ => (a.Z3_mk_fpa_rna)(c) };
                    let f = (a.Z3_mk_fpa_round_to_integral)(c, rm, x);
                    r = (a.Z3_mk_fpa_to_ieee_bv)(c, f);
                }
                Op::Extract => { let x = self.as_bv(n.a); r = (a.Z3_mk_extract)(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, x); }
                Op::ZExt => { let x = self.as_bv(n.a); r = (a.Z3_mk_zero_ext)(c, (n.w - width(n.a)) as c_uint, x); }
                Op::SExt => { let x = self.as_bv(n.a); r = (a.Z3_mk_sign_ext)(c, (n.w - width(n.a)) as c_uint, x); }
                _ => {
                    let (x, y) = (self.as_bv(n.a), self.as_bv(n.b));
                    let f = match n.op {
                        Op::Add => a.Z3_mk_bvadd, Op::Sub => a.Z3_mk_bvsub, Op::Mul => a.Z3_mk_bvmul, Op::UDiv => a.Z3_mk_bvudiv, Op::URem => a.Z3_mk_bvurem,
                        Op::SDiv => a.Z3_mk_bvsdiv, Op::SRem => a.Z3_mk_bvsrem, Op::And => a.Z3_mk_bvand, Op::Or => a.Z3_mk_bvor, Op::Xor => a.Z3_mk_bvxor,
                        Op::Shl => a.Z3_mk_bvshl, Op::LShr => a.Z3_mk_bvlshr, Op::AShr => a.Z3_mk_bvashr, Op::Concat => a.Z3_mk_concat,
                        Op::Ult => a.Z3_mk_bvult, Op::Ule => a.Z3_mk_bvule, Op::Slt => a.Z3_mk_bvslt, Op::Sle => a.Z3_mk_bvsle,
                        _ => panic!("translate {:?}", n.op),
                    };
                    r = f(c, x, y);
                }
            }
            if isb { self.bo.insert(t, r); } else { self.bv.insert(t, r); }
        }
    }

    /// Checks pcs ∧ extra; on Sat returns a model over the given variables.
    pub fn check(&mut self, pcs: &[T], extra: &[T], vars: &[(u32, u16)]) -> (Res, Option<Model>) {
        if self.nterms > 3_000_000 { self.fresh(); }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let a = api();
        let fp = pcs.iter().chain(extra.iter()).any(|t| self.has_fp(*t));
        unsafe {
            let mut r;
            let mut model = None;
            let tr = std::env::var("LLSYM_TIERS").is_ok();
            macro_rules! tm { ($n:expr, $e:expr) => {{ let t1 = std::time::Instant::now(); let r = $e; if tr && t1.elapsed().as_millis() > 200 { eprintln!("  tier {} {:?} -> {}", $n, t1.elapsed(), r); } r }} }
            let cls = if fp { 4 } else { pcs.iter().chain(extra.iter()).map(|t| self.int_class(*t)).max().unwrap_or(0) };
            
            if tr && cls >= 3 {
                for t in pcs.iter().chain(extra.iter()) { if self.int_class(*t) == cls { let mut st = vec![*t]; while let Some(x) = st.pop() { let n = node(x); let ks: Vec<T> = [n.a, n.b, n.c].into_iter().filter(|y| *y != 0).collect(); let worst: Vec<T> = ks.into_iter().filter(|y| self.icls.get(y).copied().unwrap_or(0) == cls).collect(); if worst.is_empty() { eprintln!("class {} by {}", cls, show(x, 4)); break; } st.push(worst[0]); } } }
            }
            if fp {
                r = tm!("oneshot", self.oneshot(pcs, extra, vars, &mut model, self.fallback_ms));
            } else {
                r = 0;
                // comparisons between identifiers are decided as integers, the rest as bit-vectors
                let full = self.timeout_ms;
                if cls <= 1 { self.limit(3000.min(full)); r = tm!("int_check", self.int_check(pcs, extra, vars, &mut model)); }
                if cls == 2 {
                    r = tm!("bv_check", self.bv_check(pcs, extra, vars, &mut model, 300.min(full)));
                    if r == 0 { r = tm!("oneshot", self.oneshot(pcs, extra, vars, &mut model, 1000.min(full))); }
                    if r == 0 { self.limit(3000.min(full)); r = tm!("int_check", self.int_check(pcs, extra, vars, &mut model)); }
                }
                if cls == 3 { r = tm!("products", self.products(pcs, extra, vars, &mut model, full)); }
                if r == 0 { r = tm!("bv_check", self.bv_check(pcs, extra, vars, &mut model, full)); }
                if r == 0 && cls <= 2 { self.limit(full); r = tm!("int_check", self.int_check(pcs, extra, vars, &mut model)); }
                if r == 0 { r = tm!("oneshot", self.oneshot(pcs, extra, vars, &mut model, self.fallback_ms)); }
            }
            let dt = t0.elapsed();
            if dt.as_millis() > std::env::var("LLSYM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(u128::MAX) {
                if let Ok(p) = std::env::var("LLSYM_DUMP") {
                    let q = (a.Z3_mk_solver)(self.c);
                    (a.Z3_solver_inc_ref)(self.c, q);
                    for t in pcs.iter().chain(extra.iter()) { let b = self.as_bool(*t); (a.Z3_solver_assert)(self.c, q, b); }
                    let t = CStr::from_ptr((a.Z3_solver_to_string)(self.c, q)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{p}/s{}.smt2", self.queries), t + "\n(check-sat)\n");
                }
                eprintln!("slow query {:?} r={} {}", dt, r, extra.iter().map(|t| show(*t, 6)).collect::<Vec<_>>().join(" & "));
            }
            self.time += dt;
            if dt > self.slowest { self.slowest = dt; }
            match r { 1 => { self.sat += 1; (Res::Sat, model) } -1 => { self.unsat += 1; (Res::Unsat, None) } _ => (Res::Unknown, None) }
        }
    }
    /// A fresh bit-vector solver per query: z3's incremental ones are far slower on these, and their models less reliable.
    unsafe fn bv_check(&mut self, pcs: &[T], extra: &[T], vars: &[(u32, u16)], model: &mut Option<Model>, ms: u32) -> c_int {
        let a = api();
        let n = CString::new("QF_BV").unwrap();
        let s = (a.Z3_mk_solver_for_logic)(self.c, (a.Z3_mk_string_symbol)(self.c, n.as_ptr()));
        self.solve(s, pcs, extra, vars, model, ms)
    }
    /// Integer arithmetic with products of variables, in a fresh solver.
    unsafe fn products(&mut self, pcs: &[T], extra: &[T], vars: &[(u32, u16)], model: &mut Option<Model>, ms: u32) -> c_int {
        let a = api();
        let n = CString::new("QF_NIA").unwrap();
        let s = (a.Z3_mk_solver_for_logic)(self.c, (a.Z3_mk_string_symbol)(self.c, n.as_ptr()));
        (a.Z3_solver_inc_ref)(self.c, s);
        self.set_timeout(s, ms);
        let keep = std::mem::replace(&mut self.is, s);
        for t in pcs.iter().chain(extra.iter()) { self.iassert(*t); }
        let mut r = (a.Z3_solver_check)(self.c, s);
        self.int_queries += 1;
        if r == 1 { let m = self.int_model(vars); if pcs.iter().chain(extra.iter()).all(|t| eval(*t, &m) != 0) { *model = Some(m); } else { r = 0; } }
        self.is = keep;
        (a.Z3_solver_dec_ref)(self.c, s);
        r
    }
    unsafe fn oneshot(&mut self, pcs: &[T], extra: &[T], vars: &[(u32, u16)], model: &mut Option<Model>, ms: u32) -> c_int {
        let s = (api().Z3_mk_solver)(self.c);
        self.solve(s, pcs, extra, vars, model, ms)
    }
    unsafe fn solve(&mut self, s: P, pcs: &[T], extra: &[T], vars: &[(u32, u16)], model: &mut Option<Model>, ms: u32) -> c_int {
        let a = api();
        (a.Z3_solver_inc_ref)(self.c, s);
        self.set_timeout(s, ms);
        for t in pcs.iter().chain(extra.iter()) { let b = self.as_bool(*t); (a.Z3_solver_assert)(self.c, s, b); }
        let r = (a.Z3_solver_check)(self.c, s);
        if r == 1 { *model = Some(self.get_model(s, vars)); }
        (a.Z3_solver_dec_ref)(self.c, s);
        r
    }

    // ---------- integer encoding (exact: every operation carries its mod-2^w semantics) ----------
    /// 0/1: comparisons of identifiers and constant offsets; 2: linear arithmetic; 3: products of variables; 4: not encodable.
    fn int_class(&mut self, t: T) -> u8 {
        if let Some(k) = self.icls.get(&t) { return *k; }
        let mut st = vec![(t, false)];
        while let Some((x, ready)) = st.pop() {
            if self.icls.contains_key(&x) { continue; }
            let n = node(x);
            if matches!(n.op, Op::Const | Op::Var) { self.icls.insert(x, if n.w > 64 && n.op == Op::Var { 4 } else { 0 }); self.iub.insert(x, if n.op == Op::Const { n.k } else { mask(n.w) }); continue; }
            let kids: Vec<T> = [n.a, n.b, n.c].into_iter().filter(|y| *y != 0).collect();
            if !ready { st.push((x, true)); for y in kids { st.push((y, false)); } continue; }
            let m = kids.iter().map(|y| self.icls[y]).max().unwrap_or(0);
            let kb = if n.b != 0 { is_const(n.b) } else { None };
            let full = mask(n.w);
            let ub = match n.op {
                Op::ZExt => self.iub[&n.a],
                Op::Ite => self.iub[&n.b].max(self.iub[&n.c]),
                Op::Add => self.iub[&n.a].checked_add(self.iub[&n.b]).map_or(full, |v| v.min(full)),
                Op::And if n.w > 1 => self.iub[&n.a].min(self.iub[&n.b]),
                Op::URem if kb.map_or(false, |k| k != 0) => (kb.unwrap() - 1).min(self.iub[&n.a]),
                Op::UDiv if kb.map_or(false, |k| k != 0) => self.iub[&n.a] / kb.unwrap(),
                Op::LShr if kb.map_or(false, |k| k < 128) => self.iub[&n.a] >> kb.unwrap(),
                _ => full,
            };
            self.iub.insert(x, ub);
            let own = match n.op {
                Op::Add if n.w <= 64 && self.iub[&n.a] + self.iub[&n.b] <= full => 1,
                _ if n.w > 64 && !(n.op == Op::ZExt || n.op == Op::Mul && node(n.a).op == Op::ZExt && width(node(n.a).a) <= 64 && (kb.map_or(false, |k| k >> 64 == 0) || node(n.b).op == Op::ZExt && width(node(n.b).a) <= 64)) => 4,
                Op::Ite | Op::Eq | Op::Ult | Op::Ule => 0,
                Op::And | Op::Or | Op::Xor if n.w == 1 => 0,
                Op::Add | Op::Sub if kb.is_some() || is_const(n.a).is_some() => 1,
                Op::Add | Op::Sub => 2,
                Op::ZExt if n.w <= 128 => 1,
                Op::Mul => if kb.is_some() || is_const(n.a).is_some() { 2 } else { 3 },
                Op::UDiv | Op::URem if kb.map_or(false, |k| k != 0) => 2,
                Op::LShr | Op::Shl if kb.map_or(false, |k| k < n.w as u128) => 2,
                Op::And if kb.map_or(false, |k| (k & (k + 1)) == 0 || { let inv = !k & mask(n.w); (inv & (inv + 1)) == 0 }) => 2,
                Op::Extract => 2,
                Op::Concat => 2,
                _ => 4,
            };
            self.icls.insert(x, m.max(own));
        }
        self.icls[&t]
    }
    fn inum(&self, v: u128) -> P {
        let cs = CString::new(v.to_string()).unwrap();
        unsafe { (api().Z3_mk_numeral)(self.c, cs.as_ptr(), self.isort) }
    }
    fn bounds(&mut self, t: T) -> Rc<Vec<T>> {
        if let Some(b) = self.ibounds.get(&t) { return b.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut vs = vec![];
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = node(x);
            if n.op == Op::Var { if n.w > 1 { vs.push(x); } continue; }
            if n.op == Op::Const { continue; }
            for y in [n.a, n.b, n.c] { if y != 0 { st.push(y); } }
        }
        let r = Rc::new(vs);
        self.ibounds.insert(t, r.clone());
        r
    }
    /// Integer (or boolean, for width 1) translation of a term.
    fn int(&mut self, t: T) -> P {
        if let Some(p) = self.im.get(&t) { return *p; }
        let mut st = vec![(t, false)];
        let a = api();
        let c = self.c;
        while let Some((x, ready)) = st.pop() {
            if self.im.contains_key(&x) { continue; }
            let n = node(x);
            let leaf = matches!(n.op, Op::Const | Op::Var);
            if !leaf && !ready { st.push((x, true)); for y in [n.a, n.b, n.c] { if y != 0 { st.push((y, false)); } } continue; }
            self.nterms += 1;
            let g = |s: &Solver, y: T| s.im[&y];
            // width-1 operands are booleans; give their 0/1 value where a number is needed
            let gi = |s: &Solver, y: T| unsafe { if width(y) == 1 { (a.Z3_mk_ite)(c, s.im[&y], s.inum(1), s.inum(0)) } else { s.im[&y] } };
            let m = if n.w < 128 { 1u128 << n.w } else { 0 };
            let r = unsafe { match n.op {
                Op::Const => if n.w == 1 { if n.k & 1 == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) } } else { self.inum(n.k) },
                Op::Var => {
                    if n.w == 1 { self.as_bool(x) } else {
                        let nm = CString::new(format!("i{}", n.k)).unwrap();
                        (a.Z3_mk_const)(c, (a.Z3_mk_string_symbol)(c, nm.as_ptr()), self.isort)
                    }
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let (p, q) = (g(self, n.a), g(self, n.b));
                    match n.op { Op::And => (a.Z3_mk_and)(c, 2, [p, q].as_ptr()), Op::Or => (a.Z3_mk_or)(c, 2, [p, q].as_ptr()), _ => if is_const(n.b) == Some(1) { (a.Z3_mk_not)(c, p) } else { (a.Z3_mk_xor)(c, p, q) } }
                }
                Op::Ite => (a.Z3_mk_ite)(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                Op::Eq => (a.Z3_mk_eq)(c, g(self, n.a), g(self, n.b)),
                Op::Ult => (a.Z3_mk_lt)(c, gi(self, n.a), gi(self, n.b)),
                Op::Ule => (a.Z3_mk_le)(c, gi(self, n.a), gi(self, n.b)),
                Op::Add => { let s = (a.Z3_mk_add)(c, 2, [gi(self, n.a), gi(self, n.b)].as_ptr()); if n.w <= 64 && self.iub[&n.a] + self.iub[&n.b] < m { s } else { let mm = self.inum(m); (a.Z3_mk_ite)(c, (a.Z3_mk_le)(c, mm, s), (a.Z3_mk_sub)(c, 2, [s, mm].as_ptr()), s) } }
                Op::Sub => { let s = (a.Z3_mk_sub)(c, 2, [gi(self, n.a), gi(self, n.b)].as_ptr()); let mm = self.inum(m); (a.Z3_mk_ite)(c, (a.Z3_mk_lt)(c, s, self.inum(0)), (a.Z3_mk_add)(c, 2, [s, mm].as_ptr()), s) }
                Op::ZExt => gi(self, n.a),
                Op::Mul => { let p = (a.Z3_mk_mul)(c, 2, [g(self, n.a), g(self, n.b)].as_ptr()); if m == 0 { p } else { (a.Z3_mk_mod)(c, p, self.inum(m)) } }
                Op::UDiv => (a.Z3_mk_div)(c, g(self, n.a), g(self, n.b)),
                Op::URem => (a.Z3_mk_mod)(c, g(self, n.a), g(self, n.b)),
                Op::LShr => { let k = is_const(n.b).unwrap(); (a.Z3_mk_div)(c, g(self, n.a), self.inum(1u128 << k)) }
                Op::Shl => { let k = is_const(n.b).unwrap(); let p = (a.Z3_mk_mul)(c, 2, [g(self, n.a), self.inum(1u128 << k)].as_ptr()); (a.Z3_mk_mod)(c, p, self.inum(m)) }
                Op::And => {
                    let k = is_const(n.b).unwrap();
                    let p = g(self, n.a);
                    if k & (k + 1) == 0 { (a.Z3_mk_mod)(c, p, self.inum(k + 1)) } else { let lo = (a.Z3_mk_mod)(c, p, self.inum((!k & mask(n.w)) + 1)); (a.Z3_mk_sub)(c, 2, [p, lo].as_ptr()) }
                }
                Op::Extract => {
                    let p = gi(self, n.a);
                    let q = if n.k == 0 { p } else { (a.Z3_mk_div)(c, p, self.inum(1u128 << n.k)) };
                    let r = if n.k + n.w as u128 == width(n.a) as u128 { q } else { (a.Z3_mk_mod)(c, q, self.inum(m)) };
                    if n.w == 1 { (a.Z3_mk_eq)(c, r, self.inum(1)) } else { r }
                }
                Op::Concat => { let lw = width(n.b); (a.Z3_mk_add)(c, 2, [(a.Z3_mk_mul)(c, 2, [gi(self, n.a), self.inum(1u128 << lw)].as_ptr()), gi(self, n.b)].as_ptr()) }
                _ => panic!("int {:?}", n.op),
            } };
            self.im.insert(x, r);
        }
        self.im[&t]
    }
    unsafe fn iassert(&mut self, t: T) {
        let a = api();
        let p = self.int(t);
        (a.Z3_solver_assert)(self.c, self.is, p);
        for v in self.bounds(t).iter() {
            let x = self.int(*v);
            let lo = (a.Z3_mk_le)(self.c, self.inum(0), x);
            let hi = (a.Z3_mk_lt)(self.c, x, self.inum(1u128 << width(*v)));
            (a.Z3_solver_assert)(self.c, self.is, lo);
            (a.Z3_solver_assert)(self.c, self.is, hi);
        }
    }
    unsafe fn int_check(&mut self, pcs: &[T], extra: &[T], vars: &[(u32, u16)], model: &mut Option<Model>) -> c_int {
        let a = api();
        let mut common = 0;
        while common < self.istack.len() && common < pcs.len() && self.istack[common] == pcs[common] { common += 1; }
        if common < self.istack.len() {
            (a.Z3_solver_pop)(self.c, self.is, (self.istack.len() - common) as c_uint);
            self.istack.truncate(common);
        }
        for t in &pcs[common..] {
            (a.Z3_solver_push)(self.c, self.is);
            self.iassert(*t);
            self.istack.push(*t);
        }
        (a.Z3_solver_push)(self.c, self.is);
        for t in extra { self.iassert(*t); }
        let mut r = (a.Z3_solver_check)(self.c, self.is);
        self.int_queries += 1;
        if r == 1 {
            let out = self.int_model(vars);
            // the evaluator is the judge of the encoding
            if pcs.iter().chain(extra.iter()).all(|t| eval(*t, &out) != 0) { *model = Some(out); } else { r = 0; }
        }
        (a.Z3_solver_pop)(self.c, self.is, 1);
        r
    }
    unsafe fn int_model(&mut self, vars: &[(u32, u16)]) -> Model {
        let a = api();
        let m = (a.Z3_solver_get_model)(self.c, self.is);
        (a.Z3_model_inc_ref)(self.c, m);
        let mut out = Model::default();
        for (v, w) in vars {
            let t = var(*w, *v);
            let Some(p) = self.im.get(&t).copied() else { continue };
            let p = if *w == 1 { (a.Z3_mk_ite)(self.c, p, self.inum(1), self.inum(0)) } else { p };
            let mut o: P = std::ptr::null_mut();
            if (a.Z3_model_eval)(self.c, m, p, true, &mut o) && !o.is_null() {
                let st = CStr::from_ptr((a.Z3_get_numeral_string)(self.c, o)).to_string_lossy().to_string();
                if let Ok(x) = st.parse::<u128>() { out.vals.insert(*v, x & mask(*w)); }
            }
        }
        (a.Z3_model_dec_ref)(self.c, m);
        out
    }
    unsafe fn get_model(&mut self, s: P, vars: &[(u32, u16)]) -> Model {
        let a = api();
        let m = (a.Z3_solver_get_model)(self.c, s);
        (a.Z3_model_inc_ref)(self.c, m);
        let mut out = Model::default();
        for (v, w) in vars {
            let t = var(*w, *v);
            let Some(p) = self.bv.get(&t).copied() else { continue };
            let mut o: P = std::ptr::null_mut();
            if (a.Z3_model_eval)(self.c, m, p, true, &mut o) && !o.is_null() {
                let st = CStr::from_ptr((a.Z3_get_numeral_string)(self.c, o)).to_string_lossy().to_string();
                if let Ok(x) = st.parse::<u128>() { out.vals.insert(*v, x); }
            }
        }
        (a.Z3_model_dec_ref)(self.c, m);
        out
    }
}
