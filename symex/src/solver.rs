//! Path-condition solver: independence slicing, query cache, Z3 (C API) as the decision procedure.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ast = *mut c_void;
type Ctx = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: P) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: P) -> P;
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_model_eval(c: Ctx, m: P, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: Ctx, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub dom_hits: u64,
    pub z3_calls: u64,
    pub z3_time: f64,
    pub unknown: u64,
    pub max_query: f64,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    slv: P,
    one: Ast,
    zero: Ast,
    memo: HashMap<E, Ast>,
    bmemo: HashMap<E, Ast>,
    dom: HashMap<E, [u64; 4]>,
    pub fast: bool,
    pub simple: bool,
    vars: HashMap<u32, Ast>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub st: Stats,
    timeout_ms: u32,
    calls_on_ctx: u64,
    pub dump: Option<std::path::PathBuf>,
    pub dump_every: u64,
    pub dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            one: std::ptr::null_mut(),
            zero: std::ptr::null_mut(),
            memo: HashMap::new(),
            bmemo: HashMap::new(),
            dom: HashMap::new(),
            fast: true,
            simple: std::env::var("SYMEX_SIMPLE").is_ok(),
            vars: HashMap::new(),
            cache: HashMap::new(),
            st: Stats::default(),
            timeout_ms,
            calls_on_ctx: 0,
            dump: None,
            dump_every: 1,
            dumped: 0,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.slv = if self.simple {
                Z3_mk_simple_solver(self.ctx)
            } else {
                Z3_mk_solver_for_logic(self.ctx, sym)
            };
            Z3_solver_inc_ref(self.ctx, self.slv);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, ks, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.slv, p);
            self.one = self.num(1, 1);
            self.zero = self.num(1, 0);
        }
        self.memo.clear();
        self.bmemo.clear();
        self.vars.clear();
    }
    unsafe fn num(&self, w: u16, v: u128) -> Ast {
        let s = CString::new(v.to_string()).unwrap();
        let ty = Z3_mk_bv_sort(self.ctx, w as c_uint);
        Z3_mk_numeral(self.ctx, s.as_ptr(), ty)
    }
    fn var(&mut self, i: u32) -> Ast {
        if let Some(&a) = self.vars.get(&i) {
            return a;
        }
        let a = unsafe {
            let s = CString::new(format!("in{}", i)).unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, s.as_ptr());
            Z3_mk_const(self.ctx, sym, Z3_mk_bv_sort(self.ctx, 8))
        };
        self.vars.insert(i, a);
        a
    }
    /// Width-1 expression as a Z3 Bool.
    fn convb(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.bmemo.get(&e) {
            return a;
        }
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            let wa = |x: E| ar.w(x);
            let r = match n.op {
                Op::Const => {
                    if n.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.convb(ar, n.a);
                    let b = self.convb(ar, n.b);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.convb(ar, n.a);
                    let b = self.convb(ar, n.b);
                    let d = self.convb(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq if wa(n.a) == 1 => {
                    let a = self.convb(ar, n.a);
                    let b = self.convb(ar, n.b);
                    let x = Z3_mk_xor(c, a, b);
                    Z3_mk_not(c, x)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.conv(ar, n.a);
                    let b = self.conv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.conv(ar, e);
                    Z3_mk_eq(c, a, self.one)
                }
            };
            self.bmemo.insert(e, r);
            r
        }
    }
    /// The set of values of the single variable of `e` that make `e` true.
    fn domain(&mut self, ar: &mut Arena, e: E, var: u32) -> [u64; 4] {
        if let Some(d) = self.dom.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        let mut m = vec![0u8; var as usize + 1];
        for v in 0..256usize {
            m[var as usize] = v as u8;
            if ar.eval(e, &m) != 0 {
                d[v / 64] |= 1 << (v % 64);
            }
        }
        self.dom.insert(e, d);
        d
    }
    fn conv(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.memo.get(&e) {
            return a;
        }
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => self.num(n.w, n.imm),
                Op::Var => self.var(n.imm as u32),
                Op::Zext => {
                    let a = self.conv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Sext => {
                    let a = self.conv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.conv(ar, n.a);
                    Z3_mk_extract(c, n.c + n.w as c_uint - 1, n.c, a)
                }
                Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle
                    if n.w == 1 =>
                {
                    let f = self.convb(ar, e);
                    Z3_mk_ite(c, f, self.one, self.zero)
                }
                Op::Ite => {
                    let a = self.convb(ar, n.a);
                    let b = self.conv(ar, n.b);
                    let d = self.conv(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.conv(ar, n.a);
                    let b = self.conv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.memo.insert(e, r);
            r
        }
    }

    /// Is `pc /\ cond` satisfiable?  (pc is known satisfiable.)
    /// On Sat returns an assignment for the variables of the slice that `cond` depends on.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], cond: E, model: &[u8]) -> Res {
        let f = self.fast;
        self.check_opt(ar, pc, cond, model, f)
    }
    /// As `check`; with `fast` false every verdict is Z3's.
    pub fn check_opt(&mut self, ar: &mut Arena, pc: &[E], cond: E, model: &[u8], fast: bool) -> Res {
        self.st.queries += 1;
        if let Some(k) = ar.as_const(cond) {
            return if k != 0 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        // independence slicing
        let mut vs = ar.vars[cond as usize];
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if !used[i] && vs_inter(&ar.vars[p as usize], &vs) {
                    used[i] = true;
                    vs = vs_or(&vs, &ar.vars[p as usize]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if fast {
            // one byte only: the constraint set is decided on the byte's domain
            let nv: u32 = vs.iter().map(|w| w.count_ones()).sum();
            let cv = ar.vars[cond as usize];
            let ncv: u32 = cv.iter().map(|w| w.count_ones()).sum();
            if ncv == 1 {
                let k = cv.iter().position(|&w| w != 0).unwrap();
                let var = (k * 64) as u32 + cv[k].trailing_zeros();
                let mut d = self.domain(ar, cond, var);
                for (i, &p) in pc.iter().enumerate() {
                    if used[i] && ar.vars[p as usize] == cv {
                        let x = self.domain(ar, p, var);
                        for j in 0..4 {
                            d[j] &= x[j];
                        }
                    }
                }
                if d == [0; 4] {
                    self.st.dom_hits += 1;
                    self.st.unsat += 1;
                    return Res::Unsat;
                }
                if nv == 1 {
                    let k = d.iter().position(|&w| w != 0).unwrap();
                    let v = (k * 64) as u32 + d[k].trailing_zeros();
                    self.st.dom_hits += 1;
                    self.st.sat += 1;
                    return Res::Sat(vec![(var, v as u8)]);
                }
                // the current model with only this byte changed
                let mut m = model.to_vec();
                if (var as usize) < m.len() {
                    let mut tries = 0;
                    'v: for v in 0..256usize {
                        if d[v / 64] >> (v % 64) & 1 == 0 {
                            continue;
                        }
                        tries += 1;
                        if tries > 12 {
                            break;
                        }
                        m[var as usize] = v as u8;
                        for (i, &p) in pc.iter().enumerate() {
                            if used[i] && vs_inter(&ar.vars[p as usize], &cv) && ar.vars[p as usize] != cv && ar.eval(p, &m) == 0 {
                                continue 'v;
                            }
                        }
                        self.st.dom_hits += 1;
                        self.st.sat += 1;
                        return Res::Sat(vec![(var, v as u8)]);
                    }
                }
            }
        }
        let mut key: Vec<E> = pc
            .iter()
            .enumerate()
            .filter(|(i, _)| used[*i])
            .map(|(_, &e)| e)
            .collect();
        key.push(cond);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => {
                    self.st.sat += 1;
                    Res::Sat(m.clone())
                }
                None => {
                    self.st.unsat += 1;
                    Res::Unsat
                }
            };
        }
        // a fresh context now and then bounds Z3's memory
        self.calls_on_ctx += 1;
        let t0 = Instant::now();
        self.st.z3_calls += 1;
        let asts: Vec<Ast> = key.iter().map(|&e| self.convb(ar, e)).collect();
        let res = unsafe {
            Z3_solver_push(self.ctx, self.slv);
            for f in asts {
                Z3_solver_assert(self.ctx, self.slv, f);
            }
            if let Some(d) = &self.dump {
                if self.st.z3_calls % self.dump_every == 0 && self.dumped < 200 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.slv))
                        .to_string_lossy()
                        .into_owned();
                    let r = Z3_solver_check(self.ctx, self.slv);
                    let f = d.join(format!("q{:04}_{}.smt2", self.dumped, if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" }));
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    self.dumped += 1;
                }
            }
            let r = Z3_solver_check(self.ctx, self.slv);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    let mut asg = vec![];
                    for i in 0..256u32 {
                        if vs[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                            let v = self.var(i);
                            let mut o: Ast = std::ptr::null_mut();
                            let mut x = 0u64;
                            if Z3_model_eval(self.ctx, m, v, true, &mut o)
                                && Z3_get_numeral_uint64(self.ctx, o, &mut x)
                            {
                                asg.push((i, x as u8));
                            } else {
                                eprintln!("z3 model eval failed");
                                std::process::exit(3);
                            }
                        }
                    }
                    Res::Sat(asg)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.slv, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.z3_time += dt;
        if dt > self.st.max_query {
            self.st.max_query = dt;
        }
        match &res {
            Res::Sat(m) => {
                self.st.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => {
                self.st.unknown += 1;
            }
        }
        res
    }
}
