//! Path-based symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

const NOSYM: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    pc: usize,
    regs: Vec<V>,
    stack_base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    gl: Rc<HashMap<u32, Rc<Obj>>>,
    pc: Vec<E>,
    model: Vec<u8>,
    nvars: u32,
    bound: VarSet,
    obs: Rc<Vec<V>>,
    allow_panic: bool,
    insts: u64,
    depth_forks: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nat {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Abort,
    Panic,
    SymBytes,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    SymParam,
    SymAllowPanic,
}

pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

enum Stop {
    Fork,          // current state must be re-queued (forked)
    End,           // path ended normally / was killed
    Err(String),   // engine limitation: run is inconclusive
    Viol(String, u64), // violation with the current model
}
type X<T> = Result<T, Stop>;

pub struct Exec<'m> {
    m: &'m Module,
    funcs: Vec<Option<Rc<Func>>>,
    nat: Vec<Nat>,
    gl_cache: Vec<Option<Rc<Obj>>>,
    pub ar: Arena,
    pub sv: Solver,
    work: VecDeque<State>,
    pub params: Vec<u64>,
    pub viols: Vec<Violation>,
    viol_counts: HashMap<(String, u64), u32>,
    pub errors: BTreeMap<String, u64>,
    pub reached: BTreeMap<u64, u64>,
    pub paths: u64,
    pub killed: u64,
    pub panics_allowed: u64,
    pub insts: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub used: BTreeSet<u32>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub sample_cap: usize,
    pub max_depth: usize,
    pub max_insts: u64,
    /// longest path, in instructions
    pub longest: u64,
    pub deadline: Instant,
    pub max_viols: usize,
    pub timed_out: bool,
    pub nvars_max: u32,
    cur_calls: u64,
}

fn i64v(x: u64) -> V {
    V::I(64, x as u128)
}

const HEAP: u64 = 2 << 56;
const STACK: u64 = 3 << 56;
const OFFB: u64 = 28;
const OFFM: u64 = (1 << OFFB) - 1;

enum Loc {
    G(u32),
    H(usize),
    S(usize),
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32, deadline: Instant) -> Self {
        let nat = m
            .fns
            .iter()
            .map(|f| {
                let n: &str = &f.name;
                match n {
                    "malloc" => Nat::Malloc,
                    "calloc" => Nat::Calloc,
                    "realloc" => Nat::Realloc,
                    "free" => Nat::Free,
                    "posix_memalign" => Nat::Memalign,
                    "memcmp" => Nat::Memcmp,
                    "bcmp" => Nat::Bcmp,
                    "memcpy" => Nat::Memcpy,
                    "memmove" => Nat::Memmove,
                    "memset" => Nat::Memset,
                    "strlen" => Nat::Strlen,
                    "abort" => Nat::Abort,
                    "sym_bytes" => Nat::SymBytes,
                    "sym_assume" => Nat::SymAssume,
                    "sym_assert" => Nat::SymAssert,
                    "sym_reach" => Nat::SymReach,
                    "sym_observe" => Nat::SymObserve,
                    "sym_param" => Nat::SymParam,
                    "sym_allow_panic" => Nat::SymAllowPanic,
                    _ => {
                        if n.contains("9panicking") || n.contains("18handle_alloc_error") || n.contains("17rust_begin_unwind") {
                            Nat::Panic
                        } else {
                            Nat::None
                        }
                    }
                }
            })
            .collect();
        Exec {
            m,
            funcs: vec![None; m.fns.len()],
            nat,
            gl_cache: vec![None; m.globals.len()],
            ar: Arena::new(),
            sv: Solver::new(timeout_ms),
            work: VecDeque::new(),
            params: vec![],
            viols: vec![],
            viol_counts: HashMap::new(),
            errors: BTreeMap::new(),
            reached: BTreeMap::new(),
            paths: 0,
            killed: 0,
            panics_allowed: 0,
            insts: 0,
            forks: 0,
            asserts: 0,
            assert_queries: 0,
            used: BTreeSet::new(),
            samples: vec![],
            sample_cap: 200,
            max_depth: 4000,
            max_insts: 40_000_000,
            longest: 0,
            deadline,
            max_viols: 20,
            timed_out: false,
            nvars_max: 0,
            cur_calls: 0,
        }
    }

    fn func(&mut self, id: u32) -> X<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize] {
            return Ok(f.clone());
        }
        let f = self.m.parse_fn(id).map_err(|e| Stop::Err(format!("parse: {}", e)))?;
        let r = Rc::new(f);
        self.funcs[id as usize] = Some(r.clone());
        Ok(r)
    }

    // ---------- values ----------
    fn ex(&mut self, v: &V) -> X<E> {
        match v {
            V::I(w, x) => Ok(self.ar.cst(*w, *x)),
            V::S(e) => Ok(*e),
            V::A(_) => Err(Stop::Err("aggregate used as scalar".into())),
        }
    }
    fn nv(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(k) => V::I(self.ar.w(e), k),
            None => V::S(e),
        }
    }
    fn width(&self, v: &V) -> u16 {
        match v {
            V::I(w, _) => *w,
            V::S(e) => self.ar.w(*e),
            V::A(_) => 0,
        }
    }
    fn simp(&mut self, st: &State, v: V) -> V {
        if let V::S(e) = v {
            if vs_subset(&self.ar.vars[e as usize], &st.bound) {
                let k = self.ar.eval(e, &st.model);
                return V::I(self.ar.w(e), k);
            }
        }
        v
    }
    #[inline]
    fn opd(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::C(v) => v.clone(),
            Opd::Reg(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                if let V::S(_) = v {
                    self.simp(st, v)
                } else {
                    v
                }
            }
        }
    }
    fn set(&mut self, st: &mut State, r: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[r as usize] = v;
    }
    fn add_pc(&mut self, st: &mut State, e: E) {
        let n = self.ar.n(e);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if vs_subset(&self.ar.vars[e as usize], &st.bound) {
            return;
        }
        if st.pc.contains(&e) {
            return;
        }
        if n.op == Op::Eq {
            let (na, nb) = (self.ar.n(n.a), self.ar.n(n.b));
            if na.op == Op::Var && nb.op == Op::Const {
                let i = na.imm as usize;
                st.bound[i / 64] |= 1 << (i % 64);
            }
        }
        st.pc.push(e);
    }
    fn apply_model(st: &mut State, asg: &[(u32, u8)]) {
        for &(i, v) in asg {
            st.model[i as usize] = v;
        }
    }
    fn unknown(&mut self) -> Stop {
        Stop::Err("solver returned unknown".into())
    }
    /// Feasibility of `c` and `not c`; the current model decides one side for free.
    /// Returns (value in current model, Option<model of the other side>)
    fn split(&mut self, st: &State, c: E) -> X<(bool, Option<Vec<(u32, u8)>>)> {
        let mv = self.ar.eval(c, &st.model) != 0;
        let other = if mv { self.ar.not(c) } else { c };
        match self.sv.check(&mut self.ar, &st.pc, other, &st.model) {
            Res::Sat(a) => Ok((mv, Some(a))),
            Res::Unsat => Ok((mv, None)),
            Res::Unknown => Err(self.unknown()),
        }
    }
    /// Concretise a scalar by forking over its feasible values.
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::I(_, x) => Ok(*x as u64),
            V::A(_) => Err(Stop::Err("conc of aggregate".into())),
            V::S(e) => {
                let e = *e;
                let k = self.ar.eval(e, &st.model);
                let w = self.ar.w(e);
                let c = self.ar.cst(w, k);
                let eq = self.ar.eq(e, c);
                let ne = self.ar.not(eq);
                match self.sv.check(&mut self.ar, &st.pc, ne, &st.model) {
                    Res::Sat(a) => {
                        let mut o = st.clone();
                        Self::apply_model(&mut o, &a);
                        self.add_pc(&mut o, ne);
                        o.depth_forks += 1;
                        self.work.push_back(o);
                        self.forks += 1;
                        self.add_pc(st, eq);
                        // re-run the instruction under the new constraint
                        return self.conc_done(st, e, k);
                    }
                    Res::Unsat => Ok(k as u64),
                    Res::Unknown => Err(self.unknown()),
                }
            }
        }
    }
    fn conc_done(&mut self, _st: &mut State, _e: E, k: u128) -> X<u64> {
        Ok(k as u64)
    }

    // ---------- memory ----------
    fn resolve(&mut self, st: &State, addr: u64, size: u64, write: bool) -> X<(Loc, usize)> {
        let bad = |why: &str| Stop::Viol(format!("memory: {} addr={:#x} size={}", why, addr, size), 0);
        match addr >> 56 {
            1 => {
                let gs = &self.m.globals;
                let i = gs.partition_point(|g| g.addr <= addr);
                if i == 0 {
                    return Err(bad("wild global"));
                }
                let g = &gs[i - 1];
                let off = addr - g.addr;
                if off + size > g.size {
                    return Err(bad("global out of bounds"));
                }
                if write && g.constant {
                    return Err(bad("write to constant"));
                }
                Ok((Loc::G(i as u32 - 1), off as usize))
            }
            2 => {
                let id = ((addr & 0x00ff_ffff_ffff_ffff) >> OFFB) as usize;
                let off = addr & OFFM;
                match st.heap.get(id) {
                    Some(Some(o)) => {
                        if off + size > o.data.len() as u64 {
                            return Err(bad("heap out of bounds"));
                        }
                        Ok((Loc::H(id), off as usize))
                    }
                    _ => Err(bad("use after free")),
                }
            }
            3 => {
                let id = ((addr & 0x00ff_ffff_ffff_ffff) >> OFFB) as usize;
                let off = addr & OFFM;
                match st.stack.get(id) {
                    Some(o) => {
                        if off + size > o.data.len() as u64 {
                            return Err(bad("stack out of bounds"));
                        }
                        Ok((Loc::S(id), off as usize))
                    }
                    _ => Err(bad("dangling stack pointer")),
                }
            }
            _ => Err(bad("wild pointer")),
        }
    }
    fn flatten(v: &V, ty: &Ty, out: &mut [u8]) -> Result<(), String> {
        match ty {
            Ty::Struct(ts, _) => {
                let V::A(a) = v else { return Err("flatten".into()) };
                for (i, t) in ts.iter().enumerate() {
                    let (o, _) = ty.field_off(i);
                    let s = t.size() as usize;
                    Self::flatten(&a[i], t, &mut out[o as usize..o as usize + s])?;
                }
                Ok(())
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                let V::A(a) = v else { return Err("flatten".into()) };
                let s = t.size() as usize;
                for (i, x) in a.iter().enumerate() {
                    Self::flatten(x, t, &mut out[i * s..(i + 1) * s])?;
                }
                Ok(())
            }
            _ => {
                let V::I(_, x) = v else { return Err("flatten".into()) };
                for (i, b) in out.iter_mut().enumerate() {
                    *b = if i < 16 { (x >> (8 * i)) as u8 } else { 0 };
                }
                Ok(())
            }
        }
    }
    fn global_obj(&mut self, st: &State, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = st.gl.get(&id) {
            return Ok(o.clone());
        }
        if let Some(o) = &self.gl_cache[id as usize] {
            return Ok(o.clone());
        }
        let g = &self.m.globals[id as usize];
        let v = self.m.global_init(id).map_err(|e| Stop::Err(format!("global {}: {}", g.name, e)))?;
        let mut data = vec![0u8; g.size as usize];
        match v {
            Some(v) => Self::flatten(&v, &g.ty, &mut data).map_err(Stop::Err)?,
            None => return Err(Stop::Err(format!("external global {}", g.name))),
        }
        let o = Rc::new(Obj { data, sym: None, ro: g.constant });
        self.gl_cache[id as usize] = Some(o.clone());
        Ok(o)
    }
    fn obj(&mut self, st: &State, l: &Loc) -> X<Rc<Obj>> {
        match l {
            Loc::G(i) => self.global_obj(st, *i),
            Loc::H(i) => Ok(st.heap[*i].as_ref().unwrap().clone()),
            Loc::S(i) => Ok(st.stack[*i].clone()),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, l: &Loc) -> X<&'a mut Obj> {
        match l {
            Loc::G(i) => {
                let o = self.global_obj(st, *i)?;
                let g = Rc::make_mut(&mut st.gl);
                let e = g.entry(*i).or_insert(o);
                Ok(Rc::make_mut(e))
            }
            Loc::H(i) => Ok(Rc::make_mut(st.heap[*i].as_mut().unwrap())),
            Loc::S(i) => Ok(Rc::make_mut(&mut st.stack[*i])),
        }
    }
    fn byte_at(o: &Obj, i: usize) -> Result<u8, u32> {
        if let Some(s) = &o.sym {
            if s[i] != NOSYM {
                return Err(s[i]);
            }
        }
        Ok(o.data[i])
    }
    fn load_bits(&mut self, st: &State, o: &Obj, off: usize, w: u16) -> V {
        let n = ((w + 7) / 8) as usize;
        let any_sym = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&x| x != NOSYM),
        };
        if !any_sym {
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | o.data[off + i] as u128;
            }
            return V::I(w, x & mask(w));
        }
        let mut e: Option<E> = None;
        for i in (0..n).rev() {
            let b = match Self::byte_at(o, off + i) {
                Ok(k) => self.ar.cst(8, k as u128),
                Err(s) => s,
            };
            e = Some(match e {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        let mut e = e.unwrap();
        if self.ar.w(e) != w {
            e = self.ar.extract(e, 0, w);
        }
        let v = self.nv(e);
        self.simp(st, v)
    }
    fn load_ty(&mut self, st: &State, o: &Obj, off: usize, ty: &Ty) -> X<V> {
        Ok(match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                if w > 128 {
                    return Err(Stop::Err(format!("load of i{}", w)));
                }
                self.load_bits(st, o, off, w)
            }
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (fo, ft) = ty.field_off(i);
                    v.push(self.load_ty(st, o, off + fo as usize, &ft)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let tot = *n as u16 * t.bits();
                let b = self.load_bits(st, o, off, tot);
                self.bits_to(&b, ty)?
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let s = t.size() as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_ty(st, o, off + i * s, t)?);
                }
                V::A(Rc::new(v))
            }
            _ => return Err(Stop::Err("load type".into())),
        })
    }
    fn store_bits(&mut self, st: &mut State, l: &Loc, off: usize, v: &V) -> X<()> {
        match v {
            V::I(w, x) => {
                let n = ((*w + 7) / 8) as usize;
                let o = self.obj_mut(st, l)?;
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = NOSYM;
                    }
                }
            }
            V::S(e) => {
                let w = self.ar.w(*e);
                let n = ((w + 7) / 8) as usize;
                let e8 = self.ar.zext(*e, n as u16 * 8);
                let mut bs = vec![];
                for i in 0..n {
                    let b = self.ar.extract(e8, i as u16 * 8, 8);
                    bs.push(match self.ar.as_const(b) {
                        Some(k) => Ok(k as u8),
                        None => Err(b),
                    });
                }
                let o = self.obj_mut(st, l)?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![NOSYM; len]);
                for i in 0..n {
                    match bs[i] {
                        Ok(k) => {
                            o.data[off + i] = k;
                            s[off + i] = NOSYM;
                        }
                        Err(b) => s[off + i] = b,
                    }
                }
            }
            V::A(_) => return Err(Stop::Err("store agg".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, l: &Loc, off: usize, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::Struct(ts, _), V::A(a)) => {
                for i in 0..ts.len() {
                    let (fo, ft) = ty.field_off(i);
                    self.store_ty(st, l, off + fo as usize, &ft, &a[i])?;
                }
                Ok(())
            }
            (Ty::Vec(_, t), V::A(_)) if t.bits() % 8 != 0 => {
                let b = self.to_bits(v)?;
                self.store_bits(st, l, off, &b)
            }
            (Ty::Arr(_, t), V::A(a)) | (Ty::Vec(_, t), V::A(a)) => {
                let s = t.size() as usize;
                for (i, x) in a.iter().enumerate() {
                    self.store_ty(st, l, off + i * s, t, x)?;
                }
                Ok(())
            }
            _ => self.store_bits(st, l, off, v),
        }
    }
    fn to_bits(&mut self, v: &V) -> X<V> {
        match v {
            V::A(a) => {
                let mut e: Option<E> = None;
                for x in a.iter().rev() {
                    let b = self.to_bits(x)?;
                    let b = self.ex(&b)?;
                    e = Some(match e {
                        None => b,
                        Some(h) => {
                            if self.ar.w(h) + self.ar.w(b) > 128 {
                                return Err(Stop::Err("vector wider than 128".into()));
                            }
                            self.ar.concat(h, b)
                        }
                    });
                }
                Ok(self.nv(e.unwrap()))
            }
            _ => Ok(v.clone()),
        }
    }
    fn bits_to(&mut self, v: &V, ty: &Ty) -> X<V> {
        match ty {
            Ty::Vec(n, t) => {
                let e = self.ex(v)?;
                let w = t.bits();
                let mut o = vec![];
                for i in 0..*n as u16 {
                    let x = self.ar.extract(e, i * w, w);
                    o.push(self.nv(x));
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(v.clone()),
        }
    }
    fn copy_mem(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (ls, os) = self.resolve(st, src, n, false)?;
        let (ld, od) = self.resolve(st, dst, n, true)?;
        let so = self.obj(st, &ls)?;
        let n = n as usize;
        let data = so.data[os..os + n].to_vec();
        let sym = so.sym.as_ref().map(|s| s[os..os + n].to_vec());
        drop(so);
        let o = self.obj_mut(st, &ld)?;
        o.data[od..od + n].copy_from_slice(&data);
        match sym {
            Some(s) => {
                let len = o.data.len();
                let d = o.sym.get_or_insert_with(|| vec![NOSYM; len]);
                d[od..od + n].copy_from_slice(&s);
            }
            None => {
                if let Some(d) = &mut o.sym {
                    for x in &mut d[od..od + n] {
                        *x = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    fn alloc_heap(&mut self, st: &mut State, n: u64, fill: u8) -> X<u64> {
        if n > 1 << 26 {
            return Err(Stop::Err(format!("huge allocation {}", n)));
        }
        let id = st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj {
            data: vec![fill; n as usize],
            sym: None,
            ro: false,
        })));
        Ok(HEAP + (id << OFFB))
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let id = ((p & 0x00ff_ffff_ffff_ffff) >> OFFB) as usize;
        if p >> 56 != 2 || p & OFFM != 0 || st.heap.get(id).map(|x| x.is_none()).unwrap_or(true) {
            return Err(Stop::Viol(format!("memory: invalid free {:#x}", p), 0));
        }
        st.heap[id] = None;
        Ok(())
    }

    // ---------- scalar ops ----------
    fn bin_s(&mut self, op: Op, a: &V, b: &V) -> X<V> {
        if let (V::I(w, x), V::I(_, y)) = (a, b) {
            let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
            return Ok(V::I(if cmp { 1 } else { *w }, fold2(op, *w, *x, *y)));
        }
        let ea = self.ex(a)?;
        let eb = self.ex(b)?;
        let r = self.ar.bin(op, ea, eb);
        Ok(self.nv(r))
    }
    fn bin_v(&mut self, op: Op, a: &V, b: &V) -> X<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut o = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(self.bin_v(op, p, q)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        self.bin_s(op, a, b)
    }
    fn not_v(&mut self, a: &V) -> X<V> {
        match a {
            V::I(_, x) => Ok(V::I(1, x ^ 1)),
            V::S(e) => {
                let r = self.ar.not(*e);
                Ok(self.nv(r))
            }
            V::A(x) => {
                let mut o = vec![];
                for p in x.iter() {
                    o.push(self.not_v(p)?);
                }
                Ok(V::A(Rc::new(o)))
            }
        }
    }
    fn icmp(&mut self, p: Pred, a: &V, b: &V) -> X<V> {
        match p {
            Pred::Eq => self.bin_v(Op::Eq, a, b),
            Pred::Ne => {
                let x = self.bin_v(Op::Eq, a, b)?;
                self.not_v(&x)
            }
            Pred::Ult => self.bin_v(Op::Ult, a, b),
            Pred::Ule => self.bin_v(Op::Ule, a, b),
            Pred::Ugt => self.bin_v(Op::Ult, b, a),
            Pred::Uge => self.bin_v(Op::Ule, b, a),
            Pred::Slt => self.bin_v(Op::Slt, a, b),
            Pred::Sle => self.bin_v(Op::Sle, a, b),
            Pred::Sgt => self.bin_v(Op::Slt, b, a),
            Pred::Sge => self.bin_v(Op::Sle, b, a),
        }
    }
    fn ite_v(&mut self, c: &V, a: &V, b: &V) -> X<V> {
        match (c, a, b) {
            (V::A(cs), V::A(x), V::A(y)) => {
                let mut o = vec![];
                for i in 0..cs.len() {
                    o.push(self.ite_v(&cs[i], &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::I(_, k), _, _) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            (V::S(_), V::A(x), V::A(y)) => {
                let mut o = vec![];
                for i in 0..x.len() {
                    o.push(self.ite_v(c, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::S(e), _, _) => {
                let ea = self.ex(a)?;
                let eb = self.ex(b)?;
                let r = self.ar.ite(*e, ea, eb);
                Ok(self.nv(r))
            }
            _ => Err(Stop::Err("ite".into())),
        }
    }
    fn cast(&mut self, k: Cast, v: &V, ty: &Ty) -> X<V> {
        if k == Cast::Bit {
            let b = self.to_bits(v)?;
            return self.bits_to(&b, ty);
        }
        if let V::A(x) = v {
            let Ty::Vec(_, t) = ty else { return Err(Stop::Err("cast vec".into())) };
            let mut o = vec![];
            for p in x.iter() {
                o.push(self.cast(k, p, t)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let w = ty.bits();
        match v {
            V::I(iw, x) => Ok(match k {
                Cast::Zext => V::I(w, *x),
                Cast::Sext => V::I(w, (sx(*x, *iw) as u128) & mask(w)),
                _ => V::I(w, *x & mask(w)),
            }),
            V::S(e) => {
                if w > 128 {
                    return Err(Stop::Err("wide cast".into()));
                }
                let r = match k {
                    Cast::Zext => self.ar.zext(*e, w),
                    Cast::Sext => self.ar.sext(*e, w),
                    _ => self.ar.extract(*e, 0, w),
                };
                Ok(self.nv(r))
            }
            _ => unreachable!(),
        }
    }

    /// Load through a possibly symbolic pointer.
    fn do_load(&mut self, st: &mut State, ty: &Ty, p: &V) -> X<V> {
        let addr = match p {
            V::I(_, a) => *a as u64,
            V::S(e) => {
                // constant table: build an ITE over the table instead of forking
                let a0 = self.ar.eval(*e, &st.model) as u64;
                if a0 >> 56 == 1 {
                    if let Some(v) = self.table_load(st, ty, *e, a0)? {
                        return Ok(v);
                    }
                }
                self.conc(st, p)?
            }
            _ => return Err(Stop::Err("load ptr".into())),
        };
        let size = ty.store_size();
        if size == 0 {
            return Ok(V::A(Rc::new(vec![])));
        }
        let (l, off) = self.resolve(st, addr, size, false)?;
        let o = self.obj(st, &l)?;
        self.load_ty(st, &o, off, ty)
    }
    fn table_load(&mut self, st: &State, ty: &Ty, e: E, a0: u64) -> X<Option<V>> {
        let w = ty.bits();
        if w == 0 || w > 64 || !matches!(ty, Ty::Int(_) | Ty::Ptr) {
            return Ok(None);
        }
        let gs = &self.m.globals;
        let i = gs.partition_point(|g| g.addr <= a0);
        if i == 0 {
            return Ok(None);
        }
        let (base, size, cst) = {
            let g = &gs[i - 1];
            (g.addr, g.size, g.constant)
        };
        let acc = ty.store_size();
        if !cst || size > 8192 || a0 + acc > base + size {
            return Ok(None);
        }
        // entirely inside?
        let cb = self.ar.cst(64, base as u128);
        let off = self.ar.bin(Op::Sub, e, cb);
        let lim = self.ar.cst(64, (size - acc) as u128);
        let oob = self.ar.bin(Op::Ult, lim, off);
        match self.sv.check(&mut self.ar, &st.pc, oob, &st.model) {
            Res::Unsat => {}
            Res::Sat(_) => return Ok(None),
            Res::Unknown => return Err(self.unknown()),
        }
        // stride from known zero low bits of the offset
        let mut stride = 1u64;
        {
            let mut k = 1;
            while k <= 4 {
                let lowb = self.ar.extract(off, 0, k);
                if self.ar.as_const(lowb) == Some(0) {
                    stride = 1 << k;
                    k += 1;
                } else {
                    break;
                }
            }
        }
        let o = self.global_obj(st, i as u32 - 1)?;
        let mut runs: Vec<(u64, u128)> = vec![];
        let mut k = 0;
        while k + acc <= size {
            let mut x = 0u128;
            for j in (0..acc as usize).rev() {
                x = (x << 8) | o.data[k as usize + j] as u128;
            }
            let x = x & mask(w);
            if runs.last().map(|r| r.1 != x).unwrap_or(true) {
                runs.push((k, x));
            }
            k += stride;
        }
        if runs.len() > 600 {
            return Ok(None);
        }
        let mut r = self.ar.cst(w, runs.last().unwrap().1);
        for j in (0..runs.len() - 1).rev() {
            let lim = self.ar.cst(64, runs[j + 1].0 as u128);
            let c = self.ar.bin(Op::Ult, off, lim);
            let v = self.ar.cst(w, runs[j].1);
            r = self.ar.ite(c, v, r);
        }
        Ok(Some(self.nv(r)))
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let (f, from) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk)
        };
        let b = &f.blocks[to as usize];
        let mut vals = Vec::with_capacity(b.phis.len());
        for (d, ins) in &b.phis {
            let o = ins
                .iter()
                .find(|(_, l)| *l == from)
                .ok_or_else(|| Stop::Err(format!("phi without edge in {}", f.name)))?;
            vals.push((*d, self.opd(st, &o.0)));
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = to;
        fr.pc = 0;
        Ok(())
    }
    fn advance(&mut self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.to_string()).collect()
    }
    fn record_viol(&mut self, st: &State, kind: &str, id: u64) {
        let key = (kind.split(" addr=").next().unwrap().to_string(), id);
        let c = self.viol_counts.entry(key).or_insert(0);
        *c += 1;
        if *c <= 3 {
            let stack = self.stack_names(st);
            self.viols.push(Violation {
                kind: kind.to_string(),
                id,
                input: st.model[..st.nvars as usize].to_vec(),
                stack,
            });
        }
    }
    fn end_path(&mut self, st: &State) {
        self.paths += 1;
        self.longest = self.longest.max(st.insts);
        if st.nvars > self.nvars_max {
            self.nvars_max = st.nvars;
        }
        // reservoir-free deterministic thinning: keep every path until the cap, then every k-th
        let keep = if self.samples.len() < self.sample_cap {
            true
        } else {
            false
        };
        let thin = self.paths.next_power_of_two() / (self.sample_cap as u64).max(1);
        if keep && (thin <= 1 || self.paths % thin.max(1) == 0) {
            let mut h: u64 = 0xcbf29ce484222325;
            let obs = st.obs.clone();
            for v in obs.iter() {
                let x = match v {
                    V::I(_, k) => *k as u64,
                    V::S(e) => self.ar.eval(*e, &st.model) as u64,
                    _ => 0,
                };
                for b in x.to_le_bytes() {
                    h ^= b as u64;
                    h = h.wrapping_mul(0x100000001b3);
                }
            }
            self.samples.push((st.model[..st.nvars as usize].to_vec(), h));
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<bool> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_base);
        if st.frames.is_empty() {
            return Ok(true);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(st, d, v);
        }
        match fr.normal {
            Some(l) => self.jump(st, l)?,
            None => self.advance(st),
        }
        Ok(false)
    }

    fn step(&mut self, st: &mut State) -> X<bool> {
        // returns Ok(true) when the path finished
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.pc];
        self.insts += 1;
        st.insts += 1;
        match inst {
            Inst::Bin(op, d, a, b) => {
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    BinOp::Mul => Op::Mul,
                    BinOp::UDiv => Op::UDiv,
                    BinOp::SDiv => Op::SDiv,
                    BinOp::URem => Op::URem,
                    BinOp::SRem => Op::SRem,
                    BinOp::And => Op::And,
                    BinOp::Or => Op::Or,
                    BinOp::Xor => Op::Xor,
                    BinOp::Shl => Op::Shl,
                    BinOp::LShr => Op::LShr,
                    BinOp::AShr => Op::AShr,
                };
                let r = self.bin_v(o, &a, &b)?;
                self.set(st, *d, r);
            }
            Inst::ICmp(p, d, a, b) => {
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let r = self.icmp(*p, &a, &b)?;
                self.set(st, *d, r);
            }
            Inst::Cast(k, d, a, ty) => {
                let a = self.opd(st, a);
                let r = self.cast(*k, &a, ty)?;
                self.set(st, *d, r);
            }
            Inst::Select(d, c, a, b) => {
                let c = self.opd(st, c);
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let r = self.ite_v(&c, &a, &b)?;
                self.set(st, *d, r);
            }
            Inst::Copy(d, a) => {
                let a = self.opd(st, a);
                self.set(st, *d, a);
            }
            Inst::Load(d, ty, p) => {
                let p = self.opd(st, p);
                let v = self.do_load(st, ty, &p)?;
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let p = self.opd(st, p);
                let v = self.opd(st, v);
                let addr = self.conc(st, &p)?;
                let size = ty.store_size();
                if size > 0 {
                    let (l, off) = self.resolve(st, addr, size, true)?;
                    self.store_ty(st, &l, off, ty, &v)?;
                }
            }
            Inst::Gep(d, b, off, dy) => {
                let mut v = self.opd(st, b);
                if *off != 0 {
                    v = self.bin_s(Op::Add, &v, &i64v(*off as u64))?;
                }
                for (o, scale) in dy {
                    let x = self.opd(st, o);
                    let x = if self.width(&x) < 64 { self.cast(Cast::Sext, &x, &Ty::Int(64))? } else { x };
                    let x = if *scale == 1 { x } else { self.bin_s(Op::Mul, &x, &i64v(*scale))? };
                    v = self.bin_s(Op::Add, &v, &x)?;
                }
                self.set(st, *d, v);
            }
            Inst::Alloca(d, size, n) => {
                let n = self.opd(st, n);
                let n = self.conc(st, &n)?;
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj {
                    data: vec![0; (size * n) as usize],
                    sym: None,
                    ro: false,
                }));
                self.set(st, *d, i64v(STACK + (id << OFFB)));
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.opd(st, a);
                for i in ix {
                    let V::A(x) = &v else { return Err(Stop::Err("extractvalue".into())) };
                    v = x[*i as usize].clone();
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, a, x, ix) => {
                let a = self.opd(st, a);
                let x = self.opd(st, x);
                fn ins(a: &V, x: &V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return x.clone();
                    }
                    let V::A(v) = a else { panic!("insertvalue") };
                    let mut n = (**v).clone();
                    n[ix[0] as usize] = ins(&v[ix[0] as usize], x, &ix[1..]);
                    V::A(Rc::new(n))
                }
                let r = ins(&a, &x, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractElem(d, a, k) => {
                let a = self.opd(st, a);
                let k = self.opd(st, k);
                let k = self.conc(st, &k)?;
                let V::A(x) = &a else { return Err(Stop::Err("extractelement".into())) };
                let r = x[k as usize].clone();
                self.set(st, *d, r);
            }
            Inst::InsertElem(d, a, v, k) => {
                let a = self.opd(st, a);
                let v = self.opd(st, v);
                let k = self.opd(st, k);
                let k = self.conc(st, &k)?;
                let V::A(x) = &a else { return Err(Stop::Err("insertelement".into())) };
                let mut n = (**x).clone();
                n[k as usize] = v;
                self.set(st, *d, V::A(Rc::new(n)));
            }
            Inst::Shuffle(d, a, b, m) => {
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let (V::A(x), V::A(y)) = (&a, &b) else { return Err(Stop::Err("shuffle".into())) };
                let mut o = vec![];
                for k in m {
                    let k = k.unwrap_or(0) as usize;
                    o.push(if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() });
                }
                self.set(st, *d, V::A(Rc::new(o)));
            }
            Inst::AtomicRmw(d, op, p, v, ty) => {
                let p = self.opd(st, p);
                let v = self.opd(st, v);
                let addr = self.conc(st, &p)?;
                let old = self.do_load(st, ty, &i64v(addr))?;
                let new = match &**op {
                    "add" => self.bin_s(Op::Add, &old, &v)?,
                    "sub" => self.bin_s(Op::Sub, &old, &v)?,
                    "and" => self.bin_s(Op::And, &old, &v)?,
                    "or" => self.bin_s(Op::Or, &old, &v)?,
                    "xor" => self.bin_s(Op::Xor, &old, &v)?,
                    "xchg" => v.clone(),
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                let (l, off) = self.resolve(st, addr, ty.store_size(), true)?;
                self.store_ty(st, &l, off, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, p, a, b, ty) => {
                let p = self.opd(st, p);
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let addr = self.conc(st, &p)?;
                let old = self.do_load(st, ty, &i64v(addr))?;
                let c = self.bin_s(Op::Eq, &old, &a)?;
                let new = self.ite_v(&c, &b, &old)?;
                let (l, off) = self.resolve(st, addr, ty.store_size(), true)?;
                self.store_ty(st, &l, off, ty, &new)?;
                self.set(st, *d, V::A(Rc::new(vec![old, c])));
            }
            Inst::Nop => {}
            Inst::Br(l) => {
                self.jump(st, *l)?;
                return Ok(false);
            }
            Inst::CondBr(c, a, b) => {
                let c = self.opd(st, c);
                match c {
                    V::I(_, k) => self.jump(st, if k != 0 { *a } else { *b })?,
                    V::S(e) => {
                        let (mv, other) = self.split(st, e)?;
                        let ne = self.ar.not(e);
                        if let Some(asg) = other {
                            let mut o = st.clone();
                            Self::apply_model(&mut o, &asg);
                            self.add_pc(&mut o, if mv { ne } else { e });
                            o.depth_forks += 1;
                            self.jump(&mut o, if mv { *b } else { *a })?;
                            self.work.push_back(o);
                            self.forks += 1;
                            self.add_pc(st, if mv { e } else { ne });
                            self.jump(st, if mv { *a } else { *b })?;
                            return Err(Stop::Fork);
                        }
                        self.jump(st, if mv { *a } else { *b })?;
                    }
                    _ => return Err(Stop::Err("br on agg".into())),
                }
                return Ok(false);
            }
            Inst::Switch(v, dflt, cases) => {
                let v = self.opd(st, v);
                match v {
                    V::I(_, k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*dflt);
                        self.jump(st, t)?;
                    }
                    V::S(e) => {
                        let w = self.ar.w(e);
                        let mut by: Vec<(u32, E)> = vec![];
                        let mut dcond = self.ar.cst(1, 1);
                        for (k, t) in cases {
                            let c = self.ar.cst(w, *k);
                            let eq = self.ar.eq(e, c);
                            let ne = self.ar.not(eq);
                            dcond = self.ar.bin(Op::And, dcond, ne);
                            if *t == *dflt {
                                // handled below: target = default
                            }
                            match by.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = self.ar.bin(Op::Or, x.1, eq),
                                None => by.push((*t, eq)),
                            }
                        }
                        match by.iter_mut().find(|x| x.0 == *dflt) {
                            Some(x) => x.1 = self.ar.bin(Op::Or, x.1, dcond),
                            None => by.push((*dflt, dcond)),
                        }
                        let k0 = self.ar.eval(e, &st.model);
                        let t0 = cases.iter().find(|(c, _)| *c == k0).map(|x| x.1).unwrap_or(*dflt);
                        let mut forked = false;
                        for (t, c) in &by {
                            if *t == t0 {
                                continue;
                            }
                            match self.sv.check(&mut self.ar, &st.pc, *c, &st.model) {
                                Res::Sat(a) => {
                                    let mut o = st.clone();
                                    Self::apply_model(&mut o, &a);
                                    self.add_pc(&mut o, *c);
                                    o.depth_forks += 1;
                                    self.jump(&mut o, *t)?;
                                    self.work.push_back(o);
                                    self.forks += 1;
                                    forked = true;
                                }
                                Res::Unsat => {}
                                Res::Unknown => return Err(self.unknown()),
                            }
                        }
                        if forked {
                            let c0 = by.iter().find(|x| x.0 == t0).unwrap().1;
                            self.add_pc(st, c0);
                        }
                        self.jump(st, t0)?;
                        if forked {
                            return Err(Stop::Fork);
                        }
                    }
                    _ => return Err(Stop::Err("switch on agg".into())),
                }
                return Ok(false);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|v| self.opd(st, v));
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(Stop::Viol("unreachable code executed".into(), 0)),
            Inst::Fp(op, d, ops, w, ty) => {
                let mut x = vec![];
                for o in ops {
                    match self.opd(st, o) {
                        V::I(_, v) => x.push(v),
                        _ => return Err(Stop::Err(format!("floating point on a symbolic value in {}", f.name))),
                    }
                }
                let r = fp_op(op, &x, *w, ty).ok_or_else(|| Stop::Err(format!("unsupported {} in {}", op, f.name)))?;
                self.set(st, *d, V::I(ty.bits(), r));
            }
            Inst::Unsupported(w) => return Err(Stop::Err(format!("unsupported {} in {}", w, f.name))),
            Inst::Call(d, callee, args, rt, normal) => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.opd(st, a));
                }
                let fid = match callee {
                    Callee::Intr(n) => {
                        let r = self.intrinsic(st, n, &av, rt)?;
                        if let (Some(d), Some(r)) = (d, r) {
                            self.set(st, *d, r);
                        }
                        match normal {
                            Some(l) => self.jump(st, *l)?,
                            None => self.advance(st),
                        }
                        return Ok(false);
                    }
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.opd(st, o);
                        let a = self.conc(st, &p)?;
                        if a >> 56 != 4 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                            return Err(Stop::Viol(format!("indirect call to {:#x}", a), 0));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let nat = self.nat[fid as usize];
                if nat != Nat::None {
                    let r = self.native(st, nat, &av)?;
                    if let (Some(d), Some(r)) = (d, r) {
                        self.set(st, *d, r);
                    }
                    match normal {
                        Some(l) => self.jump(st, *l)?,
                        None => self.advance(st),
                    }
                    return Ok(false);
                }
                if self.m.fns[fid as usize].body.is_none() {
                    return Err(Stop::Err(format!("call to external {}", self.m.fns[fid as usize].name)));
                }
                let g = self.func(fid)?;
                self.used.insert(fid);
                self.cur_calls += 1;
                if st.frames.len() > self.max_depth {
                    return Err(Stop::Viol("call depth limit exceeded (unbounded recursion)".into(), 0));
                }
                let mut regs = vec![V::I(1, 0); g.nregs];
                if av.len() < g.nargs {
                    return Err(Stop::Err("arity".into()));
                }
                for (i, a) in av.into_iter().enumerate().take(g.nargs) {
                    regs[i] = a;
                }
                st.frames.push(Rc::new(Frame {
                    f: g,
                    blk: 0,
                    pc: 0,
                    regs,
                    stack_base: st.stack.len(),
                    dst: *d,
                    normal: *normal,
                }));
                return Ok(false);
            }
        }
        self.advance(st);
        Ok(false)
    }

    fn lift2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &V, &V) -> X<V>) -> X<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(f(self, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, a, b)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], _rt: &Ty) -> X<Option<V>> {
        if n == "asm.empty" {
            return Ok(None);
        }
        if n == "asm.unsupported" {
            return Err(Stop::Err("inline asm".into()));
        }
        let n = &n[5..];
        if let Some((fun, "f64")) = n.rsplit_once('.') {
            let g = |i: usize| match a.get(i) {
                Some(V::I(_, v)) => Some(f64::from_bits(*v as u64)),
                _ => None,
            };
            let r = match (fun, g(0), g(1)) {
                ("log2", Some(x), _) => Some(x.log2()),
                ("ceil", Some(x), _) => Some(x.ceil()),
                ("floor", Some(x), _) => Some(x.floor()),
                ("trunc", Some(x), _) => Some(x.trunc()),
                ("fabs", Some(x), _) => Some(x.abs()),
                ("sqrt", Some(x), _) => Some(x.sqrt()),
                ("log", Some(x), _) => Some(x.ln()),
                ("maxnum", Some(x), Some(y)) => Some(x.max(y)),
                ("minnum", Some(x), Some(y)) => Some(x.min(y)),
                _ => None,
            };
            return match r {
                Some(r) => Ok(Some(V::I(64, r.to_bits() as u128))),
                None => Err(Stop::Err(format!("intrinsic {}", n))),
            };
        }
        if let (true, Some(V::I(_, v))) = (n.starts_with("fpto") && n.ends_with("f64"), a.first()) {
            let x = f64::from_bits(*v as u64);
            let w = _rt.bits();
            let r = if n.starts_with("fptoui.sat") { (x as u128).min(crate::expr::mask(w)) } else if w == 64 { (x as i64) as u64 as u128 } else { return Err(Stop::Err(format!("intrinsic {}", n))) };
            return Ok(Some(V::I(w, r)));
        }
        let is = |p: &str| n.starts_with(p);
        if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("donothing") || is("invariant") || is("prefetch") || is("var.annotation") || is("x86.sse2.pause") {
            return Ok(None);
        }
        if is("memcpy") || is("memmove") {
            let d = self.conc(st, &a[0])?;
            let s = self.conc(st, &a[1])?;
            let l = self.conc(st, &a[2])?;
            self.copy_mem(st, d, s, l)?;
            return Ok(None);
        }
        if is("memset") {
            let d = self.conc(st, &a[0])?;
            let l = self.conc(st, &a[2])?;
            self.memset(st, d, &a[1].clone(), l)?;
            return Ok(None);
        }
        if is("trap") || is("debugtrap") || is("ubsantrap") {
            return self.panic_path(st, "abort");
        }
        if is("expect") || is("threadlocal.address") || is("launder") || is("strip") || is("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if is("is.constant") {
            return Ok(Some(V::I(1, 0)));
        }
        if is("ptrmask") {
            return Ok(Some(self.bin_s(Op::And, &a[0], &a[1])?));
        }
        if is("umax") || is("umin") || is("smax") || is("smin") {
            let op = if is("u") { Op::Ult } else { Op::Slt };
            let mx = &n[1..4] == "max";
            return Ok(Some(self.lift2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.bin_s(op, x, y)?;
                if mx {
                    s.ite_v(&c, y, x)
                } else {
                    s.ite_v(&c, x, y)
                }
            })?));
        }
        if is("abs") {
            let w = self.width(&a[0]);
            let z = V::I(w, 0);
            let c = self.bin_s(Op::Slt, &a[0], &z)?;
            let ng = self.bin_s(Op::Sub, &z, &a[0])?;
            return Ok(Some(self.ite_v(&c, &ng, &a[0])?));
        }
        if is("usub.sat") {
            return Ok(Some(self.lift2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.bin_s(Op::Ult, x, y)?;
                let d = s.bin_s(Op::Sub, x, y)?;
                let z = V::I(s.width(x), 0);
                s.ite_v(&c, &z, &d)
            })?));
        }
        if is("uadd.sat") {
            return Ok(Some(self.lift2(&a[0], &a[1], &mut |s, x, y| {
                let d = s.bin_s(Op::Add, x, y)?;
                let c = s.bin_s(Op::Ult, &d, x)?;
                let w = s.width(x);
                let z = V::I(w, mask(w));
                s.ite_v(&c, &z, &d)
            })?));
        }
        if is("x86.addcarry.64") || is("x86.subborrow.64") {
            // (carry in, a, b) -> (carry out, result); any non-zero carry in counts as 1
            let z8 = V::I(8, 0);
            let nz = self.bin_s(Op::Ult, &z8, &a[0])?;
            let (one, zero) = (V::I(64, 1), V::I(64, 0));
            let cin = self.ite_v(&nz, &one, &zero)?;
            let (op, sub) = if is("x86.sub") { (Op::Sub, true) } else { (Op::Add, false) };
            let r1 = self.bin_s(op, &a[1], &a[2])?;
            let r2 = self.bin_s(op, &r1, &cin)?;
            let (c1, c2) = if sub {
                (self.bin_s(Op::Ult, &a[1], &a[2])?, self.bin_s(Op::Ult, &r1, &cin)?)
            } else {
                (self.bin_s(Op::Ult, &r1, &a[1])?, self.bin_s(Op::Ult, &r2, &r1)?)
            };
            let c = self.bin_s(Op::Or, &c1, &c2)?;
            let (o, z) = (V::I(8, 1), V::I(8, 0));
            let c = self.ite_v(&c, &o, &z)?;
            return Ok(Some(V::A(Rc::new(vec![c, r2]))));
        }
        if is("uadd.with.overflow") {
            let r = self.bin_s(Op::Add, &a[0], &a[1])?;
            let c = self.bin_s(Op::Ult, &r, &a[0])?;
            return Ok(Some(V::A(Rc::new(vec![r, c]))));
        }
        if is("usub.with.overflow") {
            let r = self.bin_s(Op::Sub, &a[0], &a[1])?;
            let c = self.bin_s(Op::Ult, &a[0], &a[1])?;
            return Ok(Some(V::A(Rc::new(vec![r, c]))));
        }
        if is("umul.with.overflow") || is("smul.with.overflow") || is("sadd.with.overflow") || is("ssub.with.overflow") {
            let w = self.width(&a[0]);
            let op = match &n[1..4] {
                "mul" => Op::Mul,
                "add" => Op::Add,
                _ => Op::Sub,
            };
            let r = self.bin_s(op, &a[0], &a[1])?;
            if is("umul") {
                let m: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                // constant factor c: overflow iff x > MAX / c
                let k = match (&a[0], &a[1]) {
                    (V::I(_, c), x) | (x, V::I(_, c)) if *c != 0 => Some((*c, x.clone())),
                    _ => None,
                };
                if let Some((c, x)) = k {
                    let lim = V::I(w, m / c);
                    let o = self.bin_s(Op::Ult, &lim, &x)?;
                    return Ok(Some(V::A(Rc::new(vec![r, o]))));
                }
                let ex = self.ex(&a[0])?;
                let ey = self.ex(&a[1])?;
                let (ux, uy) = (self.ar.ub(ex, 8), self.ar.ub(ey, 8));
                if ux.checked_mul(uy).map_or(false, |p| p <= m) {
                    return Ok(Some(V::A(Rc::new(vec![r, V::I(1, 0)]))));
                }
            }
            let ww = if op == Op::Mul { 2 * w } else { w + 1 };
            if ww > 128 {
                return Err(Stop::Err("wide overflow op".into()));
            }
            let k = if is("u") { Cast::Zext } else { Cast::Sext };
            let t = Ty::Int(ww);
            let x = self.cast(k, &a[0], &t)?;
            let y = self.cast(k, &a[1], &t)?;
            let wide = self.bin_s(op, &x, &y)?;
            let back = self.cast(k, &r, &t)?;
            let e = self.bin_s(Op::Eq, &wide, &back)?;
            let c = self.not_v(&e)?;
            return Ok(Some(V::A(Rc::new(vec![r, c]))));
        }
        if is("bswap") {
            let w = self.width(&a[0]);
            let e = self.ex(&a[0])?;
            let mut r: Option<E> = None;
            for i in 0..w / 8 {
                let b = self.ar.extract(e, i * 8, 8);
                r = Some(match r {
                    None => b,
                    Some(h) => self.ar.concat(h, b),
                });
            }
            return Ok(Some(self.nv(r.unwrap())));
        }
        if is("bitreverse") {
            let w = self.width(&a[0]);
            let e = self.ex(&a[0])?;
            let mut r: Option<E> = None;
            for i in 0..w {
                let b = self.ar.extract(e, i, 1);
                r = Some(match r {
                    None => b,
                    Some(h) => self.ar.concat(h, b),
                });
            }
            return Ok(Some(self.nv(r.unwrap())));
        }
        if is("ctpop") {
            let w = self.width(&a[0]);
            if let V::I(_, x) = &a[0] {
                return Ok(Some(V::I(w, x.count_ones() as u128)));
            }
            let e = self.ex(&a[0])?;
            let mut s = self.ar.cst(w, 0);
            for i in 0..w {
                let b = self.ar.extract(e, i, 1);
                let b = self.ar.zext(b, w);
                s = self.ar.bin(Op::Add, s, b);
            }
            return Ok(Some(self.nv(s)));
        }
        if is("ctlz") || is("cttz") {
            let w = self.width(&a[0]);
            if let V::I(_, x) = &a[0] {
                let r = if *x == 0 {
                    w as u32
                } else if is("ctlz") {
                    x.leading_zeros() - (128 - w as u32)
                } else {
                    x.trailing_zeros()
                };
                return Ok(Some(V::I(w, r as u128)));
            }
            let e = self.ex(&a[0])?;
            let mut r = self.ar.cst(w, w as u128);
            for i in 0..w {
                let bit = if is("ctlz") { i } else { w - 1 - i };
                let b = self.ar.extract(e, bit, 1);
                let k = if is("ctlz") { w - 1 - bit } else { bit };
                let kv = self.ar.cst(w, k as u128);
                r = self.ar.ite(b, kv, r);
            }
            return Ok(Some(self.nv(r)));
        }
        if is("fshl") || is("fshr") {
            let w = self.width(&a[0]);
            if let V::I(_, s) = &a[2] {
                let s = (*s % w as u128) as u16;
                if s == 0 {
                    return Ok(Some(if is("fshl") { a[0].clone() } else { a[1].clone() }));
                }
                let sh = if is("fshl") { s } else { w - s };
                let hi = self.bin_s(Op::Shl, &a[0], &V::I(w, sh as u128))?;
                let lo = self.bin_s(Op::LShr, &a[1], &V::I(w, (w - sh) as u128))?;
                return Ok(Some(self.bin_s(Op::Or, &hi, &lo)?));
            }
            let s = self.conc(st, &a[2])?;
            let mut v = a.to_vec();
            v[2] = V::I(w, s as u128);
            let nm = format!("llvm.{}", n);
            return self.intrinsic(st, &nm, &v, _rt);
        }
        if is("ucmp") || is("scmp") {
            let op = if is("u") { Op::Ult } else { Op::Slt };
            let rw = _rt.bits();
            let lt = self.bin_s(op, &a[0], &a[1])?;
            let gt = self.bin_s(op, &a[1], &a[0])?;
            let one = V::I(rw, 1);
            let z = V::I(rw, 0);
            let m1 = V::I(rw, mask(rw));
            let x = self.ite_v(&gt, &one, &z)?;
            return Ok(Some(self.ite_v(&lt, &m1, &x)?));
        }
        if is("load.relative") {
            let off = self.conc(st, &a[1])?;
            let base = self.conc(st, &a[0])?;
            let v = self.do_load(st, &Ty::Int(32), &i64v(base.wrapping_add(off)))?;
            let v = self.cast(Cast::Sext, &v, &Ty::Int(64))?;
            return Ok(Some(self.bin_s(Op::Add, &i64v(base), &v)?));
        }
        if is("vector.reduce.") {
            let V::A(x) = &a[0] else { return Err(Stop::Err("reduce".into())) };
            let op = n.split('.').nth(2).unwrap_or("");
            let mut r = x[0].clone();
            for y in x.iter().skip(1) {
                r = match op {
                    "or" => self.bin_s(Op::Or, &r, y)?,
                    "and" => self.bin_s(Op::And, &r, y)?,
                    "xor" => self.bin_s(Op::Xor, &r, y)?,
                    "add" => self.bin_s(Op::Add, &r, y)?,
                    "mul" => self.bin_s(Op::Mul, &r, y)?,
                    _ => return Err(Stop::Err(format!("reduce {}", op))),
                };
            }
            return Ok(Some(r));
        }
        Err(Stop::Err(format!("intrinsic llvm.{}", n)))
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &V, l: u64) -> X<()> {
        if l == 0 {
            return Ok(());
        }
        let (loc, off) = self.resolve(st, d, l, true)?;
        for i in 0..l as usize {
            self.store_bits(st, &loc, off + i, v)?;
        }
        Ok(())
    }

    fn panic_path(&mut self, st: &mut State, what: &str) -> X<Option<V>> {
        if st.allow_panic {
            self.panics_allowed += 1;
            return Err(Stop::End);
        }
        Err(Stop::Viol(format!("panic: {}", what), 0))
    }

    fn native(&mut self, st: &mut State, nat: Nat, a: &[V]) -> X<Option<V>> {
        Ok(match nat {
            Nat::None => None,
            Nat::Malloc => {
                let n = self.conc(st, &a[0])?;
                Some(i64v(self.alloc_heap(st, n, 0)?))
            }
            Nat::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                Some(i64v(self.alloc_heap(st, n * m, 0)?))
            }
            Nat::Memalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let q = self.alloc_heap(st, n, 0)?;
                let (l, off) = self.resolve(st, p, 8, true)?;
                self.store_bits(st, &l, off, &i64v(q))?;
                Some(V::I(32, 0))
            }
            Nat::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let q = self.alloc_heap(st, n, 0)?;
                if p != 0 {
                    let id = ((p & 0x00ff_ffff_ffff_ffff) >> OFFB) as usize;
                    let len = match st.heap.get(id) {
                        Some(Some(o)) if p >> 56 == 2 && p & OFFM == 0 => o.data.len() as u64,
                        _ => return Err(Stop::Viol("memory: invalid realloc".into(), 0)),
                    };
                    self.copy_mem(st, q, p, len.min(n))?;
                    self.free(st, p)?;
                }
                Some(i64v(q))
            }
            Nat::Free => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
                None
            }
            Nat::Memcpy | Nat::Memmove => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let l = self.conc(st, &a[2])?;
                self.copy_mem(st, d, s, l)?;
                Some(i64v(d))
            }
            Nat::Memset => {
                let d = self.conc(st, &a[0])?;
                let l = self.conc(st, &a[2])?;
                let b = self.cast(Cast::Trunc, &a[1], &Ty::Int(8))?;
                self.memset(st, d, &b, l)?;
                Some(i64v(d))
            }
            Nat::Memcmp | Nat::Bcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let l = self.conc(st, &a[2])?;
                if l == 0 {
                    return Ok(Some(V::I(32, 0)));
                }
                let (lp, op) = self.resolve(st, p, l, false)?;
                let (lq, oq) = self.resolve(st, q, l, false)?;
                let o1 = self.obj(st, &lp)?;
                let o2 = self.obj(st, &lq)?;
                let mut r = V::I(32, 0);
                for i in (0..l as usize).rev() {
                    let x = self.load_bits(st, &o1, op + i, 8);
                    let y = self.load_bits(st, &o2, oq + i, 8);
                    let eq = self.bin_s(Op::Eq, &x, &y)?;
                    let diff = if nat == Nat::Bcmp {
                        V::I(32, 1)
                    } else {
                        let xx = self.cast(Cast::Zext, &x, &Ty::Int(32))?;
                        let yy = self.cast(Cast::Zext, &y, &Ty::Int(32))?;
                        self.bin_s(Op::Sub, &xx, &yy)?
                    };
                    r = self.ite_v(&eq, &r, &diff)?;
                }
                Some(r)
            }
            Nat::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0u64;
                loop {
                    let v = self.do_load(st, &Ty::Int(8), &i64v(p + n))?;
                    let k = self.conc(st, &v)?;
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(i64v(n))
            }
            Nat::Abort => return self.panic_path(st, "abort"),
            Nat::Panic => return self.panic_path(st, "rust panic"),
            Nat::SymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n > 0 {
                    let (l, off) = self.resolve(st, p, n, true)?;
                    for i in 0..n as usize {
                        let e = self.ar.var(st.nvars);
                        st.nvars += 1;
                        while st.model.len() < st.nvars as usize {
                            st.model.push(0);
                        }
                        self.store_bits(st, &l, off + i, &V::S(e))?;
                    }
                }
                None
            }
            Nat::SymParam => {
                let i = self.conc(st, &a[0])?;
                let v = self.params.get(i as usize).copied().unwrap_or(u64::MAX);
                Some(i64v(v))
            }
            Nat::SymAssume => {
                let w = self.width(&a[0]);
                let z = V::I(w, 0);
                let e = self.bin_s(Op::Eq, &a[0], &z)?;
                let c = self.not_v(&e)?;
                match c {
                    V::I(_, 0) => {
                        self.killed += 1;
                        return Err(Stop::End);
                    }
                    V::I(_, _) => {}
                    V::S(e) => {
                        if self.ar.eval(e, &st.model) != 0 {
                            self.add_pc(st, e);
                        } else {
                            match self.sv.check(&mut self.ar, &st.pc, e, &st.model) {
                                Res::Sat(m) => {
                                    Self::apply_model(st, &m);
                                    self.add_pc(st, e);
                                }
                                Res::Unsat => {
                                    self.killed += 1;
                                    return Err(Stop::End);
                                }
                                Res::Unknown => return Err(self.unknown()),
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                None
            }
            Nat::SymAssert => {
                let w = self.width(&a[0]);
                let z = V::I(w, 0);
                let e = self.bin_s(Op::Eq, &a[0], &z)?;
                let c = self.not_v(&e)?;
                let id = self.conc(st, &a[1])?;
                self.asserts += 1;
                match c {
                    V::I(_, 0) => {
                        self.record_viol(st, "assert", id);
                        return Err(Stop::End);
                    }
                    V::I(_, _) => {}
                    V::S(e) => {
                        self.assert_queries += 1;
                        let ne = self.ar.not(e);
                        match self.sv.check_opt(&mut self.ar, &st.pc, ne, &st.model, false) {
                            Res::Unsat => {}
                            Res::Sat(m) => {
                                let mut o = st.clone();
                                Self::apply_model(&mut o, &m);
                                self.record_viol(&o, "assert", id);
                                // continue on the side where it holds
                                if self.ar.eval(e, &st.model) != 0 {
                                    self.add_pc(st, e);
                                } else {
                                    match self.sv.check(&mut self.ar, &st.pc, e, &st.model) {
                                        Res::Sat(m) => {
                                            Self::apply_model(st, &m);
                                            self.add_pc(st, e);
                                        }
                                        _ => return Err(Stop::End),
                                    }
                                }
                            }
                            Res::Unknown => return Err(self.unknown()),
                        }
                    }
                    _ => unreachable!(),
                }
                None
            }
            Nat::SymReach => {
                let id = self.conc(st, &a[0])?;
                *self.reached.entry(id).or_insert(0) += 1;
                None
            }
            Nat::SymObserve => {
                Rc::make_mut(&mut st.obs).push(a[0].clone());
                None
            }
            Nat::SymAllowPanic => {
                let k = self.conc(st, &a[0])?;
                st.allow_panic = k & 0xff != 0;
                None
            }
        })
    }

    /// Run one state until it forks or ends.  Returns the state if it can continue.
    fn run_state(&mut self, mut st: State) -> Option<State> {
        loop {
            if self.insts & 0xffff == 0 && Instant::now() > self.deadline {
                self.timed_out = true;
                if st.insts > self.max_insts / 4 {
                    self.record_viol(&st, "nontermination", 0);
                }
                return None;
            }
            match self.step(&mut st) {
                Ok(false) => {}
                Ok(true) => {
                    self.end_path(&st);
                    return None;
                }
                Err(Stop::Fork) => return Some(st),
                Err(Stop::End) => return None,
                Err(Stop::Err(e)) => {
                    let stk = self.stack_names(&st);
                    let msg = format!("{} @ {}", e, stk.first().cloned().unwrap_or_default());
                    *self.errors.entry(msg).or_insert(0) += 1;
                    return None;
                }
                Err(Stop::Viol(k, id)) => {
                    self.record_viol(&st, &k, id);
                    return None;
                }
            }
            if st.insts > self.max_insts {
                // a candidate for an endless loop: decided by the native replay
                *self.errors.entry("path instruction limit".into()).or_insert(0) += 1;
                self.record_viol(&st, "nontermination", 0);
                self.timed_out = true;
                return None;
            }
        }
    }

    pub fn run(&mut self, entry: &str, shard: (usize, usize)) -> Result<(), String> {
        let id = *self.m.fn_by_name.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.m.parse_fn(id)?;
        self.used.insert(id);
        let f = Rc::new(f);
        let st = State {
            frames: vec![Rc::new(Frame {
                regs: vec![V::I(1, 0); f.nregs],
                f,
                blk: 0,
                pc: 0,
                stack_base: 0,
                dst: None,
                normal: None,
            })],
            heap: vec![],
            stack: vec![],
            gl: Rc::new(HashMap::new()),
            pc: vec![],
            model: vec![],
            nvars: 0,
            bound: [0; 4],
            obs: Rc::new(vec![]),
            allow_panic: false,
            insts: 0,
            depth_forks: 0,
        };
        self.work.push_back(st);
        let (si, sn) = shard;
        if sn > 1 {
            // breadth-first to a frontier, then keep this shard's part
            let target = sn * 24;
            let mut rounds = 0u64;
            while self.work.len() < target {
                rounds += 1;
                if rounds > 200000 {
                    break;
                }
                let Some(s) = self.work.pop_front() else { break };
                if let Some(s) = self.run_state(s) {
                    self.work.push_back(s);
                }
            }
            if si != 0 {
                // finished paths of the frontier phase are counted by shard 0 only
                self.paths = 0;
                self.killed = 0;
                self.asserts = 0;
                self.assert_queries = 0;
                self.panics_allowed = 0;
                self.insts = 0;
                self.forks = 0;
                self.samples.clear();
                self.sv.st = Stats::default();
            }
            let all: Vec<State> = self.work.drain(..).collect();
            for (i, s) in all.into_iter().enumerate() {
                if i % sn == si {
                    self.work.push_back(s);
                }
            }
        }
        while let Some(s) = self.work.pop_back() {
            let mut cur = Some(s);
            while let Some(s) = cur {
                cur = self.run_state(s);
            }
            if self.timed_out || self.viols.len() >= self.max_viols {
                break;
            }
        }
        Ok(())
    }
    pub fn pending(&self) -> usize {
        self.work.len()
    }
}

/// IEEE arithmetic on concrete bit patterns (binary64 only)
fn fp_op(op: &str, x: &[u128], w: u32, ty: &Ty) -> Option<u128> {
    let f = |i: usize| f64::from_bits(x[i] as u64);
    let sext = |v: u128, w: u32| ((v << (128 - w)) as i128) >> (128 - w);
    let to64 = matches!(ty, Ty::Float(64));
    Some(match op {
        "uitofp" if to64 => (x[0] as f64).to_bits() as u128,
        "sitofp" if to64 => (sext(x[0], w) as f64).to_bits() as u128,
        _ if w != 64 => return None,
        "fptoui" => f(0) as u128 & crate::expr::mask(ty.bits()),
        "fptosi" => f(0) as i128 as u128 & crate::expr::mask(ty.bits()),
        "fadd" => (f(0) + f(1)).to_bits() as u128,
        "fsub" => (f(0) - f(1)).to_bits() as u128,
        "fmul" => (f(0) * f(1)).to_bits() as u128,
        "fdiv" => (f(0) / f(1)).to_bits() as u128,
        "fneg" => (-f(0)).to_bits() as u128,
        _ => {
            let p = op.strip_prefix("fcmp ")?;
            let (a, b) = (f(0), f(1));
            let un = a.is_nan() || b.is_nan();
            (match p {
                "oeq" => a == b,
                "ogt" => a > b,
                "oge" => a >= b,
                "olt" => a < b,
                "ole" => a <= b,
                "one" => !un && a != b,
                "ord" => !un,
                "ueq" => un || a == b,
                "ugt" => un || a > b,
                "uge" => un || a >= b,
                "ult" => un || a < b,
                "ule" => un || a <= b,
                "une" => un || a != b,
                "uno" => un,
                _ => return None,
            }) as u128
        }
    })
}
