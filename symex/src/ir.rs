//! Parser for the textual LLVM IR that rustc emits (post-LTO), lazily per function.
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    Void,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((n * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + t.size();
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().min(16),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => (*n as u16) * t.bits(),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field_off");
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field_off on {:?}", self),
        }
    }
}

/// Runtime / constant value.  `S` = symbolic expression id.
#[derive(Clone, Debug)]
pub enum V {
    I(u16, u128),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intr(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, Opd, Opd),
    ICmp(Pred, u32, Opd, Opd),
    Cast(Cast, u32, Opd, Ty),
    Select(u32, Opd, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u64)>),
    Alloca(u32, u64, Opd),
    Call(Option<u32>, Callee, Vec<Opd>, Ty, Option<u32>), // last: normal dest for invoke
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<Option<u32>>),
    Copy(u32, Opd),
    AtomicRmw(u32, Rc<str>, Opd, Opd, Ty),
    CmpXchg(u32, Opd, Opd, Opd, Ty),
    /// floating point on concrete values: op, dst, operands, operand width, result type
    Fp(Rc<str>, u32, Vec<Opd>, u32, Ty),
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(Opd, u32)>)>, // dst, (val, pred block)
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize)>, // line range
    pub header: usize,
}
pub struct Global {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub ty: Ty,
    pub line: usize,
    pub external: bool,
}

pub const FN_BASE: u64 = 4 << 56;
pub const GL_BASE: u64 = 1 << 56;

pub struct Module {
    pub lines: Vec<String>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Glob(String),
    W(String),
    Num(String),
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    P(char),
    Meta,
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&b[st..j]).into_owned();
                    i = j + 1;
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                o.push(if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                // metadata reference: !name or !123 or !{...} / !DI...(...)
                i += 1;
                while i < b.len() && (is_id(b[i])) {
                    i += 1;
                }
                o.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                o.push(Tok::Meta);
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(Tok::Str(unesc(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(Tok::CStr(unesc(&b[st..j])));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') {
                    i += 1;
                }
                o.push(Tok::Num(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                o.push(Tok::W(s[st..i].to_string()));
            }
            b'.' => {
                while i < b.len() && b[i] == b'.' {
                    i += 1;
                }
                o.push(Tok::W("...".into()));
            }
            _ => {
                o.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    o
}

fn label_of(line: &str) -> Option<String> {
    // a label line starts in column 0
    let b = line.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b'}' || b[0] == b';' {
        return None;
    }
    if b[0] == b'"' {
        let j = line[1..].find('"')? + 1;
        if line[j + 1..].starts_with(':') {
            return Some(line[1..j].to_string());
        }
        return None;
    }
    let j = line.find(':')?;
    if line[..j].bytes().all(is_id) {
        Some(line[..j].to_string())
    } else {
        None
    }
}

pub struct Cur<'m> {
    t: Vec<Tok>,
    i: usize,
    m: &'m Module,
}

type R<T> = Result<T, String>;

impl<'m> Cur<'m> {
    pub fn new(m: &'m Module, s: &str) -> Self {
        Cur { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} at {} in {:?}", c, self.peek(), self.i, &self.t[self.i.saturating_sub(6)..self.t.len().min(self.i + 4)]))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_paren()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                "token" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {}", w)),
            },
            Tok::Local(n) => self.m.types.get(&n).cloned().ok_or(format!("named type {}", n))?,
            Tok::P('[') => {
                let n = self.num()?;
                self.w("x")?;
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('{') => {
                let v = self.ty_list('}')?;
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.ty_list('}')?;
                    self.exp('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num()?;
                    self.w("x")?;
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            t => return Err(format!("type tok {:?}", t)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn w(&mut self, w: &str) -> R<()> {
        if self.eat_w(w) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", w, self.peek()))
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(n) => n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("num {} {}", n, e)),
            t => Err(format!("num? {:?}", t)),
        }
    }
    fn value_start(t: &Tok) -> bool {
        match t {
            Tok::Local(_) | Tok::Glob(_) | Tok::Num(_) | Tok::CStr(_) => true,
            Tok::P(c) => matches!(c, '[' | '{' | '<'),
            Tok::W(w) => matches!(
                w.as_str(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "splat" | "add" | "sub" | "trunc" | "xor" | "blockaddress" | "asm" | "dso_local_equivalent" | "no_cfi"
            ),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if Self::value_start(&Tok::W(w.clone())) {
                        return Ok(());
                    }
                    let is_align = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_paren()?;
                    } else if is_align {
                        self.i += 1;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Int(w) => V::I(*w, 0),
            Ty::Ptr => V::I(64, 0),
            Ty::Float(w) => V::I(*w, 0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(Self::zero).collect())),
            _ => V::I(1, 0),
        }
    }
    fn const_val(&mut self, ty: &Ty) -> R<V> {
        match self.next()? {
            Tok::Num(n) => {
                if let Ty::Float(w) = ty {
                    let bits = if let Some(h) = n.strip_prefix("0x") {
                        let v = u64::from_str_radix(h.trim_start_matches(|c: char| c.is_ascii_uppercase() && !c.is_ascii_hexdigit()), 16).unwrap_or(0);
                        if *w == 32 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 }
                    } else {
                        let f: f64 = n.parse().unwrap_or(0.0);
                        if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
                    };
                    return Ok(V::I(*w, bits));
                }
                let w = ty.bits();
                let v = n
                    .parse::<i128>()
                    .map(|x| x as u128)
                    .or_else(|_| n.parse::<u128>())
                    .map_err(|_| format!("int {}", n))?;
                Ok(V::I(w, v & mask(w)))
            }
            Tok::Glob(g) => Ok(V::I(64, self.m.addr_of(&g)? as u128)),
            Tok::CStr(s) => Ok(V::A(Rc::new(s.iter().map(|&b| V::I(8, b as u128)).collect()))),
            Tok::P('[') | Tok::P('{') => self.const_agg(),
            Tok::P('<') => {
                let packed = self.eat_p('{');
                let r = self.const_agg()?;
                if packed {
                    self.exp('>')?;
                }
                Ok(r)
            }
            Tok::W(w) if w.starts_with("f0x") => {
                let v = u128::from_str_radix(&w[3..], 16).map_err(|_| format!("float {}", w))?;
                Ok(V::I(ty.bits(), v))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Ok(V::I(1, 1)),
                "false" => Ok(V::I(1, 0)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(Self::zero(ty)),
                "splat" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let v = self.const_val(&t)?;
                    self.exp(')')?;
                    if let Ty::Vec(n, _) = ty {
                        Ok(V::A(Rc::new((0..*n).map(|_| v.clone()).collect())))
                    } else {
                        Err("splat".into())
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        // skip flags such as inbounds, nuw, inrange(...)
                        if matches!(self.t.get(self.i - 1), Some(Tok::W(x)) if x == "inrange") {
                            self.skip_paren()?;
                        }
                    }
                    self.exp('(')?;
                    let st = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let base = self.const_val(&pt)?;
                    let mut off = 0i64;
                    let mut cur: Option<Ty> = None;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let iv = self.const_val(&it)?;
                        let V::I(iw, k) = iv else { return Err("gep const".into()) };
                        let k = crate::expr::sx(k, iw) as i64;
                        match &cur {
                            None => {
                                off += k * st.size() as i64;
                                cur = Some(st.clone());
                            }
                            Some(t) => {
                                let (o, t2) = match t {
                                    Ty::Struct(..) => t.field_off(k as usize),
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => ((k as u64).wrapping_mul(e.size()), (**e).clone()),
                                    _ => return Err("gep const ty".into()),
                                };
                                off = off.wrapping_add(o as i64);
                                cur = Some(t2);
                            }
                        }
                    }
                    self.exp(')')?;
                    let V::I(_, b) = base else { return Err("gep base".into()) };
                    Ok(V::I(64, ((b as u64).wrapping_add(off as u64)) as u128))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let v = self.const_val(&t)?;
                    self.w("to")?;
                    let t2 = self.ty()?;
                    self.exp(')')?;
                    let V::I(_, x) = v else { return Err("cast const".into()) };
                    Ok(V::I(t2.bits(), x & mask(t2.bits())))
                }
                "add" | "sub" | "xor" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    let a = self.const_val(&t)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.const_val(&t2)?;
                    self.exp(')')?;
                    let (V::I(wd, x), V::I(_, y)) = (a, b) else { return Err("bin const".into()) };
                    let r = match w.as_str() {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        _ => x ^ y,
                    };
                    Ok(V::I(wd, r & mask(wd)))
                }
                _ => Err(format!("const {}", w)),
            },
            t => Err(format!("const tok {:?}", t)),
        }
    }
    fn const_agg(&mut self) -> R<V> {
        let mut v = vec![];
        let closing = |c: &Cur| c.is_p(']') || c.is_p('}') || c.is_p('>');
        if closing(self) {
            self.i += 1;
            return Ok(V::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.const_val(&t)?);
            if closing(self) {
                self.i += 1;
                return Ok(V::A(Rc::new(v)));
            }
            self.exp(',')?;
        }
    }
}

pub struct FnBuilder<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'m> FnBuilder<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn val(&mut self, c: &mut Cur<'m>, ty: &Ty) -> R<Opd> {
        if let Some(Tok::Local(n)) = c.peek() {
            let n = n.clone();
            c.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::C(c.const_val(ty)?))
    }
    fn tyval(&mut self, c: &mut Cur<'m>) -> R<(Ty, Opd)> {
        let t = c.ty()?;
        c.skip_attrs()?;
        let v = self.val(c, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, c: &mut Cur<'m>) -> R<u32> {
        c.w("label")?;
        match c.next()? {
            Tok::Local(n) => self.labels.get(&n).copied().ok_or(format!("label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn inst(&mut self, s: &str) -> R<Result<Inst, (u32, Vec<(Opd, u32)>)>> {
        let mut c = Cur::new(self.m, s);
        let mut dst = None;
        if let Some(Tok::Local(n)) = c.peek() {
            let n = n.clone();
            if c.t.get(1) == Some(&Tok::P('=')) {
                c.i = 2;
                dst = Some(self.reg(&n));
            }
        }
        let opn = match c.next()? {
            Tok::W(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        let binop = match opn.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(b) = binop {
            while c.eat_w("nuw") || c.eat_w("nsw") || c.eat_w("exact") || c.eat_w("disjoint") {}
            let (t, a) = self.tyval(&mut c)?;
            c.exp(',')?;
            let d = self.val(&mut c, &t)?;
            return Ok(Ok(Inst::Bin(b, dst.unwrap(), a, d)));
        }
        let i = match opn.as_str() {
            "icmp" => {
                c.eat_w("samesign");
                let p = match c.next()? {
                    Tok::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("pred {}", w)),
                    },
                    t => return Err(format!("pred {:?}", t)),
                };
                let (t, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let b = self.val(&mut c, &t)?;
                Inst::ICmp(p, dst.unwrap(), a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                while c.eat_w("nneg") || c.eat_w("nuw") || c.eat_w("nsw") {}
                let (_t, a) = self.tyval(&mut c)?;
                c.w("to")?;
                let t2 = c.ty()?;
                let k = match opn.as_str() {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if _t.bits() > t2.bits() {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                    _ => Cast::Bit,
                };
                Inst::Cast(k, dst.unwrap(), a, t2)
            }
            "select" => {
                let (_, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, x) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, y) = self.tyval(&mut c)?;
                Inst::Select(dst.unwrap(), a, x, y)
            }
            "freeze" => {
                let (_, a) = self.tyval(&mut c)?;
                Inst::Copy(dst.unwrap(), a)
            }
            "load" => {
                c.eat_w("atomic");
                c.eat_w("volatile");
                let t = c.ty()?;
                c.exp(',')?;
                let (_, p) = self.tyval(&mut c)?;
                Inst::Load(dst.unwrap(), t, p)
            }
            "store" => {
                c.eat_w("atomic");
                c.eat_w("volatile");
                let (t, v) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, p) = self.tyval(&mut c)?;
                Inst::Store(t, v, p)
            }
            "alloca" => {
                c.eat_w("inalloca");
                let t = c.ty()?;
                let mut n = Opd::C(V::I(64, 1));
                if c.eat_p(',') && !c.is_w("align") {
                    let (_, v) = self.tyval(&mut c)?;
                    n = v;
                }
                Inst::Alloca(dst.unwrap(), t.size(), n)
            }
            "getelementptr" => {
                while c.eat_w("inbounds") || c.eat_w("nuw") || c.eat_w("nusw") {}
                let st = c.ty()?;
                c.exp(',')?;
                let (_, base) = self.tyval(&mut c)?;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur: Option<Ty> = None;
                while c.eat_p(',') {
                    if matches!(c.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    let (_, iv) = self.tyval(&mut c)?;
                    let scale;
                    match &cur {
                        None => {
                            scale = st.size();
                            cur = Some(st.clone());
                        }
                        Some(t) => match t {
                            Ty::Struct(..) => {
                                let Opd::C(V::I(_, k)) = iv else { return Err("gep struct".into()) };
                                let (o, t2) = t.field_off(k as usize);
                                off += o as i64;
                                cur = Some(t2);
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                let e2 = (**e).clone();
                                cur = Some(e2);
                            }
                            _ => return Err("gep ty".into()),
                        },
                    }
                    match iv {
                        Opd::C(V::I(w, k)) => off = off.wrapping_add((crate::expr::sx(k, w) as i64).wrapping_mul(scale as i64)),
                        o => dynv.push((o, scale)),
                    }
                }
                Inst::Gep(dst.unwrap(), base, off, dynv)
            }
            "extractvalue" => {
                let (_, a) = self.tyval(&mut c)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    if matches!(c.peek(), Some(Tok::Num(_))) {
                        ix.push(c.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(dst.unwrap(), a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, v) = self.tyval(&mut c)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    if matches!(c.peek(), Some(Tok::Num(_))) {
                        ix.push(c.num()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(dst.unwrap(), a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, k) = self.tyval(&mut c)?;
                Inst::ExtractElem(dst.unwrap(), a, k)
            }
            "insertelement" => {
                let (_, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, v) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, k) = self.tyval(&mut c)?;
                Inst::InsertElem(dst.unwrap(), a, v, k)
            }
            "shufflevector" => {
                let (_, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, b) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, m) = self.tyval(&mut c)?;
                let Opd::C(V::A(m)) = m else { return Err("shuffle mask".into()) };
                let m = m
                    .iter()
                    .map(|v| match v {
                        V::I(_, k) => Some(*k as u32),
                        _ => None,
                    })
                    .collect();
                Inst::Shuffle(dst.unwrap(), a, b, m)
            }
            "phi" => {
                let t = c.ty()?;
                let mut v = vec![];
                loop {
                    if !c.eat_p('[') {
                        break;
                    }
                    let x = self.val(&mut c, &t)?;
                    c.exp(',')?;
                    let l = match c.next()? {
                        Tok::Local(n) => *self.labels.get(&n).ok_or(format!("phi label {}", n))?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    c.exp(']')?;
                    v.push((x, l));
                    if !c.eat_p(',') {
                        break;
                    }
                }
                return Ok(Err((dst.unwrap(), v)));
            }
            "br" => {
                if c.is_w("label") {
                    Inst::Br(self.label(&mut c)?)
                } else {
                    let (_, v) = self.tyval(&mut c)?;
                    c.exp(',')?;
                    let a = self.label(&mut c)?;
                    c.exp(',')?;
                    let b = self.label(&mut c)?;
                    Inst::CondBr(v, a, b)
                }
            }
            "switch" => {
                let (_, v) = self.tyval(&mut c)?;
                c.exp(',')?;
                let d = self.label(&mut c)?;
                c.exp('[')?;
                let mut cs = vec![];
                while !c.eat_p(']') {
                    let t = c.ty()?;
                    let k = c.const_val(&t)?;
                    let V::I(_, k) = k else { return Err("switch".into()) };
                    c.exp(',')?;
                    cs.push((k, self.label(&mut c)?));
                }
                Inst::Switch(v, d, cs)
            }
            "ret" => {
                if c.is_w("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyval(&mut c)?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" | "fneg" => {
                let fl = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
                while fl.iter().any(|x| c.eat_w(x)) {}
                let mut op = opn.clone();
                if op == "fcmp" {
                    match c.next()? {
                        Tok::W(w) => op = format!("fcmp {}", w),
                        t => return Err(format!("pred {:?}", t)),
                    }
                }
                let (t, a) = self.tyval(&mut c)?;
                let mut v = vec![a];
                if opn != "fneg" {
                    c.exp(',')?;
                    v.push(self.val(&mut c, &t)?);
                }
                let w = t.bits() as u32;
                let rt = if opn == "fcmp" { Ty::Int(1) } else { t };
                Inst::Fp(op.as_str().into(), dst.unwrap(), v, w, rt)
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while c.eat_w("nneg") {}
                let (t, a) = self.tyval(&mut c)?;
                c.w("to")?;
                let t2 = c.ty()?;
                Inst::Fp(opn.as_str().into(), dst.unwrap(), vec![a], t.bits() as u32, t2)
            }
            "resume" | "landingpad" => Inst::Unsupported(opn.as_str().into()),
            "atomicrmw" => {
                c.eat_w("volatile");
                let op = match c.next()? {
                    Tok::W(w) => w,
                    t => return Err(format!("armw {:?}", t)),
                };
                let (_, p) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (t, v) = self.tyval(&mut c)?;
                Inst::AtomicRmw(dst.unwrap(), op.as_str().into(), p, v, t)
            }
            "cmpxchg" => {
                c.eat_w("weak");
                c.eat_w("volatile");
                let (_, p) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (t, a) = self.tyval(&mut c)?;
                c.exp(',')?;
                let (_, b) = self.tyval(&mut c)?;
                Inst::CmpXchg(dst.unwrap(), p, a, b, t)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if opn != "call" && opn != "invoke" {
                    c.w("call")?;
                }
                // cconv + return attributes
                loop {
                    match c.peek() {
                        Some(Tok::W(w)) => {
                            let wd = w.clone();
                            if wd == "void" || wd == "ptr" || wd == "float" || wd == "double" || wd == "half" || wd == "fp128" || wd == "metadata" || wd == "token"
                                || (wd.starts_with('i') && wd.len() > 1 && wd[1..].bytes().all(|b| b.is_ascii_digit()))
                            {
                                break;
                            }
                            c.i += 1;
                            if c.is_p('(') {
                                c.skip_paren()?;
                            } else if wd == "align" || wd == "cc" {
                                c.i += 1;
                            }
                        }
                        Some(Tok::Str(_)) => c.i += 1,
                        _ => break,
                    }
                }
                let rt = c.ty()?;
                if c.is_p('(') {
                    c.skip_paren()?;
                }
                let callee = match c.next()? {
                    Tok::Glob(g) => {
                        if g.starts_with("llvm.") {
                            Callee::Intr(g.as_str().into())
                        } else {
                            let mut g2 = g.clone();
                            while let Some(x) = self.m.aliases.get(&g2) {
                                g2 = x.clone();
                            }
                            match self.m.fn_by_name.get(&g2) {
                                Some(&f) => Callee::Fn(f),
                                None => return Err(format!("unknown callee {}", g)),
                            }
                        }
                    }
                    Tok::Local(n) => Callee::Ind(Opd::Reg(self.reg(&n))),
                    Tok::W(w) if w == "asm" => {
                        // inline asm: only the empty barrier form is accepted at run time
                        let mut body = None;
                        while let Some(t) = c.peek() {
                            if let Tok::Str(s) = t {
                                if body.is_none() {
                                    body = Some(s.clone());
                                }
                            }
                            if *t == Tok::P('(') {
                                break;
                            }
                            c.i += 1;
                        }
                        if body.map(|b| b.is_empty()).unwrap_or(false) {
                            Callee::Intr("asm.empty".into())
                        } else {
                            Callee::Intr("asm.unsupported".into())
                        }
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                c.exp('(')?;
                let mut args = vec![];
                if !c.eat_p(')') {
                    loop {
                        let t = c.ty()?;
                        if t == Ty::Meta {
                            // metadata argument: skip to ',' or ')'
                            let mut d = 0;
                            loop {
                                match c.peek() {
                                    Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                                    Some(Tok::P(')')) if d == 0 => break,
                                    Some(Tok::P(')')) | Some(Tok::P('}')) => d -= 1,
                                    Some(Tok::P(',')) if d == 0 => break,
                                    None => return Err("meta arg".into()),
                                    _ => {}
                                }
                                c.i += 1;
                            }
                        } else {
                            c.skip_attrs()?;
                            args.push(self.val(&mut c, &t)?);
                        }
                        if c.eat_p(')') {
                            break;
                        }
                        c.exp(',')?;
                    }
                }
                let mut normal = None;
                if opn == "invoke" {
                    while !c.is_w("to") {
                        c.next()?;
                    }
                    c.w("to")?;
                    normal = Some(self.label(&mut c)?);
                }
                Inst::Call(dst, callee, args, rt, normal)
            }
            _ => Inst::Unsupported(opn.as_str().into()),
        };
        Ok(Ok(i))
    }
}

impl Module {
    pub fn addr_of(&self, g: &str) -> R<u64> {
        let mut g = g.to_string();
        while let Some(x) = self.aliases.get(&g) {
            g = x.clone();
        }
        if let Some(&f) = self.fn_by_name.get(&g) {
            return Ok(FN_BASE + (f as u64) * 16);
        }
        if let Some(&k) = self.gl_by_name.get(&g) {
            return Ok(self.globals[k as usize].addr);
        }
        Err(format!("unknown global {}", g))
    }
    pub fn load(path: &str) -> R<Module> {
        let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let lines: Vec<String> = s.lines().map(|x| x.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        // named types first
        let mut pending: Vec<(String, String)> = vec![];
        for l in &lines {
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let n = l[1..p].trim_matches('"').to_string();
                    pending.push((n, l[p + 8..].to_string()));
                }
            }
        }
        for _ in 0..20 {
            let mut rest = vec![];
            for (n, d) in pending {
                let r = Cur::new(&m, &d).ty();
                match r {
                    Ok(t) => {
                        m.types.insert(n, t);
                    }
                    Err(_) => rest.push((n, d)),
                }
            }
            pending = rest;
            if pending.is_empty() {
                break;
            }
        }
        let mut i = 0;
        let mut addr = GL_BASE + 0x1000;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let p = l.find('@').ok_or("fn name")?;
                let rest = &l[p + 1..];
                let name = if rest.starts_with('"') {
                    rest[1..].split('"').next().unwrap().to_string()
                } else {
                    rest.split('(').next().unwrap().to_string()
                };
                let id = m.fns.len() as u32;
                let mut body = None;
                let hdr = i;
                if l.starts_with("define ") {
                    let st = i + 1;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    body = Some((st, i));
                }
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnDecl {
                    name: name.as_str().into(),
                    body,
                    header: hdr,
                });
            } else if l.starts_with('@') {
                let toks = lex(l);
                let Tok::Glob(name) = &toks[0] else { return Err("global".into()) };
                let mut k = 2;
                let mut kind = "";
                let mut external = false;
                while k < toks.len() {
                    match &toks[k] {
                        Tok::W(w) if w == "global" => {
                            kind = "global";
                            break;
                        }
                        Tok::W(w) if w == "constant" => {
                            kind = "constant";
                            break;
                        }
                        Tok::W(w) if w == "alias" => {
                            kind = "alias";
                            break;
                        }
                        Tok::W(w) if w == "external" || w == "extern_weak" => {
                            external = true;
                        }
                        _ => {}
                    }
                    k += 1;
                }
                if kind == "alias" {
                    // target: last @name on the line
                    if let Some(Tok::Glob(t)) = toks.iter().rev().find(|t| matches!(t, Tok::Glob(_))) {
                        m.aliases.insert(name.clone(), t.clone());
                    }
                } else if kind != "" {
                    let mut c = Cur {
                        t: toks.clone(),
                        i: k + 1,
                        m: &m,
                    };
                    let ty = c.ty().map_err(|e| format!("global {}: {}", name, e))?;
                    let size = ty.size();
                    let id = m.globals.len() as u32;
                    let name2 = name.clone();
                    m.globals.push(Global {
                        name: name2.as_str().into(),
                        addr,
                        size,
                        constant: kind == "constant",
                        ty,
                        line: i,
                        external,
                    });
                    m.gl_by_name.insert(name2, id);
                    addr += (size + 63) / 32 * 32 + 32;
                }
            }
            i += 1;
        }
        m.lines = lines;
        Ok(m)
    }
    pub fn global_init(&self, id: u32) -> R<Option<V>> {
        let g = &self.globals[id as usize];
        if g.external {
            return Ok(None);
        }
        let toks = lex(&self.lines[g.line]);
        let k = toks
            .iter()
            .position(|t| matches!(t, Tok::W(w) if w=="global"||w=="constant"))
            .unwrap();
        let mut c = Cur { t: toks, i: k + 1, m: self };
        let ty = c.ty()?;
        Ok(Some(c.const_val(&ty)?))
    }
    pub fn parse_fn(&self, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        let (st, en) = d.body.ok_or(format!("no body {}", d.name))?;
        let mut fb = FnBuilder {
            m: self,
            regs: HashMap::new(),
            labels: HashMap::new(),
        };
        // parameters
        let h = &self.lines[d.header];
        let mut c = Cur::new(self, h);
        while !matches!(c.peek(), Some(Tok::Glob(g)) if **g == *d.name) {
            c.next()?;
        }
        c.i += 1;
        c.exp('(')?;
        let mut nargs = 0;
        let mut unnamed = 0;
        if !c.eat_p(')') {
            loop {
                if c.eat_w("...") {
                    c.exp(')')?;
                    break;
                }
                let _t = c.ty()?;
                loop {
                    match c.peek() {
                        Some(Tok::W(w)) => {
                            let is_align = w == "align";
                            c.i += 1;
                            if c.is_p('(') {
                                c.skip_paren()?;
                            } else if is_align {
                                c.i += 1;
                            }
                        }
                        Some(Tok::Str(_)) => c.i += 1,
                        _ => break,
                    }
                }
                if let Some(Tok::Local(n)) = c.peek() {
                    let n = n.clone();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    c.i += 1;
                    fb.reg(&n);
                } else {
                    fb.reg(&format!("{}", unnamed));
                    unnamed += 1;
                }
                nargs += 1;
                if c.eat_p(')') {
                    break;
                }
                c.exp(',')?;
            }
        }
        // labels
        let mut first = true;
        let mut nb = 0u32;
        for k in st..en {
            let l = &self.lines[k];
            if l.is_empty() {
                continue;
            }
            if let Some(lb) = label_of(l) {
                fb.labels.insert(lb, nb);
                nb += 1;
                first = false;
            } else if first && l.starts_with("  ") {
                fb.labels.insert(format!("{}", unnamed), nb);
                nb += 1;
                first = false;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut k = st;
        while k < en {
            let l = &self.lines[k];
            if l.is_empty() || l.starts_with(';') {
                k += 1;
                continue;
            }
            if label_of(l).is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                k += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { phis: vec![], insts: vec![] });
            }
            let tl = l.trim_start();
            if tl.starts_with("#dbg") || tl.starts_with(';') || tl == "cleanup" || tl.starts_with("cleanup,") || tl.starts_with("catch ") || tl.starts_with("filter ") {
                k += 1;
                continue;
            }
            let mut text = l.clone();
            if tl.starts_with("switch ") {
                while !text.contains(']') {
                    k += 1;
                    text.push(' ');
                    text.push_str(&self.lines[k]);
                }
            } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                k += 1;
                text.push(' ');
                text.push_str(&self.lines[k]);
            }
            match fb.inst(&text).map_err(|e| format!("{}: {} in {:?}", d.name, e, text))? {
                Ok(i) => blocks.last_mut().unwrap().insts.push(i),
                Err(p) => blocks.last_mut().unwrap().phis.push(p),
            }
            k += 1;
        }
        Ok(Func {
            id,
            name: d.name.clone(),
            nargs,
            nregs: fb.regs.len(),
            blocks,
        })
    }
}
