//! Hash-consed bit-vector expressions over symbolic input bytes, with a simplifier.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract, // c = lo bit, width = w
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub imm: u128,
}

pub type VarSet = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E>,
    stamp: Vec<u32>,
    vals: Vec<u128>,
    gen: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w as u32;
        ((v << sh) as i128) >> sh
    }
}
pub fn vs_or(a: &VarSet, b: &VarSet) -> VarSet {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}
pub fn vs_subset(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & !b[0]) | (a[1] & !b[1]) | (a[2] & !b[2]) | (a[3] & !b[3]) == 0
}

pub fn fold2(op: Op, w: u16, a: u128, b: u128) -> u128 {
    // w: operand width
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << (b as u32)) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> (b as u32)
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => panic!("fold2 {:?}", op),
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            vars: vec![],
            map: HashMap::new(),
            stamp: vec![],
            vals: vec![],
            gen: 0,
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as u32;
        let vs = match n.op {
            Op::Const => [0; 4],
            Op::Var => {
                let mut v = [0u64; 4];
                let i = n.imm as usize;
                assert!(i < 256, "too many symbolic bytes");
                v[i / 64] |= 1 << (i % 64);
                v
            }
            Op::Zext | Op::Sext | Op::Extract => self.vars[n.a as usize],
            Op::Ite => vs_or(
                &vs_or(&self.vars[n.a as usize], &self.vars[n.b as usize]),
                &self.vars[n.c as usize],
            ),
            _ => vs_or(&self.vars[n.a as usize], &self.vars[n.b as usize]),
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.vals.push(0);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        assert!(w >= 1 && w <= 128, "width {} unsupported", w);
        self.mk(Node {
            op: Op::Const,
            w,
            a: 0,
            b: 0,
            c: 0,
            imm: v & mask(w),
        })
    }
    pub fn var(&mut self, i: u32) -> E {
        self.mk(Node {
            op: Op::Var,
            w: 8,
            a: 0,
            b: 0,
            c: 0,
            imm: i as u128,
        })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: u32) -> E {
        self.mk(Node {
            op,
            w,
            a,
            b,
            c,
            imm: 0,
        })
    }

    pub fn not(&mut self, a: E) -> E {
        // 1-bit negation
        let n = self.n(a);
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.cst(1, n.imm ^ 1),
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor => {
                if let Some(1) = self.as_const(n.b) {
                    return n.a;
                }
                let one = self.cst(1, 1);
                self.raw(Op::Xor, 1, a, one, 0)
            }
            _ => {
                let one = self.cst(1, 1);
                self.raw(Op::Xor, 1, a, one, 0)
            }
        }
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        assert!(w > n.w && w <= 128);
        match n.op {
            Op::Const => self.cst(w, n.imm),
            Op::Zext => self.zext(n.a, w),
            _ => self.raw(Op::Zext, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        assert!(w > n.w && w <= 128);
        match n.op {
            Op::Const => self.cst(w, sx(n.imm, n.w) as u128),
            Op::Zext => self.zext(n.a, w),
            Op::Sext => self.sext(n.a, w),
            _ => self.raw(Op::Sext, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, n.imm >> lo),
            Op::Extract => self.extract(n.a, n.c as u16 + lo, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.cst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(n.a, iw - 1, 1);
                    if w == 1 {
                        x
                    } else {
                        self.sext(x, w)
                    }
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let (kb, kc) = (self.as_const(n.b), self.as_const(n.c));
                if kb.is_some() || kc.is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.raw(Op::Extract, w, a, 0, lo as u32)
                }
            }
            _ => self.raw(Op::Extract, w, a, 0, lo as u32),
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        assert!(w <= 128, "concat too wide");
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst(w, (na.imm << nb.w) | nb.imm);
        }
        if na.op == Op::Const && na.imm == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a {
            if na.c as u16 == nb.c as u16 + nb.w {
                return self.extract(na.a, nb.c as u16, w);
            }
        }
        // concat(extract(x, k..), x') where x' is x itself of width k cannot happen (extract of full folds)
        if na.op == Op::Extract && nb.op != Op::Extract {
            // b could be the low part simplified; ignore
        }
        // concat(zext(x), y) -> zext(concat(x,y))
        if na.op == Op::Zext {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // concat(concat(x, e1), e2) with e1,e2 adjacent extracts
        if na.op == Op::Concat {
            let ne1 = self.n(na.b);
            if ne1.op == Op::Extract && nb.op == Op::Extract && ne1.a == nb.a
                && ne1.c as u16 == nb.c as u16 + nb.w
            {
                let low = self.extract(nb.a, nb.c as u16, ne1.w + nb.w);
                return self.concat(na.a, low);
            }
            if ne1.op == Op::Const && nb.op == Op::Const {
                let low = self.concat(na.b, b);
                return self.concat(na.a, low);
            }
        }
        self.raw(Op::Concat, w, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        // ite(c, x, ite(c, y, z)) -> ite(c,x,z)
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.raw(Op::Ite, w, c, a, b)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        assert_eq!(w, nb.w, "width mismatch in {:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = fold2(op, w, na.imm, nb.imm);
            return self.cst(rw, v);
        }
        // canonical: constants on the right for commutative ops
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let kb = if nb.op == Op::Const { Some(nb.imm) } else { None };
        let m = mask(w);
        match op {
            Op::Add => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                return self.linear(a, b, 1, w);
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.cst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
                return self.linear(a, b, -1, w);
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let c = self.cst(iw, k);
                            let d = self.bin(Op::UDiv, na.a, c);
                            return self.zext(d, w);
                        }
                        return self.cst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return self.cst(w, 0);
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let c = self.cst(iw, k);
                            let d = self.bin(Op::URem, na.a, c);
                            return self.zext(d, w);
                        }
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // low mask
                    if (k & (k + 1)) == 0 {
                        let n = k.trailing_ones() as u16;
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let c = self.cst(iw, k);
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let ch = self.cst(w - lw, k >> lw);
                        let cl = self.cst(lw, k);
                        let h = self.bin(Op::And, na.a, ch);
                        let l = self.bin(Op::And, na.b, cl);
                        return self.concat(h, l);
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if w == 1 {
                    let n_a = self.not(a);
                    if n_a == b {
                        return self.cst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    let n_a = self.not(a);
                    if n_a == b {
                        return self.cst(1, 1);
                    }
                }
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(k, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.cst(1, 0);
                            }
                            let c = self.cst(iw, k);
                            return self.eq(na.a, c);
                        }
                        Op::Sext => {
                            let iw = self.w(na.a);
                            let c = self.cst(iw, k);
                            let back = self.sext(c, w);
                            if back != b {
                                return self.cst(1, 0);
                            }
                            return self.eq(na.a, c);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(w, k.wrapping_sub(k2));
                                return self.eq(na.a, c);
                            }
                        }
                        Op::Sub => {
                            if let Some(k2) = self.as_const(na.a) {
                                let c = self.cst(w, k2.wrapping_sub(k));
                                return self.eq(na.b, c);
                            }
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(w, k ^ k2);
                                return self.eq(na.a, c);
                            }
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            match (x, y) {
                                (Some(x), Some(y)) => {
                                    return if x == k && y == k {
                                        self.cst(1, 1)
                                    } else if x == k {
                                        na.a
                                    } else if y == k {
                                        self.not(na.a)
                                    } else {
                                        self.cst(1, 0)
                                    };
                                }
                                (Some(x), None) => {
                                    let r = self.eq(na.c, b);
                                    return if x == k {
                                        self.bin(Op::Or, na.a, r)
                                    } else {
                                        let nc = self.not(na.a);
                                        self.bin(Op::And, nc, r)
                                    };
                                }
                                (None, Some(y)) => {
                                    let r = self.eq(na.b, b);
                                    return if y == k {
                                        let nc = self.not(na.a);
                                        self.bin(Op::Or, nc, r)
                                    } else {
                                        self.bin(Op::And, na.a, r)
                                    };
                                }
                                _ => {}
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let ch = self.cst(w - lw, k >> lw);
                            let cl = self.cst(lw, k);
                            let x = self.eq(na.a, ch);
                            let y = self.eq(na.b, cl);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.eq(na.a, nb.a);
                }
                if matches!(na.op, Op::Add | Op::Sub) || matches!(nb.op, Op::Add | Op::Sub) {
                    // cancel what both sides share
                    let mut t = Vec::new();
                    let mut k = 0u128;
                    self.lin(a, 1, &mut t, &mut k);
                    self.lin(b, -1, &mut t, &mut k);
                    t.sort_unstable_by_key(|x| x.0);
                    t.retain(|x| x.1 != 0);
                    let k = k & m;
                    if t.is_empty() {
                        return self.cst(1, (k == 0) as u128);
                    }
                    if t[0].1 < 0 {
                        for x in t.iter_mut() {
                            x.1 = -x.1;
                        }
                    } else {
                        // sum t + k = 0
                    }
                    let k = if self.lin_sign(a, b, &t) { k } else { k.wrapping_neg() & m };
                    let (p, q): (Vec<(E, i64)>, Vec<(E, i64)>) = t.iter().partition(|x| x.1 > 0);
                    let q: Vec<(E, i64)> = q.iter().map(|x| (x.0, -x.1)).collect();
                    let (l, r) = if q.is_empty() {
                        let l = self.build(&p, 0, w);
                        (l, self.cst(w, k.wrapping_neg()))
                    } else {
                        let l = self.build(&p, k, w);
                        (l, self.build(&q, 0, w))
                    };
                    if !((l == a && r == b) || (l == b && r == a)) {
                        return self.eq(l, r);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.cst(1, (op == Op::Ule) as u128);
                }
                let ka = if na.op == Op::Const { Some(na.imm) } else { None };
                if let Some(k) = kb {
                    if self.ub(a, 6) < k {
                        return self.cst(1, 1);
                    }
                }
                if let Some(k) = ka {
                    let u = self.ub(b, 6);
                    if u < k || (u == k && op == Op::Ult) {
                        return self.cst(1, 0);
                    }
                }
                if matches!(na.op, Op::Add) || matches!(nb.op, Op::Add) {
                    if let Some((l, r)) = self.cancel_unsigned(a, b, w) {
                        if l != a || r != b {
                            return self.bin(op, l, r);
                        }
                    }
                }
                if op == Op::Ule {
                    if ka == Some(0) || kb == Some(m) {
                        return self.cst(1, 1);
                    }
                    if let Some(k) = kb {
                        // x <= k  ->  x < k+1
                        let c = self.cst(w, k + 1);
                        return self.bin(Op::Ult, a, c);
                    }
                    if let Some(k) = ka {
                        // k <= x  ->  k-1 < x
                        let c = self.cst(w, k - 1);
                        return self.bin(Op::Ult, c, b);
                    }
                } else {
                    if kb == Some(0) || ka == Some(m) {
                        return self.cst(1, 0);
                    }
                    if kb == Some(1) {
                        let z = self.cst(w, 0);
                        return self.eq(a, z);
                    }
                }
                if na.op == Op::Zext {
                    let iw = self.w(na.a);
                    if let Some(k) = kb {
                        if k > mask(iw) {
                            return self.cst(1, 1);
                        }
                        let c = self.cst(iw, k);
                        return self.bin(op, na.a, c);
                    }
                    if nb.op == Op::Zext && self.w(nb.a) == iw {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == Op::Zext {
                    let iw = self.w(nb.a);
                    if let Some(k) = ka {
                        if k > mask(iw) || (op == Op::Ult && k == mask(iw)) {
                            return self.cst(1, 0);
                        }
                        let c = self.cst(iw, k);
                        return self.bin(op, c, nb.a);
                    }
                }
                // ite with const arms against const
                if kb.is_some() && na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if ka.is_some() && nb.op == Op::Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
                    let x = self.bin(op, a, nb.b);
                    let y = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
                // (x + k1) < k2 with x zero-extended so that no wrap is possible
                if let (Some(k), Op::Add) = (kb, na.op) {
                    if let Some(k1) = self.as_const(na.b) {
                        let nx = self.n(na.a);
                        if nx.op == Op::Zext {
                            let mx = mask(self.w(nx.a));
                            if k1 <= m - mx.min(m) {
                                if k <= k1 {
                                    return self.cst(1, 0);
                                }
                                let c = self.cst(w, k - k1);
                                return self.bin(op, na.a, c);
                            }
                        }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst(1, (op == Op::Sle) as u128);
                }
                // both non-negative (zext) -> unsigned
                let nonneg = |s: &Self, n: &Node| -> bool {
                    (n.op == Op::Zext && s.w(n.a) < n.w)
                        || (n.op == Op::Const && (n.imm >> (n.w - 1)) & 1 == 0)
                };
                let (pa, pb) = (nonneg(self, &na), nonneg(self, &nb));
                if pa && pb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                let neg = |n: &Node| n.op == Op::Const && (n.imm >> (n.w - 1)) & 1 == 1;
                if pa && neg(&nb) {
                    return self.cst(1, 0);
                }
                if pb && neg(&na) {
                    return self.cst(1, 1);
                }
                // sign tests
                if kb == Some(0) && op == Op::Slt {
                    return self.extract(a, w - 1, 1);
                }
                if na.op == Op::Const && na.imm == m && op == Op::Slt {
                    // -1 < x
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if na.op == Op::Sext && nb.op == Op::Const {
                    let iw = self.w(na.a);
                    let c = self.cst(iw, nb.imm);
                    if self.sext(c, w) == b {
                        return self.bin(op, na.a, c);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0)
    }

    /// Flatten sums: e*c into terms and a constant.
    fn lin(&self, e: E, c: i64, t: &mut Vec<(E, i64)>, k: &mut u128) {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                *k = k.wrapping_add((c as i128 as u128).wrapping_mul(n.imm));
            }
            Op::Add if t.len() < 12 => {
                self.lin(n.a, c, t, k);
                self.lin(n.b, c, t, k);
            }
            Op::Sub if t.len() < 12 => {
                self.lin(n.a, c, t, k);
                self.lin(n.b, -c, t, k);
            }
            _ => {
                for x in t.iter_mut() {
                    if x.0 == e {
                        x.1 += c;
                        return;
                    }
                }
                t.push((e, c));
            }
        }
    }
    /// true when `t` (already sign-normalised) has the orientation a - b
    fn lin_sign(&self, a: E, b: E, t: &[(E, i64)]) -> bool {
        let mut u = Vec::new();
        let mut k = 0;
        self.lin(a, 1, &mut u, &mut k);
        self.lin(b, -1, &mut u, &mut k);
        u.iter().any(|x| x.0 == t[0].0 && x.1 == t[0].1)
    }
    /// Canonical expression for sum t + k.
    fn build(&mut self, t: &[(E, i64)], k: u128, w: u16) -> E {
        let k = k & mask(w);
        let mut acc: Option<E> = None;
        for &(e, c) in t.iter().filter(|x| x.1 > 0) {
            let x = self.scale(e, c, w);
            acc = Some(match acc {
                None => x,
                Some(a) => self.raw(Op::Add, w, a, x, 0),
            });
        }
        let neg: Vec<(E, i64)> = t.iter().filter(|x| x.1 < 0).cloned().collect();
        if acc.is_none() && !neg.is_empty() {
            acc = Some(self.cst(w, k));
            for (e, c) in neg {
                let x = self.scale(e, -c, w);
                acc = Some(self.raw(Op::Sub, w, acc.unwrap(), x, 0));
            }
            return acc.unwrap();
        }
        for (e, c) in neg {
            let x = self.scale(e, -c, w);
            acc = Some(self.raw(Op::Sub, w, acc.unwrap(), x, 0));
        }
        match acc {
            None => self.cst(w, k),
            Some(a) if k == 0 => a,
            Some(a) => {
                let c = self.cst(w, k);
                self.raw(Op::Add, w, a, c, 0)
            }
        }
    }
    fn scale(&mut self, e: E, c: i64, w: u16) -> E {
        if c == 1 {
            e
        } else {
            let k = self.cst(w, c as u128);
            self.raw(Op::Mul, w, e, k, 0)
        }
    }
    fn linear(&mut self, a: E, b: E, sb: i64, w: u16) -> E {
        let mut t = Vec::new();
        let mut k = 0u128;
        self.lin(a, 1, &mut t, &mut k);
        self.lin(b, sb, &mut t, &mut k);
        t.retain(|x| x.1 != 0);
        t.sort_unstable_by_key(|x| x.0);
        self.build(&t, k, w)
    }
    /// An upper bound of the unsigned value.
    pub fn ub(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        if d == 0 && n.op != Op::Const {
            return m;
        }
        match n.op {
            Op::Const => n.imm,
            Op::Zext => self.ub(n.a, d - 1),
            Op::Add => match self.ub(n.a, d - 1).checked_add(self.ub(n.b, d - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::Mul => match self.ub(n.a, d - 1).checked_mul(self.ub(n.b, d - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::And => self.ub(n.a, d - 1).min(self.ub(n.b, d - 1)),
            Op::Ite => self.ub(n.b, d - 1).max(self.ub(n.c, d - 1)),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ub(n.a, d - 1) << lw) | mask(lw)
            }
            Op::UDiv => {
                if self.as_const(n.b).map(|k| k > 0).unwrap_or(false) {
                    self.ub(n.a, d - 1) / self.as_const(n.b).unwrap()
                } else {
                    m
                }
            }
            Op::URem => match self.as_const(n.b) {
                Some(k) if k > 0 => (k - 1).min(self.ub(n.a, d - 1)),
                _ => m,
            },
            _ => m,
        }
    }
    /// a <= b with neither side able to wrap: drop what both sides share.
    fn cancel_unsigned(&mut self, a: E, b: E, w: u16) -> Option<(E, E)> {
        let m = mask(w);
        let mut ta = Vec::new();
        let mut tb = Vec::new();
        let (mut ka, mut kb) = (0u128, 0u128);
        self.lin(a, 1, &mut ta, &mut ka);
        self.lin(b, 1, &mut tb, &mut kb);
        ka &= m;
        kb &= m;
        let fits = |s: &Self, t: &[(E, i64)], k: u128| -> bool {
            let mut u = k;
            for x in t {
                if x.1 < 0 {
                    return false;
                }
                match s.ub(x.0, 5).checked_mul(x.1 as u128).and_then(|v| u.checked_add(v)) {
                    Some(v) if v <= m => u = v,
                    _ => return false,
                }
            }
            true
        };
        if !fits(self, &ta, ka) || !fits(self, &tb, kb) {
            return None;
        }
        let c = ka.min(kb);
        ka -= c;
        kb -= c;
        for x in ta.iter_mut() {
            for y in tb.iter_mut() {
                if x.0 == y.0 {
                    let c = x.1.min(y.1);
                    x.1 -= c;
                    y.1 -= c;
                }
            }
        }
        ta.retain(|x| x.1 != 0);
        tb.retain(|x| x.1 != 0);
        ta.sort_unstable_by_key(|x| x.0);
        tb.sort_unstable_by_key(|x| x.0);
        let l = self.build(&ta, ka, w);
        let r = self.build(&tb, kb, w);
        Some((l, r))
    }

    /// or(concat(h, 0_k), zext(y)) with width(y) <= k  ->  concat(h, zext_k(y))
    fn or_concat(&mut self, a: E, b: E, w: u16) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        // view a as zext(inner)
        let (ia, wa) = if na.op == Op::Zext { (na.a, self.w(na.a)) } else { (a, w) };
        let nia = self.n(ia);
        if nia.op != Op::Concat {
            return None;
        }
        if self.as_const(nia.b) != Some(0) {
            return None;
        }
        let k = self.w(nia.b);
        let y = if nb.op == Op::Zext {
            nb.a
        } else if nb.op == Op::Const && nb.imm <= mask(k) {
            let c = self.cst(k, nb.imm);
            let r = self.concat(nia.a, c);
            return Some(self.zext(r, w));
        } else {
            return None;
        };
        if self.w(y) > k {
            return None;
        }
        let yk = self.zext(y, k);
        let r = self.concat(nia.a, yk);
        let _ = wa;
        Some(self.zext(r, w))
    }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.gen = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.gen {
            return self.vals[i];
        }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => return n.imm,
            Op::Var => *m.get(n.imm as usize).unwrap_or(&0) as u128,
            Op::Zext => self.ev(n.a, m),
            Op::Sext => {
                let iw = self.w(n.a);
                (sx(self.ev(n.a, m), iw) as u128) & mask(n.w)
            }
            Op::Extract => (self.ev(n.a, m) >> n.c) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                let ow = self.w(n.a);
                fold2(n.op, ow, a, b)
            }
        };
        self.stamp[i] = self.gen;
        self.vals[i] = v;
        v
    }
}
