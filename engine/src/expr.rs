//! Hash-consed bit-vector expression DAG with a local simplifier.
//! Every symbolic input is an 8-bit variable; widths are 1..=128.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not, // bitwise not (all widths)
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a is high, b is low
    Extract, // a, b = low bit
    Zext,
    Sext,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub const MULTI: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    pub c: u64,
    pub e: u32,
}
impl Val {
    #[inline(always)]
    pub fn k(c: u64) -> Val {
        Val { c, e: 0 }
    }
}

pub struct Store {
    pub n: Vec<Node>,
    /// support: 0 = constant, var+1 = exactly one variable, MULTI = several
    pub sup: Vec<u32>,
    map: FxMap<Node, u32>,
    sets: FxMap<u32, std::rc::Rc<Vec<u32>>>,
    pub tt: FxMap<u32, [u64; 4]>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

#[inline(always)]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Store {
    pub fn new() -> Store {
        let z = Node { op: O::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Store {
            n: vec![z],
            sup: vec![0],
            map: Default::default(),
            sets: Default::default(),
            tt: Default::default(),
            memo: vec![(0, 0)],
            stamp: 0,
        }
    }
    fn mk(&mut self, op: O, w: u8, a: u32, b: u32, c: u32, k: u128) -> u32 {
        let nd = Node { op, w, a, b, c, k };
        if let Some(i) = self.map.get(&nd) {
            return *i;
        }
        let i = self.n.len() as u32;
        let s = match op {
            O::Const => 0,
            O::Var => a + 1,
            _ => {
                let mut s = self.sup[a as usize];
                let mut join = |t: u32| {
                    if s == 0 {
                        s = t
                    } else if t != 0 && t != s {
                        s = MULTI
                    }
                };
                if op != O::Extract && b != 0 {
                    join(self.sup[b as usize]);
                }
                if c != 0 {
                    join(self.sup[c as usize]);
                }
                s
            }
        };
        self.n.push(nd);
        self.sup.push(s);
        self.memo.push((0, 0));
        self.map.insert(nd, i);
        i
    }
    pub fn len(&self) -> usize {
        self.n.len()
    }
    pub fn truncate(&mut self, mark: usize) {
        for i in mark..self.n.len() {
            let nd = self.n[i];
            self.map.remove(&nd);
        }
        self.n.truncate(mark);
        self.sup.truncate(mark);
        self.memo.truncate(mark);
        let m = mark as u32;
        self.sets.retain(|k, _| *k < m);
        self.tt.retain(|k, _| *k < m);
    }
    pub fn w(&self, e: u32) -> u8 {
        self.n[e as usize].w
    }
    pub fn konst(&mut self, w: u8, k: u128) -> u32 {
        self.mk(O::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, id: u32) -> u32 {
        self.mk(O::Var, 8, id, 0, 0, 0)
    }
    pub fn is_const(&self, e: u32) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// Val -> expr
    pub fn x(&mut self, v: Val, w: u8) -> u32 {
        if v.e != 0 {
            debug_assert_eq!(self.w(v.e), w);
            v.e
        } else {
            self.konst(w, v.c as u128)
        }
    }
    /// expr -> Val (constants of width <= 64 become concrete)
    pub fn v(&self, e: u32) -> Val {
        let n = &self.n[e as usize];
        if n.op == O::Const && n.w <= 64 {
            Val::k(n.k as u64)
        } else {
            Val { c: 0, e }
        }
    }
    pub fn t(&mut self) -> u32 {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> u32 {
        self.konst(1, 0)
    }

    pub fn fold2(op: O, w: u8, x: u128, y: u128) -> u128 {
        let m = mask(w);
        (match op {
            O::Add => x.wrapping_add(y),
            O::Sub => x.wrapping_sub(y),
            O::Mul => x.wrapping_mul(y),
            O::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            O::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            O::SDiv => {
                let (p, q) = (sx(x, w), sx(y, w));
                if q == 0 {
                    if p < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    p.wrapping_div(q) as u128
                }
            }
            O::SRem => {
                let (p, q) = (sx(x, w), sx(y, w));
                if q == 0 {
                    x
                } else {
                    p.wrapping_rem(q) as u128
                }
            }
            O::And => x & y,
            O::Or => x | y,
            O::Xor => x ^ y,
            O::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            O::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            O::AShr => {
                let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
                (sx(x, w) >> s) as u128
            }
            O::Eq => (x == y) as u128,
            O::Ult => (x < y) as u128,
            O::Ule => (x <= y) as u128,
            O::Slt => (sx(x, w) < sx(y, w)) as u128,
            O::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        }) & m
    }

    pub fn not(&mut self, a: u32) -> u32 {
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.konst(n.w, !n.k),
            O::Not => n.a,
            O::Ult if n.w == 1 => self.cmp(O::Ule, n.b, n.a),
            O::Ule if n.w == 1 => self.cmp(O::Ult, n.b, n.a),
            O::Slt if n.w == 1 => self.cmp(O::Sle, n.b, n.a),
            O::Sle if n.w == 1 => self.cmp(O::Slt, n.b, n.a),
            _ => self.mk(O::Not, n.w, a, 0, 0, 0),
        }
    }

    pub fn bin(&mut self, op: O, a: u32, b: u32) -> u32 {
        let w = self.n[a as usize].w;
        let ka = self.is_const(a);
        let kb = self.is_const(b);
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, Self::fold2(op, w, x, y));
        }
        let m = mask(w);
        match op {
            O::Add | O::Mul | O::And | O::Or | O::Xor => {
                if ka.is_some() {
                    return self.bin(op, b, a);
                }
            }
            _ => {}
        }
        let na = self.n[a as usize];
        match (op, kb) {
            (O::Add | O::Sub | O::Or | O::Xor | O::Shl | O::LShr | O::AShr, Some(0)) => return a,
            (O::Sub, Some(k)) => {
                let nk = self.konst(w, k.wrapping_neg());
                return self.bin(O::Add, a, nk);
            }
            (O::Add, Some(k)) => {
                if w == 1 {
                    return self.not(a);
                }
                if na.op == O::Add {
                    if let Some(k2) = self.is_const(na.b) {
                        let nk = self.konst(w, k.wrapping_add(k2));
                        return self.bin(O::Add, na.a, nk);
                    }
                }
                if na.op == O::Ite {
                    // push constants into ite of constants
                    if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let p = self.bin(op, na.b, b);
                        let q = self.bin(op, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
            }
            (O::Mul, Some(0)) => return b,
            (O::Mul, Some(1)) => return a,
            (O::Mul, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(w, k.trailing_zeros() as u128);
                return self.bin(O::Shl, a, s);
            }
            (O::UDiv, Some(1)) => return a,
            (O::UDiv, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(w, k.trailing_zeros() as u128);
                return self.bin(O::LShr, a, s);
            }
            (O::URem, Some(k)) if k.is_power_of_two() => {
                let s = self.konst(w, k - 1);
                return self.bin(O::And, a, s);
            }
            (O::And, Some(0)) => return b,
            (O::And, Some(k)) => {
                if k == m {
                    return a;
                }
                if na.op == O::And {
                    if let Some(k2) = self.is_const(na.b) {
                        let nk = self.konst(w, k & k2);
                        return self.bin(O::And, na.a, nk);
                    }
                }
                // low mask
                if (k + 1).is_power_of_two() {
                    let n = k.count_ones() as u8;
                    let t = self.extract(a, 0, n);
                    return self.zext(t, w);
                }
                if na.op == O::Zext {
                    let iw = self.w(na.a);
                    if k & mask(iw) == mask(iw) {
                        return a;
                    }
                }
                if na.op == O::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                    let p = self.bin(op, na.b, b);
                    let q = self.bin(op, na.c, b);
                    return self.ite(na.a, p, q);
                }
            }
            (O::Or, Some(k)) if k == m => return b,
            (O::Xor, Some(k)) if k == m => return self.not(a),
            (O::Shl | O::LShr, Some(k)) if k >= w as u128 => return self.konst(w, 0),
            (O::Shl, Some(k)) => {
                // (x << k): concat(extract(x, 0, w-k), 0_k)
                let lo = self.extract(a, 0, w - k as u8);
                let z = self.konst(k as u8, 0);
                return self.concat(lo, z);
            }
            (O::LShr, Some(k)) => {
                let hi = self.extract(a, k as u8, w - k as u8);
                return self.zext(hi, w);
            }
            _ => {}
        }
        if a == b {
            match op {
                O::Sub | O::Xor => return self.konst(w, 0),
                O::And | O::Or => return a,
                _ => {}
            }
        }
        if op == O::Or || op == O::And || op == O::Xor {
            let nb = self.n[b as usize];
            if w == 1 {
                if (na.op == O::Not && na.a == b) || (nb.op == O::Not && nb.a == a) {
                    return if op == O::And { self.f() } else { self.t() };
                }
            }
            // byte assembly: or of zext(x) and concat(y, 0_k) -> concat
            if op == O::Or || op == O::Xor {
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(r) = self.or_concat(p, q, w) {
                        return r;
                    }
                }
            }
            // both zero-extended: operate on the narrow part
            if na.op == O::Zext && nb.op == O::Zext && self.w(na.a) == self.w(nb.a) {
                let t = self.bin(op, na.a, nb.a);
                return self.zext(t, w);
            }
            if a > b && kb.is_none() {
                return self.mk(op, w, b, a, 0, 0);
            }
        }
        if (op == O::Add || op == O::Mul) && kb.is_none() && a > b {
            return self.mk(op, w, b, a, 0, 0);
        }
        self.mk(op, w, a, b, 0, 0)
    }
    // p = has zeros in low k bits (concat(.., 0_k)); q = zext of <=k bits
    fn or_concat(&mut self, p: u32, q: u32, w: u8) -> Option<u32> {
        let np = self.n[p as usize];
        let nq = self.n[q as usize];
        // strip zext on p
        let (pi, piw) = if np.op == O::Zext { (np.a, self.w(np.a)) } else { (p, w) };
        let npi = self.n[pi as usize];
        if npi.op != O::Concat {
            return None;
        }
        if self.is_const(npi.b) != Some(0) {
            return None;
        }
        let k = self.w(npi.b);
        let (qi, qw) = if nq.op == O::Zext {
            (nq.a, self.w(nq.a))
        } else if let Some(kq) = self.is_const(q) {
            let bits = 128 - kq.leading_zeros() as u8;
            if bits > k || bits == 0 {
                return None;
            }
            let t = self.konst(k, kq);
            (t, k)
        } else {
            return None;
        };
        if qw > k {
            return None;
        }
        let low = self.zext(qi, k);
        let t = self.concat(npi.a, low);
        debug_assert_eq!(self.w(t), piw);
        Some(self.zext(t, w))
    }

    pub fn cmp(&mut self, op: O, a: u32, b: u32) -> u32 {
        let w = self.n[a as usize].w;
        let ka = self.is_const(a);
        let kb = self.is_const(b);
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = match op {
                O::Eq => x == y,
                O::Ult => x < y,
                O::Ule => x <= y,
                O::Slt => sx(x, w) < sx(y, w),
                O::Sle => sx(x, w) <= sx(y, w),
                _ => unreachable!(),
            };
            return self.konst(1, r as u128);
        }
        if a == b {
            return self.konst(1, matches!(op, O::Eq | O::Ule | O::Sle) as u128);
        }
        let m = mask(w);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if op == O::Eq {
            if ka.is_some() {
                return self.cmp(O::Eq, b, a);
            }
            if let Some(k) = kb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    O::Zext => {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.f();
                        }
                        let kk = self.konst(iw, k);
                        return self.cmp(O::Eq, na.a, kk);
                    }
                    O::Sext => {
                        let iw = self.w(na.a);
                        let t = k & mask(iw);
                        if (sx(t, iw) as u128) & m != k {
                            return self.f();
                        }
                        let kk = self.konst(iw, t);
                        return self.cmp(O::Eq, na.a, kk);
                    }
                    O::Add => {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k.wrapping_sub(k2));
                            return self.cmp(O::Eq, na.a, kk);
                        }
                    }
                    O::Sub => {
                        if k == 0 {
                            return self.cmp(O::Eq, na.a, na.b);
                        }
                    }
                    O::Xor => {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.cmp(O::Eq, na.a, kk);
                        }
                        if k == 0 {
                            return self.cmp(O::Eq, na.a, na.b);
                        }
                    }
                    O::Not => {
                        let kk = self.konst(w, !k);
                        return self.cmp(O::Eq, na.a, kk);
                    }
                    O::Or => {
                        if k == 0 {
                            let z = self.konst(w, 0);
                            let p = self.cmp(O::Eq, na.a, z);
                            let q = self.cmp(O::Eq, na.b, z);
                            return self.bin(O::And, p, q);
                        }
                    }
                    O::Concat => {
                        let lw = self.w(na.b);
                        let hw = w - lw;
                        let kh = self.konst(hw, k >> lw);
                        let kl = self.konst(lw, k);
                        let p = self.cmp(O::Eq, na.a, kh);
                        if self.is_const(p) == Some(0) {
                            return p;
                        }
                        let q = self.cmp(O::Eq, na.b, kl);
                        return self.bin(O::And, p, q);
                    }
                    O::Ite => {
                        let cb = self.is_const(na.b);
                        let cc = self.is_const(na.c);
                        if cb.is_some() || cc.is_some() {
                            let p = self.cmp(O::Eq, na.b, b);
                            let q = self.cmp(O::Eq, na.c, b);
                            return self.ite(na.a, p, q);
                        }
                    }
                    _ => {}
                }
            } else {
                if na.op == O::Zext && nb.op == O::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(O::Eq, na.a, nb.a);
                }
                if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                    let p = self.cmp(O::Eq, na.a, nb.a);
                    if self.is_const(p) == Some(0) {
                        return p;
                    }
                    let q = self.cmp(O::Eq, na.b, nb.b);
                    return self.bin(O::And, p, q);
                }
                if w == 1 {
                    let t = self.bin(O::Xor, a, b);
                    return self.not(t);
                }
                if a > b {
                    return self.mk(O::Eq, 1, b, a, 0, 0);
                }
            }
            return self.mk(O::Eq, 1, a, b, 0, 0);
        }
        // ordering
        match op {
            O::Ult => {
                if kb == Some(0) || ka == Some(m) {
                    return self.f();
                }
                if kb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.cmp(O::Eq, a, z);
                }
                if ka == Some(0) {
                    let z = self.konst(w, 0);
                    let t = self.cmp(O::Eq, b, z);
                    return self.not(t);
                }
            }
            O::Ule => {
                if ka == Some(0) || kb == Some(m) {
                    return self.t();
                }
                if kb == Some(0) {
                    return self.cmp(O::Eq, a, b);
                }
            }
            _ => {}
        }
        // zext narrowing for unsigned (and signed, both non-negative)
        if na.op == O::Zext && self.w(na.a) < w {
            let iw = self.w(na.a);
            let uop = match op {
                O::Slt => O::Ult,
                O::Sle => O::Ule,
                o => o,
            };
            if let Some(k) = kb {
                let neg = (op == O::Slt || op == O::Sle) && sx(k, w) < 0;
                if neg {
                    return self.f();
                }
                if k > mask(iw) {
                    return self.t();
                }
                let kk = self.konst(iw, k);
                return self.cmp(uop, na.a, kk);
            }
            if nb.op == O::Zext && self.w(nb.a) == iw {
                return self.cmp(uop, na.a, nb.a);
            }
        }
        if nb.op == O::Zext && self.w(nb.a) < w {
            if let Some(k) = ka {
                let iw = self.w(nb.a);
                let uop = match op {
                    O::Slt => O::Ult,
                    O::Sle => O::Ule,
                    o => o,
                };
                let neg = (op == O::Slt || op == O::Sle) && sx(k, w) < 0;
                if neg {
                    return self.t();
                }
                if k > mask(iw) {
                    return self.f();
                }
                let kk = self.konst(iw, k);
                return self.cmp(uop, kk, nb.a);
            }
        }
        if na.op == O::Ite && kb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let p = self.cmp(op, na.b, b);
            let q = self.cmp(op, na.c, b);
            return self.ite(na.a, p, q);
        }
        if nb.op == O::Ite && ka.is_some() && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
            let p = self.cmp(op, a, nb.b);
            let q = self.cmp(op, a, nb.c);
            return self.ite(nb.a, p, q);
        }
        self.mk(op, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if a == b {
            return a;
        }
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        let nc = self.n[c as usize];
        if nc.op == O::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(O::Or, c, b),
                (Some(0), None) => {
                    let t = self.not(c);
                    return self.bin(O::And, t, b);
                }
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => {
                    let t = self.not(c);
                    return self.bin(O::Or, t, a);
                }
                _ => {}
            }
        }
        // boolean to integer
        if self.is_const(a) == Some(1) && self.is_const(b) == Some(0) {
            return self.zext(c, w);
        }
        if self.is_const(a) == Some(0) && self.is_const(b) == Some(1) {
            let t = self.not(c);
            return self.zext(t, w);
        }
        // ite(c, x, ite(c, y, z)) and friends
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == O::Ite && nb.b == a {
            let t = self.bin(O::Or, c, nb.a);
            return self.ite(t, a, nb.c);
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }

    pub fn zext(&mut self, a: u32, w: u8) -> u32 {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            O::Const => self.konst(w, n.k),
            O::Zext => self.zext(n.a, w),
            _ => self.mk(O::Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: u32, w: u8) -> u32 {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            O::Const => self.konst(w, sx(n.k, n.w) as u128),
            O::Zext => self.zext(n.a, w),
            _ => self.mk(O::Sext, w, a, 0, 0, 0),
        }
    }
    pub fn concat(&mut self, hi: u32, lo: u32) -> u32 {
        let nh = self.n[hi as usize];
        let nl = self.n[lo as usize];
        let w = nh.w + nl.w;
        if nh.op == O::Const {
            if nl.op == O::Const {
                return self.konst(w, (nh.k << nl.w) | nl.k);
            }
            if nh.k == 0 {
                return self.zext(lo, w);
            }
            // concat(k1, concat(k2, x))
            if nl.op == O::Concat {
                if let Some(k2) = self.is_const(nl.a) {
                    let w2 = self.w(nl.a);
                    let kk = self.konst(nh.w + w2, (nh.k << w2) | k2);
                    return self.concat(kk, nl.b);
                }
            }
        }
        // adjacent extracts
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return self.extract(nh.a, nl.b as u8, w);
        }
        // extract of x next to x's low part kept as trunc: extract(x, lw, hw) ++ extract(x,0,lw) handled above
        if nh.op == O::Concat && nl.op == O::Extract {
            let nhl = self.n[nh.b as usize];
            if nhl.op == O::Extract && nhl.a == nl.a && nhl.b == nl.b + nl.w as u32 {
                let t = self.extract(nl.a, nl.b as u8, nhl.w + nl.w);
                return self.concat(nh.a, t);
            }
        }
        if nh.op == O::Zext {
            let t = self.concat(nh.a, lo);
            return self.zext(t, w);
        }
        self.mk(O::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, a: u32, lo: u8, w: u8) -> u32 {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        match n.op {
            O::Const => self.konst(w, n.k >> lo),
            O::Extract => self.extract(n.a, n.b as u8 + lo, w),
            O::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            O::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let t = self.extract(n.a, lo, iw - lo);
                    self.zext(t, w)
                }
            }
            O::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(O::Extract, w, a, lo as u32, 0, 0)
                }
            }
            O::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let p = self.extract(n.b, lo, w);
                    let q = self.extract(n.c, lo, w);
                    return self.ite(n.a, p, q);
                }
                self.mk(O::Extract, w, a, lo as u32, 0, 0)
            }
            O::And | O::Or | O::Xor => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                self.bin(n.op, p, q)
            }
            O::Not => {
                let p = self.extract(n.a, lo, w);
                self.not(p)
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let p = self.extract(n.a, 0, w);
                let q = self.extract(n.b, 0, w);
                self.bin(n.op, p, q)
            }
            _ => self.mk(O::Extract, w, a, lo as u32, 0, 0),
        }
    }

    /// The set of variables of an expression (sorted).
    pub fn support(&mut self, e: u32) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.sets.get(&e) {
            return s.clone();
        }
        let mut seen: std::collections::HashSet<u32> = Default::default();
        let mut out = std::collections::BTreeSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            let s = self.sup[x as usize];
            if s == 0 {
                continue;
            }
            if s != MULTI {
                out.insert(s - 1);
                continue;
            }
            if !seen.insert(x) {
                continue;
            }
            let n = self.n[x as usize];
            st.push(n.a);
            if n.op != O::Extract && n.b != 0 {
                st.push(n.b)
            }
            if n.c != 0 {
                st.push(n.c)
            }
        }
        let r = std::rc::Rc::new(out.into_iter().collect::<Vec<_>>());
        self.sets.insert(e, r.clone());
        r
    }

    /// Start a new evaluation context (the memo is invalidated).
    pub fn new_stamp(&mut self) {
        self.stamp += 1;
    }
    /// Evaluate under a model; call `new_stamp` first when the model changed.
    pub fn eval(&mut self, e: u32, model: &[u8]) -> u128 {
        // iterative post-order
        let (s, v) = self.memo[e as usize];
        if s == self.stamp && self.stamp != 0 {
            return v;
        }
        let mut st: Vec<(u32, bool)> = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            let n = self.n[x as usize];
            if self.memo[x as usize].0 == self.stamp {
                continue;
            }
            match n.op {
                O::Const => {
                    self.memo[x as usize] = (self.stamp, n.k);
                    continue;
                }
                O::Var => {
                    let v = model.get(n.a as usize).copied().unwrap_or(0) as u128;
                    self.memo[x as usize] = (self.stamp, v);
                    continue;
                }
                _ => {}
            }
            if !done {
                st.push((x, true));
                st.push((n.a, false));
                if n.op != O::Extract && n.b != 0 {
                    st.push((n.b, false));
                }
                if n.c != 0 {
                    st.push((n.c, false));
                }
                continue;
            }
            let a = self.memo[n.a as usize].1;
            let r = match n.op {
                O::Not => !a & mask(n.w),
                O::Ite => {
                    if a == 1 {
                        self.memo[n.b as usize].1
                    } else {
                        self.memo[n.c as usize].1
                    }
                }
                O::Concat => {
                    let lw = self.n[n.b as usize].w;
                    (a << lw) | self.memo[n.b as usize].1
                }
                O::Extract => (a >> n.b) & mask(n.w),
                O::Zext => a,
                O::Sext => (sx(a, self.n[n.a as usize].w) as u128) & mask(n.w),
                op => {
                    let iw = self.n[n.a as usize].w;
                    let b = self.memo[n.b as usize].1;
                    match op {
                        O::Eq => (a == b) as u128,
                        O::Ult => (a < b) as u128,
                        O::Ule => (a <= b) as u128,
                        O::Slt => (sx(a, iw) < sx(b, iw)) as u128,
                        O::Sle => (sx(a, iw) <= sx(b, iw)) as u128,
                        _ => Self::fold2(op, n.w, a, b),
                    }
                }
            };
            self.memo[x as usize] = (self.stamp, r);
        }
        self.memo[e as usize].1
    }
    /// Truth table of a boolean over a single byte variable.
    pub fn truth(&mut self, e: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let var = self.sup[e as usize] - 1;
        let mut m = vec![0u8; var as usize + 1];
        let mut t = [0u64; 4];
        for i in 0..256usize {
            m[var as usize] = i as u8;
            self.stamp += 1;
            if self.eval(e, &m) == 1 {
                t[i / 64] |= 1 << (i % 64);
            }
        }
        self.stamp += 1;
        self.tt.insert(e, t);
        t
    }
    pub fn show(&self, e: u32, depth: usize) -> String {
        let n = &self.n[e as usize];
        match n.op {
            O::Const => format!("{}:{}", n.k, n.w),
            O::Var => format!("v{}", n.a),
            _ if depth == 0 => "..".to_string(),
            O::Extract => format!("(ex {} +{} {})", self.show(n.a, depth - 1), n.b, n.w),
            _ => {
                let mut s = format!("({:?}{} {}", n.op, n.w, self.show(n.a, depth - 1));
                if n.b != 0 {
                    s += " ";
                    s += &self.show(n.b, depth - 1)
                }
                if n.c != 0 {
                    s += " ";
                    s += &self.show(n.c, depth - 1)
                }
                s + ")"
            }
        }
    }
}
