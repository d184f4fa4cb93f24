//! Path-condition store and decision procedures.
//!
//! Constraints over one byte variable are kept as an exact 256-bit domain per variable.  A query is
//! answered by the domains alone only when that is a complete decision (the variable occurs in no
//! multi-variable constraint); every other query goes to Z3 on the independent slice of the path
//! condition.  With `all_z3` every query is (also) sent to Z3 and the verdicts are compared.
use crate::expr::*;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, v: P, u: *mut c_uint) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,
}

impl Z3 {
    fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let t = format!("{}\0", rlimit);
            Z3_set_param_value(cfg, b"rlimit\0".as_ptr() as _, t.as_ptr() as _);
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context_rc(cfg);
            let s = if std::env::var("SYMX_Z3_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let l = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as _);
                Z3_mk_solver_for_logic(c, l)
            };
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, ast: vec![] }
        }
    }
    fn truncate(&mut self, m: usize) {
        while self.ast.len() > m {
            let a = self.ast.pop().unwrap();
            if !a.is_null() {
                unsafe { Z3_dec_ref(self.c, a) }
            }
        }
    }
    /// keep an intermediate term alive (leaked on purpose)
    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    fn kbv(&self, w: u8, k: u128) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, k as u64, Z3_mk_bv_sort(self.c, w as _))
            } else {
                let h = Z3_mk_unsigned_int64(self.c, (k >> 64) as u64, Z3_mk_bv_sort(self.c, w as u32 - 64));
                Z3_inc_ref(self.c, h);
                let l = Z3_mk_unsigned_int64(self.c, k as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_inc_ref(self.c, l);
                let r = Z3_mk_concat(self.c, h, l);
                Z3_inc_ref(self.c, r);
                Z3_dec_ref(self.c, h);
                Z3_dec_ref(self.c, l);
                r
            }
        }
    }
    /// width-1 expressions are Z3 Booleans
    fn tr(&mut self, st: &Store, e: u32) -> P {
        let mut stack = vec![e];
        if self.ast.len() < st.len() {
            self.ast.resize(st.len(), std::ptr::null_mut());
        }
        while let Some(&x) = stack.last() {
            if !self.ast[x as usize].is_null() {
                stack.pop();
                continue;
            }
            let n = st.n[x as usize];
            let mut ready = true;
            if !matches!(n.op, O::Const | O::Var) {
                for ch in [n.a, if n.op == O::Extract { 0 } else { n.b }, n.c] {
                    if ch != 0 && self.ast[ch as usize].is_null() {
                        stack.push(ch);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let c = self.c;
            let r = unsafe {
                let a = self.ast[n.a as usize % self.ast.len()];
                let b = if n.op == O::Extract { std::ptr::null_mut() } else { self.ast[n.b as usize] };
                let bool_args = !matches!(n.op, O::Const | O::Var) && st.n[n.a as usize].w == 1;
                let tobv = |p: P| {
                    let one = self.keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
                    let zero = self.keep(Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
                    self.keep(Z3_mk_ite(c, p, one, zero))
                };
                match n.op {
                    O::Const => {
                        if n.w == 1 {
                            if n.k == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            self.kbv(n.w, n.k)
                        }
                    }
                    O::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as _), Z3_mk_bv_sort(c, 8)),
                    O::Not => {
                        if n.w == 1 {
                            Z3_mk_not(c, a)
                        } else {
                            Z3_mk_bvnot(c, a)
                        }
                    }
                    O::And if n.w == 1 => Z3_mk_and(c, 2, [a, b].as_ptr()),
                    O::Or if n.w == 1 => Z3_mk_or(c, 2, [a, b].as_ptr()),
                    O::Xor if n.w == 1 => Z3_mk_xor(c, a, b),
                    O::And => Z3_mk_bvand(c, a, b),
                    O::Or => Z3_mk_bvor(c, a, b),
                    O::Xor => Z3_mk_bvxor(c, a, b),
                    O::Add => Z3_mk_bvadd(c, a, b),
                    O::Sub => Z3_mk_bvsub(c, a, b),
                    O::Mul => Z3_mk_bvmul(c, a, b),
                    O::UDiv => Z3_mk_bvudiv(c, a, b),
                    O::SDiv => Z3_mk_bvsdiv(c, a, b),
                    O::URem => Z3_mk_bvurem(c, a, b),
                    O::SRem => Z3_mk_bvsrem(c, a, b),
                    O::Shl => Z3_mk_bvshl(c, a, b),
                    O::LShr => Z3_mk_bvlshr(c, a, b),
                    O::AShr => Z3_mk_bvashr(c, a, b),
                    O::Eq => Z3_mk_eq(c, a, b),
                    O::Ult if bool_args => Z3_mk_and(c, 2, [self.keep(Z3_mk_not(c, a)), b].as_ptr()),
                    O::Ule if bool_args => Z3_mk_or(c, 2, [self.keep(Z3_mk_not(c, a)), b].as_ptr()),
                    O::Slt if bool_args => Z3_mk_and(c, 2, [a, self.keep(Z3_mk_not(c, b))].as_ptr()),
                    O::Sle if bool_args => Z3_mk_or(c, 2, [a, self.keep(Z3_mk_not(c, b))].as_ptr()),
                    O::Ult => Z3_mk_bvult(c, a, b),
                    O::Ule => Z3_mk_bvule(c, a, b),
                    O::Slt => Z3_mk_bvslt(c, a, b),
                    O::Sle => Z3_mk_bvsle(c, a, b),
                    O::Ite => {
                        let d = self.ast[n.c as usize];
                        Z3_mk_ite(c, a, b, d)
                    }
                    O::Concat => {
                        let (mut p, mut q) = (a, b);
                        if st.n[n.a as usize].w == 1 {
                            p = tobv(p)
                        }
                        if st.n[n.b as usize].w == 1 {
                            q = tobv(q)
                        }
                        Z3_mk_concat(c, p, q)
                    }
                    O::Extract => {
                        let x = self.keep(Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a));
                        if n.w == 1 {
                            Z3_mk_eq(c, x, self.keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))))
                        } else {
                            x
                        }
                    }
                    O::Zext => {
                        if bool_args {
                            Z3_mk_ite(c, a, self.keep(self.kbv(n.w, 1)), self.keep(self.kbv(n.w, 0)))
                        } else {
                            Z3_mk_zero_ext(c, (n.w - st.n[n.a as usize].w) as _, a)
                        }
                    }
                    O::Sext => {
                        if bool_args {
                            Z3_mk_ite(c, a, self.keep(self.kbv(n.w, mask(n.w))), self.keep(self.kbv(n.w, 0)))
                        } else {
                            Z3_mk_sign_ext(c, (n.w - st.n[n.a as usize].w) as _, a)
                        }
                    }
                }
            };
            assert!(!r.is_null() && unsafe { Z3_get_error_code(c) } == 0, "z3 translation error");
            unsafe { Z3_inc_ref(c, r) };
            self.ast[x as usize] = r;
            stack.pop();
        }
        self.ast[e as usize]
    }
}

enum Undo {
    Dom(u32, [u64; 4]),
    Multi,
    Known(u32),
    KVal(u32),
}

#[derive(Default, Clone, Copy)]
pub struct SStats {
    pub z3_queries: u64,
    pub z3_ns: u64,
    pub z3_unsat: u64,
    pub z3_sat: u64,
    pub dom_queries: u64,
    pub cache_hits: u64,
    pub cross_checked: u64,
}

pub enum Res {
    Unsat,
    Sat(Vec<u8>),
}

pub struct Solver {
    z: Option<Z3>,
    pub dom: Vec<[u64; 4]>,
    inmulti: Vec<u32>,
    multi: Vec<u32>,
    known: FxMap<u32, bool>,
    kval: FxMap<u32, u64>,
    trail: Vec<Undo>,
    pub model: Vec<u8>,
    cache: std::collections::HashMap<Vec<u64>, Option<Vec<(u32, u8)>>>,
    pub stats: SStats,
    pub all_z3: bool,
    pub rlimit: u32,
}

const FULL: [u64; 4] = [u64::MAX; 4];
fn and4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn andn4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
fn empty(a: &[u64; 4]) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn first(a: &[u64; 4]) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
pub fn has(a: &[u64; 4], v: u8) -> bool {
    a[v as usize / 64] >> (v % 64) & 1 == 1
}

impl Solver {
    pub fn new(all_z3: bool) -> Solver {
        Solver {
            z: None,
            dom: vec![],
            inmulti: vec![],
            multi: vec![],
            known: Default::default(),
            kval: Default::default(),
            trail: vec![],
            model: vec![],
            cache: Default::default(),
            stats: Default::default(),
            all_z3,
            rlimit: 400_000_000,
        }
    }
    pub fn ensure_var(&mut self, id: u32) {
        while self.dom.len() <= id as usize {
            self.dom.push(FULL);
            self.inmulti.push(0);
        }
        while self.model.len() <= id as usize {
            self.model.push(0);
        }
    }
    pub fn new_dom(&mut self, st: &mut Store, id: u32, d: &[u64; 4]) {
        self.trail.push(Undo::Dom(id, self.dom[id as usize]));
        self.dom[id as usize] = *d;
        self.model[id as usize] = first(d);
        st.new_stamp();
    }
    pub fn mark(&self) -> usize {
        self.trail.len()
    }
    pub fn undo_to(&mut self, st: &mut Store, m: usize) {
        while self.trail.len() > m {
            match self.trail.pop().unwrap() {
                Undo::Dom(v, d) => self.dom[v as usize] = d,
                Undo::Multi => {
                    let e = self.multi.pop().unwrap();
                    for v in st.support(e).iter() {
                        self.inmulti[*v as usize] -= 1;
                    }
                }
                Undo::Known(e) => {
                    self.known.remove(&e);
                }
                Undo::KVal(e) => {
                    self.kval.remove(&e);
                }
            }
        }
    }
    pub fn set_model(&mut self, st: &mut Store, m: Vec<u8>) {
        let n = self.model.len();
        self.model = m;
        while self.model.len() < n {
            self.model.push(0);
        }
        st.new_stamp();
    }
    pub fn truncate(&mut self, mark: usize) {
        if let Some(z) = &mut self.z {
            z.truncate(mark)
        }
        let m = mark as u32;
        self.known.retain(|k, _| *k < m);
        self.kval.retain(|k, _| *k < m);
        self.cache.clear();
    }
    pub fn known_val(&self, e: u32) -> Option<u64> {
        self.kval.get(&e).copied()
    }
    pub fn set_known_val(&mut self, e: u32, v: u64) {
        if self.kval.insert(e, v).is_none() {
            self.trail.push(Undo::KVal(e));
        }
    }
    pub fn set_known(&mut self, e: u32, v: bool) {
        if self.known.insert(e, v).is_none() {
            self.trail.push(Undo::Known(e));
        }
    }
    pub fn known(&self, e: u32) -> Option<bool> {
        self.known.get(&e).copied()
    }
    /// add a constraint to the path condition (must be satisfiable with it; model must satisfy it)
    pub fn assume(&mut self, st: &mut Store, e: u32) {
        if st.is_const(e).is_some() {
            return;
        }
        let n = st.n[e as usize];
        if n.op == O::And {
            self.assume(st, n.a);
            self.assume(st, n.b);
            self.set_known(e, true);
            let ne = st.not(e);
            self.set_known(ne, false);
            return;
        }
        if n.op == O::Eq {
            if let Some(k) = st.is_const(n.b) {
                if st.w(n.a) <= 64 {
                    self.set_known_val(n.a, k as u64);
                }
            }
        }
        let s = st.sup[e as usize];
        if s == MULTI {
            for v in st.support(e).iter() {
                self.inmulti[*v as usize] += 1;
            }
            self.multi.push(e);
            self.trail.push(Undo::Multi);
            self.set_known(e, true);
            let ne = st.not(e);
            self.set_known(ne, false);
        } else {
            let t = st.truth(e);
            let d = self.dom[s as usize - 1];
            let nd = and4(&d, &t);
            if nd != d {
                self.trail.push(Undo::Dom(s - 1, d));
                self.dom[s as usize - 1] = nd;
            }
        }
    }
    /// Is the condition decided by what is already known (no solver)?
    pub fn quick(&mut self, st: &mut Store, e: u32) -> Option<bool> {
        if let Some(k) = self.known(e) {
            return Some(k);
        }
        let s = st.sup[e as usize];
        if s != MULTI {
            let t = st.truth(e);
            let d = &self.dom[s as usize - 1];
            if empty(&andn4(d, &t)) {
                return Some(true);
            }
            if empty(&and4(d, &t)) {
                return Some(false);
            }
        }
        None
    }
    /// Is PC /\ e satisfiable?
    pub fn check(&mut self, st: &mut Store, e: u32) -> Result<Res, String> {
        if let Some(k) = st.is_const(e) {
            return Ok(if k == 1 { Res::Sat(self.model.clone()) } else { Res::Unsat });
        }
        let s = st.sup[e as usize];
        if s != MULTI && self.inmulti[s as usize - 1] == 0 {
            let t = st.truth(e);
            let d = and4(&self.dom[s as usize - 1], &t);
            self.stats.dom_queries += 1;
            let r = if empty(&d) {
                Res::Unsat
            } else {
                let mut m = self.model.clone();
                m[s as usize - 1] = first(&d);
                Res::Sat(m)
            };
            if self.all_z3 {
                let z = self.check_z3(st, e)?;
                self.stats.cross_checked += 1;
                if matches!(z, Res::Unsat) != matches!(r, Res::Unsat) {
                    return Err("domain procedure and Z3 disagree".into());
                }
            }
            return Ok(r);
        }
        self.check_z3(st, e)
    }
    fn check_z3(&mut self, st: &mut Store, e: u32) -> Result<Res, String> {
        // independent slice
        let mut vars: std::collections::BTreeSet<u32> = st.support(e).iter().copied().collect();
        let mut used = vec![false; self.multi.len()];
        let mut cons = vec![];
        loop {
            let mut ch = false;
            for i in 0..self.multi.len() {
                if used[i] {
                    continue;
                }
                let sup = st.support(self.multi[i]);
                if sup.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(self.multi[i]);
                    vars.extend(sup.iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        cons.sort_unstable();
        cons.dedup();
        let mut key: Vec<u64> = Vec::with_capacity(cons.len() + vars.len() * 5 + 2);
        key.push(e as u64);
        key.extend(cons.iter().map(|c| *c as u64));
        key.push(u64::MAX);
        for v in &vars {
            let d = &self.dom[*v as usize];
            if *d != FULL {
                key.push(*v as u64);
                key.extend_from_slice(d);
            }
        }
        let r = if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let r = self.run_z3(st, e, &cons, &vars)?;
            if self.cache.len() > 200_000 {
                self.cache.clear();
            }
            self.cache.insert(key, r.clone());
            r
        };
        Ok(match r {
            None => Res::Unsat,
            Some(vs) => {
                let mut m = self.model.clone();
                for (v, x) in vs {
                    m[v as usize] = x;
                }
                Res::Sat(m)
            }
        })
    }
    fn run_z3(
        &mut self,
        st: &mut Store,
        e: u32,
        cons: &[u32],
        vars: &std::collections::BTreeSet<u32>,
    ) -> Result<Option<Vec<(u32, u8)>>, String> {
        let t0 = std::time::Instant::now();
        if self.z.is_none() {
            self.z = Some(Z3::new(self.rlimit));
        }
        // domain formulas
        let mut fs: Vec<u32> = vec![e];
        fs.extend_from_slice(cons);
        for v in vars {
            let d = self.dom[*v as usize];
            if d != FULL {
                let x = st.var(*v);
                fs.push(in_set(st, x, &d));
            }
        }
        let varx: Vec<(u32, u32)> = vars.iter().map(|v| (*v, st.var(*v))).collect();
        let z = self.z.as_mut().unwrap();
        let r = unsafe {
            Z3_solver_push(z.c, z.s);
            for f in fs {
                let a = z.tr(st, f);
                Z3_solver_assert(z.c, z.s, a);
            }
            let r = Z3_solver_check(z.c, z.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(z.c, z.s);
                    Z3_model_inc_ref(z.c, m);
                    let mut o = vec![];
                    for (v, x) in varx {
                        let a = z.tr(st, x);
                        let mut val: P = std::ptr::null_mut();
                        Z3_model_eval(z.c, m, a, true, &mut val);
                        Z3_inc_ref(z.c, val);
                        let mut u = 0;
                        Z3_get_numeral_uint(z.c, val, &mut u);
                        Z3_dec_ref(z.c, val);
                        o.push((v, u as u8));
                    }
                    Z3_model_dec_ref(z.c, m);
                    self.stats.z3_sat += 1;
                    Ok(Some(o))
                }
                -1 => {
                    self.stats.z3_unsat += 1;
                    Ok(None)
                }
                _ => Err("z3: unknown/timeout".to_string()),
            };
            Z3_solver_pop(z.c, z.s, 1);
            if Z3_get_error_code(z.c) != 0 {
                return Err("z3 error".into());
            }
            out
        };
        self.stats.z3_queries += 1;
        self.stats.z3_ns += t0.elapsed().as_nanos() as u64;
        r
    }
}

/// x in set, as a disjunction of ranges
pub fn in_set(st: &mut Store, x: u32, d: &[u64; 4]) -> u32 {
    let mut r = st.f();
    let mut i = 0usize;
    while i < 256 {
        if has(d, i as u8) {
            let lo = i;
            while i < 256 && has(d, i as u8) {
                i += 1;
            }
            let hi = i - 1;
            let kl = st.konst(8, lo as u128);
            let kh = st.konst(8, hi as u128);
            let c = if lo == hi {
                st.cmp(O::Eq, x, kl)
            } else {
                let p = st.cmp(O::Ule, kl, x);
                let q = st.cmp(O::Ule, x, kh);
                st.bin(O::And, p, q)
            };
            r = st.bin(O::Or, r, c);
        } else {
            i += 1;
        }
    }
    r
}
