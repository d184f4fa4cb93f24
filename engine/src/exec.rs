//! The symbolic interpreter: depth-first exploration with choice points that restore registers,
//! frames, memory (undo log) and the path condition.
use crate::expr::*;
use crate::ll::*;
use crate::mem::{self, Mem};
use crate::solver::*;

#[derive(Clone, Copy)]
pub struct Frame {
    pub f: u32,
    pub code: *const Code,
    pub pc: u32,
    pub base: usize,
    pub sp: u64,
    pub d: u32,
    pub nd: u32,
    pub hit: *mut u8,
}

pub struct Alt {
    pub cond: u32,
    pub kv: Option<(u32, u64)>,
    pub set: Option<(u32, Val)>,
    pub model: Vec<u8>,
}

pub struct Choice {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    sp: u64,
    mem: usize,
    logging: bool,
    smark: usize,
    nvars: u32,
    steps: u64,
    store: usize,
    ncov: usize,
    alts: Vec<Alt>,
}

pub struct Viol {
    pub kind: &'static str,
    pub msg: String,
    pub stack: Vec<String>,
    pub input: Vec<u8>,
}

pub enum Stop {
    /// path finished normally
    Done,
    /// path infeasible under an assumption
    Killed,
    Viol(Viol),
    Err(String),
}
pub type X<T> = Result<T, Stop>;

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_symbolic: u64,
    pub ite_loads: u64,
    pub concretized: u64,
    pub max_vars: u64,
}

pub struct Exec {
    pub m: Module,
    pub mem: Mem,
    pub st: Store,
    pub sv: Solver,
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub cur: Frame,
    pub sp: u64,
    pub choices: Vec<Choice>,
    pub nvars: u32,
    pub steps: u64,
    pub max_steps: u64,
    pub stats: Stats,
    pub hits: Vec<Option<Box<[u8]>>>,
    pub ext: Vec<Option<crate::ext::ExtFn>>,
    pub env_errno: u64,
    pub cov: Vec<u64>,
    pub covers: std::collections::HashMap<u64, (String, u64)>,
    pub pending_viol: Vec<Viol>,
    pub trace: bool,
    pub clock: u64,
}

fn omap(b: B) -> O {
    match b {
        B::Add => O::Add,
        B::Sub => O::Sub,
        B::Mul => O::Mul,
        B::UDiv => O::UDiv,
        B::SDiv => O::SDiv,
        B::URem => O::URem,
        B::SRem => O::SRem,
        B::And => O::And,
        B::Or => O::Or,
        B::Xor => O::Xor,
        B::Shl => O::Shl,
        B::LShr => O::LShr,
        B::AShr => O::AShr,
    }
}
#[inline(always)]
fn s64(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
#[inline(always)]
fn icmp_c(p: Pd, w: u8, a: u64, b: u64) -> bool {
    match p {
        Pd::Eq => a == b,
        Pd::Ne => a != b,
        Pd::Ugt => a > b,
        Pd::Uge => a >= b,
        Pd::Ult => a < b,
        Pd::Ule => a <= b,
        Pd::Sgt => s64(a, w) > s64(b, w),
        Pd::Sge => s64(a, w) >= s64(b, w),
        Pd::Slt => s64(a, w) < s64(b, w),
        Pd::Sle => s64(a, w) <= s64(b, w),
    }
}

impl Exec {
    pub fn new(m: Module, mem: Mem, all_z3: bool) -> Exec {
        let nf = m.funcs.len();
        let mut mem = mem;
        mem.stack_top = mem::BASE + mem::SIZE - 4096;
        mem.stack_lim = mem.stack_top - (64 << 20);
        let errno = (m.gend + 63) & !63;
        mem.init_heap(errno + 4096);
        let sp = mem.stack_top;
        Exec {
            m,
            mem,
            st: Store::new(),
            sv: Solver::new(all_z3),
            regs: vec![],
            frames: vec![],
            cur: Frame { f: 0, code: std::ptr::null(), pc: 0, base: 0, sp, d: 0, nd: 0, hit: std::ptr::null_mut() },
            sp,
            choices: vec![],
            nvars: 0,
            steps: 0,
            max_steps: 200_000_000,
            stats: Default::default(),
            hits: (0..nf).map(|_| None).collect(),
            ext: vec![None; nf],
            env_errno: errno,
            cov: vec![],
            covers: Default::default(),
            pending_viol: vec![],
            trace: false,
            clock: 1_700_000_000,
        }
    }
    #[inline(always)]
    pub fn rv(&mut self, r: u32) -> Val {
        if r & CONST != 0 {
            let v = unsafe { (&(*self.cur.code).consts)[(r & !CONST) as usize] };
            if v.e == WIDE {
                return self.wide_const(v.c);
            }
            v
        } else {
            unsafe { *self.regs.get_unchecked(self.cur.base + r as usize) }
        }
    }
    #[cold]
    fn wide_const(&mut self, i: u64) -> Val {
        let (w, k) = unsafe { (&(*self.cur.code).wide)[i as usize] };
        let e = self.st.konst(w, k);
        Val { c: 0, e }
    }
    #[inline(always)]
    pub fn wv(&mut self, r: u32, v: Val) {
        unsafe { *self.regs.get_unchecked_mut(self.cur.base + r as usize) = v }
    }
    #[inline(always)]
    fn we(&mut self, r: u32, e: u32) {
        let v = self.st.v(e);
        self.wv(r, v)
    }
    pub fn x(&mut self, v: Val, w: u8) -> u32 {
        self.st.x(v, w)
    }
    pub fn err<T>(&self, s: impl Into<String>) -> X<T> {
        let mut t: String = s.into();
        for l in self.stack(12) {
            t.push_str("\n    at ");
            t.push_str(&l);
        }
        Err(Stop::Err(t))
    }
    pub fn stack(&self, max: usize) -> Vec<String> {
        let mut out = vec![];
        let mut fr: Vec<Frame> = self.frames.clone();
        fr.push(self.cur);
        for (i, f) in fr.iter().rev().enumerate() {
            if f.code.is_null() {
                continue;
            }
            let code = unsafe { &*f.code };
            let pc = if i == 0 { f.pc as usize } else { (f.pc as usize).saturating_sub(1) };
            let d = code.dbg.get(pc).copied().unwrap_or(0);
            let l = self.m.loc(d);
            if l.is_empty() {
                out.push(self.m.funcs[f.f as usize].name.clone());
            }
            for (n, file, line) in l {
                out.push(format!("{} ({}:{})", n, file, line));
            }
            if out.len() > max {
                break;
            }
        }
        out.truncate(max);
        out
    }
    pub fn viol<T>(&mut self, kind: &'static str, msg: String) -> X<T> {
        let input = self.input();
        Err(Stop::Viol(Viol { kind, msg, stack: self.stack(14), input }))
    }
    pub fn input(&self) -> Vec<u8> {
        self.sv.model[..self.nvars as usize].to_vec()
    }

    // ---- symbolic input ----
    pub fn fresh(&mut self, d: &[u64; 4]) -> u32 {
        let id = self.nvars;
        self.nvars += 1;
        self.stats.max_vars = self.stats.max_vars.max(self.nvars as u64);
        self.sv.ensure_var(id);
        self.sv.new_dom(&mut self.st, id, d);
        self.st.var(id)
    }

    // ---- decisions ----
    pub fn push_choice(&mut self, alts: Vec<Alt>) {
        self.stats.forks += alts.len() as u64;
        let mut frames = self.frames.clone();
        frames.push(self.cur);
        let logging = self.mem.logging;
        let c = Choice {
            frames,
            regs: self.regs.clone(),
            sp: self.sp,
            mem: self.mem.mark(),
            logging,
            smark: self.sv.mark(),
            nvars: self.nvars,
            steps: self.steps,
            store: self.st.len(),
            ncov: self.cov.len(),
            alts,
        };
        self.choices.push(c);
    }
    /// Go back to the most recent choice with an alternative left.  false: nothing left.
    pub fn backtrack(&mut self) -> bool {
        loop {
            let Some(c) = self.choices.last_mut() else { return false };
            let Some(a) = c.alts.pop() else {
                self.choices.pop();
                continue;
            };
            let last = c.alts.is_empty();
            let (smark, mm, lg, sl) = (c.smark, c.mem, c.logging, c.store);
            if last {
                self.frames = std::mem::take(&mut c.frames);
                self.regs = std::mem::take(&mut c.regs);
            } else {
                self.frames.clear();
                self.frames.extend_from_slice(&c.frames);
                self.regs.clear();
                self.regs.extend_from_slice(&c.regs);
            }
            self.cur = self.frames.pop().unwrap();
            self.sp = c.sp;
            self.nvars = c.nvars;
            self.steps = c.steps;
            self.cov.truncate(c.ncov);
            if last {
                self.choices.pop();
            }
            self.sv.undo_to(&mut self.st, smark);
            self.mem.undo_to(mm, if last { lg } else { true });
            if self.st.len() > sl + 3_000_000 {
                self.st.truncate(sl);
                self.sv.truncate(sl);
            }
            self.sv.set_model(&mut self.st, a.model);
            self.sv.assume(&mut self.st, a.cond);
            if let Some((e, v)) = a.kv {
                self.sv.set_known_val(e, v);
            }
            if let Some((r, v)) = a.set {
                self.wv(r, v);
                self.cur.pc += 1;
            }
            return true;
        }
    }
    /// Keep only the oldest choice (used by a forked child); the parent drops it.
    pub fn keep_oldest(&mut self) {
        self.choices.truncate(1);
    }
    pub fn drop_oldest(&mut self) {
        self.choices.remove(0);
    }
    pub fn stealable(&self) -> bool {
        self.choices.len() >= 1 && !self.choices[0].alts.is_empty()
    }
    fn check(&mut self, e: u32) -> X<Res> {
        match self.sv.check(&mut self.st, e) {
            Ok(r) => Ok(r),
            Err(s) => self.err(s),
        }
    }
    /// Decide a boolean expression on this path, forking when both sides are feasible.
    pub fn decide(&mut self, e: u32) -> X<bool> {
        if let Some(k) = self.st.is_const(e) {
            return Ok(k == 1);
        }
        if let Some(b) = self.sv.quick(&mut self.st, e) {
            return Ok(b);
        }
        let v = self.st.eval(e, &self.sv.model) == 1;
        let ne = self.st.not(e);
        let (mine, other) = if v { (e, ne) } else { (ne, e) };
        match self.check(other)? {
            Res::Unsat => {
                self.sv.set_known(e, v);
                Ok(v)
            }
            Res::Sat(m) => {
                self.push_choice(vec![Alt { cond: other, kv: None, set: None, model: m }]);
                self.sv.assume(&mut self.st, mine);
                Ok(v)
            }
        }
    }
    /// Make a value concrete on this path, forking over its feasible values.
    pub fn conc(&mut self, v: Val, w: u8) -> X<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        if let Some(k) = self.st.is_const(v.e) {
            return Ok(k as u64);
        }
        if let Some(k) = self.sv.known_val(v.e) {
            return Ok(k);
        }
        let k = self.st.eval(v.e, &self.sv.model);
        let kx = self.st.konst(w, k);
        let eq = self.st.cmp(O::Eq, v.e, kx);
        let ne = self.st.not(eq);
        self.stats.concretized += 1;
        match self.sv.quick(&mut self.st, eq) {
            Some(true) => {}
            _ => match self.check(ne)? {
                Res::Unsat => {}
                Res::Sat(m) => {
                    self.push_choice(vec![Alt { cond: ne, kv: None, set: None, model: m }]);
                    self.sv.assume(&mut self.st, eq);
                }
            },
        }
        self.sv.set_known_val(v.e, k as u64);
        Ok(k as u64)
    }
    /// assume a condition; Killed when infeasible
    pub fn assume(&mut self, v: Val) -> X<()> {
        if v.e == 0 {
            return if v.c & 1 == 1 { Ok(()) } else { Err(Stop::Killed) };
        }
        let e = v.e;
        match self.sv.quick(&mut self.st, e) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Killed),
            None => {}
        }
        if self.st.eval(e, &self.sv.model) != 1 {
            match self.check(e)? {
                Res::Unsat => return Err(Stop::Killed),
                Res::Sat(m) => self.sv.set_model(&mut self.st, m),
            }
        }
        self.sv.assume(&mut self.st, e);
        Ok(())
    }
    pub fn assert(&mut self, v: Val, msg: String) -> X<()> {
        self.stats.asserts += 1;
        if v.e == 0 {
            return if v.c & 1 == 1 { Ok(()) } else { self.viol("assert", msg) };
        }
        let e = v.e;
        if self.sv.quick(&mut self.st, e) == Some(true) {
            return Ok(());
        }
        self.stats.assert_symbolic += 1;
        let ne = self.st.not(e);
        if let Res::Sat(m) = self.check(ne)? {
            let input = m[..self.nvars as usize].to_vec();
            let stack = self.stack(10);
            self.pending_viol.push(Viol { kind: "assert", msg, stack, input });
            return self.assume(v);
        }
        self.sv.set_known(e, true);
        Ok(())
    }

    // ---- memory ----
    fn bad(&mut self, a: u64, n: u64) -> X<()> {
        self.viol("segv", format!("invalid memory access at {:#x} size {}", a, n))
    }
    #[inline(always)]
    pub fn load_at(&mut self, a: u64, w: u8) -> X<Val> {
        let n = (w as u64 + 7) / 8;
        if !self.mem.ok(a, n) {
            self.bad(a, n)?;
        }
        if w <= 64 && !self.mem.has_shadow(a, n) {
            return Ok(Val::k(self.mem.rd(a, n as u32) & mask64(w)));
        }
        self.load_slow(a, w, n)
    }
    #[inline(never)]
    fn load_slow(&mut self, a: u64, w: u8, n: u64) -> X<Val> {
        let mut any = false;
        for i in 0..n {
            if self.mem.sym(a + i) != 0 {
                any = true;
                break;
            }
        }
        if !any {
            if w <= 64 {
                return Ok(Val::k(self.mem.rd(a, n as u32) & mask64(w)));
            }
            let lo = self.mem.rd(a, 8) as u128;
            let hi = self.mem.rd(a + 8, (n - 8) as u32) as u128;
            let e = self.st.konst(w, lo | hi << 64);
            return Ok(Val { c: 0, e });
        }
        let mut e = 0;
        for i in (0..n).rev() {
            let b = self.mem.byte(a + i);
            let bx = self.st.x(b, 8);
            e = if e == 0 { bx } else { self.st.concat(e, bx) };
        }
        let e = self.st.extract(e, 0, w);
        Ok(self.st.v(e))
    }
    #[inline(always)]
    pub fn store_at(&mut self, a: u64, w: u8, v: Val) -> X<()> {
        let n = (w as u64 + 7) / 8;
        if !self.mem.ok(a, n) {
            self.bad(a, n)?;
        }
        if v.e == 0 {
            self.mem.wr(a, n as u32, v.c);
            return Ok(());
        }
        let e = if w % 8 != 0 { self.st.zext(v.e, (n * 8) as u8) } else { v.e };
        for i in 0..n {
            let b = self.st.extract(e, (i * 8) as u8, 8);
            let bv = self.st.v(b);
            self.mem.wr_byte(a + i, bv);
        }
        Ok(())
    }
    /// Feasible values of a pointer expression, when there is a cheap complete enumeration:
    /// returns (condition, value) pairs covering all feasible values.
    fn enum_vals(&mut self, e: u32) -> Option<Vec<(u32, u64)>> {
        let s = self.st.sup[e as usize];
        if s != MULTI {
            let var = s - 1;
            let d = self.sv.dom[var as usize];
            let mut by: Vec<(u64, [u64; 4])> = vec![];
            let mut idx: FxMap<u64, usize> = Default::default();
            let mut m = self.sv.model.clone();
            for i in 0..256usize {
                if !has(&d, i as u8) {
                    continue;
                }
                m[var as usize] = i as u8;
                self.st.new_stamp();
                let v = self.st.eval(e, &m) as u64;
                let k = *idx.entry(v).or_insert_with(|| {
                    by.push((v, [0; 4]));
                    by.len() - 1
                });
                by[k].1[i / 64] |= 1 << (i % 64);
            }
            self.st.new_stamp();
            let x = self.st.var(var);
            return Some(by.into_iter().map(|(v, set)| (in_set(&mut self.st, x, &set), v)).collect());
        }
        let mut vals = vec![];
        if !self.leaves(e, &mut vals, 0) {
            return None;
        }
        vals.sort_unstable();
        vals.dedup();
        if vals.len() > 64 {
            return None;
        }
        let w = self.st.w(e);
        Some(
            vals.into_iter()
                .map(|v| {
                    let k = self.st.konst(w, v as u128);
                    (self.st.cmp(O::Eq, e, k), v)
                })
                .collect(),
        )
    }
    fn leaves(&mut self, e: u32, out: &mut Vec<u64>, depth: usize) -> bool {
        if depth > 70 || out.len() > 2000 {
            return false;
        }
        let n = self.st.n[e as usize];
        match n.op {
            O::Const => {
                out.push(n.k as u64);
                true
            }
            O::Ite => self.leaves(n.b, out, depth + 1) && self.leaves(n.c, out, depth + 1),
            O::Zext => self.leaves(n.a, out, depth + 1),
            O::Add | O::Sub | O::Mul | O::And | O::Or | O::Xor | O::Concat if self.st.is_const(n.b).is_some() || self.st.is_const(n.a).is_some() => {
                let (va, ka) = if self.st.is_const(n.b).is_some() { (n.a, false) } else { (n.b, true) };
                let kk = self.st.is_const(if ka { n.a } else { n.b }).unwrap();
                let s = out.len();
                if !self.leaves(va, out, depth + 1) {
                    return false;
                }
                let lw = self.st.w(n.b);
                for v in &mut out[s..] {
                    let (x, y) = if ka { (kk, *v as u128) } else { (*v as u128, kk) };
                    *v = match n.op {
                        O::Concat => (x << lw) | y,
                        op => Store::fold2(op, n.w, x, y),
                    } as u64;
                }
                true
            }
            _ => {
                let s = self.st.sup[e as usize];
                if s != MULTI && s != 0 {
                    let var = s - 1;
                    let d = self.sv.dom[var as usize];
                    let mut m = self.sv.model.clone();
                    for i in 0..256usize {
                        if has(&d, i as u8) {
                            m[var as usize] = i as u8;
                            self.st.new_stamp();
                            out.push(self.st.eval(e, &m) as u64);
                        }
                    }
                    self.st.new_stamp();
                    out.sort_unstable();
                    out.dedup();
                    return true;
                }
                false
            }
        }
    }
    fn ptr(&mut self, p: Val) -> X<u64> {
        self.conc(p, 64)
    }
    fn load_sym(&mut self, p: Val, w: u8) -> X<Val> {
        if let Some(k) = self.sv.known_val(p.e) {
            return self.load_at(k, w);
        }
        if w <= 64 {
            if let Some(vals) = self.enum_vals(p.e) {
                let n = (w as u64 + 7) / 8;
                let mut groups: Vec<(Val, u32)> = vec![];
                let mut good = true;
                for (c, a) in &vals {
                    if !self.mem.ok(*a, n) {
                        match self.check(*c)? {
                            Res::Unsat => continue,
                            Res::Sat(_) => {
                                good = false;
                                break;
                            }
                        }
                    }
                    let v = self.load_at(*a, w)?;
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == v) {
                        g.1 = self.st.bin(O::Or, g.1, *c);
                    } else {
                        groups.push((v, *c));
                    }
                }
                if good && !groups.is_empty() {
                    self.stats.ite_loads += 1;
                    let mut it = groups.into_iter();
                    let f = it.next().unwrap();
                    let mut r = self.st.x(f.0, w);
                    for (v, c) in it {
                        let vx = self.st.x(v, w);
                        r = self.st.ite(c, vx, r);
                    }
                    return Ok(self.st.v(r));
                }
            }
        }
        let a = self.ptr(p)?;
        self.load_at(a, w)
    }

    // ---- calls ----
    pub fn enter(&mut self, fi: u32, args: &[Val], d: u32, nd: u32) -> X<()> {
        if self.m.funcs[fi as usize].code.is_none() {
            if let Err(e) = self.m.compile(fi) {
                return self.err(format!("compile {}: {}", self.m.funcs[fi as usize].name, e));
            }
        }
        let f = &mut self.m.funcs[fi as usize];
        f.count += 1;
        let code: *const Code = &**f.code.as_ref().unwrap();
        let code_r = unsafe { &*code };
        if self.hits[fi as usize].is_none() {
            self.hits[fi as usize] = Some(vec![0u8; code_r.ops.len() + 1].into_boxed_slice());
        }
        let hit = self.hits[fi as usize].as_mut().unwrap().as_mut_ptr();
        let base = self.regs.len();
        self.regs.resize(base + code_r.nregs as usize, Val::k(0));
        let np = (code_r.nparams as usize).min(args.len());
        self.regs[base..base + np].copy_from_slice(&args[..np]);
        self.frames.push(self.cur);
        self.cur = Frame { f: fi, code, pc: 0, base, sp: self.sp, d, nd, hit };
        if self.mem.stack_top - self.sp + self.frames.len() as u64 * 64 > 8 << 20 || self.frames.len() > 60_000 {
            return self.viol("stack", "stack overflow".into());
        }
        Ok(())
    }
    fn jump(&mut self, e: u32) {
        let code = unsafe { &*self.cur.code };
        let ed = &code.edges[e as usize];
        self.cur.pc = ed.pc;
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, s) = ed.moves[0];
                let v = self.rv(s);
                self.wv(d, v);
            }
            _ => {
                let mut tmp: [Val; 32] = [Val::k(0); 32];
                if ed.moves.len() <= 32 {
                    for (i, (_, s)) in ed.moves.iter().enumerate() {
                        tmp[i] = self.rv(*s);
                    }
                    for (i, (d, _)) in ed.moves.iter().enumerate() {
                        self.wv(*d, tmp[i]);
                    }
                } else {
                    let vs: Vec<Val> = ed.moves.iter().map(|(_, s)| self.rv(*s)).collect();
                    for ((d, _), v) in ed.moves.iter().zip(vs) {
                        self.wv(*d, v);
                    }
                }
            }
        }
    }
    fn is_panic(name: &str) -> bool {
        name.contains("4core9panicking") || name.contains("rust_begin_unwind") || name.contains("17rust_begin_panic")
    }
    fn panic_msg(&mut self, args: &[Val]) -> String {
        // best effort: a &str (ptr, len) argument, or fmt::Arguments pointing at pieces
        if args.len() >= 2 && args[0].e == 0 && args[1].e == 0 && self.mem.ok(args[0].c, 1) && args[1].c > 0 && args[1].c < 400 && self.mem.ok(args[0].c, args[1].c) {
            let b = self.mem.bytes(args[0].c, args[1].c);
            if b.iter().all(|c| (32..127).contains(c)) {
                return String::from_utf8_lossy(&b).to_string();
            }
        }
        String::new()
    }

    /// Run a slice of the path; Some when it ended.
    pub fn run_slice(&mut self) -> Option<Stop> {
        self.step_many().err()
    }
    fn step_many(&mut self) -> X<()> {
        for i in 0..100_000u64 {
            if let Err(s) = self.step() {
                self.stats.steps += i;
                return Err(s);
            }
        }
        self.steps += 100_000;
        self.stats.steps += 100_000;
        if self.steps > self.max_steps {
            return self.viol("hang", "step limit exceeded (no termination)".into());
        }
        Ok(())
    }
    #[inline(always)]
    fn step(&mut self) -> X<()> {
        let code = unsafe { &*self.cur.code };
        let pc = self.cur.pc as usize;
        let op = unsafe { code.ops.get_unchecked(pc) };
        unsafe { *self.cur.hit.add(pc) = 1 };
        match op {
            Op::Bin(b, w, d, a, c) => {
                let (x, y) = (self.rv(*a), self.rv(*c));
                let v = if x.e == 0 && y.e == 0 { self.bin_c(*b, *w, x.c, y.c)? } else { self.bin_s(*b, *w, x, y)? };
                self.wv(*d, v);
            }
            Op::ICmp(p, w, d, a, c) => {
                let (x, y) = (self.rv(*a), self.rv(*c));
                let v = if x.e == 0 && y.e == 0 { Val::k(icmp_c(*p, *w, x.c, y.c) as u64) } else { self.icmp_s(*p, *w, x, y) };
                self.wv(*d, v);
            }
            Op::Sel(w, d, c, a, b) => {
                let cv = self.rv(*c);
                let v = if cv.e == 0 {
                    if cv.c & 1 == 1 {
                        self.rv(*a)
                    } else {
                        self.rv(*b)
                    }
                } else {
                    match self.sv.quick(&mut self.st, cv.e) {
                        Some(true) => self.rv(*a),
                        Some(false) => self.rv(*b),
                        None => {
                            let (x, y) = (self.rv(*a), self.rv(*b));
                            let (x, y) = (self.st.x(x, *w), self.st.x(y, *w));
                            let e = self.st.ite(cv.e, x, y);
                            self.st.v(e)
                        }
                    }
                };
                self.wv(*d, v);
            }
            Op::Zext(_f, t, d, a) => {
                let x = self.rv(*a);
                let v = if x.e == 0 && *t <= 64 {
                    x
                } else if x.e == 0 {
                    let e = self.st.konst(*t, x.c as u128);
                    Val { c: 0, e }
                } else {
                    let e = self.st.zext(x.e, *t);
                    self.st.v(e)
                };
                self.wv(*d, v);
            }
            Op::Sext(f, t, d, a) => {
                let x = self.rv(*a);
                let v = if x.e == 0 && *t <= 64 {
                    Val::k(s64(x.c, *f) as u64 & mask64(*t))
                } else {
                    let xe = self.st.x(x, *f);
                    let e = self.st.sext(xe, *t);
                    self.st.v(e)
                };
                self.wv(*d, v);
            }
            Op::Trunc(_f, t, d, a) => {
                let x = self.rv(*a);
                let v = if x.e == 0 {
                    Val::k(x.c & mask64(*t))
                } else {
                    let e = self.st.extract(x.e, 0, *t);
                    self.st.v(e)
                };
                self.wv(*d, v);
            }
            Op::Mov(d, a) => {
                let v = self.rv(*a);
                self.wv(*d, v);
            }
            Op::Gep { d, base, off, terms } => {
                let b = self.rv(*base);
                let mut acc = b.c.wrapping_add(*off as u64);
                let mut sym = b.e != 0;
                for (r, w, s) in terms {
                    let t = self.rv(*r);
                    if t.e != 0 {
                        sym = true;
                        break;
                    }
                    acc = acc.wrapping_add((s64(t.c, *w)).wrapping_mul(*s) as u64);
                }
                if sym {
                    let v = self.gep_s(b, *off, terms);
                    self.wv(*d, v);
                } else {
                    self.wv(*d, Val::k(acc));
                }
            }
            Op::Load1(w, d, p) => {
                let pv = self.rv(*p);
                let v = if pv.e == 0 { self.load_at(pv.c, *w)? } else { self.load_sym(pv, *w)? };
                self.wv(*d, v);
            }
            Op::Store1(w, v, p) => {
                let pv = self.rv(*p);
                let a = if pv.e == 0 { pv.c } else { self.ptr(pv)? };
                let x = self.rv(*v);
                self.store_at(a, *w, x)?;
            }
            Op::Br(e) => {
                self.jump(*e);
                return Ok(());
            }
            Op::CBr(c, a, b) => {
                let cv = self.rv(*c);
                let t = if cv.e == 0 { cv.c & 1 == 1 } else { self.decide(cv.e)? };
                self.jump(if t { *a } else { *b });
                return Ok(());
            }
            Op::Switch { w, v, def, cases } => {
                let x = self.rv(*v);
                let e = if x.e == 0 {
                    let mut t = *def;
                    for (k, e) in cases {
                        if *k == x.c {
                            t = *e;
                            break;
                        }
                    }
                    t
                } else {
                    self.switch_s(*w, x, *def, cases)?
                };
                self.jump(e);
                return Ok(());
            }
            Op::Call(ci) => {
                return self.call(ci);
            }
            Op::Ret(vs) => {
                let f = self.cur;
                let mut buf: [Val; 8] = [Val::k(0); 8];
                let big: Vec<Val>;
                let nd = f.nd as usize;
                let out: &[Val] = if nd <= 8 {
                    for (i, r) in vs.iter().enumerate().take(nd) {
                        buf[i] = self.rv(*r);
                    }
                    &buf[..nd]
                } else {
                    big = vs.iter().map(|r| self.rv(*r)).collect();
                    &big
                };
                self.sp = f.sp;
                self.regs.truncate(f.base);
                self.cur = self.frames.pop().unwrap();
                if self.cur.code.is_null() {
                    return Err(Stop::Done);
                }
                for (i, v) in out.iter().enumerate() {
                    unsafe { *self.regs.get_unchecked_mut(self.cur.base + f.d as usize + i) = *v }
                }
                return Ok(());
            }
            _ => self.rare(op)?,
        }
        self.cur.pc += 1;
        Ok(())
    }

    #[inline(always)]
    fn bin_c(&mut self, b: B, w: u8, x: u64, y: u64) -> X<Val> {
        let m = mask64(w);
        let r = match b {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    x << y
                }
            }
            B::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            B::AShr => (s64(x, w) >> y.min(63)) as u64,
            B::UDiv | B::URem | B::SDiv | B::SRem => {
                if y == 0 {
                    return self.viol("div", "division by zero".into());
                }
                match b {
                    B::UDiv => x / y,
                    B::URem => x % y,
                    B::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                    _ => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                }
            }
        };
        Ok(Val::k(r & m))
    }
    #[inline(never)]
    fn bin_s(&mut self, b: B, w: u8, x: Val, y: Val) -> X<Val> {
        let (x, y) = (self.st.x(x, w), self.st.x(y, w));
        let e = self.st.bin(omap(b), x, y);
        Ok(self.st.v(e))
    }
    #[inline(never)]
    fn icmp_s(&mut self, p: Pd, w: u8, x: Val, y: Val) -> Val {
        let (x, y) = (self.st.x(x, w), self.st.x(y, w));
        let st = &mut self.st;
        let e = match p {
            Pd::Eq => st.cmp(O::Eq, x, y),
            Pd::Ne => {
                let t = st.cmp(O::Eq, x, y);
                st.not(t)
            }
            Pd::Ugt => st.cmp(O::Ult, y, x),
            Pd::Uge => st.cmp(O::Ule, y, x),
            Pd::Ult => st.cmp(O::Ult, x, y),
            Pd::Ule => st.cmp(O::Ule, x, y),
            Pd::Sgt => st.cmp(O::Slt, y, x),
            Pd::Sge => st.cmp(O::Sle, y, x),
            Pd::Slt => st.cmp(O::Slt, x, y),
            Pd::Sle => st.cmp(O::Sle, x, y),
        };
        st.v(e)
    }
    #[inline(never)]
    fn gep_s(&mut self, b: Val, off: i64, terms: &[(u32, u8, i64)]) -> Val {
        let mut e = self.st.x(b, 64);
        for (r, w, s) in terms {
            let t = self.rv(*r);
            let tx = self.st.x(t, *w);
            let tx = if *w < 64 {
                self.st.sext(tx, 64)
            } else if *w > 64 {
                self.st.extract(tx, 0, 64)
            } else {
                tx
            };
            let k = self.st.konst(64, *s as u64 as u128);
            let tx = self.st.bin(O::Mul, tx, k);
            e = self.st.bin(O::Add, e, tx);
        }
        let k = self.st.konst(64, off as u64 as u128);
        e = self.st.bin(O::Add, e, k);
        self.st.v(e)
    }
    #[inline(never)]
    fn switch_s(&mut self, w: u8, x: Val, def: u32, cases: &[(u64, u32)]) -> X<u32> {
        let code = unsafe { &*self.cur.code };
        if let Some(k) = self.sv.known_val(x.e) {
            for (c, e) in cases {
                if *c == k {
                    return Ok(*e);
                }
            }
            return Ok(def);
        }
        // group by target and phi moves
        let same = |a: u32, b: u32| {
            let (p, q) = (&code.edges[a as usize], &code.edges[b as usize]);
            p.pc == q.pc && p.moves == q.moves
        };
        let mut groups: Vec<(u32, u32)> = vec![]; // (edge, cond)
        let mut any = self.st.f();
        for (k, e) in cases {
            let kx = self.st.konst(w, *k as u128);
            let c = self.st.cmp(O::Eq, x.e, kx);
            if self.st.is_const(c) == Some(0) {
                continue;
            }
            any = self.st.bin(O::Or, any, c);
            if let Some(g) = groups.iter_mut().find(|g| same(g.0, *e)) {
                g.1 = self.st.bin(O::Or, g.1, c);
            } else {
                groups.push((*e, c));
            }
        }
        let nd = self.st.not(any);
        if let Some(g) = groups.iter_mut().find(|g| same(g.0, def)) {
            g.1 = self.st.bin(O::Or, g.1, nd);
        } else {
            groups.push((def, nd));
        }
        let mut open = vec![];
        for (e, c) in groups {
            if let Some(k) = self.st.is_const(c) {
                if k == 1 {
                    return Ok(e);
                }
                continue;
            }
            match self.sv.quick(&mut self.st, c) {
                Some(true) => return Ok(e),
                Some(false) => {}
                None => open.push((e, c)),
            }
        }
        let mut mine = None;
        let mut alts = vec![];
        for (e, c) in open {
            if self.st.eval(c, &self.sv.model) == 1 {
                mine = Some((e, c));
            } else if let Res::Sat(m) = self.check(c)? {
                alts.push(Alt { cond: c, kv: None, set: None, model: m });
            }
        }
        let Some((e, c)) = mine else { return self.err("switch: model matches no case") };
        if !alts.is_empty() {
            self.push_choice(alts);
            self.sv.assume(&mut self.st, c);
        } else {
            self.sv.set_known(c, true);
        }
        Ok(e)
    }
    #[inline(never)]
    fn call(&mut self, ci: &CallI) -> X<()> {
        let mut buf: [Val; 16] = [Val::k(0); 16];
        let big: Vec<Val>;
        let args: &[Val] = if ci.args.len() <= 16 {
            for (i, r) in ci.args.iter().enumerate() {
                buf[i] = self.rv(*r);
            }
            &buf[..ci.args.len()]
        } else {
            big = ci.args.iter().map(|r| self.rv(*r)).collect();
            &big
        };
        let fi = match &ci.callee {
            Callee::Func(f) => *f,
            Callee::Ptr(r) => {
                let p = self.rv(*r);
                let a = self.conc(p, 64)?;
                match self.m.by_addr(a) {
                    Some(f) => f,
                    None => return self.viol("segv", format!("call of a non-function address {:#x}", a)),
                }
            }
            Callee::Asm(s) => {
                let s = s.clone();
                self.asm(&s, ci)?;
                self.cur.pc += 1;
                return Ok(());
            }
        };
        if let Some(x) = self.ext[fi as usize] {
            return self.ext_call(x, fi, ci, args);
        }
        let f = &self.m.funcs[fi as usize];
        if f.body.is_some() && f.count == 0 {
            let name = f.name.clone();
            if Self::is_panic(&name) {
                let m = self.panic_msg(args);
                return self.viol("panic", m);
            }
            if let Some(x) = crate::ext::override_fn(&name) {
                self.ext[fi as usize] = Some(x);
                return self.ext_call(x, fi, ci, args);
            }
        }
        if self.m.funcs[fi as usize].body.is_some() {
            self.cur.pc += 1;
            return self.enter(fi, args, ci.d, ci.nd);
        }
        let name = self.m.funcs[fi as usize].name.clone();
        if Self::is_panic(&name) {
            let m = self.panic_msg(args);
            return self.viol("panic", m);
        }
        match crate::ext::lookup(&name) {
            Some(x) => {
                self.ext[fi as usize] = Some(x);
                self.ext_call(x, fi, ci, args)
            }
            None => self.err(format!("unsupported external function {}", name)),
        }
    }
    fn ext_call(&mut self, x: crate::ext::ExtFn, _fi: u32, ci: &CallI, args: &[Val]) -> X<()> {
        self.m.funcs[_fi as usize].count += 1;
        let r = x(self, args, ci)?;
        if ci.nd == 1 {
            self.wv(ci.d, r);
        } else if ci.nd > 1 {
            return self.err("external function with aggregate result");
        }
        self.cur.pc += 1;
        Ok(())
    }
    fn asm(&mut self, s: &str, ci: &CallI) -> X<()> {
        if s.contains("cpuid") || s.contains("xgetbv") {
            for i in 0..ci.nd {
                self.wv(ci.d + i, Val::k(0));
            }
            return Ok(());
        }
        let code = s.split('|').next().unwrap_or("");
        if code.trim().is_empty() || code.starts_with("pause") {
            return Ok(());
        }
        self.err(format!("inline asm: {}", s))
    }

    #[inline(never)]
    fn rare(&mut self, op: &Op) -> X<()> {
        match op {
            Op::Repack { d, dl, a, al } => {
                // concatenate the source lanes (lane 0 lowest), split again
                let tot: u32 = al.iter().map(|w| *w as u32).sum();
                if tot > 128 {
                    // lane-wise regrouping for wide vectors
                    return self.repack_wide(*d, dl, a, al);
                }
                let mut e = 0u32;
                for (i, r) in a.iter().enumerate().rev() {
                    let v = self.rv(*r);
                    let x = self.st.x(v, al[i]);
                    e = if e == 0 { x } else { self.st.concat(e, x) };
                }
                let mut lo = 0u8;
                for (i, w) in dl.iter().enumerate() {
                    let x = self.st.extract(e, lo, *w);
                    self.we(*d + i as u32, x);
                    lo = lo.wrapping_add(*w);
                }
            }
            Op::LoadN { d, p, lanes } => {
                let pv = self.rv(*p);
                let a = if pv.e == 0 { pv.c } else { self.ptr(pv)? };
                for (i, (o, w)) in lanes.iter().enumerate() {
                    let v = self.load_at(a + *o as u64, *w)?;
                    self.wv(*d + i as u32, v);
                }
            }
            Op::LoadBits { d, p, n, w } => {
                let pv = self.rv(*p);
                let a = if pv.e == 0 { pv.c } else { self.ptr(pv)? };
                let tot = *n * *w as u32;
                let v = self.load_at(a, tot as u8)?;
                let x = self.st.x(v, tot as u8);
                for i in 0..*n {
                    let e = self.st.extract(x, (i * *w as u32) as u8, *w);
                    self.we(*d + i, e);
                }
            }
            Op::StoreN { v, p, lanes } => {
                let pv = self.rv(*p);
                let a = if pv.e == 0 { pv.c } else { self.ptr(pv)? };
                for (i, (o, w)) in lanes.iter().enumerate() {
                    let x = self.rv(v[i]);
                    self.store_at(a + *o as u64, *w, x)?;
                }
            }
            Op::Unreachable => return self.viol("unreachable", "unreachable/trap reached".into()),
            Op::Alloca { d, size, n, align } => {
                let nv = self.rv(*n);
                let k = self.conc(nv, 64)?;
                let a = (self.sp - size * k) & !(*align.max(&16) - 1);
                if a < self.mem.stack_lim {
                    return self.viol("stack", "stack overflow".into());
                }
                self.sp = a;
                self.wv(*d, Val::k(a));
            }
            Op::Rmw(k, w, d, p, v) => {
                let pv = self.rv(*p);
                let a = self.ptr(pv)?;
                let old = self.load_at(a, *w)?;
                let x = self.rv(*v);
                let new = match k {
                    0 => x,
                    6 | 7 => {
                        let c = self.icmp_any(if *k == 6 { Pd::Ugt } else { Pd::Ult }, *w, old, x);
                        let (ox, xx, cx) = (self.st.x(old, *w), self.st.x(x, *w), self.st.x(c, 1));
                        let e = self.st.ite(cx, ox, xx);
                        self.st.v(e)
                    }
                    _ => {
                        let b = [B::Add, B::Add, B::Sub, B::And, B::Or, B::Xor][*k as usize];
                        if old.e == 0 && x.e == 0 {
                            self.bin_c(b, *w, old.c, x.c)?
                        } else {
                            self.bin_s(b, *w, old, x)?
                        }
                    }
                };
                self.store_at(a, *w, new)?;
                self.wv(*d, old);
            }
            Op::CmpXchg { w, d, p, c, n } => {
                let pv = self.rv(*p);
                let a = self.ptr(pv)?;
                let old = self.load_at(a, *w)?;
                let (cv, nv) = (self.rv(*c), self.rv(*n));
                let eq = self.icmp_any(Pd::Eq, *w, old, cv);
                let t = if eq.e == 0 { eq.c == 1 } else { self.decide(eq.e)? };
                if t {
                    self.store_at(a, *w, nv)?;
                }
                self.wv(*d, old);
                self.wv(*d + 1, Val::k(t as u64));
            }
            Op::FBin(b, dbl, d, a) => {
                let w = if *dbl { 64 } else { 32 };
                let mut v = [0u64; 3];
                for (i, r) in a.iter().enumerate() {
                    let x = self.rv(*r);
                    v[i] = self.conc(x, w)?;
                }
                let r = if *dbl { fbin64(*b, f64::from_bits(v[0]), f64::from_bits(v[1]), f64::from_bits(v[2])).to_bits() } else { fbin32(*b, f32::from_bits(v[0] as u32), f32::from_bits(v[1] as u32), f32::from_bits(v[2] as u32)).to_bits() as u64 };
                self.wv(*d, Val::k(r));
            }
            Op::FCmp(p, dbl, d, a, b) => {
                let w = if *dbl { 64 } else { 32 };
                let (x, y) = (self.rv(*a), self.rv(*b));
                let x = self.conc(x, w)?;
                let y = self.conc(y, w)?;
                let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p & 7 {
                    0 => false,
                    1 => x == y,
                    2 => x > y,
                    3 => x >= y,
                    4 => x < y,
                    5 => x <= y,
                    6 => x != y && !un,
                    _ => !un,
                };
                // 8..15: unordered variants (uno ueq ugt uge ult ule une true)
                let r = if *p >= 8 {
                    match p {
                        8 => un,
                        9 => un || x == y,
                        10 => un || x > y,
                        11 => un || x >= y,
                        12 => un || x < y,
                        13 => un || x <= y,
                        14 => un || x != y,
                        _ => true,
                    }
                } else {
                    r
                };
                self.wv(*d, Val::k(r as u64));
            }
            Op::FCast { k, fw, tw, sat: _, d, a } => {
                let x = self.rv(*a);
                let v = self.conc(x, *fw)?;
                let ff = |v: u64| if *fw == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let to = |f: f64| if *tw == 64 { f.to_bits() } else { (f as f32).to_bits() as u64 };
                let r = match k {
                    FC::SiToFp => {
                        if *tw == 32 {
                            (s64(v, *fw) as f32).to_bits() as u64
                        } else {
                            to(s64(v, *fw) as f64)
                        }
                    }
                    FC::UiToFp => {
                        if *tw == 32 {
                            (v as f32).to_bits() as u64
                        } else {
                            to(v as f64)
                        }
                    }
                    FC::FpToUi => {
                        let f = ff(v);
                        let m = mask64(*tw);
                        if f.is_nan() || f <= 0.0 {
                            0
                        } else if f >= m as f64 {
                            m
                        } else {
                            f as u64
                        }
                    }
                    FC::FpToSi => {
                        let f = ff(v);
                        let hi = (mask64(*tw) >> 1) as i64;
                        let r = (f as i64).clamp(-hi - 1, hi);
                        r as u64 & mask64(*tw)
                    }
                    FC::Ext | FC::Trunc => to(ff(v)),
                };
                self.wv(*d, Val::k(r));
            }
            Op::ExtElt { d, v, idx, w: _ } => {
                let i = self.rv(*idx);
                let i = self.conc(i, 64)? as usize;
                let x = if i < v.len() { self.rv(v[i]) } else { Val::k(0) };
                self.wv(*d, x);
            }
            Op::InsElt { d, v, x, idx, w: _ } => {
                let i = self.rv(*idx);
                let i = self.conc(i, 64)? as usize;
                for k in 0..v.len() {
                    let y = if k == i { self.rv(*x) } else { self.rv(v[k]) };
                    self.wv(*d + k as u32, y);
                }
            }
            Op::Intr { i, w, d, a } => self.intr(*i, *w, *d, a)?,
            Op::Nop => {}
            Op::Unsup(s) => return self.err(format!("unsupported instruction: {}", s)),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn repack_wide(&mut self, d: u32, dl: &[u8], a: &[u32], al: &[u8]) -> X<()> {
        // treat as a sequence of bits grouped to the smaller lanes
        let g = dl[0].min(al[0]);
        if dl.iter().any(|w| *w % g != 0) || al.iter().any(|w| *w % g != 0) || dl.iter().any(|w| *w > 128) || al.iter().any(|w| *w > 128) {
            return self.err("bitcast of a wide vector");
        }
        let mut parts = vec![];
        for (i, r) in a.iter().enumerate() {
            let v = self.rv(*r);
            let x = self.st.x(v, al[i]);
            for k in 0..al[i] / g {
                parts.push(self.st.extract(x, k * g, g));
            }
        }
        let mut p = 0;
        for (i, w) in dl.iter().enumerate() {
            let n = (*w / g) as usize;
            let mut e = 0;
            for k in (0..n).rev() {
                e = if e == 0 { parts[p + k] } else { self.st.concat(e, parts[p + k]) };
            }
            p += n;
            self.we(d + i as u32, e);
        }
        Ok(())
    }
    pub fn icmp_any(&mut self, p: Pd, w: u8, x: Val, y: Val) -> Val {
        if x.e == 0 && y.e == 0 {
            Val::k(icmp_c(p, w, x.c, y.c) as u64)
        } else {
            self.icmp_s(p, w, x, y)
        }
    }
    fn intr(&mut self, i: I, w: u8, d: u32, a: &[u32]) -> X<()> {
        match i {
            I::Memcpy => {
                let (dv, sv, nv) = (self.rv(a[0]), self.rv(a[1]), self.rv(a[2]));
                let n = self.conc(nv, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let dp = self.ptr(dv)?;
                let sp = self.ptr(sv)?;
                return self.memcpy(dp, sp, n);
            }
            I::Memset => {
                let (dv, v, nv) = (self.rv(a[0]), self.rv(a[1]), self.rv(a[2]));
                let n = self.conc(nv, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let dp = self.ptr(dv)?;
                if !self.mem.ok(dp, n) {
                    self.bad(dp, n)?;
                }
                self.mem.set(dp, v, n);
                return Ok(());
            }
            I::LoadRel => {
                let (p, o) = (self.rv(a[0]), self.rv(a[1]));
                let p = self.ptr(p)?;
                let o = self.conc(o, w)?;
                let at = p.wrapping_add(s64(o, w) as u64);
                let v = self.load_at(at, 32)?;
                let v = self.conc(v, 32)?;
                self.wv(d, Val::k(p.wrapping_add(s64(v, 32) as u64)));
                return Ok(());
            }
            I::VecAdd | I::VecOr | I::VecAnd | I::VecUMax | I::VecUMin => {
                let v0 = self.rv(a[0]);
                let mut e = self.st.x(v0, w);
                for r in &a[1..] {
                    let v = self.rv(*r);
                    let x = self.st.x(v, w);
                    e = match i {
                        I::VecAdd => self.st.bin(O::Add, e, x),
                        I::VecOr => self.st.bin(O::Or, e, x),
                        I::VecAnd => self.st.bin(O::And, e, x),
                        I::VecUMax => {
                            let c = self.st.cmp(O::Ult, e, x);
                            self.st.ite(c, x, e)
                        }
                        _ => {
                            let c = self.st.cmp(O::Ult, x, e);
                            self.st.ite(c, x, e)
                        }
                    };
                }
                self.we(d, e);
                return Ok(());
            }
            _ => {}
        }
        let vals: Vec<Val> = a.iter().map(|r| self.rv(*r)).collect();
        let x = vals[0];
        let y = vals.get(1).copied().unwrap_or(Val::k(0));
        // concrete fast paths
        if vals.iter().all(|v| v.e == 0) && w <= 64 {
            let (p, q) = (x.c, y.c);
            let m = mask64(w);
            let (sp, sq) = (s64(p, w), s64(q, w));
            let smax = (m >> 1) as i128;
            let smin = -smax - 1;
            let r = match i {
                I::UMax => p.max(q),
                I::UMin => p.min(q),
                I::SMax => (sp.max(sq)) as u64 & m,
                I::SMin => (sp.min(sq)) as u64 & m,
                I::Ctpop => p.count_ones() as u64,
                I::Cttz => {
                    if p == 0 {
                        w as u64
                    } else {
                        p.trailing_zeros() as u64
                    }
                }
                I::Ctlz => (p.leading_zeros() as u64) - (64 - w as u64),
                I::USubSat => p.saturating_sub(q),
                I::UAddSat => (p as u128 + q as u128).min(m as u128) as u64,
                I::SSubSat => (sp as i128 - sq as i128).clamp(smin, smax) as u64 & m,
                I::SAddSat => (sp as i128 + sq as i128).clamp(smin, smax) as u64 & m,
                I::UCmp => (p > q) as i64 as u64 & mask64(vals[2].c as u8) | if p < q { mask64(vals[2].c as u8) } else { 0 },
                I::SCmp => (sp > sq) as i64 as u64 & mask64(vals[2].c as u8) | if sp < sq { mask64(vals[2].c as u8) } else { 0 },
                I::Bswap => p.swap_bytes() >> (64 - w),
                I::Bitrev => p.reverse_bits() >> (64 - w),
                I::Abs => (sp.wrapping_abs()) as u64 & m,
                I::Fshl | I::Fshr => {
                    let z = vals[2].c % w as u64;
                    let c = ((p as u128) << w) | q as u128;
                    (if i == I::Fshl { (c << z) >> w } else { c >> z }) as u64 & m
                }
                I::UAddO | I::USubO | I::UMulO | I::SAddO | I::SSubO | I::SMulO => {
                    let (r, o) = match i {
                        I::UAddO => (p.wrapping_add(q), p as u128 + q as u128 > m as u128),
                        I::USubO => (p.wrapping_sub(q), p < q),
                        I::UMulO => (p.wrapping_mul(q), p as u128 * q as u128 > m as u128),
                        _ => {
                            let v = match i {
                                I::SAddO => sp as i128 + sq as i128,
                                I::SSubO => sp as i128 - sq as i128,
                                _ => sp as i128 * sq as i128,
                            };
                            (v as u64, v > smax || v < smin)
                        }
                    };
                    self.wv(d + 1, Val::k(o as u64));
                    r & m
                }
                I::IsConst => 0,
                _ => return self.err(format!("intrinsic {:?}", i)),
            };
            self.wv(d, Val::k(r));
            return Ok(());
        }
        let xe = self.st.x(x, w);
        let ye = if vals.len() > 1 { if y.e != 0 || !matches!(i, I::Cttz | I::Ctlz | I::Abs) { self.st.x(y, w) } else { 0 } } else { 0 };
        let st = &mut self.st;
        let e = match i {
            I::UMax => {
                let c = st.cmp(O::Ult, xe, ye);
                st.ite(c, ye, xe)
            }
            I::UMin => {
                let c = st.cmp(O::Ult, ye, xe);
                st.ite(c, ye, xe)
            }
            I::SMax => {
                let c = st.cmp(O::Slt, xe, ye);
                st.ite(c, ye, xe)
            }
            I::SMin => {
                let c = st.cmp(O::Slt, ye, xe);
                st.ite(c, ye, xe)
            }
            I::USubSat => {
                let c = st.cmp(O::Ult, xe, ye);
                let s = st.bin(O::Sub, xe, ye);
                let z = st.konst(w, 0);
                st.ite(c, z, s)
            }
            I::UAddSat => {
                let s = st.bin(O::Add, xe, ye);
                let c = st.cmp(O::Ult, s, xe);
                let z = st.konst(w, mask(w));
                st.ite(c, z, s)
            }
            I::Ctpop => {
                let mut e = st.konst(w, 0);
                for k in 0..w {
                    let b = st.extract(xe, k, 1);
                    let b = st.zext(b, w);
                    e = st.bin(O::Add, e, b);
                }
                e
            }
            I::Cttz | I::Ctlz => {
                let mut e = st.konst(w, w as u128);
                for k in 0..w {
                    // the last written wins: iterate from the least significant candidate
                    let bit = if i == I::Cttz { w - 1 - k } else { k };
                    let b = st.extract(xe, bit, 1);
                    let v = if i == I::Cttz { bit as u128 } else { (w - 1 - bit) as u128 };
                    let kx = st.konst(w, v);
                    e = st.ite(b, kx, e);
                }
                e
            }
            I::UCmp | I::SCmp => {
                let rw = vals[2].c as u8;
                let o = if i == I::UCmp { O::Ult } else { O::Slt };
                let lt = st.cmp(o, xe, ye);
                let gt = st.cmp(o, ye, xe);
                let m1 = st.konst(rw, mask(rw));
                let p1 = st.konst(rw, 1);
                let z = st.konst(rw, 0);
                let t = st.ite(gt, p1, z);
                st.ite(lt, m1, t)
            }
            I::Bswap => {
                let mut e = 0;
                for k in 0..w / 8 {
                    let b = st.extract(xe, k * 8, 8);
                    e = if e == 0 { b } else { st.concat(e, b) };
                }
                e
            }
            I::Bitrev => {
                let mut e = 0;
                for k in 0..w {
                    let b = st.extract(xe, k, 1);
                    e = if e == 0 { b } else { st.concat(e, b) };
                }
                e
            }
            I::Abs => {
                let z = st.konst(w, 0);
                let c = st.cmp(O::Slt, xe, z);
                let n = st.bin(O::Sub, z, xe);
                st.ite(c, n, xe)
            }
            I::Fshl | I::Fshr => {
                let zv = vals[2];
                if zv.e == 0 {
                    let z = (zv.c % w as u64) as u8;
                    // fshl: high w bits of (x:y) << z
                    if z == 0 {
                        if i == I::Fshl {
                            xe
                        } else {
                            ye
                        }
                    } else {
                        let l = if i == I::Fshl { z } else { w - z };
                        let hi = st.extract(xe, 0, w - l);
                        let lo = st.extract(ye, w - l, l);
                        st.concat(hi, lo)
                    }
                } else {
                    let ze = zv.e;
                    let kw = st.konst(w, w as u128);
                    let z = st.bin(O::URem, ze, kw);
                    let r = st.bin(O::Sub, kw, z);
                    let zero = st.konst(w, 0);
                    let isz = st.cmp(O::Eq, z, zero);
                    if i == I::Fshl {
                        let p = st.bin(O::Shl, xe, z);
                        let q = st.bin(O::LShr, ye, r);
                        let t = st.bin(O::Or, p, q);
                        st.ite(isz, xe, t)
                    } else {
                        let p = st.bin(O::LShr, ye, z);
                        let q = st.bin(O::Shl, xe, r);
                        let t = st.bin(O::Or, p, q);
                        st.ite(isz, ye, t)
                    }
                }
            }
            I::UAddO => {
                let s = st.bin(O::Add, xe, ye);
                let c = st.cmp(O::Ult, s, xe);
                self.we(d + 1, c);
                s
            }
            I::USubO => {
                let s = st.bin(O::Sub, xe, ye);
                let c = st.cmp(O::Ult, xe, ye);
                self.we(d + 1, c);
                s
            }
            I::UMulO | I::SMulO => {
                if w > 64 {
                    // u128 overflow multiplication: concrete only
                    if let (Some(p), Some(q)) = (st.is_const(xe), st.is_const(ye)) {
                        let (r, o) = p.overflowing_mul(q);
                        let rx = st.konst(w, r);
                        let ox = st.konst(1, o as u128);
                        self.we(d + 1, ox);
                        self.we(d, rx);
                        return Ok(());
                    }
                    return self.err("wide mul overflow");
                }
                let (p, q) = if i == I::UMulO { (st.zext(xe, w * 2), st.zext(ye, w * 2)) } else { (st.sext(xe, w * 2), st.sext(ye, w * 2)) };
                let f = st.bin(O::Mul, p, q);
                let lo = st.extract(f, 0, w);
                let back = if i == I::UMulO { st.zext(lo, w * 2) } else { st.sext(lo, w * 2) };
                let eq = st.cmp(O::Eq, back, f);
                let c = st.not(eq);
                self.we(d + 1, c);
                lo
            }
            I::SAddO | I::SSubO => {
                let z = st.konst(w, 0);
                let s = st.bin(if i == I::SAddO { O::Add } else { O::Sub }, xe, ye);
                let sx_ = st.cmp(O::Slt, xe, z);
                let sy = st.cmp(O::Slt, ye, z);
                let sr = st.cmp(O::Slt, s, z);
                let same = st.cmp(O::Eq, sx_, sy);
                let same = if i == I::SAddO { same } else { st.not(same) };
                let diff = st.bin(O::Xor, sx_, sr);
                let c = st.bin(O::And, same, diff);
                self.we(d + 1, c);
                s
            }
            _ => return self.err(format!("symbolic intrinsic {:?}", i)),
        };
        self.we(d, e);
        Ok(())
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if !self.mem.ok(d, n) {
            self.bad(d, n)?;
        }
        if !self.mem.ok(s, n) {
            self.bad(s, n)?;
        }
        self.mem.copy(d, s, n);
        Ok(())
    }
}

fn fbin64(b: FB, x: f64, y: f64, z: f64) -> f64 {
    match b {
        FB::Add => x + y,
        FB::Sub => x - y,
        FB::Mul => x * y,
        FB::Div => x / y,
        FB::Rem => x % y,
        FB::Neg => -x,
        FB::Min => x.min(y),
        FB::Max => x.max(y),
        FB::Abs => x.abs(),
        FB::Sqrt => x.sqrt(),
        FB::Floor => x.floor(),
        FB::Ceil => x.ceil(),
        FB::Round => x.round(),
        FB::Trunc => x.trunc(),
        FB::RoundEven => x.round_ties_even(),
        FB::Copysign => x.copysign(y),
        FB::Fma => x.mul_add(y, z),
        FB::Pow => x.powf(y),
        FB::Exp => x.exp(),
        FB::Log => x.ln(),
    }
}
fn fbin32(b: FB, x: f32, y: f32, z: f32) -> f32 {
    match b {
        FB::Add => x + y,
        FB::Sub => x - y,
        FB::Mul => x * y,
        FB::Div => x / y,
        FB::Rem => x % y,
        FB::Neg => -x,
        FB::Min => x.min(y),
        FB::Max => x.max(y),
        FB::Abs => x.abs(),
        FB::Sqrt => x.sqrt(),
        FB::Floor => x.floor(),
        FB::Ceil => x.ceil(),
        FB::Round => x.round(),
        FB::Trunc => x.trunc(),
        FB::RoundEven => x.round_ties_even(),
        FB::Copysign => x.copysign(y),
        FB::Fma => x.mul_add(y, z),
        FB::Pow => x.powf(y),
        FB::Exp => x.exp(),
        FB::Log => x.ln(),
    }
}
