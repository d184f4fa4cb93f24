//! Parser for the textual LLVM IR emitted by rustc, and compiler to a flat op list.
use crate::expr::{mask, Val};
use crate::lex::*;
use crate::mem::{self, Mem};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    if w < 8 {
                        return (n * w as u64 + 7) / 8;
                    }
                }
                n * t.size()
            }
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nlanes(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nlanes(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nlanes()).sum(),
            _ => 1,
        }
    }
    pub fn lanes(&self, off: u64, out: &mut Vec<(u32, u8)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => {}
            Ty::Int(n) => out.push((off as u32, (*n).min(255) as u8)),
            Ty::Ptr | Ty::F64 => out.push((off as u32, 64)),
            Ty::F32 => out.push((off as u32, 32)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.lanes(off + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.lanes(off + self.field_off(i), out)
                }
            }
        }
    }
    pub fn lv(&self) -> Vec<(u32, u8)> {
        let mut v = vec![];
        self.lanes(0, &mut v);
        v
    }
    pub fn w(&self) -> u8 {
        match self {
            Ty::Int(n) => (*n).min(255) as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, t) => t.w(),
            _ => 0,
        }
    }
    pub fn elem(&self) -> &Ty {
        match self {
            Ty::Vec(_, t) => t,
            t => t,
        }
    }
}

pub const CONST: u32 = 0x8000_0000;
pub const WIDE: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pd {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Min,
    Max,
    Abs,
    Sqrt,
    Floor,
    Ceil,
    Round,
    Trunc,
    RoundEven,
    Copysign,
    Fma,
    Pow,
    Exp,
    Log,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FC {
    SiToFp,
    UiToFp,
    FpToUi,
    FpToSi,
    Ext,
    Trunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum I {
    Memcpy,
    Memset,
    Fshl,
    Fshr,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctpop,
    Cttz,
    Ctlz,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UCmp,
    SCmp,
    Bswap,
    Bitrev,
    Abs,
    LoadRel,
    VecAdd,
    VecOr,
    VecAnd,
    VecUMax,
    VecUMin,
    IsConst,
}

#[derive(Debug)]
pub enum Callee {
    Func(u32),
    Ptr(u32),
    Asm(String),
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<u32>,
    pub aw: Vec<u8>, // lane widths
    pub d: u32,
    pub nd: u32,
    pub dw: Vec<u8>,
}

#[derive(Debug)]
pub enum Op {
    Bin(B, u8, u32, u32, u32),
    ICmp(Pd, u8, u32, u32, u32),
    Sel(u8, u32, u32, u32, u32), // w d c a b
    Zext(u8, u8, u32, u32),      // from to d a
    Sext(u8, u8, u32, u32),
    Trunc(u8, u8, u32, u32),
    Mov(u32, u32),
    Repack { d: u32, dl: Vec<u8>, a: Vec<u32>, al: Vec<u8> },
    Gep { d: u32, base: u32, off: i64, terms: Vec<(u32, u8, i64)> },
    Load1(u8, u32, u32), // w d p
    LoadN { d: u32, p: u32, lanes: Vec<(u32, u8)> },
    LoadBits { d: u32, p: u32, n: u32, w: u8 },
    Store1(u8, u32, u32), // w v p
    StoreN { v: Vec<u32>, p: u32, lanes: Vec<(u32, u8)> },
    Br(u32),
    CBr(u32, u32, u32),
    Switch { w: u8, v: u32, def: u32, cases: Vec<(u64, u32)> },
    Ret(Vec<u32>),
    Unreachable,
    Call(Box<CallI>),
    Alloca { d: u32, size: u64, n: u32, align: u64 },
    Rmw(u8, u8, u32, u32, u32), // kind w d p v
    CmpXchg { w: u8, d: u32, p: u32, c: u32, n: u32 },
    FBin(FB, bool, u32, Vec<u32>),
    FCmp(u8, bool, u32, u32, u32),
    FCast { k: FC, fw: u8, tw: u8, sat: bool, d: u32, a: u32 },
    ExtElt { d: u32, v: Vec<u32>, idx: u32, w: u8 },
    InsElt { d: u32, v: Vec<u32>, x: u32, idx: u32, w: u8 },
    Intr { i: I, w: u8, d: u32, a: Vec<u32> },
    Nop,
    Unsup(String),
}

pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, u32)>,
}

pub struct Code {
    pub ops: Vec<Op>,
    pub dbg: Vec<u32>,
    pub edges: Vec<Edge>,
    pub consts: Vec<Val>,
    pub wide: Vec<(u8, u128)>,
    pub nregs: u32,
    pub nparams: u32,
    pub allocas: u64,
}

pub struct Func {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub hdr: (usize, usize),
    pub code: Option<Rc<Code>>,
    pub weak: bool,
    pub noreturn: bool,
    pub count: u64,
}

pub struct Module {
    pub src: &'static [u8],
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub gend: u64,
}

type R<X> = Result<X, String>;

fn parse_ty(m: &HashMap<String, Ty>, lx: &mut Lx) -> R<Ty> {
    let t = match lx.next() {
        T::Id("void") => Ty::Void,
        T::Id("ptr") => {
            if lx.peek() == T::Id("addrspace") {
                lx.next();
                lx.skip_paren();
            }
            Ty::Ptr
        }
        T::Id("float") => Ty::F32,
        T::Id("double") => Ty::F64,
        T::Id("label") => Ty::Label,
        T::Id("metadata") => Ty::Meta,
        T::Id("half") | T::Id("fp128") | T::Id("x86_fp80") | T::Id("token") | T::Id("opaque") => Ty::Other,
        T::Id(s) if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
        T::P(b'[') => {
            let n = num(lx)?;
            lx.next();
            let t = parse_ty(m, lx)?;
            lx.next();
            Ty::Arr(n as u64, Rc::new(t))
        }
        T::P(b'<') => {
            if lx.peek() == T::P(b'{') {
                lx.next();
                let f = fields(m, lx)?;
                lx.next();
                Ty::Struct(f, true)
            } else {
                let n = num(lx)?;
                lx.next();
                let t = parse_ty(m, lx)?;
                lx.next();
                Ty::Vec(n as u64, Rc::new(t))
            }
        }
        T::P(b'{') => Ty::Struct(fields(m, lx)?, false),
        T::Local(n) => m.get(n).cloned().ok_or_else(|| format!("type %{}", n))?,
        t => return Err(format!("type? {:?}", t)),
    };
    Ok(t)
}
fn fields(m: &HashMap<String, Ty>, lx: &mut Lx) -> R<Vec<Ty>> {
    let mut f = vec![];
    if lx.eat(b'}') {
        return Ok(f);
    }
    loop {
        f.push(parse_ty(m, lx)?);
        if !lx.eat(b',') {
            break;
        }
    }
    lx.next();
    Ok(f)
}
fn num(lx: &mut Lx) -> R<i128> {
    match lx.next() {
        T::Num(s) => s.parse().map_err(|_| format!("num {}", s)),
        t => Err(format!("num? {:?}", t)),
    }
}

/// is this identifier the start of a value (and not an attribute)?
fn value_id(s: &str) -> bool {
    matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
            | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "splat"
            | "asm" | "blockaddress" | "dso_local_equivalent" | "addrspacecast" | "icmp" | "select" | "inf" | "nan" | "qnan"
    ) || s.starts_with("f0x")
}
pub fn skip_attrs(lx: &mut Lx) {
    loop {
        match lx.peek() {
            T::Id(s) if !value_id(s) => {
                lx.next();
                if s == "align" {
                    if let T::Num(_) = lx.peek() {
                        lx.next();
                    } else if lx.peek() == T::P(b'(') {
                        lx.skip_paren();
                    }
                } else if lx.peek() == T::P(b'(') {
                    lx.skip_paren();
                }
            }
            T::Str(_) => {
                lx.next();
                if lx.eat(b'=') {
                    lx.next();
                }
            }
            _ => return,
        }
    }
}

fn float_const(s: &str, f32_: bool) -> R<u128> {
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e))?)
    } else if let Some(h) = s.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e));
    } else {
        match s {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+nan" | "nan" | "+qnan" | "qnan" => f64::NAN,
            "-nan" | "-qnan" => -f64::NAN,
            _ => s.parse().map_err(|e| format!("{} {}", s, e))?,
        }
    };
    Ok(if f32_ { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
}

impl Module {
    pub fn load(path: &str, mem: &mut Mem) -> R<Module> {
        let src: &'static [u8] = Box::leak(std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?.into_boxed_slice());
        let mut m = Module {
            src,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
            gend: 0,
        };
        let mut glines = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        let mut noret_groups = std::collections::HashSet::new();
        let mut fattr: Vec<Option<String>> = vec![];
        let mut p = 0;
        let find_nl = |p: usize| {
            let mut q = p;
            while q < src.len() && src[q] != b'\n' {
                q += 1;
            }
            q
        };
        while p < src.len() {
            let e = find_nl(p);
            let l = &src[p..e];
            if l.starts_with(b"@") {
                glines.push((p, e));
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let isdef = l.starts_with(b"define");
                let at = l.iter().position(|c| *c == b'@').ok_or("fn name")?;
                let mut lx = Lx { s: l, p: at };
                let name = match lx.next() {
                    T::Global(n) => n.to_string(),
                    _ => return Err("fn name".into()),
                };
                let mut e2 = e;
                if isdef {
                    // body ends with a line that is exactly "}"
                    let mut q = e + 1;
                    loop {
                        let e3 = find_nl(q);
                        if src[q] == b'}' {
                            e2 = e3;
                            break;
                        }
                        q = e3 + 1;
                    }
                }
                let tail = std::str::from_utf8(l).unwrap_or("");
                let grp = tail.rsplit(" #").next().map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>());
                fattr.push(grp);
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(Func {
                    name,
                    body: if isdef { Some((e + 1, e2)) } else { None },
                    hdr: (p, e),
                    code: None,
                    weak: l.windows(11).take(40).any(|w| w == b"extern_weak"),
                    noreturn: false,
                    count: 0,
                });
                if isdef {
                    p = e2 + 1;
                    continue;
                }
            } else if l.starts_with(b"attributes #") {
                let s = std::str::from_utf8(l).unwrap_or("");
                if s.contains(" noreturn ") {
                    noret_groups.insert(s[12..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>());
                }
            } else if l.starts_with(b"%") {
                let mut lx = Lx::new(l);
                if let T::Local(n) = lx.next() {
                    lx.next();
                    lx.next();
                    let t = parse_ty(&m.types, &mut lx)?;
                    m.types.insert(n.to_string(), t);
                }
            } else if l.starts_with(b"!") {
                let mut q = 1;
                let mut n = 0u32;
                while q < l.len() && l[q].is_ascii_digit() {
                    n = n * 10 + (l[q] - b'0') as u32;
                    q += 1;
                }
                if q > 1 {
                    m.meta.insert(n, (p, e));
                }
            }
            p = e + 1;
        }
        for (i, g) in fattr.iter().enumerate() {
            if let Some(g) = g {
                m.funcs[i].noreturn = noret_groups.contains(g);
            }
        }
        // layout
        let mut addr = mem::BASE + 4096;
        let mut inits: Vec<(u64, Ty, usize, usize)> = vec![];
        for (a, b) in &glines {
            let mut lx = Lx { s: &src[..*b], p: *a };
            let name = match lx.next() {
                T::Global(n) => n.to_string(),
                _ => unreachable!(),
            };
            lx.next(); // =
            let mut external = false;
            let mut weak = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    T::Id("constant") | T::Id("global") => break,
                    T::Id("alias") => {
                        alias = true;
                        break;
                    }
                    T::Id("external") => external = true,
                    T::Id("extern_weak") => {
                        external = true;
                        weak = true
                    }
                    T::Id("thread_local") | T::Id("addrspace") => {
                        if lx.peek() == T::P(b'(') {
                            lx.skip_paren()
                        }
                    }
                    T::Eof | T::Nl => return Err(format!("global {}", name)),
                    _ => {}
                }
            }
            if alias {
                aliases.push((name, lx.p, *b));
                continue;
            }
            let ty = parse_ty(&m.types, &mut lx)?;
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            if weak {
                m.globals.insert(name, 0);
                continue;
            }
            m.globals.insert(name, addr);
            let sz = ty.size().max(1);
            if !external {
                inits.push((addr, ty, lx.p, *b));
                addr += sz;
            } else {
                addr += sz.max(64);
            }
            if addr > mem::BASE + mem::SIZE / 2 {
                return Err("globals too large".into());
            }
        }
        m.gend = addr;
        for (n, a, b) in aliases {
            let mut lx = Lx { s: &src[..b], p: a };
            parse_ty(&m.types, &mut lx)?;
            lx.eat(b',');
            lx.next();
            if let T::Global(t) = lx.next() {
                if let Some(f) = m.fmap.get(t) {
                    let f = *f;
                    m.fmap.insert(n, f);
                } else if let Some(g) = m.globals.get(t) {
                    let g = *g;
                    m.globals.insert(n, g);
                }
            }
        }
        for (a, ty, p, e) in inits {
            let mut lx = Lx { s: &src[..e], p };
            m.init(&mut lx, &ty, a, mem)?;
        }
        Ok(m)
    }
    pub fn faddr(i: u32) -> u64 {
        mem::FN_BASE + 16 + i as u64 * 16
    }
    pub fn by_addr(&self, a: u64) -> Option<u32> {
        if a < mem::FN_BASE + 16 || a % 16 != 0 {
            return None;
        }
        let i = (a - mem::FN_BASE - 16) / 16;
        if (i as usize) < self.funcs.len() {
            Some(i as u32)
        } else {
            None
        }
    }
    fn gaddr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.globals.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.fmap.get(n) {
            if self.funcs[*f as usize].weak && self.funcs[*f as usize].body.is_none() {
                return Ok(0);
            }
            return Ok(Self::faddr(*f));
        }
        Err(format!("unknown global @{}", n))
    }
    fn init(&self, lx: &mut Lx, ty: &Ty, a: u64, mem: &mut Mem) -> R<()> {
        match lx.peek() {
            T::Id("zeroinitializer") | T::Id("undef") | T::Id("poison") => {
                lx.next();
                return Ok(());
            }
            T::CStr(s) => {
                lx.next();
                for (i, b) in unescape(s).into_iter().enumerate() {
                    mem.wr(a + i as u64, 1, b as u64);
                }
                return Ok(());
            }
            _ => {}
        }
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if lx.peek() == T::Id("splat") {
                    let vs = self.cval(lx, ty)?;
                    for ((o, w), v) in ty.lv().into_iter().zip(vs) {
                        put(mem, a + o as u64, w, v);
                    }
                    return Ok(());
                }
                // opening
                let o = lx.next();
                if o == T::P(b'<') && lx.peek() == T::P(b'{') {
                    lx.next();
                }
                let close = |t: T| matches!(t, T::P(b']') | T::P(b'}') | T::P(b'>'));
                let mut i = 0;
                if close(lx.peek()) {
                    lx.next();
                } else {
                    loop {
                        let t = parse_ty(&self.types, lx)?;
                        self.init(lx, &t, a + ty.field_off(i), mem)?;
                        i += 1;
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    let c = lx.next();
                    if !close(c) {
                        return Err(format!("init close {:?}", c));
                    }
                    if c == T::P(b'}') && o == T::P(b'<') {
                        lx.next();
                    }
                }
                Ok(())
            }
            _ => {
                let v = self.cval(lx, ty)?;
                let w = ty.w();
                put(mem, a, w, v[0]);
                Ok(())
            }
        }
    }
    /// evaluate a constant (not a local)
    fn cval(&self, lx: &mut Lx, ty: &Ty) -> R<Vec<u128>> {
        let n = ty.nlanes();
        let t = lx.next();
        Ok(match t {
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    let v = if let Ok(v) = s.parse::<i128>() {
                        v as u128
                    } else {
                        s.parse::<u128>().map_err(|e| format!("{} {}", s, e))?
                    };
                    vec![v & mask((*w).min(128) as u8)]
                }
                Ty::F32 => vec![float_const(s, true)?],
                Ty::F64 => vec![float_const(s, false)?],
                _ => return Err(format!("num const {} for {:?}", s, ty)),
            },
            T::Id("true") => vec![1],
            T::Id("false") => vec![0],
            T::Id("null") | T::Id("zeroinitializer") | T::Id("undef") | T::Id("poison") | T::Id("none") => vec![0; n],
            T::Id(s) if s.starts_with("f0x") || matches!(s, "inf" | "nan" | "qnan") => vec![float_const(s, *ty == Ty::F32)?],
            T::Global(g) => vec![self.gaddr(g)? as u128],
            T::CStr(s) => unescape(s).into_iter().map(|b| b as u128).collect(),
            T::Id("splat") => {
                lx.next();
                let et = parse_ty(&self.types, lx)?;
                let v = self.cval(lx, &et)?;
                lx.next();
                vec![v[0]; n]
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                let mut out = vec![];
                let packed = t == T::P(b'<') && lx.peek() == T::P(b'{');
                if packed {
                    lx.next();
                }
                loop {
                    if matches!(lx.peek(), T::P(b'}') | T::P(b']') | T::P(b'>')) {
                        break;
                    }
                    let et = parse_ty(&self.types, lx)?;
                    out.extend(self.cval(lx, &et)?);
                    if !lx.eat(b',') {
                        break;
                    }
                }
                lx.next();
                if packed {
                    lx.next();
                }
                out
            }
            T::Id("getelementptr") => {
                while lx.peek() != T::P(b'(') {
                    if let T::Id("inrange") = lx.peek() {
                        lx.next();
                        lx.skip_paren();
                        continue;
                    }
                    lx.next();
                }
                lx.next();
                let bt = parse_ty(&self.types, lx)?;
                lx.next();
                let pt = parse_ty(&self.types, lx)?;
                let mut a = self.cval(lx, &pt)?[0];
                let mut cur = bt.clone();
                let mut first = true;
                while lx.eat(b',') {
                    if lx.eat_id("inrange") {}
                    let it = parse_ty(&self.types, lx)?;
                    let iv = self.cval(lx, &it)?[0];
                    let i = crate::expr::sx(iv, it.w());
                    if first {
                        a = a.wrapping_add((i * bt.size() as i128) as u128);
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => a += cur.field_off(i as usize) as u128,
                            c => a = a.wrapping_add((i * c.field(0).size() as i128) as u128),
                        }
                        cur = cur.field(i as usize).clone();
                    }
                }
                lx.next();
                vec![a & mask(64)]
            }
            T::Id(c @ ("inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                while lx.peek() != T::P(b'(') {
                    lx.next();
                }
                lx.next();
                let ft = parse_ty(&self.types, lx)?;
                let v = self.cval(lx, &ft)?;
                lx.next(); // to
                let tt = parse_ty(&self.types, lx)?;
                lx.next();
                if c == "bitcast" && v.len() != 1 {
                    return Err("const bitcast".into());
                }
                vec![v[0] & mask(tt.w())]
            }
            T::Id(c @ ("sub" | "add" | "xor" | "and" | "or" | "mul" | "shl")) => {
                while lx.peek() != T::P(b'(') {
                    lx.next();
                }
                lx.next();
                let t1 = parse_ty(&self.types, lx)?;
                let x = self.cval(lx, &t1)?[0];
                lx.next();
                let t2 = parse_ty(&self.types, lx)?;
                let y = self.cval(lx, &t2)?[0];
                lx.next();
                let r = match c {
                    "sub" => x.wrapping_sub(y),
                    "add" => x.wrapping_add(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "mul" => x.wrapping_mul(y),
                    _ => x << y,
                };
                vec![r & mask(t1.w())]
            }
            T::Meta(_) => vec![],
            t => return Err(format!("const? {:?} : {:?}", t, ty)),
        })
    }

    pub fn compile(&mut self, fi: u32) -> R<Rc<Code>> {
        if let Some(c) = &self.funcs[fi as usize].code {
            return Ok(c.clone());
        }
        let c = Rc::new(FnC::compile(self, fi)?);
        self.funcs[fi as usize].code = Some(c.clone());
        Ok(c)
    }

    // ---- debug info ----
    fn mfield(&self, n: u32, key: &str) -> Option<String> {
        let (a, b) = *self.meta.get(&n)?;
        let s = std::str::from_utf8(&self.src[a..b]).ok()?;
        let k = format!("{}: ", key);
        let mut from = 0;
        while let Some(i) = s[from..].find(&k) {
            let i = from + i;
            let pre = s.as_bytes()[i - 1];
            if pre == b'(' || pre == b' ' {
                let r = &s[i + k.len()..];
                if let Some(r) = r.strip_prefix('"') {
                    return Some(r[..r.find('"')?].to_string());
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = i + 1;
        }
        None
    }
    fn mref(&self, n: u32, key: &str) -> Option<u32> {
        self.mfield(n, key)?.strip_prefix('!')?.parse().ok()
    }
    /// (function, file, line) chain, innermost first
    pub fn loc(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = Some(dbg);
        while let Some(l) = cur {
            if l == 0 || out.len() > 40 {
                break;
            }
            let line = self.mfield(l, "line").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut sc = self.mref(l, "scope");
            let mut name = String::new();
            let mut file = String::new();
            while let Some(s) = sc {
                if file.is_empty() {
                    if let Some(f) = self.mref(s, "file") {
                        let d = self.mfield(f, "directory").unwrap_or_default();
                        file = self.mfield(f, "filename").unwrap_or_default();
                        if !file.starts_with('/') && d.starts_with("/repo") {
                            file = format!("{}/{}", d, file);
                        }
                    }
                }
                let (a, b) = match self.meta.get(&s) {
                    Some(x) => *x,
                    None => break,
                };
                let isp = self.src[a..b].windows(13).any(|w| w == b"!DISubprogram");
                if isp {
                    name = self.mfield(s, "linkageName").or_else(|| self.mfield(s, "name")).unwrap_or_default();
                    break;
                }
                sc = self.mref(s, "scope");
            }
            out.push((name, file, line));
            cur = self.mref(l, "inlinedAt");
        }
        out
    }
}

fn put(mem: &mut Mem, a: u64, w: u8, v: u128) {
    let n = (w as u32 + 7) / 8;
    if n <= 8 {
        mem.wr(a, n, v as u64)
    } else {
        mem.wr(a, 8, v as u64);
        mem.wr(a + 8, n - 8, (v >> 64) as u64)
    }
}

struct FnC<'m> {
    m: &'m Module,
    slots: HashMap<&'static str, u32>,
    nregs: u32,
    ops: Vec<Op>,
    dbg: Vec<u32>,
    consts: Vec<Val>,
    cmap: HashMap<u64, u32>,
    wide: Vec<(u8, u128)>,
    edges: Vec<(u32, &'static str, &'static str)>, // (edge placeholder), from, to
    phis: HashMap<&'static str, Vec<(u32, usize, Vec<(Vec<u32>, &'static str)>)>>,
    cur: &'static str,
    blocks: HashMap<&'static str, u32>,
    allocas: u64,
}

impl<'m> FnC<'m> {
    fn compile(m: &'m Module, fi: u32) -> R<Code> {
        let f = &m.funcs[fi as usize];
        let src: &'static [u8] = m.src;
        let mut c = FnC {
            m,
            slots: HashMap::new(),
            nregs: 0,
            ops: vec![],
            dbg: vec![],
            consts: vec![],
            cmap: HashMap::new(),
            wide: vec![],
            edges: vec![],
            phis: HashMap::new(),
            cur: "",
            blocks: HashMap::new(),
            allocas: 0,
        };
        // header params
        let (a, b) = f.hdr;
        let mut lx = Lx { s: &src[..b], p: a };
        loop {
            match lx.next() {
                T::Global(n) if n == f.name => break,
                T::Eof => return Err("hdr".into()),
                _ => {}
            }
        }
        lx.next(); // (
        let mut unnamed = 0u32;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == T::P(b'.') || matches!(lx.peek(), T::Id(s) if s.starts_with("..")) {
                    break;
                }
                let ty = parse_ty(&m.types, &mut lx)?;
                skip_attrs(&mut lx);
                match lx.peek() {
                    T::Local(n) => {
                        lx.next();
                        c.slot(n, &ty);
                    }
                    _ => {
                        let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                        c.slot(n, &ty);
                    }
                }
                unnamed += 1;
                if !lx.eat(b',') {
                    break;
                }
            }
        }
        let nparams = c.nregs;
        let (a, b) = f.body.ok_or_else(|| format!("no body: {}", f.name))?;
        let mut lx = Lx { s: &src[..b], p: a };
        // entry block label may be implicit
        let mut first = true;
        loop {
            match lx.peek() {
                T::Eof => break,
                T::Nl => {
                    lx.next();
                    continue;
                }
                T::Label(l) => {
                    lx.next();
                    lx.skip_line();
                    c.cur = l;
                    let pc = c.ops.len() as u32;
                    c.blocks.insert(l, pc);
                    first = false;
                    continue;
                }
                _ => {}
            }
            if first {
                c.cur = "%entry%";
                c.blocks.insert("%entry%", 0);
                first = false;
            }
            let p0 = lx.p;
            let n0 = c.ops.len();
            if let Err(e) = c.inst(&mut lx) {
                let mut l2 = Lx { s: lx.s, p: p0 };
                l2.skip_line();
                let text = String::from_utf8_lossy(&src[p0..l2.p]).to_string();
                c.ops.truncate(n0);
                c.ops.push(Op::Unsup(format!("{}: {}", e, text)));
                lx.p = p0;
                // a terminator may span lines
                if text.trim_start().starts_with("switch") {
                    return Err(format!("{}: {}", e, text));
                }
            }
            // rest of line: look for !dbg
            let q0 = lx.p;
            lx.skip_line();
            let rest = &src[q0..lx.p];
            let mut d = 0u32;
            if let Some(i) = rest.windows(6).rposition(|w| w == b"!dbg !") {
                for ch in &rest[i + 6..] {
                    if ch.is_ascii_digit() {
                        d = d * 10 + (*ch - b'0') as u32
                    } else {
                        break;
                    }
                }
            }
            while c.dbg.len() < c.ops.len() {
                c.dbg.push(d);
            }
        }
        // the entry block without label is numbered
        let mut edges = vec![];
        let entry_alias = c.blocks.contains_key("%entry%");
        for (_, from, to) in &c.edges {
            let pc = *c.blocks.get(to).ok_or_else(|| format!("block {}", to))?;
            let mut moves = vec![];
            if let Some(ps) = c.phis.get(to) {
                for (d, n, inc) in ps {
                    let mut found = false;
                    for (vals, pred) in inc {
                        if pred == from || (entry_alias && *from == "%entry%" && !c.blocks.contains_key(pred)) {
                            for k in 0..*n {
                                if vals[k] != d + k as u32 {
                                    moves.push((d + k as u32, vals[k]));
                                }
                            }
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        return Err(format!("phi in {} lacks {}", to, from));
                    }
                }
            }
            edges.push(Edge { pc, moves });
        }
        Ok(Code {
            ops: c.ops,
            dbg: c.dbg,
            edges,
            consts: c.consts,
            wide: c.wide,
            nregs: c.nregs,
            nparams,
            allocas: c.allocas,
        })
    }
    fn slot(&mut self, n: &'static str, ty: &Ty) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += ty.nlanes() as u32;
        self.slots.insert(n, s);
        s
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn konst(&mut self, w: u8, k: u128) -> u32 {
        if w > 64 {
            let i = self.wide.len() as u64;
            self.wide.push((w, k));
            self.consts.push(Val { c: i, e: WIDE });
            return CONST | (self.consts.len() as u32 - 1);
        }
        if let Some(i) = self.cmap.get(&(k as u64)) {
            return CONST | *i;
        }
        self.consts.push(Val::k(k as u64));
        let i = self.consts.len() as u32 - 1;
        self.cmap.insert(k as u64, i);
        CONST | i
    }
    fn val(&mut self, lx: &mut Lx<'static>, ty: &Ty) -> R<Vec<u32>> {
        if let T::Local(n) = lx.peek() {
            lx.next();
            let s = self.slot(n, ty);
            return Ok((0..ty.nlanes() as u32).map(|i| s + i).collect());
        }
        let vs = self.m.cval(lx, ty)?;
        let lanes = ty.lv();
        if vs.len() != lanes.len() {
            return Err(format!("const lanes {} {}", vs.len(), lanes.len()));
        }
        Ok(vs.into_iter().zip(lanes).map(|(v, (_, w))| self.konst(w, v)).collect())
    }
    fn ty(&mut self, lx: &mut Lx<'static>) -> R<Ty> {
        parse_ty(&self.m.types, lx)
    }
    fn tval(&mut self, lx: &mut Lx<'static>) -> R<(Ty, Vec<u32>)> {
        let t = self.ty(lx)?;
        skip_attrs(lx);
        let v = self.val(lx, &t)?;
        Ok((t, v))
    }
    fn comma(&mut self, lx: &mut Lx) -> R<()> {
        if lx.eat(b',') {
            Ok(())
        } else {
            Err(format!("comma, got {:?}", lx.peek()))
        }
    }
    fn edge(&mut self, lx: &mut Lx<'static>) -> R<u32> {
        // label %x
        match lx.next() {
            T::Id("label") => {}
            t => return Err(format!("label? {:?}", t)),
        }
        match lx.next() {
            T::Local(n) => {
                self.edges.push((0, self.cur, n));
                Ok(self.edges.len() as u32 - 1)
            }
            t => Err(format!("label? {:?}", t)),
        }
    }
    fn flags(&mut self, lx: &mut Lx) {
        while let T::Id(s) = lx.peek() {
            if matches!(
                s,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                    | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "inrange"
            ) {
                lx.next();
                if lx.peek() == T::P(b'(') {
                    lx.skip_paren()
                }
            } else {
                break;
            }
        }
    }
    fn inst(&mut self, lx: &mut Lx<'static>) -> R<()> {
        let mut dst: Option<&'static str> = None;
        let mut t = lx.next();
        if let T::Local(n) = t {
            dst = Some(n);
            lx.next(); // =
            t = lx.next();
        }
        let op = match t {
            T::Id(s) => s,
            T::Attr(_) => {
                // #dbg_value(...) records
                return Ok(());
            }
            t => return Err(format!("inst? {:?}", t)),
        };
        macro_rules! d {
            ($ty:expr) => {
                self.slot(dst.ok_or("no dst")?, $ty)
            };
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let b = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    _ => B::AShr,
                };
                self.flags(lx);
                let (ty, x) = self.tval(lx)?;
                self.comma(lx)?;
                let y = self.val(lx, &ty)?;
                let d = d!(&ty);
                let w = ty.w();
                if w > 128 {
                    return Err("wide int".into());
                }
                for i in 0..x.len() {
                    self.ops.push(Op::Bin(b, w, d + i as u32, x[i], y[i]));
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                let b = match op {
                    "fadd" => FB::Add,
                    "fsub" => FB::Sub,
                    "fmul" => FB::Mul,
                    "fdiv" => FB::Div,
                    "frem" => FB::Rem,
                    _ => FB::Neg,
                };
                self.flags(lx);
                let (ty, x) = self.tval(lx)?;
                let y = if op != "fneg" {
                    self.comma(lx)?;
                    self.val(lx, &ty)?
                } else {
                    vec![]
                };
                let d = d!(&ty);
                let dbl = *ty.elem() == Ty::F64;
                for i in 0..x.len() {
                    let mut a = vec![x[i]];
                    if !y.is_empty() {
                        a.push(y[i])
                    }
                    self.ops.push(Op::FBin(b, dbl, d + i as u32, a));
                }
            }
            "icmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    T::Id("eq") => Pd::Eq,
                    T::Id("ne") => Pd::Ne,
                    T::Id("ugt") => Pd::Ugt,
                    T::Id("uge") => Pd::Uge,
                    T::Id("ult") => Pd::Ult,
                    T::Id("ule") => Pd::Ule,
                    T::Id("sgt") => Pd::Sgt,
                    T::Id("sge") => Pd::Sge,
                    T::Id("slt") => Pd::Slt,
                    T::Id("sle") => Pd::Sle,
                    t => return Err(format!("icmp {:?}", t)),
                };
                let (ty, x) = self.tval(lx)?;
                self.comma(lx)?;
                let y = self.val(lx, &ty)?;
                let w = ty.w();
                let rt = match &ty {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                if w > 128 {
                    return Err("wide int".into());
                }
                let d = d!(&rt);
                for i in 0..x.len() {
                    self.ops.push(Op::ICmp(p, w, d + i as u32, x[i], y[i]));
                }
            }
            "fcmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    T::Id("false") => 0,
                    T::Id("oeq") => 1,
                    T::Id("ogt") => 2,
                    T::Id("oge") => 3,
                    T::Id("olt") => 4,
                    T::Id("ole") => 5,
                    T::Id("one") => 6,
                    T::Id("ord") => 7,
                    T::Id("uno") => 8,
                    T::Id("ueq") => 9,
                    T::Id("ugt") => 10,
                    T::Id("uge") => 11,
                    T::Id("ult") => 12,
                    T::Id("ule") => 13,
                    T::Id("une") => 14,
                    T::Id("true") => 15,
                    t => return Err(format!("fcmp {:?}", t)),
                };
                let (ty, x) = self.tval(lx)?;
                self.comma(lx)?;
                let y = self.val(lx, &ty)?;
                let rt = match &ty {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = d!(&rt);
                let dbl = *ty.elem() == Ty::F64;
                for i in 0..x.len() {
                    self.ops.push(Op::FCmp(p, dbl, d + i as u32, x[i], y[i]));
                }
            }
            "select" => {
                self.flags(lx);
                let (ct, c) = self.tval(lx)?;
                self.comma(lx)?;
                let (ty, x) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, y) = self.tval(lx)?;
                let d = d!(&ty);
                let lv = ty.lv();
                let vecc = matches!(ct, Ty::Vec(..));
                for i in 0..x.len() {
                    let cc = if vecc { c[i] } else { c[0] };
                    self.ops.push(Op::Sel(lv[i].1, d + i as u32, cc, x[i], y[i]));
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "freeze" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.flags(lx);
                let (ft, x) = self.tval(lx)?;
                let tt = if op == "freeze" {
                    ft.clone()
                } else {
                    if !lx.eat_id("to") {
                        return Err("cast".into());
                    }
                    self.ty(lx)?
                };
                let d = d!(&tt);
                let (fw, tw) = (ft.w(), tt.w());
                if fw > 128 || tw > 128 {
                    return Err("wide int".into());
                }
                let fk = match op {
                    "fptoui" => Some(FC::FpToUi),
                    "fptosi" => Some(FC::FpToSi),
                    "uitofp" => Some(FC::UiToFp),
                    "sitofp" => Some(FC::SiToFp),
                    "fpext" => Some(FC::Ext),
                    "fptrunc" => Some(FC::Trunc),
                    _ => None,
                };
                if let Some(k) = fk {
                    for i in 0..x.len() {
                        self.ops.push(Op::FCast { k, fw, tw, sat: false, d: d + i as u32, a: x[i] });
                    }
                    return Ok(());
                }
                if op == "bitcast" && (ft.nlanes() != tt.nlanes() || fw != tw) {
                    let al = ft.lv().iter().map(|l| l.1).collect();
                    let dl = tt.lv().iter().map(|l| l.1).collect();
                    self.ops.push(Op::Repack { d, dl, a: x, al });
                    return Ok(());
                }
                for i in 0..x.len() {
                    let di = d + i as u32;
                    self.ops.push(match op {
                        "zext" => Op::Zext(fw, tw, di, x[i]),
                        "sext" => Op::Sext(fw, tw, di, x[i]),
                        "trunc" => Op::Trunc(fw, tw, di, x[i]),
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" if fw < tw => Op::Zext(fw, tw, di, x[i]),
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" if fw > tw => Op::Trunc(fw, tw, di, x[i]),
                        _ => Op::Mov(di, x[i]),
                    });
                }
            }
            "getelementptr" => {
                self.flags(lx);
                let bt = self.ty(lx)?;
                self.comma(lx)?;
                let (pt, p) = self.tval(lx)?;
                if matches!(pt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while lx.peek() == T::P(b',') {
                    let save = lx.p;
                    lx.next();
                    if let T::Meta(_) = lx.peek() {
                        lx.p = save;
                        break;
                    }
                    lx.eat_id("inrange");
                    let (it, iv) = self.tval(lx)?;
                    let iv = iv[0];
                    let sz;
                    if first {
                        sz = bt.size() as i64;
                        first = false;
                    } else {
                        if let Ty::Struct(..) = cur {
                            let k = self.consts[(iv & !CONST) as usize].c as usize;
                            off += cur.field_off(k) as i64;
                            cur = cur.field(k).clone();
                            continue;
                        }
                        sz = cur.field(0).size() as i64;
                        cur = cur.field(0).clone();
                    }
                    if iv & CONST != 0 {
                        let k = self.consts[(iv & !CONST) as usize].c;
                        let k = crate::expr::sx(k as u128, it.w()) as i64;
                        off = off.wrapping_add(k.wrapping_mul(sz));
                    } else {
                        terms.push((iv, it.w(), sz));
                    }
                }
                let d = d!(&Ty::Ptr);
                self.ops.push(Op::Gep { d, base: p[0], off, terms });
            }
            "load" => {
                self.flags(lx);
                let ty = self.ty(lx)?;
                self.comma(lx)?;
                let (_, p) = self.tval(lx)?;
                let d = d!(&ty);
                match &ty {
                    Ty::Vec(n, e) if e.w() < 8 => self.ops.push(Op::LoadBits { d, p: p[0], n: *n as u32, w: e.w() }),
                    Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                        if ty.w() > 128 {
                            return Err("wide".into());
                        }
                        self.ops.push(Op::Load1(ty.w(), d, p[0]))
                    }
                    _ => self.ops.push(Op::LoadN { d, p: p[0], lanes: ty.lv() }),
                }
            }
            "store" => {
                self.flags(lx);
                let (ty, v) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, p) = self.tval(lx)?;
                match &ty {
                    Ty::Vec(_, e) if e.w() < 8 => return Err("bit vector store".into()),
                    Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                        if ty.w() > 128 {
                            return Err("wide".into());
                        }
                        self.ops.push(Op::Store1(ty.w(), v[0], p[0]))
                    }
                    _ => self.ops.push(Op::StoreN { v, p: p[0], lanes: ty.lv() }),
                }
            }
            "br" => {
                if lx.peek() == T::Id("label") {
                    let e = self.edge(lx)?;
                    self.ops.push(Op::Br(e));
                } else {
                    let (_, c) = self.tval(lx)?;
                    self.comma(lx)?;
                    let a = self.edge(lx)?;
                    self.comma(lx)?;
                    let b = self.edge(lx)?;
                    self.ops.push(Op::CBr(c[0], a, b));
                }
            }
            "switch" => {
                let (ty, v) = self.tval(lx)?;
                self.comma(lx)?;
                let def = self.edge(lx)?;
                lx.next(); // [
                let mut cases = vec![];
                loop {
                    match lx.peek() {
                        T::Nl => {
                            lx.next();
                        }
                        T::P(b']') => {
                            lx.next();
                            break;
                        }
                        _ => {
                            let t = self.ty(lx)?;
                            let k = self.m.cval(lx, &t)?[0];
                            self.comma(lx)?;
                            let e = self.edge(lx)?;
                            cases.push((k as u64, e));
                        }
                    }
                }
                if ty.w() > 64 {
                    return Err("switch width".into());
                }
                self.ops.push(Op::Switch { w: ty.w(), v: v[0], def, cases });
            }
            "ret" => {
                if lx.peek() == T::Id("void") {
                    lx.next();
                    self.ops.push(Op::Ret(vec![]));
                } else {
                    let (_, v) = self.tval(lx)?;
                    self.ops.push(Op::Ret(v));
                }
            }
            "unreachable" => self.ops.push(Op::Unreachable),
            "phi" => {
                self.flags(lx);
                let ty = self.ty(lx)?;
                let d = d!(&ty);
                let mut inc = vec![];
                loop {
                    if !lx.eat(b'[') {
                        break;
                    }
                    let v = self.val(lx, &ty)?;
                    self.comma(lx)?;
                    let b = match lx.next() {
                        T::Local(n) => n,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    lx.next(); // ]
                    inc.push((v, b));
                    let save = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if lx.peek() != T::P(b'[') {
                        lx.p = save;
                        break;
                    }
                }
                let cur = self.cur;
                self.phis.entry(cur).or_default().push((d, ty.nlanes(), inc));
            }
            "alloca" => {
                self.flags(lx);
                lx.eat_id("inalloca");
                let ty = self.ty(lx)?;
                let mut n = self.konst(64, 1);
                let mut align = ty.align();
                while lx.eat(b',') {
                    match lx.peek() {
                        T::Id("align") => {
                            lx.next();
                            align = num(lx)? as u64;
                        }
                        T::Meta(_) => break,
                        _ => {
                            let (_, v) = self.tval(lx)?;
                            n = v[0];
                        }
                    }
                }
                let d = d!(&Ty::Ptr);
                self.allocas += ty.size();
                self.ops.push(Op::Alloca { d, size: ty.size(), n, align });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                self.call(lx, dst, op == "invoke")?;
            }
            "extractvalue" => {
                let (ty, v) = self.tval(lx)?;
                let (mut t, mut lo) = (ty.clone(), 0usize);
                loop {
                    let save = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if !matches!(lx.peek(), T::Num(_)) {
                        lx.p = save;
                        break;
                    }
                    let i = num(lx)? as usize;
                    for j in 0..i {
                        lo += t.field(j).nlanes();
                    }
                    t = t.field(i).clone();
                }
                let d = d!(&t);
                for k in 0..t.nlanes() {
                    self.ops.push(Op::Mov(d + k as u32, v[lo + k]));
                }
            }
            "insertvalue" => {
                let (ty, v) = self.tval(lx)?;
                self.comma(lx)?;
                let (et, x) = self.tval(lx)?;
                let (mut t, mut lo) = (ty.clone(), 0usize);
                loop {
                    let save = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if !matches!(lx.peek(), T::Num(_)) {
                        lx.p = save;
                        break;
                    }
                    let i = num(lx)? as usize;
                    for j in 0..i {
                        lo += t.field(j).nlanes();
                    }
                    t = t.field(i).clone();
                }
                let d = d!(&ty);
                let n = et.nlanes();
                for k in 0..v.len() {
                    let s = if k >= lo && k < lo + n { x[k - lo] } else { v[k] };
                    self.ops.push(Op::Mov(d + k as u32, s));
                }
            }
            "extractelement" => {
                let (ty, v) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, i) = self.tval(lx)?;
                let d = d!(ty.elem());
                self.ops.push(Op::ExtElt { d, v, idx: i[0], w: ty.w() });
            }
            "insertelement" => {
                let (ty, v) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, x) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, i) = self.tval(lx)?;
                let d = d!(&ty);
                self.ops.push(Op::InsElt { d, v, x: x[0], idx: i[0], w: ty.w() });
            }
            "shufflevector" => {
                let (ty, a) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, b) = self.tval(lx)?;
                self.comma(lx)?;
                let mt = self.ty(lx)?;
                let mk = self.m.cval(lx, &mt)?;
                let rt = Ty::Vec(mk.len() as u64, Rc::new(ty.elem().clone()));
                let d = d!(&rt);
                for (i, k) in mk.iter().enumerate() {
                    let k = *k as usize;
                    let s = if k < a.len() { a[k] } else { *b.get(k - a.len()).unwrap_or(&a[0]) };
                    self.ops.push(Op::Mov(d + i as u32, s));
                }
            }
            "atomicrmw" => {
                self.flags(lx);
                let k = match lx.next() {
                    T::Id("xchg") => 0,
                    T::Id("add") => 1,
                    T::Id("sub") => 2,
                    T::Id("and") => 3,
                    T::Id("or") => 4,
                    T::Id("xor") => 5,
                    T::Id("umax") => 6,
                    T::Id("umin") => 7,
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, p) = self.tval(lx)?;
                self.comma(lx)?;
                let (ty, v) = self.tval(lx)?;
                let d = match dst {
                    Some(_) => d!(&ty),
                    None => self.tmp(),
                };
                self.ops.push(Op::Rmw(k, ty.w(), d, p[0], v[0]));
            }
            "cmpxchg" => {
                self.flags(lx);
                let (_, p) = self.tval(lx)?;
                self.comma(lx)?;
                let (ty, c) = self.tval(lx)?;
                self.comma(lx)?;
                let (_, n) = self.tval(lx)?;
                let rt = Ty::Struct(vec![ty.clone(), Ty::Int(1)], false);
                let d = match dst {
                    Some(_) => d!(&rt),
                    None => {
                        let t = self.tmp();
                        self.tmp();
                        t
                    }
                };
                self.ops.push(Op::CmpXchg { w: ty.w(), d, p: p[0], c: c[0], n: n[0] });
            }
            "fence" => {}
            "landingpad" => {
                let ty = self.ty(lx)?;
                let _ = d!(&ty);
                self.ops.push(Op::Unsup("landingpad".into()));
                // following lines: catch / cleanup / filter clauses
                loop {
                    let save = lx.p;
                    lx.skip_line();
                    if lx.next() != T::Nl {
                        break;
                    }
                    match lx.peek() {
                        T::Id("catch") | T::Id("cleanup") | T::Id("filter") => continue,
                        _ => {
                            lx.p = save;
                            break;
                        }
                    }
                }
            }
            "resume" => self.ops.push(Op::Unsup("resume".into())),
            "catch" | "cleanup" | "filter" => {}
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }

    fn call(&mut self, lx: &mut Lx<'static>, dst: Option<&'static str>, invoke: bool) -> R<()> {
        // flags, calling conv, return attributes
        loop {
            match lx.peek() {
                T::Id(s) => {
                    let is_ty = matches!(s, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "metadata" | "token" | "x86_fp80")
                        || (s.starts_with('i') && s[1..].parse::<u32>().is_ok());
                    if is_ty {
                        break;
                    }
                    lx.next();
                    if s == "align" {
                        if let T::Num(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if lx.peek() == T::P(b'(') {
                        lx.skip_paren()
                    }
                }
                T::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => break,
            }
        }
        let rt = self.ty(lx)?;
        if lx.peek() == T::P(b'(') {
            // function type
            lx.skip_paren();
        }
        let mut intr: Option<&'static str> = None;
        let callee = match lx.next() {
            T::Global(g) => {
                if g.starts_with("llvm.") {
                    intr = Some(g);
                    Callee::Ptr(0)
                } else {
                    Callee::Func(*self.m.fmap.get(g).ok_or_else(|| format!("callee {}", g))?)
                }
            }
            T::Local(n) => {
                let s = self.slot(n, &Ty::Ptr);
                Callee::Ptr(s)
            }
            T::Id("asm") => {
                let mut txt = String::new();
                loop {
                    match lx.peek() {
                        T::Id(_) => {
                            lx.next();
                        }
                        T::Str(s) => {
                            lx.next();
                            txt = s.to_string();
                            break;
                        }
                        t => return Err(format!("asm {:?}", t)),
                    }
                }
                lx.eat(b',');
                if let T::Str(s) = lx.next() {
                    txt = format!("{}|{}", txt, s);
                }
                Callee::Asm(txt)
            }
            T::Id("inttoptr") => {
                lx.p -= 8;
                let v = self.m.cval(lx, &Ty::Ptr)?[0];
                let k = self.konst(64, v);
                Callee::Ptr(k)
            }
            t => return Err(format!("callee? {:?}", t)),
        };
        if lx.next() != T::P(b'(') {
            return Err("call args".into());
        }
        let mut args = vec![];
        let mut aw = vec![];
        let mut atys: Vec<Ty> = vec![];
        let mut groups: Vec<Vec<u32>> = vec![];
        if !lx.eat(b')') {
            loop {
                let ty = self.ty(lx)?;
                if ty == Ty::Meta {
                    // skip metadata operand
                    let mut depth = 0;
                    loop {
                        match lx.peek() {
                            T::P(b'(') => {
                                depth += 1;
                                lx.next();
                            }
                            T::P(b')') if depth > 0 => {
                                depth -= 1;
                                lx.next();
                            }
                            T::P(b')') => break,
                            T::P(b',') if depth == 0 => break,
                            T::Eof => return Err("meta arg".into()),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                } else {
                    skip_attrs(lx);
                    let v = self.val(lx, &ty)?;
                    for (x, l) in v.iter().zip(ty.lv()) {
                        args.push(*x);
                        aw.push(l.1);
                    }
                    groups.push(v);
                    atys.push(ty);
                }
                if !lx.eat(b',') {
                    break;
                }
            }
            if lx.next() != T::P(b')') {
                return Err("call close".into());
            }
        }
        let (d, nd, dw) = match dst {
            Some(n) => {
                let s = self.slot(n, &rt);
                (s, rt.nlanes() as u32, rt.lv().iter().map(|l| l.1).collect())
            }
            None => (0, 0, vec![]),
        };
        if let Some(name) = intr {
            self.intrinsic(name, d, nd, &rt, &groups, &atys)?;
        } else {
            self.ops.push(Op::Call(Box::new(CallI { callee, args, aw, d, nd, dw })));
        }
        if invoke {
            // "to label %x unwind label %y", possibly on the next line
            loop {
                match lx.next() {
                    T::Id("to") => break,
                    T::Eof => return Err("invoke".into()),
                    _ => {}
                }
            }
            let e = self.edge(lx)?;
            self.ops.push(Op::Br(e));
        }
        Ok(())
    }

    fn intrinsic(&mut self, name: &str, d: u32, nd: u32, rt: &Ty, g: &[Vec<u32>], at: &[Ty]) -> R<()> {
        let base = name.trim_start_matches("llvm.");
        let w = at.first().map(|t| t.w()).unwrap_or(0);
        let simple = |i: I| Some(i);
        if base.starts_with("lifetime")
            || base.starts_with("experimental.noalias")
            || base.starts_with("assume")
            || base.starts_with("dbg.")
            || base.starts_with("invariant")
            || base.starts_with("x86.sse2.pause")
            || base.starts_with("prefetch")
            || base.starts_with("donothing")
            || base.starts_with("va_")
        {
            return Ok(());
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            self.ops.push(Op::Intr { i: I::Memcpy, w: 0, d: 0, a: vec![g[0][0], g[1][0], g[2][0]] });
            return Ok(());
        }
        if base.starts_with("memset") {
            self.ops.push(Op::Intr { i: I::Memset, w: 0, d: 0, a: vec![g[0][0], g[1][0], g[2][0]] });
            return Ok(());
        }
        if base.starts_with("trap") || base.starts_with("debugtrap") || base.starts_with("ubsantrap") {
            self.ops.push(Op::Unreachable);
            return Ok(());
        }
        if base.starts_with("threadlocal.address")
            || base.starts_with("launder.")
            || base.starts_with("strip.")
            || base.starts_with("expect")
            || base.starts_with("ssa.copy")
        {
            self.ops.push(Op::Mov(d, g[0][0]));
            return Ok(());
        }
        if base.starts_with("ptrmask") {
            self.ops.push(Op::Bin(B::And, 64, d, g[0][0], g[1][0]));
            return Ok(());
        }
        if base.starts_with("is.constant") {
            let k = self.konst(1, 0);
            self.ops.push(Op::Mov(d, k));
            return Ok(());
        }
        if base.starts_with("objectsize") {
            let k = self.konst(64, u64::MAX as u128);
            self.ops.push(Op::Mov(d, k));
            return Ok(());
        }
        if base.starts_with("load.relative") {
            self.ops.push(Op::Intr { i: I::LoadRel, w: at[1].w(), d, a: vec![g[0][0], g[1][0]] });
            return Ok(());
        }
        if base.starts_with("vector.reduce.") {
            let i = match base.split('.').nth(2).unwrap_or("") {
                "add" => I::VecAdd,
                "or" => I::VecOr,
                "and" => I::VecAnd,
                "umax" => I::VecUMax,
                "umin" => I::VecUMin,
                x => return Err(format!("reduce {}", x)),
            };
            self.ops.push(Op::Intr { i, w, d, a: g[0].clone() });
            return Ok(());
        }
        // with.overflow: lanes of the result are (value, flag)
        for (p, i) in [
            ("uadd.with", I::UAddO),
            ("usub.with", I::USubO),
            ("umul.with", I::UMulO),
            ("sadd.with", I::SAddO),
            ("ssub.with", I::SSubO),
            ("smul.with", I::SMulO),
        ] {
            if base.starts_with(p) {
                if g[0].len() != 1 {
                    return Err("vector overflow".into());
                }
                let d = if nd == 0 {
                    let t = self.tmp();
                    self.tmp();
                    t
                } else {
                    d
                };
                self.ops.push(Op::Intr { i, w, d, a: vec![g[0][0], g[1][0]] });
                return Ok(());
            }
        }
        let i = match base.split('.').next().unwrap_or("") {
            "fshl" => simple(I::Fshl),
            "fshr" => simple(I::Fshr),
            "umax" => simple(I::UMax),
            "umin" => simple(I::UMin),
            "smax" => simple(I::SMax),
            "smin" => simple(I::SMin),
            "ctpop" => simple(I::Ctpop),
            "cttz" => simple(I::Cttz),
            "ctlz" => simple(I::Ctlz),
            "ucmp" => simple(I::UCmp),
            "scmp" => simple(I::SCmp),
            "bswap" => simple(I::Bswap),
            "bitreverse" => simple(I::Bitrev),
            "abs" => simple(I::Abs),
            "usub" if base.starts_with("usub.sat") => simple(I::USubSat),
            "uadd" if base.starts_with("uadd.sat") => simple(I::UAddSat),
            "ssub" if base.starts_with("ssub.sat") => simple(I::SSubSat),
            "sadd" if base.starts_with("sadd.sat") => simple(I::SAddSat),
            _ => None,
        };
        if let Some(i) = i {
            let rw = rt.w();
            for k in 0..nd as usize {
                let mut a = vec![];
                for (q, gr) in g.iter().enumerate() {
                    if gr.len() > 1 {
                        a.push(gr[k])
                    } else if q == 0 || matches!(i, I::Fshl | I::Fshr | I::UMax | I::UMin | I::SMax | I::SMin | I::UCmp | I::SCmp | I::USubSat | I::UAddSat | I::SSubSat | I::SAddSat) {
                        a.push(gr[0])
                    }
                }
                if matches!(i, I::UCmp | I::SCmp) {
                    let kk = self.konst(8, rw as u128);
                    a.push(kk);
                }
                self.ops.push(Op::Intr { i, w, d: d + k as u32, a });
            }
            return Ok(());
        }
        let fb = match base.split('.').next().unwrap_or("") {
            "sqrt" => Some(FB::Sqrt),
            "fabs" => Some(FB::Abs),
            "minnum" | "minimumnum" | "minimum" => Some(FB::Min),
            "maxnum" | "maximumnum" | "maximum" => Some(FB::Max),
            "floor" => Some(FB::Floor),
            "ceil" => Some(FB::Ceil),
            "round" => Some(FB::Round),
            "trunc" => Some(FB::Trunc),
            "roundeven" | "rint" | "nearbyint" => Some(FB::RoundEven),
            "copysign" => Some(FB::Copysign),
            "fma" | "fmuladd" => Some(FB::Fma),
            "pow" => Some(FB::Pow),
            "exp" => Some(FB::Exp),
            "log" => Some(FB::Log),
            _ => None,
        };
        if let Some(b) = fb {
            let dbl = *rt.elem() == Ty::F64;
            for k in 0..nd as usize {
                let a = g.iter().map(|gr| gr[k]).collect();
                self.ops.push(Op::FBin(b, dbl, d + k as u32, a));
            }
            return Ok(());
        }
        if base.starts_with("fptoui.sat") || base.starts_with("fptosi.sat") {
            let k = if base.starts_with("fptoui") { FC::FpToUi } else { FC::FpToSi };
            for i in 0..nd {
                self.ops.push(Op::FCast { k, fw: w, tw: rt.w(), sat: true, d: d + i, a: g[0][i as usize] });
            }
            return Ok(());
        }
        Err(format!("intrinsic {}", name))
    }
}
