//! Guest memory: one fixed-address arena, concrete bytes in place, a per-byte expression shadow, and
//! a block-copy undo log for backtracking.
use crate::expr::*;

pub const BASE: u64 = 0x10_0000_0000;
pub const SIZE: u64 = 1 << 30;
pub const FN_BASE: u64 = BASE + SIZE;
pub const BLK: u64 = 256;
const NB: usize = (SIZE / BLK) as usize;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub struct Mem {
    shadow: *mut u32, // block -> shadow index (0 = none)
    epoch: *mut u32,  // block -> last save epoch
    sh: Vec<Box<[u32; 256]>>,
    shfree: Vec<u32>,
    cur: u32,
    undo: Vec<(u32, Box<[u8; 256]>, Option<Box<[u32; 256]>>)>,
    pub logging: bool,
    pub heap_start: u64,
    pub stack_top: u64,
    pub stack_lim: u64,
}

fn anon(len: usize, at: u64) -> *mut u8 {
    unsafe {
        // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE (|FIXED_NOREPLACE)
        let fl = 0x2 | 0x20 | 0x4000 | if at != 0 { 0x100000 } else { 0 };
        let p = mmap(at as *mut u8, len, 3, fl, -1, 0);
        assert!(p as isize != -1 && (at == 0 || p as u64 == at), "mmap failed");
        p
    }
}

impl Mem {
    pub fn new() -> Mem {
        anon(SIZE as usize, BASE);
        Mem {
            shadow: anon(NB * 4, 0) as *mut u32,
            epoch: anon(NB * 4, 0) as *mut u32,
            sh: vec![Box::new([0; 256])],
            shfree: vec![],
            cur: 1,
            undo: vec![],
            logging: false,
            heap_start: 0,
            stack_top: 0,
            stack_lim: 0,
        }
    }
    #[inline(always)]
    pub fn ok(&self, a: u64, n: u64) -> bool {
        // the first page of the arena is never mapped to an object
        a >= BASE + 4096 && n <= SIZE && a <= BASE + SIZE - n
    }
    #[inline(always)]
    fn blk(a: u64) -> usize {
        ((a - BASE) / BLK) as usize
    }
    #[inline(always)]
    pub fn has_shadow(&self, a: u64, n: u64) -> bool {
        unsafe {
            let b0 = Self::blk(a);
            if *self.shadow.add(b0) != 0 {
                return true;
            }
            if n > 1 {
                let b1 = Self::blk(a + n - 1);
                let mut b = b0 + 1;
                while b <= b1 {
                    if *self.shadow.add(b) != 0 {
                        return true;
                    }
                    b += 1;
                }
            }
            false
        }
    }
    #[inline(always)]
    pub fn rd(&self, a: u64, n: u32) -> u64 {
        unsafe {
            match n {
                1 => *(a as *const u8) as u64,
                2 => std::ptr::read_unaligned(a as *const u16) as u64,
                4 => std::ptr::read_unaligned(a as *const u32) as u64,
                8 => std::ptr::read_unaligned(a as *const u64),
                _ => {
                    let mut r = 0u64;
                    for i in 0..n.min(8) {
                        r |= (*((a + i as u64) as *const u8) as u64) << (8 * i)
                    }
                    r
                }
            }
        }
    }
    /// the expression of a byte, 0 if concrete
    #[inline(always)]
    pub fn sym(&self, a: u64) -> u32 {
        unsafe {
            let s = *self.shadow.add(Self::blk(a));
            if s == 0 {
                0
            } else {
                self.sh[s as usize][(a % BLK) as usize]
            }
        }
    }
    pub fn byte(&self, a: u64) -> Val {
        let e = self.sym(a);
        if e != 0 {
            Val { c: 0, e }
        } else {
            Val::k(unsafe { *(a as *const u8) } as u64)
        }
    }
    #[inline(always)]
    fn touch(&mut self, a: u64, n: u64) {
        if !self.logging {
            return;
        }
        let b0 = Self::blk(a);
        let b1 = Self::blk(a + n - 1);
        for b in b0..=b1 {
            unsafe {
                if *self.epoch.add(b) != self.cur {
                    self.save(b);
                }
            }
        }
    }
    #[inline(never)]
    fn save(&mut self, b: usize) {
        unsafe {
            *self.epoch.add(b) = self.cur;
            let src = (BASE + b as u64 * BLK) as *const [u8; 256];
            let s = *self.shadow.add(b);
            let sh = if s != 0 { Some(self.sh[s as usize].clone()) } else { None };
            self.undo.push((b as u32, Box::new(*src), sh));
        }
    }
    #[inline(always)]
    fn clear_shadow(&mut self, a: u64, n: u64) {
        if self.has_shadow(a, n) {
            for i in 0..n {
                let s = unsafe { *self.shadow.add(Self::blk(a + i)) };
                if s != 0 {
                    self.sh[s as usize][((a + i) % BLK) as usize] = 0;
                }
            }
        }
    }
    #[inline(always)]
    pub fn wr(&mut self, a: u64, n: u32, v: u64) {
        self.touch(a, n as u64);
        self.clear_shadow(a, n as u64);
        unsafe {
            match n {
                1 => *(a as *mut u8) = v as u8,
                2 => std::ptr::write_unaligned(a as *mut u16, v as u16),
                4 => std::ptr::write_unaligned(a as *mut u32, v as u32),
                8 => std::ptr::write_unaligned(a as *mut u64, v),
                _ => {
                    for i in 0..n {
                        *((a + i as u64) as *mut u8) = if i < 8 { (v >> (8 * i)) as u8 } else { 0 }
                    }
                }
            }
        }
    }
    pub fn wr_byte(&mut self, a: u64, v: Val) {
        if v.e == 0 {
            self.wr(a, 1, v.c);
            return;
        }
        self.touch(a, 1);
        unsafe {
            let b = Self::blk(a);
            let mut s = *self.shadow.add(b);
            if s == 0 {
                s = match self.shfree.pop() {
                    Some(i) => {
                        *self.sh[i as usize] = [0; 256];
                        i
                    }
                    None => {
                        self.sh.push(Box::new([0; 256]));
                        self.sh.len() as u32 - 1
                    }
                };
                *self.shadow.add(b) = s;
            }
            self.sh[s as usize][(a % BLK) as usize] = v.e;
            *(a as *mut u8) = 0;
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        self.touch(d, n);
        if !self.has_shadow(s, n) {
            self.clear_shadow(d, n);
            unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize) }
        } else {
            let v: Vec<Val> = (0..n).map(|i| self.byte(s + i)).collect();
            for (i, x) in v.into_iter().enumerate() {
                self.wr_byte(d + i as u64, x);
            }
        }
    }
    pub fn set(&mut self, d: u64, v: Val, n: u64) {
        if n == 0 {
            return;
        }
        if v.e == 0 {
            self.touch(d, n);
            self.clear_shadow(d, n);
            unsafe { std::ptr::write_bytes(d as *mut u8, v.c as u8, n as usize) }
        } else {
            for i in 0..n {
                self.wr_byte(d + i, v)
            }
        }
    }
    pub fn mark(&mut self) -> usize {
        self.cur += 1;
        self.logging = true;
        self.undo.len()
    }
    pub fn undo_to(&mut self, m: usize, logging: bool) {
        while self.undo.len() > m {
            let (b, data, sh) = self.undo.pop().unwrap();
            unsafe {
                let b = b as usize;
                *((BASE + b as u64 * BLK) as *mut [u8; 256]) = *data;
                let s = *self.shadow.add(b);
                match sh {
                    None => {
                        if s != 0 {
                            *self.shadow.add(b) = 0;
                            self.shfree.push(s);
                        }
                    }
                    Some(x) => {
                        if s != 0 {
                            self.sh[s as usize] = x;
                        } else {
                            let i = match self.shfree.pop() {
                                Some(i) => {
                                    self.sh[i as usize] = x;
                                    i
                                }
                                None => {
                                    self.sh.push(x);
                                    self.sh.len() as u32 - 1
                                }
                            };
                            *self.shadow.add(b) = i;
                        }
                    }
                }
            }
        }
        self.cur += 1;
        self.logging = logging;
    }
    pub fn cstr(&self, mut a: u64) -> Vec<u8> {
        let mut v = vec![];
        while self.ok(a, 1) {
            let b = self.rd(a, 1) as u8;
            if b == 0 {
                break;
            }
            v.push(b);
            a += 1;
        }
        v
    }
    pub fn bytes(&self, a: u64, n: u64) -> Vec<u8> {
        (0..n).map(|i| self.rd(a + i, 1) as u8).collect()
    }
    // ---- allocator (all metadata lives in the arena, hence is undone with it) ----
    // layout at heap_start: [0] bump pointer, [8..] free list heads
    fn class(n: u64) -> (usize, u64) {
        if n <= 1024 {
            let c = ((n + 15) / 16).max(1);
            (c as usize, c * 16)
        } else {
            let p = n.next_power_of_two();
            (64 + p.trailing_zeros() as usize, p)
        }
    }
    pub fn init_heap(&mut self, start: u64) {
        self.heap_start = (start + 4095) & !4095;
        let first = self.heap_start + 4096;
        self.wr(self.heap_start, 8, first);
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        if n > SIZE / 4 {
            return 0;
        }
        let a = align.max(16);
        if a > 16 {
            // over-allocate, keep a marker for free
            let raw = self.malloc(n + a, 16);
            if raw == 0 {
                return 0;
            }
            let p = (raw + a) & !(a - 1);
            if p != raw {
                self.wr(p - 16, 8, u64::MAX);
                self.wr(p - 8, 8, raw);
            }
            return p;
        }
        let (c, sz) = Self::class(n);
        let head = self.heap_start + 8 + 8 * c as u64;
        let h = self.rd(head, 8);
        if h != 0 {
            let nx = self.rd(h, 8);
            self.wr(head, 8, nx);
            self.wr(h - 16, 8, sz);
            self.wr(h - 8, 8, n);
            return h;
        }
        let b = self.rd(self.heap_start, 8);
        if b + sz + 32 >= self.stack_lim {
            return 0;
        }
        self.wr(self.heap_start, 8, b + sz + 16);
        self.wr(b, 8, sz);
        self.wr(b + 8, 8, n);
        b + 16
    }
    pub fn free(&mut self, p: u64) {
        if p == 0 {
            return;
        }
        let sz = self.rd(p - 16, 8);
        if sz == u64::MAX {
            let raw = self.rd(p - 8, 8);
            return self.free(raw);
        }
        let (c, _) = Self::class(sz);
        let head = self.heap_start + 8 + 8 * c as u64;
        let h = self.rd(head, 8);
        self.wr(p, 8, h);
        self.wr(head, 8, p);
    }
    pub fn alloc_size(&self, p: u64) -> u64 {
        let sz = self.rd(p - 16, 8);
        if sz == u64::MAX {
            let raw = self.rd(p - 8, 8);
            let s = self.rd(raw - 16, 8);
            return raw + s - p;
        }
        sz
    }
    pub fn realloc(&mut self, p: u64, n: u64, align: u64) -> u64 {
        if p == 0 {
            return self.malloc(n, align);
        }
        let old = self.alloc_size(p);
        if n <= old && n > old / 4 {
            return p;
        }
        let q = self.malloc(n, align);
        if q == 0 {
            return 0;
        }
        self.copy(q, p, old.min(n));
        self.free(p);
        q
    }
}
