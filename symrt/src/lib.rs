//! Harness API.  Built with `--cfg symx` the calls are externs interpreted by the symbolic executor;
//! built normally they replay the byte sequence of a counterexample (SYM_REPLAY, hex) on the real code.

#[cfg(symx)]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_alpha(p: *mut u8, n: usize, t: *const u8, l: usize);
        fn sym_range(lo: u64, hi: u64) -> u8;
        fn sym_choose(n: u64) -> u64;
        fn sym_concretize(v: u64) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, p: *const u8, n: usize);
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_cover(p: *const u8, n: usize);
        fn sym_note(p: *const u8, n: usize);
        fn sym_in_set(b: u8, t: *const u8) -> u8;
        fn sym_kill() -> !;
        fn sym_status(c: bool) -> u64;
        fn sym_const(b: u8) -> u64;
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn alpha(b: &mut [u8], t: &[u8]) {
        unsafe { sym_alpha(b.as_mut_ptr(), b.len(), t.as_ptr(), t.len()) }
    }
    pub fn range(lo: u8, hi: u8) -> u8 {
        unsafe { sym_range(lo as u64, hi as u64) }
    }
    pub fn choose(n: usize) -> usize {
        unsafe { sym_choose(n as u64) as usize }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &'static str) {
        unsafe { sym_cover(m.as_ptr(), m.len()) }
    }
    pub fn note(m: &str) {
        unsafe { sym_note(m.as_ptr(), m.len()) }
    }
    pub fn in_set(b: u8, t: &[u8; 256]) -> bool {
        unsafe { sym_in_set(b, t.as_ptr()) != 0 }
    }
    pub fn kill() -> ! {
        unsafe { sym_kill() }
    }
    /// the value does not depend on the input on this path
    pub fn is_const(b: u8) -> bool {
        unsafe { sym_const(b) != 0 }
    }
    /// 0: false, 1: true, 2: undecided on this path
    pub fn status(c: bool) -> u8 {
        unsafe { sym_status(c) as u8 }
    }
}

#[cfg(not(symx))]
mod imp {
    use std::sync::Mutex;
    static IN: Mutex<Option<(Vec<u8>, usize)>> = Mutex::new(None);
    fn next() -> u8 {
        let mut g = IN.lock().unwrap_or_else(|e| e.into_inner());
        let st = g.get_or_insert_with(|| {
            let h = std::env::var("SYM_REPLAY").unwrap_or_default();
            let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            (v, 0)
        });
        // variables created after the failure are unconstrained
        let r = st.0.get(st.1).copied();
        st.1 += 1;
        match r {
            Some(b) => b,
            None => {
                eprintln!("SYM-INPUT-EXHAUSTED");
                0
            }
        }
    }
    pub fn bytes(b: &mut [u8]) {
        for x in b {
            *x = next()
        }
    }
    pub fn alpha(b: &mut [u8], t: &[u8]) {
        for x in b {
            *x = next();
            if !t.contains(x) {
                *x = t[0]
            }
        }
    }
    pub fn range(lo: u8, hi: u8) -> u8 {
        next().clamp(lo, hi)
    }
    pub fn choose(n: usize) -> usize {
        (next() as usize).min(n - 1)
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn assume(c: bool) {
        if !c {
            println!("SYM-ASSUME-FALSE");
            std::process::exit(78)
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            fail(m)
        }
    }
    pub fn fail(m: &str) -> ! {
        println!("SYM-ASSERT-FAILED: {}", m);
        std::process::exit(77)
    }
    pub fn cover(_: &'static str) {}
    pub fn note(m: &str) {
        eprintln!("note: {}", m)
    }
    pub fn in_set(b: u8, t: &[u8; 256]) -> bool {
        t[b as usize] != 0
    }
    pub fn status(c: bool) -> u8 {
        c as u8
    }
    pub fn is_const(_: u8) -> bool {
        true
    }
    pub fn kill() -> ! {
        println!("SYM-ASSUME-FALSE");
        std::process::exit(78)
    }
}
pub use imp::*;

/// `n` unconstrained bytes
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    bytes(&mut v);
    v
}
/// `n` bytes over an alphabet
pub fn over(n: usize, t: &[u8]) -> Vec<u8> {
    let mut v = vec![0; n];
    alpha(&mut v, t);
    v
}
/// an ASCII string: `?` in the template is a symbolic byte over the alphabet
pub fn template(t: &str, a: &[u8]) -> String {
    let mut v = t.as_bytes().to_vec();
    for i in 0..v.len() {
        if v[i] == b'?' {
            alpha(&mut v[i..i + 1], a);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// branch-free equality of byte strings of equal length
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

#[macro_export]
macro_rules! entry {
    ($f:path) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn sym_main(arg: u64) {
            $f(arg)
        }
        #[used]
        static SYM_KEEP: extern "C" fn(u64) = sym_main;
        fn main() {
            let a: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
            sym_main(a);
            println!("SYM-PATH-OK");
        }
    };
}
