//! External functions: the harness API and the libc subset reached by the guest.
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;

pub type ExtFn = fn(&mut Exec, &[Val], &CallI) -> X<Val>;

fn k(v: u64) -> X<Val> {
    Ok(Val::k(v))
}
const FULL: [u64; 4] = [u64::MAX; 4];

fn range(lo: u8, hi: u8) -> [u64; 4] {
    let mut d = [0u64; 4];
    for i in lo as usize..=hi as usize {
        d[i / 64] |= 1 << (i % 64);
    }
    d
}
fn a(ex: &mut Exec, args: &[Val], i: usize) -> X<u64> {
    ex.conc(args[i], 64)
}
fn text(ex: &mut Exec, p: u64, n: u64) -> String {
    let b: Vec<u8> = (0..n)
        .map(|i| {
            let v = ex.mem.byte(p + i);
            if v.e == 0 {
                v.c as u8
            } else {
                ex.st.eval(v.e, &ex.sv.model) as u8
            }
        })
        .collect();
    String::from_utf8_lossy(&b).to_string()
}

fn sym_bytes(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
    for i in 0..n {
        let e = ex.fresh(&FULL);
        ex.mem.wr_byte(p + i, Val { c: 0, e });
    }
    k(0)
}
/// sym_alpha(p, n, alphabet, len)
fn sym_alpha(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n, t, l) = (a(ex, args, 0)?, a(ex, args, 1)?, a(ex, args, 2)?, a(ex, args, 3)?);
    let mut d = [0u64; 4];
    for b in ex.mem.bytes(t, l) {
        d[b as usize / 64] |= 1 << (b % 64);
    }
    for i in 0..n {
        let e = ex.fresh(&d);
        ex.mem.wr_byte(p + i, Val { c: 0, e });
    }
    k(0)
}
fn sym_range(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let (lo, hi) = (a(ex, args, 0)?, a(ex, args, 1)?);
    let e = ex.fresh(&range(lo as u8, hi as u8));
    let w = ci.dw.first().copied().unwrap_or(8);
    let e = ex.st.zext(e, w);
    Ok(ex.st.v(e))
}
fn sym_choose(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let n = a(ex, args, 0)?;
    if n == 0 || n > 256 {
        return ex.err("sym_choose: bad range");
    }
    let e = ex.fresh(&range(0, (n - 1) as u8));
    let id = ex.nvars as usize - 1;
    let mut alts = vec![];
    for v in (1..n).rev() {
        let kx = ex.st.konst(8, v as u128);
        let c = ex.st.cmp(O::Eq, e, kx);
        let mut m = ex.sv.model.clone();
        m[id] = v as u8;
        let set = if ci.nd == 1 { Some((ci.d, Val::k(v))) } else { None };
        alts.push(Alt { cond: c, kv: None, set, model: m });
    }
    if !alts.is_empty() {
        ex.push_choice(alts);
    }
    let z = ex.st.konst(8, 0);
    let c = ex.st.cmp(O::Eq, e, z);
    ex.sv.assume(&mut ex.st, c);
    k(0)
}
fn sym_concretize(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let v = ex.conc(args[0], ci.aw[0])?;
    k(v)
}
fn cond(ex: &mut Exec, v: Val, w: u8) -> Val {
    if v.e == 0 {
        return Val::k((v.c != 0) as u64);
    }
    if w == 1 {
        return v;
    }
    let z = ex.st.konst(w, 0);
    let e = ex.st.cmp(O::Eq, v.e, z);
    let e = ex.st.not(e);
    ex.st.v(e)
}
fn sym_assume(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let c = cond(ex, args[0], ci.aw[0]);
    ex.assume(c)?;
    k(0)
}
fn sym_assert(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let c = cond(ex, args[0], ci.aw[0]);
    if c.e == 0 && c.c == 1 {
        ex.stats.asserts += 1;
        return k(0);
    }
    let (p, n) = (a(ex, args, 1)?, a(ex, args, 2)?);
    let msg = text(ex, p, n);
    ex.assert(c, msg)?;
    k(0)
}
/// a violation whose message is built by the guest (concretely false)
fn sym_fail(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
    let msg = text(ex, p, n);
    ex.stats.asserts += 1;
    ex.viol("assert", msg)
}
fn sym_cover(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
    let ent = ex.covers.entry(p).or_insert_with(|| (String::new(), 0));
    ent.1 += 1;
    if ent.1 == 1 {
        let t = text(ex, p, n);
        ex.covers.get_mut(&p).unwrap().0 = t;
    }
    k(0)
}
fn sym_note(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    if ex.trace {
        let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
        let t = text(ex, p, n);
        eprintln!("note[{}]: {}", std::process::id(), t);
    }
    k(0)
}
/// 0 false, 1 true, 2 both feasible (no fork)
fn sym_status(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let c = cond(ex, args[0], ci.aw[0]);
    if c.e == 0 {
        return k(c.c);
    }
    match ex.sv.quick(&mut ex.st, c.e) {
        Some(b) => k(b as u64),
        None => k(2),
    }
}
/// is the value free of input bytes
fn sym_const(_: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    k((args[0].e == 0) as u64)
}
/// x in byte set: sym_in_set(byte, table of 256 0/1 bytes) -> bool, without forking
fn sym_in_set(ex: &mut Exec, args: &[Val], _ci: &CallI) -> X<Val> {
    let t = a(ex, args, 1)?;
    let tb = ex.mem.bytes(t, 256);
    let v = args[0];
    if v.e == 0 {
        return k((tb[(v.c & 255) as usize] != 0) as u64);
    }
    let x = ex.st.extract(v.e, 0, 8);
    let mut d = [0u64; 4];
    for (i, b) in tb.iter().enumerate() {
        if *b != 0 {
            d[i / 64] |= 1 << (i % 64);
        }
    }
    let e = crate::solver::in_set(&mut ex.st, x, &d);
    let w = _ci.dw[0];
    let e = ex.st.zext(e, w);
    Ok(ex.st.v(e))
}
/// sym_ite(c, a, b)
fn sym_ite(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let c = cond(ex, args[0], ci.aw[0]);
    if c.e == 0 {
        return Ok(if c.c == 1 { args[1] } else { args[2] });
    }
    let (x, y) = (ex.x(args[1], ci.aw[1]), ex.x(args[2], ci.aw[1]));
    let e = ex.st.ite(c.e, x, y);
    Ok(ex.st.v(e))
}
fn sym_kill(_: &mut Exec, _: &[Val], _: &CallI) -> X<Val> {
    Err(Stop::Killed)
}

fn malloc(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let n = a(ex, args, 0)?;
    let p = ex.mem.malloc(n, 16);
    if p == 0 && n < (1 << 27) {
        return ex.err("guest heap exhausted");
    }
    k(p)
}
fn calloc(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let n = a(ex, args, 0)?.wrapping_mul(a(ex, args, 1)?);
    let p = ex.mem.malloc(n, 16);
    if p != 0 {
        ex.mem.set(p, Val::k(0), n);
    }
    k(p)
}
fn realloc(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
    k(ex.mem.realloc(p, n, 16))
}
fn posix_memalign(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (o, al, n) = (a(ex, args, 0)?, a(ex, args, 1)?, a(ex, args, 2)?);
    let p = ex.mem.malloc(n, al);
    ex.mem.wr(o, 8, p);
    k(if p == 0 { 12 } else { 0 })
}
fn free(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let p = a(ex, args, 0)?;
    ex.mem.free(p);
    k(0)
}
fn rust_alloc(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (n, al) = (a(ex, args, 0)?, a(ex, args, 1)?);
    k(ex.mem.malloc(n, al))
}
fn rust_alloc_zeroed(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (n, al) = (a(ex, args, 0)?, a(ex, args, 1)?);
    let p = ex.mem.malloc(n, al);
    if p != 0 {
        ex.mem.set(p, Val::k(0), n);
    }
    k(p)
}
fn rust_realloc(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, al, n) = (a(ex, args, 0)?, a(ex, args, 2)?, a(ex, args, 3)?);
    k(ex.mem.realloc(p, n, al))
}
fn nop0(_: &mut Exec, _: &[Val], _: &CallI) -> X<Val> {
    k(0)
}
fn ret1(_: &mut Exec, _: &[Val], _: &CallI) -> X<Val> {
    k(1)
}
fn bcmp(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    cmp_impl(ex, args, false)
}
fn memcmp(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    cmp_impl(ex, args, true)
}
fn cmp_impl(ex: &mut Exec, args: &[Val], order: bool) -> X<Val> {
    let (p, q, n) = (a(ex, args, 0)?, a(ex, args, 1)?, a(ex, args, 2)?);
    if n == 0 {
        return k(0);
    }
    if !ex.mem.ok(p, n) || !ex.mem.ok(q, n) {
        return ex.viol("segv", "memcmp out of range".into());
    }
    if !ex.mem.has_shadow(p, n) && !ex.mem.has_shadow(q, n) {
        let (x, y) = (ex.mem.bytes(p, n), ex.mem.bytes(q, n));
        return k(match x.cmp(&y) {
            std::cmp::Ordering::Less => 0xffff_ffff,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        });
    }
    if !order {
        let mut c = ex.st.t();
        for i in 0..n {
            let (x, y) = (ex.mem.byte(p + i), ex.mem.byte(q + i));
            let (x, y) = (ex.x(x, 8), ex.x(y, 8));
            let e = ex.st.cmp(O::Eq, x, y);
            c = ex.st.bin(O::And, c, e);
            if ex.st.is_const(c) == Some(0) {
                break;
            }
        }
        let nc = ex.st.not(c);
        let e = ex.st.zext(nc, 32);
        return Ok(ex.st.v(e));
    }
    let m1 = ex.st.konst(32, 0xffff_ffff);
    let p1 = ex.st.konst(32, 1);
    let mut r = ex.st.konst(32, 0);
    for i in (0..n).rev() {
        let (x, y) = (ex.mem.byte(p + i), ex.mem.byte(q + i));
        let (x, y) = (ex.x(x, 8), ex.x(y, 8));
        let lt = ex.st.cmp(O::Ult, x, y);
        let gt = ex.st.cmp(O::Ult, y, x);
        r = ex.st.ite(gt, p1, r);
        r = ex.st.ite(lt, m1, r);
    }
    Ok(ex.st.v(r))
}
fn memcpy(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (d, s, n) = (a(ex, args, 0)?, a(ex, args, 1)?, a(ex, args, 2)?);
    if n > 0 {
        ex.memcpy(d, s, n)?;
    }
    k(d)
}
fn memset(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (d, n) = (a(ex, args, 0)?, a(ex, args, 2)?);
    let v = if args[1].e == 0 {
        Val::k(args[1].c & 255)
    } else {
        let e = ex.st.extract(args[1].e, 0, 8);
        ex.st.v(e)
    };
    if n > 0 {
        if !ex.mem.ok(d, n) {
            return ex.viol("segv", "memset".into());
        }
        ex.mem.set(d, v, n);
    }
    k(d)
}
fn strlen(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let p = a(ex, args, 0)?;
    let mut n = 0;
    loop {
        let v = ex.mem.byte(p + n);
        let z = if v.e == 0 {
            v.c == 0
        } else {
            let kz = ex.st.konst(8, 0);
            let e = ex.st.cmp(O::Eq, v.e, kz);
            ex.decide(e)?
        };
        if z {
            return k(n);
        }
        n += 1;
    }
}
fn memchr(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 2)?);
    let c = if args[1].e == 0 {
        ex.st.konst(8, (args[1].c & 255) as u128)
    } else {
        ex.st.extract(args[1].e, 0, 8)
    };
    for i in 0..n {
        let v = ex.mem.byte(p + i);
        let x = ex.x(v, 8);
        let e = ex.st.cmp(O::Eq, x, c);
        if ex.decide(e)? {
            return k(p + i);
        }
    }
    k(0)
}
fn memrchr(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 2)?);
    let c = if args[1].e == 0 {
        ex.st.konst(8, (args[1].c & 255) as u128)
    } else {
        ex.st.extract(args[1].e, 0, 8)
    };
    for i in (0..n).rev() {
        let v = ex.mem.byte(p + i);
        let x = ex.x(v, 8);
        let e = ex.st.cmp(O::Eq, x, c);
        if ex.decide(e)? {
            return k(p + i);
        }
    }
    k(0)
}
fn errno(ex: &mut Exec, _: &[Val], _: &CallI) -> X<Val> {
    k(ex.env_errno)
}
fn fail(ex: &mut Exec, e: u64) -> X<Val> {
    let p = ex.env_errno;
    ex.mem.wr(p, 4, e);
    k(u64::MAX)
}
fn enoent(ex: &mut Exec, _: &[Val], ci: &CallI) -> X<Val> {
    fail(ex, 2)?;
    k(mask64(ci.dw.first().copied().unwrap_or(64)))
}
fn enosys(ex: &mut Exec, _: &[Val], ci: &CallI) -> X<Val> {
    fail(ex, 38)?;
    k(mask64(ci.dw.first().copied().unwrap_or(64)))
}
fn syscall(ex: &mut Exec, args: &[Val], ci: &CallI) -> X<Val> {
    let n = a(ex, args, 0)?;
    match n {
        202 => {
            let op = a(ex, args, 2)? & 0x7f;
            if op == 0 || op == 9 {
                return ex.viol("deadlock", "blocked forever (futex wait with no other thread)".into());
            }
            k(0)
        }
        318 => getrandom(ex, &args[1..], ci),
        186 => k(4242),
        _ => ex.err(format!("syscall {}", n)),
    }
}
fn getrandom(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 0)?, a(ex, args, 1)?);
    ex.mem.set(p, Val::k(0x5a), n);
    k(n)
}
fn clock_gettime(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let p = a(ex, args, 1)?;
    let t = ex.clock;
    ex.mem.wr(p, 8, t);
    ex.mem.wr(p + 8, 8, 0);
    k(0)
}
fn abort(ex: &mut Exec, _: &[Val], _: &CallI) -> X<Val> {
    ex.viol("abort", "abort called".into())
}
fn exit(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let c = a(ex, args, 0)?;
    ex.viol("exit", format!("process exit({})", c as i32))
}
fn write(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (fd, p, n) = (a(ex, args, 0)?, a(ex, args, 1)?, a(ex, args, 2)?);
    if ex.trace && fd == 2 {
        let t = text(ex, p, n);
        eprint!("{}", t);
    }
    k(n)
}
fn writev(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (p, n) = (a(ex, args, 1)?, a(ex, args, 2)?);
    let mut t = 0;
    for i in 0..n {
        t += ex.mem.rd(p + 16 * i + 8, 8);
    }
    k(t)
}
fn fdiv_pow(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let x = f64::from_bits(a(ex, args, 0)?);
    let y = f64::from_bits(a(ex, args, 1)?);
    k(x.powf(y).to_bits())
}
fn sched_getaffinity(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (n, p) = (a(ex, args, 1)?, a(ex, args, 2)?);
    ex.mem.set(p, Val::k(0), n);
    ex.mem.set(p, Val::k(1), 1);
    k(0)
}
fn key_create(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let p = a(ex, args, 0)?;
    ex.mem.wr(p, 4, 7);
    k(0)
}
fn strerror_r(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let (e, p) = (a(ex, args, 0)?, a(ex, args, 1)?);
    let t = format!("error {}\0", e as i32);
    for (i, b) in t.bytes().enumerate() {
        ex.mem.wr(p + i as u64, 1, b as u64);
    }
    k(0)
}
fn sysconf(ex: &mut Exec, args: &[Val], _: &CallI) -> X<Val> {
    let n = a(ex, args, 0)?;
    k(match n {
        30 => 4096,
        84 => 1,
        _ => 1024,
    })
}

pub fn lookup(n: &str) -> Option<ExtFn> {
    Some(match n {
        "sym_bytes" => sym_bytes,
        "sym_alpha" => sym_alpha,
        "sym_range" => sym_range,
        "sym_choose" => sym_choose,
        "sym_concretize" | "sym_concretize8" => sym_concretize,
        "sym_assume" => sym_assume,
        "sym_assert" => sym_assert,
        "sym_fail" => sym_fail,
        "sym_cover" => sym_cover,
        "sym_note" => sym_note,
        "sym_status" => sym_status,
        "sym_in_set" => sym_in_set,
        "sym_const" => sym_const,
        "sched_getaffinity" => sched_getaffinity,
        "sym_ite8" | "sym_ite64" => sym_ite,
        "sym_kill" => sym_kill,
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "posix_memalign" => posix_memalign,
        "free" => free,
        "bcmp" => bcmp,
        "memcmp" => memcmp,
        "memcpy" | "memmove" => memcpy,
        "memset" => memset,
        "strlen" => strlen,
        "memchr" => memchr,
        "memrchr" => memrchr,
        "__errno_location" => errno,
        "syscall" => syscall,
        "getrandom" => getrandom,
        "clock_gettime" => clock_gettime,
        "abort" => abort,
        "exit" | "_exit" => exit,
        "write" => write,
        "writev" => writev,
        "pow" => fdiv_pow,
        "sysconf" => sysconf,
        "__xpg_strerror_r" => strerror_r,
        "pthread_key_create" => key_create,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" | "close" | "pthread_key_delete" | "pthread_setspecific"
        | "pthread_getspecific" | "nanosleep" | "fflush" | "signal" | "sigaction" | "setenv" | "unsetenv" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "clock_nanosleep" | "isatty" => nop0,
        "getpid" | "gettid" => ret1,
        "open" | "open64" | "openat64" | "stat" | "stat64" | "lstat64" | "fstat64" | "readlink" | "access" | "mkdir" | "unlink" | "rename" => enoent,
        "statx" | "ioctl" | "fcntl" | "fcntl64" => enosys,
        _ => return None,
    })
}
/// functions with a body that are replaced
pub fn override_fn(n: &str) -> Option<ExtFn> {
    // the allocator shims of the Rust runtime
    if n.contains("__rust_alloc_zeroed") || n.contains("__rdl_alloc_zeroed") {
        return Some(rust_alloc_zeroed);
    }
    if n.contains("__rust_realloc") || n.contains("__rdl_realloc") {
        return Some(rust_realloc);
    }
    if n.contains("__rust_dealloc") || n.contains("__rdl_dealloc") {
        return Some(free);
    }
    if (n.contains("__rust_alloc") && !n.contains("error") && !n.contains("no_alloc")) || n.contains("__rdl_alloc") {
        return Some(rust_alloc);
    }
    None
}
