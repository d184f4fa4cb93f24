//! A small operating system for the harnesses, the same in the symbolic and in the native build: files under
//! /vfs live in memory, the environment is a table, standard output can be captured, and a thread that blocks
//! lets the harness' scheduler run.  Everything else goes to the kernel (native build only).
#![allow(static_mut_refs, clashing_extern_declarations, non_camel_case_types)]
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};

pub const EIO: i32 = 5;
pub const ENOENT: i32 = 2;
pub const EACCES: i32 = 13;
pub const ENOSPC: i32 = 28;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Close,
    Stat,
    Mkdir,
    Unlink,
    Rename,
    ReadDir,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    File,
    Dir,
    Link,
}
struct Node {
    path: Vec<u8>,
    kind: Kind,
    data: Vec<u8>,
    gone: bool,
}
struct Fd {
    node: usize,
    pos: usize,
    append: bool,
    open: bool,
}
struct Dir {
    names: Vec<(Vec<u8>, Kind)>,
    next: usize,
    ent: libc::dirent64,
    fd: c_int,
}
struct Os {
    nodes: Vec<Node>,
    fds: Vec<Fd>,
    env: Vec<(Vec<u8>, Vec<u8>)>,
    fault: Option<fn(Op, &[u8], usize) -> Result<usize, i32>>,
    block: Option<fn(bool) -> bool>,
    time: (i64, i64),
    capture: bool,
    out: Vec<u8>,
}
static mut OS: Os =
    Os { nodes: Vec::new(), fds: Vec::new(), env: Vec::new(), fault: None, block: None, time: (1_700_000_000, 0), capture: false, out: Vec::new() };
fn os() -> &'static mut Os {
    unsafe { &mut OS }
}
const BASE: c_int = 1000;
extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn err(e: i32) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}

// ---- harness side ----------------------------------------------------------------------------------------
pub fn set_env(k: &str, v: &str) {
    let o = os();
    o.env.retain(|(n, _)| n != k.as_bytes());
    let mut v = v.as_bytes().to_vec();
    v.push(0);
    o.env.push((k.as_bytes().to_vec(), v));
}
/// The callback sees the operation, the path and the size, and answers with the size the operation may
/// transfer or the error it fails with.
pub fn set_fault(f: Option<fn(Op, &[u8], usize) -> Result<usize, i32>>) {
    os().fault = f
}
/// Called when the thread blocks; `timed`: the wait has a time limit.  Answers whether something happened.
pub fn set_block(f: fn(bool) -> bool) {
    os().block = Some(f)
}
pub fn advance(seconds: i64) {
    os().time.0 += seconds
}
pub fn capture(on: bool) {
    os().capture = on
}
pub fn output() -> Vec<u8> {
    std::mem::take(&mut os().out)
}
fn clean(p: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                while let Some(b) = out.pop() {
                    if b == b'/' {
                        break;
                    }
                }
            }
            _ => {
                out.push(b'/');
                out.extend_from_slice(c)
            }
        }
    }
    out
}
fn parent(p: &[u8]) -> &[u8] {
    &p[..p.iter().rposition(|b| *b == b'/').unwrap_or(0)]
}
fn find(p: &[u8]) -> Option<usize> {
    os().nodes.iter().position(|n| !n.gone && n.path == p)
}
pub fn mkdirs(p: &str) {
    let p = clean(p.as_bytes());
    for i in 1..=p.len() {
        if i == p.len() || p[i] == b'/' {
            add(&p[..i], Kind::Dir, vec![]);
        }
    }
}
fn add(p: &[u8], kind: Kind, data: Vec<u8>) -> usize {
    let o = os();
    if let Some(i) = find(p) {
        if kind != Kind::Dir {
            o.nodes[i].data = data
        }
        return i;
    }
    o.nodes.push(Node { path: p.to_vec(), kind, data, gone: false });
    o.nodes.len() - 1
}
/// create a file and its directories
pub fn file(p: &[u8], data: &[u8]) {
    let p = clean(p);
    mkdirs(std::str::from_utf8(parent(&p)).unwrap());
    add(&p, Kind::File, data.to_vec());
}
pub fn link(p: &[u8]) {
    let p = clean(p);
    mkdirs(std::str::from_utf8(parent(&p)).unwrap());
    add(&p, Kind::Link, vec![]);
}
pub fn read_file(p: &[u8]) -> Option<Vec<u8>> {
    find(&clean(p)).map(|i| os().nodes[i].data.clone())
}
pub fn remove(p: &[u8]) {
    if let Some(i) = find(&clean(p)) {
        os().nodes[i].gone = true
    }
}
/// every file that exists
pub fn files() -> Vec<Vec<u8>> {
    os().nodes.iter().filter(|n| !n.gone && n.kind == Kind::File).map(|n| n.path.clone()).collect()
}
pub fn open_files() -> usize {
    os().fds.iter().filter(|f| f.open).count()
}

// ---- kernel side -----------------------------------------------------------------------------------------
#[cfg(not(symx))]
unsafe fn kernel(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        return err(-r as i32) as c_long;
    }
    r
}
#[cfg(symx)]
unsafe fn kernel(_: c_long, _: c_long, _: c_long, _: c_long, _: c_long, _: c_long, _: c_long) -> c_long {
    err(ENOENT) as c_long
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1
    }
    std::slice::from_raw_parts(p as *const u8, n)
}
unsafe fn vpath(p: *const c_char) -> Option<Vec<u8>> {
    let s = cstr(p);
    if s.len() >= 4 && &s[..4] == b"/vfs" {
        Some(clean(s))
    } else if !s.is_empty() && s[0] != b'/' && os().capture_cwd() {
        let mut v = b"/vfs/cwd/".to_vec();
        v.extend_from_slice(s);
        Some(clean(&v))
    } else {
        None
    }
}
impl Os {
    /// relative paths are under /vfs/cwd once that directory exists
    fn capture_cwd(&self) -> bool {
        find(b"/vfs/cwd").is_some()
    }
}
fn fault(op: Op, p: &[u8], n: usize) -> Result<usize, i32> {
    match os().fault {
        Some(f) => f(op, p, n),
        None => Ok(n),
    }
}

const O_CREAT: c_int = 0o100;
const O_EXCL: c_int = 0o200;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;
const O_DIRECTORY: c_int = 0o200000;

fn vopen(p: &[u8], flags: c_int) -> c_int {
    let o = os();
    let creating = flags & O_CREAT != 0;
    let n = match find(p) {
        Some(i) => {
            if creating && flags & O_EXCL != 0 {
                return err(17);
            }
            if let Err(e) = fault(if flags & 3 != 0 { Op::Create } else { Op::Open }, p, 0) {
                return err(e);
            }
            if o.nodes[i].kind == Kind::Link {
                return err(ENOENT);
            }
            if o.nodes[i].kind == Kind::Dir && flags & 3 != 0 {
                return err(21);
            }
            if o.nodes[i].kind != Kind::Dir && flags & O_DIRECTORY != 0 {
                return err(20);
            }
            if flags & O_TRUNC != 0 {
                o.nodes[i].data.clear()
            }
            i
        }
        None => {
            if !creating {
                return err(ENOENT);
            }
            match find(parent(p)) {
                Some(d) if o.nodes[d].kind == Kind::Dir => {}
                _ => return err(ENOENT),
            }
            if let Err(e) = fault(Op::Create, p, 0) {
                return err(e);
            }
            add(p, Kind::File, vec![])
        }
    };
    o.fds.push(Fd { node: n, pos: 0, append: flags & O_APPEND != 0, open: true });
    BASE + o.fds.len() as c_int - 1
}
fn vfd(fd: c_int) -> Option<&'static mut Fd> {
    if fd < BASE {
        return None;
    }
    os().fds.get_mut((fd - BASE) as usize)
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_long) -> c_int {
    match vpath(p) {
        Some(v) => vopen(&v, flags),
        None => kernel(2, p as c_long, flags as c_long, mode, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_long) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    match vfd(fd) {
        None => kernel(0, fd as c_long, b as c_long, n as c_long, 0, 0, 0) as ssize_t,
        Some(f) => {
            let node = &os().nodes[f.node];
            if !f.open {
                return err(9) as ssize_t;
            }
            if node.kind == Kind::Dir {
                return err(21) as ssize_t;
            }
            let n = n.min(node.data.len().saturating_sub(f.pos));
            match fault(Op::Read, &node.path, n) {
                Err(e) => err(e) as ssize_t,
                Ok(m) => {
                    let m = m.min(n);
                    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(f.pos.min(node.data.len())), b as *mut u8, m);
                    f.pos += m;
                    m as ssize_t
                }
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let src = std::slice::from_raw_parts(b as *const u8, n);
    match vfd(fd) {
        None => {
            if fd == 1 && os().capture {
                os().out.extend_from_slice(src);
                return n as ssize_t;
            }
            if cfg!(symx) {
                return n as ssize_t;
            }
            kernel(1, fd as c_long, b as c_long, n as c_long, 0, 0, 0) as ssize_t
        }
        Some(f) => {
            if !f.open {
                return err(9) as ssize_t;
            }
            let node = &mut os().nodes[f.node];
            match fault(Op::Write, &node.path, n) {
                Err(e) => err(e) as ssize_t,
                Ok(m) => {
                    let m = m.min(n);
                    if f.append {
                        f.pos = node.data.len()
                    }
                    if node.data.len() < f.pos {
                        node.data.resize(f.pos, 0)
                    }
                    if f.pos == node.data.len() {
                        node.data.extend_from_slice(&src[..m])
                    } else {
                        for (i, x) in src[..m].iter().enumerate() {
                            if f.pos + i < node.data.len() {
                                node.data[f.pos + i] = *x
                            } else {
                                node.data.push(*x)
                            }
                        }
                    }
                    f.pos += m;
                    m as ssize_t
                }
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let mut t = 0;
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len == 0 {
            continue;
        }
        let r = write(fd, x.iov_base, x.iov_len);
        if r < 0 {
            return if t > 0 { t } else { r };
        }
        t += r;
        if (r as usize) < x.iov_len {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match vfd(fd) {
        None => kernel(3, fd as c_long, 0, 0, 0, 0, 0) as c_int,
        Some(f) => {
            if !f.open {
                return err(9);
            }
            f.open = false;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match vfd(fd) {
        None => kernel(8, fd as c_long, off as c_long, whence as c_long, 0, 0, 0) as i64,
        Some(f) => {
            let len = os().nodes[f.node].data.len() as i64;
            let p = match whence {
                0 => off,
                1 => f.pos as i64 + off,
                _ => len + off,
            };
            if p < 0 {
                return err(22) as i64;
            }
            f.pos = p as usize;
            p
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match vfd(fd) {
        None => kernel(77, fd as c_long, len as c_long, 0, 0, 0, 0) as c_int,
        Some(f) => {
            os().nodes[f.node].data.resize(len as usize, 0);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match vfd(fd) {
        None => kernel(74, fd as c_long, 0, 0, 0, 0, 0) as c_int,
        Some(_) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    match vfd(fd) {
        None => kernel(72, fd as c_long, cmd as c_long, arg, 0, 0, 0) as c_int,
        Some(f) if cmd == 0 || cmd == 1030 => {
            let o = os();
            let n = Fd { node: f.node, pos: f.pos, append: f.append, open: true };
            o.fds.push(n);
            BASE + o.fds.len() as c_int - 1
        }
        Some(f) => {
            if f.open {
                0
            } else {
                err(9)
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
fn mode(k: Kind) -> u32 {
    match k {
        Kind::File => 0o100644,
        Kind::Dir => 0o040755,
        Kind::Link => 0o120777,
    }
}
/// find the node, or set errno
unsafe fn vstat(p: &[u8], nofollow: bool) -> Option<usize> {
    match find(p) {
        None => {
            err(ENOENT);
            None
        }
        Some(i) => {
            if let Err(e) = fault(Op::Stat, p, 0) {
                err(e);
                return None;
            }
            if os().nodes[i].kind == Kind::Link && !nofollow {
                err(ENOENT);
                return None;
            }
            Some(i)
        }
    }
}
unsafe fn fill(i: usize, st: *mut libc::stat64) -> c_int {
    let n = &os().nodes[i];
    *st = std::mem::zeroed();
    (*st).st_mode = mode(n.kind);
    (*st).st_size = n.data.len() as i64;
    (*st).st_ino = i as u64 + 1;
    (*st).st_dev = 1;
    (*st).st_nlink = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match vpath(p) {
        None => kernel(4, p as c_long, st as c_long, 0, 0, 0, 0) as c_int,
        Some(v) => vstat(&v, false).map_or(-1, |i| fill(i, st)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match vpath(p) {
        None => kernel(6, p as c_long, st as c_long, 0, 0, 0, 0) as c_int,
        Some(v) => vstat(&v, true).map_or(-1, |i| fill(i, st)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match vfd(fd) {
        None => kernel(5, fd as c_long, st as c_long, 0, 0, 0, 0) as c_int,
        Some(f) => fill(f.node, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    let i = if p.is_null() || *p == 0 {
        match vfd(dirfd) {
            None => return kernel(332, dirfd as c_long, p as c_long, flags as c_long, mask as c_long, st as c_long, 0) as c_int,
            Some(f) => f.node,
        }
    } else {
        let path = match (vfd(dirfd), *p as u8) {
            (Some(f), c) if c != b'/' => {
                let mut v = os().nodes[f.node].path.clone();
                v.push(b'/');
                v.extend_from_slice(cstr(p));
                Some(clean(&v))
            }
            _ => vpath(p),
        };
        match path {
            None => return kernel(332, dirfd as c_long, p as c_long, flags as c_long, mask as c_long, st as c_long, 0) as c_int,
            Some(v) => match vstat(&v, flags & 0x100 != 0) {
                None => return -1,
                Some(i) => i,
            },
        }
    };
    let n = &os().nodes[i];
    *st = std::mem::zeroed();
    (*st).stx_mask = 0x7ff;
    (*st).stx_mode = mode(n.kind) as u16;
    (*st).stx_size = n.data.len() as u64;
    (*st).stx_ino = i as u64 + 1;
    (*st).stx_nlink = 1;
    (*st).stx_dev_minor = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match vpath(p) {
        None => kernel(21, p as c_long, m as c_long, 0, 0, 0, 0) as c_int,
        Some(v) => vstat(&v, false).map_or(-1, |_| 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int {
    match vpath(p) {
        None => kernel(83, p as c_long, m as c_long, 0, 0, 0, 0) as c_int,
        Some(v) => {
            if find(&v).is_some() {
                return err(17);
            }
            if find(parent(&v)).is_none() {
                return err(ENOENT);
            }
            if let Err(e) = fault(Op::Mkdir, &v, 0) {
                return err(e);
            }
            add(&v, Kind::Dir, vec![]);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match vpath(p) {
        None => kernel(87, p as c_long, 0, 0, 0, 0, 0) as c_int,
        Some(v) => match find(&v) {
            None => err(ENOENT),
            Some(i) => {
                if os().nodes[i].kind == Kind::Dir {
                    return err(21);
                }
                if let Err(e) = fault(Op::Unlink, &v, 0) {
                    return err(e);
                }
                os().nodes[i].gone = true;
                0
            }
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    match (vpath(p), vpath(q)) {
        (Some(a), Some(b)) => {
            let i = match find(&a) {
                None => return err(ENOENT),
                Some(i) => i,
            };
            if find(parent(&b)).is_none() {
                return err(ENOENT);
            }
            if let Err(e) = fault(Op::Rename, &a, 0) {
                return err(e);
            }
            if let Some(j) = find(&b) {
                os().nodes[j].gone = true
            }
            os().nodes[i].path = b;
            0
        }
        _ => kernel(82, p as c_long, q as c_long, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    let v = match vpath(p) {
        Some(v) => v,
        None => {
            err(ENOENT);
            return std::ptr::null_mut();
        }
    };
    let fd = vopen(&v, O_DIRECTORY);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    if let Err(e) = fault(Op::ReadDir, &v, 0) {
        close(fd);
        err(e);
        return std::ptr::null_mut();
    }
    let names = os().nodes.iter().filter(|n| !n.gone && n.path.len() > v.len() && parent(&n.path) == &v[..]).map(|n| (n.path[v.len() + 1..].to_vec(), n.kind)).collect();
    Box::into_raw(Box::new(Dir { names, next: 0, ent: std::mem::zeroed(), fd })) as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut Dir);
    if d.next >= d.names.len() {
        return std::ptr::null_mut();
    }
    let (n, k) = &d.names[d.next];
    d.next += 1;
    d.ent.d_ino = d.next as u64;
    d.ent.d_type = match k {
        Kind::File => 8,
        Kind::Dir => 4,
        Kind::Link => 10,
    };
    for (i, b) in n.iter().enumerate() {
        d.ent.d_name[i] = *b as c_char;
    }
    d.ent.d_name[n.len()] = 0;
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let d = Box::from_raw(d as *mut Dir);
    close(d.fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    (*(d as *mut Dir)).fd
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if os().capture_cwd() {
        let p = b"/vfs/cwd\0";
        if n < p.len() {
            err(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
        return b;
    }
    if kernel(79, b as c_long, n as c_long, 0, 0, 0, 0) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_: c_int) -> c_int {
    err(25);
    0
}
#[cfg(not(symx))]
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(k: *const c_char) -> *const c_char {
    let k = cstr(k);
    for (n, v) in &os().env {
        if n == k {
            return v.as_ptr() as *const c_char;
        }
    }
    #[cfg(not(symx))]
    if k.starts_with(b"SYM_") || k.starts_with(b"RUST_") {
        let mut e = environ;
        while !(*e).is_null() {
            let s = cstr(*e);
            if s.len() > k.len() && &s[..k.len()] == k && s[k.len()] == b'=' {
                return (*e).add(k.len() + 1);
            }
            e = e.add(1)
        }
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: c_int, t: *mut libc::timespec) -> c_int {
    (*t).tv_sec = os().time.0;
    (*t).tv_nsec = os().time.1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    match n {
        // with real threads (native build only) the kernel does it
        202 if cfg!(not(symx)) && os().block.is_none() => kernel(n, a, b, c, d, e, f),
        202 => {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                if *(a as *const u32) != c as u32 {
                    return err(11) as c_long;
                }
                let timed = d != 0;
                if os().block.map_or(false, |f| f(timed)) {
                    return 0;
                }
                if !timed {
                    symrt::fail("blocked forever: a wait that nothing will end");
                }
                os().time.0 += 3600;
                return err(110) as c_long;
            }
            0
        }
        318 => {
            std::ptr::write_bytes(a as *mut u8, 0x5a, b as usize);
            b
        }
        186 => 4242,
        332 => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
        _ => kernel(n, a, b, c, d, e, f),
    }
}
/// keeps the symbols of this crate in the program
pub fn init() {
    set_env("HOME", "/vfs/home");
    set_env("XDG_CACHE_HOME", "/vfs/cache");
    mkdirs("/vfs/home");
    mkdirs("/vfs/cache");
}
