//! Preloaded into the command line tool: makes chosen system calls on chosen files fail, or transfer less than asked for.
//! Everything is told by environment variables:
//! SHIM_RPATH / SHIM_WPATH  path whose reads / writes are affected, or "fd:<n>"
//! SHIM_R, SHIM_W           "<bytes>:<errno>:<once 0|1>": fails once that many bytes have been transferred
//! SHIM_RMAX, SHIM_WMAX     most bytes of one transfer
//! SHIM_DIR                 "<entries>:<errno>": fails listing a directory after that many entries
//! SHIM_LOG                 file that gets one letter per injected failure
//! SHIM_TRACE               file that gets a line for every file opened or altered, program started, connection made,
//!                          environment variable asked for
//! SHIM_NOW                 seconds since 1970 that the clock shows
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static RDONE: AtomicUsize = AtomicUsize::new(0);
static WDONE: AtomicUsize = AtomicUsize::new(0);
static DDONE: AtomicUsize = AtomicUsize::new(0);
static RFIRED: AtomicUsize = AtomicUsize::new(0);
static WFIRED: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    static environ: *const *const libc::c_char;
}
unsafe fn lookup(name: *const libc::c_char) -> *mut libc::c_char {
    let n = libc::strlen(name);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if name.is_null() {
        return std::ptr::null_mut();
    }
    if libc::strncmp(name, b"SHIM_\0".as_ptr() as *const libc::c_char, 5) != 0 {
        trace(b'E', name);
    }
    lookup(name)
}

unsafe fn env(name: &'static [u8]) -> Option<&'static [u8]> {
    let p = lookup(name.as_ptr() as *const libc::c_char);
    if p.is_null() {
        None
    } else {
        Some(CStr::from_ptr(p).to_bytes())
    }
}
fn num(b: &[u8]) -> usize {
    let mut n = 0usize;
    for c in b {
        n = n.wrapping_mul(10).wrapping_add((*c - b'0') as usize);
    }
    n
}
unsafe fn nums(name: &'static [u8]) -> Option<[usize; 3]> {
    let b = env(name)?;
    let mut o = [0; 3];
    for (i, p) in b.split(|c| *c == b':').enumerate().take(3) {
        o[i] = num(p);
    }
    Some(o)
}
unsafe fn is_target(fd: i32, name: &'static [u8]) -> bool {
    let t = match env(name) {
        None => return false,
        Some(t) => t,
    };
    if t.starts_with(b"fd:") {
        return num(&t[3..]) == fd as usize;
    }
    let mut link = [0u8; 40];
    let mut i = 14;
    link[..14].copy_from_slice(b"/proc/self/fd/");
    let mut d = [0u8; 12];
    let mut n = fd as u32;
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        k += 1;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        link[i] = d[k];
        i += 1;
    }
    let mut buf = [0u8; 1024];
    let n = libc::readlink(link.as_ptr() as *const libc::c_char, buf.as_mut_ptr() as *mut libc::c_char, buf.len());
    n > 0 && &buf[..n as usize] == t
}
unsafe fn note(what: &'static [u8]) {
    let p = lookup(b"SHIM_LOG\0".as_ptr() as *const libc::c_char);
    if p.is_null() {
        return;
    }
    let fd = libc::open(p, libc::O_WRONLY | libc::O_APPEND | libc::O_CREAT, 0o644);
    if fd >= 0 {
        libc::syscall(libc::SYS_write, fd, what.as_ptr(), 1usize);
        libc::close(fd);
    }
}
unsafe fn fail(errno: usize, what: &'static [u8]) -> isize {
    note(what);
    *libc::__errno_location() = errno as i32;
    -1
}

/// how many bytes may be transferred, or the errno to fail with
unsafe fn gate(n: usize, conf: Option<[usize; 3]>, max: Option<[usize; 3]>, done: &AtomicUsize, fired: &AtomicUsize) -> Result<usize, usize> {
    let mut n = n;
    if let Some([m, _, _]) = max {
        n = n.min(m.max(1));
    }
    if let Some([at, errno, once]) = conf {
        let d = done.load(SeqCst);
        let over = once == 1 && fired.load(SeqCst) > 0;
        if !over {
            if d >= at {
                fired.fetch_add(1, SeqCst);
                return Err(errno);
            }
            n = n.min(at - d);
        }
    }
    Ok(n)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if n > 0 && is_target(fd, b"SHIM_RPATH\0") {
        let m = match gate(n, nums(b"SHIM_R\0"), nums(b"SHIM_RMAX\0"), &RDONE, &RFIRED) {
            Ok(m) => m,
            Err(e) => return fail(e, b"R"),
        };
        let r = libc::syscall(libc::SYS_read, fd, buf, m) as isize;
        if r > 0 {
            RDONE.fetch_add(r as usize, SeqCst);
        }
        return r;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if n > 0 && is_target(fd, b"SHIM_WPATH\0") {
        let m = match gate(n, nums(b"SHIM_W\0"), nums(b"SHIM_WMAX\0"), &WDONE, &WFIRED) {
            Ok(m) => m,
            Err(e) => return fail(e, b"W"),
        };
        let r = libc::syscall(libc::SYS_write, fd, buf, m) as isize;
        if r > 0 {
            WDONE.fetch_add(r as usize, SeqCst);
        }
        return r;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if is_target(fd, b"SHIM_WPATH\0") {
        // first non-empty part only, as the caller has to cope with
        for i in 0..n as isize {
            let v = &*iov.offset(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base as *const u8, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some([at, errno, _]) = nums(b"SHIM_DIR\0") {
        if DDONE.fetch_add(1, SeqCst) >= at {
            fail(errno, b"D");
            return std::ptr::null_mut();
        }
    }
    let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 =
        std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const libc::c_char));
    f(d)
}

// ---------------------------------------------------------------- what a run touches

/// one line: letter, path
unsafe fn trace(what: u8, path: *const libc::c_char) {
    let p = lookup(b"SHIM_TRACE\0".as_ptr() as *const libc::c_char);
    if p.is_null() {
        return;
    }
    let e = *libc::__errno_location();
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, libc::O_WRONLY | libc::O_APPEND | libc::O_CREAT, 0o644) as i32;
    if fd >= 0 {
        let mut line = [0u8; 2048];
        line[0] = what;
        line[1] = b' ';
        let mut n = 2;
        if !path.is_null() {
            for c in CStr::from_ptr(path).to_bytes().iter().take(2000) {
                line[n] = *c;
                n += 1;
            }
        }
        line[n] = b'\n';
        libc::syscall(libc::SYS_write, fd, line.as_ptr(), n + 1);
        libc::syscall(libc::SYS_close, fd);
    }
    *libc::__errno_location() = e;
}
unsafe fn ret(r: libc::c_long) -> i32 {
    r as i32
}
unsafe fn opening(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let alters = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    trace(if alters { b'W' } else { b'R' }, path);
    ret(libc::syscall(libc::SYS_openat, dir, path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    opening(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    opening(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    opening(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    opening(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const libc::c_char, mode: u32) -> i32 {
    opening(libc::AT_FDCWD, path, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, mode)
}
macro_rules! alters {
    ($($name:ident($($a:ident: $t:ty),*) $path:expr, $nr:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            trace(b'M', $path);
            ret(libc::syscall(libc::$nr, $($a),*))
        }
    )* };
}
type P = *const libc::c_char;
alters! {
    unlink(p: P) p, SYS_unlink;
    unlinkat(d: i32, p: P, f: i32) p, SYS_unlinkat;
    rmdir(p: P) p, SYS_rmdir;
    mkdir(p: P, m: u32) p, SYS_mkdir;
    mkdirat(d: i32, p: P, m: u32) p, SYS_mkdirat;
    rename(a: P, b: P) a, SYS_rename;
    renameat(d: i32, a: P, e: i32, b: P) a, SYS_renameat;
    link(a: P, b: P) b, SYS_link;
    linkat(d: i32, a: P, e: i32, b: P, f: i32) b, SYS_linkat;
    symlink(a: P, b: P) b, SYS_symlink;
    chmod(p: P, m: u32) p, SYS_chmod;
    fchmod(f: i32, m: u32) b"(open file)\0".as_ptr() as P, SYS_fchmod;
    fchmodat(d: i32, p: P, m: u32) p, SYS_fchmodat;
    chown(p: P, u: u32, g: u32) p, SYS_chown;
    lchown(p: P, u: u32, g: u32) p, SYS_lchown;
    fchown(f: i32, u: u32, g: u32) b"(open file)\0".as_ptr() as P, SYS_fchown;
    truncate64(p: P, n: i64) p, SYS_truncate;
    utimensat(d: i32, p: P, t: *const libc::timespec, f: i32) p, SYS_utimensat;
}
#[no_mangle]
pub unsafe extern "C" fn futimens(f: i32, t: *const libc::timespec) -> i32 {
    trace(b'M', b"(open file)\0".as_ptr() as P);
    ret(libc::syscall(libc::SYS_utimensat, f, std::ptr::null::<libc::c_char>(), t, 0))
}
#[no_mangle]
pub unsafe extern "C" fn connect(f: i32, a: *const libc::sockaddr, n: u32) -> i32 {
    trace(b'N', b"connect\0".as_ptr() as P);
    ret(libc::syscall(libc::SYS_connect, f, a, n))
}
#[no_mangle]
pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
    trace(b'N', b"socket\0".as_ptr() as P);
    ret(libc::syscall(libc::SYS_socket, a, b, c))
}
#[no_mangle]
pub unsafe extern "C" fn bind(f: i32, a: *const libc::sockaddr, n: u32) -> i32 {
    trace(b'N', b"bind\0".as_ptr() as P);
    ret(libc::syscall(libc::SYS_bind, f, a, n))
}
#[no_mangle]
pub unsafe extern "C" fn kill(p: i32, s: i32) -> i32 {
    trace(b'X', b"kill\0".as_ptr() as P);
    ret(libc::syscall(libc::SYS_kill, p, s))
}
#[no_mangle]
pub unsafe extern "C" fn execve(p: P, a: *const P, e: *const P) -> i32 {
    trace(b'X', p);
    ret(libc::syscall(libc::SYS_execve, p, a, e))
}
#[no_mangle]
pub unsafe extern "C" fn execvp(p: P, a: *const P) -> i32 {
    trace(b'X', p);
    let f: extern "C" fn(P, *const P) -> i32 = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"execvp\0".as_ptr() as P));
    f(p, a)
}
type Spawn = extern "C" fn(*mut libc::pid_t, P, *const libc::c_void, *const libc::c_void, *const P, *const P) -> i32;
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut libc::pid_t, p: P, fa: *const libc::c_void, at: *const libc::c_void, a: *const P, e: *const P) -> i32 {
    trace(b'X', p);
    let f: Spawn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"posix_spawn\0".as_ptr() as P));
    f(pid, p, fa, at, a, e)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, p: P, fa: *const libc::c_void, at: *const libc::c_void, a: *const P, e: *const P) -> i32 {
    trace(b'X', p);
    let f: Spawn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"posix_spawnp\0".as_ptr() as P));
    f(pid, p, fa, at, a, e)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> i32 {
    trace(b'X', b"fork\0".as_ptr() as P);
    let f: extern "C" fn() -> i32 = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"fork\0".as_ptr() as P));
    f()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    let r = ret(libc::syscall(libc::SYS_clock_gettime, c, t));
    if r == 0 && c == libc::CLOCK_REALTIME {
        if let Some(n) = env(b"SHIM_NOW\0") {
            (*t).tv_sec = num(n) as i64;
        }
    }
    r
}
