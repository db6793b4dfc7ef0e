//! Interposed libc entry points.  They are defined in the executable, so the statically linked
//! library under test (std, mio, libc, libloading) calls them instead of glibc's.  A hook acts only
//! on a thread that has an environment installed; everything else goes straight to the kernel.
use crate::env::Env;
use libc::*;
use std::cell::Cell;
use std::ffi::CStr;

thread_local! {
    static ENV: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub fn install(e: *mut Env) {
    ENV.with(|c| c.set(e));
}

/// the environment of this thread, unless we are already inside it (its own I/O is not hooked)
fn cur() -> Option<&'static mut Env> {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return None;
    }
    let p = ENV.try_with(|c| c.get()).ok()?;
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

pub fn busy<T>(f: impl FnOnce() -> T) -> T {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}

unsafe fn raw_epoll_wait(epfd: c_int, ev: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    syscall(SYS_epoll_wait, epfd, ev, max, timeout) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(epfd: c_int, ev: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    let env = match cur() {
        None => return raw_epoll_wait(epfd, ev, max, timeout),
        Some(e) => e,
    };
    busy(|| {
        let n = raw_epoll_wait(epfd, ev, max, 0);
        if n != 0 {
            return n;
        }
        let kind = env.kind_of(epfd);
        if timeout == 0 {
            env.zero_poll(kind);
            return 0;
        }
        let mut left = timeout as i64;
        loop {
            if !env.on_block(kind, &mut left) {
                return 0; // the timeout elapsed (virtual time)
            }
            if std::mem::take(&mut env.intr) {
                *__errno_location() = EINTR;
                return -1;
            }
            let n = raw_epoll_wait(epfd, ev, max, 0);
            if n != 0 {
                return n;
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(epfd: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if let Some(e) = cur() {
        if op == EPOLL_CTL_ADD {
            e.register(epfd, fd);
        }
    }
    syscall(SYS_epoll_ctl, epfd, op, fd, ev) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    out(fd, buf, len, std::ptr::null(), 0, |len| syscall(SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    out(fd, buf, len, a, al, |len| syscall(SYS_sendto, fd, buf, len, flags, a, al as usize) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    out(fd, buf, len, std::ptr::null(), 0, |len| syscall(SYS_write, fd, buf, len) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let r = syscall(SYS_writev, fd, iov, n as usize) as ssize_t;
    if r > 0 {
        if let Some(e) = cur() {
            if e.is_client(fd) {
                let mut v: Vec<u8> = vec![];
                for i in 0..n as usize {
                    let x = &*iov.add(i);
                    v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
                }
                v.truncate(r as usize);
                busy(|| e.on_sent(fd, &v, None));
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    let r = syscall(SYS_sendmsg, fd, m, flags) as ssize_t;
    if r > 0 {
        if let Some(e) = cur() {
            if e.is_client(fd) {
                let mut v: Vec<u8> = vec![];
                for i in 0..(*m).msg_iovlen {
                    let x = &*(*m).msg_iov.add(i);
                    v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
                }
                v.truncate(r as usize);
                let dst = addr_of((*m).msg_name as *const sockaddr, (*m).msg_namelen);
                busy(|| e.on_sent(fd, &v, dst));
            }
        }
    }
    r
}

unsafe fn addr_of(a: *const sockaddr, al: socklen_t) -> Option<(u32, u16)> {
    if a.is_null() || (al as usize) < std::mem::size_of::<sockaddr_in>() || (*a).sa_family != AF_INET as u16 {
        return None;
    }
    let s = &*(a as *const sockaddr_in);
    Some((u32::from_be(s.sin_addr.s_addr), u16::from_be(s.sin_port)))
}

unsafe fn out(fd: c_int, buf: *const c_void, len: size_t, a: *const sockaddr, al: socklen_t, real: impl FnOnce(size_t) -> ssize_t) -> ssize_t {
    let mut env = cur();
    if let Some(e) = env.as_mut() {
        if !e.is_client(fd) {
            if e.loading.is_some() && regular(fd) {
                return file_write(e, len, real);
            }
            env = None;
        }
    }
    match env {
        None => real(len),
        Some(e) => {
            if e.refuse_send(fd) {
                *__errno_location() = ENETUNREACH;
                return -1;
            }
            let n = e.short_write(fd, len);
            let r = real(n);
            let saved = *__errno_location();
            if r >= 0 {
                let v = std::slice::from_raw_parts(buf as *const u8, r as usize);
                busy(|| e.on_sent(fd, v, addr_of(a, al)));
            } else {
                busy(|| e.on_send_failed(fd));
            }
            *__errno_location() = saved;
            r
        }
    }
}

unsafe fn regular(fd: c_int) -> bool {
    let mut st: stat = std::mem::zeroed();
    fd > 2 && fstat(fd, &mut st) == 0 && st.st_mode & S_IFMT == S_IFREG
}
/// a write to a file during a load: the disk may be full
unsafe fn file_write(e: &mut Env, len: size_t, real: impl FnOnce(size_t) -> ssize_t) -> ssize_t {
    let n = match e.disk { Some(left) => len.min(left.max(0) as usize), None => len };
    if n == 0 && len > 0 {
        *__errno_location() = ENOSPC;
        return -1;
    }
    let r = real(n);
    if r > 0 {
        if let Some(left) = e.disk.as_mut() { *left -= r as i64; }
    }
    let saved = *__errno_location();
    busy(|| e.check_partial());
    *__errno_location() = saved;
    r
}

// ---- file system: /tmp/model.so and /sys/kernel/realtime are redirected --------------------------
fn redirect(p: *const c_char) -> Option<(std::ffi::CString, &'static mut Env)> {
    if p.is_null() {
        return None;
    }
    let e = cur()?;
    let s = unsafe { CStr::from_ptr(p) }.to_bytes();
    let r = busy(|| e.redirect(s))?;
    Some((r, e))
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    match redirect(p) {
        Some((q, _)) => syscall(SYS_statx, AT_FDCWD, q.as_ptr(), flags, mask, buf) as c_int,
        None => syscall(SYS_statx, dir, p, flags, mask, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match redirect(p) {
        Some((q, _)) => syscall(SYS_access, q.as_ptr(), mode) as c_int,
        None => syscall(SYS_access, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    let _ = flags;
    match redirect(p) {
        Some((q, _)) => syscall(SYS_faccessat, AT_FDCWD, q.as_ptr(), mode) as c_int,
        None => syscall(SYS_faccessat, dir, p, mode) as c_int,
    }
}
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(e) = cur() {
        if e.loading.is_some() && e.disk == Some(-1) && flags & (O_CREAT | O_WRONLY | O_RDWR) != 0 {
            *__errno_location() = EACCES;
            return -1;
        }
    }
    match redirect(p) {
        Some((q, e)) => {
            let r = syscall(SYS_openat, AT_FDCWD, q.as_ptr(), flags, mode) as c_int;
            let saved = *__errno_location();
            busy(|| e.check_partial());
            *__errno_location() = saved;
            r
        }
        None => syscall(SYS_openat, dir, p, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match redirect(p) {
        Some((q, _)) => syscall(SYS_unlink, q.as_ptr()) as c_int,
        None => syscall(SYS_unlink, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    match redirect(p) {
        Some((q, _)) => syscall(SYS_unlinkat, AT_FDCWD, q.as_ptr(), flags) as c_int,
        None => syscall(SYS_unlinkat, dir, p, flags) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let ra = redirect(a).map(|x| x.0);
    let rb = redirect(b).map(|x| x.0);
    let pa = ra.as_ref().map(|x| x.as_ptr()).unwrap_or(a);
    let pb = rb.as_ref().map(|x| x.as_ptr()).unwrap_or(b);
    let r = syscall(SYS_rename, pa, pb) as c_int;
    let saved = *__errno_location();
    if let Some(e) = cur() {
        busy(|| e.check_partial());
    }
    *__errno_location() = saved;
    r
}
#[no_mangle]
pub unsafe extern "C" fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void {
    let real: unsafe extern "C" fn(*const c_char, c_int) -> *mut c_void =
        std::mem::transmute(dlsym(RTLD_NEXT, c"dlopen".as_ptr()));
    match redirect(p) {
        Some((q, e)) => {
            busy(|| e.on_dlopen(&q));
            real(q.as_ptr(), flags)
        }
        None => real(p, flags),
    }
}

// ---- realtime stand-ins: they record the request and return a scripted result ---------------------
#[no_mangle]
pub unsafe extern "C" fn sched_get_priority_max(policy: c_int) -> c_int {
    match cur() {
        Some(e) => busy(|| e.rt_call("priomax", policy, 0)),
        None => syscall(SYS_sched_get_priority_max, policy) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setschedparam(_t: pthread_t, policy: c_int, p: *const sched_param) -> c_int {
    match cur() {
        Some(e) => busy(|| e.rt_call("setsched", policy, (*p).sched_priority)),
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_setscheduler(pid: pid_t, policy: c_int, p: *const sched_param) -> c_int {
    match cur() {
        Some(e) => { let r = busy(|| e.rt_call("setsched", policy, (*p).sched_priority)); if r != 0 { *__errno_location() = EPERM; -1 } else { 0 } }
        None => syscall(SYS_sched_setscheduler, pid, policy, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mlockall(flags: c_int) -> c_int {
    match cur() {
        Some(e) => busy(|| e.rt_call("mlockall", flags, 0)),
        None => syscall(SYS_mlockall, flags) as c_int,
    }
}

// ---- receiving: a read that would block is a place where the client waits -------------------------
unsafe fn input(fd: c_int, flags: c_int, real: impl Fn(c_int) -> ssize_t, plain: impl Fn() -> ssize_t) -> ssize_t {
    let env = match cur() {
        Some(e) => e,
        None => return plain(),
    };
    if !env.is_client(fd) {
        return plain();
    }
    let mut left: Option<i64> = None;
    busy(|| loop {
        let r = real(flags | MSG_DONTWAIT);
        let e = *__errno_location();
        if r >= 0 || (e != EAGAIN && e != EWOULDBLOCK) {
            return r;
        }
        if flags & MSG_DONTWAIT != 0 || fcntl(fd, F_GETFL) & O_NONBLOCK != 0 {
            env.zero_poll(env.kind_of_fd(fd));
            *__errno_location() = EAGAIN;
            return -1;
        }
        let mut tv: timeval = std::mem::zeroed();
        let mut l = std::mem::size_of::<timeval>() as socklen_t;
        getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &mut tv as *mut _ as *mut c_void, &mut l);
        let wait = tv.tv_sec * 1000 + (tv.tv_usec + 999) / 1000;
        let mut left = left.get_or_insert(if wait == 0 { -1 } else { wait });
        if !env.on_block(env.kind_of_fd(fd), &mut left) {
            *__errno_location() = EAGAIN;
            return -1;
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    input(fd, flags, |f| syscall(SYS_recvfrom, fd, buf, len, f, a, al) as ssize_t, || syscall(SYS_recvfrom, fd, buf, len, flags, a, al) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    input(fd, flags, |f| syscall(SYS_recvmsg, fd, m, f) as ssize_t, || syscall(SYS_recvmsg, fd, m, flags) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    input(fd, 0, |f| syscall(SYS_recvfrom, fd, buf, len, f, 0usize, 0usize) as ssize_t, || syscall(SYS_read, fd, buf, len) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let plain = |t: c_int| syscall(SYS_poll, p, n, t) as c_int;
    let env = match cur() {
        Some(e) => e,
        None => return plain(timeout),
    };
    let fds: Vec<c_int> = (0..n as usize).map(|i| (*p.add(i)).fd).filter(|f| env.is_client(*f)).collect();
    if fds.is_empty() {
        return plain(timeout);
    }
    let mut left = timeout as i64;
    busy(|| loop {
        let r = plain(0);
        if r != 0 {
            return r;
        }
        let kind = env.kind_of_fd(fds[0]);
        if timeout == 0 {
            env.zero_poll(kind);
            return 0;
        }
        if !env.on_block(kind, &mut left) {
            return 0;
        }
    })
}

/// the client's clock shows virtual time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, t: *mut timespec) -> c_int {
    let r = syscall(SYS_clock_gettime, clk, t) as c_int;
    if r == 0 && (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME) {
        if let Some(e) = cur() {
            e.now += 1000; // a program that only looks at the clock sees it go on
            (*t).tv_sec = 1_000_000 + (e.now / 1_000_000_000) as time_t;
            (*t).tv_nsec = (e.now % 1_000_000_000) as c_long;
        }
    }
    r
}
