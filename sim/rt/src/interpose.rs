//! libc symbols the code under test calls, answered by the simulated world while a run is active.
//! Outside a run (and for paths that do not belong to the simulated disk) calls go to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::fs::*;
use crate::sys::{self, raw, raw6, ret, set_errno};
use crate::world::*;
use libc::*;
use std::ffi::CStr;

fn is_sim_path(p: &[u8]) -> bool {
    // relative paths are always simulated (the working directory is)
    if p.first() != Some(&b'/') {
        return true;
    }
    for real in [&b"/proc"[..], b"/etc", b"/dev", b"/usr", b"/sys", b"/lib"] {
        if p.starts_with(real) && (p.len() == real.len() || p[real.len()] == b'/') {
            return false;
        }
    }
    true
}
unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn err<T>(e: i32, v: T) -> T {
    unsafe { set_errno(e) };
    v
}
/// Common prologue of every simulated file-system call.
fn enter(kind: u64, p: &[u8]) {
    let w = world();
    w.syscalls += 1;
    let sw = w.cfg.sys_switch;
    w.point(sw);
    let w = world();
    w.env_point();
    let cur = w.current;
    w.thr_sys.entry(cur).or_default().0 += 1;
    let h = fnv_bytes(kind, p);
    w.log(10 + kind, h);
    w.note(|| format!("sys{kind} {}", String::from_utf8_lossy(p)));
}
fn errno_of(k: &str) -> i32 {
    if k.ends_with("eio") {
        EIO
    } else if k.ends_with("eacces") {
        EACCES
    } else if k.ends_with("emfile") {
        EMFILE
    } else if k.ends_with("eintr") {
        EINTR
    } else if k.ends_with("enospc") {
        ENOSPC
    } else if k.ends_with("enomem") {
        ENOMEM
    } else if k.ends_with("eloop") {
        ELOOP
    } else {
        EIO
    }
}

// ---------------------------------------------------------------- instrumentation
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut NGUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE {
        return;
    }
    TICKS += 1;
    if !COV.is_null() {
        // one line is shared by all workers: written once only
        let c = COV.add((*g & 0x3ffff) as usize);
        if *c == 0 {
            *c = 1;
        }
    }
    if TICKS >= NEXT_PRE {
        world().on_tick();
    } else if RARE {
        let c = (&raw mut VISITS as *mut u8).add((*g & 0x3ffff) as usize);
        if *c <= RARE_VISITS {
            *c += 1;
            if *c <= RARE_VISITS {
                world().on_rare();
            }
        }
    }
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    tid: usize,
    start: Start,
    arg: *mut c_void,
}
static mut KEY: pthread_key_t = 0;
static mut KEY_INIT: bool = false;

unsafe extern "C" fn thread_exit(v: *mut c_void) {
    if !ACTIVE {
        return;
    }
    let tid = v as usize - 1;
    let w = world();
    let rounds = {
        let t = &mut w.threads[tid];
        t.exit_rounds += 1;
        t.exit_rounds
    };
    if rounds < 3 {
        // run after every other thread-local destructor
        pthread_setspecific(KEY, v);
        return;
    }
    w.log(4, tid as u64);
    w.note(|| "thread exits".to_string());
    {
        let t = &mut w.threads[tid];
        t.finished = true;
        t.runnable = false;
    }
    let joiners: Vec<usize> = w.threads.iter().filter(|t| t.wait == Wait::Join(tid)).map(|t| t.id).collect();
    for j in joiners {
        w.wake(j);
    }
    w.leave();
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let baton = &world().threads[t.tid].baton as *const _;
        wait_baton(baton);
        pthread_setspecific(KEY, (t.tid + 1) as *mut c_void);
        (t.start)(t.arg)
    }
}

unsafe fn real(name: &CStr) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        sys::eprint("zsim: missing libc symbol\n");
        _exit(70);
    }
    p
}
type PthreadCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;
type PthreadJoin = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    let f: PthreadCreate = std::mem::transmute(real(c"pthread_create"));
    if !active() {
        return f(t, attr, start, arg);
    }
    let w = world();
    if w.fault(&["thread_eagain"], b"").is_some() {
        return EAGAIN;
    }
    if !KEY_INIT {
        pthread_key_create(&raw mut KEY, Some(thread_exit));
        KEY_INIT = true;
    }
    let tid = w.add_thread();
    let b = Box::into_raw(Box::new(Tramp { tid, start, arg }));
    let mut r = f(t, attr, trampoline, b as *mut c_void);
    // the real system is short of threads or memory: that is not part of the simulation
    for _ in 0..500 {
        if r == 0 {
            break;
        }
        let d = timespec { tv_sec: 0, tv_nsec: 10_000_000 };
        raw(SYS_nanosleep, &d as *const _ as usize, 0, 0);
        r = f(t, attr, trampoline, b as *mut c_void);
    }
    if r != 0 {
        crate::fatal("harness", format!("the real system cannot start a thread: {r}"));
    }
    let w = world();
    w.threads[tid].pthread = *t as u64;
    w.log(5, tid as u64);
    let sw = w.cfg.sys_switch;
    w.point(sw);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    let f: PthreadJoin = std::mem::transmute(real(c"pthread_join"));
    if active() {
        let w = world();
        // a pthread id can be reused after its thread was joined; the latest record counts
        let found = w.threads.iter().rev().find(|x| x.pthread == t as u64).map(|x| (x.id, x.finished));
        if let Some((id, fin)) = found {
            if !fin {
                w.block(Wait::Join(id), None);
            }
        }
    }
    f(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        world().yield_now();
        return 0;
    }
    ret(raw(SYS_sched_yield, 0, 0, 0)) as c_int
}

unsafe fn sim_futex(uaddr: usize, op: i32, val: u32, timeout: *const timespec) -> c_long {
    let w = world();
    let cmd = op & 127;
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let cur = (*(uaddr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
            if cur != val {
                return err(EAGAIN, -1);
            }
            if w.fault(&["futex_spurious"], b"").is_some() {
                w.yield_now();
                return 0;
            }
            let deadline = if timeout.is_null() {
                None
            } else {
                let d = ((*timeout).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*timeout).tv_nsec as u64);
                Some(if cmd == FUTEX_WAIT { w.now + d } else { d })
            };
            if deadline.is_some_and(|d| d <= w.now) {
                return err(ETIMEDOUT, -1);
            }
            w.sched_hash = fnv(w.sched_hash, 77);
            if w.block(Wait::Futex(uaddr), deadline) {
                0
            } else {
                err(ETIMEDOUT, -1)
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let mut n = 0;
            while n < val {
                let ids: Vec<usize> = w.threads.iter().filter(|t| t.wait == Wait::Futex(uaddr) && !t.runnable).map(|t| t.id).collect();
                if ids.is_empty() {
                    break;
                }
                let k = w.pick(ids.len());
                w.wake(ids[k]);
                n += 1;
            }
            if n > 0 {
                let sw = w.cfg.sys_switch;
                w.point(sw);
            }
            n as c_long
        }
        _ => {
            sys::eprint(&format!("zsim: unsupported futex op {op}\n"));
            _exit(70)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        if n == SYS_futex {
            return sim_futex(a, b as i32, c as u32, d as *const timespec);
        }
        if n == SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as u32) as c_long;
        }
        if n == SYS_gettid {
            return gettid() as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if active() {
        return 1000 + world().current as pid_t;
    }
    raw(SYS_gettid, 0, 0, 0) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if active() {
        return 1000;
    }
    raw(SYS_getpid, 0, 0, 0) as pid_t
}

// ---------------------------------------------------------------- randomness and time
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let w = world();
        for i in 0..len {
            *(buf as *mut u8).add(i) = w.rng_rand.next() as u8;
        }
        return len as ssize_t;
    }
    ret(raw(SYS_getrandom, buf as usize, len, flags as usize))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let w = world();
        w.now += w.cfg.clock_step;
        let (s, n) = ((w.now / 1_000_000_000) as i64, (w.now % 1_000_000_000) as i64);
        (*ts).tv_sec = if id == CLOCK_REALTIME { s + w.wall_off } else { s };
        (*ts).tv_nsec = n;
        return 0;
    }
    ret(raw(SYS_clock_gettime, id as usize, ts as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let w = world();
        let d = w.now + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        w.block(Wait::Sleep, Some(d));
        return 0;
    }
    ret(raw(SYS_nanosleep, req as usize, rem as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let w = world();
        let v = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & TIMER_ABSTIME != 0 { v } else { w.now + v };
        if d > w.now {
            w.block(Wait::Sleep, Some(d));
        }
        return 0;
    }
    -raw6(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}

// ---------------------------------------------------------------- files
unsafe fn sim_open(path: &[u8], flags: c_int) -> c_int {
    enter(0, path);
    let w = world();
    let kinds: &[&'static str] = if flags & O_ACCMODE == O_RDONLY { &["open_eintr", "open_eacces", "open_eio", "open_emfile"] } else { &["wopen_eintr", "wopen_eacces", "wopen_enospc"] };
    if let Some(k) = w.fault(kinds, path) {
        let e = w.thr_sys.entry(w.current).or_default();
        if k.ends_with("eintr") && e.0 - e.1 <= 6 {
            e.1 = e.0;
        }
        return err(errno_of(k), -1);
    }
    if flags & O_ACCMODE == O_RDONLY {
        let r = w.fs.resolve_parent(path, flags & O_NOFOLLOW == 0);
        let (p, name, ino) = match r {
            Ok(x) => x,
            Err(e) => return err(e, -1),
        };
        let Some(ino) = ino else { return err(ENOENT, -1) };
        if w.fs.inodes[ino].mode & 0o400 == 0 {
            return err(EACCES, -1);
        }
        let k = match &w.fs.inodes[ino].node {
            Node::Dir(_) => FdKind::Dir { ino, path: path.to_vec() },
            Node::File(_) => {
                if flags & O_DIRECTORY != 0 {
                    return err(ENOTDIR, -1);
                }
                FdKind::File { ino, pos: 0, append: false, write: false, parent: p, name: name.clone(), path: path.to_vec() }
            }
            // opening a FIFO for reading would block for ever without a writer
            Node::Fifo => {
                if flags & O_NONBLOCK != 0 {
                    FdKind::File { ino, pos: 0, append: false, write: false, parent: p, name: name.clone(), path: path.to_vec() }
                } else {
                    // replaced between a check and the very next call: no program can exclude that without O_NONBLOCK
                    let e = w.thr_sys.entry(w.current).or_default();
                    if e.0 - e.1 <= 6 && e.2 == path {
                        w.probe("special file appeared between check and open");
                        crate::end_ok();
                    }
                    fatal("blocked-on-fifo", format!("opening the FIFO {} blocks for ever", String::from_utf8_lossy(path)))
                }
            }
            Node::Link(_) => return err(ELOOP, -1),
        };
        w.fs.inodes[ino].opens += 1;
        w.fs.emit_child(p, &name, ino, IN_OPEN);
        w.after_fs();
        return w.new_fd(k);
    }
    // writing
    if flags & O_CREAT == 0 || flags & O_EXCL != 0 {
        match w.fs.resolve(path, true) {
            Err(e) if flags & O_CREAT == 0 => return err(e, -1),
            Ok(_) if flags & O_EXCL != 0 => return err(EEXIST, -1),
            _ => {}
        }
    }
    match w.fs.create(path, flags & O_TRUNC != 0) {
        Err(e) => err(e, -1),
        Ok((ino, p, name)) => {
            w.fs.inodes[ino].opens += 1;
            w.after_fs();
            w.new_fd(FdKind::File { ino, pos: 0, append: flags & O_APPEND != 0, write: true, parent: p, name, path: path.to_vec() })
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        return sim_open(cpath(p), flags);
    }
    ret(raw6(SYS_openat, AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() && d == AT_FDCWD {
        return open64(p, flags, mode);
    }
    ret(raw6(SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, p, flags, mode)
}
const VFD: c_int = 1_000_000;

unsafe fn sim_read(fd: c_int, buf: *mut u8, len: usize) -> ssize_t {
    enter(1, &fd.to_le_bytes());
    let w = world();
    let fd = w.canon(fd);
    match w.fds.get(&fd) {
        None => err(EBADF, -1),
        Some(FdKind::Dir { .. }) => err(EISDIR, -1),
        Some(FdKind::Epoll { .. }) => err(EINVAL, -1),
        Some(FdKind::EventFd { val }) => {
            if *val == 0 {
                return err(EAGAIN, -1);
            }
            let v = *val;
            w.fds.insert(fd, FdKind::EventFd { val: 0 });
            *(buf as *mut u64) = v;
            8
        }
        Some(FdKind::Inotify { inst }) => {
            let inst = *inst;
            let q = &mut w.fs.inst[inst].queue;
            if q.is_empty() {
                return err(EAGAIN, -1);
            }
            // the kernel returns as many whole events as fit; a slow reader may get fewer
            let mut off = 0usize;
            let mut n = 0;
            let max = 1 + w.pick(6);
            let q = &mut world().fs.inst[inst].queue;
            while let Some(e) = q.front() {
                let nl = e.name.as_ref().map(|n| (n.len() + 1 + 15) / 16 * 16).unwrap_or(0);
                let sz = 16 + nl;
                if off + sz > len || (n >= max && max < 6) {
                    break;
                }
                let p = buf.add(off);
                *(p as *mut i32) = e.wd;
                *(p.add(4) as *mut u32) = e.mask;
                *(p.add(8) as *mut u32) = e.cookie;
                *(p.add(12) as *mut u32) = nl as u32;
                if let Some(nm) = &e.name {
                    std::ptr::write_bytes(p.add(16), 0, nl);
                    std::ptr::copy_nonoverlapping(nm.as_ptr(), p.add(16), nm.len());
                }
                off += sz;
                n += 1;
                q.pop_front();
            }
            if off == 0 {
                return err(EINVAL, -1);
            }
            off as ssize_t
        }
        Some(FdKind::File { ino, pos, path, .. }) => {
            let (ino, pos, path) = (*ino, *pos, path.clone());
            let mut n = match &w.fs.inodes[ino].node {
                Node::File(d) => d.len().saturating_sub(pos).min(len),
                _ => 0,
            };
            if n > 0 || len > 0 {
                match w.fault(&["read_eintr", "read_eio", "read_short"], &path) {
                    Some("read_short") => {
                        if n > 1 {
                            n = 1 + w.pick(n - 1);
                        }
                    }
                    Some(k) => return err(errno_of(k), -1),
                    None => {}
                }
            }
            if let Node::File(d) = &world().fs.inodes[ino].node {
                if n > 0 {
                    std::ptr::copy_nonoverlapping(d.as_ptr().add(pos), buf, n);
                }
            }
            if let Some(FdKind::File { pos, .. }) = world().fds.get_mut(&fd) {
                *pos += n;
            }
            n as ssize_t
        }
    }
}
unsafe fn sim_write(fd: c_int, buf: &[u8]) -> ssize_t {
    enter(2, &fd.to_le_bytes());
    let w = world();
    let fd = w.canon(fd);
    match w.fds.get_mut(&fd) {
        Some(FdKind::EventFd { val }) => {
            let mut b = [0u8; 8];
            b.copy_from_slice(&buf[..8]);
            *val += u64::from_le_bytes(b);
            w.edge(fd);
            let sw = w.cfg.sys_switch;
            w.point(sw);
            8
        }
        Some(FdKind::File { ino, pos, append, parent, name, path, write }) => {
            if !*write {
                return err(EBADF, -1);
            }
            let (ino, pos0, append, parent, name, path) = (*ino, *pos, *append, *parent, name.clone(), path.clone());
            let mut n = buf.len();
            match w.fault(&["write_eintr", "write_eio", "write_enospc", "write_short"], &path) {
                Some("write_short") => {
                    if n > 1 {
                        n = 1 + w.pick(n - 1);
                    }
                }
                Some(k) => return err(errno_of(k), -1),
                None => {}
            }
            let w = world();
            let mut newpos = 0;
            if let Node::File(d) = &mut w.fs.inodes[ino].node {
                let at = if append { d.len() } else { pos0 };
                if d.len() < at + n {
                    d.resize(at + n, 0);
                }
                d[at..at + n].copy_from_slice(&buf[..n]);
                newpos = at + n;
            }
            if let Some(FdKind::File { pos, .. }) = w.fds.get_mut(&fd) {
                *pos = newpos;
            }
            let me = w.current;
            w.fwrites.push((me, path.clone(), buf[..n].to_vec()));
            w.fs.mutations += 1;
            w.fs.emit_child(parent, &name, ino, IN_MODIFY);
            w.after_fs();
            n as ssize_t
        }
        _ => err(EBADF, -1),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if active() && fd >= VFD {
        return sim_read(fd, buf as *mut u8, len);
    }
    ret(raw(SYS_read, fd as usize, buf as usize, len))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if active() && fd >= VFD {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return sim_read(fd, v.iov_base as *mut u8, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw(SYS_readv, fd as usize, iov as usize, cnt as usize))
}
unsafe fn sim_std(fd: c_int, buf: &[u8]) -> ssize_t {
    // standard output and error of the simulated process
    let w = world();
    let sw = w.cfg.sys_switch;
    w.point(sw);
    let w = world();
    let mut n = buf.len();
    match w.fault(&["stderr_eintr", "stderr_eio", "stderr_short"], b"<stderr>") {
        Some("stderr_short") => {
            if n > 1 {
                n = 1 + w.pick(n - 1);
            }
        }
        Some(k) => return err(errno_of(k), -1),
        None => {}
    }
    let w = world();
    let me = w.current;
    if fd == 2 {
        w.stderr.push((me, buf[..n].to_vec()));
    }
    w.log(6, n as u64);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if active() {
        let b = std::slice::from_raw_parts(buf as *const u8, len);
        if fd >= VFD {
            return sim_write(fd, b);
        }
        if fd == 1 || fd == 2 {
            return sim_std(fd, b);
        }
    }
    ret(raw(SYS_write, fd as usize, buf as usize, len))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if active() && (fd >= VFD || fd == 1 || fd == 2) {
        let mut b = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            b.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return if fd >= VFD { sim_write(fd, &b) } else { sim_std(fd, &b) };
    }
    ret(raw(SYS_writev, fd as usize, iov as usize, cnt as usize))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() && fd >= VFD {
        let w = world();
        w.syscalls += 1;
        w.log(7, fd as u64);
        let key = w.canon(fd);
        w.alias.remove(&fd);
        match w.shared.get_mut(&key) {
            Some(n) if *n > 0 => {
                *n -= 1;
                return 0;
            }
            _ => {}
        }
        match w.fds.remove(&key) {
            None => return err(EBADF, -1),
            Some(FdKind::File { ino, write, parent, name, .. }) => {
                if write {
                    w.fs.close_write(ino, parent, &name);
                }
                w.fs.inodes[ino].opens -= 1;
                w.fs.maybe_gone(ino);
            }
            Some(FdKind::Dir { ino, .. }) => {
                w.fs.inodes[ino].opens -= 1;
                w.fs.maybe_gone(ino);
            }
            Some(FdKind::Inotify { inst }) => {
                w.fs.inst[inst].alive = false;
                w.fs.inst[inst].watches.clear();
                w.fs.inst[inst].queue.clear();
            }
            Some(_) => {}
        }
        w.after_fs();
        return 0;
    }
    ret(raw(SYS_close, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if active() && fd >= VFD {
        let w = world();
        let key = w.canon(fd);
        let Some(k) = w.fds.get(&key) else { return err(EBADF, -1) };
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => w.dup(fd),
            F_GETFD => FD_CLOEXEC,
            F_GETFL => match k {
                FdKind::File { write: false, .. } | FdKind::Dir { .. } => O_RDONLY,
                FdKind::File { append: true, .. } => O_WRONLY | O_APPEND,
                FdKind::File { .. } => O_WRONLY,
                _ => O_RDWR | O_NONBLOCK,
            },
            _ => 0,
        };
    }
    ret(raw(SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if active() && fd >= VFD {
        let w = world();
        let fd = w.canon(fd);
        if let Some(FdKind::File { ino, pos, .. }) = w.fds.get_mut(&fd) {
            let size = match &w.fs.inodes[*ino].node {
                Node::File(d) => d.len() as i64,
                _ => 0,
            };
            let n = match whence {
                SEEK_SET => off,
                SEEK_CUR => *pos as i64 + off,
                _ => size + off,
            };
            *pos = n as usize;
            return n;
        }
        return err(ESPIPE, -1);
    }
    ret(raw(SYS_lseek, fd as usize, off as usize, whence as usize)) as i64
}

unsafe fn fill_stat(ino: Ino, st: *mut stat64) {
    let (m, sz) = world().fs.stat_mode(ino);
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = m;
    (*st).st_size = sz as i64;
    (*st).st_ino = ino as u64 + 100;
    (*st).st_dev = 4242;
    (*st).st_nlink = world().fs.inodes[ino].nlink as u64;
    (*st).st_blksize = 4096;
}
fn fd_ino(fd: c_int) -> Option<Ino> {
    match world().fds.get(&world().canon(fd)) {
        Some(FdKind::File { ino, .. }) | Some(FdKind::Dir { ino, .. }) => Some(*ino),
        _ => None,
    }
}
unsafe fn sim_stat(path: &[u8], follow: bool) -> Result<Ino, i32> {
    enter(3, path);
    let w = world();
    if let Some(k) = w.fault(&["stat_eacces", "stat_eio"], path) {
        return Err(errno_of(k));
    }
    let r = w.fs.resolve(path, follow);
    if let Ok(i) = r {
        if !matches!(w.fs.inodes[i].node, Node::Fifo) {
            let e = w.thr_sys.entry(w.current).or_default();
            e.1 = e.0;
            e.2 = path.to_vec();
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        return match sim_stat(cpath(p), true) {
            Ok(i) => {
                fill_stat(i, st);
                0
            }
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_stat, p as usize, st as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        return match sim_stat(cpath(p), false) {
            Ok(i) => {
                fill_stat(i, st);
                0
            }
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_lstat, p as usize, st as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if active() && fd >= VFD {
        return match fd_ino(fd) {
            Some(i) => {
                fill_stat(i, st);
                0
            }
            None => err(EBADF, -1),
        };
    }
    ret(raw(SYS_fstat, fd as usize, st as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    if active() && (d >= VFD || (d == AT_FDCWD && is_sim_path(cpath(p)))) {
        return match statx_ino(d, cpath(p), flags) {
            Ok(i) => {
                fill_stat(i, st);
                0
            }
            Err(e) => err(e, -1),
        };
    }
    ret(raw6(SYS_newfstatat, d as usize, p as usize, st as usize, flags as usize, 0, 0)) as c_int
}
unsafe fn statx_ino(d: c_int, path: &[u8], flags: c_int) -> Result<Ino, i32> {
    if path.is_empty() && flags & AT_EMPTY_PATH != 0 {
        return fd_ino(d).ok_or(EBADF);
    }
    let follow = flags & AT_SYMLINK_NOFOLLOW == 0;
    if d >= VFD && path.first() != Some(&b'/') {
        enter(3, path);
        let Some(base) = fd_ino(d) else { return Err(EBADF) };
        let full = match world().fds.get(&d) {
            Some(FdKind::Dir { path: p, .. }) => [&p[..], b"/", path].concat(),
            _ => path.to_vec(),
        };
        if let Some(k) = world().fault(&["stat_eacces", "stat_eio"], &full) {
            return Err(errno_of(k));
        }
        return world().fs.resolve_at(base, path, follow);
    }
    sim_stat(path, follow)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let path: &[u8] = if p.is_null() { b"" } else { cpath(p) };
    if active() && (d >= VFD || (d == AT_FDCWD && is_sim_path(path))) {
        return match statx_ino(d, path, flags) {
            Ok(i) => {
                let (m, sz) = world().fs.stat_mode(i);
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = STATX_BASIC_STATS;
                (*out).stx_mode = m as u16;
                (*out).stx_size = sz;
                (*out).stx_ino = i as u64 + 100;
                (*out).stx_nlink = world().fs.inodes[i].nlink;
                (*out).stx_dev_major = 42;
                (*out).stx_blksize = 4096;
                0
            }
            Err(e) => err(e, -1),
        };
    }
    ret(raw6(SYS_statx, d as usize, p as usize, flags as usize, mask as usize, out as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, len: size_t) -> ssize_t {
    if active() && is_sim_path(cpath(p)) {
        let path = cpath(p);
        enter(4, path);
        let w = world();
        if let Some(k) = w.fault(&["readlink_eio"], path) {
            return err(errno_of(k), -1);
        }
        return match w.fs.resolve(path, false) {
            Err(e) => err(e, -1),
            Ok(i) => match &w.fs.inodes[i].node {
                Node::Link(t) => {
                    let n = t.len().min(len);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, n);
                    n as ssize_t
                }
                _ => err(EINVAL, -1),
            },
        };
    }
    ret(raw(SYS_readlink, p as usize, buf as usize, len))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() && is_sim_path(cpath(p)) {
        let path = cpath(p);
        enter(5, path);
        let w = world();
        return match w.fs.resolve(path, true) {
            Err(e) => err(e, std::ptr::null_mut()),
            Ok(i) => {
                let c = w.fs.canonical(i);
                let o = if out.is_null() { malloc(4097) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(c.as_ptr(), o as *mut u8, c.len());
                *o.add(c.len()) = 0;
                o
            }
        };
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    let f: F = std::mem::transmute(real(c"realpath"));
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, len: size_t) -> *mut c_char {
    if active() {
        let c = world().fs.cwd_path.clone();
        if c.len() + 1 > len {
            return err(ERANGE, std::ptr::null_mut());
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
        *buf.add(c.len()) = 0;
        return buf;
    }
    if ret(raw(SYS_getcwd, buf as usize, len, 0)) < 0 {
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        enter(6, cpath(p));
        let w = world();
        if let Some(k) = w.fault(&["mkdir_eacces"], cpath(p)) {
            return err(errno_of(k), -1);
        }
        let r = w.fs.mkdir(cpath(p));
        w.after_fs();
        return match r {
            Ok(_) => 0,
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_mkdir, p as usize, mode as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        enter(7, cpath(p));
        let w = world();
        let r = w.fs.unlink(cpath(p));
        w.after_fs();
        return match r {
            Ok(_) => 0,
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_unlink, p as usize, 0, 0)) as c_int
}

// ---------------------------------------------------------------- directories
struct SimDir {
    magic: u64,
    fd: c_int,
    items: Option<Vec<(Vec<u8>, u8, u64)>>,
    pos: usize,
    ent: dirent64,
}
static mut OPEN_DIRS: Vec<usize> = Vec::new();
unsafe fn as_sim_dir<'a>(d: *mut DIR) -> Option<&'a mut SimDir> {
    #[allow(static_mut_refs)]
    if OPEN_DIRS.contains(&(d as usize)) {
        Some(&mut *(d as *mut SimDir))
    } else {
        None
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if active() && is_sim_path(cpath(p)) {
        let path = cpath(p);
        enter(8, path);
        let w = world();
        if let Some(k) = w.fault(&["opendir_eacces", "opendir_eio", "opendir_emfile"], path) {
            return err(errno_of(k), std::ptr::null_mut());
        }
        let (par, name, ino) = match w.fs.resolve_parent(path, true) {
            Ok((a, b, Some(i))) => (a, b, i),
            Ok(_) => return err(ENOENT, std::ptr::null_mut()),
            Err(e) => return err(e, std::ptr::null_mut()),
        };
        if !w.fs.is_dir(ino) {
            return err(ENOTDIR, std::ptr::null_mut());
        }
        if w.fs.inodes[ino].mode & 0o400 == 0 {
            return err(EACCES, std::ptr::null_mut());
        }
        w.fs.inodes[ino].opens += 1;
        w.fs.emit_child(par, &name, ino, IN_OPEN);
        w.after_fs();
        let fd = w.new_fd(FdKind::Dir { ino, path: path.to_vec() });
        let d = Box::into_raw(Box::new(SimDir { magic: 0x51D, fd, items: None, pos: 0, ent: std::mem::zeroed() }));
        OPEN_DIRS.push(d as usize);
        return d as *mut DIR;
    }
    type F = unsafe extern "C" fn(*const c_char) -> *mut DIR;
    let f: F = std::mem::transmute(real(c"opendir"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if active() {
        if let Some(sd) = as_sim_dir(d) {
            let _ = sd.magic;
            enter(9, &sd.fd.to_le_bytes());
            let w = world();
            let Some(FdKind::Dir { ino, path }) = w.fds.get(&sd.fd) else { return err(EBADF, std::ptr::null_mut()) };
            let (ino, path) = (*ino, path.clone());
            if sd.items.is_none() {
                // one getdents batch: a snapshot in an order the file system chooses
                let mut v: Vec<(Vec<u8>, u8, u64)> = w
                    .fs
                    .dir(ino)
                    .unwrap()
                    .iter()
                    .map(|(n, i)| {
                        let t = match w.fs.inodes[*i].node {
                            Node::Dir(_) => DT_DIR,
                            Node::File(_) => DT_REG,
                            Node::Link(_) => DT_LNK,
                            Node::Fifo => DT_FIFO,
                        };
                        (n.clone(), t, *i as u64 + 100)
                    })
                    .collect();
                w.rng_rand.shuffle(&mut v);
                v.insert(0, (b".".to_vec(), DT_DIR, 1));
                v.insert(1, (b"..".to_vec(), DT_DIR, 1));
                sd.items = Some(v);
            }
            if let Some(k) = w.fault(&["readdir_eio"], &path) {
                return err(errno_of(k), std::ptr::null_mut());
            }
            let Some((n, t, i)) = sd.items.as_ref().unwrap().get(sd.pos).cloned() else {
                return std::ptr::null_mut();
            };
            sd.pos += 1;
            let t = if w.fault(&["dtype_unknown"], &path).is_some() { DT_UNKNOWN } else { t };
            sd.ent.d_ino = i;
            sd.ent.d_off = sd.pos as i64;
            sd.ent.d_reclen = 280;
            sd.ent.d_type = t;
            for (k, c) in n.iter().enumerate() {
                sd.ent.d_name[k] = *c as c_char;
            }
            sd.ent.d_name[n.len()] = 0;
            return &mut sd.ent;
        }
    }
    type F = unsafe extern "C" fn(*mut DIR) -> *mut dirent64;
    let f: F = std::mem::transmute(real(c"readdir64"));
    f(d)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if active() {
        if let Some(sd) = as_sim_dir(d) {
            let fd = sd.fd;
            OPEN_DIRS.retain(|x| *x != d as usize);
            drop(Box::from_raw(d as *mut SimDir));
            return close(fd);
        }
    }
    type F = unsafe extern "C" fn(*mut DIR) -> c_int;
    let f: F = std::mem::transmute(real(c"closedir"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if active() {
        if let Some(sd) = as_sim_dir(d) {
            return sd.fd;
        }
    }
    type F = unsafe extern "C" fn(*mut DIR) -> c_int;
    let f: F = std::mem::transmute(real(c"dirfd"));
    f(d)
}

// ---------------------------------------------------------------- inotify, epoll, eventfd
#[no_mangle]
pub unsafe extern "C" fn inotify_init1(flags: c_int) -> c_int {
    if active() {
        let w = world();
        w.syscalls += 1;
        if let Some(k) = w.fault(&["inotify_init_emfile"], b"<inotify>") {
            return err(errno_of(k), -1);
        }
        let inst = w.fs.new_inotify();
        return w.new_fd(FdKind::Inotify { inst });
    }
    ret(raw(SYS_inotify_init1, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn inotify_init() -> c_int {
    inotify_init1(0)
}
#[no_mangle]
pub unsafe extern "C" fn inotify_add_watch(fd: c_int, p: *const c_char, mask: u32) -> c_int {
    if active() && fd >= VFD {
        let path = cpath(p);
        enter(10, path);
        let w = world();
        if let Some(k) = w.fault(&["watch_enospc", "watch_enomem"], path) {
            return err(errno_of(k), -1);
        }
        let Some(FdKind::Inotify { inst }) = w.fds.get(&fd) else { return err(EBADF, -1) };
        let inst = *inst;
        return match w.fs.add_watch(inst, path, mask) {
            Ok(wd) => wd,
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_inotify_add_watch, fd as usize, p as usize, mask as usize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn inotify_rm_watch(fd: c_int, wd: c_int) -> c_int {
    if active() && fd >= VFD {
        enter(11, &wd.to_le_bytes());
        let w = world();
        let Some(FdKind::Inotify { inst }) = w.fds.get(&fd) else { return err(EBADF, -1) };
        let inst = *inst;
        let r = w.fs.rm_watch(inst, wd);
        w.after_fs();
        return match r {
            Ok(()) => 0,
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_inotify_rm_watch, fd as usize, wd as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if active() {
        let w = world();
        w.syscalls += 1;
        return w.new_fd(FdKind::Epoll { items: vec![] });
    }
    ret(raw(SYS_epoll_create1, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if active() && ep >= VFD {
        let w = world();
        w.syscalls += 1;
        let ready = w.readable(fd);
        let data = if ev.is_null() { 0 } else { (*ev).u64 };
        let Some(FdKind::Epoll { items }) = w.fds.get_mut(&ep) else { return err(EBADF, -1) };
        items.retain(|i| i.0 != fd);
        if op != EPOLL_CTL_DEL {
            items.push((fd, data, ready));
        }
        return 0;
    }
    ret(raw6(SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if active() && ep >= VFD {
        enter(12, b"");
        let w = world();
        if let Some(k) = w.fault(&["epoll_eintr"], b"<epoll>") {
            return err(errno_of(k), -1);
        }
        let deadline = if timeout < 0 { None } else { Some(w.now + timeout as u64 * 1_000_000) };
        loop {
            let w = world();
            let Some(FdKind::Epoll { items }) = w.fds.get(&ep) else { return err(EBADF, -1) };
            let cand: Vec<(usize, i32, u64)> = items.iter().enumerate().filter(|(_, i)| i.2).map(|(k, i)| (k, i.0, i.1)).collect();
            let mut out: Vec<(usize, u64)> = cand.into_iter().filter(|(_, fd, _)| w.readable(*fd)).map(|(k, _, d)| (k, d)).collect();
            if out.len() > 1 && w.pick(2) == 1 {
                out.reverse();
            }
            if !out.is_empty() {
                let n = out.len().min(max as usize);
                let w = world();
                if let Some(FdKind::Epoll { items }) = w.fds.get_mut(&ep) {
                    for (j, (k, d)) in out.iter().take(n).enumerate() {
                        items[*k].2 = false;
                        (*evs.add(j)).events = EPOLLIN as u32;
                        (*evs.add(j)).u64 = *d;
                    }
                }
                return n as c_int;
            }
            if timeout == 0 {
                return 0;
            }
            if !w.block(Wait::Epoll(ep), deadline) {
                return 0;
            }
        }
    }
    ret(raw6(SYS_epoll_wait, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if active() {
        let w = world();
        w.syscalls += 1;
        return w.new_fd(FdKind::EventFd { val: init as u64 });
    }
    ret(raw(SYS_eventfd2, init as usize, flags as usize, 0)) as c_int
}

// ---------------------------------------------------------------- less common calls
unsafe fn done(r: Result<(), i32>) -> c_int {
    world().after_fs();
    match r {
        Ok(()) => 0,
        Err(e) => err(e, -1),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() && fd >= VFD {
        return fcntl(fd, F_DUPFD, 0);
    }
    ret(raw(SYS_dup, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: i64) -> ssize_t {
    if active() && fd >= VFD {
        let at = lseek64(fd, 0, SEEK_CUR);
        if at < 0 {
            return -1;
        }
        // the position is shared: it must not be seen changed by others
        let r = positioned(fd, off, |fd| sim_read(fd, buf as *mut u8, len));
        return r;
    }
    ret(raw6(SYS_pread64, fd as usize, buf as usize, len, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: i64) -> ssize_t {
    if active() && fd >= VFD {
        let b = std::slice::from_raw_parts(buf as *const u8, len);
        return positioned(fd, off, |fd| sim_write(fd, b));
    }
    ret(raw6(SYS_pwrite64, fd as usize, buf as usize, len, off as usize, 0, 0))
}
/// Runs one call on a private description of the same file that starts at the given position.
unsafe fn positioned(fd: c_int, off: i64, f: impl FnOnce(c_int) -> ssize_t) -> ssize_t {
    let w = world();
    let Some(FdKind::File { ino, append, write, parent, name, path, .. }) = w.fds.get(&w.canon(fd)) else { return err(ESPIPE, -1) };
    let k = FdKind::File { ino: *ino, pos: off as usize, append: *append, write: *write, parent: *parent, name: name.clone(), path: path.clone() };
    let t = w.new_fd(k);
    let r = f(t);
    world().fds.remove(&t);
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() && fd >= VFD {
        enter(15, b"");
        return if world().fds.contains_key(&world().canon(fd)) { 0 } else { err(EBADF, -1) };
    }
    ret(raw(SYS_fsync, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if active() && fd >= VFD {
        return 0;
    }
    ret(raw(SYS_flock, fd as usize, op as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if active() && fd >= VFD {
        enter(16, b"");
        let w = world();
        let Some(FdKind::File { ino, write: true, parent, name, .. }) = w.fds.get(&w.canon(fd)) else { return err(EINVAL, -1) };
        let (ino, parent, name) = (*ino, *parent, name.clone());
        if let Node::File(d) = &mut w.fs.inodes[ino].node {
            d.resize(len as usize, 0);
        }
        w.fs.mutations += 1;
        w.fs.emit_child(parent, &name, ino, IN_MODIFY);
        return done(Ok(()));
    }
    ret(raw(SYS_ftruncate, fd as usize, len as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        return match sim_stat(cpath(p), true) {
            Ok(i) if mode & R_OK != 0 && world().fs.inodes[i].mode & 0o400 == 0 => err(EACCES, -1),
            Ok(_) => 0,
            Err(e) => err(e, -1),
        };
    }
    ret(raw(SYS_access, p as usize, mode as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        return access(p, mode);
    }
    ret(raw6(SYS_faccessat, d as usize, p as usize, mode as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() && is_sim_path(cpath(a)) {
        enter(17, cpath(a));
        return done(world().fs.rename(cpath(a), cpath(b)));
    }
    ret(raw(SYS_rename, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        enter(18, cpath(p));
        return done(world().fs.rmdir(cpath(p)));
    }
    ret(raw(SYS_rmdir, p as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        enter(19, cpath(p));
        return done(world().fs.symlink(cpath(t), cpath(p)));
    }
    ret(raw(SYS_symlink, t as usize, p as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if active() && is_sim_path(cpath(p)) {
        enter(20, cpath(p));
        return done(world().fs.chmod(cpath(p), mode as u32));
    }
    ret(raw(SYS_chmod, p as usize, mode as usize, 0)) as c_int
}
/// The standard library falls back to reading and writing.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, len: size_t, flags: c_uint) -> ssize_t {
    if active() {
        return err(ENOSYS, -1);
    }
    ret(raw6(SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, len, flags as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if active() {
        return err(ENOSYS, -1);
    }
    ret(raw6(SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}

// ---------------------------------------------------------------- anything else is a gap in the simulation
macro_rules! forbidden {
    ($($name:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
            if active() {
                world().probe(concat!("run given up: unsimulated call ", stringify!($name)));
                crate::end_ok();
            }
            type F = unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> isize;
            let g: F = std::mem::transmute(real(std::ffi::CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes())));
            g(a, b, c, d, e, f)
        }
    )*};
}
forbidden!(link, truncate64, unlinkat, mkdirat, renameat, fdopendir, posix_spawn, posix_spawnp);
