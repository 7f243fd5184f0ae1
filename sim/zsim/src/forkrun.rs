use drive::Case;
use zsim_rt::{Outcome, Rec};

const OUT_LEN: usize = 48 << 20;
static mut SHM: *mut u8 = std::ptr::null_mut();

unsafe fn shm(len: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED {
        crate::die("mmap");
    }
    p as *mut u8
}
pub fn cov() -> &'static mut [u8] {
    unsafe {
        if zsim_rt::interpose::COV.is_null() {
            zsim_rt::interpose::COV = shm(1 << 18);
        }
        std::slice::from_raw_parts_mut(zsim_rt::interpose::COV, 1 << 18)
    }
}
pub struct Flag(*mut u8);
impl Flag {
    pub fn get(&self) -> bool {
        unsafe { std::ptr::read_volatile(self.0) != 0 }
    }
    pub fn set(&self) {
        unsafe { std::ptr::write_volatile(self.0, 1) }
    }
}
pub fn shared_flag() -> Flag {
    Flag(unsafe { shm(4096) })
}
pub struct Buf(*mut u8, usize);
impl Buf {
    pub fn put(&self, v: &impl serde::Serialize) {
        let b = serde_json::to_vec(v).unwrap();
        assert!(b.len() + 8 < self.1, "worker result too large");
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), b.len());
            *(self.0 as *mut u64) = b.len() as u64;
        }
    }
}

/// Runs `f` in n forked worker processes and returns what each put in its buffer.
pub fn parallel(n: usize, f: impl Fn(usize, &Buf)) -> Vec<Vec<u8>> {
    cov();
    let bufs: Vec<Buf> = (0..n).map(|_| Buf(unsafe { shm(256 << 20) }, 256 << 20)).collect();
    let mut pids = vec![];
    for (w, b) in bufs.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            crate::die("fork");
        }
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                SHM = std::ptr::null_mut();
            }
            f(w, b);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    bufs.iter()
        .map(|b| unsafe {
            let n = *(b.0 as *const u64) as usize;
            let v = std::slice::from_raw_parts(b.0.add(8), n).to_vec();
            libc::munmap(b.0 as *mut _, b.1);
            v
        })
        .collect()
}

/// One simulated execution in a process of its own.
pub fn fork_run(case: &Case, rec: Option<Rec>, trace: bool) -> Outcome {
    unsafe {
        cov();
        if SHM.is_null() {
            SHM = shm(OUT_LEN);
        }
        *(SHM as *mut u64) = 0;
        let mut pid = libc::fork();
        for _ in 0..500 {
            if pid >= 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
            pid = libc::fork();
        }
        if pid < 0 {
            crate::die("fork");
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            // one heap: address space is limited, and addresses stay the same
            libc::mallopt(libc::M_ARENA_MAX, 1);
            let m = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            let null = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_WRONLY, 0) as i32;
            libc::dup2(null, 1);
            if std::env::var_os("ZSIM_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            zsim_rt::set_out(SHM, OUT_LEN);
            let c = case.clone();
            zsim_rt::run_in_child(case.cfg.clone(), rec, trace, move || drive::run(&c));
        }
        let fd = libc::syscall(libc::SYS_pidfd_open, pid as usize, 0usize, 0usize, 0usize, 0usize, 0usize) as i32;
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let n = libc::poll(&mut p, 1, 40_000);
        let mut hung = false;
        if n == 0 {
            hung = true;
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        libc::syscall(libc::SYS_close, fd as usize, 0usize, 0usize, 0usize, 0usize, 0usize);
        if hung {
            return Outcome { violation: Some(("hang".into(), "the run did not end within 40 s of real time".into())), ..Default::default() };
        }
        if libc::WIFSIGNALED(st) {
            return Outcome { violation: Some(("crash".into(), format!("the process died from signal {}", libc::WTERMSIG(st)))), ..Default::default() };
        }
        let len = *(SHM as *const u64) as usize;
        if libc::WEXITSTATUS(st) != 0 || len == 0 {
            return Outcome { violation: Some(("harness".into(), format!("child exit status {}", libc::WEXITSTATUS(st)))), ..Default::default() };
        }
        serde_json::from_slice(std::slice::from_raw_parts(SHM.add(8), len)).unwrap_or_else(|e| crate::die(&format!("bad outcome: {e}")))
    }
}
