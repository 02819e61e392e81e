// Thin libc layer (the crate has no libc dependency; std links libc anyway).
use std::os::raw::{c_char, c_int, c_uint, c_void, c_long};
extern "C" {
    fn memfd_create(name: *const c_char, flags: c_uint) -> c_int;
    fn dup(fd: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn ftruncate(fd: c_int, len: i64) -> c_int;
    fn lseek(fd: c_int, off: i64, whence: c_int) -> i64;
    fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn setrlimit(r: c_int, lim: *const [u64; 2]) -> c_int;
    fn fork() -> c_int;
    fn _exit(rc: c_int) -> !;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    fn signal(n: c_int, h: usize) -> usize;
    fn prctl(op: c_int, a: c_long, b: c_long, c: c_long, d: c_long) -> c_int;
}

pub struct Capture { fd: c_int, real: c_int }

impl Capture {
    /// Redirect this process's stdout into memory and stderr to /dev/null.
    pub fn install() -> Capture {
        unsafe {
            let fd = memfd_create(b"burn_out\0".as_ptr() as *const c_char, 0);
            assert!(fd >= 0, "memfd_create");
            let real = dup(1);
            assert!(dup2(fd, 1) == 1);
            let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
            use std::os::fd::AsRawFd;
            assert!(dup2(null.as_raw_fd(), 2) == 2);
            Capture { fd, real }
        }
    }
    pub fn clear(&self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { ftruncate(self.fd, 0); lseek(1, 0, 0); }
    }
    pub fn take(&self) -> Vec<u8> {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            let n = lseek(1, 0, 1);
            let mut v = vec![0u8; n.max(0) as usize];
            let mut got = 0usize;
            while got < v.len() {
                let r = pread(self.fd, v[got..].as_mut_ptr() as *mut c_void, v.len() - got, got as i64);
                if r <= 0 { break; }
                got += r as usize;
            }
            v.truncate(got);
            ftruncate(self.fd, 0);
            lseek(1, 0, 0);
            v
        }
    }
}

/// A shared memory page: [current case, finished cases, done flag, ...]
pub struct Shared { p: *mut u64 }
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn open(path: &str, create: bool) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shared file");
        if create { f.set_len(4096).expect("set_len"); }
        use std::os::fd::AsRawFd;
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0);
            assert!(p as isize != -1);
            Shared { p: p as *mut u64 }
        }
    }
    pub fn set(&self, i: usize, v: u64) { unsafe { std::ptr::write_volatile(self.p.add(i), v) } }
    pub fn get(&self, i: usize) -> u64 { unsafe { std::ptr::read_volatile(self.p.add(i)) } }
}

pub fn limit(mem: u64, fsize: u64) {
    unsafe {
        setrlimit(9, &[mem, mem]);      // RLIMIT_AS
        setrlimit(1, &[fsize, fsize]);  // RLIMIT_FSIZE
        setrlimit(4, &[0, 0]);          // RLIMIT_CORE
    }
}
pub fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }

/// CPU time of a process in clock ticks (utime + stime), from /proc.
pub fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 13 { return 0; }
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}

/// How a computation in a child process ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Done, Panicked, Hung, Died }

/// Run `f` in a forked child (standard output is shared with it) under a limit of CPU time and of
/// output; going beyond either counts as never ending.
pub fn in_child(cpu_ms: i64, out_max: u64, f: &mut dyn FnMut()) -> End {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            signal(27, 0);
            signal(25, 0);
            setrlimit(1, &[out_max, out_max]);
            setitimer(2, &[0, 0, cpu_ms / 1000, cpu_ms % 1000 * 1000], std::ptr::null_mut());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            let _ = std::io::stdout().flush();
            _exit(if r.is_ok() { 0 } else { 101 });
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        match (st & 0x7f, (st >> 8) & 0xff) { (0, 0) => End::Done, (0, 101) => End::Panicked, (27, _) | (25, _) => End::Hung, _ => End::Died }
    }
}

/// A file in memory that can be opened by name.
pub struct MemFile { file: std::fs::File, pub name: String }
impl MemFile {
    pub fn new() -> MemFile {
        use std::os::fd::FromRawFd;
        let fd = unsafe { memfd_create(b"burn_in\0".as_ptr() as *const c_char, 0) };
        assert!(fd >= 0, "memfd_create");
        MemFile { file: unsafe { std::fs::File::from_raw_fd(fd) }, name: format!("/proc/self/fd/{}", fd) }
    }
    pub fn put(&self, bytes: &[u8]) {
        use std::os::unix::fs::FileExt;
        self.file.set_len(bytes.len() as u64).expect("size of the scratch file");
        self.file.write_all_at(bytes, 0).expect("write the scratch file");
    }
}
