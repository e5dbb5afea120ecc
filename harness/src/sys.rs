//! System-call interposition: the executable defines `read`, `write`, `lseek64`... so every file
//! access of the library (made through the standard library) goes through here. While a plan is
//! active, calls on file descriptors above 2 are counted, logged and disturbed as planned.
//! Only used by single-threaded workers.

#![allow(static_mut_refs)]

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Write,
    Read,
    Seek,
    Open,
    Stat,
}

/// Number of classes
const CLASSES: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Transfer at most `n` bytes
    Short(usize),
    /// Fail with EINTR, nothing transferred
    Eintr,
    /// Fail with this errno, nothing transferred
    Err(i32),
    /// Fail with this errno after having transferred `n` bytes in a first, partial, call
    ShortThenErr(usize, i32),
    /// Return 0 (end of file, or nothing written)
    Zero,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Write { off: u64, data: Vec<u8> },
    Trunc { len: u64 },
    Mark(usize),
}

pub struct State {
    pub active: bool,
    pub count: [u64; CLASSES],
    /// Bytes transferred, by class
    pub bytes: [u64; CLASSES],
    pub plan: Vec<(Class, u64, Fault)>,
    /// Random disturbance of every operation: (rng, class, percentage)
    pub noise: Option<(crate::rng::Rng, Class, usize)>,
    pub hits: u64,
    /// The number of the last error given (0: nothing accepted)
    pub last: i32,
    pub log_on: bool,
    pub log: Vec<Ev>,
    pub pending: Option<i32>,
    /// From this write on (or from 64 MiB), the disk is full
    pub full: Option<u64>,
    /// What another process does just after the next successful opening of a file
    pub opened: Option<Box<dyn FnOnce()>>,
}

static mut STATE: State = State {
    active: false,
    count: [0; CLASSES],
    bytes: [0; CLASSES],
    plan: Vec::new(),
    noise: None,
    hits: 0,
    last: 0,
    log_on: false,
    log: Vec::new(),
    pending: None,
    full: None,
    opened: None,
};

pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

/// Resets the counters and installs a plan (inactive until `on`).
pub fn reset(plan: Vec<(Class, u64, Fault)>, log_on: bool) {
    let s = state();
    s.active = false;
    s.count = [0; CLASSES];
    s.bytes = [0; CLASSES];
    s.plan = plan;
    s.noise = None;
    s.hits = 0;
    s.last = 0;
    s.log_on = log_on;
    s.log = Vec::new();
    s.pending = None;
    s.full = None;
    s.opened = None;
}

pub fn noise(rng: crate::rng::Rng, class: Class, pct: usize) {
    state().noise = Some((rng, class, pct));
}

/// Runs `f` with the interposition active.
pub fn with<T>(f: impl FnOnce() -> T) -> T {
    state().active = true;
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            state().active = false;
        }
    }
    let _off = Off;
    f()
}

pub const fn available() -> bool {
    cfg!(feature = "interpose")
}

#[cfg(feature = "interpose")]
mod hooks {
    use super::*;

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }
    const SYS_READ: i64 = 0;
    const SYS_WRITE: i64 = 1;
    const SYS_LSEEK: i64 = 8;
    const SYS_PREAD: i64 = 17;
    const SYS_PWRITE: i64 = 18;
    const SYS_READV: i64 = 19;
    const SYS_WRITEV: i64 = 20;
    const SYS_FTRUNCATE: i64 = 77;
    const SYS_OPENAT: i64 = 257;
    const SYS_STATX: i64 = 332;
    const AT_FDCWD: i64 = -100;
    const SYS_COPY_FILE_RANGE: i64 = 326;
    const EINTR: i32 = 4;

    unsafe fn fail(errno: i32) -> isize {
        state().last = errno;
        *__errno_location() = errno;
        -1
    }

    enum What {
        Full(usize),
        Fail(i32),
        Zero,
    }

    unsafe fn decide(class: Class, len: usize) -> What {
        let s = state();
        let k = s.count[class as usize];
        s.count[class as usize] += 1;
        if let (Class::Write, Some(n)) = (class, s.full) {
            if k >= n || s.bytes[Class::Write as usize] >= 64 << 20 {
                s.hits += 1;
                return What::Fail(28);
            }
            return What::Full(len.min(16 << 20));
        }
        if let Some(errno) = s.pending.take() {
            if class == Class::Read || class == Class::Write {
                s.hits += 1;
                return What::Fail(errno);
            }
            s.pending = Some(errno);
        }
        let mut fault: Option<Fault> = s.plan.iter().find(|(c, i, _)| *c == class && *i == k).map(|(_, _, f)| *f);
        if fault.is_none() {
            if let Some((rng, c, pct)) = s.noise.as_mut() {
                if *c == class && rng.pct(*pct) {
                    fault = Some(if class == Class::Seek || rng.bool() { Fault::Eintr } else { Fault::Short(1 + rng.below(3)) });
                }
            }
        }
        match fault {
            None => What::Full(len),
            Some(f) => {
                s.hits += 1;
                match f {
                    Fault::Short(n) => What::Full(n.min(len).max(1.min(len))),
                    Fault::Eintr => What::Fail(EINTR),
                    Fault::Err(e) => What::Fail(e),
                    Fault::ShortThenErr(n, e) => {
                        if len <= 1 || n >= len {
                            What::Fail(e)
                        } else {
                            // counted as met when the error comes
                            s.hits -= 1;
                            s.pending = Some(e);
                            What::Full(n.max(1))
                        }
                    }
                    Fault::Zero => {
                        s.last = 0;
                        What::Zero
                    }
                }
            }
        }
    }

    fn on(fd: i32) -> bool {
        fd > 2 && state().active
    }

    fn moved(class: Class, n: isize) -> isize {
        state().bytes[class as usize] += n.max(0) as u64;
        n
    }

    unsafe fn log_write(off: i64, buf: *const u8, n: isize) {
        let s = state();
        if s.log_on && n > 0 && off >= 0 {
            // the buffer of the log is not the business of the code under test
            s.active = false;
            s.log.push(Ev::Write { off: off as u64, data: std::slice::from_raw_parts(buf, n as usize).to_vec() });
            s.active = true;
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
        if !on(fd) {
            return syscall(SYS_WRITE, fd as i64, buf, len) as isize;
        }
        match decide(Class::Write, len) {
            What::Fail(e) => fail(e),
            What::Zero => 0,
            What::Full(n) => {
                let off = if state().log_on { syscall(SYS_LSEEK, fd as i64, 0i64, 1i64) } else { 0 };
                let r = syscall(SYS_WRITE, fd as i64, buf, n) as isize;
                moved(Class::Write, r);
                log_write(off, buf, r);
                r
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
        if !on(fd) {
            return syscall(SYS_READ, fd as i64, buf, len) as isize;
        }
        match decide(Class::Read, len) {
            What::Fail(e) => fail(e),
            What::Zero => 0,
            What::Full(n) => moved(Class::Read, syscall(SYS_READ, fd as i64, buf, n) as isize),
        }
    }

    #[repr(C)]
    pub struct IoVec {
        base: *mut u8,
        len: usize,
    }

    /// Vectored calls are reduced to their first non-empty buffer (a legal partial transfer).
    unsafe fn first(iov: *const IoVec, cnt: i32) -> Option<(*mut u8, usize)> {
        for i in 0..cnt.max(0) as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return Some((v.base, v.len));
            }
        }
        None
    }

    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
        if !on(fd) {
            return syscall(SYS_WRITEV, fd as i64, iov, cnt as i64) as isize;
        }
        match first(iov, cnt) {
            None => 0,
            Some((p, n)) => write(fd, p, n),
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
        if !on(fd) {
            return syscall(SYS_READV, fd as i64, iov, cnt as i64) as isize;
        }
        match first(iov, cnt) {
            None => 0,
            Some((p, n)) => read(fd, p, n),
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, len: usize, off: i64) -> isize {
        if !on(fd) {
            return syscall(SYS_PWRITE, fd as i64, buf, len, off) as isize;
        }
        match decide(Class::Write, len) {
            What::Fail(e) => fail(e),
            What::Zero => 0,
            What::Full(n) => {
                let r = syscall(SYS_PWRITE, fd as i64, buf, n, off) as isize;
                moved(Class::Write, r);
                log_write(off, buf, r);
                r
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, len: usize, off: i64) -> isize {
        if !on(fd) {
            return syscall(SYS_PREAD, fd as i64, buf, len, off) as isize;
        }
        match decide(Class::Read, len) {
            What::Fail(e) => fail(e),
            What::Zero => 0,
            What::Full(n) => moved(Class::Read, syscall(SYS_PREAD, fd as i64, buf, n, off) as isize),
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        if !on(fd) {
            return syscall(SYS_LSEEK, fd as i64, off, whence as i64);
        }
        match decide(Class::Seek, 0) {
            What::Fail(e) => fail(e) as i64,
            _ => syscall(SYS_LSEEK, fd as i64, off, whence as i64),
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
        lseek64(fd, off, whence)
    }

    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
        let r = syscall(SYS_FTRUNCATE, fd as i64, len) as i32;
        if on(fd) && state().log_on && r == 0 {
            let s = state();
            s.active = false;
            s.log.push(Ev::Trunc { len: len as u64 });
            s.active = true;
        }
        r
    }

    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
        ftruncate64(fd, len)
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
        if state().active {
            if let What::Fail(e) = decide(Class::Open, 0) {
                return fail(e) as i32;
            }
        }
        let fd = syscall(SYS_OPENAT, AT_FDCWD, path, flags as i64, mode as i64) as i32;
        if state().active && fd >= 0 {
            let s = state();
            if let Some(f) = s.opened.take() {
                s.active = false;
                f();
                s.active = true;
            }
        }
        fd
    }

    #[no_mangle]
    pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
        // (the standard library asks with null pointers whether the call exists)
        if state().active && !buf.is_null() && !path.is_null() {
            if let What::Fail(e) = decide(Class::Stat, 0) {
                return fail(e) as i32;
            }
        }
        syscall(SYS_STATX, fd as i64, path, flags as i64, mask as i64, buf) as i32
    }

    /// The in-kernel copies would escape the monitor: make the standard library fall back to
    /// `read` and `write`.
    #[no_mangle]
    pub unsafe extern "C" fn copy_file_range(fd_in: i32, off_in: *mut i64, fd_out: i32, off_out: *mut i64, len: usize, flags: u32) -> isize {
        if on(fd_in) || on(fd_out) {
            return fail(38); // ENOSYS
        }
        syscall(SYS_COPY_FILE_RANGE, fd_in as i64, off_in, fd_out as i64, off_out, len, flags as i64) as isize
    }
}
