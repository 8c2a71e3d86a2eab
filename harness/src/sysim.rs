//! The system calls of std::fs::File, simulated: a file opened under /fsim/ is the simulated
//! device of the run, with its short reads, interruptions and errors; and what is printed while
//! a run captures it goes to the run. The symbols below come before those of the C library.
use crate::sim::SimDevice;
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::io::{Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_int = -100;
const EINTR: c_int = 4;
const EIO: c_int = 5;

#[derive(Default)]
struct State {
    /// what the next open under /fsim/ gives
    dev: Option<SimDevice>,
    /// error the open gives instead
    refuse: c_int,
    open: Vec<(c_int, SimDevice)>,
    out: Option<Vec<u8>>,
    /// the device was called more often than it should ever be
    over: bool,
}
thread_local! {
    static S: RefCell<State> = const { RefCell::new(State { dev: None, refuse: 0, open: Vec::new(), out: None, over: false }) };
}

/// Run f with the device as the file /fsim/x, its output captured.
pub fn with<T>(dev: SimDevice, refuse: i32, capture: bool, f: impl FnOnce(&str) -> T) -> (T, Vec<u8>, bool) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    S.with(|s| *s.borrow_mut() = State { dev: Some(dev), refuse, open: vec![], out: capture.then(Vec::new), over: false });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            S.with(|s| *s.borrow_mut() = State::default());
        }
    }
    let off = Off;
    let r = f("/fsim/x");
    let _ = std::io::stdout().flush();
    let (out, over) = S.with(|s| {
        let mut s = s.borrow_mut();
        (s.out.take().unwrap_or_default(), s.over)
    });
    drop(off);
    (r, out, over)
}

fn fail(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
fn on<T>(fd: c_int, f: impl FnOnce(&mut SimDevice) -> std::io::Result<T>) -> Option<Result<T, c_int>> {
    S.try_with(|s| {
        let mut s = s.try_borrow_mut().ok()?;
        let s = &mut *s;
        let d = &mut s.open.iter_mut().find(|d| d.0 == fd)?.1;
        if s.over {
            return Some(Err(EIO));
        }
        // nothing may unwind through a system call
        Some(match catch_unwind(AssertUnwindSafe(|| f(d))) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => Err(EINTR),
            Ok(Err(e)) => Err(e.raw_os_error().unwrap_or(if e.kind() == std::io::ErrorKind::InvalidInput { 22 } else { EIO })),
            Err(_) => {
                s.over = true;
                Err(EIO)
            }
        })
    })
    .ok()?
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if CStr::from_ptr(path).to_bytes().starts_with(b"/fsim/") {
        let r = S.try_with(|s| {
            let mut s = s.borrow_mut();
            if s.refuse != 0 {
                return fail(s.refuse) as c_int;
            }
            let Some(d) = s.dev.take() else { return fail(2) as c_int };
            let fd = syscall(SYS_OPENAT, AT_FDCWD, c"/dev/null".as_ptr(), flags, mode) as c_int;
            s.open.push((fd, d));
            fd
        });
        return r.unwrap_or(-1);
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match on(fd, |d| d.read(std::slice::from_raw_parts_mut(buf as *mut u8, n))) {
        Some(Ok(n)) => n as isize,
        Some(Err(e)) => fail(e),
        None => syscall(SYS_READ, fd, buf, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let p = match whence {
        0 => SeekFrom::Start(off as u64),
        1 => SeekFrom::Current(off),
        _ => SeekFrom::End(off),
    };
    match on(fd, |d| d.seek(p)) {
        Some(Ok(n)) => n as i64,
        Some(Err(e)) => fail(e) as i64,
        None => syscall(SYS_LSEEK, fd, off, whence),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 {
        let took = S.try_with(|s| match s.try_borrow_mut() {
            Ok(mut s) => match &mut s.out {
                Some(o) => {
                    o.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
                    true
                }
                None => false,
            },
            Err(_) => false,
        });
        if took == Ok(true) {
            return n as isize;
        }
    }
    syscall(SYS_WRITE, fd, buf, n) as isize
}

