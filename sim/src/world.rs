//! Date and process environment as the code under test would see them. The
//! definitions below take the place of the C library's for the whole
//! program; they answer from the simulated world on threads that are in it
//! and from the real one elsewhere.

use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CStr};

#[derive(Clone, Copy, PartialEq)]
pub struct World {
    pub epoch: i64,
    /// 0: no variable is set; otherwise every variable has this value.
    pub env: u8,
}

const VALUES: &[&CStr] = &[
    c"1",
    c"0",
    c"de_DE.UTF-8",
    c"",
    c"Pacific/Kiritimati",
    c"40",
];

thread_local! {
    static WORLD: Cell<Option<World>> = const { Cell::new(None) };
}

pub fn enter(w: Option<World>) {
    WORLD.with(|x| x.set(w));
}

fn now() -> Option<i64> {
    WORLD.try_with(|w| w.get().map(|w| w.epoch)).ok().flatten()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Some(s) = now() {
            (*t).tv_sec = s;
            (*t).tv_nsec = 0;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        (*t).tv_sec = ts.tv_sec;
        (*t).tv_usec = ts.tv_nsec / 1000;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    if let Ok(Some(w)) = WORLD.try_with(|w| w.get()) {
        return match w.env {
            0 => std::ptr::null(),
            n => VALUES[usize::from(n - 1) % VALUES.len()].as_ptr(),
        };
    }
    let n = libc::strlen(name);
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        if libc::strncmp(*p, name, n) == 0 && *(*p).add(n) == b'=' as c_char {
            return (*p).add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
