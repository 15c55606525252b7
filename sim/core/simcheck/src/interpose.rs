//! The seams between the code under test and its environment. Everything the libraries take from
//! outside - memory, standard output, locks, entropy, the clock - passes through here, so the
//! simulator decides what happens. Outside a simulation every function is a plain pass-through.
use crate::rng::mix;
use crate::sched;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed, Ordering::SeqCst};

pub static SIM: AtomicBool = AtomicBool::new(false); // this process is a simulated run
pub static SCHED_ON: AtomicBool = AtomicBool::new(false); // threads are scheduled by the simulator

thread_local! {
    /// Index of the simulated thread, -1 outside
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    /// Seed of the entropy of the current operation
    pub static ENTROPY: Cell<u64> = const { Cell::new(0) };
    pub static ENTROPY_POS: Cell<u64> = const { Cell::new(0) };
}

#[inline(always)]
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}

pub fn raw_write(fd: c_int, mut bytes: &[u8]) {
    while !bytes.is_empty() {
        let r = unsafe { raw6(libc::SYS_write, fd as usize, bytes.as_ptr() as usize, bytes.len(), 0, 0, 0) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r <= 0 {
            return;
        }
        bytes = &bytes[r as usize..];
    }
}

/// Print to the harness's own standard output
pub fn say(s: &str) {
    raw_write(1, format!("{}\n", s).as_bytes());
}

// ---------------------------------------------------------------------------------------------
// Memory: every allocation is a scheduling point
pub struct SimAlloc;
pub static COUNTING: AtomicBool = AtomicBool::new(false);
/// Bytes allocated and not given back while counting
pub static LIVE: AtomicI64 = AtomicI64::new(0);

#[inline(always)]
fn count(more: i64) {
    if COUNTING.load(Relaxed) {
        LIVE.fetch_add(more, Relaxed);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::point(sched::ALLOC, 0);
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l);
        sched::point(sched::ALLOC, 0);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::point(sched::ALLOC, 0);
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sched::point(sched::ALLOC, 0);
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------------------------
// Basic blocks of the code under test
pub const MAX_GUARDS: usize = 16384;
pub static mut COV: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
static NEXT_GUARD: AtomicU32 = AtomicU32::new(1);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT_GUARD.fetch_add(1, Relaxed).min(MAX_GUARDS as u32 - 1);
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    if g == 0 {
        return;
    }
    let c = (&raw mut COV as *mut u8).add(g as usize);
    let before = *c;
    *c = before.saturating_add(1);
    sched::point(
        match before {
            0 => sched::NOVEL,
            1..=5 => sched::RARE,
            _ => sched::BLOCK,
        },
        g,
    );
}

// ---------------------------------------------------------------------------------------------
// Atomic operations of the code under test: what locks and lazily made values are built from
macro_rules! atomics {
    ($($t:ty, $a:ty, $load:ident $store:ident $exchange:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: c_int) -> $t {
            sched::point(sched::ATOMIC, 0);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: c_int) {
            sched::point(sched::ATOMIC, 0);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, from: $t, to: $t, _: c_int, _: c_int) -> $t {
            sched::point(sched::ATOMIC, 0);
            (*p).compare_exchange(from, to, SeqCst, SeqCst).unwrap_or_else(|v| v)
        }
        atomics!(@ $t, $a, $exchange swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
    )*};
    (@ $t:ty, $a:ty, $($name:ident $op:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const $a, v: $t, _: c_int) -> $t {
            sched::point(sched::ATOMIC, 0);
            (*p).$op(v, SeqCst)
        }
    )*};
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: c_int) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: c_int) {}

/// Number of blocks reached and a hash of their set
pub fn coverage() -> (u64, u64) {
    let (mut n, mut h) = (0, 0);
    for i in 0..guards() {
        if unsafe { *(&raw const COV as *const u8).add(i) } != 0 {
            n += 1;
            h ^= mix(i as u64, 77);
        }
    }
    (n, h)
}

pub fn covered_blocks() -> Vec<u32> {
    (0..guards()).filter(|i| unsafe { *(&raw const COV as *const u8).add(*i) } != 0).map(|i| i as u32).collect()
}

pub fn guards() -> usize {
    NEXT_GUARD.load(Relaxed) as usize
}

// ---------------------------------------------------------------------------------------------
// Standard output
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum OutFault {
    Short1,
    ShortHalf,
    Eintr,
    Epipe,
    Eio,
    Enospc,
}

pub const MAX_OUT_FAULTS: usize = 64;
/// (index of the write since the script was set, fault)
pub static mut OUT_SCRIPT: [(u64, OutFault); MAX_OUT_FAULTS] = [(0, OutFault::Eintr); MAX_OUT_FAULTS];
pub static mut OUT_SCRIPT_LEN: usize = 0;
pub static OUT_CALLS: AtomicU64 = AtomicU64::new(0);
pub static OUT_FIRED: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
pub static OUT_BYTES: AtomicU64 = AtomicU64::new(0);

pub fn set_out_script(script: &[(u64, OutFault)]) {
    unsafe {
        let n = script.len().min(MAX_OUT_FAULTS);
        for (i, s) in script.iter().take(n).enumerate() {
            *(&raw mut OUT_SCRIPT as *mut (u64, OutFault)).add(i) = *s;
        }
        OUT_SCRIPT_LEN = n;
    }
    OUT_CALLS.store(0, Relaxed);
}

/// What the code under test hands to the operating system, while asked for
pub static CAPTURING: AtomicBool = AtomicBool::new(false);
static mut CAPTURED: Vec<u8> = vec![];

unsafe fn capture(p: *const u8, n: usize) {
    if CAPTURING.load(Relaxed) && n > 0 {
        // what it takes to keep is none of the code's allocations
        (*(&raw mut CAPTURED)).extend_from_slice(std::slice::from_raw_parts(p, n));
    }
}
pub fn capture_start() {
    unsafe { (*(&raw mut CAPTURED)).clear() };
    CAPTURING.store(true, SeqCst);
}
pub fn capture_end() -> Vec<u8> {
    CAPTURING.store(false, SeqCst);
    unsafe { std::mem::take(&mut *(&raw mut CAPTURED)) }
}

unsafe fn sim_stdout(n: usize) -> isize {
    sched::point(sched::SYNC, 0);
    let call = OUT_CALLS.fetch_add(1, Relaxed);
    for i in 0..OUT_SCRIPT_LEN {
        let (at, fault) = *(&raw const OUT_SCRIPT as *const (u64, OutFault)).add(i);
        if at == call {
            OUT_FIRED[fault as usize].fetch_add(1, Relaxed);
            match fault {
                OutFault::Short1 => return n.min(1) as isize,
                OutFault::ShortHalf => return (n.min(1)).max(n / 2) as isize,
                OutFault::Eintr => return fail(libc::EINTR),
                OutFault::Epipe => return fail(libc::EPIPE),
                OutFault::Eio => return fail(libc::EIO),
                OutFault::Enospc => return fail(libc::ENOSPC),
            }
        }
    }
    OUT_BYTES.fetch_add(n as u64, Relaxed);
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd == 1 && SIM.load(Relaxed) {
        let r = sim_stdout(n);
        capture(buf as *const u8, r.max(0) as usize);
        return r;
    }
    capture(buf as *const u8, n);
    ret(raw6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if fd == 1 && SIM.load(Relaxed) {
        let total = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
        let r = sim_stdout(total);
        let mut left = r.max(0) as usize;
        for i in 0..n as usize {
            let part = (*iov.add(i)).iov_len.min(left);
            capture((*iov.add(i)).iov_base as *const u8, part);
            left -= part;
        }
        return r;
    }
    for i in 0..n as usize {
        capture((*iov.add(i)).iov_base as *const u8, (*iov.add(i)).iov_len);
    }
    ret(raw6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

// ---------------------------------------------------------------------------------------------
// Entropy
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum EntFault {
    Short,
    Short1,
    Eintr,
    Enosys,
    Eperm,
    Eio,
    Eagain,
}
pub const MAX_ENT_FAULTS: usize = 64;
pub static mut ENT_SCRIPT: [(u64, EntFault); MAX_ENT_FAULTS] = [(0, EntFault::Eintr); MAX_ENT_FAULTS];
pub static mut ENT_SCRIPT_LEN: usize = 0;
pub static ENT_FROM: AtomicU64 = AtomicU64::new(u64::MAX); // from this call on the fault below
pub static ENT_FROM_FAULT: AtomicU32 = AtomicU32::new(0);
pub static ENT_CALLS: AtomicU64 = AtomicU64::new(0);
pub static ENT_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ENT_MISSING: AtomicU32 = AtomicU32::new(0); // the system call is answered with this error
pub static ENT_FLIP: AtomicU64 = AtomicU64::new(u64::MAX); // this bit of the entropy is inverted
pub static ENT_FIRED: [AtomicU64; 7] = [const { AtomicU64::new(0) }; 7];
pub static DEV_OPENS: AtomicU64 = AtomicU64::new(0);
pub static DEV_MISSING: AtomicBool = AtomicBool::new(false);
static mut DEV_FDS: [bool; 1024] = [false; 1024];

pub const ENT_FAULTS: [EntFault; 7] = [
    EntFault::Short,
    EntFault::Short1,
    EntFault::Eintr,
    EntFault::Enosys,
    EntFault::Eperm,
    EntFault::Eio,
    EntFault::Eagain,
];

pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
    ENTROPY_POS.with(|e| e.set(0));
}

pub fn set_entropy_script(script: &[(u64, EntFault)], from: u64, fault: EntFault) {
    unsafe {
        let n = script.len().min(MAX_ENT_FAULTS);
        for (i, s) in script.iter().take(n).enumerate() {
            *(&raw mut ENT_SCRIPT as *mut (u64, EntFault)).add(i) = *s;
        }
        ENT_SCRIPT_LEN = n;
    }
    ENT_FROM.store(from, Relaxed);
    ENT_FROM_FAULT.store(fault as u32, Relaxed);
    ENT_CALLS.store(0, Relaxed);
}

pub fn entropy_byte(seed: u64, pos: u64) -> u8 {
    (mix(seed, pos / 8) >> (8 * (pos % 8))) as u8
}

unsafe fn sim_entropy(buf: *mut u8, n: usize, device: bool) -> isize {
    sched::point(sched::SYNC, 0);
    if !device && ENT_MISSING.load(Relaxed) != 0 {
        let missing = ENT_MISSING.load(Relaxed) as c_int;
        ENT_FIRED[if missing == libc::ENOSYS { EntFault::Enosys } else { EntFault::Eperm } as usize].fetch_add(1, Relaxed);
        return fail(missing);
    }
    let call = ENT_CALLS.fetch_add(1, Relaxed);
    let mut n = n.min(256);
    let mut fault = None;
    for i in 0..ENT_SCRIPT_LEN {
        let (at, f) = *(&raw const ENT_SCRIPT as *const (u64, EntFault)).add(i);
        if at == call {
            fault = Some(f);
        }
    }
    if call >= ENT_FROM.load(Relaxed) {
        fault = Some(ENT_FAULTS[ENT_FROM_FAULT.load(Relaxed) as usize % 7]);
    }
    if let Some(f) = fault {
        let errno = match f {
            EntFault::Short => {
                n = (n / 2).max(1).min(n);
                0
            }
            EntFault::Short1 => {
                n = n.min(1);
                0
            }
            EntFault::Eintr => libc::EINTR,
            // Only the system call can be missing or forbidden
            EntFault::Enosys if device => libc::EIO,
            EntFault::Eperm if device => libc::EIO,
            EntFault::Enosys => libc::ENOSYS,
            EntFault::Eperm => libc::EPERM,
            EntFault::Eio => libc::EIO,
            EntFault::Eagain => libc::EAGAIN,
        };
        ENT_FIRED[f as usize].fetch_add(1, Relaxed);
        if errno != 0 {
            return fail(errno);
        }
    }
    let seed = ENTROPY.with(|e| e.get());
    let pos = ENTROPY_POS.with(|e| e.get());
    for i in 0..n {
        *buf.add(i) = entropy_byte(seed, pos + i as u64);
        if ENT_FLIP.load(Relaxed) / 8 == pos + i as u64 {
            *buf.add(i) ^= 1 << (ENT_FLIP.load(Relaxed) % 8);
        }
    }
    ENTROPY_POS.with(|e| e.set(pos + n as u64));
    ENT_BYTES.fetch_add(n as u64, Relaxed);
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if SIM.load(Relaxed) {
        return sim_entropy(buf as *mut u8, n, false);
    }
    ret(raw6(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}

unsafe fn is_device(path: *const c_char) -> bool {
    let s = std::ffi::CStr::from_ptr(path).to_bytes();
    s == b"/dev/urandom" || s == b"/dev/random"
}

unsafe fn sim_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if SIM.load(Relaxed) && is_device(path) {
        sched::point(sched::SYNC, 0);
        DEV_OPENS.fetch_add(1, Relaxed);
        if DEV_MISSING.load(Relaxed) {
            return fail(libc::ENOENT) as c_int;
        }
        let fd = raw6(libc::SYS_openat, libc::AT_FDCWD as usize, c"/dev/zero".as_ptr() as usize, libc::O_RDONLY as usize, 0, 0, 0);
        if fd >= 0 && fd < 1024 {
            *(&raw mut DEV_FDS as *mut bool).add(fd as usize) = true;
        }
        return ret(fd) as c_int;
    }
    // the libraries have no business with files: whatever they write is seen and goes nowhere
    if CAPTURING.load(Relaxed) && flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0 {
        return ret(raw6(libc::SYS_openat, libc::AT_FDCWD as usize, c"/dev/null".as_ptr() as usize, libc::O_RDWR as usize, 0, 0, 0)) as c_int;
    }
    ret(raw6(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    sim_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    sim_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if SIM.load(Relaxed) && (0..1024).contains(&fd) && *(&raw const DEV_FDS as *const bool).add(fd as usize) {
        return sim_entropy(buf as *mut u8, n, true);
    }
    ret(raw6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}

// ---------------------------------------------------------------------------------------------
// Clock
pub static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if SIM.load(Relaxed) {
        CLOCK_CALLS.fetch_add(1, Relaxed);
        let now = CLOCK_NS.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
        (*ts).tv_sec = (now / 1_000_000_000) as _;
        (*ts).tv_nsec = (now % 1_000_000_000) as _;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::yield_now() {
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if SIM.load(Relaxed) {
        CLOCK_NS.fetch_add((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64, Relaxed);
        sched::yield_now();
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if SIM.load(Relaxed) {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            CLOCK_NS.fetch_max(ns, Relaxed);
        } else {
            CLOCK_NS.fetch_add(ns, Relaxed);
        }
        sched::yield_now();
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

// ---------------------------------------------------------------------------------------------
// Locks (std parks threads with the futex system call) and entropy through syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if SIM.load(Relaxed) {
        if n == libc::SYS_futex {
            let op = (b as c_int) & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                if let Some(r) = sched::futex_wait(a as *const u32, c as u32, d != 0) {
                    return ret(r) as c_long;
                }
            } else if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                if let Some(r) = sched::futex_wake(a as *const u32, c as u64) {
                    return ret(r) as c_long;
                }
            }
        } else if n == libc::SYS_getrandom {
            return sim_entropy(a as *mut u8, b, false) as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}
