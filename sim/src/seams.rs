//! The seams through which the simulator controls the real library code:
//! control-flow edges (compiler-inserted callbacks), memory allocation, lock
//! waits (futex), clocks, sleeping, yielding and the process's random source.
//! All of them are link-time: the library's sources are unchanged.

use crate::prng::splitmix;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::c_void;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub const NO_TASK: u32 = u32::MAX;
pub const MAX_GUARDS: usize = 1 << 15;

pub struct Tls {
    /// Inside a library call of a simulated task.
    pub active: Cell<bool>,
    pub task: Cell<u32>,
    pub steps: Cell<u64>,
    pub stop_at: Cell<u64>,
    pub limit: Cell<u64>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub total: Cell<u64>,
    pub mem_limit: Cell<i64>,
}
thread_local! {
    pub static T: Tls = const { Tls {
        active: Cell::new(false),
        task: Cell::new(NO_TASK),
        steps: Cell::new(0),
        stop_at: Cell::new(u64::MAX),
        limit: Cell::new(u64::MAX),
        live: Cell::new(0),
        peak: Cell::new(0),
        total: Cell::new(0),
        mem_limit: Cell::new(i64::MAX),
    } };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

static mut COV_DUMMY: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
static mut COV: *mut u8 = std::ptr::null_mut();
static mut GUARDS: u32 = 0;
/// How often each edge was passed in this process, up to `RARE`.
static mut HITS: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
const RARE: u8 = 4;

/// Points edge coverage at shared memory of `MAX_GUARDS` bytes.
pub fn set_coverage(p: *mut u8) {
    unsafe { COV = p };
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if COV.is_null() {
            COV = std::ptr::addr_of_mut!(COV_DUMMY).cast();
        }
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            GUARDS = (GUARDS + 1).min(MAX_GUARDS as u32 - 1);
            *p = GUARDS;
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    T.with(|t| {
        if !t.active.get() {
            return;
        }
        let s = t.steps.get() + 1;
        t.steps.set(s);
        let seen = unsafe { &mut *std::ptr::addr_of_mut!(HITS).cast::<u8>().add(*guard as usize) };
        if *seen < RARE {
            *seen += 1;
            unsafe { *COV.add(*guard as usize) = 1 };
            if t.task.get() != NO_TASK && sched::rare() {
                slow(t);
                return;
            }
        }
        if s >= t.stop_at.get() {
            slow(t);
        }
    });
}

#[cold]
#[inline(never)]
fn slow(t: &Tls) {
    let was = t.active.replace(false);
    if t.steps.get() >= t.limit.get() {
        crate::report::fatal(
            "step-bound",
            &format!("a library call exceeded its bound of steps ({})", sched::call_info()),
        );
    }
    if t.task.get() != NO_TASK {
        sched::preempt();
    }
    t.active.set(was);
}

/// A possible preemption in harness code between library calls.
pub fn checkpoint() {
    T.with(|t| {
        t.steps.set(t.steps.get() + 10);
        if t.task.get() != NO_TASK && t.steps.get() >= t.stop_at.get() {
            sched::preempt();
        }
    });
}

/// Bytes obtained less bytes given back inside library calls.
static HEAP: AtomicI64 = AtomicI64::new(0);
pub fn heap() -> i64 {
    HEAP.load(Ordering::Relaxed)
}

pub struct Alloc;
#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[inline]
fn account(size: usize) {
    T.with(|t| {
        if !t.active.get() {
            return;
        }
        let _ = HEAP.fetch_add(size as i64, Ordering::Relaxed);
        let live = t.live.get() + size as i64;
        t.live.set(live);
        t.total.set(t.total.get() + size as u64);
        if live > t.peak.get() {
            t.peak.set(live);
        }
        if live > t.mem_limit.get() {
            t.active.set(false);
            crate::report::fatal(
                "mem-bound",
                &format!(
                    "a library call asked for {size} bytes and would hold {live}, above its bound of {} ({})",
                    t.mem_limit.get(),
                    sched::call_info()
                ),
            );
        }
        // obtaining and clearing memory is work, too
        let s = t.steps.get() + 1 + size as u64 / 64;
        t.steps.set(s);
        if s >= t.stop_at.get() {
            slow(t);
        }
    });
}
#[inline]
fn release(size: usize) {
    T.with(|t| {
        if t.active.get() {
            let _ = HEAP.fetch_sub(size as i64, Ordering::Relaxed);
            t.live.set(t.live.get() - size as i64);
        }
    });
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            // the old contents may have to move
            bulk(l.size());
            account(n - l.size());
        } else {
            release(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

// --- bulk memory operations -----------------------------------------------------

/// Moving, filling and comparing memory is work, too; it is charged to the call,
/// whose next edge then notices.
#[inline]
fn bulk(n: usize) {
    if n >= 64 {
        T.with(|t| {
            if t.active.get() {
                t.steps.set(t.steps.get() + n as u64 / 64);
            }
        });
    }
}
macro_rules! small {
    ($t:ty, $d:expr, $s:expr, $n:expr) => {{
        // both loads come before the stores: the ranges may overlap
        let k = $n - std::mem::size_of::<$t>();
        let a = std::ptr::read_unaligned($s.cast::<$t>());
        let b = std::ptr::read_unaligned($s.add(k).cast::<$t>());
        std::ptr::write_unaligned($d.cast::<$t>(), a);
        std::ptr::write_unaligned($d.add(k).cast::<$t>(), b);
    }};
}
#[no_mangle]
pub unsafe extern "C" fn memmove(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    let (d, s) = (to.cast::<u8>(), from.cast::<u8>());
    match n {
        0 => {}
        1 => *d = *s,
        2..=3 => small!(u16, d, s, n),
        4..=7 => small!(u32, d, s, n),
        8..=15 => small!(u64, d, s, n),
        16..=32 => small!(u128, d, s, n),
        _ => {
            bulk(n);
            if (d as usize).wrapping_sub(s as usize) >= n {
                std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
            } else {
                std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _, inout("rsi") s.add(n - 1) => _, options(nostack));
            }
        }
    }
    to
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    memmove(to, from, n)
}
#[no_mangle]
pub unsafe extern "C" fn memset(to: *mut c_void, c: i32, n: usize) -> *mut c_void {
    let d = to.cast::<u8>();
    if (8..=16).contains(&n) {
        let v = u64::from(c as u8) * 0x0101_0101_0101_0101;
        std::ptr::write_unaligned(d.cast::<u64>(), v);
        std::ptr::write_unaligned(d.add(n - 8).cast::<u64>(), v);
        return to;
    }
    if (17..=64).contains(&n) {
        let v = u128::from(c as u8) * 0x0101_0101_0101_0101_0101_0101_0101_0101;
        for k in [0, n - 16, 16.min(n - 16), n.saturating_sub(32)] {
            std::ptr::write_unaligned(d.add(k).cast::<u128>(), v);
        }
        return to;
    }
    bulk(n);
    std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    to
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(left: *const c_void, right: *const c_void, n: usize) -> i32 {
    let (a, b) = (left.cast::<u8>(), right.cast::<u8>());
    let mut i = 0;
    while i + 8 <= n {
        let x = std::ptr::read_unaligned(a.add(i).cast::<u64>());
        let y = std::ptr::read_unaligned(b.add(i).cast::<u64>());
        if x != y {
            bulk(i);
            return if x.swap_bytes() < y.swap_bytes() { -1 } else { 1 };
        }
        i += 8;
    }
    bulk(i);
    while i < n {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y {
            return i32::from(x) - i32::from(y);
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(left: *const c_void, right: *const c_void, n: usize) -> i32 {
    memcmp(left, right, n)
}

// --- process randomness ------------------------------------------------------

static RANDOM: AtomicU64 = AtomicU64::new(0);
/// Seeds what the process believes to be system randomness.
pub fn seed_randomness(s: u64) {
    RANDOM.store(s, Ordering::Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = RANDOM.load(Ordering::Relaxed);
    for i in 0..len {
        *buf.add(i) = splitmix(&mut s) as u8;
    }
    RANDOM.store(s, Ordering::Relaxed);
    len as isize
}

// --- system calls --------------------------------------------------------------

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _,
        options(nostack)
    );
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
fn in_task() -> bool {
    T.with(|t| t.task.get() != NO_TASK) && sched::running()
}
/// Runs simulator code on behalf of the library: not counted, not preempted.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = T.with(|t| t.active.replace(false));
    let r = f();
    T.with(|t| t.active.set(was));
    r
}

const FUTEX_CMD: i64 = 0x7f;

/// The standard library's locks, condition variables and thread parking enter the
/// kernel through this symbol.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && in_task() {
        match b & FUTEX_CMD {
            // WAIT, WAIT_BITSET
            0 | 9 => {
                let until = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    Some((b & FUTEX_CMD == 9, v))
                };
                return ret(quiet(|| sched::futex_wait(a as *const u32, c as u32, until)));
            }
            // WAKE, WAKE_BITSET
            1 | 10 => return quiet(|| sched::futex_wake(a as *const u32, c as u64)),
            _ => {}
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut libc::timespec) -> i32 {
    if in_task() {
        let now = sched::clock(clock);
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(
        libc::SYS_clock_gettime,
        clock.into(),
        ts as i64,
        0,
        0,
        0,
        0,
    )) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: i32,
    flags: i32,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if in_task() {
        let v = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
        quiet(|| sched::sleep(if flags & 1 == 1 { v.saturating_sub(sched::clock(clock)) } else { v }));
        return 0;
    }
    (-raw_syscall(
        libc::SYS_clock_nanosleep,
        clock.into(),
        flags.into(),
        ts as i64,
        rem as i64,
        0,
        0,
    )) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    clock_nanosleep(1, 0, ts, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_task() {
        quiet(sched::yield_now);
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

// --- threads -------------------------------------------------------------------

type Start = unsafe extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    Start,
    *mut libc::c_void,
) -> i32;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

/// Threads started by the library: `(thread, place, generation)`.
static mut STARTED: Vec<(libc::pthread_t, usize, u32)> = Vec::new();

struct Begin {
    place: usize,
    start: Start,
    arg: *mut libc::c_void,
}
unsafe extern "C" fn begin(b: *mut libc::c_void) -> *mut libc::c_void {
    // nothing is allocated or freed before it is this thread's turn
    sched::as_task((*b.cast::<Begin>()).place, || {
        let Begin { start, arg, .. } = *quiet(|| Box::from_raw(b.cast::<Begin>()));
        OWN.with(|o| o.set(true));
        let r = start(arg);
        at_exit();
        r
    })
}

// What a thread started by the library has to do at its end is part of the
// simulation, too.

type Dtor = unsafe extern "C" fn(*mut u8);
struct AtExit {
    dtor: Dtor,
    obj: *mut u8,
    next: *mut AtExit,
}
thread_local! {
    static AT_EXIT: Cell<*mut AtExit> = const { Cell::new(std::ptr::null_mut()) };
    static OWN: Cell<bool> = const { Cell::new(false) };
}
/// Through this the standard library arranges for destructors of thread-local values.
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(dtor: Dtor, obj: *mut u8, dso: *mut u8) -> i32 {
    if !OWN.with(Cell::get) {
        type Real = unsafe extern "C" fn(Dtor, *mut u8, *mut u8) -> i32;
        let real: Real =
            std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"__cxa_thread_atexit_impl".as_ptr()));
        return real(dtor, obj, dso);
    }
    quiet(|| {
        let a = Box::into_raw(Box::new(AtExit { dtor, obj, next: AT_EXIT.with(Cell::get) }));
        AT_EXIT.with(|x| x.set(a));
    });
    0
}
unsafe fn at_exit() {
    loop {
        let a = AT_EXIT.with(Cell::get);
        if a.is_null() {
            break;
        }
        let AtExit { dtor, obj, next } = *quiet(|| Box::from_raw(a));
        AT_EXIT.with(|x| x.set(next));
        dtor(obj);
    }
    OWN.with(|o| o.set(false));
}

/// A thread the library starts becomes one more simulated task.
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_create(
    thread: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut libc::c_void,
) -> i32 {
    quiet(|| {
        let real: Create =
            std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
        if !in_task() {
            return real(thread, attr, start, arg);
        }
        // with too many threads, the next one has to wait until some have ended
        let mut patience = 10_000;
        let (place, gen) = loop {
            if let Some(p) = sched::adopt() {
                break p;
            }
            if patience == 0 {
                return libc::EAGAIN;
            }
            patience -= 1;
            sched::sleep(20_000);
        };
        let b = Box::into_raw(Box::new(Begin { place, start, arg }));
        let r = real(thread, attr, begin, b.cast());
        if r == 0 {
            STARTED.retain(|s| s.0 != *thread);
            STARTED.push((*thread, place, gen));
        } else {
            drop(Box::from_raw(b));
            sched::disown(place);
        }
        r
    })
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_join(thread: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    quiet(|| {
        let real: Join =
            std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
        if in_task() {
            if let Some(i) = STARTED.iter().position(|s| s.0 == thread) {
                let (_, place, gen) = STARTED.swap_remove(i);
                sched::wait_for(place, gen);
            }
        }
        real(thread, out)
    })
}

// --- library calls ----------------------------------------------------------------

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub steps: u64,
    pub peak: u64,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = T.with(|t| t.active.replace(false));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or("?"), l.line()))
            .unwrap_or_default();
        let text = format!("{msg} at {at}");
        if std::env::var_os("ASIM_TRACE").is_some() {
            eprintln!("panic: {text}");
        }
        if !was {
            // not inside a simulated library call
            let in_library = info.location().map(|l| l.file().contains("repo/src/")).unwrap_or(false);
            if in_library {
                crate::report::violation(
                    crate::report::slot().ctx.load(Ordering::Relaxed) | crate::report::p(5),
                    "panic",
                    &format!("{text} (while listing what was loaded)"),
                );
            }
            eprintln!("simulator panic: {text}");
            unsafe { libc::_exit(if in_library { crate::report::EXIT_CUT } else { 99 }) };
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
        drop((msg, at));
        T.with(|t| t.active.set(was));
    }));
}

/// Runs the caller's code inside of a library call (a predicate); calls which
/// that makes are calls of their own.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    T.with(|t| {
        let (start, limit) = (t.steps.get(), t.limit.get());
        let (live, peak, total, mem) = (t.live.get(), t.peak.get(), t.total.get(), t.mem_limit.get());
        t.active.set(false);
        t.limit.set(u64::MAX);
        let r = f();
        t.limit.set(limit.saturating_add(t.steps.get() - start));
        t.live.set(live);
        t.peak.set(peak);
        t.total.set(total);
        t.mem_limit.set(mem);
        sched::arm();
        t.active.set(true);
        r
    })
}

/// Runs one library call under the seams. `Err` is the panic message.
pub fn lib_call<R>(
    steps: u64,
    mem: u64,
    f: impl FnOnce() -> R,
) -> (Result<R, String>, Cost) {
    T.with(|t| {
        let start = t.steps.get();
        t.limit.set(start.saturating_add(steps));
        t.live.set(0);
        t.peak.set(0);
        t.total.set(0);
        t.mem_limit.set(mem.min(i64::MAX as u64) as i64);
        sched::begin_call();
        sched::arm();
        t.active.set(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        t.active.set(false);
        t.limit.set(u64::MAX);
        sched::arm();
        let cost = Cost {
            steps: t.steps.get() - start,
            peak: t.peak.get().max(0) as u64,
        };
        let r = r.map_err(|p| {
            drop(p);
            LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into())
        });
        (r, cost)
    })
}
