//! Shared memory between the coordinating process, its workers and their runs.

use crate::seams::MAX_GUARDS;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

pub const WORKERS: usize = 16;
pub const MSG: usize = 3000;
pub const SETBITS: usize = 20;
pub const DECISIONS: usize = 200_000;

macro_rules! stats {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug)]
        pub enum S { $($name),*, COUNT }
        pub const STAT_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
stats! {
    runs, cut_short, sim_ns, edges, switches, preemptions, futex_waits, stalls,
    saves_started, saves_completed, saves_killed, editor_restarts, server_crashes,
    blocks_lost, blocks_kept, flushes, stale_size_after_crash,
    f_bit_flip, f_set_field, f_set_byte, f_zero_range, f_fill_pattern, f_swap_blocks,
    f_dup_block, f_stale_block, f_truncate, f_extend, f_insert, f_short_read,
    f_payload, f_length_field, f_predicate_panic, nested_calls, endured_calls, f_undersized_buffer, f_dirty_buffer,
    f_oversized_buffer, f_kill_save, f_lost_truncate, f_graft_chunk, f_drop_chunk, f_deep_nesting, f_made_up_chunk,
    loads, loads_ok, loads_err, loads_complete, loads_prefix, loads_tail,
    loads_payload_damaged, loads_other_damage, torn_reads, sweep_cuts, sweep_rot, scale_pairs, huge_loads, churn_cycles, churn_loads,
    decodes, decodes_ok, decodes_err, renders, renders_ok, renders_err, renders_nonblank,
    hashes, hash_frames, hash_pairs_equal, hash_values, selects, raw_reads, alone_checks,
    buffers_reused, hot_reloads, final_loads, nontrivial, checks, ignored_violations,
    skewed_loads, kept_selection_uses, max_load_steps_per_byte, max_load_mem_per_byte,
    panics_seen,
}

#[repr(C)]
pub struct Slot {
    pub state: AtomicU32,
    pub ctx: AtomicU32,
    pub run: AtomicU64,
    pub kind: [u8; 48],
    pub msg_len: AtomicU32,
    pub msg: [u8; MSG],
    pub item: AtomicU32,
    pub ndec: AtomicU32,
    pub log: AtomicU64,
    pub call_len: AtomicU32,
    pub call: [u8; 400],
    pub dec: [(u8, u32); DECISIONS],
}

#[repr(C)]
pub struct Shared {
    pub next: AtomicU64,
    pub stop: AtomicU32,
    pub stats: [AtomicU64; S::COUNT as usize],
    pub cov: [u8; MAX_GUARDS],
    pub interleavings: [AtomicU64; 1 << SETBITS],
    pub states: [AtomicU64; 1 << SETBITS],
    pub n_interleavings: AtomicU64,
    pub n_states: AtomicU64,
    pub slots: [Slot; WORKERS],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut WORKER: usize = 0;
/// Properties whose violation ends the run (bit per property number).
static mut ACCEPT: u32 = 0;

pub fn map_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p.cast();
        crate::seams::set_coverage(std::ptr::addr_of_mut!((*SHARED).cov).cast());
    }
}
pub fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}
pub fn set_worker(w: usize) {
    unsafe { WORKER = w };
}
static ITEM: AtomicU32 = AtomicU32::new(u32::MAX);
/// Number of the current item of a sweep.
pub fn set_item(i: u32) {
    ITEM.store(i, Relaxed);
}
pub fn set_accept(props: u32) {
    unsafe { ACCEPT = props };
}
pub fn accept() -> u32 {
    unsafe { ACCEPT }
}
pub fn slot() -> &'static mut Slot {
    unsafe { &mut (*SHARED).slots[WORKER] }
}
pub fn slot_of(w: usize) -> &'static mut Slot {
    unsafe { &mut (*SHARED).slots[w] }
}
pub fn add(s: S, n: u64) {
    let _ = shared().stats[s as usize].fetch_add(n, Relaxed);
}
pub fn max(s: S, n: u64) {
    let _ = shared().stats[s as usize].fetch_max(n, Relaxed);
}
pub fn stat(s: S) -> u64 {
    shared().stats[s as usize].load(Relaxed)
}

fn insert(set: &[AtomicU64], n: &AtomicU64, h: u64) -> bool {
    let h = h | 1;
    let mask = set.len() - 1;
    let mut i = (h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize & mask;
    for _ in 0..64 {
        match set[i].compare_exchange(0, h, Relaxed, Relaxed) {
            Ok(_) => {
                let _ = n.fetch_add(1, Relaxed);
                return true;
            }
            Err(v) if v == h => return false,
            Err(_) => i = (i + 1) & mask,
        }
    }
    false
}
pub fn note_interleaving(h: u64) {
    let _ = insert(&shared().interleavings, &shared().n_interleavings, h);
}
/// Returns whether the state is new.
pub fn note_state(h: u64) -> bool {
    insert(&shared().states, &shared().n_states, h)
}

/// Adds to the run's event log (kept as a hash).
pub fn log(h: u64) {
    let l = &slot().log;
    l.store(crate::prng::mix(&[l.load(Relaxed), h]), Relaxed);
}

/// Properties a crash of the current call would violate.
pub fn set_ctx(mask: u32) {
    slot().ctx.store(mask, Relaxed);
}

pub fn store(kind: &str, msg: &str) {
    let s = slot();
    s.item.store(ITEM.load(Relaxed), Relaxed);
    s.kind = [0; 48];
    let k = kind.as_bytes();
    s.kind[..k.len().min(48)].copy_from_slice(&k[..k.len().min(48)]);
    let mut n = msg.len().min(MSG);
    while !msg.is_char_boundary(n) {
        n -= 1;
    }
    s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    s.msg_len.store(n as u32, Relaxed);
}
pub fn read_slot(w: usize) -> (String, String) {
    let s = slot_of(w);
    let k = s.kind.iter().position(|b| *b == 0).unwrap_or(48);
    let n = s.msg_len.load(Relaxed) as usize;
    (
        String::from_utf8_lossy(&s.kind[..k]).into_owned(),
        String::from_utf8_lossy(&s.msg[..n]).into_owned(),
    )
}
/// Describes the call being made, for the case that it ends the process.
pub fn set_call(c: &str) {
    let s = slot();
    let n = c.len().min(s.call.len());
    s.call[..n].copy_from_slice(&c.as_bytes()[..n]);
    s.call_len.store(n as u32, Relaxed);
    s.item.store(ITEM.load(Relaxed), Relaxed);
}
pub fn read_call(w: usize) -> String {
    let s = slot_of(w);
    let n = s.call_len.load(Relaxed) as usize;
    String::from_utf8_lossy(&s.call[..n]).into_owned()
}
fn save_decisions() {
    if crate::sched::running() {
        let d = &crate::sched::sim().decisions;
        let s = slot();
        let n = d.len().min(DECISIONS);
        s.dec[..n].copy_from_slice(&d[..n]);
        s.ndec.store(n as u32, Relaxed);
    }
}

pub const EXIT_VIOLATION: i32 = 77;
pub const EXIT_CUT: i32 = 78;

fn leave(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}

pub const fn p(n: u32) -> u32 {
    1 << n
}

/// A property is violated. Returns only if none of `props` is being checked.
pub fn violation(props: u32, kind: &str, msg: &str) {
    if props & accept() != 0 {
        store(kind, msg);
        save_decisions();
        leave(EXIT_VIOLATION);
    }
    log(crate::prng::fnv(msg.as_bytes()));
    add(S::ignored_violations, 1);
    if std::env::var_os("ASIM_TRACE").is_some() {
        eprintln!("ignored violation: {kind}: {msg}");
    }
}

/// A violation after which the run cannot go on.
pub fn fatal(kind: &str, msg: &str) -> ! {
    let props = match kind {
        "step-bound" | "mem-bound" => p(11),
        "deadlock" => p(8),
        _ => 0,
    };
    if props & accept() != 0 {
        store(kind, msg);
        save_decisions();
        leave(EXIT_VIOLATION);
    }
    add(S::cut_short, 1);
    leave(EXIT_CUT);
}
