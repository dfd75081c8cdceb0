//! One simulated run: editors, storage, readers, and the checks of what the
//! readers see.

use crate::alone::{self, Call, Out, SelSpec};
use crate::blendref::*;
use crate::canon;
use crate::disk::*;
use crate::doc::Depth;
use crate::encode::hex;
use crate::oracle::*;
use crate::plan::*;
use crate::prng::{fnv, mix, Rng};
use crate::report::{self, add, max, p, violation, S};
use crate::sched;
use crate::seams::{self, Cost};
use aseprite_loader::binary::{chunk::Chunk, file::parse_file, raw_file::parse_raw_file};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;
use std::rc::Rc;
use std::sync::Arc;

const SLOTS: usize = 3;
/// Stands for C09's promise about calls after a failed one.
const RETRY: u32 = 1 << 31;
/// Library steps after which a run starts no further sweeps / no further calls.
const SWEEP_BUDGET: u64 = 6_000_000;
const CALL_BUDGET: u64 = 30_000_000;
/// Bigger targets are not decoded into.
const MAX_TARGET: usize = 32 << 20;

pub struct Sprite {
    file: ManuallyDrop<AsepriteFile<'static>>,
    bytes: ManuallyDrop<Vec<u8>>,
    class: Class,
    refs: Arc<RefSprite>,
    names: Arc<Vec<String>>,
    /// Library image number to the oracle's.
    map: Vec<Option<usize>>,
    key: u64,
    lines: Vec<String>,
    /// C12 when the writer's version is not the reader's.
    skew: u32,
}
impl Drop for Sprite {
    fn drop(&mut self) {
        unsafe {
            ManuallyDrop::drop(&mut self.file);
            let b = ManuallyDrop::take(&mut self.bytes);
            give_back(b);
        }
    }
}
// The library's types may stop being shareable through a change; whether sharing
// them is still sound is exactly what is tested here.
struct Shared(Arc<Sprite>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

pub struct World {
    pub store: Store,
    slots: Vec<Option<Shared>>,
    kept: Vec<Option<Vec<bool>>>,
    pool: Vec<Vec<u8>>,
    hashes: BTreeMap<(u64, usize), u64>,
    pub used: u64,
    alone_left: u32,
    seed: u64,
    profile: u32,
    many: bool,
    /// How often each reader has come to a meeting.
    met: Vec<u32>,
    /// Faults that have happened.
    fired: usize,
}

static mut WORLD: *mut World = std::ptr::null_mut();
/// Only the task holding the token may call this; no reference may be kept over
/// a library call or a wait.
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn give_back(b: Vec<u8>) {
    unsafe {
        if !WORLD.is_null() && (*WORLD).pool.len() < 6 {
            (*WORLD).pool.push(b);
        }
    }
}
/// A byte buffer, preferably one whose memory an earlier load has used.
fn take_buffer(n: usize) -> Vec<u8> {
    let pool = &mut w().pool;
    match pool.iter().rposition(|b| b.capacity() >= n) {
        Some(i) => {
            add(S::buffers_reused, 1);
            let mut b = pool.remove(i);
            b.clear();
            b
        }
        None => Vec::with_capacity(n),
    }
}

pub fn charge(c: Cost) {
    w().used += c.steps;
}

// --- bounds -----------------------------------------------------------------

/// What a load of these bytes may cost.
pub fn load_bound(b: &[u8]) -> (u64, u64) {
    let n = b.len() as u64;
    let count = |pat: [u8; 2]| b.windows(2).filter(|x| *x == pat).count() as u64;
    let table = count([0xFA, 0xF1]).min(n / 16) * count([0x04, 0x20]).min(n / 22);
    (
        200 * n + 150_000 + 60 * table,
        // vectors of counted items start at up to 64 KiB each
        160 * n + 768 * 1024 + 400 * table + 65_536 * (n / 6).min(70),
    )
}
fn cel_cost(w: usize, h: usize, px: usize, data: usize, compressed: bool) -> (u64, u64) {
    let claimed = (w * h) as u64;
    let d = data as u64;
    let can = if compressed { (d * 1040 + 64) / px as u64 + 1 } else { d / px as u64 + 1 };
    let n = claimed.min(can);
    // and something for each row
    (2500 * n + 500 * d + 30_000, 8 * n + 128 * n.min(h as u64) + 160 * 1024)
}
fn depth_px(s: &Sprite) -> usize {
    usize::from(canon::depth_code(s.file.file.header.color_depth) / 8).clamp(1, 4)
}
fn image_cost(s: &Sprite, i: usize) -> (u64, u64) {
    let im = &s.file.images[i];
    cel_cost(im.width.into(), im.height.into(), depth_px(s), im.data.len(), im.compressed)
}
fn render_cost(s: &Sprite, frame: usize, sel: &RefSel) -> (u64, u64) {
    let (mut steps, mut mem) = (200_000, 64 * 1024);
    let draws = |l: usize| {
        s.refs
            .layers
            .get(l)
            .map(|x| sel.draws(l, x))
            .unwrap_or(false)
    };
    let f = &s.file.frames()[frame];
    for c in &f.cels {
        steps += 200;
        if draws(c.layer_index) {
            let (a, b) = image_cost(s, c.image_index);
            steps += a;
            mem = mem.max(b);
        }
    }
    // cels kept decoded at the same time are tolerated
    (steps, mem + 64 * f.cels.len() as u64 + if f.cels.len() > 1 { mem * 3 } else { 0 })
}

// --- loading ----------------------------------------------------------------

fn oracle_of(v: usize) -> Rc<Oracle> {
    let ver = &mut w().store.versions[v];
    if ver.oracle.is_none() {
        ver.oracle = Some(Rc::new(oracle(ver)));
    }
    ver.oracle.clone().unwrap()
}

fn where_from(c: &Class, b: &[u8]) -> String {
    match c {
        Class::Complete(v) => format!("complete save #{v} ({} bytes)", b.len()),
        Class::Prefix(v) => format!(
            "the first {} of {} bytes of save #{v}",
            b.len(),
            w().store.versions[*v].enc.bytes.len()
        ),
        Class::Tail(v) => format!(
            "save #{v} ({} bytes) followed by {} left-over bytes",
            w().store.versions[*v].enc.bytes.len(),
            b.len() - w().store.versions[*v].enc.bytes.len()
        ),
        Class::Payload(v, k) => format!("save #{v} with damaged image data of image(s) {k:?}"),
        Class::Other => format!("damaged file of {} bytes", b.len()),
    }
}

fn split(lines: &[String], prefix: &str) -> Vec<String> {
    lines.iter().filter(|l| l.starts_with(prefix)).cloned().collect()
}
fn drop_open(lines: &[String]) -> Vec<String> {
    lines.iter().filter(|l| !l.starts_with('~')).cloned().collect()
}

/// Parses with the low-level parsers and compares with what was saved.
fn check_raw(bytes: &[u8], class: &Class) {
    let (steps, mem) = load_bound(bytes);
    add(S::raw_reads, 1);
    let skew = match class {
        Class::Complete(v) | Class::Payload(v, _) if oracle_of(*v).skew => p(12),
        _ => 0,
    };
    sched::set_call(format!("parse_raw_file of {}", where_from(class, bytes)));
    report::set_ctx(p(5) | p(13) | skew);
    let (r, c) = seams::lib_call(steps, mem, || {
        let r = parse_raw_file(bytes);
        // errors must be printable
        r.map_err(|e| e.to_string())
    });
    charge(c);
    report::set_ctx(p(5));
    match (&r, class) {
        (Err(msg), _) => violation(
            p(5) | p(13) | skew,
            "panic",
            &format!("parse_raw_file panicked on {}: {msg}", where_from(class, bytes)),
        ),
        (Ok(Err(e)), Class::Complete(_)) => violation(
            p(13) | skew,
            "raw-error",
            &format!("parse_raw_file failed on {}: {}", where_from(class, bytes), clip(e)),
        ),
        (Ok(Ok(f)), Class::Complete(v)) => {
            let o = oracle_of(*v);
            let (want, got) = if w().store.versions[*v].opts.trailing {
                (drop_open(&o.raw), drop_open(&canon::raw_lines(f)))
            } else {
                (o.raw.clone(), canon::raw_lines(f))
            };
            add(S::checks, 1);
            let mut d = canon::diff(&want, &got);
            let depth = w().store.versions[*v].doc.depth;
            let c = f.header.color_depth;
            if (c.bpp(), c.pixel_size()) != (depth.bpp(), Some(depth.px())) {
                d = Some(format!("colour depth {depth:?} of {} bits and {:?} bytes", c.bpp(), c.pixel_size()));
            }
            for (i, frame) in f.frames.iter().enumerate() {
                let all = frame.chunks.iter().filter_map(|c| match c {
                    Chunk::Cel(c) => Some(std::ptr::from_ref(c)),
                    _ => None,
                });
                if !frame.cels().map(std::ptr::from_ref).eq(all) {
                    d = Some(format!("cels() of frame {i} are not the cels of the frame"));
                }
            }
            if let Some(d) = d {
                violation(
                    p(13) | skew,
                    "raw-mismatch",
                    &format!("parse_raw_file of {}: {d}", where_from(class, bytes)),
                );
            }
        }
        (Ok(Ok(_)), Class::Prefix(_) | Class::Tail(_)) => violation(
            p(4),
            "accepted",
            &format!("parse_raw_file accepted {}", where_from(class, bytes)),
        ),
        _ => {}
    }
    drop(r);
    sched::set_call(format!("parse_file of {}", where_from(class, bytes)));
    report::set_ctx(p(5) | p(13) | skew);
    let (r, c) = seams::lib_call(steps, mem, || parse_file(bytes).map_err(|e| e.to_string()));
    charge(c);
    report::set_ctx(p(5));
    match (&r, class) {
        (Err(msg), _) => violation(
            p(5) | p(13) | skew,
            "panic",
            &format!("parse_file panicked on {}: {msg}", where_from(class, bytes)),
        ),
        (Ok(Err(e)), Class::Complete(_)) => violation(
            p(13) | p(1) | skew,
            "file-error",
            &format!("parse_file failed on {}: {}", where_from(class, bytes), clip(e)),
        ),
        (Ok(Ok(f)), Class::Complete(v) | Class::Payload(v, _)) => {
            check_file_lines(&canon::file_lines(f), *v, class, bytes);
        }
        (Ok(Ok(_)), Class::Prefix(_) | Class::Tail(_)) => violation(
            p(4),
            "accepted",
            &format!("parse_file accepted {}", where_from(class, bytes)),
        ),
        _ => {}
    }
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

fn check_file_lines(got: &[String], v: usize, class: &Class, bytes: &[u8]) {
    let o = oracle_of(v);
    add(S::checks, 1);
    let skew = if o.skew { p(12) } else { 0 };
    let payload = if matches!(class, Class::Payload(..)) { p(7) } else { 0 };
    if let Some(d) = canon::diff(&o.file, got) {
        // what is wrong decides which guarantees are broken
        let (u, f) = (
            canon::diff(&split(&o.file, "U"), &split(got, "U")),
            canon::diff(&split(&o.file, "F"), &split(got, "F")),
        );
        let pal = canon::diff(&split(&o.file, "F palette"), &split(got, "F palette"));
        let mut m = skew | payload;
        if payload != 0 {
            let whole = w().store.versions[v].enc.bytes.clone();
            if parse_file(&whole).map(|f| canon::file_lines(&f) == got).unwrap_or(false) {
                m &= !payload;
            }
        }
        if u.is_some() {
            m |= p(1) | p(13);
        }
        if f.is_some() {
            m |= p(13);
        }
        if pal.is_some() {
            m |= p(1) | p(2);
        }
        violation(m, "file-mismatch", &format!("parsed file of {}: {d}", where_from(class, bytes)));
    }
}

/// Loads bytes and checks the outcome.
fn load(bytes: Vec<u8>) -> Option<Arc<Sprite>> {
    let class = classify(&w().store, &bytes);
    load_as(bytes, class)
}

fn load_as(bytes: Vec<u8>, class: Class) -> Option<Arc<Sprite>> {
    let data: &'static [u8] = unsafe { std::slice::from_raw_parts(bytes.as_ptr(), bytes.len()) };
    let (steps, mem) = load_bound(data);
    add(S::loads, 1);
    let (o, v) = match &class {
        Class::Complete(v) | Class::Payload(v, _) => (Some(oracle_of(*v)), *v),
        _ => (None, 0),
    };
    let skew = if o.as_ref().map(|o| o.skew).unwrap_or(false) {
        add(S::skewed_loads, 1);
        p(12)
    } else {
        0
    };
    let whole = p(1) | p(2) | p(3) | p(10) | p(14);
    let ctx = skew
        | p(5)
        | match &class {
            Class::Complete(_) => {
                add(S::loads_complete, 1);
                whole
            }
            Class::Prefix(_) => {
                add(S::loads_prefix, 1);
                p(4)
            }
            Class::Tail(_) => {
                add(S::loads_tail, 1);
                p(4)
            }
            Class::Payload(..) => {
                add(S::loads_payload_damaged, 1);
                p(7)
            }
            Class::Other => {
                add(S::loads_other_damage, 1);
                0
            }
        };
    sched::set_call(format!("load of {}", where_from(&class, data)));
    report::set_ctx(ctx);
    let (r, c) = seams::lib_call(steps, mem, || {
        AsepriteFile::load(data).map_err(|e| e.to_string())
    });
    report::set_ctx(p(5));
    charge(c);
    if data.len() > 2000 {
        max(S::max_load_steps_per_byte, c.steps / data.len() as u64);
        max(S::max_load_mem_per_byte, c.peak / data.len() as u64);
    }
    let key = mix(&[fnv(data), data.len() as u64]);
    report::log(mix(&[key, class.code(), matches!(r, Ok(Ok(_))).into(), c.steps]));
    let file = match r {
        Err(msg) => {
            add(S::panics_seen, 1);
            violation(
                ctx,
                "panic",
                &format!("loading {} panicked: {msg}", where_from(&class, data)),
            );
            give_back(bytes);
            return None;
        }
        Ok(Err(e)) => {
            add(S::loads_err, 1);
            if report::note_state(mix(&[key, 1])) {
                add(S::nontrivial, 1);
            }
            match &class {
                Class::Complete(_) if o.as_ref().unwrap().loadable => violation(
                    whole | skew,
                    "load-error",
                    &format!("loading {} failed: {}", where_from(&class, data), clip(&e)),
                ),
                Class::Payload(..) if o.as_ref().unwrap().loadable => violation(
                    p(7) | skew,
                    "load-error",
                    &format!("loading {} failed: {}", where_from(&class, data), clip(&e)),
                ),
                _ => {}
            }
            give_back(bytes);
            return None;
        }
        Ok(Ok(f)) => f,
    };
    add(S::loads_ok, 1);
    if report::note_state(mix(&[key, 2])) {
        add(S::nontrivial, 1);
    }
    let l = canon::loader_lines(&file);
    let f = canon::file_lines(&file.file);
    let mut refs = None;
    match &class {
        Class::Prefix(_) | Class::Tail(_) => violation(
            p(4),
            "accepted",
            &format!(
                "loading {} succeeded with {} frames",
                where_from(&class, data),
                file.frames().len()
            ),
        ),
        Class::Complete(_) | Class::Payload(..) => {
            let o = o.as_ref().unwrap();
            add(S::checks, 1);
            let mismatch = canon::diff(&o.loader, &l);
            let mut payload = if matches!(class, Class::Payload(..)) { p(7) } else { p(1) };
            if payload == p(7) && mismatch.is_some() {
                let whole = w().store.versions[v].enc.bytes.clone();
                if AsepriteFile::load(&whole).map(|f| canon::loader_lines(&f) == l).unwrap_or(false) {
                    payload = 0;
                }
            }
            match mismatch {
                Some(d) if !o.either || !d.contains("unresolved") => {
                    violation(
                        payload | skew,
                        "load-mismatch",
                        &format!("loading {}: {d}", where_from(&class, data)),
                    );
                    // what else follows from the mistake can still be judged if
                    // it is clear what stands for what
                    let m = &o.sprite;
                    let (w, h) = file.size();
                    let alike = (m.w, m.h) == (w.into(), h.into())
                        && m.layers.len() == file.layers().len()
                        && m.frames.len() == file.frames().len()
                        && m.frames.iter().zip(file.frames()).all(|(a, b)| a.len() == b.cels.len());
                    if alike && !o.either {
                        refs = Some(o.clone());
                    }
                }
                None => {
                    check_file_lines(&f, v, &class, data);
                    refs = Some(o.clone());
                }
                _ => {}
            }
        }
        Class::Other => {}
    }
    let (refs, names, map) = match (&refs, &class) {
        (Some(o), c) => {
            let s = match c {
                Class::Payload(_, hit) => {
                    Arc::new(payload_sprite(o, &w().store.versions[v], hit, data))
                }
                _ => o.sprite.clone(),
            };
            let mut map = vec![None; file.image_count()];
            for (a, b) in file.frames().iter().zip(&s.frames) {
                for (x, y) in a.cels.iter().zip(b) {
                    map[x.image_index] = Some(y.image);
                }
            }
            (s, o.names.clone(), map)
        }
        _ => {
            let (s, n) = reported_sprite(&file);
            let map = (0..file.image_count()).map(Some).collect();
            (Arc::new(s), Arc::new(n), map)
        }
    };
    let mut lines = l;
    lines.extend(f);
    Some(Arc::new(Sprite {
        file: ManuallyDrop::new(file),
        bytes: ManuallyDrop::new(bytes),
        class,
        refs,
        names,
        map,
        key,
        lines,
        skew,
    }))
}

// --- calls ------------------------------------------------------------------

fn fill(buf: &mut [u8], seed: u64) {
    let mut r = Rng::new(seed ^ 0x6275_6666);
    match r.below(5) {
        0 => buf.fill(0),
        1 => buf.fill(255),
        2 => {
            // opaque and transparent pixels
            for p in buf.chunks_mut(4) {
                let v = r.next().to_le_bytes();
                p.copy_from_slice(&v[..p.len()]);
                if p.len() == 4 {
                    p[3] = [0, 255, 128, v[5]][usize::from(v[6] & 3)];
                }
            }
        }
        _ => {
            for b in buf.iter_mut() {
                *b = r.byte();
            }
        }
    }
}

#[derive(Default)]
struct TaskState {
    scratch: Vec<u8>,
}

/// Shapes a buffer for a call that needs `need` bytes.
fn buffer(st: &mut TaskState, b: Buf, need: usize) -> (Vec<u8>, bool) {
    let (n, seed) = match b {
        Buf::Exact(s) => (need, s),
        Buf::Reused => {
            let mut v = std::mem::take(&mut st.scratch);
            v.resize(need, 0xA5);
            add(S::f_dirty_buffer, 1);
            return (v, true);
        }
        Buf::Over(k, s) => {
            add(S::f_oversized_buffer, 1);
            (need + usize::from(k), s)
        }
        Buf::Under(k, s) => {
            if need > 0 {
                add(S::f_undersized_buffer, 1);
            }
            (need.saturating_sub(k.max(1) as usize), s)
        }
        Buf::Empty => (0, 0),
    };
    let mut v = vec![0u8; n];
    fill(&mut v, seed);
    (v, false)
}

fn ref_sel(s: &Sprite, sel: &SelSpec) -> RefSel {
    match sel {
        SelSpec::Visible => RefSel::Visible,
        SelSpec::All => RefSel::All,
        SelSpec::Mask(m) => RefSel::Mask(m.clone()),
        SelSpec::Pred(seed) => RefSel::Mask(
            s.names
                .iter()
                .zip(&s.refs.layers)
                .map(|(n, l)| alone::predicate(*seed, n, l.opacity, l.visible, l.group))
                .collect(),
        ),
        SelSpec::Names(v) => RefSel::Mask(s.names.iter().map(|n| v.contains(n)).collect()),
    }
}

/// A name that differs from `n` in one respect only: a character somewhere, its
/// length, its case, white space around it.
fn near_miss(r: &mut Rng, n: &str) -> String {
    let mut c: Vec<char> = n.chars().collect();
    if c.is_empty() {
        return r.pick(&[" ", "\0", "*", "?"]).to_string();
    }
    let last = c.len() - 1;
    match r.below(9) {
        k @ 0..=3 => {
            let at = match k {
                0 => last,
                1 => 0,
                2 => last / 2,
                _ => r.us(c.len()),
            };
            c[at] = if c[at] == '~' { '!' } else { '~' };
        }
        4 => {
            c.pop();
        }
        5 => {
            c.remove(0);
        }
        6 => c.push(*r.pick(&[' ', '\0', '~', '1'])),
        7 => c.insert(0, ' '),
        _ => {
            for x in &mut c {
                if x.is_ascii_alphabetic() {
                    *x = char::from(*x as u8 ^ 32);
                }
            }
        }
    }
    c.into_iter().collect()
}

fn spec(s: &Sprite, sel: Sel) -> SelSpec {
    match sel {
        Sel::Visible => SelSpec::Visible,
        Sel::All => SelSpec::All,
        Sel::Pred(x) => SelSpec::Pred(x),
        Sel::Names(seed) => {
            let mut r = Rng::new(seed);
            let mut v = vec![];
            for n in s.names.iter() {
                if r.chance(1, 2) {
                    v.push(n.clone());
                } else if r.chance(1, 2) && v.len() < 64 {
                    v.push(near_miss(&mut r, n));
                }
            }
            if r.chance(1, 3) {
                v.push("no such layer".into());
            }
            if r.chance(1, 8) {
                v.reverse();
            }
            SelSpec::Names(v)
        }
        Sel::Kept(k) => match &w().kept[usize::from(k) % 4] {
            Some(m) => {
                add(S::kept_selection_uses, 1);
                SelSpec::Mask(m.clone())
            }
            None => SelSpec::All,
        },
        Sel::Mask(n, seed) => {
            let mut r = Rng::new(seed);
            SelSpec::Mask((0..n).map(|_| r.chance(1, 2)).collect())
        }
    }
}

fn about(s: &Sprite, call: &Call) -> String {
    let c = match call {
        Call::Render { frame, sel } => format!("render_frame({frame}, {sel:?})"),
        Call::Decode { image } => format!("load_image({image})"),
        Call::Hash { frame } => format!("combined_frame_image({frame})"),
        Call::Select { sel } => format!("select({sel:?})"),
        Call::Lines => "listing".into(),
    };
    let c: String = c.chars().take(160).collect();
    format!("{c} on {}", where_from(&s.class, &s.bytes))
}

/// Whether the outcome differs from that of the same call made alone. Costly, so
/// limited per run unless something is known to be wrong already.
fn differs_alone(s: &Sprite, call: &Call, before: &[u8], got: &str, force: bool) -> Option<String> {
    if !alone::running() || (!force && w().alone_left == 0) {
        return None;
    }
    if !force {
        w().alone_left -= 1;
    }
    add(S::alone_checks, 1);
    let seed = mix(&[w().seed, w().used, 0x616c]);
    let a = alone::ask(seed, call, &s.bytes, before)?;
    (a != got).then_some(a)
}

/// Reports a violation of `props`, and of C08/C10 when the call behaves properly
/// if made alone.
fn blame(s: &Sprite, call: &Call, before: &[u8], got: &str, props: u32, kind: &str, msg: &str) {
    let accept = report::accept();
    let mut props = props;
    if props & accept & p(7) != 0 {
        // is it wrong because of the damage?
        if let Class::Payload(v, _) = s.class {
            let whole = w().store.versions[v].enc.bytes.clone();
            if fresh(s, &whole, call, before) == got {
                props &= !p(7);
            }
        }
    }
    if props & accept & RETRY != 0 && fresh(s, &s.bytes.to_vec(), call, before) == got {
        props &= !RETRY;
    }
    if props & RETRY != 0 {
        props = props & !RETRY | p(9);
    }
    let mut m = props | s.skew;
    let mut text = format!("{}: {msg}", about(s, call));
    if accept & p(8) != 0 && accept & m == 0 {
        if let Some(a) = differs_alone(s, call, before, got, true) {
            m |= p(8);
            text += &format!("; made alone it gives {a}");
        }
    }
    violation(m, kind, &text);
}

/// What the call gives on a fresh load of these bytes.
fn fresh(s: &Sprite, bytes: &[u8], call: &Call, before: &[u8]) -> String {
    if alone::running() {
        if let Some(a) = alone::ask(mix(&[w().seed, 0x6672]), call, bytes, before) {
            return a;
        }
    }
    let mut buf = before.to_vec();
    let (steps, mem) = (1 << 33, 1 << 30);
    let _ = s;
    let (r, _) = seams::lib_call(steps, mem, || AsepriteFile::load(bytes));
    match r {
        Ok(Ok(f)) => {
            let (o, _) = alone::exec(&f, call, &mut buf, steps, mem);
            o.show(&buf)
        }
        _ => "load error".into(),
    }
}

fn hash_call(c: &Call) -> u64 {
    fnv(serde_json::to_string(c).unwrap_or_default().as_bytes())
}

/// Makes a call into `buf` and checks everything about it.
fn make(st: &mut TaskState, s: &Arc<Sprite>, call: &Call, shape: Buf, after_failure: bool) -> Out {
    let retry = if !after_failure {
        0
    } else if report::accept() & p(9) != 0 {
        RETRY
    } else {
        p(9)
    };
    let payload = if matches!(s.class, Class::Payload(..)) { p(7) } else { 0 };
    let (need, bounds, op_props) = match call {
        Call::Render { frame, sel } => {
            add(S::renders, 1);
            (
                s.refs.w * s.refs.h * 4,
                render_cost(s, *frame, &ref_sel(s, sel)),
                p(3) | if matches!(sel, SelSpec::Visible) { 0 } else { p(14) },
            )
        }
        Call::Hash { frame } => {
            add(S::hashes, 1);
            (s.refs.w * s.refs.h * 4, render_cost(s, *frame, &RefSel::Visible), p(10))
        }
        Call::Decode { image } => {
            add(S::decodes, 1);
            let im = &s.file.images[*image];
            (
                usize::from(im.width) * usize::from(im.height) * 4,
                image_cost(s, *image),
                p(2) | p(6),
            )
        }
        Call::Select { .. } => {
            add(S::selects, 1);
            (0, (300_000 + 3000 * s.names.len() as u64, 1 << 20), p(14))
        }
        Call::Lines => (0, (u64::MAX, u64::MAX), p(8)),
    };
    let too_big = need > MAX_TARGET;
    let shape = match (too_big, call) {
        (true, Call::Select { .. } | Call::Lines) => shape,
        (true, _) if w().used % 3 == 0 => Buf::Empty,
        (true, _) => Buf::Exact(0),
        _ => shape,
    };
    let (mut buf, dirty) = if too_big && !matches!(shape, Buf::Empty) {
        // only the too-small side of the contract
        (vec![0x5A; 1000.min(need - 1)], false)
    } else {
        buffer(st, shape, need)
    };
    let mut bounds = bounds;
    if matches!(call, Call::Render { .. } | Call::Hash { .. }) && buf.len() >= need {
        // a copy or a walk over a canvas the caller has memory for
        bounds.0 += 16 * need as u64;
        bounds.1 += 8 * need as u64 + 128 * s.refs.h as u64;
    }
    let before = buf.clone();
    report::set_ctx(p(5) | op_props | retry & !RETRY | payload | s.skew);
    sched::set_call(about(s, call));
    let (out, c) = alone::exec(&s.file, call, &mut buf, bounds.0, bounds.1);
    report::set_ctx(p(5));
    charge(c);
    add(S::checks, 1);
    let got = out.show(&buf);
    report::log(mix(&[fnv(got.as_bytes()), c.steps]));
    if report::note_state(mix(&[s.key, hash_call(call), fnv(got.as_bytes())])) {
        add(S::nontrivial, 1);
    }
    let fail = |props: u32, kind: &str, msg: &str| {
        blame(s, call, &before, &got, props | retry, kind, msg);
    };
    if let Out::Panic(m) = &out {
        add(S::panics_seen, 1);
        // what the call should have done decides which guarantees are broken
        let known = s.class != Class::Other;
        let props = match call {
            Call::Decode { image } => match s.map[*image].map(|i| &s.refs.images[i]) {
                Some(i) if i.rgba.is_none() => p(6),
                Some(i) if known && !i.may_fail => p(2) | payload,
                _ => 0,
            },
            Call::Render { frame, .. } | Call::Hash { frame } => {
                let sel = match call {
                    Call::Render { sel, .. } => ref_sel(s, sel),
                    _ => RefSel::Visible,
                };
                let mut px = vec![0; need.min(MAX_TARGET)];
                let mut touched = vec![false; px.len() / 4];
                if too_big {
                    0
                } else {
                    match s.refs.render(*frame, &sel, &mut px, &mut touched) {
                        Verdict::Err => p(6),
                        Verdict::Ok if known => op_props | p(3) | payload,
                        _ => 0,
                    }
                }
            }
            _ => op_props,
        };
        fail(p(5) | props, "panic", &format!("panicked: {m}"));
        return out;
    }
    // the same call, alone in another process
    if let Some(a) = differs_alone(s, call, &before, &got, false) {
        let hash = if matches!(call, Call::Hash { .. }) { p(10) } else { 0 };
        fail(
            p(8) | hash,
            "differs-alone",
            &format!("gives {got}, but made alone in a fresh process {a}"),
        );
    }
    // selection
    if let Call::Select { sel } = call {
        let want = match ref_sel(s, sel) {
            RefSel::Visible => LayerSelection::Visible,
            RefSel::All => LayerSelection::All,
            RefSel::Mask(m) => LayerSelection::Mask(m),
        };
        if out != Out::Mask(want.clone()) {
            fail(p(14), "selection", &format!("selected {out:?}, expected {want:?}"));
        }
        return out;
    }
    if matches!(call, Call::Lines) {
        return out;
    }
    // size contract
    let small = buf.len() < need;
    if small != (out == Out::TooSmall) {
        fail(
            p(9),
            "size-contract",
            &format!("buffer of {} bytes, {need} needed: {}", buf.len(), got),
        );
    }
    if small {
        if buf != before {
            let n = buf.iter().zip(&before).position(|(a, b)| a != b).unwrap();
            fail(p(9), "touched", &format!("too small a buffer was changed at byte {n}"));
        }
        return out;
    }
    if buf[need..] != before[need..] {
        fail(
            p(9),
            "touched",
            &format!("bytes beyond the needed {need} of {} were changed", buf.len()),
        );
    }
    match call {
        Call::Decode { image } => {
            let Some(i) = s.map[*image] else { return out };
            let want = &s.refs.images[i];
            let damaged = s.class == Class::Other || want.may_fail;
            match (&out, &want.rgba) {
                (Out::Ok(_), None) => {
                    add(S::decodes_ok, 1);
                    fail(
                        p(6),
                        "undecodable-shown",
                        "succeeded although the stored image data is not intact",
                    )
                }
                (Out::Ok(_), Some(px)) => {
                    add(S::decodes_ok, 1);
                    if buf[..need] != px[..] {
                        let n = buf.iter().zip(px).position(|(a, b)| a != b).unwrap();
                        let mut m = p(2);
                        if damaged {
                            m = p(6);
                        } else if payload != 0 {
                            m = p(7) | p(6);
                        }
                        if buf[n] == before[n] {
                            // previous contents show through
                            m |= p(6);
                        }
                        fail(
                            m | if dirty { p(2) } else { 0 },
                            "pixels",
                            &format!(
                                "pixel {} of {}x{} is {} instead of {} (buffer held {})",
                                n / 4,
                                want.w,
                                want.h,
                                hex(&buf[n / 4 * 4..n / 4 * 4 + 4]),
                                hex(&px[n / 4 * 4..n / 4 * 4 + 4]),
                                hex(&before[n / 4 * 4..n / 4 * 4 + 4]),
                            ),
                        );
                    }
                }
                (Out::Err(_), _) => {
                    add(S::decodes_err, 1);
                    if !damaged {
                        fail(
                            if payload != 0 { p(7) } else { p(2) },
                            "decode-error",
                            &format!("intact image: {got}"),
                        );
                    }
                }
                _ => {}
            }
        }
        Call::Render { .. } | Call::Hash { .. } => {
            let (frame, sel) = match call {
                Call::Render { frame, sel } => (*frame, ref_sel(s, sel)),
                Call::Hash { frame } => (*frame, RefSel::Visible),
                _ => unreachable!(),
            };
            let mut want = before[..need].to_vec();
            let mut touched = vec![false; need / 4];
            let verdict = s.refs.render(frame, &sel, &mut want, &mut touched);
            let contained = if payload != 0 && matches!(verdict, Verdict::Ok) { p(7) } else { 0 };
            if let Some(n) = (0..need / 4).find(|n| {
                !touched[*n] && buf[n * 4..n * 4 + 4] != before[n * 4..n * 4 + 4]
            }) {
                fail(
                    p(9) | p(3) | contained | op_props,
                    "touched",
                    &format!(
                        "canvas pixel {},{} lies under no drawn cel but changed from {} to {}",
                        n % s.refs.w,
                        n / s.refs.w,
                        hex(&before[n * 4..n * 4 + 4]),
                        hex(&buf[n * 4..n * 4 + 4])
                    ),
                );
            }
            match (&out, verdict) {
                (Out::Ok(_), Verdict::Err) => {
                    add(S::renders_ok, 1);
                    fail(
                        p(6),
                        "undecodable-shown",
                        "succeeded although it draws an image whose stored data is not intact",
                    );
                }
                (Out::Ok(_), Verdict::Free) => add(S::renders_ok, 1),
                (Out::Ok(_), _) => {
                    add(S::renders_ok, 1);
                    if touched.iter().any(|t| *t) {
                        add(S::renders_nonblank, 1);
                    }
                    if buf[..need] != want[..] {
                        let n = buf.iter().zip(&want).position(|(a, b)| a != b).unwrap() / 4;
                        let mut props = p(3) | op_props | contained | p(14);
                        if let Call::Hash { frame } = call {
                            // the picture must be the one rendering gives
                            props &= !p(10);
                            let mut other = before.clone();
                            let r = Call::Render { frame: *frame, sel: SelSpec::Visible };
                            let (o, _) = alone::exec(&s.file, &r, &mut other, 1 << 33, 1 << 30);
                            if !matches!(o, Out::Ok(_)) || other != buf {
                                props |= p(10);
                            }
                        }
                        fail(
                            props,
                            "picture",
                            &format!(
                                "canvas pixel {},{} is {} instead of {} (buffer held {})",
                                n % s.refs.w,
                                n / s.refs.w,
                                hex(&buf[n * 4..n * 4 + 4]),
                                hex(&want[n * 4..n * 4 + 4]),
                                hex(&before[n * 4..n * 4 + 4])
                            ),
                        );
                    }
                }
                (Out::Err(_), v) => {
                    add(S::renders_err, 1);
                    if v == Verdict::Ok && s.class != Class::Other {
                        fail(
                            p(3) | op_props | contained,
                            "render-error",
                            &format!("draws only intact images: {got}"),
                        );
                    }
                }
                _ => {}
            }
            if let (Call::Hash { frame }, Out::Ok(h)) = (call, &out) {
                let k = (s.key, *frame);
                let old = *w().hashes.entry(k).or_insert(*h);
                if old != *h {
                    fail(
                        p(10) | p(8),
                        "hash-unstable",
                        &format!("hash {h:x}, but {old:x} in an earlier call on the same bytes"),
                    );
                }
            }
        }
        _ => {}
    }
    if buf.len() <= 1 << 20 {
        st.scratch = buf;
    }
    out
}

/// A call, and if its buffer was too small the same call again with a fitting one.
fn call(st: &mut TaskState, s: &Arc<Sprite>, c: &Call, shape: Buf) -> Out {
    if w().used > CALL_BUDGET {
        return Out::Err("budget".into());
    }
    let o = make(st, s, c, shape, false);
    if o == Out::TooSmall && w().used < CALL_BUDGET {
        let seed = w().used;
        return make(st, s, c, Buf::Exact(seed), true);
    }
    o
}

/// The signature of what a frame shows: images (by number), places, layers.
fn signature(s: &Sprite, f: usize) -> Vec<(usize, i32, i32, usize)> {
    s.refs.frames[f]
        .iter()
        .map(|c| (c.layer, c.x, c.y, c.image))
        .collect()
}
fn same_content(s: &Sprite, a: usize, b: usize) -> bool {
    let (x, y) = (&s.refs.frames[a], &s.refs.frames[b]);
    x.len() == y.len()
        && x.iter().zip(y).all(|(c, d)| {
            let (i, j) = (&s.refs.images[c.image], &s.refs.images[d.image]);
            (c.layer, c.x, c.y) == (d.layer, d.x, d.y) && i.w == j.w && i.h == j.h && i.rgba == j.rgba
        })
}

fn hash_all(st: &mut TaskState, s: &Arc<Sprite>) {
    let n = s.refs.frames.len();
    // of very many frames, those whose numbers resemble each other
    let some = |f: &usize| n < 1500 || f % 32768 < 500 || f % 256 == 7 || f + 200 > n;
    let mut seen: Vec<(usize, u64)> = Vec::new();
    for f in (0..n).filter(some) {
        if w().used > CALL_BUDGET {
            break;
        }
        if let Out::Ok(h) = call(st, s, &Call::Hash { frame: f }, Buf::Exact(f as u64)) {
            seen.push((f, h));
        }
    }
    if matches!(s.class, Class::Other) {
        return;
    }
    let mut by_hash: BTreeMap<u64, usize> = BTreeMap::new();
    let mut by_show: BTreeMap<Vec<(usize, i32, i32, usize)>, (usize, u64)> = BTreeMap::new();
    add(S::hash_frames, seen.len() as u64);
    for (b, y) in seen {
        let sig = signature(s, b);
        match by_show.get(&sig) {
            Some((a, x)) => {
                add(S::hash_pairs_equal, 1);
                if *x != y {
                    violation(
                        p(10) | s.skew,
                        "hash-differs",
                        &format!(
                            "frames {a} and {b} of {} show the same images at the same places but hash to {x:x} and {y:x}",
                            where_from(&s.class, &s.bytes)
                        ),
                    );
                }
            }
            None => {
                let _ = by_show.insert(sig, (b, y));
            }
        }
        match by_hash.get(&y) {
            Some(&a) if signature(s, a) != signature(s, b) && !same_content(s, a, b) => violation(
                p(10) | s.skew,
                "hash-collides",
                &format!(
                    "frames {a} and {b} of {} show different images or places but both hash to {y:x}",
                    where_from(&s.class, &s.bytes)
                ),
            ),
            Some(_) => {}
            None => {
                add(S::hash_values, 1);
                let _ = by_hash.insert(y, b);
            }
        }
    }
}

/// Nothing a loaded sprite reports may have changed.
fn unchanged(s: &Sprite) {
    let mut l = canon::loader_lines(&s.file);
    l.extend(canon::file_lines(&s.file.file));
    add(S::checks, 1);
    if let Some(d) = canon::diff(&s.lines, &l) {
        violation(
            p(8) | p(1),
            "report-changed",
            &format!("what the sprite reports changed after loading {}: {d}", where_from(&s.class, &s.bytes)),
        );
    }
}

fn op(st: &mut TaskState, s: &Arc<Sprite>, o: &Op) {
    let frames = s.refs.frames.len();
    let images = s.file.image_count();
    match o {
        Op::Render { frame, sel, buf } => {
            if frames > 0 {
                let sel = spec(s, *sel);
                let _ = call(st, s, &Call::Render { frame: *frame as usize % frames, sel }, *buf);
            }
        }
        Op::Decode { image, buf } => {
            if images > 0 {
                let _ = call(st, s, &Call::Decode { image: *image as usize % images }, *buf);
            }
        }
        Op::Hash { frame, buf } => {
            if frames > 0 {
                let _ = call(st, s, &Call::Hash { frame: *frame as usize % frames }, *buf);
            }
        }
        Op::HashAll => hash_all(st, s),
        Op::Select { sel, keep } => {
            let sel = spec(s, *sel);
            if matches!(sel, SelSpec::Pred(_) | SelSpec::Names(_)) {
                if let Out::Mask(LayerSelection::Mask(m)) =
                    call(st, s, &Call::Select { sel }, Buf::Empty)
                {
                    w().kept[usize::from(*keep) % 4] = Some(m);
                }
            }
        }
        Op::SelectPanic { at } => {
            let n = std::cell::Cell::new(0usize);
            let at = usize::from(*at);
            report::set_ctx(p(5) | p(8) | p(14));
            sched::set_call("select_layers with a panicking predicate".into());
            let (r, c) = seams::lib_call(1_000_000, 1 << 20, || {
                s.file.select_layers(|_| {
                    n.set(n.get() + 1);
                    if n.get() == at + 1 {
                        panic!("predicate")
                    }
                    true
                })
            });
            charge(c);
            add(S::f_predicate_panic, 1);
            if r.is_ok() && at < s.refs.layers.len() {
                violation(p(8) | p(14), "panic-swallowed", "the predicate's panic did not reach the caller");
            }
        }
        Op::SelectNest { at, seed, inner } => {
            let n = std::cell::Cell::new(0usize);
            let at = usize::from(*at);
            let st = std::cell::RefCell::new(st);
            report::set_ctx(p(5) | p(8) | p(14));
            sched::set_call(format!("select_layers with a predicate that makes a call ({inner:?})"));
            let (r, c) = seams::lib_call(1_000_000 + 3000 * s.names.len() as u64, 1 << 20, || {
                s.file.select_layers(|l| {
                    seams::aside(|| {
                        n.set(n.get() + 1);
                        if n.get() == at + 1 {
                            op(*st.borrow_mut(), s, inner);
                        }
                        alone::predicate(*seed, &l.name, l.opacity, l.visible, l.layer_type == aseprite_loader::binary::chunks::layer::LayerType::Group)
                    })
                })
            });
            report::set_ctx(p(5));
            charge(c);
            add(S::nested_calls, 1);
            let want = match ref_sel(s, &SelSpec::Pred(*seed)) {
                RefSel::Mask(m) => m,
                _ => unreachable!(),
            };
            let text = match r {
                Ok(LayerSelection::Mask(m)) if m == want => return,
                Ok(m) => format!("selected {m:?} instead of {want:?}"),
                Err(e) => format!("panicked: {e}"),
            };
            violation(
                p(8) | p(14) | s.skew,
                "nested",
                &format!("select_layers with a predicate that makes a call on {}: {text}", where_from(&s.class, &s.bytes)),
            );
        }
        Op::Inspect => unchanged(s),
        Op::Raw => check_raw(&s.bytes.to_vec(), &s.class),
        Op::Again => {
            let mut b = take_buffer(s.bytes.len());
            b.extend_from_slice(&s.bytes);
            match load(b) {
                None => violation(
                    p(8) | p(1) | s.skew,
                    "again",
                    &format!("loading {} again failed", where_from(&s.class, &s.bytes)),
                ),
                Some(t) => {
                    if let Some(d) = canon::diff(&s.lines, &t.lines) {
                        violation(
                            p(8) | p(1) | s.skew,
                            "again",
                            &format!("loading {} again: {d}", where_from(&s.class, &s.bytes)),
                        );
                    }
                    if frames > 0 {
                        let f = (w().used % frames as u64) as usize;
                        let _ = call(st, &t, &Call::Hash { frame: f }, Buf::Exact(1));
                    }
                }
            }
        }
        Op::RenderAll { seed } => {
            let mut r = Rng::new(*seed);
            for f in 0..frames.min(30) {
                for sel in [SelSpec::Visible, SelSpec::All, SelSpec::Pred(r.next())] {
                    let sel = match sel {
                        SelSpec::Pred(x) => match ref_sel(s, &SelSpec::Pred(x)) {
                            RefSel::Mask(m) => SelSpec::Mask(m),
                            _ => SelSpec::All,
                        },
                        o => o,
                    };
                    let _ = call(st, s, &Call::Render { frame: f, sel }, Buf::Exact(r.next()));
                }
            }
        }
        Op::DecodeAll { seed } => {
            let mut r = Rng::new(*seed);
            for i in 0..images.min(60) {
                let b = match r.below(4) {
                    0 => Buf::Reused,
                    1 => Buf::Over(1 + r.below(64) as u16, r.next()),
                    _ => Buf::Exact(r.next()),
                };
                let _ = call(st, s, &Call::Decode { image: i }, b);
            }
        }
    }
}

/// Looks a sprite over as a user would: every image, frames, hashes, selections.
/// A few files loaded, used and dropped over and over: each use of one must give
/// what its first use did.
fn reload(s: &Sprite, r: &mut Rng, n: u32) {
    const STEPS: u64 = 25_000_000;
    let mut files: Vec<Vec<u8>> = vec![s.bytes.to_vec()];
    let v = &w().store.versions;
    for _ in 0..4 {
        let b = &v[r.us(v.len())].enc.bytes;
        if b.len() <= 4000 && files.len() < 4 && !files.contains(b) {
            files.push(b.clone());
        }
    }
    let mut first: Vec<BTreeMap<(u8, usize), (Out, Vec<u8>)>> = vec![BTreeMap::new(); files.len()];
    // many only load, to see whether they can
    let rare = *r.pick(&[1u64, 1, 8, 60]);
    let mut loads: Vec<Option<bool>> = vec![None; files.len()];
    let mut spent = 0;
    for i in 0..n {
        let k = r.us(files.len());
        let (steps, mem) = load_bound(&files[k]);
        let (f, c) = seams::lib_call(steps, mem, || AsepriteFile::load(&files[k]));
        spent += c.steps + 100;
        add(S::endured_calls, 1);
        let f = f.ok().and_then(Result::ok);
        let what = |i: u32| format!("file {k} of {} ({} bytes), loaded as number {}", files.len(), files[k].len(), i + 1);
        if *loads[k].get_or_insert(f.is_some()) != f.is_some() {
            let msg = format!("{}: loading it {} before", what(i), if f.is_some() { "failed" } else { "succeeded" });
            violation(p(8) | p(1), "differs-later", &msg);
            return;
        }
        let Some(f) = f else { continue };
        if !r.chance(1, rare) {
            continue;
        }
        let (cw, ch) = f.size();
        let canvas = usize::from(cw) * usize::from(ch) * 4;
        let (call, need) = match r.below(3) {
            0 if f.image_count() > 0 => {
                let image = r.us(f.image_count().min(3));
                let im = &f.images[image];
                (Call::Decode { image }, usize::from(im.width) * usize::from(im.height) * 4)
            }
            1 if !f.frames().is_empty() => {
                let frame = r.us(f.frames().len().min(3));
                (Call::Render { frame, sel: SelSpec::Visible }, canvas)
            }
            _ if !f.frames().is_empty() => (Call::Hash { frame: r.us(f.frames().len().min(3)) }, canvas),
            _ => continue,
        };
        if need > 4096 {
            continue;
        }
        let key = match call {
            Call::Decode { image } => (0, image),
            Call::Render { frame, .. } => (1, frame),
            Call::Hash { frame } => (2, frame),
            _ => (3, 0),
        };
        let mut buf = vec![0x33; need];
        let (out, c) = alone::exec(&f, &call, &mut buf, 60_000_000, 512 << 20);
        spent += c.steps;
        match first[k].get(&key) {
            None => {
                let _ = first[k].insert(key, (out, buf));
            }
            Some((o, b)) if o.show(b) != out.show(&buf) => {
                let props = p(8) | [p(2), p(3), p(10), 0][usize::from(key.0)];
                let msg = format!("{}: {call:?} gives {}, {} at first", what(i), out.show(&buf), o.show(b));
                violation(props, "differs-later", &msg);
                return;
            }
            _ => {}
        }
        if spent > STEPS {
            break;
        }
    }
    charge(Cost { steps: spent.min(1_000_000), peak: 0 });
    add(S::checks, 1);
    report::log(mix(&[spent, n.into()]));
}

/// The same few calls over and over: none may be answered differently for
/// coming late.
fn endure(st: &mut TaskState, s: &Arc<Sprite>, seed: u64, n: u32) {
    const STEPS: u64 = 25_000_000;
    let r = &mut Rng::new(seed);
    let n = if w().many { n.min(300) } else { n };
    let mut calls: Vec<(Call, usize)> = Vec::new();
    let mut images: Vec<(usize, usize)> = s
        .file
        .images
        .iter()
        .map(|i| usize::from(i.width) * usize::from(i.height) * 4)
        .enumerate()
        .map(|(i, n)| (n, i))
        .filter(|(n, _)| (1..=2048).contains(n))
        .collect();
    images.sort_unstable();
    for (need, image) in images.into_iter().take(3) {
        calls.push((Call::Decode { image }, need));
        calls.push((Call::Decode { image }, need - 1));
    }
    let need = s.refs.w * s.refs.h * 4;
    let frames = s.refs.frames.len();
    if frames > 0 && (1..=4096).contains(&need) {
        for _ in 0..2 {
            let frame = r.us(frames);
            let sel = spec(s, *r.pick(&[Sel::Visible, Sel::All, Sel::Mask(6, seed), Sel::Kept(0)]));
            calls.push((Call::Render { frame, sel: sel.clone() }, need));
            calls.push((Call::Render { frame, sel }, need - 1));
            calls.push((Call::Hash { frame }, need));
        }
    }
    if s.names.len() <= 64 {
        for sel in [Sel::Pred(seed), Sel::Names(seed)] {
            calls.push((Call::Select { sel: spec(s, sel) }, 0));
        }
    }
    if calls.is_empty() {
        return;
    }
    if r.chance(2, 3) {
        calls = vec![calls.swap_remove(r.us(calls.len()))];
    }
    // judged by the model once
    for (c, _) in &calls {
        let _ = call(st, s, c, Buf::Exact(seed));
    }
    if r.chance(1, 2) && s.bytes.len() <= 4000 {
        reload(s, r, n);
        return;
    }
    let lone = calls.len() == 1;
    let mut first: Vec<Option<(Out, Vec<u8>)>> = vec![None; calls.len()];
    let mut before: Vec<Vec<u8>> = Vec::new();
    for (_, n) in &calls {
        let mut b = vec![0; *n];
        fill(&mut b, seed);
        before.push(b);
    }
    let mut buf = Vec::new();
    let mut spent = 0;
    for i in 0..n {
        let k = if lone { 0 } else { r.us(calls.len()) };
        let (c, _) = &calls[k];
        buf.clear();
        buf.extend_from_slice(&before[k]);
        if i == 0 || !lone {
            sched::set_call(format!("{} for the {}. time", about(s, c), i + 1));
        }
        let (out, cost) = alone::exec(&s.file, c, &mut buf, 60_000_000, 512 << 20);
        spent += cost.steps + 20;
        add(S::endured_calls, 1);
        match &first[k] {
            None => first[k] = Some((out, buf.clone())),
            Some((o, b)) => {
                let judged = !matches!(out, Out::Err(_));
                if *o != out || judged && *b != buf {
                    let props = p(8)
                        | match c {
                            Call::Decode { .. } => p(2) | p(9),
                            Call::Render { .. } => p(3) | p(14) | p(9),
                            Call::Hash { .. } => p(10),
                            _ => p(14),
                        }
                        | if matches!(s.class, Class::Payload(..)) { p(7) } else { 0 };
                    let msg = format!(
                        "{}: gives {} when made for the {}. time, {} when made first",
                        about(s, c),
                        out.show(&buf),
                        i + 1,
                        o.show(b)
                    );
                    violation(props, "differs-later", &msg);
                    return;
                }
            }
        }
        if !lone && i % 16 == 0 {
            let _ = seams::lib_call(60_000_000, 512 << 20, || s.file.select_layers(|_| std::panic::panic_any(())));
        }
        if spent > STEPS {
            break;
        }
    }
    charge(Cost { steps: spent.min(1_000_000), peak: 0 });
    add(S::checks, 1);
    report::log(mix(&[spent, seed]));
}

fn look_over(st: &mut TaskState, s: &Arc<Sprite>, r: &mut Rng) {
    let (frames, images) = (s.refs.frames.len(), s.file.image_count());
    for i in 0..images.min(8) {
        let b = if r.chance(1, 3) { Buf::Reused } else { Buf::Exact(r.next()) };
        let _ = call(st, s, &Call::Decode { image: i }, b);
    }
    for f in 0..frames.min(4) {
        let sel = match r.below(3) {
            0 => SelSpec::Visible,
            1 => SelSpec::All,
            _ => SelSpec::Mask((0..s.refs.layers.len()).map(|_| r.chance(1, 2)).collect()),
        };
        let _ = call(st, s, &Call::Render { frame: f, sel }, Buf::Exact(r.next()));
    }
    if frames > 0 && r.chance(1, 2) {
        let f = r.us(frames);
        let _ = call(st, s, &Call::Hash { frame: f }, Buf::Exact(r.next()));
    }
    if r.chance(1, 4) {
        let _ = call(st, s, &Call::Select { sel: SelSpec::Pred(r.next()) }, Buf::Empty);
    }
    if r.chance(1, 4) {
        unchanged(s);
    }
}

// --- readers ----------------------------------------------------------------

/// Reads a file block by block; the writer may be at work meanwhile.
fn read_file(file: usize, block: u16, short: Option<u16>) -> Vec<u8> {
    let inode = w().store.disks[file].inode.clone();
    let size = inode.borrow().len();
    let want = match short {
        Some(k) => {
            add(S::f_short_read, 1);
            size * usize::from(k.min(999)) / 1000
        }
        None => size,
    };
    let block = usize::from(block.max(1)).max(want / 60 + 1);
    let mut b = take_buffer(want);
    loop {
        {
            let d = inode.borrow();
            let end = (b.len() + block).min(want).min(d.len());
            if b.len() >= end {
                break;
            }
            let at = b.len();
            b.extend_from_slice(&d[at..end]);
        }
        if b.len() < want {
            sched::sleep(3000);
        }
    }
    if inode.borrow().get(..b.len()) != Some(&b[..]) {
        add(S::torn_reads, 1);
    }
    b
}

fn sweep_item(i: u32) {
    report::set_item(i);
}

fn step(st: &mut TaskState, s: &RStep) {
    match s {
        RStep::Load { file, slot, block, short } => {
            let file = usize::from(*file) % w().store.files().max(1);
            let slot = usize::from(*slot) % SLOTS;
            let b = read_file(file, *block, *short);
            let class = classify(&w().store, &b);
            if matches!(w().profile, 1 | 4 | 12 | 13) || b.len() % 4 == 0 {
                check_raw(&b, &class);
            }
            if let Some(s) = load_as(b, class) {
                if w().slots[slot].replace(Shared(s)).is_some() {
                    add(S::hot_reloads, 1);
                }
            }
        }
        RStep::Op { slot, op: o } => {
            let s = w().slots[usize::from(*slot) % SLOTS].as_ref().map(|s| s.0.clone());
            if let Some(s) = s {
                op(st, &s, o);
            }
        }
        RStep::Drop { slot } => {
            let old = w().slots[usize::from(*slot) % SLOTS].take();
            if let Some(s) = &old {
                unchanged(&s.0);
            }
            drop(old);
        }
        RStep::Sleep { us } => sched::sleep(u64::from(*us) * 1000),
        RStep::Cuts { file, stride, only } => {
            let file = usize::from(*file) % w().store.files().max(1);
            let Some(v) = w().store.newest(file) else { return };
            let n = w().store.versions[v].enc.bytes.len();
            let stride = usize::from(*stride).max(1).max(n / 1200);
            let mut cuts: Vec<usize> = (0..n).step_by(stride).collect();
            for b in &w().store.versions[v].enc.bounds {
                for d in 0..7 {
                    cuts.push((b + d).saturating_sub(3));
                }
            }
            cuts.extend(n.saturating_sub(12)..n);
            for (i, c) in cuts.into_iter().enumerate() {
                if only.map(|o| o as usize != i).unwrap_or(false) || c >= n {
                    continue;
                }
                if w().used > SWEEP_BUDGET {
                    break;
                }
                sweep_item(i as u32);
                let mut b = take_buffer(c);
                b.extend_from_slice(&w().store.versions[v].enc.bytes[..c]);
                add(S::sweep_cuts, 1);
                let class = classify(&w().store, &b);
                if i % 16 == 0 {
                    check_raw(&b, &class);
                }
                let _ = load_as(b, class);
            }
            sweep_item(u32::MAX);
        }
        RStep::Tails { file, seed, count, only } => {
            let file = usize::from(*file) % w().store.files().max(1);
            let Some(v) = w().store.newest(file) else { return };
            for i in 0..u32::from(*count) {
                if only.map(|o| o != i).unwrap_or(false) {
                    continue;
                }
                if w().used > SWEEP_BUDGET {
                    break;
                }
                sweep_item(i);
                let r = &mut Rng::new(mix(&[*seed, i.into()]));
                let ver = &w().store.versions[v];
                let full = &ver.enc.bytes;
                let tail: Vec<u8> = match r.below(10) {
                    // an older, longer version
                    0..=2 => {
                        let olds: Vec<usize> = (0..w().store.versions.len())
                            .filter(|x| w().store.versions[*x].enc.bytes.len() > full.len())
                            .collect();
                        if olds.is_empty() {
                            vec![r.byte()]
                        } else {
                            w().store.versions[*r.pick(&olds)].enc.bytes[full.len()..].to_vec()
                        }
                    }
                    // the last frames again
                    3 => full[*r.pick(&ver.enc.frames)..].to_vec(),
                    // a complete other frame of any version
                    4 => {
                        let o = &w().store.versions[r.us(w().store.versions.len())].enc;
                        let k = r.us(o.frames.len());
                        let e = o.frames.get(k + 1).copied().unwrap_or(o.bytes.len());
                        o.bytes[o.frames[k]..e].to_vec()
                    }
                    5 => vec![0; r.logrange(1, 5000) as usize],
                    // filled up to the end of a block
                    8 => {
                        let to = *r.pick(&[2usize, 4, 8, 16, 128, 512, 1024, 4096]);
                        vec![*r.pick(&[0, 0, 0xFF]); to - full.len() % to]
                    }
                    9 => match r.below(3) {
                        0 => full.clone(),
                        1 => full[..(128 + r.us(20)).min(full.len())].to_vec(),
                        _ => vec![*r.pick(&[0, b'\n', 0x1A, b' ', 0xFF]); 1 + r.us(2)],
                    },
                    // an empty but well-formed frame
                    6 => vec![16, 0, 0, 0, 0xFA, 0xF1, 0, 0, 100, 0, 0, 0, 0, 0, 0, 0],
                    _ => (0..r.logrange(1, 60)).map(|_| r.byte()).collect(),
                };
                let mut b = take_buffer(full.len() + tail.len());
                b.extend_from_slice(full);
                b.extend_from_slice(&tail);
                add(S::f_extend, 1);
                let _ = load(b);
            }
            sweep_item(u32::MAX);
        }
        RStep::Rot { file, seed, count, only } | RStep::PayloadRot { file, seed, count, only } => {
            let payload = matches!(s, RStep::PayloadRot { .. });
            let file = usize::from(*file) % w().store.files().max(1);
            let Some(v) = w().store.newest(file) else { return };
            if payload && w().store.versions[v].enc.payloads.is_empty() {
                return;
            }
            for i in 0..u32::from(*count) {
                if only.map(|o| o != i).unwrap_or(false) {
                    continue;
                }
                if w().used > SWEEP_BUDGET {
                    break;
                }
                sweep_item(i);
                let r = &mut Rng::new(mix(&[*seed, i.into()]));
                let n = w().store.versions[v].enc.bytes.len();
                let mut b = take_buffer(n);
                b.extend_from_slice(&w().store.versions[v].enc.bytes);
                for _ in 0..1 + r.below(3) {
                    let f = if payload { gen_payload_fault(r) } else { gen_fault(r) };
                    damage(&mut b, &f, &w().store, v);
                }
                add(S::sweep_rot, 1);
                let class = classify(&w().store, &b);
                if i % 8 == 0 {
                    check_raw(&b, &class);
                }
                if let Some(s) = load_as(b, class) {
                    look_over(st, &s, r);
                }
            }
            sweep_item(u32::MAX);
        }
        RStep::Scale { shape, n, seed } => crate::scale::run(*shape, *n, *seed),
        RStep::Churn { file, seed, keep } => {
            let file = usize::from(*file) % w().store.files().max(1);
            if let Some(v) = w().store.newest(file) {
                crate::churn::run(v, *seed, *keep);
            }
        }
        RStep::Huge { shape, n, seed } => {
            add(S::huge_loads, 1);
            let (doc, opts) = crate::scale::huge(*shape, *n, *seed);
            let v = w().store.put(doc, opts);
            let mut b = w().store.versions[v].enc.bytes.clone();
            let mut class = Class::Complete(v);
            if matches!(w().profile, 6 | 7) {
                let r = &mut Rng::new(seed ^ 0x6461);
                let enc = &w().store.versions[v].enc;
                if r.chance(1, 2) {
                    damage(&mut b, &gen_payload_fault(r), &w().store, v);
                    class = classify(&w().store, &b);
                } else if !enc.payloads.is_empty() {
                    let p = &enc.payloads[r.us(enc.payloads.len())];
                    for _ in 0..1 + r.us(3) {
                        let at = match r.below(4) {
                            0 => p.len.saturating_sub(1 + r.us(6)),
                            1 => r.us(p.len.clamp(1, 6)),
                            _ => r.us(p.len.max(1)),
                        };
                        if at < p.len {
                            b[p.off + at] ^= 1 << r.below(8);
                        }
                    }
                    class = classify(&w().store, &b);
                }
            }
            let used = w().used;
            check_raw(&b, &class);
            if let Some(s) = load_as(b, class) {
                w().used = used;
                look_over(st, &s, &mut Rng::new(7));
                let r = &mut Rng::new(*seed);
                let (images, frames) = (s.file.image_count(), s.refs.frames.len());
                let big = s.refs.w * s.refs.h > 1 << 18;
                for _ in 0..if big { 4 } else { 12 } {
                    if images > 0 {
                        let i = if r.chance(1, 4) { images - 1 } else { r.us(images) };
                        let _ = call(st, &s, &Call::Decode { image: i }, Buf::Exact(r.next()));
                    }
                    if frames > 0 {
                        let f = if r.chance(1, 4) { frames - 1 } else { r.us(frames) };
                        let sel = if r.chance(1, 2) { SelSpec::All } else { SelSpec::Visible };
                        let _ = call(st, &s, &Call::Render { frame: f, sel }, Buf::Exact(r.next()));
                    }
                }
                if report::accept() & p(10) != 0 {
                    hash_all(st, &s);
                }
            }
        }
        RStep::Endure { slot, seed, n } => {
            let slots = &w().slots;
            let s = slots[usize::from(*slot) % SLOTS].as_ref().or_else(|| slots.iter().flatten().next());
            if let Some(s) = s.map(|s| s.0.clone()) {
                endure(st, &s, *seed, *n);
            }
        }
        RStep::Meet => {}
        RStep::Final { file } => {
            let file = usize::from(*file) % w().store.files().max(1);
            let mut waited = 0;
            while !w().store.quiet(sched::sim().now) {
                waited += 1;
                if waited > 20_000 {
                    return;
                }
                sched::sleep(500_000);
            }
            let v = w().store.save_cleanly(file);
            let b = read_file(file, 4096, None);
            add(S::final_loads, 1);
            let class = classify(&w().store, &b);
            let same = match class {
                Class::Complete(x) => w().store.versions[x].enc.bytes == w().store.versions[v].enc.bytes,
                _ => false,
            };
            assert!(same, "the simulator's own storage lost a clean save");
            // the version saved last, not one with the same bytes
            let class = Class::Complete(v);
            check_raw(&b, &class);
            if let Some(s) = load_as(b, class) {
                look_over(st, &s, &mut Rng::new(7));
                w().slots[0] = Some(Shared(s));
            }
        }
    }
}

fn reader(task: usize, steps: Vec<RStep>) {
    let mut st = TaskState::default();
    for s in &steps {
        seams::checkpoint();
        if matches!(s, RStep::Meet) {
            let n = w().met[task] + 1;
            w().met[task] = n;
            sched::arrive();
            while w().met.iter().any(|m| *m < n) {
                sched::wait_arrival();
            }
            continue;
        }
        step(&mut st, s);
    }
    w().met[task] = u32::MAX;
    sched::arrive();
}

/// Runs a plan to its end. Violations leave the process.
pub fn run(plan: &Plan) {
    let mut seeds = Rng::new(plan.seed ^ 0x7365_6564);
    seams::seed_randomness(seeds.next());
    if plan.alone > 0 {
        alone::start();
    }
    let nf = plan.files.len();
    let store = Store::new(plan);
    let mut depth = Vec::new();
    for f in &plan.files {
        for s in &f.steps {
            if let EdStep::Edit(crate::doc::Edit::New { depth: d, .. }) = s {
                depth.push(match d {
                    Depth::Rgba => "rgba",
                    Depth::Gray => "grayscale",
                    Depth::Indexed => "indexed",
                });
            }
        }
    }
    unsafe {
        WORLD = Box::into_raw(Box::new(World {
            store,
            slots: (0..SLOTS).map(|_| None).collect(),
            kept: vec![None; 4],
            pool: Vec::new(),
            hashes: BTreeMap::new(),
            used: 0,
            alone_left: u32::from(plan.alone),
            seed: plan.seed,
            profile: plan.property,
            many: plan.readers.len() > 1,
            met: vec![0; plan.readers.len()],
            fired: 0,
        }));
    }
    let handler = Box::new(move |ev: u32| {
        let ev = ev as usize;
        if ev < 1000 {
            if let Some(d) = w().store.editor_step(ev) {
                let t = sched::sim().now + d;
                sched::sim().at(t, ev as u32);
            }
        } else {
            w().fired += 1;
            w().store.fire_fault(ev - 1000);
        }
    });
    let mut sim = sched::Sim::new(
        mix(&[plan.seed, 0x7363_6864]),
        plan.strategy.clone(),
        plan.schedule.clone(),
        plan.readers.len(),
        handler,
    );
    for f in 0..nf {
        sim.at(0, f as u32);
    }
    for (i, f) in plan.faults.iter().enumerate() {
        sim.at(u64::from(f.us) * 1000, 1000 + i as u32);
    }
    let bodies: Vec<Box<dyn FnOnce() + Send>> = plan
        .readers
        .iter()
        .enumerate()
        .map(|(i, steps)| {
            let steps = steps.clone();
            let b: Box<dyn FnOnce() + Send> = Box::new(move || reader(i, steps));
            b
        })
        .collect();
    let sim = sched::run(sim, bodies);
    let due = plan.faults.iter().filter(|f| u64::from(f.us) * 1000 <= sim.now).count();
    if w().fired != due {
        eprintln!("simulator: {} of {due} faults happened", w().fired);
        unsafe { libc::_exit(99) };
    }
    // what is still loaded must report what it did
    for s in w().slots.iter().flatten() {
        unchanged(&s.0);
    }
    let many = w().many;
    add(S::runs, 1);
    add(S::sim_ns, sim.now);
    add(S::edges, w().used);
    add(S::switches, sim.switches);
    add(S::preemptions, sim.preemptions);
    add(S::futex_waits, sim.futex_waits);
    add(S::stalls, sim.stalls);
    if many {
        report::note_interleaving(sim.trace);
    }
    report::log(mix(&[sim.trace, w().used, sim.now]));
}
