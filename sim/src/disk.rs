//! The writing side: editors saving files, storage with a volatile cache, and
//! the faults that happen to stored bytes.

use crate::doc::*;
use crate::encode::*;
use crate::plan::*;
use crate::prng::Rng;
use crate::report::{add, S};
use crate::sched;
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;

const BLOCK: usize = 512;

pub struct Version {
    pub file: usize,
    pub doc: Doc,
    pub enc: Encoded,
    pub opts: SaveOpts,
    pub oracle: Option<Rc<crate::oracle::Oracle>>,
}

type Inode = Rc<RefCell<Vec<u8>>>;
pub struct Disk {
    /// What readers see (page cache).
    pub inode: Inode,
    durable: Vec<u8>,
    dirty: BTreeSet<usize>,
    renamed: bool,
}
impl Disk {
    fn new() -> Disk {
        Disk {
            inode: Rc::new(RefCell::new(Vec::new())),
            durable: Vec::new(),
            dirty: BTreeSet::new(),
            renamed: false,
        }
    }
    fn write(&mut self, off: usize, data: &[u8]) {
        let mut f = self.inode.borrow_mut();
        if f.len() < off + data.len() {
            f.resize(off + data.len(), 0);
        }
        f[off..off + data.len()].copy_from_slice(data);
        for b in off / BLOCK..=(off + data.len().max(1) - 1) / BLOCK {
            let _ = self.dirty.insert(b);
        }
    }
    fn sync(&mut self) {
        self.durable = self.inode.borrow().clone();
        self.dirty.clear();
        self.renamed = false;
        add(S::flushes, 1);
    }
    /// Some dirty blocks happen to reach durable storage.
    fn flush_some(&mut self, r: &mut Rng, num: u64, den: u64) {
        let cache = self.inode.borrow();
        let old = std::mem::take(&mut self.dirty);
        for b in old {
            if r.chance(num, den) {
                let (s, e) = (b * BLOCK, ((b + 1) * BLOCK).min(cache.len()));
                if s < e {
                    if self.durable.len() < e {
                        self.durable.resize(e, 0);
                    }
                    self.durable[s..e].copy_from_slice(&cache[s..e]);
                }
                add(S::blocks_kept, 1);
            } else {
                let _ = self.dirty.insert(b);
            }
        }
    }
    fn crash(&mut self, seed: u64) {
        let r = &mut Rng::new(seed);
        add(S::server_crashes, 1);
        if self.renamed && r.chance(1, 2) {
            // the new name had not reached the disk
            self.dirty.clear();
        } else {
            if self.renamed {
                self.durable.clear();
            }
            let old = self.durable.len();
            let new = self.inode.borrow().len();
            match r.below(3) {
                0 => self.flush_some(r, 1, 2),
                1 => self.flush_some(r, 9, 10),
                _ => self.flush_some(r, 1, 10),
            }
            add(S::blocks_lost, self.dirty.len() as u64);
            // the new size may be known without the data, or the other way round
            let size = if r.chance(2, 3) {
                new
            } else {
                add(S::stale_size_after_crash, 1);
                old
            };
            self.durable.resize(size, 0);
        }
        self.dirty.clear();
        self.renamed = false;
        self.inode = Rc::new(RefCell::new(self.durable.clone()));
    }
}

enum WOp {
    Trunc(usize),
    Block(usize, usize),
    Swap,
    Sync,
}
struct Save {
    ver: usize,
    ops: VecDeque<WOp>,
    total: usize,
    done: usize,
    kill: Option<usize>,
    tmp: bool,
}
pub struct Editor {
    plan: FilePlan,
    pub doc: Doc,
    pc: usize,
    save: Option<Save>,
    last_done: Option<usize>,
    pub finished: bool,
    restart: bool,
}

pub struct Store {
    pub versions: Vec<Version>,
    pub disks: Vec<Disk>,
    pub editors: Vec<Editor>,
    pub faults: Vec<FaultAt>,
    pub last_fault: u64,
    pub final_done: Vec<Option<usize>>,
}

pub fn new_doc() -> Doc {
    Doc::new(Depth::Rgba, 4, 4, 0, 0)
}

impl Store {
    pub fn new(plan: &Plan) -> Store {
        Store {
            versions: Vec::new(),
            disks: plan.files.iter().map(|_| Disk::new()).collect(),
            editors: plan
                .files
                .iter()
                .map(|f| Editor {
                    plan: f.clone(),
                    doc: new_doc(),
                    pc: 0,
                    save: None,
                    last_done: None,
                    finished: false,
                    restart: false,
                })
                .collect(),
            faults: plan.faults.clone(),
            last_fault: plan.faults.iter().map(|f| u64::from(f.us) * 1000).max().unwrap_or(0),
            final_done: vec![None; plan.files.len()],
        }
    }

    pub fn newest(&self, file: usize) -> Option<usize> {
        (0..self.versions.len()).rev().find(|v| self.versions[*v].file == file)
    }
    pub fn files(&self) -> usize {
        self.disks.len()
    }

    fn encode_now(&mut self, file: usize, opts: SaveOpts) -> usize {
        let doc = self.editors[file].doc.clone();
        let enc = encode(&doc, &opts);
        self.versions.push(Version { file, doc, enc, opts, oracle: None });
        self.versions.len() - 1
    }

    /// A version on no simulated disk.
    pub fn put(&mut self, doc: Doc, opts: SaveOpts) -> usize {
        let enc = encode(&doc, &opts);
        self.versions.push(Version { file: usize::MAX, doc, enc, opts, oracle: None });
        self.versions.len() - 1
    }

    /// The whole file is written and synced at once, without faults.
    pub fn save_cleanly(&mut self, file: usize) -> usize {
        if let Some(v) = self.final_done[file] {
            return v;
        }
        let v = self.encode_now(file, SaveOpts { seed: file as u64, ..SaveOpts::default() });
        let bytes = self.versions[v].enc.bytes.clone();
        self.disks[file].inode = Rc::new(RefCell::new(bytes));
        self.disks[file].sync();
        add(S::saves_started, 1);
        add(S::saves_completed, 1);
        self.final_done[file] = Some(v);
        v
    }
    pub fn quiet(&self, now: u64) -> bool {
        now > self.last_fault && self.editors.iter().all(|e| e.finished)
    }

    /// One step of an editor. Returns the delay until its next step.
    pub fn editor_step(&mut self, f: usize) -> Option<u64> {
        if self.editors[f].restart {
            self.editors[f].restart = false;
            self.editors[f].save = None;
            let doc = match self.editors[f].last_done {
                Some(v) => self.versions[v].doc.clone(),
                None => self.editors[f].doc.clone(),
            };
            self.editors[f].doc = doc;
            add(S::editor_restarts, 1);
            return Some(300_000);
        }
        if let Some(save) = &mut self.editors[f].save {
            if save.kill.map(|k| save.done >= k).unwrap_or(false) {
                add(S::saves_killed, 1);
                add(S::f_kill_save, 1);
                self.editors[f].restart = true;
                return Some(200_000);
            }
            let (ver, tmp) = (save.ver, save.tmp);
            let Some(op) = save.ops.pop_front() else {
                self.editors[f].last_done = Some(ver);
                self.editors[f].save = None;
                add(S::saves_completed, 1);
                return Some(1000);
            };
            save.done += 1;
            let disk = &mut self.disks[f];
            match op {
                WOp::Trunc(n) => {
                    if !tmp {
                        let mut i = disk.inode.borrow_mut();
                        if i.len() > n {
                            i.truncate(n);
                        }
                    }
                }
                WOp::Block(off, len) => {
                    if !tmp {
                        disk.write(off, &self.versions[ver].enc.bytes[off..off + len]);
                    }
                }
                WOp::Swap => {
                    disk.inode = Rc::new(RefCell::new(self.versions[ver].enc.bytes.clone()));
                    let n = self.versions[ver].enc.bytes.len();
                    disk.dirty = (0..n.div_ceil(BLOCK)).collect();
                    disk.renamed = true;
                }
                WOp::Sync => disk.sync(),
            }
            return Some(u64::from(self.editors[f].plan.us_per_block) * 1000 + 7);
        }
        let step = self.editors[f].plan.steps.get(self.editors[f].pc).cloned();
        self.editors[f].pc += 1;
        match step {
            None => {
                self.editors[f].finished = true;
                None
            }
            Some(EdStep::Edit(e)) => {
                self.editors[f].doc.apply(&e);
                Some(0)
            }
            Some(EdStep::Wait { us }) => Some(u64::from(us) * 1000),
            Some(EdStep::Save { mode, opts, kill_at, sync }) => {
                let ver = self.encode_now(f, opts);
                let n = self.versions[ver].enc.bytes.len();
                let block = usize::from(self.editors[f].plan.block.max(1)).max(n / 100 + 1);
                let mut ops = VecDeque::new();
                if mode == Mode::Truncate {
                    ops.push_back(WOp::Trunc(0));
                }
                let mut o = 0;
                while o < n {
                    ops.push_back(WOp::Block(o, block.min(n - o)));
                    o += block;
                }
                match mode {
                    Mode::Overwrite => ops.push_back(WOp::Trunc(n)),
                    Mode::OverwriteLoseCut => add(S::f_lost_truncate, 1),
                    Mode::Rename => ops.push_back(WOp::Swap),
                    Mode::Truncate => {}
                }
                if sync {
                    ops.push_back(WOp::Sync);
                }
                let total = ops.len();
                add(S::saves_started, 1);
                self.editors[f].save = Some(Save {
                    ver,
                    total,
                    ops,
                    done: 0,
                    kill: kill_at.map(|k| total * usize::from(k) / 1000),
                    tmp: mode == Mode::Rename,
                });
                let _ = self.editors[f].save.as_ref().map(|s| s.total);
                Some(1000)
            }
        }
    }

    pub fn fire_fault(&mut self, i: usize) {
        let FaultAt { file, fault, .. } = self.faults[i].clone();
        let file = usize::from(file) % self.files().max(1);
        match &fault {
            Fault::Crash { seed } => {
                self.disks[file].crash(*seed);
                let e = &mut self.editors[file];
                if e.save.is_some() {
                    e.restart = true;
                }
            }
            Fault::Flush { seed } => {
                let mut r = Rng::new(*seed);
                self.disks[file].flush_some(&mut r, 1, 2);
                add(S::flushes, 1);
            }
            Fault::Stall { task, us } => sched::sim().stall(usize::from(*task), u64::from(*us) * 1000),
            f => {
                let Some(v) = self.newest(file) else { return };
                let inode = self.disks[file].inode.clone();
                damage(&mut inode.borrow_mut(), f, self, v);
                let mut d = std::mem::take(&mut self.disks[file].durable);
                damage(&mut d, f, self, v);
                self.disks[file].durable = d;
            }
        }
    }
}

fn resolve(pos: Pos, enc: &Encoded, len: usize) -> usize {
    let m = |x: u32, n: usize| if n == 0 { 0 } else { x as usize % n };
    let o = match pos {
        Pos::Any(x) => m(x, len),
        Pos::Header(b) => usize::from(b) % 128,
        Pos::Field(x) => enc.fields.get(m(x, enc.fields.len())).map(|f| f.0 as usize).unwrap_or(0),
        Pos::Bound(x, d) => enc
            .bounds
            .get(m(x, enc.bounds.len()))
            .map(|b| (*b as i64 + i64::from(d)).max(0) as usize)
            .unwrap_or(0),
        Pos::Payload(i, x) => match enc.payloads.get(m(i, enc.payloads.len())) {
            Some(p) if x == u32::MAX => p.off + p.len.saturating_sub(1),
            Some(p) => p.off + m(x, p.len),
            None => m(x, len),
        },
    };
    o.min(len)
}

/// End of the payload span a position lies in (faults aimed at image data stay
/// inside it), or of the file.
fn limit(pos: Pos, o: usize, enc: &Encoded, len: usize) -> usize {
    if let Pos::Payload(..) = pos {
        for p in &enc.payloads {
            if o >= p.off && o < p.off + p.len {
                return (p.off + p.len).min(len);
            }
        }
    }
    len
}

/// Adapts the header of the frame around a position to a change within it.
fn fix_frame(b: &mut [u8], enc: &Encoded, pos: usize, bytes: i64, chunks: i64) {
    let Some(f) = enc.frames.iter().rev().find(|f| **f < pos).copied() else { return };
    if f + 16 > b.len() {
        return;
    }
    let get = |b: &[u8], o: usize, n: usize| {
        let mut t = [0u8; 8];
        t[..n].copy_from_slice(&b[o..o + n]);
        u64::from_le_bytes(t) as i64
    };
    let size = get(b, f, 4) + bytes;
    b[f..f + 4].copy_from_slice(&(size as u32).to_le_bytes());
    let (old, new) = (get(b, f + 6, 2), get(b, f + 12, 4));
    if new != 0 {
        b[f + 12..f + 16].copy_from_slice(&((new + chunks) as u32).to_le_bytes());
    }
    if old != 0xFFFF {
        b[f + 6..f + 8].copy_from_slice(&((old + chunks) as u16).to_le_bytes());
    }
}
/// Offsets of the chunks (not frames) of a version.
fn chunks(enc: &Encoded) -> Vec<usize> {
    enc.bounds.iter().copied().filter(|b| !enc.frames.contains(b)).collect()
}
fn chunk_at(enc: &Encoded, o: usize) -> Option<&[u8]> {
    let t: [u8; 4] = enc.bytes.get(o..o + 4)?.try_into().ok()?;
    enc.bytes.get(o..o + u32::from_le_bytes(t) as usize)
}
fn put_chunk(b: &mut Vec<u8>, enc: &Encoded, at: u32, body: &[u8]) -> bool {
    let c = chunks(enc);
    let Some(o) = c.get(at as usize % c.len().max(1)).copied() else { return false };
    if o > b.len() {
        return false;
    }
    let _ = b.splice(o..o, body.iter().copied());
    fix_frame(b, enc, o, body.len() as i64, 1);
    true
}

/// Applies a fault to stored bytes; positions refer to version `v`.
pub fn damage(b: &mut Vec<u8>, fault: &Fault, st: &Store, v: usize) {
    let enc = &st.versions[v].enc;
    let n = b.len();
    match *fault {
        Fault::Flip { at, bit } => {
            let o = resolve(at, enc, n);
            if let Some(x) = b.get_mut(o) {
                *x ^= 1 << (bit & 7);
                add(S::f_bit_flip, 1);
            }
        }
        Fault::Byte { at, val } => {
            let o = resolve(at, enc, n);
            if let Some(x) = b.get_mut(o) {
                *x = val;
                add(S::f_set_byte, 1);
            }
        }
        Fault::Field { at, val } => {
            let o = resolve(at, enc, n);
            let size = enc
                .fields
                .iter()
                .find(|f| f.0 as usize == o)
                .map(|f| usize::from(f.1))
                .unwrap_or(4)
                .min(4);
            for (k, x) in val.to_le_bytes().iter().take(size).enumerate() {
                if let Some(y) = b.get_mut(o + k) {
                    *y = *x;
                }
            }
            add(S::f_set_field, 1);
        }
        Fault::Add { at, delta } => {
            let o = resolve(at, enc, n);
            let size = enc
                .fields
                .iter()
                .find(|f| f.0 as usize == o)
                .map(|f| usize::from(f.1))
                .unwrap_or(1)
                .min(4);
            let end = limit(at, o, enc, n).min(o + size);
            if o < end {
                let mut t = [0u8; 4];
                t[..end - o].copy_from_slice(&b[o..end]);
                let x = u32::from_le_bytes(t).wrapping_add(delta as u32).to_le_bytes();
                b[o..end].copy_from_slice(&x[..end - o]);
                add(S::f_length_field, 1);
            }
        }
        Fault::Zero { at, len } => {
            let o = resolve(at, enc, n);
            let e = (o + usize::from(len)).min(limit(at, o, enc, n));
            b[o..e].fill(0);
            add(S::f_zero_range, 1);
        }
        Fault::Fill { at, len, pattern } => {
            let o = resolve(at, enc, n);
            let e = (o + usize::from(len)).min(limit(at, o, enc, n));
            // patterns chosen to nest and repeat when read as structures
            let p: &[u8] = match pattern & 7 {
                0 => &[0xFF],
                1 => &[0x01],
                2 => &[0x01, 0x00, 0x00, 0x00, 0x11, 0x00],
                3 => &[0x01, 0x00, 0x00, 0x00, 0x00, 0x00, 0x12, 0x00],
                4 => &[0x06, 0x00, 0x00, 0x00, 0xFF, 0xFF],
                5 => &[0x7F],
                6 => &[0x01, 0x00, 0x00, 0x00, 0x12, 0x00],
                _ => &[0x80],
            };
            for (k, x) in b[o..e].iter_mut().enumerate() {
                *x = p[k % p.len()];
            }
            add(S::f_fill_pattern, 1);
        }
        Fault::Swap { a, b: c, len } => {
            let (o, q) = (resolve(a, enc, n), resolve(c, enc, n));
            let (o, q) = (o.min(q), o.max(q));
            let l = usize::from(len).min(q - o).min(n - q);
            for k in 0..l {
                b.swap(o + k, q + k);
            }
            add(S::f_swap_blocks, 1);
        }
        Fault::Dup { from, to, len } => {
            let (o, q) = (resolve(from, enc, n), resolve(to, enc, n));
            let l = usize::from(len).min(n - o).min(n - q);
            b.copy_within(o..o + l, q);
            add(S::f_dup_block, 1);
        }
        Fault::Stale { at, len, age } => {
            let file = st.versions[v].file;
            let old = (0..v)
                .rev()
                .filter(|x| st.versions[*x].file == file)
                .nth(usize::from(age));
            if let Some(old) = old {
                let ob = &st.versions[old].enc.bytes;
                let o = resolve(at, enc, n);
                let e = (o + usize::from(len)).min(n).min(ob.len());
                if o < e {
                    b[o..e].copy_from_slice(&ob[o..e]);
                    add(S::f_stale_block, 1);
                }
            }
        }
        Fault::Cut { at } => {
            let o = resolve(at, enc, n);
            b.truncate(o);
            add(S::f_truncate, 1);
        }
        Fault::Extend { from, len } => {
            let o = resolve(from, enc, n);
            let e = (o + usize::from(len)).min(n);
            let t = b[o..e].to_vec();
            b.extend_from_slice(&t);
            add(S::f_extend, 1);
        }
        Fault::Junk { len, seed } => {
            let mut r = Rng::new(seed);
            for _ in 0..len {
                b.push(r.byte());
            }
            add(S::f_extend, 1);
        }
        Fault::Insert { at, len, seed } => {
            let o = resolve(at, enc, n);
            let mut r = Rng::new(seed);
            let t: Vec<u8> = (0..len).map(|_| r.byte()).collect();
            let _ = b.splice(o..o, t);
            add(S::f_insert, 1);
        }
        Fault::SwapPayload { a, b: c } => {
            let k = enc.payloads.len();
            if k == 0 {
                return;
            }
            let (p, q) = (&enc.payloads[a as usize % k], &enc.payloads[c as usize % k]);
            let l = p.len.min(q.len);
            if p.off + l <= n && q.off + l <= n {
                let (x, y) = (b[p.off..p.off + l].to_vec(), b[q.off..q.off + l].to_vec());
                b[p.off..p.off + l].copy_from_slice(&y);
                if p.len == q.len {
                    b[q.off..q.off + l].copy_from_slice(&x);
                }
                add(S::f_payload, 1);
            }
        }
        Fault::Graft { version, chunk, at } => {
            let other = &st.versions[version as usize % st.versions.len()].enc;
            let c = chunks(other);
            if let Some(body) = c.get(chunk as usize % c.len().max(1)).and_then(|o| chunk_at(other, *o)) {
                if put_chunk(b, enc, at, body) {
                    add(S::f_graft_chunk, 1);
                }
            }
        }
        Fault::Ungraft { at } => {
            let c = chunks(enc);
            if let Some(o) = c.get(at as usize % c.len().max(1)).copied() {
                let l = chunk_at(enc, o).map(<[u8]>::len).unwrap_or(0);
                if o + l <= b.len() {
                    let _ = b.drain(o..o + l);
                    fix_frame(b, enc, o, -(l as i64), -1);
                    add(S::f_drop_chunk, 1);
                }
            }
        }
        Fault::Nest { at, levels, kind } => {
            // user data with properties only, one map, one property
            let mut p: Vec<u8> = Vec::new();
            p.extend_from_slice(&0u32.to_le_bytes());
            p.extend_from_slice(&1u32.to_le_bytes());
            p.extend_from_slice(&[0, 0]);
            // vectors of vectors, maps in maps, mixed vectors in mixed
            // vectors, vectors of maps of vectors
            p.extend_from_slice(if kind == 1 { &[0x12, 0] } else { &[0x11, 0] });
            for _ in 0..levels {
                p.extend_from_slice(match kind {
                    1 => &[1, 0, 0, 0, 0, 0, 0x12, 0][..],
                    2 => &[1, 0, 0, 0, 0, 0, 0x11, 0][..],
                    3 => &[1, 0, 0, 0, 0x12, 0, 1, 0, 0, 0, 0, 0, 0x11, 0][..],
                    _ => &[1, 0, 0, 0, 0x11, 0][..],
                });
            }
            p.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
            let mut body = Vec::new();
            body.extend_from_slice(&(6 + 4 + 8 + p.len() as u32).to_le_bytes());
            body.extend_from_slice(&[0x20, 0x20, 4, 0, 0, 0]);
            body.extend_from_slice(&(8 + p.len() as u32).to_le_bytes());
            body.extend_from_slice(&1u32.to_le_bytes());
            body.extend_from_slice(&p);
            if put_chunk(b, enc, at, &body) {
                add(S::f_deep_nesting, 1);
            }
        }
        Fault::Chunk { at: at_chunk, kind, len, seed } => {
            let kinds: [u16; 14] = [
                0x4, 0x11, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020,
                0x2022, 0x2023,
            ];
            let mut r = Rng::new(seed);
            let mut body = Vec::new();
            body.extend_from_slice(&(6 + u32::from(len)).to_le_bytes());
            body.extend_from_slice(&kinds[usize::from(kind) % 14].to_le_bytes());
            if kind % 14 < 2 && r.chance(2, 3) {
                // packets that reach just up to, or beyond, the last index
                let total = 254 + r.below(5) as u32;
                let packets = 1 + r.below(3) as u32;
                let skip = r.below(200) as u32;
                body.extend_from_slice(&(packets as u16).to_le_bytes());
                let mut at = 0;
                for k in 0..packets {
                    let s = if k == 0 { skip } else { r.below(4) as u32 };
                    let n = if k + 1 == packets {
                        total.saturating_sub(at + s)
                    } else {
                        (total.saturating_sub(at + s) / 2).min(255)
                    };
                    body.push(s as u8);
                    body.push(n as u8);
                    let n = if n == 0 { 256 } else { n };
                    at += s + n;
                    for _ in 0..n * 3 {
                        body.push(r.byte());
                    }
                }
                let size = body.len() as u32;
                body[..4].copy_from_slice(&size.to_le_bytes());
                if put_chunk(b, enc, at_chunk, &body) {
                    add(S::f_made_up_chunk, 1);
                }
                return;
            }
            // mostly small numbers, so that counts and kinds make sense
            for _ in 0..len {
                let x = match r.below(8) {
                    0 => r.byte(),
                    1 | 2 => r.below(4) as u8,
                    3 => 0xFF,
                    _ => 0,
                };
                body.push(x);
            }
            if put_chunk(b, enc, at_chunk, &body) {
                add(S::f_made_up_chunk, 1);
            }
        }
        Fault::Crash { .. } | Fault::Flush { .. } | Fault::Stall { .. } => {}
    }
}
