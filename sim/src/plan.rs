//! A run, written down: everything that happens follows from a plan. Plans are
//! generated from a seed and can be stored, shrunk and replayed.

use crate::doc::*;
use crate::encode::SaveOpts;
use crate::prng::{mix, Rng};
use crate::sched::{Decision, Strategy};
use crate::zlib::Storage;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    /// Cut the file to nothing, then write.
    Truncate,
    /// Write over the old content, then cut to the new length.
    Overwrite,
    /// As before, but the final cut is lost.
    OverwriteLoseCut,
    /// Write a new file, then swap names.
    Rename,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EdStep {
    Edit(Edit),
    Save {
        mode: Mode,
        opts: SaveOpts,
        /// The editor dies after this share (per mille) of the writes.
        kill_at: Option<u16>,
        /// Sync to durable storage at the end.
        sync: bool,
    },
    Wait { us: u32 },
}

/// A place in a file, relative to what was last saved there.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Pos {
    Any(u32),
    Field(u32),
    Header(u8),
    Bound(u32, i8),
    Payload(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Flip { at: Pos, bit: u8 },
    Byte { at: Pos, val: u8 },
    /// Overwrites a field (2 or 4 bytes as it is).
    Field { at: Pos, val: u32 },
    Add { at: Pos, delta: i32 },
    Zero { at: Pos, len: u16 },
    /// Fill with a repeated byte pattern.
    Fill { at: Pos, len: u16, pattern: u8 },
    Swap { a: Pos, b: Pos, len: u16 },
    Dup { from: Pos, to: Pos, len: u16 },
    /// Brings back a range of an older version.
    Stale { at: Pos, len: u16, age: u8 },
    Cut { at: Pos },
    Extend { from: Pos, len: u16 },
    /// Appends random bytes.
    Junk { len: u16, seed: u64 },
    Insert { at: Pos, len: u8, seed: u64 },
    /// Replaces an image's stored data by another image's.
    SwapPayload { a: u32, b: u32 },
    /// Copies a whole chunk of any version in before another; the frame's size
    /// and chunk count fit.
    Graft { version: u32, chunk: u32, at: u32 },
    /// Takes a whole chunk out.
    Ungraft { at: u32 },
    /// A user data chunk of properties nested so deep.
    Nest { at: u32, levels: u32, kind: u8 },
    /// A chunk with other contents, its size right.
    Chunk { at: u32, kind: u8, len: u16, seed: u64 },
    /// Server loses its cache and restarts.
    Crash { seed: u64 },
    Flush { seed: u64 },
    Stall { task: u8, us: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultAt {
    pub us: u32,
    pub file: u8,
    pub fault: Fault,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Sel {
    Visible,
    All,
    Pred(u64),
    Names(u64),
    Kept(u8),
    /// Mask of that many entries.
    Mask(u16, u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Buf {
    /// Exactly the size needed, filled from a seed.
    Exact(u64),
    /// The task's scratch buffer with whatever the last call left.
    Reused,
    Over(u16, u64),
    /// Too small by this much.
    Under(u32, u64),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Render { frame: u32, sel: Sel, buf: Buf },
    Decode { image: u32, buf: Buf },
    Hash { frame: u32, buf: Buf },
    HashAll,
    Select { sel: Sel, keep: u8 },
    /// The predicate panics at the n-th layer.
    SelectPanic { at: u8 },
    /// The predicate itself makes a call on the sprite at the n-th layer.
    SelectNest { at: u8, seed: u64, inner: Box<Op> },
    Inspect,
    Raw,
    /// Loads the same bytes again and compares.
    Again,
    /// Renders everything there is with a few selections.
    RenderAll { seed: u64 },
    DecodeAll { seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RStep {
    /// Reads a file (optionally getting only a share of it) into a slot.
    Load { file: u8, slot: u8, block: u16, short: Option<u16> },
    Op { slot: u8, op: Op },
    Drop { slot: u8 },
    Sleep { us: u32 },
    /// Every cut of the newest complete save (a writer stopped at each byte).
    Cuts { file: u8, stride: u16, only: Option<u32> },
    /// Left-over tails of older versions and other appended data.
    Tails { file: u8, seed: u64, count: u16, only: Option<u32> },
    /// Independent in-flight damage of the newest complete save.
    Rot { file: u8, seed: u64, count: u16, only: Option<u32> },
    /// Independent damage of image data only.
    PayloadRot { file: u8, seed: u64, count: u16, only: Option<u32> },
    /// The same kind of document at a size and at eight times that size.
    Scale { shape: u8, n: u32, seed: u64 },
    /// Loads, uses and drops sprites again and again.
    Churn { file: u8, seed: u64, keep: bool },
    /// A sprite of as many frames, images, layers ... as their numbers allow.
    Huge { shape: u8, n: u16, seed: u64 },
    /// The same few calls on one sprite, many thousand times.
    Endure { slot: u8, seed: u64, n: u32 },
    /// Waits until faults have stopped, then loads the last save.
    Final { file: u8 },
    /// Waits until every other reader has come this far, too (or is done).
    Meet,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FilePlan {
    pub steps: Vec<EdStep>,
    pub block: u16,
    pub us_per_block: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub property: u32,
    pub seed: u64,
    pub files: Vec<FilePlan>,
    pub faults: Vec<FaultAt>,
    pub readers: Vec<Vec<RStep>>,
    pub strategy: Strategy,
    #[serde(default)]
    pub schedule: Option<Vec<Decision>>,
    /// Calls compared with the same call made alone in a fresh process.
    pub alone: u16,
}

// --- generation ------------------------------------------------------------------

/// What a property's runs emphasise.
struct Prof {
    p: u32,
    depth_any: bool,
    skew: bool,
    extras: bool,
    meta: bool,
    small: bool,
    odd_codes: bool,
    blends: bool,
}

fn prof(p: u32) -> Prof {
    Prof {
        p,
        depth_any: true,
        skew: p == 12 || p == 5 || p == 11,
        extras: matches!(p, 13 | 5 | 11 | 12 | 4 | 1 | 18),
        meta: matches!(p, 1 | 4 | 5 | 11 | 12 | 13 | 18),
        small: matches!(p, 4 | 5 | 8 | 11 | 13 | 10 | 18),
        odd_codes: matches!(p, 12 | 5),
        blends: matches!(p, 3 | 5 | 7 | 8 | 9 | 14 | 10 | 12 | 6),
    }
}

fn gen_storage(r: &mut Rng) -> Storage {
    match r.below(8) {
        0 | 1 => Storage::Raw,
        2 => Storage::Blocks(r.next()),
        3 => Storage::Level(0),
        4 => Storage::Level(9),
        _ => Storage::Level(r.below(10) as u8),
    }
}

fn gen_dim(r: &mut Rng, base: u16) -> u16 {
    match r.below(10) {
        0 => base,
        1 => 1,
        2 => base.saturating_mul(2).clamp(1, 700),
        _ => 1 + r.below(u64::from(base.clamp(4, 48))) as u16,
    }
}
fn gen_coord(r: &mut Rng, canvas: u16, dim: u16) -> i16 {
    match r.below(14) {
        0 => 0,
        1 => -(dim.min(30000) as i16),
        2 => -(dim.min(30000) as i16) + 1,
        3 => canvas.min(32767) as i16,
        4 => (canvas.min(32767) as i16).saturating_sub(1),
        5 => *r.pick(&[i16::MIN, i16::MAX, -32767, 32766, -256, 255, 256]),
        6 => 0,
        _ => r.range(-i64::from(dim.min(1000)), i64::from(canvas.min(1000))) as i16,
    }
}

fn gen_blend(r: &mut Rng, pr: &Prof) -> u16 {
    if pr.odd_codes && r.chance(1, 8) {
        return match r.below(3) {
            0 => 19,
            1 => 20 + r.below(10) as u16,
            _ => r.next() as u16,
        };
    }
    if pr.blends || r.chance(1, 3) {
        r.below(19) as u16
    } else {
        0
    }
}
fn gen_opacity(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 | 1 => 255,
        2 => *r.pick(&[0, 1, 2, 127, 128, 254]),
        _ => r.byte(),
    }
}
fn gen_flags(r: &mut Rng) -> u16 {
    let f = r.below(128) as u16;
    if r.chance(2, 3) {
        f | 1
    } else {
        f
    }
}
fn name_class(r: &mut Rng) -> u8 {
    match r.below(40) {
        0..=3 => 1,
        4..=8 => 2,
        9 | 10 => 3,
        11 => {
            if r.chance(1, 6) {
                4
            } else {
                3
            }
        }
        _ => 0,
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    pr: Prof,
    w: u16,
    h: u16,
    /// Sizes used so far (reused on purpose: same size, other content).
    dims: Vec<(u16, u16)>,
    names: Vec<u64>,
    big_used: bool,
    /// One in how many images is big.
    big: u64,
}

impl Gen<'_> {
    fn new_doc(&mut self) -> Edit {
        let r = &mut *self.r;
        let depth = if !self.pr.depth_any {
            Depth::Rgba
        } else {
            *r.pick(&[Depth::Rgba, Depth::Rgba, Depth::Gray, Depth::Indexed, Depth::Indexed])
        };
        let (w, h) = match r.below(30) {
            0 => (1, 1),
            1 if !self.pr.small => (300, 1 + r.below(6) as u16),
            2 if !self.pr.small => (1 + r.below(6) as u16, 300),
            3 if !self.pr.small => (257, 257),
            4 if !self.pr.small || r.chance(1, 6) => *r.pick(&[(65535, 1), (1, 65535), (32768, 2), (40000, 1)]),
            5 => (0, 3),
            6 => (16, 16),
            _ => (1 + r.below(24) as u16, 1 + r.below(24) as u16),
        };
        self.w = w;
        self.h = h;
        Edit::New { depth, w, h, transparent: if r.chance(1, 2) { 0 } else { r.byte() }, seed: r.next() }
    }
    fn add_layer(&mut self) -> Edit {
        let pr = &self.pr;
        let r = &mut *self.r;
        let kind = match r.below(12) {
            0 | 1 => 1,
            2 if matches!(pr.p, 1 | 5 | 12 | 13 | 3 | 14 | 11 | 10 | 18) => 2,
            3 if pr.odd_codes => 3 + (r.logrange(1, 60000) as u16 - 1),
            _ => 0,
        };
        let name = if !self.names.is_empty() && r.chance(1, 5) {
            *r.pick(&self.names)
        } else {
            r.next()
        };
        self.names.push(name);
        Edit::AddLayer {
            kind,
            flags: gen_flags(r),
            level: if r.chance(1, 30) { r.next() as u16 } else { r.below(4) as u16 },
            blend: gen_blend(r, pr),
            opacity: gen_opacity(r),
            name,
            class: name_class(r),
        }
    }
    fn paint(&mut self) -> Edit {
        let r = &mut *self.r;
        let (w, h) = if !self.dims.is_empty() && r.chance(1, 3) {
            *r.pick(&self.dims)
        } else if r.chance(1, 3) {
            (self.w.clamp(1, 600), self.h.clamp(1, 600))
        } else if !self.big_used && !self.pr.small && r.chance(1, self.big) {
            self.big_used = true;
            *r.pick(&[(300, 300), (257, 256), (1, 5000), (600, 130), (256, 256), (65535, 2), (70, 1000)])
        } else {
            (gen_dim(r, self.w), gen_dim(r, self.h))
        };
        let (w, h) = if r.chance(1, 80) { (0, h) } else { (w, h) };
        self.dims.push((w, h));
        let mut style = *r.pick(&[0u8, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11]);
        if matches!(self.pr.p, 2 | 10) && r.chance(1, 5) {
            style = 10;
        }
        Edit::Paint {
            frame: r.next() as u32,
            layer: r.next() as u32,
            x: if r.chance(1, 3) { 0 } else { gen_coord(r, self.w, w) },
            y: if r.chance(1, 3) { 0 } else { gen_coord(r, self.h, h) },
            w,
            h,
            style,
            seed: r.next(),
            storage: gen_storage(r),
            opacity: gen_opacity(r),
            z: if r.chance(1, 4) { r.next() as i16 } else { 0 },
        }
    }
    fn link(&mut self) -> Edit {
        let r = &mut *self.r;
        let same = r.chance(1, 2);
        Edit::Link {
            frame: r.next() as u32,
            layer: r.next() as u32,
            target: r.next() as u32,
            x: if same { 0 } else { gen_coord(r, self.w, 5) },
            y: if same { 0 } else { gen_coord(r, self.h, 5) },
            opacity: gen_opacity(r),
            z: 0,
        }
    }
    fn meta(&mut self) -> Edit {
        let odd = self.pr.odd_codes;
        let r = &mut *self.r;
        match r.below(7) {
            0 => Edit::Tags {
                n: if r.chance(1, 15) { r.logrange(6, 600) as u16 } else { r.below(6) as u16 },
                seed: r.next(),
                class: name_class(r) + if odd && r.chance(1, 2) { 16 } else { 0 },
            },
            1 => Edit::AddSlice {
                keys: if r.chance(1, 15) { r.logrange(4, 600) as u16 } else { r.below(4) as u16 },
                flags: r.below(4) as u32,
                seed: r.next(),
                class: name_class(r),
            },
            2 => Edit::DelSlice { slice: r.next() as u32 },
            3 => Edit::CelExtra { frame: r.next() as u32, layer: r.next() as u32, seed: r.next() },
            _ => {
                let target = match r.below(6) {
                    0 => UdTarget::Sprite,
                    1 => UdTarget::Layer(r.next() as u32),
                    2 | 3 => UdTarget::Cel(r.next() as u32, r.next() as u32),
                    4 => UdTarget::Tags,
                    _ => UdTarget::Slice(r.next() as u32),
                };
                let rich = match r.below(20) {
                    0 if !self.pr.small => 2,
                    1..=9 => 1,
                    _ => 0,
                };
                Edit::UserData { target, seed: r.next(), rich }
            }
        }
    }
    fn edit(&mut self) -> Edit {
        let meta_w = if self.pr.meta { 5 } else { 1 };
        let extra_w = match self.pr.p {
            13 => 5,
            _ if self.pr.extras => 2,
            _ => 0,
        };
        let total = 30 + meta_w + extra_w;
        let k = self.r.below(total);
        match k {
            0..=1 => self.add_layer(),
            2..=3 => Edit::AddFrame { duration: gen_duration(self.r) },
            4..=13 => self.paint(),
            14..=16 => self.link(),
            17..=18 => {
                let (w, h) = (self.w, self.h);
                let r = &mut *self.r;
                Edit::Move {
                    frame: r.next() as u32,
                    layer: r.next() as u32,
                    x: gen_coord(r, w, 8),
                    y: gen_coord(r, h, 8),
                }
            }
            19..=20 => Edit::SetLayer {
                layer: self.r.next() as u32,
                flags: gen_flags(self.r),
                blend: gen_blend(self.r, &self.pr),
                opacity: gen_opacity(self.r),
            },
            21 => Edit::Rename {
                layer: self.r.next() as u32,
                name: self.r.next(),
                class: name_class(self.r),
            },
            22 => Edit::DelLayer { layer: self.r.next() as u32 },
            23 => Edit::DelFrame { frame: self.r.next() as u32 },
            24 => Edit::Erase { frame: self.r.next() as u32, layer: self.r.next() as u32 },
            25..=26 => Edit::Palette { kind: self.r.below(9) as u8, seed: self.r.next() },
            27 => {
                if matches!(self.pr.p, 13 | 5 | 11 | 12) {
                    let r = &mut *self.r;
                    if r.chance(1, 2) {
                        Edit::Tilemap {
                            frame: r.next() as u32,
                            layer: r.next() as u32,
                            w: r.below(8) as u16,
                            h: r.below(8) as u16,
                            seed: r.next(),
                        }
                    } else if r.chance(1, 3) {
                        Edit::OddCel {
                            frame: r.next() as u32,
                            layer: r.next() as u32,
                            code: if r.chance(1, 2) { 4 } else { 4 + r.below(65000) as u16 },
                            seed: r.next(),
                        }
                    } else {
                        self.paint()
                    }
                } else {
                    self.paint()
                }
            }
            28 | 29 => self.paint(),
            _ if k < 30 + meta_w => self.meta(),
            _ => {
                let r = &mut *self.r;
                if r.chance(1, 12) {
                    Edit::ClearExtras
                } else {
                    let odd = if self.pr.odd_codes && r.chance(1, 2) { 16 } else { 0 };
                    Edit::Extra { kind: r.below(5) as u8 + odd, seed: r.next() }
                }
            }
        }
    }
    fn opts(&mut self) -> SaveOpts {
        let skew = self.pr.skew && (self.pr.p == 12 || self.r.chance(1, 3));
        let r = &mut *self.r;
        SaveOpts {
            seed: r.next(),
            counter: if r.chance(1, 2) { 0 } else { r.below(4) as u8 },
            shuffle: r.chance(1, 3),
            unknown: skew && r.chance(1, 2),
            trailing: skew && r.chance(1, 2),
            reserved: skew && r.chance(1, 2),
            no_opacity: skew && r.chance(1, 5),
        }
    }
}

fn gen_file(r: &mut Rng, p: u32, saves: u32) -> FilePlan {
    let mut steps = Vec::new();
    let mut g = Gen {
        r,
        pr: prof(p),
        w: 0,
        h: 0,
        dims: Vec::new(),
        names: Vec::new(),
        big_used: false,
        big: 60,
    };
    if g.pr.small && p != 4 && g.r.chance(1, 80) {
        g.pr.small = false;
        g.big = 4;
    }
    let d = g.new_doc();
    steps.push(EdStep::Edit(d));
    let many_layers = match p {
        1 | 3 | 11 | 13 | 14 => 120,
        10 => 60,
        4 => 0,
        _ => 250,
    };
    let nl = 1 + g.r.below(5);
    for _ in 0..nl {
        let e = g.add_layer();
        steps.push(EdStep::Edit(e));
    }
    let nf = match p {
        10 => 1 + g.r.below(6),
        _ => g.r.below(4),
    };
    for _ in 0..nf {
        let d = gen_duration(g.r);
        steps.push(EdStep::Edit(Edit::AddFrame { duration: d }));
    }
    if many_layers > 0 && g.r.chance(1, many_layers) {
        let e = match g.r.below(6) {
            0 => Edit::ManyFrames { n: 200 + g.r.below(200) as u16, seed: g.r.next() },
            4 | 5 => Edit::ManyCels { n: 200 + g.r.below(400) as u16, seed: g.r.next() },
            1 => Edit::ManyExtras { n: 65_400 + g.r.below(400) as u32 },
            _ => Edit::ManyLayers { n: 240 + g.r.below(300) as u16, seed: g.r.next() },
        };
        steps.push(EdStep::Edit(e));
    }
    let np = 1 + g.r.below(7);
    for _ in 0..np {
        let e = g.paint();
        steps.push(EdStep::Edit(e));
    }
    if p == 10 {
        for _ in 0..g.r.below(6) {
            let e = g.link();
            steps.push(EdStep::Edit(e));
        }
    }
    let extra = g.r.below(10);
    for _ in 0..extra {
        let e = g.edit();
        steps.push(EdStep::Edit(e));
    }
    for s in 0..saves {
        if s > 0 {
            let n = 1 + g.r.below(5);
            for _ in 0..n {
                let e = g.edit();
                steps.push(EdStep::Edit(e));
            }
        }
        let opts = g.opts();
        let mode = *g.r.pick(&[
            Mode::Truncate,
            Mode::Overwrite,
            Mode::Overwrite,
            Mode::OverwriteLoseCut,
            Mode::Rename,
            Mode::Rename,
        ]);
        let mode = if s == 0 && mode == Mode::OverwriteLoseCut { Mode::Rename } else { mode };
        steps.push(EdStep::Save {
            mode,
            opts,
            kill_at: (s > 0 && g.r.chance(1, 5)).then(|| g.r.below(1000) as u16),
            sync: g.r.chance(3, 4),
        });
        let us = g.r.logrange(1, 3000) as u32;
        steps.push(EdStep::Wait { us });
    }
    FilePlan {
        steps,
        block: *g.r.pick(&[16u16, 64, 256, 512, 4096]),
        us_per_block: 1 + g.r.below(30) as u16,
    }
}

pub fn gen_pos(r: &mut Rng) -> Pos {
    match r.below(10) {
        0 | 1 => Pos::Any(r.next() as u32),
        2 => Pos::Header(r.below(128) as u8),
        3 | 4 => Pos::Bound(r.next() as u32, r.range(-2, 8) as i8),
        5 => Pos::Payload(r.next() as u32, r.next() as u32),
        _ => Pos::Field(r.next() as u32),
    }
}
fn gen_val(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(16) as u32,
        1 => *r.pick(&[
            0, 1, 2, 3, 4, 5, 6, 7, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000,
            0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFC, 0xFFFF_FFFF,
        ]),
        2 => r.logrange(1, u64::from(u32::MAX)) as u32,
        3 => 1 << r.below(32),
        4 => (1u64 << r.below(33)).wrapping_sub(1) as u32,
        _ => r.next() as u32,
    }
}
pub fn gen_fault(r: &mut Rng) -> Fault {
    match r.below(27) {
        0..=2 => Fault::Flip { at: gen_pos(r), bit: r.below(8) as u8 },
        3 | 4 => Fault::Byte { at: gen_pos(r), val: gen_val(r) as u8 },
        5..=9 => Fault::Field { at: Pos::Field(r.next() as u32), val: gen_val(r) },
        10 | 11 => Fault::Add {
            at: if r.chance(3, 4) { Pos::Field(r.next() as u32) } else { gen_pos(r) },
            delta: *r.pick(&[-8, -4, -2, -1, 1, 1, 2, 4, 8, 256, -256, 65536]),
        },
        12 => Fault::Zero { at: gen_pos(r), len: r.logrange(1, 600) as u16 },
        13 => Fault::Fill { at: gen_pos(r), len: r.logrange(1, 6000) as u16, pattern: r.below(8) as u8 },
        14 => Fault::Swap { a: gen_pos(r), b: gen_pos(r), len: r.logrange(1, 256) as u16 },
        15 => Fault::Dup { from: gen_pos(r), to: gen_pos(r), len: r.logrange(1, 256) as u16 },
        16 => Fault::Stale { at: gen_pos(r), len: r.logrange(1, 600) as u16, age: r.below(4) as u8 },
        17 => Fault::Cut { at: gen_pos(r) },
        18 => Fault::Extend { from: gen_pos(r), len: r.logrange(1, 600) as u16 },
        19 => Fault::Junk { len: r.logrange(1, 300) as u16, seed: r.next() },
        20 => Fault::Insert { at: gen_pos(r), len: 1 + r.below(40) as u8, seed: r.next() },
        21 => Fault::SwapPayload { a: r.next() as u32, b: r.next() as u32 },
        22 | 23 => Fault::Graft { version: r.next() as u32, chunk: r.next() as u32, at: r.next() as u32 },
        24 => Fault::Ungraft { at: r.next() as u32 },
        25 if r.chance(1, 6) => Fault::Nest {
            at: r.next() as u32,
            levels: r.logrange(10, 60_000) as u32,
            kind: r.below(4) as u8,
        },
        _ => Fault::Chunk {
            at: r.next() as u32,
            kind: r.below(14) as u8,
            len: r.logrange(0, 200) as u16,
            seed: r.next(),
        },
    }
}
pub fn gen_payload_fault(r: &mut Rng) -> Fault {
    let at = Pos::Payload(r.next() as u32, r.next() as u32);
    match r.below(8) {
        0..=2 => Fault::Flip { at, bit: r.below(8) as u8 },
        3 => Fault::Byte { at, val: r.byte() },
        4 => Fault::Zero { at, len: r.logrange(1, 200) as u16 },
        5 => Fault::Fill { at, len: r.logrange(1, 300) as u16, pattern: r.below(8) as u8 },
        6 => Fault::SwapPayload { a: r.next() as u32, b: r.next() as u32 },
        // the stream's end (checksum) or beginning (header)
        _ => Fault::Add { at: Pos::Payload(r.next() as u32, if r.chance(1, 2) { 0 } else { u32::MAX }), delta: 1 },
    }
}

fn gen_sel(r: &mut Rng) -> Sel {
    match r.below(8) {
        0 | 1 => Sel::Visible,
        2 => Sel::All,
        3 => Sel::Pred(r.next()),
        4 => Sel::Names(r.next()),
        5 | 6 => Sel::Kept(r.below(4) as u8),
        _ => Sel::Mask(r.below(10) as u16, r.next()),
    }
}
fn gen_buf(r: &mut Rng, p: u32) -> Buf {
    let k = if p == 9 { r.below(10) } else { r.below(16) };
    match k {
        0 | 1 => Buf::Reused,
        2 => Buf::Over(1 + r.logrange(1, 2000) as u16, r.next()),
        3 => Buf::Over(*r.pick(&[1u16, 2, 3, 4, 5]), r.next()),
        4 => Buf::Under(*r.pick(&[1u32, 2, 3, 4, 5, 8]), r.next()),
        5 if p == 9 => Buf::Under(1 + r.logrange(1, 5000) as u32, r.next()),
        6 if p == 9 => Buf::Empty,
        _ => Buf::Exact(r.next()),
    }
}

fn nest(r: &mut Rng, inner: Op) -> Op {
    Op::SelectNest { at: r.below(4) as u8, seed: r.next(), inner: Box::new(inner) }
}

fn gen_op(r: &mut Rng, p: u32) -> Op {
    let render = |r: &mut Rng| Op::Render {
        frame: r.next() as u32,
        sel: gen_sel(r),
        buf: gen_buf(r, p),
    };
    let decode = |r: &mut Rng| Op::Decode { image: r.next() as u32, buf: gen_buf(r, p) };
    match p {
        2 => match r.below(6) {
            0 => Op::DecodeAll { seed: r.next() },
            1 => render(r),
            _ => decode(r),
        },
        3 => match r.below(10) {
            0 => decode(r),
            1 => Op::RenderAll { seed: r.next() },
            2 => Op::Hash { frame: r.next() as u32, buf: gen_buf(r, p) },
            _ => render(r),
        },
        10 => match r.below(6) {
            0 | 1 => Op::Hash { frame: r.next() as u32, buf: gen_buf(r, p) },
            2 => Op::Again,
            3 => render(r),
            _ => Op::HashAll,
        },
        13 => match r.below(4) {
            0 => Op::Inspect,
            1 => decode(r),
            _ => Op::Raw,
        },
        14 => match r.below(6) {
            0 | 1 => Op::Select {
                sel: if r.chance(1, 2) { Sel::Pred(r.next()) } else { Sel::Names(r.next()) },
                keep: r.below(4) as u8,
            },
            2 => Op::SelectPanic { at: r.below(5) as u8 },
            3 if r.chance(1, 3) => {
                let inner = render(r);
                nest(r, inner)
            }
            _ => render(r),
        },
        1 | 4 | 12 => match r.below(8) {
            0 => Op::Raw,
            1 => Op::Again,
            2 => Op::DecodeAll { seed: r.next() },
            3 => Op::RenderAll { seed: r.next() },
            _ => Op::Inspect,
        },
        _ => match r.below(14) {
            0..=4 => render(r),
            5..=7 => decode(r),
            8 => Op::Hash { frame: r.next() as u32, buf: gen_buf(r, p) },
            9 => Op::Select {
                sel: if r.chance(1, 2) { Sel::Pred(r.next()) } else { Sel::Names(r.next()) },
                keep: r.below(4) as u8,
            },
            10 if p == 8 && r.chance(1, 3) => {
                let inner = match r.below(5) {
                    0 => Op::Again,
                    1 => decode(r),
                    2 => Op::SelectPanic { at: r.below(5) as u8 },
                    3 => Op::Inspect,
                    _ => render(r),
                };
                nest(r, inner)
            }
            10 => Op::SelectPanic { at: r.below(5) as u8 },
            11 => Op::Inspect,
            12 => Op::Again,
            _ => Op::Raw,
        },
    }
}

fn gen_strategy(r: &mut Rng) -> Strategy {
    match r.below(10) {
        0 => Strategy::RunToEnd,
        1 => Strategy::RoundRobin { slice: r.logrange(3, 3000) },
        2 | 3 => Strategy::Pct { depth: 1 + r.below(6) as u32 },
        4 | 5 => Strategy::Rare { mean: r.logrange(50, 20_000) },
        _ => Strategy::Random { mean: r.logrange(4, 20_000) },
    }
}

/// Readers that do the same things with the same sprite at the same time.
/// Longest pauses, in microseconds.
const MINUTES: u64 = 4_000_000_000;
fn gen_stall(r: &mut Rng) -> u32 {
    let most = if r.chance(1, 4) { MINUTES } else { 2000 };
    r.logrange(1, most) as u32
}
fn gen_pause(r: &mut Rng, us: u64) -> u32 {
    if r.chance(1, 16) {
        r.logrange(1000, MINUTES) as u32
    } else {
        r.below(us) as u32
    }
}

fn gen_crowd(r: &mut Rng, p: u32) -> Vec<Vec<RStep>> {
    let n = 2 + r.us(5);
    let mut readers = vec![Vec::new(); n];
    readers[0].push(RStep::Final { file: 0 });
    for _ in 0..2 + r.us(7) {
        if readers[0].len() < 2 || r.chance(1, 3) {
            readers[0].push(RStep::Load { file: 0, slot: 0, block: 65535, short: None });
        }
        let same = r.chance(2, 3).then(|| gen_op(r, p));
        let more = r.us(3);
        for steps in &mut readers {
            steps.push(RStep::Meet);
            for k in 0..1 + more {
                let op = match &same {
                    Some(op) if k == 0 || r.chance(2, 3) => op.clone(),
                    _ => gen_op(r, p),
                };
                steps.push(RStep::Op { slot: 0, op });
            }
            if r.chance(1, 40) {
                steps.push(RStep::Sleep { us: gen_pause(r, 500) });
            }
        }
    }
    readers
}

pub fn generate(property: u32, seed: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, u64::from(property), 0x706c616e]));
    let r = &mut r;
    let p = property;
    let nfiles = match p {
        8 | 3 | 14 => 1 + r.us(3),
        _ => 1 + usize::from(r.chance(1, 4)),
    };
    let files: Vec<_> = (0..nfiles)
        .map(|_| {
            let s = match p {
                4 | 1 | 12 | 13 | 14 => 2 + r.below(4) as u32,
                _ => 1 + r.below(3) as u32,
            };
            gen_file(r, p, s)
        })
        .collect();
    let span_us = 12_000;
    let mut faults = Vec::new();
    let nfaults = match p {
        5 | 11 | 6 | 7 | 8 => 1 + r.below(6),
        1 | 2 | 3 | 9 | 10 | 13 | 14 | 12 | 4 => r.below(4),
        _ => 0,
    };
    for _ in 0..nfaults {
        let payload = match p {
            6 | 7 => r.chance(4, 5),
            _ => r.chance(1, 3),
        };
        let fault = match r.below(10) {
            0 => Fault::Crash { seed: r.next() },
            1 => Fault::Flush { seed: r.next() },
            2 | 3 if matches!(p, 8 | 3 | 9 | 10 | 14) => Fault::Stall {
                task: r.below(4) as u8,
                us: gen_stall(r),
            },
            _ if payload => gen_payload_fault(r),
            _ => gen_fault(r),
        };
        faults.push(FaultAt {
            us: r.below(span_us) as u32,
            file: r.us(nfiles) as u8,
            fault,
        });
    }
    let ntasks = match p {
        18 => 1,
        8 => 2 + r.us(3),
        3 | 7 | 9 | 10 | 14 => 1 + r.us(3),
        2 | 6 => 1 + r.us(2),
        _ => 1,
    };
    let crowd = match p {
        8 => r.chance(1, 3),
        3 | 7 | 9 | 10 | 14 => r.chance(1, 10),
        _ => false,
    };
    let mut readers = Vec::new();
    if crowd {
        readers = gen_crowd(r, p);
    }
    for t in 0..if crowd { 0 } else { ntasks } {
        let mut steps = Vec::new();
        let file = |r: &mut Rng| r.us(nfiles) as u8;
        let rounds = 1 + r.us(3);
        if t > 0 && r.chance(1, 2) {
            steps.push(RStep::Sleep { us: gen_pause(r, 2000) });
        }
        for _ in 0..rounds {
            let f = file(r);
            let slot = r.below(3) as u8;
            steps.push(RStep::Load {
                file: f,
                slot,
                block: *r.pick(&[16u16, 128, 1024, 8192, 65535]),
                short: r.chance(1, 12).then(|| r.below(1000) as u16),
            });
            let nops = match p {
                1 | 4 | 12 | 13 => 1 + r.us(3),
                5 | 11 => 2 + r.us(4),
                8 => 3 + r.us(8),
                _ => 2 + r.us(7),
            };
            for _ in 0..nops {
                let slot = if r.chance(3, 4) { slot } else { r.below(3) as u8 };
                steps.push(RStep::Op { slot, op: gen_op(r, p) });
                if r.chance(1, 10) {
                    steps.push(RStep::Sleep { us: gen_pause(r, 500) });
                }
            }
            if r.chance(1, 4) {
                steps.push(RStep::Drop { slot: r.below(3) as u8 });
            }
            match p {
                4 => {
                    steps.push(RStep::Cuts {
                        file: f,
                        stride: *r.pick(&[1u16, 1, 2, 3]),
                        only: None,
                    });
                    steps.push(RStep::Tails { file: f, seed: r.next(), count: 12, only: None });
                }
                5 | 11 => {
                    if p == 11 && r.chance(1, 4) {
                        steps.push(RStep::Scale {
                            shape: r.below(crate::scale::SHAPES.into()) as u8,
                            n: r.range(300, 600) as u32,
                            seed: r.next(),
                        });
                    }
                    steps.push(RStep::Rot { file: f, seed: r.next(), count: 40, only: None });
                }
                6 => {
                    steps.push(RStep::PayloadRot { file: f, seed: r.next(), count: 16, only: None });
                    if r.chance(1, 3) {
                        steps.push(RStep::Rot { file: f, seed: r.next(), count: 10, only: None });
                    }
                }
                7 => steps.push(RStep::PayloadRot { file: f, seed: r.next(), count: 8, only: None }),
                8 | 9 => {
                    if r.chance(1, 3) {
                        steps.push(RStep::PayloadRot { file: f, seed: r.next(), count: 3, only: None });
                    }
                }
                _ => {
                    if r.chance(1, 3) {
                        steps.push(RStep::Rot { file: f, seed: r.next(), count: 3, only: None });
                    }
                }
            }
            if r.chance(1, 3) {
                steps.push(RStep::Sleep { us: gen_pause(r, 4000) });
            }
        }
        if t == 0 || r.chance(1, 2) {
            steps.push(RStep::Final { file: file(r) });
            let slot = r.below(3) as u8;
            let f = file(r);
            steps.push(RStep::Load { file: f, slot, block: 65535, short: None });
            for _ in 0..1 + r.us(3) {
                steps.push(RStep::Op { slot, op: gen_op(r, p) });
            }
        }
        readers.push(steps);
    }
    if p == 18 {
        for _ in 0..1 + r.us(2) {
            let f = r.us(nfiles) as u8;
            readers[0].push(RStep::Churn { file: f, seed: r.next(), keep: r.chance(1, 4) });
        }
    }
    let endure = match p {
        8 => 25,
        2 | 3 | 7 | 9 | 10 | 14 => 120,
        _ => 0,
    };
    if endure > 0 && r.chance(1, endure) {
        if r.chance(3, 4) {
            readers.truncate(1);
        }
        let n = *r.pick(&[300u32, 1100, 5000, 70_000, 70_000]);
        readers[0].push(RStep::Endure { slot: r.below(3) as u8, seed: r.next(), n });
    }
    let huge = match p {
        1 | 10 | 13 => 150,
        12 => 250,
        2 | 3 => 300,
        6 | 7 | 9 => 400,
        14 => 500,
        _ => 0,
    };
    if huge > 0 && r.chance(1, huge) {
        readers[0].push(RStep::Huge {
            shape: match p {
                10 => *r.pick(&[0, 1, 9]),
                2 | 3 | 14 => *r.pick(&[0, 1, 2, 3, 4, 9, 9, 9, 9, 9]),
                6 | 7 | 9 => 9,
                _ => r.below(crate::scale::HUGE_SHAPES.into()) as u8,
            },
            n: *r.pick(&[65535u16, 65535, 65534, 65533, 32769, 40000]),
            seed: r.next(),
        });
    }
    Plan {
        property,
        seed,
        files,
        faults,
        readers,
        strategy: gen_strategy(r),
        schedule: None,
        alone: match p {
            8 => 10,
            10 => 4,
            _ => 0,
        },
    }
}
