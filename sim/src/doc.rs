//! The editor's document model: what was saved. Everything is generated from
//! explicit numbers so that a plan stays small and shrinkable.

use crate::prng::Rng;
use crate::zlib::Storage;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Depth {
    Rgba,
    Gray,
    Indexed,
}
impl Depth {
    pub fn bpp(self) -> u16 {
        match self {
            Depth::Rgba => 32,
            Depth::Gray => 16,
            Depth::Indexed => 8,
        }
    }
    pub fn px(self) -> usize {
        usize::from(self.bpp()) / 8
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(u8),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Fixed(u32),
    F32(u32),
    F64(u64),
    Str(String),
    Point(i32, i32),
    Size(i32, i32),
    Rect(i32, i32, i32, i32),
    /// Element type (0 = mixed) and elements.
    Vec(u16, Vec<Val>),
    Map(Vec<(String, Val)>),
    Uuid([u8; 16]),
}
impl Val {
    pub fn code(&self) -> u16 {
        match self {
            Val::Bool(_) => 1,
            Val::I8(_) => 2,
            Val::U8(_) => 3,
            Val::I16(_) => 4,
            Val::U16(_) => 5,
            Val::I32(_) => 6,
            Val::U32(_) => 7,
            Val::I64(_) => 8,
            Val::U64(_) => 9,
            Val::Fixed(_) => 10,
            Val::F32(_) => 11,
            Val::F64(_) => 12,
            Val::Str(_) => 13,
            Val::Point(..) => 14,
            Val::Size(..) => 15,
            Val::Rect(..) => 16,
            Val::Vec(..) => 17,
            Val::Map(_) => 18,
            Val::Uuid(_) => 19,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ud {
    pub text: Option<String>,
    pub color: Option<[u8; 4]>,
    /// `(key, properties)` for each map.
    pub maps: Option<Vec<(u32, Vec<(String, Val)>)>>,
}

/// Names: class 0 short, 1 empty, 2 multi-byte, 3 boundary lengths, 4 maximum.
pub fn gen_name(seed: u64, class: u8) -> String {
    let mut r = Rng::new(seed ^ 0x6e61_6d65);
    let ascii = |r: &mut Rng, n: usize| -> String {
        (0..n)
            .map(|_| char::from(b' ' + r.below(95) as u8))
            .collect()
    };
    match class {
        1 => String::new(),
        2 => {
            let n = r.us(12);
            (0..n)
                .map(|_| {
                    *r.pick(&['é', 'ß', 'λ', '猫', '😀', 'Z', '\u{0}', '\u{7ff}', '\u{ffff}'])
                })
                .collect()
        }
        3 => {
            let n = *r.pick(&[
                15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 254, 255, 256, 257, 511, 512, 1000,
            ]);
            ascii(&mut r, n)
        }
        4 => {
            let n = *r.pick(&[32767usize, 32768, 65534, 65535]);
            ascii(&mut r, n)
        }
        _ => {
            let n = 1 + r.us(12);
            ascii(&mut r, n)
        }
    }
}

fn gen_scalar(r: &mut Rng, code: u16, budget: &mut i32, depth: u32) -> Val {
    *budget -= 1;
    match code {
        1 => Val::Bool(*r.pick(&[0, 1, 1, 2, 255])),
        2 => Val::I8(r.byte() as i8),
        3 => Val::U8(r.byte()),
        4 => Val::I16(r.next() as i16),
        5 => Val::U16(r.next() as u16),
        6 => Val::I32(r.next() as i32),
        7 => Val::U32(r.next() as u32),
        8 => Val::I64(r.next() as i64),
        9 => Val::U64(r.next()),
        10 => Val::Fixed(r.next() as u32),
        11 => Val::F32(r.next() as u32),
        12 => Val::F64(r.next()),
        13 => {
            let (s, c) = (r.next(), [0u8, 0, 1, 2, 3][r.us(5)]);
            Val::Str(gen_name(s, c))
        }
        14 => Val::Point(r.next() as i32, r.next() as i32),
        15 => Val::Size(r.next() as i32, r.next() as i32),
        16 => Val::Rect(
            r.next() as i32,
            r.next() as i32,
            r.next() as i32,
            r.next() as i32,
        ),
        17 => gen_vec(r, budget, depth + 1),
        18 => Val::Map(gen_props(r, budget, depth + 1)),
        _ => {
            let mut b = [0u8; 16];
            for x in &mut b {
                *x = r.byte();
            }
            Val::Uuid(b)
        }
    }
}
fn gen_code(r: &mut Rng, budget: i32, depth: u32) -> u16 {
    let c = 1 + r.below(19) as u16;
    if (c == 17 || c == 18) && (budget <= 0 || depth >= 5) {
        13
    } else {
        c
    }
}
fn gen_vec(r: &mut Rng, budget: &mut i32, depth: u32) -> Val {
    let n = r.us(4);
    if r.chance(1, 3) {
        let items = (0..n)
            .map(|_| {
                let c = gen_code(r, *budget, depth);
                gen_scalar(r, c, budget, depth)
            })
            .collect();
        Val::Vec(0, items)
    } else {
        let c = gen_code(r, *budget, depth);
        Val::Vec(c, (0..n).map(|_| gen_scalar(r, c, budget, depth)).collect())
    }
}
fn gen_props(r: &mut Rng, budget: &mut i32, depth: u32) -> Vec<(String, Val)> {
    let n = r.us(4);
    (0..n)
        .map(|_| {
            let c = gen_code(r, *budget, depth);
            let s = r.next();
            let cl = u8::from(r.chance(1, 8)) * 2;
            (gen_name(s, cl), gen_scalar(r, c, budget, depth))
        })
        .collect()
}

/// Richness 0: text/colour only; 1: with properties; 2: with long text.
pub fn gen_ud(seed: u64, rich: u8) -> Ud {
    let mut r = Rng::new(seed ^ 0x7564);
    let mut ud = Ud::default();
    if r.chance(2, 3) {
        let (s, c) = (r.next(), if rich == 2 { 4 } else { [0u8, 0, 2, 3, 1][r.us(5)] });
        ud.text = Some(gen_name(s, c));
    }
    if r.chance(1, 2) {
        ud.color = Some([r.byte(), r.byte(), r.byte(), r.byte()]);
    }
    if rich >= 1 {
        let mut budget = 24;
        let n = r.us(3);
        ud.maps = Some(
            (0..n)
                .map(|i| {
                    let key = if i == 0 { 0 } else { r.next() as u32 };
                    (key, gen_props(&mut r, &mut budget, 0))
                })
                .collect(),
        );
    }
    ud
}

#[derive(Clone, Debug)]
pub struct LayerM {
    pub kind: u16,
    pub flags: u16,
    pub level: u16,
    pub blend: u16,
    pub opacity: u8,
    pub name: String,
    pub tileset: u32,
    pub ud: Option<Ud>,
}
#[derive(Clone, Debug)]
pub struct ImageM {
    pub w: u16,
    pub h: u16,
    pub style: u8,
    pub seed: u64,
    pub storage: Storage,
    /// Not 0: a few bytes differ from the image this is a copy of.
    pub touch: u64,
}
#[derive(Clone, Debug)]
pub enum ContentM {
    Image(ImageM),
    Link(u32),
    Tilemap { w: u16, h: u16, seed: u64 },
    Unknown { code: u16, seed: u64 },
}
#[derive(Clone, Debug)]
pub struct CelM {
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub content: ContentM,
    pub extra: Option<u64>,
    pub ud: Option<Ud>,
}
#[derive(Clone, Debug, Default)]
pub struct FrameM {
    pub duration: u16,
    pub cels: BTreeMap<u32, CelM>,
}
#[derive(Clone, Debug)]
pub struct TagM {
    pub from: u16,
    pub to: u16,
    pub dir: u8,
    pub repeat: u16,
    pub color: [u8; 3],
    pub name: String,
}
#[derive(Clone, Debug)]
pub struct SliceKeyM {
    pub frame: u32,
    pub rect: [i32; 4],
    pub nine: [i32; 4],
    pub pivot: [i32; 2],
}
#[derive(Clone, Debug)]
pub struct SliceM {
    pub name: String,
    pub flags: u32,
    pub keys: Vec<SliceKeyM>,
    pub ud: Option<Ud>,
}
/// One palette chunk of each of the three kinds.
#[derive(Clone, Debug)]
pub enum PalChunkM {
    New {
        first: u8,
        colors: Vec<([u8; 4], Option<String>)>,
        total: u32,
    },
    Old4(Vec<(u8, Vec<[u8; 3]>)>),
    Old11(Vec<(u8, Vec<[u8; 3]>)>),
}
/// Chunks only visible at the binary level.
#[derive(Clone, Debug)]
pub enum ExtraM {
    Profile { kind: u16, flags: u16, gamma: u32, icc: Vec<u8> },
    External(Vec<(u32, u8, String)>),
    Mask { x: i16, y: i16, w: u16, h: u16, name: String, data: Vec<u8> },
    Path,
    Tileset {
        id: u32,
        flags: u32,
        count: u32,
        w: u16,
        h: u16,
        base: i16,
        name: String,
        ext: (u32, u32),
        data: Vec<u8>,
        ud: Option<Ud>,
    },
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub w: u16,
    pub h: u16,
    pub depth: Depth,
    pub transparent: u8,
    pub speed: u16,
    pub colors: u16,
    pub pixel: (u8, u8),
    pub grid: (i16, i16, u16, u16),
    pub palette: Vec<PalChunkM>,
    pub layers: Vec<LayerM>,
    pub frames: Vec<FrameM>,
    pub tags: Vec<TagM>,
    /// Whether each tag gets a user data chunk, and its seed.
    pub tag_ud: Option<u64>,
    pub slices: Vec<SliceM>,
    pub ud: Option<Ud>,
    pub extras: Vec<ExtraM>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum UdTarget {
    Sprite,
    Layer(u32),
    Cel(u32, u32),
    Tags,
    Slice(u32),
}

/// One edit. Out-of-range numbers are reduced modulo what exists; an edit that
/// makes no sense on the current document does nothing.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    New { depth: Depth, w: u16, h: u16, transparent: u8, seed: u64 },
    AddLayer { kind: u16, flags: u16, level: u16, blend: u16, opacity: u8, name: u64, class: u8 },
    ManyLayers { n: u16, seed: u64 },
    DelLayer { layer: u32 },
    SetLayer { layer: u32, flags: u16, blend: u16, opacity: u8 },
    Rename { layer: u32, name: u64, class: u8 },
    AddFrame { duration: u16 },
    ManyFrames { n: u16, seed: u64 },
    /// So many frames with a tiny image (or a link) on a layer or two.
    ManyCels { n: u16, seed: u64 },
    DelFrame { frame: u32 },
    Paint {
        frame: u32, layer: u32, x: i16, y: i16, w: u16, h: u16,
        style: u8, seed: u64, storage: Storage, opacity: u8, z: i16,
    },
    Link { frame: u32, layer: u32, target: u32, x: i16, y: i16, opacity: u8, z: i16 },
    Move { frame: u32, layer: u32, x: i16, y: i16 },
    Erase { frame: u32, layer: u32 },
    CelExtra { frame: u32, layer: u32, seed: u64 },
    Tilemap { frame: u32, layer: u32, w: u16, h: u16, seed: u64 },
    OddCel { frame: u32, layer: u32, code: u16, seed: u64 },
    Tags { n: u16, seed: u64, class: u8 },
    AddSlice { keys: u16, flags: u32, seed: u64, class: u8 },
    DelSlice { slice: u32 },
    Palette { kind: u8, seed: u64 },
    UserData { target: UdTarget, seed: u64, rich: u8 },
    Extra { kind: u8, seed: u64 },
    ClearExtras,
    ManyExtras { n: u32 },
}

fn gen_packets(r: &mut Rng, six: bool) -> Vec<(u8, Vec<[u8; 3]>)> {
    let mut out = Vec::new();
    let col = |r: &mut Rng| -> [u8; 3] {
        let f = |r: &mut Rng| if six { r.byte() & 63 } else { r.byte() };
        [f(r), f(r), f(r)]
    };
    if r.chance(1, 4) {
        out.push((0, (0..256).map(|_| col(r)).collect()));
        return out;
    }
    let mut pos = 0u32;
    let packets = 1 + r.us(4);
    for _ in 0..packets {
        let skip = if r.chance(1, 2) { 0 } else { r.below(60) as u32 };
        let n = 1 + r.below(60) as u32;
        if pos + skip + n > 256 {
            break;
        }
        pos += skip + n;
        out.push((skip as u8, (0..n).map(|_| col(r)).collect()));
    }
    if out.is_empty() {
        out.push((0, vec![col(r)]));
    }
    out
}

pub fn gen_palette(kind: u8, seed: u64) -> Vec<PalChunkM> {
    let mut r = Rng::new(seed ^ 0x70616c);
    let entry = |r: &mut Rng| -> ([u8; 4], Option<String>) {
        let a = if r.chance(3, 4) { 255 } else { r.byte() };
        let name = if r.chance(1, 6) {
            let s = r.next();
            Some(gen_name(s, [0u8, 1, 2, 3][r.us(4)]))
        } else {
            None
        };
        ([r.byte(), r.byte(), r.byte(), a], name)
    };
    let full = |r: &mut Rng| PalChunkM::New {
        first: 0,
        colors: (0..256).map(|_| entry(r)).collect(),
        total: 256,
    };
    match kind {
        // complete new palette
        0 => vec![full(&mut r)],
        // complete palette plus a later partial change
        1 => {
            let a = full(&mut r);
            let first = r.byte();
            let n = 1 + r.us(256 - usize::from(first));
            let b = PalChunkM::New {
                first,
                colors: (0..n).map(|_| entry(&mut r)).collect(),
                total: 256,
            };
            vec![a, b]
        }
        // short palette from 0
        2 => {
            let n = 1 + r.us(40);
            vec![PalChunkM::New {
                first: 0,
                colors: (0..n).map(|_| entry(&mut r)).collect(),
                total: n as u32,
            }]
        }
        // old 8-bit palette only
        3 => vec![PalChunkM::Old4(gen_packets(&mut r, false))],
        // old 6-bit palette only
        4 => vec![PalChunkM::Old11(gen_packets(&mut r, true))],
        // compatibility copies next to the new palette
        5 => vec![PalChunkM::Old4(gen_packets(&mut r, false)), full(&mut r)],
        6 => vec![
            full(&mut r),
            PalChunkM::Old11(gen_packets(&mut r, true)),
            PalChunkM::Old4(gen_packets(&mut r, false)),
        ],
        // both old kinds
        7 => vec![
            PalChunkM::Old11(gen_packets(&mut r, true)),
            PalChunkM::Old4(gen_packets(&mut r, false)),
        ],
        _ => {
            // two old palettes, later one overriding
            vec![
                PalChunkM::Old4(gen_packets(&mut r, false)),
                PalChunkM::Old4(gen_packets(&mut r, false)),
            ]
        }
    }
}

fn gen_extra(kind: u8, seed: u64) -> ExtraM {
    let mut r = Rng::new(seed ^ 0x6578);
    let bytes = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.byte()).collect() };
    let odd = kind >= 16;
    match kind % 16 % 5 {
        0 => {
            let kind = if odd { r.next() as u16 } else { *r.pick(&[0u16, 1, 2, 2]) };
            let n = r.us(40);
            ExtraM::Profile {
                kind,
                flags: r.below(2) as u16,
                gamma: r.next() as u32,
                icc: bytes(&mut r, n),
            }
        }
        1 => {
            let n = r.us(5);
            ExtraM::External(
                (0..n)
                    .map(|_| {
                        let (s, c) = (r.next(), [0u8, 1, 2, 3][r.us(4)]);
                        (r.next() as u32, if odd { r.byte() } else { r.below(3) as u8 }, gen_name(s, c))
                    })
                    .collect(),
            )
        }
        2 => {
            let (w, h) = (r.below(40) as u16, r.below(20) as u16);
            let n = usize::from(h) * ((usize::from(w) + 7) / 8);
            let (s, c) = (r.next(), [0u8, 1, 2][r.us(3)]);
            ExtraM::Mask {
                x: r.next() as i16,
                y: r.next() as i16,
                w,
                h,
                name: gen_name(s, c),
                data: bytes(&mut r, n),
            }
        }
        3 => ExtraM::Path,
        _ => {
            let (s, c) = (r.next(), [0u8, 1, 2, 3][r.us(4)]);
            let n = r.us(50);
            let ud_seed = r.next();
            ExtraM::Tileset {
                id: r.next() as u32,
                flags: r.below(64) as u32,
                count: r.next() as u32,
                w: r.next() as u16,
                h: r.next() as u16,
                base: r.next() as i16,
                name: gen_name(s, c),
                ext: (r.next() as u32, r.next() as u32),
                data: bytes(&mut r, n),
                ud: r.chance(1, 3).then(|| gen_ud(ud_seed, 1)),
            }
        }
    }
}

pub fn gen_duration(r: &mut Rng) -> u16 {
    match r.below(5) {
        0 => *r.pick(&[0u16, 1, 2, 255, 256, 32767, 32768, 65535]),
        _ => r.next() as u16,
    }
}

/// Stored (not yet compressed) pixel bytes of an image.
pub fn pixels(depth: Depth, im: &ImageM) -> Vec<u8> {
    let n = usize::from(im.w) * usize::from(im.h);
    let px = depth.px();
    let mut r = Rng::new(im.seed ^ 0x7078);
    let mut out = vec![0u8; n * px];
    const EXT: [u8; 10] = [0, 1, 2, 63, 64, 127, 128, 129, 254, 255];
    match im.style {
        // noise
        0 => {
            for b in &mut out {
                *b = r.byte();
            }
        }
        // one colour
        1 => {
            let c = [r.byte(), r.byte(), r.byte(), r.byte()];
            for (i, b) in out.iter_mut().enumerate() {
                *b = c[i % px];
            }
        }
        // gradient
        2 => {
            for (i, b) in out.iter_mut().enumerate() {
                *b = ((i / px) * 7 + (i % px) * 50) as u8;
            }
        }
        // extreme values
        3 => {
            for b in &mut out {
                *b = *r.pick(&EXT);
            }
        }
        // mostly transparent
        4 => {
            for p in out.chunks_mut(px) {
                if r.chance(1, 3) {
                    for b in p.iter_mut() {
                        *b = r.byte();
                    }
                }
            }
        }
        // runs
        5 => {
            let mut c = [0u8; 4];
            let mut left = 0;
            for p in out.chunks_mut(px) {
                if left == 0 {
                    left = r.logrange(1, 300);
                    c = [r.byte(), r.byte(), r.byte(), r.byte()];
                }
                left -= 1;
                p.copy_from_slice(&c[..px]);
            }
        }
        // opaque noise
        6 => {
            for p in out.chunks_mut(px) {
                for b in p.iter_mut() {
                    *b = r.byte();
                }
                if px > 1 {
                    p[px - 1] = 255;
                }
            }
        }
        // grey-ish: equal channels and near-equal channels (ties)
        7 => {
            for p in out.chunks_mut(px) {
                let v = r.byte();
                for b in p.iter_mut() {
                    *b = v.wrapping_add(r.below(2) as u8);
                }
            }
        }
        // nearly invisible, over and under nearly invisible
        9 => {
            for p in out.chunks_mut(px) {
                for b in p.iter_mut() {
                    *b = if r.chance(1, 2) { *r.pick(&EXT) } else { r.byte() };
                }
                if px > 1 {
                    p[px - 1] = r.below(4) as u8;
                }
            }
        }
        // opaque, one colour
        _ => {
            let c = [r.byte(), r.byte(), r.byte(), 255];
            for (i, b) in out.iter_mut().enumerate() {
                *b = if px == 2 && i % 2 == 1 { 255 } else { c[i % px] };
            }
        }
    }
    if im.touch != 0 && !out.is_empty() {
        let mut r = Rng::new(im.touch);
        for _ in 0..1 + r.us(2) {
            let i = if r.chance(1, 2) { out.len() - 1 - r.us(out.len().min(8)) } else { r.us(out.len()) };
            out[i] ^= 1 << r.us(8);
        }
    }
    out
}

impl Doc {
    pub fn new(depth: Depth, w: u16, h: u16, transparent: u8, seed: u64) -> Doc {
        let mut r = Rng::new(seed ^ 0x646f63);
        Doc {
            w,
            h,
            depth,
            transparent,
            speed: r.next() as u16,
            colors: r.next() as u16,
            pixel: (r.byte(), r.byte()),
            grid: (
                r.next() as i16,
                r.next() as i16,
                r.next() as u16,
                r.next() as u16,
            ),
            palette: if depth == Depth::Indexed {
                gen_palette([0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8][r.us(13)], seed)
            } else {
                Vec::new()
            },
            layers: Vec::new(),
            frames: vec![FrameM {
                duration: 100,
                ..FrameM::default()
            }],
            tags: Vec::new(),
            tag_ud: None,
            slices: Vec::new(),
            ud: None,
            extras: Vec::new(),
        }
    }

    fn frame_ix(&self, f: u32) -> usize {
        f as usize % self.frames.len()
    }
    fn layer_ix(&self, l: u32) -> Option<u32> {
        (!self.layers.is_empty()).then(|| l % self.layers.len() as u32)
    }
    /// Layer for image cels: normal and group layers only.
    fn image_layer(&self, l: u32) -> Option<u32> {
        let n = self.layers.len() as u32;
        (0..n)
            .map(|i| (l % n.max(1) + i) % n)
            .find(|i| self.layers[*i as usize].kind <= 1)
    }
    fn cel_mut(&mut self, f: u32, l: u32) -> Option<&mut CelM> {
        let fi = self.frame_ix(f);
        let fr = &mut self.frames[fi];
        let n = fr.cels.len();
        if n == 0 {
            return None;
        }
        fr.cels.values_mut().nth(l as usize % n)
    }
    /// Target of a link, if it is an image cel.
    pub fn link_target(&self, layer: u32, target: u32) -> Option<&ImageM> {
        match &self.frames.get(target as usize)?.cels.get(&layer)?.content {
            ContentM::Image(i) => Some(i),
            _ => None,
        }
    }

    fn resolve_links_to(&mut self, frame: usize, layer: Option<u32>) {
        // cels linking to what is about to go away become copies; the first copy
        // takes over, later ones link to it
        let mut taken: BTreeMap<u32, u32> = BTreeMap::new();
        let src = self.frames[frame].clone();
        for (fi, fr) in self.frames.iter_mut().enumerate() {
            if fi == frame {
                continue;
            }
            for (l, cel) in fr.cels.iter_mut() {
                if layer.map(|x| x != *l).unwrap_or(false) {
                    continue;
                }
                if let ContentM::Link(t) = cel.content {
                    if t as usize == frame {
                        if let Some(first) = taken.get(l) {
                            cel.content = ContentM::Link(*first);
                        } else if let Some(CelM {
                            content: ContentM::Image(im),
                            ..
                        }) = src.cels.get(l)
                        {
                            cel.content = ContentM::Image(im.clone());
                            taken.insert(*l, fi as u32);
                        }
                    }
                }
            }
        }
    }

    pub fn apply(&mut self, e: &Edit) {
        match e {
            Edit::New { depth, w, h, transparent, seed } => {
                *self = Doc::new(*depth, *w, *h, *transparent, *seed);
            }
            Edit::AddLayer { kind, flags, level, blend, opacity, name, class } => {
                if self.layers.len() < 2000 {
                    self.layers.push(LayerM {
                        kind: *kind,
                        flags: *flags,
                        level: *level,
                        blend: *blend,
                        opacity: *opacity,
                        name: gen_name(*name, *class),
                        tileset: *name as u32,
                        ud: None,
                    });
                }
            }
            Edit::ManyLayers { n, seed } => {
                let mut r = Rng::new(*seed);
                for _ in 0..*n {
                    self.layers.push(LayerM {
                        kind: u16::from(r.chance(1, 12)),
                        flags: r.below(128) as u16,
                        level: 0,
                        blend: 0,
                        opacity: r.byte(),
                        name: gen_name(r.next(), 0),
                        tileset: 0,
                        ud: None,
                    });
                }
            }
            Edit::DelLayer { layer } => {
                if self.layers.len() > 1 {
                    let l = self.layer_ix(*layer).unwrap();
                    self.layers.remove(l as usize);
                    for fr in &mut self.frames {
                        fr.cels = std::mem::take(&mut fr.cels)
                            .into_iter()
                            .filter(|(k, _)| *k != l)
                            .map(|(k, v)| (if k > l { k - 1 } else { k }, v))
                            .collect();
                    }
                }
            }
            Edit::SetLayer { layer, flags, blend, opacity } => {
                if let Some(l) = self.layer_ix(*layer) {
                    let l = &mut self.layers[l as usize];
                    l.flags = *flags;
                    l.blend = *blend;
                    l.opacity = *opacity;
                }
            }
            Edit::Rename { layer, name, class } => {
                if let Some(l) = self.layer_ix(*layer) {
                    self.layers[l as usize].name = gen_name(*name, *class);
                }
            }
            Edit::AddFrame { duration } => self.frames.push(FrameM {
                duration: *duration,
                ..FrameM::default()
            }),
            Edit::ManyFrames { n, seed } => {
                let mut r = Rng::new(*seed);
                for _ in 0..*n {
                    self.frames.push(FrameM {
                        duration: gen_duration(&mut r),
                        ..FrameM::default()
                    });
                }
            }
            Edit::ManyCels { n, seed } => {
                let mut r = Rng::new(*seed);
                let sizes = [(1u16, 1u16), (2, 1), (0, 0), (1, 3)];
                let size = *r.pick(&sizes);
                // all alike but for what the images hold
                let alike = r.chance(1, 2);
                let one = r.next() as u32;
                for _ in 0..*n {
                    let f = self.frames.len();
                    self.frames.push(FrameM {
                        duration: gen_duration(&mut r),
                        ..FrameM::default()
                    });
                    for _ in 0..if alike { 1 } else { 1 + r.us(2) } {
                        let which = if alike { one } else { r.next() as u32 };
                        let Some(l) = self.image_layer(which) else { continue };
                        let target = r.us(f + 1);
                        let link = !alike && r.chance(1, 4) && target != f && self.link_target(l, target as u32).is_some();
                        let content = if link {
                            ContentM::Link(target as u32)
                        } else {
                            let (w, h) = if alike { (1, 2) } else if r.chance(7, 8) { size } else { *r.pick(&sizes) };
                            ContentM::Image(ImageM { w, h, style: 0, seed: r.next(), storage: Storage::Raw, touch: 0 })
                        };
                        let cel = CelM {
                            x: if alike { 0 } else { r.below(3) as i16 },
                            y: 0,
                            opacity: 255,
                            z: 0,
                            content,
                            extra: None,
                            ud: None,
                        };
                        let _ = self.frames[f].cels.insert(l, cel);
                    }
                }
            }
            Edit::DelFrame { frame } => {
                if self.frames.len() > 1 {
                    let f = self.frame_ix(*frame);
                    self.resolve_links_to(f, None);
                    self.frames.remove(f);
                    for fr in &mut self.frames {
                        for cel in fr.cels.values_mut() {
                            if let ContentM::Link(t) = &mut cel.content {
                                if *t as usize > f {
                                    *t -= 1;
                                }
                            }
                        }
                    }
                }
            }
            Edit::Paint { frame, layer, x, y, w, h, style, seed, storage, opacity, z } => {
                let f = self.frame_ix(*frame);
                if let Some(mut l) = self.image_layer(*layer) {
                    let (mut x, mut y) = (*x, *y);
                    let mut image = ImageM { w: *w, h: *h, style: *style, seed: *seed, storage: *storage, touch: 0 };
                    // a copy of an image there is, retouched or as it is
                    if *style >= 10 {
                        let all: Vec<(u32, &CelM, &ImageM)> = self
                            .frames
                            .iter()
                            .flat_map(|f| f.cels.iter())
                            .filter_map(|(l, c)| match &c.content {
                                ContentM::Image(i) => Some((*l, c, i)),
                                _ => None,
                            })
                            .collect();
                        if !all.is_empty() {
                            let (layer, cel, of) = all[(*seed % all.len() as u64) as usize];
                            image = ImageM {
                                storage: if seed & 0x100 == 0 { of.storage } else { *storage },
                                touch: if *style == 10 { *seed | 1 } else { of.touch },
                                ..of.clone()
                            };
                            // at the same place
                            if seed & 0x600 == 0 {
                                (l, x, y) = (layer, cel.x, cel.y);
                            }
                        }
                    }
                    let old = self.frames[f].cels.get(&l);
                    let (extra, ud) = old
                        .map(|c| (c.extra, c.ud.clone()))
                        .unwrap_or((None, None));
                    let _ = self.frames[f].cels.insert(
                        l,
                        CelM {
                            x,
                            y,
                            opacity: *opacity,
                            z: *z,
                            content: ContentM::Image(image),
                            extra,
                            ud,
                        },
                    );
                }
            }
            Edit::Link { frame, layer, target, x, y, opacity, z } => {
                let f = self.frame_ix(*frame);
                if let Some(l) = self.image_layer(*layer) {
                    // nearest frame at or after the wanted one with an image there
                    let n = self.frames.len();
                    let t = (0..n)
                        .map(|i| (self.frame_ix(*target) + i) % n)
                        .find(|t| *t != f && self.link_target(l, *t as u32).is_some());
                    if let Some(t) = t {
                        self.resolve_links_to(f, Some(l));
                        let _ = self.frames[f].cels.insert(
                            l,
                            CelM {
                                x: *x,
                                y: *y,
                                opacity: *opacity,
                                z: *z,
                                content: ContentM::Link(t as u32),
                                extra: None,
                                ud: None,
                            },
                        );
                        // a copy made above may have replaced the target by a link
                        // back to `f`; the link then would not resolve
                        if self.link_target(l, t as u32).is_none() {
                            let _ = self.frames[f].cels.remove(&l);
                        }
                    }
                }
            }
            Edit::Move { frame, layer, x, y } => {
                if let Some(c) = self.cel_mut(*frame, *layer) {
                    c.x = *x;
                    c.y = *y;
                }
            }
            Edit::Erase { frame, layer } => {
                let f = self.frame_ix(*frame);
                let n = self.frames[f].cels.len();
                if n > 0 {
                    let l = *self.frames[f]
                        .cels
                        .keys()
                        .nth(*layer as usize % n)
                        .unwrap();
                    self.resolve_links_to(f, Some(l));
                    let _ = self.frames[f].cels.remove(&l);
                }
            }
            Edit::CelExtra { frame, layer, seed } => {
                if let Some(c) = self.cel_mut(*frame, *layer) {
                    c.extra = Some(*seed);
                }
            }
            Edit::Tilemap { frame, layer, w, h, seed } => {
                let f = self.frame_ix(*frame);
                let n = self.layers.len() as u32;
                let l = (0..n)
                    .map(|i| (*layer + i) % n.max(1))
                    .find(|i| self.layers[*i as usize].kind == 2);
                if let Some(l) = l {
                    let _ = self.frames[f].cels.insert(
                        l,
                        CelM {
                            x: 1,
                            y: -1,
                            opacity: 200,
                            z: 0,
                            content: ContentM::Tilemap { w: *w, h: *h, seed: *seed },
                            extra: None,
                            ud: None,
                        },
                    );
                }
            }
            Edit::OddCel { frame, layer, code, seed } => {
                let f = self.frame_ix(*frame);
                if let Some(l) = self.layer_ix(*layer) {
                    self.resolve_links_to(f, Some(l));
                    let _ = self.frames[f].cels.insert(
                        l,
                        CelM {
                            x: -3,
                            y: 4,
                            opacity: 255,
                            z: 1,
                            content: ContentM::Unknown { code: *code, seed: *seed },
                            extra: None,
                            ud: None,
                        },
                    );
                }
            }
            Edit::Tags { n, seed, class } => {
                let mut r = Rng::new(*seed);
                self.tags = (0..*n)
                    .map(|_| {
                        let (a, b) = match r.below(4) {
                            0 => (r.next() as u16, r.next() as u16),
                            _ => (
                                r.us(self.frames.len()) as u16,
                                r.us(self.frames.len()) as u16,
                            ),
                        };
                        TagM {
                            from: a.min(b),
                            to: a.max(b),
                            dir: if *class >= 16 { r.byte() } else { r.below(4) as u8 },
                            repeat: *r.pick(&[0u16, 0, 1, 2, 255, 256, 65535]),
                            color: [r.byte(), r.byte(), r.byte()],
                            name: gen_name(r.next(), *class & 15),
                        }
                    })
                    .collect();
            }
            Edit::AddSlice { keys, flags, seed, class } => {
                let mut r = Rng::new(*seed);
                let v = |r: &mut Rng| match r.below(3) {
                    0 => r.next() as i32,
                    _ => r.range(-50, 300) as i32,
                };
                self.slices.push(SliceM {
                    name: gen_name(*seed, *class),
                    flags: *flags & 3,
                    keys: (0..*keys)
                        .map(|i| SliceKeyM {
                            frame: if r.chance(1, 5) { r.next() as u32 } else { i.into() },
                            rect: [v(&mut r), v(&mut r), v(&mut r), v(&mut r)],
                            nine: [v(&mut r), v(&mut r), v(&mut r), v(&mut r)],
                            pivot: [v(&mut r), v(&mut r)],
                        })
                        .collect(),
                    ud: None,
                });
            }
            Edit::DelSlice { slice } => {
                if !self.slices.is_empty() {
                    let i = *slice as usize % self.slices.len();
                    let _ = self.slices.remove(i);
                }
            }
            Edit::Palette { kind, seed } => self.palette = gen_palette(*kind, *seed),
            Edit::UserData { target, seed, rich } => {
                let ud = Some(gen_ud(*seed, *rich));
                match target {
                    UdTarget::Sprite => {
                        // stands after a palette chunk, so there has to be one
                        if self.palette.is_empty() {
                            self.palette = gen_palette(2, *seed);
                        }
                        self.ud = ud
                    }
                    UdTarget::Layer(l) => {
                        if let Some(l) = self.layer_ix(*l) {
                            self.layers[l as usize].ud = ud;
                        }
                    }
                    UdTarget::Cel(f, l) => {
                        if let Some(c) = self.cel_mut(*f, *l) {
                            c.ud = ud;
                        }
                    }
                    UdTarget::Tags => self.tag_ud = Some(*seed),
                    UdTarget::Slice(s) => {
                        let n = self.slices.len();
                        if n > 0 {
                            self.slices[*s as usize % n].ud = ud;
                        }
                    }
                }
            }
            Edit::Extra { kind, seed } => {
                if self.extras.len() < 40 {
                    self.extras.push(gen_extra(*kind, *seed));
                }
            }
            Edit::ClearExtras => self.extras.clear(),
            Edit::ManyExtras { n } => {
                for _ in 0..(*n).min(70_000) {
                    self.extras.push(ExtraM::Path);
                }
            }
        }
    }

    /// The palette an indexed document decodes with: `[r, g, b, a]` per index.
    pub fn final_palette(&self) -> Vec<[u8; 4]> {
        let mut p = vec![[0u8; 4]; 256];
        let news = self
            .palette
            .iter()
            .any(|c| matches!(c, PalChunkM::New { .. }));
        let old4 = self.palette.iter().any(|c| matches!(c, PalChunkM::Old4(_)));
        for c in &self.palette {
            match c {
                PalChunkM::New { first, colors, .. } if news => {
                    for (i, (col, _)) in colors.iter().enumerate() {
                        p[usize::from(*first) + i] = *col;
                    }
                }
                PalChunkM::Old4(pk) if !news && old4 => {
                    let mut i = 0;
                    for (skip, cols) in pk {
                        i += usize::from(*skip);
                        for c in cols {
                            p[i] = [c[0], c[1], c[2], 255];
                            i += 1;
                        }
                    }
                }
                PalChunkM::Old11(pk) if !news && !old4 => {
                    let up = |v: u8| (v << 2) | (v >> 4);
                    let mut i = 0;
                    for (skip, cols) in pk {
                        i += usize::from(*skip);
                        for c in cols {
                            p[i] = [up(c[0]), up(c[1]), up(c[2]), 255];
                            i += 1;
                        }
                    }
                }
                _ => {}
            }
        }
        p[usize::from(self.transparent)][3] = 0;
        p
    }
}

/// Stored pixel bytes to RGBA.
pub fn to_rgba(depth: Depth, palette: &[[u8; 4]], raw: &[u8]) -> Vec<u8> {
    match depth {
        Depth::Rgba => raw.to_vec(),
        Depth::Gray => raw
            .chunks(2)
            .flat_map(|p| [p[0], p[0], p[0], p[1]])
            .collect(),
        Depth::Indexed => raw.iter().flat_map(|i| palette[usize::from(*i)]).collect(),
    }
}
