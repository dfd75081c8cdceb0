//! How cost grows: the same kind of document at one size and at eight times that
//! size, loaded (and decoded, and rendered) by the real library. Eight keeps
//! whatever grows in powers of two in the same phase.

use crate::doc::*;
use crate::encode::{encode, SaveOpts};
use crate::prng::Rng;
use crate::report::{self, add, p, violation, S};
use crate::sched;
use crate::seams::{self, Cost};
use crate::zlib::Storage;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

pub const SHAPES: u8 = 27;

fn image(w: u16, h: u16, r: &mut Rng) -> ImageM {
    ImageM {
        w,
        h,
        style: r.below(8) as u8,
        seed: r.next(),
        storage: match r.below(3) {
            0 => Storage::Raw,
            1 => Storage::Level(0),
            _ => Storage::Level(6),
        },
        touch: 0,
    }
}
fn cel(content: ContentM) -> CelM {
    CelM { x: 0, y: 0, opacity: 255, z: 0, content, extra: None, ud: None }
}
fn layer(i: u32, kind: u16, level: u16) -> LayerM {
    LayerM {
        kind,
        flags: 1,
        level,
        blend: 0,
        opacity: 255,
        name: format!("{i}"),
        tileset: 0,
        ud: None,
    }
}
fn frame() -> FrameM {
    FrameM { duration: 100, ..Default::default() }
}

fn name(shape: u8) -> &'static str {
    [
        "empty frames",
        "frames with a raw image",
        "frames with a compressed image",
        "frames linked to the first",
        "frames linked to the one before",
        "frames linked to different ones",
        "layers",
        "groups in groups",
        "cels in one frame",
        "links in one frame",
        "layers with user data",
        "tags",
        "tags with user data",
        "slices",
        "keys of one slice",
        "slices with user data",
        "palette chunks",
        "old palette packets",
        "user data properties",
        "user data maps",
        "a long vector",
        "external files",
        "unknown chunks",
        "tilesets",
        "image rows",
        "cels with user data and extras",
        "image columns",
    ][usize::from(shape % SHAPES)]
}

fn build(shape: u8, n: u32, seed: u64) -> (Doc, SaveOpts) {
    let r = &mut Rng::new(seed);
    let depth = [Depth::Rgba, Depth::Gray, Depth::Indexed][r.us(3)];
    let mut d = Doc::new(depth, 4, 4, 0, 1);
    let mut opts = SaveOpts { seed, ..Default::default() };
    d.layers = vec![layer(0, 0, 0)];
    d.frames = vec![frame()];
    d.tags.clear();
    d.slices.clear();
    d.extras.clear();
    let tiny = image(1, 1 + r.below(2) as u16, r);
    let text = |i: u32| Ud {
        text: Some(format!("t{i}")),
        color: (i % 2 == 0).then_some([1, 2, 3, 4]),
        maps: None,
    };
    match shape % SHAPES {
        0 => d.frames = (0..n).map(|_| frame()).collect(),
        s @ (1 | 2) => {
            d.frames = (0..n)
                .map(|i| {
                    let mut f = frame();
                    let mut im = tiny.clone();
                    im.seed ^= u64::from(i);
                    im.storage = if s == 1 { Storage::Raw } else { Storage::Level(6) };
                    f.cels.insert(0, cel(ContentM::Image(im)));
                    f
                })
                .collect();
        }
        s @ 3..=5 => {
            d.frames = (0..n)
                .map(|i| {
                    let mut f = frame();
                    let c = match s {
                        _ if i == 0 => ContentM::Image(tiny.clone()),
                        3 => ContentM::Link(0),
                        4 => ContentM::Link(i - 1),
                        _ if i < n / 2 => ContentM::Image(tiny.clone()),
                        _ => ContentM::Link(i - n / 2),
                    };
                    f.cels.insert(0, cel(c));
                    f
                })
                .collect();
        }
        6 => d.layers = (0..n).map(|i| layer(i, 0, 0)).collect(),
        7 => d.layers = (0..n).map(|i| layer(i, 1, i as u16)).collect(),
        s @ (8 | 9 | 25) => {
            d.layers = (0..n).map(|i| layer(i, 0, 0)).collect();
            let mut f = frame();
            for i in 0..n {
                let mut c = cel(ContentM::Image(tiny.clone()));
                if s == 25 {
                    c.extra = Some(u64::from(i));
                    c.ud = Some(text(i));
                }
                f.cels.insert(i, c);
            }
            d.frames = vec![f];
            if s == 9 {
                let mut f = frame();
                for i in 0..n {
                    f.cels.insert(i, cel(ContentM::Link(0)));
                }
                d.frames.push(f);
            }
            opts.shuffle = r.chance(1, 2);
        }
        10 => {
            d.layers = (0..n)
                .map(|i| LayerM { ud: Some(text(i)), ..layer(i, 0, 0) })
                .collect();
        }
        s @ (11 | 12) => {
            d.tags = (0..n)
                .map(|i| TagM {
                    from: 0,
                    to: 0,
                    dir: 0,
                    repeat: 0,
                    color: [0; 3],
                    name: format!("{i}"),
                })
                .collect();
            d.tag_ud = (s == 12).then_some(seed);
        }
        s @ (13 | 15) => {
            d.slices = (0..n)
                .map(|i| SliceM {
                    name: format!("{i}"),
                    flags: 0,
                    keys: vec![SliceKeyM { frame: 0, rect: [0, 0, 1, 1], nine: [0; 4], pivot: [0; 2] }],
                    ud: (s == 15).then(|| text(i)),
                })
                .collect();
        }
        14 => {
            d.slices = vec![SliceM {
                name: "s".into(),
                flags: 3,
                keys: (0..n)
                    .map(|i| SliceKeyM { frame: i, rect: [0, 0, 1, 1], nine: [0; 4], pivot: [0; 2] })
                    .collect(),
                ud: None,
            }];
        }
        16 => {
            d.palette = (0..n)
                .map(|i| PalChunkM::New {
                    first: i as u8,
                    colors: vec![([1, 2, 3, 255], None)],
                    total: 256,
                })
                .collect();
        }
        17 => d.palette = vec![PalChunkM::Old4((0..n).map(|_| (0, vec![[1, 2, 3]])).collect())],
        18 => {
            let props = (0..n).map(|i| (format!("k{i}"), Val::U8(i as u8))).collect();
            d.layers[0].ud = Some(Ud { maps: Some(vec![(0, props)]), ..Default::default() });
        }
        19 => {
            d.layers[0].ud = Some(Ud {
                maps: Some((0..n).map(|i| (i, vec![("a".into(), Val::U16(1))])).collect()),
                ..Default::default()
            });
        }
        20 => {
            let kind = [0u16, 3][r.us(2)];
            let v = (0..n).map(|i| Val::U8(i as u8)).collect();
            d.layers[0].ud = Some(Ud {
                maps: Some(vec![(0, vec![("v".into(), Val::Vec(kind, v))])]),
                ..Default::default()
            });
        }
        21 => d.extras = vec![ExtraM::External((0..n).map(|i| (i, 0, format!("f{i}"))).collect())],
        22 => d.extras = (0..n).map(|_| ExtraM::Path).collect(),
        23 => {
            d.extras = (0..n)
                .map(|i| ExtraM::Tileset {
                    id: i,
                    flags: 0,
                    count: 1,
                    w: 1,
                    h: 1,
                    base: 1,
                    name: "t".into(),
                    ext: (0, 0),
                    data: vec![],
                    ud: (i % 2 == 0).then(|| text(i)),
                })
                .collect();
        }
        s => {
            let (w, h) = if s == 24 { (16, n as u16) } else { (n as u16, 16) };
            // what inflating costs depends on how well the content compresses
            let im = ImageM { storage: Storage::Raw, ..image(w, h, r) };
            d.w = w;
            d.h = h;
            d.frames[0].cels.insert(0, cel(ContentM::Image(im)));
        }
    }
    (d, opts)
}

struct Limits {
    steps: u64,
    mem: u64,
}
const FREE: Limits = Limits { steps: 400_000_000, mem: 512 << 20 };
/// Eight times as much, with room for a logarithm and for growth in steps.
fn eight(c: &Cost) -> Limits {
    Limits {
        steps: c.steps * 8 * 8 / 5 + 60_000,
        mem: c.peak * 8 * 5 / 2 + (1 << 20),
    }
}

struct Costs {
    load: Cost,
    decode: Option<Cost>,
    render: Option<Cost>,
}

fn measure(what: &str, bytes: &[u8], frame: usize, lim: [Limits; 3]) -> Option<Costs> {
    let [a, b, c] = lim;
    add(S::loads, 1);
    sched::set_call(format!("load of {what}"));
    report::set_ctx(p(5));
    let (r, load) = seams::lib_call(a.steps, a.mem, || AsepriteFile::load(bytes).ok());
    crate::world::charge(load);
    let r = match r {
        Err(msg) => {
            violation(p(5), "panic", &format!("loading {what} panicked: {msg}"));
            return None;
        }
        Ok(r) => r,
    };
    let mut out = Costs { load, decode: None, render: None };
    let Some(r) = r else { return Some(out) };
    if let Some(im) = r.images.first() {
        let mut buf = vec![0; usize::from(im.width) * usize::from(im.height) * 4];
        sched::set_call(format!("decoding of {what}"));
        let (x, cost) = seams::lib_call(b.steps, b.mem, || r.load_image(0, &mut buf).is_ok());
        crate::world::charge(cost);
        if x.is_ok() {
            out.decode = Some(cost);
        }
        let (w, h) = r.size();
        let mut buf = vec![0; usize::from(w) * usize::from(h) * 4];
        sched::set_call(format!("rendering of {what}"));
        let f = frame.min(r.frames().len().saturating_sub(1));
        let (x, cost) = seams::lib_call(c.steps, c.mem, || {
            r.render_frame(f, &mut buf, &LayerSelection::Visible).is_ok()
        });
        crate::world::charge(cost);
        if x.is_ok() {
            out.render = Some(cost);
        }
    }
    Some(out)
}

pub fn run(shape: u8, n: u32, seed: u64) {
    let n = n.clamp(1, 8000);
    add(S::scale_pairs, 1);
    let of = |n: u32| {
        let (d, o) = build(shape, n, seed);
        encode(&d, &o).bytes
    };
    let (small, big) = (of(n), of(n * 8));
    let frame = usize::from(shape % SHAPES == 9);
    let what = |n: u32, b: &[u8]| format!("a sprite of {n} {} ({} bytes)", name(shape), b.len());
    let Some(c) = measure(&what(n, &small), &small, frame, [FREE, FREE, FREE]) else {
        return;
    };
    let or = |c: &Option<Cost>| c.as_ref().map(eight).unwrap_or(FREE);
    let lim = [eight(&c.load), or(&c.decode), or(&c.render)];
    let text = format!(
        "{}, with {n} costing {} steps and {} bytes to load, {:?} to decode, {:?} to render",
        what(n * 8, &big),
        c.load.steps,
        c.load.peak,
        c.decode.as_ref().map(|c| c.steps),
        c.render.as_ref().map(|c| c.steps)
    );
    let Some(d) = measure(&text, &big, frame, lim) else { return };
    add(S::checks, 1);
    if std::env::var_os("ASIM_SCALE").is_some() {
        let ratio = |a: &Cost, b: &Cost| (b.steps as f64 / a.steps as f64, b.peak as f64 / a.peak.max(1) as f64);
        let o = |a: &Option<Cost>, b: &Option<Cost>| match (a, b) {
            (Some(a), Some(b)) => ratio(a, b),
            _ => (0.0, 0.0),
        };
        eprintln!(
            "{:32} n={n} load {:.2?} decode {:.2?} render {:.2?} steps {} bytes {}",
            name(shape),
            ratio(&c.load, &d.load),
            o(&c.decode, &d.decode),
            o(&c.render, &d.render),
            d.load.steps,
            big.len()
        );
    }
    report::log(d.load.steps);
}

pub const HUGE_SHAPES: u8 = 10;
/// Documents whose counts need every bit of the numbers that refer to them.
/// `full` is how many there are of what there is much of: up to 65535.
pub fn huge(shape: u8, full: u16, seed: u64) -> (Doc, SaveOpts) {
    let r = &mut Rng::new(seed);
    let n = u32::from(full.max(2));
    let depth = [Depth::Rgba, Depth::Gray, Depth::Indexed][r.us(3)];
    let mut d = Doc::new(depth, 3, 2, 0, seed);
    let opts = SaveOpts {
        seed,
        counter: r.below(4) as u8,
        shuffle: r.chance(1, 2),
        ..Default::default()
    };
    d.layers = vec![layer(0, 0, 0), layer(1, 0, 0), layer(2, 0, 0)];
    d.frames = vec![frame()];
    d.tags.clear();
    d.slices.clear();
    d.extras.clear();
    let raw = |r: &mut Rng| {
        let (w, h) = [(1, 1), (1, 1), (2, 1), (1, 2)][r.us(4)];
        ContentM::Image(ImageM { w, h, style: 0, seed: r.next(), storage: Storage::Raw, touch: 0 })
    };
    let text = |i: u32| Ud { text: Some(format!("t{i}")), color: None, maps: None };
    let tag = |from: u32, to: u32, i: u32| TagM {
        from: from as u16,
        to: to as u16,
        dir: (i % 4) as u8,
        repeat: (i % 70_000) as u16,
        color: [0; 3],
        name: format!("{i}"),
    };
    let frames = |d: &mut Doc| {
        d.frames = (0..n)
            .map(|i| FrameM { duration: (i ^ 0x5555) as u16, ..Default::default() })
            .collect();
    };
    match shape % HUGE_SHAPES {
        // frames; a few images here and there, links to them, tags over them
        0 => {
            frames(&mut d);
            let mut at: Vec<u32> = (0..40).map(|_| r.below(n.into()) as u32).collect();
            at.extend([0, n - 1, n / 2, n.min(32768) - 1, n.min(32769) - 1, n.min(257) - 1]);
            for f in &at {
                let _ = d.frames[*f as usize].cels.insert(0, cel(raw(r)));
            }
            for _ in 0..60 {
                let f = r.below(n.into()) as u32;
                if !at.contains(&f) {
                    let _ = d.frames[f as usize].cels.insert(0, cel(ContentM::Link(*r.pick(&at))));
                }
            }
            for i in 0..20 {
                let (a, b) = (r.below(n.into()) as u32, r.below(n.into()) as u32);
                d.tags.push(tag(a.min(b), a.max(b), i * 3000));
            }
            d.tags.push(tag(0, n - 1, 65_535));
        }
        // more images than 16 bits can number
        1 => {
            frames(&mut d);
            for f in 0..n {
                for l in 0..2 {
                    let _ = d.frames[f as usize].cels.insert(l, cel(raw(r)));
                }
            }
            for _ in 0..200 {
                let f = r.below(n.into()) as u32;
                // near the end, so that earlier images stay two to a frame
                let t = n - 1 - r.below(n.min(250).into()) as u32;
                let _ = d.frames[t as usize].cels.insert(2, cel(raw(r)));
                if f != t {
                    let _ = d.frames[f as usize].cels.insert(2, cel(ContentM::Link(t)));
                }
            }
            // linked-to frames may have been turned into links since
            let bad: Vec<usize> = (0..d.frames.len())
                .filter(|f| match d.frames[*f].cels.get(&2).map(|c| &c.content) {
                    Some(ContentM::Link(t)) => d.link_target(2, *t).is_none(),
                    _ => false,
                })
                .collect();
            for f in bad {
                let _ = d.frames[f].cels.remove(&2);
            }
        }
        // layers; some the loader does not list
        s @ (2 | 3) => {
            d.layers = (0..n)
                .map(|i| {
                    let kind = match r.below(40) {
                        0 => 1,
                        1 if s == 3 => 2,
                        _ => 0,
                    };
                    let mut l = layer(i, kind, (i % 3) as u16);
                    l.flags = (i % 2) as u16;
                    l.blend = (i % 19) as u16;
                    l.opacity = r.byte();
                    l
                })
                .collect();
            d.frames.push(frame());
            let mut at: Vec<u32> = (0..60).map(|_| r.below(n.into()) as u32).collect();
            at.extend([n - 1, n - 2, n / 2, n.min(32768) - 1, n.min(32769) - 1, n.min(257) - 1]);
            for l in at {
                if d.layers[l as usize].kind == 0 {
                    let _ = d.frames[0].cels.insert(l, cel(raw(r)));
                    let _ = d.frames[1].cels.insert(l, cel(ContentM::Link(0)));
                }
            }
        }
        // every layer used in one frame: as many cels and images
        4 => {
            d.layers = (0..n).map(|i| LayerM { flags: (i % 7 == 0).into(), ..layer(i, 0, 0) }).collect();
            for l in 0..n {
                let _ = d.frames[0].cels.insert(l, cel(raw(r)));
            }
        }
        5 => {
            frames(&mut d);
            d.tags = (0..n).map(|i| tag(i / 2, n - 1 - i / 3, i)).collect();
            d.tag_ud = Some(seed);
        }
        6 => {
            d.slices = (0..n)
                .map(|i| SliceM {
                    name: format!("{i}"),
                    flags: i % 4,
                    keys: vec![SliceKeyM { frame: i * 65_537, rect: [i as i32, -1, 1, 1], nine: [0; 4], pivot: [1, 2] }],
                    ud: (i % 3 == 0).then(|| text(i)),
                })
                .collect();
        }
        7 => {
            d.slices = vec![SliceM {
                name: "s".into(),
                flags: 3,
                keys: (0..n * 2)
                    .map(|i| SliceKeyM { frame: i, rect: [0, 0, 1, i as i32], nine: [0; 4], pivot: [0; 2] })
                    .collect(),
                ud: None,
            }];
        }
        // pictures with many pixels
        9 => {
            let (w, h) = *r.pick(&[(1, 1), (1, 2), (4, 1), (1, 16), (64, 1), (3, 5)]);
            let side = f64::from(n * 16 / (w * h)).sqrt() as u32;
            let (w, h) = ((side * w).clamp(1, 65535), (side * h).clamp(1, 65535));
            d.w = w as u16;
            d.h = h as u16;
            d.frames = vec![frame(), frame()];
            for (f, l) in [(0, 0), (0, 1), (1, 0), (1, 2)] {
                let storage = [Storage::Raw, Storage::Level(1 + r.below(9) as u8), Storage::Blocks(r.next())][r.us(3)];
                let (x, y) = if r.chance(1, 2) { (0, 0) } else { (r.range(-9, 9) as i16, r.range(-9, 9) as i16) };
                let trim = r.chance(1, 4);
                let (w, h) = if trim { (w.div_ceil(3), h.div_ceil(2)) } else { (w, h) };
                let style = if l == 1 { 0 } else { r.below(8) as u8 };
                let im = ImageM { w: w as u16, h: h as u16, style, seed: r.next(), storage, touch: 0 };
                let _ = d.frames[f].cels.insert(l, CelM { x, y, ..cel(ContentM::Image(im)) });
            }
            for l in &mut d.layers {
                l.blend = r.below(19) as u16;
                l.opacity = if r.chance(1, 2) { 255 } else { r.byte() };
            }
        }
        // long texts and many properties
        _ => {
            let long = |c: char, n: u32| c.to_string().repeat(n as usize);
            d.layers[0].name = long('n', n);
            d.layers[1].name = long('\u{e9}', n / 2);
            d.tags.push(TagM { name: long('t', n), ..tag(0, 0, 1) });
            d.slices.push(SliceM { name: long('s', n), flags: 0, keys: vec![], ud: Some(Ud { text: Some(long('u', n)), color: None, maps: None }) });
            let props = (0..n).map(|i| (format!("{i}"), Val::U32(i))).collect();
            d.layers[2].ud = Some(Ud { maps: Some(vec![(0, props)]), ..Default::default() });
        }
    }
    (d, opts)
}
