//! The editor's save routine: an encoder written from Aseprite's file format
//! specification, independent of the code under test. Besides the bytes it
//! yields where everything landed and what a reader of the raw chunks must see.

use crate::doc::*;
use crate::prng::{fnv, mix, Rng};
use crate::zlib::{encode as zenc, Storage};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct SaveOpts {
    pub seed: u64,
    /// 0: new counter with the old one saturated; 1: old counter only;
    /// 2: old counter 0xFFFF; 3: old counter 0.
    pub counter: u8,
    /// Order of independent chunk groups and of a frame's cels is shuffled.
    pub shuffle: bool,
    /// Unknown chunks between objects.
    pub unknown: bool,
    /// Extra bytes at the end of known chunks.
    pub trailing: bool,
    /// Non-zero bytes in fields reserved for the future.
    pub reserved: bool,
    /// The header says that layer opacities are not valid.
    pub no_opacity: bool,
}
impl SaveOpts {
    pub fn skewed(&self) -> bool {
        self.unknown || self.trailing || self.reserved
    }
}

/// Stored data of one image.
#[derive(Clone, Debug)]
pub struct Payload {
    pub off: usize,
    pub len: usize,
    pub frame: usize,
    pub layer: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Encoded {
    pub bytes: Vec<u8>,
    pub payloads: Vec<Payload>,
    /// `(offset, size)` of every field of 2, 4 or 8 bytes.
    pub fields: Vec<(u32, u8)>,
    /// Start of every frame and chunk.
    pub bounds: Vec<usize>,
    /// Start of every frame.
    pub frames: Vec<usize>,
    /// Expected low-level view.
    pub raw: Vec<String>,
}

struct W {
    o: Encoded,
    r: Rng,
    opts: SaveOpts,
}

impl W {
    fn u8(&mut self, v: u8) {
        self.o.bytes.push(v);
    }
    fn put(&mut self, b: &[u8]) {
        self.o.fields.push((self.o.bytes.len() as u32, b.len() as u8));
        self.o.bytes.extend_from_slice(b);
    }
    fn u16(&mut self, v: u16) {
        self.put(&v.to_le_bytes());
    }
    fn i16(&mut self, v: i16) {
        self.put(&v.to_le_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.put(&v.to_le_bytes());
    }
    fn i32(&mut self, v: i32) {
        self.put(&v.to_le_bytes());
    }
    fn raw(&mut self, b: &[u8]) {
        self.o.bytes.extend_from_slice(b);
    }
    /// Bits of a flags field which have no meaning yet.
    fn spare(&mut self, known: u32) -> u32 {
        if self.opts.reserved { self.r.next() as u32 & !known } else { 0 }
    }
    fn res(&mut self, n: usize) {
        for _ in 0..n {
            let b = if self.opts.reserved { self.r.byte() } else { 0 };
            self.o.bytes.push(b);
        }
    }
    fn string(&mut self, s: &str) {
        self.u16(s.len() as u16);
        self.raw(s.as_bytes());
    }
    fn fix32(&mut self, off: usize, v: u32) {
        self.o.bytes[off..off + 4].copy_from_slice(&v.to_le_bytes());
    }
    fn line(&mut self, s: String) {
        self.o.raw.push(s);
    }

    fn chunk(&mut self, kind: u16, trail: bool, f: impl FnOnce(&mut W)) {
        let at = self.o.bytes.len();
        self.o.bounds.push(at);
        self.u32(0);
        self.u16(kind);
        f(self);
        if trail && self.opts.trailing && self.r.chance(1, 2) {
            let n = self.r.logrange(1, 40);
            for _ in 0..n {
                let b = self.r.byte();
                self.o.bytes.push(b);
            }
        }
        let len = (self.o.bytes.len() - at) as u32;
        self.fix32(at, len);
    }

    fn unknown(&mut self) {
        if !self.opts.unknown || !self.r.chance(1, 3) {
            return;
        }
        let code = loop {
            let c = match self.r.below(3) {
                0 => self.r.next() as u16,
                1 => 0x2000 + self.r.below(0x40) as u16,
                _ => *self.r.pick(&[0u16, 1, 0x10, 0x2021, 0x2024, 0xFFFF]),
            };
            if ![
                0x4, 0x11, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019,
                0x2020, 0x2022, 0x2023,
            ]
            .contains(&c)
            {
                break c;
            }
        };
        let n = if self.r.chance(1, 4) { 0 } else { self.r.us(30) };
        self.line(format!("unsupported {code}"));
        self.chunk(code, false, |w| {
            for _ in 0..n {
                let b = w.r.byte();
                w.o.bytes.push(b);
            }
        });
    }

    fn ud(&mut self, ud: &Ud) {
        self.unknown();
        self.line(format!("ud {}", show_ud(ud)));
        self.chunk(0x2020, true, |w| {
            let mut fl = 0;
            fl |= u32::from(ud.text.is_some());
            fl |= u32::from(ud.color.is_some()) << 1;
            fl |= u32::from(ud.maps.is_some()) << 2;
            let spare = w.spare(7);
            w.u32(fl | spare);
            if let Some(t) = &ud.text {
                w.string(t);
            }
            if let Some(c) = &ud.color {
                w.raw(c);
            }
            if let Some(maps) = &ud.maps {
                let at = w.o.bytes.len();
                w.u32(0);
                w.u32(maps.len() as u32);
                for (key, props) in maps {
                    w.u32(*key);
                    w.props(props);
                }
                let n = (w.o.bytes.len() - at) as u32;
                w.fix32(at, n);
            }
        });
    }
    fn opt_ud(&mut self, ud: &Option<Ud>) {
        if let Some(ud) = ud {
            self.ud(ud);
        }
    }
    fn props(&mut self, props: &[(String, Val)]) {
        self.u32(props.len() as u32);
        for (name, v) in props {
            self.string(name);
            self.u16(v.code());
            self.val(v);
        }
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Bool(b) => self.u8(*b),
            Val::I8(b) => self.u8(*b as u8),
            Val::U8(b) => self.u8(*b),
            Val::I16(v) => self.i16(*v),
            Val::U16(v) => self.u16(*v),
            Val::I32(v) => self.i32(*v),
            Val::U32(v) | Val::Fixed(v) | Val::F32(v) => self.u32(*v),
            Val::I64(v) => self.put(&v.to_le_bytes()),
            Val::U64(v) | Val::F64(v) => self.put(&v.to_le_bytes()),
            Val::Str(s) => self.string(s),
            Val::Point(a, b) | Val::Size(a, b) => {
                self.i32(*a);
                self.i32(*b);
            }
            Val::Rect(a, b, c, d) => {
                self.i32(*a);
                self.i32(*b);
                self.i32(*c);
                self.i32(*d);
            }
            Val::Vec(code, items) => {
                self.u32(items.len() as u32);
                self.u16(*code);
                for i in items {
                    if *code == 0 {
                        self.u16(i.code());
                    }
                    self.val(i);
                }
            }
            Val::Map(p) => self.props(p),
            Val::Uuid(b) => self.raw(b),
        }
    }

    fn palette(&mut self, p: &PalChunkM) {
        match p {
            PalChunkM::New { first, colors, total } => {
                let last = usize::from(*first) + colors.len() - 1;
                let mut s = format!("palette {first}..={last}");
                for (c, n) in colors {
                    s += &format!(" {}", hex(c));
                    if let Some(n) = n {
                        s += &format!("{n:?}");
                    }
                }
                self.line(s);
                self.chunk(0x2019, true, |w| {
                    w.u32(*total);
                    w.u32((*first).into());
                    w.u32(last as u32);
                    w.res(8);
                    for (c, n) in colors {
                        let spare = w.spare(1) as u16;
                        w.u16(u16::from(n.is_some()) | spare);
                        w.raw(c);
                        if let Some(n) = n {
                            w.string(n);
                        }
                    }
                });
            }
            PalChunkM::Old4(pk) | PalChunkM::Old11(pk) => {
                let code = if matches!(p, PalChunkM::Old4(_)) { 4 } else { 0x11 };
                let mut s = format!("oldpal{code}");
                for (skip, cols) in pk {
                    s += &format!(" +{skip}:");
                    for c in cols {
                        s += &hex(c);
                    }
                }
                self.line(s);
                self.chunk(code, true, |w| {
                    w.u16(pk.len() as u16);
                    for (skip, cols) in pk {
                        w.u8(*skip);
                        w.u8(cols.len() as u8);
                        for c in cols {
                            w.raw(c);
                        }
                    }
                });
            }
        }
    }

    fn layer(&mut self, l: &LayerM) {
        self.line(show_layer(l));
        self.chunk(0x2004, true, |w| {
            let spare = w.spare(127) as u16;
            w.u16(l.flags | spare);
            w.u16(l.kind);
            w.u16(l.level);
            // default width and height: ignored by readers
            w.res(4);
            w.u16(l.blend);
            w.u8(l.opacity);
            w.res(3);
            w.string(&l.name);
            if l.kind == 2 {
                w.u32(l.tileset);
            }
        });
        self.opt_ud(&l.ud);
    }

    fn tags(&mut self, doc: &Doc) {
        let mut s = format!("tags {}", doc.tags.len());
        for t in &doc.tags {
            s += &format!(" [{}]", show_tag(t));
        }
        self.line(s);
        self.chunk(0x2018, true, |w| {
            w.u16(doc.tags.len() as u16);
            w.res(8);
            for t in &doc.tags {
                w.u16(t.from);
                w.u16(t.to);
                w.u8(t.dir);
                w.u16(t.repeat);
                w.res(6);
                w.raw(&t.color);
                w.res(1);
                w.string(&t.name);
            }
        });
        for i in 0..doc.tags.len() {
            if let Some(ud) = doc.tag_user_data(i) {
                self.ud(&ud);
            }
        }
    }

    fn slice(&mut self, s: &SliceM) {
        self.line(show_slice(s));
        self.chunk(0x2022, true, |w| {
            w.u32(s.keys.len() as u32);
            let spare = w.spare(3);
            w.u32(s.flags | spare);
            w.res(4);
            w.string(&s.name);
            for k in &s.keys {
                w.u32(k.frame);
                for v in k.rect {
                    w.i32(v);
                }
                if s.flags & 1 != 0 {
                    for v in k.nine {
                        w.i32(v);
                    }
                }
                if s.flags & 2 != 0 {
                    for v in k.pivot {
                        w.i32(v);
                    }
                }
            }
        });
        self.opt_ud(&s.ud);
    }

    fn extra(&mut self, e: &ExtraM) {
        match e {
            ExtraM::Profile { kind, flags, gamma, icc } => {
                let g = if flags & 1 == 1 {
                    format!("{gamma:08x}")
                } else {
                    "-".into()
                };
                let body = match kind {
                    0 => "none".to_string(),
                    1 => "srgb".to_string(),
                    2 => format!("icc {}", hex(icc)),
                    k => format!("unknown{k}"),
                };
                self.line(format!("profile {g} {body}"));
                self.chunk(0x2007, true, |w| {
                    w.u16(*kind);
                    w.u16(*flags);
                    w.u32(*gamma);
                    w.res(8);
                    if *kind == 2 {
                        w.u32(icc.len() as u32);
                        w.raw(icc);
                    }
                });
            }
            ExtraM::External(files) => {
                let mut s = format!("external {}", files.len());
                for (id, kind, name) in files {
                    s += &format!(" {id}:{}:{name:?}", code_name("ext", (*kind).into(), 3));
                }
                self.line(s);
                self.chunk(0x2008, true, |w| {
                    w.u32(files.len() as u32);
                    w.res(8);
                    for (id, kind, name) in files {
                        w.u32(*id);
                        w.u8(*kind);
                        w.res(7);
                        w.string(name);
                    }
                });
            }
            ExtraM::Mask { x, y, w: mw, h, name, data } => {
                self.line(format!("mask {x} {y} {mw} {h} {name:?}"));
                self.line(format!("~mask-data {} {:x}", data.len(), fnv(data)));
                self.chunk(0x2016, true, |w| {
                    w.i16(*x);
                    w.i16(*y);
                    w.u16(*mw);
                    w.u16(*h);
                    w.res(8);
                    w.string(name);
                    w.raw(data);
                });
            }
            ExtraM::Path => {
                self.line("path".into());
                self.chunk(0x2017, true, |_| {});
            }
            ExtraM::Tileset { id, flags, count, w: tw, h, base, name, ext, data, ud } => {
                let mut s = format!(
                    "tileset {id} {} {count} {tw} {h} {base} {name:?}",
                    flag_bits(*flags, 6)
                );
                if flags & 1 != 0 {
                    s += &format!(" ext {} {}", ext.0, ext.1);
                }
                if flags & 2 != 0 {
                    s += &format!(" tiles {}", hex(data));
                }
                self.line(s);
                self.chunk(0x2023, true, |w| {
                    w.u32(*id);
                    let spare = w.spare(63);
                    w.u32(*flags | spare);
                    w.u32(*count);
                    w.u16(*tw);
                    w.u16(*h);
                    w.i16(*base);
                    w.res(14);
                    w.string(name);
                    if flags & 1 != 0 {
                        w.u32(ext.0);
                        w.u32(ext.1);
                    }
                    if flags & 2 != 0 {
                        w.u32(data.len() as u32);
                        w.raw(data);
                    }
                });
                self.opt_ud(ud);
            }
        }
    }

    fn cel(&mut self, doc: &Doc, frame: usize, layer: u32, c: &CelM) {
        let head = format!("cel {layer} {} {} {} {}", c.x, c.y, c.opacity, c.z);
        let kind = match &c.content {
            ContentM::Image(i) if i.storage == Storage::Raw => 0,
            ContentM::Image(_) => 2,
            ContentM::Link(_) => 1,
            ContentM::Tilemap { .. } => 3,
            ContentM::Unknown { code, .. } => *code,
        };
        let trail = kind != 0;
        let mut body: Vec<u8> = Vec::new();
        match &c.content {
            ContentM::Image(im) => {
                body = zenc(&pixels(doc.depth, im), im.storage);
                self.line(format!("{head} image {} {} {}", im.w, im.h, kind == 2));
            }
            ContentM::Link(t) => self.line(format!("{head} link {t}")),
            ContentM::Tilemap { w, h, seed } => {
                let (_, _, mut r) = tilemap_head(*seed);
                let n = usize::from(*w) * usize::from(*h) * 4;
                body = zenc(&(0..n).map(|_| r.byte()).collect::<Vec<_>>(), Storage::Level(6));
                self.line(format!("{head} {}", show_tilemap(*w, *h, *seed)));
            }
            ContentM::Unknown { code, seed } => {
                let mut r = Rng::new(*seed);
                let n = r.us(40);
                body = (0..n).map(|_| r.byte()).collect();
                self.line(format!("{head} unknown {code}"));
            }
        }
        if !matches!(c.content, ContentM::Link(_)) {
            self.line(format!("~cel-data {} {:x}", body.len(), fnv(&body)));
        }
        self.chunk(0x2005, trail, |w| {
            w.u16(layer as u16);
            w.i16(c.x);
            w.i16(c.y);
            w.u8(c.opacity);
            w.u16(kind);
            w.i16(c.z);
            w.res(5);
            match &c.content {
                ContentM::Image(im) => {
                    w.u16(im.w);
                    w.u16(im.h);
                    w.o.payloads.push(Payload {
                        off: w.o.bytes.len(),
                        len: body.len(),
                        frame,
                        layer: layer as usize,
                    });
                }
                ContentM::Link(t) => w.u16(*t as u16),
                ContentM::Tilemap { w: tw, h, seed } => {
                    let (b, bits, _) = tilemap_head(*seed);
                    w.u16(*tw);
                    w.u16(*h);
                    w.u16(bits);
                    for v in b {
                        w.u32(v);
                    }
                    w.res(10);
                }
                ContentM::Unknown { .. } => {}
            }
            w.raw(&body);
        });
        if let Some(seed) = c.extra {
            let mut r = Rng::new(seed);
            let flags = r.below(2) as u32;
            let v = [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32];
            self.line(format!(
                "celextra {} {:08x} {:08x} {:08x} {:08x}",
                flag_bits(flags, 1),
                v[0],
                v[1],
                v[2],
                v[3]
            ));
            self.chunk(0x2006, true, |w| {
                let spare = w.spare(1);
                w.u32(flags | spare);
                for x in v {
                    w.u32(x);
                }
                let s = w.o.bytes.len();
                w.res(16);
                let l = format!("~celextra-data {} {:x}", 16, fnv(&w.o.bytes[s..]));
                w.o.raw.push(l);
            });
        }
        self.opt_ud(&c.ud);
    }
}

fn tilemap_head(seed: u64) -> ([u32; 4], u16, Rng) {
    let mut r = Rng::new(seed);
    let b = [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32];
    let bits = *r.pick(&[8u16, 16, 32]);
    (b, bits, r)
}
pub fn show_tilemap(w: u16, h: u16, seed: u64) -> String {
    let (b, bits, _) = tilemap_head(seed);
    format!(
        "tilemap {w} {h} {bits} id={:x} x={:x} y={:x} d={:x}",
        b[0], b[1], b[2], b[3]
    )
}
pub fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
/// Names a code; codes at or above `known` are the unknown ones.
pub fn code_name(what: &str, code: u16, known: u16) -> String {
    if code < known {
        format!("{what}{code}")
    } else {
        format!("{what}-unknown{code}")
    }
}
pub fn flag_bits(f: u32, n: u32) -> String {
    (0..n).map(|i| if f >> i & 1 == 1 { '1' } else { '0' }).collect()
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Bool(b) => format!("1:{}", *b != 0),
        Val::I8(v) => format!("2:{v}"),
        Val::U8(v) => format!("3:{v}"),
        Val::I16(v) => format!("4:{v}"),
        Val::U16(v) => format!("5:{v}"),
        Val::I32(v) => format!("6:{v}"),
        Val::U32(v) => format!("7:{v}"),
        Val::I64(v) => format!("8:{v}"),
        Val::U64(v) => format!("9:{v}"),
        Val::Fixed(v) => format!("10:{v:08x}"),
        Val::F32(v) => format!("11:{v:08x}"),
        Val::F64(v) => format!("12:{v:016x}"),
        Val::Str(s) => format!("13:{s:?}"),
        Val::Point(a, b) => format!("14:{a},{b}"),
        Val::Size(a, b) => format!("15:{a},{b}"),
        Val::Rect(a, b, c, d) => format!("16:{a},{b},{c},{d}"),
        Val::Vec(code, items) => {
            let v: Vec<_> = items.iter().map(show_val).collect();
            format!("17:{code}[{}]", v.join(";"))
        }
        Val::Map(p) => format!("18:{}", show_props(0, p)),
        Val::Uuid(b) => format!("19:{}", hex(b)),
    }
}
pub fn show_props(key: u32, p: &[(String, Val)]) -> String {
    let v: Vec<_> = p
        .iter()
        .map(|(n, v)| format!("{n:?}={}", show_val(v)))
        .collect();
    format!("{key}{{{}}}", v.join(";"))
}
pub fn show_ud(ud: &Ud) -> String {
    let maps = ud.maps.as_ref().map(|m| {
        let v: Vec<_> = m.iter().map(|(k, p)| show_props(*k, p)).collect();
        v.join("|")
    });
    format!(
        "text={:?} color={:?} maps={:?}",
        ud.text,
        ud.color.map(|c| hex(&c)),
        maps
    )
}
pub fn show_opt_ud(ud: &Option<Ud>) -> String {
    ud.as_ref().map(show_ud).unwrap_or_else(|| "none".into())
}
pub fn show_layer(l: &LayerM) -> String {
    format!(
        "layer {:?} kind={} level={} blend={} op={} flags={} tileset={:?}",
        l.name,
        code_name("kind", l.kind, 3),
        l.level,
        code_name("mode", l.blend, 19),
        l.opacity,
        flag_bits(l.flags.into(), 7),
        (l.kind == 2).then_some(l.tileset),
    )
}
pub fn show_tag(t: &TagM) -> String {
    format!(
        "{:?} {}..={} {} x{} {}",
        t.name,
        t.from,
        t.to,
        code_name("dir", t.dir.into(), 4),
        t.repeat,
        hex(&t.color)
    )
}
pub fn show_slice(s: &SliceM) -> String {
    let mut o = format!("slice {:?} {}", s.name, flag_bits(s.flags, 2));
    for k in &s.keys {
        o += &format!(
            " ({} {} {} {} {}",
            k.frame, k.rect[0], k.rect[1], k.rect[2] as u32, k.rect[3] as u32
        );
        if s.flags & 1 != 0 {
            o += &format!(
                " n {} {} {} {}",
                k.nine[0], k.nine[1], k.nine[2] as u32, k.nine[3] as u32
            );
        }
        if s.flags & 2 != 0 {
            o += &format!(" p {} {}", k.pivot[0], k.pivot[1]);
        }
        o += ")";
    }
    o
}

impl Doc {
    pub fn tag_user_data(&self, i: usize) -> Option<Ud> {
        self.tag_ud.map(|s| {
            let mut ud = gen_ud(mix(&[s, i as u64]), u8::from(i % 4 == 3));
            // an entry with nothing set is still an entry
            if i % 5 == 4 {
                ud.color = None;
            }
            ud
        })
    }
}

pub fn encode(doc: &Doc, opts: &SaveOpts) -> Encoded {
    let mut w = W {
        o: Encoded::default(),
        r: Rng::new(opts.seed ^ 0x656e63),
        opts: *opts,
    };
    // --- header
    w.u32(0);
    w.u16(0xA5E0);
    w.u16(doc.frames.len() as u16);
    w.u16(doc.w);
    w.u16(doc.h);
    w.u16(doc.depth.bpp());
    let flags = u32::from(!opts.no_opacity) | (w.r.below(4) as u32) << 1;
    w.u32(flags);
    w.u16(doc.speed);
    w.raw(&[0; 8]);
    w.u8(doc.transparent);
    w.res(3);
    w.u16(doc.colors);
    w.u8(doc.pixel.0);
    w.u8(doc.pixel.1);
    w.i16(doc.grid.0);
    w.i16(doc.grid.1);
    w.u16(doc.grid.2);
    w.u16(doc.grid.3);
    w.res(84);
    debug_assert_eq!(w.o.bytes.len(), 128);
    let header_line = format!(
        "frames={} size={}x{} depth={} flags={:x} speed={} trans={} colors={} pixel={}:{} grid={},{},{},{}",
        doc.frames.len(),
        doc.w,
        doc.h,
        doc.depth.bpp(),
        flags,
        doc.speed,
        doc.transparent,
        doc.colors,
        doc.pixel.0,
        doc.pixel.1,
        doc.grid.0,
        doc.grid.1,
        doc.grid.2,
        doc.grid.3,
    );
    w.line(String::new());

    for (fi, fr) in doc.frames.iter().enumerate() {
        let at = w.o.bytes.len();
        w.o.bounds.push(at);
        w.o.frames.push(at);
        let line_at = w.o.raw.len();
        w.line(String::new());
        w.u32(0);
        w.u16(0xF1FA);
        let cnt_at = w.o.bytes.len();
        w.u16(0);
        w.u16(fr.duration);
        w.res(2);
        w.u32(0);
        let chunks_at = w.o.bounds.len();

        #[derive(Clone, Copy)]
        enum G {
            Extra(usize),
            Palette,
            Layers,
            Tags,
            Slices,
            Cels,
            LatePalette,
        }
        let late = doc.palette.len() > 1 && doc.frames.len() > 1 && opts.shuffle;
        let mut groups: Vec<G> = Vec::new();
        if fi == 0 {
            groups.extend((0..doc.extras.len()).map(G::Extra));
            groups.extend([G::Palette, G::Layers, G::Tags, G::Slices]);
        } else if late && fi + 1 == doc.frames.len() {
            groups.push(G::LatePalette);
        }
        groups.push(G::Cels);
        if opts.shuffle {
            for i in (1..groups.len()).rev() {
                let j = w.r.us(i + 1);
                groups.swap(i, j);
            }
        }
        for g in groups {
            w.unknown();
            match g {
                G::Extra(i) => w.extra(&doc.extras[i]),
                G::Palette => {
                    let n = doc.palette.len() - usize::from(late);
                    // the sprite's user data may stand after any of them
                    let ud_at = if opts.shuffle && n > 1 && w.r.chance(1, 2) { w.r.us(n) } else { n.max(1) - 1 };
                    for (i, p) in doc.palette[..n].iter().enumerate() {
                        w.palette(p);
                        if i == ud_at {
                            w.opt_ud(&doc.ud);
                        }
                        w.unknown();
                    }
                }
                G::LatePalette => w.palette(doc.palette.last().unwrap()),
                G::Layers => {
                    for l in &doc.layers {
                        w.layer(l);
                        w.unknown();
                    }
                }
                G::Tags => {
                    if !doc.tags.is_empty() {
                        w.tags(doc);
                    }
                }
                G::Slices => {
                    for s in &doc.slices {
                        w.slice(s);
                        w.unknown();
                    }
                }
                G::Cels => {
                    let mut cels: Vec<_> = fr.cels.iter().collect();
                    if opts.shuffle {
                        for i in (1..cels.len()).rev() {
                            let j = w.r.us(i + 1);
                            cels.swap(i, j);
                        }
                    }
                    for (l, c) in cels {
                        w.cel(doc, fi, *l, c);
                        w.unknown();
                    }
                }
            }
        }
        w.unknown();
        let n = (w.o.bounds.len() - chunks_at) as u32;
        let (old, new) = match opts.counter {
            1 if n < 0xFFFF => (n as u16, 0),
            2 => (0xFFFF, n),
            3 => (0, n),
            _ => (n.min(0xFFFF) as u16, n),
        };
        // a saturated old counter with nothing in the new one would mean 65535
        let (old, new) = if n == 0 { (0, 0) } else { (old, new) };
        w.o.bytes[cnt_at..cnt_at + 2].copy_from_slice(&old.to_le_bytes());
        w.fix32(cnt_at + 6, new);
        let len = (w.o.bytes.len() - at) as u32;
        w.fix32(at, len);
        w.o.raw[line_at] = format!("frame {fi} duration={} chunks={n}", fr.duration);
    }
    let total = w.o.bytes.len() as u32;
    w.fix32(0, total);
    w.o.raw[0] = format!("header size={total} {header_line}");
    w.o
}
