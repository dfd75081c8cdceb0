//! Canonical text of what the library reports, and the text expected for a
//! document. Lines are prefixed with the view they belong to:
//! `L` high-level loader, `U` user data, `F` low-level file view.

use crate::doc::*;
use std::collections::BTreeMap;
use crate::encode::*;
use crate::prng::fnv;
use aseprite_loader::binary::{
    blend_mode::BlendMode,
    chunk::Chunk,
    chunks::{
        cel::{CelChunk, CelContent},
        cel_extra::CelExtraFlags,
        color_profile::ColorProfile,
        external_files::ExternalFileType,
        layer::{LayerChunk, LayerFlags, LayerType},
        old_palette::OldPaletteChunk,
        slice::{SliceChunk, SliceFlags},
        tags::{AnimationDirection, Tag},
        tileset::TilesetFlags,
        user_data::{PropertiesMap, UserDataChunk, Value, Vector},
    },
    color_depth::ColorDepth,
    file::File,
    header::Header,
    raw_file::RawFile,
    scalars::{Color, Fixed, Point, Rect, Size, RGB},
};
use aseprite_loader::loader::AsepriteFile;

fn known(what: &str, n: u16) -> String {
    format!("{what}{n}")
}
fn unknown(what: &str, n: u16) -> String {
    format!("{what}-unknown{n}")
}

pub fn kind_name(k: LayerType) -> String {
    match k {
        LayerType::Normal => known("kind", 0),
        LayerType::Group => known("kind", 1),
        LayerType::Tilemap => known("kind", 2),
        LayerType::Unknown(n) => unknown("kind", n),
    }
}
pub fn blend_code(b: BlendMode) -> Result<u16, u16> {
    Ok(match b {
        BlendMode::Normal => 0,
        BlendMode::Multiply => 1,
        BlendMode::Screen => 2,
        BlendMode::Overlay => 3,
        BlendMode::Darken => 4,
        BlendMode::Lighten => 5,
        BlendMode::ColorDodge => 6,
        BlendMode::ColorBurn => 7,
        BlendMode::HardLight => 8,
        BlendMode::SoftLight => 9,
        BlendMode::Difference => 10,
        BlendMode::Exclusion => 11,
        BlendMode::Hue => 12,
        BlendMode::Saturation => 13,
        BlendMode::Color => 14,
        BlendMode::Luminosity => 15,
        BlendMode::Addition => 16,
        BlendMode::Subtract => 17,
        BlendMode::Divide => 18,
        BlendMode::Unknown(n) => return Err(n),
    })
}
pub fn blend_name(b: BlendMode) -> String {
    match blend_code(b) {
        Ok(n) => known("mode", n),
        Err(n) => unknown("mode", n),
    }
}
pub fn dir_name(d: AnimationDirection) -> String {
    match d {
        AnimationDirection::Forward => known("dir", 0),
        AnimationDirection::Reverse => known("dir", 1),
        AnimationDirection::PingPong => known("dir", 2),
        AnimationDirection::PingPongReverse => known("dir", 3),
        AnimationDirection::Unknown(n) => unknown("dir", n.into()),
    }
}
pub fn depth_code(d: ColorDepth) -> u16 {
    match d {
        ColorDepth::Rgba => 32,
        ColorDepth::Grayscale => 16,
        ColorDepth::Indexed => 8,
        ColorDepth::Unknown(n) => n,
    }
}
fn color(c: &Color) -> String {
    hex(&[c.red, c.green, c.blue, c.alpha])
}
fn fixed(f: &Fixed) -> String {
    format!("{:04x}{:04x}", f.0, f.1)
}
fn point(c: u8, p: &Point) -> String {
    format!("{c}:{},{}", p.x, p.y)
}
fn size(s: &Size) -> String {
    format!("15:{},{}", s.width, s.height)
}
fn rect(r: &Rect) -> String {
    format!(
        "16:{},{},{},{}",
        r.point.x, r.point.y, r.size.width, r.size.height
    )
}

fn lv_vec(v: &Vector<'_>) -> String {
    fn j<T>(code: u16, v: &[T], f: impl Fn(&T) -> String) -> String {
        let s: Vec<_> = v.iter().map(f).collect();
        format!("17:{code}[{}]", s.join(";"))
    }
    match v {
        Vector::Mixed(v) => j(0, v, lv_val),
        Vector::Bool(v) => j(1, v, |x| format!("1:{x}")),
        Vector::Int8(v) => j(2, v, |x| format!("2:{x}")),
        Vector::Uint8(v) => j(3, v, |x| format!("3:{x}")),
        Vector::Int16(v) => j(4, v, |x| format!("4:{x}")),
        Vector::Uint16(v) => j(5, v, |x| format!("5:{x}")),
        Vector::Int32(v) => j(6, v, |x| format!("6:{x}")),
        Vector::Uint32(v) => j(7, v, |x| format!("7:{x}")),
        Vector::Int64(v) => j(8, v, |x| format!("8:{x}")),
        Vector::Uint64(v) => j(9, v, |x| format!("9:{x}")),
        Vector::Fixed(v) => j(10, v, |x| format!("10:{}", fixed(x))),
        Vector::Float(v) => j(11, v, |x| format!("11:{:08x}", x.to_bits())),
        Vector::Double(v) => j(12, v, |x| format!("12:{:016x}", x.to_bits())),
        Vector::String(v) => j(13, v, |x| format!("13:{x:?}")),
        Vector::Point(v) => j(14, v, |x| point(14, x)),
        Vector::Size(v) => j(15, v, size),
        Vector::Rect(v) => j(16, v, rect),
        Vector::Vector(v) => j(17, v, lv_vec),
        Vector::PropertiesMap(v) => j(18, v, |x| format!("18:{}", lv_map(x))),
        Vector::Uuid(v) => j(19, v, |x| format!("19:{}", hex(&x.to_le_bytes()))),
    }
}
fn lv_val(v: &Value<'_>) -> String {
    match v {
        Value::Bool(x) => format!("1:{x}"),
        Value::Int8(x) => format!("2:{x}"),
        Value::Uint8(x) => format!("3:{x}"),
        Value::Int16(x) => format!("4:{x}"),
        Value::Uint16(x) => format!("5:{x}"),
        Value::Int32(x) => format!("6:{x}"),
        Value::Uint32(x) => format!("7:{x}"),
        Value::Int64(x) => format!("8:{x}"),
        Value::Uint64(x) => format!("9:{x}"),
        Value::Fixed(x) => format!("10:{}", fixed(x)),
        Value::Float(x) => format!("11:{:08x}", x.to_bits()),
        Value::Double(x) => format!("12:{:016x}", x.to_bits()),
        Value::String(x) => format!("13:{x:?}"),
        Value::Point(x) => point(14, x),
        Value::Size(x) => size(x),
        Value::Rect(x) => rect(x),
        Value::Vector(x) => lv_vec(x),
        Value::MixedVector(x) => {
            let s: Vec<_> = x.iter().map(lv_val).collect();
            format!("17:0[{}]", s.join(";"))
        }
        Value::PropertiesMap(x) => format!("18:{}", lv_map(x)),
        Value::Uuid(x) => format!("19:{}", hex(&x.to_le_bytes())),
    }
}
fn lv_map(m: &PropertiesMap<'_>) -> String {
    let v: Vec<_> = m
        .properties
        .iter()
        .map(|p| format!("{:?}={}", p.name, lv_val(&p.value)))
        .collect();
    format!("{}{{{}}}", m.extension_entry_id, v.join(";"))
}
pub fn lv_ud(ud: &UserDataChunk<'_>) -> String {
    let maps = ud.properties_maps.as_ref().map(|m| match m {
        Ok((_, m)) => {
            let v: Vec<_> = m.iter().map(lv_map).collect();
            v.join("|")
        }
        Err(_) => "error".into(),
    });
    format!(
        "text={:?} color={:?} maps={:?}",
        ud.text,
        ud.color.map(|c| color(&c)),
        maps
    )
}
fn lv_opt_ud(ud: &Option<UserDataChunk<'_>>) -> String {
    ud.as_ref().map(lv_ud).unwrap_or_else(|| "none".into())
}
fn lv_layer(l: &LayerChunk<'_>) -> String {
    let f = [
        LayerFlags::VISIBLE,
        LayerFlags::EDITABLE,
        LayerFlags::LOCK_MOVEMENT,
        LayerFlags::BACKGROUND,
        LayerFlags::PREFER_LINKED_CELS,
        LayerFlags::COLLAPSED,
        LayerFlags::REFERENCE,
    ];
    let flags: String = f
        .into_iter()
        .map(|f| if l.flags.contains(f) { '1' } else { '0' })
        .collect();
    format!(
        "layer {:?} kind={} level={} blend={} op={} flags={} tileset={:?}",
        l.name,
        kind_name(l.layer_type),
        l.child_level,
        blend_name(l.blend_mode),
        l.opacity,
        flags,
        l.tileset_index,
    )
}
#[allow(deprecated)]
fn lv_tag(t: &Tag<'_>) -> String {
    format!(
        "{:?} {}..={} {} x{} {}",
        t.name,
        t.frames.start(),
        t.frames.end(),
        dir_name(t.animation_direction),
        t.animation_repeat,
        hex(&t.color)
    )
}
pub fn lv_slice(s: &SliceChunk<'_>) -> String {
    let mut o = format!(
        "slice {:?} {}{}",
        s.name,
        u8::from(s.flags.contains(SliceFlags::NINE_PATCH)),
        u8::from(s.flags.contains(SliceFlags::PIVOT))
    );
    for k in &s.slice_keys {
        o += &format!(
            " ({} {} {} {} {}",
            k.frame_number, k.x, k.y, k.width, k.height
        );
        if let Some(n) = k.nine_patch {
            o += &format!(" n {} {} {} {}", n.x, n.y, n.width, n.height);
        }
        if let Some(p) = k.pivot {
            o += &format!(" p {} {}", p.x, p.y);
        }
        o += ")";
    }
    o
}
fn lv_cel(c: &CelChunk<'_>, out: &mut Vec<String>) {
    let head = format!(
        "cel {} {} {} {} {}",
        c.layer_index, c.x, c.y, c.opacity, c.z_index
    );
    let mut data: Option<&[u8]> = None;
    match &c.content {
        CelContent::Image(i) => {
            out.push(format!(
                "{head} image {} {} {}",
                i.width, i.height, i.compressed
            ));
            data = Some(i.data);
        }
        CelContent::LinkedCel { frame_position } => {
            out.push(format!("{head} link {frame_position}"))
        }
        CelContent::CompressedTilemap {
            width,
            height,
            bits_per_tile,
            bitmask_tile_id,
            bitmask_x_flip,
            bitmask_y_flip,
            bitmask_diagonal_flip,
            data: d,
        } => {
            out.push(format!(
                "{head} tilemap {width} {height} {bits_per_tile} id={bitmask_tile_id:x} x={bitmask_x_flip:x} y={bitmask_y_flip:x} d={bitmask_diagonal_flip:x}",
            ));
            data = Some(d);
        }
        CelContent::Unknown { cel_type, data: d } => {
            out.push(format!("{head} unknown {cel_type}"));
            data = Some(d);
        }
    }
    if let Some(d) = data {
        out.push(format!("~cel-data {} {:x}", d.len(), fnv(d)));
    }
}
#[allow(deprecated)]
fn lv_header(h: &Header) -> String {
    format!(
        "header size={} frames={} size={}x{} depth={} flags={:x} speed={} trans={} colors={} pixel={}:{} grid={},{},{},{}",
        h.file_size,
        h.frames,
        h.width,
        h.height,
        depth_code(h.color_depth),
        h.flags,
        h.speed,
        h.transparent_index,
        h.color_count,
        h.pixel_width,
        h.pixel_height,
        h.grid_x,
        h.grid_y,
        h.grid_width,
        h.grid_height,
    )
}
fn lv_old(code: u8, p: &OldPaletteChunk) -> String {
    let mut s = format!("oldpal{code}");
    for pk in &p.packets {
        s += &format!(" +{}:", pk.entries_to_skip);
        for RGB { red, green, blue } in &pk.colors {
            s += &hex(&[*red, *green, *blue]);
        }
    }
    s
}

/// Low-level view: one line per chunk (and lines starting with `~` for data that
/// runs to the end of its chunk).
pub fn raw_lines(f: &RawFile<'_>) -> Vec<String> {
    let mut o = vec![lv_header(&f.header)];
    for (i, fr) in f.frames.iter().enumerate() {
        o.push(format!(
            "frame {i} duration={} chunks={}",
            fr.duration,
            fr.chunks.len()
        ));
        for c in &fr.chunks {
            match c {
                Chunk::Palette0004(p) => o.push(lv_old(4, p)),
                Chunk::Palette0011(p) => o.push(lv_old(0x11, p)),
                Chunk::Layer(l) => o.push(lv_layer(l)),
                Chunk::Cel(c) => lv_cel(c, &mut o),
                Chunk::CelExtra(e) => {
                    o.push(format!(
                        "celextra {} {} {} {} {}",
                        u8::from(e.flags.contains(CelExtraFlags::PRECISE_BOUNDS_ARE_SET)),
                        fixed(&e.precise_x_position),
                        fixed(&e.precise_y_position),
                        fixed(&e.width_of_the_cel),
                        fixed(&e.height_of_the_cel)
                    ));
                    o.push(format!("~celextra-data {} {:x}", e.future.len(), fnv(e.future)));
                }
                Chunk::ColorProfile(p) => {
                    let body = match &p.profile {
                        ColorProfile::NoColorProfile => "none".into(),
                        ColorProfile::Srgb => "srgb".into(),
                        ColorProfile::EmbeddedICC(d) => format!("icc {}", hex(d)),
                        ColorProfile::Unknown(n) => format!("unknown{n}"),
                    };
                    o.push(format!(
                        "profile {} {body}",
                        p.fixed_gamma.as_ref().map(fixed).unwrap_or("-".into())
                    ));
                }
                Chunk::ExternalFiles(e) => {
                    let mut s = format!("external {}", e.files.len());
                    for f in &e.files {
                        let t = match f.file_type {
                            ExternalFileType::ExternalPalette => known("ext", 0),
                            ExternalFileType::ExternalTileset => known("ext", 1),
                            ExternalFileType::ExtensionNameForProperties => known("ext", 2),
                            ExternalFileType::Unknown(n) => unknown("ext", n.into()),
                        };
                        s += &format!(" {}:{t}:{:?}", f.entry_id, f.file_name);
                    }
                    o.push(s);
                }
                Chunk::Mask(m) => {
                    o.push(format!(
                        "mask {} {} {} {} {:?}",
                        m.x, m.y, m.width, m.height, m.name
                    ));
                    o.push(format!("~mask-data {} {:x}", m.data.len(), fnv(m.data)));
                }
                Chunk::Path => o.push("path".into()),
                Chunk::Tags(t) => {
                    let mut s = format!("tags {}", t.tags.len());
                    for t in &t.tags {
                        s += &format!(" [{}]", lv_tag(t));
                    }
                    o.push(s);
                }
                Chunk::Palette(p) => {
                    let mut s = format!("palette {}..={}", p.indices.start(), p.indices.end());
                    for e in &p.entries {
                        s += &format!(" {}", color(&e.color));
                        if let Some(n) = e.name {
                            s += &format!("{n:?}");
                        }
                    }
                    o.push(s);
                }
                Chunk::UserData(u) => o.push(format!("ud {}", lv_ud(u))),
                Chunk::Slice(s) => o.push(lv_slice(s)),
                Chunk::Tileset(t) => {
                    let f = [
                        TilesetFlags::EXTERNAL_FILE,
                        TilesetFlags::TILES,
                        TilesetFlags::TILE_0_EMPTY,
                        TilesetFlags::XFLIP,
                        TilesetFlags::YFLIP,
                        TilesetFlags::DFLIP,
                    ];
                    let flags: String = f
                        .into_iter()
                        .map(|f| if t.flags.contains(f) { '1' } else { '0' })
                        .collect();
                    let mut s = format!(
                        "tileset {} {flags} {} {} {} {} {:?}",
                        t.id, t.number_of_tiles, t.width, t.height, t.base_index, t.name
                    );
                    if let Some(e) = &t.external_file {
                        s += &format!(" ext {} {}", e.external_file_id, e.tileset_id);
                    }
                    if let Some(t) = &t.tiles {
                        s += &format!(" tiles {}", hex(t.data));
                    }
                    o.push(s);
                }
                Chunk::Unsupported(n) => o.push(format!("unsupported {n}")),
            }
        }
    }
    o
}

/// Parsed file view (without image data).
pub fn file_lines(f: &File<'_>) -> Vec<String> {
    let mut o = vec![format!("F {}", lv_header(&f.header))];
    o.push(match &f.palette {
        None => "F palette none".into(),
        Some(p) => {
            let v: Vec<u8> = p
                .colors
                .iter()
                .flat_map(|c| [c.red, c.green, c.blue, c.alpha])
                .collect();
            format!("F palette {:x}", fnv(&v))
        }
    });
    o.push(format!("U sprite {}", lv_opt_ud(&f.user_data)));
    for l in &f.layers {
        o.push(format!("F {}", lv_layer(l)));
        o.push(format!("U layer {}", lv_opt_ud(&l.user_data)));
    }
    for (i, fr) in f.frames.iter().enumerate() {
        o.push(format!("F frame {i} {}", fr.duration));
        for (l, c) in fr.cels.iter().enumerate() {
            if let Some(c) = c {
                let mut v = Vec::new();
                lv_cel(c, &mut v);
                o.push(format!("F at {l} {}", v[0]));
                o.push(format!("U cel {i}/{l} {}", lv_opt_ud(&c.user_data)));
            }
        }
    }
    for t in &f.tags {
        o.push(format!("F tag {}", lv_tag(t)));
        o.push(format!("U tag {}", lv_opt_ud(&t.user_data)));
    }
    for s in &f.slices {
        o.push(format!("F {}", lv_slice(s)));
        o.push(format!("U slice {}", lv_opt_ud(&s.user_data)));
    }
    o
}

/// High-level loader view (images by their place in the sprite, not by number).
pub fn loader_lines(a: &AsepriteFile<'_>) -> Vec<String> {
    let (w, h) = a.size();
    let mut o = vec![format!(
        "L size {w}x{h} depth {} frames {} layers {} tags {} slices {} images {}",
        depth_code(a.file.header.color_depth),
        a.frames().len(),
        a.layers().len(),
        a.tags().len(),
        a.slices().len(),
        a.image_count()
    )];
    for l in a.layers() {
        o.push(format!(
            "L layer {:?} {} {} op={} visible={}",
            l.name,
            kind_name(l.layer_type),
            blend_name(l.blend_mode),
            l.opacity,
            l.visible
        ));
    }
    // number images by first use so that links show as equal numbers
    let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, f) in a.frames().iter().enumerate() {
        o.push(format!("L frame {i} {} {:?}", f.duration, f.origin));
        for c in &f.cels {
            let next = seen.len();
            let im = *seen.entry(c.image_index).or_insert(next);
            o.push(format!(
                "L cel {i} layer={} at={},{} size={}x{} image={im}",
                c.layer_index, c.origin.0, c.origin.1, c.size.0, c.size.1
            ));
        }
    }
    for t in a.tags() {
        o.push(format!(
            "L tag {:?} {}..={} {} {:?}",
            t.name,
            t.range.start(),
            t.range.end(),
            dir_name(t.direction),
            t.repeat
        ));
    }
    for s in a.slices() {
        o.push(format!("L {}", lv_slice(s)));
    }
    o
}

impl Doc {
    /// Position of each document layer among those the loader lists.
    pub fn listed(&self) -> Vec<Option<usize>> {
        let mut n = 0;
        self.layers
            .iter()
            .map(|l| {
                (l.kind <= 1).then(|| {
                    n += 1;
                    n - 1
                })
            })
            .collect()
    }
    /// Frame holding the image a cel shows.
    pub fn image_home(&self, frame: usize, layer: u32) -> Option<usize> {
        match self.frames[frame].cels.get(&layer)?.content {
            ContentM::Image(_) => Some(frame),
            ContentM::Link(t) => Some(t as usize),
            _ => None,
        }
    }

    pub fn expect_file_lines(&self, enc: &Encoded) -> Vec<String> {
        let mut o = vec![format!("F {}", enc.raw[0])];
        o.push(if self.depth == Depth::Indexed {
            let v: Vec<u8> = self.final_palette().into_iter().flatten().collect();
            format!("F palette {:x}", fnv(&v))
        } else {
            "F palette none".into()
        });
        o.push(format!("U sprite {}", show_opt_ud(&self.ud)));
        for l in &self.layers {
            o.push(format!("F {}", show_layer(l)));
            o.push(format!("U layer {}", show_opt_ud(&l.ud)));
        }
        for (i, fr) in self.frames.iter().enumerate() {
            o.push(format!("F frame {i} {}", fr.duration));
            for (l, c) in &fr.cels {
                let head = format!("cel {l} {} {} {} {}", c.x, c.y, c.opacity, c.z);
                let body = match &c.content {
                    ContentM::Image(im) => format!(
                        "image {} {} {}",
                        im.w,
                        im.h,
                        im.storage != crate::zlib::Storage::Raw
                    ),
                    ContentM::Link(t) => format!("link {t}"),
                    ContentM::Tilemap { w, h, seed } => show_tilemap(*w, *h, *seed),
                    ContentM::Unknown { code, .. } => format!("unknown {code}"),
                };
                o.push(format!("F at {l} {head} {body}"));
                o.push(format!("U cel {i}/{l} {}", show_opt_ud(&c.ud)));
            }
        }
        for (i, t) in self.tags.iter().enumerate() {
            o.push(format!("F tag {}", show_tag(t)));
            o.push(format!("U tag {}", show_opt_ud(&self.tag_user_data(i))));
        }
        for s in &self.slices {
            o.push(format!("F {}", show_slice(s)));
            o.push(format!("U slice {}", show_opt_ud(&s.ud)));
        }
        o
    }

    pub fn expect_loader_lines(&self, no_opacity: bool) -> Vec<String> {
        let listed = self.listed();
        let images = self
            .frames
            .iter()
            .flat_map(|f| f.cels.values())
            .filter(|c| matches!(c.content, ContentM::Image(_)))
            .count();
        let mut o = vec![format!(
            "L size {}x{} depth {} frames {} layers {} tags {} slices {} images {images}",
            self.w,
            self.h,
            self.depth.bpp(),
            self.frames.len(),
            listed.iter().flatten().count(),
            self.tags.len(),
            self.slices.len()
        )];
        for l in self.layers.iter().filter(|l| l.kind <= 1) {
            o.push(format!(
                "L layer {:?} {} {} op={} visible={}",
                l.name,
                code_name("kind", l.kind, 3),
                code_name("mode", l.blend, 19),
                if no_opacity { 255 } else { l.opacity },
                l.flags & 1 == 1
            ));
        }
        let mut seen: BTreeMap<(usize, u32), usize> = BTreeMap::new();
        for (i, f) in self.frames.iter().enumerate() {
            o.push(format!("L frame {i} {} (0, 0)", f.duration));
            for (l, c) in &f.cels {
                if listed[*l as usize].is_none() {
                    continue;
                }
                let home = self.image_home(i, *l).unwrap_or(usize::MAX);
                let Some(im) = self.link_target(*l, home as u32) else {
                    o.push(format!("L cel {i} unresolved"));
                    continue;
                };
                let next = seen.len();
                let num = *seen.entry((home, *l)).or_insert(next);
                o.push(format!(
                    "L cel {i} layer={} at={},{} size={}x{} image={num}",
                    listed[*l as usize].map(|x| x as i64).unwrap_or(-1),
                    c.x,
                    c.y,
                    im.w,
                    im.h
                ));
            }
        }
        for t in &self.tags {
            o.push(format!(
                "L tag {:?} {}..={} {} {:?}",
                t.name,
                t.from,
                t.to,
                code_name("dir", t.dir.into(), 4),
                (t.repeat > 0).then_some(t.repeat)
            ));
        }
        for s in &self.slices {
            o.push(format!("L {}", show_slice(s)));
        }
        o
    }
}

/// First difference between two canonical texts.
pub fn diff(want: &[String], got: &[String]) -> Option<String> {
    let clip = |s: &str| -> String {
        if s.len() > 300 {
            let mut n = 300;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}...", &s[..n])
        } else {
            s.to_string()
        }
    };
    for i in 0..want.len().max(got.len()) {
        let (a, b) = (want.get(i), got.get(i));
        if a != b {
            return Some(format!(
                "line {i}: expected {} got {}",
                a.map(|s| clip(s)).unwrap_or("<end>".into()),
                b.map(|s| clip(s)).unwrap_or("<end>".into())
            ));
        }
    }
    None
}
