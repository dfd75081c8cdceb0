//! What must hold of given bytes, derived from what the editor saved.

use crate::blendref::*;
use crate::canon::*;
use crate::disk::*;
use crate::doc::*;
use crate::zlib::{self, Z};
use aseprite_loader::binary::color_depth::ColorDepth;
use aseprite_loader::loader::AsepriteFile;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Oracle {
    pub sprite: Arc<RefSprite>,
    /// Layer names as listed by the loader.
    pub names: Arc<Vec<String>>,
    pub loader: Vec<String>,
    pub file: Vec<String>,
    pub raw: Vec<String>,
    /// Loading must succeed.
    pub loadable: bool,
    /// Unresolvable or unknown cels: loading may fail.
    pub either: bool,
    /// The writer is not of the reader's version.
    pub skew: bool,
    /// Payload index of each image.
    pub homes: Vec<(usize, usize)>,
}

pub fn oracle(v: &Version) -> Oracle {
    let doc = &v.doc;
    let listed = doc.listed();
    let pal = doc.final_palette();
    let mut images = Vec::new();
    let mut homes = Vec::new();
    let mut home_ix = BTreeMap::new();
    for (fi, f) in doc.frames.iter().enumerate() {
        for (l, c) in &f.cels {
            if let ContentM::Image(im) = &c.content {
                images.push(RefImage {
                    w: im.w.into(),
                    h: im.h.into(),
                    rgba: Some(to_rgba(doc.depth, &pal, &pixels(doc.depth, im))),
                    may_fail: false,
                });
                let _ = home_ix.insert((fi, *l as usize), homes.len());
                homes.push((fi, *l as usize));
            }
        }
    }
    let layers: Vec<&LayerM> = doc.layers.iter().filter(|l| l.kind <= 1).collect();
    let mut odd = false;
    let mut either = false;
    let frames = doc
        .frames
        .iter()
        .enumerate()
        .map(|(fi, f)| {
            let mut out = Vec::new();
            for (l, c) in &f.cels {
                if matches!(c.content, ContentM::Unknown { .. } | ContentM::Tilemap { .. }) {
                    either = true;
                    continue;
                }
                let Some(layer) = listed[*l as usize] else {
                    continue;
                };
                let home = doc.image_home(fi, *l).unwrap_or(usize::MAX);
                match home_ix.get(&(home, *l as usize)) {
                    Some(&image) => out.push(RefCel {
                        x: c.x.into(),
                        y: c.y.into(),
                        layer,
                        image,
                    }),
                    None => either = true,
                }
            }
            out
        })
        .collect();
    let sprite = RefSprite {
        w: doc.w.into(),
        h: doc.h.into(),
        layers: layers
            .iter()
            .map(|l| {
                odd |= l.blend >= MODES;
                RefLayer {
                    mode: (l.blend < MODES).then_some(l.blend),
                    opacity: if v.opts.no_opacity { 255 } else { l.opacity },
                    group: l.kind == 1,
                    visible: l.flags & 1 == 1,
                }
            })
            .collect(),
        frames,
        images,
    };
    odd |= doc.layers.iter().any(|l| l.kind > 2 || l.blend >= MODES);
    odd |= doc.tags.iter().any(|t| t.dir > 3);
    odd |= doc.extras.iter().any(|e| match e {
        ExtraM::Profile { kind, .. } => *kind > 2,
        ExtraM::External(f) => f.iter().any(|x| x.1 > 2),
        _ => false,
    });
    Oracle {
        names: Arc::new(layers.iter().map(|l| l.name.clone()).collect()),
        loader: doc.expect_loader_lines(v.opts.no_opacity),
        file: doc.expect_file_lines(&v.enc),
        raw: v.enc.raw.clone(),
        loadable: !either,
        either,
        skew: v.opts.skewed() || v.opts.no_opacity || v.opts.counter != 0 || odd || either
            || doc.layers.iter().any(|l| l.kind > 1),
        homes,
        sprite: Arc::new(sprite),
    }
}

/// What bytes found in storage are.
#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    Complete(usize),
    Prefix(usize),
    Tail(usize),
    /// Only the stored data of these images differs.
    Payload(usize, Vec<usize>),
    Other,
}
impl Class {
    pub fn code(&self) -> u64 {
        match self {
            Class::Complete(_) => 0,
            Class::Prefix(_) => 1,
            Class::Tail(_) => 2,
            Class::Payload(..) => 3,
            Class::Other => 4,
        }
    }
}

pub fn classify(st: &Store, b: &[u8]) -> Class {
    let all = || st.versions.iter().enumerate().rev();
    if let Some((i, _)) = all().find(|(_, v)| v.enc.bytes == b) {
        return Class::Complete(i);
    }
    if let Some((i, _)) = all().find(|(_, v)| v.enc.bytes.starts_with(b)) {
        return Class::Prefix(i);
    }
    if let Some((i, _)) = all().find(|(_, v)| b.starts_with(&v.enc.bytes)) {
        return Class::Tail(i);
    }
    'next: for (i, v) in all() {
        if v.enc.bytes.len() != b.len() {
            continue;
        }
        let mut at = 0;
        let mut hit = Vec::new();
        for (k, p) in v.enc.payloads.iter().enumerate() {
            if v.enc.bytes[at..p.off] != b[at..p.off] {
                continue 'next;
            }
            at = p.off + p.len;
            if v.enc.bytes[p.off..at] != b[p.off..at] {
                hit.push(k);
            }
        }
        if v.enc.bytes[at..] == b[at..] {
            return Class::Payload(i, hit);
        }
    }
    Class::Other
}

/// Reference decoding of stored image data. Returns the pixels, if there are any
/// to be had, and whether refusing them is fine.
pub fn ref_decode(
    depth: Depth,
    palette: Option<&[[u8; 4]]>,
    w: usize,
    h: usize,
    compressed: bool,
    data: &[u8],
) -> (Option<Vec<u8>>, bool) {
    let want = w * h * depth.px();
    let (raw, odd) = if compressed {
        // no stream expands by more
        if want > data.len() * 1040 + 64 {
            return (None, false);
        }
        match zlib::decode(data, want) {
            Z::Ok(v) => (v, false),
            Z::Dubious(v) => (v, true),
            Z::Bad => return (None, false),
        }
    } else {
        if data.len() != want {
            return (None, false);
        }
        (data.to_vec(), false)
    };
    if raw.len() != want {
        return (None, false);
    }
    if depth == Depth::Indexed && palette.is_none() {
        return (None, false);
    }
    (Some(to_rgba(depth, palette.unwrap_or(&[]), &raw)), odd)
}

/// The oracle's picture of a sprite of which only image data is damaged.
pub fn payload_sprite(o: &Oracle, v: &Version, hit: &[usize], bytes: &[u8]) -> RefSprite {
    let mut s = (*o.sprite).clone();
    let pal = v.doc.final_palette();
    for k in hit {
        let p = &v.enc.payloads[*k];
        let Some(i) = o.homes.iter().position(|h| *h == (p.frame, p.layer)) else {
            continue;
        };
        let Some(ContentM::Image(im)) = v.doc.frames[p.frame]
            .cels
            .get(&(p.layer as u32))
            .map(|c| &c.content)
        else {
            continue;
        };
        let (rgba, _) = ref_decode(
            v.doc.depth,
            Some(&pal),
            im.w.into(),
            im.h.into(),
            im.storage != zlib::Storage::Raw,
            &bytes[p.off..p.off + p.len],
        );
        s.images[i].rgba = rgba;
        s.images[i].may_fail = true;
    }
    s
}

/// A sprite as the loader itself reports it (for damage of any kind).
pub fn reported_sprite(a: &AsepriteFile<'_>) -> (RefSprite, Vec<String>) {
    let (w, h) = a.size();
    let depth = match a.file.header.color_depth {
        ColorDepth::Rgba => Some(Depth::Rgba),
        ColorDepth::Grayscale => Some(Depth::Gray),
        ColorDepth::Indexed => Some(Depth::Indexed),
        ColorDepth::Unknown(_) => None,
    };
    let pal: Option<Vec<[u8; 4]>> = a.file.palette.as_ref().map(|p| {
        p.colors
            .iter()
            .map(|c| [c.red, c.green, c.blue, c.alpha])
            .collect()
    });
    let s = RefSprite {
        w: w.into(),
        h: h.into(),
        layers: a
            .layers()
            .iter()
            .map(|l| RefLayer {
                mode: blend_code(l.blend_mode).ok(),
                opacity: l.opacity,
                group: kind_name(l.layer_type) == "kind1",
                visible: l.visible,
            })
            .collect(),
        frames: a
            .frames()
            .iter()
            .map(|f| {
                f.cels
                    .iter()
                    .map(|c| RefCel {
                        x: c.origin.0.into(),
                        y: c.origin.1.into(),
                        layer: c.layer_index,
                        image: c.image_index,
                    })
                    .collect()
            })
            .collect(),
        images: a
            .images
            .iter()
            .map(|i| {
                let rgba = depth.and_then(|d| {
                    ref_decode(
                        d,
                        pal.as_deref(),
                        i.width.into(),
                        i.height.into(),
                        i.compressed,
                        i.data,
                    )
                    .0
                });
                RefImage {
                    w: i.width.into(),
                    h: i.height.into(),
                    rgba,
                    may_fail: true,
                }
            })
            .collect(),
    };
    (s, a.layers().iter().map(|l| l.name.clone()).collect())
}
