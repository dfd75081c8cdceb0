//! What is left behind: sprites loaded, used and dropped again and again. The
//! memory the library holds between two rounds may not keep growing.

use crate::disk::damage;
use crate::doc::{ContentM, Doc};
use crate::encode::encode;
use crate::plan::{gen_fault, gen_payload_fault};
use crate::prng::{mix, Rng};
use crate::report::{self, add, p, violation, S};
use crate::sched;
use crate::seams;
use crate::world::{charge, load_bound, w};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

const ROUNDS: usize = 128;
/// What seems to grow has to go on growing for this long: a cache of some hundred
/// entries is none.
const LONG: usize = 1024;
const STEPS: u64 = 60_000_000;
const MEM: u64 = 512 << 20;
/// Bigger pictures are not drawn.
const MAX_PIXELS: usize = 4096;

struct Scene {
    masks: Vec<LayerSelection>,
    names: Vec<String>,
    buf: Vec<u8>,
}

/// Everything a user might do with a sprite, right and wrong.
fn use_it(f: &AsepriteFile<'_>, sc: &mut Scene, k: usize) {
    for i in 0..f.images.len().min(3) {
        let im = &f.images[i];
        let need = usize::from(im.width) * usize::from(im.height) * 4;
        if need <= MAX_PIXELS * 4 {
            let _ = f.load_image(i, &mut sc.buf[..need]);
            let _ = f.load_image(i, &mut sc.buf[..need / 2]);
        }
    }
    let (cw, ch) = f.size();
    let need = usize::from(cw) * usize::from(ch) * 4;
    let n = f.frames().len();
    if n > 0 && need <= MAX_PIXELS * 4 {
        let fr = k % n;
        let _ = f.render_frame(fr, &mut sc.buf[..need], &LayerSelection::Visible);
        let _ = f.render_frame(fr, &mut sc.buf[..need / 2], &LayerSelection::Visible);
        let _ = f.render_frame((fr + 1) % n, &mut sc.buf[..need], &sc.masks[k % sc.masks.len()]);
        #[allow(deprecated)]
        let _ = f.combined_frame_image(fr, &mut sc.buf[..need]);
    }
    let names: Vec<&str> = sc.names.iter().map(String::as_str).collect();
    let a = f.select_layers_by_name(&names);
    let b = f.select_layers(|l| l.opacity > 100);
    let c = b.clone();
    drop((a, b, c));
    let _ = f.tags().len() + f.slices().len() + f.layers().len();
}

/// Replaces every frame duration by a number never used before.
fn restamp(b: &mut [u8], frames: &[usize], k: usize) {
    for f in frames {
        if let Some(d) = b.get_mut(f + 8..f + 10) {
            d.copy_from_slice(&((k * 7 + f) as u16).to_le_bytes());
        }
    }
}
/// The document with new texts, pixels and colours, of the same size as ever.
fn another(d: &Doc, k: usize) -> Doc {
    let mut d = d.clone();
    let tag = |s: &mut String| {
        s.truncate(s.char_indices().nth(8).map(|c| c.0).unwrap_or(s.len()));
        s.push_str(&format!("{k:05}"));
    };
    for l in &mut d.layers {
        tag(&mut l.name);
    }
    for t in &mut d.tags {
        tag(&mut t.name);
    }
    for s in &mut d.slices {
        tag(&mut s.name);
    }
    for f in &mut d.frames {
        f.duration = (k as u16).wrapping_mul(13);
        for c in f.cels.values_mut() {
            if let ContentM::Image(im) = &mut c.content {
                im.seed ^= mix(&[k as u64]);
            }
        }
    }
    let mut ud = d.ud.take().unwrap_or_default();
    ud.text = Some(format!("{k:05}"));
    d.ud = Some(ud);
    d
}
/// Where frames begin, as far as the sizes stored say so.
fn frames_of(b: &[u8]) -> Vec<usize> {
    let mut at = 128;
    let mut out = Vec::new();
    while at + 16 <= b.len() && out.len() < 64 {
        out.push(at);
        let n = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        if n < 16 {
            break;
        }
        at += n;
    }
    out
}

pub fn run(v: usize, seed: u64, keep: bool) {
    let r = &mut Rng::new(seed);
    let whole = w().store.versions[v].enc.bytes.clone();
    if whole.len() > 6000 {
        return;
    }
    // what comes by: the save, older ones, cut and damaged ones
    let mut kinds: Vec<Vec<u8>> = vec![whole.clone()];
    for _ in 0..3 {
        let mut b = whole.clone();
        match r.below(4) {
            0 => b.truncate(r.us(whole.len())),
            1 => b = w().store.versions[r.us(w().store.versions.len())].enc.bytes.clone(),
            2 => damage(&mut b, &gen_payload_fault(r), &w().store, v),
            _ => damage(&mut b, &gen_fault(r), &w().store, v),
        }
        if b.len() < 8000 {
            kinds.push(b);
        }
    }
    let places: Vec<Vec<usize>> = kinds.iter().map(|b| frames_of(b)).collect();
    let layers = w().store.versions[v].doc.layers.len();
    let mut sc = Scene {
        masks: (0..5)
            .map(|_| LayerSelection::Mask((0..layers).map(|_| r.chance(1, 2)).collect()))
            .collect(),
        names: w().store.versions[v].doc.layers.iter().take(3).map(|l| l.name.clone()).collect(),
        buf: vec![0; MAX_PIXELS * 4],
    };
    let mut held: Vec<i64> = Vec::new();
    let what = format!(
        "{} of complete save #{v} ({} bytes) and {} others",
        if keep { "repeated calls on sprites" } else { "loading, using and dropping" },
        whole.len(),
        kinds.len() - 1
    );
    sched::set_call(what.clone());
    report::set_ctx(p(5));
    let (mut spent, mut loads) = (0, 0);
    let (doc, opts) = {
        let v = &w().store.versions[v];
        (v.doc.clone(), v.opts.clone())
    };
    let kept = kinds.clone();
    let kept: Vec<_> = kept
        .iter()
        .map(|b| {
            let (s, m) = load_bound(b);
            seams::lib_call(s, m, || AsepriteFile::load(b).ok()).0.ok().flatten()
        })
        .collect();
    // growing in every doubling: neither filling up nor settling
    let grows = |held: &[i64]| {
        let d: Vec<i64> = [16usize, 32, 64, 128, 256, 512]
            .iter()
            .filter(|k| *k * 2 < held.len())
            .map(|k| held[k * 2] - held[*k])
            .collect();
        d.iter().all(|g| *g > 0) && d.last().is_some_and(|l| *l >= 64)
    };
    let mut k = 0;
    while k <= ROUNDS || k <= LONG && spent < 1_500_000_000 && grows(&held) {
        for (i, b) in kinds.iter_mut().enumerate() {
            let sc = &mut sc;
            let (ok, c) = if keep {
                let Some(f) = &kept[i] else { continue };
                seams::lib_call(STEPS, MEM, || use_it(f, sc, k))
            } else {
                if i == 0 {
                    *b = encode(&another(&doc, k), &opts).bytes;
                } else {
                    restamp(b, &places[i], k);
                }
                loads += 1;
                let b = &*b;
                seams::lib_call(STEPS, MEM, || match AsepriteFile::load(b) {
                    Ok(f) => use_it(&f, sc, k),
                    Err(e) => drop(e.to_string()),
                })
            };
            spent += c.steps;
            if let Err(msg) = ok {
                violation(p(5), "panic", &format!("{what} panicked: {msg}"));
                return;
            }
            // callers whose predicates panic
            if let (true, Some(f)) = (k % 2 == 0, &kept[i]) {
                if !f.layers().is_empty() {
                    let _ = seams::lib_call(STEPS, MEM, || {
                        f.select_layers(|_| std::panic::panic_any(()))
                    });
                }
            }
        }
        held.push(seams::heap());
        if k < ROUNDS && spent > 200_000_000 {
            return;
        }
        k += 1;
    }
    charge(seams::Cost { steps: spent.min(1_000_000), peak: 0 });
    add(S::churn_cycles, ROUNDS as u64);
    add(S::churn_loads, loads);
    add(S::checks, 1);
    report::log(mix(&[spent, (held[ROUNDS] - held[16]) as u64]));
    if held.len() > LONG && grows(&held) {
        violation(
            p(18),
            "left-behind",
            &format!(
                "{what}: what the library holds after each round grew by {} bytes over rounds 16 to 32, {} over 32 to 64, {} over 64 to 128 and so on, {} over 512 to 1024",
                held[32] - held[16],
                held[64] - held[32],
                held[128] - held[64],
                held[1024] - held[512]
            ),
        );
    }
}
