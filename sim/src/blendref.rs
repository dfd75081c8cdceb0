//! Reference compositor: written from Aseprite's `doc/blend_funcs.cpp`, independent
//! of the code under test. Pixels are `[r, g, b, a]`.

pub type Px = [u8; 4];

fn mul(a: i32, b: i32) -> i32 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}
fn div(a: i32, b: i32) -> i32 {
    (a * 0xff + b / 2) / b
}

fn normal(b: Px, s: Px, op: u8) -> Px {
    if b[3] == 0 {
        return [s[0], s[1], s[2], mul(s[3].into(), op.into()) as u8];
    }
    if s[3] == 0 {
        return b;
    }
    let sa = mul(s[3].into(), op.into());
    let ba = i32::from(b[3]);
    let ra = sa + ba - mul(ba, sa);
    let ch = |i: usize| {
        let br = i32::from(b[i]);
        (br + (i32::from(s[i]) - br) * sa / ra) as u8
    };
    [ch(0), ch(1), ch(2), ra as u8]
}

fn merge(b: Px, s: Px, op: i32) -> Px {
    let lerp = |x: u8, y: u8| (i32::from(x) + mul(i32::from(y) - i32::from(x), op)) as u8;
    let rgb: [u8; 3] = if b[3] == 0 {
        [s[0], s[1], s[2]]
    } else if s[3] == 0 {
        [b[0], b[1], b[2]]
    } else {
        [lerp(b[0], s[0]), lerp(b[1], s[1]), lerp(b[2], s[2])]
    };
    let a = lerp(b[3], s[3]);
    if a == 0 {
        [0, 0, 0, 0]
    } else {
        [rgb[0], rgb[1], rgb[2], a]
    }
}

fn c_multiply(b: i32, s: i32) -> i32 {
    mul(b, s)
}
fn c_screen(b: i32, s: i32) -> i32 {
    b + s - mul(b, s)
}
fn c_hard_light(b: i32, s: i32) -> i32 {
    if s < 128 {
        c_multiply(b, s << 1)
    } else {
        c_screen(b, (s << 1) - 255)
    }
}
fn c_dodge(b: i32, s: i32) -> i32 {
    if b == 0 {
        return 0;
    }
    let s = 255 - s;
    if b >= s {
        255
    } else {
        div(b, s)
    }
}
fn c_burn(b: i32, s: i32) -> i32 {
    if b == 255 {
        return 255;
    }
    let b = 255 - b;
    if b >= s {
        0
    } else {
        255 - div(b, s)
    }
}
fn c_soft_light(b: i32, s: i32) -> i32 {
    let b = f64::from(b) / 255.0;
    let s = f64::from(s) / 255.0;
    let d = if b <= 0.25 {
        ((16.0 * b - 12.0) * b + 4.0) * b
    } else {
        b.sqrt()
    };
    let r = if s <= 0.5 {
        b - (1.0 - 2.0 * s) * b * (1.0 - b)
    } else {
        b + (2.0 * s - 1.0) * (d - b)
    };
    (r * 255.0 + 0.5) as u32 as i32
}
fn c_divide(b: i32, s: i32) -> i32 {
    if b == 0 {
        0
    } else if b >= s {
        255
    } else {
        div(b, s)
    }
}

type Rgb = [f64; 3];
fn lum(c: Rgb) -> f64 {
    0.3 * c[0] + 0.59 * c[1] + 0.11 * c[2]
}
fn sat(c: Rgb) -> f64 {
    c[0].max(c[1].max(c[2])) - c[0].min(c[1].min(c[2]))
}
fn set_lum(c: Rgb, l: f64) -> Rgb {
    let d = l - lum(c);
    let mut c = [c[0] + d, c[1] + d, c[2] + d];
    let l = lum(c);
    let n = c[0].min(c[1].min(c[2]));
    let x = c[0].max(c[1].max(c[2]));
    if n < 0.0 {
        for v in &mut c {
            *v = l + (((*v - l) * l) / (l - n));
        }
    }
    if x > 1.0 {
        for v in &mut c {
            *v = l + (((*v - l) * (1.0 - l)) / (x - l));
        }
    }
    c
}
/// Aseprite selects references with MIN/MID/MAX macros that may alias on ties;
/// the result on ties follows from these exact comparisons.
fn set_sat(c: Rgb, s: f64) -> Rgb {
    let [r, g, b] = c;
    let min_gb = if g < b { 1 } else { 2 };
    let max_gb = if g > b { 1 } else { 2 };
    let min = if r < c[min_gb] { 0 } else { min_gb };
    let max = if r > c[max_gb] { 0 } else { max_gb };
    let mid = match (r > g, g > b) {
        (true, true) => 1,
        (true, false) => {
            if r > b {
                2
            } else {
                0
            }
        }
        (false, true) => {
            if b > r {
                2
            } else {
                0
            }
        }
        (false, false) => 1,
    };
    let mut o = c;
    if o[max] > o[min] {
        o[mid] = ((o[mid] - o[min]) * s) / (o[max] - o[min]);
        o[max] = s;
    } else {
        o[mid] = 0.0;
        o[max] = 0.0;
    }
    o[min] = 0.0;
    o
}

/// Number of blend modes Aseprite defines.
pub const MODES: u16 = 19;

/// The blended source colour (alpha of the source kept) for a non-normal mode.
fn blended(mode: u16, b: Px, s: Px) -> Px {
    let ch = |f: fn(i32, i32) -> i32| -> Px {
        let g = |i: usize| f(b[i].into(), s[i].into()) as u8;
        [g(0), g(1), g(2), s[3]]
    };
    let unit = |p: Px| -> Rgb {
        [
            f64::from(p[0]) / 255.0,
            f64::from(p[1]) / 255.0,
            f64::from(p[2]) / 255.0,
        ]
    };
    let out = |c: Rgb| -> Px {
        [
            (255.0 * c[0]) as i32 as u8,
            (255.0 * c[1]) as i32 as u8,
            (255.0 * c[2]) as i32 as u8,
            s[3],
        ]
    };
    match mode {
        1 => ch(c_multiply),
        2 => ch(c_screen),
        3 => ch(|b, s| c_hard_light(s, b)),
        4 => ch(|b, s| b.min(s)),
        5 => ch(|b, s| b.max(s)),
        6 => ch(c_dodge),
        7 => ch(c_burn),
        8 => ch(c_hard_light),
        9 => ch(c_soft_light),
        10 => ch(|b, s| (b - s).abs()),
        11 => ch(|b, s| b + s - 2 * mul(b, s)),
        12 => out(set_lum(set_sat(unit(s), sat(unit(b))), lum(unit(b)))),
        13 => out(set_lum(set_sat(unit(b), sat(unit(s))), lum(unit(b)))),
        14 => out(set_lum(unit(s), lum(unit(b)))),
        15 => out(set_lum(unit(b), lum(unit(s)))),
        16 => ch(|b, s| (b + s).min(255)),
        17 => ch(|b, s| (b - s).max(0)),
        18 => ch(c_divide),
        _ => s,
    }
}

/// Blends one pixel; `mode` is the code stored in the file (`< MODES`).
pub fn blend(mode: u16, b: Px, s: Px, op: u8) -> Px {
    if mode == 0 || b[3] == 0 {
        return normal(b, s, op);
    }
    let norm = normal(b, s, op);
    let bl = normal(b, blended(mode, b, s), op);
    let m = merge(norm, bl, b[3].into());
    let total = mul(s[3].into(), op.into());
    merge(m, bl, mul(b[3].into(), total))
}

#[derive(Clone, Debug)]
pub struct RefLayer {
    pub mode: Option<u16>,
    pub opacity: u8,
    pub group: bool,
    pub visible: bool,
}
#[derive(Clone, Debug)]
pub struct RefCel {
    pub x: i32,
    pub y: i32,
    pub layer: usize,
    pub image: usize,
}
/// An image: its size and, when its stored data is intact, its RGBA pixels.
#[derive(Clone, Debug)]
pub struct RefImage {
    pub w: usize,
    pub h: usize,
    pub rgba: Option<Vec<u8>>,
    /// Decoding may be refused although a picture can be made out.
    pub may_fail: bool,
}
#[derive(Clone, Debug, Default)]
pub struct RefSprite {
    pub w: usize,
    pub h: usize,
    pub layers: Vec<RefLayer>,
    pub frames: Vec<Vec<RefCel>>,
    pub images: Vec<RefImage>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefSel {
    Visible,
    All,
    Mask(Vec<bool>),
}

impl RefSel {
    pub fn draws(&self, i: usize, l: &RefLayer) -> bool {
        !l.group
            && match self {
                RefSel::Visible => l.visible,
                RefSel::All => true,
                RefSel::Mask(m) => m.get(i).copied().unwrap_or(false),
            }
    }
}

/// What a render call may do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// Must succeed with exactly the computed picture.
    Ok,
    /// Must fail.
    Err,
    /// May fail, or succeed with the computed picture.
    Either,
    /// May fail, or succeed with anything in the touched pixels.
    Free,
}

impl RefSprite {
    /// Composes `frame` over `canvas` (RGBA, row major, `w * h * 4` bytes);
    /// `touched[i]` is set for each pixel covered by a drawn cel.
    pub fn render(
        &self,
        frame: usize,
        sel: &RefSel,
        canvas: &mut [u8],
        touched: &mut [bool],
    ) -> Verdict {
        let mut verdict = Verdict::Ok;
        for cel in &self.frames[frame] {
            let Some(layer) = self.layers.get(cel.layer) else {
                continue;
            };
            if !sel.draws(cel.layer, layer) {
                continue;
            }
            let img = &self.images[cel.image];
            let x0 = cel.x.max(0);
            let y0 = cel.y.max(0);
            let x1 = (i64::from(cel.x) + img.w as i64).min(self.w as i64) as i32;
            let y1 = (i64::from(cel.y) + img.h as i64).min(self.h as i64) as i32;
            let empty = x0 >= x1 || y0 >= y1;
            let mode = layer.mode;
            let worst = |a: Verdict, b: Verdict| match (a, b) {
                (Verdict::Err, _) | (_, Verdict::Err) => Verdict::Err,
                (Verdict::Free, _) | (_, Verdict::Free) => Verdict::Free,
                (Verdict::Either, _) | (_, Verdict::Either) => Verdict::Either,
                _ => Verdict::Ok,
            };
            let Some(rgba) = img.rgba.as_ref() else {
                if !empty {
                    for y in y0..y1 {
                        for x in x0..x1 {
                            touched[y as usize * self.w + x as usize] = true;
                        }
                    }
                }
                verdict = worst(verdict, if empty { Verdict::Either } else { Verdict::Err });
                continue;
            };
            if img.may_fail {
                verdict = worst(verdict, Verdict::Either);
            }
            let Some(mode) = mode else {
                if !empty {
                    for y in y0..y1 {
                        for x in x0..x1 {
                            touched[y as usize * self.w + x as usize] = true;
                        }
                    }
                }
                verdict = worst(verdict, if empty { Verdict::Either } else { Verdict::Free });
                continue;
            };
            if empty {
                continue;
            }
            for y in y0..y1 {
                for x in x0..x1 {
                    let t = y as usize * self.w + x as usize;
                    let c = (y - cel.y) as usize * img.w + (x - cel.x) as usize;
                    touched[t] = true;
                    let b: Px = canvas[t * 4..t * 4 + 4].try_into().unwrap();
                    let s: Px = rgba[c * 4..c * 4 + 4].try_into().unwrap();
                    canvas[t * 4..t * 4 + 4].copy_from_slice(&blend(mode, b, s, layer.opacity));
                }
            }
        }
        verdict
    }
}
