//! Independent zlib: a reference decoder (after RFC 1950/1951) used as oracle and
//! small encoders for stream shapes an ordinary compressor does not emit.

use crate::prng::Rng;

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in data.chunks(5000) {
        for x in c {
            a += u32::from(*x);
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    (b << 16) | a
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    buf: u32,
    cnt: u32,
}
impl Bits<'_> {
    fn bits(&mut self, n: u32) -> Option<u32> {
        let mut v = u64::from(self.buf);
        while self.cnt < n {
            let b = *self.d.get(self.pos)?;
            self.pos += 1;
            v |= u64::from(b) << self.cnt;
            self.cnt += 8;
        }
        self.buf = (v >> n) as u32;
        self.cnt -= n;
        Some((v & ((1u64 << n) - 1)) as u32)
    }
}

struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}
impl Huff {
    /// Returns the table and the number of unused codes (negative: over-subscribed).
    fn new(len: &[u8]) -> (Huff, i32) {
        let mut count = [0u16; 16];
        for l in len {
            count[usize::from(*l)] += 1;
        }
        let mut sym = vec![0u16; len.len()];
        let mut left = 1i32;
        if usize::from(count[0]) == len.len() {
            return (Huff { count, sym }, 0);
        }
        for c in &count[1..16] {
            left <<= 1;
            left -= i32::from(*c);
            if left < 0 {
                return (Huff { count, sym }, left);
            }
        }
        let mut offs = [0u16; 16];
        for l in 1..15 {
            offs[l + 1] = offs[l] + count[l];
        }
        for (s, l) in len.iter().enumerate() {
            if *l != 0 {
                sym[usize::from(offs[usize::from(*l)])] = s as u16;
                offs[usize::from(*l)] += 1;
            }
        }
        (Huff { count, sym }, left)
    }
    fn decode(&self, b: &mut Bits<'_>) -> Option<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= b.bits(1)? as i32;
            let c = i32::from(self.count[l]);
            if code - c < first {
                return Some(self.sym[(index + code - first) as usize]);
            }
            index += c;
            first += c;
            first <<= 1;
            code <<= 1;
        }
        None
    }
}

const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
    163, 195, 227, 258,
];
const LEXT: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
const DBASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049,
    3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
const DEXT: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
];

fn codes(
    b: &mut Bits<'_>,
    out: &mut Vec<u8>,
    max: usize,
    l: &Huff,
    d: &Huff,
    odd: &mut bool,
) -> Option<()> {
    loop {
        let s = l.decode(b)?;
        if s < 256 {
            if out.len() >= max {
                return None;
            }
            out.push(s as u8);
        } else if s == 256 {
            return Some(());
        } else {
            let s = usize::from(s - 257);
            if s >= 29 {
                return None;
            }
            let len = usize::from(LBASE[s]) + b.bits(LEXT[s].into())? as usize;
            let s = usize::from(d.decode(b)?);
            if s >= 30 {
                return None;
            }
            let dist = usize::from(DBASE[s]) + b.bits(DEXT[s].into())? as usize;
            if out.len() + len > max {
                return None;
            }
            // Decoders with a window of their own may take what lies before the
            // stream's beginning for zeros.
            *odd |= dist > out.len();
            for _ in 0..len {
                out.push(out.len().checked_sub(dist).map_or(0, |i| out[i]));
            }
        }
    }
}

/// What a stream is worth.
#[derive(Clone, Debug, PartialEq)]
pub enum Z {
    Ok(Vec<u8>),
    /// Checksum and length are right, but an encoder would not have written it this
    /// way; decoders may differ on whether they accept it.
    Dubious(Vec<u8>),
    Bad,
}

/// Decodes one complete zlib stream at the start of `data`. `Bad` if it is cut
/// short, malformed, fails its checksum or expands to more than `max` bytes.
pub fn decode(data: &[u8], max: usize) -> Z {
    let mut odd = false;
    match inflate(data, max, &mut odd) {
        None => Z::Bad,
        Some(v) if odd => Z::Dubious(v),
        Some(v) => Z::Ok(v),
    }
}
fn inflate(data: &[u8], max: usize, odd: &mut bool) -> Option<Vec<u8>> {
    let (cmf, flg) = (*data.first()?, *data.get(1)?);
    if cmf & 15 != 8 || (u32::from(cmf) * 256 + u32::from(flg)) % 31 != 0 {
        return None;
    }
    *odd |= cmf >> 4 > 7;
    if flg & 0x20 != 0 {
        return None;
    }
    let mut b = Bits {
        d: data,
        pos: 2,
        buf: 0,
        cnt: 0,
    };
    let mut out = Vec::new();
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                b.buf = 0;
                b.cnt = 0;
                let h = data.get(b.pos..b.pos + 4)?;
                let len = u16::from_le_bytes([h[0], h[1]]);
                if len != !u16::from_le_bytes([h[2], h[3]]) {
                    return None;
                }
                b.pos += 4;
                let part = data.get(b.pos..b.pos + usize::from(len))?;
                if out.len() + part.len() > max {
                    return None;
                }
                out.extend_from_slice(part);
                b.pos += usize::from(len);
            }
            1 => {
                let mut l = [8u8; 288];
                l[144..256].fill(9);
                l[256..280].fill(7);
                let (lh, _) = Huff::new(&l);
                let (dh, _) = Huff::new(&[5u8; 30]);
                codes(&mut b, &mut out, max, &lh, &dh, odd)?;
            }
            2 => {
                let nlen = b.bits(5)? as usize + 257;
                let ndist = b.bits(5)? as usize + 1;
                let ncode = b.bits(4)? as usize + 4;
                *odd |= nlen > 286 || ndist > 30;
                const ORD: [usize; 19] = [
                    16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
                ];
                let mut cl = [0u8; 19];
                for o in ORD.iter().take(ncode) {
                    cl[*o] = b.bits(3)? as u8;
                }
                let (ch, left) = Huff::new(&cl);
                if left < 0 {
                    return None;
                }
                *odd |= left != 0;
                let mut lens = [0u8; 320];
                let mut i = 0;
                while i < nlen + ndist {
                    let s = ch.decode(&mut b)?;
                    if s < 16 {
                        lens[i] = s as u8;
                        i += 1;
                    } else {
                        let (v, n) = match s {
                            16 => {
                                if i == 0 {
                                    return None;
                                }
                                (lens[i - 1], 3 + b.bits(2)?)
                            }
                            17 => (0, 3 + b.bits(3)?),
                            _ => (0, 11 + b.bits(7)?),
                        };
                        let n = n as usize;
                        if i + n > nlen + ndist {
                            return None;
                        }
                        lens[i..i + n].fill(v);
                        i += n;
                    }
                }
                *odd |= lens[256] == 0;
                let (lh, left) = Huff::new(&lens[..nlen]);
                if left < 0 {
                    return None;
                }
                *odd |= left > 0 && nlen != usize::from(lh.count[0]) + usize::from(lh.count[1]);
                let (dh, left) = Huff::new(&lens[nlen..nlen + ndist]);
                if left < 0 {
                    return None;
                }
                *odd |= left > 0 && ndist != usize::from(dh.count[0]) + usize::from(dh.count[1]);
                codes(&mut b, &mut out, max, &lh, &dh, odd)?;
            }
            _ => return None,
        }
        if last == 1 {
            break;
        }
    }
    let t = data.get(b.pos..b.pos + 4)?;
    if u32::from_be_bytes(t.try_into().unwrap()) != adler32(&out) {
        return None;
    }
    Some(out)
}

struct BitW {
    out: Vec<u8>,
    buf: u64,
    cnt: u32,
}
impl BitW {
    fn put(&mut self, v: u32, n: u32) {
        self.buf |= u64::from(v) << self.cnt;
        self.cnt += n;
        while self.cnt >= 8 {
            self.out.push(self.buf as u8);
            self.buf >>= 8;
            self.cnt -= 8;
        }
    }
    fn huff(&mut self, code: u32, n: u32) {
        self.put(code.reverse_bits() >> (32 - n), n);
    }
    fn align(&mut self) {
        if self.cnt > 0 {
            self.out.push(self.buf as u8);
            self.buf = 0;
            self.cnt = 0;
        }
    }
    fn lit(&mut self, s: u32) {
        match s {
            0..=143 => self.huff(0x30 + s, 8),
            144..=255 => self.huff(0x190 + s - 144, 9),
            256..=279 => self.huff(s - 256, 7),
            _ => self.huff(0xC0 + s - 280, 8),
        }
    }
}

/// How an image is stored.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Storage {
    Raw,
    /// Ordinary compressor (flate2) at this level.
    Level(u8),
    /// Hand-made stream of stored and fixed-Huffman blocks, seeded block cuts.
    Blocks(u64),
}

pub fn encode(data: &[u8], st: Storage) -> Vec<u8> {
    match st {
        Storage::Raw => data.to_vec(),
        Storage::Level(l) => {
            use std::io::Write;
            let mut e = flate2::write::ZlibEncoder::new(
                Vec::new(),
                flate2::Compression::new(u32::from(l.min(9))),
            );
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Storage::Blocks(seed) => {
            let mut r = Rng::new(seed);
            let mut w = BitW {
                out: vec![0x78, 0x01],
                buf: 0,
                cnt: 0,
            };
            let mut pos = 0;
            loop {
                let n = (r.logrange(1, 65535) as usize).min(data.len() - pos);
                let part = &data[pos..pos + n];
                let last = pos + n == data.len() && !r.chance(1, 4);
                let empty_tail = pos + n == data.len() && !last;
                w.put(u32::from(last), 1);
                if r.chance(1, 2) {
                    w.put(0, 2);
                    w.align();
                    let l = n as u16;
                    w.out.extend_from_slice(&l.to_le_bytes());
                    w.out.extend_from_slice(&(!l).to_le_bytes());
                    w.out.extend_from_slice(part);
                } else {
                    w.put(1, 2);
                    let mut i = 0;
                    while i < n {
                        let g = pos + i;
                        // longest run of distance 1 or 4 (typical for pixels)
                        let mut best = (0usize, 0usize);
                        for dist in [1usize, 2, 4] {
                            if g >= dist {
                                let mut k = 0;
                                while k < 258 && i + k < n && data[g + k] == data[g + k - dist] {
                                    k += 1;
                                }
                                if k > best.0 {
                                    best = (k, dist);
                                }
                            }
                        }
                        if best.0 >= 3 {
                            let k = best.0;
                            let s = (0..29).rev().find(|s| usize::from(LBASE[*s]) <= k).unwrap();
                            w.lit(257 + s as u32);
                            w.put((k - usize::from(LBASE[s])) as u32, LEXT[s].into());
                            let ds = match best.1 {
                                1 => 0,
                                2 => 1,
                                _ => 3,
                            };
                            w.huff(ds, 5);
                            i += k;
                        } else {
                            w.lit(data[g].into());
                            i += 1;
                        }
                    }
                    w.lit(256);
                }
                pos += n;
                if last {
                    break;
                }
                if empty_tail {
                    // final empty block
                    w.put(1, 1);
                    w.put(1, 2);
                    w.lit(256);
                    break;
                }
            }
            w.align();
            w.out.extend_from_slice(&adler32(data).to_be_bytes());
            w.out
        }
    }
}
