//! Generators: configurations, signals, partitions.

use crate::tape::{Rng, Tape};
use std::f64::consts::PI;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    F64,
    I16,
    I32,
    F32,
}
pub const FMTS: [Fmt; 4] = [Fmt::F64, Fmt::I16, Fmt::I32, Fmt::F32];
impl Fmt {
    pub fn is_int(self) -> bool {
        matches!(self, Fmt::I16 | Fmt::I32)
    }
    /// Nearest value representable in the format.
    pub fn quant(self, v: f64) -> f64 {
        match self {
            Fmt::F64 => v,
            Fmt::F32 => v as f32 as f64,
            Fmt::I16 => ((v * 32768.0).round().clamp(-32768.0, 32767.0)) / 32768.0,
            Fmt::I32 => ((v * 2147483648.0).round().clamp(-2147483648.0, 2147483647.0)) / 2147483648.0,
        }
    }
}
pub fn fmt(t: &mut Tape) -> Fmt {
    t.pick(&FMTS)
}

pub type Planes = Vec<Vec<f64>>;
pub fn refs(p: &Planes) -> Vec<&[f64]> {
    p.iter().map(|v| &v[..]).collect()
}
pub fn slice<'a>(p: &'a Planes, a: usize, b: usize) -> Vec<&'a [f64]> {
    p.iter().map(|v| &v[a..b]).collect()
}

/// Rates cheap enough for long programmes; many are not multiples of 10.
pub fn low_rate(t: &mut Tape) -> u32 {
    match t.weighted(&[6, 3, 2]) {
        0 => t.pick(&[4000u32, 5000, 6000, 8000]),
        1 => t.pick(&[4001u32, 4004, 4005, 4006, 4009, 4444, 5513, 6007, 8005]),
        _ => t.int(4000, 9000) as u32,
    }
}
/// Rates of 16 to 3363 Hz for which the K-weighting filter happens to be stable (its corner folds to
/// a positive frequency) and well conditioned.
pub fn folded_rate(t: &mut Tape) -> u32 {
    let mut r = if t.chance(1, 2) { t.int(600, 3363) } else { t.int(16, 1700) } as u32;
    let ok = |r: u32| {
        let k = |f: f64| (std::f64::consts::PI * f / r as f64).tan();
        let (a, b) = (k(1681.974450955533), k(38.13547087602444));
        a > 0.05 && a < 20.0 && b > 0.02 && b < 20.0
    };
    while !ok(r) {
        r = if r <= 16 { 1600 } else { r - 1 };
    }
    r
}
/// Any rate for which the K-weighting filter is stable.
pub fn any_rate(t: &mut Tape) -> u32 {
    match t.weighted(&[8, 4, 3, 2, 1]) {
        0 => low_rate(t),
        1 => t.pick(&[48000u32, 44100, 16000, 22050, 32000, 11025, 12000, 24000]),
        2 => t.pick(&[96000u32, 95999, 191999, 192000, 88200, 176400, 95995, 96004]),
        3 => t.int(9000, 100000) as u32,
        _ => t.pick(&[192001u32, 384000, 352800, 705600, 100001, 200000]),
    }
}
pub fn channels(t: &mut Tape) -> u32 {
    match t.weighted(&[4, 6, 6, 3, 1]) {
        0 => 1,
        1 => 2,
        2 => t.pick(&[4u32, 5, 6, 8, 3, 7]),
        3 => t.int(1, 12) as u32,
        _ => t.int(1, 64) as u32,
    }
}
/// Mode bits that make a constructible analyzer.
pub fn mode(t: &mut Tape) -> u8 {
    match t.weighted(&[4, 3, 4]) {
        0 => 127,
        1 => 63,
        _ => t.int(0, 127) as u8 | 1,
    }
}
pub fn role(t: &mut Tape, ch: u32) -> u8 {
    if ch == 1 && t.chance(1, 4) {
        return 6;
    }
    match t.weighted(&[3, 3, 2, 1]) {
        0 => t.pick(&[1u8, 2, 3]),
        1 => t.pick(&[4u8, 5, 9, 10, 11, 12]),
        2 => t.pick(&[7u8, 8, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]),
        _ => 0,
    }
}
pub fn used_role(t: &mut Tape, ch: u32) -> u8 {
    let r = role(t, ch);
    if r == 0 {
        3
    } else {
        r
    }
}
pub fn map(t: &mut Tape, ch: u32) -> Vec<u8> {
    (0..ch).map(|_| role(t, ch)).collect()
}

#[derive(Clone, Copy, Debug)]
pub enum Wave {
    Silence,
    Sine { f: f64, ph: f64 },
    Noise { seed: u64 },
    Dc,
    Impulse { period: usize, off: usize },
    Square { half: usize },
    Alt,
    Ramp,
    Burst { at: usize, len: usize },
    Walk { seed: u64 },
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub frames: usize,
    /// Per channel.
    pub gens: Vec<(Wave, f64)>,
}

/// Amplitude, mostly ordinary; `wild` allows far above full scale and far below hearing.
pub fn amp(t: &mut Tape, wild: bool) -> f64 {
    match t.weighted(&[4, 3, 3, if wild { 2 } else { 0 }, 1]) {
        0 => 10f64.powf(t.f(0.0, -40.0) / 20.0),
        1 => t.pick(&[1.0, 0.5, 0.25, 0.1, 0.01]),
        2 => 10f64.powf(t.f(-90.0, -30.0) / 20.0),
        3 => 10f64.powf(t.pick(&[40.0, 20.0, 6.0, 60.0, -200.0, -320.0, -1000.0, -3000.0]) / 20.0),
        _ => 0.0,
    }
}

pub fn wave(t: &mut Tape, frames: usize, rate: u32) -> Wave {
    match t.weighted(&[6, 5, 2, 2, 2, 1, 1, 2, 2, 1]) {
        0 => Wave::Sine {
            f: match t.weighted(&[3, 2, 2]) {
                0 => t.pick(&[1000.0, 997.0, 440.0, 100.0, 50.0, 1500.0]) / rate as f64,
                1 => t.pick(&[0.25, 0.125, 0.49, 0.001, 0.3333]),
                _ => t.f(0.0005, 0.499),
            },
            ph: t.pick(&[0.0, 0.25, 0.125, 0.6]),
        },
        1 => Wave::Noise { seed: t.seed() },
        2 => Wave::Dc,
        3 => Wave::Impulse { period: t.us(1, 2000), off: t.us(0, 50) },
        4 => Wave::Square { half: t.us(1, 200) },
        5 => Wave::Alt,
        6 => Wave::Ramp,
        7 => Wave::Burst { at: t.us(0, frames.saturating_sub(1).min(1 << 20)), len: t.us(1, 60) },
        8 => Wave::Silence,
        _ => Wave::Walk { seed: t.seed() },
    }
}

pub fn render_wave(w: &Wave, a: f64, frames: usize, out: &mut Vec<f64>, fmt: Fmt) {
    if a == 0.0 || matches!(w, Wave::Silence) {
        out.extend(std::iter::repeat(0.0).take(frames));
        return;
    }
    let q = |v: f64| fmt.quant(v);
    match *w {
        Wave::Silence => {}
        Wave::Sine { f, ph } => {
            let mut acc = ph;
            for _ in 0..frames {
                out.push(q(a * (2.0 * PI * acc).sin()));
                acc += f;
                if acc >= 1.0 {
                    acc -= 1.0;
                }
            }
        }
        Wave::Noise { seed } => {
            let mut r = Rng::new(seed);
            out.extend((0..frames).map(|_| q(a * r.sym())));
        }
        Wave::Dc => out.extend(std::iter::repeat(q(a)).take(frames)),
        Wave::Impulse { period, off } => out.extend((0..frames).map(|i| if (i + off) % period == 0 { q(if (i / period) % 2 == 0 { a } else { -a }) } else { 0.0 })),
        Wave::Square { half } => out.extend((0..frames).map(|i| q(if (i / half) % 2 == 0 { a } else { -a }))),
        Wave::Alt => out.extend((0..frames).map(|i| q(if i % 2 == 0 { a } else { -a }))),
        Wave::Ramp => out.extend((0..frames).map(|i| q(a * (2.0 * i as f64 / frames as f64 - 1.0)))),
        Wave::Burst { at, len } => out.extend((0..frames).map(|i| if i >= at && i < at + len { q(if (i - at) % 3 == 0 { a } else { -a * 0.7 }) } else { 0.0 })),
        Wave::Walk { seed } => {
            let mut r = Rng::new(seed);
            let mut v = 0.0f64;
            for _ in 0..frames {
                v = (v + 0.1 * r.sym()).clamp(-1.0, 1.0);
                out.push(q(a * v));
            }
        }
    }
}

/// Content of one segment for all channels: a few distinct waves, different per channel.
pub fn segment(t: &mut Tape, ch: u32, rate: u32, frames: usize, wild: bool) -> Seg {
    let k = t.us(1, (ch as usize).min(3));
    let mut pool = vec![];
    for _ in 0..k {
        pool.push((wave(t, frames, rate), amp(t, wild)));
    }
    let style = t.weighted(&[3, 2, 2]);
    let mut gens = vec![];
    for c in 0..ch as usize {
        let (w, a) = pool[c % k];
        let g = match style {
            0 => {
                // same content, distinct levels
                a * [1.0, 0.5, 0.8, 0.25, 0.9, 0.3][(c * 7 / 3) % 6]
            }
            1 => a,
            _ => {
                if ch <= 8 {
                    a * t.pick(&[1.0, 0.0, 0.5, 0.1])
                } else if c % 3 == 0 {
                    a
                } else {
                    0.0
                }
            }
        };
        // Different noise per channel.
        let w = match w {
            Wave::Noise { seed } if style != 1 => Wave::Noise { seed: seed.wrapping_add(c as u64 * 977) },
            w => w,
        };
        gens.push((w, g));
    }
    Seg { frames, gens }
}

pub fn render(segs: &[Seg], ch: u32, fmt: Fmt) -> Planes {
    let total: usize = segs.iter().map(|s| s.frames).sum();
    (0..ch as usize)
        .map(|c| {
            let mut v = Vec::with_capacity(total);
            for s in segs {
                render_wave(&s.gens[c].0, s.gens[c].1, s.frames, &mut v, fmt);
            }
            v
        })
        .collect()
}

/// A length in frames, biased to the block structure (hop = 100 ms).
pub fn length(t: &mut Tape, hop: usize, max: usize) -> usize {
    let v = match t.weighted(&[3, 3, 2, 4, 2, 1]) {
        0 => t.us(1, 12) * hop,
        1 => {
            let k = t.pick(&[4usize, 1, 3, 5, 10, 29, 30, 31, 40]);
            (k * hop + t.us(0, 2)).saturating_sub(1)
        }
        2 => t.us(0, 40),
        3 => t.us(0, 8 * hop),
        4 => t.us(0, 40 * hop),
        _ => t.us(10, 60) * hop,
    };
    v.min(max)
}

pub struct Audio {
    pub planes: Planes,
    pub desc: String,
}
impl Audio {
    pub fn frames(&self) -> usize {
        self.planes[0].len()
    }
}

/// A multi-segment signal of at most `max` frames.
pub fn audio(t: &mut Tape, ch: u32, rate: u32, fmt: Fmt, max: usize, max_segs: usize, wild: bool) -> Audio {
    let hop = (rate as usize + 5) / 10;
    let n = t.us(1, max_segs);
    let mut left = max;
    let mut segs = vec![];
    for _ in 0..n {
        let f = length(t, hop, left);
        left -= f;
        let s = segment(t, ch, rate, f, wild && !fmt.is_int());
        segs.push(s);
    }
    let desc = describe(&segs);
    Audio { planes: render(&segs, ch, fmt), desc }
}
/// A few segments that fill most of `max` frames.
pub fn long_audio(t: &mut Tape, ch: u32, rate: u32, fmt: Fmt, max: usize) -> Audio {
    let n = t.us(1, 5);
    let segs: Vec<Seg> = (0..n)
        .map(|_| {
            let f = t.us(max / n / 3, max / n);
            segment(t, ch, rate, f, false)
        })
        .collect();
    Audio { planes: render(&segs, ch, fmt), desc: describe(&segs) }
}
pub fn describe(segs: &[Seg]) -> String {
    segs.iter()
        .map(|s| {
            let g: Vec<String> = s.gens.iter().take(4).map(|(w, a)| format!("{w:?}*{a:.4e}")).collect();
            format!("{}fr[{}{}]", s.frames, g.join("; "), if s.gens.len() > 4 { "; .." } else { "" })
        })
        .collect::<Vec<_>>()
        .join(" + ")
}

/// How many frames fit a sample budget.
pub fn max_frames(ch: u32, rate: u32, budget: usize, hops: usize) -> usize {
    let hop = (rate as usize + 5) / 10;
    (budget / ch as usize).min(hops * hop).max(hop / 2)
}

/// Piece lengths that sum to `frames` (zero-length pieces possible).
pub fn partition(t: &mut Tape, frames: usize, hop: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = frames;
    match t.weighted(&[2, 3, 4, 2, 2, 1]) {
        0 => {
            v.push(left);
            left = 0;
        }
        1 => {
            // equal pieces
            let k = t.pick(&[hop, hop / 2 + 1, 4 * hop, hop + 1, 3 * hop + 7, 480, 1024, 64, 10 * hop]).max(1);
            let k = k.max(frames / 400 + 1);
            while left > 0 {
                let p = k.min(left);
                v.push(p);
                left -= p;
            }
        }
        2 => {
            let n = t.us(1, 12);
            for _ in 0..n {
                let p = length(t, hop, left);
                v.push(p);
                left -= p;
            }
        }
        3 => {
            // single frames at the start, then the rest
            let n = t.us(1, 40).min(left);
            v.extend(std::iter::repeat(1).take(n));
            left -= n;
        }
        4 => {
            let n = t.us(1, 30);
            for _ in 0..n {
                let p = t.us(0, 2 * hop).min(left);
                v.push(p);
                left -= p;
            }
        }
        _ => {
            // everything up to just before a block boundary, then single frames across it
            let p = (4 * hop).saturating_sub(t.us(0, 3)).min(left);
            v.push(p);
            left -= p;
            let n = t.us(1, 6).min(left);
            v.extend(std::iter::repeat(1).take(n));
            left -= n;
        }
    }
    if left > 0 {
        v.push(left);
    }
    v
}
