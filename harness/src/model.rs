//! Reference model of the analyzer, written from ITU-R BS.1770-4, EBU Tech 3342 and the crate's
//! documentation. Different algorithms from the code under test: state-variable filters instead of a
//! combined direct form, unbounded storage instead of ring buffers, per-hop sums, plain lists.

use std::f64::consts::PI;

pub const M: u8 = 1;
pub const S: u8 = 3;
pub const I: u8 = 5;
pub const LRA: u8 = 11;
pub const SP: u8 = 17;
pub const TP: u8 = 49;
pub const HIST: u8 = 64;


pub fn has(mode: u8, bits: u8) -> bool {
    mode & bits == bits
}

pub fn lufs(e: f64) -> f64 {
    if e <= 0.0 {
        f64::NEG_INFINITY
    } else {
        10.0 * e.log10() - 0.691
    }
}
pub fn energy_of(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}
/// Absolute gate.
pub fn b0() -> f64 {
    energy_of(-70.0)
}
pub fn bin_lower(i: usize) -> f64 {
    10f64.powf((i as f64 / 10.0 - 70.0 + 0.691) / 10.0)
}
pub fn bin_centre(i: usize) -> f64 {
    10f64.powf((i as f64 / 10.0 - 69.95 + 0.691) / 10.0)
}

/// Trapezoidal state-variable filter.
#[derive(Clone, Copy, Default)]
struct Svf {
    c1: f64,
    c2: f64,
}
#[derive(Clone, Copy)]
pub struct KWeight {
    sh: (f64, f64, f64, f64), // k, a1, a2, a3
    vh: f64,
    vbk: f64,
    hp: (f64, f64, f64, f64),
    hp_gain: f64,
}
impl KWeight {
    pub fn new(rate: f64) -> Self {
        let coef = |f0: f64, q: f64| {
            let g = (PI * f0 / rate).tan();
            let k = 1.0 / q;
            let a1 = 1.0 / (1.0 + g * (g + k));
            ((k, a1, g * a1, g * g * a1), g)
        };
        let q1 = 0.7071752369554196;
        let (sh, _) = coef(1681.974450955533, q1);
        let vh = 10f64.powf(3.999843853973347 / 20.0);
        let vb = vh.powf(0.4996667741545416);
        let q2 = 0.5003270373238773;
        let (hp, g2) = coef(38.13547087602444, q2);
        // BS.1770 gives the high-pass numerator as exactly 1, -2, 1.
        let hp_gain = 1.0 + g2 / q2 + g2 * g2;
        KWeight { sh, vh, vbk: vb / q1, hp, hp_gain }
    }
    #[inline]
    fn step(s: &mut Svf, c: &(f64, f64, f64, f64), v0: f64) -> (f64, f64, f64) {
        let v3 = v0 - s.c2;
        let v1 = c.1 * s.c1 + c.2 * v3;
        let v2 = s.c2 + c.2 * s.c1 + c.3 * v3;
        s.c1 = 2.0 * v1 - s.c1;
        s.c2 = 2.0 * v2 - s.c2;
        (v0 - c.0 * v1 - v2, v1, v2)
    }
    #[inline]
    fn run(&self, st: &mut FState, x: f64) -> f64 {
        let (h, b, l) = Self::step(&mut st.a, &self.sh, x);
        let y = self.vh * h + self.vbk * b + l;
        let (h, _, _) = Self::step(&mut st.b, &self.hp, y);
        h * self.hp_gain
    }
}
#[derive(Clone, Copy, Default)]
pub struct FState {
    a: Svf,
    b: Svf,
}

/// Weight of a channel role (numbering of the C header).
pub fn weight(role: u8) -> f64 {
    match role {
        0 => 0.0,
        4 | 5 | 9 | 10 | 11 | 12 => 1.41,
        6 => 2.0,
        _ => 1.0,
    }
}

pub fn default_map(ch: u32) -> Vec<u8> {
    match ch {
        4 => vec![1, 2, 4, 5],
        5 => vec![1, 2, 3, 4, 5],
        n => (0..n as usize).map(|i| *[1u8, 2, 3, 0, 4, 5].get(i).unwrap_or(&0)).collect(),
    }
}

pub fn tp_factor(rate: u32) -> usize {
    if rate < 96000 {
        4
    } else if rate < 192000 {
        2
    } else {
        1
    }
}

pub fn tp_coeff(factor: usize) -> Vec<f64> {
    (0..48)
        .map(|j| {
            let j = j as f64;
            let w = 0.5 * (1.0 - (2.0 * PI * j / 48.0).cos());
            let m = (j - 24.0) * PI / factor as f64;
            if m == 0.0 {
                w
            } else {
                w * m.sin() / m
            }
        })
        .collect()
}

/// Per-channel oversampler state: the last inputs, newest last.
#[derive(Clone)]
pub struct Over {
    hist: Vec<f64>,
}
impl Over {
    fn new(factor: usize) -> Self {
        Over { hist: vec![0.0; if factor == 1 { 0 } else { 48 / factor - 1 }] }
    }
    /// Feeds samples; returns (maximum oversampled magnitude, largest input in reach).
    fn feed(&mut self, x: &[f64], coeff: &[f64], factor: usize) -> (f64, f64) {
        if factor == 1 {
            return (0.0, 0.0);
        }
        let taps = 48 / factor;
        let mut buf = std::mem::take(&mut self.hist);
        buf.extend(x.iter().map(|&v| v as f32 as f64));
        let mut max = 0.0f64;
        let mut reach = 0.0f64;
        for v in &buf {
            if v.abs() > reach {
                reach = v.abs();
            }
        }
        for n in taps - 1..buf.len() {
            for f in 0..factor {
                let mut acc = 0.0;
                for t in 0..taps {
                    acc += buf[n - t] * coeff[t * factor + f];
                }
                if acc.abs() > max {
                    max = acc.abs();
                }
            }
        }
        let keep = buf.len() - (taps - 1);
        self.hist = buf.split_off(keep);
        (max, reach)
    }
}

/// Stored energies of one programme, as far as gating is concerned.
#[derive(Clone, Default)]
pub struct Store {
    pub hist: bool,
    pub list: Vec<f64>,
    pub bins: std::collections::BTreeMap<usize, u64>,
    /// An energy was too close to the gate or a bin boundary to know where the code put it.
    pub ambiguous: bool,
    /// Total number offered (above the gate).
    pub offered: u64,
    /// Largest relative uncertainty of the energies, beyond AMB.
    pub slack: f64,
}
const AMB: f64 = 1e-6;
fn near(a: f64, b: f64, slack: f64) -> bool {
    (a - b).abs() <= (AMB + 2.0 * slack) * b.abs()
}
impl Store {
    pub fn add(&mut self, e: f64, err: f64, max: usize) {
        let g = b0();
        if (e - g).abs() <= AMB * g + err {
            self.ambiguous = true;
        }
        if e < g {
            return;
        }
        self.offered += 1;
        if self.hist {
            let pos = (10.0 * (lufs(e) + 70.0)).floor().max(0.0);
            let i = (pos as usize).min(999);
            // f64 evaluation near a boundary
            for j in [i, i + 1] {
                let b = bin_lower(j);
                if j <= 999 && j > 0 && (e - b).abs() <= 2e-7 * b + err {
                    self.ambiguous = true;
                }
            }
            *self.bins.entry(i).or_insert(0) += 1;
        } else {
            self.list.push(e);
            while self.list.len() > max {
                self.list.remove(0);
            }
        }
    }
    pub fn set_max(&mut self, max: usize) {
        if !self.hist && self.list.len() > max {
            self.list.drain(..self.list.len() - max);
        }
    }
    pub fn clear(&mut self) {
        self.list.clear();
        self.bins.clear();
        self.ambiguous = false;
        self.offered = 0;
        self.slack = 0.0;
    }
    pub fn items(&self) -> Vec<(u64, f64)> {
        if self.hist {
            self.bins.iter().map(|(&i, &c)| (c, bin_centre(i))).collect()
        } else {
            self.list.iter().map(|&e| (1, e)).collect()
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Gated {
    /// None: nothing above the absolute gate.
    pub threshold: Option<f64>,
    pub count: u64,
    pub energy: f64,
    pub ambiguous: bool,
    /// Relative uncertainty of the energies.
    pub slack: f64,
}

/// BS.1770-4 gating of the pooled energies of several programmes.
pub fn gate(stores: &[&Store]) -> Gated {
    let mut n = 0u64;
    let mut sum = 0.0;
    let mut amb = false;
    let slack = stores.iter().fold(0.0f64, |a, s| a.max(s.slack));
    for s in stores {
        amb |= s.ambiguous;
        for (c, e) in s.items() {
            n += c;
            sum += c as f64 * e;
        }
    }
    if n == 0 {
        return Gated { threshold: None, count: 0, energy: 0.0, ambiguous: amb, slack };
    }
    let thr = 0.1 * (sum / n as f64);
    let (mut k, mut e2) = (0u64, 0.0);
    for s in stores {
        for (c, e) in s.items() {
            if near(e, thr, slack) {
                amb = true;
            }
            if e >= thr {
                k += c;
                e2 += c as f64 * e;
            }
        }
    }
    Gated { threshold: Some(thr), count: k, energy: e2, ambiguous: amb, slack }
}

#[derive(Clone, Copy, Debug)]
pub struct Range {
    pub lra: f64,
    pub kept: u64,
    pub ambiguous: bool,
    /// Relative uncertainty of the energies.
    pub slack: f64,
}

/// EBU Tech 3342 over pooled short-term energies.
pub fn range(stores: &[&Store]) -> Range {
    let mut all: Vec<(u64, f64)> = vec![];
    let slack = stores.iter().fold(0.0f64, |a, s| a.max(s.slack));
    let mut amb = false;
    for s in stores {
        amb |= s.ambiguous;
        all.extend(s.items());
    }
    all.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
    let n: u64 = all.iter().map(|x| x.0).sum();
    if n == 0 {
        return Range { lra: 0.0, kept: 0, ambiguous: amb, slack };
    }
    let mean = all.iter().map(|x| x.0 as f64 * x.1).sum::<f64>() / n as f64;
    let thr = 0.01 * mean;
    for x in &all {
        if near(x.1, thr, slack) {
            amb = true;
        }
    }
    let kept: Vec<(u64, f64)> = all.into_iter().filter(|x| x.1 >= thr).collect();
    let k: u64 = kept.iter().map(|x| x.0).sum();
    if k == 0 {
        return Range { lra: 0.0, kept: 0, ambiguous: true, slack };
    }
    let at = |p: f64| -> f64 {
        // index round((k-1)*p), halves up
        let idx = ((k - 1) as f64 * p + 0.5).floor() as u64;
        let mut seen = 0;
        for x in &kept {
            seen += x.0;
            if seen > idx {
                return x.1;
            }
        }
        unreachable!()
    };
    Range { lra: lufs(at(0.95)) - lufs(at(0.10)), kept: k, ambiguous: amb, slack }
}

#[derive(Clone)]
pub struct Model {
    pub ch: u32,
    pub rate: u32,
    pub mode: u8,
    pub map: Vec<u8>,
    pub window: usize,
    pub history: usize,
    kw: KWeight,
    fs: Vec<FState>,
    /// Filtered audio since the buffer was last cleared; `y[c][i]` is frame `base + i`.
    y: Vec<Vec<f64>>,
    base: usize,
    pub n: usize,
    /// Completed hop sums of squares, per channel, since the buffer was cleared.
    hops: Vec<Vec<f64>>,
    acc: Vec<f64>,
    pub blocks: Store,
    pub shorts: Store,
    /// All block energies ever completed, including those below the gate (diagnostics).
    pub all_blocks: Vec<f64>,
    pub all_shorts: Vec<f64>,
    pub sp: Vec<f64>,
    pub psp: Vec<f64>,
    otp: Vec<f64>,
    potp: Vec<f64>,
    pub reach: Vec<f64>,
    pub preach: Vec<f64>,
    over: Vec<Over>,
    coeff: Vec<f64>,
    /// Largest input magnitude since the filters were created.
    pub peak_in: f64,
    pub do_tp: bool,
}

impl Model {
    pub fn new(ch: u32, rate: u32, mode: u8) -> Self {
        let hist = has(mode, HIST);
        let mut m = Model {
            ch,
            rate,
            mode,
            map: default_map(ch),
            window: if has(mode, S) { 3000 } else { 400 },
            history: usize::MAX,
            kw: KWeight::new(rate as f64),
            fs: vec![],
            y: vec![],
            base: 0,
            n: 0,
            hops: vec![],
            acc: vec![],
            blocks: Store { hist, ..Default::default() },
            shorts: Store { hist, ..Default::default() },
            all_blocks: vec![],
            all_shorts: vec![],
            sp: vec![0.0; ch as usize],
            psp: vec![0.0; ch as usize],
            otp: vec![0.0; ch as usize],
            potp: vec![0.0; ch as usize],
            reach: vec![0.0; ch as usize],
            preach: vec![0.0; ch as usize],
            over: vec![],
            coeff: vec![],
            peak_in: 0.0,
            do_tp: true,
        };
        m.new_filter();
        m.clear_ring();
        m
    }
    pub fn s(&self) -> usize {
        (self.rate as usize + 5) / 10
    }
    fn new_filter(&mut self) {
        let c = self.ch as usize;
        self.kw = KWeight::new(self.rate as f64);
        self.fs = vec![FState::default(); c];
        let f = tp_factor(self.rate);
        self.over = vec![Over::new(f); c];
        self.coeff = tp_coeff(f);
        self.psp = vec![0.0; c];
        self.potp = vec![0.0; c];
        self.preach = vec![0.0; c];
        self.peak_in = 0.0;
    }
    fn clear_ring(&mut self) {
        let c = self.ch as usize;
        self.y = vec![vec![]; c];
        self.base = 0;
        self.n = 0;
        self.hops = vec![vec![]; c];
        self.acc = vec![0.0; c];
    }
    pub fn set_channel(&mut self, c: u32, role: u8) -> bool {
        if c >= self.ch || (role == 6 && self.ch != 1) {
            return false;
        }
        self.map[c as usize] = role;
        true
    }
    pub fn set_map(&mut self, map: &[u8]) -> bool {
        if map.len() != self.ch as usize || (self.ch != 1 && map.contains(&6)) {
            return false;
        }
        self.map = map.to_vec();
        true
    }
    pub fn change(&mut self, ch: u32, rate: u32) -> bool {
        if !(1..=64).contains(&ch) || !(16..=2822400).contains(&rate) {
            return false;
        }
        if ch == self.ch && rate == self.rate {
            return true;
        }
        if ch != self.ch {
            self.ch = ch;
            self.map = default_map(ch);
            self.sp = vec![0.0; ch as usize];
            self.otp = vec![0.0; ch as usize];
            self.reach = vec![0.0; ch as usize];
        }
        self.rate = rate;
        self.new_filter();
        self.clear_ring();
        true
    }
    pub fn set_window(&mut self, w: u32) {
        let w = (w as usize).max(if has(self.mode, S) { 3000 } else { 400 });
        if w != self.window {
            self.window = w;
            self.clear_ring();
        }
    }
    pub fn set_history(&mut self, h: u32) {
        let h = (h as usize).max(if has(self.mode, LRA) { 3000 } else { 400 });
        self.history = h;
        self.blocks.set_max(h / 100);
        self.shorts.set_max(h / 3000);
    }
    pub fn reset(&mut self) {
        self.clear_ring();
        self.new_filter();
        self.blocks.clear();
        self.shorts.clear();
        self.all_blocks.clear();
        self.all_shorts.clear();
        self.sp.fill(0.0);
        self.otp.fill(0.0);
        self.reach.fill(0.0);
    }
    /// Rounding noise of the code's filter, as an energy.
    pub fn floor_of(rate: u32, peak: f64) -> f64 {
        // The direct form's inner state is up to 1/A(1) times the input (dc); each sum of its terms
        // rounds relative to that, and the error passes through the whole filter.
        let k1 = (PI * 1681.974450955533 / rate as f64).tan();
        let k2 = (PI * 38.13547087602444 / rate as f64).tan();
        let gain = (1.0 + k1 / 0.7 + k1 * k1) * (1.0 + 2.0 * k2 + k2 * k2) / (16.0 * k1 * k1 * k2 * k2);
        let a = peak * 8e-15 * (4.0 + gain);
        a * a + 1e-300
    }
    /// Relative error of an energy that the last bits of the direct form's coefficients can make:
    /// they move its poles.
    pub fn rel_of(rate: u32) -> f64 {
        let k1 = (PI * 1681.974450955533 / rate as f64).tan();
        let k2 = (PI * 38.13547087602444 / rate as f64).tan();
        let gain = (1.0 + k1 / 0.7 + k1 * k1) * (1.0 + 2.0 * k2 + k2 * k2) / (16.0 * k1 * k1 * k2 * k2);
        (1.5e-14 * gain).min(0.1)
    }
    pub fn rel(&self) -> f64 {
        Self::rel_of(self.rate)
    }
    pub fn floor(&self) -> f64 {
        Self::floor_of(self.rate, self.peak_in) * self.ch as f64
    }
    fn trim(&mut self) {
        let keep = self.s() * 31 + (self.rate as usize * self.window / 1000) + self.s();
        if let Some(y0) = self.y.first() {
            if y0.len() > 2 * keep + 100_000 {
                let cut = y0.len() - keep;
                for y in &mut self.y {
                    y.drain(..cut);
                }
                self.base += cut;
            }
        }
    }
    pub fn seed(&mut self, planes: &[&[f64]]) {
        let f = tp_factor(self.rate);
        for c in 0..self.ch as usize {
            for v in planes[c] {
                if v.abs() > self.peak_in {
                    self.peak_in = v.abs();
                }
            }
            if self.map[c] != 0 {
                for &x in planes[c] {
                    self.kw.run(&mut self.fs[c], x);
                }
            }
            if self.do_tp {
                self.over[c].feed(planes[c], &self.coeff, f);
            }
        }
    }
    pub fn add(&mut self, planes: &[&[f64]]) {
        let frames = planes[0].len();
        if frames == 0 {
            return;
        }
        let f = tp_factor(self.rate);
        for c in 0..self.ch as usize {
            let mut m = 0.0f64;
            for v in planes[c] {
                if v.abs() > m {
                    m = v.abs();
                }
            }
            self.psp[c] = m;
            if m > self.sp[c] {
                self.sp[c] = m;
            }
            if m > self.peak_in {
                self.peak_in = m;
            }
            if self.do_tp {
                let (t, reach) = self.over[c].feed(planes[c], &self.coeff, f);
                self.potp[c] = t;
                self.preach[c] = reach.max(m);
                if t > self.otp[c] {
                    self.otp[c] = t;
                }
                self.reach[c] = self.reach[c].max(self.preach[c]);
            }
        }
        let s = self.s();
        let mut i = 0;
        while i < frames {
            let to_hop = s - self.n % s;
            let k = to_hop.min(frames - i);
            for c in 0..self.ch as usize {
                if self.map[c] == 0 {
                    self.y[c].extend(std::iter::repeat(0.0).take(k));
                } else {
                    let mut a = self.acc[c];
                    let st = &mut self.fs[c];
                    let y = &mut self.y[c];
                    for &x in &planes[c][i..i + k] {
                        let v = self.kw.run(st, x);
                        y.push(v);
                        a += v * v;
                    }
                    self.acc[c] = a;
                }
            }
            self.n += k;
            i += k;
            if self.n % s == 0 {
                for c in 0..self.ch as usize {
                    self.hops[c].push(self.acc[c]);
                    self.acc[c] = 0.0;
                }
                self.hop_done();
            }
        }
        self.trim();
    }
    fn hop_energy(&self, k: usize) -> f64 {
        let mut e = 0.0;
        for c in 0..self.ch as usize {
            let h = &self.hops[c];
            e += weight(self.map[c]) * h[h.len() - k..].iter().sum::<f64>();
        }
        e / (k * self.s()) as f64
    }
    fn hop_done(&mut self) {
        let k = self.n / self.s();
        let err = self.floor();
        let rel = self.rel();
        self.blocks.slack = self.blocks.slack.max(rel);
        self.shorts.slack = self.shorts.slack.max(rel);
        if k >= 4 && has(self.mode, I) {
            let e = self.hop_energy(4);
            self.all_blocks.push(e);
            self.blocks.add(e, err + 2.0 * (e * err).sqrt() + rel * e, self.history / 100);
        }
        if k >= 30 && (k - 30) % 10 == 0 && has(self.mode, LRA) {
            let e = self.hop_energy(30);
            self.all_shorts.push(e);
            self.shorts.add(e, err + 2.0 * (e * err).sqrt() + rel * e, self.history / 3000);
        }
        for h in &mut self.hops {
            if h.len() > 4096 {
                h.drain(..4000);
            }
        }
    }
    /// The last 3 s, which must repeat every 100 ms, for another `tens` seconds.
    pub fn repeat(&mut self, tens: usize) {
        let err = self.floor();
        let rel = self.rel();
        for (n, e, store, max) in [
            (10 * tens, if has(self.mode, I) { self.all_blocks.last().copied() } else { None }, &mut self.blocks, self.history / 100),
            (tens, if has(self.mode, LRA) { self.all_shorts.last().copied() } else { None }, &mut self.shorts, self.history / 3000),
        ] {
            if let Some(e) = e {
                for _ in 0..n {
                    store.add(e, err + 2.0 * (e * err).sqrt() + rel * e, usize::MAX);
                }
                store.set_max(max);
            }
        }
    }
    /// Weighted mean square of the last `frames` frames.
    pub fn interval(&self, frames: usize) -> f64 {
        let mut e = 0.0;
        for c in 0..self.ch as usize {
            let w = weight(self.map[c]);
            if w != 0.0 {
                let y = &self.y[c];
                let from = y.len().saturating_sub(frames);
                assert!(from > 0 || self.base == 0 || y.len() == frames);
                e += w * y[from..].iter().map(|v| v * v).sum::<f64>();
            }
        }
        e / frames as f64
    }
    pub fn momentary(&self) -> f64 {
        self.interval(4 * self.s())
    }
    pub fn shortterm(&self) -> f64 {
        self.interval(30 * self.s())
    }
    pub fn window_frames(&self, ms: u32) -> usize {
        (self.rate as u64 * ms as u64 / 1000) as usize
    }
    pub fn global(&self) -> Gated {
        gate(&[&self.blocks])
    }
    pub fn lra(&self) -> Range {
        range(&[&self.shorts])
    }
    pub fn true_peak(&self, c: usize) -> f64 {
        self.otp[c].max(self.sp[c])
    }
    pub fn prev_true_peak(&self, c: usize) -> f64 {
        self.potp[c].max(self.psp[c])
    }
}
