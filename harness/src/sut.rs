//! Driving the code under test: feeding, snapshots, comparisons.

use crate::gen::Fmt;
use crate::model::*;
use ebur128::{Channel, EbuR128, Error, Mode};

pub fn chan(r: u8) -> Channel {
    use Channel::*;
    [
        Unused, Left, Right, Center, LeftSurround, RightSurround, DualMono, MpSC, MmSC, Mp060, Mm060, Mp090, Mm090,
        Mp135, Mm135, Mp180, Up000, Up030, Um030, Up045, Um045, Up090, Um090, Up110, Um110, Up135, Um135, Up180, Tp000,
        Bp000, Bp045, Bm045,
    ][r as usize]
}
pub fn md(bits: u8) -> Mode {
    Mode::from_bits_truncate(bits)
}
pub fn new(ch: u32, rate: u32, mode: u8) -> Result<EbuR128, Error> {
    EbuR128::new(ch, rate, md(mode))
}

pub fn to_i16(p: &[f64]) -> Vec<i16> {
    p.iter().map(|v| (v * 32768.0) as i16).collect()
}
pub fn to_i32(p: &[f64]) -> Vec<i32> {
    p.iter().map(|v| (v * 2147483648.0) as i32).collect()
}
/// Whatever floating-point environment the caller has set: the samples are those of the default one.
pub fn to_f32(p: &[f64]) -> Vec<f32> {
    #[inline(never)]
    fn convert(p: &[f64]) -> Vec<f32> {
        p.iter().map(|v| *v as f32).collect()
    }
    use crate::props::c18::{csr, set_csr};
    let was = csr();
    set_csr(was & !0xE040);
    let r = convert(p);
    set_csr(was);
    r
}
pub fn interleave(p: &[&[f64]]) -> Vec<f64> {
    let n = p[0].len();
    let mut v = Vec::with_capacity(n * p.len());
    for i in 0..n {
        for c in p {
            v.push(c[i]);
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Add,
    Seed,
}

/// A loud value, to lie around the audio in memory: what it is must not matter.
pub trait Loud: Copy + PartialEq {
    const LOUD: Self;
}
impl Loud for i16 {
    const LOUD: i16 = i16::MIN;
}
impl Loud for i32 {
    const LOUD: i32 = i32::MIN;
}
impl Loud for f32 {
    const LOUD: f32 = 1e30;
}
impl Loud for f64 {
    const LOUD: f64 = 1e150;
}

/// How the audio of a call lies in memory: a function of the audio, so that cases stay functions of their tape.
pub struct Lie(u64);
fn lie(p: &[&[f64]]) -> Lie {
    let first = p.first().and_then(|c| c.first()).map_or(0, |v| v.to_bits());
    let frames = p.first().map_or(0, |c| c.len()) as u64;
    Lie::new(first ^ frames.rotate_left(40) ^ (p.len() as u64).rotate_left(20))
}
impl Lie {
    pub fn new(from: u64) -> Lie {
        let mut h = from.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        Lie(h ^ (h >> 32))
    }
    /// One allocation holding all rows, and where they are: at any alignment, adjacent or apart, in any
    /// order; rows of equal content may be the same memory.
    pub fn planar<T: Loud>(&self, rows: &[Vec<T>]) -> (Vec<T>, Vec<(usize, usize)>) {
        let h = self.0;
        let lead = (h % 9) as usize;
        let gap = if h >> 8 & 1 == 0 { 0 } else { (h >> 9) as usize % 17 };
        let (backwards, shared) = (h >> 16 & 3 == 0, h >> 18 & 1 == 0);
        let n = rows.len();
        let mut all = Vec::with_capacity(rows.iter().map(|r| r.len() + gap).sum::<usize>() + lead + 8);
        all.resize(lead, T::LOUD);
        let mut at: Vec<Option<(usize, usize)>> = vec![None; n];
        for i in 0..n {
            let c = if backwards { n - 1 - i } else { i };
            if shared {
                if let Some(o) = (0..n).find(|o| at[*o].is_some() && rows[*o] == rows[c]) {
                    at[c] = at[o];
                    continue;
                }
            }
            let a = all.len();
            all.extend_from_slice(&rows[c]);
            at[c] = Some((a, all.len()));
            all.resize(all.len() + gap, T::LOUD);
        }
        all.resize(all.len() + 8, T::LOUD);
        (all, at.into_iter().map(|a| a.unwrap_or((0, 0))).collect())
    }
}

pub fn feed_via(e: &mut EbuR128, via: Via, fmt: Fmt, planar: bool, p: &[&[f64]]) -> Result<(), Error> {
    macro_rules! go {
        ($conv:expr, $ai:ident, $ap:ident, $si:ident, $sp:ident) => {{
            let lie = lie(p);
            if planar {
                let rows: Vec<_> = p.iter().map(|c| $conv(c)).collect();
                let (all, at) = lie.planar(&rows);
                let r: Vec<&[_]> = at.iter().map(|(a, b)| &all[*a..*b]).collect();
                match via {
                    Via::Add => e.$ap(&r),
                    Via::Seed => e.$sp(&r),
                }
            } else {
                let (all, at) = lie.planar(&[$conv(&interleave(p))]);
                let v = &all[at[0].0..at[0].1];
                match via {
                    Via::Add => e.$ai(v),
                    Via::Seed => e.$si(v),
                }
            }
        }};
    }
    match fmt {
        Fmt::F64 => go!(|c: &[f64]| c.to_vec(), add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
        Fmt::F32 => go!(to_f32, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
        Fmt::I16 => go!(to_i16, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
        Fmt::I32 => go!(to_i32, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
    }
}
pub fn feed(e: &mut EbuR128, fmt: Fmt, planar: bool, p: &[&[f64]]) -> Result<(), Error> {
    feed_via(e, Via::Add, fmt, planar, p)
}

pub type Q = Result<f64, Error>;

/// Everything observable through read-only queries.
#[derive(Clone, Debug)]
pub struct Snap {
    pub mode: u8,
    pub ch: u32,
    pub rate: u32,
    pub map: Vec<Channel>,
    pub max_window: usize,
    pub max_history: usize,
    pub m: Q,
    pub s: Q,
    pub w: Vec<(u32, Q)>,
    pub g: Q,
    pub rt: Q,
    pub lra: Q,
    pub blk: Option<(u64, f64)>,
    pub sp: Vec<Q>,
    pub psp: Vec<Q>,
    pub tp: Vec<Q>,
    pub ptp: Vec<Q>,
}
pub const WINDOWS: [u32; 4] = [50, 400, 1234, 3000];
pub fn snap(e: &EbuR128) -> Snap {
    let c = e.channels();
    Snap {
        mode: e.mode().bits(),
        ch: c,
        rate: e.rate(),
        map: e.channel_map().to_vec(),
        max_window: e.max_window(),
        max_history: e.max_history(),
        m: e.loudness_momentary(),
        s: e.loudness_shortterm(),
        w: WINDOWS.iter().copied().chain(u32::try_from(e.max_window()).ok()).map(|w| (w, e.loudness_window(w))).collect(),
        g: e.loudness_global(),
        rt: e.relative_threshold(),
        lra: e.loudness_range(),
        blk: e.gating_block_count_and_energy(),
        sp: (0..c).map(|i| e.sample_peak(i)).collect(),
        psp: (0..c).map(|i| e.prev_sample_peak(i)).collect(),
        tp: (0..c).map(|i| e.true_peak(i)).collect(),
        ptp: (0..c).map(|i| e.prev_true_peak(i)).collect(),
    }
}

/// Comparison of two values of the same quantity.
#[derive(Clone, Copy)]
pub struct Tol {
    /// LU, absolute.
    pub lu: f64,
    /// relative, true peaks.
    pub tp: f64,
    /// Levels below this count as silence.
    pub quiet: f64,
}
pub const SAME: Tol = Tol { lu: 1e-9, tp: 1e-6, quiet: -2500.0 };

pub fn lu_eq(a: f64, b: f64, t: Tol) -> bool {
    if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b {
        return true;
    }
    if a < t.quiet && b < t.quiet {
        return true;
    }
    (a - b).abs() <= t.lu
}
fn q_eq(a: &Q, b: &Q, f: impl Fn(f64, f64) -> bool) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => f(*x, *y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}
pub fn rel_eq(a: f64, b: f64, r: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= r * a.abs().max(b.abs())
}

/// First difference between two snapshots, if any.
pub fn diff(a: &Snap, b: &Snap, t: Tol) -> Option<String> {
    diff_parts(a, b, t, true, true)
}
pub fn diff_parts(a: &Snap, b: &Snap, t: Tol, prev: bool, settings: bool) -> Option<String> {
    if settings {
        if a.mode != b.mode || a.ch != b.ch || a.rate != b.rate {
            return Some(format!("mode/channels/rate {:?} vs {:?}", (a.mode, a.ch, a.rate), (b.mode, b.ch, b.rate)));
        }
        if a.map != b.map {
            return Some(format!("channel map {:?} vs {:?}", a.map, b.map));
        }
        if a.max_window != b.max_window || a.max_history != b.max_history {
            return Some(format!("max window/history {:?} vs {:?}", (a.max_window, a.max_history), (b.max_window, b.max_history)));
        }
    }
    let lu = |x: f64, y: f64| lu_eq(x, y, t);
    let mut items: Vec<(String, &Q, &Q)> = vec![
        ("momentary".into(), &a.m, &b.m),
        ("short-term".into(), &a.s, &b.s),
        ("global".into(), &a.g, &b.g),
        ("relative threshold".into(), &a.rt, &b.rt),
        ("range".into(), &a.lra, &b.lra),
    ];
    for (x, y) in a.w.iter().zip(&b.w) {
        if x.0 == y.0 {
            items.push((format!("window {}", x.0), &x.1, &y.1));
        }
    }
    for (n, x, y) in items {
        if !q_eq(x, y, lu) {
            return Some(format!("{n}: {x:?} vs {y:?}"));
        }
    }
    match (a.blk, b.blk) {
        (None, None) => {}
        (Some(x), Some(y)) if x.0 == y.0 && rel_eq(x.1, y.1, 1e-9) => {}
        (x, y) => return Some(format!("gating blocks: {x:?} vs {y:?}")),
    }
    for c in 0..a.sp.len().min(b.sp.len()) {
        if !q_eq(&a.sp[c], &b.sp[c], |x, y| x == y || (x.is_nan() && y.is_nan())) {
            return Some(format!("sample peak {c}: {:?} vs {:?}", a.sp[c], b.sp[c]));
        }
        if !q_eq(&a.tp[c], &b.tp[c], |x, y| rel_eq(x, y, t.tp)) {
            return Some(format!("true peak {c}: {:?} vs {:?}", a.tp[c], b.tp[c]));
        }
        if prev {
            if !q_eq(&a.psp[c], &b.psp[c], |x, y| x == y || (x.is_nan() && y.is_nan())) {
                return Some(format!("previous sample peak {c}: {:?} vs {:?}", a.psp[c], b.psp[c]));
            }
            if !q_eq(&a.ptp[c], &b.ptp[c], |x, y| rel_eq(x, y, t.tp)) {
                return Some(format!("previous true peak {c}: {:?} vs {:?}", a.ptp[c], b.ptp[c]));
            }
        }
    }
    None
}

/// Energy comparison against the model: relative 1e-7 plus what the rate's coefficients (`Model::rel_of`) and the rounding floor of the code's filter allow.
pub fn energy_close(code: f64, model: f64, floor: f64, rel: f64) -> bool {
    if !(code >= 0.0) {
        return false;
    }
    if code == model {
        return true;
    }
    (code - model).abs() <= (1e-7 + rel) * model + floor + 2.0 * (model * floor).sqrt()
}
pub fn check_loudness(name: &str, code: Q, model_energy: f64, floor: f64, rel: f64) -> Result<(), String> {
    let l = match code {
        Ok(l) => l,
        Err(e) => return Err(format!("{name}: error {e:?}, expected {}", lufs(model_energy))),
    };
    let e = if l == f64::NEG_INFINITY { 0.0 } else { energy_of(l) };
    // 10^(x/10) of huge or tiny values
    if l.is_nan() || !energy_close(e, model_energy, floor + model_energy * 1e-11, rel) {
        return Err(format!("{name}: {l} LUFS, expected {} LUFS", lufs(model_energy)));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Ok,
    Ambiguous,
}

/// Global loudness, relative threshold and block statistics against the model.
pub fn check_gating(e: &EbuR128, m: &Model) -> Result<Judge, String> {
    let g = m.global();
    if g.ambiguous {
        return Ok(Judge::Ambiguous);
    }
    let gl = e.loudness_global();
    let rt = e.relative_threshold();
    let bc = e.gating_block_count_and_energy();
    match g.threshold {
        None => {
            if gl != Ok(f64::NEG_INFINITY) || rt != Ok(-70.0) || bc.is_some() {
                return Err(format!("no block above the gate, but global {gl:?}, threshold {rt:?}, blocks {bc:?}"));
            }
        }
        Some(thr) => {
            let fl = m.floor();
            check_loudness("relative threshold", rt, thr, fl, g.slack)?;
            match bc {
                Some((n, en)) => {
                    if n != g.count {
                        return Err(format!("gating block count {n}, expected {}", g.count));
                    }
                    if !energy_close(en / n as f64, g.energy / g.count as f64, fl, g.slack) {
                        return Err(format!("gating block energy {en}, expected {}", g.energy));
                    }
                }
                None => return Err(format!("no gating blocks reported, expected {}", g.count)),
            }
            check_loudness("global loudness", gl, g.energy / g.count as f64, fl, g.slack)?;
        }
    }
    Ok(Judge::Ok)
}

pub fn check_range(e: &EbuR128, m: &Model) -> Result<Judge, String> {
    let r = m.lra();
    if r.ambiguous {
        return Ok(Judge::Ambiguous);
    }
    match e.loudness_range() {
        Ok(v) if (v - r.lra).abs() <= 1e-6 + 10.0 * r.slack => Ok(Judge::Ok),
        v => Err(format!("loudness range {v:?}, expected {} ({} values kept)", r.lra, r.kept)),
    }
}

pub fn check_windows(e: &EbuR128, m: &Model, windows: &[u32]) -> Result<(), String> {
    let fl = m.floor();
    check_loudness("momentary", e.loudness_momentary(), m.momentary(), fl, m.rel())?;
    if has(m.mode, S) {
        check_loudness("short-term", e.loudness_shortterm(), m.shortterm(), fl, m.rel())?;
    }
    for &w in windows {
        let fr = m.window_frames(w);
        if fr == 0 {
            continue;
        }
        if w as usize <= m.window {
            check_loudness(&format!("window {w} ms"), e.loudness_window(w), m.interval(fr), fl, m.rel())?;
        }
    }
    Ok(())
}

pub fn check_sample_peaks(e: &EbuR128, m: &Model) -> Result<(), String> {
    for c in 0..m.ch {
        let (a, b) = (e.sample_peak(c), e.prev_sample_peak(c));
        if a != Ok(m.sp[c as usize]) {
            return Err(format!("sample peak of channel {c}: {a:?}, expected {}", m.sp[c as usize]));
        }
        if b != Ok(m.psp[c as usize]) {
            return Err(format!("previous sample peak of channel {c}: {b:?}, expected {}", m.psp[c as usize]));
        }
    }
    Ok(())
}
pub fn check_true_peaks(e: &EbuR128, m: &Model) -> Result<(), String> {
    for c in 0..m.ch {
        let i = c as usize;
        for (n, v, x, reach, sp) in [
            ("true peak", e.true_peak(c), m.true_peak(i), m.reach[i], m.sp[i]),
            ("previous true peak", e.prev_true_peak(c), m.prev_true_peak(i), m.preach[i], m.psp[i]),
        ] {
            match v {
                Ok(v) if (v - x).abs() <= 1e-5 * reach && v >= sp => {}
                v => return Err(format!("{n} of channel {c}: {v:?}, expected {x}")),
            }
        }
    }
    Ok(())
}

/// All model-backed checks that the mode supports. Returns how many gated results were ambiguous.
pub fn check_all(e: &EbuR128, m: &Model, windows: &[u32]) -> Result<u64, String> {
    let mut amb = 0;
    check_windows(e, m, windows)?;
    if has(m.mode, I) {
        amb += (check_gating(e, m)? == Judge::Ambiguous) as u64;
    }
    if has(m.mode, LRA) {
        amb += (check_range(e, m)? == Judge::Ambiguous) as u64;
    }
    if has(m.mode, SP) {
        check_sample_peaks(e, m)?;
    }
    if has(m.mode, TP) && m.do_tp {
        check_true_peaks(e, m)?;
    }
    Ok(amb)
}

pub fn check_settings(e: &EbuR128, m: &Model) -> Result<(), String> {
    let map: Vec<Channel> = m.map.iter().map(|&r| chan(r)).collect();
    if e.mode() != md(m.mode) || e.channels() != m.ch || e.rate() != m.rate {
        return Err(format!("accessors report mode {:?} channels {} rate {}, expected {} {} {}", e.mode(), e.channels(), e.rate(), m.mode, m.ch, m.rate));
    }
    if e.channel_map() != &map[..] {
        return Err(format!("channel map {:?}, expected {:?}", e.channel_map(), map));
    }
    if e.max_window() != m.window {
        return Err(format!("max window {}, expected {}", e.max_window(), m.window));
    }
    if e.max_history() != m.history {
        return Err(format!("max history {}, expected {}", e.max_history(), m.history));
    }
    Ok(())
}

/// Carries a value to another thread whatever its type promises; nothing is used by two threads at once.
pub struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
impl<T> Carried<T> {
    pub fn new(t: T) -> Self {
        Carried(t)
    }
    pub fn take(self) -> T {
        self.0
    }
}

/// Whether the analyzer's type may be moved to and shared between threads.
pub struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
pub trait Unsent {
    const SEND: bool = false;
}
#[allow(dead_code)]
pub trait Unshared {
    const SYNC: bool = false;
}
impl<T> Unsent for Probe<T> {}
impl<T> Unshared for Probe<T> {}
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    pub const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    pub const SYNC: bool = true;
}
