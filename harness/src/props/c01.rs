//! C01: no history makes the analyzer panic, abort or misreport validity.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::sut;
use crate::tape::{Rng, Tape};
use crate::{ensure, fail};
use ebur128::{EbuR128, Error};

pub const PROP: Prop = Prop {
    id: "C01",
    quick: 30_000,
    thorough: 1_500_000,
    rule: "history of up to 24 hostile calls from construction on; non-trivial: at least one add call with frames succeeded and at least two kinds of calls ran",
    technique: "stateful property-based fuzzing with an expected-validity tracker",
    assumptions: &["buffers above 64 MB per instance and windows between 20 s and the address-space limit are not generated"],
    run,
};

const MEM: u64 = 64 << 20;

struct T {
    ch: u32,
    rate: u32,
    mode: u8,
    map: Vec<u8>,
    window: u64,
    history: u64,
    /// All samples so far finite and below 1e100 since the filters were last created.
    tame: bool,
    /// Also: no untamed audio in gating results.
    tame_hist: bool,
}
impl T {
    fn s(&self) -> u64 {
        (self.rate as u64 + 5) / 10
    }
    fn ring(&self) -> u64 {
        let s = self.s();
        let f = (self.rate as u64 * self.window / 1000 + s - 1) / s * s;
        f.max(if self.window >= 3000 { 30 * s } else { 4 * s })
    }
}

pub fn hostile_rate(t: &mut Tape) -> u32 {
    match t.weighted(&[4, 4, 3, 2, 2]) {
        0 => t.pick(&[48000, 16, 44100, 4000, 8000, 96000, 192000, 17, 24, 25, 15, 0, 2822400, 2822401, u32::MAX, 95999]),
        1 => t.int(14, 160) as u32,
        2 => t.int(160, 6000) as u32,
        3 => gen::any_rate(t),
        _ => t.int(0, 3_000_000) as u32,
    }
}
pub fn hostile_channels(t: &mut Tape) -> u32 {
    match t.weighted(&[6, 3, 2]) {
        0 => t.int(1, 8) as u32,
        1 => gen::channels(t),
        _ => t.pick(&[0, 64, 65, 63, 100, u32::MAX, 1 << 31]),
    }
}
fn special(t: &mut Tape) -> f64 {
    t.pick(&[
        0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-310, 3.4e38, 1e-45, 1e40, 1e99, -1e99, 2.0, 1e-20, 1.5,
    ])
}

fn valid_cfg(ch: u32, rate: u32) -> bool {
    (1..=64).contains(&ch) && (16..=2822400).contains(&rate)
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let (mut ch, mut rate) = (hostile_channels(t), hostile_rate(t));
    let mode = match t.weighted(&[3, 3, 2]) {
        0 => 127,
        1 => gen::mode(t),
        _ => t.int(0, 127) as u8,
    };
    if valid_cfg(ch, rate) && ch as u64 * rate as u64 * 24 > MEM {
        if t.chance(1, 2) {
            ch = 1;
        } else {
            rate = rate.min((MEM / 24 / ch as u64) as u32).max(16);
        }
    }
    if valid_cfg(ch, rate) && ch as u64 * rate as u64 * 24 > MEM {
        rate = rate.min((MEM / 24 / ch as u64) as u32).max(16);
    }
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let r = EbuR128::new(ch, rate, sut::md(mode));
    let mut e = match r {
        Ok(e) => {
            ensure!(valid_cfg(ch, rate) && has(mode, M), "new({ch}, {rate}, {mode:#x}) succeeded");
            e
        }
        Err(err) => {
            ensure!(!(valid_cfg(ch, rate) && has(mode, M)), "new({ch}, {rate}, {mode:#x}) failed with {err:?}");
            let want = if valid_cfg(ch, rate) { Error::InvalidMode } else { Error::NoMem };
            ensure!(err == want || (!valid_cfg(ch, rate) && !has(mode, M)), "new({ch}, {rate}, {mode:#x}) failed with {err:?}, expected {want:?}");
            cx.label("construction rejected");
            return Ok(());
        }
    };
    let mut k = T { ch, rate, mode, map: default_map(ch), window: if has(mode, S) { 3000 } else { 400 }, history: u64::MAX, tame: true, tame_hist: true };
    let mut fed = false;
    let mut kinds = 0u32;
    let mut budget = 60_000usize;
    let n = t.us(1, 24);
    for _ in 0..n {
        let op = t.weighted(&[10, 3, 2, 2, 3, 2, 2, 1, 6]);
        kinds |= 1 << op;
        match op {
            0 | 1 => {
                let seed = op == 1;
                budget = add(t, cx, &mut e, &mut k, seed, budget, &mut fed)?;
            }
            2 => {
                let c = match t.weighted(&[3, 1]) {
                    0 => t.int(0, k.ch as u64) as u32,
                    _ => t.pick(&[k.ch, u32::MAX, 64, 1 << 31]),
                };
                let role = t.int(0, 31) as u8;
                cx.note(|| format!("set_channel({c}, {role})"));
                let ok = c < k.ch && !(role == 6 && k.ch != 1);
                verdict("set_channel", e.set_channel(c, sut::chan(role)), ok, &[Error::InvalidChannelIndex])?;
                if ok {
                    k.map[c as usize] = role;
                }
            }
            3 => {
                let len = match t.weighted(&[4, 1, 1]) {
                    0 => k.ch as usize,
                    1 => t.us(0, 70),
                    _ => (k.ch as usize).saturating_sub(1),
                };
                let m: Vec<u8> = (0..len).map(|_| gen::role(t, k.ch)).collect();
                let mut m = m;
                if !m.is_empty() && t.chance(1, 6) {
                    let i = t.us(0, len - 1);
                    m[i] = 6;
                }
                cx.note(|| format!("set_channel_map({m:?})"));
                let ok = len == k.ch as usize && (k.ch == 1 || !m.contains(&6));
                let cm: Vec<_> = m.iter().map(|&r| sut::chan(r)).collect();
                verdict("set_channel_map", e.set_channel_map(&cm), ok, &[Error::InvalidChannelIndex])?;
                if ok {
                    k.map = m;
                }
            }
            4 => {
                let mut c = if t.chance(1, 2) { k.ch } else { hostile_channels(t) };
                let mut r = if t.chance(1, 3) { k.rate } else { hostile_rate(t) };
                if valid_cfg(c, r) && c as u64 * r as u64 * 8 * k.window.min(100_000) / 1000 > MEM {
                    c = 1;
                    r = t.int(16, 8000) as u32;
                }
                cx.note(|| format!("change_parameters({c}, {r})"));
                verdict("change_parameters", e.change_parameters(c, r), valid_cfg(c, r), &[Error::NoMem])?;
                if valid_cfg(c, r) && (c, r) != (k.ch, k.rate) {
                    if c != k.ch {
                        k.map = default_map(c);
                    }
                    k.ch = c;
                    k.rate = r;
                    k.tame = true;
                }
            }
            5 => {
                let huge = k.ch as u64 * k.rate as u64 > 12_000_000 / 4 && t.chance(1, 2);
                let w = if huge {
                    u32::MAX
                } else {
                    let lim = (MEM * 1000 / 8 / (k.ch as u64 * k.rate as u64)).min(20_000);
                    match t.weighted(&[2, 2]) {
                        0 => (t.pick(&[0u64, 1, 399, 400, 401, 2999, 3000, 3001, 5000])).min(lim) as u32,
                        _ => t.int(0, lim) as u32,
                    }
                };
                // Only clearly satisfiable or clearly impossible sizes.
                let bytes = k.ch as u128 * k.rate as u128 * w as u128 * 8 / 1000;
                if bytes > MEM as u128 && bytes < 200_000_000_000_000 {
                    continue;
                }
                let ok = bytes <= MEM as u128;
                cx.note(|| format!("set_max_window({w})"));
                cx.label_if(!ok, "window beyond any memory");
                verdict("set_max_window", e.set_max_window(w), ok, &[Error::NoMem])?;
                if ok {
                    k.window = (w as u64).max(if has(k.mode, S) { 3000 } else { 400 });
                }
            }
            6 => {
                let h = t.pick(&[0u32, 1, 399, 400, 2999, 3000, 3001, 10_000, 100_000, 1 << 31, u32::MAX]);
                let h = if t.chance(1, 2) { t.int(0, 20_000) as u32 } else { h };
                cx.note(|| format!("set_max_history({h})"));
                verdict("set_max_history", e.set_max_history(h), true, &[])?;
                k.history = (h as u64).max(if has(k.mode, LRA) { 3000 } else { 400 });
            }
            7 => {
                cx.note(|| "reset".into());
                e.reset();
                k.tame = true;
                k.tame_hist = true;
            }
            _ => queries(t, cx, &e, &k)?,
        }
        ensure!(e.channels() == k.ch && e.rate() == k.rate && e.channel_map().len() == k.ch as usize && e.mode().bits() == k.mode, "accessors disagree with the accepted calls");
        ensure!(e.max_window() as u64 == k.window, "max_window {} expected {}", e.max_window(), k.window);
        if k.history != u64::MAX {
            ensure!(e.max_history() as u64 == k.history, "max_history {} expected {}", e.max_history(), k.history);
        }
    }
    queries(t, cx, &e, &k)?;
    if t.chance(1, 20) {
        let s = format!("{e:?}");
        ensure!(s.contains("EbuR128"), "debug output");
    }
    cx.nontrivial = fed && kinds.count_ones() >= 2;
    cx.label_if(fed, "audio added");
    cx.label_if(k.rate < 160, "rate below 160 Hz");
    cx.label_if(!k.tame, "non-finite or huge samples");
    Ok(())
}

fn verdict(name: &str, r: Result<(), Error>, ok: bool, errs: &[Error]) -> R {
    match r {
        Ok(()) if ok => Ok(()),
        Err(e) if !ok && errs.contains(&e) => Ok(()),
        r => fail!("{name}: {r:?}, expected {}", if ok { "success".into() } else { format!("{errs:?}") }),
    }
}

fn add(t: &mut Tape, cx: &mut Ctx, e: &mut EbuR128, k: &mut T, seed: bool, budget: usize, fed: &mut bool) -> Result<usize, String> {
    let ty = t.us(0, 3);
    let planar = t.chance(1, 2);
    let ch = k.ch as usize;
    let s = k.s() as usize;
    let max = (budget / ch).min(40 * s);
    let frames = match t.weighted(&[3, 3, 2]) {
        0 => t.us(0, max.min(50)),
        1 => gen::length(t, s, max),
        _ => t.us(0, max),
    };
    // content
    let sd = t.seed();
    let style = t.weighted(&[3, 3, 2]);
    let a = if style == 0 { 1.0 } else { special(t) };
    let b = special(t);
    let mut rng = Rng::new(sd);
    let mut v: Vec<f64> = (0..frames * ch)
        .map(|_| match style {
            0 => rng.sym(),
            1 => {
                if rng.below(16) == 0 {
                    a
                } else {
                    rng.sym() * 0.3
                }
            }
            _ => {
                if rng.below(2) == 0 {
                    a
                } else {
                    b
                }
            }
        })
        .collect();
    if planar {
        let cut = |i: usize| v[i * frames..(i + 1) * frames].to_vec();
        let mut p: Vec<Vec<f64>> = (0..ch).map(cut).collect();
        let mut ok = true;
        match t.weighted(&[8, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                p.pop();
                ok = false;
            }
            2 => {
                p.push(vec![0.5; frames]);
                ok = false;
            }
            3 => {
                let i = t.us(0, ch - 1);
                if ch > 1 {
                    if t.chance(1, 2) && frames > 0 {
                        p[i].pop();
                    } else {
                        p[i].push(0.25);
                    }
                    ok = false;
                }
            }
            _ => {
                p.clear();
                ok = false;
            }
        }
        cx.note(|| format!("{} planar {} planes {frames} frames style {style} type {ty} special {a} {b}", if seed { "seed" } else { "add" }, p.len()));
        macro_rules! go {
            ($conv:expr, $add:ident, $seed:ident) => {{
                let q: Vec<Vec<_>> = p.iter().map(|c| c.iter().map($conv).collect()).collect();
                let r: Vec<&[_]> = q.iter().map(|c| &c[..]).collect();
                if seed {
                    e.$seed(&r)
                } else {
                    e.$add(&r)
                }
            }};
        }
        let r = match ty {
            0 => go!(|&x: &f64| x, add_frames_planar_f64, seed_frames_planar_f64),
            1 => go!(|&x: &f64| x as f32, add_frames_planar_f32, seed_frames_planar_f32),
            2 => go!(|&x: &f64| (x * 32768.0) as i16, add_frames_planar_i16, seed_frames_planar_i16),
            _ => go!(|&x: &f64| (x * 2147483648.0) as i32, add_frames_planar_i32, seed_frames_planar_i32),
        };
        verdict(if seed { "seed planar" } else { "add planar" }, r, ok, &[Error::NoMem])?;
        cx.label_if(!ok, "mis-shaped planar buffer");
        if !ok {
            return Ok(budget);
        }
    } else {
        if ch > 1 && t.chance(1, 8) {
            let extra = t.us(1, ch - 1);
            v.extend(std::iter::repeat(0.5).take(extra));
        }
        let ok = v.len() % ch == 0;
        cx.note(|| format!("{} interleaved {} samples style {style} type {ty} special {a} {b}", if seed { "seed" } else { "add" }, v.len()));
        macro_rules! go {
            ($conv:expr, $add:ident, $seed:ident) => {{
                let q: Vec<_> = v.iter().map($conv).collect();
                if seed {
                    e.$seed(&q)
                } else {
                    e.$add(&q)
                }
            }};
        }
        let r = match ty {
            0 => go!(|&x: &f64| x, add_frames_f64, seed_frames_f64),
            1 => go!(|&x: &f64| x as f32, add_frames_f32, seed_frames_f32),
            2 => go!(|&x: &f64| (x * 32768.0) as i16, add_frames_i16, seed_frames_i16),
            _ => go!(|&x: &f64| (x * 2147483648.0) as i32, add_frames_i32, seed_frames_i32),
        };
        verdict(if seed { "seed" } else { "add" }, r, ok, &[Error::NoMem])?;
        cx.label_if(!ok, "mis-shaped interleaved buffer");
        if !ok {
            return Ok(budget);
        }
    }
    let wild = ty < 2
        && v.iter().any(|x| {
            let x = if ty == 1 { *x as f32 as f64 } else { *x };
            !(x.abs() < 1e100)
        });
    if wild {
        k.tame = false;
        k.tame_hist = false;
    }
    if k.rate < 4000 {
        k.tame = false;
        k.tame_hist = false;
    }
    if frames > 0 && !seed {
        *fed = true;
    }
    Ok(budget - frames * ch)
}

fn queries(t: &mut Tape, cx: &mut Ctx, e: &EbuR128, k: &T) -> R {
    let loud = |name: &str, v: f64, tame: bool| -> R {
        if tame && v.is_nan() {
            fail!("{name} is NaN for finite audio");
        }
        Ok(())
    };
    match e.loudness_momentary() {
        Ok(v) => loud("momentary", v, k.tame)?,
        Err(x) => fail!("momentary: {x:?}"),
    }
    match e.loudness_shortterm() {
        Ok(v) => {
            ensure!(has(k.mode, S) || 30 * k.s() <= k.ring().max(k.s() * (k.window / 100)) + k.s(), "short-term available although only {} ms are buffered", k.window);
            loud("short-term", v, k.tame)?
        }
        Err(x) => {
            ensure!(!has(k.mode, S) && k.window < 3000, "short-term failed with {x:?}");
            ensure!(x == Error::InvalidMode, "short-term failed with {x:?}");
        }
    }
    for _ in 0..3 {
        let w = match t.weighted(&[2, 2, 1]) {
            0 => t.int(0, k.window) as u32,
            1 => t.int(0, k.window * 3) as u32,
            _ => t.pick(&[0u32, 1, 400, 3000, u32::MAX, u32::MAX - 1, 1 << 31]),
        };
        let frames = k.rate as u64 * w as u64 / 1000;
        let r = e.loudness_window(w);
        match r {
            Ok(v) => {
                ensure!(frames <= k.ring().max(k.s() * (k.window / 100)) + k.s(), "window {w} ms answered with {v} although the maximum is {} ms", k.window);
                loud("window", v, k.tame && frames > 0)?;
            }
            Err(x) => {
                ensure!(w as u64 > k.window, "window {w} ms failed with {x:?} although the maximum is {} ms", k.window);
                ensure!(x == Error::InvalidMode, "window failed with {x:?}");
            }
        }
    }
    match e.loudness_global() {
        Ok(v) => {
            ensure!(has(k.mode, I), "global loudness available without its mode");
            loud("global", v, k.tame_hist)?
        }
        Err(x) => ensure!(!has(k.mode, I) && x == Error::InvalidMode, "global failed with {x:?}"),
    }
    match e.relative_threshold() {
        Ok(v) => {
            ensure!(has(k.mode, I), "relative threshold available without its mode");
            loud("relative threshold", v, k.tame_hist)?
        }
        Err(x) => ensure!(!has(k.mode, I) && x == Error::InvalidMode, "relative threshold failed with {x:?}"),
    }
    match e.loudness_range() {
        Ok(v) => {
            ensure!(has(k.mode, LRA), "range available without its mode");
            ensure!(!(v < 0.0), "loudness range {v} is negative");
            loud("range", v, k.tame_hist)?
        }
        Err(x) => ensure!(!has(k.mode, LRA) && x == Error::InvalidMode, "range failed with {x:?}"),
    }
    if let Some((n, en)) = e.gating_block_count_and_energy() {
        ensure!(has(k.mode, I), "gating blocks without their mode");
        ensure!(n > 0 || !k.tame_hist, "zero gating blocks reported as present");
        ensure!(!k.tame_hist || !(en.is_nan() || en < 0.0), "gating block energy {en}");
    }
    let g = EbuR128::loudness_global_multiple([e, e].into_iter());
    ensure!(g.is_ok() == has(k.mode, I), "combined global: {g:?}");
    let g = EbuR128::loudness_range_multiple([e]);
    ensure!(g.is_ok() == has(k.mode, LRA), "combined range: {g:?}");
    if let Ok(v) = g {
        ensure!(!(v < 0.0), "combined range {v} is negative");
    }
    let c = match t.weighted(&[4, 1]) {
        0 => t.int(0, k.ch as u64 + 1) as u32,
        _ => t.pick(&[u32::MAX, 1 << 31, 64, 65]),
    };
    for (name, r, bit) in [
        ("sample_peak", e.sample_peak(c), SP),
        ("prev_sample_peak", e.prev_sample_peak(c), SP),
        ("true_peak", e.true_peak(c), TP),
        ("prev_true_peak", e.prev_true_peak(c), TP),
    ] {
        match r {
            Ok(v) => {
                ensure!(has(k.mode, bit) && c < k.ch, "{name}({c}) succeeded");
                ensure!(v >= 0.0, "{name}({c}) is {v}");
            }
            Err(x) => {
                ensure!(!has(k.mode, bit) || c >= k.ch, "{name}({c}) failed with {x:?}");
                let want = if !has(k.mode, bit) { Error::InvalidMode } else { Error::InvalidChannelIndex };
                ensure!(x == want, "{name}({c}) failed with {x:?}, expected {want:?}");
            }
        }
    }
    cx.label("query round");
    Ok(())
}
