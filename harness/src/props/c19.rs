//! C19: histories against the libebur128 C library.
use crate::engine::*;
use crate::ffi::*;
use crate::gen::{self, Fmt};
use crate::model::*;
use crate::ops::*;
use crate::sut::{self, lu_eq, Tol};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{EbuR128, Error};

pub const PROP: Prop = Prop {
    id: "C19",
    quick: 12_000,
    thorough: 600_000,
    rule: "a history of operations on up to three instances, replayed on the C library (vendored 1.2.6 sources), all results compared after each step; non-trivial: at least 400 ms of non-silent audio were added",
    technique: "stateful differential property-based testing against the libebur128 C implementation",
    assumptions: &["sample rates from 4 kHz (the C library overruns its buffer at very low rates)", "levels below -200 LUFS count as silence, true peaks agree to 1e-5 of the largest sample", "previous peaks are not compared between an empty add or a parameter change and the next audio (documented difference)"],
    run,
};
const TOL: Tol = Tol { lu: 1e-7, tp: 1e-5, quiet: -200.0 };

fn close(a: f64, b: f64, floor: f64, rel: f64) -> bool {
    if lu_eq(a, b, Tol { lu: 1e-7 + 5.0 * rel, ..TOL }) {
        return true;
    }
    let e = |l: f64| if l == f64::NEG_INFINITY { 0.0 } else { energy_of(l) };
    let (x, y) = (e(a), e(b));
    (x - y).abs() <= (1e-8 + rel) * x + floor + 2.0 * (x * floor).sqrt()
}
/// Percentiles lie above the absolute gate.
fn range_tol(floor: f64, rel: f64) -> f64 {
    1e-7 + 10.0 * rel + 20.0 * (floor / b0()).sqrt() + 10.0 * floor / b0()
}

struct Pair {
    c: *mut RefState,
    r: EbuR128,
    mode: u8,
    tr: Track,
    prev: bool,
    /// Largest sample so far, per channel.
    max: Vec<f64>,
    fed: f64,
    /// Rounding noise of the filters so far, as an energy.
    floor: f64,
    /// Relative error that the last bits of the filters' coefficients can make.
    rel: f64,
}
impl Drop for Pair {
    fn drop(&mut self) {
        unsafe { ref_ebur128_destroy(&mut self.c) }
    }
}

/// Programmes up to hours, or windows up to minutes.
fn long(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = 1 + t.chance(1, 4) as u32;
    let rate = t.pick(&[4000u32, 4005, 4096, 5513]);
    let mode = t.pick(&[I | LRA, I, I | LRA | HIST, M | SP, 0x7f]) & if t.chance(1, 2) { 0x7f } else { !0x20 };
    let c = unsafe { ref_ebur128_init(ch, rate as u64, mode as i32) };
    ensure!(!c.is_null(), "harness: reference refused {ch} {rate} {mode}");
    let r = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut p = Pair { c, r, mode, tr: Track::new(ch, rate, mode, 60_000), prev: true, max: vec![0.0; ch as usize], fed: 0.0, floor: 0.0, rel: Model::rel_of(rate) };
    if t.chance(1, 2) {
        let any = t.int(3000, 200_000) as u32;
        let w = t.pick(&[any, 16_384, 65_536, 60_000]);
        cx.note(|| format!("set_max_window({w})"));
        let want = unsafe { ref_ebur128_set_max_window(c, w as u64) };
        let got = p.r.set_max_window(w);
        ensure!(got.is_ok() && want == 0, "set_max_window({w}): {got:?}, the C library returned {want}");
    }
    let hours = t.chance(1, 3);
    let secs = if hours { t.us(600, 4800) } else { t.us(20, 600) } / ch as usize;
    let (base, spread, hold, seed) = (-t.f(8.0, 40.0), t.f(0.0, 40.0), t.us(1, 300) as f64 / 10.0, t.seed());
    let call = t.pick(&[1usize, 10, 60, 3600]);
    let checks = t.us(1, 4);
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x}), {secs} s of noise at {base:.1}-0..{spread:.1} dB, held for {hold} s on average (seed {seed}), calls of {call} s"));
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) as f64 / (1u64 << 53) as f64
    };
    let (mut done, mut left, mut a, mut next) = (0usize, 0usize, 1.0f64, (secs / checks).max(1));
    while done < secs {
        let n = call.min(secs - done);
        let mut x = Vec::with_capacity(n * rate as usize * ch as usize);
        for _ in 0..n * rate as usize {
            if left == 0 {
                left = (rnd() * 2.0 * hold * rate as f64) as usize + 1;
                a = 10f64.powf((base - rnd() * spread) / 20.0);
            }
            left -= 1;
            for _ in 0..ch {
                x.push(a * (2.0 * rnd() - 1.0));
            }
        }
        for (i, v) in x.iter().enumerate() {
            let m = &mut p.max[i % ch as usize];
            *m = m.max(v.abs());
        }
        let top = p.max.iter().fold(0.0f64, |a, &v| a.max(v));
        p.floor = p.floor.max(Model::floor_of(rate, top) * ch as f64);
        let want = unsafe { ref_ebur128_add_frames_double(c, x.as_ptr(), n * rate as usize) };
        let got = p.r.add_frames_f64(&x);
        ensure!(want == 0 && got.is_ok(), "add: {got:?}, the C library returned {want}");
        done += n;
        if done >= next {
            next += (secs / checks).max(1);
            compare(&p).map_err(|m| format!("after {done} s: {m}"))?;
            if t.chance(1, 4) {
                let h = t.int(400, secs as u64 * 1000) as u32;
                cx.note(|| format!("after {done} s: set_max_history({h})"));
                let want = unsafe { ref_ebur128_set_max_history(c, h as u64) };
                let got = p.r.set_max_history(h);
                ensure!(got.is_ok() && (want == 0 || want == 4), "set_max_history({h}): {got:?}, the C library returned {want}");
            }
        }
    }
    compare(&p)?;
    cx.label(if hours { "long programme" } else { "programme of minutes" });
    cx.nontrivial = true;
    Ok(())
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 300) {
        return long(t, cx);
    }
    let k = t.weighted(&[6, 2, 1]) + 1;
    let mut ps = vec![];
    for _ in 0..k {
        let ch = gen::channels(t);
        let rate = if t.chance(1, 5) { gen::any_rate(t) } else { gen::low_rate(t) };
        let mode = gen::mode(t);
        cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
        let c = unsafe { ref_ebur128_init(ch, rate as u64, mode as i32) };
        ensure!(!c.is_null(), "harness: reference refused {ch} {rate} {mode}");
        let r = crate::ops::made(t, cx, ch, rate, mode)?;
        ps.push(Pair { c, r, mode, tr: Track::new(ch, rate, mode, 60_000), prev: true, max: vec![0.0; ch as usize], fed: 0.0, floor: 0.0, rel: 0.0 });
    }
    let mix = Mix { seed: 0, map: 0, reset: 0, query: 0, stale: true, wild: t.chance(1, 3), rate: gen::low_rate, chan: 2, ..MIX };
    let n = t.us(1, 12);
    for j in 0..n {
        let i = if k > 1 { t.us(0, k - 1) } else { 0 };
        let p = &mut ps[i];
        let op = p.tr.op(t, &mix);
        cx.note(|| format!("[{i}] {}", op.show()));
        let c = p.c;
        let (want, what) = match &op {
            Op::Add { fmt, planes, .. } => {
                let n = planes[0].len();
                let il = sut::interleave(&gen::refs(planes));
                for (m, pl) in p.max.iter_mut().zip(planes) {
                    *m = pl.iter().fold(*m, |a, v| a.max(v.abs()));
                }
                if n > 0 && p.max.iter().any(|&m| m > 1e-4) {
                    p.fed += n as f64 / p.r.rate() as f64;
                }
                p.prev = n > 0;
                let top = p.max.iter().fold(0.0f64, |a, &v| a.max(v));
                p.floor = p.floor.max(Model::floor_of(p.r.rate(), top) * p.max.len() as f64);
                p.rel = p.rel.max(Model::rel_of(p.r.rate()));
                unsafe {
                    (
                        match fmt {
                            Fmt::I16 => ref_ebur128_add_frames_short(c, sut::to_i16(&il).as_ptr(), n),
                            Fmt::I32 => ref_ebur128_add_frames_int(c, sut::to_i32(&il).as_ptr(), n),
                            Fmt::F32 => ref_ebur128_add_frames_float(c, sut::to_f32(&il).as_ptr(), n),
                            Fmt::F64 => ref_ebur128_add_frames_double(c, il.as_ptr(), n),
                        },
                        "add",
                    )
                }
            }
            Op::SetChannel(i, r) => (unsafe { ref_ebur128_set_channel(c, *i, *r as i32) }, "set_channel"),
            Op::Change(ch, r) => {
                let s = unsafe { ref_ebur128_change_parameters(c, *ch, *r as u64) };
                if s == 0 {
                    p.prev = false;
                    if *ch as usize != p.max.len() {
                        p.max = vec![0.0; *ch as usize];
                    }
                }
                (s, "change_parameters")
            }
            Op::Window(w) => (unsafe { ref_ebur128_set_max_window(c, *w as u64) }, "set_max_window"),
            Op::History(h) => {
                // 2^32-1 ms is not unlimited in C: the same for any history fed here
                (unsafe { ref_ebur128_set_max_history(c, *h as u64) }, "set_max_history")
            }
            _ => continue,
        };
        let got = apply(&mut p.r, &op);
        let w = match want {
            0 | 4 => Ok(()),
            1 => Err(Error::NoMem),
            2 => Err(Error::InvalidMode),
            _ => Err(Error::InvalidChannelIndex),
        };
        ensure!(got == w, "step {}: {what}: {got:?}, the C library returned {want}", j + 1);
        compare(p).map_err(|m| format!("after step {} ({}): {m}", j + 1, op.show()))?;
    }
    // combinations
    for _ in 0..2 {
        let n = t.us(0, k + 1);
        let pick: Vec<usize> = (0..n).map(|_| t.us(0, k - 1)).collect();
        let mut h: Vec<*mut RefState> = pick.iter().map(|&i| ps[i].c).collect();
        let mut o = f64::NAN;
        let s = unsafe { ref_ebur128_loudness_global_multiple(h.as_mut_ptr(), n, &mut o) };
        let fl = pick.iter().map(|&i| ps[i].floor).fold(0.0, f64::max);
        let rel = pick.iter().map(|&i| ps[i].rel).fold(0.0, f64::max);
        one(&format!("global of {pick:?}"), EbuR128::loudness_global_multiple(pick.iter().map(|&i| &ps[i].r)), s, o, |a, b| close(a, b, fl, rel))?;
        let mixed = pick.iter().any(|&i| has(ps[i].mode, HIST)) && pick.iter().any(|&i| !has(ps[i].mode, HIST));
        let r = EbuR128::loudness_range_multiple(pick.iter().map(|&i| &ps[i].r));
        if mixed {
            ensure!(r == Err(Error::InvalidMode), "range of instances with and without histogram: {r:?}");
        } else {
            let s = unsafe { ref_ebur128_loudness_range_multiple(h.as_mut_ptr(), n, &mut o) };
            one(&format!("range of {pick:?}"), r, s, o, |a, b| (a - b).abs() <= range_tol(fl, rel))?;
        }
    }
    let fed: f64 = ps.iter().map(|p| p.fed).fold(0.0, f64::max);
    cx.nontrivial = fed >= 0.4;
    cx.label_if(k > 1, "several instances combined");
    cx.label_if(ps.iter().any(|p| p.r.loudness_global().map_or(false, |v| v.is_finite())), "finite integrated loudness");
    cx.label_if(ps.iter().any(|p| p.r.loudness_range().map_or(false, |v| v > 0.0)), "non-zero loudness range");
    Ok(())
}

fn one(name: &str, r: Result<f64, Error>, s: i32, o: f64, f: impl Fn(f64, f64) -> bool) -> R {
    match (r, s) {
        (Ok(a), 0) if f(a, o) => Ok(()),
        (Err(Error::InvalidMode), 2) | (Err(Error::InvalidChannelIndex), 3) => Ok(()),
        (r, s) => fail!("{name}: {r:?}, the C library gives status {s} value {o}"),
    }
}

fn compare(p: &Pair) -> R {
    let c = p.c;
    let fl = p.floor;
    let rel = p.rel;
    let lu = |a: f64, b: f64| close(a, b, fl, rel);
    macro_rules! q {
        ($n:expr, $r:expr, $f:expr, $cmp:expr) => {{
            let mut o = f64::NAN;
            let s = unsafe { $f(&mut o) };
            one($n, $r, s, o, $cmp)?;
        }};
    }
    q!("momentary", p.r.loudness_momentary(), |o| ref_ebur128_loudness_momentary(c, o), lu);
    q!("short-term", p.r.loudness_shortterm(), |o| ref_ebur128_loudness_shortterm(c, o), lu);
    let most = p.r.max_window() as u64;
    for w in [50u64, 400, 1000, 1777, 3000, most, most / 2 + 1] {
        q!(&format!("window {w}"), p.r.loudness_window(w as u32), |o| ref_ebur128_loudness_window(c, w, o), lu);
    }
    q!("global", p.r.loudness_global(), |o| ref_ebur128_loudness_global(c, o), lu);
    q!("relative threshold", p.r.relative_threshold(), |o| ref_ebur128_relative_threshold(c, o), lu);
    q!("range", p.r.loudness_range(), |o| ref_ebur128_loudness_range(c, o), |a: f64, b: f64| (a - b).abs() <= range_tol(fl, rel));
    for i in 0..p.r.channels() {
        let m = p.max[i as usize];
        let tp = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-5 * m;
        let ex = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-14 * a.abs();
        q!(&format!("sample peak {i}"), p.r.sample_peak(i), |o| ref_ebur128_sample_peak(c, i, o), ex);
        q!(&format!("true peak {i}"), p.r.true_peak(i), |o| ref_ebur128_true_peak(c, i, o), tp);
        if p.prev {
            q!(&format!("previous sample peak {i}"), p.r.prev_sample_peak(i), |o| ref_ebur128_prev_sample_peak(c, i, o), ex);
            q!(&format!("previous true peak {i}"), p.r.prev_true_peak(i), |o| ref_ebur128_prev_true_peak(c, i, o), tp);
        }
    }
    Ok(())
}
