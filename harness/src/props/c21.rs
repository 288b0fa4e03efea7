//! C21: gain, polarity, silence and the energy scale.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::{self, diff, snap, Snap, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};

pub const PROP: Prop = Prop {
    id: "C21",
    quick: 6_000,
    thorough: 300_000,
    rule: "a generated programme and its image under gain, polarity inversion, added silence; energies for the public conversion; non-trivial: the programme is not silent and a relation was judged",
    technique: "metamorphic property-based testing",
    assumptions: &["gain relations of gated results are judged when no block is within 1e-4 (relative) of the absolute gate before or after, nor within 1e-6 of the relative gate"],
    run,
};

fn energies(t: &mut Tape) -> R {
    let e = match t.weighted(&[2, 2, 1]) {
        0 => 10f64.powf(t.f(-12.0, 12.0)),
        1 => 10f64.powf(t.f(-300.0, 300.0)),
        _ => t.pick(&[1.0, 0.0, f64::MIN_POSITIVE, 1.1724394031043530e-7, 10.0, 5e-324, f64::MAX, f64::INFINITY]),
    };
    let l = ebur128::energy_to_loudness(e);
    let want = if e == 0.0 { f64::NEG_INFINITY } else { 10.0 * e.log10() - 0.691 };
    ensure!(l == want || (l - want).abs() <= 1e-9, "energy_to_loudness({e}) = {l}, expected {want}");
    if e > 0.0 && e.is_finite() {
        let up = e * (1.0 + 10f64.powf(-t.f(0.0, 10.0)));
        let m = ebur128::energy_to_loudness(up);
        ensure!(m > l || up == e || up.is_infinite() && m >= l, "energy_to_loudness({up}) = {m} is not above energy_to_loudness({e}) = {l}");
    }
    Ok(())
}

struct Run {
    s: Snap,
    m: Model,
}
fn measure(wear: &crate::ops::Wear, ch: u32, rate: u32, mode: u8, map: &[u8], f: Fmt, p: &Planes, hist: Option<u32>, planar: bool) -> Result<Run, String> {
    let mut e = wear.make(ch, rate, mode)?;
    e.set_channel_map(&map.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    m.set_map(map);
    if let Some(h) = hist {
        e.set_max_history(h).map_err(|e| format!("{e:?}"))?;
        m.set_history(h);
    }
    sut::feed(&mut e, f, planar, &refs(p)).map_err(|e| format!("{e:?}"))?;
    m.add(&refs(p));
    Ok(Run { s: snap(&e), m })
}
fn near_gate(m: &Model) -> bool {
    let near = |e: f64| (e / b0() - 1.0).abs() < 1e-4 + 10.0 * m.floor() / b0();
    m.all_blocks.iter().chain(&m.all_shorts).any(|&e| near(e))
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    energies(t)?;
    let ch = t.int(1, 6) as u32;
    let rate = if t.chance(1, 8) { any_rate(t) } else { low_rate(t) };
    let mode = t.pick(&[127u8 & !HIST, LRA | I, 127, I | TP, S | SP, LRA | I | HIST]);
    let mp: Vec<u8> = map(t, ch);
    let hop = (rate as usize + 5) / 10;
    let f = Fmt::F64;
    let max = max_frames(ch, rate, 120_000, if t.chance(1, 4) { 90 } else { 45 });
    let a = audio(t, ch, rate, f, max, 3, false);
    let planar = t.chance(1, 2);
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} {}", a.desc));
    let base = measure(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp, f, &a.planes, None, planar)?;
    // energy scale
    if let (Some((n, e)), Ok(g)) = (base.s.blk, &base.s.g) {
        ensure!(n > 0, "no blocks but an energy");
        let l = ebur128::energy_to_loudness(e / n as f64);
        ensure!((l - g).abs() <= 1e-9, "integrated {g}, but {n} blocks of total energy {e} give {l}");
    } else if has(mode, I) {
        ensure!(base.s.blk.is_none() && base.s.g == Ok(f64::NEG_INFINITY), "blocks {:?} but integrated {:?}", base.s.blk, base.s.g);
    }
    let silent = a.planes.iter().all(|p| p.iter().all(|&v| v == 0.0));
    match t.us(0, 3) {
        0 => {
            // polarity, per channel
            let which: Vec<bool> = (0..ch).map(|_| !t.chance(1, 3)).collect();
            let p: Planes = a.planes.iter().zip(&which).map(|(p, &w)| p.iter().map(|v| if w { -v } else { *v }).collect()).collect();
            let i = measure(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp, f, &p, None, planar)?;
            if let Some(d) = diff(&base.s, &i.s, sut::Tol { lu: 0.0, tp: 0.0, quiet: f64::NEG_INFINITY }) {
                fail!("inverted channels {which:?}: {d}");
            }
            cx.label("polarity");
        }
        1 | 2 => {
            let pow2 = t.chance(1, 2);
            let g = if pow2 { t.pick(&[0.5, 2.0, 0.25, 4.0, 1.0 / 1024.0, 16.0, 1048576.0]) } else { 10f64.powf(t.f(-30.0, 30.0) / 20.0) };
            let p: Planes = a.planes.iter().map(|p| p.iter().map(|v| v * g).collect()).collect();
            let s = measure(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp, f, &p, None, planar)?;
            gain(&base, &s, g, pow2, mode, cx)?;
        }
        _ => silence(t, cx, ch, rate, mode, &mp, f, &a.planes, &base, hop)?,
    }
    cx.nontrivial = !silent;
    Ok(())
}

fn gain(b: &Run, s: &Run, g: f64, pow2: bool, mode: u8, cx: &mut Ctx) -> R {
    let db = 20.0 * g.log10();
    let shift = |n: &str, x: &sut::Q, y: &sut::Q| -> R {
        match (x, y) {
            (Ok(x), Ok(y)) if x == y && x.is_infinite() => Ok(()),
            // below this, rounding inside the filter dominates
            (Ok(x), Ok(y)) if *x < -200.0 && *y < -150.0 => Ok(()),
            (Ok(x), Ok(y)) if (y - x - db).abs() <= 1e-7 => Ok(()),
            // (or to the rounding noise of the filter)
            (Ok(x), Ok(y)) => {
                let e = |l: f64| if l == f64::NEG_INFINITY { 0.0 } else { energy_of(l) };
                let floor = b.m.floor() * g * g + s.m.floor();
                let (u, v) = (e(*x) * g * g, e(*y));
                if pow2 || !((u - v).abs() <= 1e-8 * u + floor + 2.0 * (u * floor).sqrt()) {
                    fail!("{n} {x:?} became {y:?} after a gain of {db:.4} dB");
                }
                Ok(())
            }
            (Err(x), Err(y)) if x == y => Ok(()),
            _ => fail!("{n} {x:?} became {y:?} after a gain of {db:.4} dB"),
        }
    };
    shift("momentary", &b.s.m, &s.s.m)?;
    shift("short-term", &b.s.s, &s.s.s)?;
    for (x, y) in b.s.w.iter().zip(&s.s.w) {
        shift(&format!("window {}", x.0), &x.1, &y.1)?;
    }
    let scaled = |n: &str, x: &[sut::Q], y: &[sut::Q], tol: f64| -> R {
        for (c, (x, y)) in x.iter().zip(y).enumerate() {
            match (x, y) {
                (Ok(x), Ok(y)) if (y - x * g).abs() <= tol * (x * g).abs() => {}
                (Err(x), Err(y)) if x == y => {}
                _ => fail!("{n} of channel {c} {x:?} became {y:?} after a gain of {g}"),
            }
        }
        Ok(())
    };
    let e = if pow2 { 0.0 } else { 1e-15 };
    scaled("sample peak", &b.s.sp, &s.s.sp, e)?;
    scaled("previous sample peak", &b.s.psp, &s.s.psp, e)?;
    // single precision inside: tiny values lose bits, and converting before/after the gain rounds differently
    let tiny = b.s.tp.iter().chain(&s.s.tp).any(|v| matches!(v, Ok(v) if *v < 1e-25 && *v > 0.0));
    if !tiny {
        scaled("true peak", &b.s.tp, &s.s.tp, if pow2 { 1e-12 } else { 1e-5 })?;
        scaled("previous true peak", &b.s.ptp, &s.s.ptp, if pow2 { 1e-12 } else { 1e-5 })?;
    }
    cx.label("gain");
    if near_gate(&b.m) || near_gate(&s.m) || b.m.all_blocks.len() != s.m.all_blocks.len() {
        return Ok(());
    }
    let crossed = b.m.all_blocks.iter().zip(&s.m.all_blocks).chain(b.m.all_shorts.iter().zip(&s.m.all_shorts)).any(|(x, y)| (*x > b0()) != (*y > b0()));
    if crossed || b.m.global().ambiguous || s.m.global().ambiguous || b.m.lra().ambiguous || s.m.lra().ambiguous {
        cx.label("gain: gated results not judged");
        return Ok(());
    }
    if has(mode, HIST) {
        // quantised to 0.1 LU; the relative gate may pick up a block of the next bin
        return Ok(());
    }
    // relative to anything above the gate
    let noise = ((b.m.floor() * g * g + s.m.floor()) / b0()).sqrt();
    if has(mode, I) {
        shift("integrated", &b.s.g, &s.s.g)?;
        if b.s.blk.is_some() {
            shift("relative threshold", &b.s.rt, &s.s.rt)?;
        }
        match (b.s.blk, s.s.blk) {
            (None, None) => {}
            (Some(x), Some(y)) if x.0 == y.0 && sut::rel_eq(x.1 * g * g, y.1, 1e-8 + 4.0 * noise) => {}
            (x, y) => fail!("gating blocks {x:?} became {y:?} after a gain of {g}"),
        }
        cx.label("gain: integrated");
    }
    if has(mode, LRA) {
        match (&b.s.lra, &s.s.lra) {
            (Ok(x), Ok(y)) if (x - y).abs() <= 1e-7 + 40.0 * noise => {}
            (x, y) => fail!("loudness range {x:?} became {y:?} after a gain of {db} dB"),
        }
        cx.label_if(matches!(b.s.lra, Ok(x) if x > 0.0), "gain: non-zero range");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn silence(t: &mut Tape, cx: &mut Ctx, ch: u32, rate: u32, mode: u8, mp: &[u8], f: Fmt, p: &Planes, base: &Run, hop: usize) -> R {
    let lead = t.chance(1, 2);
    let with = |n: usize| -> Planes {
        p.iter()
            .map(|x| {
                let mut v = vec![];
                if lead {
                    v.resize(n, 0.0);
                }
                v.extend_from_slice(x);
                if !lead {
                    v.resize(v.len() + n, 0.0);
                }
                v
            })
            .collect()
    };
    // Enough silence that no block overlaps both it and the signal's far side: from there on, more
    // silence (a whole number of range steps) changes nothing.
    let k = t.us(40, 48);
    let more = 10 * t.us(1, 6);
    // trailing: the filter's tail decays well below the absolute gate within these hops
    let extra = if lead { 0 } else { t.us(0, hop) };
    let x = measure(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, mp, f, &with(k * hop + extra), None, true)?;
    let y = measure(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, mp, f, &with((k + more) * hop + extra), None, true)?;
    if near_gate(&x.m) || near_gate(&y.m) {
        return Ok(());
    }
    let n = if lead { "leading" } else { "trailing" };
    let mut a = x.s.clone();
    if !lead {
        // the instantaneous readings move on with the silence
        a.m = y.s.m.clone();
        a.s = y.s.s.clone();
        a.w = y.s.w.clone();
        a.psp = y.s.psp.clone();
        a.ptp = y.s.ptp.clone();
    }
    if let Some(d) = diff(&a, &y.s, SAME) {
        fail!("{more} more hops of {n} silence: {d}");
    }
    if has(mode, SP) {
        ensure!(x.s.sp == base.s.sp, "{n} silence changed the sample peaks");
    }
    if lead {
        // the windows that end with the signal read the same as without the silence
        if let Some(d) = diff(&Snap { g: base.s.g.clone(), rt: base.s.rt.clone(), lra: base.s.lra.clone(), blk: base.s.blk, ..x.s.clone() }, &base.s, SAME) {
            fail!("leading silence: {d}");
        }
    }
    cx.label(if lead { "leading silence" } else { "trailing silence" });
    Ok(())
}
