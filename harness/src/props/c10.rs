//! C10: histogram resolution, bin by bin.
use super::c03::render_levels;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ops::Dress;
use crate::sut;
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C10",
    quick: 80_000,
    thorough: 4_000_000,
    rule: "every bin at its centre, just inside both edges and just outside, hit by one calibrated block and by one calibrated short-term value, plus random multi-level programmes in both storages; non-trivial: a gated result was judged",
    technique: "exhaustive enumeration of the 1000 bins plus differential (exact vs histogram) and model-based property testing",
    assumptions: &["levels within 1e-6 (relative) of a bin edge are not generated"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 800) {
        return super::hours::run(t, cx, &[I | HIST, LRA | I | HIST], false);
    }
    if t.chance(1, 150) {
        return super::hours::varied(t, cx, &[I | HIST, LRA | I | HIST], false);
    }
    let v = t.enumerated(4000) as usize;
    let (bin, kind) = (v / 4, v % 4);
    single(t, cx, bin, kind)?;
    if t.chance(1, 8) {
        programme(t, cx)?;
    }
    Ok(())
}

/// One block (and one short-term value) of a chosen energy.
fn single(t: &mut Tape, cx: &mut Ctx, bin: usize, kind: usize) -> R {
    let rate = low_rate(t);
    let hop = (rate as usize + 5) / 10;
    let (lo, hi) = (bin_lower(bin), bin_lower(bin + 1));
    let (target, want): (f64, Option<usize>) = match kind {
        0 => (bin_centre(bin), Some(bin)),
        1 => (lo * (1.0 + 1e-6), Some(bin)),
        2 => (hi * (1.0 - 1e-6), Some(bin)),
        _ => match bin {
            0..=499 => (if bin == 0 { lo * (1.0 - 1e-6) } else { lo + (hi - lo) * t.f(0.01, 0.99) }, if bin == 0 { None } else { Some(bin) }),
            990..=999 => (energy_of(30.0 + 0.01 + (bin - 990) as f64 * 7.0), Some(999)),
            _ => (lo + (hi - lo) * t.f(0.01, 0.99), Some(bin)),
        },
    };
    let lra = t.chance(1, 4);
    let frames = if lra { 30 * hop } else { 4 * hop };
    let w = match t.weighted(&[1, 1]) {
        0 => Wave::Sine { f: t.f(0.05, 0.3), ph: 0.1 },
        _ => Wave::Noise { seed: t.seed() },
    };
    let mut unit = vec![];
    render_wave(&w, 1.0, frames, &mut unit, Fmt::F64);
    let mut m1 = Model::new(1, rate, LRA | I);
    m1.do_tp = false;
    m1.add(&[&unit]);
    let e1 = if lra { m1.all_shorts[0] } else { m1.all_blocks[0] };
    let a = (target / e1).sqrt();
    let x: Vec<f64> = unit.iter().map(|v| v * a).collect();
    cx.note(|| format!("bin {bin} kind {kind} rate {rate} {w:?} amplitude {a} for {} LUFS ({})", lufs(target), if lra { "short-term value" } else { "block" }));
    let mut h = crate::ops::made(t, cx, 1, rate, LRA | I | HIST)?;
    let mut q = crate::ops::made(t, cx, 1, rate, LRA | I)?;
    h.add_frames_f64(&x).map_err(|e| format!("{e:?}"))?;
    q.add_frames_f64(&x).map_err(|e| format!("{e:?}"))?;
    cx.nontrivial = true;
    cx.label_if(want == Some(999) && kind == 3, "above the top bin");
    if !lra {
        let g = h.loudness_global().map_err(|e| format!("{e:?}"))?;
        let r = h.relative_threshold().map_err(|e| format!("{e:?}"))?;
        let b = h.gating_block_count_and_energy();
        let ge = q.loudness_global().map_err(|e| format!("{e:?}"))?;
        match want {
            None => ensure!(g == f64::NEG_INFINITY && r == -70.0 && b.is_none() && ge == f64::NEG_INFINITY, "a block just below the gate counts: {g} {r} {b:?} exact {ge}"),
            Some(i) => {
                let c = lufs(bin_centre(i));
                ensure!((g - c).abs() < 1e-7, "one block of {} LUFS: histogram global {g}, bin centre {c}", lufs(target));
                ensure!((r - (c - 10.0)).abs() < 1e-7, "one block of {} LUFS: histogram relative threshold {r}, expected {}", lufs(target), c - 10.0);
                ensure!(b.map(|x| x.0) == Some(1) && (b.unwrap().1 / bin_centre(i) - 1.0).abs() < 1e-8, "one block of {} LUFS: gating blocks {b:?}", lufs(target));
                ensure!((ge - lufs(target)).abs() < 1e-6, "one block of {} LUFS: exact global {ge}", lufs(target));
            }
        }
    } else if let Some(i) = want {
        // A second value 8 LU below (or above near the bottom): the range is the distance of the two bin centres.
        let up = i < 200;
        let target2 = bin_centre(if up { i + 85 } else { i - 85 });
        let a2 = (target2 / e1).sqrt();
        let y: Vec<f64> = unit.iter().map(|v| v * a2).collect();
        let mut h2 = crate::ops::made(t, cx, 1, rate, LRA | I | HIST)?;
        h2.add_frames_f64(&y).map_err(|e| format!("{e:?}"))?;
        let want = 8.5;
        let got = EbuR128::loudness_range_multiple([&h, &h2]).map_err(|e| format!("{e:?}"))?;
        ensure!((got - want).abs() < 1e-6, "short-term values {} and {} LUFS: combined histogram range {got}, expected {want}", lufs(target), lufs(target2));
        let one = h.loudness_range();
        ensure!(one == Ok(0.0), "single short-term value: range {one:?}");
        cx.label("short-term value");
    }
    Ok(())
}

fn programme(t: &mut Tape, cx: &mut Ctx) -> R {
    let (ch, rate) = (t.int(1, 2) as u32, low_rate(t));
    let hop = (rate as usize + 5) / 10;
    let n = t.us(2, 12);
    let base = t.f(-55.0, 25.0);
    let spread = t.pick(&[3.0, 12.0, 25.0, 60.0]);
    let lv: Vec<(usize, f64)> = (0..n)
        .map(|_| {
            let f = if t.chance(1, 2) { t.us(10, 60) * hop } else { t.us(4, 20) * hop };
            (f, base + t.f(-spread, spread))
        })
        .collect();
    let p = render_levels(t, &lv, ch, rate, Fmt::F64);
    cx.note(|| format!("programme ch {ch} rate {rate} {lv:?}"));
    let mut h = crate::ops::made(t, cx, ch, rate, LRA | I | HIST)?;
    let mut q = crate::ops::made(t, cx, ch, rate, LRA | I)?;
    let mut mh = Model::new(ch, rate, LRA | I | HIST);
    let mut mq = Model::new(ch, rate, LRA | I);
    mh.do_tp = false;
    mq.do_tp = false;
    let d = Dress::draw(t, ch, rate);
    cx.note(|| format!("settings {d:?}"));
    d.apply(&mut h)?;
    d.apply(&mut q)?;
    d.apply_model(&mut mh);
    d.apply_model(&mut mq);
    sut::feed(&mut h, Fmt::F64, true, &refs(&p)).map_err(|e| format!("{e:?}"))?;
    sut::feed(&mut q, Fmt::F64, true, &refs(&p)).map_err(|e| format!("{e:?}"))?;
    mh.add(&refs(&p));
    mq.add(&refs(&p));
    if sut::check_gating(&h, &mh)? == sut::Judge::Ok {
        cx.label("programme: gating judged");
    }
    if sut::check_range(&h, &mh)? == sut::Judge::Ok {
        cx.label("programme: range judged");
    }
    // Distance of the two storages.
    let span = |v: &[f64]| v.iter().all(|&e| e == 0.0 || lufs(e) <= 29.9);
    let (g, r) = (mq.global(), mq.lra());
    if span(&mq.all_blocks) && !g.ambiguous {
        if let Some(thr) = g.threshold {
            let margin = 10f64.powf(0.011);
            if mq.blocks.list.iter().all(|&e| e > thr * margin || e < thr / margin) {
                let (a, b) = (q.loudness_global(), h.loudness_global());
                match (a, b) {
                    (Ok(a), Ok(b)) if (a - b).abs() <= 0.0501 => {}
                    _ => fail!("exact global {a:?}, histogram global {b:?}"),
                }
                let (a, b) = (q.relative_threshold(), h.relative_threshold());
                match (a, b) {
                    (Ok(a), Ok(b)) if (a - b).abs() <= 0.0501 => {}
                    _ => fail!("exact relative threshold {a:?}, histogram {b:?}"),
                }
                cx.label("programme: exact vs histogram global");
            }
        }
    }
    if span(&mq.all_shorts) && !r.ambiguous && !mq.shorts.list.is_empty() {
        let mean = mq.shorts.list.iter().sum::<f64>() / mq.shorts.list.len() as f64;
        let thr = mean * 0.01;
        let margin = 10f64.powf(0.011);
        if mq.shorts.list.iter().all(|&e| e > thr * margin || e < thr / margin) {
            match (q.loudness_range(), h.loudness_range()) {
                (Ok(a), Ok(b)) if (a - b).abs() <= 0.1001 => {}
                (a, b) => fail!("exact range {a:?}, histogram range {b:?}"),
            }
            cx.label("programme: exact vs histogram range");
        }
    }
    Ok(())
}
