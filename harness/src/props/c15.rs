//! C15: chunked analysis with seeding.
use super::c03::{levels, render_levels};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::sut::{self, snap, Carried, Via};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C15",
    quick: 7_000,
    thorough: 350_000,
    rule: "programme cut into 2-9 chunks by the documented recipe, in threads or not, or seeding inserted into a history; non-trivial: judged with at least two chunks holding blocks, or audio both before and after a seed call",
    technique: "metamorphic property-based testing (chunked vs sequential) and model-based testing of seeding",
    assumptions: &["level steps within 60 dB (100 ms of seeding leaves a filter transient of about -200 dB)", "tolerance 1e-4 LU; block counts must match exactly unless a block lies at a gate or bin edge"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 3) {
        neutral(t, cx)
    } else {
        chunks(t, cx)
    }
}

/// Seeding alone changes nothing observable, and later audio is filtered as if the seeded audio had been played.
fn neutral(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = channels(t);
    let rate = if t.chance(1, 4) { any_rate(t) } else { low_rate(t) };
    let mode = mode(t);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = has(mode, TP);
    cx.note(|| format!("seeding in a history: new({ch}, {rate}, {mode:#04x})"));
    let mut tr = Track::new(ch, rate, mode, 60_000);
    let mix = Mix { add: 8, seed: 6, chan: 1, map: 1, change: 0, window: 0, history: 0, reset: 0, query: 0, wild: false, stale: false, unused: true, rate: low_rate };
    let n = t.us(2, 8);
    // Far below anything audible (but not where single precision runs out) the filters must still be where the
    // audio leaves them
    let faint = if t.chance(1, 6) { 2f64.powi(-(t.int(40, 75) as i32)) } else { 1.0 };
    cx.label_if(faint < 1.0, "faint throughout");
    let mut seen = (false, false, false);
    for _ in 0..n {
        let mut op = tr.op(t, &mix);
        if let (Op::Add { fmt, planes, desc, .. } | Op::Seed { fmt, planes, desc, .. }, true) = (&mut op, faint < 1.0) {
            *fmt = Fmt::F64;
            planes.iter_mut().flatten().for_each(|v| *v *= faint);
            *desc = format!("{faint:e} times {desc}");
        }
        cx.note(|| op.show());
        let before = snap(&e);
        apply(&mut e, &op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        apply_model(&mut m, &op);
        match &op {
            Op::Seed { planes, .. } => {
                let after = snap(&e);
                let z = sut::Tol { lu: 0.0, tp: 0.0, quiet: f64::NEG_INFINITY };
                if let Some(d) = sut::diff(&before, &after, z) {
                    fail!("seeding changed a result: {d}");
                }
                seen.1 |= seen.0 && planes[0].len() > 0;
            }
            Op::Add { planes, .. } if planes[0].len() > 0 => {
                seen.2 |= seen.1;
                seen.0 = true;
            }
            _ => {}
        }
        let amb = sut::check_all(&e, &m, &[m.window as u32, 100]).map_err(|x| format!("after {}: {x}", op.show()))?;
        cx.count("gated results not judged", amb);
    }
    cx.nontrivial = seen.2;
    cx.label("seeding inside a history");
    Ok(())
}

fn chunks(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = t.int(1, 4) as u32;
    let rate = if t.chance(1, 5) { any_rate(t).min(100_000) } else { low_rate(t) };
    let hop = (rate as usize + 5) / 10;
    let mode = t.pick(&[I | TP, I, 127, 63, I | HIST]);
    let n = t.us(2, 8);
    // boundaries in hops
    let max_hops = (300_000 / ch as usize / hop).clamp(20, 400);
    let mut cuts: Vec<usize> = (1..n).map(|_| t.us(5, max_hops - 1)).collect();
    cuts.sort();
    cuts.dedup();
    let total = max_hops * hop + if t.chance(1, 3) { t.us(0, hop - 1) } else { 0 };
    let segs = t.us(2, 40);
    let mut lv = levels(t, hop, segs);
    let top = lv.iter().map(|x| x.1).fold(-400.0, f64::max);
    for x in &mut lv {
        if x.1 < top - 60.0 && x.1 > -300.0 {
            x.1 = top - 60.0;
        }
        x.0 *= 3;
    }
    let mut have = 0;
    let mut i = 0;
    let base = lv.clone();
    lv.clear();
    while have < total {
        let (f, l) = base[i % base.len()];
        let f = f.min(total - have);
        lv.push((f, l));
        have += f;
        i += 1;
    }
    let noisy = t.chance(1, 2);
    let p = if noisy {
        render_levels(t, &lv, ch, rate, Fmt::F64)
    } else {
        let w = wave(t, total, rate);
        let segs: Vec<Seg> = lv.iter().map(|&(f, l)| Seg { frames: f, gens: (0..ch as usize).map(|c| (w, if l < -300.0 { 0.0 } else { 10f64.powf(l / 20.0) * [1.0, 0.7, 0.4, 0.9][c % 4] })).collect() }).collect();
        render(&segs, ch, Fmt::F64)
    };
    let threads = t.chance(1, 3);
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} {total} frames cut at {cuts:?} x 100 ms threads={threads} levels {:?}", lv.iter().take(16).collect::<Vec<_>>()));
    let d = Dress::draw(t, ch, rate);
    cx.note(|| format!("settings {d:?}"));
    let mut seq = crate::ops::made(t, cx, ch, rate, mode)?;
    d.apply(&mut seq)?;
    sut::feed(&mut seq, Fmt::F64, true, &refs(&p)).map_err(|e| format!("{e:?}"))?;
    let mut ms = Model::new(ch, rate, mode);
    ms.do_tp = false;
    d.apply_model(&mut ms);
    ms.add(&refs(&p));
    // (start of seed, start of audio, end)
    let mut ranges = vec![];
    let mut a = 0usize;
    for &c in cuts.iter().chain([&usize::MAX]) {
        let end = if c == usize::MAX { total } else { c * hop };
        if a == 0 {
            ranges.push((0, 0, end));
        } else {
            ranges.push((a - 4 * hop, a - 3 * hop, end));
        }
        a = end;
    }
    let planar = t.chance(1, 2);
    let wears = (Wear::draw(t, cx, ch, rate, mode), Wear::draw(t, cx, ch, rate, mode));
    let work = |r: &(usize, usize, usize)| -> Result<EbuR128, String> {
        let mut e = if r.1 > r.0 { &wears.1 } else { &wears.0 }.make(ch, rate, mode)?;
        d.apply(&mut e)?;
        if r.1 > r.0 {
            sut::feed_via(&mut e, Via::Seed, Fmt::F64, planar, &slice(&p, r.0, r.1)).map_err(|e| format!("seed: {e:?}"))?;
        }
        sut::feed(&mut e, Fmt::F64, planar, &slice(&p, r.1, r.2)).map_err(|e| format!("add: {e:?}"))?;
        Ok(e)
    };
    let parts: Vec<EbuR128> = if threads {
        std::thread::scope(|s| {
            let hs: Vec<_> = ranges.iter().map(|r| s.spawn(move || work(r).map(Carried::new))).collect::<Vec<_>>();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a chunk panicked".into())).map(Carried::take)).collect::<Result<Vec<_>, _>>()
        })?
    } else {
        ranges.iter().map(work).collect::<Result<Vec<_>, _>>()?
    };
    let mut mp = vec![];
    for r in &ranges {
        let mut m = Model::new(ch, rate, mode);
        m.do_tp = false;
        d.apply_model(&mut m);
        if r.1 > r.0 {
            m.seed(&slice(&p, r.0, r.1));
        }
        m.add(&slice(&p, r.1, r.2));
        mp.push(m);
    }
    let stores: Vec<&Store> = mp.iter().map(|m| &m.blocks).collect();
    let (gs, gc) = (ms.global(), gate(&stores));
    // Blocks of the chunks are exactly those of the sequential pass.
    let count: usize = mp.iter().map(|m| m.all_blocks.len()).sum();
    ensure!(count == ms.all_blocks.len(), "harness: chunk recipe yields {count} blocks instead of {}", ms.all_blocks.len());
    let edge = gs.ambiguous || gc.ambiguous || gs.count != gc.count || (ms.blocks.hist && {
        let mut sum = std::collections::BTreeMap::new();
        for m in &mp {
            for (k, v) in &m.blocks.bins {
                *sum.entry(*k).or_insert(0u64) += v;
            }
        }
        sum != ms.blocks.bins
    });
    let a = seq.loudness_global().map_err(|e| format!("{e:?}"))?;
    let b = EbuR128::loudness_global_multiple(parts.iter()).map_err(|e| format!("{e:?}"))?;
    if edge {
        cx.label("not judged: a block at a gate or bin edge");
    } else {
        ensure!(a == b || (a - b).abs() < 1e-4, "sequential global {a}, {} chunks combined {b}", parts.len());
        cx.label("chunked analysis judged");
        if mp.iter().filter(|m| m.blocks.offered > 0).count() >= 2 {
            cx.nontrivial = true;
        }
    }
    for c in 0..ch {
        if has(mode, SP) {
            let want = seq.sample_peak(c).map_err(|e| format!("{e:?}"))?;
            let got = parts.iter().map(|e| e.sample_peak(c).unwrap_or(f64::NAN)).fold(0.0, f64::max);
            ensure!(want == got, "sample peak of channel {c}: sequential {want}, chunks {got}");
        }
        if has(mode, TP) {
            let want = seq.true_peak(c).map_err(|e| format!("{e:?}"))?;
            let got = parts.iter().map(|e| e.true_peak(c).unwrap_or(f64::NAN)).fold(0.0, f64::max);
            ensure!(sut::rel_eq(want, got, 1e-6), "true peak of channel {c}: sequential {want}, chunks {got}");
        }
    }
    cx.label_if(threads, "chunks in threads");
    Ok(())
}
