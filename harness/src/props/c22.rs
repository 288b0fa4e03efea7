//! C22: non-finite samples.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::{self, diff_parts, snap, Snap, Tol};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C22",
    quick: 16_000,
    thorough: 800_000,
    rule: "finite audio with NaN, infinite or overflowing samples placed in chosen channels and frames, in pieces; non-trivial: at least one such sample was added (for overflowing ones, to a used channel)",
    technique: "property-based testing with injected non-finite samples: metamorphic relations and the reference model",
    assumptions: &["non-finite samples are not placed on the last frame of a 100 ms step when gated results are judged"],
    run,
};

const EXACT: Tol = Tol { lu: 0.0, tp: 0.0, quiet: f64::NEG_INFINITY };

fn nonfinite(q: &sut::Q) -> bool {
    matches!(q, Ok(v) if v.is_nan() || *v == f64::INFINITY)
}

fn mk(wear: &crate::ops::Wear, ch: u32, rate: u32, mode: u8, mp: &[u8]) -> Result<EbuR128, String> {
    let mut e = wear.make(ch, rate, mode)?;
    e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
    Ok(e)
}
fn peak(p: &[f64]) -> f64 {
    p.iter().filter(|v| !v.is_nan()).fold(0.0, |a, v| a.max(v.abs()))
}

/// Finite samples so large that the energy of what contains them overflows.
fn run_huge(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = t.int(1, 8) as u32;
    let rate = low_rate(t);
    let mode = match t.weighted(&[3, 2, 3]) {
        0 => 127,
        1 => 63,
        _ => mode(t) | if t.chance(1, 2) { I } else { M },
    };
    let hop = (rate as usize + 5) / 10;
    let mp = map(t, ch);
    let planar = t.chance(1, 2);
    let a = audio(t, ch, rate, Fmt::F64, max_frames(ch, rate, 60_000, 60).max(4), 3, false);
    let n = a.frames();
    if n < 3 {
        return Ok(());
    }
    let c = t.us(0, ch as usize - 1);
    let i = match t.us(0, 2) {
        0 => t.us(0, n - 1),
        1 => t.us(0, 5.min(n - 1)),
        _ => (t.us(0, n / hop) * hop).min(n - 1),
    };
    // the frame that ends a step may or may not reach the energy of that step
    let i = if i % hop == hop - 1 { i.saturating_sub(1) } else { i };
    let v = t.pick(&[1e170, -1e170, 1e200, -1e200, 1e185]);
    let len = if t.chance(1, 3) { t.us(1, 2 * hop).min(n - i) } else { 1 };
    let mut planes = a.planes.clone();
    for j in i..i + len {
        planes[c][j] = if (j - i) % 2 == 0 { v } else { -v };
    }
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} planar {planar} {} ; {len} samples of {v:e} in channel {c} from frame {i}", a.desc));
    let used = mp[c] != 0;
    let mut e = mk(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp)?;
    let mut z = mk(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp)?;
    let mut m = Model::new(ch, rate, mode);
    m.set_map(&mp);
    m.do_tp = false;
    let parts = partition(t, n, hop);
    let every = (parts.len() / 5).max(1);
    let mut pos = 0;
    for (k, l) in parts.iter().enumerate() {
        sut::feed(&mut e, Fmt::F64, planar, &slice(&planes, pos, pos + l)).map_err(|x| format!("adding huge samples: {x:?}"))?;
        sut::feed(&mut z, Fmt::F64, planar, &slice(&a.planes, pos, pos + l)).map_err(|x| format!("{x:?}"))?;
        pos += l;
        if k % every != 0 && k + 1 != parts.len() {
            continue;
        }
        let (s, zs) = (snap(&e), snap(&z));
        let at = |x: String| format!("after {pos} frames: {x}");
        for d in 0..ch as usize {
            if has(mode, SP) {
                let want = peak(&planes[d][..pos]);
                ensure!(s.sp[d] == Ok(want), "{}", at(format!("sample peak of channel {d} {:?}, largest sample {want}", s.sp[d])));
            }
            if has(mode, TP) {
                if d != c || pos <= i {
                    ensure!(s.tp[d] == zs.tp[d], "{}", at(format!("true peak of channel {d} {:?} changed by huge samples of channel {c}, was {:?}", s.tp[d], zs.tp[d])));
                } else {
                    ensure!(matches!(s.tp[d], Ok(x) if x >= v.abs()), "{}", at(format!("true peak of channel {d} {:?}, largest sample {:e}", s.tp[d], v.abs())));
                }
            }
        }
        if !used || pos <= i {
            let mut x = zs.clone();
            (x.sp, x.psp, x.tp, x.ptp) = (s.sp.clone(), s.psp.clone(), s.tp.clone(), s.ptp.clone());
            if let Some(d) = diff_parts(&s, &x, EXACT, false, true) {
                fail!("{}", at(format!("loudness changed by huge samples that are not in a used channel: {d}")));
            }
            continue;
        }
        let last = i + len - 1;
        let inside = |fr: usize| pos <= fr || last >= pos - fr;
        ensure!(!matches!(s.m, Ok(v) if v.is_nan()), "{}", at(format!("momentary {:?} after huge but finite samples", s.m)));
        if inside(4 * hop) {
            ensure!(nonfinite(&s.m), "{}", at(format!("momentary {:?} although its energy overflows", s.m)));
            cx.label("overflow in the momentary window");
        } else {
            cx.label("overflow left the momentary window");
        }
        if has(mode, S) && inside(30 * hop) {
            ensure!(nonfinite(&s.s), "{}", at(format!("short-term {:?} although its energy overflows", s.s)));
        }
        for (w, q) in &s.w {
            let fr = m.window_frames(*w);
            if q.is_ok() && fr > 0 && inside(fr) {
                ensure!(nonfinite(q), "{}", at(format!("window {w} ms {q:?} although its energy overflows")));
            }
        }
        // steps completed and blocks that contain the samples
        let steps = pos / hop;
        let bad = if steps >= 4 { (4..=steps).filter(|e| e * hop > i && (e - 4) * hop <= last).count() } else { 0 };
        if has(mode, I) {
            if has(mode, HIST) {
                if bad > 0 {
                    let total = (steps - 3) as f64;
                    let least = lufs(bin_centre(999) * bad as f64 / total) - 1e-6;
                    ensure!(matches!(s.g, Ok(v) if v >= least || v.is_nan()), "{}", at(format!("integrated {:?} with {bad} of {total} blocks above the histogram, at least {least} expected", s.g)));
                    cx.label("histogram with an overflowing block");
                }
            } else if bad > 0 {
                ensure!(nonfinite(&s.g), "{}", at(format!("integrated {:?} although the energy of {bad} blocks overflows", s.g)));
                ensure!(nonfinite(&s.rt), "{}", at(format!("relative threshold {:?} although the energy of {bad} blocks overflows", s.rt)));
                cx.label("exact with an overflowing block");
            } else {
                ensure!(s.g == zs.g && s.rt == zs.rt && s.blk == zs.blk, "{}", at(format!("integrated {:?} {:?} {:?} before the block with huge samples is complete, expected {:?} {:?} {:?}", s.g, s.rt, s.blk, zs.g, zs.rt, zs.blk)));
            }
        }
        if has(mode, LRA) && !has(mode, HIST) {
            let any = steps >= 30 && (0..=(steps - 30) / 10).any(|x| { let e = 30 + 10 * x; e * hop > i && (e - 30) * hop <= last });
            if any {
                ensure!(nonfinite(&s.lra), "{}", at(format!("range {:?} although the energy of a short-term value overflows", s.lra)));
                cx.label("range with an overflowing value");
            }
        }
        cx.label("used channel");
        cx.nontrivial = true;
    }
    e.reset();
    let mut fresh = mk(&crate::ops::Wear::none(), ch, rate, mode, &mp)?;
    for x in [&mut e, &mut fresh] {
        sut::feed(x, Fmt::F64, planar, &refs(&a.planes)).map_err(|x| format!("{x:?}"))?;
    }
    if let Some(d) = diff_parts(&snap(&e), &snap(&fresh), EXACT, true, true) {
        fail!("huge samples, reset and finite audio: {d}");
    }
    Ok(())
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 4) {
        return run_huge(t, cx);
    }
    let ch = match t.weighted(&[4, 1]) {
        0 => t.int(1, 6) as u32,
        _ => channels(t),
    };
    let rate = if t.chance(1, 6) { any_rate(t) } else { low_rate(t) };
    let mode = match t.weighted(&[3, 2, 3]) {
        0 => 127,
        1 => 63,
        _ => mode(t) | if t.chance(1, 2) { SP } else { M },
    };
    let hop = (rate as usize + 5) / 10;
    let mp = map(t, ch);
    let f = t.pick(&[Fmt::F64, Fmt::F32]);
    let planar = t.chance(1, 2);
    let wild = t.chance(1, 4);
    let a = audio(t, ch, rate, f, max_frames(ch, rate, 60_000, 50).max(4), 3, wild);
    let n = a.frames();
    if n < 3 {
        return Ok(());
    }
    let mut planes = a.planes.clone();
    // injection
    let mut hit = vec![0u8; ch as usize]; // 1 NaN, 2 infinity
    let mut first_used = usize::MAX;
    let mut placed = vec![];
    for _ in 0..t.us(1, 4) {
        let c = t.us(0, ch as usize - 1);
        let mut i = match t.us(0, 3) {
            0 => t.us(0, n - 1),
            1 => t.us(0, 5.min(n - 1)),
            2 => n - 1 - t.us(0, 5.min(n - 1)),
            _ => (t.us(0, n / hop) * hop).min(n - 1),
        };
        if i % hop == hop - 1 {
            i -= 1;
        }
        let v = t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
        let run = if t.chance(1, 4) { t.us(1, 30) } else { 1 };
        for j in i..(i + run).min(n) {
            if j % hop == hop - 1 && j == i {
                continue;
            }
            planes[c][j] = v;
        }
        hit[c] |= if v.is_nan() { 1 } else { 2 };
        if mp[c] != 0 {
            first_used = first_used.min(i);
        }
        placed.push((c, i, v, run));
    }
    // what is really there
    for c in 0..ch as usize {
        hit[c] = planes[c].iter().fold(0, |a, v| a | if v.is_nan() { 1 } else if v.is_infinite() { 2 } else { 0 });
    }
    let clean: Planes = planes.iter().map(|p| p.iter().map(|v| if v.is_finite() { *v } else { 0.0 }).collect()).collect();
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} {f:?} planar {planar} {} ; non-finite (channel, frame, value, run) {placed:?}", a.desc));
    let mut e = mk(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp)?;
    let mut z = mk(&crate::ops::Wear::draw(t, cx, ch, rate, mode), ch, rate, mode, &mp)?;
    let mut m = Model::new(ch, rate, mode);
    m.set_map(&mp);
    m.do_tp = has(mode, TP);
    let parts = partition(t, n, hop);
    let every = (parts.len() / 5).max(1);
    let mut pos = 0;
    let mut before: Option<(Snap, usize)> = None;
    for (k, l) in parts.iter().enumerate() {
        sut::feed(&mut e, f, planar, &slice(&planes, pos, pos + l)).map_err(|x| format!("adding non-finite samples: {x:?}"))?;
        sut::feed(&mut z, f, planar, &slice(&clean, pos, pos + l)).map_err(|x| format!("{x:?}"))?;
        m.add(&slice(&planes, pos, pos + l));
        let old = pos;
        pos += l;
        if k % every != 0 && k + 1 != parts.len() && !(old <= first_used && first_used < pos) {
            continue;
        }
        let s = snap(&e);
        let zs = snap(&z);
        let at = |x: String| format!("after {pos} frames: {x}");
        for c in 0..ch as usize {
            let dirty = planes[c][..pos].iter().any(|v| !v.is_finite());
            if has(mode, SP) {
                let want = peak(&planes[c][..pos]);
                ensure!(s.sp[c] == Ok(want), "{}", at(format!("sample peak of channel {c} {:?}, largest sample {want}", s.sp[c])));
                if *l > 0 {
                    let want = peak(&planes[c][old..pos]);
                    ensure!(s.psp[c] == Ok(want), "{}", at(format!("previous sample peak of channel {c} {:?}, largest sample {want}", s.psp[c])));
                }
            }
            if has(mode, TP) {
                if !dirty {
                    ensure!(s.tp[c] == zs.tp[c] && s.ptp[c] == zs.ptp[c], "{}", at(format!("true peak of channel {c} {:?}/{:?} changed by non-finite samples of others, was {:?}/{:?}", s.tp[c], s.ptp[c], zs.tp[c], zs.ptp[c])));
                } else {
                    let inf = planes[c][..pos].iter().any(|v| v.is_infinite());
                    match &s.tp[c] {
                        Ok(v) if inf && *v == f64::INFINITY => {}
                        Ok(v) if !inf && v.is_finite() && (v - m.true_peak(c)).abs() <= 1e-5 * m.true_peak(c).max(peak(&planes[c][..pos])) && *v >= m.sp[c] => {}
                        v => fail!("{}", at(format!("true peak of channel {c} {v:?}, expected {} (non-finite: {})", m.true_peak(c), hit[c]))),
                    }
                }
            }
        }
        let touched = first_used < pos;
        if !touched {
            // only unused channels, or nothing yet
            let mut x = zs.clone();
            x.sp = s.sp.clone();
            x.psp = s.psp.clone();
            x.tp = s.tp.clone();
            x.ptp = s.ptp.clone();
            if let Some(d) = diff_parts(&s, &x, EXACT, false, true) {
                fail!("{}", at(format!("loudness changed by non-finite samples that are not in a used channel: {d}")));
            }
            cx.label("unused channel or not yet");
            before = Some((s, pos));
            continue;
        }
        // used channel: never a plausible number
        ensure!(nonfinite(&s.m), "{}", at(format!("momentary {:?} although a used channel had a non-finite sample at {first_used}", s.m)));
        if has(mode, S) {
            ensure!(nonfinite(&s.s), "{}", at(format!("short-term {:?} although a used channel had a non-finite sample at {first_used}", s.s)));
        }
        for (w, q) in &s.w {
            let fr = m.window_frames(*w);
            // the filter stays non-finite from that sample on
            if q.is_ok() && fr > 0 {
                ensure!(nonfinite(q), "{}", at(format!("window {w} ms {q:?} although a used channel had a non-finite sample at {first_used}")));
            }
        }
        cx.label("used channel");
        let blocks_bad = pos / hop >= 4 && pos / hop > first_used / hop;
        if has(mode, HIST) {
            let mut amb = 0;
            if has(mode, I) {
                amb += (sut::check_gating(&e, &m).map_err(|x| at(format!("histogram: {x}")))? == sut::Judge::Ambiguous) as u64;
            }
            if has(mode, LRA) {
                amb += (sut::check_range(&e, &m).map_err(|x| at(format!("histogram: {x}")))? == sut::Judge::Ambiguous) as u64;
            }
            cx.count("gated results not judged", amb);
            cx.label_if(blocks_bad, "histogram with a not-a-number block");
        } else if has(mode, I) {
            if blocks_bad {
                ensure!(nonfinite(&s.g), "{}", at(format!("integrated {:?} although a block had a non-finite sample", s.g)));
                ensure!(nonfinite(&s.rt), "{}", at(format!("relative threshold {:?} although a block had a non-finite sample", s.rt)));
                cx.label("exact with a not-a-number block");
            } else {
                // no further block is complete: what was counted stays
                ensure!(s.g == zs.g && s.rt == zs.rt && s.blk == zs.blk, "{}", at(format!("integrated {:?} {:?} {:?} before the block with the non-finite sample is complete, expected {:?} {:?} {:?}", s.g, s.rt, s.blk, zs.g, zs.rt, zs.blk)));
                cx.label("block not yet complete");
            }
        }
        if !has(mode, HIST) && has(mode, LRA) {
            let k = pos / hop;
            let bad = k >= 30 && (k - 30) / 10 * 10 + 30 > first_used / hop;
            if bad {
                ensure!(nonfinite(&s.lra), "{}", at(format!("range {:?} although a short-term value had a non-finite sample", s.lra)));
            } else {
                ensure!(s.lra == zs.lra, "{}", at(format!("range {:?} before the non-finite short-term value, expected {:?}", s.lra, zs.lra)));
            }
        }
    }
    let _ = before;
    // the affected channels taken out of use: the others read as if nothing had been there
    let dirty: Vec<u32> = (0..ch).filter(|&c| hit[c as usize] != 0 && mp[c as usize] != 0).collect();
    if !dirty.is_empty() && t.chance(1, 2) {
        cx.note(|| format!("set_channel({dirty:?}, Unused)"));
        for &c in &dirty {
            for x in [&mut e, &mut z] {
                x.set_channel(c, sut::chan(0)).map_err(|x| format!("{x:?}"))?;
            }
        }
        let b = audio(t, ch, rate, f, max_frames(ch, rate, 20_000, 12), 2, false);
        for k in 0..2 {
            let (s, zs) = (snap(&e), snap(&z));
            ensure!(s.m == zs.m && s.s == zs.s && s.w == zs.w, "{} channels {dirty:?} became unused: momentary {:?} short-term {:?} windows {:?}, without the non-finite samples {:?} {:?} {:?}", ["right after", "after finite audio since"][k], s.m, s.s, s.w, zs.m, zs.s, zs.w);
            if k == 0 {
                cx.note(|| format!("then {}", b.desc));
                for x in [&mut e, &mut z] {
                    sut::feed(x, f, planar, &refs(&b.planes)).map_err(|x| format!("{x:?}"))?;
                }
            }
        }
        let v: Vec<_> = mp.iter().map(|&r| sut::chan(r)).collect();
        e.set_channel_map(&v).map_err(|x| format!("{x:?}"))?;
        cx.label("affected channels made unused");
    }
    // reset
    e.reset();
    let mut fresh = mk(&crate::ops::Wear::none(), ch, rate, mode, &mp)?;
    let b = audio(t, ch, rate, f, max_frames(ch, rate, 40_000, 40), 2, false);
    cx.note(|| format!("reset; {}", b.desc));
    if let Some(d) = diff_parts(&snap(&e), &snap(&fresh), EXACT, true, true) {
        fail!("after reset: {d}");
    }
    sut::feed(&mut e, f, planar, &refs(&b.planes)).map_err(|x| format!("{x:?}"))?;
    sut::feed(&mut fresh, f, planar, &refs(&b.planes)).map_err(|x| format!("{x:?}"))?;
    if let Some(d) = diff_parts(&snap(&e), &snap(&fresh), EXACT, true, true) {
        fail!("after reset and finite audio: {d}");
    }
    cx.nontrivial = hit.iter().any(|&h| h != 0);
    Ok(())
}
