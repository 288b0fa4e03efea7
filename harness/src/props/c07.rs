//! C07: splitting into calls never changes a measurement.
use crate::engine::*;
use crate::gen::*;
use crate::model::default_map;
use crate::sut::{self, diff_parts, snap, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};

pub const PROP: Prop = Prop {
    id: "C07",
    quick: 5_000,
    thorough: 250_000,
    rule: "one stream cut two ways, optionally with queries in between; non-trivial: the second cut has at least two non-empty pieces and the stream is not silent",
    technique: "metamorphic property-based testing (partition invariance)",
    assumptions: &[],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    // a stream of minutes, mostly in one or two long calls
    let long = t.chance(1, 30);
    let ch = if long { t.int(1, 2) as u32 } else { channels(t) };
    let low = long || t.chance(1, 8);
    let rate = if low { t.int(160, 4000) as u32 } else { any_rate(t) };
    let mode = mode(t);
    let hop = (rate as usize + 5) / 10;
    let f = fmt(t);
    let hops = if t.chance(1, 8) { 120 } else { 45 };
    let max = max_frames(ch, rate, 160_000, hops);
    let wild = t.chance(1, 8) && !low;
    let seconds = t.us(20, 150);
    let a = if long { long_audio(t, ch, rate, f, (rate as usize * seconds).min(500_000 / ch as usize)) } else { audio(t, ch, rate, f, max, 4, wild) };
    let frames = a.frames();
    let planar = t.chance(1, 2);
    let mp = if t.chance(1, 2) { default_map(ch) } else { map(t, ch) };
    let w = if t.chance(1, 4) { Some(t.int(400, 5000) as u32) } else { None };
    let h = if t.chance(1, 6) { Some(t.int(400, 8000) as u32) } else { None };
    let make = |wear: &crate::ops::Wear| -> Result<ebur128::EbuR128, String> {
        let mut e = wear.make(ch, rate, mode)?;
        e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
        if let Some(w) = w {
            e.set_max_window(w).map_err(|e| format!("{e:?}"))?;
        }
        if let Some(h) = h {
            e.set_max_history(h).map_err(|e| format!("{e:?}"))?;
        }
        Ok(e)
    };
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} window {w:?} history {h:?} {f:?} planar={planar} {}", a.desc));
    let mut one = make(&crate::ops::Wear::draw(t, cx, ch, rate, mode))?;
    sut::feed(&mut one, f, planar, &refs(&a.planes)).map_err(|e| format!("add: {e:?}"))?;
    let ref1 = snap(&one);
    let pieces = if long && t.chance(2, 3) {
        let k = t.us(0, frames);
        let l = t.us(0, frames - k);
        vec![k, l, frames - k - l]
    } else {
        partition(t, frames, hop)
    };
    let query = t.chance(1, 2);
    cx.note(|| format!("pieces {:?} queries {query}", pieces.iter().take(60).collect::<Vec<_>>()));
    let mut many = make(&crate::ops::Wear::draw(t, cx, ch, rate, mode))?;
    let mut pos = 0;
    let mut last = (0, 0);
    let mut maxes = vec![0.0f64; ch as usize];
    let mut tmax = vec![0.0f64; ch as usize];
    for n in &pieces {
        sut::feed(&mut many, f, planar, &slice(&a.planes, pos, pos + n)).map_err(|e| format!("add: {e:?}"))?;
        if *n > 0 {
            last = (pos, pos + n);
            if ref1.sp[0].is_ok() {
                for c in 0..ch {
                    let v = many.prev_sample_peak(c).map_err(|e| format!("{e:?}"))?;
                    maxes[c as usize] = maxes[c as usize].max(v);
                }
            }
            if ref1.tp[0].is_ok() {
                for c in 0..ch {
                    let v = many.prev_true_peak(c).map_err(|e| format!("{e:?}"))?;
                    tmax[c as usize] = tmax[c as usize].max(v);
                }
            }
        }
        pos += n;
        if query {
            let s1 = snap(&many);
            let s2 = snap(&many);
            if let Some(d) = diff_parts(&s1, &s2, SAME, true, true) {
                fail!("two identical queries differ: {d}");
            }
        }
    }
    let s = snap(&many);
    if let Some(d) = diff_parts(&ref1, &s, SAME, false, true) {
        fail!("one call vs {} calls: {d}", pieces.len());
    }
    for c in 0..ch as usize {
        if let Ok(v) = s.sp[c] {
            ensure!(v == maxes[c], "sample peak {v} of channel {c} is not the maximum {} over the pieces", maxes[c]);
        }
        if let Ok(v) = s.tp[c] {
            ensure!(v == tmax[c], "true peak {v} of channel {c} is not the maximum {} over the pieces", tmax[c]);
        }
    }
    // The previous-call values are those of the last non-empty piece: feed everything before it in one call.
    if last.1 > last.0 {
        let mut b = make(&crate::ops::Wear::draw(t, cx, ch, rate, mode))?;
        sut::feed(&mut b, f, planar, &slice(&a.planes, 0, last.0)).map_err(|e| format!("add: {e:?}"))?;
        sut::feed(&mut b, f, planar, &slice(&a.planes, last.0, last.1)).map_err(|e| format!("add: {e:?}"))?;
        if let Some(d) = diff_parts(&snap(&b), &s, SAME, true, true) {
            fail!("two calls vs {} calls: {d}", pieces.len());
        }
        for c in 0..ch as usize {
            if let Ok(v) = s.psp[c] {
                let want = a.planes[c][last.0..last.1].iter().fold(0.0f64, |m, x| if x.abs() > m { x.abs() } else { m });
                ensure!(v == want, "previous sample peak {v} of channel {c}, the last piece has {want}");
            }
        }
    }
    cx.nontrivial = pieces.iter().filter(|&&n| n > 0).count() >= 2 && a.planes.iter().any(|p| p.iter().any(|&v| v != 0.0));
    cx.label_if(pieces.iter().any(|&n| n == 0), "empty calls");
    cx.label_if(pieces.iter().any(|&n| n == 1), "single-frame calls");
    cx.label_if(frames > 30 * hop, "longer than 3 s");
    cx.label_if(frames > 300 * hop, "longer than 30 s");
    cx.label_if(query, "queries in between");
    Ok(())
}
