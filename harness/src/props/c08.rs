//! C08: sample type and layout never change a measurement.
use crate::engine::*;
use crate::gen::*;
use crate::model::default_map;
use crate::sut::{self, diff, feed_via, snap, Via, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};

pub const PROP: Prop = Prop {
    id: "C08",
    quick: 7_000,
    thorough: 350_000,
    rule: "one stream representable in several sample types, fed through every such type and both layouts, with optional seeding; non-trivial: not silent and at least four variants compared",
    technique: "differential property-based testing across the 16 input functions",
    assumptions: &[],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let long = t.chance(1, 80);
    let ch = if long { t.int(1, 3) as u32 } else { channels(t) };
    let rate = if long { low_rate(t) } else { any_rate(t) };
    let mode = mode(t);
    let f = fmt(t);
    let wild = !f.is_int() && t.chance(1, 5);
    let max = max_frames(ch, rate, 40_000, 45);
    let sd = if t.chance(1, 2) { Some(audio(t, ch, rate, f, max.min(rate as usize / 5), 1, wild)) } else { None };
    let a = if long { long_audio(t, ch, rate, f, 400_000 / ch as usize) } else { audio(t, ch, rate, f, max, 3, wild) };
    let mut planes = a.planes.clone();
    // integer extremes
    if f.is_int() && t.chance(1, 3) && a.frames() > 0 {
        let i = t.us(0, a.frames() - 1);
        let c = t.us(0, ch as usize - 1);
        planes[c][i] = -1.0;
    }
    let mp = if t.chance(1, 2) { default_map(ch) } else { map(t, ch) };
    let hop = (rate as usize + 5) / 10;
    let cut = if t.chance(1, 2) { Some(length(t, hop, a.frames())) } else { None };
    let mid_seed = sd.is_some() && cut.is_some() && t.chance(1, 2);
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} {f:?} seed {:?} {} cut {cut:?} mid-stream seed {mid_seed}", sd.as_ref().map(|s| s.desc.clone()), a.desc));
    // Types that represent every sample exactly.
    let fits = |g: Fmt, p: &Planes| p.iter().all(|c| c.iter().all(|&v| g.quant(v) == v));
    let fmts: Vec<Fmt> = FMTS.iter().copied().filter(|&g| fits(g, &planes) && sd.as_ref().map_or(true, |s| fits(g, &s.planes))).collect();
    ensure!(!fmts.is_empty(), "harness: no format");
    let mut first: Option<sut::Snap> = None;
    let mut variants = 0;
    for &g in &fmts {
        for planar in [false, true] {
            let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
            e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
            let er = |e: ebur128::Error| format!("{g:?} planar={planar}: {e:?}");
            if let (Some(s), false) = (&sd, mid_seed) {
                feed_via(&mut e, Via::Seed, g, planar, &refs(&s.planes)).map_err(er)?;
            }
            match cut {
                Some(k) => {
                    feed_via(&mut e, Via::Add, g, planar, &slice(&planes, 0, k)).map_err(er)?;
                    if let (Some(s), true) = (&sd, mid_seed) {
                        feed_via(&mut e, Via::Seed, g, planar, &refs(&s.planes)).map_err(er)?;
                    }
                    feed_via(&mut e, Via::Add, g, planar, &slice(&planes, k, a.frames())).map_err(er)?;
                }
                None => feed_via(&mut e, Via::Add, g, planar, &refs(&planes)).map_err(er)?,
            }
            let s = snap(&e);
            variants += 1;
            match &first {
                None => first = Some(s),
                Some(x) => {
                    if let Some(d) = diff(x, &s, SAME) {
                        fail!("{:?} interleaved vs {g:?} planar={planar}: {d}", fmts[0]);
                    }
                }
            }
        }
    }
    // The layout may also change from call to call.
    if let Some(k) = cut {
        if !mid_seed {
            let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
            e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
            if let Some(s) = &sd {
                feed_via(&mut e, Via::Seed, fmts[0], true, &refs(&s.planes)).map_err(|e| format!("{e:?}"))?;
            }
            feed_via(&mut e, Via::Add, fmts[0], false, &slice(&planes, 0, k)).map_err(|e| format!("{e:?}"))?;
            feed_via(&mut e, Via::Add, *fmts.last().unwrap(), true, &slice(&planes, k, a.frames())).map_err(|e| format!("{e:?}"))?;
            if let Some(d) = diff(first.as_ref().unwrap(), &snap(&e), SAME) {
                fail!("uniform vs mixed types and layouts: {d}");
            }
        }
    }
    cx.nontrivial = variants >= 4 && planes.iter().any(|p| p.iter().any(|&v| v != 0.0));
    cx.label(&format!("{} types", fmts.len()));
    cx.label_if(sd.is_some(), "seeded");
    cx.label_if(mid_seed, "seeded mid-stream");
    cx.label_if(a.frames() > 65_536, "more than 65536 frames");
    cx.label_if(ch > 8, "more than 8 channels");
    Ok(())
}
