//! C06: true peaks against the documented interpolator.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut;
use crate::tape::Tape;
use crate::ensure;

pub const PROP: Prop = Prop {
    id: "C06",
    quick: 50_000,
    thorough: 2_500_000,
    rule: "several add/seed calls of arbitrary content, all channel counts, roles and rate classes; non-trivial: some channel's true peak exceeds its sample peak",
    technique: "property-based testing against a reference windowed-sinc interpolator, plus single-channel differential; repeated on a precision-true-peak build",
    assumptions: &["tolerance 1e-5 of the largest sample within the filter's reach (single-precision arithmetic)"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let rate = match t.weighted(&[4, 2, 2, 3]) {
        0 => t.pick(&[48000u32, 44100, 8000, 16000, 4000, 95999]),
        1 => t.pick(&[96000u32, 191999, 176400, 100000]),
        2 => t.pick(&[192000u32, 384000, 192001]),
        _ => t.int(4000, 250_000) as u32,
    };
    let ch = match t.weighted(&[2, 1]) {
        0 => t.pick(&[2u32, 1, 4, 6, 8, 3, 5, 7]),
        _ => channels(t),
    };
    let big = t.chance(1, 400);
    let ch = if big { t.int(1, 3) as u32 } else { ch };
    let mode = t.pick(&[TP, 127, 63, TP | I]);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode & !(LRA & !M));
    if t.chance(1, 2) {
        let mp = map(t, ch);
        e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("set_channel_map: {e:?}"))?;
        m.set_map(&mp);
    }
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {:?}", m.map));
    let solo_c = t.us(0, ch as usize - 1);
    let mut solo = crate::ops::made(t, cx, 1, rate, mode)?;
    let mut budget = if big { 400_000 } else { 24_000 } / ch as usize + 60;
    let n = t.us(1, if big { 3 } else { 8 });
    for _ in 0..n {
        let f = fmt(t);
        let planar = t.chance(1, 2);
        let max = match t.weighted(&[3, 2, 2]) {
            0 => 400,
            1 => 30,
            _ => 3,
        }
        .min(budget);
        let long = if max > 3 && t.chance(1, 5) { 8 } else { 1 };
        let frames = if big { t.us(0, budget) } else { t.us(0, max * long).min(budget) };
        budget -= frames;
        cx.label_if(frames > 65_536, "call of more than 65536 frames");
        let wild = !f.is_int() && t.chance(1, 6);
        let s = segment(t, ch, rate, frames, wild);
        let p = render(&[s.clone()], ch, f);
        let seed = t.chance(1, 8);
        cx.note(|| format!("{} {f:?} planar={planar} {}", if seed { "seed" } else { "add" }, describe(&[s])));
        let via = if seed { sut::Via::Seed } else { sut::Via::Add };
        sut::feed_via(&mut e, via, f, planar, &refs(&p)).map_err(|e| format!("add: {e:?}"))?;
        sut::feed_via(&mut solo, via, f, !planar, &[&p[solo_c]]).map_err(|e| format!("add: {e:?}"))?;
        if seed {
            m.seed(&refs(&p));
        } else {
            m.add(&refs(&p));
        }
        sut::check_true_peaks(&e, &m)?;
        for (name, a, b, reach) in [
            ("true peak", e.true_peak(solo_c as u32), solo.true_peak(0), m.reach[solo_c]),
            ("previous true peak", e.prev_true_peak(solo_c as u32), solo.prev_true_peak(0), m.preach[solo_c]),
        ] {
            let (a, b) = (a.map_err(|e| format!("{e:?}"))?, b.map_err(|e| format!("{e:?}"))?);
            ensure!((a - b).abs() <= 4e-6 * reach, "{name} of channel {solo_c} is {a}, but {b} when that channel is measured alone");
        }
        for c in 0..ch as usize {
            if m.true_peak(c) > m.sp[c] * 1.0001 {
                cx.nontrivial = true;
            }
        }
    }
    cx.label(match tp_factor(rate) {
        4 => "4x",
        2 => "2x",
        _ => "no oversampling",
    });
    cx.label_if(ch > 8, "more than 8 channels");
    cx.label_if(m.map.contains(&0), "unused channels");
    if cfg!(feature = "precise") {
        cx.label("precision build");
    }
    Ok(())
}
