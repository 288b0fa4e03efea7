//! C04: loudness range against the model.
use super::c03::render_levels;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ops::dress;
use crate::sut;
use crate::tape::Tape;
use crate::ensure;

pub const PROP: Prop = Prop {
    id: "C04",
    quick: 6_000,
    thorough: 300_000,
    rule: "programme of 3 s to 10 min with level steps of -90..0 dBFS, checked at several positions; non-trivial: the range was decided and is above 0.2 LU",
    technique: "property-based testing against a reference model (sorted-list EBU Tech 3342)",
    assumptions: &["results with a short-term value within 1e-6 (relative) of a gate or bin edge are not judged"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 60) {
        return super::hours::run(t, cx, &[LRA, LRA | HIST, LRA | HIST], false);
    }
    if t.chance(1, 40) {
        return super::hours::varied(t, cx, &[LRA, LRA, LRA | HIST], false);
    }
    let short = t.chance(2, 3);
    let (ch, rate) = if short { (t.int(1, 3) as u32, if t.chance(1, 8) { any_rate(t) } else { low_rate(t) }) } else { (1, t.pick(&[4000u32, 4005, 4444])) };
    let mode = if t.chance(1, 4) { mode(t) | LRA } else { t.pick(&[LRA, LRA | HIST, 127, 63, LRA | I, LRA | HIST | I]) };
    let hop = (rate as usize + 5) / 10;
    let cap_frames = if short { 240_000 / ch as usize } else { 2_400_000 };
    let cap_hops = (cap_frames / hop).clamp(31, if short { 600 } else { 6000 });
    let total = t.us(30, cap_hops);
    let mut lv: Vec<(usize, f64)> = vec![];
    let mut n = 0;
    let base = -t.f(8.0, 50.0);
    let style = t.weighted(&[3, 2, 2, 1]);
    while n < total * hop {
        let f = match t.weighted(&[3, 2, 2]) {
            0 => t.us(5, 60) * hop,
            1 => t.us(1, 40 * hop),
            _ => (total / 6 + 1) * hop,
        };
        let l = match style {
            0 => base + t.f(-12.0, 8.0),
            1 => base - t.pick(&[0.0, 19.0, 20.0, 21.0, 25.0, 5.0]) - t.f(0.0, 1.0),
            2 => -t.f(0.0, 90.0),
            _ => {
                if t.chance(1, 3) {
                    -400.0
                } else {
                    -t.f(60.0, 80.0)
                }
            }
        };
        lv.push((f, l));
        n += f;
    }
    let f = t.pick(&[Fmt::F64, Fmt::F32, Fmt::I32]);
    let p = render_levels(t, &lv, ch, rate, f);
    let frames = p[0].len();
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    dress(t, &mut e, &mut m, cx)?;
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} {f:?} {} frames, levels {:?}", frames, lv.iter().take(24).collect::<Vec<_>>()));
    let parts = partition(t, frames, hop);
    let planar = t.chance(1, 2);
    let every = (parts.len() / 5).max(1);
    let mut pos = 0;
    let mut last = None;
    for (i, n) in parts.iter().enumerate() {
        let s = slice(&p, pos, pos + n);
        sut::feed(&mut e, f, planar, &s).map_err(|e| format!("add: {e:?}"))?;
        m.add(&s);
        pos += n;
        if i % every == 0 || i + 1 == parts.len() {
            let j = sut::check_range(&e, &m).map_err(|x| format!("after {pos} frames ({} short-term values): {x}", m.all_shorts.len()))?;
            let k = m.all_shorts.len();
            let v = e.loudness_range();
            if let Some((k0, v0)) = last {
                ensure!(k0 != k || v0 == v, "range changed from {v0:?} to {v:?} without another complete second");
            }
            last = Some((k, v));
            if j == sut::Judge::Ambiguous {
                cx.label("not judged: a value at a gate or bin edge");
            } else {
                let r = m.lra();
                cx.label("judged");
                if r.lra > 0.2 {
                    cx.nontrivial = true;
                }
                cx.label_if(r.kept > 0 && r.kept < m.shorts.offered, "relative gate removed values");
                cx.label_if((m.shorts.offered as usize) < m.all_shorts.len(), "absolute gate removed values");
                cx.label_if(r.kept == 1, "single value");
                cx.label_if(r.kept == 0, "no value");
            }
        }
    }
    cx.label_if(m.all_shorts.len() > 300, "more than 300 short-term values");
    Ok(())
}
