//! C03: integrated loudness gating against the model.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ops::dress;
use crate::sut;
use crate::tape::Tape;

pub const PROP: Prop = Prop {
    id: "C03",
    quick: 12_000,
    thorough: 600_000,
    rule: "programme of levels per 25-1600 ms placed around both gates, checked at several positions; non-trivial: the gating result was decided and at least one block was removed by a gate",
    technique: "property-based testing against a reference model (list-based BS.1770-4 gating)",
    assumptions: &["results with a block within 1e-6 (relative) of a gate or a histogram bin edge are not judged"],
    run,
};

/// A programme as a list of (frames, level in dB relative to full scale).
pub fn levels(t: &mut Tape, hop: usize, segs: usize) -> Vec<(usize, f64)> {
    let base = t.f(-10.0, -60.0);
    let style = t.weighted(&[4, 2, 2, 2]);
    let unit = t.weighted(&[3, 2, 2, 1]);
    (0..segs)
        .map(|_| {
            let f = match unit {
                0 => hop * t.us(1, 8),
                1 => t.us(1, 16 * hop),
                2 => hop,
                _ => hop / 4 * t.us(1, 12),
            };
            let l = match style {
                0 => match t.weighted(&[4, 4, 2, 1]) {
                    0 => base + t.f(-2.0, 2.0),
                    1 => base - t.f(8.0, 14.0),
                    2 => -t.f(66.0, 76.0),
                    _ => -400.0,
                },
                1 => -t.f(0.0, 90.0),
                2 => -t.f(64.0, 80.0),
                _ => base - t.pick(&[0.0, 9.9, 10.1, 10.5, 12.0, 3.0, 20.0, 9.0]),
            };
            (f.max(1), l)
        })
        .collect()
}

pub fn render_levels(t: &mut Tape, lv: &[(usize, f64)], ch: u32, rate: u32, f: Fmt) -> Planes {
    let w = match t.weighted(&[3, 2]) {
        0 => Wave::Sine { f: t.f(200.0, 1500.0) / rate as f64, ph: 0.0 },
        _ => Wave::Noise { seed: t.seed() },
    };
    let segs: Vec<Seg> = lv
        .iter()
        .map(|&(n, l)| {
            let a = if l < -300.0 { 0.0 } else { 10f64.powf(l / 20.0) };
            Seg { frames: n, gens: (0..ch as usize).map(|c| (w, a * [1.0, 0.9, 0.5, 0.7][c % 4])).collect() }
        })
        .collect();
    render(&segs, ch, f)
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 120) {
        return super::hours::run(t, cx, &[I, I | HIST, I | HIST, 63, 127], false);
    }
    if t.chance(1, 150) {
        return super::hours::varied(t, cx, &[I, I | HIST, 11 | I, 127], false);
    }
    let long = t.chance(1, 60);
    let (ch, rate) = if long {
        (t.int(1, 2) as u32, 4000)
    } else if t.chance(1, 10) {
        (t.int(1, 6) as u32, any_rate(t))
    } else if t.chance(1, 12) {
        (t.int(1, 6) as u32, folded_rate(t))
    } else {
        (t.int(1, 6) as u32, low_rate(t))
    };
    let mode = if t.chance(1, 4) { mode(t) | I } else { t.pick(&[I, 127, 63, I | HIST, I | TP, LRA | I, I | S, I | HIST | SP]) };
    let hop = (rate as usize + 5) / 10;
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    dress(t, &mut e, &mut m, cx)?;
    let f = t.pick(&[Fmt::F64, Fmt::F32, Fmt::I32, Fmt::F64]);
    let planar = t.chance(1, 2);
    let mut lv = if long {
        let mut v = vec![];
        let mut total = 0;
        while total < 6200 * hop {
            let s = t.us(4, 200) * hop + t.us(0, 3);
            v.push((s, match t.weighted(&[4, 3, 2]) { 0 => -t.f(15.0, 25.0), 1 => -t.f(28.0, 36.0), _ => -t.f(66.0, 80.0) }));
            total += s;
        }
        v
    } else {
        let segs = t.us(1, 60);
        levels(t, hop, segs)
    };
    let cap = if long { usize::MAX } else { 400_000 / ch as usize };
    let mut tot = 0;
    lv.retain(|x| {
        tot += x.0;
        tot <= cap
    });
    if lv.is_empty() {
        lv.push((4 * hop, -20.0));
    }
    let p = render_levels(t, &lv, ch, rate, f);
    let frames = p[0].len();
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {:?} {f:?} levels {:?}", m.map, lv.iter().take(20).collect::<Vec<_>>()));
    let parts = partition(t, frames, hop);
    let every = (parts.len() / 6).max(1);
    let mut pos = 0;
    for (i, n) in parts.iter().enumerate() {
        let s = slice(&p, pos, pos + n);
        sut::feed(&mut e, f, planar, &s).map_err(|e| format!("add: {e:?}"))?;
        m.add(&s);
        pos += n;
        if i % every == 0 || i + 1 == parts.len() {
            let j = sut::check_gating(&e, &m).map_err(|x| format!("after {pos} frames ({} blocks): {x}", m.all_blocks.len()))?;
            if j == sut::Judge::Ambiguous {
                cx.label("not judged: a block at a gate or bin edge");
            } else {
                let g = m.global();
                cx.label("judged");
                if (g.count as usize) < m.all_blocks.len() {
                    cx.nontrivial = true;
                }
                cx.label_if(g.count > 0 && g.count < m.blocks.offered, "relative gate removed blocks");
                cx.label_if((m.blocks.offered as usize) < m.all_blocks.len(), "absolute gate removed blocks");
                cx.label_if(g.threshold.is_none() && !m.all_blocks.is_empty(), "everything below the absolute gate");
            }
        }
    }
    cx.label_if(m.all_blocks.len() > 5000, "more than 5000 blocks");
    Ok(())
}
