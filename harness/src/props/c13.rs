//! C13: maximum history.
use super::c03::{levels, render_levels};
use crate::engine::*;
use crate::gen::{self, refs, Fmt};
use crate::model::*;
use crate::ops::*;
use crate::sut;
use crate::tape::Tape;
use crate::ensure;

pub const PROP: Prop = Prop {
    id: "C13",
    quick: 20_000,
    thorough: 1_000_000,
    rule: "programmes of changing level with the history limit set at any time, every state compared with the model; non-trivial: a limit was in force that is smaller than the number of blocks offered",
    technique: "stateful model-based property testing (list model of the history)",
    assumptions: &["results with a block within 1e-6 (relative) of a gate or bin edge are not judged"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 60) {
        return super::hours::run(t, cx, &[I, LRA, 63, LRA | I], true);
    }
    if t.chance(1, 250) {
        return super::hours::varied(t, cx, &[I, LRA, LRA | I], true);
    }
    let ch = t.int(1, 3) as u32;
    let rate = gen::low_rate(t);
    let hop = (rate as usize + 5) / 10;
    let mode = t.pick(&[63u8, I, LRA | I, I | S, LRA, 127, I | SP, M, S]);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let n = t.us(2, 14);
    let mut budget = 300_000 / ch as usize;
    let mut limited = false;
    for _ in 0..n {
        let op = match t.weighted(&[12, 10, 2, 2, 1, 1]) {
            0 => {
                let segs = t.us(1, 20);
                let mut lv = levels(t, hop, segs);
                if t.chance(1, 8) {
                    // far beyond full scale, then ordinary levels again
                    let at = t.us(0, lv.len());
                    let h = t.us(1, 8) * hop;
                    lv.insert(at, (h, t.f(40.0, 150.0)));
                    cx.label("far beyond full scale");
                }
                if t.chance(1, 4) {
                    // long steady stretch
                    lv.push((t.us(30, 200) * hop, -t.f(10.0, 40.0)));
                }
                let mut tot = 0;
                lv.retain(|x| {
                    tot += x.0;
                    tot <= budget
                });
                if lv.is_empty() {
                    lv.push((1, -20.0));
                }
                let planes = render_levels(t, &lv, ch, rate, Fmt::F64);
                budget -= planes[0].len().min(budget);
                Op::Add { fmt: Fmt::F64, planar: t.chance(1, 2), desc: format!("{lv:?}"), planes }
            }
            1 => Op::History(match t.weighted(&[3, 4, 1]) {
                0 => t.pick(&[3000u32, 400, 1000, 0, 2999, 3001, 500, 5999, 6000]),
                1 => {
                    let have = m.n / hop * 100;
                    t.int(0, (have as u64 + 1000).max(4000)) as u32
                }
                _ => t.pick(&[u32::MAX, 1_000_000, 60_000]),
            }),
            2 => Op::Reset,
            4 => Op::Window(t.pick(&[400u32, 3000, 4000, 5000, 1000])),
            5 => Op::SetMap((0..ch).map(|_| gen::used_role(t, ch)).collect()),
            _ => Op::Change(ch, if t.chance(1, 2) { rate } else { gen::low_rate(t) }),
        };
        cx.note(|| op.show());
        let ok = apply_model(&mut m, &op);
        let r = apply(&mut e, &op);
        ensure!(r.is_ok() == ok, "{}: {r:?}", op.show());
        sut::check_settings(&e, &m).map_err(|x| format!("after {}: {x}", op.show()))?;
        let ctx = |x: String| format!("after {} (history {} ms, {} blocks, {} short-term values so far): {x}", op.show().chars().take(80).collect::<String>(), m.history, m.blocks.offered, m.shorts.offered);
        if has(mode, I) {
            if sut::check_gating(&e, &m).map_err(ctx)? == sut::Judge::Ok {
                cx.count("gating judged", 1);
            }
            if !m.blocks.hist && (m.blocks.offered as usize) > m.blocks.list.len() {
                limited = true;
            }
        }
        if has(mode, LRA) {
            if sut::check_range(&e, &m).map_err(ctx)? == sut::Judge::Ok {
                cx.count("range judged", 1);
            }
            if !m.shorts.hist && (m.shorts.offered as usize) > m.shorts.list.len() {
                limited = true;
            }
        }
    }
    cx.nontrivial = limited;
    let _ = refs;
    Ok(())
}
