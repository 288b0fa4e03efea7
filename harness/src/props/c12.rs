//! C12: reconfiguration.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::ops::*;
use crate::sut::{self, diff, snap, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};

pub const PROP: Prop = Prop {
    id: "C12",
    quick: 10_000,
    thorough: 500_000,
    rule: "history with frequent channel-count, rate and window changes against the model, and against the same history with no-change calls inserted; non-trivial: an effective change with audio before and after it",
    technique: "stateful model-based property testing plus metamorphic insertion of no-op reconfigurations",
    assumptions: &["audio buffered for a channel before it became unused is not re-read (unspecified)"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = gen::channels(t);
    let rate = if t.chance(1, 6) { gen::any_rate(t) } else { gen::low_rate(t) };
    let mode = gen::mode(t);
    let mut e = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    let mut twin = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = has(mode, TP);
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let mut tr = Track::new(ch, rate, mode, 90_000);
    let mix = Mix { add: 12, change: 4, window: 3, history: 0, reset: 0, seed: 1, rate: if t.chance(1, 8) { gen::any_rate } else { gen::low_rate }, ..MIX };
    let n = t.us(2, 12);
    let (mut fed, mut changed, mut good) = (false, false, false);
    for _ in 0..n {
        let before = (m.ch, m.rate, m.window);
        let op = tr.op(t, &mix);
        cx.note(|| op.show());
        let ok = apply_model(&mut m, &op);
        let r = apply(&mut e, &op);
        ensure!(r.is_ok() == ok, "{}: {r:?}", op.show());
        apply(&mut twin, &op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        // calls that change nothing, on the twin only
        for _ in 0..t.us(0, 2) {
            match t.us(0, 3) {
                0 => twin.change_parameters(m.ch, m.rate).map_err(|x| format!("no-op change_parameters: {x:?}"))?,
                1 => twin.set_max_window(m.window as u32).map_err(|x| format!("no-op set_max_window: {x:?}"))?,
                2 => {
                    let min = if has(mode, S) { 3000 } else { 400 };
                    if m.window == min {
                        let w = t.int(0, min as u64) as u32;
                        twin.set_max_window(w).map_err(|x| format!("no-op set_max_window({w}): {x:?}"))?;
                        cx.note(|| format!("(twin: set_max_window({w}))"));
                    }
                }
                _ => {
                    let c = t.us(0, m.ch as usize - 1);
                    twin.set_channel(c as u32, sut::chan(m.map[c])).map_err(|x| format!("no-op set_channel: {x:?}"))?;
                }
            }
        }
        match &op {
            Op::Add { planes, .. } if planes[0].len() > 0 => {
                if changed {
                    good = true;
                }
                fed = true;
            }
            _ => {
                if before != (m.ch, m.rate, m.window) {
                    cx.label(if before.0 != m.ch { "channel count changed" } else if before.1 != m.rate { "rate changed" } else { "window changed" });
                    if fed {
                        changed = true;
                    }
                }
            }
        }
        sut::check_settings(&e, &m).map_err(|x| format!("after {}: {x}", op.show()))?;
        ensure!(e.max_window() >= if has(mode, S) { 3000 } else { 400 }, "max_window {} too small for the mode", e.max_window());
        let amb = sut::check_all(&e, &m, &[m.window as u32, 400, 77]).map_err(|x| format!("after {}: {x}", op.show()))?;
        cx.count("gated results not judged", amb);
        cx.count("states checked", 1);
        if let Some(d) = diff(&snap(&e), &snap(&twin), SAME) {
            fail!("after {}: with vs without no-change calls: {d}", op.show());
        }
    }
    cx.nontrivial = good;
    Ok(())
}
