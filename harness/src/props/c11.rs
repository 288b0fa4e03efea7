//! C11: reset equals a fresh instance with the same settings.
use crate::engine::*;
use crate::gen;
use crate::model::has;
use crate::model::{HIST, I, LRA};
use crate::ops::*;
use crate::sut::{self, diff, snap, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};

pub const PROP: Prop = Prop {
    id: "C11",
    quick: 15_000,
    thorough: 750_000,
    rule: "random history (including non-finite audio), reset, random later history run on the reset and on a fresh instance; non-trivial: audio before and after the reset",
    technique: "stateful differential property-based testing (reset vs fresh instance)",
    assumptions: &[],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = gen::channels(t);
    let rate = if t.chance(1, 6) { gen::any_rate(t) } else { gen::low_rate(t) };
    let mode = gen::mode(t);
    let mut e = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let mut tr = Track::new(ch, rate, mode, 80_000);
    let mix = Mix { wild: true, stale: true, reset: 0, history: 2, window: 2, ..MIX };
    let ops = history(t, &mut tr, &mix, 8);
    let mut before = false;
    for op in &ops {
        cx.note(|| op.show());
        apply(&mut e, op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        if let Op::Add { planes, .. } = op {
            before |= planes[0].len() > 0;
        }
    }
    // Leave the filters in the worst state a caller can.
    if t.chance(1, 4) {
        let v = t.pick(&[f64::NAN, f64::INFINITY, 1e300, 1e-310, f64::NEG_INFINITY]);
        let n = t.us(1, 200);
        let data = vec![v; n * e.channels() as usize];
        cx.note(|| format!("add {n} frames of {v}"));
        cx.label("non-finite or huge audio before the reset");
        e.add_frames_f64(&data).map_err(|x| format!("{x:?}"))?;
    }
    // The settings as given (not as reported after the reset).
    let (ch, rate, window) = (tr.ch, tr.rate, tr.window);
    let map: Vec<_> = tr.map.iter().map(|&r| sut::chan(r)).collect();
    let hist = e.max_history();
    ensure!(
        (e.channels(), e.rate(), e.channel_map(), e.max_window()) == (ch, rate, &map[..], window),
        "settings before the reset: {:?}, expected {:?}",
        (e.channels(), e.rate(), e.channel_map(), e.max_window()),
        (ch, rate, &map[..], window)
    );
    e.reset();
    cx.note(|| "reset".into());
    let mut f = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    f.set_channel_map(&map).map_err(|e| format!("{e:?}"))?;
    f.set_max_window(window as u32).map_err(|e| format!("{e:?}"))?;
    if hist != f.max_history() {
        f.set_max_history(hist as u32).map_err(|e| format!("{e:?}"))?;
    }
    let s = snap(&e);
    ensure!(s.m == Ok(f64::NEG_INFINITY), "momentary after reset: {:?}", s.m);
    for (w, v) in &s.w {
        if let Ok(v) = v {
            ensure!(*v == f64::NEG_INFINITY, "window {w} after reset: {v}");
        }
    }
    if has(mode, I) {
        ensure!(s.g == Ok(f64::NEG_INFINITY) && s.rt == Ok(-70.0) && s.blk.is_none(), "gating after reset: {:?} {:?} {:?}", s.g, s.rt, s.blk);
    }
    if has(mode, LRA) {
        ensure!(s.lra == Ok(0.0), "range after reset: {:?}", s.lra);
    }
    for v in s.sp.iter().chain(&s.psp).chain(&s.tp).chain(&s.ptp) {
        if let Ok(v) = v {
            ensure!(*v == 0.0, "peak after reset: {v}");
        }
    }
    if let Some(d) = diff(&s, &snap(&f), SAME) {
        fail!("right after reset vs fresh: {d}");
    }
    let mut tr2 = Track::new(ch, rate, mode, 80_000);
    tr2.map = tr.map.clone();
    tr2.window = window;
    let mix2 = Mix { wild: false, stale: true, reset: 1, ..MIX };
    let ops2 = history(t, &mut tr2, &mix2, 6);
    let mut after = false;
    for op in &ops2 {
        cx.note(|| format!("then {}", op.show()));
        let a = apply(&mut e, op);
        let b = apply(&mut f, op);
        ensure!(a == b, "{}: {a:?} after reset, {b:?} on a fresh instance", op.show());
        if let Op::Add { planes, .. } = op {
            after |= planes[0].len() > 0;
        }
        if let Some(d) = diff(&snap(&e), &snap(&f), SAME) {
            fail!("after {}: reset vs fresh: {d}", op.show());
        }
    }
    cx.nontrivial = before && after;
    cx.label_if(hist != usize::MAX, "limited history");
    cx.label_if(has(mode, HIST), "histogram");
    Ok(())
}
