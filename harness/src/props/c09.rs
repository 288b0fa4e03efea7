//! C09: measurements do not depend on the other enabled modes.
use crate::engine::*;
use crate::gen::{self, refs};
use crate::model::*;
use crate::ops::*;
use crate::sut::{self, lu_eq, rel_eq, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{EbuR128, Error};

pub const PROP: Prop = Prop {
    id: "C09",
    quick: 10_240,
    thorough: 512_000,
    rule: "all 128 mode sets in turn, each with a random history, against an instance with every mode of the same storage kind; non-trivial: constructible mode other than all modes, and audio present",
    technique: "exhaustive enumeration of mode sets with differential property-based testing",
    assumptions: &["maximum windows above 3 s and histories from 3 s are generated, so that both instances clamp alike"],
    run,
};

fn same(name: &str, a: Result<f64, Error>, b: Result<f64, Error>, avail: bool, f: impl Fn(f64, f64) -> bool) -> R {
    if avail {
        match (a, b) {
            (Ok(x), Ok(y)) if f(x, y) => Ok(()),
            (a, b) => fail!("{name}: {a:?} with this mode set, {b:?} with all modes"),
        }
    } else {
        ensure!(a == Err(Error::InvalidMode), "{name}: {a:?} without its mode, expected an invalid-mode error");
        Ok(())
    }
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let mode = t.enumerated(128) as u8;
    let ch = gen::channels(t);
    let rate = gen::any_rate(t);
    cx.note(|| format!("mode {mode:#04x} ch {ch} rate {rate}"));
    let mut e = match sut::new(ch, rate, mode) {
        Ok(e) => {
            ensure!(has(mode, M), "mode {mode:#x} without a loudness measurement was accepted");
            e
        }
        Err(x) => {
            ensure!(!has(mode, M) && x == Error::InvalidMode, "mode {mode:#x} rejected with {x:?}");
            cx.label("mode without a loudness measurement");
            return Ok(());
        }
    };
    if t.chance(1, 4) {
        e = crate::ops::made(t, cx, ch, rate, mode)?;
    }
    let full = if has(mode, HIST) { 127 } else { 63 };
    let mut a = crate::ops::made(t, cx, ch, rate, full)?;
    let mut tr = Track::new(ch, rate, full, 60_000);
    let mix = Mix { add: 12, wild: true, ..MIX };
    let n = t.us(1, 10);
    let mut fed = false;
    let mut last_w = 0;
    for _ in 0..n {
        let mut op = tr.op(t, &mix);
        match &mut op {
            Op::Window(w) => {
                *w = 3001 + *w % 4000;
                last_w = *w;
            }
            Op::History(h) => *h = (*h).max(3000),
            Op::Add { planes, .. } => fed |= planes[0].len() > 0,
            _ => {}
        }
        tr.note(&op);
        cx.note(|| op.show());
        apply(&mut e, &op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        apply(&mut a, &op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        compare(&e, &a, mode, last_w)?;
    }
    ensure!(e.mode() == sut::md(mode) && e.channels() == tr.ch && e.rate() == tr.rate, "accessors");
    ensure!(e.channel_map() == a.channel_map(), "channel maps differ");
    cx.nontrivial = fed && mode != full;
    cx.label_if(has(mode, HIST), "histogram");
    let _ = refs;
    Ok(())
}

fn compare(e: &EbuR128, a: &EbuR128, mode: u8, last_w: u32) -> R {
    let lu = |x: f64, y: f64| lu_eq(x, y, SAME);
    let tp = |x: f64, y: f64| rel_eq(x, y, SAME.tp);
    let eq = |x: f64, y: f64| x == y;
    same("momentary", e.loudness_momentary(), a.loudness_momentary(), true, lu)?;
    if has(mode, S) {
        same("short-term", e.loudness_shortterm(), a.loudness_shortterm(), true, lu)?;
    } else if last_w == 0 {
        same("short-term", e.loudness_shortterm(), a.loudness_shortterm(), false, lu)?;
    }
    for w in [1u32, 100, 400, 399, last_w] {
        if w > 0 && (e.rate() as u64 * w as u64) >= 1000 {
            same("window", e.loudness_window(w), a.loudness_window(w), true, lu)?;
        }
    }
    if has(mode, S) {
        same("window", e.loudness_window(3000), a.loudness_window(3000), true, lu)?;
    }
    same("global", e.loudness_global(), a.loudness_global(), has(mode, I), lu)?;
    same("relative threshold", e.relative_threshold(), a.relative_threshold(), has(mode, I), lu)?;
    same("combined global", EbuR128::loudness_global_multiple([e].into_iter()), EbuR128::loudness_global_multiple([a].into_iter()), has(mode, I), lu)?;
    same("range", e.loudness_range(), a.loudness_range(), has(mode, LRA), lu)?;
    same("combined range", EbuR128::loudness_range_multiple([e]), EbuR128::loudness_range_multiple([a]), has(mode, LRA), lu)?;
    let (x, y) = (e.gating_block_count_and_energy(), a.gating_block_count_and_energy());
    if has(mode, I) {
        ensure!(
            match (x, y) {
                (None, None) => true,
                (Some(p), Some(q)) => p.0 == q.0 && rel_eq(p.1, q.1, 1e-9),
                _ => false,
            },
            "gating blocks: {x:?} with this mode set, {y:?} with all modes"
        );
    } else {
        ensure!(x.is_none(), "gating blocks {x:?} without their mode");
    }
    for c in 0..e.channels() {
        same("sample peak", e.sample_peak(c), a.sample_peak(c), has(mode, SP), eq)?;
        same("previous sample peak", e.prev_sample_peak(c), a.prev_sample_peak(c), has(mode, SP), eq)?;
        same("true peak", e.true_peak(c), a.true_peak(c), has(mode, TP), tp)?;
        same("previous true peak", e.prev_true_peak(c), a.prev_true_peak(c), has(mode, TP), tp)?;
    }
    Ok(())
}
