//! C23: rejected calls leave no trace.
use crate::engine::*;
use crate::gen::{self, Fmt};
use crate::model::*;
use crate::ops::*;
use crate::sut::{self, diff, snap, Tol, Via};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{Channel, EbuR128, Error};

pub const PROP: Prop = Prop {
    id: "C23",
    quick: 7_000,
    thorough: 350_000,
    rule: "a history with calls that must be rejected woven in, against the same history without them; non-trivial: at least one call was rejected after audio had been added and more audio followed",
    technique: "metamorphic stateful property-based testing (history with and without its rejected calls)",
    assumptions: &["unsatisfiable windows are only requested where the buffer cannot fit the address space"],
    run,
};
const EXACT: Tol = Tol { lu: 0.0, tp: 0.0, quiet: f64::NEG_INFINITY };

fn reject(t: &mut Tape, e: &mut EbuR128, mode: u8) -> Option<(String, Option<Error>, Option<Error>)> {
    let ch = e.channels();
    let err = |r: Result<(), Error>| r.err();
    use Error::*;
    Some(match t.weighted(&[2, 2, 3, 3, 3, 4, if e.max_window() > 100_000_000 { 12 } else { 1 }]) {
        0 => {
            if ch > 1 && t.chance(1, 2) {
                let i = t.int(0, ch as u64 - 1) as u32;
                (format!("set_channel({i}, DualMono)"), err(e.set_channel(i, Channel::DualMono)), Some(InvalidChannelIndex))
            } else {
                let i = t.pick(&[ch, ch + 1, 64, u32::MAX, 1 << 31]).max(ch);
                let r = sut::chan(t.int(0, 31) as u8);
                (format!("set_channel({i}, {r:?})"), err(e.set_channel(i, r)), Some(InvalidChannelIndex))
            }
        }
        1 => {
            let mut v: Vec<Channel> = (0..ch).map(|_| sut::chan(gen::used_role(t, 2))).collect();
            match t.us(0, 2) {
                0 => v.push(Channel::Left),
                1 => {
                    v.pop();
                }
                _ => {
                    if ch == 1 {
                        return None;
                    }
                    let i = t.us(0, ch as usize - 1);
                    v[i] = Channel::DualMono;
                }
            }
            (format!("set_channel_map({v:?})"), err(e.set_channel_map(&v)), Some(InvalidChannelIndex))
        }
        2 => {
            let (mut c, mut r) = (ch, e.rate());
            if t.chance(1, 3) {
                c = t.int(1, 64) as u32;
                r = gen::low_rate(t);
            }
            match t.us(0, 2) {
                0 => c = t.pick(&[0u32, 65, 66, 1000, u32::MAX]),
                1 => r = t.pick(&[0u32, 15, 1, 2822401, u32::MAX]),
                _ => {
                    c = t.pick(&[0u32, 65]);
                    r = t.pick(&[15u32, 2822401]);
                }
            }
            (format!("change_parameters({c}, {r})"), err(e.change_parameters(c, r)), Some(NoMem))
        }
        3 => {
            // interleaved length that is no whole number of frames
            if ch == 1 {
                return None;
            }
            let n = t.us(0, 600) * ch as usize + t.us(1, ch as usize - 1);
            let v: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 0.9 } else { -0.8 }).collect();
            let via = t.pick(&[Via::Add, Via::Seed]);
            let f = gen::fmt(t);
            let r = match (via, f) {
                (Via::Add, Fmt::F64) => e.add_frames_f64(&v),
                (Via::Add, Fmt::F32) => e.add_frames_f32(&sut::to_f32(&v)),
                (Via::Add, Fmt::I16) => e.add_frames_i16(&sut::to_i16(&v)),
                (Via::Add, Fmt::I32) => e.add_frames_i32(&sut::to_i32(&v)),
                (Via::Seed, Fmt::F64) => e.seed_frames_f64(&v),
                (Via::Seed, Fmt::F32) => e.seed_frames_f32(&sut::to_f32(&v)),
                (Via::Seed, Fmt::I16) => e.seed_frames_i16(&sut::to_i16(&v)),
                (Via::Seed, Fmt::I32) => e.seed_frames_i32(&sut::to_i32(&v)),
            };
            (format!("{via:?} {f:?} {n} interleaved samples"), err(r), Some(NoMem))
        }
        4 => {
            // planes of unequal length or the wrong number of planes
            let mut lens = vec![t.us(1, 600); ch as usize];
            match t.us(0, 2) {
                0 => {
                    if ch == 1 {
                        return None;
                    }
                    let i = t.us(0, ch as usize - 1);
                    let d = t.us(1, 50);
                    lens[i] = if t.chance(1, 2) { lens[i] + d } else { lens[i].saturating_sub(d) };
                    if lens.iter().all(|&l| l == lens[0]) {
                        lens[i] += 1;
                    }
                }
                1 => lens.push(lens[0]),
                _ => {
                    lens.pop();
                }
            }
            let p: Vec<Vec<f64>> = lens.iter().map(|&n| (0..n).map(|i| if i % 3 == 0 { 0.9 } else { -0.4 }).collect()).collect();
            let via = t.pick(&[Via::Add, Via::Seed]);
            let f = gen::fmt(t);
            let r = sut::feed_via(e, via, f, true, &gen::refs(&p));
            (format!("{via:?} {f:?} planes of {lens:?}"), err(r), Some(NoMem))
        }
        5 => {
            let i = t.pick(&[ch, ch + 1, u32::MAX]);
            let (n, r, want): (&str, Result<f64, Error>, Error) = match t.us(0, 9) {
                0 if !has(mode, I) => ("loudness_global", e.loudness_global(), InvalidMode),
                1 if !has(mode, I) => ("relative_threshold", e.relative_threshold(), InvalidMode),
                2 if !has(mode, LRA) => ("loudness_range", e.loudness_range(), InvalidMode),
                3 if !has(mode, SP) => ("sample_peak", e.sample_peak(0), InvalidMode),
                4 if !has(mode, TP) => ("true_peak", e.true_peak(0), InvalidMode),
                5 if has(mode, SP) => ("sample_peak", e.sample_peak(i), InvalidChannelIndex),
                6 if has(mode, SP) => ("prev_sample_peak", e.prev_sample_peak(i), InvalidChannelIndex),
                7 if has(mode, TP) => ("true_peak", e.true_peak(i), InvalidChannelIndex),
                8 if has(mode, TP) => ("prev_true_peak", e.prev_true_peak(i), InvalidChannelIndex),
                _ => {
                    let w = t.pick(&[e.max_window() as u64 + 1000, 100_000_000.max(e.max_window() as u64 + 700), u32::MAX as u64]).min(u32::MAX as u64) as u32;
                    ("loudness_window", e.loudness_window(w), InvalidMode)
                }
            };
            (n.to_string(), r.err(), Some(want))
        }
        _ => {
            // the buffer would need more than the 47-bit address space
            let (c, r) = (ch as u64, e.rate() as u64);
            let (c2, r2) = t.pick(&[(64u32, 2_822_400u32), (64, 2_700_001), (62, 2_822_400), (64, 2_822_399)]);
            if c2 as u64 * r2 as u64 * e.max_window() as u64 / 1000 * 8 >= 200_000_000_000_000 && t.chance(3, 4) {
                return Some((format!("change_parameters({c2}, {r2}) with a window of {} ms", e.max_window()), err(e.change_parameters(c2, r2)), Some(NoMem)));
            }
            if c * r * 4_294_967 * 8 < 200_000_000_000_000 {
                return None;
            }
            ("set_max_window(u32::MAX)".into(), err(e.set_max_window(u32::MAX)), Some(NoMem))
        }
    })
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let big = t.chance(1, 50);
    let low = !big && t.chance(1, 25);
    let ch = if big { 64 } else if low { t.int(1, 2) as u32 } else { gen::channels(t) };
    let rate = if big { t.pick(&[96000u32, 192000]) } else if low { t.pick(&[20u32, 30]) } else if t.chance(1, 6) { gen::any_rate(t) } else { gen::low_rate(t) };
    let mode = gen::mode(t);
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let mut a = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    let mut b = sut::new(ch, rate, mode).map_err(|e| format!("{e:?}"))?;
    // a window so long that no larger configuration can be had with it
    let vast = low;
    if vast {
        let w = 144_000_000 + t.int(0, 1_000_000) as u32;
        cx.note(|| format!("set_max_window({w})"));
        for e in [&mut a, &mut b] {
            e.set_max_window(w).map_err(|e| format!("set_max_window({w}): {e:?}"))?;
        }
        cx.label("vast window");
    }
    let plain = if big || vast { 0 } else { 1 };
    let mix = Mix { stale: true, wild: true, change: plain, window: if vast { 0 } else { 1 }, ..MIX };
    let mut tr = Track::new(ch, rate, mode, 50_000);
    let mut audio = 0;
    let mut rejected_after = false;
    for _ in 0..t.us(1, 10) {
        for _ in 0..t.us(0, 3) {
            let before = snap(&a);
            if let Some((what, got, want)) = reject(t, &mut a, mode) {
                cx.note(|| format!("rejected: {what}"));
                ensure!(got == want, "{what}: {got:?}, expected {want:?}");
                if let Some(d) = diff(&before, &snap(&a), EXACT) {
                    fail!("{what} was rejected but changed a result: {d}");
                }
                cx.label(&format!("rejected {}", what.split(|c: char| c == '(' || c == ' ').next().unwrap_or("")));
                rejected_after |= audio > 0;
            }
        }
        if vast && t.chance(1, 4) {
            let w = t.pick(&[400u32, 3000, 5000]);
            cx.note(|| format!("set_max_window({w})"));
            let (x, y) = (a.set_max_window(w), b.set_max_window(w));
            ensure!(x == y, "set_max_window({w}): {x:?} after rejected calls, {y:?} without");
        }
        let op = tr.op(t, &mix);
        cx.note(|| op.show());
        let (x, y) = (apply(&mut a, &op), apply(&mut b, &op));
        ensure!(x == y, "{}: {x:?} after rejected calls, {y:?} without", op.show());
        if let Op::Add { planes, .. } = &op {
            if !planes[0].is_empty() {
                audio += 1;
                cx.nontrivial |= rejected_after;
            }
        }
        if let Some(d) = diff(&snap(&b), &snap(&a), EXACT) {
            fail!("after {}: without the rejected calls against with them: {d}", op.show());
        }
    }
    Ok(())
}
