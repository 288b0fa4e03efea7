//! C24: memory held by an analyzer.
use crate::alloc::live;
use crate::engine::*;
use crate::ffi::*;
use crate::gen::{self, Fmt};
use crate::model::*;
use crate::ops::*;
use crate::sut;
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C24",
    quick: 4_000,
    thorough: 200_000,
    rule: "a history of valid and rejected calls, then a cycle of calls repeated over thousands of blocks, then destruction, through the Rust and the C API, with a counting allocator; non-trivial: at least 1000 blocks of audio were added or at least 20 handles were created and destroyed",
    technique: "stateful property-based testing with an allocator that counts the bytes held",
    assumptions: &["heap memory comes from the global allocator", "storage may grow to twice its content, and 64 KiB of slack is allowed", "each history is run once unmeasured, so that tables created once per process are not counted"],
    run,
};
const SLACK: i64 = 64 * 1024;

/// A call on the C API (or its absence), as drawn.
enum CCall {
    Init(u32, u64, i32),
    Op(Op),
    Bad(u32),
}

fn measure<T>(held: &mut (i64, i64), f: impl FnOnce() -> T) -> T {
    let a = live();
    let r = f();
    let b = live();
    held.0 += b.0 - a.0;
    held.1 += b.1 - a.1;
    r
}
/// What the settings ask for: the audio window twice over, the initial capacity of two histories, and
/// filter, interpolator and peaks of each channel.
fn wanted(ch: u32, rate: u32, window: usize) -> i64 {
    let hop = (rate as i64 + 5) / 10;
    let frames = (window as i64 + 100) * rate as i64 / 1000 + hop + 64 + window as i64 / 10;
    2 * 8 * ch as i64 * frames + 2 * 5000 * 8 + 2048 * ch as i64
}

/// Rejected calls: nothing may be kept.
fn bad(e: &mut EbuR128, k: u32) -> Option<&'static str> {
    let ch = e.channels();
    let (what, r) = match k {
        0 => ("set_channel with a wrong index", e.set_channel(ch, sut::chan(1)).is_err()),
        1 => ("set_channel_map too long", e.set_channel_map(&[sut::chan(1); 70]).is_err()),
        2 => ("change_parameters(0, 48000)", e.change_parameters(0, 48000).is_err()),
        3 => ("change_parameters(2, 1)", e.change_parameters(2, 1).is_err()),
        4 => ("a planar add without planes", e.add_frames_planar_f32(&[]).is_err()),
        5 => ("sample_peak of a wrong channel", e.sample_peak(ch).is_err()),
        6 => ("new(0, 48000)", EbuR128::new(0, 48000, sut::md(127)).is_err()),
        7 => ("new(2, 5)", EbuR128::new(2, 5, sut::md(127)).is_err()),
        8 => ("new without a loudness mode", EbuR128::new(2, 48000, sut::md(64)).is_err()),
        9 if ch > 1 => ("an incomplete frame", e.add_frames_f64(&vec![0.1; ch as usize + 1]).is_err()),
        10 if ch > 1 => ("planes of different lengths", {
            let a = [0.1f64; 8];
            let v: Vec<&[f64]> = (0..ch as usize).map(|c| &a[..4 + (c == 1) as usize]).collect();
            e.seed_frames_planar_f64(&v).is_err()
        }),
        // far beyond any address space
        11 if e.rate() as u64 * ch as u64 >= 6_000_000 => ("a window beyond memory", e.set_max_window(u32::MAX).is_err()),
        12 => ("loudness_window beyond the maximum", e.loudness_window(u32::MAX).is_err()),
        _ => return None,
    };
    r.then_some(what)
}

struct Script {
    ch: u32,
    rate: u32,
    mode: u8,
    ops: Vec<Op>,
    bads: Vec<u32>,
    cycle: Vec<Op>,
    reps: usize,
    /// History limit at the end.
    lower: Option<u32>,
}

fn go(s: &Script, judge: bool, cx: &mut Ctx) -> R {
    let mut held = (0, 0);
    let mut e = match measure(&mut held, || sut::new(s.ch, s.rate, s.mode)) {
        Ok(e) => e,
        Err(x) => fail!("new: {x:?}"),
    };
    let mut set = (s.ch, s.rate, 0usize, 0usize);
    let mut most = 0;
    let mut hops = 0u64;
    let (mut hist_b, mut hist_s) = (0u64, 0u64);
    let mut settings = |e: &EbuR128| {
        let now = (e.channels(), e.rate(), e.max_window(), e.max_history());
        if now != set {
            set = now;
            most = wanted(now.0, now.1, now.2);
            hist_b = hist_b.max(now.3 as u64 / 100);
            hist_s = hist_s.max(now.3 as u64 / 3000);
        }
        (most, hist_b, hist_s)
    };
    settings(&e);
    let exact = s.mode & HIST == 0;
    let mut check = |e: &EbuR128, held: (i64, i64), hops: u64, what: &dyn Fn() -> String| -> R {
        let (most, b, h) = settings(e);
        let stored = if exact { hops.min(b) + (hops / 10 + 1).min(h) } else { 0 };
        let allowed = most + 16 * stored as i64 + SLACK;
        if judge && held.0 > allowed {
            fail!("{}: {} bytes held in {} allocations after {hops} blocks of 100 ms; the settings need {most}, {stored} stored values make it at most {allowed}", what(), held.0, held.1);
        }
        Ok(())
    };
    for (i, op) in s.ops.iter().enumerate() {
        if let Op::Add { planes, .. } = op {
            hops += (planes[0].len() / ((e.rate() as usize + 5) / 10)) as u64 + 1;
        }
        measure(&mut held, || apply(&mut e, op)).map_err(|x| format!("{}: {x:?}", op.show()))?;
        check(&e, held, hops, &|| format!("after {}", op.show()))?;
        let k = s.bads[i];
        if k < 13 {
            let mut d = (0, 0);
            if let Some(what) = measure(&mut d, || bad(&mut e, k)) {
                if judge && d.0 > 0 {
                    fail!("{} bytes in {} allocations more held after {what} was rejected", d.0, d.1);
                }
                cx.label("rejected call");
            }
            held.0 += d.0;
            held.1 += d.1;
        }
    }
    let mut early = None;
    let start = hops;
    for r in 0..s.reps {
        for op in &s.cycle {
            if let Op::Add { planes, .. } = op {
                hops += (planes[0].len() / ((e.rate() as usize + 5) / 10)) as u64 + 1;
            }
            measure(&mut held, || apply(&mut e, op)).map_err(|x| format!("{}: {x:?}", op.show()))?;
        }
        if r % 8 == 7 || r + 1 == s.reps {
            check(&e, held, hops, &|| format!("after {} repetitions of the cycle", r + 1))?;
        }
        if r + 1 == s.reps / 4 {
            early = Some(held);
        }
    }
    if let Some(x) = early {
        // the storage kinds that do not grow
        if judge && !exact && held.0 > x.0 + 4096 {
            fail!("{} bytes held after {} repetitions of the cycle, {} after {}", held.0, s.reps, x.0, s.reps / 4);
        }
    }
    if hops - start >= 1000 {
        cx.nontrivial = true;
        cx.label(if exact { "long exact history" } else { "long histogram history" });
    }
    if let (Some(h), true) = (s.lower, exact) {
        let n = e.gating_block_count_and_energy().map_or(0, |x| x.0);
        measure(&mut held, || e.set_max_history(h)).map_err(|x| format!("set_max_history({h}): {x:?}"))?;
        let keep = e.max_history() as u64 / 100;
        if n > keep {
            // the blocks beyond the limit are gone, and so is their memory
            let allowed = wanted(e.channels(), e.rate(), e.max_window()) + 16 * (keep + hops / 10 + 1) as i64 + SLACK;
            if judge && held.0 > allowed {
                fail!("{} bytes held after set_max_history({h}) with at least {n} blocks stored; {keep} blocks, the range values and the settings make it at most {allowed}", held.0);
            }
            cx.label("limit lowered on a long history");
        }
    }
    measure(&mut held, || drop(e));
    if judge {
        ensure!(held == (0, 0), "{} bytes in {} allocations still held after the analyzer was dropped", held.0, held.1);
    }
    Ok(())
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    if t.chance(1, 3) {
        return run_c(t, cx);
    }
    let ch = if t.chance(1, 3) { gen::channels(t) } else { t.int(1, 3) as u32 };
    let rate = match t.weighted(&[4, 1, 1]) {
        0 => t.int(16, 300) as u32,
        1 => gen::low_rate(t),
        _ => gen::any_rate(t),
    };
    let mode = gen::mode(t);
    cx.note(|| format!("new({ch}, {rate}, {mode:#04x})"));
    let mut tr = Track::new(ch, rate, mode, 30_000);
    let mix = Mix { stale: true, history: 2, rate: |t| if t.chance(3, 4) { t.int(16, 300) as u32 } else { gen::low_rate(t) }, ..MIX };
    let ops = history(t, &mut tr, &mix, 10);
    let bads: Vec<u32> = ops.iter().map(|_| if t.chance(1, 2) { t.us(0, 12) as u32 } else { 99 }).collect();
    for (o, b) in ops.iter().zip(&bads) {
        cx.note(|| format!("{}{}", o.show(), if *b < 13 { format!("; rejected call {b}") } else { String::new() }));
    }
    // the repeated part
    let hop = (tr.rate as usize + 5) / 10;
    let total = (1_500_000 / tr.ch as usize).min(30_000 * hop);
    let piece = match t.us(0, 3) {
        0 => hop,
        1 => t.us(1, 3 * hop),
        2 => t.us(1, 40 * hop),
        _ => 100 * hop,
    }
    .min(total)
    .max(1);
    let seed = t.seed();
    let a = if t.chance(1, 4) { 0.0 } else { 0.3 };
    let planes: Vec<Vec<f64>> = (0..tr.ch)
        .map(|c| {
            let mut v = vec![];
            gen::render_wave(&gen::Wave::Noise { seed: seed + c as u64 }, a, piece, &mut v, Fmt::F32);
            v
        })
        .collect();
    let mut cycle = vec![Op::Add { fmt: t.pick(&[Fmt::F32, Fmt::F64, Fmt::I16]), planar: t.chance(1, 2), planes, desc: format!("noise*{a}") }];
    // a few other calls in the cycle
    if t.chance(1, 2) {
        let k = t.us(1, 3);
        for _ in 0..k {
            match t.us(0, 5) {
                0 => cycle.push(Op::Query),
                1 => cycle.push(Op::Reset),
                2 => {
                    cycle.push(Op::Window(tr.window as u32 + t.int(0, 200) as u32));
                    cycle.push(Op::Window(tr.window as u32));
                }
                3 => {
                    cycle.push(Op::History(t.int(0, 30_000) as u32));
                    cycle.push(Op::History(t.int(0, 300_000) as u32));
                }
                4 => {
                    let r = t.int(16, 300) as u32;
                    cycle.push(Op::Change(t.int(1, 8) as u32, r));
                    cycle.push(Op::Change(tr.ch, tr.rate));
                }
                _ => cycle.push(Op::SetMap((0..tr.ch).map(|_| gen::role(t, tr.ch)).collect())),
            }
        }
    }
    let slow = cycle.iter().any(|o| matches!(o, Op::Query | Op::Change(..) | Op::Window(_)));
    let mut reps = (total / piece).clamp(4, if slow { 400 } else { 30_000 });
    if slow && mode & HIST == 0 {
        // querying exact storage sorts it
        reps = reps.min(100);
    }
    cx.note(|| format!("{reps} times: {}", cycle.iter().map(|o| o.show()).collect::<Vec<_>>().join(", ")));
    let lower = if t.chance(1, 2) { Some(t.pick(&[400u32, 3000, 0, 100_000, 400_000]) + t.int(0, 99) as u32) } else { None };
    cx.note(|| format!("history limit at the end {lower:?}"));
    let s = Script { ch, rate, mode, ops, bads, cycle, reps, lower };
    // once unmeasured, but only the beginning
    let warm = Script { ops: s.ops.clone(), bads: s.bads.clone(), cycle: s.cycle.clone(), reps: 1, ..s };
    go(&warm, false, &mut Ctx::default())?;
    go(&s, true, cx)
}

fn run_c(t: &mut Tape, cx: &mut Ctx) -> R {
    let n = t.us(1, 10);
    let mut script = vec![];
    let mut tr: Option<Track> = None;
    for _ in 0..n {
        match t.weighted(&[2, 5, 2]) {
            1 if tr.is_some() => {
                let mix = Mix { stale: true, wild: true, seed: 0, map: 0, reset: 0, rate: |t| t.int(16, 2000) as u32, ..MIX };
                let op = tr.as_mut().unwrap().op(t, &mix);
                cx.note(|| op.show());
                script.push(CCall::Op(op));
            }
            2 if tr.is_some() => {
                let k = t.us(0, 9) as u32;
                cx.note(|| format!("rejected call {k}"));
                script.push(CCall::Bad(k));
            }
            _ => {
                let (mut c, mut r, mut m) = (t.int(1, 8) as u32, t.int(16, 3000), gen::mode(t) as i32);
                match t.us(0, 5) {
                    0 => c = t.pick(&[0u32, 65, 1000]),
                    1 => r = t.pick(&[0u64, 15, 2_822_401, u32::MAX as u64 + 1 + 48000, u64::MAX]),
                    2 => m = t.pick(&[0i32, 64, 32, 2]),
                    _ => {}
                }
                let ok = c >= 1 && c <= 64 && (16..=2_822_400).contains(&r) && m & 1 == 1;
                cx.note(|| format!("ebur128_init({c}, {r}, {m}){}", if ok { "" } else { " (invalid)" }));
                if ok {
                    tr = Some(Track::new(c, r as u32, m as u8, 10_000));
                }
                script.push(CCall::Init(c, r, m));
            }
        }
    }
    let reps = t.pick(&[1usize, 3, 30]);
    cx.note(|| format!("everything destroyed, {reps} times"));
    let mut made = 0;
    for rep in 0..=reps {
        let before = live();
        let mut hs: Vec<*mut CState> = Vec::with_capacity(n);
        let mut held = (0, 0);
        let mut refused: Option<String> = None;
        for c in &script {
            match c {
                CCall::Init(ch, r, m) => {
                    let mut d = (0, 0);
                    let p = measure(&mut d, || unsafe { hc_init(*ch, *r, *m) });
                    if p.is_null() {
                        if rep > 0 && d.0 > 0 {
                            refused = Some(format!("ebur128_init({ch}, {r}, {m}) returned null and keeps {} bytes", d.0));
                        }
                    } else {
                        hs.push(p);
                        made += 1;
                    }
                    held.0 += d.0;
                    held.1 += d.1;
                }
                CCall::Op(op) => {
                    if let Some(&p) = hs.last() {
                        measure(&mut held, || c_apply(p, op));
                    }
                }
                CCall::Bad(k) => {
                    if let Some(&p) = hs.last() {
                        let mut d = (0, 0);
                        measure(&mut d, || c_bad(p, *k));
                        if rep > 0 && d.0 > 0 {
                            refused = Some(format!("a rejected call ({k}) keeps {} bytes", d.0));
                        }
                        held.0 += d.0;
                        held.1 += d.1;
                    }
                }
            }
            if refused.is_some() {
                break;
            }
        }
        for p in hs.iter_mut() {
            measure(&mut held, || unsafe { hc_destroy(p) });
        }
        if let Some(r) = refused {
            fail!("{r}");
        }
        ensure!(hs.iter().all(|p| p.is_null()), "a destroyed handle is not null");
        if rep > 0 {
            ensure!(held == (0, 0), "{} bytes in {} allocations still held after every handle was destroyed", held.0, held.1);
        }
        drop(hs);
        let _ = before;
    }
    cx.label("C API");
    cx.nontrivial = made >= 20;
    Ok(())
}

fn c_apply(p: *mut CState, op: &Op) {
    unsafe {
        let mut o = 0.0;
        match op {
            Op::Add { fmt, planes, .. } => {
                let v = sut::interleave(&gen::refs(planes));
                let n = planes[0].len();
                match fmt {
                    Fmt::F64 => hc_add_double(p, v.as_ptr(), n),
                    Fmt::F32 => hc_add_float(p, sut::to_f32(&v).as_ptr(), n),
                    Fmt::I16 => hc_add_short(p, sut::to_i16(&v).as_ptr(), n),
                    Fmt::I32 => hc_add_int(p, sut::to_i32(&v).as_ptr(), n),
                };
            }
            Op::SetChannel(c, r) => {
                hc_set_channel(p, *c, sut::chan(*r) as i32);
            }
            Op::Change(c, r) => {
                hc_change_parameters(p, *c, *r as u64);
            }
            Op::Window(w) => {
                hc_set_max_window(p, *w as u64);
            }
            Op::History(h) => {
                hc_set_max_history(p, *h as u64);
            }
            _ => {
                hc_global(p, &mut o);
                hc_momentary(p, &mut o);
                hc_shortterm(p, &mut o);
                hc_range(p, &mut o);
                hc_relative_threshold(p, &mut o);
                hc_sample_peak(p, 0, &mut o);
                hc_true_peak(p, 0, &mut o);
                hc_prev_sample_peak(p, 0, &mut o);
                hc_prev_true_peak(p, 0, &mut o);
                hc_window(p, 400, &mut o);
                let mut l = [p, p, p];
                hc_global_multiple(l.as_mut_ptr(), 3, &mut o);
                hc_range_multiple(l.as_mut_ptr(), 3, &mut o);
            }
        }
    }
}
fn c_bad(p: *mut CState, k: u32) {
    unsafe {
        let mut o = 0.0;
        match k {
            0 => hc_set_channel(p, 64, 1),
            1 => hc_set_channel(p, 0, 77),
            2 => hc_change_parameters(p, 0, 48000),
            3 => hc_change_parameters(p, 2, 1),
            4 => hc_change_parameters(p, 2, u64::MAX),
            5 => hc_sample_peak(p, 64, &mut o),
            6 => hc_true_peak(p, 64, &mut o),
            7 => hc_window(p, u64::MAX, &mut o),
            8 => hc_set_max_window(p, (1 << 32) + 500),
            _ => hc_prev_true_peak(p, u32::MAX, &mut o),
        };
    }
}
