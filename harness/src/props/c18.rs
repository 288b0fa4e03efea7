//! C18: isolation and thread state.
use crate::engine::*;
use crate::gen;
use crate::ops::*;
#[allow(unused_imports)]
use crate::sut::{Unsent as _, Unshared as _};
use crate::sut::{self, diff, snap, Carried, Probe, Snap, Tol, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C18",
    quick: 6_000,
    thorough: 300_000,
    rule: "a history run alone, interleaved with other instances, in several threads, handed between threads, and under flush-to-zero environments; non-trivial: the history adds audio and at least two environments were compared",
    technique: "metamorphic property-based testing over schedules and floating-point environments",
    assumptions: &["x86-64 MXCSR control bits are the thread state observed", "levels below -2500 LUFS and peaks below 1e-36 count as zero when comparing flush-to-zero environments"],
    run,
};

#[cfg(target_arch = "x86_64")]
pub fn csr() -> u32 {
    let mut v: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v
}
#[cfg(target_arch = "x86_64")]
pub fn set_csr(v: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
}
const CTRL: u32 = 0xFFC0;

fn step(e: &mut EbuR128, op: &Op, env: u32) -> Result<Snap, String> {
    let base = csr();
    set_csr((base & !0xE040) | env);
    let before = csr() & CTRL;
    let r = apply(e, op);
    let after = csr() & CTRL;
    let s = snap(e);
    let after_q = csr() & CTRL;
    set_csr(base);
    ensure!(before == after, "{} left MXCSR control bits {after:#06x}, were {before:#06x}", op.show());
    ensure!(before == after_q, "queries left MXCSR control bits {after_q:#06x}, were {before:#06x}");
    r.map_err(|x| format!("{}: {x:?}", op.show()))?;
    Ok(s)
}
fn fresh(c: (u32, u32, u8)) -> Result<EbuR128, String> {
    sut::new(c.0, c.1, c.2).map_err(|e| format!("{e:?}"))
}

type Cfg = (u32, u32, u8);
const MIX18: Mix = Mix { wild: true, stale: true, seed: 2, ..MIX };
fn cfg(t: &mut Tape) -> Cfg {
    (gen::channels(t), if t.chance(1, 5) { gen::any_rate(t) } else { gen::low_rate(t) }, gen::mode(t))
}
/// The history under test; the flag tells of single-precision denormals.
fn generate(t: &mut Tape, cx: &mut Ctx) -> (Cfg, Vec<Op>, bool) {
    let a = cfg(t);
    let mix = MIX18;
    cx.note(|| format!("A: new{a:?}"));
    let mut tr = Track::new(a.0, a.1, a.2, 40_000);
    let mut ops = history(t, &mut tr, &mix, 8);
    // denormal content
    let mut narrow = false;
    if t.chance(1, 3) {
        let n = t.us(1, 2000);
        let v = t.pick(&[1e-310, 5e-324, 1e-39, 1e-45, 1e-160, 3e-38, 1e-37, 2e-38]);
        let period = t.us(1, 5);
        let planes = vec![(0..n).map(|i| if i / period % 2 == 0 { v } else { -v * 0.5 }).collect::<Vec<f64>>(); tr.ch as usize];
        let fmt = if v > 1e-46 && t.chance(1, 2) { gen::Fmt::F32 } else { gen::Fmt::F64 };
        narrow = fmt == gen::Fmt::F32;
        ops.push(Op::Add { fmt, planar: t.chance(1, 2), planes, desc: format!("denormals {v}") });
        cx.label("denormal samples");
    }
    for o in &ops {
        cx.note(|| o.show());
    }
    (a, ops, narrow)
}
/// Runs the history of a tape and prints every result: in a process that has done nothing else.
pub fn solo(data: Vec<u64>) -> String {
    let mut t = Tape::replay(data);
    let (a, ops, _) = generate(&mut t, &mut Ctx::default());
    let go = || -> Result<Vec<Snap>, String> {
        let mut e = fresh(a)?;
        ops.iter().map(|o| step(&mut e, o, 0)).collect()
    };
    format!("{:?}", go())
}
fn in_own_process(data: &[u64]) -> Option<String> {
    use std::io::Write;
    let mut c = std::process::Command::new(std::env::current_exe().ok()?)
        .arg("solo")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let s = data.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
    c.stdin.take()?.write_all(s.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    if !o.status.success() {
        return None;
    }
    String::from_utf8(o.stdout).ok()
}

/// Something unrelated happens on this thread.
fn disturb(t: &mut Tape, cx: &mut Ctx, like: Cfg) -> R {
    let kind = t.us(0, 4);
    let rate = if t.chance(1, 2) { like.1.min(9000) } else { gen::low_rate(t) };
    let ch = if t.chance(1, 2) { like.0.min(8) } else { t.int(1, 8) as u32 };
    let mode = t.pick(&[63u8, 127, 127, 63, like.2]);
    cx.note(|| format!("meanwhile: kind {kind} ch {ch} rate {rate} mode {mode:#04x}"));
    let loud = |ch: u32, rate: u32, mode: u8, odd: f64| -> Result<EbuR128, String> {
        let mut e = fresh((ch, rate, mode))?;
        let n = (rate as usize + 5) / 10;
        let mut v: Vec<f64> = (0..n * ch as usize * 33).map(|i| ((i * 7919) % 1000) as f64 / 500.0 - 1.0).collect();
        if odd != 0.0 {
            let k = v.len() - v.len() / 9;
            v[k] = odd;
        }
        e.add_frames_f64(&v).map_err(|x| format!("{x:?}"))?;
        Ok(e)
    };
    match kind {
        0 | 1 => {
            let odd = t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e200, 1e-310]);
            let e = loud(ch, rate, mode, odd)?;
            let _ = snap(&e);
            let _ = EbuR128::loudness_range_multiple([&e, &e].iter().copied());
            let _ = EbuR128::loudness_global_multiple([&e, &e].iter().copied());
        }
        2 => {
            // combinations that fail
            let a = loud(ch, rate, 63, 0.0)?;
            let b = loud(1, 4000, 127, 0.0)?;
            let c = loud(1, 4000, 1, 0.0)?;
            let mut v = vec![&a, &a, &b, &c];
            v.rotate_left(t.us(0, 3));
            ensure!(EbuR128::loudness_range_multiple(v.iter().copied()).is_err(), "a mix of storages was combined");
            ensure!(EbuR128::loudness_global_multiple(v.iter().copied()).is_err(), "an instance without integrated loudness was combined");
        }
        3 => {
            // other settings, and refused ones
            for _ in 0..t.us(1, 4) {
                let r = (rate as i64 + t.int(0, 20) as i64 - 10) as u32;
                let mut e = loud(ch, r, mode, 0.0)?;
                let _ = e.change_parameters(ch, r + 1);
                let _ = e.set_max_window(t.int(400, 5000) as u32);
                let _ = e.set_max_history(t.int(400, 5000) as u32);
                let _ = snap(&e);
                e.reset();
                ensure!(sut::new(0, r, mode).is_err() && sut::new(ch, 0, mode).is_err(), "impossible settings accepted");
            }
        }
        _ => {
            let e = loud(ch, rate, mode, 0.0)?;
            let v = vec![&e; t.us(1, 40)];
            let _ = EbuR128::loudness_range_multiple(v.iter().copied());
            let _ = EbuR128::loudness_global_multiple(v.iter().copied());
        }
    }
    Ok(())
}

/// On a thread of its own, so that nothing an earlier case left on a thread matters.
fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    std::thread::scope(|s| s.spawn(|| body(t, cx)).join()).unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn body(t: &mut Tape, cx: &mut Ctx) -> R {
    let exact = Tol { lu: 0.0, tp: 0.0, quiet: f64::NEG_INFINITY };
    let mix = MIX18;
    ensure!(Probe::<EbuR128>::SEND, "the analyzer's type does not let it move to another thread");
    let (a, ops, narrow) = generate(t, cx);
    let own = t.used().to_vec();
    let mut e = fresh(a)?;
    let mut alone = vec![];
    for op in &ops {
        alone.push(step(&mut e, op, 0)?);
    }
    let same = |got: &[Snap], what: &str, tol: Tol| -> R {
        for (i, (x, y)) in alone.iter().zip(got).enumerate() {
            if let Some(d) = diff(x, y, tol) {
                fail!("{what}: after step {} ({}): {d}", i + 1, ops[i].show());
            }
        }
        Ok(())
    };
    // whatever else happens
    let calm = snap(&e);
    for _ in 0..t.us(0, 2) {
        disturb(t, cx, a)?;
    }
    if let Some(d) = diff(&calm, &snap(&e), exact) {
        fail!("after other instances were used: {d}");
    }
    // repeated
    let mut e = fresh(a)?;
    let again: Vec<Snap> = ops.iter().map(|o| step(&mut e, o, 0)).collect::<Result<_, _>>()?;
    same(&again, "repeated", exact)?;
    // in a process of its own, where nothing else ever ran
    if t.chance(1, 12) {
        match in_own_process(&own) {
            Some(s) => {
                let here = format!("{:?}", Ok::<_, String>(&alone));
                if s.trim() != here {
                    let i = s.bytes().zip(here.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
                    let cut = |s: &str| s.get(i..(i + 160).min(s.len())).unwrap_or("").to_string();
                    fail!("the same history in a process of its own: .. {} .., here: .. {} ..", cut(&s), cut(&here));
                }
                cx.label("own process");
            }
            None => cx.label("own process: not started"),
        }
    }
    // interleaved with others
    let k = t.us(1, 3);
    let mut others = vec![];
    for _ in 0..k {
        let c = cfg(t);
        let mut tr = Track::new(c.0, c.1, c.2, 20_000);
        let ops = history(t, &mut tr, &mix, 8);
        others.push((fresh(c)?, ops, 0usize));
    }
    let mut e = fresh(a)?;
    let mut got = vec![];
    for op in &ops {
        for _ in 0..t.us(0, 3) {
            let i = t.us(0, k - 1);
            let (o, l, p) = &mut others[i];
            if *p < l.len() {
                let _ = step(o, &l[*p], 0)?;
                *p += 1;
            }
        }
        got.push(step(&mut e, op, 0)?);
    }
    same(&got, "interleaved with other instances", exact)?;
    // the others' results are those of running alone
    match t.us(0, 3) {
        0 => {}
        1 => {
            // the same history in several threads at once
            let rs: Vec<Result<Vec<Snap>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|_| {
                        s.spawn(|| {
                            let mut e = fresh(a)?;
                            ops.iter().map(|o| step(&mut e, o, 0)).collect::<Result<Vec<_>, _>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
            });
            for r in rs {
                same(&r?, "in parallel threads", exact)?;
            }
            cx.label("parallel threads");
        }
        2 => {
            // handed from thread to thread
            let mut e = fresh(a)?;
            let mut got = vec![];
            for op in &ops {
                let there = Carried::new(e);
                let (back, s) = std::thread::scope(|s| {
                    s.spawn(move || {
                        let mut e = there.take();
                        let s = step(&mut e, op, 0);
                        (Carried::new(e), s)
                    })
                    .join()
                })
                .map_err(|_| "a thread panicked".to_string())?;
                e = back.take();
                got.push(s?);
            }
            same(&got, "handed between threads", exact)?;
            cx.label("handed between threads");
        }
        _ if !Probe::<EbuR128>::SYNC => cx.label("not shareable"),
        _ => {
            // shared for reading by several threads
            let fin = alone.last();
            let e = &e;
            let rs: Vec<Snap> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|_| {
                        let e = Carried::new(e);
                        s.spawn(move || snap(e.take()))
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().ok()).collect()
            });
            ensure!(rs.len() == 4, "a reading thread panicked");
            if let Some(f) = fin {
                for r in &rs {
                    if let Some(d) = diff(f, r, exact) {
                        fail!("queried from several threads: {d}");
                    }
                }
            }
            cx.label("queried from several threads");
        }
    }
    // flush-to-zero / denormals-are-zero
    // (single-precision denormals are zero to every instruction under the caller's own bits)
    for env in [0x8000u32, 0x0040, 0x8040] {
        // Flushing results is what the analyzer itself does wherever a denormal could appear
        let strict = env == 0x8000;
        if narrow && !strict {
            continue;
        }
        let mut e = fresh(a)?;
        let mut got = vec![];
        for op in &ops {
            got.push(step(&mut e, op, env)?);
        }
        let mut base = alone.clone();
        if !strict {
            got.iter_mut().for_each(tiny);
            base.iter_mut().for_each(tiny);
        }
        for (i, (x, y)) in base.iter().zip(&got).enumerate() {
            if let Some(d) = diff(x, y, SAME) {
                fail!("with the caller's MXCSR flush bits {env:#06x}: after step {} ({}): {d}", i + 1, ops[i].show());
            }
        }
    }
    // rounding modes change the results, but a call must leave them as they are
    let env = t.pick(&[0x2000u32, 0x4000, 0x6000, 0xE040, 0xA000, 0x4040]);
    let mut e = fresh(a)?;
    for op in &ops {
        step(&mut e, op, env)?;
    }
    cx.nontrivial = ops.iter().any(|o| matches!(o, Op::Add { planes, .. } if planes[0].len() > 0));
    Ok(())
}

/// Values a flush-to-zero comparison cannot see.
fn tiny(s: &mut Snap) {
    for v in s.sp.iter_mut().chain(&mut s.psp).chain(&mut s.tp).chain(&mut s.ptp) {
        if let Ok(x) = v {
            if *x < 1e-36 {
                *x = 0.0;
            }
        }
    }
}
