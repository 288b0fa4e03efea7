//! C05: sample peaks are exact maxima.
use crate::engine::*;
use crate::gen::*;
use crate::sut;
use crate::tape::{Rng, Tape};
use crate::{ensure, fail};
use ebur128::EbuR128;

pub const PROP: Prop = Prop {
    id: "C05",
    quick: 500_000,
    thorough: 15_000_000,
    rule: "history of up to 20 add/seed/role/reconfigure/reset calls with extremes at chosen frames and channels; non-trivial: at least two add calls and a non-zero peak",
    technique: "stateful property-based testing against exact per-channel maxima",
    assumptions: &[],
    run,
};

/// One raw sample of the chosen type; the returned magnitude is what a peak must report.
#[derive(Clone)]
enum Raw {
    F64(Vec<f64>),
    F32(Vec<f32>),
    I16(Vec<i16>),
    I32(Vec<i32>),
}
impl Raw {
    fn mag(&self, i: usize) -> f64 {
        match self {
            Raw::F64(v) => v[i].abs(),
            Raw::F32(v) => (v[i] as f64).abs(),
            Raw::I16(v) => (v[i] as f64 / 32768.0).abs(),
            Raw::I32(v) => (v[i] as f64 / 2147483648.0).abs(),
        }
    }
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let mut ch = channels(t);
    let mut rate = if t.chance(1, 2) { t.int(160, 4000) as u32 } else { any_rate(t).min(200_000) };
    let mode = t.pick(&[17u8, 49, 127, 63, 17 | 64, 17 | 4]);
    let cap = 2_000_000 / (24 * ch);
    if rate > cap {
        rate = cap.max(160);
    }
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x}"));
    let mut all = vec![0.0f64; ch as usize];
    let mut prev = vec![0.0f64; ch as usize];
    let n = t.us(1, 20);
    let mut adds = 0;
    for _ in 0..n {
        match t.weighted(&[10, 2, 2, 1, 1, 1]) {
            k @ 0..=1 => {
                let seed = k == 1;
                let (raw, frames, planar, desc) = raw(t, ch as usize);
                cx.note(|| format!("{} {desc} planar={planar}", if seed { "seed" } else { "add" }));
                feed_raw(&mut e, &raw, ch as usize, frames, planar, seed).map_err(|e| format!("add: {e:?}"))?;
                if frames > 0 && !seed {
                    adds += 1;
                    for c in 0..ch as usize {
                        let mut mx = 0.0f64;
                        for i in 0..frames {
                            let v = raw.mag(i * ch as usize + c);
                            if v > mx {
                                mx = v;
                            }
                        }
                        prev[c] = mx;
                        all[c] = if mx > all[c] { mx } else { all[c] };
                    }
                }
                cx.label_if(seed, "seeded");
                cx.label_if(frames == 0, "empty call");
            }
            2 => {
                let m = map(t, ch);
                cx.note(|| format!("map {m:?}"));
                e.set_channel_map(&m.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
            }
            3 => {
                e.reset();
                cx.note(|| "reset".into());
                all.fill(0.0);
                prev.fill(0.0);
            }
            4 => {
                let c = if t.chance(1, 2) { ch } else { t.int(1, 8) as u32 };
                let r = if t.chance(1, 2) { rate } else { t.int(160, 9000) as u32 };
                cx.note(|| format!("change_parameters({c},{r})"));
                e.change_parameters(c, r).map_err(|e| format!("{e:?}"))?;
                if c != ch {
                    all = vec![0.0; c as usize];
                }
                if (c, r) != (ch, rate) {
                    prev = vec![0.0; c as usize];
                }
                ch = c;
                rate = r;
            }
            _ => {
                let w = t.int(0, 5000) as u32;
                if w as u64 * rate as u64 * ch as u64 / 1000 < 1_000_000 {
                    e.set_max_window(w).map_err(|e| format!("{e:?}"))?;
                }
            }
        }
        for c in 0..ch as usize {
            let (a, b) = (e.sample_peak(c as u32), e.prev_sample_peak(c as u32));
            ensure!(a == Ok(all[c]), "sample peak of channel {c}: {a:?}, expected {}", all[c]);
            ensure!(b == Ok(prev[c]), "previous sample peak of channel {c}: {b:?}, expected {}", prev[c]);
        }
        if e.sample_peak(ch).is_ok() {
            fail!("peak of a channel that does not exist");
        }
    }
    cx.nontrivial = adds >= 2 && all.iter().any(|&v| v > 0.0);
    cx.label_if(ch > 8, "more than 8 channels");
    Ok(())
}

fn raw(t: &mut Tape, ch: usize) -> (Raw, usize, bool, String) {
    let ty = t.us(0, 3);
    let planar = t.chance(1, 2);
    let frames = match t.weighted(&[1500, 1000, 500, 1]) {
        3 => t.us(0, 300_000 / ch),
        0 => t.us(0, 20),
        1 => t.us(0, 300),
        _ => t.us(0, 5000 / ch),
    };
    let n = frames * ch;
    let mut r = Rng::new(t.seed());
    let level = t.pick(&[0.0, 0.5, 0.001, 1.0]);
    let base: Vec<f64> = (0..n).map(|_| r.sym() * level).collect();
    // extremes: (position, kind)
    let k = t.us(0, 4);
    let mut ex = vec![];
    if n > 0 {
        for _ in 0..k {
            let f = match t.weighted(&[2, 1, 1]) {
                0 => t.us(0, frames - 1),
                1 => frames - 1,
                _ => 0,
            };
            let c = t.us(0, ch - 1);
            ex.push((f * ch + c, t.us(0, 7)));
        }
    }
    let raw = match ty {
        0 => {
            let mut v = base;
            for &(i, k) in &ex {
                v[i] = [1.0, -1.0, f64::NAN, 5.5, -1e9, f64::INFINITY, -0.999, 1e-300][k];
            }
            Raw::F64(v)
        }
        1 => {
            let mut v: Vec<f32> = base.iter().map(|&x| x as f32).collect();
            for &(i, k) in &ex {
                v[i] = [1.0, -1.0, f32::NAN, 5.5, -1e9, f32::NEG_INFINITY, -0.999, 1e-40][k];
            }
            Raw::F32(v)
        }
        2 => {
            let mut v: Vec<i16> = base.iter().map(|&x| (x * 32767.0) as i16).collect();
            for &(i, k) in &ex {
                v[i] = [i16::MAX, i16::MIN, 1, -1, i16::MIN + 1, 16384, -16384, 0][k];
            }
            Raw::I16(v)
        }
        _ => {
            let mut v: Vec<i32> = base.iter().map(|&x| (x * 2147483647.0) as i32).collect();
            for &(i, k) in &ex {
                v[i] = [i32::MAX, i32::MIN, 1, -1, i32::MIN + 1, 1 << 30, -(1 << 30), 0][k];
            }
            Raw::I32(v)
        }
    };
    (raw, frames, planar, format!("{frames} frames type {ty} noise {level} extremes {ex:?}"))
}

fn feed_raw(e: &mut EbuR128, raw: &Raw, ch: usize, frames: usize, planar: bool, seed: bool) -> Result<(), ebur128::Error> {
    macro_rules! go {
        ($v:expr, $a:ident, $ap:ident, $s:ident, $sp:ident) => {{
            let v = $v;
            let lie = sut::Lie::new(((frames * ch) as u64) << 32 ^ v.iter().take(4).fold(0, |h: u64, x| h.rotate_left(9) ^ *x as u64));
            if planar {
                let p: Vec<Vec<_>> = (0..ch).map(|c| (0..frames).map(|i| v[i * ch + c]).collect()).collect();
                let (all, at) = lie.planar(&p);
                let r: Vec<&[_]> = at.iter().map(|(a, b)| &all[*a..*b]).collect();
                if seed {
                    e.$sp(&r)
                } else {
                    e.$ap(&r)
                }
            } else {
                let (all, at) = lie.planar(std::slice::from_ref(v));
                let v = &all[at[0].0..at[0].1];
                if seed {
                    e.$s(v)
                } else {
                    e.$a(v)
                }
            }
        }};
    }
    match raw {
        Raw::F64(v) => go!(v, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
        Raw::F32(v) => go!(v, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
        Raw::I16(v) => go!(v, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
        Raw::I32(v) => go!(v, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
    }
}
