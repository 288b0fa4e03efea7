//! C20: synthesised EBU material against the values the standards define.
use crate::engine::*;
use crate::gen::{self, Fmt};
use crate::model::*;
use crate::sut;
use crate::tape::Tape;
use crate::{ensure, fail};
use std::f64::consts::PI;

pub const PROP: Prop = Prop {
    id: "C20",
    quick: 6_000,
    thorough: 300_000,
    rule: "tone programmes (levels, lengths, pauses, layouts, rates 16-384 kHz), single tones across the spectrum, faded tones for true peak; expected values computed from the programme description alone; non-trivial: at least one reading of a non-silent programme was judged",
    technique: "property-based testing against closed-form expectations from EBU Tech 3341/3342 and BS.1770-4",
    assumptions: &["readings are judged when no block lies within 0.15 LU of a gate"],
    run,
};

fn rate_of(t: &mut Tape) -> u32 {
    match t.weighted(&[6, 3, 2, 1]) {
        0 => t.pick(&[48000u32, 44100, 32000, 16000, 22050, 24000]),
        1 => t.int(16000, 50000) as u32,
        2 => t.pick(&[96000u32, 88200, 95999, 64000]),
        _ => t.pick(&[192000u32, 384000, 176400, 191999, 352800]),
    }
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    match t.weighted(&[4, 4, 5, 3]) {
        0 => true_peak(t, cx),
        1 => curve(t, cx),
        2 => programme(t, cx, false),
        _ => programme(t, cx, true),
    }
}

/// Energy whose loudness is `db` for a stereo tone of `db` dBFS.
const UNIT: f64 = 1.172439403104353; // 10^0.0691

struct Prog {
    /// (end frame, weighted energy)
    segs: Vec<(usize, f64)>,
}
impl Prog {
    /// Mean energy over [a, b) and the largest level near it.
    fn mean(&self, a: usize, b: usize, near: usize) -> (f64, f64) {
        let (mut e, mut mx, mut start) = (0.0, 0.0f64, 0);
        for &(end, l) in &self.segs {
            let (x, y) = (a.max(start), b.min(end));
            if y > x {
                e += l * (y - x) as f64;
            }
            if end + near > a && start < b {
                mx = mx.max(l);
            }
            start = end;
        }
        (e / (b - a) as f64, mx)
    }
}

fn programme(t: &mut Tape, cx: &mut Ctx, range_style: bool) -> R {
    // programmes of minutes
    let long = t.chance(1, 24);
    let rate = if long { t.int(16_000, 18_000) as u32 } else { rate_of(t) };
    let hop = (rate as usize + 5) / 10;
    let ch = if long { t.int(1, 2) as u32 } else { t.pick(&[2u32, 2, 1, 5, 6, 4, 3]) };
    let mut map = default_map(ch);
    if ch == 3 {
        map = vec![1, 2, 3];
    }
    if ch == 1 && t.chance(1, 2) {
        map = vec![6];
    }
    if ch > 2 && t.chance(1, 3) {
        map = (0..ch).map(|_| gen::used_role(t, ch)).collect();
    }
    let gains: Vec<f64> = if ch <= 2 { vec![1.0; ch as usize] } else { (0..ch).map(|_| t.pick(&[1.0, 0.7, 0.5, 0.1])).collect() };
    let wsum: f64 = (0..ch as usize).map(|c| weight(map[c]) * gains[c] * gains[c] / 2.0).sum();
    // levels in dBFS and lengths in ms
    let cap = if long { 9_000_000 } else { 2_400_000 } / ch as usize;
    let mut lv: Vec<(usize, f64)> = vec![];
    if t.chance(1, 5) {
        let cases: [&[(usize, f64)]; 8] = [
            &[(20_000, -23.0)],
            &[(20_000, -33.0)],
            &[(10_000, -36.0), (30_000, -23.0), (10_000, -36.0)],
            &[(5_000, -72.0), (5_000, -36.0), (30_000, -23.0), (5_000, -36.0), (5_000, -72.0)],
            &[(20_000, -26.0), (20_100, -20.0), (20_000, -26.0)],
            &[(20_000, -20.0), (20_000, -30.0)],
            &[(20_000, -20.0), (20_000, -15.0)],
            &[(10_000, -50.0), (10_000, -35.0), (10_000, -20.0), (10_000, -35.0), (10_000, -50.0)],
        ];
        for &(ms, l) in cases[t.us(0, 7)] {
            lv.push((rate as usize * ms / 1000, l));
        }
    } else {
        let base = -t.f(5.0, 40.0);
        let n = t.us(1, 12);
        for _ in 0..n {
            let ms = if long { t.int(1000, 90_000) } else if range_style { t.int(1000, 9000) } else { t.pick(&[100u64, 400, 1000, 3000, 150, 50, 500, 1340, 2500, 437]) };
            let l = match t.weighted(&[4, 3, 2, 1]) {
                0 => base + t.f(-6.0, 3.0),
                1 => base - t.f(0.0, 25.0),
                2 => -t.f(5.0, 80.0),
                _ => -1000.0,
            };
            lv.push((rate as usize * ms as usize / 1000 + t.us(0, 3), l));
        }
    }
    if long {
        cx.label("programme of minutes");
    }
    let mut total = 0;
    let mut segs = vec![];
    let freq = t.pick(&[997.0, 1000.0]);
    for (n, l) in lv {
        let n = n.min(cap - total);
        if n == 0 {
            break;
        }
        let w = gen::Wave::Sine { f: freq / rate as f64, ph: t.pick(&[0.0, 0.25, 0.1]) };
        let a = if l < -300.0 { 0.0 } else { 10f64.powf(l / 20.0) };
        total += n;
        segs.push((n, a, w));
    }
    let prog = Prog {
        segs: segs
            .iter()
            .scan(0, |p, &(n, a, _)| {
                *p += n;
                Some((*p, wsum * a * a * UNIT))
            })
            .collect(),
    };
    cx.note(|| format!("rate {rate} map {map:?} gains {gains:?} {freq} Hz, segments {:?}", segs.iter().map(|s| (s.0, 20.0 * s.1.log10())).collect::<Vec<_>>()));
    let gsegs: Vec<gen::Seg> = segs.iter().map(|&(n, a, w)| gen::Seg { frames: n, gens: gains.iter().map(|&g| (w, a * g)).collect() }).collect();
    let f = t.pick(&[Fmt::F64, Fmt::F32]);
    let p = gen::render(&gsegs, ch, f);
    let hist = t.chance(1, 3);
    let mode = LRA | I | if hist { HIST } else { 0 };
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    e.set_channel_map(&map.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
    let parts = gen::partition(t, total, hop);
    let every = (parts.len() / 6).max(1);
    let mut pos = 0;
    let planar = t.chance(1, 2);
    let near = hop;
    for (i, n) in parts.iter().enumerate() {
        sut::feed(&mut e, f, planar, &gen::slice(&p, pos, pos + n)).map_err(|e| format!("{e:?}"))?;
        pos += n;
        if i % every != 0 && i + 1 != parts.len() {
            continue;
        }
        for (what, len, got) in [("momentary", 4 * hop, e.loudness_momentary()), ("short-term", 30 * hop, e.loudness_shortterm())] {
            if pos < len {
                continue;
            }
            let (m, mx) = prog.mean(pos - len, pos, near);
            if m < 50.0 * edge(mx, hop, len) || m <= 1e-20 {
                // dominated by the edges of a tone
                continue;
            }
            let want = lufs(m);
            match got {
                Ok(v) if (v - want).abs() <= 0.1 => cx.label(what),
                v => fail!("{what} after {pos} frames: {v:?}, the programme is at {want}"),
            }
            cx.nontrivial = true;
        }
    }
    // gated values
    let (mut b, mut s) = (Store::default(), Store::default());
    let mut amb = false;
    let mut k = 4;
    let mut low = vec![];
    while k * hop <= total {
        let (m, mx) = prog.mean((k - 4) * hop, k * hop, near);
        let err = edge(mx, hop, 4 * hop);
        amb |= gatecheck(m, err, b0());
        low.push((m, err));
        b.add(m, 0.0, usize::MAX);
        if k >= 30 && (k - 30) % 10 == 0 {
            let (m, mx) = prog.mean((k - 30) * hop, k * hop, near);
            amb |= gatecheck(m, edge(mx, hop, 30 * hop), b0());
            s.add(m, 0.0, usize::MAX);
        }
        k += 1;
    }
    let g = gate(&[&b]);
    if let Some(thr) = g.threshold {
        for &(m, err) in &low {
            amb |= gatecheck(m, err, thr);
        }
        // a histogram rounds the threshold and the blocks by up to 0.05 LU each
        if hist && low.iter().any(|&(m, _)| (lufs(m) - lufs(thr)).abs() < 0.3) {
            amb = true;
        }
    }
    if amb {
        cx.label("gated readings not judged");
        return Ok(());
    }
    let got = e.loudness_global();
    match g.threshold {
        None => ensure!(got == Ok(f64::NEG_INFINITY), "integrated {got:?}, nothing passes the gate"),
        Some(_) => {
            let want = lufs(g.energy / g.count as f64);
            // what the onsets and ends of the tones may add, and the width of half a bin
            let err: f64 = low.iter().filter(|x| x.0 >= g.threshold.unwrap_or(0.0)).map(|x| x.1).sum();
            let tol = 0.1 + 4.4 * err / g.energy + if hist { 0.05 } else { 0.0 };
            match got {
                Ok(v) if (v - want).abs() <= tol => cx.label("integrated"),
                v => fail!("integrated {v:?}, the programme's is {want}"),
            }
            cx.nontrivial = true;
        }
    }
    // range
    let items = s.items();
    let n: u64 = items.len() as u64;
    if n > 0 {
        let thr = 0.01 * items.iter().map(|x| x.1).sum::<f64>() / n as f64;
        if items.iter().any(|x| (lufs(x.1) - lufs(thr)).abs() < 0.4) {
            cx.label("range not judged");
            return Ok(());
        }
        let r = range(&[&s]);
        match e.loudness_range() {
            Ok(v) if (v - r.lra).abs() <= 1.0 => cx.label("range"),
            v => fail!("loudness range {v:?}, the programme's is {}", r.lra),
        }
    } else {
        ensure!(e.loudness_range() == Ok(0.0), "loudness range {:?} without short-term values", e.loudness_range());
    }
    Ok(())
}
/// Energy that the onsets and ends of a tone may add to or take from a block (about half a
/// millisecond's worth).
fn edge(mx: f64, hop: usize, len: usize) -> f64 {
    1e-3 * mx * (4 * hop) as f64 / len as f64
}
fn gatecheck(m: f64, err: f64, gate: f64) -> bool {
    (m - gate).abs() <= 0.035 * gate + err
}

/// A single tone across the spectrum against the analogue K-weighting curve.
fn curve(t: &mut Tape, cx: &mut Ctx) -> R {
    let rate = rate_of(t);
    let hop = (rate as usize + 5) / 10;
    let lo = 25f64.ln();
    let hi = (0.45 * rate as f64).min(40_000.0).ln();
    let f = t.f(lo, hi).exp();
    let a = 10f64.powf(-t.f(0.0, 60.0) / 20.0);
    let ch = t.int(1, 2) as u32;
    let n = 36 * hop;
    cx.note(|| format!("rate {rate} tone {f:.2} Hz amplitude {a:.5} channels {ch}"));
    let ph = t.pick(&[0.0, 0.25, 0.4]);
    let x: Vec<f64> = (0..n)
        .map(|i| {
            let fade = (i as f64 / (0.2 * rate as f64)).min(1.0);
            a * fade * (2.0 * PI * ((f / rate as f64 * i as f64).fract() + ph)).sin()
        })
        .collect();
    let mut e = crate::ops::made(t, cx, ch, rate, S)?;
    let planes = vec![x; ch as usize];
    sut::feed(&mut e, Fmt::F64, t.chance(1, 2), &gen::refs(&planes)).map_err(|e| format!("{e:?}"))?;
    let want = ch as f64 * a * a / 2.0 * response(f).powi(2);
    let want = lufs(want);
    let tol = 0.05 + 2600.0 / rate as f64;
    match e.loudness_shortterm() {
        Ok(v) if (v - want).abs() <= tol => {}
        v => fail!("tone of {f:.2} Hz at {rate} Hz reads {v:?}, the K-weighting curve gives {want} (tolerance {tol:.3})"),
    }
    cx.label("K-weighting curve");
    cx.nontrivial = true;
    Ok(())
}
/// Magnitude of the analogue prototype.
fn response(f: f64) -> f64 {
    let (vh, f1, q1) = (10f64.powf(3.999843853973347 / 20.0), 1681.974450955533, 0.7071752369554196);
    let vb = vh.powf(0.4996667741545416);
    let s = f / f1;
    // s = j s
    let num = ((1.0 - vh * s * s).powi(2) + (vb * s / q1).powi(2)).sqrt();
    let den = ((1.0 - s * s).powi(2) + (s / q1).powi(2)).sqrt();
    let (f2, q2) = (38.13547087602444, 0.5003270373238773);
    let s2 = f / f2;
    let hp = s2 * s2 / ((1.0 - s2 * s2).powi(2) + (s2 / q2).powi(2)).sqrt();
    num / den * hp
}

fn true_peak(t: &mut Tape, cx: &mut Ctx) -> R {
    let rate = t.pick(&[48000u32, 44100, 16000, 32000, 8000, 95999, 96000, 88200, 191999, 176400, 128000]);
    let max = if rate < 96000 { 0.25 } else { 0.125 };
    let f = match t.weighted(&[3, 3]) {
        0 => max / t.pick(&[1.0, 2.0, 3.0, 1.5, 4.0, 8.0]),
        _ => t.f(0.0025, max),
    };
    let ph = t.pick(&[0.0, 0.125, 0.25, 0.0625, 0.18]) + t.f(0.0, 0.1);
    let db = t.f(3.0, -60.0);
    let a = 10f64.powf(db / 20.0);
    let ch = t.int(1, 5) as u32;
    let which = t.us(0, ch as usize - 1);
    let fade = t.us(200, 1500);
    let hold = t.us(500, 3000) + (2.0 / f) as usize;
    let fmt = t.pick(&[Fmt::F32, Fmt::F64, Fmt::I32]);
    let fmt = if a > 1.0 && fmt.is_int() { Fmt::F64 } else { fmt };
    let n = 2 * fade + hold;
    cx.note(|| format!("rate {rate} faded tone {f:.6} of the rate, phase {ph:.4}, {db:.2} dBFS, channel {which} of {ch}, fade {fade} hold {hold} {fmt:?}"));
    let mut planes = vec![vec![0.0; n]; ch as usize];
    for i in 0..n {
        let env = if i < fade {
            0.5 - 0.5 * (PI * i as f64 / fade as f64).cos()
        } else if i < fade + hold {
            1.0
        } else {
            0.5 - 0.5 * (PI * (n - i) as f64 / fade as f64).cos()
        };
        planes[which][i] = fmt.quant(a * env * (2.0 * PI * ((f * i as f64).fract() + ph)).sin());
    }
    let mut e = crate::ops::made(t, cx, ch, rate, TP)?;
    let hop = (rate as usize + 5) / 10;
    let mut pos = 0;
    for k in gen::partition(t, n, hop) {
        sut::feed(&mut e, fmt, pos % 2 == 0, &gen::slice(&planes, pos, pos + k)).map_err(|e| format!("{e:?}"))?;
        pos += k;
    }
    for c in 0..ch as usize {
        let v = e.true_peak(c as u32).map_err(|e| format!("{e:?}"))?;
        if c == which {
            let d = 20.0 * (v / a).log10();
            ensure!(d <= 0.2 && d >= -0.4, "true peak {v} of a tone of amplitude {a}: {d:.3} dB off");
        } else {
            ensure!(v == 0.0, "true peak {v} of a silent channel");
        }
    }
    cx.label("true peak of a tone");
    cx.nontrivial = true;
    Ok(())
}
