//! C02: momentary, short-term and window loudness against the model, at many positions.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut;
use crate::tape::Tape;
use crate::ensure;

pub const PROP: Prop = Prop {
    id: "C02",
    quick: 3_500,
    thorough: 175_000,
    rule: "stream of up to 24 pieces, every piece followed by momentary, short-term and several window queries; non-trivial: some query returned a finite loudness above -150 LUFS",
    technique: "property-based testing against a reference model (unbounded-storage BS.1770 meter)",
    assumptions: &["sample rates at which the standard's filter design is stable (all from 4 kHz, some below 3.4 kHz)", "relative tolerance 1e-7 in energy plus the rounding floor of a direct-form filter"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let top = t.chance(1, 60);
    // windows of minutes
    let wide = !top && t.chance(1, 20);
    let folded = !top && !wide && t.chance(1, 12);
    let rate = if folded { folded_rate(t) } else if top { t.pick(&[1411200u32, 2822400, 1000000]) } else if wide { low_rate(t) } else { any_rate(t) };
    let ch = if top { 1 } else if wide { t.int(1, 2) as u32 } else { channels(t) };
    let mut mode = mode(t);
    if top {
        mode &= !(TP & !SP);
    }
    if t.chance(2, 3) {
        mode |= S;
    }
    let long = wide || t.chance(1, 12);
    let budget = if top { 1_500_000 } else if wide { 1_200_000 } else if long { 900_000 } else { 150_000 } * if cx.thorough { 3 } else { 1 };
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    let mp = if t.chance(1, 3) { default_map(ch) } else { map(t, ch) };
    e.set_channel_map(&mp.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|e| format!("set_channel_map: {e:?}"))?;
    m.set_map(&mp);
    if wide {
        let w = if t.chance(1, 2) { t.pick(&[65_535u32, 65_536, 66_000, 70_000, 100_000, 131_072, 60_000]) } else { t.int(12_000, 140_000) as u32 };
        e.set_max_window(w).map_err(|e| format!("set_max_window: {e:?}"))?;
        m.set_window(w);
    } else if t.chance(1, 2) && !top {
        let w = match t.weighted(&[2, 3, 1]) {
            0 => t.pick(&[400u32, 3000, 1000, 5000, 10000, 401, 3099]),
            1 => t.int(400, 6000) as u32,
            _ => t.int(400, if cx.thorough { 60_000 } else { 12_000 }) as u32,
        };
        if w as u64 * rate as u64 / 1000 * ch as u64 <= 4_000_000 {
            e.set_max_window(w).map_err(|e| format!("set_max_window: {e:?}"))?;
            m.set_window(w);
        }
    }
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {mp:?} window {}", m.window));
    let hop = (rate as usize + 5) / 10;
    let mut left = budget / ch as usize;
    let n = t.us(1, 24);
    let mut total = 0;
    let zero_start = t.chance(1, 6);
    for i in 0..n {
        let max = left.min(if long || top { left } else { 40 * hop });
        let f = fmt(t);
        let planar = t.chance(1, 2);
        let a = if zero_start && i < 2 {
            let l = length(t, hop, max);
            Audio { planes: vec![vec![0.0; l]; ch as usize], desc: format!("{l} zero frames") }
        } else if wide && i == 0 {
            let segs: Vec<Seg> = (0..t.us(1, 4)).map(|_| { let l = t.us(1, (max / 4).min(350 * hop)); segment(t, ch, rate, l, false) }).collect();
            Audio { planes: render(&segs, ch, f), desc: describe(&segs) }
        } else {
            audio(t, ch, rate, f, max, 2, true)
        };
        left -= a.frames();
        total += a.frames();
        cx.note(|| format!("add {f:?} planar={planar} {}", a.desc));
        sut::feed(&mut e, f, planar, &refs(&a.planes)).map_err(|e| format!("add: {e:?}"))?;
        m.add(&refs(&a.planes));
        // change of weights between blocks, among used roles
        if t.chance(1, 10) {
            let c = t.us(0, ch as usize - 1);
            if m.map[c] != 0 {
                let r = used_role(t, ch);
                cx.note(|| format!("set_channel({c}, {r})"));
                e.set_channel(c as u32, sut::chan(r)).map_err(|e| format!("set_channel: {e:?}"))?;
                m.set_channel(c as u32, r);
            }
        }
        let mut ws = vec![1, m.window as u32];
        for _ in 0..2 {
            ws.push(match t.weighted(&[1, 2]) {
                0 => t.pick(&[100u32, 400, 3000, 250, 1000]),
                _ => t.int(1, m.window as u64) as u32,
            });
        }
        sut::check_windows(&e, &m, &ws).map_err(|x| format!("after {total} frames: {x}"))?;
        if m.peak_in == 0.0 {
            ensure!(e.loudness_momentary() == Ok(f64::NEG_INFINITY), "digital silence reads {:?}", e.loudness_momentary());
            ensure!(e.loudness_window(m.window as u32) == Ok(f64::NEG_INFINITY), "digital silence reads {:?} over the window", e.loudness_window(m.window as u32));
            if has(mode, S) {
                ensure!(e.loudness_shortterm() == Ok(f64::NEG_INFINITY), "digital silence reads {:?} short-term", e.loudness_shortterm());
            }
            cx.label("all silent");
        }
        if let Ok(l) = e.loudness_momentary() {
            if l.is_finite() && l > -150.0 {
                cx.nontrivial = true;
            }
        }
        cx.count("positions checked", 1);
    }
    cx.label_if(total > m.window_frames(m.window as u32) * 2, "buffer wrapped more than twice");
    cx.label_if(m.window > 65_535 && total > m.window_frames(65_536), "more than 65536 ms in the window");
    cx.label_if(total % hop != 0, "ended inside a block");
    cx.label_if(rate % 10 >= 5, "100 ms rounds up");
    cx.label_if(ch > 8, "more than 8 channels");
    Ok(())
}
