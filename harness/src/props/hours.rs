//! Programmes of hours, made of long steady stretches: more values than narrow counters hold.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut;
use crate::tape::Tape;

/// `limits`: also draw history limits (exact storage).
pub fn run(t: &mut Tape, cx: &mut Ctx, modes: &[u8], limits: bool) -> R {
    let ch = if t.chance(1, 4) { 2u32 } else { 1 };
    let rate = t.pick(&[4000u32, 4005, 4001]);
    let hop = (rate as usize + 5) / 10;
    let mode = t.pick(modes);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x}"));
    let n = t.us(1, 4);
    let big = t.us(0, n - 1);
    // content that repeats every 100 ms
    let mut unit = vec![];
    render_wave(&Wave::Noise { seed: t.seed() }, 1.0, hop, &mut unit, Fmt::F64);
    let mut limited = false;
    for k in 0..n {
        if limits && t.chance(1, 2) {
            let h = match t.weighted(&[2, 2]) {
                0 => t.int(400, 8_000_000) as u32,
                _ => t.pick(&[6_553_600u32, 6_553_500, 100_000, 65_536, 70_000, 3_276_800, 25_600]),
            };
            cx.note(|| format!("set_max_history({h})"));
            e.set_max_history(h).map_err(|x| format!("{x:?}"))?;
            m.set_history(h);
        }
        let level = -t.f(8.0, 60.0);
        let a = 10f64.powf(level / 20.0);
        let tens = if k == big { if t.chance(1, 3) { t.us(6500, 7500) } else { t.us(10, 7500) } } else { t.us(0, 400) };
        let x: Vec<f64> = unit.iter().map(|v| v * a).collect();
        let planes: Planes = (0..ch).map(|_| x.clone()).collect();
        cx.note(|| format!("{} s of 100 ms noise repeated, {level:.2} dB", 4 + tens));
        // until everything is steady
        for _ in 0..40 {
            sut::feed(&mut e, Fmt::F64, true, &refs(&planes)).map_err(|x| format!("{x:?}"))?;
            m.add(&refs(&planes));
        }
        let per = t.pick(&[1usize, 10, 50]);
        let call: Vec<f64> = sut::interleave(&refs(&planes)).repeat(per);
        for _ in 0..tens * 10 / per {
            e.add_frames_f64(&call).map_err(|x| format!("{x:?}"))?;
        }
        let rest: Vec<f64> = sut::interleave(&refs(&planes)).repeat(tens * 10 % per);
        e.add_frames_f64(&rest).map_err(|x| format!("{x:?}"))?;
        m.repeat(tens);
        let at = |x: String| format!("after {} blocks: {x}", m.all_blocks.len().max(m.blocks.offered as usize));
        if has(mode, I) {
            if sut::check_gating(&e, &m).map_err(at)? == sut::Judge::Ok {
                cx.label("hours: gating judged");
            }
            limited |= !m.blocks.hist && (m.blocks.offered as usize) > m.blocks.list.len();
        }
        if has(mode, LRA) {
            if sut::check_range(&e, &m).map_err(at)? == sut::Judge::Ok {
                cx.label("hours: range judged");
            }
        }
        sut::check_windows(&e, &m, &[400]).map_err(at)?;
    }
    cx.label_if(m.blocks.offered > 65_536, "more than 65536 blocks");
    cx.label_if(limited, "hours: history limit in force");
    cx.nontrivial = true;
    Ok(())
}

/// Hours whose level keeps changing, at rates of some hundred Hz (they make it affordable).
pub fn varied(t: &mut Tape, cx: &mut Ctx, modes: &[u8], limits: bool) -> R {
    let ch = if t.chance(1, 5) { 2u32 } else { 1 };
    let rate = t.pick(&[400u32, 270, 401, 500, 540, 265, 395]);
    let mode = t.pick(modes);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    let secs = if t.chance(1, 3) { t.us(4000, 13_000) } else { t.us(30, 6000) } / ch as usize;
    let base = -t.f(8.0, 40.0);
    let spread = t.f(0.0, 40.0);
    let hold = t.us(1, 300) as f64 / 10.0;
    let seed = t.seed();
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) as f64 / (1u64 << 53) as f64
    };
    if limits {
        let h = t.int(400, secs as u64 * 1000) as u32;
        cx.note(|| format!("set_max_history({h})"));
        e.set_max_history(h).map_err(|x| format!("{x:?}"))?;
        m.set_history(h);
    }
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} {secs} s of noise at {base:.1}-0..{spread:.1} dB, held for {hold} s on average (seed {seed})"));
    let checks = t.us(1, 4);
    let mut next = secs / checks;
    let call = t.pick(&[1usize, 7, 10, 60]);
    let mut left = 0usize;
    let mut a = 1.0;
    let mut done = 0;
    while done < secs {
        let n = call.min(secs - done);
        let mut x = Vec::with_capacity(n * rate as usize);
        for _ in 0..n * rate as usize {
            if left == 0 {
                left = (rnd() * 2.0 * hold * rate as f64) as usize + 1;
                a = 10f64.powf((base - rnd() * spread) / 20.0);
            }
            left -= 1;
            x.push(a * (2.0 * rnd() - 1.0));
        }
        let mut planes = vec![x];
        if ch == 2 {
            let y = planes[0].iter().map(|v| v * 0.7).collect();
            planes.push(y);
        }
        sut::feed(&mut e, Fmt::F64, true, &refs(&planes)).map_err(|x| format!("{x:?}"))?;
        m.add(&refs(&planes));
        done += n;
        if done >= next {
            next += (secs / checks).max(1);
            let at = |x: String| format!("after {done} s: {x}");
            if has(mode, I) && sut::check_gating(&e, &m).map_err(at)? == sut::Judge::Ok {
                cx.label("varied hours: gating judged");
            }
            if has(mode, LRA) && sut::check_range(&e, &m).map_err(at)? == sut::Judge::Ok {
                cx.label("varied hours: range judged");
            }
            sut::check_windows(&e, &m, &[400]).map_err(at)?;
            if limits && t.chance(1, 2) {
                let h = t.int(400, secs as u64 * 1000) as u32;
                cx.note(|| format!("after {done} s: set_max_history({h})"));
                e.set_max_history(h).map_err(|x| format!("{x:?}"))?;
                m.set_history(h);
            }
        }
    }
    cx.label_if(secs > 4096, "more than 4096 short-term values");
    cx.nontrivial = true;
    Ok(())
}
