//! C16: channel roles.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sut::{self, diff_parts, snap, SAME};
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{Channel, Error};

pub const PROP: Prop = Prop {
    id: "C16",
    quick: 10_000,
    thorough: 500_000,
    rule: "random channel maps with different content per channel, against the model, under permutation and with changed content of unused channels; non-trivial: at least two channels or a dual-mono/surround role carry signal",
    technique: "property-based testing against the weighted reference model plus metamorphic relations (permutation, unused-channel invariance)",
    assumptions: &[],
    run,
};

fn weight_of(c: Channel) -> f64 {
    match c {
        Channel::Unused => 0.0,
        Channel::LeftSurround | Channel::RightSurround | Channel::Mp060 | Channel::Mm060 | Channel::Mp090 | Channel::Mm090 => 1.41,
        Channel::DualMono => 2.0,
        _ => 1.0,
    }
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let ch = if t.chance(1, 3) { t.enumerated(64) as u32 + 1 } else { channels(t) };
    let rate = if t.chance(1, 5) { any_rate(t) } else { low_rate(t) };
    let mode = t.pick(&[LRA | I, 127, 63, I, S]);
    let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode);
    m.do_tp = false;
    let dm: Vec<Channel> = default_map(ch).iter().map(|&r| sut::chan(r)).collect();
    ensure!(e.channel_map() == &dm[..], "default map for {ch} channels is {:?}", e.channel_map());
    // assign roles, with rejected attempts in between
    let style = t.weighted(&[1, 3, 3]);
    if style > 0 {
        let mp = map(t, ch);
        if style == 1 {
            let cm: Vec<_> = mp.iter().map(|&r| sut::chan(r)).collect();
            ensure!(e.set_channel_map(&cm).is_ok(), "map {cm:?} rejected");
            m.set_map(&mp);
        } else {
            for (i, &r) in mp.iter().enumerate() {
                ensure!(e.set_channel(i as u32, sut::chan(r)).is_ok(), "set_channel({i}, {:?}) rejected", sut::chan(r));
                m.set_channel(i as u32, r);
            }
        }
    }
    for _ in 0..t.us(0, 3) {
        let before = e.channel_map().to_vec();
        let r = match t.us(0, 3) {
            0 => e.set_channel(ch + t.int(0, 5) as u32, Channel::Left),
            1 => {
                if ch == 1 {
                    continue;
                }
                e.set_channel(t.int(0, ch as u64 - 1) as u32, Channel::DualMono)
            }
            2 => {
                let mut v = before.clone();
                v.iter_mut().for_each(|c| *c = Channel::Center);
                if t.chance(1, 2) && v.len() > 1 {
                    v.pop();
                } else {
                    v.push(Channel::Left);
                }
                e.set_channel_map(&v)
            }
            _ => {
                if ch == 1 {
                    continue;
                }
                let mut v: Vec<Channel> = before.iter().map(|_| Channel::Right).collect();
                let i = t.us(0, ch as usize - 1);
                v[i] = Channel::DualMono;
                e.set_channel_map(&v)
            }
        };
        ensure!(r == Err(Error::InvalidChannelIndex), "an invalid role assignment returned {r:?}");
        ensure!(e.channel_map() == &before[..], "a rejected role assignment changed the map to {:?}", e.channel_map());
        cx.label("rejected assignment");
    }
    let cm = e.channel_map().to_vec();
    let want: Vec<Channel> = m.map.iter().map(|&r| sut::chan(r)).collect();
    ensure!(cm == want, "channel map {cm:?}, expected {want:?}");
    for (i, &r) in m.map.iter().enumerate() {
        ensure!(weight(r) == weight_of(cm[i]), "harness: weights");
    }
    let f = fmt(t);
    let planar = t.chance(1, 2);
    let a = audio(t, ch, rate, f, max_frames(ch, rate, 60_000, 45), 2, false);
    cx.note(|| format!("ch {ch} rate {rate} mode {mode:#04x} map {:?} {f:?} {}", m.map, a.desc));
    sut::feed(&mut e, f, planar, &refs(&a.planes)).map_err(|e| format!("{e:?}"))?;
    m.add(&refs(&a.planes));
    let amb = sut::check_all(&e, &m, &[400, 100])?;
    cx.count("gated results not judged", amb);
    let s = snap(&e);
    // permutation
    if ch > 1 {
        let mut perm: Vec<usize> = (0..ch as usize).collect();
        for i in (1..perm.len()).rev() {
            let j = t.us(0, i);
            perm.swap(i, j);
        }
        let mut p2 = crate::ops::made(t, cx, ch, rate, mode)?;
        p2.set_channel_map(&perm.iter().map(|&i| cm[i]).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
        let pl: Vec<&[f64]> = perm.iter().map(|&i| &a.planes[i][..]).collect();
        sut::feed(&mut p2, f, !planar, &pl).map_err(|e| format!("{e:?}"))?;
        let s2 = snap(&p2);
        // summation order differs: a block exactly at a gate or bin edge may move
        if amb == 0 {
            let mut x = s2.clone();
            x.map = s.map.clone();
            for (new, &old) in perm.iter().enumerate() {
                ensure!(s2.sp[new] == s.sp[old], "sample peak moves with its channel: {:?} vs {:?}", s2.sp[new], s.sp[old]);
            }
            x.sp = s.sp.clone();
            x.psp = s.psp.clone();
            x.tp = s.tp.clone();
            x.ptp = s.ptp.clone();
            if let Some(d) = diff_parts(&s, &x, sut::Tol { lu: 1e-7, ..SAME }, false, true) {
                fail!("channels in another order {perm:?}: {d}");
            }
            cx.label("permuted");
        }
    }
    // unused channels never matter
    if m.map.contains(&0) && a.frames() > 0 {
        let mut planes = a.planes.clone();
        let w = wave(t, a.frames(), rate);
        let lvl = t.pick(&[1.0, 0.1, 0.0]);
        for c in 0..ch as usize {
            if m.map[c] == 0 {
                planes[c].clear();
                render_wave(&w, lvl, a.frames(), &mut planes[c], f);
            }
        }
        let mut u = crate::ops::made(t, cx, ch, rate, mode)?;
        u.set_channel_map(&cm).map_err(|e| format!("{e:?}"))?;
        sut::feed(&mut u, f, planar, &refs(&planes)).map_err(|e| format!("{e:?}"))?;
        let mut x = snap(&u);
        for c in 0..ch as usize {
            if m.map[c] == 0 {
                x.sp[c] = s.sp[c];
                x.psp[c] = s.psp[c];
                x.tp[c] = s.tp[c];
                x.ptp[c] = s.ptp[c];
            }
        }
        if let Some(d) = diff_parts(&s, &x, sut::Tol { lu: 0.0, ..SAME }, true, true) {
            fail!("content of unused channels matters: {d}");
        }
        cx.label("unused channels replaced");
    }
    let live = (0..ch as usize).filter(|&c| m.map[c] != 0 && a.planes[c].iter().any(|&v| v != 0.0)).count();
    cx.nontrivial = live >= 2 || (0..ch as usize).any(|c| weight(m.map[c]) > 1.0 && a.planes[c].iter().any(|&v| v != 0.0));
    cx.label_if(m.map.contains(&6), "dual mono");
    cx.label_if(ch > 8, "more than 8 channels");
    Ok(())
}
