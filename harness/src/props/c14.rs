//! C14: combining instances equals pooling their blocks.
use super::c03::{levels, render_levels};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ops::dress;
use crate::sut;
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{EbuR128, Error};

pub const PROP: Prop = Prop {
    id: "C14",
    quick: 40_000,
    thorough: 2_000_000,
    rule: "0 to 40 instances of different rates, layouts, lengths and levels, combined in random order; non-trivial: at least two instances with blocks and a judged result",
    technique: "property-based testing against the pooled reference model, plus metamorphic relations (order, repetition, identity)",
    assumptions: &["results with a block within 1e-6 (relative) of a gate or bin edge are not judged"],
    run,
};

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    let n = match t.weighted(&[6, 2, 1]) {
        0 => t.us(1, 6),
        1 => t.us(0, 2),
        _ => t.us(7, 40),
    };
    let storage = t.weighted(&[3, 3, 2]);
    let bad = t.chance(1, 12);
    let long = t.chance(1, 3);
    let mut es: Vec<EbuR128> = vec![];
    let mut ms: Vec<Model> = vec![];
    let bad_at = if bad && n > 0 { t.us(0, n - 1) } else { usize::MAX };
    let budget = 250_000 / n.max(1);
    for k in 0..n {
        let ch = t.int(1, 3) as u32;
        let rate = if n <= 6 && t.chance(1, 6) { any_rate(t).min(50_000) } else { low_rate(t) };
        let hop = (rate as usize + 5) / 10;
        let hist = match storage {
            0 => false,
            1 => true,
            _ => t.chance(1, 2),
        };
        let mut mode = I | LRA | if hist { HIST } else { 0 };
        if k == bad_at {
            mode = t.pick(&[M, S, I, M | HIST, I | S, SP]);
        }
        let mut e = crate::ops::made(t, cx, ch, rate, mode)?;
        let mut m = Model::new(ch, rate, mode);
        m.do_tp = false;
        dress(t, &mut e, &mut m, cx)?;
        let frames = budget / ch as usize;
        let mut lv = if long && t.chance(2, 3) {
            (0..t.us(1, 4)).map(|_| (t.us(10, 50) * hop, -t.f(5.0, 75.0))).collect()
        } else {
            let s = t.us(0, 16);
            levels(t, hop, s)
        };
        let mut tot = 0;
        lv.retain(|x| {
            tot += x.0;
            tot <= frames
        });
        cx.note(|| format!("instance {k}: ch {ch} rate {rate} mode {mode:#04x} levels {lv:?}"));
        if !lv.is_empty() {
            let p = render_levels(t, &lv, ch, rate, Fmt::F64);
            sut::feed(&mut e, Fmt::F64, t.chance(1, 2), &refs(&p)).map_err(|e| format!("{e:?}"))?;
            m.add(&refs(&p));
        }
        if t.chance(1, 6) {
            let h = t.int(400, 20_000) as u32;
            e.set_max_history(h).map_err(|e| format!("{e:?}"))?;
            m.set_history(h);
        }
        es.push(e);
        ms.push(m);
    }
    let has_i = ms.iter().all(|m| has(m.mode, I));
    let has_lra = ms.iter().all(|m| has(m.mode, LRA));
    let mixed = ms.iter().any(|m| has(m.mode, HIST)) && ms.iter().any(|m| !has(m.mode, HIST));
    let fl = ms.iter().map(|m| m.floor()).fold(0.0, f64::max);
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = t.us(0, i);
            v.swap(i, j);
        }
        v
    };
    // Global
    let g = EbuR128::loudness_global_multiple(es.iter());
    let g2 = EbuR128::loudness_global_multiple(order.iter().map(|&i| &es[i]));
    let copies = if t.chance(1, 12) { t.us(3, 700) } else { 2 };
    cx.note(|| format!("repeated {copies} times"));
    let g3 = EbuR128::loudness_global_multiple((0..copies).flat_map(|_| es.iter()));
    // some instances more often than others
    let bag: Vec<usize> = if n > 0 && t.chance(1, 2) { (0..t.us(1, 2 * n + 2)).map(|_| t.us(0, n - 1)).collect() } else { vec![] };
    cx.note(|| format!("combination with repetitions {bag:?}"));
    let mut judged = false;
    if !has_i {
        ensure!(g == Err(Error::InvalidMode) && g2 == Err(Error::InvalidMode), "an instance lacks mode I, but the combined global is {g:?}");
        cx.label("instance without mode I");
    } else {
        let stores: Vec<&Store> = ms.iter().map(|m| &m.blocks).collect();
        let r = gate(&stores);
        let close = |a: Result<f64, Error>, b: Result<f64, Error>| match (a, b) {
            (Ok(a), Ok(b)) => a == b || (a - b).abs() < 1e-7,
            _ => false,
        };
        if r.ambiguous {
            cx.label("global not judged");
        } else {
            match r.threshold {
                None => ensure!(g == Ok(f64::NEG_INFINITY), "no blocks, combined global {g:?}"),
                Some(_) => sut::check_loudness("combined global", g, r.energy / r.count as f64, fl, r.slack)?,
            }
            ensure!(close(g, g2), "combined global depends on the order: {g:?} vs {g2:?}");
            ensure!(close(g, g3), "combined global changes when every instance is repeated: {g:?} vs {g3:?}");
            if n == 1 {
                ensure!(close(g, es[0].loudness_global()), "single instance: combined {g:?}, own {:?}", es[0].loudness_global());
            }
            if !bag.is_empty() {
                let pick: Vec<&Store> = bag.iter().map(|&i| &ms[i].blocks).collect();
                let w = gate(&pick);
                let g4 = EbuR128::loudness_global_multiple(bag.iter().map(|&i| &es[i]));
                if !w.ambiguous {
                    match w.threshold {
                        None => ensure!(g4 == Ok(f64::NEG_INFINITY), "no blocks, combined global {g4:?}"),
                        Some(_) => sut::check_loudness("combined global with repetitions", g4, w.energy / w.count as f64, fl, w.slack)?,
                    }
                    cx.label("global with repetitions judged");
                }
            }
            judged = true;
            cx.label("global judged");
            cx.label_if(mixed, "global over both storage kinds");
        }
    }
    // Range
    let r1 = EbuR128::loudness_range_multiple(es.iter());
    let r2 = EbuR128::loudness_range_multiple(order.iter().map(|&i| &es[i]));
    let r3 = EbuR128::loudness_range_multiple((0..copies).flat_map(|_| es.iter()));
    if !has_lra || mixed {
        ensure!(r1 == Err(Error::InvalidMode) && r2 == Err(Error::InvalidMode), "{}, but the combined range is {r1:?} / {r2:?}", if mixed { "both storage kinds" } else { "an instance lacks mode LRA" });
        cx.label(if has_lra { "range over both storage kinds" } else { "instance without mode LRA" });
    } else {
        let stores: Vec<&Store> = ms.iter().map(|m| &m.shorts).collect();
        let want = range(&stores);
        let twice: Vec<&Store> = (0..copies).flat_map(|_| stores.iter().copied()).collect();
        let want3 = range(&twice);
        if want.ambiguous || want3.ambiguous {
            cx.label("range not judged");
        } else {
            for (name, got, w) in [("combined range", r1, want.lra), ("combined range in another order", r2, want.lra), ("combined range with every instance repeated", r3, want3.lra)] {
                match got {
                    Ok(v) if (v - w).abs() < 1e-6 + 10.0 * want.slack => {}
                    _ => fail!("{name}: {got:?}, expected {w}"),
                }
            }
            if n == 1 {
                let own = es[0].loudness_range();
                ensure!(own.is_ok() && (own.unwrap() - want.lra).abs() < 1e-6 + 10.0 * want.slack, "single instance: own range {own:?}, combined {r1:?}");
            }
            if !bag.is_empty() {
                let pick: Vec<&Store> = bag.iter().map(|&i| &ms[i].shorts).collect();
                let w = range(&pick);
                let r4 = EbuR128::loudness_range_multiple(bag.iter().map(|&i| &es[i]));
                if !w.ambiguous {
                    match r4 {
                        Ok(v) if (v - w.lra).abs() < 1e-6 + 10.0 * w.slack => {}
                        _ => fail!("combined range with repetitions: {r4:?}, expected {}", w.lra),
                    }
                }
            }
            judged = true;
            cx.label("range judged");
            cx.label_if(want.lra > 0.5, "range above 0.5 LU");
        }
    }
    if n == 0 {
        ensure!(g == Ok(f64::NEG_INFINITY) && r1 == Ok(0.0), "no instances: {g:?} {r1:?}");
        cx.label("no instances");
    }
    cx.nontrivial = judged && ms.iter().filter(|m| m.blocks.offered > 0).count() >= 2;
    cx.label_if(n > 16, "more than 16 instances");
    Ok(())
}
