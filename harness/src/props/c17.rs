//! C17: the C API against the crate's own analyzer and the shipped header.
use crate::engine::*;
use crate::ffi::*;
use crate::gen::{self, Fmt};
use crate::ops::*;
use crate::sut;
use crate::tape::Tape;
use crate::{ensure, fail};
use ebur128::{Channel, EbuR128, Error, Mode};

pub const PROP: Prop = Prop {
    id: "C17",
    quick: 30_000,
    thorough: 1_500_000,
    rule: "a history of C calls on up to three instances, compiled against the shipped header, next to the same calls on analyzers; non-trivial: audio was added through C and at least one call was answered with an error or no-change status",
    technique: "stateful differential property-based testing (C entry points against the Rust methods)",
    assumptions: &["only enumerator values of the header are passed as channel roles", "histories longer than 2^32 ms only at the default setting"],
    run,
};

const SENT: f64 = 12345.678;

thread_local! {
    static FENCE: Option<Fence> = Fence::new();
}
/// Calls `f` with the values next to an inaccessible page, before which (or after which) they end
/// (start), so that it can read and write no others.
fn fenced<T: Copy, Z>(v: &[T], at_end: bool, f: impl FnOnce(*mut T) -> Z) -> Z {
    FENCE.with(|x| match x.as_ref().and_then(|x| x.put(v, at_end)) {
        Some(p) => f(p),
        None => f(v.to_vec().as_mut_ptr()),
    })
}

fn st(e: Error) -> i32 {
    match e {
        Error::NoMem => 1,
        Error::InvalidMode => 2,
        Error::InvalidChannelIndex => 3,
    }
}
fn eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

struct Pair {
    c: *mut CState,
    r: EbuR128,
    mode: u8,
    tr: Track,
    fresh_history: bool,
}
impl Drop for Pair {
    fn drop(&mut self) {
        unsafe { hc_destroy(&mut self.c) }
    }
}

fn abi() -> R {
    let f = |i: i32| unsafe { abi_facts(i) };
    for i in 0..32u8 {
        let v = sut::chan(i) as i32 as i64;
        ensure!(f(i as i32) == v, "header enumerator {i} is {}, Channel::{:?} is {v}", f(i as i32), sut::chan(i));
    }
    for (i, c) in [(32, Channel::Left), (33, Channel::Right), (34, Channel::Center), (35, Channel::LeftSurround), (36, Channel::RightSurround)] {
        ensure!(f(i) == c as i32 as i64, "header alias {i} is {}, {c:?} is {}", f(i), c as i32);
    }
    let want = [0, st(Error::NoMem), st(Error::InvalidMode), st(Error::InvalidChannelIndex), 4];
    for (i, w) in want.iter().enumerate() {
        ensure!(f(40 + i as i32) == *w as i64, "header error {i} is {}", f(40 + i as i32));
        if i > 0 && i < 4 {
            let e = [Error::NoMem, Error::InvalidMode, Error::InvalidChannelIndex][i - 1];
            ensure!(i32::from(e) == *w, "error {e:?} converts to {}", i32::from(e));
        }
    }
    for (i, m) in [Mode::M, Mode::S, Mode::I, Mode::LRA, Mode::SAMPLE_PEAK, Mode::TRUE_PEAK, Mode::HISTOGRAM].iter().enumerate() {
        ensure!(f(50 + i as i32) == m.bits() as i64, "header mode {i} is {}, {m:?} is {}", f(50 + i as i32), m.bits());
    }
    let (mut a, mut b, mut c) = (0, 0, 0);
    unsafe { hc_get_version(&mut a, &mut b, &mut c) };
    ensure!((a as i64, b as i64, c as i64) == (f(70), f(71), f(72)), "version {a}.{b}.{c}, header says {}.{}.{}", f(70), f(71), f(72));
    Ok(())
}

fn ints(t: &mut Tape) -> u64 {
    // sample rates at and beyond every limit
    match t.weighted(&[3, 2]) {
        0 => t.pick(&[0u64, 15, 2822401, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 32) + 48000, (1 << 33) + 44100, u64::MAX, 1 << 63, (5 << 32) + 8000]),
        _ => (t.int(1, 1 << 20) << 32) + t.pick(&[0u64, 16, 48000, 8000, 2822400]),
    }
}

fn run(t: &mut Tape, cx: &mut Ctx) -> R {
    abi()?;
    // invalid construction
    if t.chance(1, 3) {
        let (mut c, mut r, mut m) = (2u32, 48000u64, 127i32);
        match t.us(0, 2) {
            0 => c = t.pick(&[0u32, 65, 100, u32::MAX, 1 << 31]),
            1 => r = ints(t),
            _ => m = t.pick(&[0i32, 64, 32, 16, 2, 4, 8, 80, 126]),
        }
        cx.note(|| format!("ebur128_init({c}, {r}, {m})"));
        let p = unsafe { hc_init(c, r, m) };
        if !p.is_null() {
            let mut p = p;
            unsafe { hc_destroy(&mut p) };
            fail!("ebur128_init({c}, {r}, {m}) succeeded");
        }
        cx.label("invalid construction");
    }
    unsafe {
        hc_destroy(std::ptr::null_mut());
        let mut n: *mut CState = std::ptr::null_mut();
        hc_destroy(&mut n);
        ensure!(n.is_null(), "destroying a null handle changed it");
    }
    let k = t.weighted(&[6, 2, 1]) + 1;
    let mut ps: Vec<Pair> = vec![];
    for _ in 0..k {
        let (ch, rate, mode) = (gen::channels(t), if t.chance(1, 5) { gen::any_rate(t) } else { gen::low_rate(t) }, gen::mode(t));
        cx.note(|| format!("ebur128_init({ch}, {rate}, {mode:#04x})"));
        let c = unsafe { hc_init(ch, rate as u64, mode as i32) };
        ensure!(!c.is_null(), "ebur128_init({ch}, {rate}, {mode}) returned null");
        let r = match sut::new(ch, rate, mode) {
            Ok(r) => r,
            Err(e) => fail!("new: {e:?}"),
        };
        ps.push(Pair { c, r, mode, tr: Track::new(ch, rate, mode, 30_000), fresh_history: true });
    }
    let mut added = false;
    let mut refused = false;
    let n = t.us(1, 14);
    for _ in 0..n {
        let i = if k > 1 { t.us(0, k - 1) } else { 0 };
        step(t, cx, &mut ps[i], &mut added, &mut refused)?;
        let p = &ps[i];
        fields(p)?;
        queries(t, p, &mut refused)?;
        if t.chance(1, 4) {
            multiple(t, &ps)?;
        }
    }
    for p in &mut ps {
        unsafe { hc_destroy(&mut p.c) };
        ensure!(p.c.is_null(), "destroying did not clear the handle");
    }
    cx.label_if(added, "audio added");
    cx.label_if(refused, "error or no-change status");
    cx.nontrivial = added && refused;
    Ok(())
}

fn fields(p: &Pair) -> R {
    let (m, c, r) = unsafe { (hc_mode(p.c), hc_channels(p.c), hc_samplerate(p.c)) };
    ensure!(m == p.mode as i32 && c == p.r.channels() && r == p.r.rate() as u64, "state fields mode {m} channels {c} rate {r}, expected {} {} {}", p.mode, p.r.channels(), p.r.rate());
    Ok(())
}

fn step(t: &mut Tape, cx: &mut Ctx, p: &mut Pair, added: &mut bool, refused: &mut bool) -> R {
    let c = p.c;
    let mix = Mix { seed: 0, map: 0, reset: 0, query: 0, stale: true, wild: true, chan: 3, change: 2, window: 3, history: 3, ..MIX };
    let check = |what: String, got: i32, want: i32, refused: &mut bool| -> R {
        ensure!(got == want, "{what} returned {got}, expected {want}");
        if got != 0 {
            *refused = true;
        }
        Ok(())
    };
    match t.weighted(&[10, 2, 2, 2, 1, 1]) {
        0 => {
            let op = p.tr.op(t, &mix);
            cx.note(|| op.show());
            let (got, want) = match &op {
                Op::Add { fmt, planes, .. } => {
                    let n = planes[0].len();
                    let il = sut::interleave(&gen::refs(planes));
                    let end = t.chance(2, 3);
                    let g = unsafe {
                        match fmt {
                            Fmt::I16 => fenced(&sut::to_i16(&il), end, |p| hc_add_short(c, p, n)),
                            Fmt::I32 => fenced(&sut::to_i32(&il), end, |p| hc_add_int(c, p, n)),
                            Fmt::F32 => fenced(&sut::to_f32(&il), end, |p| hc_add_float(c, p, n)),
                            Fmt::F64 => fenced(&il, end, |p| hc_add_double(c, p, n)),
                        }
                    };
                    *added |= n > 0;
                    (g, apply(&mut p.r, &op))
                }
                Op::SetChannel(i, r) => (unsafe { hc_set_channel(c, *i, *r as i32) }, apply(&mut p.r, &op)),
                Op::Change(ch, r) => {
                    let same = (p.r.channels(), p.r.rate()) == (*ch, *r);
                    let g = unsafe { hc_change_parameters(c, *ch, *r as u64) };
                    let w = apply(&mut p.r, &op);
                    if same {
                        check(op.show(), g, 4, refused)?;
                        return Ok(());
                    }
                    (g, w)
                }
                Op::Window(w) => {
                    let before = p.r.max_window();
                    let g = unsafe { hc_set_max_window(c, *w as u64) };
                    let r = apply(&mut p.r, &op);
                    if r.is_ok() && p.r.max_window() == before {
                        check(op.show(), g, 4, refused)?;
                        cx.label("window unchanged");
                        return Ok(());
                    }
                    (g, r)
                }
                Op::History(h) => {
                    let before = p.r.max_history();
                    let g = unsafe { hc_set_max_history(c, *h as u64) };
                    let r = apply(&mut p.r, &op);
                    p.fresh_history = false;
                    if r.is_ok() && p.r.max_history() == before {
                        check(op.show(), g, 4, refused)?;
                        cx.label("history unchanged");
                        return Ok(());
                    }
                    (g, r)
                }
                _ => return Ok(()),
            };
            check(op.show(), got, want.err().map_or(0, st), refused)
        }
        1 => {
            // roles: indices beyond the channels, dual mono on more than one
            let i = t.pick(&[0u32, 1, 63, 64, u32::MAX, p.r.channels(), p.r.channels() - 1]);
            if t.chance(1, 4) {
                // no value of enum channel
                let v = t.pick(&[32i32, -1, 33, 255, 256, 257, i32::MAX, i32::MIN, 65537]);
                cx.note(|| format!("set_channel({i}, {v})"));
                let got = unsafe { hc_set_channel(c, i, v) };
                return check(format!("set_channel({i}, {v})"), got, st(Error::InvalidChannelIndex), refused);
            }
            let v = t.pick(&[6u8, 6, 1, 4, 31, 30, 0]);
            cx.note(|| format!("set_channel({i}, {v})"));
            let want = p.r.set_channel(i, sut::chan(v));
            p.tr.note(&Op::SetChannel(i, v));
            let got = unsafe { hc_set_channel(c, i, v as i32) };
            check(format!("set_channel({i}, {v})"), got, want.err().map_or(0, st), refused)
        }
        2 => {
            // parameters out of range or the same
            let (mut ch, mut r) = (p.r.channels(), p.r.rate() as u64);
            match t.us(0, 3) {
                0 => {}
                1 => ch = t.pick(&[0u32, 65, 1000, u32::MAX]),
                2 => r = ints(t),
                _ => r += (t.int(1, 100)) << 32,
            }
            cx.note(|| format!("change_parameters({ch}, {r})"));
            let want = if (ch, r) == (p.r.channels(), p.r.rate() as u64) { 4 } else { 1 };
            let got = unsafe { hc_change_parameters(c, ch, r) };
            check(format!("change_parameters({ch}, {r})"), got, want, refused)
        }
        3 => {
            // settings out of range
            if t.chance(1, 2) {
                let w = t.pick(&[u32::MAX as u64 + 1, (1 << 32) + 3000, u64::MAX, (1 << 40) + 400]);
                cx.note(|| format!("set_max_window({w})"));
                let got = unsafe { hc_set_max_window(c, w) };
                check(format!("set_max_window({w})"), got, 1, refused)
            } else if p.fresh_history {
                cx.note(|| "set_max_history(ULONG_MAX)".into());
                let got = unsafe { hc_set_max_history(c, u64::MAX) };
                cx.label("history ULONG_MAX at default");
                check("set_max_history(ULONG_MAX) at the default".into(), got, 4, refused)
            } else {
                Ok(())
            }
        }
        4 => {
            // no audio at all
            cx.note(|| "add 0 frames from NULL".into());
            let got = unsafe {
                match t.us(0, 3) {
                    0 => hc_add_short(c, std::ptr::null(), 0),
                    1 => hc_add_int(c, std::ptr::null(), 0),
                    2 => hc_add_float(c, std::ptr::null(), 0),
                    _ => hc_add_double(c, std::ptr::null(), 0),
                }
            };
            cx.label("zero frames from NULL");
            check("adding zero frames from NULL".into(), got, 0, refused)
        }
        _ => {
            // a frame count whose sample count does not fit
            if p.r.channels() < 2 {
                return Ok(());
            }
            let n = t.pick(&[usize::MAX, usize::MAX / 2 + 1]);
            let one = [0.0f64; 128];
            cx.note(|| format!("add {n} frames"));
            let got = unsafe {
                match t.us(0, 3) {
                    0 => hc_add_short(c, one.as_ptr() as *const _, n),
                    1 => hc_add_int(c, one.as_ptr() as *const _, n),
                    2 => hc_add_float(c, one.as_ptr() as *const _, n),
                    _ => hc_add_double(c, one.as_ptr(), n),
                }
            };
            check(format!("adding {n} frames"), got, 1, refused)
        }
    }
}

fn compare(name: &str, got: i32, out: f64, want: Result<f64, Error>, refused: &mut bool) -> R {
    match want {
        Ok(v) => {
            ensure!(got == 0, "{name} returned {got}, expected success");
            ensure!(eq(out, v), "{name} gave {out}, the analyzer {v}");
        }
        Err(e) => {
            ensure!(got == st(e), "{name} returned {got}, expected {}", st(e));
            ensure!(eq(out, SENT), "{name} failed but wrote {out} to its output");
            *refused = true;
        }
    }
    Ok(())
}

fn queries(t: &mut Tape, p: &Pair, refused: &mut bool) -> R {
    let c = p.c;
    macro_rules! q {
        ($n:expr, $f:expr, $w:expr) => {{
            let mut o = [SENT; 3];
            let r = unsafe { $f(&mut o[1]) };
            compare($n, r, o[1], $w, refused)?;
            ensure!(o[0] == SENT && o[2] == SENT, "{} wrote beside its output: {o:?}", $n);
        }};
    }
    q!("loudness_global", |o| hc_global(c, o), p.r.loudness_global());
    q!("loudness_momentary", |o| hc_momentary(c, o), p.r.loudness_momentary());
    q!("loudness_shortterm", |o| hc_shortterm(c, o), p.r.loudness_shortterm());
    q!("loudness_range", |o| hc_range(c, o), p.r.loudness_range());
    q!("relative_threshold", |o| hc_relative_threshold(c, o), p.r.relative_threshold());
    let w = t.pick(&[400u64, 1, 50, 3000, 3001, 10000, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 32) + 400, u64::MAX]);
    let want = if w > u32::MAX as u64 { Err(Error::InvalidMode) } else { p.r.loudness_window(w as u32) };
    q!(&format!("loudness_window({w})"), |o| hc_window(c, w, o), want);
    let n = p.r.channels();
    for i in [0, n - 1, t.int(0, n as u64 - 1) as u32, t.pick(&[n, 64, u32::MAX, n + 1])] {
        q!(&format!("sample_peak({i})"), |o| hc_sample_peak(c, i, o), p.r.sample_peak(i));
        q!(&format!("prev_sample_peak({i})"), |o| hc_prev_sample_peak(c, i, o), p.r.prev_sample_peak(i));
        q!(&format!("true_peak({i})"), |o| hc_true_peak(c, i, o), p.r.true_peak(i));
        q!(&format!("prev_true_peak({i})"), |o| hc_prev_true_peak(c, i, o), p.r.prev_true_peak(i));
    }
    Ok(())
}

fn multiple(t: &mut Tape, ps: &[Pair]) -> R {
    let mut dummy = false;
    let n = t.us(0, ps.len() + 1);
    let pick: Vec<usize> = (0..n).map(|_| t.us(0, ps.len() - 1)).collect();
    let h: Vec<*mut CState> = pick.iter().map(|&i| ps[i].c).collect();
    let null = n == 0 && t.chance(1, 2);
    let end = t.chance(2, 3);
    let call = |f: unsafe extern "C" fn(*mut *mut CState, usize, *mut f64) -> i32, o: &mut f64| -> Result<i32, String> {
        if null {
            return Ok(unsafe { f(std::ptr::null_mut(), n, o) });
        }
        fenced(&h, end, |p| unsafe {
            let r = f(p, n, o);
            ensure!(std::slice::from_raw_parts(p, n) == &h[..], "combining changed the array of handles");
            Ok(r)
        })
    };
    let mut o = SENT;
    let r = call(hc_global_multiple, &mut o)?;
    compare(&format!("loudness_global_multiple of {pick:?}{}", if null { " (NULL)" } else { "" }), r, o, EbuR128::loudness_global_multiple(pick.iter().map(|&i| &ps[i].r)), &mut dummy)?;
    let mut o = SENT;
    let r = call(hc_range_multiple, &mut o)?;
    compare(&format!("loudness_range_multiple of {pick:?}{}", if null { " (NULL)" } else { "" }), r, o, EbuR128::loudness_range_multiple(pick.iter().map(|&i| &ps[i].r)), &mut dummy)
}

