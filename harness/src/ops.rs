//! Operation histories shared by the stateful properties.

use crate::gen::{self, Fmt, Planes};
use crate::model::*;
use crate::sut;
use crate::tape::Tape;
use ebur128::{EbuR128, Error};

#[derive(Clone)]
pub enum Op {
    Add { fmt: Fmt, planar: bool, planes: Planes, desc: String },
    Seed { fmt: Fmt, planar: bool, planes: Planes, desc: String },
    SetChannel(u32, u8),
    SetMap(Vec<u8>),
    Change(u32, u32),
    Window(u32),
    History(u32),
    Reset,
    Query,
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Add { fmt, planar, planes, desc } => format!("add {fmt:?}{} {} frames: {desc}", if *planar { " planar" } else { "" }, planes.first().map_or(0, |p| p.len())),
            Op::Seed { fmt, planar, planes, desc } => format!("seed {fmt:?}{} {} frames: {desc}", if *planar { " planar" } else { "" }, planes.first().map_or(0, |p| p.len())),
            Op::SetChannel(c, r) => format!("set_channel({c}, {:?})", sut::chan(*r)),
            Op::SetMap(m) => format!("set_channel_map({m:?})"),
            Op::Change(c, r) => format!("change_parameters({c}, {r})"),
            Op::Window(w) => format!("set_max_window({w})"),
            Op::History(h) => format!("set_max_history({h})"),
            Op::Reset => "reset".into(),
            Op::Query => "query all".into(),
        }
    }
}

pub fn apply(e: &mut EbuR128, op: &Op) -> Result<(), Error> {
    match op {
        Op::Add { fmt, planar, planes, .. } => sut::feed_via(e, sut::Via::Add, *fmt, *planar, &gen::refs(planes)),
        Op::Seed { fmt, planar, planes, .. } => sut::feed_via(e, sut::Via::Seed, *fmt, *planar, &gen::refs(planes)),
        Op::SetChannel(c, r) => e.set_channel(*c, sut::chan(*r)),
        Op::SetMap(m) => e.set_channel_map(&m.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()),
        Op::Change(c, r) => e.change_parameters(*c, *r),
        Op::Window(w) => e.set_max_window(*w),
        Op::History(h) => e.set_max_history(*h),
        Op::Reset => {
            e.reset();
            Ok(())
        }
        Op::Query => {
            let _ = sut::snap(e);
            Ok(())
        }
    }
}

/// Returns whether the operation is expected to succeed.
pub fn apply_model(m: &mut Model, op: &Op) -> bool {
    match op {
        Op::Add { planes, .. } => m.add(&gen::refs(planes)),
        Op::Seed { planes, .. } => m.seed(&gen::refs(planes)),
        Op::SetChannel(c, r) => return m.set_channel(*c, *r),
        Op::SetMap(v) => return m.set_map(v),
        Op::Change(c, r) => return m.change(*c, *r),
        Op::Window(w) => m.set_window(*w),
        Op::History(h) => m.set_history(*h),
        Op::Reset => m.reset(),
        Op::Query => {}
    }
    true
}

/// Relative frequencies of the operation kinds.
#[derive(Clone, Copy)]
pub struct Mix {
    pub add: u64,
    pub seed: u64,
    pub chan: u64,
    pub map: u64,
    pub change: u64,
    pub window: u64,
    pub history: u64,
    pub reset: u64,
    pub query: u64,
    pub wild: bool,
    /// Allow making a channel used again whose buffered audio is stale (unspecified values).
    pub stale: bool,
    /// Allow unused channels.
    pub unused: bool,
    /// Rates to change to.
    pub rate: fn(&mut Tape) -> u32,
}
pub const MIX: Mix = Mix { add: 10, seed: 1, chan: 1, map: 1, change: 1, window: 1, history: 1, reset: 1, query: 1, wild: false, stale: false, unused: true, rate: gen::low_rate };

/// Tracks the settings while generating.
#[derive(Clone)]
pub struct Track {
    pub ch: u32,
    pub rate: u32,
    pub mode: u8,
    pub map: Vec<u8>,
    pub window: usize,
    /// 0: no used audio buffered, 1: used audio buffered, 2: buffered audio is stale
    state: Vec<u8>,
    pub budget: usize,
}
impl Track {
    pub fn new(ch: u32, rate: u32, mode: u8, budget: usize) -> Self {
        Track { ch, rate, mode, map: default_map(ch), window: if has(mode, S) { 3000 } else { 400 }, state: vec![0; ch as usize], budget }
    }
    fn fed(&mut self) {
        for c in 0..self.ch as usize {
            self.state[c] = match (self.map[c] != 0, self.state[c]) {
                (true, _) => 1,
                (false, 1) => 2,
                (false, s) => s,
            };
        }
    }
    pub fn note(&mut self, op: &Op) {
        match op {
            Op::Add { planes, .. } => {
                if !planes[0].is_empty() {
                    self.fed()
                }
            }
            Op::SetChannel(c, r) => {
                if *c < self.ch && (*r != 6 || self.ch == 1) {
                    self.map[*c as usize] = *r
                }
            }
            Op::SetMap(m) => {
                if m.len() == self.ch as usize && (self.ch == 1 || !m.contains(&6)) {
                    self.map = m.clone()
                }
            }
            Op::Change(c, r) => {
                if (*c, *r) != (self.ch, self.rate) {
                    if *c != self.ch {
                        self.map = default_map(*c);
                    }
                    self.ch = *c;
                    self.rate = *r;
                    self.state = vec![0; *c as usize];
                }
            }
            Op::Window(w) => {
                let w = (*w as usize).max(if has(self.mode, S) { 3000 } else { 400 });
                if w != self.window {
                    self.window = w;
                    self.state.fill(0);
                }
            }
            Op::Reset => self.state.fill(0),
            _ => {}
        }
    }
    fn role(&self, t: &mut Tape, c: usize, mix: &Mix) -> u8 {
        let r = if mix.unused { gen::role(t, self.ch) } else { gen::used_role(t, self.ch) };
        if !mix.stale && self.state[c] == 2 {
            0
        } else {
            r
        }
    }
    pub fn op(&mut self, t: &mut Tape, mix: &Mix) -> Op {
        let k = t.weighted(&[mix.add, mix.query, mix.seed, mix.chan, mix.map, mix.change, mix.window, mix.history, mix.reset]);
        let op = match k {
            0 | 2 => {
                let fmt = gen::fmt(t);
                let planar = t.chance(1, 2);
                let hops = if t.chance(1, 6) { 80 } else { 25 };
                let max = gen::max_frames(self.ch, self.rate, self.budget, hops).min(self.budget / self.ch as usize);
                let max = if k == 2 { max.min(self.rate as usize / 5) } else { max };
                let a = gen::audio(t, self.ch, self.rate, fmt, max, 3, mix.wild);
                self.budget = self.budget.saturating_sub(a.frames() * self.ch as usize);
                if k == 0 {
                    Op::Add { fmt, planar, planes: a.planes, desc: a.desc }
                } else {
                    Op::Seed { fmt, planar, planes: a.planes, desc: a.desc }
                }
            }
            1 => Op::Query,
            3 => {
                let c = t.us(0, self.ch as usize - 1);
                Op::SetChannel(c as u32, self.role(t, c, mix))
            }
            4 => Op::SetMap((0..self.ch as usize).map(|c| self.role(t, c, mix)).collect()),
            5 => {
                let c = match t.weighted(&[3, 2, 1]) {
                    0 => self.ch,
                    1 => t.int(1, 8) as u32,
                    _ => gen::channels(t),
                };
                let r = if t.chance(1, 2) { (mix.rate)(t) } else { self.rate };
                Op::Change(c, r)
            }
            6 => Op::Window(match t.weighted(&[12, 12, 8, if self.rate as u64 * self.ch as u64 <= 16_000 { 1 } else { 0 }]) {
                0 => t.pick(&[400u32, 3000, 100, 1000, 5000, 3001, 401, 10000]),
                1 => t.int(0, 6000) as u32,
                2 => self.window as u32,
                _ => t.pick(&[65_536u32, 66_000, 70_000, 131_072]),
            }),
            7 => Op::History(match t.weighted(&[3, 3, 1]) {
                0 => t.pick(&[3000u32, 400, 1000, 0, 6000, 2999, 3001, 9000, 100000, u32::MAX]),
                1 => t.int(0, 20000) as u32,
                _ => t.int(0, u32::MAX as u64) as u32,
            }),
            _ => Op::Reset,
        };
        self.note(&op);
        op
    }
}
pub fn history(t: &mut Tape, tr: &mut Track, mix: &Mix, max_ops: usize) -> Vec<Op> {
    let n = t.us(1, max_ops);
    (0..n).map(|_| tr.op(t, mix)).collect()
}

/// Settings that a measurement must take in its stride: roles, a larger window, a history limit that
/// cuts nothing. Applied to the instance and to the model.
pub fn dress(t: &mut Tape, e: &mut EbuR128, m: &mut Model, cx: &mut crate::engine::Ctx) -> Result<(), String> {
    let d = Dress::draw(t, m.ch, m.rate);
    d.apply(e)?;
    d.apply_model(m);
    cx.note(|| format!("settings {d:?}"));
    Ok(())
}
#[derive(Clone, Debug)]
pub struct Dress {
    pub map: Option<Vec<u8>>,
    pub window: Option<u32>,
    pub history: Option<u32>,
}
impl Dress {
    pub fn draw(t: &mut Tape, ch: u32, rate: u32) -> Self {
        let map = if t.chance(1, 3) {
            let mut v: Vec<u8> = (0..ch).map(|_| gen::used_role(t, ch)).collect();
            if ch > 1 && t.chance(1, 3) {
                let c = t.us(0, ch as usize - 1);
                v[c] = 0;
            }
            Some(v)
        } else {
            None
        };
        let window = if t.chance(1, 4) {
            let w = match t.weighted(&[2, 2]) {
                0 => t.pick(&[400u32, 1000, 3000, 3100, 4000, 5000, 6000, 401, 3001]),
                _ => t.int(400, 8000) as u32,
            };
            if w as u64 * rate as u64 / 1000 * ch as u64 <= 2_000_000 {
                Some(w)
            } else {
                None
            }
        } else {
            None
        };
        let history = if t.chance(1, 5) { Some(t.pick(&[u32::MAX, 100_000_000, 86_400_000, 10_000_000])) } else { None };
        Dress { map, window, history }
    }
    pub fn apply(&self, e: &mut EbuR128) -> Result<(), String> {
        if let Some(m) = &self.map {
            e.set_channel_map(&m.iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|x| format!("set_channel_map({m:?}): {x:?}"))?;
        }
        if let Some(w) = self.window {
            e.set_max_window(w).map_err(|x| format!("set_max_window({w}): {x:?}"))?;
        }
        if let Some(h) = self.history {
            e.set_max_history(h).map_err(|x| format!("set_max_history({h}): {x:?}"))?;
        }
        Ok(())
    }
    pub fn apply_model(&self, m: &mut Model) {
        if let Some(v) = &self.map {
            m.set_map(v);
        }
        if let Some(w) = self.window {
            m.set_window(w);
        }
        if let Some(h) = self.history {
            m.set_history(h);
        }
    }
}

/// How an instance came to its settings: created with them, or an older instance, used for something
/// else, reconfigured and reset. Both are to behave alike (C11, C12).
#[derive(Default)]
pub struct Wear(Option<Past>);
struct Past {
    ch: u32,
    rate: u32,
    before: Vec<Op>,
    window: bool,
    order: u8,
    map: bool,
}
impl Wear {
    pub fn none() -> Self {
        Wear(None)
    }
    pub fn draw(t: &mut Tape, cx: &mut crate::engine::Ctx, ch: u32, rate: u32, mode: u8) -> Self {
        if !t.chance(1, 6) || !has(mode, M) {
            return Wear(None);
        }
        let ch0 = match t.weighted(&[3, 3, 1]) {
            0 => ch,
            1 => t.int(1, 8) as u32,
            _ => gen::channels(t),
        };
        let rate0 = if t.chance(1, 2) && rate <= 48_000 { rate } else { gen::low_rate(t) };
        let mut tr = Track::new(ch0, rate0, mode, 8_000);
        let mix = Mix { wild: true, stale: true, change: 0, window: if rate <= 9_000 && ch <= 8 { 1 } else { 0 }, history: 0, query: 1, seed: 2, reset: 1, ..MIX };
        let mut before = history(t, &mut tr, &mix, 5);
        if t.chance(1, 6) {
            let v = t.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e-310]);
            let n = t.us(1, 100);
            before.push(Op::Add { fmt: Fmt::F64, planar: false, planes: vec![vec![v; n]; ch0 as usize], desc: format!("of {v}") });
        }
        let p = Past { ch: ch0, rate: rate0, before, window: tr.window != if has(mode, S) { 3000 } else { 400 }, order: t.int(0, 5) as u8, map: tr.map != default_map(ch0) };
        cx.note(|| format!("an instance made by new({ch0}, {rate0}, {mode:#04x}), {}, then (order {}) change_parameters({ch}, {rate}), reset, set_max_window(minimum)", p.before.iter().map(|o| o.show()).collect::<Vec<_>>().join(", "), p.order));
        cx.label("older instance reconfigured and reset");
        Wear(Some(p))
    }
    pub fn make(&self, ch: u32, rate: u32, mode: u8) -> Result<EbuR128, String> {
        let p = match &self.0 {
            None => return sut::new(ch, rate, mode).map_err(|e| format!("new({ch}, {rate}, {mode:#04x}): {e:?}")),
            Some(p) => p,
        };
        let mut e = sut::new(p.ch, p.rate, mode).map_err(|e| format!("new({}, {}, {mode:#04x}): {e:?}", p.ch, p.rate))?;
        for op in &p.before {
            apply(&mut e, op).map_err(|x| format!("{}: {x:?}", op.show()))?;
        }
        for k in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p.order as usize] {
            match k {
                0 if (p.ch, p.rate) != (ch, rate) => e.change_parameters(ch, rate).map_err(|x| format!("change_parameters({ch}, {rate}): {x:?}"))?,
                1 => e.reset(),
                2 if p.window => e.set_max_window(0).map_err(|x| format!("set_max_window(0): {x:?}"))?,
                _ => {}
            }
        }
        if p.ch == ch && p.map {
            e.set_channel_map(&default_map(ch).iter().map(|&r| sut::chan(r)).collect::<Vec<_>>()).map_err(|x| format!("set_channel_map: {x:?}"))?;
        }
        Ok(e)
    }
}
/// An instance with these settings that has measured nothing.
pub fn made(t: &mut Tape, cx: &mut crate::engine::Ctx, ch: u32, rate: u32, mode: u8) -> Result<EbuR128, String> {
    Wear::draw(t, cx, ch, rate, mode).make(ch, rate, mode)
}
