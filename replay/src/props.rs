//! Executable form of the properties: each case runs the real code on one generated input and compares
//! what it returns with the value the property states.
use crate::any::*;
use crate::ctx::*;
use crate::ensure;
use rasp::analysis::*;
use rasp::delay::*;
use rasp::traits::*;
use rasp::util::*;
use rasp::window::*;
use std::collections::VecDeque;

pub type Case = fn(&mut Ctx) -> R;
fn q<T: Sc>(p: &[f64]) -> Vec<f64> { p.iter().map(|x| T::of(*x).f()).collect() }

// ---------------------------------------------------------------- filters
fn c01<T: Sc>(c: &mut Ctx) -> R {
    let kind = [0, 1, 2, 3, 4][c.below(5)];
    let exact = c.chance(0.5);
    let mut f = Any::<T>::new(KINDS[kind], 0.0, 0);
    c.say(|| format!("{}<{}>::new()", KINDS[kind], T::NAME));
    let id = match kind { 0 => vec![1., 0.], 1 => vec![1., 0.], 2 => vec![1., 0., 0.], 3 => vec![1., 0., 0.], _ => vec![1., 0., 0., 0., 0.] };
    let mut p = id;
    let (mut x, mut y) = ([0.0f64; 3], [0.0f64; 3]);
    let tame = c.chance(0.5);
    let n = c.len(if tame { 20000 } else { 400 });
    let mode = if exact { 0 } else { 1 + c.below(4) };
    let p_set = if c.chance(0.5) { 0.1 } else { 0.0 };
    for i in 0..n {
        if i == 0 || c.chance(p_set) {
            p = q::<T>(&if exact && c.chance(0.7) { gen_settings(c, kind, false) } else { gen_settings(c, kind, tame) });
            c.say(|| format!("set_coefficients({:?})", p));
            f.set(&p);
        }
        let s = T::of(c.sample(mode));
        let r = f.process(s).f();
        let s = s.f();
        c.say(|| format!("process({:e}) -> {:e}", s, r));
        let t: Vec<f64> = match kind {
            0 => vec![p[0] * s, -p[1] * y[0]],
            1 => vec![p[0] * s, p[1] * x[0]],
            2 => vec![p[0] * s, -p[1] * y[0], -p[2] * y[1]],
            3 => vec![p[0] * s, p[1] * x[0], p[2] * x[1]],
            _ => vec![p[0] * s, p[1] * x[0], p[2] * x[1], -p[3] * y[0], -p[4] * y[1]],
        };
        let (e, m): (f64, f64) = (t.iter().sum(), t.iter().map(|v| v.abs()).sum());
        c.evals += 1;
        ensure!(near(r, e, 32.0 * T::EPS * m + T::TINY), "sample {}: {} returned {:e}, the difference equation gives {:e}", i, KINDS[kind], r, e);
        x = [s, x[0], x[1]];
        y = [r, y[0], y[1]];
        if r.abs() > 1e12 { break; }
    }
    Ok(())
}
fn c02<T: Sc>(c: &mut Ctx) -> R {
    let exact = c.chance(0.4);
    let p = q::<T>(&if exact { (0..5).map(|_| (c.below(9) as f64 - 4.0) / 4.0).collect::<Vec<_>>() } else { gen_settings(c, 4, true) });
    let (mut a, mut b) = (Any::<T>::new("Biquad1", 0.0, 0), Any::<T>::new("Biquad2", 0.0, 0));
    a.set(&p); b.set(&p);
    c.say(|| format!("Biquad1 and Biquad2 <{}>, set_coefficients({:?})", T::NAME, p));
    let n = if exact { if T::EPS > 1e-10 { 4 } else { 9 } } else { c.len(20000) };
    let mode = if exact { 0 } else { 1 + c.below(4) };
    let mut m = 0f64;
    for i in 0..n {
        let x = T::of(c.sample(mode));
        let (u, v) = (a.process(x).f(), b.process(x).f());
        c.say(|| format!("process({:e}) -> {:e} and {:e}", x.f(), u, v));
        c.evals += 1;
        m = m.max(u.abs()).max(v.abs()).max(x.f().abs());
        let tol = if exact { 0.0 } else { 3e4 * T::EPS * m };
        ensure!(near(u, v, tol), "sample {}: Biquad1 returned {:e}, Biquad2 {:e}", i, u, v);
    }
    Ok(())
}
fn c03<T: Sc>(c: &mut Ctx) -> R {
    let kind = c.below(NO_DELAY);
    let mut f = Any::<T>::new(KINDS[kind], 0.0, 0);
    c.say(|| format!("{}<{}>::new()", KINDS[kind], T::NAME));
    let n = c.len(20000);
    let mode = c.below(5);
    for i in 0..n {
        let x = T::of(c.sample(mode)).f();
        let r = f.process(T::of(x)).f();
        let e = if kind >= 16 { x.abs() } else { x };
        c.say(|| format!("process({:e}) -> {:e}", x, r));
        c.evals += 1;
        ensure!(near(r, e, 8.0 * T::EPS * x.abs() + T::TINY), "sample {}: a new {} returned {:e} for {:e}", i, KINDS[kind], r, x);
    }
    Ok(())
}
/// a random history of settings and samples, applied to both processors
fn history<T: Sc>(c: &mut Ctx, kind: usize, a: &mut Any<T>, n: usize, mode: usize, set: &mut Vec<f64>, growing: bool) {
    for _ in 0..n {
        if c.chance(0.05) {
            let mut s = gen_settings(c, kind, true);
            if kind >= 18 {
                if growing { s[1] = s[1].max(set[1]) } else { s[1] = set[1] }
                s[0] = s[0].min(s[1]);
            }
            *set = s;
            a.set(set);
            c.say(|| format!("set({:?})", set));
        }
        let x = T::of(c.sample(mode));
        a.process(x);
        c.say(|| format!("process({:e})", x.f()));
    }
}
fn new_any<T: Sc>(c: &mut Ctx, kind: usize) -> (Any<T>, Vec<f64>) {
    let set = gen_settings(c, kind, true);
    let a = if kind >= 18 { Any::<T>::new(KINDS[kind], set[0], set[1] as usize) } else { let mut a = Any::<T>::new(KINDS[kind], 0.0, 0); a.set(&set); a };
    c.say(|| format!("{}<{}> with {:?}", KINDS[kind], T::NAME, set));
    (a, set)
}
fn c04<T: Sc>(c: &mut Ctx) -> R {
    let kind = c.below(KINDS.len());
    let (mut a, mut set) = new_any::<T>(c, kind);
    let mode = c.below(5);
    let rounds = 1 + c.below(2);
    for _ in 0..rounds {
        let n = c.len(6000);
        history(c, kind, &mut a, n, mode, &mut set, true);
        if c.chance(0.3) { if let Any::LinearDelay(l) = &mut a { let p = l.next_out(); c.say(|| format!("next_out() -> {}", p)); } }
        if c.chance(0.3) {
            let x = T::of(c.sample(mode));
            let t = c.below(set[1.min(set.len() - 1)].max(0.0) as usize + 1);
            match &mut a { Any::Delay(d) => { d.tap_in(x, t); c.say(|| format!("tap_in({:e}, {})", x.f(), t)); } Any::LinearDelay(d) => { d.tap_in(x, t); c.say(|| format!("tap_in({:e}, {})", x.f(), t)); } _ => {} }
        }
        let before = a.settings();
        a.clear();
        c.say(|| "clear()".into());
        c.evals += 1;
        ensure!(a.last_out().f() == 0.0, "{}: last_out() is {:e} right after clear()", KINDS[kind], a.last_out().f());
        ensure!(a.settings() == before, "{}: settings were {:?} before clear() and are {:?} after", KINDS[kind], before, a.settings());
        match &mut a {
            Any::Delay(d) => { if d.get_delay() > 0 { ensure!(d.next_out().f() == 0.0, "Delay: next_out() is {:e} right after clear()", d.next_out().f()); }
                for t in 0..d.get_max_delay().min(50) { ensure!(d.tap_out(t).f() == 0.0, "Delay: tap_out({}) is {:e} right after clear()", t, d.tap_out(t).f()); } }
            Any::LinearDelay(d) => { let v = d.next_out().f(); ensure!(v == 0.0, "LinearDelay: next_out() is {:e} right after clear()", v);
                for t in 0..d.get_max_delay().min(50) { ensure!(d.tap_out(t).f() == 0.0, "LinearDelay: tap_out({}) is {:e} right after clear()", t, d.tap_out(t).f()); } }
            _ => {}
        }
        let mut b = if kind >= 18 { Any::<T>::new(KINDS[kind], set[0], set[1] as usize) } else { let mut b = Any::<T>::new(KINDS[kind], 0.0, 0); b.set(&set); b };
        let n = c.len(3000);
        let mut m = 0f64;
        let lin = kind == 19;
        for i in 0..n {
            let x = T::of(c.sample(mode));
            let (u, v) = (a.process(x).f(), b.process(x).f());
            m = m.max(x.f().abs()).max(v.abs());
            c.say(|| format!("process({:e}) -> {:e}, fresh processor -> {:e}", x.f(), u, v));
            c.evals += 1;
            let tol = if lin { m * (8.0 * set[1] + 16.0) / 16777216.0 } else { 1e3 * T::EPS * m };
            ensure!(near(u, v, tol), "{}: {} samples after clear() it returned {:e}, a fresh one with the same settings {:e}", KINDS[kind], i, u, v);
            let l = a.last_out().f();
            ensure!(l == u || (l.is_nan() && u.is_nan()), "{}: process returned {:e} but last_out() is {:e}", KINDS[kind], u, l);
        }
        if n > 0 && c.chance(0.5) {
            let mut blk: Vec<T> = (0..1 + c.below(20)).map(|_| T::of(c.sample(mode))).collect();
            let r = a.process_block(&mut blk).f();
            ensure!(a.last_out().f() == r, "{}: process_block returned {:e} but last_out() is {:e}", KINDS[kind], r, a.last_out().f());
        }
    }
    Ok(())
}
fn c05<T: Sc>(c: &mut Ctx) -> R {
    let kind = c.below(KINDS.len());
    let (mut a, mut set) = new_any::<T>(c, kind);
    let mut b = if kind >= 18 { Any::<T>::new(KINDS[kind], set[0], set[1] as usize) } else { let mut b = Any::<T>::new(KINDS[kind], 0.0, 0); b.set(&set); b };
    let mode = c.below(5);
    let mut m = 1e-3f64;
    for _ in 0..1 + c.below(5) {
        if c.chance(0.2) {
            let mut s = gen_settings(c, kind, true);
            if kind >= 18 { s[1] = set[1]; s[0] = s[0].min(s[1]); }
            set = s;
            a.set(&set); b.set(&set);
            c.say(|| format!("set({:?})", set));
        }
        if c.chance(0.15) { a.clear(); b.clear(); c.say(|| "clear()".into()); }
        if c.chance(0.15) { if let (Any::LinearDelay(x), Any::LinearDelay(y)) = (&mut a, &mut b) { x.next_out(); y.next_out(); c.say(|| "next_out()".into()); } }
        let n = c.len(6000);
        let xs: Vec<T> = (0..n).map(|_| T::of(c.sample(mode))).collect();
        let mut blk = xs.clone();
        let ys: Vec<f64> = xs.iter().map(|x| b.process(*x).f()).collect();
        let r = a.process_block(&mut blk).f();
        c.say(|| format!("process_block({:?}) -> {:e}, block {:?}; sample by sample {:?}", &xs[..n.min(40)], r, &blk[..n.min(40)], &ys[..n.min(40)]));
        for i in 0..n {
            c.evals += 1;
            m = m.max(ys[i].abs());
            ensure!(near(blk[i].f(), ys[i], 1e3 * T::EPS * m), "{}: sample {} of a block of {} is {:e}, sample by sample gives {:e}", KINDS[kind], i, n, blk[i].f(), ys[i]);
        }
        ensure!(near(r, blk[n - 1].f(), 0.0), "{}: process_block returned {:e}, the last sample of the block is {:e}", KINDS[kind], r, blk[n - 1].f());
        let (u, v) = (a.last_out().f(), b.last_out().f());
        ensure!(near(u, v, 1e3 * T::EPS * m), "{}: last_out() is {:e} after the block, {:e} sample by sample", KINDS[kind], u, v);
    }
    Ok(())
}

// ---------------------------------------------------------------- delay lines
/// ideal line: front = newest
struct Line { mem: VecDeque<f64> }
impl Line {
    fn new(max: usize) -> Line { Line { mem: vec![0.0; max + 1].into() } }
    fn push(&mut self, x: f64) { self.mem.pop_back(); self.mem.push_front(x); }
    fn grow(&mut self, max: usize) { while self.mem.len() < max + 1 { self.mem.push_back(0.0) } }
    fn max(&self) -> usize { self.mem.len() - 1 }
    fn top(&self) -> f64 { self.mem.iter().fold(0.0, |a, x| x.abs().max(a)) }
}
#[derive(Clone, Copy)]
struct Mix { clip: bool, grow: bool, clear: bool, taps: bool, predict: bool, limits: bool, out: bool }
fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn dline<T: Sc>(c: &mut Ctx, w: Mix) -> R {
    let max = c.size(5000);
    let mut d0 = c.size(max);
    if w.clip && c.chance(0.3) { d0 = max + c.size(100); }
    let mut d = Delay::<T>::new(d0, max);
    let mut twin = Delay::<T>::new(d0, max);
    c.say(|| format!("Delay<{}>::new({}, {})", T::NAME, d0, max));
    let mut line = Line::new(max);
    let mut delay = d0.min(max);
    let mode = c.below(4);
    let n = c.len(12000);
    let p_op = [0.02, 0.3, 0.6][c.below(3)];
    for i in 0..n {
        for _ in 0..if c.chance(p_op) { 1 + c.below(3) } else { 0 } {
            if w.predict && c.chance(0.4) { let g = d.next_out().f(); c.say(|| format!("next_out() -> {:e}", g)); }
            match c.below(6) {
                0 | 1 => {
                    let mut v = c.size(line.max());
                    if w.clip && c.chance(0.3) { v = match c.below(3) { 0 => line.max() + 1, 1 => usize::MAX, _ => line.max() + c.size(100) } }
                    d.set_delay(v); twin.set_delay(v);
                    delay = v.min(line.max());
                    c.say(|| format!("set_delay({})", v));
                }
                2 if w.grow => {
                    let v = match c.below(4) { 0 => line.max() + 1, 1 => line.max() + c.size(50), 2 => c.size(6000), _ => line.max() };
                    d.set_max_delay(v); twin.set_max_delay(v);
                    line.grow(v);
                    c.say(|| format!("set_max_delay({})", v));
                }
                3 if w.clear && c.chance(0.3) => { d.clear(); twin.clear(); line = Line::new(line.max()); c.say(|| "clear()".into()); }
                4 | 5 if w.taps => {
                    let t = if c.chance(0.5) { c.size(line.max()) } else { let k = d.get_delay() as usize; [k, k + 1, k.saturating_sub(1), k + 2][c.below(4)].min(line.max()) };
                    let before = (d.last_out().f(), d.get_delay());
                    let v = T::of(c.sample(mode));
                    if c.chance(0.5) {
                        d.tap_in(v, t); twin.tap_in(v, t); line.mem[t] = v.f();
                        c.say(|| format!("tap_in({:e}, {})", v.f(), t));
                    } else {
                        let r = d.add_to(v, t).f(); twin.add_to(v, t);
                        let e = (T::of(line.mem[t]) + v).f();
                        c.say(|| format!("add_to({:e}, {}) -> {:e}", v.f(), t, r));
                        ensure!(near(r, e, 4.0 * T::EPS * e.abs()), "call {}: Delay::add_to({:e}, {}) returned {:e}, expected {:e}", i, v.f(), t, r, e);
                        line.mem[t] = r;
                    }
                    if !w.predict {
                        d.tap_out(t);
                        let after = (d.last_out().f(), d.get_delay());
                        ensure!(same(after.0, before.0), "call {}: Delay::last_out() went from {:e} to {:e} by tapping at {}", i, before.0, after.0, t);
                        ensure!(after.1 == before.1, "call {}: Delay::get_delay() went from {} to {} by tapping at {}", i, before.1, after.1, t);
                    }
                }
                _ => {}
            }
        }
        if w.limits {
            ensure!(d.get_delay() == delay, "call {}: Delay::get_delay() is {}, expected {}", i, d.get_delay(), delay);
            ensure!(d.get_max_delay() == line.max(), "call {}: Delay::get_max_delay() is {}, expected {}", i, d.get_max_delay(), line.max());
        }
        if w.taps && (i % 7 == 0 || line.max() < 9) {
            for _ in 0..4 {
                let t = if c.chance(0.2) { line.max() } else { c.size(line.max()) };
                let r = d.tap_out(t).f();
                c.evals += 1;
                ensure!(r == line.mem[t], "call {}: Delay::tap_out({}) returned {:e}, the sample {} back is {:e}", i, t, r, t, line.mem[t]);
            }
        }
        let guess = if w.predict && delay >= 1 && c.chance(0.7) {
            for _ in 0..c.below(2) { d.next_out(); }
            let g = d.next_out().f();
            c.say(|| format!("next_out() -> {:e}", g));
            Some(g)
        } else { None };
        let x = T::of(c.sample(mode));
        let y = d.process(x).f();
        let z = twin.process(x).f();
        line.push(x.f());
        let cur = d.get_delay();
        c.say(|| format!("process({:e}) -> {:e}   (delay {}, maximum {})", x.f(), y, cur, d.get_max_delay()));
        c.evals += 1;
        if let Some(g) = guess { ensure!(g == y, "call {}: next_out() announced {:e}, process returned {:e} (delay {})", i, g, y, cur); }
        if w.predict { ensure!(y == z, "call {}: process returned {:e} after next_out() and {:e} without (delay {})", i, y, z, cur); }
        if w.out {
            ensure!(cur < line.mem.len(), "call {}: Delay::get_delay() is {} with a maximum of {}", i, cur, line.max());
            ensure!(y == line.mem[cur], "call {}: Delay returned {:e}, the input {} samples back is {:e} (maximum {})", i, y, cur, line.mem[cur], line.max());
        }
    }
    Ok(())
}
fn gen_delay(c: &mut Ctx, max: usize) -> f32 {
    let m = max as f32;
    let v = match c.below(7) {
        0 => c.below(max + 1) as f32,
        1 => c.unit() as f32 * m,
        2 => c.below(max + 1) as f32 + [0.5, 0.25, 0.75, 0.9999999, 1e-7][c.below(5)],
        3 => m - c.unit() as f32,
        4 => c.unit() as f32,
        5 => c.size(max) as f32 + c.unit() as f32,
        _ => c.dict_float().abs() as f32,
    };
    if v.is_nan() { 0.0 } else { v.max(0.0).min(m) }
}
fn lline<T: Sc>(c: &mut Ctx, w: Mix) -> R {
    let max = c.size(5000);
    let wild = |c: &mut Ctx, m: usize| -> f32 { match c.below(6) { 0 => -1.0, 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, 3 => m as f32 + 0.5, 4 => -c.range(0.0, 1e4) as f32, _ => m as f32 + c.range(0.0, 1e4) as f32 } };
    let mut d0 = gen_delay(c, max);
    if w.clip && c.chance(0.3) { d0 = wild(c, max); }
    let mut d = LinearDelay::<T>::new(d0, max);
    let mut twin = LinearDelay::<T>::new(d0, max);
    c.say(|| format!("LinearDelay<{}>::new({:e}, {})", T::NAME, d0, max));
    let mut line = Line::new(max);
    let mut delay = d0.max(0.0).min(max as f32);
    let mode = c.below(4);
    let n = c.len(12000);
    let p_op = [0.02, 0.3, 0.6][c.below(3)];
    let mut top = 0f64;
    for i in 0..n {
        for _ in 0..if c.chance(p_op) { 1 + c.below(3) } else { 0 } {
            if w.predict && c.chance(0.4) { let g = d.next_out().f(); c.say(|| format!("next_out() -> {:e}", g)); }
            match c.below(6) {
                0 | 1 => {
                    let mut v = gen_delay(c, line.max());
                    if w.clip && c.chance(0.3) { v = wild(c, line.max()); }
                    d.set_delay(v); twin.set_delay(v);
                    delay = v.max(0.0).min(line.max() as f32);
                    c.say(|| format!("set_delay({:e})", v));
                }
                2 if w.grow => {
                    let v = match c.below(4) { 0 => line.max() + 1, 1 => line.max() + c.size(50), 2 => c.size(6000), _ => line.max() };
                    d.set_max_delay(v); twin.set_max_delay(v);
                    line.grow(v);
                    c.say(|| format!("set_max_delay({})", v));
                }
                3 if w.clear && c.chance(0.3) => { d.clear(); twin.clear(); line = Line::new(line.max()); c.say(|| "clear()".into()); }
                4 | 5 if w.taps => {
                    let t = if c.chance(0.5) { c.size(line.max()) } else { let k = d.get_delay() as usize; [k, k + 1, k.saturating_sub(1), k + 2][c.below(4)].min(line.max()) };
                    let before = (d.last_out().f(), d.get_delay());
                    let v = T::of(c.sample(mode));
                    if c.chance(0.5) {
                        d.tap_in(v, t); twin.tap_in(v, t); line.mem[t] = v.f();
                        c.say(|| format!("tap_in({:e}, {})", v.f(), t));
                    } else {
                        let r = d.add_to(v, t).f(); twin.add_to(v, t);
                        let e = (T::of(line.mem[t]) + v).f();
                        c.say(|| format!("add_to({:e}, {}) -> {:e}", v.f(), t, r));
                        ensure!(near(r, e, 4.0 * T::EPS * e.abs()), "call {}: LinearDelay::add_to({:e}, {}) returned {:e}, expected {:e}", i, v.f(), t, r, e);
                        line.mem[t] = r;
                    }
                    if !w.predict {
                        d.tap_out(t);
                        let after = (d.last_out().f(), d.get_delay());
                        ensure!(same(after.0, before.0), "call {}: LinearDelay::last_out() went from {:e} to {:e} by tapping at {}", i, before.0, after.0, t);
                        ensure!(after.1 == before.1, "call {}: LinearDelay::get_delay() went from {:e} to {:e} by tapping at {}", i, before.1, after.1, t);
                    }
                    top = top.max(line.mem[t].abs());
                }
                _ => {}
            }
        }
        if w.limits {
            ensure!(d.get_delay() == delay, "call {}: LinearDelay::get_delay() is {:e}, expected {:e}", i, d.get_delay(), delay);
            ensure!(d.get_max_delay() == line.max(), "call {}: LinearDelay::get_max_delay() is {}, expected {}", i, d.get_max_delay(), line.max());
        }
        if w.taps && (i % 7 == 0 || line.max() < 9) {
            for _ in 0..4 {
                let t = if c.chance(0.2) { line.max() } else { c.size(line.max()) };
                let r = d.tap_out(t).f();
                c.evals += 1;
                ensure!(r == line.mem[t], "call {}: LinearDelay::tap_out({}) returned {:e}, the sample {} back is {:e}", i, t, r, t, line.mem[t]);
            }
        }
        let cur = d.get_delay();
        let mut guess = None;
        if w.predict && c.chance(0.7) {
            for _ in 0..c.below(2) { d.next_out(); }
            let g = d.next_out().f();
            c.say(|| format!("next_out() -> {:e}", g));
            if cur >= 1.0 { guess = Some(g) }
        }
        let x = T::of(c.sample(mode));
        let y = d.process(x).f();
        let z = twin.process(x).f();
        line.push(x.f());
        top = top.max(x.f().abs());
        if i % 64 == 0 { top = line.top(); }
        c.say(|| format!("process({:e}) -> {:e}   (delay {:e}, maximum {})", x.f(), y, cur, d.get_max_delay()));
        c.evals += 1;
        if let Some(g) = guess { ensure!(near(g, y, 8.0 * T::EPS * top), "call {}: next_out() announced {:e}, process returned {:e} (delay {:e})", i, g, y, cur); }
        if w.predict { ensure!(near(y, z, 8.0 * T::EPS * top), "call {}: process returned {:e} after next_out() and {:e} without (delay {:e})", i, y, z, cur); }
        if w.out {
            let k = cur.floor() as usize;
            ensure!(cur >= 0.0 && cur <= line.max() as f32, "call {}: LinearDelay::get_delay() is {:e} with a maximum of {}", i, cur, line.max());
            let f = cur as f64 - k as f64;
            let e = if f == 0.0 { line.mem[k] } else { (1.0 - f) * line.mem[k] + f * line.mem[k + 1] };
            let tol = if f == 0.0 { 4.0 * T::EPS * top } else { top * (2.0 * (2.0 * line.mem.len() as f64 + 4.0) / 16777216.0 + 8.0 * T::EPS) };
            ensure!(near(y, e, tol), "call {}: LinearDelay returned {:e}, the input interpolated {:e} samples back is {:e} (maximum {})", i, y, cur, e, line.max());
        }
    }
    Ok(())
}
const M6: Mix = Mix { clip: false, grow: true, clear: true, taps: false, predict: false, limits: false, out: true };
const M8: Mix = Mix { clip: true, grow: true, clear: false, taps: false, predict: false, limits: true, out: true };
const M9: Mix = Mix { clip: false, grow: false, clear: false, taps: true, predict: false, limits: false, out: true };
const M10: Mix = Mix { clip: false, grow: true, clear: true, taps: true, predict: true, limits: false, out: false };
fn c06<T: Sc>(c: &mut Ctx) -> R { dline::<T>(c, M6) }
fn c07<T: Sc>(c: &mut Ctx) -> R { lline::<T>(c, M6) }
fn c08<T: Sc>(c: &mut Ctx) -> R { if c.chance(0.5) { dline::<T>(c, M8) } else { lline::<T>(c, M8) } }
fn c09<T: Sc>(c: &mut Ctx) -> R { if c.chance(0.5) { dline::<T>(c, M9) } else { lline::<T>(c, M9) } }
fn c10<T: Sc>(c: &mut Ctx) -> R { if c.chance(0.5) { dline::<T>(c, M10) } else { lline::<T>(c, M10) } }

// ---------------------------------------------------------------- analysis
fn c11<T: Sc>(c: &mut Ctx) -> R {
    let mut f = LeakyIntegrator::<T>::new();
    c.say(|| format!("LeakyIntegrator<{}>::new()", T::NAME));
    let mut alpha = 0.0;
    let mut y = 0.0f64;
    let mode = c.below(5);
    let n = c.len(20000);
    let (mut lo, mut hi) = (0.0f64, 0.0f64);
    ensure!(f.get_alpha().f() == 0.0, "a new LeakyIntegrator has decay {:e}", f.get_alpha().f());
    let p_set = [0.0, 0.02, 0.4][c.below(3)];
    for i in 0..n {
        if i == 0 || c.chance(p_set) {
            let v = match c.below(9) { 0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => c.range(-2.0, 3.0), 4 => f64::NAN, 5 => f64::INFINITY, 6 => 1.0 - T::EPS, 7 => c.dict_float(), _ => c.range(0.0, 1.0) };
            let v = T::of(v).f();
            f.set_alpha(T::of(v));
            c.say(|| format!("set_alpha({:e})", v));
            if v >= 0.0 && v < 1.0 { alpha = v; }
            c.evals += 1;
            ensure!(f.get_alpha().f() == alpha, "call {}: after set_alpha({:e}) the decay is {:e}, expected {:e}", i, v, f.get_alpha().f(), alpha);
        }
        if c.chance(0.02) { f.clear(); y = 0.0; c.say(|| "clear()".into()); }
        let x = T::of(c.sample(mode)).f();
        let r = f.process(T::of(x)).f();
        c.say(|| format!("process({:e}) -> {:e}", x, r));
        let e = (1.0 - alpha) * x + alpha * y;
        let m = x.abs() + y.abs();
        c.evals += 1;
        ensure!(near(r, e, 16.0 * T::EPS * m + T::TINY), "call {}: LeakyIntegrator returned {:e}, (1 - a) x + a y is {:e} (a = {:e}, x = {:e}, y = {:e})", i, r, e, alpha, x, y);
        lo = lo.min(x); hi = hi.max(x);
        let w = 16.0 * T::EPS * (hi - lo) * (i + 1) as f64;
        ensure!(r >= lo - w && r <= hi + w, "call {}: output {:e} leaves the range [{:e}, {:e}] of the inputs", i, r, lo, hi);
        y = r;
    }
    Ok(())
}
trait Env<T> { fn mk() -> Self; fn att(&mut self, v: T); fn rel(&mut self, v: T); fn ga(&self) -> T; fn gr(&self) -> T; fn go(&mut self, x: T) -> T; fn zero(&mut self); const RMS: bool; const NAME: &'static str; }
macro_rules! env { ($t:ident, $r:expr) => { impl<T: Sc> Env<T> for $t<T> {
    fn mk() -> Self { $t::new() } fn att(&mut self, v: T) { self.set_attack(v) } fn rel(&mut self, v: T) { self.set_release(v) }
    fn ga(&self) -> T { self.get_attack_gain() } fn gr(&self) -> T { self.get_release_gain() } fn go(&mut self, x: T) -> T { self.process(x) } fn zero(&mut self) { self.clear() }
    const RMS: bool = $r; const NAME: &'static str = stringify!($t); } } }
env!(PeakEnvDetector, false);
env!(RmsEnvDetector, true);
fn envelope<T: Sc, E: Env<T>>(c: &mut Ctx) -> R {
    let mut f = E::mk();
    c.say(|| format!("{}<{}>::new()", E::NAME, T::NAME));
    let (mut ga, mut gr) = (0.0f64, 0.0f64);
    let mut y = 0.0f64;
    let mode = [0, 1, 3, 4, 2][c.below(5)];
    let n = c.len(20000);
    let p_set = [0.0, 0.02, 0.4][c.below(3)];
    for i in 0..n {
        if i == 0 || c.chance(p_set) {
            for k in 0..2 {
                let v = match c.below(10) { 0 => 0.0, 1 => -c.range(0.0, 100.0), 2 => f64::NAN, 3 => f64::INFINITY, 4 => f64::NEG_INFINITY, 5 => -0.0, _ => gen_time(c) };
                let v = T::of(v).f();
                if k == 0 { f.att(T::of(v)); c.say(|| format!("set_attack({:e})", v)); } else { f.rel(T::of(v)); c.say(|| format!("set_release({:e})", v)); }
                if v > 0.0 && v.is_finite() { let g = (-1.0 / v).exp(); if k == 0 { ga = g } else { gr = g } }
                c.evals += 1;
                ensure!(near(f.ga().f(), ga, 16.0 * T::EPS * ga * (1.0 - ga.max(1e-300).ln()) + 4.0 * T::EPS), "call {}: {} attack gain is {:e}, expected {:e}", i, E::NAME, f.ga().f(), ga);
                ensure!(near(f.gr().f(), gr, 16.0 * T::EPS * gr * (1.0 - gr.max(1e-300).ln()) + 4.0 * T::EPS), "call {}: {} release gain is {:e}, expected {:e}", i, E::NAME, f.gr().f(), gr);
            }
        }
        if c.chance(0.02) { f.zero(); y = 0.0; c.say(|| "clear()".into()); }
        let x = T::of(c.sample(mode)).f();
        let r = f.go(T::of(x)).f();
        c.say(|| format!("process({:e}) -> {:e}", x, r));
        let (u, e) = if E::RMS { (x * x, y * y) } else { (x.abs(), y) };
        let g = if e < u { f.ga().f() } else { f.gr().f() };
        let want = u + g * (e - u);
        let got = if E::RMS { r * r } else { r };
        c.evals += 1;
        ensure!(r >= 0.0, "call {}: {} returned {:e}, a negative level", i, E::NAME, r);
        ensure!(near(got, want, 64.0 * T::EPS * (u + e) + T::TINY), "call {}: {} returned {:e}, expected {:e} (input {:e}, previous output {:e})", i, E::NAME, r, if E::RMS { want.max(0.0).sqrt() } else { want }, x, y);
        y = r;
    }
    Ok(())
}
fn c12<T: Sc>(c: &mut Ctx) -> R { if c.chance(0.5) { envelope::<T, PeakEnvDetector<T>>(c) } else { envelope::<T, RmsEnvDetector<T>>(c) } }

// ---------------------------------------------------------------- RBJ filters
/// the Audio EQ Cookbook: b0 b1 b2 a0 a1 a2
pub fn cookbook(kind: &str, p: &[f64]) -> [f64; 6] {
    let w = 2.0 * std::f64::consts::PI * p[1] / p[0];
    let (cw, sw) = (w.cos(), w.sin());
    match kind {
        "Peak" | "LowShelf" | "HighShelf" => {
            let a = 10f64.powf(p[2] / 40.0);
            if kind == "Peak" {
                let al = sw / (2.0 * p[3]);
                [1.0 + al * a, -2.0 * cw, 1.0 - al * a, 1.0 + al / a, -2.0 * cw, 1.0 - al / a]
            } else {
                let al = sw / 2.0 * ((a + 1.0 / a) * (1.0 / p[3] - 1.0) + 2.0).sqrt();
                let t = 2.0 * a.sqrt() * al;
                let s = if kind == "LowShelf" { 1.0 } else { -1.0 };
                [a * ((a + 1.0) - s * (a - 1.0) * cw + t), s * 2.0 * a * ((a - 1.0) - s * (a + 1.0) * cw), a * ((a + 1.0) - s * (a - 1.0) * cw - t),
                 (a + 1.0) + s * (a - 1.0) * cw + t, -s * 2.0 * ((a - 1.0) + s * (a + 1.0) * cw), (a + 1.0) + s * (a - 1.0) * cw - t]
            }
        }
        _ => {
            let al = sw / (2.0 * p[2]);
            let (b0, b1, b2) = match kind {
                "LowPass" => ((1.0 - cw) / 2.0, 1.0 - cw, (1.0 - cw) / 2.0),
                "HighPass" => ((1.0 + cw) / 2.0, -(1.0 + cw), (1.0 + cw) / 2.0),
                "BandPass1" => (p[2] * al, 0.0, -p[2] * al),
                "BandPass2" => (al, 0.0, -al),
                "BandStop" => (1.0, -2.0 * cw, 1.0),
                _ => (1.0 - al, -2.0 * cw, 1.0 + al),
            };
            [b0, b1, b2, 1.0 + al, -2.0 * cw, 1.0 - al]
        }
    }
}
fn c13<T: Sc>(c: &mut Ctx) -> R {
    let kind = RBJ.start + c.below(9);
    let mut f = Any::<T>::new(KINDS[kind], 0.0, 0);
    c.say(|| format!("{}<{}>::new()", KINDS[kind], T::NAME));
    let mode = c.below(4);
    for _ in 0..1 + c.below(3) {
        let p = q::<T>(&gen_rbj(c, kind));
        f.set(&p);
        c.say(|| format!("set_coefficients({:?})", p));
        ensure!(f.last_out().f() == 0.0, "{}: last_out() is {:e} after set_coefficients({:?})", KINDS[kind], f.last_out().f(), p);
        let k = cookbook(KINDS[kind], &p);
        let k: Vec<f64> = k.iter().map(|v| v / k[3]).collect();
        let (mut z1, mut z2) = (0.0, 0.0);
        let n = if T::EPS > 1e-10 { 5 } else { 4 + c.len(200) };
        let bm = k[0].abs().max(k[1].abs()).max(k[2].abs()).max(1e-3);
        let (mut m, mut mx) = (0f64, 0f64);
        for i in 0..n {
            let x = T::of(if mode == 3 { if i == 0 { 1.0 } else { 0.0 } } else { c.sample(mode) }).f();
            let r = f.process(T::of(x)).f();
            let e = k[0] * x + z1;
            z1 = k[1] * x + z2 - k[4] * e;
            z2 = k[2] * x - k[5] * e;
            m = m.max(x.abs() * bm).max(e.abs());
            mx = mx.max(x.abs());
            c.say(|| format!("process({:e}) -> {:e}   (cookbook {:e})", x, r, e));
            c.evals += 1;
            let tol = if T::EPS > 1e-10 { 4e-4 * m.max(mx) } else { 1e-9 * m };
            ensure!(near(r, e, tol), "{}: sample {} after set_coefficients({:?}) is {:e}, the cookbook filter gives {:e}", KINDS[kind], i, p, r, e);
        }
    }
    Ok(())
}
fn c14<T: Sc>(c: &mut Ctx) -> R {
    let kind = RBJ.start + c.below(9);
    let f32t = T::EPS > 1e-10;
    let mut p = gen_rbj(c, kind);
    if f32t { p[1] = p[0] * c.range(0.03, 0.45); let l = p.len() - 1; if kind < 13 { p[l] = c.range(0.4, 4.0) } else { p[l] = c.range(0.3, 1.0); } if l == 3 { p[2] = c.range(-12.0, 12.0) } }
    let p = q::<T>(&p);
    let k = cookbook(KINDS[kind], &p);
    // the slowest pole decides how long the response is followed
    let (a1, a2) = (k[4] / k[3], k[5] / k[3]);
    let disc = a1 * a1 - 4.0 * a2;
    let r = if disc < 0.0 { a2.sqrt() } else { ((-a1 + disc.sqrt()) / 2.0).abs().max(((-a1 - disc.sqrt()) / 2.0).abs()) };
    if !(r < if f32t { 0.99985 } else { 0.99998 }) { return Ok(()); }
    if r > 0.9999 && c.chance(0.9) { return Ok(()); }
    let n = ((1e-13f64).ln() / r.max(0.1).ln()) as usize * 2 + 64;
    let mut f = Any::<T>::new(KINDS[kind], 0.0, 0);
    f.set(&p);
    c.say(|| format!("{}<{}>, set_coefficients({:?}); impulse response over {} samples", KINDS[kind], T::NAME, p, n));
    let w0 = 2.0 * std::f64::consts::PI * p[1] / p[0];
    let wr = c.range(0.0, 3.14159);
    let (mut dc, mut ny) = (0.0, 0.0);
    let (mut re, mut im, mut re2, mut im2) = (0.0, 0.0, 0.0, 0.0);
    let (mut abs, mut tail) = (0.0f64, 0.0f64);
    for i in 0..n {
        let h = f.process(T::of(if i == 0 { 1.0 } else { 0.0 })).f();
        dc += h;
        ny += if i % 2 == 0 { h } else { -h };
        let a = w0 * i as f64;
        re += h * a.cos(); im += h * a.sin();
        if kind == 11 { let a = wr * i as f64; re2 += h * a.cos(); im2 += h * a.sin(); }
        abs += h.abs();
        if i + 8 >= n { tail = tail.max(h.abs()); }
        ensure!(h.abs() < 1e12, "{}: with settings {:?} the response to a unit impulse grows without bound ({:e} at sample {})", KINDS[kind], p, h, i);
    }
    c.evals += 1;
    let sc = abs.max(1.0);
    // rounding errors of the coefficients count relative to the denominator at the frequency
    let den = |w: f64| { let (x, y) = (1.0 + a1 * w.cos() + a2 * (2.0 * w).cos(), a1 * w.sin() + a2 * (2.0 * w).sin()); (x * x + y * y).sqrt() };
    let least = den(0.0).min(den(std::f64::consts::PI)).min(den(w0)).min(den(wr));
    let bm = k[0].abs().max(k[1].abs()).max(k[2].abs()) / k[3];
    let tol = if f32t { 2e-3 } else { 1e-7 } + 256.0 * 2.3e-16 * (1.0 + bm / sc) / least;
    if !(tol < 1e-2) { return Ok(()); }
    ensure!(tail <= 1e-3 * sc, "{}: with settings {:?} the impulse response does not die out ({:e} after {} samples)", KINDS[kind], p, tail, n);
    let g = if p.len() == 4 { 10f64.powf(p[2] / 20.0) } else { 1.0 };
    let qq = *p.last().unwrap();
    let (e_dc, e_ny, e_c) = match KINDS[kind] {
        "LowPass" => (1.0, 0.0, Some(qq)), "HighPass" => (0.0, 1.0, Some(qq)), "BandPass1" => (0.0, 0.0, Some(qq)), "BandPass2" => (0.0, 0.0, Some(1.0)),
        "BandStop" => (1.0, 1.0, Some(0.0)), "AllPass" => (1.0, 1.0, Some(1.0)), "Peak" => (1.0, 1.0, Some(g)), "LowShelf" => (g, 1.0, None), _ => (1.0, g, None),
    };
    ensure!(near(dc, e_dc, tol * sc), "{}: with settings {:?} the gain at 0 Hz is {:e}, expected {:e}", KINDS[kind], p, dc, e_dc);
    ensure!(near(ny, e_ny, tol * sc), "{}: with settings {:?} the gain at half the sample rate is {:e}, expected {:e}", KINDS[kind], p, ny, e_ny);
    if let Some(e) = e_c {
        let m = (re * re + im * im).sqrt();
        ensure!(near(m, e, tol * sc.max(e)), "{}: with settings {:?} the gain at the centre frequency is {:e}, expected {:e}", KINDS[kind], p, m, e);
    }
    if kind == 11 {
        let m = (re2 * re2 + im2 * im2).sqrt();
        ensure!(near(m, 1.0, tol * sc), "AllPass: with settings {:?} the gain at {:e} rad/sample is {:e}, expected 1", p, wr, m);
    }
    Ok(())
}

// ---------------------------------------------------------------- windows
pub const WINS: [&str; 6] = ["Triangular", "Bartlett", "Hann", "Hamming", "Blackman", "BlackmanHarris"];
fn formula(w: &str, n: usize, i: usize) -> f64 {
    if n == 1 { return 1.0; }
    let (x, m) = (i as f64, (n - 1) as f64);
    let th = 2.0 * std::f64::consts::PI * x / m;
    match w {
        "Triangular" => 1.0 - ((x - m / 2.0) / (n as f64 / 2.0)).abs(),
        "Bartlett" => 1.0 - ((x - m / 2.0) / (m / 2.0)).abs(),
        "Hann" => 0.5 * (1.0 - th.cos()),
        "Hamming" => 0.54 - 0.46 * th.cos(),
        "Blackman" => 0.42 - 0.5 * th.cos() + 0.08 * (2.0 * th).cos(),
        _ => 0.35875 - 0.48829 * th.cos() + 0.14128 * (2.0 * th).cos() - 0.01168 * (3.0 * th).cos(),
    }
}
macro_rules! with_win { ($w:expr, $t:ty, $n:expr, $f:ident ( $($a:expr),* )) => { match $w {
    "Triangular" => $f(TriangularIter::<$t>::new($n), $($a),*), "Bartlett" => $f(BartlettIter::<$t>::new($n), $($a),*), "Hann" => $f(HannIter::<$t>::new($n), $($a),*),
    "Hamming" => $f(HammingIter::<$t>::new($n), $($a),*), "Blackman" => $f(BlackmanIter::<$t>::new($n), $($a),*), _ => $f(BlackmanHarrisIter::<$t>::new($n), $($a),*) } } }
fn take<T: Sc, I: Iterator<Item = T>>(it: I, n: usize) -> Vec<f64> {
    let mut it = it;
    let mut v = Vec::new();
    for _ in 0..n { match it.next() { Some(x) => v.push(x.f()), None => break } }
    v
}
fn win_size(c: &mut Ctx) -> usize { let k = c.k as usize / 12; if k < 70 && c.chance(0.8) { k } else { let cap = if c.chance(0.1) { 70000 } else { 5000 }; c.size(cap) } }
fn c15<T: Sc>(c: &mut Ctx) -> R {
    let w = WINS[(c.k % 6) as usize];
    let n = win_size(c);
    let v = with_win!(w, T, n, take(n));
    c.say(|| format!("{}Iter::<{}>::new({}): {:?}", w, T::NAME, n, &v[..v.len().min(64)]));
    ensure!(v.len() == n, "{} window of {} samples ends after {}", w, n, v.len());
    let tol = 64.0 * T::EPS;
    for i in 0..n {
        let e = formula(w, n, i);
        c.evals += 1;
        ensure!(near(v[i], e, tol), "{} window of {}: sample {} is {:e}, the formula gives {:e}", w, n, i, v[i], e);
        ensure!(v[i] >= -tol && v[i] <= 1.0 + tol, "{} window of {}: sample {} is {:e}, outside [0, 1]", w, n, i, v[i]);
        ensure!(near(v[i], v[n - 1 - i], 2.0 * tol), "{} window of {}: samples {} and {} differ ({:e}, {:e})", w, n, i, n - 1 - i, v[i], v[n - 1 - i]);
    }
    let (h, s) = match w { "Hann" | "Bartlett" if n % 2 == 1 && n > 1 => (n / 2, 1.0), "Hamming" if n % 2 == 1 && n > 1 => (n / 2, 1.08), "Triangular" if n % 2 == 0 => (n / 2, 1.0), _ => (0, 0.0) };
    for i in 0..h { ensure!(near(v[i] + v[i + h], s, 2.0 * tol), "{} window of {}: samples {} and {} add up to {:e}", w, n, i, i + h, v[i] + v[i + h]); }
    Ok(())
}
fn protocol<T: Sc, I: Iterator<Item = T> + ExactSizeIterator>(mut it: I, c: &mut Ctx, w: &str, n: usize, script: u64) -> R {
    let mut left = n;
    let mut steps = 0;
    let mut rng = script;
    loop {
        c.evals += 1;
        let (a, b) = it.size_hint();
        let l = it.len();
        ensure!(l == left && a == left && b == Some(left), "{}Iter of {} with {} values left reports len() {} and size_hint() ({}, {:?})", w, n, left, l, a, b);
        rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let jump = if (rng >> 33) % 4 == 0 && script % 3 == 0 { ((rng >> 40) % 5) as usize } else { 0 };
        let x = if jump > 0 { it.nth(jump) } else { it.next() };
        c.say(|| format!("{} -> {:?}", if jump > 0 { format!("nth({})", jump) } else { "next()".into() }, x));
        if left > jump {
            let i = n - left + jump;
            ensure!(x.is_some(), "{}Iter of {} returned None at position {}", w, n, i);
            left -= jump + 1;
        } else {
            ensure!(x.is_none(), "{}Iter of {} returned {:?} past its end", w, n, x);
            left = 0;
            steps += 1;
            if steps > 3 { return Ok(()); }
        }
    }
}
fn adapt<T: Sc, I: Iterator<Item = T> + ExactSizeIterator>(it: I, how: usize, k: usize) -> Vec<f64> {
    match how {
        0 => vec![it.count() as f64],
        1 => it.last().map(|x| x.f()).into_iter().collect(),
        2 => it.skip(k).map(|x| x.f()).collect(),
        3 => it.step_by(k + 1).map(|x| x.f()).collect(),
        4 => { let mut v = Vec::new(); it.for_each(|x| v.push(x.f())); v }
        5 => it.fold(Vec::new(), |mut v, x| { v.push(x.f()); v }),
        6 => { let mut it = it; it.nth(k).map(|x| x.f()).into_iter().chain(it.map(|x| x.f())).collect() }
        7 => it.take(k).map(|x| x.f()).collect(),
        8 => { let mut it = it; let mut v: Vec<f64> = it.by_ref().take(k).map(|x| x.f()).collect(); v.push(it.len() as f64); v }
        _ => it.enumerate().map(|(i, x)| x.f() + i as f64).collect(),
    }
}
fn c16<T: Sc>(c: &mut Ctx) -> R {
    let w = WINS[(c.k % 6) as usize];
    if c.chance(0.05) {
        let n = [usize::MAX, 1 << 40, u32::MAX as usize, 1 << 24][c.below(4)];
        c.say(|| format!("{}Iter::<{}>::new({}).len()", w, T::NAME, n));
        let l = with_win!(w, T, n, len_of());
        ensure!(l == (n, n, Some(n)), "{}Iter of {} reports len() {} and size_hint() ({}, {:?})", w, n, l.0, l.1, l.2);
        return Ok(());
    }
    let n = win_size(c).min(if c.chance(0.95) { 600 } else { 70000 });
    let s = c.u();
    c.say(|| format!("{}Iter::<{}>::new({})", w, T::NAME, n));
    with_win!(w, T, n, protocol(c, w, n, s))?;
    // whatever std adaptors consume it: the values next() gives, no more, no fewer
    let all = with_win!(w, T, n, take(n + 3));
    ensure!(all.len() == n, "{}Iter of {} gave {} values", w, n, all.len());
    let how = c.below(10);
    let k = c.below(n + 2);
    let got = with_win!(w, T, n, adapt(how, k));
    let want: Vec<f64> = match how {
        0 => vec![n as f64],
        1 => all.last().copied().into_iter().collect(),
        2 | 6 => all.iter().skip(k).copied().collect(),
        3 => all.iter().step_by(k + 1).copied().collect(),
        4 | 5 => all.clone(),
        7 => all.iter().take(k).copied().collect(),
        8 => { let mut v: Vec<f64> = all.iter().take(k).copied().collect(); v.push(n.saturating_sub(k) as f64); v }
        _ => all.iter().enumerate().map(|(i, x)| x + i as f64).collect(),
    };
    c.evals += 1;
    let names = ["count()", "last()", "skip(k)", "step_by(k + 1)", "for_each", "fold", "nth(k) and the rest", "take(k)", "by_ref().take(k), then len()", "enumerate"];
    c.say(|| format!("{} with k = {}: {:?}; by next(): {:?}", names[how], k, &got[..got.len().min(40)], &want[..want.len().min(40)]));
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| near(*a, *b, 64.0 * T::EPS * b.abs().max(1.0))), "{}Iter of {}: {} with k = {} disagrees with next()", w, n, names[how], k);
    Ok(())
}
fn len_of<T, I: Iterator<Item = T> + ExactSizeIterator>(it: I) -> (usize, usize, Option<usize>) { let (a, b) = it.size_hint(); (it.len(), a, b) }
fn c17<T: Sc>(c: &mut Ctx) -> R {
    let n = win_size(c);
    let mode = c.below(5);
    let xs: Vec<T> = (0..n).map(|_| T::of(c.sample(mode))).collect();
    let mut ys = xs.clone();
    let w = (c.k % 7) as usize;
    let win = [Window::Rectangular, Window::Triangular, Window::Bartlett, Window::Hann, Window::Hamming, Window::Blackman, Window::BlackmanHarris][w];
    apply_window(&mut ys, win);
    c.say(|| format!("apply_window({:?}, {:?}) on <{}>, {} samples -> {:?}", &xs[..n.min(32)], win, T::NAME, n, &ys[..n.min(32)]));
    let g: Vec<f64> = if w == 0 { vec![1.0; n] } else { with_win!(WINS[w - 1], T, n, take(n)) };
    ensure!(g.len() == n, "{:?} iterator of {} ends after {}", win, n, g.len());
    for i in 0..n {
        c.evals += 1;
        let e = xs[i].f() * g[i];
        ensure!(near(ys[i].f(), e, 8.0 * T::EPS * e.abs() + T::TINY + 64.0 * T::EPS * xs[i].f().abs() * if g[i].abs() < 1e-3 { 1.0 } else { 0.0 }), "apply_window {:?} on {} samples: sample {} ({:e}) became {:e}, expected {:e}", win, n, i, xs[i].f(), ys[i].f(), e);
    }
    Ok(())
}
// ---------------------------------------------------------------- decibels
fn c18<T: Sc>(c: &mut Ctx) -> R {
    c.evals += 1;
    match c.below(4) {
        0 => {
            let k = 10f64.powf(c.range(-15.5, -1.0)) * if c.below(2) == 0 { 1.0 } else { -1.0 };
            let x = match c.below(11) { 9 => 1e-6 * (1.0 + k), 10 => c.dict_float().abs() * (1.0 + k), 0 => 0.0, 1 => 1e-6, 2 => 1e-6 * (1.0 + T::EPS), 3 => 1e-6 * (1.0 - T::EPS), 4 => f64::INFINITY, 5 => c.dict_float().abs(), 6 => c.range(0.0, 2.0), 7 => c.log_range(1e-30, 1e30), _ => c.log_range(1e-7, 1e-5) };
            let x = T::of(x);
            let r = to_db(x).f();
            c.say(|| format!("to_db({:e}) on {} -> {:e}", x.f(), T::NAME, r));
            let lim = T::of(1e-6).f();
            let e = if x.f() > lim && x.f().is_finite() { 20.0 * x.f().log10() } else { -120.0 };
            ensure!(near(r, e, 16.0 * T::EPS * e.abs().max(10.0)), "to_db({:e}) is {:e}, expected {:e}", x.f(), r, e);
            if x.f() > lim && x.f().is_finite() {
                let s = to_sample(to_db(x)).f();
                if r > -120.0 { ensure!(near(s, x.f(), 64.0 * T::EPS * (1.0 + e.abs()) * x.f()), "to_sample(to_db({:e})) is {:e}", x.f(), s); }
            }
        }
        1 => {
            let k = 10f64.powf(c.range(-15.5, -1.0)) * if c.below(2) == 0 { 1.0 } else { -1.0 };
            let d = match c.below(11) { 9 => -120.0 * (1.0 + k), 10 => c.dict_float() * (1.0 + k), 0 => -120.0, 1 => -120.0 * (1.0 + T::EPS), 2 => -120.0 * (1.0 - T::EPS), 3 => f64::NAN, 4 => f64::INFINITY, 5 => f64::NEG_INFINITY, 6 => c.dict_float(), 7 => c.range(-130.0, 130.0), _ => c.range(-12.0, 12.0) };
            let d = T::of(d);
            let r = to_sample(d).f();
            c.say(|| format!("to_sample({:e}) on {} -> {:e}", d.f(), T::NAME, r));
            let e = if d.f() > -120.0 && d.f().is_finite() { 10f64.powf(d.f() / 20.0) } else { 0.0 };
            ensure!(near(r, e, 16.0 * T::EPS * (1.0 + d.f().abs()) * e) && (e != 0.0 || r == 0.0), "to_sample({:e}) is {:e}, expected {:e}", d.f(), r, e);
            if d.f() > -119.99 && d.f() < 300.0 {
                let b = to_db(to_sample(d)).f();
                ensure!(near(b, d.f(), 512.0 * T::EPS * (10.0 + d.f().abs())), "to_db(to_sample({:e})) is {:e}", d.f(), b);
            }
        }
        2 => {
            let (x, g) = (T::of(c.sample(2)), T::of(c.sample(2).abs()));
            let r = apply_gain(x, g).f();
            c.say(|| format!("apply_gain({:e}, {:e}) on {} -> {:e}", x.f(), g.f(), T::NAME, r));
            let e = x.f() * g.f();
            ensure!(near(r, e, 8.0 * T::EPS * e.abs() + T::TINY), "apply_gain({:e}, {:e}) is {:e}, expected {:e}", x.f(), g.f(), r, e);
        }
        _ => {
            // monotone
            let (a, b) = (T::of(c.log_range(1e-8, 1e6)), T::of(c.log_range(1e-8, 1e6)));
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            ensure!(to_db(a).f() <= to_db(b).f() + 1e3 * T::EPS, "to_db({:e}) = {:e} exceeds to_db({:e}) = {:e}", a.f(), to_db(a).f(), b.f(), to_db(b).f());
            c.say(|| format!("to_db({:e}) <= to_db({:e})", a.f(), b.f()));
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- panic freedom
fn wild(c: &mut Ctx) -> f64 {
    match c.below(14) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => 0.0, 4 => -0.0, 5 => f64::MAX, 6 => f64::MIN_POSITIVE, 7 => 5e-324, 8 => -f64::MAX, 9 => c.dict_float(), _ => c.sample(2) }
}
fn c19<T: Sc>(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => {
            let kind = c.below(NO_DELAY);
            let mut f = Any::<T>::new(KINDS[kind], 0.0, 0);
            c.say(|| format!("{}<{}>::new()", KINDS[kind], T::NAME));
            let n = c.len(3000);
            for _ in 0..n {
                c.evals += 1;
                match c.below(12) {
                    0 => { let p: Vec<f64> = if c.chance(0.5) { (0..5).map(|_| wild(c)).collect() } else { let mut p = gen_settings(c, kind, false); p.resize(5, 0.0); p }; c.say(|| format!("set({:?})", p)); f.set(&p) }
                    1 => { c.say(|| "clear()".into()); f.clear() }
                    2 => { f.last_out(); f.settings(); }
                    3 => { let mut b: Vec<T> = (0..1 + c.size(200)).map(|_| T::of(wild(c))).collect(); c.say(|| format!("process_block of {}", b.len())); f.process_block(&mut b); }
                    _ => { let x = wild(c); c.say(|| format!("process({:e})", x)); f.process(T::of(x)); }
                }
            }
        }
        1 => {
            let m = c.size(3000); let d = if c.chance(0.2) { usize::MAX } else { c.size(3000) };
            c.say(|| format!("Delay<{}>::new({}, {})", T::NAME, d, m));
            let mut f = Delay::<T>::new(d, m);
            let n = c.len(3000);
            for _ in 0..n {
                c.evals += 1;
                let t = if c.chance(0.3) { f.get_max_delay() } else { c.size(f.get_max_delay()) };
                let x = T::of(wild(c));
                match c.below(14) {
                    0 => { let v = if c.chance(0.2) { usize::MAX } else { c.size(4000) }; c.say(|| format!("set_delay({})", v)); f.set_delay(v) }
                    1 => { let v = c.size(4000); c.say(|| format!("set_max_delay({})", v)); f.set_max_delay(v) }
                    2 => { c.say(|| format!("tap_in(x, {})", t)); f.tap_in(x, t) }
                    3 => { c.say(|| format!("add_to(x, {})", t)); f.add_to(x, t); }
                    4 => { c.say(|| format!("tap_out({})", t)); f.tap_out(t); }
                    5 => { c.say(|| "next_out()".into()); f.next_out(); }
                    6 => { c.say(|| "clear()".into()); f.clear() }
                    7 => { f.last_out(); f.get_delay(); let mut b: Vec<T> = (0..1 + c.size(100)).map(|_| T::of(wild(c))).collect(); c.say(|| format!("process_block of {}", b.len())); f.process_block(&mut b); }
                    _ => { c.say(|| format!("process({:e})", x.f())); f.process(x); }
                }
            }
        }
        2 => {
            let wd = |c: &mut Ctx| -> f32 { let v = match c.below(5) { 0 => f32::INFINITY, 1 => f32::NEG_INFINITY, 2 => f32::MAX, 3 => -c.unit() as f32, _ => c.unit() as f32 * c.size(4000) as f32 }; v };
            let m = c.size(3000); let d = wd(c);
            c.say(|| format!("LinearDelay<{}>::new({:e}, {})", T::NAME, d, m));
            let mut f = LinearDelay::<T>::new(d, m);
            let n = c.len(3000);
            for _ in 0..n {
                c.evals += 1;
                let t = if c.chance(0.3) { f.get_max_delay() } else { c.size(f.get_max_delay()) };
                let x = T::of(wild(c));
                match c.below(14) {
                    0 => { let v = if c.chance(0.5) { wd(c) } else { let m = f.get_max_delay(); gen_delay(c, m) }; c.say(|| format!("set_delay({:e})", v)); f.set_delay(v) }
                    1 => { let v = c.size(4000); c.say(|| format!("set_max_delay({})", v)); f.set_max_delay(v) }
                    2 => { c.say(|| format!("tap_in(x, {})", t)); f.tap_in(x, t) }
                    3 => { c.say(|| format!("add_to(x, {})", t)); f.add_to(x, t); }
                    4 => { c.say(|| format!("tap_out({})", t)); f.tap_out(t); }
                    5 => { c.say(|| "next_out()".into()); f.next_out(); }
                    6 => { c.say(|| "clear()".into()); f.clear() }
                    7 => { f.last_out(); f.get_delay(); let mut b: Vec<T> = (0..1 + c.size(100)).map(|_| T::of(wild(c))).collect(); c.say(|| format!("process_block of {}", b.len())); f.process_block(&mut b); }
                    _ => { c.say(|| format!("process({:e})", x.f())); f.process(x); }
                }
            }
        }
        _ => {
            c.evals += 1;
            match c.below(3) {
                0 => { let w = WINS[c.below(6)]; let n = win_size(c); c.say(|| format!("{}Iter::<{}>::new({}), taken past its end", w, T::NAME, n)); with_win!(w, T, n, spin()); }
                1 => { let n = win_size(c); let mut v: Vec<T> = (0..n).map(|_| T::of(wild(c))).collect(); let w = c.below(7);
                    let win = [Window::Rectangular, Window::Triangular, Window::Bartlett, Window::Hann, Window::Hamming, Window::Blackman, Window::BlackmanHarris][w];
                    c.say(|| format!("apply_window on {} samples, {:?}", n, win)); apply_window(&mut v, win); }
                _ => { let x = wild(c); let y = x.abs(); c.say(|| format!("to_sample({:e}), to_db({:e})", x, y)); to_sample(T::of(x)); to_db(T::of(y)); if y.is_finite() && T::of(y).f().is_finite() { apply_gain(T::of(x), T::of(y)); } }
            }
        }
    }
    Ok(())
}
fn spin<T, I: Iterator<Item = T> + ExactSizeIterator>(mut it: I) {
    while let Some(_) = it.next() { it.size_hint(); it.len(); }
    for _ in 0..3 { it.next(); it.size_hint(); it.len(); }
}
pub fn cases(pid: &str) -> Option<[Case; 2]> {
    Some(match pid {
        "C01" => [c01::<f64>, c01::<f32>], "C02" => [c02::<f64>, c02::<f32>], "C03" => [c03::<f64>, c03::<f32>], "C04" => [c04::<f64>, c04::<f32>],
        "C05" => [c05::<f64>, c05::<f32>], "C06" => [c06::<f64>, c06::<f32>], "C07" => [c07::<f64>, c07::<f32>], "C08" => [c08::<f64>, c08::<f32>],
        "C09" => [c09::<f64>, c09::<f32>], "C10" => [c10::<f64>, c10::<f32>], "C11" => [c11::<f64>, c11::<f32>], "C12" => [c12::<f64>, c12::<f32>],
        "C13" => [c13::<f64>, c13::<f32>], "C14" => [c14::<f64>, c14::<f32>], "C15" => [c15::<f64>, c15::<f32>], "C16" => [c16::<f64>, c16::<f32>],
        "C17" => [c17::<f64>, c17::<f32>], "C18" => [c18::<f64>, c18::<f32>], "C19" => [c19::<f64>, c19::<f32>],
        _ => return None,
    })
}
