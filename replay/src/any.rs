//! One enum over every processor of the crate, driven through its public API.
use crate::ctx::*;
use rasp::analysis::*;
use rasp::delay::*;
use rasp::filter::rbj::*;
use rasp::filter::*;
use rasp::traits::*;

macro_rules! any { ($($n:ident),*) => {
    pub enum Any<T: Sc> { $($n($n<T>)),*, Delay(Delay<T>), LinearDelay(LinearDelay<T>) }
    pub const KINDS: &[&str] = &[$(stringify!($n)),*, "Delay", "LinearDelay"];
    impl<T: Sc> Any<T> {
        /// a new processor; a, b are delay and maximum for the delay lines
        pub fn new(kind: &str, a: f64, b: usize) -> Any<T> {
            match kind { $(stringify!($n) => Any::$n($n::<T>::new()),)*
                "Delay" => Any::Delay(Delay::new(a as usize, b)), "LinearDelay" => Any::LinearDelay(LinearDelay::new(a as f32, b)), _ => unreachable!() }
        }
        pub fn process(&mut self, x: T) -> T { match self { $(Any::$n(p) => Processor::process(p, x),)* Any::Delay(p) => p.process(x), Any::LinearDelay(p) => p.process(x) } }
        pub fn process_block(&mut self, x: &mut [T]) -> T { match self { $(Any::$n(p) => Processor::process_block(p, x),)* Any::Delay(p) => p.process_block(x), Any::LinearDelay(p) => p.process_block(x) } }
        pub fn clear(&mut self) { match self { $(Any::$n(p) => Processor::clear(p),)* Any::Delay(p) => p.clear(), Any::LinearDelay(p) => p.clear() } }
        pub fn last_out(&self) -> T { match self { $(Any::$n(p) => Processor::last_out(p),)* Any::Delay(p) => p.last_out(), Any::LinearDelay(p) => p.last_out() } }
    }
}}
any!(OnePole, OneZero, TwoPole, TwoZero, Biquad1, Biquad2, LowPass, HighPass, BandPass1, BandPass2, BandStop, AllPass, Peak, LowShelf, HighShelf,
     LeakyIntegrator, PeakEnvDetector, RmsEnvDetector);

pub const RBJ: std::ops::Range<usize> = 6..15;
pub const NO_DELAY: usize = 18;

impl<T: Sc> Any<T> {
    /// apply settings p (meaning depends on the kind)
    pub fn set(&mut self, p: &[f64]) {
        let t = |i: usize| T::of(p[i]);
        match self {
            Any::OnePole(f) => f.set_coefficients(t(0), t(1)),
            Any::OneZero(f) => f.set_coefficients(t(0), t(1)),
            Any::TwoPole(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::TwoZero(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::Biquad1(f) => f.set_coefficients(t(0), t(1), t(2), t(3), t(4)),
            Any::Biquad2(f) => f.set_coefficients(t(0), t(1), t(2), t(3), t(4)),
            Any::LowPass(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::HighPass(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::BandPass1(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::BandPass2(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::BandStop(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::AllPass(f) => f.set_coefficients(t(0), t(1), t(2)),
            Any::Peak(f) => f.set_coefficients(t(0), t(1), t(2), t(3)),
            Any::LowShelf(f) => f.set_coefficients(t(0), t(1), t(2), t(3)),
            Any::HighShelf(f) => f.set_coefficients(t(0), t(1), t(2), t(3)),
            Any::LeakyIntegrator(f) => f.set_alpha(t(0)),
            Any::PeakEnvDetector(f) => { f.set_attack(t(0)); f.set_release(t(1)) }
            Any::RmsEnvDetector(f) => { f.set_attack(t(0)); f.set_release(t(1)) }
            Any::Delay(f) => { f.set_max_delay(p[1] as usize); f.set_delay(p[0] as usize) }
            Any::LinearDelay(f) => { f.set_max_delay(p[1] as usize); f.set_delay(p[0] as f32) }
        }
    }
    /// what the getters report
    pub fn settings(&self) -> Vec<f64> {
        match self {
            Any::LeakyIntegrator(f) => vec![f.get_alpha().f()],
            Any::PeakEnvDetector(f) => vec![f.get_attack_gain().f(), f.get_release_gain().f()],
            Any::RmsEnvDetector(f) => vec![f.get_attack_gain().f(), f.get_release_gain().f()],
            Any::Delay(f) => vec![f.get_delay() as f64, f.get_max_delay() as f64],
            Any::LinearDelay(f) => vec![f.get_delay() as f64, f.get_max_delay() as f64],
            _ => vec![],
        }
    }
}
/// settings for a kind; tame: a stable processor
pub fn gen_settings(c: &mut Ctx, kind: usize, tame: bool) -> Vec<f64> {
    match kind {
        0..=5 => {
            let n = [2, 2, 3, 3, 5, 5][kind];
            if tame {
                let r = c.range(0.0, 0.97); let th = c.range(0.0, 3.14159);
                let (a1, a2) = (-2.0 * r * th.cos(), r * r);
                let b: Vec<f64> = (0..3).map(|_| c.range(-2.0, 2.0)).collect();
                match kind { 0 => vec![b[0], c.range(-0.97, 0.97)], 1 => vec![b[0], b[1]], 2 => vec![b[0], a1, a2], 3 => b, _ => vec![b[0], b[1], b[2], a1, a2] }
            } else {
                let m = c.below(3);
                (0..n).map(|_| match m { 0 => (c.below(17) as f64 - 8.0) / 8.0, 1 => c.range(-2.0, 2.0), _ => c.sample(2).clamp(-1e3, 1e3) }).collect()
            }
        }
        6..=14 => gen_rbj(c, kind),
        15 => vec![if c.chance(0.5) { c.range(0.0, 1.0) } else { c.below(8) as f64 / 8.0 }],
        16 | 17 => vec![gen_time(c), gen_time(c)],
        18 => { let m = c.size(5000); vec![c.below(m + 1) as f64, m as f64] }
        _ => { let m = c.size(5000); vec![(c.unit() * m as f64) as f32 as f64, m as f64] }
    }
}
pub fn gen_time(c: &mut Ctx) -> f64 {
    match c.below(4) { 0 => c.log_range(1e-3, 1e6), 1 => c.range(0.5, 50.0), 2 => c.dict_float().abs().max(1e-3), _ => c.log_range(0.2, 1e5) }
}
pub fn gen_rbj(c: &mut Ctx, kind: usize) -> Vec<f64> {
    let sr = match c.below(6) { 0 => 44100.0, 1 => 48000.0, 2 => 1.0, 3 => c.range(4000.0, 200000.0), 4 => c.dict_float().abs().max(1e-2), _ => c.log_range(1.0, 1e6) };
    let sr = sr as f32 as f64;
    let mut f = match c.below(6) { 0 => sr * c.range(0.01, 0.49), 1 => sr * c.log_range(1e-4, 0.49), 2 => sr * 0.25, 3 => sr * c.range(0.25, 0.499), 4 => c.dict_float().abs(), _ => sr * c.range(0.05, 0.45) };
    if !(f > 1e-5 * sr && f < 0.4995 * sr) { f = sr * c.range(0.01, 0.49); }
    let q = match c.below(5) { 0 => 0.7071, 1 => c.log_range(2e-4, 200.0), 2 => c.dict_float().abs().max(1e-4), 3 => 1.0, _ => c.range(0.3, 8.0) };
    let db = match c.below(5) { 0 => 0.0, 1 => c.range(-40.0, 40.0), 2 => c.dict_float().clamp(-60.0, 60.0), 3 => c.range(-100.0, 60.0), _ => c.range(-12.0, 12.0) };
    let s = match c.below(4) { 0 => 1.0, 1 => c.range(0.01, 1.0), 2 => { let v = c.dict_float().abs(); if v > 1e-3 && v <= 1.0 { v } else { 0.5 } } _ => c.log_range(1e-3, 1.0) };
    match kind { 12 => vec![sr, f, db, q], 13 | 14 => vec![sr, f, db, s], _ => vec![sr, f, q] }
}
