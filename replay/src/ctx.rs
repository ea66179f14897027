//! Case context: deterministic randomness, literals harvested from the source, input trace.
pub struct Ctx {
    s: u64,
    /// running number of the case (grows: early cases are small)
    pub k: u64,
    pub ints: std::sync::Arc<Vec<usize>>,
    pub floats: std::sync::Arc<Vec<f64>>,
    /// a run of special samples: how many are left, kind, value
    seg: (usize, usize, f64),
    pub evals: u64,
    pub trace: Option<String>,
}
impl Ctx {
    pub fn new(seed: u64, k: u64, ints: std::sync::Arc<Vec<usize>>, floats: std::sync::Arc<Vec<f64>>, trace: bool) -> Ctx {
        let mut c = Ctx { s: seed ^ k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1, k, ints, floats, seg: (0, 0, 0.0), evals: 0, trace: if trace { Some(String::new()) } else { None } };
        for _ in 0..4 { c.u(); }
        c
    }
    pub fn u(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u() % n as u64) as usize } }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn unit(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    pub fn log_range(&mut self, lo: f64, hi: f64) -> f64 { self.range(lo.ln(), hi.ln()).exp() }
    pub fn dict_int(&mut self) -> usize {
        let i = self.ints.clone();
        if i.is_empty() { return self.below(64); }
        let v = i[self.below(i.len())];
        match self.below(5) { 0 => v.saturating_sub(1), 1 => v + 1, 2 => v.saturating_mul(2), _ => v }
    }
    pub fn dict_float(&mut self) -> f64 {
        let f = self.floats.clone();
        if f.is_empty() { return 1.0; }
        let v = f[self.below(f.len())];
        match self.below(6) { 0 => v * (1.0 + 1e-3), 1 => v * (1.0 - 1e-3), 2 => v + 1.0, 3 => -v, _ => v }
    }
    /// a size: small first, then powers of two and the literals of the source
    pub fn size(&mut self, cap: usize) -> usize {
        let grow = 2 + (self.k / 8).min(60) as usize;
        let v = match self.below(10) {
            0..=5 => self.below(grow + 2),
            6 => self.below(cap.min(300) + 1),
            7 => { let p = 1usize << self.below(14); match self.below(3) { 0 => p - 1, 1 => p, _ => p + 1 } }
            8 => self.dict_int(),
            _ => self.below(cap + 1),
        };
        v.min(cap)
    }
    /// how many calls a history makes
    pub fn len(&mut self, cap: usize) -> usize {
        let v = match self.below(12) {
            0..=6 => 1 + self.below(12 + (self.k / 4).min(120) as usize),
            7 | 8 => self.below(cap.min(1500)) + 1,
            9 => self.dict_int() + self.below(8),
            10 if self.k > 200 => self.below(cap) + 1,
            _ => 1 + self.below(200),
        };
        v.clamp(1, cap)
    }
    /// a sample value; mode 0 gives small dyadic numbers (exact arithmetic), others anything finite
    /// now and then a run of zeros, of one repeated value or of alternating signs, as long as the literals of the source suggest
    pub fn sample(&mut self, mode: usize) -> f64 {
        if self.seg.0 > 0 {
            self.seg.0 -= 1;
            let v = self.seg.2;
            match self.seg.1 { 0 => return 0.0, 1 => return v, 2 => return -0.0, _ => { self.seg.2 = -v; return v; } }
        }
        if self.below(100) == 0 {
            let n = match self.below(4) { 0 => 2 + self.below(6), 1 => self.below(60), 2 => self.dict_int().min(3000), _ => 2 * self.dict_int().min(2000) + self.below(64) };
            let kind = [0, 0, 0, 1, 1, 2, 3][self.below(7)];
            let v = self.sample_at(mode);
            self.seg = (n, kind, v);
        }
        self.sample_at(mode)
    }
    fn sample_at(&mut self, mode: usize) -> f64 {
        match mode {
            0 => (self.below(17) as f64 - 8.0) / 4.0,
            1 => self.range(-1.0, 1.0),
            2 => match self.below(8) { 0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => -1.0, 4 => self.dict_float(), 5 => self.log_range(1e-9, 1e9), 6 => -self.log_range(1e-9, 1e9), _ => self.range(-2.0, 2.0) },
            3 => if self.chance(0.1) { self.range(-1.0, 1.0) } else { 0.0 },
            _ => { let v = self.log_range(1e-12, 1e6); if self.chance(0.5) { v } else { -v } }
        }
    }
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = self.trace.as_mut() { if t.len() < 60_000 { t.push_str(&f()); t.push('\n'); } }
    }
}
/// scalar type under test
pub trait Sc: num::Float + rasp::traits::FloatConst + std::fmt::Debug + std::fmt::Display + 'static {
    const EPS: f64;
    const TINY: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-36;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-290;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
}
pub type R = Result<(), String>;
/// |a - b| <= tol, NaN never close
pub fn near(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
