// ---------------------------------------------------------------------------
// TRUSTED PRELUDE (assumed contracts on dependencies).
//
// Everything in this module stands for code outside /repo: the crate `num`
// (traits Float, NumCast, functions zero/one/cast), the primitive float types
// and `as` casts.  Nothing of /repo is modelled here.
//
//   v(x)    the mathematical (real) value of a finite x
//   fin(x)  x is neither NaN nor infinite
//
// Idealisations, all listed as assumptions in the evidence:
//   * arithmetic of the generic sample type `T: Float` and of f64 is exact on
//     finite operands (no rounding, no overflow);
//   * arithmetic of the concrete type f32 (which the code uses for delay times)
//     is rounded: v(a+b) == rnd32(v(a)+v(b)), with rnd32 monotone, exact on
//     integers up to 2^24 and within relative error 2^-24 (+2^-149);
//   * nothing is assumed about the result when an operand is not finite, except
//     for comparisons (IEEE ordering, NaN unordered) and classification.
// ---------------------------------------------------------------------------
pub mod shim {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;

/// x % n for the values a ring index takes (proved)
pub broadcast proof fn lemma_wrap(x: int, n: int)
    requires 0 < n
    ensures #![trigger x % n] 0 <= x < n ==> x % n == x, n <= x < 2 * n ==> x % n == x - n
{
    if 0 <= x < n { assert(x % n == x) by (nonlinear_arith) requires 0 <= x < n; }
    else if n <= x < 2 * n {
        assert(x % n == x - n) by (nonlinear_arith) requires n <= x < 2 * n;
    }
}

// ---- real functions -------------------------------------------------------
pub uninterp spec fn rnd32(x: real) -> real;
pub uninterp spec fn r_exp(x: real) -> real;
pub uninterp spec fn r_cos(x: real) -> real;
pub uninterp spec fn r_sin(x: real) -> real;
pub uninterp spec fn r_log10(x: real) -> real;
pub uninterp spec fn r_ln(x: real) -> real;
pub uninterp spec fn r_pow(x: real, y: real) -> real;
pub uninterp spec fn r_sqrt(x: real) -> real;
pub uninterp spec fn r_pi() -> real;
pub uninterp spec fn r_floor(x: real) -> int;

pub open spec fn r_abs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn r_max(x: real, y: real) -> real { if x < y { y } else { x } }
pub open spec fn r_min(x: real, y: real) -> real { if y < x { y } else { x } }
pub open spec fn r_trunc(x: real) -> int { if x >= 0real { r_floor(x) } else { -r_floor(-x) } }
pub open spec fn clampi(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn two24() -> real { 16777216real }

pub axiom fn ax_rnd_int(n: int)
    ensures -16777216 <= n <= 16777216 ==> rnd32(n as real) == n as real;
pub axiom fn ax_rnd_mono(x: real, y: real)
    ensures x <= y ==> rnd32(x) <= rnd32(y);
pub axiom fn ax_rnd_err(x: real)
    ensures
        r_abs(rnd32(x) - x) * two24() <= r_abs(x) + 0.00000000000000000000000000000000000001real;
pub broadcast axiom fn ax_rnd_zero()
    ensures #![trigger rnd32(0real)] rnd32(0real) == 0real;

pub broadcast axiom fn ax_floor(x: real)
    ensures #![trigger r_floor(x)] (r_floor(x) as real) <= x, x < (r_floor(x) as real) + 1real;

pub broadcast axiom fn ax_exp(x: real)
    ensures #![trigger r_exp(x)] r_exp(x) > 0real, x < 0real ==> r_exp(x) < 1real, x == 0real ==> r_exp(x) == 1real, x > 0real ==> r_exp(x) > 1real;
pub broadcast axiom fn ax_cos(x: real)
    ensures #![trigger r_cos(x)] -1real <= r_cos(x) <= 1real, r_cos(x) * r_cos(x) + r_sin(x) * r_sin(x) == 1real;
pub broadcast axiom fn ax_sin(x: real)
    ensures #![trigger r_sin(x)] -1real <= r_sin(x) <= 1real, 0real < x && x < r_pi() ==> r_sin(x) > 0real;
pub broadcast axiom fn ax_pi()
    ensures #![trigger r_pi()] 3.14159265real < r_pi() < 3.14159266real;
pub broadcast axiom fn ax_pow(x: real, y: real)
    ensures #![trigger r_pow(x, y)] x > 0real ==> r_pow(x, y) > 0real;
pub broadcast axiom fn ax_sqrt(x: real)
    ensures #![trigger r_sqrt(x)] x >= 0real ==> r_sqrt(x) >= 0real && r_sqrt(x) * r_sqrt(x) == x;

// facts of real analysis, used only where a proof calls them
pub axiom fn ax_cos_double(x: real) ensures r_cos(2real * x) == 2real * r_cos(x) * r_cos(x) - 1real;
pub axiom fn ax_cos_triple(x: real) ensures r_cos(3real * x) == 4real * r_cos(x) * r_cos(x) * r_cos(x) - 3real * r_cos(x);
pub axiom fn ax_cos_reflect(x: real) ensures r_cos(2real * r_pi() - x) == r_cos(x);
pub axiom fn ax_cos_half_turn(x: real) ensures r_cos(x + r_pi()) == -r_cos(x);
pub axiom fn ax_pow_add(x: real, y: real, z: real) ensures x > 0real ==> r_pow(x, y) * r_pow(x, z) == r_pow(x, y + z);
pub axiom fn ax_log_pow(y: real) ensures r_log10(r_pow(10real, y)) == y;
pub axiom fn ax_pow_log(x: real) ensures x > 0real ==> r_pow(10real, r_log10(x)) == x;
pub axiom fn ax_log_mul(x: real, y: real) ensures x > 0real && y > 0real ==> r_log10(x * y) == r_log10(x) + r_log10(y);
pub axiom fn ax_log_mono(x: real, y: real) ensures 0real < x && x < y ==> r_log10(x) < r_log10(y);
pub axiom fn ax_log_micro() ensures r_log10(0.000001real) == -6real, r_log10(1real) == 0real;

// ---- sample-like values ---------------------------------------------------
pub trait NumCast: Sized + Copy {
    spec fn v(self) -> real;
    spec fn fin(self) -> bool;
    spec fn nan(self) -> bool;
    /// true for the floating-point types (a cast into one always succeeds)
    spec fn is_float() -> bool;
    /// the value a real number is rounded to when it is stored in this type
    spec fn rnd(x: real) -> real;
}

/// the operators of a floating-point type
pub trait FBase: NumCast
    + core::ops::Add<Output = Self> + core::ops::Sub<Output = Self>
    + core::ops::Mul<Output = Self> + core::ops::Div<Output = Self>
    + core::ops::Neg<Output = Self> + PartialOrd
{ }

pub open spec fn is_zero<T: NumCast>(x: T) -> bool { x.fin() && x.v() == 0real }

#[verifier::inline]
pub open spec fn f2<T: NumCast>(a: T, b: T) -> bool { a.fin() && b.fin() }

pub broadcast axiom fn ax_class<T: FBase>(a: T)
    ensures #![trigger a.fin()] a.fin() ==> !a.nan();

pub broadcast axiom fn ax_is_float<T: FBase>()
    ensures #[trigger] T::is_float();

pub broadcast axiom fn ax_add<T: FBase>(a: T, b: T)
    ensures #![trigger a.add_spec(b)] f2(a, b) ==> a.add_spec(b).fin() && a.add_spec(b).v() == T::rnd(a.v() + b.v());
pub broadcast axiom fn ax_add_req<T: FBase>(a: T, b: T) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_add_ob<T: FBase>() ensures #[trigger] <T as AddSpec<T>>::obeys_add_spec();

pub broadcast axiom fn ax_sub<T: FBase>(a: T, b: T)
    ensures #![trigger a.sub_spec(b)] f2(a, b) ==> a.sub_spec(b).fin() && a.sub_spec(b).v() == T::rnd(a.v() - b.v());
pub broadcast axiom fn ax_sub_req<T: FBase>(a: T, b: T) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_sub_ob<T: FBase>() ensures #[trigger] <T as SubSpec<T>>::obeys_sub_spec();

pub broadcast axiom fn ax_mul<T: FBase>(a: T, b: T)
    ensures #![trigger a.mul_spec(b)] f2(a, b) ==> a.mul_spec(b).fin() && a.mul_spec(b).v() == T::rnd(a.v() * b.v());
pub broadcast axiom fn ax_mul_req<T: FBase>(a: T, b: T) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_mul_ob<T: FBase>() ensures #[trigger] <T as MulSpec<T>>::obeys_mul_spec();

pub broadcast axiom fn ax_div<T: FBase>(a: T, b: T)
    ensures #![trigger a.div_spec(b)] f2(a, b) && b.v() != 0real ==> a.div_spec(b).fin() && a.div_spec(b).v() == T::rnd(a.v() / b.v());
pub broadcast axiom fn ax_div_req<T: FBase>(a: T, b: T) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_div_ob<T: FBase>() ensures #[trigger] <T as DivSpec<T>>::obeys_div_spec();

pub broadcast axiom fn ax_neg<T: FBase>(a: T)
    ensures #![trigger a.neg_spec()] a.fin() ==> a.neg_spec().fin() && a.neg_spec().v() == -a.v();
pub broadcast axiom fn ax_neg_req<T: FBase>(a: T) ensures #[trigger] a.neg_req();
pub broadcast axiom fn ax_neg_ob<T: FBase>() ensures #[trigger] T::obeys_neg_spec();

pub broadcast axiom fn ax_cmp<T: FBase>(a: T, b: T)
    ensures #![trigger a.partial_cmp_spec(&b)]
        f2(a, b) ==> a.partial_cmp_spec(&b) == (
            if a.v() < b.v() { Some(Ordering::Less) }
            else if a.v() > b.v() { Some(Ordering::Greater) }
            else { Some(Ordering::Equal) }),
        (a.nan() || b.nan()) ==> a.partial_cmp_spec(&b) == None::<Ordering>;
pub broadcast axiom fn ax_cmp_ob<T: FBase>() ensures #[trigger] <T as PartialOrdSpec<T>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_eq<T: FBase>(a: T, b: T)
    ensures #![trigger a.eq_spec(&b)]
        f2(a, b) ==> a.eq_spec(&b) == (a.v() == b.v()),
        (a.nan() || b.nan()) ==> !a.eq_spec(&b);
pub broadcast axiom fn ax_eq_ob<T: FBase>() ensures #[trigger] <T as PartialEqSpec<T>>::obeys_eq_spec();
/// an infinity is below or above every finite value; the sign is `neg_inf`
pub broadcast axiom fn ax_cmp_inf<T: FBase>(a: T, b: T)
    ensures #![trigger a.partial_cmp_spec(&b)]
        (!a.fin() && !a.nan() && b.fin()) ==> a.partial_cmp_spec(&b) == Some(if neg_inf(a) { Ordering::Less } else { Ordering::Greater }),
        (!b.fin() && !b.nan() && a.fin()) ==> a.partial_cmp_spec(&b) == Some(if neg_inf(b) { Ordering::Greater } else { Ordering::Less });
pub uninterp spec fn neg_inf<T: FBase>(a: T) -> bool;
pub open spec fn pos_inf<T: FBase>(a: T) -> bool { !a.fin() && !a.nan() && !neg_inf(a) }
pub uninterp spec fn sign_neg<T: FBase>(a: T) -> bool;
pub broadcast axiom fn ax_sign<T: FBase>(a: T)
    ensures #![trigger sign_neg(a)] a.fin() && a.v() > 0real ==> !sign_neg(a), a.fin() && a.v() < 0real ==> sign_neg(a);
/// Clone of a Copy float is the identity
pub broadcast axiom fn ax_cloned<T: FBase>(a: T, b: T)
    ensures #[trigger] vstd::pervasive::cloned::<T>(a, b) ==> a == b;

/// the trait `num::traits::Float`
pub trait Float: FBase {
    fn zero() -> (r: Self) ensures is_zero(r), !sign_neg(r);
    fn one() -> (r: Self) ensures r.fin() && r.v() == 1real;
    fn v_abs(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_abs(self.v());
    fn sqrt(self) -> (r: Self)
        ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == r_sqrt(self.v()), r == spec_sqrt(self);
    fn exp(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_exp(self.v());
    fn exp2(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_pow(2real, self.v());
    fn cos(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_cos(self.v());
    fn sin(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_sin(self.v());
    fn sin_cos(self) -> (r: (Self, Self))
        ensures self.fin() ==> r.0.fin() && r.1.fin() && r.0.v() == r_sin(self.v()) && r.1.v() == r_cos(self.v());
    fn log10(self) -> (r: Self) ensures self.fin() && self.v() > 0real ==> r.fin() && r.v() == r_log10(self.v());
    fn powf(self, n: Self) -> (r: Self) ensures self.fin() && n.fin() && self.v() > 0real ==> r.fin() && r.v() == r_pow(self.v(), n.v());
    fn powi(self, n: i32) -> (r: Self) ensures self.fin() && n == 2 ==> r.fin() && r.v() == self.v() * self.v(),
        self.fin() && n == 0 ==> r.fin() && r.v() == 1real, self.fin() && n == 1 ==> r.fin() && r.v() == self.v(),
        self.fin() && n == 3 ==> r.fin() && r.v() == self.v() * self.v() * self.v(),
        self.fin() && n == 4 ==> r.fin() && r.v() == (self.v() * self.v()) * (self.v() * self.v()),
        self.fin() && n == -1 && self.v() != 0real ==> r.fin() && r.v() == 1real / self.v();
    fn recip(self) -> (r: Self) ensures self.fin() && self.v() != 0real ==> r.fin() && r.v() == 1real / self.v();
    fn mul_add(self, a: Self, b: Self) -> (r: Self)
        ensures self.fin() && a.fin() && b.fin() ==> r.fin() && r.v() == self.v() * a.v() + b.v();
    fn v_max(self, o: Self) -> (r: Self)
        ensures f2(self, o) ==> r.fin() && r.v() == r_max(self.v(), o.v()),
            self.nan() ==> r == o, o.nan() ==> r == self;
    fn v_min(self, o: Self) -> (r: Self)
        ensures f2(self, o) ==> r.fin() && r.v() == r_min(self.v(), o.v()),
            self.nan() ==> r == o, o.nan() ==> r == self;
    fn floor(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_floor(self.v()) as real;
    fn fract(self) -> (r: Self) ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == self.v() - r_floor(self.v()) as real;
    fn v_clamp(self, a: Self, b: Self) -> (r: Self)
        requires a.fin() && b.fin() && a.v() <= b.v()
        ensures self.fin() ==> r.fin() && r.v() == r_min(r_max(self.v(), a.v()), b.v());
    fn from<A: NumCast>(a: A) -> (r: Option<Self>)
        ensures r is Some, a.fin() ==> r->Some_0.fin() && r->Some_0.v() == a.v();
    fn is_zero(&self) -> (r: bool) ensures self.fin() ==> r == (self.v() == 0real), self.nan() ==> !r;
    fn is_finite(self) -> (r: bool) ensures r == self.fin();
    fn is_nan(self) -> (r: bool) ensures r == self.nan();
    fn is_infinite(self) -> (r: bool) ensures r == (!self.fin() && !self.nan());
    fn is_sign_negative(self) -> (r: bool) ensures r == sign_neg(self);
    fn is_sign_positive(self) -> (r: bool) ensures r == !sign_neg(self);
    fn is_normal(self) -> (r: bool) ensures r ==> self.fin() && self.v() != 0real;
    fn epsilon() -> (r: Self) ensures r.fin() && 0real < r.v() < 0.000001real;
    fn min_positive_value() -> (r: Self) ensures r.fin() && 0real < r.v() < 0.000001real;
    fn max_value() -> (r: Self) ensures r.fin() && r.v() > 1000000real;
    fn min_value() -> (r: Self) ensures r.fin() && r.v() < -1000000real;
    fn infinity() -> (r: Self) ensures pos_inf(r);
    fn neg_infinity() -> (r: Self) ensures !r.fin() && !r.nan() && neg_inf(r);
    fn neg_zero() -> (r: Self) ensures is_zero(r), sign_neg(r);
    fn ceil(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == -(r_floor(-self.v()) as real);
    fn trunc(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_trunc(self.v()) as real;
    fn round(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == (if self.v() >= 0real { r_floor(self.v() + 0.5real) as real } else { -(r_floor(0.5real - self.v()) as real) });
    fn signum(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == (if sign_neg(self) { -1real } else { 1real }), self.nan() ==> r.nan();
    fn copysign(self, o: Self) -> (r: Self) ensures self.fin() && !o.nan() ==> r.fin() && r.v() == (if sign_neg(o) { -r_abs(self.v()) } else { r_abs(self.v()) });
    fn hypot(self, o: Self) -> (r: Self) ensures f2(self, o) ==> r.fin() && r.v() == r_sqrt(self.v() * self.v() + o.v() * o.v());
    fn tan(self) -> (r: Self) ensures self.fin() && r_cos(self.v()) != 0real ==> r.fin() && r.v() == r_sin(self.v()) / r_cos(self.v());
    fn ln(self) -> (r: Self) ensures self.fin() && self.v() > 0real ==> r.fin() && r.v() == r_ln(self.v());
    fn log2(self) -> (r: Self) ensures self.fin() && self.v() > 0real ==> r.fin() && r.v() == r_ln(self.v()) / r_ln(2real);
    fn log(self, b: Self) -> (r: Self) ensures f2(self, b) && self.v() > 0real && b.v() > 0real && b.v() != 1real ==> r.fin() && r.v() == r_ln(self.v()) / r_ln(b.v());
    fn exp_m1(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == r_exp(self.v()) - 1real;
    fn ln_1p(self) -> (r: Self) ensures self.fin() && self.v() > -1real ==> r.fin() && r.v() == r_ln(self.v() + 1real);
    fn to_radians(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == self.v() * (r_pi() / 180real);
    fn to_degrees(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() == self.v() * (180real / r_pi());
    fn sinh(self) -> (r: Self);
    fn cosh(self) -> (r: Self);
    fn tanh(self) -> (r: Self);
    fn atan(self) -> (r: Self);
    fn asin(self) -> (r: Self);
    fn acos(self) -> (r: Self);
    fn atan2(self, o: Self) -> (r: Self);
    fn cbrt(self) -> (r: Self) ensures self.fin() ==> r.fin() && r.v() * r.v() * r.v() == self.v();
    fn to_f32(&self) -> (r: Option<F32>) ensures r is Some, self.fin() ==> r->Some_0.fin() && r->Some_0.v() == rnd32(self.v());
    fn to_f64(&self) -> (r: Option<F64>) ensures r is Some, self.fin() ==> r->Some_0.fin() && r->Some_0.v() == self.v();
    fn to_usize(&self) -> (r: Option<usize>) ensures r is Some ==> self.fin() && r->Some_0 == r_trunc(self.v()), self.fin() && 0real <= self.v() <= 4294967295real ==> r is Some;
}
pub uninterp spec fn spec_sqrt<T: FBase>(x: T) -> T;
pub axiom fn ax_spec_sqrt<T: FBase>(x: T)
    ensures x.fin() && x.v() >= 0real ==> spec_sqrt(x).fin() && spec_sqrt(x).v() == r_sqrt(x.v());

/// exact arithmetic of the generic sample type
pub broadcast axiom fn ax_rnd_t<T: Float>(x: real) ensures #[trigger] <T as NumCast>::rnd(x) == x;

/// sign of a quotient (proved)
pub broadcast proof fn lemma_div_sign<T: FBase>(x: T, y: T)
    ensures #![trigger x.div_spec(y)]
        y.v() != 0real ==> (x.v() > 0real) == (y.v() > 0real && x.v() / y.v() > 0real || y.v() < 0real && x.v() / y.v() < 0real),
        y.v() != 0real ==> (x.v() == 0real) == (x.v() / y.v() == 0real),
{
    if y.v() != 0real {
    let (a, b) = (x.v(), y.v());
    let q = a / b;
    assert(q * b == a) by (nonlinear_arith) requires q == a / b, b != 0real;
    assert((q * b > 0real) == (b > 0real && q > 0real || b < 0real && q < 0real)) by (nonlinear_arith);
    assert((q * b == 0real) == (q == 0real)) by (nonlinear_arith) requires b != 0real;
    }
}

// rearrangements of quotients (proved); used only when an obligation fails without them
pub proof fn lemma_quot(a: real, b: real, c: real)
    ensures c != 0real ==> a * (b / c) == (a * b) / c && (b / c) * a == (a * b) / c && a * (b / c) == (a / c) * b
{
    if c != 0real {
    let q = b / c; let p = (a * b) / c; let s = a / c;
    assert(q * c == b) by (nonlinear_arith) requires q == b / c, c != 0real;
    assert(p * c == a * b) by (nonlinear_arith) requires p == (a * b) / c, c != 0real;
    assert(s * c == a) by (nonlinear_arith) requires s == a / c, c != 0real;
    assert(a * q == p) by (nonlinear_arith) requires q * c == b, p * c == a * b, c != 0real;
    assert(s * b == p) by (nonlinear_arith) requires s * c == a, p * c == a * b, c != 0real;
    }
}
pub proof fn lemma_quot2(a: real, b: real, c: real)
    ensures b != 0real && c != 0real ==> b * c != 0real && (a / b) / c == a / (b * c) && a / (b / c) == (a * c) / b
{
    if b != 0real && c != 0real {
    let p = a / b; let q = p / c; let d = b * c; 
    assert(d != 0real) by (nonlinear_arith) requires d == b * c, b != 0real, c != 0real;
    let s = a / d; let t = b / c; let u = a / t; let w = (a * c) / b;
    assert(p * b == a) by (nonlinear_arith) requires p == a / b, b != 0real;
    assert(q * c == p) by (nonlinear_arith) requires q == p / c, c != 0real;
    assert(s * d == a) by (nonlinear_arith) requires s == a / d, d != 0real;
    assert((q - s) * d == 0real) by (nonlinear_arith) requires d == b * c, q * c == p, p * b == a, s * d == a;
    assert(q == s) by (nonlinear_arith) requires (q - s) * d == 0real, d != 0real;
    assert(t * c == b) by (nonlinear_arith) requires t == b / c, c != 0real;
    assert(t != 0real) by (nonlinear_arith) requires t * c == b, b != 0real;
    assert(u * t == a) by (nonlinear_arith) requires u == a / t, t != 0real;
    assert(w * b == a * c) by (nonlinear_arith) requires w == (a * c) / b, b != 0real;
    assert((u - w) * b == 0real) by (nonlinear_arith) requires u * t == a, t * c == b, w * b == a * c;
    assert(u == w) by (nonlinear_arith) requires (u - w) * b == 0real, b != 0real;
    }
}
pub broadcast proof fn alg_mul_div<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger a.mul_spec(b.div_spec(c))]
        c.v() != 0real ==> a.v() * (b.v() / c.v()) == (a.v() * b.v()) / c.v() && a.v() * (b.v() / c.v()) == (a.v() / c.v()) * b.v()
{ lemma_quot(a.v(), b.v(), c.v()); }
pub broadcast proof fn alg_div_mul<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger b.div_spec(c).mul_spec(a)]
        c.v() != 0real ==> (b.v() / c.v()) * a.v() == (a.v() * b.v()) / c.v() && (b.v() / c.v()) * a.v() == (a.v() / c.v()) * b.v()
{ lemma_quot(a.v(), b.v(), c.v()); }
pub broadcast proof fn alg_div_div<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger a.div_spec(b).div_spec(c)]
        b.v() != 0real && c.v() != 0real ==> b.v() * c.v() != 0real && (a.v() / b.v()) / c.v() == a.v() / (b.v() * c.v())
{ lemma_quot2(a.v(), b.v(), c.v()); }
pub broadcast proof fn alg_div_quot<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger a.div_spec(b.div_spec(c))]
        b.v() != 0real && c.v() != 0real ==> a.v() / (b.v() / c.v()) == (a.v() * c.v()) / b.v()
{ lemma_quot2(a.v(), b.v(), c.v()); }
pub broadcast proof fn alg_div_prod<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger a.div_spec(b.mul_spec(c))]
        b.v() != 0real && c.v() != 0real ==> a.v() / (b.v() * c.v()) == (a.v() / b.v()) / c.v() && a.v() / (b.v() * c.v()) == (a.v() / c.v()) / b.v()
{ lemma_quot2(a.v(), b.v(), c.v()); lemma_quot2(a.v(), c.v(), b.v()); assert(b.v() * c.v() == c.v() * b.v()) by (nonlinear_arith); }
pub broadcast proof fn alg_prod_div<T: FBase>(a: T, b: T, c: T)
    ensures #![trigger a.mul_spec(b).div_spec(c)]
        c.v() != 0real ==> (a.v() * b.v()) / c.v() == a.v() * (b.v() / c.v()) && (a.v() * b.v()) / c.v() == (a.v() / c.v()) * b.v()
{ lemma_quot(a.v(), b.v(), c.v()); }
// facts of real analysis that relate two values of one function
pub broadcast axiom fn alg_exp_inv(x: real, y: real)
    ensures #![trigger r_exp(x), r_exp(y)] x + y == 0real ==> r_exp(x) == 1real / r_exp(y);
pub broadcast axiom fn alg_exp_sq(x: real, y: real)
    ensures #![trigger r_exp(x), r_exp(y)] y == 2real * x ==> r_exp(y) == r_exp(x) * r_exp(x);
pub broadcast axiom fn alg_cos_cos(x: real, y: real)
    ensures #![trigger r_cos(x), r_cos(y)] y == 2real * x ==> r_cos(y) == 2real * (r_cos(x) * r_cos(x)) - 1real;
pub broadcast axiom fn alg_sin_cos(x: real, y: real)
    ensures #![trigger r_sin(x), r_cos(y)] y == 2real * x ==> r_cos(y) == 1real - 2real * (r_sin(x) * r_sin(x));
pub broadcast axiom fn alg_sin_sin(x: real, y: real)
    ensures #![trigger r_sin(x), r_sin(y)] y == 2real * x ==> r_sin(y) == 2real * (r_sin(x) * r_cos(x));
pub broadcast axiom fn alg_pow_pow(b: real, x: real, y: real)
    ensures #![trigger r_pow(b, x), r_pow(b, y)] b > 0real ==> (y == 2real * x ==> r_pow(b, y) == r_pow(b, x) * r_pow(b, x)) && (x + y == 0real ==> r_pow(b, x) == 1real / r_pow(b, y));
pub broadcast axiom fn alg_sqrt_pow(b: real, x: real)
    ensures #![trigger r_sqrt(r_pow(b, x))] b > 0real ==> r_sqrt(r_pow(b, x)) == r_pow(b, x / 2real);
pub broadcast axiom fn alg_ln(x: real)
    ensures #![trigger r_ln(x)] (x > 1real ==> r_ln(x) > 0real) && (x > 0real ==> r_log10(x) == r_ln(x) / r_ln(10real));
pub broadcast axiom fn alg_exp_pow(b: real, y: real, z: real)
    ensures #![trigger r_exp(z), r_pow(b, y)] b > 0real && z == y * r_ln(b) ==> r_exp(z) == r_pow(b, y);
pub broadcast group alg { alg_mul_div, alg_div_mul, alg_div_div, alg_div_quot, alg_div_prod, alg_prod_div, alg_exp_inv, alg_exp_sq, alg_cos_cos, alg_sin_cos, alg_sin_sin, alg_pow_pow, alg_sqrt_pow, alg_ln, alg_exp_pow }

// ---- the module `num` -----------------------------------------------------
pub mod num {
    use vstd::prelude::*;
    use super::{NumCast, Float};
    #[verifier::external_body]
    pub fn zero<T: Float>() -> (r: T) ensures super::is_zero(r), !super::sign_neg(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn one<T: Float>() -> (r: T) ensures r.fin() && r.v() == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn cast<A: NumCast, B: NumCast>(a: A) -> (r: Option<B>)
        ensures B::is_float() ==> r is Some,
            B::is_float() && a.fin() ==> r->Some_0.fin() && r->Some_0.v() == B::rnd(a.v()),
            !B::is_float() && r is Some ==> r->Some_0.v() == super::r_trunc(a.v()) as real,
    { unimplemented!() }
}

// ---- primitive types ------------------------------------------------------
#[derive(Clone, Copy, PartialEq, PartialOrd)]
#[verifier::external_body]
pub struct F32 { x: f32 }
#[derive(Clone, Copy, PartialEq, PartialOrd)]
#[verifier::external_body]
pub struct F64 { x: f64 }

impl NumCast for F32 {
    uninterp spec fn v(self) -> real;
    uninterp spec fn fin(self) -> bool;
    uninterp spec fn nan(self) -> bool;
    open spec fn is_float() -> bool { true }
    open spec fn rnd(x: real) -> real { rnd32(x) }
}
impl NumCast for F64 {
    uninterp spec fn v(self) -> real;
    uninterp spec fn fin(self) -> bool;
    uninterp spec fn nan(self) -> bool;
    open spec fn is_float() -> bool { true }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for usize {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for isize {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for i32 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for u32 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for i64 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for u64 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for i16 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for u16 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for i8 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl NumCast for u8 {
    open spec fn v(self) -> real { self as int as real }
    open spec fn fin(self) -> bool { true }
    open spec fn nan(self) -> bool { false }
    open spec fn is_float() -> bool { false }
    open spec fn rnd(x: real) -> real { x }
}
impl core::ops::Add for F32 { type Output = F32; #[verifier::external_body] fn add(self, o: F32) -> F32 { F32 { x: self.x + o.x } } }
impl core::ops::Sub for F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: F32) -> F32 { F32 { x: self.x - o.x } } }
impl core::ops::Mul for F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: F32) -> F32 { F32 { x: self.x * o.x } } }
impl core::ops::Div for F32 { type Output = F32; #[verifier::external_body] fn div(self, o: F32) -> F32 { F32 { x: self.x / o.x } } }
impl core::ops::Neg for F32 { type Output = F32; #[verifier::external_body] fn neg(self) -> F32 { F32 { x: -self.x } } }
impl FBase for F32 {}
impl F32 {
    #[verifier::external_body]
    pub fn v_max(self, o: F32) -> (r: F32) ensures f2(self, o) ==> r.fin() && r.v() == r_max(self.v(), o.v()),
        self.nan() ==> r == o, o.nan() ==> r == self, r == self || r == o,
        pos_inf(self) && !o.nan() ==> r == self, pos_inf(o) && !self.nan() ==> r == o,
        neg_inf(self) && !o.nan() ==> r == o, neg_inf(o) && !self.nan() ==> r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_min(self, o: F32) -> (r: F32) ensures f2(self, o) ==> r.fin() && r.v() == r_min(self.v(), o.v()),
        self.nan() ==> r == o, o.nan() ==> r == self, r == self || r == o,
        pos_inf(self) && !o.nan() ==> r == o, pos_inf(o) && !self.nan() ==> r == self,
        neg_inf(self) && !o.nan() ==> r == self, neg_inf(o) && !self.nan() ==> r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn v_abs(self) -> (r: F32) ensures self.fin() ==> r.fin() && r.v() == r_abs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: F32) ensures self.fin() ==> r.fin() && r.v() == r_floor(self.v()) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(self) -> (r: F32) ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == r_floor(self.v()) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(self) -> (r: F32) ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == rnd32(self.v() - r_floor(self.v()) as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.fin() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_infinite(self) -> (r: bool) ensures r == (!self.fin() && !self.nan()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(self) -> (r: bool) ensures r == sign_neg(self) { unimplemented!() }
}
impl core::ops::Add for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { F64 { x: self.x + o.x } } }
impl core::ops::Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { F64 { x: self.x - o.x } } }
impl core::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { F64 { x: self.x * o.x } } }
impl core::ops::Div for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { F64 { x: self.x / o.x } } }
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { F64 { x: -self.x } } }
impl FBase for F64 {}
impl F64 {
    #[verifier::external_body]
    pub fn v_max(self, o: F64) -> (r: F64) ensures f2(self, o) ==> r.fin() && r.v() == r_max(self.v(), o.v()),
        self.nan() ==> r == o, o.nan() ==> r == self, r == self || r == o,
        pos_inf(self) && !o.nan() ==> r == self, pos_inf(o) && !self.nan() ==> r == o,
        neg_inf(self) && !o.nan() ==> r == o, neg_inf(o) && !self.nan() ==> r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_min(self, o: F64) -> (r: F64) ensures f2(self, o) ==> r.fin() && r.v() == r_min(self.v(), o.v()),
        self.nan() ==> r == o, o.nan() ==> r == self, r == self || r == o,
        pos_inf(self) && !o.nan() ==> r == o, pos_inf(o) && !self.nan() ==> r == self,
        neg_inf(self) && !o.nan() ==> r == self, neg_inf(o) && !self.nan() ==> r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn v_abs(self) -> (r: F64) ensures self.fin() ==> r.fin() && r.v() == r_abs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: F64) ensures self.fin() ==> r.fin() && r.v() == r_floor(self.v()) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(self) -> (r: F64) ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == r_floor(self.v()) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(self) -> (r: F64) ensures self.fin() && self.v() >= 0real ==> r.fin() && r.v() == (self.v() - r_floor(self.v()) as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.fin() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.nan() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_infinite(self) -> (r: bool) ensures r == (!self.fin() && !self.nan()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(self) -> (r: bool) ensures r == sign_neg(self) { unimplemented!() }
}
pub trait CastTo<B>: Sized {
    spec fn cast_rel(self, r: B) -> bool;
    fn cast_to(self) -> (r: B) ensures CastTo::<B>::cast_rel(self, r);
}
impl CastTo<F32> for usize { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for usize { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<usize> for F32 { open spec fn cast_rel(self, r: usize) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), usize::MIN as int, usize::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> usize { unimplemented!() } }
impl CastTo<usize> for F64 { open spec fn cast_rel(self, r: usize) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), usize::MIN as int, usize::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> usize { unimplemented!() } }
impl CastTo<F32> for isize { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for isize { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<isize> for F32 { open spec fn cast_rel(self, r: isize) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), isize::MIN as int, isize::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> isize { unimplemented!() } }
impl CastTo<isize> for F64 { open spec fn cast_rel(self, r: isize) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), isize::MIN as int, isize::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> isize { unimplemented!() } }
impl CastTo<F32> for i32 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for i32 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<i32> for F32 { open spec fn cast_rel(self, r: i32) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i32::MIN as int, i32::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i32 { unimplemented!() } }
impl CastTo<i32> for F64 { open spec fn cast_rel(self, r: i32) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i32::MIN as int, i32::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i32 { unimplemented!() } }
impl CastTo<F32> for u32 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for u32 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<u32> for F32 { open spec fn cast_rel(self, r: u32) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u32::MIN as int, u32::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u32 { unimplemented!() } }
impl CastTo<u32> for F64 { open spec fn cast_rel(self, r: u32) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u32::MIN as int, u32::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u32 { unimplemented!() } }
impl CastTo<F32> for i64 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for i64 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<i64> for F32 { open spec fn cast_rel(self, r: i64) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i64::MIN as int, i64::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i64 { unimplemented!() } }
impl CastTo<i64> for F64 { open spec fn cast_rel(self, r: i64) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i64::MIN as int, i64::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i64 { unimplemented!() } }
impl CastTo<F32> for u64 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == rnd32(self as int as real) && (-16777216 <= self as int <= 16777216 ==> r.v() == self as int as real)) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for u64 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<u64> for F32 { open spec fn cast_rel(self, r: u64) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u64::MIN as int, u64::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u64 { unimplemented!() } }
impl CastTo<u64> for F64 { open spec fn cast_rel(self, r: u64) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u64::MIN as int, u64::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u64 { unimplemented!() } }
impl CastTo<F32> for i16 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<i16> for F32 { open spec fn cast_rel(self, r: i16) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i16::MIN as int, i16::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i16 { unimplemented!() } }
impl CastTo<F64> for i16 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<i16> for F64 { open spec fn cast_rel(self, r: i16) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i16::MIN as int, i16::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i16 { unimplemented!() } }
impl CastTo<F32> for u16 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<u16> for F32 { open spec fn cast_rel(self, r: u16) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u16::MIN as int, u16::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u16 { unimplemented!() } }
impl CastTo<F64> for u16 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<u16> for F64 { open spec fn cast_rel(self, r: u16) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u16::MIN as int, u16::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u16 { unimplemented!() } }
impl CastTo<F32> for i8 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<i8> for F32 { open spec fn cast_rel(self, r: i8) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i8::MIN as int, i8::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i8 { unimplemented!() } }
impl CastTo<F64> for i8 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<i8> for F64 { open spec fn cast_rel(self, r: i8) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), i8::MIN as int, i8::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> i8 { unimplemented!() } }
impl CastTo<F32> for u8 { open spec fn cast_rel(self, r: F32) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<u8> for F32 { open spec fn cast_rel(self, r: u8) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u8::MIN as int, u8::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u8 { unimplemented!() } }
impl CastTo<F64> for u8 { open spec fn cast_rel(self, r: F64) -> bool { (r.fin() && r.v() == self as int as real) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<u8> for F64 { open spec fn cast_rel(self, r: u8) -> bool { (self.fin() ==> r as int == clampi(r_trunc(self.v()), u8::MIN as int, u8::MAX as int)) && (self.nan() ==> r == 0) } #[verifier::external_body] fn cast_to(self) -> u8 { unimplemented!() } }
impl CastTo<i16> for i16 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for i16 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for i16 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for i16 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<usize> for i16 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for i16 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for i16 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for i16 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for i16 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for i16 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<i16> for u16 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for u16 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for u16 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for u16 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<usize> for u16 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for u16 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for u16 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for u16 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for u16 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for u16 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<i16> for i8 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for i8 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for i8 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for i8 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<usize> for i8 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for i8 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for i8 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for i8 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for i8 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for i8 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<i16> for u8 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for u8 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for u8 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for u8 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<usize> for u8 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for u8 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for u8 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for u8 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for u8 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for u8 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<i16> for usize { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for usize { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for usize { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for usize { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<i16> for isize { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for isize { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for isize { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for isize { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<i16> for i32 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for i32 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for i32 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for i32 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<i16> for u32 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for u32 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for u32 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for u32 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<i16> for i64 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for i64 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for i64 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for i64 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<i16> for u64 { open spec fn cast_rel(self, r: i16) -> bool { r == self as i16 } #[verifier::truncate] fn cast_to(self) -> i16 { self as i16 } }
impl CastTo<u16> for u64 { open spec fn cast_rel(self, r: u16) -> bool { r == self as u16 } #[verifier::truncate] fn cast_to(self) -> u16 { self as u16 } }
impl CastTo<i8> for u64 { open spec fn cast_rel(self, r: i8) -> bool { r == self as i8 } #[verifier::truncate] fn cast_to(self) -> i8 { self as i8 } }
impl CastTo<u8> for u64 { open spec fn cast_rel(self, r: u8) -> bool { r == self as u8 } #[verifier::truncate] fn cast_to(self) -> u8 { self as u8 } }
impl CastTo<F64> for F32 { open spec fn cast_rel(self, r: F64) -> bool { (self.fin() ==> r.fin() && r.v() == self.v()) && (self.fin() == r.fin()) && (self.nan() == r.nan()) && (neg_inf(self) == neg_inf(r)) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<F32> for F64 { open spec fn cast_rel(self, r: F32) -> bool { (self.fin() ==> r.fin() && r.v() == rnd32(self.v())) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F32> for F32 { open spec fn cast_rel(self, r: F32) -> bool { (r == self) } #[verifier::external_body] fn cast_to(self) -> F32 { unimplemented!() } }
impl CastTo<F64> for F64 { open spec fn cast_rel(self, r: F64) -> bool { (r == self) } #[verifier::external_body] fn cast_to(self) -> F64 { unimplemented!() } }
impl CastTo<usize> for usize { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for usize { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for usize { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for usize { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for usize { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for usize { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<usize> for isize { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for isize { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for isize { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for isize { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for isize { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for isize { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<usize> for i32 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for i32 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for i32 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for i32 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for i32 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for i32 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<usize> for u32 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for u32 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for u32 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for u32 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for u32 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for u32 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<usize> for i64 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for i64 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for i64 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for i64 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for i64 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for i64 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }
impl CastTo<usize> for u64 { open spec fn cast_rel(self, r: usize) -> bool { r == self as usize } #[verifier::truncate] fn cast_to(self) -> usize { self as usize } }
impl CastTo<isize> for u64 { open spec fn cast_rel(self, r: isize) -> bool { r == self as isize } #[verifier::truncate] fn cast_to(self) -> isize { self as isize } }
impl CastTo<i32> for u64 { open spec fn cast_rel(self, r: i32) -> bool { r == self as i32 } #[verifier::truncate] fn cast_to(self) -> i32 { self as i32 } }
impl CastTo<u32> for u64 { open spec fn cast_rel(self, r: u32) -> bool { r == self as u32 } #[verifier::truncate] fn cast_to(self) -> u32 { self as u32 } }
impl CastTo<i64> for u64 { open spec fn cast_rel(self, r: i64) -> bool { r == self as i64 } #[verifier::truncate] fn cast_to(self) -> i64 { self as i64 } }
impl CastTo<u64> for u64 { open spec fn cast_rel(self, r: u64) -> bool { r == self as u64 } #[verifier::truncate] fn cast_to(self) -> u64 { self as u64 } }

#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }

#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x
{ unimplemented!() }


// ---- integer methods (bodies verified) and std functions vstd has no contract for ----
pub trait VInt: Sized {
    spec fn i(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    fn v_min(self, o: Self) -> (r: Self) ensures r.i() == (if self.i() <= o.i() { self.i() } else { o.i() }), r == self || r == o;
    fn v_max(self, o: Self) -> (r: Self) ensures r.i() == (if self.i() > o.i() { self.i() } else { o.i() }), r == self || r == o;
    fn v_clamp(self, a: Self, b: Self) -> (r: Self) requires a.i() <= b.i() ensures r.i() == clampi(self.i(), a.i(), b.i());
    fn v_saturating_sub(self, o: Self) -> (r: Self) ensures r.i() == clampi(self.i() - o.i(), Self::lo(), Self::hi());
    fn v_saturating_add(self, o: Self) -> (r: Self) ensures r.i() == clampi(self.i() + o.i(), Self::lo(), Self::hi());
    fn v_wrapping_sub(self, o: Self) -> (r: Self)
        ensures r.i() == self.i() - o.i() || r.i() == self.i() - o.i() + (Self::hi() - Self::lo() + 1) || r.i() == self.i() - o.i() - (Self::hi() - Self::lo() + 1),
            Self::lo() <= r.i() <= Self::hi();
    fn v_wrapping_add(self, o: Self) -> (r: Self)
        ensures r.i() == self.i() + o.i() || r.i() == self.i() + o.i() + (Self::hi() - Self::lo() + 1) || r.i() == self.i() + o.i() - (Self::hi() - Self::lo() + 1),
            Self::lo() <= r.i() <= Self::hi();
    fn v_checked_sub(self, o: Self) -> (r: Option<Self>)
        ensures Self::lo() <= self.i() - o.i() <= Self::hi() ==> r is Some && r->Some_0.i() == self.i() - o.i(),
            !(Self::lo() <= self.i() - o.i() <= Self::hi()) ==> r is None;
    fn v_checked_add(self, o: Self) -> (r: Option<Self>)
        ensures Self::lo() <= self.i() + o.i() <= Self::hi() ==> r is Some && r->Some_0.i() == self.i() + o.i(),
            !(Self::lo() <= self.i() + o.i() <= Self::hi()) ==> r is None;
    fn v_rem_euclid(self, o: Self) -> (r: Self) requires o.i() > 0 ensures r.i() == self.i() % o.i();
}
impl VInt for usize {
    open spec fn i(self) -> int { self as int }
    open spec fn lo() -> int { usize::MIN as int }
    open spec fn hi() -> int { usize::MAX as int }
    fn v_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn v_max(self, o: Self) -> (r: Self) { if self > o { self } else { o } }
    fn v_clamp(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn v_saturating_sub(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn v_saturating_add(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn v_wrapping_sub(self, o: Self) -> (r: Self) { self.wrapping_sub(o) }
    #[verifier::external_body] fn v_wrapping_add(self, o: Self) -> (r: Self) { self.wrapping_add(o) }
    #[verifier::external_body] fn v_checked_sub(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    #[verifier::external_body] fn v_checked_add(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    #[verifier::external_body] fn v_rem_euclid(self, o: Self) -> (r: Self) { self.rem_euclid(o) }
}
impl VInt for isize {
    open spec fn i(self) -> int { self as int }
    open spec fn lo() -> int { isize::MIN as int }
    open spec fn hi() -> int { isize::MAX as int }
    fn v_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn v_max(self, o: Self) -> (r: Self) { if self > o { self } else { o } }
    fn v_clamp(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn v_saturating_sub(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn v_saturating_add(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn v_wrapping_sub(self, o: Self) -> (r: Self) { self.wrapping_sub(o) }
    #[verifier::external_body] fn v_wrapping_add(self, o: Self) -> (r: Self) { self.wrapping_add(o) }
    #[verifier::external_body] fn v_checked_sub(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    #[verifier::external_body] fn v_checked_add(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    #[verifier::external_body] fn v_rem_euclid(self, o: Self) -> (r: Self) { self.rem_euclid(o) }
}

pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], x: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> vstd::pervasive::cloned::<T>(x, #[trigger] final(s)@[i]);
pub assume_specification<T>[ core::mem::replace ](d: &mut T, x: T) -> (r: T)
    ensures r == *old(d), *final(d) == x;
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

// ---- std methods on vectors and slices of Copy values, as operations on sequences ----
pub trait VVec<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_extend_from_slice(&mut self, s: &[T]) ensures final(self).sq() == old(self).sq() + s@;
    fn v_extend_vec(&mut self, s: Vec<T>) ensures final(self).sq() == old(self).sq() + s@;
    fn v_extend_repeat(&mut self, x: T, n: usize) ensures final(self).sq() == old(self).sq() + Seq::new(n as nat, |i: int| x);
    fn v_resize(&mut self, n: usize, x: T)
        ensures n <= old(self).sq().len() ==> final(self).sq() == old(self).sq().subrange(0, n as int),
            n > old(self).sq().len() ==> final(self).sq() == old(self).sq() + Seq::new((n - old(self).sq().len()) as nat, |i: int| x);
}
impl<T: Copy> VVec<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_extend_from_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
    #[verifier::external_body] fn v_extend_vec(&mut self, s: Vec<T>) { self.extend(s) }
    #[verifier::external_body] fn v_extend_repeat(&mut self, x: T, n: usize) { self.resize(self.len() + n, x) }
    #[verifier::external_body] fn v_resize(&mut self, n: usize, x: T) { self.resize(n, x) }
}
pub trait VSlice<T> {
    spec fn ssq(&self) -> Seq<T>;
    fn v_slice(&self) -> (r: &[T]) ensures r@ == self.ssq();
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.ssq();
    fn v_copy_from_slice(&mut self, s: &[T]) requires old(self).ssq().len() == s@.len() ensures final(self).ssq() == s@;
    fn v_rotate_left(&mut self, k: usize) requires k <= old(self).ssq().len()
        ensures final(self).ssq() == old(self).ssq().subrange(k as int, old(self).ssq().len() as int) + old(self).ssq().subrange(0, k as int);
    fn v_rotate_right(&mut self, k: usize) requires k <= old(self).ssq().len()
        ensures final(self).ssq() == old(self).ssq().subrange(old(self).ssq().len() - k, old(self).ssq().len() as int) + old(self).ssq().subrange(0, old(self).ssq().len() - k);
}
impl<T: Copy> VSlice<T> for Vec<T> {
    open spec fn ssq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_slice(&self) -> &[T] { self }
    #[verifier::external_body] fn v_to_vec(&self) -> Vec<T> { self.to_vec() }
    #[verifier::external_body] fn v_copy_from_slice(&mut self, s: &[T]) { self.copy_from_slice(s) }
    #[verifier::external_body] fn v_rotate_left(&mut self, k: usize) { self.rotate_left(k) }
    #[verifier::external_body] fn v_rotate_right(&mut self, k: usize) { self.rotate_right(k) }
}
impl<T: Copy> VSlice<T> for [T] {
    open spec fn ssq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_slice(&self) -> &[T] { self }
    #[verifier::external_body] fn v_to_vec(&self) -> Vec<T> { self.to_vec() }
    #[verifier::external_body] fn v_copy_from_slice(&mut self, s: &[T]) { self.copy_from_slice(s) }
    #[verifier::external_body] fn v_rotate_left(&mut self, k: usize) { self.rotate_left(k) }
    #[verifier::external_body] fn v_rotate_right(&mut self, k: usize) { self.rotate_right(k) }
}

/// the constants of std::f32::consts / std::f64::consts the code may use
pub mod fconst {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn f32_PI() -> (r: F32) ensures r.fin() && r.v() == r_pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn f64_PI() -> (r: F64) ensures r.fin() && r.v() == r_pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn f32_TAU() -> (r: F32) ensures r.fin() && r.v() == 2real * r_pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn f64_TAU() -> (r: F64) ensures r.fin() && r.v() == 2real * r_pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn f32_FRAC_PI_2() -> (r: F32) ensures r.fin() && r.v() == r_pi() / 2real { unimplemented!() }
    #[verifier::external_body]
    pub fn f64_FRAC_PI_2() -> (r: F64) ensures r.fin() && r.v() == r_pi() / 2real { unimplemented!() }
}

pub broadcast group grp {
    ax_rnd_zero, ax_floor, ax_sqrt, ax_exp, ax_cos, ax_sin, ax_pi, ax_pow, ax_class, ax_is_float,
    ax_add, ax_add_req, ax_add_ob, ax_sub, ax_sub_req, ax_sub_ob,
    ax_mul, ax_mul_req, ax_mul_ob, ax_div, ax_div_req, ax_div_ob,
    ax_neg, ax_neg_req, ax_neg_ob, ax_cmp, ax_cmp_ob, ax_eq, ax_eq_ob, ax_cmp_inf, ax_sign,
    ax_cloned, ax_rnd_t, lemma_wrap, lemma_div_sign,
}
} // mod shim
