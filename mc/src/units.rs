//! A uniform view of all processors of the crate, for the properties that quantify over them.

use num::traits::Float;
use rasp::analysis::*;
use rasp::delay::*;
use rasp::filter::rbj::*;
use rasp::filter::*;
use rasp::traits::*;
use std::fmt::Debug;

/// f32 or f64.
pub trait S: Float + FloatConst + Debug + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    const IS32: bool;
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64;
}
impl S for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const IS32: bool = true;
    fn f(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl S for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const IS32: bool = false;
    fn f(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

/// Equal as numbers, or both NaN.
#[inline]
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Equal, or both NaN, or within `rel` of the larger of the two and `scale`.
#[inline]
pub fn near(a: f64, b: f64, rel: f64, scale: f64) -> bool {
    same(a, b) || (a - b).abs() <= rel * a.abs().max(b.abs()).max(scale)
}

pub trait Unit<T: S>: Processor<T> + Sized + 'static {
    const NAME: &'static str;
    /// Linear and time-invariant for fixed parameters.
    const LTI: bool;
    /// A parameter change forgets the history.
    const RESETS: bool = false;
    fn fresh() -> Self;
    /// Parameter settings: `param(0..nparam())`. All weights are such that short runs are exact
    /// where the processor's parameters are free.
    fn nparam() -> usize;
    fn param(&mut self, i: usize);
    /// Further operations on the data (taps, peeks).
    fn nextra() -> usize {
        0
    }
    fn extra(&mut self, _i: usize) {}
    /// Non-mutating observations other than last_out.
    fn probe(&self) -> Vec<f64> {
        vec![]
    }
}

fn f<T: S>(x: f64) -> T {
    T::f(x)
}

impl<T: S> Unit<T> for Biquad1<T> {
    const NAME: &'static str = "Biquad1";
    const LTI: bool = true;
    fn fresh() -> Self {
        Biquad1::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(0.25), f(-0.5), f(0.5), f(-0.25)),
            1 => self.set_coefficients(f(1.0), f(-1.0), f(0.75), f(-0.5), f(0.5)),
            _ => {
                self.b1 = f(2.0);
                self.a2 = f(0.125)
            }
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.b1.d(), self.b2.d(), self.a1.d(), self.a2.d()]
    }
}
impl<T: S> Unit<T> for Biquad2<T> {
    const NAME: &'static str = "Biquad2";
    const LTI: bool = true;
    fn fresh() -> Self {
        Biquad2::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(0.25), f(-0.5), f(0.5), f(-0.25)),
            1 => self.set_coefficients(f(1.0), f(-1.0), f(0.75), f(-0.5), f(0.5)),
            _ => {
                self.b1 = f(2.0);
                self.a2 = f(0.125)
            }
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.b1.d(), self.b2.d(), self.a1.d(), self.a2.d()]
    }
}
impl<T: S> Unit<T> for OnePole<T> {
    const NAME: &'static str = "OnePole";
    const LTI: bool = true;
    fn fresh() -> Self {
        OnePole::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(-0.5)),
            1 => self.set_coefficients(f(2.0), f(0.25)),
            _ => self.a1 = f(0.75),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.a1.d()]
    }
}
impl<T: S> Unit<T> for OneZero<T> {
    const NAME: &'static str = "OneZero";
    const LTI: bool = true;
    fn fresh() -> Self {
        OneZero::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(-0.5)),
            1 => self.set_coefficients(f(2.0), f(0.25)),
            _ => self.b1 = f(0.75),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.b1.d()]
    }
}
impl<T: S> Unit<T> for TwoPole<T> {
    const NAME: &'static str = "TwoPole";
    const LTI: bool = true;
    fn fresh() -> Self {
        TwoPole::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(-0.5), f(0.25)),
            1 => self.set_coefficients(f(2.0), f(0.25), f(-0.5)),
            _ => self.a2 = f(0.75),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.a1.d(), self.a2.d()]
    }
}
impl<T: S> Unit<T> for TwoZero<T> {
    const NAME: &'static str = "TwoZero";
    const LTI: bool = true;
    fn fresh() -> Self {
        TwoZero::new()
    }
    fn nparam() -> usize {
        3
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_coefficients(f(0.5), f(-0.5), f(0.25)),
            1 => self.set_coefficients(f(2.0), f(0.25), f(-0.5)),
            _ => self.b2 = f(0.75),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.b0.d(), self.b1.d(), self.b2.d()]
    }
}
impl<T: S> Unit<T> for LeakyIntegrator<T> {
    const NAME: &'static str = "LeakyIntegrator";
    const LTI: bool = true;
    fn fresh() -> Self {
        LeakyIntegrator::new()
    }
    fn nparam() -> usize {
        4
    }
    fn param(&mut self, i: usize) {
        self.set_alpha(f([0.5, 0.75, 0.0, 1.0][i]))
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.get_alpha().d()]
    }
}
impl<T: S> Unit<T> for PeakEnvDetector<T> {
    const NAME: &'static str = "PeakEnvDetector";
    const LTI: bool = false;
    fn fresh() -> Self {
        PeakEnvDetector::new()
    }
    fn nparam() -> usize {
        4
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_attack(f(2.0)),
            1 => self.set_release(f(3.0)),
            2 => self.set_attack(f(100.0)),
            _ => self.set_release(f(0.0)),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.get_attack_gain().d(), self.get_release_gain().d()]
    }
}
impl<T: S> Unit<T> for RmsEnvDetector<T> {
    const NAME: &'static str = "RmsEnvDetector";
    const LTI: bool = false;
    fn fresh() -> Self {
        RmsEnvDetector::new()
    }
    fn nparam() -> usize {
        4
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_attack(f(2.0)),
            1 => self.set_release(f(3.0)),
            2 => self.set_attack(f(100.0)),
            _ => self.set_release(f(0.0)),
        }
    }
    fn probe(&self) -> Vec<f64> {
        vec![self.get_attack_gain().d(), self.get_release_gain().d()]
    }
}
impl<T: S> Unit<T> for Delay<T> {
    const NAME: &'static str = "Delay";
    const LTI: bool = true;
    fn fresh() -> Self {
        Delay::new(2, 3)
    }
    fn nparam() -> usize {
        5
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_delay(1),
            1 => self.set_delay(3),
            2 => self.set_delay(0),
            3 => self.set_delay(9),
            _ => self.set_max_delay(5),
        }
    }
    fn nextra() -> usize {
        4
    }
    fn extra(&mut self, i: usize) {
        match i {
            0 => {
                self.next_out();
            }
            1 => self.tap_in(f(0.5), 1),
            2 => {
                self.add_to(f(2.0), 3);
            }
            _ => {
                self.tap_out(2);
            }
        }
    }
    fn probe(&self) -> Vec<f64> {
        let mut v = vec![self.get_delay() as f64, self.get_max_delay() as f64];
        for k in 0..self.get_max_delay() + 1 {
            v.push(self.tap_out(k).d());
        }
        v
    }
}
impl<T: S> Unit<T> for LinearDelay<T> {
    const NAME: &'static str = "LinearDelay";
    const LTI: bool = true;
    fn fresh() -> Self {
        LinearDelay::new(1.5, 3)
    }
    fn nparam() -> usize {
        6
    }
    fn param(&mut self, i: usize) {
        match i {
            0 => self.set_delay(1.0),
            1 => self.set_delay(2.25),
            2 => self.set_delay(0.0),
            3 => self.set_delay(0.5),
            4 => self.set_delay(9.0),
            _ => self.set_max_delay(5),
        }
    }
    fn nextra() -> usize {
        4
    }
    fn extra(&mut self, i: usize) {
        match i {
            0 => {
                self.next_out();
            }
            1 => self.tap_in(f(0.5), 1),
            2 => {
                self.add_to(f(2.0), 3);
            }
            _ => {
                self.tap_out(2);
            }
        }
    }
    fn probe(&self) -> Vec<f64> {
        let mut v = vec![self.get_delay() as f64, self.get_max_delay() as f64];
        for k in 0..self.get_max_delay() + 1 {
            v.push(self.tap_out(k).d());
        }
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Low,
    High,
    Band1,
    Band2,
    Stop,
    All,
    Peak,
    LowShelf,
    HighShelf,
}

/// The RBJ designs, with their parameters in one shape. `q` is the slope for the shelves.
pub trait Rbj<T: S>: Unit<T> {
    const KIND: Kind;
    const HAS_GAIN: bool;
    fn set(&mut self, rate: f64, freq: f64, gain: f64, q: f64);
}

macro_rules! rbj {
    ($ty:ident, $kind:expr, gain) => {
        rbj!(@impl $ty, $kind, true);
        impl<T: S> Rbj<T> for $ty<T> {
            const KIND: Kind = $kind;
            const HAS_GAIN: bool = true;
            fn set(&mut self, rate: f64, freq: f64, gain: f64, q: f64) {
                self.set_coefficients(T::f(rate), T::f(freq), T::f(gain), T::f(q))
            }
        }
    };
    ($ty:ident, $kind:expr, q) => {
        rbj!(@impl $ty, $kind, false);
        impl<T: S> Rbj<T> for $ty<T> {
            const KIND: Kind = $kind;
            const HAS_GAIN: bool = false;
            fn set(&mut self, rate: f64, freq: f64, _gain: f64, q: f64) {
                self.set_coefficients(T::f(rate), T::f(freq), T::f(q))
            }
        }
    };
    (@impl $ty:ident, $kind:expr, $g:expr) => {
        impl<T: S> Unit<T> for $ty<T> {
            const NAME: &'static str = stringify!($ty);
            const LTI: bool = true;
            const RESETS: bool = true;
            fn fresh() -> Self {
                $ty::new()
            }
            fn nparam() -> usize {
                5
            }
            fn param(&mut self, i: usize) {
                match i {
                    0 => self.set(44100.0, 6000.0, 6.0, 0.75),
                    1 => self.set(48000.0, 15000.0, -9.0, 0.5),
                    2 => self.set(44100.0, 6000.0, 0.0, 1.0),
                    3 => self.set(96000.0, 6000.0, 6.0, 0.75),
                    _ => self.set(44100.0, 6000.0, 6.0, 0.25),
                }
            }
        }
    };
}
rbj!(LowPass, Kind::Low, q);
rbj!(HighPass, Kind::High, q);
rbj!(BandPass1, Kind::Band1, q);
rbj!(BandPass2, Kind::Band2, q);
rbj!(BandStop, Kind::Stop, q);
rbj!(AllPass, Kind::All, q);
rbj!(Peak, Kind::Peak, gain);
rbj!(LowShelf, Kind::LowShelf, gain);
rbj!(HighShelf, Kind::HighShelf, gain);

/// Calls `$f::<T, Unit>($args)` for every processor type at one sample type.
#[macro_export]
macro_rules! each_unit_at {
    ($t:ty, $f:ident ( $($a:expr),* )) => {{
        $f::<$t, rasp::filter::OnePole<$t>>($($a),*);
        $f::<$t, rasp::filter::OneZero<$t>>($($a),*);
        $f::<$t, rasp::filter::TwoPole<$t>>($($a),*);
        $f::<$t, rasp::filter::TwoZero<$t>>($($a),*);
        $f::<$t, rasp::filter::Biquad1<$t>>($($a),*);
        $f::<$t, rasp::filter::Biquad2<$t>>($($a),*);
        $f::<$t, rasp::delay::Delay<$t>>($($a),*);
        $f::<$t, rasp::delay::LinearDelay<$t>>($($a),*);
        $f::<$t, rasp::analysis::LeakyIntegrator<$t>>($($a),*);
        $f::<$t, rasp::analysis::PeakEnvDetector<$t>>($($a),*);
        $f::<$t, rasp::analysis::RmsEnvDetector<$t>>($($a),*);
        $crate::each_rbj_at!($t, $f($($a),*));
    }};
}
#[macro_export]
macro_rules! each_rbj_at {
    ($t:ty, $f:ident ( $($a:expr),* )) => {{
        $f::<$t, rasp::filter::rbj::LowPass<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::HighPass<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::BandPass1<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::BandPass2<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::BandStop<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::AllPass<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::Peak<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::LowShelf<$t>>($($a),*);
        $f::<$t, rasp::filter::rbj::HighShelf<$t>>($($a),*);
    }};
}
#[macro_export]
macro_rules! each_unit {
    ($f:ident ( $($a:expr),* )) => {{
        $crate::each_unit_at!(f32, $f($($a),*));
        $crate::each_unit_at!(f64, $f($($a),*));
    }};
}
#[macro_export]
macro_rules! each_rbj {
    ($f:ident ( $($a:expr),* )) => {{
        $crate::each_rbj_at!(f32, $f($($a),*));
        $crate::each_rbj_at!(f64, $f($($a),*));
    }};
}

// ---- the same view behind a vtable, so that scenarios over all processors are compiled once ----

/// A real processor of any type; samples cross the boundary as f64 (exact for f32 values).
pub trait Obj {
    fn process(&mut self, x: f64) -> f64;
    fn process_block(&mut self, xs: &mut [f64]) -> f64;
    fn clear(&mut self);
    fn last_out(&self) -> f64;
    fn param(&mut self, i: usize);
    fn extra(&mut self, i: usize);
    fn probe(&self) -> Vec<f64>;
}

struct Wrap<T, U>(U, std::marker::PhantomData<T>);

impl<T: S, U: Unit<T>> Obj for Wrap<T, U> {
    fn process(&mut self, x: f64) -> f64 {
        self.0.process(T::f(x)).d()
    }
    fn process_block(&mut self, xs: &mut [f64]) -> f64 {
        let mut b: Vec<T> = xs.iter().map(|x| T::f(*x)).collect();
        let r = self.0.process_block(&mut b).d();
        for (x, y) in xs.iter_mut().zip(&b) {
            *x = y.d();
        }
        r
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn last_out(&self) -> f64 {
        self.0.last_out().d()
    }
    fn param(&mut self, i: usize) {
        self.0.param(i)
    }
    fn extra(&mut self, i: usize) {
        self.0.extra(i)
    }
    fn probe(&self) -> Vec<f64> {
        self.0.probe()
    }
}

/// Tells whether a type is Send, without requiring it.
pub struct Probe<X>(std::marker::PhantomData<X>);
pub trait IsSend {
    fn is_send(&self) -> bool {
        true
    }
}
pub trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<X: Send> IsSend for Probe<X> {}
impl<X> NotSend for &Probe<X> {}

macro_rules! sends {
    ($v:ident, $t:ty, $($ty:ident)*) => { $(
        $v.push((concat!(stringify!($ty), "<", stringify!($t), ">"), (&Probe::<$ty<$t>>(std::marker::PhantomData)).is_send()));
    )* };
}

/// Whether each processor type may be moved to another thread.
pub fn sendable() -> Vec<(&'static str, bool)> {
    let mut v = vec![];
    sends!(v, f32, OnePole OneZero TwoPole TwoZero Biquad1 Biquad2 Delay LinearDelay LeakyIntegrator PeakEnvDetector
        RmsEnvDetector LowPass HighPass BandPass1 BandPass2 BandStop AllPass Peak LowShelf HighShelf);
    sends!(v, f64, OnePole OneZero TwoPole TwoZero Biquad1 Biquad2 Delay LinearDelay LeakyIntegrator PeakEnvDetector
        RmsEnvDetector LowPass HighPass BandPass1 BandPass2 BandStop AllPass Peak LowShelf HighShelf);
    v
}

#[derive(Clone, Copy)]
pub struct Desc {
    pub name: &'static str,
    pub t: &'static str,
    pub eps: f64,
    pub is32: bool,
    pub lti: bool,
    pub resets: bool,
    pub nparam: usize,
    pub nextra: usize,
    pub make: fn() -> Box<dyn Obj>,
}

impl Desc {
    pub fn fresh(&self) -> Box<dyn Obj> {
        (self.make)()
    }
    pub fn show(&self, kind: &str) -> String {
        format!("{}/{}<{}>", kind, self.name, self.t)
    }
    /// The sample value the processor actually gets.
    pub fn round(&self, x: f64) -> f64 {
        if self.is32 {
            x as f32 as f64
        } else {
            x
        }
    }
}

fn describe<T: S, U: Unit<T>>(v: &mut Vec<Desc>) {
    v.push(Desc {
        name: U::NAME,
        t: T::NAME,
        eps: T::EPS,
        is32: T::IS32,
        lti: U::LTI,
        resets: U::RESETS,
        nparam: U::nparam(),
        nextra: U::nextra(),
        make: || Box::new(Wrap::<T, U>(U::fresh(), std::marker::PhantomData)),
    });
}

/// Every processor type at both sample types.
pub fn all() -> Vec<Desc> {
    let mut v = vec![];
    let w = &mut v;
    crate::each_unit!(describe(w));
    v
}

/// Long streams of different character; `shape(k, i)` is the i-th sample of the k-th.
pub const SHAPES: usize = 9;
pub fn shape(kind: usize, i: usize) -> f64 {
    let noise = |i: usize| ((i as u32).wrapping_mul(2654435761)) as i32 as f64 / 2147483648.0;
    match kind {
        0 => noise(i),
        // bursts with long silence between them
        1 => if i % 1700 < 5 { noise(i + 1) } else { 0.0 },
        2 => if i % 97 == 0 { 1.0 } else { 0.0 },
        // one value for good, and for a while
        3 => 0.75,
        4 => if (i / 600) % 2 == 0 { 1.0 } else { -0.5 },
        5 => if i % 2 == 0 { 1.0 } else { -1.0 },
        6 => (i % 4096) as f64 / 4096.0,
        // fading out to nothing and back
        7 => noise(i) * 2f64.powi(-(((i / 40) % 90) as i32)),
        // silence first
        _ => if i < 1100 { 0.0 } else { noise(i) },
    }
}
