//! C11 (cookbook responses), C12 (stability), C13 (history-free reconfiguration).

use crate::each_rbj;
use crate::explore::*;
use crate::units::*;
use std::f64::consts::PI;

/// The cookbook's coefficients, normalised: b0 b1 b2 a1 a2.
#[derive(Clone, Copy, Debug)]
pub struct Co {
    b: [f64; 3],
    a: [f64; 2],
}

pub fn cookbook(kind: Kind, rate: f64, freq: f64, gain: f64, q: f64) -> Co {
    let w = 2.0 * PI * (freq / rate);
    // 1 - cos and 1 + cos without cancellation: this side has to be the accurate one.
    let (s, c) = w.sin_cos();
    let omc = 2.0 * (w / 2.0).sin().powi(2);
    let opc = 2.0 * (w / 2.0).cos().powi(2);
    let big = 10f64.powf(gain / 40.0);
    let alpha = match kind {
        Kind::LowShelf | Kind::HighShelf => s / 2.0 * ((big + 1.0 / big) * (1.0 / q - 1.0) + 2.0).sqrt(),
        _ => s / (2.0 * q),
    };
    let r = 2.0 * big.sqrt() * alpha;
    let (b, a): ([f64; 3], [f64; 3]) = match kind {
        Kind::Low => ([omc / 2.0, omc, omc / 2.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::High => ([opc / 2.0, -opc, opc / 2.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::Band1 => ([s / 2.0, 0.0, -s / 2.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::Band2 => ([alpha, 0.0, -alpha], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::Stop => ([1.0, -2.0 * c, 1.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::All => ([1.0 - alpha, -2.0 * c, 1.0 + alpha], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        Kind::Peak => (
            [1.0 + alpha * big, -2.0 * c, 1.0 - alpha * big],
            [1.0 + alpha / big, -2.0 * c, 1.0 - alpha / big],
        ),
        Kind::LowShelf => (
            [
                big * ((big + 1.0) - (big - 1.0) * c + r),
                2.0 * big * ((big - 1.0) - (big + 1.0) * c),
                big * ((big + 1.0) - (big - 1.0) * c - r),
            ],
            [
                (big + 1.0) + (big - 1.0) * c + r,
                -2.0 * ((big - 1.0) + (big + 1.0) * c),
                (big + 1.0) + (big - 1.0) * c - r,
            ],
        ),
        Kind::HighShelf => (
            [
                big * ((big + 1.0) + (big - 1.0) * c + r),
                -2.0 * big * ((big - 1.0) + (big + 1.0) * c),
                big * ((big + 1.0) + (big - 1.0) * c - r),
            ],
            [
                (big + 1.0) - (big - 1.0) * c + r,
                2.0 * ((big - 1.0) - (big + 1.0) * c),
                (big + 1.0) - (big - 1.0) * c - r,
            ],
        ),
    };
    Co { b: [b[0] / a[0], b[1] / a[0], b[2] / a[0]], a: [a[1] / a[0], a[2] / a[0]] }
}

impl Co {
    /// Largest pole magnitude.
    fn radius(&self) -> f64 {
        let d = self.a[0] * self.a[0] / 4.0 - self.a[1];
        if d < 0.0 {
            self.a[1].sqrt()
        } else {
            (self.a[0].abs() / 2.0) + d.sqrt()
        }
    }
}

/// Direct form I in f64.
struct Df1 {
    c: Co,
    x: [f64; 2],
    y: [f64; 2],
}
impl Df1 {
    fn new(c: Co) -> Df1 {
        Df1 { c, x: [0.0; 2], y: [0.0; 2] }
    }
    #[inline]
    fn process(&mut self, x: f64) -> f64 {
        let y = self.c.b[0] * x + self.c.b[1] * self.x[0] + self.c.b[2] * self.x[1]
            - self.c.a[0] * self.y[0]
            - self.c.a[1] * self.y[1];
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}

/// Parameter grids: (rate, freq, gain, q or slope).
type P = (f64, f64, f64, f64);

const RATES: [f64; 14] = [
    44100.0, 48000.0, 96000.0, 192000.0, 8000.0, 11025.0, 22050.0, 32000.0, 88200.0, 1.0, 2.0, 384000.0, 0.5, 1e9,
];
/// Fractions of the sample rate.
const RATIOS: [f64; 24] = [
    0.1, 0.25, 0.01, 0.02, 0.03, 0.05, 0.07, 0.125, 0.15, 0.17, 0.2, 0.22, 0.24, 0.26, 0.28, 0.3, 0.33, 0.35, 0.375, 0.4,
    0.43, 0.45, 0.48, 0.495,
];
/// Only for f64.
const LOW_RATIOS: [f64; 10] = [0.005, 0.003, 0.002, 0.001, 0.0005, 0.0002, 0.0001, 0.00005, 0.4995, 0.49995];
/// Frequencies a user types.
const FREQS: [f64; 18] = [
    1.0, 5.0, 10.0, 15.0, 20.0, 50.0, 100.0, 250.0, 440.0, 1000.0, 2500.0, 4000.0, 5000.0, 8000.0, 10000.0, 12000.0, 16000.0, 20000.0,
];
const QS: [f64; 19] = [
    0.7071067811865476, 1.0, 0.5, 2.0, 0.1, 0.2, 0.25, 0.3, 0.4, 0.6, 0.8, 0.9, 1.25, 1.5, 3.0, 5.0, 8.0, 10.0, 30.0,
];
const EXTREME_QS: [f64; 4] = [0.01, 0.05, 100.0, 1000.0];
const SLOPES: [f64; 14] = [0.01, 0.02, 1.0, 0.5, 0.1, 0.05, 0.2, 0.25, 0.3, 0.4, 0.6, 0.75, 0.9, 0.99];
const GAINS: [f64; 23] = [
    6.0, -6.0, 0.0, 3.0, -3.0, 12.0, -12.0, 24.0, -24.0, 40.0, -40.0, 0.5, -0.5, 0.1, -0.1, 0.01, -0.01, 1.0, -1.0, 18.0,
    -18.0, 30.0, -30.0,
];
const EXTREME_GAINS: [f64; 4] = [60.0, -60.0, 100.0, -100.0];


/// All (rate, freq) points for `T`, with frequencies at least `lowest` times the rate.
fn places<T: S>(lowest: f64) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for rate in RATES {
        for r in RATIOS.iter().chain(LOW_RATIOS.iter()) {
            v.push((rate, rate * r));
        }
        for f in FREQS {
            if rate > 100.0 {
                v.push((rate, f));
            }
        }
    }
    v.retain(|(r, f)| {
        let x = f / r;
        x >= lowest && (if T::IS32 { x <= 0.496 } else { x < 0.49999 })
    });
    v
}

fn shapes(kind: Kind, extreme: bool) -> Vec<f64> {
    match kind {
        Kind::LowShelf | Kind::HighShelf => SLOPES.to_vec(),
        _ => {
            let mut v = QS.to_vec();
            if extreme {
                v.extend(EXTREME_QS);
            }
            v
        }
    }
}

fn gains(has: bool, extreme: bool) -> Vec<f64> {
    if has {
        let mut v = GAINS.to_vec();
        if extreme {
            v.extend(EXTREME_GAINS);
        }
        v
    } else {
        vec![0.0]
    }
}

/// The reference for what the filter was actually given: parameters rounded to `T`.
fn reference<T: S, R: Rbj<T>>(p: P) -> Co {
    cookbook(R::KIND, T::f(p.0).d(), T::f(p.1).d(), T::f(p.2).d(), T::f(p.3).d())
}

fn name<T: S, R: Rbj<T>>(what: &str) -> String {
    format!("{}/{}<{}>", what, R::NAME, T::NAME)
}

fn make<T: S, R: Rbj<T>>(c: &mut Ch, p: P) -> R {
    c.op();
    c.say(|| format!("set_coefficients(rate {}, freq {}, gain {} dB, q/slope {})", p.0, p.1, p.2, p.3));
    let mut u = R::fresh();
    u.set(p.0, p.1, p.2, p.3);
    u
}

/// Tolerance relative to the largest output: the code computes 1 - cos w0 and 1 + a1 + a2 with
/// cancellation, whose relative error grows with 1/w0^2 (and with the ringing time of the poles).
fn tolerance<T: S>(p: P, co: &Co) -> f64 {
    let w = 2.0 * PI * (p.1 / p.0).min(0.5 - p.1 / p.0);
    let ring = 1.0 / (1.0 - co.radius()).max(1e-12);
    let amount = (1.0 / (w * w)).max(1.0) + ring.min(400.0) * (1.0 / w).max(1.0);
    80.0 * T::EPS * amount + 800.0 * T::EPS
}

fn c11<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let pl = places::<T>(if T::IS32 { 0.001 } else { 0.0 });
    let qs = shapes(R::KIND, true);
    let gs = gains(R::HAS_GAIN, true);
    let n = if thorough { 400 } else { 96 };
    scenario(v, &name::<T, R>("cookbook-response"), 1, move |c, _| {
        let (rate, freq) = pl[c.pick(pl.len())];
        let q = qs[c.pick(qs.len())];
        let g = gs[c.pick(gs.len())];
        let p = (rate, freq, g, q);
        let co = reference::<T, R>(p);
        let mut u = make::<T, R>(c, p);
        let mut r = Df1::new(co);
        let tol = tolerance::<T>(p, &co);
        // impulse, then the same filter goes on with a mixed stream
        let mut top = co.b.iter().fold(0.0f64, |m, b| m.max(b.abs()));
        for i in 0..n + 32 {
            let x = if i < n { if i == 0 { 1.0 } else { 0.0 } } else { [1.0, -0.5, 2.0, 0.25, -3.0, 0.0, 1.5][(i - n) % 7] };
            let got = u.process(T::f(x)).d();
            let want = r.process(x);
            top = top.max(want.abs());
            if !((got - want).abs() <= tol * top) {
                c.say(|| format!("process({}) #{} = {}", x, i, got));
                return Err(format!(
                    "{} at rate {} freq {} gain {} q/slope {}: output {} is {}, the cookbook design gives {} (difference {:e}, allowed {:e})",
                    R::NAME, rate, freq, g, q, i, got, want, (got - want).abs(), tol * top
                ));
            }
            if i == 2 || i + 1 == n + 32 {
                c.see(got);
            }
        }
        c.points += (n + 32) as u64;
        Ok(())
    });
}

/// One parameter swept finely while the others stay: every point of the sweep.
fn sweep(has_gain: bool, shelf: bool, axis: usize, low: f64, thorough: bool) -> Vec<P> {
    let bases: [P; 4] = [
        (44100.0, 1000.0, 6.0, if shelf { 0.5 } else { 0.7071067811865476 }),
        (48000.0, 5000.0, -12.0, if shelf { 0.9 } else { 2.0 }),
        (96000.0, 12000.0, 3.0, if shelf { 1.0 } else { 0.5 }),
        (192000.0, 60000.0, -2.0, if shelf { 0.3 } else { 5.0 }),
    ];
    let mut v: Vec<P> = vec![];
    let m = if thorough { 4 } else { 1 };
    if axis == 4 {
        // frequency against Q or slope, for several gains
        let n = if thorough { 400 } else { 160 };
        let gs: &[f64] = if has_gain { &[-48.0, -15.0, -7.5, -2.0, 0.25, 4.5, 10.0, 20.0, 50.0] } else { &[0.0] };
        for i in 0..n {
            let r = 1e-4 * 4950f64.powf(i as f64 / (n - 1) as f64);
            for j in 1..=n {
                let t = j as f64 / n as f64;
                let q = if shelf { t } else { 1e-2 * 1e4f64.powf(t) };
                v.extend(gs.iter().map(|g| (48000.0, 48000.0 * r, *g, q)));
            }
        }
        v.retain(|p| p.1 / p.0 >= low && p.1 / p.0 <= 0.496);
        return v;
    }
    if axis == 5 {
        // closely around special places, on both sides
        let off: Vec<f64> = (1..=26).flat_map(|k| [2f64.powi(-k), -(2f64.powi(-k)), 3.0 * 2f64.powi(-k - 2), -3.0 * 2f64.powi(-k - 2)]).chain([0.0]).collect();
        for b in &bases {
            for o in &off {
                for f in [0.25, 0.125, 1.0 / 6.0, 1.0 / 3.0, 0.0625, 0.375, 1.0 / 12.0, 0.01, 0.45] {
                    v.push((b.0, b.0 * f * (1.0 + o), b.2, b.3));
                }
                for f in [1000.0, 440.0, 100.0, 10000.0, 20000.0] {
                    v.push((b.0, f * (1.0 + o), b.2, b.3));
                }
                let special: &[f64] = if shelf { &[1.0, 0.5, 0.25, 0.75, 0.1, 0.7071067811865476] } else { &[0.5, 0.7071067811865476, 1.0, 1.4142135623730951, 2.0, 0.541196100146197, 1.3065629648763766, 0.5773502691896258, 0.1, 4.0, 8.0, 10.0, 16.0, 20.0, 30.0, 40.0, 100.0] };
                v.extend(special.iter().map(|q| (b.0, b.1, b.2, q * (1.0 + o))));
                if has_gain {
                    v.extend([0.0].iter().map(|g: &f64| (b.0, b.1, g + 8.0 * o, b.3)));
                    v.extend([3.0, 6.0, 12.0, 20.0, 24.0, 40.0, -3.0, -6.0, -12.0, -20.0, -24.0, -40.0, 6.020599913279624, -6.020599913279624].iter().map(|g| (b.0, b.1, g * (1.0 + o), b.3)));
                }
            }
        }
        // three decimals of Q or slope, two of gain
        v.extend((1..=if shelf { 1000 } else { 3000 }).map(|i| (48000.0, 3000.0, 4.0, i as f64 / 1000.0)));
        if has_gain {
            v.extend((-3000..=3000).map(|i| (48000.0, 3000.0, i as f64 / 100.0, 0.8)));
        }
        v.retain(|p| p.1 / p.0 >= low && p.1 / p.0 <= 0.496 && !(shelf && p.3 > 1.0));
        return v;
    }
    for (k, b) in bases.iter().enumerate() {
        match axis {
            0 => {
                // every whole number of Hz for the first, a logarithmic sweep for the others
                if k == 0 {
                    let n = 21900 * m;
                    v.extend((1..n).map(|f| (b.0, f as f64 / m as f64, b.2, b.3)));
                } else {
                    let n = 3000 * m;
                    v.extend((0..n).map(|i| (b.0, b.0 * 1e-4 * 4960f64.powf(i as f64 / n as f64), b.2, b.3)));
                }
            }
            1 => {
                let n = 3000 * m;
                if shelf {
                    v.extend((1..=n).map(|i| (b.0, b.1, b.2, i as f64 / n as f64)));
                } else {
                    v.extend((0..=n).map(|i| (b.0, b.1, b.2, 1e-2 * 1e5f64.powf(i as f64 / n as f64))));
                    v.extend((1..=n / 3).map(|i| (b.0, b.1, b.2, i as f64 / 20.0)));
                }
            }
            2 => {
                if has_gain {
                    let n = 2400 * m as i32;
                    v.extend((-n..=n).map(|i| (b.0, b.1, 120.0 * i as f64 / n as f64, b.3)));
                }
            }
            _ => {
                let n = 4000 * m;
                // the rate alone, and the rate with the frequency in proportion
                v.extend((1..n).map(|i| (2.0 * b.1 + 3.0 + 100.0 * i as f64 / m as f64, b.1, b.2, b.3)));
                v.extend((1..n).map(|i| (100.0 * i as f64 / m as f64, 100.0 * i as f64 / m as f64 * (b.1 / b.0), b.2, b.3)));
                // any unit of frequency: kHz, cycles per sample, radians, ...
                let w = 360 * m as i32;
                v.extend((-w..=w).map(|i| 10f64.powf(10.0 * i as f64 / w as f64)).map(|r| (r, r * (b.1 / b.0), b.2, b.3)));
            }
        }
    }
    v.retain(|p| p.1 / p.0 >= low && p.1 / p.0 <= 0.496);
    v
}

fn c11_sweeps<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let shelf = matches!(R::KIND, Kind::LowShelf | Kind::HighShelf);
    let low = if T::IS32 { 0.001 } else { 0.0 };
    let sweeps: Vec<Vec<P>> = (0..6).map(|a| sweep(R::HAS_GAIN, shelf, a, low, thorough)).collect();
    const CHUNK: usize = 250;
    scenario(v, &name::<T, R>("sweeps"), 1, move |c, _| {
        let s = &sweeps[c.pick(6)];
        let k = c.pick(s.len() / CHUNK + 1);
        for p in &s[k * CHUNK..((k + 1) * CHUNK).min(s.len())] {
            let co = reference::<T, R>(*p);
            let mut u = R::fresh();
            u.set(p.0, p.1, p.2, p.3);
            let mut r = Df1::new(co);
            let tol = tolerance::<T>(*p, &co);
            let mut top = co.b.iter().fold(0.0f64, |m, b| m.max(b.abs()));
            for i in 0..48 {
                let x = if i == 0 { 1.0 } else if i < 32 { 0.0 } else { [1.0, -0.5, 2.0, 0.25][i % 4] };
                let got = u.process(T::f(x)).d();
                let want = r.process(x);
                top = top.max(want.abs());
                if !((got - want).abs() <= tol * top) {
                    return Err(format!(
                        "{} at rate {} freq {} gain {} q/slope {}: output {} is {}, the cookbook design gives {} (difference {:e}, allowed {:e})",
                        R::NAME, p.0, p.1, p.2, p.3, i, got, want, (got - want).abs(), tol * top
                    ));
                }
            }
            c.see(r.y[0]);
            c.points += 1;
            c.ops += 48;
        }
        Ok(())
    });
}

/// The measured magnitude response of the real filter at the documented landmarks.
fn c11_landmarks<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let ratios: Vec<f64> = if thorough {
        vec![0.02, 0.03, 0.05, 0.08, 0.1, 0.125, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.47]
    } else {
        vec![0.03, 0.1, 0.25, 0.4, 0.45]
    };
    let rates = if thorough { vec![44100.0, 48000.0, 96000.0, 192000.0, 1.0] } else { vec![44100.0, 192000.0] };
    let qs: Vec<f64> = shapes(R::KIND, false);
    let gs = gains(R::HAS_GAIN, false);
    scenario(v, &name::<T, R>("measured-response"), 1, move |c, _| {
        let rate = rates[c.pick(rates.len())];
        let freq = rate * ratios[c.pick(ratios.len())];
        let q = qs[c.pick(qs.len())];
        let g = gs[c.pick(gs.len())];
        let p = (rate, freq, g, q);
        let co = reference::<T, R>(p);
        let rad = co.radius();
        let len = ((1e-12f64).ln() / rad.max(1e-3).ln()).ceil() as usize + 16;
        let len = len.max(64);
        if len > 6000 {
            return Ok(());
        }
        let mut u = make::<T, R>(c, p);
        let h: Vec<f64> = (0..len).map(|i| u.process(T::f(if i == 0 { 1.0 } else { 0.0 })).d()).collect();
        c.points += len as u64;
        let at = |w: f64| {
            let (mut re, mut im) = (0.0, 0.0);
            for (i, x) in h.iter().enumerate() {
                let (s, k) = (w * i as f64).sin_cos();
                re += x * k;
                im -= x * s;
            }
            (re, im)
        };
        let mag = |z: (f64, f64)| (z.0 * z.0 + z.1 * z.1).sqrt();
        let w0 = 2.0 * PI * T::f(freq).d() / T::f(rate).d();
        let dc = at(0.0).0;
        let ny = at(PI).0;
        let fc = at(w0);
        let m = mag(fc);
        c.see(dc);
        c.see(ny);
        c.see(m);
        let l1: f64 = h.iter().map(|x| x.abs()).sum();
        let tol = tolerance::<T>(p, &co) * l1.max(1.0) + 1e-9;
        let lin = 10f64.powf(g / 20.0);
        let half = 10f64.powf(g / 40.0);
        let mut want: Vec<(&str, f64, f64)> = vec![];
        match R::KIND {
            Kind::Low => want.extend([("DC", dc, 1.0), ("Nyquist", ny, 0.0), ("cutoff", m, q)]),
            Kind::High => want.extend([("DC", dc, 0.0), ("Nyquist", ny, 1.0), ("cutoff", m, q)]),
            Kind::Band1 => want.extend([("DC", dc, 0.0), ("Nyquist", ny, 0.0), ("centre", m, q)]),
            Kind::Band2 => want.extend([("DC", dc, 0.0), ("Nyquist", ny, 0.0), ("centre", m, 1.0)]),
            Kind::Stop => want.extend([("DC", dc, 1.0), ("Nyquist", ny, 1.0), ("centre", m, 0.0)]),
            Kind::All => {
                want.extend([("DC", dc, 1.0), ("Nyquist", ny, 1.0), ("centre (real part)", fc.0, -1.0)]);
                for k in 1..8 {
                    want.push(("magnitude elsewhere", mag(at(PI * k as f64 / 8.0)), 1.0));
                }
            }
            Kind::Peak => want.extend([("DC", dc, 1.0), ("Nyquist", ny, 1.0), ("centre", m, lin)]),
            Kind::LowShelf => want.extend([("DC", dc, lin), ("Nyquist", ny, 1.0), ("midpoint", m, half)]),
            Kind::HighShelf => want.extend([("DC", dc, 1.0), ("Nyquist", ny, lin), ("midpoint", m, half)]),
        }
        for (what, got, want) in want {
            if !((got - want).abs() <= tol) {
                return Err(format!(
                    "{} at rate {} freq {} gain {} q/slope {}: measured response at {} is {}, expected {} (allowed {:e})",
                    R::NAME, rate, freq, g, q, what, got, want, tol
                ));
            }
        }
        Ok(())
    });
}

fn c12<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let mut ratios = vec![
        0.001, 0.0025, 0.005, 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.47, 0.49, 0.495,
    ];
    let mut qs = match R::KIND {
        Kind::LowShelf | Kind::HighShelf => vec![1.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9],
        _ => vec![0.05, 0.1, 0.25, 0.5, 0.7071067811865476, 1.0, 2.0, 5.0, 10.0, 20.0, 50.0],
    };
    let mut gs = if R::HAS_GAIN {
        vec![-100.0, -60.0, -40.0, -24.0, -12.0, -6.0, -1.0, -0.1, 0.0, 0.1, 1.0, 6.0, 12.0, 24.0, 40.0, 60.0, 100.0]
    } else {
        vec![0.0]
    };
    let mut rates = vec![44100.0, 96000.0, 8000.0];
    if !T::IS32 {
        ratios.extend([0.0005, 0.0001]);
    }
    if thorough {
        ratios.extend([0.0015, 0.003, 0.007, 0.015, 0.03, 0.07, 0.12, 0.17, 0.22, 0.24, 0.26, 0.28, 0.33, 0.37, 0.42, 0.48, 0.485]);
        rates.extend([48000.0, 192000.0, 22050.0, 1.0]);
        if R::HAS_GAIN {
            gs.extend([-80.0, -30.0, -18.0, -9.0, -3.0, 3.0, 9.0, 18.0, 30.0, 80.0]);
        }
        match R::KIND {
            Kind::LowShelf | Kind::HighShelf => qs.extend([0.02, 0.15, 0.3, 0.4, 0.6, 0.99]),
            _ => qs.extend([0.01, 0.15, 0.35, 0.6, 0.85, 1.5, 3.0, 7.0, 15.0, 30.0, 100.0]),
        }
    }
    scenario(v, &name::<T, R>("bounded-and-decaying"), 1, move |c, _| {
        let rate = rates[c.pick(rates.len())];
        let freq = rate * ratios[c.pick(ratios.len())];
        let q = qs[c.pick(qs.len())];
        let g = gs[c.pick(gs.len())];
        let p = (rate, freq, g, q);
        let co = reference::<T, R>(p);
        let rad = co.radius();
        if rad >= 1.0 {
            harness_error("the reference design is unstable");
        }
        let len = ((1e-5f64).ln() / rad.max(1e-3).ln()).ceil() as usize + 64;
        if len > 200_000 {
            return Ok(());
        }
        let mut u = make::<T, R>(c, p);
        let mut r = Df1::new(co);
        let mut h = Vec::with_capacity(len);
        let (mut l1, mut ref1) = (0.0f64, 0.0f64);
        let what = |s: String| {
            Err(format!("{} at rate {} freq {} gain {} q/slope {}: {}", R::NAME, rate, freq, g, q, s))
        };
        for i in 0..len {
            let x = if i == 0 { 1.0 } else { 0.0 };
            let y = u.process(T::f(x)).d();
            ref1 += r.process(x).abs();
            if !y.is_finite() {
                return what(format!("impulse response sample {} is {}", i, y));
            }
            l1 += y.abs();
            h.push(y);
        }
        // What the exact design allows, with room for coefficient rounding.
        let bound = 4.0 * ref1 + 1e-3;
        if l1 > bound {
            return what(format!("impulse response sums to {} in absolute value, the exact design to {}", l1, ref1));
        }
        let peak = h.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        // Bounded signals: the worst-case sign pattern, a constant, the alternating one.
        let mode = c.pick(3);
        let level = c.of(&[1.0, 131072.0]);
        c.say(|| format!("{} samples of {} times {}", len, ["worst-case signs", "ones", "alternating ones"][mode], level));
        for i in 0..len {
            let x = match mode {
                0 => {
                    if h[len - 1 - i] < 0.0 {
                        -1.0
                    } else {
                        1.0
                    }
                }
                1 => 1.0,
                _ => 1.0 - 2.0 * (i % 2) as f64,
            };
            let y = u.process(T::f(x * level)).d();
            if !(y.abs() <= (bound + peak) * level) {
                return what(format!("output {} of a signal bounded by {} is {}, bound {}", i, level, y, bound * level));
            }
        }
        // The exact design falls by 1e-5 every `len` samples.
        let (times, left) = if len < 4000 { (8, 1e-25) } else { (3, 1e-9) };
        let mut tail = 0.0f64;
        for i in 0..times * len {
            let y = u.process(T::f(0.0)).d();
            if !(y.abs() <= (bound + peak) * level) {
                return what(format!("output {} during silence is {}, bound {}", i, y, bound * level));
            }
            if i >= times * len - 32 {
                tail = tail.max(y.abs());
            }
        }
        c.see(l1);
        c.points += ((times + 2) * len) as u64;
        if !(tail <= left * bound * level) {
            return what(format!("output is still {:e} after {} samples of silence", tail, times * len));
        }
        Ok(())
    });
}

/// The sweeps of C11: a burst, then silence.
fn c12_sweeps<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let shelf = matches!(R::KIND, Kind::LowShelf | Kind::HighShelf);
    let low = if T::IS32 { 0.001 } else { 0.0 };
    let sweeps: Vec<Vec<P>> = (0..6)
        .map(|a| {
            let s = sweep(R::HAS_GAIN, shelf, a, low, thorough);
            let every = if thorough { 1 } else { [4, 1, 1, 1, if R::HAS_GAIN { 19 } else { 3 }, 2][a] };
            s.into_iter().enumerate().filter(|(i, _)| i % every == 0).map(|(_, p)| p).collect()
        })
        .collect();
    const CHUNK: usize = 100;
    scenario(v, &name::<T, R>("sweeps"), 1, move |c, _| {
        let s = &sweeps[c.pick(6)];
        let k = c.pick(s.len() / CHUNK + 1);
        for p in &s[k * CHUNK..((k + 1) * CHUNK).min(s.len())] {
            let co = reference::<T, R>(*p);
            let rad = co.radius();
            let len = ((1e-2f64).ln() / rad.max(1e-3).ln()).ceil() as usize + 32;
            if len > 3000 {
                continue;
            }
            let mut u = R::fresh();
            u.set(p.0, p.1, p.2, p.3);
            let mut r = Df1::new(co);
            let (mut top, mut sum) = (0.0f64, 1e-3f64);
            let mut last = 0.0f64;
            for i in 0..8 + 5 * len {
                let x = if i < 8 { 1.0 - (i % 3) as f64 } else { 0.0 };
                let y = u.process(T::f(x)).d();
                let w = r.process(x);
                top = top.max(w.abs());
                sum += w.abs();
                if !(y.abs() <= 4.0 * sum + 1e-3) {
                    return Err(format!("{} at rate {} freq {} gain {} q/slope {}: output {} is {}", R::NAME, p.0, p.1, p.2, p.3, i, y));
                }
                last = y.abs();
            }
            if !(last <= 1e-6 * sum) {
                return Err(format!("{} at rate {} freq {} gain {} q/slope {}: still {:e} after {} samples of silence", R::NAME, p.0, p.1, p.2, p.3, last, 5 * len));
            }
            c.see(top);
            c.points += 1;
            c.ops += (8 + 5 * len) as u64;
        }
        Ok(())
    });
}

/// More samples than an f32 counter can tell apart; for C12, silence at the end.
fn marathon<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool, decays: bool) {
    let n = if thorough { (1 << 26) + 5000 } else { (1 << 24) + 5000 };
    scenario(v, &name::<T, R>("marathon"), 1, move |c, _| {
        let p = (48000.0, 5000.0, 4.0, 0.8);
        let co = reference::<T, R>(p);
        let mut u = make::<T, R>(c, p);
        let mut r = Df1::new(co);
        let tol = 8.0 * tolerance::<T>(p, &co);
        let mut top = 1.0f64;
        for i in 0..n {
            let x = T::f(shape(0, i));
            let got = u.process(x).d();
            let want = r.process(x.d());
            top = top.max(want.abs());
            if decays && !(got.abs() <= 100.0) || !decays && !((got - want).abs() <= tol * top) {
                return Err(format!("{} at {:?}: output {} of a very long stream is {}, the cookbook design gives {}", R::NAME, p, i, got, want));
            }
        }
        c.ops += n as u64;
        if decays {
            let mut y = 0.0;
            for _ in 0..4000 {
                y = u.process(T::f(0.0)).d();
            }
            if !(y.abs() < 1e-20) {
                return Err(format!("{} at {:?}: still {:e} after 4000 samples of silence that follow a very long stream", R::NAME, p, y));
            }
        }
        c.see(r.y[0]);
        Ok(())
    });
}

/// Very resonant settings, where the poles are closest to the unit circle.
fn c12_sharp<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    if matches!(R::KIND, Kind::LowShelf | Kind::HighShelf) {
        return;
    }
    let qs = [60.0, 75.0, 100.0, 150.0, 200.0, 250.0, 300.0, 330.0, 400.0, 500.0, 700.0, 1000.0];
    let n = if thorough { 400 } else { 60 };
    let longest = if thorough { 400_000 } else { 40_000 };
    let gs: &'static [f64] = if R::HAS_GAIN { &[-12.0, -3.0, 0.0, 3.0, 12.0, 40.0] } else { &[0.0] };
    scenario(v, &name::<T, R>("sharp"), 1, move |c, _| {
        let q = c.of(&qs);
        let g = c.of(gs);
        let ratio = (c.pick(n) as f64 + 0.3) * (0.499 - 0.001) / n as f64 + 0.001;
        let p = (48000.0, 48000.0 * ratio, g, q);
        let co = reference::<T, R>(p);
        let rad = co.radius();
        let len = ((1e-2f64).ln() / rad.max(1e-3).ln()).ceil() as usize + 32;
        // In f32 the coefficients themselves must be able to tell the pole from the unit circle.
        if len > longest || T::IS32 && 1.0 - rad < 1e-5 {
            return Ok(());
        }
        let mut u = make::<T, R>(c, p);
        let mut r = Df1::new(co);
        let mut sum = 1e-3f64;
        let mut last = 0.0f64;
        for i in 0..8 + 5 * len {
            let x = if i < 8 { 1.0 - (i % 3) as f64 } else { 0.0 };
            let y = u.process(T::f(x)).d();
            sum += r.process(x).abs();
            if !(y.abs() <= 4.0 * sum + 1e-3) {
                return Err(format!("{} at rate {} freq {} gain {} q {}: output {} is {}", R::NAME, p.0, p.1, p.2, p.3, i, y));
            }
            last = y.abs();
        }
        if !(last <= 1e-6 * sum) {
            return Err(format!("{} at rate {} freq {} gain {} q {}: still {:e} after {} samples of silence", R::NAME, p.0, p.1, p.2, p.3, last, 5 * len));
        }
        c.see(last);
        c.points += (8 + 5 * len) as u64;
        Ok(())
    });
}

const WILD: [f64; 6] = [1.0, -0.5, 0.0, f64::INFINITY, f64::NAN, 3.0e-30];

fn history<T: S, R: Rbj<T>>(c: &mut Ch, u: &mut R, h: usize) {
    let xs: &[f64] = match h {
        0 => &[],
        1 => &[1.0],
        2 => &[1.0, -0.5, 3.0],
        3 => &[1.0, f64::NAN],
        4 => &[f64::INFINITY, 1.0],
        5 => &[0.0, 0.0],
        _ => &[1.0e30, -2.0, 0.25, 7.0, 1.0],
    };
    for x in xs {
        let y = u.process(T::f(*x)).d();
        c.see(y);
        c.say(|| format!("process({}) = {}", x, y));
    }
}

fn configs(has_gain: bool, thorough: bool) -> Vec<P> {
    let mut v = vec![];
    let rates: &[f64] = if thorough { &[44100.0, 48000.0, 96000.0] } else { &[44100.0, 96000.0] };
    let freqs: &[f64] = if thorough { &[1000.0, 1000.5, 12000.0, 60.0] } else { &[1000.0, 1000.5, 12000.0] };
    let qs: &[f64] = if thorough { &[1.0, 0.5, 0.25, 0.999, 0.5001] } else { &[1.0, 0.5, 0.25, 0.5001] };
    let gs: &[f64] = if has_gain {
        if thorough { &[0.0, 6.0, -6.0, 6.01, 0.25, 24.0, 0.01] } else { &[0.0, 6.0, -6.0, 6.01, 0.01] }
    } else {
        &[0.0]
    };
    for r in rates {
        for f in freqs {
            for q in qs {
                for g in gs {
                    v.push((*r, *f, *g, *q));
                }
            }
        }
    }
    v
}

const ALONE: usize = 12;

fn probe_input(mode: usize, t: usize) -> f64 {
    if mode == 0 {
        [1.0, 0.0, 0.0][t % 3]
    } else if t < 4 {
        0.0
    } else {
        [0.5, -2.0, 3.0][t % 3]
    }
}

fn alone_of<T: S, R: Rbj<T>>(want: &mut Option<(usize, String, P)>, at: &mut usize) {
    if let Some((mode, who, p)) = want {
        if *who == name::<T, R>("") {
            let mut u = R::fresh();
            u.set(p.0, p.1, p.2, p.3);
            for t in 0..ALONE {
                println!("{:016x}", u.process(T::f(probe_input(*mode, t))).d().to_bits());
            }
            *want = None;
        }
    }
    *at += 1;
}

/// `<bin> alone <mode> <type> <rate> <freq> <gain> <q>`: a new filter in a process of its own.
pub fn alone_main(a: &[String]) {
    let f = |i: usize| f64::from_bits(u64::from_str_radix(&a[i], 16).unwrap());
    let mut want = Some((a[0].parse().unwrap(), a[1].clone(), (f(2), f(3), f(4), f(5))));
    let (w, mut n) = (&mut want, 0);
    let n = &mut n;
    each_rbj!(alone_of(w, n));
}

/// What a new filter does with each setting when nothing else happened in its process.
fn alone_table<T: S, R: Rbj<T>>(cf: &[P]) -> Vec<[Vec<f64>; 2]> {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let who = name::<T, R>("");
    let one = |mode: usize, p: &P| -> Vec<f64> {
        let h = |x: f64| format!("{:016x}", x.to_bits());
        let o = std::process::Command::new(&exe)
            .args(["alone", &mode.to_string(), &who, &h(p.0), &h(p.1), &h(p.2), &h(p.3)])
            .output()
            .unwrap_or_else(|e| harness_error(&format!("{}", e)));
        String::from_utf8_lossy(&o.stdout).lines().map(|l| f64::from_bits(u64::from_str_radix(l, 16).unwrap())).collect()
    };
    let n = threads();
    let mut parts: Vec<Vec<[Vec<f64>; 2]>> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = cf
            .chunks((cf.len() + n - 1) / n)
            .map(|ch| {
                let one = &one;
                s.spawn(move || ch.iter().map(|p| [one(0, p), one(1, p)]).collect::<Vec<_>>())
            })
            .collect();
        for h in hs {
            parts.push(h.join().unwrap_or_else(|_| harness_error("a child process failed")));
        }
    });
    parts.concat()
}

/// `u` was just configured with `p`: from here on it must be a new filter with `p`.
fn like_new<T: S, R: Rbj<T>>(c: &mut Ch, u: &mut R, p: P, alone: Option<&[Vec<f64>; 2]>) -> Res {
    if u.last_out().d() != 0.0 {
        return Err(format!("last output right after set_coefficients is {:?}", u.last_out()));
    }
    let mut w = R::fresh();
    w.set(p.0, p.1, p.2, p.3);
    let mode = c.pick(2);
    for t in 0..ALONE {
        let x = probe_input(mode, t);
        let a = u.process(T::f(x)).d();
        let b = w.process(T::f(x)).d();
        c.see(a);
        c.say(|| format!("process({}) = {} (new filter: {})", x, a, b));
        if !same(a, b) || !same(u.last_out().d(), w.last_out().d()) {
            return Err(format!("sample {} after reconfiguration gives {}, a new filter gives {}", t, a, b));
        }
        if let Some(tab) = alone {
            if !tab[mode].get(t).map_or(false, |w| same(*w, a)) {
                return Err(format!(
                    "sample {} after reconfiguration gives {}, a new filter in a process of its own gives {:?}",
                    t, a, tab[mode].get(t)
                ));
            }
        }
    }
    Ok(())
}

const STEPS: [f64; 16] = [1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.005, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.9, 1.0, 5.0];

fn c13<T: S, R: Rbj<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let cf = configs(R::HAS_GAIN, thorough);
    let tab = alone_table::<T, R>(&cf);
    scenario(v, &name::<T, R>("reconfigure-pairs"), 1, move |c, _| {
        let mut u = R::fresh();
        let h0 = c.pick(3);
        history::<T, R>(c, &mut u, [0, 2, 3][h0]);
        let p = cf[c.pick(cf.len())];
        let qi = c.pick(cf.len());
        let q = cf[qi];
        c.say(|| format!("set {:?}", p));
        u.set(p.0, p.1, p.2, p.3);
        let h = c.pick(7);
        history::<T, R>(c, &mut u, h);
        let clear = c.pick(2) == 1;
        if clear {
            c.say(|| "clear()".into());
            u.clear();
        }
        c.say(|| format!("set {:?}", q));
        u.set(q.0, q.1, q.2, q.3);
        like_new::<T, R>(c, &mut u, q, Some(&tab[qi]))
    });
    // Reconfigured just after an output that happened to be exactly zero.
    let some: Vec<P> = configs(R::HAS_GAIN, false).into_iter().step_by(3).collect();
    scenario(v, &name::<T, R>("reconfigure-when-silent"), 1, move |c, _| {
        let p = some[c.pick(some.len())];
        let q = some[c.pick(some.len())];
        let xs: &[f64] = c.of(&[&[1.0][..], &[-0.5, 1.0], &[1.0, 0.75, -0.25]]);
        let before = || {
            let mut u = R::fresh();
            u.set(p.0, p.1, p.2, p.3);
            for x in xs {
                u.process(T::f(*x));
            }
            u
        };
        let (y0, y1) = (before().process(T::f(0.0)).d(), before().process(T::f(1.0)).d());
        let x = T::f(-y0 / (y1 - y0)).d();
        if !x.is_finite() || x == 0.0 {
            return Ok(());
        }
        for k in 0..64 {
            let z = T::f(x * (1.0 + (k / 2) as f64 * T::EPS * if k % 2 == 0 { 0.5 } else { -0.5 }));
            let mut u = before();
            if u.process(z).d() == 0.0 {
                c.say(|| format!("set {:?}, {:?}, process({:?}) = 0, set {:?}", p, xs, z, q));
                u.set(q.0, q.1, q.2, q.3);
                return like_new::<T, R>(c, &mut u, q, None);
            }
        }
        Ok(())
    });
    // Every sequence of reconfigurations, samples and clears over a small alphabet.
    let cf: Vec<P> = vec![
        (44100.0, 1000.0, 6.0, 1.0),
        (44100.0, 1000.0, 0.0, 1.0),
        (44100.0, 1000.0, 6.0, 0.5),
        (44100.0, 2000.0, 6.0, 1.0),
        (48000.0, 1000.0, 6.0, 1.0),
    ];
    let cf: Vec<P> = if R::HAS_GAIN { cf } else { cf.into_iter().filter(|p| p.2 != 0.0).collect() };
    scenario(v, &name::<T, R>("reconfigure-sequences"), if thorough { 6 } else { 5 }, move |c, depth| {
        let mut u = R::fresh();
        let n = cf.len() + WILD.len() + 1;
        let mut last = None;
        for _ in 0..depth {
            let k = c.pick(n);
            if k < cf.len() {
                let p = cf[k];
                c.say(|| format!("set {:?}", p));
                u.set(p.0, p.1, p.2, p.3);
                last = Some(p);
                if u.last_out().d() != 0.0 {
                    return Err(format!("last output right after set_coefficients is {:?}", u.last_out()));
                }
            } else if k < cf.len() + WILD.len() {
                let x = WILD[k - cf.len()];
                let y = u.process(T::f(x)).d();
                c.see(y);
                c.say(|| format!("process({}) = {}", x, y));
            } else {
                c.say(|| "clear()".into());
                u.clear();
            }
        }
        let p = match last {
            Some(p) if c.pick(2) == 0 => p,
            _ => cf[c.pick(cf.len())],
        };
        c.say(|| format!("set {:?}", p));
        u.set(p.0, p.1, p.2, p.3);
        like_new::<T, R>(c, &mut u, p, None)
    });
    // From every setting to each of its neighbours and relatives, and back.
    scenario(v, &name::<T, R>("reconfigure-neighbours"), 1, move |c, _| {
        let rate = c.of(&[44100.0, 48000.0, 96000.0, 192000.0]);
        let freq = c.of(&[20.0, 440.0, 1000.0, 9600.0, 15000.0]);
        let gain = if R::HAS_GAIN { c.of(&[6.0, 0.0, -12.0, 0.1]) } else { 0.0 };
        let q = c.of(&[1.0, 0.5, 0.7071, 0.01]);
        let p: P = (rate, freq, gain, q);
        let mut o = p;
        let last = if R::HAS_GAIN { 4 } else { 3 };
        let which = c.pick(last + 2);
        if which < last {
            let x = match which { 0 => &mut o.0, 1 => &mut o.1, 2 => &mut o.3, _ => &mut o.2 };
            let sign = if c.pick(2) == 1 { -1.0 } else { 1.0 };
            // one unit in the last place up to a doubling, relative and absolute
            let k = c.pick(STEPS.len() + 24);
            let step = if k < STEPS.len() { STEPS[k] } else { x.abs() * T::EPS * 2f64.powi(k as i32 - STEPS.len() as i32) * if T::IS32 { 1.0 } else { 2f64.powi((k as i32 - STEPS.len() as i32) * 29 / 24) } };
            *x += sign * step;
        } else if which == last {
            // same ratio, sum, product, or roles exchanged
            o = match c.pick(10) {
                0 => (rate * 2.0, freq * 2.0, gain, q),
                1 => (rate / 2.0, freq / 2.0, gain, q),
                2 => (rate + 100.0, freq - 100.0, gain, q),
                3 => (rate - 3900.0, freq + 3900.0, gain, q),
                4 => (rate * 2.0, freq / 2.0, gain, q),
                5 => (rate, rate / 2.0 - freq, gain, q),
                6 => (rate, freq, q, if gain > 0.0 && gain <= 1.0 { gain } else { q / 2.0 }),
                7 => (rate, freq, -gain, q),
                8 => (rate, freq, gain * 2.0, q / 2.0),
                _ => (rate, freq * 2.0, gain, q / 2.0),
            };
        } else {
            // an invalid setting on the way
            let bad = c.of(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
            match c.pick(last) {
                0 => o.0 = bad,
                1 => o.1 = bad,
                2 => o.3 = bad,
                _ => o.2 = bad,
            }
        }
        let mut u = R::fresh();
        u.set(p.0, p.1, p.2, p.3);
        if c.pick(2) == 1 {
            history::<T, R>(c, &mut u, 2);
        }
        c.say(|| format!("set {:?}, then {:?}", p, o));
        u.set(o.0, o.1, o.2, o.3);
        let valid = o.0 > 0.0 && o.1 > 0.0 && o.1 < o.0 / 2.0 && o.3 > 0.0 && o.2.is_finite() && o.0.is_finite();
        if valid {
            like_new::<T, R>(c, &mut u, o, None)?;
        }
        c.say(|| format!("and back {:?}", p));
        u.set(p.0, p.1, p.2, p.3);
        like_new::<T, R>(c, &mut u, p, None)
    });
    // A long run before the change.
    scenario(v, &name::<T, R>("reconfigure-after-n"), 1, move |c, _| {
        let ps: [P; 3] = [(44100.0, 440.0, 9.0, 0.9), (96000.0, 20000.0, -9.0, 0.3), (44100.0, 440.0, 0.0, 0.9)];
        let p = ps[c.pick(3)];
        let q = ps[c.pick(3)];
        let n = [1usize, 2, 31, 32, 33, 255, 256, 257, 1023, 1024, 1025, 4096, 65536, 300_000, (1 << 24) + 5000][c.pick(15)];
        let again = c.pick(2) == 1;
        let kind = c.pick(SHAPES + 1);
        if n > 65536 && (kind > 0 || again || p != q) {
            return Ok(());
        }
        let mut u = R::fresh();
        u.set(p.0, p.1, p.2, p.3);
        for i in 0..n {
            u.process(T::f(if kind == SHAPES { ((i * 7) % 11) as f64 - 5.0 } else { shape(kind, i) }));
            if again && n <= 4096 {
                u.set(p.0, p.1, p.2, p.3);
            }
        }
        c.points += n as u64;
        u.set(q.0, q.1, q.2, q.3);
        like_new::<T, R>(c, &mut u, q, None)
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let v = &mut v;
    match id {
        "C11" => {
            each_rbj!(c11(v, thorough));
            each_rbj!(c11_landmarks(v, thorough));
            each_rbj!(c11_sweeps(v, thorough));
            each_rbj!(marathon(v, thorough, false));
        }
        "C12" => {
            each_rbj!(c12(v, thorough));
            each_rbj!(c12_sweeps(v, thorough));
            each_rbj!(marathon(v, thorough, true));
            each_rbj!(c12_sharp(v, thorough));
        }
        "C13" => each_rbj!(c13(v, thorough)),
        _ => {}
    }
    std::mem::take(v)
}
