//! C09, C14, C15, C16: basic filters, detectors and the leaky integrator against their equations.

use crate::explore::*;
use crate::units::*;
use rasp::analysis::*;
use rasp::filter::*;

/// Coefficients in the order b0 b1 b2 a1 a2.
type Co = [f64; 5];

pub trait Basic<T: S>: Unit<T> {
    /// Which of the five coefficients the filter has.
    const HAS: [bool; 5];
    const TRANSPOSED: bool = false;
    fn set(&mut self, c: Co);
    fn set_one(&mut self, i: usize, x: f64);
    fn get(&self) -> Co;
}

macro_rules! basic {
    ($ty:ident, $tr:expr, $has:expr, [$($i:tt $f:ident),*]) => {
        impl<T: S> Basic<T> for $ty<T> {
            const HAS: [bool; 5] = $has;
            const TRANSPOSED: bool = $tr;
            fn set(&mut self, c: Co) { self.set_coefficients($(T::f(c[$i])),*) }
            fn set_one(&mut self, i: usize, x: f64) {
                match i { $($i => self.$f = T::f(x),)* _ => unreachable!() }
            }
            fn get(&self) -> Co {
                let mut c = [0.0; 5];
                $(c[$i] = self.$f.d();)*
                c
            }
        }
    };
}
basic!(OnePole, false, [true, false, false, true, false], [0 b0, 3 a1]);
basic!(OneZero, false, [true, true, false, false, false], [0 b0, 1 b1]);
basic!(TwoPole, false, [true, false, false, true, true], [0 b0, 3 a1, 4 a2]);
basic!(TwoZero, false, [true, true, true, false, false], [0 b0, 1 b1, 2 b2]);
basic!(Biquad1, false, [true; 5], [0 b0, 1 b1, 2 b2, 3 a1, 4 a2]);
basic!(Biquad2, true, [true; 5], [0 b0, 1 b1, 2 b2, 3 a1, 4 a2]);

/// The documented difference equations, in f64. `mag` is the largest term summed in a step.
#[derive(Clone, Default)]
struct Eq {
    c: Co,
    transposed: bool,
    x: [f64; 2],
    y: [f64; 2],
    w: [f64; 2],
    mag: f64,
    /// Bounds on what rounding may have done to y[n-1], y[n-2] (or to w), and to the output.
    ey: [f64; 2],
    err: f64,
    unit: f64,
}
impl Eq {
    fn new<T: S, U: Basic<T>>() -> Eq {
        Eq { c: [1.0, 0.0, 0.0, 0.0, 0.0], transposed: U::TRANSPOSED, unit: 16.0 * T::EPS, ..Eq::default() }
    }
    fn mask<T: S, U: Basic<T>>(&mut self, c: Co) {
        for i in 0..5 {
            if U::HAS[i] {
                self.c[i] = T::f(c[i]).d();
            }
        }
    }
    fn step(&mut self, x: f64) -> f64 {
        let c = self.c;
        if self.transposed {
            let y = c[0] * x + self.w[0];
            self.mag = (c[0] * x).abs().max(self.w[0].abs());
            self.w[0] = c[1] * x + self.w[1] - c[3] * y;
            self.w[1] = c[2] * x - c[4] * y;
            self.mag = self.mag.max(self.w[0].abs()).max(self.w[1].abs());
            self.err = self.unit * ((c[0] * x).abs() + y.abs()) + self.ey[0];
            self.ey = [
                self.unit * ((c[1] * x).abs() + self.w[1].abs() + (c[2] * x).abs() + (c[3] * y).abs() + (c[4] * y).abs()) + self.ey[1] + c[3].abs() * self.err,
                self.unit * ((c[2] * x).abs() + (c[4] * y).abs()) + c[4].abs() * self.err,
            ];
            y
        } else {
            let t = [c[0] * x, c[1] * self.x[0], c[2] * self.x[1], -c[3] * self.y[0], -c[4] * self.y[1]];
            let y = t.iter().sum();
            self.mag = t.iter().fold(0f64, |a, b| a.max(b.abs()));
            self.err = self.unit * t.iter().fold(0f64, |a, b| a + b.abs()) + c[3].abs() * self.ey[0] + c[4].abs() * self.ey[1];
            self.ey = [self.err, self.ey[0]];
            self.x = [x, self.x[0]];
            self.y = [y, self.y[0]];
            y
        }
    }
    fn clear(&mut self) {
        self.x = [0.0; 2];
        self.y = [0.0; 2];
        self.w = [0.0; 2];
        self.ey = [0.0; 2];
    }
}

fn step<T: S, U: Basic<T>>(c: &mut Ch, u: &mut U, e: &mut Eq, x: f64) -> Res {
    let x = T::f(x);
    let got = u.process(x).d();
    let want = e.step(x.d());
    c.see(got);
    c.say(|| format!("process({:?}) = {}   expected {}", x, got, want));
    if !((got - want).abs() <= 8.0 * T::EPS * e.mag.max(want.abs())) {
        return Err(format!("process returned {}, the difference equation with {:?} gives {}", got, e.c, want));
    }
    Ok(())
}

fn set_all<T: S, U: Basic<T>>(c: &mut Ch, u: &mut U, e: &mut Eq, co: Co) -> Res {
    c.op();
    c.say(|| format!("set_coefficients of {:?}", co));
    u.set(co);
    e.mask::<T, U>(co);
    read_back::<T, U>(u, e)
}

fn read_back<T: S, U: Basic<T>>(u: &U, e: &Eq) -> Res {
    let g = u.get();
    for i in 0..5 {
        if U::HAS[i] && g[i] != e.c[i] {
            return Err(format!("coefficients read {:?}, expected {:?}", g, e.c));
        }
    }
    Ok(())
}

fn c09<T: S, U: Basic<T>>(v: &mut Vec<Scenario>, n: usize, depth: usize, long: usize) {
    // Every coefficient vector over an alphabet, every short stream.
    scenario(v, &format!("coefficients/{}<{}>", U::NAME, T::NAME), n, move |c, n| {
        let mut co = [0.0; 5];
        for i in 0..5 {
            if U::HAS[i] {
                co[i] = c.of(&[0.0, 1.0, -0.5, 0.25]);
            }
        }
        let scale = 2f64.powi(if T::IS32 { c.of(&[0, -40, -80, -112, 60]) } else { c.of(&[0, -40, -80, -112, 60, -300, -900, 300]) });
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        set_all(c, &mut u, &mut e, co)?;
        for _ in 0..n {
            let x = c.of(&[1.0, 0.0, -1.5]);
            step(c, &mut u, &mut e, x * scale)?;
        }
        for x in [0.0, 0.0, 1.0] {
            step(c, &mut u, &mut e, x * scale)?;
        }
        Ok(())
    });
    // Every coefficient vector over a larger alphabet (equal, opposite, doubled, marginal ones).
    scenario(v, &format!("relations/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const CS: [f64; 11] = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.25, -0.75, 1.5, -1.8];
        let mut co = [0.0; 5];
        for i in 0..5 {
            if U::HAS[i] {
                co[i] = c.of(&CS);
            }
        }
        for xs in [[1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0], [1.0, -1.0, 0.5, 2.0, 2.0, -0.25, 1.0], [0.0, 0.0, -1.0, 0.0, 3.0, 3.0, 0.0]] {
            let mut u = U::fresh();
            let mut e = Eq::new::<T, U>();
            set_all(c, &mut u, &mut e, co)?;
            for x in xs {
                let got = u.process(T::f(x)).d();
                let want = e.step(x);
                c.see(got);
                if !((got - want).abs() <= e.err) {
                    return Err(format!("coefficients {:?}, samples {:?}: output {:e}, expected {:e}", e.c, xs, got, want));
                }
            }
        }
        Ok(())
    });
    // Each coefficient swept finely.
    scenario(v, &format!("sweeps/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let which = c.pick(5);
        if !U::HAS[which] {
            return Ok(());
        }
        let co0 = c.of(&[[1.0, 0.5, -0.25, 0.5, -0.25], [0.2, 0.4, 0.2, -1.1, 0.6], [0.9, -1.8, 0.9, -1.7, 0.8]]);
        let hi = c.pick(64) as i32 - 32;
        for lo in 0..256 {
            let a = (hi as f64 + lo as f64 / 256.0) / 8.0;
            let mut co = co0;
            co[which] = a;
            let mut u = U::fresh();
            let mut e = Eq::new::<T, U>();
            u.set(co);
            e.mask::<T, U>(co);
            for i in 0..16 {
                let x = [1.0, -0.5, 0.0, 0.75, 2.0, 0.0, 0.0][i % 7];
                let got = u.process(T::f(x)).d();
                let want = e.step(x);
                if !((got - want).abs() <= e.err) {
                    return Err(format!("coefficients {:?}, sample {}: output {:e}, expected {:e}", e.c, i, got, want));
                }
            }
            c.points += 1;
            c.ops += 16;
            c.see(u.last_out().d());
        }
        Ok(())
    });
    // Every sequence of samples and coefficient changes.
    scenario(v, &format!("live-changes/{}<{}>", U::NAME, T::NAME), depth, move |c, depth| {
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        let free: Vec<usize> = (0..5).filter(|i| U::HAS[*i]).collect();
        for _ in 0..depth {
            let k = c.pick(3 + 3 + 1 + 2 * free.len());
            match k {
                0..=2 => step(c, &mut u, &mut e, [1.0, -2.0, 0.0][k])?,
                3..=5 => {
                    let co = [[0.5, 0.25, -0.5, 0.5, -0.25], [1.0, -1.0, 0.75, -0.5, 0.5], [0.0, 1.0, 0.0, 0.0, 1.0]][k - 3];
                    set_all(c, &mut u, &mut e, co)?
                }
                6 => {
                    c.say(|| "clear()".into());
                    c.op();
                    u.clear();
                    e.clear();
                    read_back::<T, U>(&u, &e)?
                }
                _ => {
                    let i = free[(k - 7) / 2];
                    let x = [0.75, -1.0][(k - 7) % 2];
                    c.say(|| format!("coefficient {} = {}", ["b0", "b1", "b2", "a1", "a2"][i], x));
                    c.op();
                    u.set_one(i, x);
                    e.c[i] = x;
                    read_back::<T, U>(&u, &e)?
                }
            }
        }
        for x in [1.0, 0.0, 0.5, 0.0] {
            step(c, &mut u, &mut e, x)?;
        }
        Ok(())
    });
    // One coefficient or the sample ranges over a lattice of all magnitudes; the rest is fixed.
    let mut exponents: Vec<i32> = (-120..=40).collect();
    if !T::IS32 {
        exponents.extend((-49..-6).map(|k| k * 20));
        exponents.extend((3..10).map(|k| k * 20));
    }
    scenario(v, &format!("magnitudes/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let which = c.pick(6);
        if which < 5 && !U::HAS[which] {
            return Ok(());
        }
        let co0 = c.of(&[[1.0, 0.5, -0.25, 0.5, -0.25], [0.7, -1.3, 0.9, -1.1, 0.6], [0.0, 1.0, 2.0, 1.0, 0.0]]);
        let e = exponents[c.pick(exponents.len())];
        let whole = c.pick(2) == 1;
        let mut u = U::fresh();
        let mut m = Eq::new::<T, U>();
        u.set(co0);
        m.mask::<T, U>(co0);
        let tiny = if T::IS32 { 1e-43 } else { 1e-320 };
        for k in 0..1u32 << 7 {
            let a = 2f64.powi(e) * (1.0 + (k / 2) as f64 / 64.0) * if k % 2 == 0 { 1.0 } else { -1.0 };
            c.points += 1;
            u.clear();
            m.clear();
            let mut xs = [1.0, -0.5, 0.75, 0.0, 0.0];
            if which < 5 {
                if whole {
                    let mut co = co0;
                    co[which] = a;
                    u.set(co);
                } else {
                    u.set_one(which, a);
                }
                m.c[which] = T::f(a).d();
            } else if whole {
                // nothing of ordinary magnitude in sight
                xs = [a, 0.0, a * 0.5, 0.0, 0.0];
            } else {
                xs = [a, 1.0, a, -0.5, 0.0];
            }
            for x in xs {
                let got = u.process(T::f(x)).d();
                let want = m.step(T::f(x).d());
                if m.mag > if T::IS32 { 1e35 } else { 1e300 } {
                    break;
                }
                if !((got - want).abs() <= m.err + tiny * (1.0 + m.c[3].abs() + m.c[4].abs()).powi(5)) {
                    return Err(format!("coefficients {:?}, samples {:?}: output {:e}, expected {:e}", m.c, xs, got, want));
                }
            }
            c.ops += 5;
        }
        c.see(u.last_out().d());
        Ok(())
    });
    // Long streams through ordinary coefficients, changing once on the way.
    scenario(v, &format!("long/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const SETS: [Co; 6] = [
            [0.3, 0.2, 0.1, -0.9, 0.3],
            [0.02, 0.04, 0.02, -1.56, 0.64],
            [1.7, -3.1, 1.3, 0.4, 0.1],
            [-0.01, 0.0, 0.01, 0.0, 0.98],
            [1.0, 0.0, 0.0, 0.0, 0.0],
            [1e-4, 1e3, -1e-5, 0.5, -0.3],
        ];
        let (mut a, mut b) = (c.of(&SETS), c.of(&SETS));
        if !U::HAS[4] {
            // keep a single pole inside the unit circle
            a[3] *= 0.5;
            b[3] *= 0.5;
        }
        let scale = c.of(&[1.0, 1e-15, 1e12]);
        let when = c.of(&[1usize, 37, 1000]);
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        set_all(c, &mut u, &mut e, a)?;
        let mut top = 0f64;
        for i in 0..long {
            if i == when {
                set_all(c, &mut u, &mut e, b)?;
            }
            let x = T::f(((i as u32).wrapping_mul(2654435761) as i32 as f64) / 2147483648.0 * scale);
            let got = u.process(x).d();
            let want = e.step(x.d());
            top = top.max(e.mag).max(want.abs());
            c.see(got);
            // Rounding errors are fed back through poles of radius at most 0.99.
            if !((got - want).abs() <= 4000.0 * T::EPS * top) {
                c.say(|| format!("sample {}: {} expected {}", i, got, want));
                return Err(format!("sample {} of a long stream ({:?}, then {:?}) gave {}, expected {}", i, a, b, got, want));
            }
        }
        Ok(())
    });
}

/// Long streams of every character through resonant and ordinary settings.
fn c09_shapes<T: S, U: Basic<T>>(v: &mut Vec<Scenario>, long: usize) {
    scenario(v, &format!("shapes/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const SETS: [Co; 8] = [
            [0.3, 0.2, 0.1, -0.9, 0.3],
            [1.0, 0.0, -1.0, -1.9, 0.9998],
            [1.0, 0.5, 0.25, 1.99, 0.9999],
            [0.01, 0.02, 0.01, -1.999, 0.99901],
            [1.0, -2.0, 1.0, 0.0, -0.9999],
            [0.5, 0.0, 0.0, 0.0, 0.9999],
            [0.0, 0.0, 1.0, 0.0, 0.0],
            [0.001, 0.0, 0.0, -0.9995, 0.0],
        ];
        let mut co = c.of(&SETS);
        if !U::HAS[4] && co[3].abs() >= 1.0 {
            co[3] *= 0.5;
        }
        let kind = c.pick(SHAPES);
        let scale = c.of(&[1.0, 1e-12, 1e9]);
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        set_all(c, &mut u, &mut e, co)?;
        // A bound for the effect of one rounding error at any later time.
        let mut gain = 0f64;
        {
            let mut g = Eq::new::<T, U>();
            g.mask::<T, U>(co);
            g.c[0] = 1.0;
            g.c[1] = 0.0;
            g.c[2] = 0.0;
            for i in 0..long {
                gain += g.step(if i == 0 { 1.0 } else { 0.0 }).abs();
            }
        }
        let mut top = 0f64;
        for i in 0..long {
            let x = T::f(shape(kind, i) * scale);
            let got = u.process(x).d();
            let want = e.step(x.d());
            top = top.max(e.mag).max(want.abs());
            c.see(got);
            if !((got - want).abs() <= 16.0 * T::EPS * top * gain) {
                c.say(|| format!("sample {}: {} expected {}", i, got, want));
                return Err(format!("sample {} of long stream {} ({:?}, scale {}) gave {}, expected {}", i, kind, co, scale, got, want));
            }
        }
        Ok(())
    });
}

/// More samples than an f32 counter can tell apart.
fn marathon(thorough: bool) -> usize {
    if thorough { (1 << 26) + 5000 } else { (1 << 24) + 5000 }
}

fn c09_marathon<T: S, U: Basic<T>>(v: &mut Vec<Scenario>, n: usize) {
    scenario(v, &format!("marathon/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let mut co = [0.3, 0.2, 0.1, -0.9, 0.3];
        if !U::HAS[4] {
            co[3] *= 0.5;
        }
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        set_all(c, &mut u, &mut e, co)?;
        let mut top = 0f64;
        for i in 0..n {
            let x = T::f(shape(0, i));
            let got = u.process(x).d();
            let want = e.step(x.d());
            top = top.max(e.mag).max(want.abs());
            if !((got - want).abs() <= 4000.0 * T::EPS * top) {
                return Err(format!("sample {} of a very long stream ({:?}) gave {}, expected {}", i, co, got, want));
            }
        }
        c.ops += n as u64;
        c.see(u.last_out().d());
        Ok(())
    });
    // A change of coefficients before every sample, very often.
    scenario(v, &format!("many-changes/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const CO: [Co; 3] = [[0.3, 0.2, 0.1, -0.4, 0.3], [0.5, -0.25, 0.0, 0.25, -0.5], [1.0, 0.5, -0.25, -0.125, 0.125]];
        let every = 1 + c.pick(3);
        let mut u = U::fresh();
        let mut e = Eq::new::<T, U>();
        let mut top = 0f64;
        for i in 0..n / 16 {
            if i % every == 0 {
                set_all(c, &mut u, &mut e, CO[(i / every) % 3])?;
            }
            let x = T::f(shape(0, i));
            let got = u.process(x).d();
            let want = e.step(x.d());
            top = top.max(e.mag).max(want.abs());
            if !((got - want).abs() <= 400.0 * T::EPS * top) {
                return Err(format!("sample {} after {} changes of coefficients gave {}, expected {}", i, i / every + 1, got, want));
            }
        }
        c.see(u.last_out().d());
        Ok(())
    });
}

fn c14_marathon<T: S, U: Det<T>>(v: &mut Vec<Scenario>, n: usize) {
    scenario(v, &format!("marathon/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let (a, r) = c.of(&[(64.0, 882.0), (20000.0, 3.0)]);
        let mut u = U::fresh();
        u.attack(T::f(a));
        u.release(T::f(r));
        let mut m = Env::new();
        m.at = gain_of::<T>(a);
        m.re = gain_of::<T>(r);
        for i in 0..n {
            let x = T::f(shape(0, i));
            let y = u.process(x).d();
            m.step::<T, U>(x.d());
            if let Err(e) = m.check::<T, U>(y) {
                return Err(format!("attack {} release {} sample {} of a very long stream: {}", a, r, i, e));
            }
        }
        c.ops += n as u64;
        c.see(u.last_out().d());
        Ok(())
    });
    // A change of one time or the other before every sample, very often.
    scenario(v, &format!("many-changes/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let which = c.pick(3);
        let mut u = U::fresh();
        let mut m = Env::new();
        for i in 0..n / 16 {
            let l = [3.0, 40.0, 1.5, 500.0, 12.0][i % 5];
            if which == 0 || which == 2 && i % 2 == 0 {
                u.attack(T::f(l));
                m.at = gain_of::<T>(l);
            } else {
                u.release(T::f(l));
                m.re = gain_of::<T>(l);
            }
            let x = T::f(shape(0, i));
            let y = u.process(x).d();
            m.step::<T, U>(x.d());
            if let Err(e) = m.check::<T, U>(y) {
                return Err(format!("sample {}, each after a change of a time: {}", i, e));
            }
        }
        c.ops += n as u64 / 8;
        c.see(u.last_out().d());
        Ok(())
    });
}

fn c16_marathon<T: S>(v: &mut Vec<Scenario>, n: usize) {
    use rasp::traits::Processor;
    scenario(v, &format!("marathon<{}>", T::NAME), 1, move |c, _| {
        let al = c.of(&[0.5, 0.9, 0.9999]);
        let a = T::f(al).d();
        let mut u = LeakyIntegrator::<T>::new();
        u.set_alpha(T::f(al));
        let (mut y, mut err) = (0.0f64, 0.0);
        for i in 0..n {
            let x = T::f(shape(0, i)).d();
            let got = u.process(T::f(x)).d();
            let m = x.abs().max(y.abs());
            y = x + a * (y - x);
            err = a * err + 6.0 * T::EPS * m;
            if !((got - y).abs() <= err + 1e-30) {
                return Err(format!("alpha {} sample {} of a very long stream: {}, expected {}", al, i, got, y));
            }
        }
        c.ops += n as u64;
        c.see(y);
        Ok(())
    });
}

fn c09_forms<T: S>(v: &mut Vec<Scenario>, n: usize) {
    scenario(v, &format!("two-forms<{}>", T::NAME), n, move |c, n| {
        let mut co = [0.0; 5];
        for x in co.iter_mut() {
            *x = c.of(&[0.0, 1.0, -0.5, 0.25]);
        }
        let (mut p, mut q) = (Biquad1::<T>::new(), Biquad2::<T>::new());
        Basic::set(&mut p, co);
        Basic::set(&mut q, co);
        use rasp::traits::Processor;
        let mut top = 0f64;
        for i in 0..n + 3 {
            let x = if i < n { c.of(&[1.0, 0.0, -1.5]) } else { 0.0 };
            let (a, b) = (p.process(T::f(x)).d(), q.process(T::f(x)).d());
            c.see(a);
            top = top.max(a.abs()).max(b.abs()).max(1.0);
            if !((a - b).abs() <= 32.0 * T::EPS * top) {
                return Err(format!("with {:?}, sample {}: direct form I gives {}, transposed form II {}", co, i, a, b));
            }
        }
        Ok(())
    });
}

// ---- detectors ----

pub trait Det<T: S>: Unit<T> {
    const RMS: bool;
    fn attack(&mut self, x: T);
    fn release(&mut self, x: T);
    fn gains(&self) -> (f64, f64);
}
impl<T: S> Det<T> for PeakEnvDetector<T> {
    const RMS: bool = false;
    fn attack(&mut self, x: T) {
        self.set_attack(x)
    }
    fn release(&mut self, x: T) {
        self.set_release(x)
    }
    fn gains(&self) -> (f64, f64) {
        (self.get_attack_gain().d(), self.get_release_gain().d())
    }
}
impl<T: S> Det<T> for RmsEnvDetector<T> {
    const RMS: bool = true;
    fn attack(&mut self, x: T) {
        self.set_attack(x)
    }
    fn release(&mut self, x: T) {
        self.set_release(x)
    }
    fn gains(&self) -> (f64, f64) {
        (self.get_attack_gain().d(), self.get_release_gain().d())
    }
}

/// The envelope in exact arithmetic (nearly), with a bound on the implementation's rounding.
struct Env {
    env: f64,
    err: f64,
    top: f64,
    at: f64,
    re: f64,
}

fn gain_of<T: S>(len: f64) -> f64 {
    (-1.0 / T::f(len).d()).exp()
}

impl Env {
    fn new() -> Env {
        Env { env: 0.0, err: 0.0, top: 0.0, at: 0.0, re: 0.0 }
    }
    fn step<T: S, U: Det<T>>(&mut self, x: f64) {
        let lvl = if U::RMS { x * x } else { x.abs() };
        let a = if self.env < lvl { self.at } else { self.re };
        let unsure = if (self.env - lvl).abs() <= self.err { self.err } else { 0.0 };
        let m = self.env.max(lvl);
        self.env = lvl + a * (self.env - lvl);
        self.err = a * self.err + unsure + 6.0 * T::EPS * m + if T::IS32 { 3e-45 } else { 1e-323 };
        self.top = self.top.max(lvl);
    }
    fn clear(&mut self) {
        self.env = 0.0;
        self.err = 0.0;
        self.top = 0.0;
    }
    fn check<T: S, U: Det<T>>(&self, out: f64) -> Res {
        if !(out >= 0.0) {
            return Err(format!("the envelope is {}", out));
        }
        let (g, extra) = if U::RMS { (out * out, 6.0 * T::EPS * self.env) } else { (out, 0.0) };
        if !((g - self.env).abs() <= self.err + extra) {
            return Err(format!("the envelope is {}, expected {}", out, if U::RMS { self.env.sqrt() } else { self.env }));
        }
        let top = if U::RMS { self.top.sqrt() } else { self.top };
        if out > top * (1.0 + 8.0 * T::EPS) + if T::IS32 { 1e-22 } else { 1e-160 } {
            return Err(format!("the envelope {} exceeds the largest level {}", out, top));
        }
        Ok(())
    }
}

fn c14<T: S, U: Det<T>>(v: &mut Vec<Scenario>, depth: usize, long: usize) {
    const XS: [f64; 6] = [1.0, 0.0, -1.0, 0.25, -3.0, 1e-6];
    const LS: [f64; 4] = [2.0, 50.0, 0.25, 0.0];
    scenario(v, &format!("histories/{}<{}>", U::NAME, T::NAME), depth, move |c, depth| {
        let mut u = U::fresh();
        let mut m = Env::new();
        // The first setting of both times, then every history.
        let a0 = c.of(&[0.0, 3.0]);
        let r0 = c.of(&[0.0, 5.0]);
        for (l, att) in [(a0, true), (r0, false)] {
            if l > 0.0 {
                if att {
                    u.attack(T::f(l));
                    m.at = gain_of::<T>(l);
                } else {
                    u.release(T::f(l));
                    m.re = gain_of::<T>(l);
                }
            }
        }
        c.say(|| format!("attack {} release {} (0: not set)", a0, r0));
        let n = XS.len() + 2 * LS.len() + 1;
        for _ in 0..depth {
            let k = c.pick(n);
            if k < XS.len() {
                let x = T::f(XS[k]);
                let y = u.process(x).d();
                c.see(y);
                m.step::<T, U>(x.d());
                c.say(|| format!("process({:?}) = {}   expected level {}", x, y, m.env));
                m.check::<T, U>(y)?;
            } else if k < XS.len() + LS.len() {
                let l = LS[k - XS.len()];
                c.op();
                c.say(|| format!("set_attack({})", l));
                u.attack(T::f(l));
                if l > 0.0 {
                    m.at = gain_of::<T>(l);
                }
            } else if k < n - 1 {
                let l = LS[k - XS.len() - LS.len()];
                c.op();
                c.say(|| format!("set_release({})", l));
                u.release(T::f(l));
                if l > 0.0 {
                    m.re = gain_of::<T>(l);
                }
            } else {
                c.op();
                c.say(|| "clear()".into());
                u.clear();
                m.clear();
            }
            // The current envelope is only moved by samples.
            m.check::<T, U>(u.last_out().d())?;
        }
        for x in [0.5, 0.0, -2.0, 0.1] {
            let x = T::f(x);
            let y = u.process(x).d();
            m.step::<T, U>(x.d());
            m.check::<T, U>(y)?;
        }
        Ok(())
    });
    scenario(v, &format!("step-response/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const L: [f64; 9] = [0.1, 1.0, 1.5, 10.0, 100.0, 441.0, 882.0, 8820.0, 1e6];
        let (a, r) = (c.of(&L), c.of(&L));
        let amp = c.of(&[1.0, -0.5, 1e-12, 1e15]);
        let mut u = U::fresh();
        u.attack(T::f(a));
        u.release(T::f(r));
        let mut m = Env::new();
        m.at = gain_of::<T>(a);
        m.re = gain_of::<T>(r);
        c.say(|| format!("attack {} release {} amplitude {}", a, r, amp));
        // Up, down, part way up, silence.
        for (i, lv) in [amp, 0.0, -amp / 4.0, amp * 2.0, 0.0].iter().enumerate() {
            for t in 0..long {
                let x = T::f(*lv);
                let y = u.process(x).d();
                c.see(y);
                m.step::<T, U>(x.d());
                if let Err(e) = m.check::<T, U>(y) {
                    return Err(format!("phase {} sample {}: {}", i, t, e));
                }
                // In closed form, while rising from silence.
                if i == 0 {
                    let lvl = if U::RMS { x.d() * x.d() } else { x.d().abs() };
                    let w = lvl * -((-(t as f64 + 1.0) / T::f(a).d()).exp_m1());
                    let g = if U::RMS { y * y } else { y };
                    if !((g - w).abs() <= lvl * T::EPS * 16.0 * (t as f64 + 4.0)) {
                        return Err(format!("rising for {} samples with attack {}: level {}, expected {}", t + 1, a, g, w));
                    }
                }
            }
        }
        Ok(())
    });
    // Every length of a lattice over all magnitudes, as attack and as release.
    scenario(v, &format!("lengths/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let release = c.pick(2) == 1;
        let other = c.of(&[0.0, 4.0, 700.0]);
        let hi = c.pick(255) as u32;
        for lo in 0..1u32 << 8 {
            let l = f32::from_bits(hi << 23 | lo << 15) as f64;
            if !(l > 0.0) {
                continue;
            }
            let mut u = U::fresh();
            let mut m = Env::new();
            let (a, r) = if release { (other, l) } else { (l, other) };
            if a > 0.0 {
                u.attack(T::f(a));
                m.at = gain_of::<T>(a);
            }
            if r > 0.0 {
                u.release(T::f(r));
                m.re = gain_of::<T>(r);
            }
            for x in [1.0, 0.5, 2.0, 0.0, -1.0, -3.0] {
                let y = u.process(T::f(x)).d();
                m.step::<T, U>(x);
                // The gain itself is an exponential rounded in the sample type.
                m.err += 8.0 * T::EPS * m.top.max(1.0);
                if let Err(e) = m.check::<T, U>(y) {
                    return Err(format!("attack {} release {} sample {}: {}", a, r, x, e));
                }
            }
            c.points += 1;
            c.ops += 8;
        }
        Ok(())
    });
    // Every level of a lattice, rising and falling.
    scenario(v, &format!("levels/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let (a, r) = (c.of(&[0.5, 20.0]), c.of(&[3.0, 900.0]));
        // Squares stay finite and normal in f32.
        let e = c.pick(101) as i32 - 50;
        for k in 0..1u32 << 8 {
            let lv = 2f64.powi(e) * (1.0 + k as f64 / 256.0);
            let mut u = U::fresh();
            let mut m = Env::new();
            u.attack(T::f(a));
            u.release(T::f(r));
            m.at = gain_of::<T>(a);
            m.re = gain_of::<T>(r);
            for x in [lv, -lv, 0.0, lv / 2.0, -lv * 1.5, lv, 0.0, 0.0] {
                let x = T::f(x);
                let y = u.process(x).d();
                m.step::<T, U>(x.d());
                if let Err(e) = m.check::<T, U>(y) {
                    return Err(format!("level {} (attack {}, release {}), sample {:?}: {}", lv, a, r, x, e));
                }
            }
            c.points += 1;
            c.ops += 8;
        }
        Ok(())
    });
    scenario(v, &format!("noise/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        const L: [f64; 5] = [0.5, 3.0, 64.0, 882.0, 20000.0];
        let (a, r) = (c.of(&L), c.of(&L));
        let amp = c.of(&[1.0, 1e-3, 1000.0]);
        let kind = c.pick(SHAPES);
        let mut u = U::fresh();
        u.attack(T::f(a));
        u.release(T::f(r));
        let mut m = Env::new();
        m.at = gain_of::<T>(a);
        m.re = gain_of::<T>(r);
        for i in 0..2 * long {
            let x = T::f(shape(kind, i) * amp);
            let y = u.process(x).d();
            c.see(y);
            m.step::<T, U>(x.d());
            if let Err(e) = m.check::<T, U>(y) {
                return Err(format!("attack {} release {} stream {} sample {}: {}", a, r, kind, i, e));
            }
        }
        Ok(())
    });
}

// ---- C15 ----

/// One setter of one processor. Returns the gain it controls and the other settings.
trait Setter<T: S>: Unit<T> {
    const WHAT: &'static str;
    fn set(&mut self, x: T);
    fn mine(&self) -> T;
    fn other(&self) -> f64;
    fn prepare(&mut self);
    fn valid(x: f64) -> bool;
    fn gain(x: f64) -> f64;
}
struct Att<U>(U);
struct Rel<U>(U);
macro_rules! wrap {
    ($w:ident, $what:expr, $set:ident, $a:tt, $b:tt) => {
        impl<T: S, U: Det<T>> rasp::traits::Processor<T> for $w<U> {
            fn process(&mut self, x: T) -> T {
                self.0.process(x)
            }
            fn clear(&mut self) {
                self.0.clear()
            }
            fn last_out(&self) -> T {
                self.0.last_out()
            }
        }
        impl<T: S, U: Det<T>> Unit<T> for $w<U> {
            const NAME: &'static str = U::NAME;
            const LTI: bool = false;
            fn fresh() -> Self {
                $w(U::fresh())
            }
            fn nparam() -> usize {
                0
            }
            fn param(&mut self, _: usize) {}
        }
        impl<T: S, U: Det<T>> Setter<T> for $w<U> {
            const WHAT: &'static str = $what;
            fn set(&mut self, x: T) {
                self.0.$set(x)
            }
            fn mine(&self) -> T {
                T::f(self.0.gains().$a)
            }
            fn other(&self) -> f64 {
                self.0.gains().$b
            }
            fn prepare(&mut self) {
                self.0.attack(T::f(7.0));
                self.0.release(T::f(11.0));
            }
            fn valid(x: f64) -> bool {
                x > 0.0 && x.is_finite()
            }
            fn gain(x: f64) -> f64 {
                (-1.0 / x).exp()
            }
        }
    };
}
wrap!(Att, "attack", attack, 0, 1);
wrap!(Rel, "release", release, 1, 0);
impl<T: S> Setter<T> for LeakyIntegrator<T> {
    const WHAT: &'static str = "alpha";
    fn set(&mut self, x: T) {
        self.set_alpha(x)
    }
    fn mine(&self) -> T {
        self.get_alpha()
    }
    fn other(&self) -> f64 {
        0.0
    }
    fn prepare(&mut self) {
        self.set_alpha(T::f(0.3))
    }
    fn valid(x: f64) -> bool {
        x >= 0.0 && x < 1.0
    }
    fn gain(x: f64) -> f64 {
        x
    }
}

fn gain_ok<T: S>(g: f64, want: f64, x: f64) -> bool {
    let rel = if want == 0.0 { 0.0 } else { 4.0 * T::EPS * (1.0 + 1.0 / x) };
    let tol = rel * want + if T::IS32 { 1.2e-38 } else { 2.3e-308 };
    g >= 0.0 && g <= 1.0 && (g - want).abs() <= tol
}

fn judge<T: S, U: Setter<T>>(u: &mut U, x: T, before: f64, other: f64, out: f64) -> Res {
    u.set(x);
    let g = u.mine().d();
    let xd = x.d();
    if U::valid(xd) {
        let w = U::gain(xd);
        let good = if U::WHAT == "alpha" { g == xd } else { gain_ok::<T>(g, w, xd) };
        if !good {
            return Err(format!("{}: setting {} to {:e} gave gain {}, expected {}", U::NAME, U::WHAT, xd, g, w));
        }
    } else if g != before {
        return Err(format!("{}: setting {} to invalid {:e} changed the gain from {} to {}", U::NAME, U::WHAT, xd, before, g));
    }
    if u.other() != other {
        return Err(format!("{}: setting {} to {:e} changed the other gain", U::NAME, U::WHAT, xd));
    }
    if u.last_out().d() != out {
        return Err(format!("{}: setting {} to {:e} changed the envelope", U::NAME, U::WHAT, xd));
    }
    Ok(())
}

/// Interesting argument values, always including the boundary ones.
const ARGS: [f64; 16] = [
    0.5, 1.0, 0.0, -0.0, -1.0, 3.0, 44100.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.999, 1e-30, -1e-30, 1.0000001, 1e30, -0.5,
];

fn c15<T: S, U: Setter<T>>(v: &mut Vec<Scenario>, bits: u32, depth: usize) {
    let who = format!("{}.{}<{}>", U::NAME, U::WHAT, T::NAME);
    // Very many settings of one instance.
    let many = if bits == 32 { (1usize << 24) + 5000 } else { (1 << 20) + 5000 };
    scenario(v, &format!("many/{}", who), 1, move |c, _| {
        let kind = c.pick(3);
        let mut u = U::fresh();
        u.prepare();
        u.process(T::f(0.75));
        for i in 0..many {
            let good = if U::WHAT == "alpha" { [0.5, 0.25, 0.0, 0.99][i % 4] } else { [2.0, 30.0, 0.5, 441.0][i % 4] };
            let bad = ARGS[[3, 4, 7, 8, 9, 15][i % 6]];
            let x = if kind == 0 || kind == 2 && i % 3 > 0 { good } else { bad };
            let x = if U::WHAT == "alpha" && x == 0.0 { 0.125 } else { x };
            let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
            if let Err(e) = judge(&mut u, T::f(x), g, o, y) {
                return Err(format!("after {} settings: {}", i, e));
            }
        }
        c.ops += many as u64;
        c.see(u.mine().d());
        Ok(())
    });
    scenario(v, &format!("histories/{}", who), depth, move |c, depth| {
        // A twin only ever sees the valid settings.
        let (mut u, mut w) = (U::fresh(), U::fresh());
        for _ in 0..depth {
            let k = c.pick(ARGS.len() + 3);
            if k < ARGS.len() {
                let x = T::f(ARGS[k]);
                let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
                c.op();
                c.say(|| format!("set {} to {:?}", U::WHAT, x));
                judge(&mut u, x, g, o, y)?;
                if U::valid(x.d()) {
                    w.set(x);
                }
            } else if k < ARGS.len() + 2 {
                let x = T::f([1.0, -0.25][k - ARGS.len()]);
                let (a, b) = (u.process(x).d(), w.process(x).d());
                c.see(a);
                if !same(a, b) {
                    return Err(format!("after rejected settings process({:?}) = {}, without them {}", x, a, b));
                }
            } else {
                u.clear();
                w.clear();
            }
        }
        for x in [1.0, 0.5, 0.0] {
            let (a, b) = (u.process(T::f(x)).d(), w.process(T::f(x)).d());
            c.see(a);
            if !same(a, b) {
                return Err(format!("after rejected settings process({:?}) = {}, without them {}", x, a, b));
            }
        }
        Ok(())
    });
    // Every argument in every state that one or two samples of any magnitude lead to.
    scenario(v, &format!("levels/{}", who), 1, move |c, _| {
        let e = c.pick(81) as i32 - 40;
        let m = c.of(&[1.0, -1.0, 1.25, 1.75]);
        let second = c.of(&[None, Some(0.0), Some(0.5), Some(-2.0)]);
        let ready = c.pick(2) == 1;
        for k in 0..ARGS.len() {
            let x = T::f(ARGS[k]);
            let (mut u, mut w) = (U::fresh(), U::fresh());
            for p in [&mut u, &mut w] {
                if ready {
                    p.prepare();
                }
                p.process(T::f(m * 2f64.powi(e)));
                if let Some(s) = second {
                    p.process(T::f(s * m * 2f64.powi(e)));
                }
            }
            let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
            judge(&mut u, x, g, o, y)?;
            c.points += 1;
            if U::valid(x.d()) {
                w.set(x);
            }
            for s in [0.0, 1.0, 0.25] {
                let (a, b) = (u.process(T::f(s)).d(), w.process(T::f(s)).d());
                c.see(a);
                if !same(a, b) {
                    return Err(format!("state after {}*2^{} {:?}: after rejecting {:?} process({}) = {}, without it {}", m, e, second, x, s, a, b));
                }
            }
        }
        Ok(())
    });
    if T::IS32 {
        scenario(v, &format!("all-f32/{}/2^{}", who, bits), 1, move |c, _| {
            let hi = c.pick(256) as u32;
            for lo in 0..(1u32 << (bits - 8)) {
                let b = (hi << 24) | (lo << (32 - bits));
                let x = f32::from_bits(b) as f64;
                let mut u = U::fresh();
                u.prepare();
                u.process(T::f(0.75));
                let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
                judge(&mut u, T::f(x), g, o, y)?;
                if lo & 0x3ff == 0 {
                    c.see(u.mine().d());
                }
            }
            c.points += 1u64 << (bits - 8);
            c.ops += 4u64 << (bits - 8);
            Ok(())
        });
        // Every value around the boundaries of validity.
        scenario(v, &format!("boundaries/{}", who), 1, move |c, _| {
            let at = c.of(&[0x0000_0000u32, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000]);
            for d in -70000i64..70000 {
                let b = (at as i64 + d) as u32;
                let x = f32::from_bits(b) as f64;
                let mut u = U::fresh();
                u.prepare();
                let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
                judge(&mut u, T::f(x), g, o, y)?;
                c.points += 1;
                if d & 0xff == 0 {
                    c.see(u.mine().d());
                }
            }
            Ok(())
        });
    } else {
        scenario(v, &format!("f64-lattice/{}", who), 1, move |c, _| {
            let sign = c.pick(2) as u64;
            for e in 0..2048u64 {
                for m in [0u64, 1, 2, 1 << 51, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555] {
                    let x = f64::from_bits(sign << 63 | e << 52 | m);
                    let mut u = U::fresh();
                    u.prepare();
                    u.process(T::f(0.75));
                    let (g, o, y) = (u.mine().d(), u.other(), u.last_out().d());
                    judge(&mut u, T::f(x), g, o, y)?;
                    c.points += 1;
                    c.see(u.mine().d());
                }
            }
            Ok(())
        });
    }
}

// ---- C16 ----

fn c16<T: S>(v: &mut Vec<Scenario>, depth: usize, long: usize) {
    use rasp::traits::Processor;
    const XS: [f64; 5] = [1.0, 0.0, -1.0, 0.5, -6.0];
    const AS: [f64; 4] = [0.0, 0.5, 0.75, 0.25];
    scenario(v, &format!("histories<{}>", T::NAME), depth, move |c, depth| {
        let mut u = LeakyIntegrator::<T>::new();
        let (mut al, mut y) = (0.0, 0.0f64);
        for i in 0..depth + 2 {
            let k = if i < depth { c.pick(XS.len() + AS.len() + 2) } else { i - depth };
            if k < XS.len() {
                let x = XS[k];
                let want = (1.0 - al) * x + al * y;
                let got = u.process(T::f(x)).d();
                c.see(got);
                c.say(|| format!("process({}) = {}   expected {}", x, got, want));
                if !((got - want).abs() <= 8.0 * T::EPS * x.abs().max(y.abs())) {
                    return Err(format!("alpha {}: from {} with {} came {}, expected {}", al, y, x, got, want));
                }
                let (lo, hi) = (x.min(y), x.max(y));
                let t = 8.0 * T::EPS * x.abs().max(y.abs());
                if got < lo - t || got > hi + t {
                    return Err(format!("output {} is not between {} and {}", got, lo, hi));
                }
                y = want;
            } else if k < XS.len() + AS.len() {
                al = AS[k - XS.len()];
                c.op();
                c.say(|| format!("set_alpha({})", al));
                u.set_alpha(T::f(al));
            } else if k == XS.len() + AS.len() {
                c.op();
                c.say(|| "set_alpha(1) (invalid)".into());
                u.set_alpha(T::f(1.0));
            } else {
                c.op();
                c.say(|| "clear()".into());
                u.clear();
                y = 0.0;
            }
            if !((u.last_out().d() - y).abs() <= 8.0 * T::EPS * y.abs()) {
                return Err(format!("stored output {:?}, expected {}", u.last_out(), y));
            }
        }
        Ok(())
    });
    // Every alpha of a lattice with several samples; every sample of a lattice with several alphas.
    scenario(v, &format!("magnitudes<{}>", T::NAME), 1, move |c, _| {
        let over_alpha = c.pick(2) == 0;
        let hi = c.pick(128) as u32;
        let fixed = c.pick(5);
        for lo in 0..1u32 << 10 {
            let z = f32::from_bits(hi << 24 | lo << 14) as f64;
            let (al, xs) = if over_alpha {
                (z, [[1.0, -0.5, 0.25], [100.0, 0.0, 0.0], [-1e-3, 1e-3, 1.0], [1e10, 1.0, -1e10], [0.0, 1.0, 1.0]][fixed])
            } else {
                ([0.0, 0.5, 0.3, 0.99, 0.9999][fixed], [z, -1.0, -z])
            };
            if !(al < 1.0) || !(z.abs() <= 1e30) {
                continue;
            }
            let a = T::f(al).d();
            let mut u = LeakyIntegrator::<T>::new();
            u.set_alpha(T::f(al));
            let (mut y, mut err) = (0.0f64, 0.0);
            for x in xs {
                let x = T::f(x).d();
                let got = u.process(T::f(x)).d();
                let m = x.abs().max(y.abs());
                let (lo, hi) = (x.min(y), x.max(y));
                y = x + a * (y - x);
                err = a * err + 6.0 * T::EPS * m + if T::IS32 { 3e-45 } else { 1e-323 };
                if !((got - y).abs() <= err) || got < lo - 2.0 * err || got > hi + 2.0 * err {
                    return Err(format!("alpha {} samples {:?}: {} expected {}", al, xs, got, y));
                }
            }
            c.points += 1;
            c.ops += 3;
        }
        Ok(())
    });
    scenario(v, &format!("constant<{}>", T::NAME), 1, move |c, _| {
        let al = c.of(&[0.0, 1e-9, 0.1, 0.3, 0.5, 0.9, 0.99, 0.999, 0.99999]);
        let scale = c.of(&[1.0, 1e-15, 1e15]);
        let from = c.of(&[0.0, 5.0, -2.0, 0.999]) * scale;
        let x = T::f(c.of(&[1.0, -3.0, 0.0]) * scale).d();
        let a = T::f(al).d();
        let floor = T::min_positive_value().d();
        let mut u = LeakyIntegrator::<T>::new();
        let mut y = u.process(T::f(from)).d();
        u.set_alpha(T::f(al));
        let mut err = 0.0;
        let mut dist = (y - x).abs();
        for t in 0..long {
            let got = u.process(T::f(x)).d();
            c.see(got);
            let m = x.abs().max(y.abs());
            y = x + a * (y - x);
            err = a * err + 4.0 * T::EPS * m;
            if !((got - y).abs() <= err + floor) {
                return Err(format!("alpha {} towards {} sample {}: {}, expected {}", al, x, t, got, y));
            }
            let d = (got - x).abs();
            if d > dist + 4.0 * T::EPS * m + floor {
                return Err(format!("alpha {} towards {} sample {}: moved away from the input", al, x, t));
            }
            dist = d;
        }
        Ok(())
    });
    scenario(v, &format!("noise<{}>", T::NAME), 1, move |c, _| {
        let al = c.of(&[0.0, 1e-9, 0.1, 0.3, 0.5, 0.9, 0.99, 0.999, 0.99999]);
        let scale = c.of(&[1.0, 1e-15, 1e15]);
        let kind = c.pick(SHAPES);
        let a = T::f(al).d();
        let floor = T::min_positive_value().d();
        let mut u = LeakyIntegrator::<T>::new();
        u.set_alpha(T::f(al));
        let (mut y, mut err) = (0.0f64, 0.0);
        for i in 0..long {
            let x = T::f(shape(kind, i) * scale).d();
            let got = u.process(T::f(x)).d();
            c.see(got);
            let m = x.abs().max(y.abs());
            y = x + a * (y - x);
            err = a * err + 6.0 * T::EPS * m;
            if !((got - y).abs() <= err + floor) {
                return Err(format!("alpha {} sample {}: {}, expected {}", al, i, got, y));
            }
        }
        Ok(())
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut w = vec![];
    let v = &mut w;
    let x = thorough as usize;
    macro_rules! basics {
        ($t:ty, $n:expr, $d:expr, $l:expr) => {{
            c09::<$t, OnePole<$t>>(v, $n + 2, $d + 1, $l);
            c09::<$t, OneZero<$t>>(v, $n + 2, $d + 1, $l);
            c09::<$t, TwoPole<$t>>(v, $n + 1, $d, $l);
            c09::<$t, TwoZero<$t>>(v, $n + 1, $d, $l);
            c09::<$t, Biquad1<$t>>(v, $n, $d, $l);
            c09::<$t, Biquad2<$t>>(v, $n, $d, $l);
            c09_shapes::<$t, OnePole<$t>>(v, $l);
            c09_marathon::<$t, OnePole<$t>>(v, marathon(thorough));
            c09_shapes::<$t, OneZero<$t>>(v, $l);
            c09_marathon::<$t, OneZero<$t>>(v, marathon(thorough));
            c09_shapes::<$t, TwoPole<$t>>(v, $l);
            c09_marathon::<$t, TwoPole<$t>>(v, marathon(thorough));
            c09_shapes::<$t, TwoZero<$t>>(v, $l);
            c09_marathon::<$t, TwoZero<$t>>(v, marathon(thorough));
            c09_shapes::<$t, Biquad1<$t>>(v, $l);
            c09_marathon::<$t, Biquad1<$t>>(v, marathon(thorough));
            c09_shapes::<$t, Biquad2<$t>>(v, $l);
            c09_marathon::<$t, Biquad2<$t>>(v, marathon(thorough));
            c09_forms::<$t>(v, $n);
        }};
    }
    match id {
        "C09" => {
            basics!(f32, 7 + x, 5 + x, 3000 + 60000 * x);
            basics!(f64, 6 + x, 5 + x, 3000 + 60000 * x);
        }
        "C14" => {
            let (d, l) = (6, 4000 + 20000 * x);
            c14::<f32, PeakEnvDetector<f32>>(v, d, l);
            c14_marathon::<f32, PeakEnvDetector<f32>>(v, marathon(thorough));
            c14::<f64, PeakEnvDetector<f64>>(v, d, l);
            c14_marathon::<f64, PeakEnvDetector<f64>>(v, marathon(thorough));
            c14::<f32, RmsEnvDetector<f32>>(v, d, l);
            c14_marathon::<f32, RmsEnvDetector<f32>>(v, marathon(thorough));
            c14::<f64, RmsEnvDetector<f64>>(v, d, l);
            c14_marathon::<f64, RmsEnvDetector<f64>>(v, marathon(thorough));
        }
        "C15" => {
            let (b, d) = (if thorough { 32 } else { 30 }, 5);
            c15::<f32, Att<PeakEnvDetector<f32>>>(v, b, d);
            c15::<f32, Rel<PeakEnvDetector<f32>>>(v, b, d);
            c15::<f32, Att<RmsEnvDetector<f32>>>(v, b, d);
            c15::<f32, Rel<RmsEnvDetector<f32>>>(v, b, d);
            c15::<f32, LeakyIntegrator<f32>>(v, b, d);
            c15::<f64, Att<PeakEnvDetector<f64>>>(v, b, d);
            c15::<f64, Rel<PeakEnvDetector<f64>>>(v, b, d);
            c15::<f64, Att<RmsEnvDetector<f64>>>(v, b, d);
            c15::<f64, Rel<RmsEnvDetector<f64>>>(v, b, d);
            c15::<f64, LeakyIntegrator<f64>>(v, b, d);
        }
        "C16" => {
            c16::<f32>(v, 7, 20000 + 200000 * x);
            c16_marathon::<f32>(v, marathon(thorough));
            c16::<f64>(v, 7, 20000 + 200000 * x);
            c16_marathon::<f64>(v, marathon(thorough));
        }
        _ => unreachable!(),
    }
    w
}
