//! C24: no public operation panics, overflows or hangs, whatever its arguments, and a processor
//! recovers from anything by being cleared and given valid parameters.

use crate::explore::*;
use crate::units::*;
use rasp::analysis::*;
use rasp::delay::*;
use rasp::filter::rbj::*;
use rasp::filter::*;
use rasp::traits::*;
use rasp::util::*;
use rasp::window::*;

/// Numbers of every class: ordinary, signed zeros, extremes, subnormals, non-finite.
fn numbers<T: S>() -> Vec<T> {
    vec![
        T::f(1.0),
        T::f(0.0),
        T::f(-0.0),
        T::f(-1.0),
        T::f(0.5),
        T::f(3.0),
        T::f(44100.0),
        T::f(-2e9),
        T::max_value(),
        T::min_value(),
        T::min_positive_value(),
        T::min_positive_value() / T::f(8.0),
        T::epsilon(),
        T::infinity(),
        T::neg_infinity(),
        T::nan(),
    ]
}

pub trait Any24<T: S>: Unit<T> {
    /// One parameter call with arguments chosen by `c` among all classes of numbers.
    fn wild(&mut self, c: &mut Ch);
    /// Valid settings for every parameter, independent of what is set now.
    fn valid(&mut self, i: usize);
    /// A new processor comparable with `self` once both are given `valid` settings.
    fn like(&self) -> Self;
    /// Every other operation, with any argument in its documented domain.
    fn others(&mut self, _c: &mut Ch) {}
}

fn num<T: S>(c: &mut Ch) -> T {
    let v = numbers::<T>();
    let x = v[c.pick(v.len())];
    c.say(|| format!("argument {:?}", x));
    x
}
/// One argument of every class, the others ordinary; or all of one class.
fn args<T: S>(c: &mut Ch, ordinary: &[f64]) -> Vec<T> {
    let which = c.pick(ordinary.len() + 1);
    let x = num::<T>(c);
    let v: Vec<T> = ordinary.iter().enumerate().map(|(i, o)| if which == i || which == ordinary.len() { x } else { T::f(*o) }).collect();
    c.say(|| format!("parameters {:?}", v));
    v
}

macro_rules! filter24 {
    ($ty:ident, $n:expr, $($i:expr),*) => {
        impl<T: S> Any24<T> for $ty<T> {
            fn wild(&mut self, c: &mut Ch) {
                let v = args::<T>(c, &[0.5, -0.25, 0.125, 0.25, -0.5][..$n]);
                self.set_coefficients($(v[$i]),*);
            }
            fn valid(&mut self, i: usize) {
                let v: Vec<T> = [[0.5, 0.25, -0.5, 0.5, -0.25], [1.0, 0.0, 0.0, 0.0, 0.0]][i].iter().map(|x| T::f(*x)).collect();
                self.set_coefficients($(v[$i]),*);
            }
            fn like(&self) -> Self {
                $ty::new()
            }
        }
    };
}
filter24!(OnePole, 2, 0, 1);
filter24!(OneZero, 2, 0, 1);
filter24!(TwoPole, 3, 0, 1, 2);
filter24!(TwoZero, 3, 0, 1, 2);
filter24!(Biquad1, 5, 0, 1, 2, 3, 4);
filter24!(Biquad2, 5, 0, 1, 2, 3, 4);

macro_rules! rbj24 {
    ($ty:ident, $n:expr, $($i:expr),*) => {
        impl<T: S> Any24<T> for $ty<T> {
            fn wild(&mut self, c: &mut Ch) {
                let o = if $n == 3 { &[48000.0, 1000.0, 0.7][..] } else { &[48000.0, 1000.0, 6.0, 0.7][..] };
                let v = args::<T>(c, o);
                self.set_coefficients($(v[$i]),*);
            }
            fn valid(&mut self, i: usize) {
                Unit::<T>::param(self, i)
            }
            fn like(&self) -> Self {
                $ty::new()
            }
        }
    };
}
rbj24!(LowPass, 3, 0, 1, 2);
rbj24!(HighPass, 3, 0, 1, 2);
rbj24!(BandPass1, 3, 0, 1, 2);
rbj24!(BandPass2, 3, 0, 1, 2);
rbj24!(BandStop, 3, 0, 1, 2);
rbj24!(AllPass, 3, 0, 1, 2);
rbj24!(Peak, 4, 0, 1, 2, 3);
rbj24!(LowShelf, 4, 0, 1, 2, 3);
rbj24!(HighShelf, 4, 0, 1, 2, 3);

macro_rules! det24 {
    ($ty:ident) => {
        impl<T: S> Any24<T> for $ty<T> {
            fn wild(&mut self, c: &mut Ch) {
                let which = c.pick(2);
                let x = num::<T>(c);
                if which == 0 {
                    self.set_attack(x)
                } else {
                    self.set_release(x)
                }
            }
            fn valid(&mut self, i: usize) {
                self.set_attack(T::f([2.0, 40.0][i]));
                self.set_release(T::f([3.0, 0.5][i]));
            }
            fn like(&self) -> Self {
                $ty::new()
            }
        }
    };
}
det24!(PeakEnvDetector);
det24!(RmsEnvDetector);
impl<T: S> Any24<T> for LeakyIntegrator<T> {
    fn wild(&mut self, c: &mut Ch) {
        let x = num::<T>(c);
        self.set_alpha(x)
    }
    fn valid(&mut self, i: usize) {
        self.set_alpha(T::f([0.5, 0.0][i]))
    }
    fn like(&self) -> Self {
        LeakyIntegrator::new()
    }
}

fn taps<T: S, L: TappableDelayLine<T>>(l: &mut L, max: usize, c: &mut Ch) {
    let k = [0, max / 2, max][c.pick(3)];
    let x = num::<T>(c);
    match c.pick(3) {
        0 => {
            c.say(|| format!("tap_out({})", k));
            l.tap_out(k);
        }
        1 => {
            c.say(|| format!("tap_in at {}", k));
            l.tap_in(x, k)
        }
        _ => {
            c.say(|| format!("add_to at {}", k));
            l.add_to(x, k);
        }
    }
}
impl<T: S> Any24<T> for Delay<T> {
    fn wild(&mut self, c: &mut Ch) {
        match c.pick(2) {
            0 => {
                let d = c.of(&[0, 1, 2, 3, 5, 255, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX]);
                c.say(|| format!("set_delay({})", d));
                self.set_delay(d)
            }
            _ => {
                let d = c.of(&[0, 1, 3, 4, 5, 9]);
                c.say(|| format!("set_max_delay({})", d));
                self.set_max_delay(d)
            }
        }
    }
    fn valid(&mut self, i: usize) {
        self.set_delay([0, 2][i])
    }
    fn like(&self) -> Self {
        Delay::new(usize::MAX, self.get_max_delay())
    }
    fn others(&mut self, c: &mut Ch) {
        if c.pick(2) == 0 {
            c.say(|| "next_out()".into());
            self.next_out();
        } else {
            let m = self.get_max_delay();
            taps(self, m, c)
        }
    }
}
impl<T: S> Any24<T> for LinearDelay<T> {
    fn wild(&mut self, c: &mut Ch) {
        match c.pick(2) {
            0 => {
                let x = num::<f32>(c);
                self.set_delay(x)
            }
            _ => {
                let d = c.of(&[0, 1, 3, 4, 5, 9]);
                c.say(|| format!("set_max_delay({})", d));
                self.set_max_delay(d)
            }
        }
    }
    fn valid(&mut self, i: usize) {
        self.set_delay([0.0, 1.75][i])
    }
    fn like(&self) -> Self {
        LinearDelay::new(f32::NAN, self.get_max_delay())
    }
    fn others(&mut self, c: &mut Ch) {
        if c.pick(2) == 0 {
            c.say(|| "next_out()".into());
            self.next_out();
        } else {
            let m = self.get_max_delay();
            taps(self, m, c)
        }
    }
}

fn one<T: S, U: Any24<T>>(v: &mut Vec<Scenario>, thorough: bool) {
    let depth = if thorough && U::nextra() == 0 { 4 } else { 3 };
    scenario(v, &format!("any-arguments/{}<{}>", U::NAME, T::NAME), depth, move |c, depth| {
        let mut u = U::fresh();
        for _ in 0..depth {
            match c.pick(if U::nextra() > 0 { 4 } else { 3 }) {
                0 => {
                    let x = num::<T>(c);
                    let y = u.process(x);
                    c.see(y.d());
                    c.say(|| format!("process = {:?}", y));
                }
                1 => {
                    c.op();
                    u.wild(c)
                }
                2 => {
                    let n = c.pick(4);
                    if n == 3 {
                        c.say(|| "clear()".into());
                        u.clear();
                    } else {
                        let mut b: Vec<T> = numbers::<T>().into_iter().rev().take([0, 1, 16][n]).collect();
                        let y = u.process_block(&mut b);
                        c.see(y.d());
                        c.say(|| format!("process_block of {} = {:?}", b.len(), y));
                    }
                }
                _ => {
                    c.op();
                    u.others(c)
                }
            }
        }
        // A few more samples while the settings are whatever they are.
        for x in [1.0, -0.5, 0.0, 2.0, 0.0, 0.25] {
            c.see(u.process(T::f(x)).d());
        }
        c.see(u.last_out().d());
        // Recovery.
        let how = c.pick(4);
        let mut w = u.like();
        c.say(|| "now clear and set valid parameters".into());
        if how / 2 == 0 {
            u.clear();
            u.valid(how % 2);
        } else {
            u.valid(how % 2);
            u.clear();
        }
        w.valid(how % 2);
        for t in 0..12 {
            let x = T::f([1.0, -2.0, 0.5, 0.0][t % 4]);
            let (a, b) = (u.process(x), w.process(x));
            c.see(a.d());
            if !same(a.d(), b.d()) || !same(u.last_out().d(), w.last_out().d()) {
                return Err(format!("after recovery, sample {} gave {:?}, a new processor gives {:?}", t, a, b));
            }
        }
        let (a, b) = (u.probe(), w.probe());
        if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !same(*x, *y)) {
            return Err(format!("after recovery the processor reads {:?}, a new one {:?}", a, b));
        }
        Ok(())
    });
}

/// Blocks of every order of magnitude, and slices under windows.
fn long_blocks<T: S, U: Any24<T>>(v: &mut Vec<Scenario>, sizes: &'static [usize]) {
    scenario(v, &format!("long-blocks/{}<{}>", U::NAME, T::NAME), 1, move |c, _| {
        let n = c.of(sizes);
        let set = c.pick(3);
        let x = c.of(&[0.5, 0.0, f64::NAN]);
        let mut u = U::fresh();
        if set > 0 {
            u.valid(set - 1);
        }
        let mut b = vec![T::f(x); n];
        c.say(|| format!("process_block of {} samples {}", n, x));
        let y = u.process_block(&mut b);
        c.see(y.d());
        c.points += n as u64;
        Ok(())
    });
}

/// Construction with any arguments, followed by use.
fn construct(v: &mut Vec<Scenario>) {
    scenario(v, "construct/Delay", 1, |c, _| {
        let max = c.of(&[0usize, 1, 2, 3, 8, 1000]);
        let d = c.of(&[0usize, 1, 2, 3, 8, 999, 1000, 1001, 1 << 32, usize::MAX]);
        c.say(|| format!("Delay::new({}, {})", d, max));
        let mut l = Delay::<f32>::new(d, max);
        let mut m = Delay::<f64>::new(d, max);
        for i in 0..2 * max + 5 {
            c.see(l.process(i as f32).d() + m.process(i as f64));
            l.next_out();
            m.next_out();
        }
        Ok(())
    });
    scenario(v, "construct/LinearDelay", 1, |c, _| {
        let max = c.of(&[0usize, 1, 2, 3, 8, 1000]);
        let n = numbers::<f32>();
        let extra = [f32::EPSILON / 2.0, 0.99999994, 1.0000001, 999.99994, 1000.0, 1000.0001];
        let k = c.pick(n.len() + extra.len());
        let d = if k < n.len() { n[k] } else { extra[k - n.len()] };
        c.say(|| format!("LinearDelay::new({:?}, {})", d, max));
        let mut l = LinearDelay::<f32>::new(d, max);
        let mut m = LinearDelay::<f64>::new(d, max);
        for i in 0..2 * max + 5 {
            l.set_delay(d);
            c.see(l.process(i as f32).d() + m.process(i as f64));
            l.next_out();
            m.next_out();
        }
        Ok(())
    });
}

/// Lines longer than single precision can count.
fn huge<T: S>(v: &mut Vec<Scenario>, bases: &'static [usize]) {
    scenario(v, &format!("huge-lines/{}", T::NAME), 1, move |c, _| {
        let base = c.of(bases);
        let old = base + c.pick(12);
        let grow = 1 + c.pick(4);
        let linear = c.pick(2) == 1;
        let max = old + grow - 1;
        // Growing puts the write position at the end of the old ring.
        c.say(|| format!("capacity {} grown to {}, linear {}", old - 1, max, linear));
        if linear {
            let mut l = LinearDelay::<T>::new(0.0, old - 1);
            l.set_max_delay(max);
            for d in [0.0, 0.5, 1.0, 7.0, 16777216.0, max as f32 * 0.75, max as f32 - 3.0, max as f32, f32::MAX] {
                l.set_delay(d);
                for i in 0..grow + 2 {
                    c.see(l.process(T::f(i as f64)).d());
                    l.set_delay(d);
                }
                l.next_out();
            }
        } else {
            let mut l = Delay::<T>::new(0, old - 1);
            l.set_max_delay(max);
            for d in [0, 1, 7, 16777216, max - 1, max, usize::MAX] {
                l.set_delay(d);
                for i in 0..grow + 2 {
                    c.see(l.process(T::f(i as f64)).d());
                }
                l.next_out();
            }
        }
        Ok(())
    });
}

fn window<T: S>(v: &mut Vec<Scenario>) {
    scenario(v, &format!("window-sizes/{}", T::NAME), 1, |c, _| {
        let mut sizes: Vec<usize> = (0..65).collect();
        sizes.extend([100, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, usize::MAX - 1, usize::MAX]);
        let size = sizes[c.pick(sizes.len())];
        let kind = c.pick(6);
        let skip = c.pick(6);
        c.say(|| format!("window #{} of size {}, nth({})", kind, size, skip));
        fn go<T: S, I: Iterator<Item = T> + ExactSizeIterator>(mut it: I, size: usize, skip: usize, c: &mut Ch) {
            let mut left = size;
            for i in 0..70 {
                c.see(it.len() as f64);
                let _ = it.size_hint();
                let y = if i == 3 { it.nth(skip) } else { it.next() };
                c.see(y.map_or(-7.0, |x| x.d()));
                left = left.saturating_sub(1);
            }
            if size <= 2000 {
                let _ = it.count();
            }
        }
        match kind {
            0 => go(TriangularIter::<T>::new(size), size, skip, c),
            1 => go(BartlettIter::<T>::new(size), size, skip, c),
            2 => go(HannIter::<T>::new(size), size, skip, c),
            3 => go(HammingIter::<T>::new(size), size, skip, c),
            4 => go(BlackmanIter::<T>::new(size), size, skip, c),
            _ => go(BlackmanHarrisIter::<T>::new(size), size, skip, c),
        }
        Ok(())
    });
    scenario(v, &format!("apply-window/{}", T::NAME), 1, |c, _| {
        let n = c.pick(144);
        let n = if n < 130 { n } else { [255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100001, 131073, 262145, (1 << 20) + 1][n - 130] };
        let kind = c.of(&[Window::Rectangular, Window::Triangular, Window::Bartlett, Window::Hann, Window::Hamming, Window::Blackman, Window::BlackmanHarris]);
        let x = num::<T>(c);
        c.say(|| format!("apply_window({:?}) on {} samples", kind, n));
        let mut b = vec![x; n];
        apply_window(&mut b, kind);
        c.see(b.first().map_or(0.0, |x| x.d()));
        Ok(())
    });
}

fn util<T: S>(v: &mut Vec<Scenario>) {
    scenario(v, &format!("conversions/{}", T::NAME), 1, |c, _| {
        let x = num::<T>(c);
        // The rest of to_db's and apply_gain's arguments are outside their documented domain.
        if !x.is_sign_negative() {
            c.see(to_db(x).d());
        }
        c.see(to_sample(x).d());
        let r = num::<T>(c);
        if r.is_finite() && !r.is_sign_negative() {
            c.see(apply_gain(x, r).d());
        }
        Ok(())
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    if id != "C24" {
        return v;
    }
    let w = &mut v;
    construct(w);
    window::<f32>(w);
    window::<f64>(w);
    util::<f32>(w);
    util::<f64>(w);
    huge::<f32>(w, if thorough { &[(1 << 23) - 4, (1 << 24) - 4, (1 << 25) - 4, (1 << 26) - 4] } else { &[(1 << 24) - 4, (1 << 25) - 2] });
    if thorough {
        huge::<f64>(w, &[(1 << 24) - 4, (1 << 25) - 4]);
    }
    crate::each_unit!(one(w, thorough));
    static LONG: &[usize] = &[100, 1000, 4096, 4097, 8193, 10001, 32769, 65536, 65537, 100001, 300000, (1 << 20) + 1];
    static LONGER: &[usize] = &[100, 1000, 4096, 4097, 8193, 10001, 32769, 65536, 65537, 100001, 300000, (1 << 20) + 1, (1 << 24) + 1];
    let l = if thorough { LONGER } else { LONG };
    crate::each_unit!(long_blocks(w, l));
    v
}
