//! C01-C05: the delay lines against a list of past samples.

use crate::explore::*;
use crate::units::*;
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};

pub trait Line<T: S>: Processor<T> + TappableDelayLine<T> + Sized + 'static {
    const NAME: &'static str;
    const FRAC: bool;
    fn mk(delay: f64, max: usize) -> Self;
    fn sd(&mut self, d: f64);
    fn gd(&self) -> f64;
    fn sm(&mut self, m: usize);
    fn gm(&self) -> usize;
    fn peek(&mut self) -> T;
}

fn whole(d: f64) -> usize {
    if d >= 1e18 {
        usize::MAX
    } else {
        d as usize
    }
}

impl<T: S> Line<T> for Delay<T> {
    const NAME: &'static str = "Delay";
    const FRAC: bool = false;
    fn mk(delay: f64, max: usize) -> Self {
        Delay::new(whole(delay), max)
    }
    fn sd(&mut self, d: f64) {
        self.set_delay(whole(d))
    }
    fn gd(&self) -> f64 {
        self.get_delay() as f64
    }
    fn sm(&mut self, m: usize) {
        self.set_max_delay(m)
    }
    fn gm(&self) -> usize {
        self.get_max_delay()
    }
    fn peek(&mut self) -> T {
        self.next_out()
    }
}
impl<T: S> Line<T> for LinearDelay<T> {
    const NAME: &'static str = "LinearDelay";
    const FRAC: bool = true;
    fn mk(delay: f64, max: usize) -> Self {
        LinearDelay::new(delay as f32, max)
    }
    fn sd(&mut self, d: f64) {
        self.set_delay(d as f32)
    }
    fn gd(&self) -> f64 {
        self.get_delay() as f64
    }
    fn sm(&mut self, m: usize) {
        self.set_max_delay(m)
    }
    fn gm(&self) -> usize {
        self.get_max_delay()
    }
    fn peek(&mut self) -> T {
        self.next_out()
    }
}

/// The reference: past samples, a delay, the last output. `buf` is an append-only log;
/// the sample of age k is `buf[len-1-k]`, and zero beyond `known`.
#[derive(Clone, Debug)]
pub struct Model {
    buf: Vec<f64>,
    pub max: usize,
    pub delay: f64,
    pub frac: bool,
    /// Samples beyond this may overflow in the interpolation.
    pub lim: f64,
}

impl Model {
    pub fn new(delay: f64, max: usize, frac: bool) -> Model {
        let mut m = Model { buf: vec![0.0; max + 1], max, delay: 0.0, frac, lim: 1e37 };
        m.set_delay(delay);
        m
    }
    pub fn age(&self, k: usize) -> f64 {
        self.buf[self.buf.len() - 1 - k]
    }
    fn age_mut(&mut self, k: usize) -> &mut f64 {
        let n = self.buf.len();
        &mut self.buf[n - 1 - k]
    }
    pub fn set_delay(&mut self, d: f64) {
        let d = if self.frac { d as f32 as f64 } else { whole(d).min(1 << 40) as f64 };
        self.delay = d.max(0.0).min(self.max as f64);
    }
    pub fn set_max(&mut self, m: usize) {
        if m > self.max {
            // Older ages than were stored read as zero.
            let keep: Vec<f64> = self.buf[self.buf.len() - 1 - self.max..].to_vec();
            self.buf = vec![0.0; m - self.max];
            self.buf.extend(keep);
            self.max = m;
        }
    }
    pub fn clear(&mut self) {
        for x in self.buf.iter_mut() {
            *x = 0.0;
        }
    }
    /// Value `at` samples before the newest, with the error a position rounding may cause.
    fn at(&self, at: f64) -> (f64, f64) {
        let k = at.floor() as usize;
        let fr = at - k as f64;
        let v = if fr == 0.0 { self.age(k) } else { (1.0 - fr) * self.age(k) + fr * self.age(k + 1) };
        let lo = k.saturating_sub(1);
        let hi = (k + 2).min(self.max);
        // An infinity next to the read position may or may not get in (0 * inf), and the
        // difference of two huge neighbours may overflow.
        if self.frac && (lo..hi + 1).chain([0, self.max]).any(|i| !(self.age(i).abs() < self.lim)) {
            return (v, f64::NAN);
        }
        // A whole delay needs no interpolation.
        if !self.frac || fr == 0.0 {
            return (v, 0.0);
        }
        let mut slope = 0f64;
        for i in lo..hi {
            slope = slope.max((self.age(i) - self.age(i + 1)).abs());
        }
        (v, slope * (self.max + 1).min(1 << 16) as f64)
    }
    /// Feeds `x`; returns the expected output and its position-error scale.
    pub fn process(&mut self, x: f64) -> (f64, f64) {
        if self.buf.len() > 4 * (self.max + 16) {
            let cut = self.buf.len() - 1 - self.max;
            self.buf.drain(..cut);
        }
        self.buf.push(x);
        self.at(self.delay)
    }
    pub fn peek(&self) -> Option<(f64, f64)> {
        if self.delay >= 1.0 {
            Some(self.at(self.delay - 1.0))
        } else {
            None
        }
    }
    pub fn canon(&self) -> Vec<f64> {
        (0..self.max + 1).map(|k| self.age(k)).collect()
    }
}

fn ok<T: S>(got: T, want: (f64, f64)) -> bool {
    let g = got.d();
    if same(g, want.0) || want.1.is_nan() {
        return true;
    }
    if want.1 == 0.0 && !want.0.is_finite() {
        return false;
    }
    (g - want.0).abs() <= 2.0 * f32::EPS * want.1 + 4.0 * T::EPS * want.0.abs()
}

#[derive(Clone, Copy)]
pub struct Look {
    /// Compare all taps at the end of each history and tap reads.
    pub taps: bool,
    /// Compare reported delay and capacity after every step.
    pub report: bool,
    /// Compare peeks.
    pub peek: bool,
}

/// A real line next to its model.
pub struct Pair<T: S, L: Line<T>> {
    pub line: L,
    pub m: Model,
    look: Look,
    _t: std::marker::PhantomData<T>,
}

impl<T: S, L: Line<T>> Pair<T, L> {
    pub fn new(c: &mut Ch, delay: f64, max: usize, look: Look) -> Result<Self, String> {
        c.op();
        c.say(|| format!("{}::<{}>::new({}, {})", L::NAME, T::NAME, delay, max));
        let mut m = Model::new(delay, max, L::FRAC);
        m.lim = T::max_value().d() / 4.0;
        let p = Pair { line: L::mk(delay, max), m, look, _t: std::marker::PhantomData };
        p.report(c)?;
        Ok(p)
    }
    fn report(&self, c: &mut Ch) -> Res {
        if self.look.report {
            let (d, m) = (self.line.gd(), self.line.gm());
            c.see(d);
            if d != self.m.delay || m != self.m.max {
                return Err(format!("reported delay {} (max {}), expected {} (max {})", d, m, self.m.delay, self.m.max));
            }
        }
        Ok(())
    }
    /// What tap edits and peeks leave alone besides the stored samples.
    fn rest(&self) -> Option<(f64, f64, usize)> {
        if self.look.taps || self.look.peek { Some((self.line.last_out().d(), self.line.gd(), self.line.gm())) } else { None }
    }
    fn undisturbed(&self, what: &str, before: Option<(f64, f64, usize)>) -> Res {
        match (before, self.rest()) {
            (Some(a), Some(b)) if !same(a.0, b.0) || !same(a.1, b.1) || a.2 != b.2 => {
                Err(format!("{} changed (last output, delay, maximum) from {:?} to {:?}", what, a, b))
            }
            _ => Ok(()),
        }
    }
    #[inline]
    pub fn process(&mut self, c: &mut Ch, x: f64) -> Res {
        let x = T::f(x);
        let got = self.line.process(x);
        let want = self.m.process(x.d());
        c.see(got.d());
        c.say(|| format!("process({:?}) = {:?}   expected {}", x, got, want.0));
        if !ok(got, want) {
            return Err(format!("process returned {:?}, expected {} (delay {}, max {})", got, want.0, self.m.delay, self.m.max));
        }
        Ok(())
    }
    pub fn block(&mut self, c: &mut Ch, xs: &[f64]) -> Res {
        let mut b: Vec<T> = xs.iter().map(|x| T::f(*x)).collect();
        self.line.process_block(&mut b);
        c.say(|| format!("process_block({:?}) wrote {:?}", xs, b));
        for (i, x) in xs.iter().enumerate() {
            let want = self.m.process(T::f(*x).d());
            c.see(b[i].d());
            if !ok(b[i], want) {
                return Err(format!("process_block wrote {:?} at {}, expected {} (delay {}, max {})", b[i], i, want.0, self.m.delay, self.m.max));
            }
        }
        Ok(())
    }
    pub fn set_delay(&mut self, c: &mut Ch, d: f64) -> Res {
        c.op();
        c.say(|| format!("set_delay({})", d));
        self.line.sd(d);
        self.m.set_delay(d);
        self.report(c)
    }
    pub fn set_max(&mut self, c: &mut Ch, m: usize) -> Res {
        c.op();
        c.say(|| format!("set_max_delay({})", m));
        self.line.sm(m);
        self.m.set_max(m);
        self.report(c)
    }
    pub fn clear(&mut self, c: &mut Ch) -> Res {
        c.op();
        c.say(|| "clear()".into());
        self.line.clear();
        self.m.clear();
        self.report(c)
    }
    pub fn tap_in(&mut self, c: &mut Ch, v: f64, k: usize) -> Res {
        c.op();
        let v = T::f(v);
        c.say(|| format!("tap_in({:?}, {})", v, k));
        let before = self.rest();
        self.line.tap_in(v, k);
        *self.m.age_mut(k) = v.d();
        self.undisturbed("tap_in", before)?;
        self.report(c)
    }
    pub fn add_to(&mut self, c: &mut Ch, v: f64, k: usize) -> Res {
        let v = T::f(v);
        let before = self.rest();
        let got = self.line.add_to(v, k);
        self.undisturbed("add_to", before)?;
        c.see(got.d());
        let want = (T::f(self.m.age(k)) + v).d();
        c.say(|| format!("add_to({:?}, {}) = {:?}   expected {}", v, k, got, want));
        *self.m.age_mut(k) = want;
        if self.look.taps && !same(got.d(), want) {
            return Err(format!("add_to at tap {} returned {:?}, expected {}", k, got, want));
        }
        self.report(c)
    }
    pub fn peek(&mut self, c: &mut Ch) -> Res {
        let before = self.rest();
        let got = self.line.peek();
        self.undisturbed("next_out", before)?;
        let want = self.m.peek();
        c.say(|| format!("next_out() = {:?}   expected {:?}", got, want.map(|w| w.0)));
        if self.look.peek {
            if let Some(w) = want {
                c.see(got.d());
                if !ok(got, w) {
                    return Err(format!("peek returned {:?}, the next output will be {}", got, w.0));
                }
            }
        }
        self.report(c)
    }
    pub fn taps(&mut self, c: &mut Ch) -> Res {
        if self.look.taps {
            for k in 0..self.m.max + 1 {
                let g = self.line.tap_out(k).d();
                c.op();
                if !same(g, self.m.age(k)) {
                    c.say(|| format!("tap_out({}) = {}   expected {}", k, g, self.m.age(k)));
                    return Err(format!("tap {} reads {}, expected {}", k, g, self.m.age(k)));
                }
            }
        }
        Ok(())
    }
    /// Observes everything that is left in the line.
    pub fn finish(&mut self, c: &mut Ch) -> Res {
        self.taps(c)?;
        for i in 0..self.m.max + 2 {
            self.process(c, if i % 2 == 0 { 0.0 } else { -3.0 })?;
        }
        Ok(())
    }
}

fn stream(kind: usize, i: &mut u32) -> f64 {
    *i += 1;
    let v = *i as f64;
    match kind {
        0 => v,
        1 => {
            if *i % 2 == 0 {
                v * 2f64.powi(-70)
            } else {
                -v * 2f64.powi(-70)
            }
        }
        2 => -v * 2f64.powi(60),
        _ => match *i % 4 {
            0 => f64::INFINITY,
            1 => f64::NAN,
            2 => -0.0,
            _ => f64::MIN_POSITIVE,
        },
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Process,
    Block(usize),
    Delay(f64),
    Clear,
    TapIn(usize),
    AddTo(usize),
    Peek,
    Grow(usize),
    Max(usize),
}

/// What histories a property is checked on.
#[derive(Clone, Copy)]
pub struct Alphabet {
    taps: bool,
    peek: bool,
    grow: bool,
    clear: bool,
    wild: bool,
}

fn ops(a: Alphabet, frac: bool, max: usize) -> Vec<Op> {
    let mut v = vec![Op::Process, Op::Block(2)];
    let ds: &[f64] = if frac { &[0.0, 0.5, 1.0, 1.75, 3.0] } else { &[0.0, 1.0, 2.0, 4.0] };
    for d in ds {
        v.push(Op::Delay(*d));
    }
    if a.wild {
        v.push(Op::Delay(if frac { f64::INFINITY } else { 1e19 }));
        if frac {
            v.push(Op::Delay(-2.5));
            v.push(Op::Delay(f64::NEG_INFINITY));
        }
    }
    if a.clear {
        v.push(Op::Clear);
    }
    if a.peek {
        v.push(Op::Peek);
    }
    if a.taps {
        v.push(Op::TapIn(0));
        v.push(Op::AddTo(max));
        if max >= 2 {
            v.push(Op::TapIn(max - 1));
            v.push(Op::AddTo(max / 2));
        }
    }
    if a.grow {
        v.push(Op::Grow(1));
        v.push(Op::Grow(3));
        if a.wild {
            v.push(Op::Max(0));
            v.push(Op::Max(max));
        }
    }
    v
}

fn apply<T: S, L: Line<T>>(c: &mut Ch, p: &mut Pair<T, L>, o: Op, kind: usize, ctr: &mut u32) -> Res {
    match o {
        Op::Process => {
            let x = stream(kind, ctr);
            p.process(c, x)
        }
        Op::Block(n) => {
            let xs: Vec<f64> = (0..n).map(|_| stream(kind, ctr)).collect();
            p.block(c, &xs)
        }
        Op::Delay(d) => p.set_delay(c, d),
        Op::Clear => p.clear(c),
        Op::TapIn(k) => {
            let x = stream(kind, ctr);
            p.tap_in(c, x, k)
        }
        Op::AddTo(k) => {
            let x = stream(kind, ctr);
            p.add_to(c, x, k)
        }
        Op::Peek => p.peek(c),
        Op::Grow(n) => {
            let m = p.m.max + n;
            p.set_max(c, m)
        }
        Op::Max(m) => p.set_max(c, m),
    }
}

/// All operation sequences up to `depth` on all small lines.
fn histories<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, maxes: &'static [usize], kinds: &'static [usize], depth: usize) {
    let name = format!("histories/{}<{}>/max{:?}/streams{:?}", L::NAME, T::NAME, maxes, kinds);
    scenario(v, &name, depth, move |c, depth| {
        let max = c.of(maxes);
        let kind = c.of(kinds);
        let d0 = if L::FRAC { c.of(&[1.5, 0.0, 0.25]) } else { c.of(&[1.0, 0.0, 9.0]) };
        // Start away from the initial position too, so that short histories reach the wrap.
        let warm = c.pick(max + 2);
        let mut p = Pair::<T, L>::new(c, d0, max, look)?;
        let mut ctr = 0;
        for _ in 0..warm {
            let x = stream(kind, &mut ctr);
            p.process(c, x)?;
        }
        for _ in 0..depth {
            let os = ops(a, L::FRAC, p.m.max);
            let o = os[c.pick(os.len())];
            apply(c, &mut p, o, kind, &mut ctr)?;
        }
        p.finish(c)
    });
}

fn fine(frac: bool, max: usize) -> Vec<f64> {
    let mut v = vec![];
    if frac {
        for i in 0..4 * max + 1 {
            v.push(i as f64 / 4.0);
        }
        for x in [1e-30, 1e-9, 1e-7, 1e-5, 1e-3, 0.3, 0.999, 0.9999999, 1.0000001, 1.1] {
            if x <= max as f64 {
                v.push(x);
                v.push(max as f64 - x);
            }
        }
    } else {
        for i in 0..max + 1 {
            v.push(i as f64);
        }
    }
    v.push(max as f64 + 1.0);
    v.push(1e30);
    v
}

/// One event at every moment of every small line: (capacity, delay, time, event).
fn events<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, top: usize) {
    let name = format!("events/{}<{}>/max<={}", L::NAME, T::NAME, top);
    scenario(v, &name, 1, move |c, depth| {
        let max = c.pick(top + 1);
        let ds = fine(L::FRAC, max);
        let d = ds[c.pick(ds.len())];
        let mut p = Pair::<T, L>::new(c, d, max, look)?;
        let t = c.pick(2 * (max + 1) + 1);
        let mut ctr = 0;
        for _ in 0..t {
            let x = stream(0, &mut ctr);
            p.process(c, x)?;
        }
        if depth > 0 {
            let mut evs = vec![];
            for d2 in &ds {
                evs.push(Op::Delay(*d2));
            }
            if a.clear {
                evs.push(Op::Clear);
            }
            if a.grow {
                for n in [1, 2, 3, max + 1, max + 2, 2 * max + 3, 40] {
                    evs.push(Op::Grow(n));
                }
            }
            if a.taps {
                for k in 0..max + 1 {
                    evs.push(Op::TapIn(k));
                    evs.push(Op::AddTo(k));
                }
            }
            if a.peek {
                evs.push(Op::Peek);
            }
            for n in [0, 1, 3, max, max + 1, max + 2, 2 * max + 3] {
                evs.push(Op::Block(n));
            }
            let e = evs[c.pick(evs.len())];
            apply(c, &mut p, e, 0, &mut ctr)?;
            p.taps(c)?;
        }
        for _ in 0..2 * (p.m.max + 1) + 1 {
            if a.peek {
                p.peek(c)?;
            }
            let x = stream(0, &mut ctr);
            p.process(c, x)?;
        }
        p.finish(c)
    });
}

/// Long runs on realistic capacities.
fn large<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, maxes: &'static [usize]) {
    let name = format!("large/{}<{}>/{:?}", L::NAME, T::NAME, maxes);
    scenario(v, &name, 1, move |c, depth| {
        let max = c.of(maxes);
        let m = max as f64;
        let d = c.of(&[0.0, 1.0, 2.5, (m / 2.0).floor() + 0.5, m - 1.0, m]);
        let mut p = Pair::<T, L>::new(c, d, max, look)?;
        let mut ctr = 0u32;
        let t = c.of(&[0, max / 2, max, max + 1, 2 * max + max / 3]);
        // A running count, or single impulses in silence, or one value.
        let kind = c.pick(3);
        let val = move |n: u32| match kind {
            0 => (n % 8191) as f64,
            1 => if n % 1009 == 1 { n as f64 % 511.0 + 1.0 } else { 0.0 },
            _ => 0.75,
        };
        for _ in 0..t {
            ctr += 1;
            p.process(c, val(ctr))?;
        }
        if depth > 0 {
            let mut evs = vec![Op::Process, Op::Delay((m / 3.0).floor()), Op::Delay(m), Op::Delay(0.25)];
            if a.clear {
                evs.push(Op::Clear);
            }
            if a.taps {
                evs.push(Op::TapIn(max));
                evs.push(Op::AddTo(0));
            }
            if a.grow {
                evs.push(Op::Grow(1));
                evs.push(Op::Grow(max));
            }
            if a.peek {
                evs.push(Op::Peek);
            }
            for n in [64, 100, max + 1] {
                evs.push(Op::Block(n));
            }
            let e = evs[c.pick(evs.len())];
            apply(c, &mut p, e, 0, &mut ctr)?;
        }
        for _ in 0..p.m.max + 3 {
            ctr += 1;
            if a.peek && ctr % 7 == 0 {
                p.peek(c)?;
            }
            p.process(c, val(ctr))?;
        }
        p.taps(c)
    });
}

/// Lines longer than single precision can count. The stream is a function of time, so no model
/// memory is needed.
fn huge<T: S, L: Line<T>>(v: &mut Vec<Scenario>, grow: bool, look: Look, maxes: &'static [usize]) {
    let name = format!("huge/{}<{}>/{:?}", L::NAME, T::NAME, maxes);
    scenario(v, &name, 1, move |c, _| {
        let max = c.of(maxes);
        let n = max + c.of(&[0usize, 1, 6]);
        let g = if grow { c.of(&[0usize, 1, 5]) } else { 0 };
        c.say(|| format!("{}::new(0, {}), {} samples, grown by {}", L::NAME, max, n, g));
        let val = |i: usize| (i.wrapping_mul(40503) % 8191) as f64;
        let mut l = L::mk(0.0, max);
        let mut i = 0;
        while i < n {
            l.process(T::f(val(i)));
            i += 1;
        }
        if g > 0 {
            l.sm(max + g);
        }
        let top = max + g;
        let m = top as f32;
        let far = if m as usize > top { m * (1.0 - f32::EPSILON) } else { m };
        for d in [0.0, 1.0, 2.0, 0.5, 1000.25, 16777216.0, (m / 2.0).floor(), far * (1.0 - 2.0 * f32::EPSILON), far, 3.0, f32::MAX] {
            c.points += 1;
            let d = if L::FRAC { d } else { d.floor() };
            l.sd(d as f64);
            let eff = (if L::FRAC { d.min(m) } else { d } as f64).min(top as f64);
            let k = eff.floor() as usize;
            let fr = eff - k as f64;
            for _ in 0..3 {
                // Of what was fed before the growth, the last max + 1 samples are kept.
                let at = |k: usize| if k > i || (g > 0 && k > max + 1 + (i - n)) { 0.0 } else { val(i - k) };
                let want = if fr == 0.0 { at(k) } else { at(k) * (1.0 - fr) + at(k + 1) * fr };
                let got = l.process(T::f(val(i)));
                // at() counts from the sample being fed
                c.see(got.d());
                let tol = if fr == 0.0 { 0.0 } else { 2.0 * f32::EPS * 65536.0 * 8191.0 };
                if !((got.d() - want).abs() <= tol) {
                    return Err(format!("delay {} at sample {}: got {:?}, expected {}", d, i, got, want));
                }
                i += 1;
            }
            for k in [0, 1, top / 2, top] {
                let want = if k + 1 > i || (g > 0 && k > max + (i - n)) { 0.0 } else { val(i - 1 - k) };
                let got = l.tap_out(k);
                if look.taps && got.d() != want {
                    return Err(format!("tap {} after {} samples reads {:?}, expected {}", k, i, got, want));
                }
            }
        }
        Ok(())
    });
}

/// Every delay of a fine lattice of f32 values, requested one after the other on a running line.
fn fractions<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, bits: u32) {
    let name = format!("fractions/{}<{}>/{} significand bits", L::NAME, T::NAME, bits);
    scenario(v, &name, 1, move |c, _| {
        let max = c.of(&[1usize, 2, 3, 4, 7, 8, 31, 100, 1000]);
        let pos = c.of(&[0, 1, max / 2, max]);
        // Requests go up, down, or alternate between the two ends.
        let order = c.pick(3);
        let mut ds: Vec<f32> = vec![];
        for e in 127 - 36..127 + 11u32 {
            for m in 0..1u32 << bits {
                let d = f32::from_bits(e << 23 | m << (23 - bits));
                if d < max as f32 + 2.0 {
                    ds.push(d);
                }
            }
        }
        match order {
            0 => {}
            1 => ds.reverse(),
            _ => {
                let n = ds.len();
                ds = (0..n).map(|i| if i % 2 == 0 { ds[i / 2] } else { ds[n - 1 - i / 2] }).collect();
            }
        }
        let mut p = Pair::<T, L>::new(c, 0.0, max, look)?;
        let mut ctr = 0u32;
        for _ in 0..max + 1 + pos {
            ctr += 1;
            p.process(c, (ctr.wrapping_mul(40503) % 8191) as f64)?;
        }
        for d in ds {
            c.points += 1;
            p.set_delay(c, d as f64)?;
            if a.peek {
                p.peek(c)?;
            }
            ctr += 1;
            p.process(c, (ctr.wrapping_mul(40503) % 8191) as f64)?;
        }
        p.taps(c)
    });
}

/// The same few operations over and over, then a full inspection: nothing wears out.
fn repeats<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look) {
    let name = format!("repeats/{}<{}>", L::NAME, T::NAME);
    scenario(v, &name, 1, move |c, _| {
        let max = c.of(&[0usize, 1, 3, 8]);
        let n = c.of(&[2usize, 15, 100, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 66000, 300_000, (1 << 24) + 5000]);
        if n > 1_000_000 && max != 3 {
            return Ok(());
        }
        let half = max as f64 / 2.0;
        let mut rs: Vec<Vec<Op>> = vec![
            vec![Op::Process],
            vec![Op::Delay(half)],
            vec![Op::Delay(0.0), Op::Delay(max as f64)],
            vec![Op::Process, Op::Delay(half)],
            vec![Op::Delay(max as f64), Op::Process, Op::Delay(1.0)],
        ];
        if a.clear {
            rs.push(vec![Op::Clear]);
            rs.push(vec![Op::Process, Op::Clear]);
            rs.push(vec![Op::Clear, Op::Process, Op::Process]);
        }
        if a.taps {
            rs.push(vec![Op::TapIn(0)]);
            rs.push(vec![Op::AddTo(max)]);
            rs.push(vec![Op::Process, Op::AddTo(0), Op::TapIn(max)]);
        }
        if a.peek {
            rs.push(vec![Op::Peek]);
            rs.push(vec![Op::Process, Op::Peek]);
            rs.push(vec![Op::Peek, Op::Peek, Op::Delay(half)]);
        }
        if a.grow {
            rs.push(vec![Op::Max(max)]);
            rs.push(vec![Op::Grow(1)]);
            rs.push(vec![Op::Process, Op::Grow(1)]);
            rs.push(vec![Op::Process, Op::Process, Op::Grow(2)]);
        }
        let r = &rs[c.pick(rs.len())];
        if n > 300 && r.iter().any(|o| matches!(o, Op::Grow(_))) || n > 1_000_000 && !(r.len() == 1 && matches!(r[0], Op::Process)) {
            return Ok(());
        }
        let mut p = Pair::<T, L>::new(c, half, max, look)?;
        let mut ctr = 0;
        for i in 0..n {
            for o in r {
                if ctr > 8000 {
                    ctr = i as u32 % 7;
                }
                apply(c, &mut p, *o, 0, &mut ctr)?;
            }
        }
        for d in [half, p.m.max as f64, 0.0] {
            p.set_delay(c, d)?;
            for _ in 0..p.m.max + 2 {
                if a.peek {
                    p.peek(c)?;
                }
                let x = stream(0, &mut ctr);
                p.process(c, x)?;
            }
        }
        p.finish(c)
    });
}

/// Every sample value of a lattice over all exponents, fed, written and added at a tap.
fn values<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, bits: u32) {
    let name = format!("values/{}<{}>/{} significand bits", L::NAME, T::NAME, bits);
    scenario(v, &name, 1, move |c, _| {
        let max = c.of(&[1usize, 3]);
        let d = c.of(&[0.0, 1.0, 0.5]);
        let other = c.of(&[0.0, 1.0, -3.0]);
        let top = if T::IS32 { 255u64 } else { 2047 };
        let e = c.pick(top as usize) as u64;
        let mut p = Pair::<T, L>::new(c, d, max, look)?;
        for k in 0..1u64 << (bits + 1) {
            let (sign, m) = (k & 1, k >> 1);
            let x = if T::IS32 {
                f32::from_bits((sign << 31 | e << 23 | m << (23 - bits)) as u32) as f64
            } else {
                f64::from_bits(sign << 63 | e << 52 | m << (52 - bits))
            };
            if L::FRAC && d == 0.5 && x.abs() < T::min_positive_value().d() * 4.0 {
                continue;
            }
            c.points += 1;
            p.process(c, x)?;
            if a.peek {
                p.peek(c)?;
            }
            p.process(c, other)?;
            if a.taps {
                p.tap_in(c, x, max)?;
                p.taps(c)?;
                if (x + other).abs() < T::max_value().d() / 8.0 {
                    p.add_to(c, x, 0)?;
                }
                p.taps(c)?;
            }
            p.block(c, &[other, x])?;
        }
        Ok(())
    });
}

/// Adding at a tap what nearly cancels, dwarfs or vanishes beside the stored sample.
fn sums<T: S, L: Line<T>>(v: &mut Vec<Scenario>, look: Look) {
    let name = format!("sums/{}<{}>", L::NAME, T::NAME);
    scenario(v, &name, 1, move |c, _| {
        let max = c.of(&[0usize, 1, 4, 9]);
        let k = c.of(&[0, max / 2, max]);
        let base = c.of(&[1.0, -0.1, 3.0, 1e-20, -1e20, 7e-7, 12345.678]);
        let form = c.pick(3);
        let mut p = Pair::<T, L>::new(c, (max / 2) as f64, max, look)?;
        for e in 0..60 {
            for sign in [1.0, -1.0] {
                c.points += 1;
                for i in 0..k + 1 {
                    p.process(c, if i == 0 { base } else { i as f64 })?;
                }
                let d = sign * 2f64.powi(-e);
                let x = match form {
                    0 => -base * (1.0 + d),
                    1 => base * d,
                    _ => base / d,
                };
                p.add_to(c, x, k)?;
                p.taps(c)?;
            }
        }
        p.finish(c)
    });
}

/// All sequences of long feeds, long blocks, delay changes and edits on lines of medium size, after
/// which everything in the line is read out.
fn runs<T: S, L: Line<T>>(v: &mut Vec<Scenario>, a: Alphabet, look: Look, caps: &'static [usize], depth: usize) {
    let name = format!("runs/{}<{}>/{:?}", L::NAME, T::NAME, caps);
    scenario(v, &name, depth, move |c, depth| {
        let max = c.of(caps);
        let m = max as f64;
        let mut p = Pair::<T, L>::new(c, 3.0, max, look)?;
        #[derive(Clone, Copy)]
        enum Run {
            Feed(usize),
            Op(Op),
        }
        let mut rs = vec![Run::Feed(max / 2 + 5), Run::Feed(2 * max + 1), Run::Op(Op::Process)];
        rs.extend([32, 64, 512, 2048, max - 1, max, max + 1, 2 * max + 2].iter().map(|n| Run::Op(Op::Block(*n))));
        rs.extend([0.0, 0.5, 2.75, (m / 2.0).floor(), m].iter().map(|d| Run::Op(Op::Delay(*d))));
        if a.clear {
            rs.push(Run::Op(Op::Clear));
        }
        if a.taps {
            rs.push(Run::Op(Op::TapIn(max / 3)));
        }
        if a.grow {
            rs.push(Run::Op(Op::Grow(max / 2)));
        }
        if a.peek {
            rs.push(Run::Op(Op::Peek));
        }
        let mut ctr = 0u32;
        for _ in 0..depth {
            match rs[c.pick(rs.len())] {
                Run::Feed(n) => {
                    for _ in 0..n {
                        let x = stream(0, &mut ctr);
                        p.process(c, x)?;
                    }
                }
                Run::Op(o) => apply(c, &mut p, o, 0, &mut ctr)?,
            }
        }
        p.taps(c)?;
        let top = p.m.max;
        p.set_delay(c, top as f64)?;
        for i in 0..top + 2 {
            p.process(c, if i % 2 == 0 { 0.0 } else { -3.0 })?;
        }
        Ok(())
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let all = Alphabet { taps: true, peek: true, grow: true, clear: true, wild: false };
    let only = Look { taps: false, report: false, peek: false };
    static M: &[usize] = &[0, 1, 2, 3, 4];
    static M2: &[usize] = &[1, 3];
    static K0: &[usize] = &[0];
    static KF: &[usize] = &[1, 2];
    static KX: &[usize] = &[3];
    static BIG: &[usize] = &[63, 64, 127, 255, 256, 1000, 1023, 4095, 4096];
    static HUGE: &[usize] = &[44100, 65535, 65536, 220500];
    static LONGER: &[usize] = &[(1 << 24) + 1, (1 << 25) + 6];
    static LONGEST: &[usize] = &[(1 << 23) + 1, (1 << 24) - 1, (1 << 24) + 1, (1 << 24) + 2, (1 << 25) + 2, (1 << 25) + 6, (1 << 26) + 12];
    let x = thorough as usize;
    macro_rules! int {
        ($a:expr, $l:expr, $d:expr) => {{
            histories::<f32, Delay<f32>>(&mut v, $a, $l, M, K0, $d);
            histories::<f64, Delay<f64>>(&mut v, $a, $l, M, K0, $d - 1);
            histories::<f32, Delay<f32>>(&mut v, $a, $l, M2, KF, $d - 2);
            histories::<f64, Delay<f64>>(&mut v, $a, $l, M2, KF, $d - 2);
            histories::<f32, Delay<f32>>(&mut v, $a, $l, M2, KX, $d - 2);
            histories::<f64, Delay<f64>>(&mut v, $a, $l, M2, KX, $d - 2);
            events::<f32, Delay<f32>>(&mut v, $a, $l, 12 + 12 * x);
            events::<f64, Delay<f64>>(&mut v, $a, $l, 8 + 8 * x);
            values::<f32, Delay<f32>>(&mut v, $a, $l, 6 + 4 * x as u32);
            values::<f64, Delay<f64>>(&mut v, $a, $l, 4 + 3 * x as u32);
            repeats::<f32, Delay<f32>>(&mut v, $a, $l);
            repeats::<f64, Delay<f64>>(&mut v, $a, $l);
            if $a.taps {
                sums::<f32, Delay<f32>>(&mut v, $l);
                sums::<f64, Delay<f64>>(&mut v, $l);
            }
            runs::<f32, Delay<f32>>(&mut v, $a, $l, &[100, 700, 1500], 3 + x);
            runs::<f64, Delay<f64>>(&mut v, $a, $l, &[40, 600], 3 + x);
            large::<f32, Delay<f32>>(&mut v, $a, $l, BIG);
            large::<f64, Delay<f64>>(&mut v, $a, $l, HUGE);
            huge::<f32, Delay<f32>>(&mut v, $a.grow, $l, if thorough { LONGEST } else { LONGER });
        }};
    }
    macro_rules! lin {
        ($a:expr, $l:expr, $d:expr) => {{
            histories::<f32, LinearDelay<f32>>(&mut v, $a, $l, M, K0, $d);
            histories::<f64, LinearDelay<f64>>(&mut v, $a, $l, M, K0, $d - 1);
            histories::<f32, LinearDelay<f32>>(&mut v, $a, $l, M2, KF, $d - 2);
            histories::<f64, LinearDelay<f64>>(&mut v, $a, $l, M2, KF, $d - 2);
            events::<f32, LinearDelay<f32>>(&mut v, $a, $l, 8 + 4 * x);
            events::<f64, LinearDelay<f64>>(&mut v, $a, $l, 6 + 6 * x);
            values::<f32, LinearDelay<f32>>(&mut v, $a, $l, 6 + 4 * x as u32);
            values::<f64, LinearDelay<f64>>(&mut v, $a, $l, 4 + 3 * x as u32);
            repeats::<f32, LinearDelay<f32>>(&mut v, $a, $l);
            repeats::<f64, LinearDelay<f64>>(&mut v, $a, $l);
            fractions::<f32, LinearDelay<f32>>(&mut v, $a, $l, 10 + 5 * x as u32);
            fractions::<f64, LinearDelay<f64>>(&mut v, $a, $l, 8 + 5 * x as u32);
            if $a.taps {
                sums::<f32, LinearDelay<f32>>(&mut v, $l);
                sums::<f64, LinearDelay<f64>>(&mut v, $l);
            }
            runs::<f32, LinearDelay<f32>>(&mut v, $a, $l, &[100, 700, 1500], 3 + x);
            runs::<f64, LinearDelay<f64>>(&mut v, $a, $l, &[40, 600], 3 + x);
            large::<f32, LinearDelay<f32>>(&mut v, $a, $l, BIG);
            large::<f64, LinearDelay<f64>>(&mut v, $a, $l, HUGE);
            huge::<f32, LinearDelay<f32>>(&mut v, $a.grow, $l, if thorough { LONGEST } else { LONGER });
        }};
    }
    match id {
        "C01" => int!(all, only, 5 + x),
        "C02" => lin!(all, only, 5 + x),
        "C03" => {
            let look = Look { taps: true, ..only };
            int!(all, look, 5 + x);
            lin!(Alphabet { peek: false, ..all }, look, 4 + x);
            histories::<f32, LinearDelay<f32>>(&mut v, Alphabet { peek: false, ..all }, look, M2, KX, 4 + x);
            histories::<f64, LinearDelay<f64>>(&mut v, Alphabet { peek: false, ..all }, look, M2, KX, 3 + x);
        }
        "C04" => {
            let look = Look { taps: true, report: true, peek: false };
            let a = Alphabet { taps: false, peek: false, wild: true, ..all };
            int!(a, look, 5 + x);
            lin!(a, look, 5 + x);
            histories::<f32, LinearDelay<f32>>(&mut v, a, look, M2, KX, 4 + x);
        }
        "C05" => {
            let look = Look { taps: true, report: true, peek: true };
            int!(all, look, 4 + x);
            lin!(all, look, 5 + x);
        }
        _ => unreachable!(),
    }
    v
}

#[cfg(rasp_verif)]
pub mod fixpoint {
    use super::*;
    use crate::bfs::{search, Bfs, Sys};
    use std::fmt::{Debug, Write};

    #[derive(Clone)]
    struct St<T: S, L: Line<T> + Clone + Debug + Send + Sync> {
        line: L,
        m: Model,
        top: usize,
        steps: usize,
        vals: &'static [f64],
        look: Look,
        _t: std::marker::PhantomData<T>,
    }

    #[derive(Clone, Debug)]
    pub enum A {
        Process(f64),
        Delay(f64),
        Clear,
        TapIn(f64, usize),
        AddTo(f64, usize),
        Peek,
        Max(usize),
    }

    impl<T: S, L: Line<T> + Clone + Debug + Send + Sync> Sys for St<T, L> {
        type A = A;
        fn actions(&self) -> Vec<A> {
            let mut v = vec![];
            for x in self.vals {
                v.push(A::Process(*x));
            }
            let steps = if L::FRAC { self.steps } else { 1 };
            for i in 0..steps * self.m.max + 1 {
                v.push(A::Delay(i as f64 / steps as f64));
            }
            v.push(A::Delay(1e9));
            v.push(A::Clear);
            v.push(A::Peek);
            for k in 0..self.m.max + 1 {
                v.push(A::TapIn(self.vals[1], k));
                // Stay within the alphabet.
                for d in [1.0, -1.0] {
                    if self.vals.contains(&(self.m.age(k) + d)) {
                        v.push(A::AddTo(d, k));
                    }
                }
            }
            for m in self.m.max + 1..self.top + 1 {
                v.push(A::Max(m));
            }
            v
        }
        fn step(&mut self, a: &A) -> Result<(), String> {
            match *a {
                A::Process(x) => {
                    let got = self.line.process(T::f(x));
                    let want = self.m.process(x);
                    if !ok(got, want) {
                        return Err(format!("process returned {:?}, expected {}", got, want.0));
                    }
                }
                A::Delay(d) => {
                    self.line.sd(d);
                    self.m.set_delay(d)
                }
                A::Clear => {
                    self.line.clear();
                    self.m.clear()
                }
                A::TapIn(x, k) => {
                    self.line.tap_in(T::f(x), k);
                    *self.m.age_mut(k) = x
                }
                A::AddTo(x, k) => {
                    let want = self.m.age(k) + x;
                    let got = self.line.add_to(T::f(x), k);
                    *self.m.age_mut(k) = want;
                    if self.look.taps && got.d() != want {
                        return Err(format!("add_to returned {:?}, expected {}", got, want));
                    }
                }
                A::Peek => {
                    let got = self.line.peek();
                    if let Some(w) = self.m.peek() {
                        if self.look.peek && !ok(got, w) {
                            return Err(format!("peek returned {:?}, expected {}", got, w.0));
                        }
                    }
                }
                A::Max(m) => {
                    self.line.sm(m);
                    self.m.set_max(m)
                }
            }
            if self.look.report && (self.line.gd() != self.m.delay || self.line.gm() != self.m.max) {
                return Err(format!("reported delay {} max {}, expected {} {}", self.line.gd(), self.line.gm(), self.m.delay, self.m.max));
            }
            for k in 0..self.m.max + 1 {
                if self.look.taps && self.line.tap_out(k).d() != self.m.age(k) {
                    return Err(format!("tap {} reads {:?}, expected {}", k, self.line.tap_out(k), self.m.age(k)));
                }
            }
            Ok(())
        }
        fn describe(&self, w: &mut dyn Write) {
            let _ = write!(w, "{:?}|{:?}|{}", self.line, self.m.canon(), self.m.delay);
        }
    }

    fn go<T: S, L: Line<T> + Clone + Debug + Send + Sync>(top: usize, steps: usize, vals: &'static [f64], look: Look, thorough: bool) -> (String, Result<Bfs, Failure>) {
        let name = format!("fixpoint/{}<{}>/max<={}/delays in 1/{}/samples{:?}", L::NAME, T::NAME, top, steps, vals);
        let init = (0..top + 1)
            .map(|max| St::<T, L> {
                line: L::mk(0.0, max),
                m: Model::new(0.0, max, L::FRAC),
                top,
                steps,
                vals,
                look,
                _t: std::marker::PhantomData,
            })
            .collect();
        let r = search(&name, init, if thorough { 40_000_000 } else { 4_000_000 }, if thorough { 1200 } else { 30 });
        (name, r)
    }

    pub fn run(id: &str, thorough: bool) -> Vec<(String, Result<Bfs, Failure>)> {
        static V3: &[f64] = &[0.0, 1.0, 2.0];
        static V2: &[f64] = &[0.0, 1.0];
        let mut r = vec![];
        let look = match id {
            "C01" | "C02" => Look { taps: false, report: false, peek: false },
            "C03" => Look { taps: true, report: false, peek: false },
            "C04" => Look { taps: true, report: true, peek: false },
            _ => Look { taps: true, report: true, peek: true },
        };
        let int = id != "C02";
        let lin = id != "C01";
        let x = thorough as usize;
        if int {
            r.push(go::<f32, Delay<f32>>(5 + x, 1, V3, look, thorough));
            r.push(go::<f64, Delay<f64>>(8 + 2 * x, 1, V2, look, thorough));
        }
        if lin {
            r.push(go::<f32, LinearDelay<f32>>(4 + x, 2, V3, look, thorough));
            r.push(go::<f64, LinearDelay<f64>>(6 + 2 * x, 2, V2, look, thorough));
            r.push(go::<f32, LinearDelay<f32>>(3 + x, 8, V2, look, thorough));
        }
        r
    }
}
