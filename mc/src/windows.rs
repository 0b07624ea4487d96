//! C17-C20: windows.

use crate::explore::*;
use crate::units::*;
use rasp::window::*;

pub const KINDS: [&str; 6] = ["Triangular", "Bartlett", "Hann", "Hamming", "Blackman", "BlackmanHarris"];

macro_rules! with_iter {
    ($k:expr, $n:expr, $t:ty, $it:ident => $body:expr) => {
        match $k {
            0 => {
                #[allow(unused_mut)]
                let mut $it = TriangularIter::<$t>::new($n);
                $body
            }
            1 => {
                #[allow(unused_mut)]
                let mut $it = BartlettIter::<$t>::new($n);
                $body
            }
            2 => {
                #[allow(unused_mut)]
                let mut $it = HannIter::<$t>::new($n);
                $body
            }
            3 => {
                #[allow(unused_mut)]
                let mut $it = HammingIter::<$t>::new($n);
                $body
            }
            4 => {
                #[allow(unused_mut)]
                let mut $it = BlackmanIter::<$t>::new($n);
                $body
            }
            _ => {
                #[allow(unused_mut)]
                let mut $it = BlackmanHarrisIter::<$t>::new($n);
                $body
            }
        }
    };
}

pub fn boxed<T: S>(k: usize, n: usize) -> Box<dyn ExactSizeIterator<Item = T>> {
    with_iter!(k, n, T, it => Box::new(it))
}

/// The values of a window by plain stepping, never more than n+1 of them.
pub fn values<T: S>(k: usize, n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + 1);
    with_iter!(k, n, T, it => {
        while v.len() <= n {
            match it.next() {
                Some(x) => v.push(x),
                None => break,
            }
        }
    });
    v
}

/// Textbook value `i` of the window of size `n`.
pub fn reference(k: usize, i: usize, n: usize) -> f64 {
    if n == 1 {
        return 1.0;
    }
    let (fi, fnn) = (i as f64, n as f64);
    let off = (2.0 * fi - (fnn - 1.0)).abs();
    let th = 2.0 * std::f64::consts::PI * fi / (fnn - 1.0);
    match k {
        0 => 1.0 - off / fnn,
        1 => 1.0 - off / (fnn - 1.0),
        2 => 0.5 - 0.5 * th.cos(),
        3 => 0.54 - 0.46 * th.cos(),
        4 => 0.42 - 0.5 * th.cos() + 0.08 * (2.0 * th).cos(),
        _ => 0.35875 - 0.48829 * th.cos() + 0.14128 * (2.0 * th).cos() - 0.01168 * (3.0 * th).cos(),
    }
}

fn tol<T: S>() -> f64 {
    40.0 * T::EPS
}

fn sizes(c: &mut Ch, top: usize) -> usize {
    static BIG: [usize; 16] = [
        4095, 4096, 4097, 8191, 8192, 10007, 16384, 32767, 32768, 44100, 48000, 65535, 65536, 65537, 100001, 262145,
    ];
    let i = c.pick(top + 1 + BIG.len());
    if i <= top {
        i
    } else {
        BIG[i - top - 1]
    }
}

fn c17<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("shape<{}>/sizes<={}", T::NAME, top), 1, move |c, _| {
        let n = sizes(c, top);
        let k = c.pick(6);
        c.say(|| format!("{} window of size {}", KINDS[k], n));
        let w = values::<T>(k, n);
        if w.len() != n {
            return Err(format!("{} window of size {} has {} values", KINDS[k], n, if w.len() > n { "too many" } else { "too few" }));
        }
        let t = tol::<T>();
        for i in 0..n {
            let g = w[i].d();
            c.points += 1;
            c.see(g);
            let r = reference(k, i, n);
            if !((g - r).abs() <= t) {
                return Err(format!("{} window of size {}: value {} is {}, expected {}", KINDS[k], n, i, g, r));
            }
            if !(g >= -t && g <= 1.0 + t) {
                return Err(format!("{} window of size {}: value {} is {}", KINDS[k], n, i, g));
            }
            if (g - w[n - 1 - i].d()).abs() > 2.0 * t {
                return Err(format!("{} window of size {}: not symmetric at {}", KINDS[k], n, i));
            }
            if i > 0 && 2 * i <= n - 1 && g < w[i - 1].d() - 2.0 * t {
                return Err(format!("{} window of size {}: falls before the centre at {}", KINDS[k], n, i));
            }
        }
        Ok(())
    });
}

/// Very long windows: all values of a few, the first and last ones reachable of others.
fn c17_huge<T: S>(v: &mut Vec<Scenario>, all: &'static [usize]) {
    scenario(v, &format!("shape<{}>/{:?}", T::NAME, all), 1, move |c, _| {
        let n = c.of(all);
        let k = c.pick(6);
        let t = tol::<T>();
        let mut i = 0usize;
        with_iter!(k, n, T, it => {
            while let Some(g) = it.next() {
                let r = reference(k, i, n);
                if !((g.d() - r).abs() <= t) {
                    return Err(format!("{} window of size {}: value {} is {:?}, expected {}", KINDS[k], n, i, g, r));
                }
                i += 1;
                if i > n { break; }
            }
        });
        c.points += n as u64;
        c.ops += n as u64;
        if i != n {
            return Err(format!("{} window of size {} has {} values", KINDS[k], n, i));
        }
        Ok(())
    });
    scenario(v, &format!("beginning<{}>", T::NAME), 1, move |c, _| {
        let n = (1usize << c.of(&[20, 24, 25, 31, 32, 33, 40, 52])).wrapping_add(c.of(&[0, 1, 2, usize::MAX]));
        let k = c.pick(6);
        with_iter!(k, n, T, it => {
            for i in 0..2000usize {
                let r = reference(k, i, n);
                let l = it.len();
                if l != n - i || it.size_hint() != (n - i, Some(n - i)) {
                    return Err(format!("{} window of size {} with {} values consumed: len() = {}, size_hint() = {:?}", KINDS[k], n, i, l, it.size_hint()));
                }
                match it.next() {
                    Some(g) if (g.d() - r).abs() <= tol::<T>() => c.see(g.d()),
                    g => return Err(format!("{} window of size {}: value {} is {:?}, expected {}", KINDS[k], n, i, g, r)),
                }
            }
        });
        c.points += 2000;
        Ok(())
    });
}

fn c18_ops<T: S>(v: &mut Vec<Scenario>, top: usize, depth: usize) {
    scenario(v, &format!("protocol<{}>/sizes<={}", T::NAME, top), depth, move |c, depth| {
        let n = c.pick(top + 1);
        let k = c.pick(6);
        c.say(|| format!("{} window of size {}", KINDS[k], n));
        let all = values::<T>(k, n);
        if all.len() != n {
            return Err(format!("{} window of size {} does not have {} values", KINDS[k], n, n));
        }
        let mut at = 0usize;
        with_iter!(k, n, T, it => {
            for step in 0..depth + 1 {
                let left = n - at.min(n);
                let (l, h) = (it.len(), it.size_hint());
                c.see(l as f64);
                if l != left || h != (left, Some(left)) {
                    return Err(format!("{} window of size {} with {} values consumed: len() = {}, size_hint() = {:?}, but {} are left", KINDS[k], n, at, l, h, left));
                }
                if step == depth { break; }
                let o = c.pick(9);
                let (got, skipped) = match o {
                    0 => (it.next(), 0),
                    1 => (it.nth(0), 0),
                    2 => (it.nth(1), 1),
                    3 => (it.nth(2), 2),
                    4 => (it.nth(n), n),
                    8 => (it.nth(usize::MAX), n),
                    5 => { let r = (&mut it).skip(1).next(); (r, 1) },
                    6 => { let m = (&mut it).take(2).count(); let e = 2.min(left); at = (at + 2).min(n);
                           if m != e { return Err(format!("take(2) yielded {} values, expected {}", m, e)); }
                           c.say(|| "take(2)".into()); continue; },
                    _ => { let m = (&mut it).take(1).fold(0, |a, _| a + 1); let e = 1.min(left); at = (at + 1).min(n);
                           if m != e { return Err(format!("take(1) yielded {} values, expected {}", m, e)); }
                           c.say(|| "take(1)".into()); continue; },
                };
                let want = all.get(at + skipped).map(|x| x.d());
                at = (at + skipped + 1).min(n);
                let got = got.map(|x| x.d());
                c.see(got.unwrap_or(-1.0));
                c.say(|| format!("operation {} skipping {}: {:?}", o, skipped, got));
                let bad = match (got, want) { (None, None) => false, (Some(a), Some(b)) => !same(a, b), _ => true };
                if bad {
                    return Err(format!("{} window of size {}: got {:?}, expected {:?}", KINDS[k], n, got, want));
                }
            }
            // A terminal use of what is left.
            let rest: Vec<f64> = all[at..].iter().map(|x| x.d()).collect();
            let ok = match c.pick(5) {
                0 => { let r: Vec<T> = it.collect(); r.len() == rest.len() && r.iter().zip(&rest).all(|(a, b)| same(a.d(), *b)) }
                1 => it.count() == rest.len(),
                2 => match (it.last(), rest.last()) { (None, None) => true, (Some(a), Some(b)) => same(a.d(), *b), _ => false },
                3 => { let s = it.fold(0.0, |a, x| a + x.d()); same(s, rest.iter().fold(0.0, |a, x| a + *x)) }
                _ => { let mut i = 0; let mut good = true;
                       for x in it { good &= i < rest.len() && same(x.d(), rest[i.min(rest.len() - 1)]); i += 1; if i > n { break; } }
                       good && i == rest.len() }
            };
            if !ok {
                return Err(format!("{} window of size {}: consuming the rest after {} values gave the wrong values", KINDS[k], n, at));
            }
        });
        Ok(())
    });
}

fn c18_full<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("consume<{}>/sizes<={}", T::NAME, top), 1, move |c, _| {
        let n = sizes(c, top);
        let k = c.pick(6);
        c.say(|| format!("{} window of size {}", KINDS[k], n));
        with_iter!(k, n, T, it => {
            for i in 0..n + 4 {
                let left = n.saturating_sub(i);
                let (l, h) = (it.len(), it.size_hint());
                if l != left || h != (left, Some(left)) {
                    return Err(format!("{} window of size {} with {} values consumed: len() = {}, size_hint() = {:?}", KINDS[k], n, i, l, h));
                }
                let x = it.next();
                c.points += 1;
                c.see(x.map_or(-1.0, |x| x.d()));
                if x.is_some() != (i < n) {
                    return Err(format!("{} window of size {}: step {} yielded {:?}", KINDS[k], n, i, x));
                }
            }
        });
        if n <= 600 {
            // Reaching each value by skipping.
            let all = values::<T>(k, n);
            for s in 0..n + 2 {
                let got = with_iter!(k, n, T, it => it.nth(s));
                c.points += 1;
                let bad = match (got, all.get(s)) { (None, None) => false, (Some(a), Some(b)) => !same(a.d(), b.d()), _ => true };
                if bad {
                    return Err(format!("{} window of size {}: nth({}) = {:?}, stepping gives {:?}", KINDS[k], n, s, got, all.get(s)));
                }
            }
            for st in 1..5usize {
                let got: Vec<T> = with_iter!(k, n, T, it => it.step_by(st).collect());
                let want: Vec<T> = all.iter().cloned().step_by(st).collect();
                if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| !same(a.d(), b.d())) {
                    return Err(format!("{} window of size {}: step_by({}) differs from stepping", KINDS[k], n, st));
                }
            }
        }
        Ok(())
    });
}

/// Searching and every other way a standard method consumes values: what it reports, and where it
/// leaves the iterator.
fn c18_methods<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("methods<{}>/sizes<={}", T::NAME, top), 1, move |c, _| {
        let n = c.pick(top + 4);
        let n = if n <= top { n } else { [100, 257, 1025][n - top - 1] };
        let k = c.pick(6);
        let start = if n <= top { c.pick(n + 2) } else { c.of(&[0, 1, 60, 256]).min(n) };
        let len = n - start.min(n);
        let stop = if n <= top { c.pick(len + 1) } else { c.of(&[0, 1, 2, 40, 64, 1000]).min(len) };
        let all = values::<T>(k, n);
        if all.len() != n {
            return Err(format!("{} window of size {} does not have {} values", KINDS[k], n, n));
        }
        let rest: Vec<f64> = all[start.min(n)..].iter().map(|x| x.d()).collect();
        let what = |m: &str| format!("{} window of size {} from value {}, {} stopping at {}", KINDS[k], n, start, m, stop);
        // `stop` is the number of values passed over; the next one, if any, is the one found.
        macro_rules! begin { ($it:ident) => { for _ in 0..start { $it.next(); } let _ = &mut $it; } }
        macro_rules! after {
            ($m:expr, $it:ident, $ok:expr, $seen:expr, $used:expr) => {{
                c.points += 1;
                let seen: Vec<f64> = $seen;
                let used: usize = $used;
                let left = rest.len() - used;
                if !$ok || seen.len() != used || !seen.iter().zip(&rest).all(|(a, b)| same(*a, *b)) {
                    return Err(format!("{}: wrong answer, or saw {:?} of {:?}", what($m), seen, rest));
                }
                if $it.len() != left || $it.size_hint() != (left, Some(left)) {
                    return Err(format!("{}: {} left, expected {}", what($m), $it.len(), left));
                }
                let y = $it.next().map(|x| x.d());
                let good = match (y, rest.get(used)) { (None, None) => true, (Some(a), Some(b)) => same(a, *b), _ => false };
                if !good {
                    return Err(format!("{}: then next() is {:?}, expected {:?}", what($m), y, rest.get(used)));
                }
            }};
        }
        let found = stop < rest.len();
        let used = (stop + 1).min(rest.len());
        let eq = |a: Option<T>, i: usize| match (a, rest.get(i)) { (None, None) => true, (Some(a), Some(b)) => same(a.d(), *b), _ => false };
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r = it.any(|x| { s.push(x.d()); s.len() > stop }); after!("any", it, r == found, s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r = it.all(|x| { s.push(x.d()); s.len() <= stop }); after!("all", it, r != found, s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r = it.find(|x| { s.push(x.d()); s.len() > stop }); after!("find", it, eq(r, stop), s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r = it.find_map(|x| { s.push(x.d()); if s.len() > stop { Some(x) } else { None } }); after!("find_map", it, eq(r, stop), s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r = it.position(|x| { s.push(x.d()); s.len() > stop }); after!("position", it, r == if found { Some(stop) } else { None }, s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            let r: Result<(), ()> = it.try_for_each(|x| { s.push(x.d()); if s.len() > stop { Err(()) } else { Ok(()) } }); after!("try_for_each", it, r.is_err() == found, s, used) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            { let b = it.by_ref(); for x in b.take(stop) { s.push(x.d()); } } after!("by_ref().take", it, true, s, stop) });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![];
            for (x, _) in (0..stop).zip(it.by_ref()).map(|(i, x)| (x, i)) { s.push(x.d()); } after!("zip", it, true, s, stop) });
        with_iter!(k, n, T, it => { begin!(it);
            let s: Vec<f64> = it.by_ref().map(|x| x.d()).take(stop).collect(); after!("map", it, true, s, stop) });
        with_iter!(k, n, T, it => { begin!(it);
            let m = it.nth(stop); let s = rest[..used].to_vec(); after!("nth", it, eq(m, stop), s, used) });
        // Methods that use everything up.
        let bits = |v: &[f64]| -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() };
        let mut answers: Vec<(&str, Vec<f64>, Vec<f64>)> = vec![];
        let order = |a: &f64, b: &f64| a.partial_cmp(b).unwrap();
        let o = |x: Option<f64>| x.into_iter().collect::<Vec<f64>>();
        if rest.iter().all(|x| !x.is_nan()) {
            with_iter!(k, n, T, it => { begin!(it); answers.push(("max_by", o(it.max_by(|a, b| order(&a.d(), &b.d())).map(|x| x.d())), o(rest.iter().cloned().max_by(order)))); });
            with_iter!(k, n, T, it => { begin!(it); answers.push(("min_by", o(it.min_by(|a, b| order(&a.d(), &b.d())).map(|x| x.d())), o(rest.iter().cloned().min_by(order)))); });
            with_iter!(k, n, T, it => { begin!(it); answers.push(("max_by_key", o(it.max_by_key(|a| (a.d() * 64.0) as i64).map(|x| x.d())), o(rest.iter().cloned().max_by_key(|a| (*a * 64.0) as i64)))); });
            with_iter!(k, n, T, it => { begin!(it); answers.push(("min_by_key", o(it.min_by_key(|a| (a.d() * 64.0) as i64).map(|x| x.d())), o(rest.iter().cloned().min_by_key(|a| (*a * 64.0) as i64)))); });
        }
        with_iter!(k, n, T, it => { begin!(it); let (mut a, b): (Vec<T>, Vec<T>) = it.partition(|x| x.d() > 0.5);
            let (mut p, q): (Vec<f64>, Vec<f64>) = rest.iter().cloned().partition(|x| *x > 0.5);
            a.extend(b); p.extend(q); answers.push(("partition", a.iter().map(|x| x.d()).collect(), p)); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("reduce", o(it.reduce(|a, _| a).map(|x| x.d())), o(rest.first().cloned()))); });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![]; it.fold((), |_, x| s.push(x.d())); answers.push(("fold", s, rest.clone())); });
        with_iter!(k, n, T, it => { begin!(it); let mut s = vec![]; it.for_each(|x| s.push(x.d())); answers.push(("for_each", s, rest.clone())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("collect", it.collect::<Vec<T>>().iter().map(|x| x.d()).collect(), rest.clone())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("count", vec![it.count() as f64], vec![rest.len() as f64])); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("last", o(it.last().map(|x| x.d())), o(rest.last().cloned()))); });
        with_iter!(k, n, T, it => { begin!(it); let (a, b): (Vec<usize>, Vec<f64>) = it.map(|x| (1usize, x.d())).unzip(); answers.push(("unzip", b, rest.clone())); answers.push(("unzip", vec![a.len() as f64], vec![rest.len() as f64])); });
        with_iter!(k, n, T, it => { begin!(it); let mut p = it.peekable(); let mut s = vec![]; while let Some(x) = p.peek().cloned() { s.push(x.d()); p.next(); if s.len() > n { break; } } answers.push(("peekable", s, rest.clone())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("skip", it.skip(stop).map(|x| x.d()).collect(), rest[stop..].to_vec())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("step_by", it.step_by(stop + 1).map(|x| x.d()).collect(), rest.iter().cloned().step_by(stop + 1).collect())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("chain", it.map(|x| x.d()).chain(std::iter::once(-1.0)).collect(), rest.iter().cloned().chain(std::iter::once(-1.0)).collect())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("enumerate", it.enumerate().map(|(i, x)| i as f64 + 10.0 * x.d()).collect(), rest.iter().enumerate().map(|(i, x)| i as f64 + 10.0 * *x).collect())); });
        with_iter!(k, n, T, it => { begin!(it); answers.push(("fuse", it.fuse().map(|x| x.d()).collect(), rest.clone())); });
        with_iter!(k, n, T, it => { begin!(it); let e = it.eq(all[start.min(n)..].iter().cloned()); answers.push(("eq", vec![e as u8 as f64], vec![1.0])); });
        with_iter!(k, n, T, it => { begin!(it); let e = it.lt(all[start.min(n)..].iter().cloned()); answers.push(("lt", vec![e as u8 as f64], vec![0.0])); });
        for (m, got, want) in answers {
            c.points += 1;
            if bits(&got) != bits(&want) {
                return Err(format!("{}: {:?}, expected {:?}", what(m), got, want));
            }
        }
        Ok(())
    });
}

/// Skipping far, from the start and from the middle, in windows of many sizes.
fn c18_skips<T: S>(v: &mut Vec<Scenario>, all_sizes: &'static [usize]) {
    scenario(v, &format!("skips<{}>", T::NAME), 1, move |c, _| {
        let n = c.of(all_sizes);
        let k = c.pick(6);
        let all = values::<T>(k, n);
        let mut places: Vec<usize> = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 2 * n];
        for b in [8u32, 10, 12, 15, 16, 17] {
            places.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
        }
        places.retain(|p| *p <= 2 * n);
        places.sort();
        places.dedup();
        let check = |what: &str, a: usize, b: usize, got: Option<T>, left: usize, at: usize| -> Res {
            let want = all.get(at);
            let bad = match (got, want) { (None, None) => false, (Some(x), Some(y)) => !same(x.d(), y.d()), _ => true };
            let rest = n.saturating_sub(at + 1);
            if bad || left != rest {
                return Err(format!("{} window of size {}: {} {} {} gave {:?} and {} left, stepping gives {:?} and {} left", KINDS[k], n, what, a, b, got, left, want, rest));
            }
            Ok(())
        };
        for &a in &places {
            for &b in &places {
                if n > 5000 && ![0, 1, 4096, 65536].contains(&b) {
                    continue;
                }
                c.points += 3;
                let (g, l) = with_iter!(k, n, T, it => { it.nth(a); let g = it.nth(b); (g, it.len()) });
                check("nth after nth", a, b, g, l, a + 1 + b)?;
                c.see(g.map_or(-1.0, |x| x.d()));
                if b == 1 {
                    let (g, l) = with_iter!(k, n, T, it => { let g = (&mut it).skip(a).next(); (g, it.len()) });
                    check("skip", a, 0, g, l, a)?;
                    let (g, l) = with_iter!(k, n, T, it => { let m = (&mut it).take(a).count(); let g = it.next(); (if m == a.min(n) { g } else { None }, it.len()) });
                    check("next after take", a, 0, g, l, a)?;
                    // what is left, by internal iteration
                    let left = n.saturating_sub(a + 1);
                    let (m, z) = with_iter!(k, n, T, it => { it.nth(a); let mut m = 0usize; let mut z = None; it.for_each(|x| { m += 1; z = Some(x); }); (m, z) });
                    if m != left || (m > 0 && !same(z.unwrap().d(), all[n - 1].d())) {
                        return Err(format!("{} window of size {}: for_each after nth({}) saw {} values, expected {}", KINDS[k], n, a, m, left));
                    }
                    let m = with_iter!(k, n, T, it => { it.nth(a); it.count() });
                    if m != left {
                        return Err(format!("{} window of size {}: count() after nth({}) is {}, expected {}", KINDS[k], n, a, m, left));
                    }
                    let z = with_iter!(k, n, T, it => { it.nth(a); it.last() });
                    let bad = match z { None => left != 0, Some(z) => left == 0 || !same(z.d(), all[n - 1].d()) };
                    if bad {
                        return Err(format!("{} window of size {}: last() after nth({}) is {:?}, {} were left", KINDS[k], n, a, z, left));
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn window(k: usize) -> Window {
    match k {
        0 => Window::Triangular,
        1 => Window::Bartlett,
        2 => Window::Hann,
        3 => Window::Hamming,
        4 => Window::Blackman,
        5 => Window::BlackmanHarris,
        _ => Window::Rectangular,
    }
}

fn c19<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("apply<{}>/sizes<={}", T::NAME, top), 1, move |c, _| {
        let n = sizes(c, top);
        let k = c.pick(7);
        let data = c.pick(4);
        c.say(|| format!("apply_window({} samples of kind {}, {:?})", n, data, window(k)));
        let src: Vec<T> = (0..n)
            .map(|i| {
                T::f(match data {
                    0 => 1.0,
                    1 => (i as f64 + 1.0) * if i % 2 == 0 { 1.0 } else { -0.5 },
                    2 => (i % 13) as f64 * 2f64.powi(-60),
                    _ => -((i % 17) as f64) * 2f64.powi(60),
                })
            })
            .collect();
        let mut got = src.clone();
        apply_window(&mut got, window(k));
        c.op();
        if got.len() != n {
            return Err("the slice changed length".into());
        }
        for i in 0..n {
            c.points += 1;
            c.see(got[i].d());
            if k == 6 {
                if got[i].bits() != src[i].bits() {
                    return Err(format!("rectangular window changed sample {} of {}: {:?} became {:?}", i, n, src[i], got[i]));
                }
                continue;
            }
            let s = src[i].d();
            let want = s * reference(k, i, n);
            if !((got[i].d() - want).abs() <= tol::<T>() * s.abs()) {
                return Err(format!("{:?} window on {} samples: sample {} = {} became {}, expected {}", window(k), n, i, s, got[i].d(), want));
            }
        }
        Ok(())
    });
    // Odd contents: non-finite, negative zero and subnormal samples at every position.
    scenario(v, &format!("contents<{}>", T::NAME), 1, move |c, _| {
        let n = c.pick(10);
        let k = c.pick(7);
        let pos = c.pick(n.max(1));
        let x = c.of(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e-40, -1e-310]);
        let mut src: Vec<T> = (0..n).map(|i| T::f(i as f64 - 2.5)).collect();
        if n > 0 {
            src[pos] = T::f(x);
        }
        let mut got = src.clone();
        apply_window(&mut got, window(k));
        c.op();
        let own = if k < 6 { values::<T>(k, n) } else { vec![] };
        for i in 0..n {
            if k == 6 {
                if got[i].bits() != src[i].bits() {
                    return Err(format!("rectangular window changed sample {} of {}: {:?} became {:?}", i, n, src[i], got[i]));
                }
                continue;
            }
            let s = src[i].d();
            let g = got[i].d();
            c.see(g);
            let r = reference(k, i, n);
            let ok = if s.is_finite() {
                (g - s * r).abs() <= tol::<T>() * s.abs() + if T::IS32 { 1.5e-45 } else { 5e-324 }
            } else if s.is_nan() {
                g.is_nan()
            } else if r.abs() <= tol::<T>() {
                // Whether this window value is zero, or tiny of either sign, is up to rounding; it decides.
                own.get(i).map_or(true, |w| same(g, s * w.d()))
            } else {
                g == s
            };
            if !ok {
                return Err(format!("{:?} window on {} samples: sample {} = {} became {}", window(k), n, i, s, g));
            }
        }
        Ok(())
    });
    // One sample, or all but one, of an otherwise silent or constant slice.
    scenario(v, &format!("sparse<{}>", T::NAME), 1, move |c, _| {
        const N: [usize; 21] = [1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600];
        let n = c.of(&N);
        let pos = c.pick(n);
        let k = c.pick(7);
        let kind = c.pick(5);
        let (base, x) = [(0.0, 1.0), (0.0, -2f64.powi(-80)), (1.0, 0.0), (0.5, -3.0), (-1.0, 2f64.powi(70))][kind];
        let src: Vec<T> = (0..n).map(|i| T::f(if i == pos { x } else { base })).collect();
        let mut got = src.clone();
        apply_window(&mut got, window(k));
        c.op();
        c.points += n as u64;
        c.see(got[pos].d());
        for i in 0..n {
            let s = src[i].d();
            if k == 6 {
                if got[i].bits() != src[i].bits() {
                    return Err(format!("rectangular window changed sample {} of {}: {:?} became {:?}", i, n, src[i], got[i]));
                }
                continue;
            }
            let want = s * reference(k, i, n);
            if !((got[i].d() - want).abs() <= tol::<T>() * s.abs()) {
                return Err(format!("{:?} window on {} samples, all {} but {} at {}: sample {} became {}, expected {}", window(k), n, base, x, pos, i, got[i].d(), want));
            }
        }
        Ok(())
    });
    // Applying to a part of a buffer leaves the rest alone, and windows compose.
    scenario(v, &format!("sub-slices<{}>", T::NAME), 1, move |c, _| {
        let len = c.pick(9);
        let lo = c.pick(len + 1);
        let hi = lo + c.pick(len - lo + 1);
        let k = c.pick(7);
        let k2 = c.pick(7);
        let src: Vec<T> = (0..len).map(|i| T::f(i as f64 + 1.0)).collect();
        let mut got = src.clone();
        apply_window(&mut got[lo..hi], window(k));
        apply_window(&mut got[lo..hi], window(k2));
        c.ops += 2;
        for i in 0..len {
            let mut want = src[i].d();
            if i >= lo && i < hi {
                for q in [k, k2] {
                    if q < 6 {
                        want *= reference(q, i - lo, hi - lo);
                    }
                }
            }
            c.see(got[i].d());
            if !((got[i].d() - want).abs() <= 2.0 * tol::<T>() * src[i].d()) {
                return Err(format!("windows {:?}, {:?} on [{}..{}] of {}: sample {} became {:?}, expected {}", window(k), window(k2), lo, hi, len, i, got[i], want));
            }
        }
        Ok(())
    });
}

fn c20<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("overlap<{}>/sizes<={}", T::NAME, top), 1, move |c, _| {
        let n = sizes(c, top);
        let k = c.pick(4);
        let (hop, sum) = match k {
            0 => (n / 2, 1.0),
            3 => (n.saturating_sub(1) / 2, 1.08),
            _ => (n.saturating_sub(1) / 2, 1.0),
        };
        if n < 2 || (k == 0) != (n % 2 == 0) {
            return Ok(());
        }
        c.say(|| format!("{} window of size {} overlapped after {}", KINDS[k], n, hop));
        let via = c.pick(2);
        let w: Vec<T> = if via == 0 {
            values::<T>(k, n)
        } else {
            let mut b = vec![T::f(1.0); n];
            apply_window(&mut b, window(k));
            b
        };
        if w.len() != n {
            return Err("wrong number of window values".into());
        }
        for i in 0..n - hop {
            let s = w[i].d() + w[i + hop].d();
            c.points += 1;
            c.see(s);
            if !((s - sum).abs() <= 2.0 * tol::<T>()) {
                return Err(format!("{} window of size {} overlapped after {}: values {} and {} sum to {} instead of {}", KINDS[k], n, hop, i, i + hop, s, sum));
            }
        }
        Ok(())
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut w = vec![];
    let v = &mut w;
    let x = thorough as usize;
    match id {
        "C17" => {
            c17::<f32>(v, 8200 + x * 12300);
            c17::<f64>(v, 8200 + x * 12300);
            static H1: &[usize] = &[1 << 20, (1 << 20) + 1];
            static H2: &[usize] = &[1 << 20, (1 << 20) + 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2];
            c17_huge::<f32>(v, if thorough { H2 } else { H1 });
            c17_huge::<f64>(v, if thorough { H2 } else { H1 });
        }
        "C18" => {
            c18_ops::<f32>(v, 7 + x, 6);
            c18_ops::<f64>(v, 7, 5 + x);
            c18_full::<f32>(v, 2100 + x * 3000);
            c18_full::<f64>(v, 2100 + x * 3000);
            static Q: &[usize] = &[0, 1, 2, 5, 100, 255, 256, 257, 1024, 1025, 4097, 70001];
            static G: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 255, 256, 257, 1023, 1024, 1025, 4097, 65535, 65536, 65537, 70001, 140001];
            let sk = if thorough { G } else { Q };
            c18_skips::<f32>(v, sk);
            c18_skips::<f64>(v, sk);
            c18_methods::<f32>(v, 16 + 20 * x);
            c18_methods::<f64>(v, 16 + 20 * x);
            static H: &[usize] = &[300_001];
            c17_huge::<f32>(v, H);
            c17_huge::<f64>(v, H);
        }
        "C19" => {
            c19::<f32>(v, 4100 + x * 3000);
            c19::<f64>(v, 4100 + x * 3000);
        }
        "C20" => {
            c20::<f32>(v, 8200 + x * 12300);
            c20::<f64>(v, 8200 + x * 12300);
        }
        _ => unreachable!(),
    }
    w
}
