//! C21: decibel and gain conversions, over every f32 and a lattice of f64.

use crate::explore::*;
use crate::units::S;
use rasp::util::{apply_gain, to_db, to_sample};

fn db_ok<T: S>(x: T, got: T) -> Res {
    let d = x.d();
    let g = got.d();
    // The threshold is 1e-6 in the sample type.
    let live = x.is_finite() && x > T::f(1e-6);
    if !live {
        return if g == -120.0 { Ok(()) } else { Err(format!("to_db({:?}) = {:?}, expected exactly -120", x, got)) };
    }
    let want = 20.0 * d.log10();
    if (g - want).abs() <= 8.0 * T::EPS * want.abs().max(1.0) {
        Ok(())
    } else {
        Err(format!("to_db({:?}) = {:?}, expected {}", x, got, want))
    }
}

fn sample_ok<T: S>(x: T, got: T) -> Res {
    let d = x.d();
    let g = got.d();
    let live = x.is_finite() && x > T::f(-120.0);
    if !live {
        return if g == 0.0 { Ok(()) } else { Err(format!("to_sample({:?}) = {:?}, expected exactly 0", x, got)) };
    }
    let want = 10f64.powf(d / 20.0);
    let rel = (8.0 + 8.0 * (d / 20.0).abs()) * T::EPS;
    let max = T::max_value().d();
    if want * (1.0 + rel) >= max && g.is_infinite() && g > 0.0 {
        return Ok(());
    }
    if (g - want).abs() <= rel * want {
        Ok(())
    } else {
        Err(format!("to_sample({:?}) = {:?}, expected {}", x, got, want))
    }
}

/// Within the rounding of the conversions, the result does not decrease.
fn not_below<T: S>(prev: T, cur: T, slack: f64) -> bool {
    cur >= prev || (prev.d() - cur.d()) <= slack
}

fn round_trip<T: S>(x: T) -> Res {
    // sample -> dB -> sample
    if x.is_finite() && x.d() > 1.1e-6 {
        let b = to_sample(to_db(x));
        // an error of one rounding of the dB value (up to 8 EPS * max(1,|dB|)) is that relative
        // change of the sample times ln(10)/20
        let db = (20.0 * x.d().log10()).abs().max(1.0);
        let rel = T::EPS * (16.0 + 4.0 * db);
        if !((b.d() - x.d()).abs() <= rel * x.d() || b.is_infinite() && x.d() * (1.0 + rel) >= T::max_value().d()) {
            return Err(format!("to_sample(to_db({:?})) = {:?}", x, b));
        }
    }
    Ok(())
}

fn round_trip_db<T: S>(d: T) -> Res {
    if d.is_finite() && d.d() > -119.99 && d.d() < (T::max_value().d().log10() * 20.0 - 1.0) {
        let b = to_db(to_sample(d));
        let slack = T::EPS * (200.0 + 16.0 * d.d().abs());
        if !((b.d() - d.d()).abs() <= slack) {
            return Err(format!("to_db(to_sample({:?})) = {:?}", d, b));
        }
    }
    Ok(())
}

/// Lattice of f64 values in increasing order: every exponent with `per` mantissas, plus
/// neighbours of the values in `marks`.
fn lattice(per: u64, marks: &[f64], signed: bool) -> Vec<f64> {
    let mut v = vec![];
    for e in 0..2047u64 {
        for k in 0..per {
            let m = (k * ((1u64 << 52) / per)) ^ (k.wrapping_mul(0x2545F4914F6CDD1D) & 0xFFFF_FFFF);
            v.push(f64::from_bits((e << 52) | (m & ((1 << 52) - 1))));
        }
    }
    for m in marks {
        let b = m.abs().to_bits();
        for k in 0..33u64 {
            v.push(f64::from_bits(b.saturating_add(k)));
            v.push(f64::from_bits(b.saturating_sub(k)));
        }
    }
    v.push(f64::MAX);
    v.push(f64::INFINITY);
    if signed {
        let w: Vec<f64> = v.iter().map(|x| -x).collect();
        v.extend(w);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    if id != "C21" {
        return v;
    }
    const CHUNK: u32 = 1 << 16;
    // Every non-negative f32, NaN and infinity included.
    scenario(&mut v, "to_db/every non-negative f32", 1, |c, _| {
        let k = c.pick((1usize << 31) / CHUNK as usize) as u32;
        let mut prev: Option<f32> = None;
        // one value of overlap, so that neighbours in different chunks are compared as well
        let from = (k * CHUNK).saturating_sub(1);
        for b in from..(k + 1) * CHUNK {
            let x = f32::from_bits(b);
            let y = to_db(x);
            db_ok(x, y)?;
            if x.is_finite() {
                if let Some(p) = prev {
                    if !not_below(p, y, 16.0 * f32::EPSILON as f64 * (y.abs() as f64).max(1.0)) {
                        return Err(format!("to_db decreases at {:?}: {:?} after {:?}", x, y, p));
                    }
                }
                prev = Some(y);
            }
            c.see(y as f64);
        }
        c.points += CHUNK as u64;
        Ok(())
    });
    scenario(&mut v, "to_sample/every f32", 1, |c, _| {
        let k = c.pick((1usize << 32) / CHUNK as usize) as u64;
        // in increasing order of value
        let at = |i: u64| -> f32 {
            let i = i as u32;
            f32::from_bits(if i < 1 << 31 { !i } else { i & !(1 << 31) })
        };
        let mut prev: Option<f32> = None;
        let from = (k * CHUNK as u64).saturating_sub(1);
        for i in from..(k + 1) * CHUNK as u64 {
            let x = at(i);
            let y = to_sample(x);
            sample_ok(x, y)?;
            if x.is_finite() {
                if let Some(p) = prev {
                    let slack = (16.0 + 16.0 * (x / 20.0).abs() as f64) * f32::EPSILON as f64 * y.abs() as f64;
                    if !not_below(p, y, slack) {
                        return Err(format!("to_sample decreases at {:?}: {:?} after {:?}", x, y, p));
                    }
                }
                prev = Some(y);
            }
            c.see(y as f64);
        }
        c.points += CHUNK as u64;
        Ok(())
    });
    // Round trips: every f32 above the floor, every f32 dB value in range.
    let step: u32 = if thorough { 1 } else { 7 };
    scenario(&mut v, "round-trip/f32", 1, move |c, _| {
        let k = c.pick((1usize << 31) / CHUNK as usize) as u32;
        let neg = c.pick(2) == 1;
        let mut n = 0;
        let mut b = k * CHUNK;
        while b < (k + 1) * CHUNK {
            let x = f32::from_bits(b);
            if !neg {
                round_trip(x)?;
                round_trip_db(x)?;
            } else {
                round_trip_db(-x)?;
            }
            n += 1;
            b += step;
        }
        c.points += n;
        c.ops += n;
        Ok(())
    });
    let per = if thorough { 4096 } else { 256 };
    let db_marks = [120.0, 20.0, 1.0, 6.0, 60.0, 100.0, 0.5, 3.0, 140.0, 6165.0, 1e-6];
    let sample_marks = [1e-6, 1e-5, 1e-3, 0.1, 0.5, 1.0, 2.0, 10.0, 1000.0, 1e6, 2e-6, 9.999e-7];
    let samples = lattice(per, &sample_marks, false);
    let dbs = lattice(per, &db_marks, true);
    const PART: usize = 4096;
    scenario(&mut v, "to_db/f64 lattice", 1, move |c, _| {
        let k = c.pick((samples.len() + PART - 1) / PART);
        let mut prev: Option<f64> = None;
        for x in &samples[(k * PART).saturating_sub(1)..((k + 1) * PART).min(samples.len())] {
            let y = to_db(*x);
            db_ok(*x, y)?;
            round_trip(*x)?;
            if x.is_finite() {
                if let Some(p) = prev {
                    if !not_below(p, y, 16.0 * f64::EPSILON * y.abs().max(1.0)) {
                        return Err(format!("to_db decreases at {:?}: {:?} after {:?}", x, y, p));
                    }
                }
                prev = Some(y);
            }
            c.see(y);
            c.points += 1;
        }
        Ok(())
    });
    scenario(&mut v, "to_sample/f64 lattice", 1, move |c, _| {
        let k = c.pick((dbs.len() + PART - 1) / PART);
        let mut prev: Option<f64> = None;
        for x in &dbs[(k * PART).saturating_sub(1)..((k + 1) * PART).min(dbs.len())] {
            let y = to_sample(*x);
            sample_ok(*x, y)?;
            round_trip_db(*x)?;
            if x.is_finite() {
                if let Some(p) = prev {
                    let slack = (16.0 + 16.0 * (x / 20.0).abs()) * f64::EPSILON * y.abs();
                    if !not_below(p, y, slack) {
                        return Err(format!("to_sample decreases at {:?}: {:?} after {:?}", x, y, p));
                    }
                }
                prev = Some(y);
            }
            c.see(y);
            c.points += 1;
        }
        Ok(())
    });
    // Fine steps through the range users work in, in f64.
    let n = if thorough { 1u64 << 24 } else { 1u64 << 20 };
    scenario(&mut v, "dB/f64 fine steps", 1, move |c, _| {
        let parts = 64;
        let k = c.pick(parts) as u64;
        for i in 0..n / parts as u64 {
            let t = (k * (n / parts as u64) + i) as f64 / n as f64;
            let d = -125.0 + 250.0 * t;
            let s = to_sample(d);
            sample_ok(d, s)?;
            round_trip_db(d)?;
            db_ok(s, to_db(s))?;
            let lin = 2.0 * t;
            db_ok(lin, to_db(lin))?;
            round_trip(lin)?;
            c.see(s);
        }
        c.points += n / parts as u64;
        Ok(())
    });
    scenario(&mut v, "to_db,to_sample/special values", 1, |c, _| {
        let x32 = [f32::NAN, f32::INFINITY, 0.0, f32::MIN_POSITIVE, f32::MAX][c.pick(5)];
        let y = to_db(x32);
        c.see(y as f64);
        db_ok(x32, y)?;
        let x = x32 as f64;
        db_ok(x, to_db(x))?;
        for d in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -120.0, -1e300, 0.0, -0.0] {
            sample_ok(d, to_sample(d))?;
            sample_ok(d as f32, to_sample(d as f32))?;
        }
        Ok(())
    });
    // Gain: the exact product.
    fn gain<T: S>(v: &mut Vec<Scenario>) {
        scenario(v, &format!("apply_gain/{}", T::NAME), 1, |c, _| {
            let big = T::max_value().d();
            let tiny = T::min_positive_value().d();
            let mags = [
                0.0, tiny, tiny / 4.0, 1e-30, 1e-9, 1e-6, 1e-3, 0.1, 0.25, 0.333333, 0.5, 0.7071, 0.999, 1.0, 1.0000001, 1.5,
                2.0, 3.0, 10.0, 100.0, 1e4, 1e9, 1e30, big / 2.0, big,
            ];
            let r = T::f(mags[c.pick(mags.len())]);
            for (i, m) in mags.iter().chain([f64::INFINITY, f64::NAN].iter()).enumerate() {
                for sign in [1.0, -1.0] {
                    let x = T::f(m * sign);
                    let got = apply_gain(x, r);
                    let want = x * r;
                    c.see(got.d());
                    if got.bits() != want.bits() && !(got.is_nan() && want.is_nan()) {
                        return Err(format!("apply_gain({:?}, {:?}) = {:?}, expected {:?} (case {})", x, r, got, want, i));
                    }
                }
            }
            Ok(())
        });
        // Every sample and every ratio of a lattice over all exponents, against fixed partners.
        scenario(v, &format!("apply_gain/lattice {}", T::NAME), 1, |c, _| {
            let partners = [0.0, 1e-20, 1e-7, 1e-6, 1e-3, 0.1, 0.5, 0.7, 0.9999, 1.0, 1.25, 2.0, 7.3, 100.0, 1e6, 1e12];
            let r = T::f(partners[c.pick(partners.len())]);
            let hi = c.pick(64) as u32;
            for lo in 0..1u32 << 12 {
                let x = T::f(f32::from_bits(hi << 26 | lo << 14) as f64);
                for (s, g) in [(x, r), (r, x.abs()), (-r, x.abs())] {
                    if !g.is_finite() {
                        continue;
                    }
                    let got = apply_gain(s, g);
                    let want = s * g;
                    if got.bits() != want.bits() && !(got.is_nan() && want.is_nan()) {
                        return Err(format!("apply_gain({:?}, {:?}) = {:?}, expected {:?}", s, g, got, want));
                    }
                }
            }
            c.points += 1 << 12;
            c.ops += 3 << 12;
            Ok(())
        });
        // A dense product grid around unity.
        scenario(v, &format!("apply_gain/dense {}", T::NAME), 1, |c, _| {
            let i = c.pick(2001);
            let r = T::f(i as f64 / 500.0);
            for j in 0..2001 {
                let x = T::f((j as f64 - 1000.0) / 400.0);
                let got = apply_gain(x, r);
                let want = x * r;
                if got.bits() != want.bits() && !(got.is_nan() && want.is_nan()) {
                    return Err(format!("apply_gain({:?}, {:?}) = {:?}, expected {:?}", x, r, got, want));
                }
            }
            c.points += 2001;
            c.ops += 2001;
            Ok(())
        });
    }
    gain::<f32>(&mut v);
    gain::<f64>(&mut v);
    v
}
