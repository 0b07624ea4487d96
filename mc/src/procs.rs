//! Properties that quantify over all processors: C06, C07, C08, C10, C22, C23.

use crate::delay::Line;
use crate::explore::*;
use crate::units::*;
use rasp::delay::{Delay, LinearDelay};
use std::sync::mpsc;

/// Samples that exercise every shortcut: signs, zero, large, tiny, beyond full scale, non-finite.
const WILD: [f64; 7] = [1.0, -0.5, 3.0, 0.0, f64::INFINITY, f64::NAN, -8.271806125530277e-25];

fn run(c: &mut Ch, u: &mut Box<dyn Obj>, x: f64) -> f64 {
    let y = u.process(x);
    c.see(y);
    c.say(|| format!("process({}) = {}", x, y));
    y
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sample(f64),
    Param(usize),
    Extra(usize),
    Clear,
    Block(usize),
}

fn alphabet(un: &Desc, samples: &[f64], blocks: bool) -> Vec<Op> {
    let mut v: Vec<Op> = samples.iter().map(|x| Op::Sample(*x)).collect();
    v.extend((0..un.nparam).map(Op::Param));
    v.extend((0..un.nextra).map(Op::Extra));
    v.push(Op::Clear);
    if blocks {
        v.push(Op::Block(3));
        v.push(Op::Block(1));
    }
    v
}

fn block(n: usize) -> Vec<f64> {
    (0..n).map(|i| [2.0, -1.0, 0.5, 0.0, -3.0][i % 5]).collect()
}

/// Performs `o`; returns what it computed.
fn perform(c: &mut Ch, u: &mut Box<dyn Obj>, o: Op) -> Vec<f64> {
    match o {
        Op::Sample(x) => vec![run(c, u, x)],
        Op::Param(i) => {
            c.op();
            c.say(|| format!("parameter setting #{}", i));
            u.param(i);
            vec![]
        }
        Op::Extra(i) => {
            c.op();
            c.say(|| format!("data operation #{}", i));
            u.extra(i);
            vec![]
        }
        Op::Clear => {
            c.op();
            c.say(|| "clear()".into());
            u.clear();
            vec![]
        }
        Op::Block(n) => {
            let mut b = block(n);
            c.op();
            let r = u.process_block(&mut b);
            c.see(r);
            c.say(|| format!("process_block(..{}) = {:?}, block now {:?}", n, r, b));
            b.push(r);
            b
        }
    }
}

fn c06(v: &mut Vec<Scenario>, un: Desc, depth: usize) {
    let mut ops = alphabet(&un, &WILD, false);
    ops.push(Op::Block(3));
    scenario(v, &un.show("clear-then-fresh"), depth, move |c, depth| {
        let mut u = un.fresh();
        let mut params = vec![];
        for _ in 0..depth {
            let o = ops[c.pick(ops.len())];
            if let Op::Param(i) = o {
                params.push(i);
            }
            perform(c, &mut u, o);
        }
        c.say(|| "clear()".into());
        u.clear();
        if u.last_out() != 0.0 {
            return Err(format!("last output after clear is {:?}", u.last_out()));
        }
        let mut w = un.fresh();
        for i in params {
            w.param(i);
        }
        if w.last_out() != 0.0 {
            return Err(format!("last output of a fresh processor is {:?}", w.last_out()));
        }
        // Silence, a signal, or a signal with a further parameter change.
        let mode = c.pick(2 + un.nparam);
        for t in 0..9 {
            if mode >= 2 && (t == 0 || t == 3) {
                c.say(|| format!("parameter setting #{}", mode - 2));
                u.param(mode - 2);
                w.param(mode - 2);
            }
            let (pu, pw) = (u.probe(), w.probe());
            if pu.len() != pw.len() || pu.iter().zip(&pw).any(|(a, b)| !same(*a, *b)) {
                return Err(format!("cleared processor reads {:?}, fresh one {:?}", pu, pw));
            }
            let x = if mode == 0 { 0.0 } else { [1.0, -2.0, 0.5, 4.0, 0.0, 0.0][t % 6] };
            let a = run(c, &mut u, x);
            let b = w.process(x);
            if !same(a, b) {
                return Err(format!("after clear, sample {} of the new stream gave {}, a fresh processor gives {}", t, a, b));
            }
            if !same(u.last_out(), w.last_out()) {
                return Err(format!("last output {:?}, fresh {:?}", u.last_out(), w.last_out()));
            }
        }
        Ok(())
    });
}

/// Delay lines of many capacities, every delay, cleared at many places of the ring: the response to
/// an impulse is that of a fresh line.
fn c06_lines<T: S, L: Line<T>>(v: &mut Vec<Scenario>, caps: &'static [usize]) {
    scenario(v, &format!("{}<{}> clear-places", L::NAME, T::NAME), 1, move |c, _| {
        let cap = c.of(caps);
        let len = cap + 1;
        let d = if len < 5000 { c.pick(len) } else { c.of(&[0, 1, 100, cap / 2, cap - 1, cap]) };
        let mut ps = vec![0, 1, 2, len / 3, len / 2, d, len - d, cap, len, len + 1];
        for b in [64usize, 128, 256, 512] {
            if b < len {
                ps.extend([b - 1, b]);
            }
        }
        ps.sort();
        ps.dedup();
        let place = ps[c.pick(ps.len())];
        let frac = if L::FRAC && d < cap { 0.25 * c.pick(2) as f64 } else { 0.0 };
        let d = d as f64 + frac;
        c.say(|| format!("capacity {} delay {}, cleared after {} samples", cap, d, place));
        let (mut a, mut b) = (L::mk(d, cap), L::mk(d, cap));
        for i in 0..place {
            a.process(T::f(sample_at(i)));
        }
        a.clear();
        if a.last_out().d() != 0.0 || a.gd() != b.gd() || a.gm() != cap {
            return Err(format!("capacity {} delay {} after {} samples and clear: last output {:?}, delay {}, maximum {}", cap, d, place, a.last_out(), a.gd(), a.gm()));
        }
        // Nothing is left in the memory, and one impulse comes out where it does in a fresh line.
        for i in 0..len + 2 {
            let x = T::f(if i == 0 { 1.0 } else if i == cap { -0.5 } else { 0.0 });
            let (p, q) = (a.process(x), b.process(x));
            c.see(p.d());
            if !same(p.d(), q.d()) {
                return Err(format!("capacity {} delay {} after {} samples and clear: output {} is {:?}, fresh {:?}", cap, d, place, i, p, q));
            }
        }
        let mut k = 0;
        while k <= cap {
            if !same(a.tap_out(k).d(), b.tap_out(k).d()) {
                return Err(format!("capacity {} delay {} after {} samples and clear: tap {} reads {:?}, fresh {:?}", cap, d, place, k, a.tap_out(k), b.tap_out(k)));
            }
            k += 1 + cap / 61;
        }
        c.points += (2 * len) as u64;
        Ok(())
    });
}

fn c06_long(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("clear-after-n"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let k = c.pick(n + 8);
        let k = if k < n { k } else { [1000, 1101, 1705, 1711, 2048, 3000, 4000, 5120][k - n] };
        let kind = c.pick(if k < n { 3 } else { SHAPES });
        let mut u = un.fresh();
        let mut w = un.fresh();
        if p > 0 {
            u.param(p - 1);
            w.param(p - 1);
        }
        for i in 0..k {
            run(c, &mut u, if kind == 0 { ((i * 7 + 3) % 11) as f64 - 5.0 } else { shape(kind, i) });
        }
        u.clear();
        if u.last_out() != 0.0 {
            return Err(format!("last output after {} samples and clear is {:?}", k, u.last_out()));
        }
        for t in 0..12 {
            let x = [0.0, 1.0, -2.0, 0.5, 0.0, 0.0][t % 6];
            let a = run(c, &mut u, x);
            let b = w.process(x);
            if !same(a, b) {
                return Err(format!("after {} samples and clear, output {} was {}, fresh {}", k, t, a, b));
            }
        }
        Ok(())
    });
}

/// The sample for which the processor, after `before`, returns exactly zero (or as close as samples
/// of its type allow), if there is one: it answers a non-zero memory with silence.
fn cancelling(un: &Desc, before: &dyn Fn() -> Box<dyn Obj>) -> Option<f64> {
    let out = |x: f64| before().process(x);
    let (y0, y1) = (out(0.0), out(1.0));
    let x = un.round(-y0 / (y1 - y0));
    if !x.is_finite() || x == 0.0 || y0 == 0.0 {
        return None;
    }
    let step = |k: i64| {
        if un.is32 {
            f32::from_bits(((x as f32).to_bits() as i64 + k) as u32) as f64
        } else {
            f64::from_bits((x.to_bits() as i64 + k) as u64)
        }
    };
    let mut best = (y0.abs(), 0.0);
    for k in 0..96i64 {
        let z = step(if k % 2 == 0 { k / 2 } else { -(k + 1) / 2 });
        let y = out(z).abs();
        if y < best.0 {
            best = (y, z);
        }
        if y == 0.0 {
            break;
        }
    }
    Some(best.1)
}

/// Histories that end in one or two outputs of exactly zero from a memory that is not.
const HIDDEN: [&[f64]; 6] = [&[1.0], &[-0.5, 1.0], &[1.0, 0.75, -0.25], &[3.0, 0.0], &[0.3, -0.7, 0.1, 0.9], &[1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]];

fn hide(c: &mut Ch, un: &Desc, p: usize, again: usize) -> Option<(Box<dyn Obj>, Vec<f64>)> {
    let un = *un;
    let mut xs: Vec<f64> = HIDDEN[c.pick(HIDDEN.len())].to_vec();
    for _ in 0..again {
        let now = xs.clone();
        let x = cancelling(&un, &move || {
            let mut u = un.fresh();
            if p > 0 {
                u.param(p - 1);
            }
            for x in &now {
                u.process(*x);
            }
            u
        })?;
        xs.push(x);
    }
    let mut u = un.fresh();
    if p > 0 {
        u.param(p - 1);
    }
    for x in &xs {
        run(c, &mut u, *x);
    }
    Some((u, xs))
}

fn c06_hidden(v: &mut Vec<Scenario>, un: Desc) {
    scenario(v, &un.show("clear-when-silent"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let again = 1 + c.pick(2);
        let (mut u, _) = match hide(c, &un, p, again) {
            Some(x) => x,
            None => return Ok(()),
        };
        c.say(|| "clear()".into());
        u.clear();
        let mut w = un.fresh();
        if p > 0 {
            w.param(p - 1);
        }
        for t in 0..12 {
            let x = [0.0, 0.0, 1.0, -2.0, 0.5, 0.0][t % 6];
            let a = run(c, &mut u, x);
            let b = w.process(x);
            if !same(a, b) || !same(u.last_out(), w.last_out()) {
                return Err(format!("cleared while its output was {}: output {} of the new stream is {}, a fresh processor gives {}", 0.0, t, a, b));
            }
        }
        Ok(())
    });
}

/// The memory goes on sounding after an output that happened to be zero.
fn c23_hidden(v: &mut Vec<Scenario>, un: Desc) {
    if !un.lti {
        return;
    }
    scenario(v, &un.show("silent-instant"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let again = 1 + c.pick(2);
        let xs = match hide(c, &un, p, again) {
            Some(x) => x.1,
            None => return Ok(()),
        };
        let gap = c.pick(3);
        let tail = c.of(&[0.0, 1.0]);
        let mut xs = xs;
        xs.extend(vec![0.0; gap]);
        xs.push(tail);
        xs.extend([0.0; 8]);
        let y = outs(&un, c, p, &xs);
        // the sum of the responses to its single samples
        let h = {
            let mut d = vec![0.0; xs.len()];
            d[0] = 1.0;
            outs(&un, c, p, &d)
        };
        let mut scale = 4.0f64;
        for t in 0..xs.len() {
            let w: f64 = (0..=t).map(|k| xs[k] * h[t - k]).sum();
            let sum: f64 = (0..=t).map(|k| (xs[k] * h[t - k]).abs()).sum();
            scale = scale.max(sum);
            if !((y[t] - w).abs() <= 64.0 * un.eps * scale) {
                return Err(format!("response {} to {:?} is {} instead of {}", t, xs, y[t], w));
            }
        }
        Ok(())
    });
}

/// The same few operations over and over before the clear.
fn c06_repeats(v: &mut Vec<Scenario>, un: Desc) {
    scenario(v, &un.show("clear-after-repeats"), 1, move |c, _| {
        let n = c.of(&[2usize, 3, 16, 100, 255, 256, 257, 1000, 65535, 65536, 65537]);
        let p = c.pick(un.nparam + 1);
        let mut rs = vec![vec![Op::Clear], vec![Op::Sample(1.0), Op::Clear], vec![Op::Clear, Op::Sample(-2.0)], vec![Op::Block(5), Op::Clear], vec![Op::Block(3)]];
        if p > 0 {
            rs.push(vec![Op::Param(p - 1)]);
            rs.push(vec![Op::Param(p - 1), Op::Sample(1.0)]);
        }
        for e in 0..un.nextra {
            rs.push(vec![Op::Extra(e)]);
            rs.push(vec![Op::Sample(1.0), Op::Extra(e)]);
        }
        let r = &rs[c.pick(rs.len())];
        let (mut u, mut w) = (un.fresh(), un.fresh());
        if p > 0 {
            u.param(p - 1);
            w.param(p - 1);
        }
        c.say(|| format!("{} times {:?}", n, r));
        for _ in 0..n {
            for o in r {
                match *o {
                    Op::Sample(x) => {
                        u.process(x);
                    }
                    Op::Clear => u.clear(),
                    Op::Param(i) => u.param(i),
                    Op::Extra(i) => u.extra(i),
                    Op::Block(k) => {
                        u.process_block(&mut block(k));
                    }
                }
            }
        }
        c.ops += (n * r.len()) as u64;
        u.clear();
        if u.last_out() != 0.0 {
            return Err(format!("last output after {} x {:?} and clear is {:?}", n, r, u.last_out()));
        }
        let (pu, pw) = (u.probe(), w.probe());
        if pu.len() != pw.len() || pu.iter().zip(&pw).any(|(a, b)| !same(*a, *b)) {
            return Err(format!("cleared processor reads {:?}, fresh one {:?}", pu, pw));
        }
        for t in 0..12 {
            let x = [0.0, 1.0, -2.0, 0.5, 0.0, 0.0][t % 6];
            let a = run(c, &mut u, x);
            let b = w.process(x);
            if !same(a, b) {
                return Err(format!("after {} x {:?} and clear, output {} was {}, fresh {}", n, r, t, a, b));
            }
        }
        Ok(())
    });
}

fn c07(v: &mut Vec<Scenario>, un: Desc, depth: usize) {
    let mut ops = alphabet(&un, &WILD[..6], true);
    ops.push(Op::Block(0));
    scenario(v, &un.show("last-output"), depth, move |c, depth| {
        let mut u = un.fresh();
        let mut want = 0.0;
        for i in 0..depth + 1 {
            let got = u.last_out();
            if !same(got, want) {
                c.say(|| format!("last_out() = {}", got));
                return Err(format!("last output reads {}, expected {}", got, want));
            }
            if i == depth {
                break;
            }
            let o = ops[c.pick(ops.len())];
            let r = perform(c, &mut u, o);
            match o {
                Op::Sample(_) => want = r[0],
                Op::Block(0) => {}
                Op::Block(n) => {
                    want = r[n - 1];
                }
                Op::Clear => want = 0.0,
                Op::Param(_) if un.resets => want = 0.0,
                _ => {}
            }
        }
        Ok(())
    });
}

/// Blocks of every short content, non-finite samples included, as the first or a later call.
fn c07_blocks(v: &mut Vec<Scenario>, un: Desc) {
    scenario(v, &un.show("last-output-blocks"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let mut u = un.fresh();
        if p > 0 {
            c.say(|| format!("parameter setting #{}", p - 1));
            u.param(p - 1);
        }
        for _ in 0..2 {
            let n = c.pick(4);
            if n == 0 {
                let x = c.of(&WILD);
                run(c, &mut u, x);
            }
            let mut b: Vec<f64> = (0..n).map(|_| c.of(&WILD)).collect();
            let before = u.last_out();
            let r = u.process_block(&mut b);
            c.say(|| format!("process_block wrote {:?} and returned {:?}", b, r));
            c.see(r);
            let want = if n == 0 { before } else { b[n - 1] };
            if !same(u.last_out(), want) || !same(r, want) {
                return Err(format!("after a block of {} the last output reads {:?} and the call returned {:?}, expected {:?}", n, u.last_out(), r, want));
            }
        }
        Ok(())
    });
}

fn c07_long(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("last-output-long"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let b = c.of(&[0usize, 1, 2, 5, 16, 64, 100]);
        let kind = c.pick(SHAPES + 1);
        let mut u = un.fresh();
        if p > 0 {
            u.param(p - 1);
        }
        for i in 0..n {
            let y = run(c, &mut u, if kind == SHAPES { ((i * 7 + 3) % 11) as f64 - 5.0 } else { shape(kind, i) });
            if !same(u.last_out(), y) {
                return Err(format!("after sample {} last output reads {:?}, expected {}", i, u.last_out(), y));
            }
            if b > 0 && i % 50 == 49 {
                let r = perform(c, &mut u, Op::Block(b));
                if !same(u.last_out(), r[b - 1]) {
                    return Err(format!("after a block of {} last output reads {:?}, expected {}", b, u.last_out(), r[b - 1]));
                }
            }
        }
        Ok(())
    });
}

fn sample_at(i: usize) -> f64 {
    [1.0, -0.5, 4.0, 0.25, -3.0, 0.0, 2.0][i % 7] * if (i / 7) % 2 == 0 { 1.0 } else { -0.5 }
}

fn blocks_equal(un: &Desc, c: &mut Ch, a: &mut Box<dyn Obj>, b: &mut Box<dyn Obj>, xs: &[f64], at: usize) -> Res {
    let mut buf = xs.to_vec();
    let r = a.process_block(&mut buf);
    c.see(r);
    c.say(|| format!("process_block({:?}) = {:?}, block now {:?}", xs, r, buf));
    for (i, x) in xs.iter().enumerate() {
        let y = b.process(*x);
        if !near(buf[i], y, 4.0 * un.eps, 0.0) {
            return Err(format!("sample {} of a block of {} starting at {} became {:?}, one-by-one processing gives {}", i, xs.len(), at, buf[i], y));
        }
        if y == 0.0 && buf[i] == 0.0 && y.is_sign_negative() != buf[i].is_sign_negative() {
            return Err(format!("sample {} of a block of {} starting at {} became {:?}, one-by-one processing gives {:?}", i, xs.len(), at, buf[i], y));
        }
    }
    let want = b.last_out();
    if !near(r, want, 4.0 * un.eps, 0.0) {
        return Err(format!("block of {} starting at {} returned {:?}, expected {}", xs.len(), at, r, want));
    }
    if !near(a.last_out(), want, 4.0 * un.eps, 0.0) {
        return Err(format!("last output after a block is {:?}, expected {}", a.last_out(), want));
    }
    Ok(())
}

fn probes_equal(un: &Desc, a: &Box<dyn Obj>, b: &Box<dyn Obj>) -> Res {
    let (pa, pb) = (a.probe(), b.probe());
    if pa.len() != pb.len() || pa.iter().zip(&pb).any(|(x, y)| !near(*x, *y, 4.0 * un.eps, 0.0)) {
        return Err(format!("state after blocks reads {:?}, one-by-one {:?}", pa, pb));
    }
    Ok(())
}

fn c08(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("splits"), n, move |c, n| {
        let (mut a, mut b) = (un.fresh(), un.fresh());
        let p = c.pick(un.nparam + 1);
        if p > 0 {
            a.param(p - 1);
            b.param(p - 1);
        }
        let warm = c.of(&[0usize, 3]);
        for i in 0..warm {
            a.process(sample_at(i + 4));
            b.process(sample_at(i + 4));
        }
        let mut i = 0;
        let mut empties = 0;
        while i < n {
            // An empty block may go anywhere, once or twice.
            if empties < 2 && c.pick(2) == 1 {
                empties += 1;
                blocks_equal(&un, c, &mut a, &mut b, &[], i)?;
            }
            let len = 1 + c.pick(n - i);
            let xs: Vec<f64> = (i..i + len).map(sample_at).collect();
            blocks_equal(&un, c, &mut a, &mut b, &xs, i)?;
            i += len;
        }
        if n == 0 {
            blocks_equal(&un, c, &mut a, &mut b, &[], 0)?;
        }
        probes_equal(&un, &a, &b)?;
        for t in 0..4 {
            let (x, y) = (a.process(sample_at(t)), b.process(sample_at(t)));
            if !near(x, y, 4.0 * un.eps, 0.0) {
                return Err(format!("after the blocks, output {} differs: {} and {}", t, x, y));
            }
        }
        Ok(())
    });
}

fn c08_wild(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("contents"), n, move |c, n| {
        let (mut a, mut b) = (un.fresh(), un.fresh());
        let p = c.pick(un.nparam + 1);
        if p > 0 {
            a.param(p - 1);
            b.param(p - 1);
        }
        let xs: Vec<f64> = (0..n).map(|_| c.of(&WILD)).collect();
        blocks_equal(&un, c, &mut a, &mut b, &xs, 0)?;
        let ys: Vec<f64> = xs.iter().rev().cloned().collect();
        blocks_equal(&un, c, &mut a, &mut b, &ys, n)
    });
}

/// Blocks from every state a short history leads to.
fn c08_states(v: &mut Vec<Scenario>, un: Desc, depth: usize) {
    let mut ops = alphabet(&un, &WILD, false);
    ops.push(Op::Block(0));
    ops.push(Op::Block(2));
    scenario(v, &un.show("states"), depth, move |c, depth| {
        let (mut a, mut b) = (un.fresh(), un.fresh());
        for _ in 0..depth {
            let o = ops[c.pick(ops.len())];
            if let Op::Block(n) = o {
                blocks_equal(&un, c, &mut a, &mut b, &block(n), 0)?;
            } else {
                perform(c, &mut a, o);
                perform(c, &mut b, o);
            }
        }
        let cut = c.pick(4);
        let silent = c.pick(2) == 1;
        let xs: Vec<f64> = (0..5).map(|i| if silent { 0.0 } else { sample_at(i) }).collect();
        blocks_equal(&un, c, &mut a, &mut b, &xs[..cut], 0)?;
        blocks_equal(&un, c, &mut a, &mut b, &xs[cut..], cut)?;
        probes_equal(&un, &a, &b)
    });
}

/// Blocks, silent or not, right after outputs that happened to be zero.
fn c08_hidden(v: &mut Vec<Scenario>, un: Desc) {
    scenario(v, &un.show("after-zero-output"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let again = 1 + c.pick(2);
        let (mut a, xs) = match hide(c, &un, p, again) {
            Some(x) => x,
            None => return Ok(()),
        };
        let mut b = un.fresh();
        if p > 0 {
            b.param(p - 1);
        }
        for x in &xs {
            b.process(*x);
        }
        let n = c.pick(9);
        let kind = c.pick(3);
        let xs: Vec<f64> = (0..n + 4).map(|i| if i < n && kind < 2 { kind as f64 } else { sample_at(i) }).collect();
        blocks_equal(&un, c, &mut a, &mut b, &xs[..n], 0)?;
        blocks_equal(&un, c, &mut a, &mut b, &xs[n..], n)?;
        probes_equal(&un, &a, &b)
    });
}

fn c08_sizes(v: &mut Vec<Scenario>, un: Desc, top: usize) {
    scenario(v, &un.show("sizes"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        const BIG: [usize; 18] =
            [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16385, 32769, 44100, 65536, 65537, 100003, 262145];
        let n = c.pick(top + 1 + BIG.len());
        let n = if n <= top { n } else { BIG[n - top - 1] };
        let (mut a, mut b) = (un.fresh(), un.fresh());
        if p > 0 {
            a.param(p - 1);
            b.param(p - 1);
        }
        // Bounded inputs keep every setting finite for this long except the unstable ones;
        // equality is meaningful either way.
        let kind = c.pick(4);
        if kind == 1 {
            // something in flight, then silence
            for x in [1.0, -0.5, 0.0, 0.0] {
                a.process(x);
                b.process(x);
            }
        }
        for k in 0..2 {
            let xs: Vec<f64> = (0..n)
                .map(|i| match kind {
                    0 => sample_at(i + k),
                    1 => 0.0,
                    2 => 0.75,
                    _ => if (i + k) % 29 == 3 { 1.0 } else { 0.0 },
                })
                .collect();
            blocks_equal(&un, c, &mut a, &mut b, &xs, k * n)?;
        }
        probes_equal(&un, &a, &b)?;
        for x in [0.0, 1.0, 0.0, 0.0, 0.0] {
            let (p, q) = (a.process(x), b.process(x));
            if !near(p, q, 4.0 * un.eps, 0.0) {
                return Err(format!("after two blocks of {} the next output is {:?}, expected {}", n, p, q));
            }
        }
        Ok(())
    });
}

/// Blocks of many sizes at many places of the ring, on delay lines of many capacities; every
/// stored sample is read afterwards and the line is run dry.
fn c08_lines<T: S, L: Line<T>>(v: &mut Vec<Scenario>, caps: &'static [usize], every: usize) {
    scenario(v, &format!("{}<{}> block-places", L::NAME, T::NAME), 1, move |c, _| {
        let cap = c.of(caps);
        let len = cap + 1;
        let mut ds = vec![0.0, 1.0, 2.0, (cap / 2) as f64, cap as f64 - 1.0, cap as f64];
        if L::FRAC {
            ds.extend([0.5, 1.25, cap as f64 / 3.0, cap as f64 - 0.5]);
        }
        ds.retain(|d| *d >= 0.0 && *d <= cap as f64);
        ds.dedup();
        let d = ds[c.pick(ds.len())];
        // Every place for short rings, the places around the wrap for long ones.
        let warm = if len <= every { c.pick(len + 1) } else { c.of(&[0, 1, len / 2, len - 33, len - 32, len - 31, len - 2, len - 1, len, len + 1]) };
        let mut ns: Vec<usize> = if len <= every { (1..=len + 2).collect() } else { vec![1, 2, 31, 32, 33, len / 2, len - 1, len, len + 1, 2 * len + 3] };
        // Up to the wrap exactly, one less, one more; the same for the read position.
        let left = len - warm % len;
        let back = d.floor() as usize;
        for n in [left, back, (left + back) % len] {
            ns.extend([n.saturating_sub(1), n, n + 1]);
        }
        ns.sort();
        ns.dedup();
        ns.retain(|n| *n > 0);
        let n = ns[c.pick(ns.len())];
        let (mut a, mut b) = (L::mk(d, cap), L::mk(d, cap));
        let mut t = 0usize;
        let mut x = || {
            t += 1;
            T::f(sample_at(t))
        };
        for _ in 0..warm {
            let s = x();
            a.process(s);
            b.process(s);
        }
        for k in 0..3 {
            let xs: Vec<T> = (0..n).map(|_| x()).collect();
            let mut buf = xs.clone();
            let r = a.process_block(&mut buf);
            c.see(r.d());
            for i in 0..n {
                let y = b.process(xs[i]);
                if !near(buf[i].d(), y.d(), 4.0 * T::EPS, 1.0) {
                    return Err(format!("capacity {} delay {} after {}: sample {} of block {} of {} became {:?}, one-by-one processing gives {:?}", cap, d, warm, i, k, n, buf[i], y));
                }
            }
            if !near(r.d(), b.last_out().d(), 4.0 * T::EPS, 1.0) || !near(a.last_out().d(), b.last_out().d(), 4.0 * T::EPS, 1.0) {
                return Err(format!("capacity {} delay {} after {}: block {} of {} returned {:?}, last output {:?}, expected {:?}", cap, d, warm, k, n, r, a.last_out(), b.last_out()));
            }
        }
        let step = if len <= every { 1 } else { len / 97 + 1 };
        let mut k = 0;
        while k <= cap {
            if !same(a.tap_out(k).d(), b.tap_out(k).d()) {
                return Err(format!("capacity {} delay {} after {} and blocks of {}: tap {} reads {:?}, expected {:?}", cap, d, warm, n, k, a.tap_out(k), b.tap_out(k)));
            }
            k += step;
        }
        for i in 0..len + 3 {
            let s = x();
            let (p, q) = (a.process(s), b.process(s));
            if !near(p.d(), q.d(), 4.0 * T::EPS, 1.0) {
                return Err(format!("capacity {} delay {} after {} and blocks of {}: output {} is {:?}, expected {:?}", cap, d, warm, n, i, p, q));
            }
        }
        c.points += (3 * n + len) as u64;
        Ok(())
    });
}

/// Allowed output of an unconfigured processor for x.
fn through(un: &Desc, x: f64, y: f64) -> bool {
    match un.name {
        "PeakEnvDetector" => x.abs() == y,
        // The square of a tiny sample is subnormal or zero.
        "RmsEnvDetector" => (y - x.abs()).abs() <= 4.0 * un.eps * x.abs() + if un.is32 { 1e-19 } else { 1e-150 } && y >= 0.0,
        _ => x == y,
    }
}

fn c10(v: &mut Vec<Scenario>, un: Desc, depth: usize, bits: u32) {
    const XS: [f64; 11] = [1.0, -1.0, 0.0, 0.3, -0.7, 1.5, -1000.0, 1e18, -1e18, 1e-30, -1e-12];
    scenario(v, &un.show("streams"), depth, move |c, depth| {
        let mut u = un.fresh();
        for i in 0..depth {
            let k = c.pick(XS.len() + 1);
            if k == XS.len() {
                u.clear();
                continue;
            }
            let x = un.round(XS[k]);
            let y = run(c, &mut u, x);
            if !through(&un, x, y) {
                return Err(format!("unconfigured: sample {} = {} came out as {}", i, x, y));
            }
        }
        Ok(())
    });
    scenario(v, &un.show("long"), 1, move |c, _| {
        let s = c.of(&[1.0, 1e-12, 1e12]);
        let kind = c.pick(SHAPES);
        // Optionally cleared on the way, or after a stretch of silence.
        let clear_at = c.of(&[usize::MAX, 1, 300]);
        let silence = c.of(&[0u32, 10, 5000]);
        let mut u = un.fresh();
        for _ in 0..silence {
            let y = run(c, &mut u, 0.0);
            if y != 0.0 {
                return Err(format!("unconfigured: silence came out as {}", y));
            }
        }
        for i in 0..if kind == 0 { 70000 } else { 5000usize } {
            if i == clear_at {
                u.clear();
            }
            let x = un.round(shape(kind, i) * s);
            let y = run(c, &mut u, x);
            if !through(&un, x, y) {
                return Err(format!("unconfigured: sample {} = {} came out as {}", i, x, y));
            }
        }
        Ok(())
    });
    scenario(v, &un.show("blocks"), depth - 2, move |c, depth| {
        let mut u = un.fresh();
        for _ in 0..depth {
            let n = c.of(&[0usize, 1, 2, 5, 64, 1000]);
            let s = c.of(&[1.0, 1e-9, 1e9]);
            if c.pick(2) == 1 {
                u.clear();
            }
            let xs: Vec<f64> = (0..n).map(|i| un.round(sample_at(i) * s * (1.0 + i as f64 / 64.0))).collect();
            let mut ys = xs.clone();
            c.see(u.process_block(&mut ys));
            for i in 0..n {
                if !through(&un, xs[i], ys[i]) {
                    return Err(format!("unconfigured: sample {} = {} of a block of {} came out as {}", i, xs[i], n, ys[i]));
                }
            }
        }
        Ok(())
    });
    if un.is32 {
        // Every f32 with `bits` leading bits, followed by its negative.
        scenario(v, &format!("{}/2^{}", un.show("all-f32"), bits), 1, move |c, _| {
            let hi = c.pick(256) as u32;
            let mut n = 0;
            for lo in 0..(1u32 << (bits - 8)) {
                let b = (hi << 24) | (lo << (32 - bits));
                let x = f32::from_bits(b) as f64;
                if !(x.abs() <= 1e18) {
                    continue;
                }
                n += 1;
                let mut u = un.fresh();
                let y = u.process(x);
                let z = u.process(-x);
                if !through(&un, x, y) || !through(&un, -x, z) {
                    c.say(|| format!("bits {:08x}: {} -> {}, then {} -> {}", b, x, y, -x, z));
                    return Err(format!("unconfigured: {} came out as {}, then {} as {}", x, y, -x, z));
                }
                if lo & 0xfff == 0 {
                    c.see(y);
                }
            }
            c.points += n;
            c.ops += 2 * n;
            Ok(())
        });
    } else {
        // Every sign and exponent with several significands.
        scenario(v, &un.show("f64-lattice"), 1, move |c, _| {
            for e in 0..2047u64 {
                for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 0x5555555555555, 1 << 28] {
                    let x = f64::from_bits(e << 52 | m);
                    if x > 1e18 {
                        continue;
                    }
                    let mut u = un.fresh();
                    let y = u.process(x);
                    let z = u.process(-x);
                    c.points += 1;
                    c.see(y);
                    if !through(&un, x, y) || !through(&un, -x, z) {
                        return Err(format!("unconfigured: {} came out as {}, then {} as {}", x, y, -x, z));
                    }
                }
            }
            Ok(())
        });
    }
}

// ---- C22 ----

fn alone(un: &Desc, c: &mut Ch, ops: &[Op]) -> Vec<Vec<f64>> {
    let mut u = un.fresh();
    let mut r: Vec<Vec<f64>> = ops.iter().map(|o| perform(c, &mut u, *o)).collect();
    let mut end = u.probe();
    end.push(u.last_out());
    r.push(end);
    r
}

fn agree(what: &str, got: &[Vec<f64>], want: &[Vec<f64>]) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.len() != w.len() || g.iter().zip(w).any(|(a, b)| !same(*a, *b)) {
            return Err(format!("{}: operation {} gave {:?}, used alone it gives {:?}", what, i, g, w));
        }
    }
    Ok(())
}

fn c22_pair(v: &mut Vec<Scenario>, un: Desc, kw: Desc, depth: usize) {
    let ou = alphabet(&un, &[1.0, -3.0], true);
    let ow = alphabet(&kw, &[-0.5, 2.0], true);
    scenario(v, &format!("interleave/{}+{}<{}>", un.name, kw.name, un.t), depth, move |c, depth| {
        let a: Vec<Op> = (0..depth).map(|_| ou[c.pick(ou.len())]).collect();
        let b: Vec<Op> = (0..depth).map(|_| ow[c.pick(ow.len())]).collect();
        let want_a = alone(&un, c, &a);
        let want_b = alone(&kw, c, &b);
        let (mut x, mut y) = (un.fresh(), kw.fresh());
        let (mut ga, mut gb) = (vec![], vec![]);
        while ga.len() + gb.len() < a.len() + b.len() {
            let first = if ga.len() == a.len() {
                false
            } else if gb.len() == b.len() {
                true
            } else {
                c.pick(2) == 0
            };
            if first {
                c.say(|| "  first instance:".into());
                let r = perform(c, &mut x, a[ga.len()]);
                ga.push(r);
            } else {
                c.say(|| "  second instance:".into());
                let r = perform(c, &mut y, b[gb.len()]);
                gb.push(r);
            }
        }
        let mut e = x.probe();
        e.push(x.last_out());
        ga.push(e);
        let mut e = y.probe();
        e.push(y.last_out());
        gb.push(e);
        agree("first instance", &ga, &want_a)?;
        agree("second instance", &gb, &want_b)
    });
}

fn c22_same(v: &mut Vec<Scenario>, un: Desc, depth: usize) {
    c22_pair(v, un, un, depth);
    for w in all() {
        if w.t == un.t && (w.name == "Biquad2" || w.name == "LinearDelay") && w.name != un.name {
            c22_pair(v, un, w, depth.min(2));
        }
    }
}

/// A second OS thread that executes one closure at a time while we wait.
struct Helper {
    tx: mpsc::Sender<Job>,
    done: mpsc::Receiver<bool>,
}
struct Job(*mut (dyn FnMut() + 'static));
unsafe impl Send for Job {}

impl Helper {
    fn new() -> Helper {
        let (tx, rx) = mpsc::channel::<Job>();
        let (dtx, done) = mpsc::channel();
        std::thread::spawn(move || {
            while let Ok(j) = rx.recv() {
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*j.0)() })).is_ok();
                if dtx.send(ok).is_err() {
                    break;
                }
            }
        });
        Helper { tx, done }
    }
    fn run<R>(&self, mut f: impl FnMut() -> R) -> R {
        let mut out = None;
        {
            let mut g = || out = Some(f());
            let p: *mut (dyn FnMut() + '_) = &mut g;
            // The closure outlives the job: we wait for it below.
            let p: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(p) };
            self.tx.send(Job(p)).unwrap();
            if !self.done.recv().unwrap() {
                panic!("panic on the second thread");
            }
        }
        out.unwrap()
    }
}

thread_local! {
    static HELPER: Helper = Helper::new();
}

/// Two instances, each operation of either executed on either of two threads.
fn c22_threads(v: &mut Vec<Scenario>, un: Desc, depth: usize) {
    let ops = alphabet(&un, &[1.0], false);
    scenario(v, &un.show("threads"), depth, move |c, depth| {
        // One operation of interest, amid samples.
        let o = ops[c.pick(ops.len())];
        let a: Vec<Op> = (0..depth).map(|i| if i == 1 { o } else { Op::Sample(i as f64 + 1.0) }).collect();
        let b: Vec<Op> = (0..depth).map(|i| if i == 0 { o } else { Op::Sample(-(i as f64) * 4.0) }).collect();
        let want_a = alone(&un, c, &a);
        let want_b = alone(&un, c, &b);
        let (mut x, mut y) = (un.fresh(), un.fresh());
        let (mut ga, mut gb) = (vec![], vec![]);
        for i in 0..depth {
            let (ta, tb) = (c.pick(2), c.pick(2));
            let r = if ta == 0 {
                perform(c, &mut x, a[i])
            } else {
                c.say(|| "  on the other thread:".into());
                HELPER.with(|h| h.run(|| perform(c, &mut x, a[i])))
            };
            ga.push(r);
            let r = if tb == 0 {
                perform(c, &mut y, b[i])
            } else {
                c.say(|| "  on the other thread:".into());
                HELPER.with(|h| h.run(|| perform(c, &mut y, b[i])))
            };
            gb.push(r);
        }
        let mut e = x.probe();
        e.push(x.last_out());
        ga.push(e);
        let mut e = y.probe();
        e.push(y.last_out());
        gb.push(e);
        agree("first instance", &ga, &want_a)?;
        agree("second instance", &gb, &want_b)
    });
}

/// Long streams on several instances at once (a multi-channel stream).
fn c22_channels(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("channels"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let k = c.of(&[2usize, 3, 6]);
        let mut us: Vec<Box<dyn Obj>> = (0..k).map(|_| un.fresh()).collect();
        if p > 0 {
            for u in us.iter_mut() {
                u.param(p - 1);
            }
        }
        let xs = |ch: usize, t: usize| sample_at(t * (ch + 1) + ch) * (ch as f64 + 1.0);
        let mut got = vec![vec![]; k];
        for t in 0..n {
            for (ch, u) in us.iter_mut().enumerate() {
                got[ch].push(u.process(xs(ch, t)));
            }
        }
        for (ch, g) in got.iter().enumerate() {
            let mut u = un.fresh();
            if p > 0 {
                u.param(p - 1);
            }
            for (t, gt) in g.iter().enumerate() {
                let w = u.process(xs(ch, t));
                c.see(w);
                if !same(*gt, w) {
                    return Err(format!("channel {} sample {}: {} with other channels running, {} alone", ch, t, gt, w));
                }
            }
        }
        Ok(())
    });
}

const ALONE: usize = 24;

const STREAMS: usize = 5;

fn alone_input(kind: usize, t: usize) -> f64 {
    let x = [1.0, 0.0, 0.0, 0.0, -2.0, 0.5, 0.25, 3.0][t % 8] * if t >= 8 { -1.5 } else { 1.0 };
    match kind {
        0 => x,
        1 => x * 1e-17,
        2 => x * 1e15,
        3 => if t == 0 { 1.0 } else { 0.0 },
        _ => 0.25,
    }
}

/// The free functions and the iterators, as calls that can be made in any order.
#[derive(Clone, Copy, Debug)]
enum Call {
    Apply(usize, usize),
    Collect(usize, usize),
    ToDb(f64),
    ToSample(f64),
    Gain(f64, f64),
}

fn calls() -> Vec<(Call, bool)> {
    let mut v = vec![];
    for is32 in [true, false] {
        for n in [1usize, 2, 5, 8, 31, 64] {
            for k in 0..7 {
                v.push((Call::Apply(k, n), is32));
                if k < 6 {
                    v.push((Call::Collect(k, n), is32));
                }
            }
        }
        for x in [0.0, 0.1, 1.0, 3.0] {
            v.push((Call::ToDb(x), is32));
            v.push((Call::ToSample(x), is32));
            v.push((Call::Gain(x, 0.3), is32));
        }
    }
    v
}

fn call_at<T: S>(c: Call) -> Vec<f64> {
    use crate::windows as w;
    use rasp::util::*;
    match c {
        Call::Apply(k, n) => {
            let mut s: Vec<T> = (0..n).map(|i| T::f(1.0 + i as f64 / 7.0)).collect();
            rasp::window::apply_window(&mut s, w::window(k));
            s.iter().map(|x| x.d()).collect()
        }
        Call::Collect(k, n) => w::values::<T>(k, n).iter().map(|x| x.d()).collect(),
        Call::ToDb(x) => vec![to_db(T::f(x)).d()],
        Call::ToSample(x) => vec![to_sample(T::f(x)).d()],
        Call::Gain(x, r) => vec![apply_gain(T::f(x), T::f(r)).d()],
    }
}

fn call((c, is32): (Call, bool)) -> Vec<f64> {
    if is32 {
        call_at::<f32>(c)
    } else {
        call_at::<f64>(c)
    }
}

/// Every ordered pair of calls: the second gives what it gives in a process of its own.
fn c22_calls(v: &mut Vec<Scenario>) {
    let cs = calls();
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let table: Vec<Vec<f64>> = (0..cs.len())
        .map(|i| {
            let o = std::process::Command::new(&exe).args(["alone", "call", &i.to_string()]).output().unwrap_or_else(|e| harness_error(&format!("{}", e)));
            String::from_utf8_lossy(&o.stdout).lines().map(|l| f64::from_bits(u64::from_str_radix(l, 16).unwrap())).collect()
        })
        .collect();
    scenario(v, "calls", 1, move |c, _| {
        let (i, j) = (c.pick(cs.len()), c.pick(cs.len()));
        let apart = c.pick(2) == 1;
        c.say(|| format!("{:?}, then {:?} (f32?)", cs[i], cs[j]));
        let f = || {
            call(cs[i]);
            call(cs[j])
        };
        let got = if apart {
            match std::thread::scope(|s| s.spawn(f).join()) {
                Ok(g) => g,
                Err(_) => return Err(format!("{:?} after {:?} panicked", cs[j], cs[i])),
            }
        } else {
            f()
        };
        c.ops += 2;
        c.see(*got.last().unwrap_or(&0.0));
        let want = &table[j];
        if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| !same(*a, *b)) {
            return Err(format!("{:?} after {:?} gives {:?}, in a process of its own {:?} (f32?)", cs[j], cs[i], got, want));
        }
        Ok(())
    });
}

/// `<bin> alone <unit> <param>`: what this processor computes in a process where nothing else ran.
pub fn alone_main(a: &[String]) {
    if a[0] == "call" {
        for y in call(calls()[a[1].parse::<usize>().unwrap()]) {
            println!("{:016x}", y.to_bits());
        }
        return;
    }
    let un = all()[a[0].parse::<usize>().unwrap()];
    let p: usize = a[1].parse().unwrap();
    let mut u = un.fresh();
    if p > 0 {
        u.param(p - 1);
    }
    let kind: usize = a[2].parse().unwrap();
    for t in 0..ALONE {
        println!("{:016x}", u.process(alone_input(kind, t)).to_bits());
    }
}

/// Outputs by unit, setting and stream.
fn alone_table(us: &[Desc]) -> Vec<Vec<Vec<Vec<f64>>>> {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let one = |i: usize, p: usize, k: usize| -> Vec<f64> {
        let o = std::process::Command::new(&exe)
            .args(["alone", &i.to_string(), &p.to_string(), &k.to_string()])
            .output()
            .unwrap_or_else(|e| harness_error(&format!("{}", e)));
        String::from_utf8_lossy(&o.stdout).lines().map(|l| f64::from_bits(u64::from_str_radix(l, 16).unwrap())).collect()
    };
    let row = |i: usize| -> Vec<Vec<Vec<f64>>> { (0..us[i].nparam + 1).map(|p| (0..STREAMS).map(|k| one(i, p, k)).collect()).collect() };
    let row = &row;
    let n = us.len();
    let th = threads();
    let mut out: Vec<Vec<Vec<Vec<f64>>>> = vec![vec![]; n];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..th).map(|t| sc.spawn(move || (0..n).filter(|i| i % th == t).map(|i| (i, row(i))).collect::<Vec<_>>())).collect();
        for h in hs {
            for (i, r) in h.join().unwrap_or_else(|_| harness_error("no baseline")) {
                out[i] = r;
            }
        }
    });
    out
}

/// Every pair of processors of any types, settings and order, against what each computes in a
/// process of its own: nothing is shared, not even behind the instances.
fn c22_processes(v: &mut Vec<Scenario>) {
    let us = all();
    let table = std::sync::Arc::new(alone_table(&us));
    let (us2, table2) = (us.clone(), table.clone());
    // A thread on which another instance has already done n operations.
    scenario(v, "busy-thread", 1, move |c, _| {
        const MORE: [usize; 9] = [200, 255, 256, 257, 511, 512, 1000, 1024, 4096];
        let i = c.pick(us2.len());
        let un = us2[i];
        let p = c.pick(un.nparam + 1);
        let kind = c.pick(STREAMS);
        let n = c.pick(132 + MORE.len());
        let n = if n < 132 { n } else { MORE[n - 132] };
        let other = c.pick(2);
        c.say(|| format!("{}<{}> setting {} stream {} after {} samples on another instance of the thread", un.name, un.t, p, kind, n));
        let got = std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut o = un.fresh();
                if other == 1 && un.nparam > 0 {
                    o.param(n % un.nparam);
                }
                for t in 0..n {
                    o.process(alone_input(if t % 2 == 0 { kind } else { 0 }, t));
                }
                let mut u = un.fresh();
                if p > 0 {
                    u.param(p - 1);
                }
                (0..ALONE).map(|t| u.process(alone_input(kind, t))).collect::<Vec<f64>>()
            })
            .join()
        });
        let got = match got {
            Ok(g) => g,
            Err(_) => return Err(format!("{}<{}> panicked on a thread after {} samples on another instance", un.name, un.t, n)),
        };
        c.ops += (n + ALONE) as u64;
        c.see(got[ALONE - 1]);
        let want = &table2[i][p][kind];
        for t in 0..ALONE {
            if !want.get(t).map_or(false, |w| same(*w, got[t])) {
                return Err(format!("{}<{}> setting {} stream {}: sample {} gave {:e} after {} samples on another instance, in a process of its own {:?}", un.name, un.t, p, kind, t, got[t], n, want.get(t)));
            }
        }
        Ok(())
    });
    scenario(v, "separate-processes", 1, move |c, _| {
        let i = c.pick(us.len());
        let p = c.pick(us[i].nparam + 1);
        let j = c.pick(us.len());
        let q = c.pick(us[j].nparam + 1);
        let mode = c.pick(4);
        c.say(|| format!("{}<{}> setting {}, {}<{}> setting {}, order {}", us[i].name, us[i].t, p, us[j].name, us[j].t, q, mode));
        let (mut a, mut b) = (us[i].fresh(), us[j].fresh());
        let set = |u: &mut Box<dyn Obj>, p: usize| {
            if p > 0 {
                u.param(p - 1)
            }
        };
        let check = |c: &mut Ch, u: &mut Box<dyn Obj>, k: usize, p: usize, t: usize| -> Res {
            let y = run(c, u, alone_input(0, t));
            match table[k][p][0].get(t) {
                Some(w) if same(*w, y) => Ok(()),
                w => Err(format!("{}<{}> setting {}: sample {} gave {}, in a process of its own {:?}", us[k].name, us[k].t, p, t, y, w)),
            }
        };
        match mode {
            0 => {
                set(&mut a, p);
                set(&mut b, q);
            }
            1 => {
                set(&mut b, q);
                set(&mut a, p);
            }
            2 => {
                // b is done before a starts
                set(&mut b, q);
                for t in 0..ALONE {
                    check(c, &mut b, j, q, t)?;
                }
                b.clear();
                set(&mut a, p);
            }
            _ => {
                // b starts in the middle of a
                set(&mut a, p);
                for t in 0..ALONE / 2 {
                    check(c, &mut a, i, p, t)?;
                }
                set(&mut b, q);
                for t in 0..ALONE {
                    check(c, &mut b, j, q, t)?;
                }
                for t in ALONE / 2..ALONE {
                    check(c, &mut a, i, p, t)?;
                }
                return Ok(());
            }
        }
        for t in 0..ALONE {
            check(c, &mut a, i, p, t)?;
            check(c, &mut b, j, q, t)?;
        }
        Ok(())
    });
    scenario(v, "sendable", 1, |c, _| {
        let s = sendable();
        let (name, ok) = s[c.pick(s.len())];
        c.op();
        if ok {
            Ok(())
        } else {
            Err(format!("{} cannot be moved to another thread", name))
        }
    });
}

/// One instance is used while very many others come and go, grow and are read: whatever the others
/// add up to, it behaves the same. One execution, so that nothing is left out of the total.
fn c22_totals(v: &mut Vec<Scenario>, lines: usize, many: usize) {
    scenario(v, "totals", 1, move |c, _| {
        fn line<T: S, L: Line<T>>(c: &mut Ch, lines: usize) -> Res {
            for k in 0..lines {
                alive();
                let mut l = L::mk(1.0, 3);
                l.process(T::f(1.0));
                l.sm(1_000_000);
                l.sd(2.0);
                if l.gm() != 1_000_000 || l.gd() != 2.0 {
                    return Err(format!("{} number {}: growing gave maximum {} and delay {}", L::NAME, k, l.gm(), l.gd()));
                }
                let ys: Vec<f64> = [5.0, 6.0, 7.0].iter().map(|x| l.process(T::f(*x)).d()).collect();
                c.ops += 5;
                if ys != [0.0, 1.0, 5.0] || l.tap_out(3).d() != 1.0 {
                    return Err(format!("{} number {} after growing: {:?}, tap 3 reads {:?}", L::NAME, k, ys, l.tap_out(3)));
                }
                let mut g = L::mk(1_000_000.0, 1_000_000);
                g.process(T::f(1.0));
                if g.gd() != 1_000_000.0 || g.tap_out(0).d() != 1.0 {
                    return Err(format!("{} number {}: a new line of a million samples has delay {}", L::NAME, k, g.gd()));
                }
            }
            Ok(())
        }
        line::<f32, Delay<f32>>(c, lines)?;
        line::<f64, LinearDelay<f64>>(c, lines)?;
        line::<f32, LinearDelay<f32>>(c, lines / 4)?;
        line::<f64, Delay<f64>>(c, lines / 4)?;
        // Very many instances of every type, each given its settings and a few samples.
        for un in all() {
            for p in 0..un.nparam + 1 {
                alive();
                let mut first: Vec<f64> = vec![];
                for k in 0..many {
                    let mut u = un.fresh();
                    if p > 0 {
                        u.param(p - 1);
                    }
                    let ys = [u.process(1.0), u.process(-0.5), u.process(0.25)];
                    c.ops += 3;
                    if k == 0 {
                        first = ys.to_vec();
                    } else if !ys.iter().zip(&first).all(|(a, b)| same(*a, *b)) {
                        return Err(format!("{} number {} with setting {} gives {:?}, the first one {:?}", un.name, k, p, ys, first));
                    }
                }
            }
        }
        for k in 0..6 {
            let want = crate::windows::values::<f32>(k, 5);
            for i in 0..many {
                let got = crate::windows::values::<f32>(k, 5);
                if got != want {
                    return Err(format!("window iterator {} number {} yields {:?}, the first one {:?}", k, i, got, want));
                }
            }
        }
        c.see(1.0);
        Ok(())
    });
}

fn c22_windows<T: S>(v: &mut Vec<Scenario>, top: usize) {
    scenario(v, &format!("windows<{}>", T::NAME), top, move |c, top| {
        let (ka, kb) = (c.pick(6), c.pick(6));
        let (na, nb) = (c.pick(top + 1), c.pick(top + 1));
        let wa = crate::windows::values::<T>(ka, na);
        let wb = crate::windows::values::<T>(kb, nb);
        let mut ia = crate::windows::boxed::<T>(ka, na);
        let mut ib = crate::windows::boxed::<T>(kb, nb);
        let (mut ga, mut gb) = (0, 0);
        while ga <= na || gb <= nb {
            let first = if ga > na {
                false
            } else if gb > nb {
                true
            } else {
                c.pick(2) == 0
            };
            let (it, g, w) = if first { (&mut ia, &mut ga, &wa) } else { (&mut ib, &mut gb, &wb) };
            let x = it.next().map(|x| x.d());
            c.see(x.unwrap_or(-1.0));
            let want = w.get(*g).map(|x| x.d());
            *g += 1;
            let bad = match (x, want) {
                (None, None) => false,
                (Some(a), Some(b)) => !same(a, b),
                _ => true,
            };
            if bad {
                return Err(format!("interleaved iterator yielded {:?}, alone {:?}", x, want));
            }
        }
        Ok(())
    });
}

// ---- C23 ----

fn outs(un: &Desc, c: &mut Ch, p: usize, xs: &[f64]) -> Vec<f64> {
    let mut u = un.fresh();
    if p > 0 {
        u.param(p - 1);
    }
    xs.iter().map(|x| run(c, &mut u, *x)).collect()
}

fn c23(v: &mut Vec<Scenario>, un: Desc, n: usize, m: usize) {
    if !un.lti {
        return;
    }
    const XS: [f64; 4] = [0.0, 1.0, -0.5, 0.75];
    scenario(v, &un.show("scale-shift"), n, move |c, n| {
        let p = c.pick(un.nparam + 1);
        let mut xs: Vec<f64> = (0..n).map(|_| c.of(&XS)).collect();
        xs.extend([0.0, 0.0, 1.0]);
        let y = outs(&un, c, p, &xs);
        for k in [-40, -24, -7, 1, 6, 20, 40] {
            let s = 2f64.powi(k);
            let ys = outs(&un, c, p, &xs.iter().map(|x| x * s).collect::<Vec<_>>());
            for i in 0..y.len() {
                if ys[i] != y[i] * s {
                    return Err(format!("input {:?} scaled by 2^{}: output {} is {} instead of {}", xs, k, i, ys[i], y[i] * s));
                }
            }
        }
        let yn = outs(&un, c, p, &xs.iter().map(|x| -x).collect::<Vec<_>>());
        for i in 0..y.len() {
            if yn[i] != -y[i] {
                return Err(format!("input {:?} negated: output {} is {} instead of {}", xs, i, yn[i], -y[i]));
            }
        }
        for k in [1, 2, 3, 5, 9] {
            let mut sh = vec![0.0; k];
            sh.extend(&xs);
            let ys = outs(&un, c, p, &sh);
            for i in 0..sh.len() {
                let w = if i < k { 0.0 } else { y[i - k] };
                if ys[i] != w {
                    return Err(format!("input {:?} after {} zeros: output {} is {} instead of {}", xs, k, i, ys[i], w));
                }
            }
        }
        Ok(())
    });
    // Impulses of every amplitude of a lattice, alone and after an impulse of one.
    scenario(v, &un.show("amplitudes"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let e = c.pick(81) as i32 - 40;
        let one = outs(&un, c, p, &[1.0, 0.0, 0.0, 0.0, 0.0]);
        let lead = c.pick(2);
        for k in 0..1u32 << 8 {
            for sign in [1.0, -1.0] {
                let a = sign * 2f64.powi(e) * (1.0 + k as f64 / 256.0);
                c.points += 1;
                let mut u = un.fresh();
                if p > 0 {
                    u.param(p - 1);
                }
                let mut old = [0.0; 5];
                if lead == 1 {
                    u.process(1.0);
                    old[..4].copy_from_slice(&one[1..]);
                    old[4] = f64::NAN;
                }
                for (t, h) in one.iter().enumerate() {
                    if old[t].is_nan() {
                        break;
                    }
                    let y = u.process(if t == 0 { a } else { 0.0 });
                    let w = a * h + old[t];
                    if !((y - w).abs() <= 64.0 * un.eps * ((a * h).abs() + old[t].abs() + (a.abs() + lead as f64) * 0.5)) {
                        return Err(format!("{} after {}: output {} is {} instead of {}", a, lead, t, y, w));
                    }
                    if lead == 0 && h * a == 0.0 && y != 0.0 {
                        return Err(format!("impulse of {}: output {} is {} instead of zero", a, t, y));
                    }
                }
            }
        }
        c.ops += 5 * 512;
        Ok(())
    });
    scenario(v, &un.show("sum"), m, move |c, m| {
        let p = c.pick(un.nparam + 1);
        let mut xs: Vec<f64> = (0..m).map(|_| c.of(&XS)).collect();
        let mut zs: Vec<f64> = (0..m).map(|_| c.of(&[0.0, 1.0, -2.0])).collect();
        xs.extend([0.0, 0.0]);
        zs.extend([0.0, 0.5]);
        let a = outs(&un, c, p, &xs);
        let b = outs(&un, c, p, &zs);
        let s = outs(&un, c, p, &xs.iter().zip(&zs).map(|(x, z)| x + z).collect::<Vec<_>>());
        for i in 0..s.len() {
            // Errors of earlier outputs feed back, so allow for the largest seen.
            let scale = (0..=i).map(|j| a[j].abs() + b[j].abs()).fold(4.0, f64::max);
            if !((s[i] - (a[i] + b[i])).abs() <= 64.0 * un.eps * scale) {
                return Err(format!("response {} to {:?} + {:?} is {} instead of {}", i, xs, zs, s[i], a[i] + b[i]));
            }
        }
        Ok(())
    });
    scenario(v, &un.show("long"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        let k = c.of(&[0i32, -40, 40, 3]);
        let lead = c.of(&[0usize, 1, 2, 3, 10, 31, 64, 100, 255, 500, 985, 1000, 1023, 2047, 4000, 4096, 10000, 44100, 65535]);
        let kind = c.pick(SHAPES + 1);
        if kind < SHAPES && lead > 100 && lead != 2047 {
            return Ok(());
        }
        let xs: Vec<f64> = (0..3000).map(|i| if kind == SHAPES { sample_at(i) } else { shape(kind, i) }).collect();
        let y = outs(&un, c, p, &xs);
        let s = 2f64.powi(k);
        let mut ls = vec![0.0; lead];
        ls.extend(xs.iter().map(|x| x * s));
        let ys = outs(&un, c, p, &ls);
        for i in 0..ls.len() {
            let w = if i < lead { 0.0 } else { y[i - lead] * s };
            if !same(ys[i], w) && w.abs() < 1e25 && w.abs() > 1e-25 {
                return Err(format!("stream scaled by 2^{} after {} zeros: output {} is {} instead of {}", k, lead, i, ys[i], w));
            }
        }
        Ok(())
    });
}

/// An impulse while the response to an earlier one still rings: the two add up.
fn c23_echo(v: &mut Vec<Scenario>, un: Desc) {
    if !un.lti {
        return;
    }
    scenario(v, &un.show("echo"), 1, move |c, _| {
        let p = c.pick(un.nparam + 1);
        const MORE: [usize; 13] = [150, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025];
        let k = c.pick(130 + MORE.len());
        let n = if k < 130 { 1 + k } else { MORE[k - 130] };
        let a = c.of(&[1.0, -0.5, 3.0]);
        let len = n + 600;
        let imp = |t: usize| if t == 0 { 1.0 } else { 0.0 };
        let h = outs(&un, c, p, &(0..len).map(imp).collect::<Vec<_>>());
        let y = outs(&un, c, p, &(0..len).map(|t| imp(t) + if t == n { a } else { 0.0 }).collect::<Vec<_>>());
        let top = h.iter().fold(1.0f64, |m, x| m.max(x.abs())) * (1.0 + a.abs());
        let ring: f64 = h.iter().map(|x| x.abs()).sum::<f64>().max(1.0);
        if !(top < 1e15 && ring < 1e15) {
            return Ok(());
        }
        for t in 0..len {
            let w = h[t] + if t >= n { a * h[t - n] } else { 0.0 };
            if !((y[t] - w).abs() <= 32.0 * un.eps * top * ring.max(8.0)) {
                return Err(format!("impulses at 0 and {}: output {} is {} instead of {}", n, t, y[t], w));
            }
        }
        Ok(())
    });
}

// ---- very long streams ----

/// In the thorough tier, more samples than an f32 counter can tell apart.
fn marathon(thorough: bool) -> usize {
    if thorough { (1 << 24) + 5000 } else { (1 << 20) + 5000 }
}

fn set_up(un: &Desc, p: usize) -> Box<dyn Obj> {
    let mut u = un.fresh();
    if p > 0 {
        u.param(p - 1);
    }
    u
}

fn c06_marathon(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("clear-after-marathon"), 1, move |c, _| {
        let (mut u, mut w) = (set_up(&un, 1), set_up(&un, 1));
        let n = [100_000, 500_000, n][c.pick(3)];
        for i in 0..n {
            u.process(shape(0, i));
        }
        c.ops += n as u64;
        u.clear();
        for t in 0..40 {
            let x = [0.0, 1.0, -2.0, 0.5, 0.0, 0.0][t % 6];
            let (a, b) = (run(c, &mut u, x), w.process(x));
            if !same(a, b) {
                return Err(format!("after {} samples and clear, output {} was {}, fresh {}", n, t, a, b));
            }
        }
        Ok(())
    });
}

fn c07_marathon(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("last-output-marathon"), 1, move |c, _| {
        let mut u = set_up(&un, 1);
        for i in 0..n {
            let y = u.process(shape(0, i));
            if !same(u.last_out(), y) {
                return Err(format!("after sample {} last output reads {:?}, expected {}", i, u.last_out(), y));
            }
        }
        c.ops += n as u64;
        c.see(u.last_out());
        Ok(())
    });
}

fn c08_marathon(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("marathon"), 1, move |c, _| {
        let (mut u, mut w) = (set_up(&un, 1), set_up(&un, 1));
        let size = c.of(&[997usize, 300_000]);
        let mut at = 0;
        while at < n {
            let xs: Vec<f64> = (at..at + size).map(|i| un.round(shape(0, i))).collect();
            let mut b = xs.clone();
            let r = u.process_block(&mut b);
            for (i, x) in xs.iter().enumerate() {
                let y = w.process(*x);
                if !same(b[i], y) {
                    return Err(format!("in blocks of {}: sample {} came out as {}, one by one {}", size, at + i, b[i], y));
                }
            }
            if !same(r, w.last_out()) {
                return Err(format!("block ending at {} returned {}, one by one {}", at + size, r, w.last_out()));
            }
            at += size;
        }
        c.ops += at as u64;
        c.see(u.last_out());
        Ok(())
    });
}

fn c10_marathon(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    scenario(v, &un.show("marathon"), 1, move |c, _| {
        let mut u = un.fresh();
        for i in 0..n {
            let x = un.round(shape(0, i));
            let y = u.process(x);
            if !through(&un, x, y) {
                return Err(format!("unconfigured: sample {} = {} came out as {}", i, x, y));
            }
        }
        c.ops += n as u64;
        c.see(u.last_out());
        Ok(())
    });
}

fn c23_marathon(v: &mut Vec<Scenario>, un: Desc, n: usize) {
    if !un.lti {
        return;
    }
    scenario(v, &un.show("marathon"), 1, move |c, _| {
        // a scaled and a postponed copy of the stream run along
        let late = c.of(&[1usize, 1000]);
        let (mut u, mut w) = (set_up(&un, 1), set_up(&un, 1));
        for _ in 0..late {
            w.process(0.0);
        }
        for i in 0..n {
            let x = un.round(shape(0, i));
            let a = u.process(x);
            let b = w.process(x * 8.0);
            if b != a * 8.0 {
                return Err(format!("eight times the stream after {} zeros: sample {} is {} instead of {}", late, i, b, a * 8.0));
            }
        }
        c.ops += 2 * n as u64;
        c.see(u.last_out());
        Ok(())
    });
}

pub fn scenarios(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut w = vec![];
    let v = &mut w;
    let x = thorough as usize;
    let us = all();
    match id {
        "C06" => {
            for un in us {
                c06(v, un, 4 + (un.nextra == 0) as usize + x);
                c06_long(v, un, 200 + 2000 * x);
                c06_repeats(v, un);
                c06_hidden(v, un);
                c06_marathon(v, un, marathon(thorough));
            }
            let caps: &'static [usize] = if thorough {
                &[1, 2, 3, 5, 7, 8, 15, 16, 31, 33, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 299, 399, 480, 511, 512, 513, 767, 1000, 1023, 1024, 1025, 1499, 65535, 65537, 100000, 300000, 1048577]
            } else {
                &[1, 2, 3, 5, 8, 16, 33, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 399, 511, 512, 513, 65535, 65537, 100000, 300000]
            };
            c06_lines::<f32, Delay<f32>>(v, caps);
            c06_lines::<f64, Delay<f64>>(v, caps);
            c06_lines::<f32, LinearDelay<f32>>(v, caps);
            c06_lines::<f64, LinearDelay<f64>>(v, caps);
        }
        "C07" => {
            for un in us {
                c07(v, un, 5 + (un.nextra == 0) as usize + x);
                c07_long(v, un, 3000 + 60000 * x);
                c07_blocks(v, un);
                c07_marathon(v, un, marathon(thorough));
            }
        }
        "C08" => {
            for un in us {
                c08(v, un, 11 + 3 * x);
                c08_wild(v, un, 5 + x);
                c08_states(v, un, 4 + x);
                c08_hidden(v, un);
                c08_marathon(v, un, marathon(thorough));
                c08_sizes(v, un, 1100 + 1000 * x);
            }
            let caps: &'static [usize] = if thorough {
                &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 99, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 22050, 65535, 65536]
            } else {
                &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 33, 62, 63, 64, 65, 99, 127, 128, 255, 256, 511, 1000, 1023, 1024, 4095, 4096]
            };
            let every = if thorough { 130 } else { 66 };
            c08_lines::<f32, Delay<f32>>(v, caps, every);
            c08_lines::<f64, Delay<f64>>(v, caps, every);
            c08_lines::<f32, LinearDelay<f32>>(v, caps, every);
            c08_lines::<f64, LinearDelay<f64>>(v, caps, every);
        }
        "C10" => {
            for un in us {
                if un.name != "Delay" && un.name != "LinearDelay" {
                    c10(v, un, 5, if thorough { 32 } else { 27 });
                    c10_marathon(v, un, marathon(thorough));
                }
            }
        }
        "C22" => {
            for un in us {
                c22_same(v, un, if thorough || un.nextra == 0 && !un.resets { 3 } else { 2 });
                c22_threads(v, un, 5 + x);
                c22_channels(v, un, 600 + 5000 * x);
            }
            c22_processes(v);
            c22_calls(v);
            c22_totals(v, 120 + 400 * x, 70_000 + 1_000_000 * x);
            c22_windows::<f32>(v, 4 + x);
            c22_windows::<f64>(v, 4 + x);
        }
        "C23" => {
            for un in us {
                c23(v, un, 7 + x, 5 + x);
                c23_echo(v, un);
                c23_hidden(v, un);
                c23_marathon(v, un, marathon(thorough));
            }
        }
        _ => {}
    }
    w
}
