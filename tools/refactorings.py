# Edits that keep the behaviour (up to floating-point rounding where they re-associate sums).
R = []
def ref(id, checks, edits):
    R.append(dict(id=id, checks=checks.split(), edits=edits))
D, L = "src/delay/mod.rs", "src/delay/linear_delay.rs"
LINES = "C01 C02 C03 C04 C05 C06 C07 C08 C22 C23 C24"
DET = "C06 C07 C08 C10 C14 C15 C22 C24"

ref("leaky-two-products", "C06 C07 C08 C10 C15 C16 C22 C23 C24", [("src/analysis/leaky_integrator.rs",
 "    self.y_z1 = value + self.alpha * (self.y_z1 - value);\n",
 "    let keep = self.alpha * self.y_z1;\n    let take = (T::one() - self.alpha) * value;\n    self.y_z1 = keep + take;\n")])
ref("peak-two-products", DET, [("src/analysis/peak_detector.rs",
 "    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);\n",
 "    self.envelope = alpha * self.envelope + (T::one() - alpha) * input_envelope;\n")])
ref("rms-two-products", DET, [("src/analysis/rms_detector.rs",
 "    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);\n",
 "    self.envelope = a1 * self.envelope + (T::one() - a1) * input_envelope;\n")])
ref("detector-helper", DET, [("src/analysis/peak_detector.rs", """    let alpha =
      if self.envelope < input_envelope {
        self.attack_gain
      }
      else {
        self.release_gain
      };

    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
    self.envelope
""", """    let distance = self.envelope - input_envelope;
    self.envelope = input_envelope + self.gain_for(input_envelope) * distance;
    self.last_out()
"""), ("src/analysis/peak_detector.rs", """  /// Returns the internal release gain.
""", """  fn gain_for(&self, level: T) -> T {
    if level > self.envelope { self.attack_gain } else { self.release_gain }
  }

  /// Returns the internal release gain.
""")])
ref("biquad1-reassociated", "C06 C07 C08 C09 C10 C22 C23 C24", [("src/filter/biquad.rs", """    let output = self.b0 * sample
      + self.b1 * self.x_z1 + self.b2 * self.x_z2
      - self.a1 * self.y_z1 - self.a2 * self.y_z2;
""", """    let feed_forward = self.b0 * sample + (self.b1 * self.x_z1 + self.b2 * self.x_z2);
    let feed_back = self.a1 * self.y_z1 + self.a2 * self.y_z2;
    let output = feed_forward - feed_back;
""")])
ref("biquad1-fma", "C06 C07 C08 C09 C10 C22 C23 C24", [("src/filter/biquad.rs", """    let output = self.b0 * sample
      + self.b1 * self.x_z1 + self.b2 * self.x_z2
      - self.a1 * self.y_z1 - self.a2 * self.y_z2;
""", """    let mut output = self.b0 * sample;
    output = self.b1.mul_add(self.x_z1, output);
    output = self.b2.mul_add(self.x_z2, output);
    output = (-self.a1).mul_add(self.y_z1, output);
    output = (-self.a2).mul_add(self.y_z2, output);
""")])
ref("biquad2-reordered", "C06 C07 C08 C09 C10 C11 C12 C13 C22 C23 C24", [("src/filter/biquad.rs", """    self.output = self.b0 * sample + self.z1;
    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
""", """    let y = self.z1 + sample * self.b0;
    let (z1, z2) = (
      (self.b1 * sample - self.a1 * y) + self.z2,
      self.b2 * sample - self.a2 * y
    );
    self.z2 = z2;
    self.z1 = z1;
    self.output = y;
    y
""")])
ref("biquad2-block", "C06 C07 C08 C09 C10 C11 C12 C13 C22 C23 C24", [("src/filter/biquad.rs", """    self.output
  }

  fn clear(&mut self) {
    self.z1""", """    self.output
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    let (mut z1, mut z2, mut out) = (self.z1, self.z2, self.output);
    let (b0, b1, b2, a1, a2) = (self.b0, self.b1, self.b2, self.a1, self.a2);
    for sample in samples {
      let x = *sample;
      out = b0 * x + z1;
      z1 = b1 * x + z2 - a1 * out;
      z2 = b2 * x - a2 * out;
      *sample = out;
    }
    self.z1 = z1;
    self.z2 = z2;
    self.output = out;
    out
  }

  fn clear(&mut self) {
    self.z1""")])
ref("rbj-reciprocal", "C06 C10 C11 C12 C13 C23 C24", [("src/filter/rbj/lowshelf.rs", """    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;
""", """    let scale = one / a0;
    for c in [&mut b0, &mut b1, &mut b2, &mut a1, &mut a2].iter_mut() {
      **c = **c * scale;
    }
"""), ("src/filter/rbj/peak.rs", """    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;
""", """    let scale = a0.recip();
    b0 = b0 * scale;
    b1 = b1 * scale;
    b2 = b2 * scale;
    a1 = a1 * scale;
    a2 = a2 * scale;
"""), ("src/filter/rbj/highshelf.rs", "    let w0 = two * T::pi() * cutoff_frequency / sample_rate;\n", "    let w0 = two * T::pi() * (cutoff_frequency / sample_rate);\n"),
("src/filter/rbj/allpass.rs", "    let w0 = two * T::pi() * phase_frequency / sample_rate;\n", "    let w0 = (phase_frequency * two / sample_rate) * T::pi();\n")])
ref("rbj-direct-form", "C06 C07 C08 C10 C11 C12 C13 C22 C23 C24", [("src/filter/rbj/bandstop.rs", "use filter::Biquad2;\n", "use filter::Biquad1 as Section;\n"), ("src/filter/rbj/bandstop.rs", "  biquad: Biquad2<T>\n", "  biquad: Section<T>\n"), ("src/filter/rbj/bandstop.rs", "      biquad: Biquad2::<T>::new()\n", "      biquad: Section::<T>::new()\n")])
ref("window-hann-sine", "C17 C18 C19 C20 C22 C24", [("src/window/hann.rs", """    let numerator = two * T::pi() * index_float;

    half * (one - (numerator / size_minus_one).cos())
""", """    let angle = T::pi() * index_float / size_minus_one;
    let s = angle.sin();
    let _ = (one, two, half);
    s * s
""")])
ref("window-folded", "C17 C18 C19 C20 C22 C24", [("src/window/blackman.rs", "    let index_float    : T = num::cast(self.index).unwrap();\n", "    // symmetric: evaluate the first half only\n    let index_float    : T = num::cast(self.index.min(self.size - 1 - self.index)).unwrap();\n")])
ref("window-remaining", "C17 C18 C19 C20 C22 C24", [("src/window/hamming.rs", """    if self.index < self.size {
      let window_sample = self.generate_window();
      self.index += 1;
      Some(window_sample)
    }
    else {
      None
    }
""", """    if self.len() == 0 { return None; }
    let value = self.generate_window();
    self.index += 1;
    Some(value)
""")])
ref("window-nth", "C17 C18 C19 C20 C22 C24", [("src/window/bartlett.rs", """  fn next(&mut self) -> Option<T> {""", """  fn nth(&mut self, n: usize) -> Option<T> {
    self.index += n.min(self.size - self.index);
    self.next()
  }

  fn next(&mut self) -> Option<T> {""")])
ref("apply-window-helper", "C17 C18 C19 C20 C22 C24", [("src/window/mod.rs", """      let window = TriangularIter::<T>::new(samples.len());
      for (sample, window_gain) in samples.iter_mut().zip(window) {
        *sample = window_gain * *sample;
      }
""", """      let gains = TriangularIter::<T>::new(samples.len());
      scale_by(samples, gains);
"""), ("src/window/mod.rs", """      let window = HannIter::<T>::new(samples.len());
      for (sample, window_gain) in samples.iter_mut().zip(window) {
        *sample = window_gain * *sample;
      }
""", """      let mut gains = HannIter::<T>::new(samples.len());
      let mut i = 0;
      while i < samples.len() {
        samples[i] = samples[i] * gains.next().unwrap();
        i += 1;
      }
"""), ("src/window/mod.rs", "pub fn apply_window<T", """fn scale_by<T: Float, I: Iterator<Item = T>>(samples: &mut [T], gains: I) {
  for (sample, gain) in samples.iter_mut().zip(gains) {
    *sample = *sample * gain;
  }
}

/// Applies a window in place.
pub fn apply_window<T""")])
ref("util-exp", "C21 C24", [("src/util/mod.rs", "    ten.powf(db_value / twenty)\n", "    (db_value / twenty * ten.ln()).exp()\n")])
ref("util-log", "C21 C24", [("src/util/mod.rs", "    twenty * sample.log10()\n", "    let ten: T = num::cast(10f64).unwrap();\n    twenty * (sample.ln() / ten.ln())\n")])
ref("util-early-return", "C21 C24", [("src/util/mod.rs", """  if sample > num::cast(1e-6f64).unwrap() && sample.is_finite() {
    let twenty: T = num::cast(20f64).unwrap();
    twenty * sample.log10()
  }
  else {
    num::cast(-120f64).unwrap()
  }
""", """  let floor: T = num::cast(1e-6f64).unwrap();
  if !(sample > floor) || sample.is_infinite() {
    return -num::cast::<f64, T>(120f64).unwrap();
  }
  sample.log10() * num::cast(20f64).unwrap()
""")])
ref("trait-block-loop", "C06 C07 C08 C10 C22 C24", [("src/traits.rs", """    for sample in samples.iter_mut() {
      *sample = self.process(*sample);
    }
    self.last_out()
""", """    let mut i = 0;
    while i < samples.len() {
      let input = samples[i];
      samples[i] = self.process(input);
      i += 1;
    }
    match samples.last() {
      Some(last) => *last,
      None => self.last_out()
    }
""")])
ref("delay-counter", LINES, [(D, "  output: T,\n  read_ptr", "  output: T,\n  total: u64,\n  read_ptr"), (D, "        output: num::zero(),\n", "        output: num::zero(),\n        total: 0,\n"), (D, "    // write input sample into memory\n", "    self.total = self.total.wrapping_add(1);\n    // write input sample into memory\n")])
ref("linear-counter", LINES, [(L, "  output: T,\n  read_ptr", "  output: T,\n  total: u64,\n  read_ptr"), (L, "        output: num::zero(),\n", "        output: num::zero(),\n        total: 0,\n"), (L, "    // write input sample into memory\n", "    self.total = self.total.wrapping_add(1);\n    // write input sample into memory\n")])
ref("delay-slot-helper", LINES, [(D, """  fn tap_out(&self, tap_delay: usize) -> T {
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize]
""", """  fn tap_out(&self, tap_delay: usize) -> T {
    self.memory[self.slot(tap_delay)]
"""), (D, """  /// Returns the value that will be output by the next call to `tick()`.
""", """  fn slot(&self, age: usize) -> usize {
    let len = self.memory.len();
    (self.write_ptr + len - 1 - age) % len
  }

  /// Returns the value that will be output by the next call to `tick()`.
""")])
ref("linear-lerp", LINES, [(L, """      // First half of interpolation
      self.next_out = self.memory[self.read_ptr] * self.om_alpha;
      // Second half
      if self.read_ptr < self.memory.len() - 1 {
        self.next_out = self.next_out
                      + (self.memory[self.read_ptr + 1] * self.alpha);
      }
      else {
        self.next_out = self.next_out + (self.memory[0] * self.alpha);
      }
""", """      let first = self.memory[self.read_ptr];
      let second = self.memory[(self.read_ptr + 1) % self.memory.len()];
      self.next_out = first + (second - first) * self.alpha;
""")])
ref("linear-no-memo", LINES, [(L, "    if self.do_next_out {\n", "    {\n")])
ref("linear-f64-position", LINES, [(L, """    let delay_ceil = delay_time.ceil();
    let mut whole_delay = delay_ceil as usize;
    if whole_delay > self.memory.len() - 1 {
      whole_delay = self.memory.len() - 1;
    }

    // save integer part
    if self.write_ptr >= whole_delay {
      self.read_ptr = self.write_ptr - whole_delay;
    }
    else {
      self.read_ptr = self.memory.len() + self.write_ptr - whole_delay;
    }

    // save fractional part
    self.alpha = num::cast(delay_ceil - delay_time).unwrap();
""", """    let mut position = self.write_ptr as f64
                     - (delay_time as f64).min((self.memory.len() - 1) as f64);
    if position < 0f64 {
      position += self.memory.len() as f64;
    }
    self.read_ptr = position.floor() as usize % self.memory.len();
    self.alpha = num::cast(position - position.floor()).unwrap();
""")])
ref("linear-floor-split", LINES, [(L, """    let delay_ceil = delay_time.ceil();
    let mut whole_delay = delay_ceil as usize;
    if whole_delay > self.memory.len() - 1 {
      whole_delay = self.memory.len() - 1;
    }

    // save integer part
    if self.write_ptr >= whole_delay {
      self.read_ptr = self.write_ptr - whole_delay;
    }
    else {
      self.read_ptr = self.memory.len() + self.write_ptr - whole_delay;
    }

    // save fractional part
    self.alpha = num::cast(delay_ceil - delay_time).unwrap();
    self.om_alpha = T::one() - self.alpha;
""", """    let len = self.memory.len();
    let fraction = delay_time.fract();
    let mut whole_delay = delay_time.trunc() as usize;
    if fraction > 0f32 { whole_delay += 1; }
    let whole_delay = ::std::cmp::min(whole_delay, len - 1);
    self.read_ptr = (self.write_ptr + len - whole_delay) % len;
    self.om_alpha = if fraction > 0f32 { num::cast(fraction).unwrap() } else { T::one() };
    self.alpha = T::one() - self.om_alpha;
""")])
ref("delay-copy-clear", LINES, [(D, """    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
""", """    let len = self.memory.len();
    self.memory = vec![num::zero(); len];
    self.write_ptr = 0;
    self.output = num::zero();
    let delay = self.delay;
    self.set_delay(delay);
""")])
ref("delay-deque", LINES, [(D, "  memory: Vec<T>,\n", "  memory: ::std::collections::VecDeque<T>,\n"), (D, "vec![num::zero(); max_delay + 1]", "(0..max_delay + 1).map(|_| num::zero()).collect()"),
 (D, """      let old_len = self.memory.len();
      self.memory.rotate_left(self.write_ptr);
      self.memory.resize(delay + 1, num::zero());
      self.write_ptr = old_len;
""", """      while self.memory.len() <= delay { self.memory.push_front(num::zero()); }
"""), (D, """    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();

    // read and return next sample in delay line
    self.output = self.memory[self.read_ptr];
    self.read_ptr += 1;
    self.read_ptr %= self.memory.len();
    self.output
""", """    self.memory.pop_front();
    self.memory.push_back(sample);
    self.output = self.memory[self.memory.len() - 1 - self.delay];
    self.output
""")] + [(D, """    self.memory[self.read_ptr]
  }
""", """    if self.delay == 0 { return self.memory[0]; }
    self.memory[self.memory.len() - self.delay]
  }
""")])
RBJ = "C06 C07 C08 C10 C11 C12 C13 C23 C24"
ref("window-chebyshev", "C17 C18 C19 C24", [("src/window/blackman_harris.rs", "    a0 - a1 * (theta).cos() + a2 * (two * theta).cos() - a3 * (three * theta).cos()\n", """    let four: T = num::cast(4f64).unwrap();
    let c = theta.cos();
    let c2 = two * c * c - T::one();
    let c3 = four * c * c * c - three * c;
    a0 - a1 * c + a2 * c2 - a3 * c3
""")])
ref("window-bartlett-integer", "C17 C18 C19 C20 C24", [("src/window/bartlett.rs", """    let one: T = T::one();
    let two: T = T::two();
    let index_float    : T = num::cast(self.index).unwrap();
    let size_minus_one : T = num::cast(self.size - 1).unwrap();

    let alpha     = size_minus_one / two;
    let numerator = index_float - alpha;

    one - (numerator / alpha).abs()
""", """    let two: T = T::two();
    let last = self.size - 1;
    let edge: T = num::cast(if self.index < last - self.index { self.index } else { last - self.index }).unwrap();
    let last: T = num::cast(last).unwrap();
    two * edge / last
""")])
ref("window-triangular-integer", "C17 C18 C19 C20 C24", [("src/window/triangular.rs", """    one - (numerator / denominator).abs()
""", """    if numerator < T::zero() { one + numerator / denominator } else { one - numerator / denominator }
""")])
ref("rbj-half-angle", RBJ, [("src/filter/rbj/lowpass.rs", """    let cos_w0  = w0.cos();
    let alpha   = w0.sin() / (two * q);

    let mut b0  = (one - cos_w0) / two;
    let mut b1  =  one - cos_w0;
""", """    let (sin_w0, cos_w0) = w0.sin_cos();
    let alpha   = sin_w0 / (two * q);
    let half = (w0 / two).sin();

    let mut b0  = half * half;
    let mut b1  = two * b0;
""")])
ref("rbj-exp-gain", RBJ, [("src/filter/rbj/peak.rs", "    let a  = ten.powf(db_gain / forty);\n    let w0 = two * T::pi() * center_frequency / sample_rate;\n", "    let a  = (db_gain * (ten.ln() / forty)).exp();\n    let w0 = T::pi() * (center_frequency / (sample_rate / two));\n")])
ref("rbj-helper", RBJ, [("src/filter/rbj/highshelf.rs", """    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;

    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
  }
}
""", """    {
      let cs = [&mut b0, &mut b1, &mut b2, &mut a1, &mut a2];
      for k in 0..5 { *cs[k] = *cs[k] / a0; }
    }
    self.install(b0, b1, b2, a1, a2);
  }

  fn install(&mut self, b0: T, b1: T, b2: T, a1: T, a2: T) {
    self.biquad = Biquad2::<T>::new();
    self.biquad.b0 = b0;
    self.biquad.b1 = b1;
    self.biquad.b2 = b2;
    self.biquad.a1 = a1;
    self.biquad.a2 = a2;
  }
}
""")])
ref("rbj-inline", RBJ + " C22", [("src/filter/rbj/highpass.rs", "    self.biquad.process(sample)\n", """    let f = &mut self.biquad;
    let y = f.process(sample);
    y
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    self.biquad.process_block(samples)
""")])
ref("detector-recip", "C06 C14 C15 C24", [("src/analysis/rms_detector.rs", "      self.attack_gain = (-T::one() / attack_length).exp();\n", "      self.attack_gain = T::one() / (T::one() / attack_length).exp();\n"), ("src/analysis/rms_detector.rs", "      self.release_gain = (-T::one() / release_length).exp();\n", "      let rate = release_length.recip();\n      self.release_gain = (-rate).exp();\n")])
ref("rms-cached-output", DET, [("src/analysis/rms_detector.rs", "  envelope: T,\n}", "  envelope: T,\n  output: T,\n}"), ("src/analysis/rms_detector.rs", "      envelope: num::zero()\n", "      envelope: num::zero(),\n      output: num::zero()\n"),
 ("src/analysis/rms_detector.rs", "    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);\n    self.envelope.sqrt()\n  }\n\n  fn clear(&mut self) {\n", "    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);\n    self.output = self.envelope.sqrt();\n    self.output\n  }\n\n  fn clear(&mut self) {\n    self.output = num::zero();\n"),
 ("src/analysis/rms_detector.rs", "  fn last_out(&self) -> T {\n    self.envelope.sqrt()\n", "  fn last_out(&self) -> T {\n    self.output\n")])
ref("leaky-guard", "C10 C15 C16 C24", [("src/analysis/leaky_integrator.rs", "    if gain >= num::zero() && gain < num::one() {\n      self.alpha = gain;\n    }\n", "    if gain.is_nan() || gain < num::zero() || gain >= num::one() { return; }\n    self.alpha = gain;\n")])
ref("twozero-array", "C06 C07 C08 C09 C10 C23 C24", [("src/filter/two_pole.rs", """    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
    self.y_z2 = self.y_z1;
    self.y_z1 = output;
    output
""", """    let fed_back = self.a1 * self.y_z1 + self.a2 * self.y_z2;
    let previous = ::std::mem::replace(&mut self.y_z1, self.b0 * sample - fed_back);
    self.y_z2 = previous;
    self.y_z1
""")])
ref("line-masked", LINES, [(D, "    self.write_ptr += 1;\n    self.write_ptr %= self.memory.len();\n", "    self.write_ptr = if self.write_ptr + 1 == self.memory.len() { 0 } else { self.write_ptr + 1 };\n"), (D, "    self.read_ptr += 1;\n    self.read_ptr %= self.memory.len();\n", "    self.read_ptr = if self.read_ptr + 1 == self.memory.len() { 0 } else { self.read_ptr + 1 };\n"),
 (L, "    self.write_ptr += 1;\n    self.write_ptr %= self.memory.len();\n", "    self.write_ptr = (self.write_ptr + 1) % self.memory.len();\n"), (L, "    let mut delay_time = delay;\n    let max_delay_samples = (self.memory.len() - 1) as f32;\n    if delay_time > max_delay_samples {\n      delay_time = max_delay_samples;\n    }\n    if delay_time < 0f32 {\n      delay_time = 0f32;\n    }\n", "    let max_delay_samples = (self.memory.len() - 1) as f32;\n    let delay_time = if delay.is_nan() { delay } else { delay.max(0f32).min(max_delay_samples) };\n")])
ref("util-shared", "C21 C24", [("src/util/mod.rs", "    twenty * sample.log10()\n", "    sample.log10() * twenty\n"), ("src/util/mod.rs", "    ten.powf(db_value / twenty)\n", "    let exponent = db_value * twenty.recip();\n    ten.powf(exponent)\n")])

ref("delay-grow-fresh", LINES, [(D, """      self.memory.rotate_left(self.write_ptr);
      self.memory.resize(delay + 1, num::zero());
      self.write_ptr = old_len;
""", """      let mut grown = vec![num::zero(); delay + 1 - old_len];
      grown.extend((0..old_len).map(|i| self.memory[(self.write_ptr + i) % old_len]));
      self.memory = grown;
      self.write_ptr = 0;
"""), (L, """    self.memory.rotate_left(self.write_ptr);
    self.memory.resize(delay + 1, num::zero());
    self.write_ptr = old_len;
""", """    let newer: Vec<T> = self.memory.drain(..self.write_ptr).collect();
    self.memory.extend(newer);
    debug_assert!(self.memory.len() == old_len);
    while self.memory.len() <= delay {
      self.memory.push(num::zero());
    }
    self.write_ptr = old_len;
""")])
ref("line-clear-resets", LINES, [(D, """    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
""", """    let max_delay = self.get_max_delay();
    *self = Delay::new(self.delay, max_delay);
"""), (L, """    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
    self.do_next_out = true;
""", """    let len = self.memory.len();
    self.memory = vec![num::zero(); len];
    self.output = num::zero();
    self.next_out = num::zero();
    self.write_ptr = 0;
    let delay = self.delay;
    self.set_delay(delay);
""")])
ref("block-for-each", "C01 C02 C06 C07 C08 C10 C22 C24", [("src/traits.rs", """    for sample in samples.iter_mut() {
      *sample = self.process(*sample);
    }
    self.last_out()
""", """    let mut i = 0;
    while i < samples.len() {
      let input = samples[i];
      samples[i] = self.process(input);
      i += 1;
    }
    self.last_out()
""")])
ref("biquad-histories", "C06 C07 C08 C09 C10 C22 C23 C24", [("src/filter/biquad.rs", """    let output = self.b0 * sample
      + self.b1 * self.x_z1 + self.b2 * self.x_z2
      - self.a1 * self.y_z1 - self.a2 * self.y_z2;
""", """    let forward = [(self.b0, sample), (self.b1, self.x_z1), (self.b2, self.x_z2)];
    let back = [(self.a1, self.y_z1), (self.a2, self.y_z2)];
    let output = forward.iter().fold(T::zero(), |sum, &(b, x)| sum + b * x)
               - back.iter().fold(T::zero(), |sum, &(a, y)| sum + a * y);
"""), ("src/filter/biquad.rs", """    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
""", """    let output = self.output;
    let z2 = ::std::mem::replace(&mut self.z2, self.b2 * sample - self.a2 * output);
    self.z1 = z2 + (self.b1 * sample - self.a1 * output);
""")])
ref("detector-match", DET, [("src/analysis/peak_detector.rs", "    let input_envelope = sample.abs();\n", "    let input_envelope = if sample < T::zero() { -sample } else { sample + T::zero() };\n"), ("src/analysis/rms_detector.rs", "      if self.envelope < input_envelope {\n        self.attack_gain\n      }\n      else {\n        self.release_gain\n      };\n", "      if input_envelope > self.envelope { self.attack_gain } else { self.release_gain };\n")])
