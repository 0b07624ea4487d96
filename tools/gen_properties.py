#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
D, L = "src/delay/mod.rs", "src/delay/linear_delay.rs"
HOOK = "cfg(rasp_verif): derive(Clone, Debug) on the delay lines, so that real states can be copied and compared"
p("C01", "An integer delay line delays by exactly its reported delay",
  "Whatever sequence of processing, delay changes, clearing, tap edits, peeks and capacity growth came before, each sample processed by an integer delay line returns the sample fed exactly `get_delay()` samples earlier (with a delay of 0: the sample just fed). Samples from before the start or the last clear count as zero. This holds for any capacity, including 0, and after any number of wrap-arounds.",
  ["histories", "inputs"], "every operation history, every capacity and delay, every sample value, f32 and f64",
  "The tests feed one impulse through one delay (4 of 4095) and never wrap the ring, change the delay with samples in flight, or grow it.",
  [D], [("ring buffer with read pointer trailing the write pointer by the delay", "src/delay/mod.rs: set_delay, process")],
  ["return value of process()", "get_delay()"],
  [dict(name="memory/read_ptr/write_ptr", meaning="ring contents and positions", where=D)], HOOK)
p("C02", "A linear delay line interpolates at exactly its reported delay",
  "Whatever operations came before, each sample processed by a linear-interpolating delay line returns the linear interpolation, at distance `get_delay()` samples into the past, between the two neighbouring fed samples (equal to the integer delay when the delay is whole), to within single-precision rounding of the delay position. Samples from before the start or the last clear count as zero. This holds for every delay from zero, however small, up to the capacity, and after any number of wrap-arounds, also in lines longer than single precision can count (2^24 samples).",
  ["histories", "inputs"], "every operation history, every capacity, every real-valued delay in range, every finite sample value, f32 and f64",
  "The tests run one impulse through delays 4 and 2.5 on a fresh line; no delay change in flight, no wrap, no delay near an integer or zero.",
  [L], [("fractional read position split into integer pointer and interpolation weights", "src/delay/linear_delay.rs: set_delay, next_out, process")],
  ["return value of process()", "get_delay()"],
  [dict(name="alpha/om_alpha", meaning="interpolation weights", where=L)], HOOK)
p("C03", "Delay-line taps address exactly the sample fed k samples ago",
  "On both delay lines, for every tap position k from 0 to the maximum delay and at every point of any history, reading tap k returns the stored sample fed k samples before the most recent one. Writing or adding at tap k changes that stored sample and nothing else (adding returns the new value). Later tap reads and later outputs see the edited value.",
  ["histories", "inputs"], "every history, every capacity, every tap position in 0..=max delay, both delay lines, f32 and f64",
  "The tests tap positions 0..3 of a 4095-sample line right after construction; never across the wrap point, never at the last position.",
  [D, L], [("tap index computed from the write pointer with wrap", "src/delay/mod.rs, src/delay/linear_delay.rs: tap_out, tap_in, add_to")],
  ["tap_out()", "add_to() result", "later process() outputs"], None, HOOK)
p("C04", "Delay requests are clipped and growing capacity preserves the line",
  "On both delay lines the reported delay is always the last requested delay clipped into 0..=maximum at the time of the request, and the maximum delay never shrinks: a larger request raises it, any other is ignored. Raising the maximum at any moment keeps every stored sample at its age and keeps the line delaying by the same reported delay; ages never stored before read as zero.",
  ["histories", "inputs"], "every history with delay and capacity requests at any point (including mid-wrap), out-of-range, negative and infinite requests, both delay lines",
  "Growing the capacity is not called by any test, and clipping is tested on a fresh line only.",
  [D, L], [("clipping in new/set_delay", "src/delay/*.rs"), ("resize in set_max_delay", "src/delay/*.rs: set_max_delay")],
  ["get_delay()", "get_max_delay()", "process() outputs and taps after growth"], None, HOOK)
p("C05", "Peeking at a delay line predicts the next output and changes nothing",
  "On both delay lines, when the delay is at least one sample, the peeked next output equals what the next processed sample returns, whatever that sample is and whatever operations (delay change, tap edit, clear, growth, earlier peeks) came before. Peeking any number of times at any point, with any delay, never changes any later output, tap or reported value.",
  ["histories"], "every history of finite samples with peeks inserted anywhere, both delay lines, f32 and f64",
  "The tests only peek at a fresh, silent line.",
  [D, L], [("memoised interpolation result", "src/delay/linear_delay.rs: do_next_out/next_out")],
  ["next_out()", "later process() outputs"],
  [dict(name="do_next_out/next_out", meaning="memo of the next output", where=L)], HOOK)
ALLP = ["src/traits.rs", "src/filter/biquad.rs", "src/filter/one_pole.rs", "src/filter/one_zero.rs", "src/filter/two_pole.rs", "src/filter/two_zero.rs", "src/filter/rbj", D, L, "src/analysis"]
p("C06", "Clearing a processor makes it indistinguishable from a fresh one",
  "For every processor (all basic filters, RBJ filters, delay lines, integrator and detectors), after any history followed by clear, the last output reads zero and all later outputs, tap reads and last outputs are those of a newly created processor given the same parameter settings. This holds also when the history contained infinities or NaN. Clearing never changes the parameters.",
  ["histories", "inputs"], "every processor type, every history of samples and parameter changes before the clear, every input after it",
  "Tests clear after one history per type and mostly look at one later output; several types have no clear test.",
  ALLP, [("clear() zeroing each memory", "every Processor impl")], ["process() and last_out() after clear()"])
p("C07", "The last output always reads back the most recently computed sample",
  "For every processor and at every point of any history, the last output equals the value returned by the most recent processing call (the last sample of a block), and is zero when nothing was processed since creation, clearing, or an RBJ coefficient change. Parameter changes on other processors, tap edits, peeks and reads leave it unchanged.",
  ["histories"], "every processor type, every interleaving of processing, blocks, clears, parameter changes and reads",
  "Only the integrator and detectors have a last-output test, for one sample.",
  ALLP, [("output/y_z1/envelope fields", "every Processor impl: last_out")], ["last_out()"])
p("C08", "Block processing equals sample-by-sample processing for any split",
  "For every processor, processing a stream in consecutive blocks of any sizes, including empty and single-sample blocks, writes in place exactly the samples that one-by-one processing returns and leaves the processor in the same state. Each block call returns the last output computed so far, and never panics.",
  ["inputs", "histories"], "every processor type, every stream and every split of it into blocks, from any starting state",
  "Tests process one five-sample block on the basic filters; never split a stream, never an empty block, never on RBJ filters, delays or detectors.",
  ["src/traits.rs"], [("default process_block loop", "src/traits.rs: Processor::process_block")], ["block contents and return value", "later outputs"])
F = ["src/filter/biquad.rs", "src/filter/one_pole.rs", "src/filter/one_zero.rs", "src/filter/two_pole.rs", "src/filter/two_zero.rs"]
p("C09", "Basic filters compute their documented difference equations",
  "For every coefficient set and input stream, the one/two-pole, one/two-zero and both biquad filters output exactly their documented difference equation (up to floating-point rounding). Coefficients may be changed at any point, all at once or one public coefficient at a time: the new values apply from the next sample and the stored history is kept. With unchanging coefficients the two biquad forms produce the same signal.",
  ["inputs", "histories"], "every coefficient vector, every input stream, every sequence of mid-stream coefficient changes, f32 and f64",
  "Each filter is tested with one coefficient vector on one five-sample input in f32.",
  F, [("process()", "each filter file"), ("set_coefficients()", "each filter file")], ["process() outputs"])
p("C10", "Unconfigured processors pass the signal through unchanged",
  "Until coefficients, gains or times are set, every basic filter, every RBJ filter and the leaky integrator return each finite sample of ordinary magnitude unchanged, and the peak and RMS detectors return its absolute value (RMS up to rounding). This holds for every stream, at any length, also after clearing.",
  ["inputs", "histories"], "every stream of finite samples (magnitude at most 1e18), all filters and analysis processors, f32 and f64",
  "Each type is tested with one sample or five.",
  F + ["src/filter/rbj", "src/analysis", "tests/lib.rs"], [("default coefficients in new()", "each processor")], ["process() outputs"])
R = ["src/filter/rbj/%s.rs" % n for n in ("lowpass", "highpass", "bandpass", "bandstop", "allpass", "peak", "lowshelf", "highshelf")]
p("C11", "RBJ filters realise the Audio EQ Cookbook responses",
  "For every sample rate, frequency strictly between zero and half the rate, positive Q, gain in dB and shelf slope in (0,1], each RBJ filter's output is that of the Audio EQ Cookbook design of its type, to within floating-point rounding. In particular low-pass/high-pass have unit gain at DC/Nyquist, reject the other end and have gain Q at cutoff; band-pass peaks at Q or at 1; band-stop rejects its centre; all-pass has unit gain everywhere; peak and shelves apply the requested gain exactly in their band and unit gain away from it.",
  ["inputs", "configurations"], "every valid (sample rate, frequency, Q or slope, gain), all nine designs, f32 (frequency at least 1/1000 of the rate) and f64",
  "Only low-pass and high-pass have value tests, at one parameter point each; the others are only tested to change the signal.",
  R + ["src/filter/biquad.rs"], [("coefficient formulas", "src/filter/rbj/*.rs: set_coefficients")], ["impulse response", "measured frequency response"])
p("C12", "RBJ filters are stable for every valid parameter setting",
  "For every valid sample rate, frequency, Q, gain and slope, feeding any bounded signal to an RBJ filter yields finite, bounded outputs, and once the input returns to silence the output decays to zero.",
  ["inputs", "configurations"], "every valid parameter setting, bounded inputs including the worst-case sign pattern, f32 (frequency at least 1/1000 of the rate) and f64",
  "No test runs an RBJ filter for more than five samples.",
  R + ["src/filter/biquad.rs"], [("normalisation by a0 keeps the poles inside the unit circle", "src/filter/rbj/*.rs")], ["long process() runs"])
p("C13", "Reconfiguring an RBJ filter depends only on the new parameters",
  "After setting an RBJ filter's parameters, whatever was set or processed before (including the same parameters, one changed parameter, or non-finite samples), the filter behaves from then on exactly like a new filter given those parameters: memory of earlier input and output is gone and no earlier parameter lingers.",
  ["histories", "configurations"], "every RBJ type, every pair of consecutive parameter settings, every history before the change",
  "Tests configure each filter once on a fresh or cleared instance.",
  R, [("set_coefficients recomputes everything and clears", "src/filter/rbj/*.rs")], ["process() and last_out() after set_coefficients()"])
A = ["src/analysis/peak_detector.rs", "src/analysis/rms_detector.rs"]
p("C14", "Envelope detectors follow their input with the set attack and release",
  "For every history of finite samples (whose squares are finite too) and time changes, the envelope after each sample moves from its previous value towards the input level (the absolute value for peak, the square under the root for RMS), leaving the fraction exp(-1/length) of the distance, with the attack length when the level is above the envelope and the release length otherwise. Hence the output is never negative, NaN or above the largest level seen since clearing, and changing one time constant never affects the other or the current envelope.",
  ["inputs", "histories"], "every stream of finite samples whose squares are finite, every attack/release setting and change at any point, f32 and f64",
  "The tests process a single sample per detector and never the release branch.",
  A, [("attack/release selection and one-pole update", "src/analysis/*_detector.rs: process")], ["process() outputs", "gain getters"])
p("C15", "Invalid time constants and gains are rejected without side effects",
  "Setting a detector's attack or release length, or the integrator's alpha, changes only that setting, and only when the value is valid: lengths must be finite and greater than zero, alpha must be at least 0 and less than 1. Any other value (zero or negative lengths, infinities, NaN, alpha of 1 or more) leaves every setting, the envelope and later outputs exactly as they were. After any sequence of calls every gain lies in 0..=1 and, for a valid length, equals exp(-1/length).",
  ["inputs", "histories"], "every representable argument value, after any history",
  "The tests try four invalid values per setter.",
  A + ["src/analysis/leaky_integrator.rs"], [("argument guards", "set_attack, set_release, set_alpha")], ["gain getters", "later outputs"])
p("C16", "The leaky integrator averages with complementary gains",
  "For every alpha in [0,1) and every stream of finite samples of ordinary magnitude, each output equals (1 - alpha) times the sample plus alpha times the previous output, up to rounding, with alpha changes applying from the next sample on and the stored output kept. So every output lies between the previous output and the sample, and a constant input is approached monotonically.",
  ["inputs", "histories"], "every alpha, every stream of finite samples (magnitude at most 1e18) and every sequence of alpha changes and clears, f32 and f64",
  "The tests run a constant input at alpha 0.5 for five samples.",
  ["src/analysis/leaky_integrator.rs"], [("y = x + alpha*(y - x)", "src/analysis/leaky_integrator.rs: process")], ["process() outputs"])
W = ["src/window/%s.rs" % n for n in ("bartlett", "blackman", "blackman_harris", "hamming", "hann", "triangular")]
p("C17", "Window iterators generate the named window at every size",
  "For every size, the Triangular, Bartlett, Hann, Hamming, Blackman and Blackman-Harris iterators yield the textbook symmetric window of that size, up to floating-point rounding. The values are symmetric about the centre, never NaN, within 0..=1 up to rounding, rise to the centre, and the window of size 1 is the single value 1.",
  ["inputs"], "every window type and every size, f32 and f64",
  "Tests compare sizes 3, 5, 6 and 7 in f32.",
  W, [("generate_window()", "src/window/*.rs")], ["values yielded by the iterator"])
p("C18", "Window iterators obey the iterator and exact-size contracts",
  "A window iterator of size N yields exactly N values and then none, forever. At every point of its consumption, by any mix of stepping and skipping, its reported length and both bounds of its size hint equal the number of values still to come, and the k-th value is the same however it is reached.",
  ["inputs", "histories"], "every window type, every size, every sequence of iterator calls",
  "Tests ask for the length of a fresh iterator only.",
  W, [("index/size counters", "src/window/*.rs: next, len")], ["next/nth/len/size_hint/collect"])
p("C19", "Applying a window scales each sample by its own window value",
  "Applying a window to a slice of any length, including 0 and 1, replaces each sample by itself times the value of the requested window of exactly that length at the same position, and the rectangular window leaves every sample bit-for-bit unchanged.",
  ["inputs"], "every window kind, every slice length and content, f32 and f64",
  "Tests apply windows to all-ones slices of lengths 3, 5, 6 and 7.",
  ["src/window/mod.rs"] + W, [("apply_window dispatch and zip", "src/window/mod.rs")], ["slice contents after apply_window"])
p("C20", "Half-overlapped windows sum to a constant",
  "When two copies of a window are overlapped by half its period, the sum is uniform: 1 for Bartlett and Hann and 1.08 for Hamming at every odd size of at least 3 shifted by (size-1)/2, and 1 for Triangular at every even size shifted by half the size.",
  ["inputs"], "every size of the stated parity, every position of the overlap, f32 and f64",
  "The property is only stated in a source comment; no test adds two windows.",
  ["src/window/mod.rs"] + [w for w in W if any(k in w for k in ("bartlett", "hann", "hamming", "triangular"))], [("generate_window()", "src/window/*.rs")], ["iterator values", "apply_window"])
p("C21", "Decibel and gain conversions are floored, monotone and inverse",
  "For every non-negative sample, conversion to decibels gives 20*log10 of it when it is finite and above 1e-6 and exactly -120 otherwise (also for NaN and infinity), and conversion back gives 10^(dB/20) above -120 dB and exactly 0 at or below it or when not finite. Both are non-decreasing over finite arguments, to within rounding, and undo each other to within rounding above the floor. Applying a gain returns the exact product of sample and ratio.",
  ["inputs"], "every representable non-negative f32 sample, every f32 dB value, and a lattice of f64 values",
  "Tests try about a dozen powers of ten.",
  ["src/util/mod.rs"], [("threshold and log10/powf", "src/util/mod.rs: to_db, to_sample, apply_gain")], ["return values"])
p("C22", "Processor instances are isolated from each other and from threads",
  "Interleaving operations on any number of processor instances, of the same or different types, in any order and on any threads, gives each instance exactly the results it would give when used alone. In particular channels of a multi-channel stream never leak into each other and moving a processor to another thread changes nothing.",
  ["schedules", "histories"], "every interleaving of operation sequences on two instances, every assignment of operations to two threads",
  "No test uses two live instances of one processor, or threads.",
  ALLP + ["src/window", "src/util/mod.rs"], [("all state is owned by the instance; no globals", "whole crate")], ["per-instance outputs under interleaving"])
p("C23", "Filters and delay lines are linear and time-invariant",
  "For fixed parameters, every basic filter, RBJ filter, delay line and the leaky integrator is linear and time-invariant on streams of ordinary magnitude: scaling the input by a power of two scales the output exactly, negating it negates the output, the response to a sum of streams is the sum of the responses up to rounding, and leading silence only postpones the output.",
  ["inputs"], "every processor of these kinds, every pair of streams, every scale between 2^-40 and 2^40, any amount of leading silence, f32 and f64",
  "Tests never compare two runs of the same processor.",
  F + ["src/filter/rbj", D, L, "src/analysis/leaky_integrator.rs"], [("process() uses only products with coefficients and sums", "each processor")], ["process() outputs of related runs"])
p("C24", "No public operation panics, overflows or hangs, and processors recover",
  "Every public call returns normally, with overflow checks on or off, in any order and for any arguments: any sample (infinities and NaN included), any coefficients, RBJ parameters, time constants and alphas (zero, negative, extreme or non-finite), any delay request, any capacity that fits in memory, any block, slice or window size and any skip. Only a tap beyond the maximum delay, a negative sample given to `to_db`, and a negative or non-finite ratio given to `apply_gain` are outside the contract. After any such calls, clearing the processor and setting valid parameters makes it behave exactly like a new one with those parameters (and that capacity).",
  ["inputs", "histories"], "every public operation, every argument value, every sequence of such calls, all processors, windows and conversions, f32 and f64",
  "The tests call almost every operation with one or two ordinary arguments.",
  ALLP + ["src/window", "src/util/mod.rs"], [("clipping, wrapping and index arithmetic", "src/delay, src/window"), ("parameters recomputed from scratch by every setter", "each processor")],
  ["normal return of every call", "outputs after recovery"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
