#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hook"], capture_output=True, text=True).stdout.split()
FIX = "explicit-state search of all reachable (implementation, model) states to a fixpoint, plus stateless exhaustive enumeration of operation histories on the real code"
SEQ = "stateless exhaustive enumeration of operation histories on the real code against a reference model"
NOTE = {
 "C01": (FIX, "All reachable states for capacities up to the bound (histories of any length); all histories to depth 5 for other alphabets; every event position around the wrap for larger capacities. Real code, both sample types."),
 "C02": (FIX, "As C01 for the interpolating line, with quarter-sample, tiny and near-integer delays."),
 "C03": (FIX, "All taps read after every operation of every history; fixpoint over small capacities."),
 "C04": (FIX, "Every growth and clip request at every point of every history within bounds; fixpoint over small capacities."),
 "C05": (FIX, "Peeks inserted anywhere in every history within bounds; the run with peeks is compared with the model, which has none."),
 "C06": (SEQ, "All 40 processor/sample-type pairs, every history to the depth bound over an alphabet with non-finite and tiny samples, then compared exactly with a fresh twin."),
 "C07": (SEQ, "All 40 processor/sample-type pairs, every history to the depth bound."),
 "C08": (SEQ, "Every split of a stream into blocks with empty blocks anywhere; every block size up to the bound; every short block content."),
 "C09": (SEQ, "Every coefficient vector over an alphabet times every short stream; every sequence of samples and coefficient changes to the depth bound; long streams."),
 "C10": (SEQ, "Every stream over an alphabet; every f32 sample of 27 leading bits (all 2^32 in thorough); an f64 lattice over all exponents."),
 "C11": ("exhaustive enumeration of a parameter lattice on the real code against the cookbook design", "Every point of the lattice; response compared sample by sample with an independent f64 design and measured at its landmarks. Between lattice points the property is not decided."),
 "C12": ("exhaustive enumeration of a parameter lattice with worst-case inputs on the real code", "Every lattice point; the sign pattern that maximises the output, constants, alternation, then silence."),
 "C13": (SEQ, "All ordered pairs of lattice settings with histories between; all sequences of settings, samples and clears to the depth bound."),
 "C14": (SEQ, "Every sequence of samples and time-constant changes to the depth bound against the reference recursion; long step and noise streams."),
 "C15": (SEQ, "Every f32 argument of 30 leading bits (all 2^32 in thorough), an f64 lattice over all exponents and signs, and every sequence of calls over boundary values."),
 "C16": (SEQ, "Every sequence of samples and alpha changes to the depth bound; long streams."),
 "C17": ("exhaustive enumeration of window sizes on the real code against the textbook formulas", "Every size up to the bound and selected larger ones, every value."),
 "C18": ("stateless exhaustive enumeration of iterator call sequences on the real code", "Every call sequence to the depth bound for every small size; every size up to the bound for plain consumption."),
 "C19": ("exhaustive enumeration of slice lengths and window kinds on the real code", "Every length up to the bound, all kinds, several contents."),
 "C20": ("exhaustive enumeration of window sizes and positions on the real code", "Every size of the stated parity up to the bound, every position."),
 "C21": ("exhaustive enumeration of every f32 argument on the real code", "All 2^31 non-negative samples and all 2^32 dB values in f32; f64 on a lattice."),
 "C22": ("stateless exhaustive enumeration of interleavings and thread assignments on the real code", "Every interleaving of every pair of short operation sequences on two instances; every assignment of operations to two threads; every instance compared with one that ran alone in a process of its own. No operation is internally concurrent: all state is behind &mut self, so whole operations are the atoms."),
 "C24": (SEQ, "Every sequence of three calls (four in thorough) with arguments of every class of numbers on all 40 processors, then recovery compared with a fresh twin; constructors, window sizes to usize::MAX, lines longer than 2^24 samples. Overflow and debug assertions on in one of the two builds; a call that does not return in 90 s counts as a hang."),
 "C23": (SEQ, "Every stream over an alphabet, related runs compared (scaled, negated, delayed, summed)."),
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "hooks": {"guard": "cfg(rasp_verif)", "enable": "RUSTFLAGS=\"--cfg rasp_verif\" (check.py sets it; it falls back to a build without the hook, which then skips the fixpoint searches)", "source_commits": hook},
 "checks": [],
 "not_applicable": [],
}
for i in sorted(NOTE):
    t, n = NOTE[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
