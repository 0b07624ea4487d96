#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree and explores.

  check.py <ID> [quick|thorough]
  check.py --build            build only (setup)
  check.py --replay <file>    run one recorded counterexample again

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: error of the check.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.path.join(MC, "target")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
REPO = "/repo"
PROFILES = ["checked", "release"]
BINS = {
    "delay": ["C01", "C02", "C03", "C04", "C05"],
    "procs": ["C06", "C07", "C08", "C10", "C22", "C23"],
    "filters": ["C09", "C14", "C15", "C16"],
    "rbj": ["C11", "C12", "C13"],
    "windows": ["C17", "C18", "C19", "C20"],
    "util": ["C21"],
    "total": ["C24"],
}
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash():
    """Content of everything the build reads."""
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(MC, "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        files += [os.path.join(REPO, f), os.path.join(MC, f)]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def drop_fingerprints():
    """Forces cargo to rebuild the crate under test and the harness, whatever the timestamps say."""
    for p in PROFILES:
        d = os.path.join(TARGET, p, ".fingerprint")
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith("rasp-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def bin_of(prop):
    for b, ps in BINS.items():
        if prop in ps:
            return b
    die("unknown property " + prop)


def cargo(profile, hook, bins):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    if hook:
        env["RUSTFLAGS"] = "--cfg rasp_verif"
    args = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
    for b in bins:
        args += ["--bin", b]
    return subprocess.Popen(
        args, cwd=MC, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(bins):
    os.makedirs(TARGET, exist_ok=True)
    now = tree_hash()
    stamp = os.path.join(TARGET, "tree.sha256")
    try:
        with open(stamp) as f:
            same = f.read().strip() == now
    except OSError:
        same = False
    if not same:
        # cargo goes by timestamps; make it look again whatever they say
        drop_fingerprints()
        with open(stamp, "w") as f:
            f.write(now + "\n")
    out = ""
    for hook in (True, False):
        ok = True
        for p in [cargo(p, hook, bins) for p in PROFILES]:
            text = p.communicate()[0]
            if p.returncode != 0:
                ok = False
                out = text
        if ok:
            return hook
        drop_fingerprints()
    print(out[-6000:])
    die("the harness does not build against /repo")


def known(prop):
    """known_findings.txt: lines 'known: property=<id> scenario=<prefix> <what fails>'."""
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("known: property=%s " % prop):
                    r.append(l.strip())
    except OSError:
        pass
    return r


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py <ID> [quick|thorough]")
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    if a[0] == "--build":
        hook = build(sorted(BINS))
        print("built in %.1f s, hook %s" % (time.time() - t0, hook))
        return 0
    if a[0] == "--replay":
        with open(a[1]) as f:
            head = dict(l.rstrip("\n").split(": ", 1) for l in f if ": " in l[:12])
        b = bin_of(head["property"])
        build([b])
        return subprocess.run([os.path.join(TARGET, head["build"], b), "replay", a[1]]).returncode
    prop = a[0]
    exe = bin_of(prop)
    hook = build([exe])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        die("unknown tier " + tier)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    evid = os.path.join(EVID, prop + ".json")
    if os.path.exists(evid):
        os.remove(evid)
    runs = []
    rc = 0
    for prof in PROFILES:
        stats = os.path.join(REPLAYS, "%s.%s.stats.json" % (prop, prof))
        rep = os.path.join(REPLAYS, "%s.txt" % prop)
        for f in (stats, rep):
            if os.path.exists(f):
                os.remove(f)
        left = LIMIT[tier] - (time.time() - t0)
        try:
            r = subprocess.run(
                [os.path.join(TARGET, prof, exe), "check", prop, tier, stats, rep],
                stdin=subprocess.DEVNULL, timeout=max(left, 5))
        except subprocess.TimeoutExpired:
            die("the exploration did not finish within %d s" % LIMIT[tier])
        if os.path.exists(stats):
            with open(stats) as f:
                runs.append(json.load(f))
        if r.returncode == 1 and os.path.exists(rep):
            rc = 1
            break
        if r.returncode < 0 and -r.returncode in (6, 11, 4, 8, 7):
            # The code under test took the process down (abort, segmentation fault).
            with open(rep, "w") as f:
                f.write("property: %s\ntier: %s\nbuild: %s\nscenario: \nmessage: process ended by signal %d\n"
                        % (prop, tier, prof, -r.returncode))
            print("VIOLATION property=%s replay=%s" % (prop, rep), flush=True)
            rc = 1
            break
        if r.returncode != 0:
            die("the explorer ended with status %d" % r.returncode)
    write_evidence(prop, tier, runs, rc, time.time() - t0, hook, evid)
    for l in known(prop):
        print("KNOWN-FINDING: " + l[len("known: "):], flush=True)
    return rc


def write_evidence(prop, tier, runs, rc, wall, hook, evid):
    parts, samples = [], []
    states = trans = traces = outcomes = 0
    complete = rc == 0 and bool(runs)
    for r in runs:
        for s in r["samples"]:
            if s not in samples:
                samples.append(s)
        for p in r["parts"]:
            states += p["states"]
            trans += p.get("operations", p.get("transitions", 0))
            traces += p.get("executions", p.get("transitions", 0))
            outcomes += p.get("distinct_outcomes", p["states"])
            complete = complete and p["complete"]
            parts.append(dict(p, build=r["build"]))
    try:
        with open(os.path.join(HERE, "bounds.json")) as f:
            bounds = json.load(f).get(prop, {})
    except OSError:
        bounds = {}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": traces,
            "distinct_outcomes": outcomes,
            "exhaustive": complete,
            "samples": samples or ["(see scenarios)"],
            "scenarios": parts,
            "rule": "states: distinct operation histories (nodes of the choice tree), plus the points of inner loops, plus "
                    "reachable (implementation, model) pairs of the fixpoint searches; transitions: operations executed on the "
                    "implementation; traces: complete histories (stateless) or steps (fixpoint) run on the implementation "
                    "and compared with the model.",
            "hook_enabled": hook,
            "builds": [r["build"] for r in runs],
        },
        "assumptions": bounds.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": 1 if rc else 0,
    }
    tmp = evid + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, evid)


if __name__ == "__main__":
    sys.exit(main())
