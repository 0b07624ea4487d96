#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from bug definitions and confirms each in a scratch copy.

  plant.py <defs.py> [id ...]      make and confirm
  plant.py --run [id ...]          apply each seeded patch to /repo, run its check, undo
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = '''#!/bin/bash
# Run with the repository as the current directory.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/rasp-demo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
rasp = { path = "$R" }
[workspace]
X
CARGO_TARGET_DIR="$T/target" cargo run --offline --quiet --manifest-path "$T/Cargo.toml"
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def make(defs, ids):
    g = {}
    exec(open(defs).read(), g)
    use = g["USE"]
    scratch = tempfile.mkdtemp(prefix="rasp-plant.", dir="/tmp")
    repo = os.path.join(scratch, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    try:
        for b in g["B"]:
            if ids and b["id"] not in ids:
                continue
            d = os.path.join(scratch, b["id"])
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.rs"), "w").write(use + b["demo"].strip() + "\n")
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh(["bash", os.path.join(d, "demo.sh")], repo)
            if r.returncode != 0:
                print(b["id"], "REJECTED: demo fails on the unchanged tree\n", r.stdout[-1500:]); continue
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "edit of %s matches %d times" % (f, s.count(old)); break
                open(p, "w").write(s.replace(old, new))
            if not bad:
                r = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], repo)
                if r.returncode != 0:
                    bad = "tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "failed" in l or "error" in l)[-1500:]
            if not bad:
                r = sh(["bash", os.path.join(d, "demo.sh")], repo)
                if r.returncode == 0:
                    bad = "demo passes with the change"
                elif "panicked" not in r.stdout:
                    bad = "demo: " + r.stdout[-800:]
            diff = sh(["git", "diff"], repo).stdout
            sh(["git", "checkout", "--", "."], repo)
            if bad:
                print(b["id"], "REJECTED:", bad); continue
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            dst = os.path.join(SEED, b["id"])
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            shutil.copytree(d, dst)
            print(b["id"], "kept", flush=True)
    finally:
        shutil.rmtree(scratch)

def run(ids, tier="quick"):
    for i in sorted(os.listdir(SEED)):
        if ids and i not in ids:
            continue
        d = os.path.join(SEED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], HERE)
        if r.returncode != 0:
            print(i, "patch does not apply"); continue
        try:
            t = time.time()
            r = sh(["python3", "check.py", prop, tier], HERE, 900)
            msg = [l for l in r.stdout.splitlines() if l.startswith("message") or l.startswith("CHECK-ERROR")]
            print("%-32s %s rc=%d %.0fs %s" % (i, prop, r.returncode, time.time() - t, (msg or [""])[0][:150]), flush=True)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."], HERE)

if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:])
    else:
        make(sys.argv[1], sys.argv[2:])
