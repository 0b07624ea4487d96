#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a scratch copy of /repo and runs the checks on it: all must stay quiet.

  quiet.py <defs.py> [id | id:C01,C02 ...]
"""
import os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = {a.split(':')[0]: a.split(':')[1].split(',') if ':' in a else None for a in sys.argv[2:]}
    ids = list(only)
    top = tempfile.mkdtemp(prefix="rasp-quiet.", dir="/tmp")
    repo, verif = os.path.join(top, "repo"), os.path.join(top, "verif")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        os.makedirs(verif)
        subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (HERE, verif), shell=True)
        for f in ("check.py", "mc/Cargo.toml"):
            p = os.path.join(verif, f)
            s = open(p).read().replace('"/repo"', '"%s"' % repo)
            open(p, "w").write(s)
        for r in g["R"]:
            if ids and r["id"] not in ids:
                continue
            bad = None
            for f, old, new in r["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "edit of %s matches %d times: %s" % (f, s.count(old), old[:60]); break
                open(p, "w").write(s.replace(old, new))
            if not bad:
                t = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], repo)
                if t.returncode != 0:
                    bad = "tests: " + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l)[-1500:]
            if bad:
                print(r["id"], "REJECTED", bad, flush=True)
            else:
                for c in only.get(r["id"]) or r["checks"]:
                    t0 = time.time()
                    t = sh(["python3", "check.py", c, "quick"], verif)
                    msg = [l for l in t.stdout.splitlines() if l.startswith("message") or l.startswith("CHECK-ERROR") or l.startswith("scenario")]
                    print("%-24s %s %s %.0fs %s" % (r["id"], c, "quiet" if t.returncode == 0 else "ALARM rc=%d" % t.returncode, time.time() - t0, " | ".join(msg)[:300]), flush=True)
            sh(["git", "checkout", "--", "."], repo)
    finally:
        shutil.rmtree(top)

main()
