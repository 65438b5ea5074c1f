#!/usr/bin/env python3
"""Development aid: applies small edits to /repo one at a time, runs checks against each, undoes
them. Usage: mutate.py FILE.json [name-substring]
FILE: list of {name, props, file, old, new, count?}; `file` relative to /repo/src."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    ms = json.load(open(sys.argv[1])); pat = sys.argv[2] if len(sys.argv) > 2 else ""
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    for m in ms:
        if pat not in m["name"]: continue
        edits = m.get("edits") or [m]
        try:
            for e in edits:
                p = "/repo/src/" + e["file"]; s = open(p).read()
                if s.count(e["old"]) < 1: print(m["name"], "DOES NOT APPLY", e["old"][:50]); raise KeyError
                s = s.replace(e["old"], e["new"], e.get("count", -1)); open(p, "w").write(s)
            b = sh(V + "/sim/build.sh")
            if b.returncode: print(m["name"], "DOES NOT BUILD", b.stderr[-600:]); continue
            for p in m["props"]:
                t = time.time()
                r = sh(V + "/sim/target/release/camsim", "check", p, "quick", env=dict(os.environ, VERIF_DIR=V, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                first = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith("seed ")][:1]
                print(f"{m['name']:34} {p} rc={r.returncode} {time.time()-t:5.1f}s {'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR ' + r.stderr[-300:]}  {(first or [''])[0][:150]}", flush=True)
        except KeyError: pass
        finally: sh("git", "-C", "/repo", "checkout", "--", ".")
main()
