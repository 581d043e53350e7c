#!/usr/bin/env python3
"""Planted-bug workshop (not used by any check).
  seed.py new ID PROPERTY FILE  < JSON {"edits":[[old,new],...],"needs":..,"breaks":..,"demo": C source}
  seed.py verify ID [--check]   apply in /repo, build, test, demo; optionally the property's check; undo"""
import sys, os, json, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
DEMO = '''#!/bin/bash
# builds the demonstration from the sources in the current directory; everything it writes is in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
src="src/evfs.c src/evfs_path.c src/shim_trace.c src/shim_jail.c src/shim_rotate.c src/stdio_fs.c src/tar_iter.c src/tar_fs.c src/tar_iter_rsrc.c src/tar_rsrc_fs.c src/romfs_common.c src/romfs_fs.c src/util/*.c"
gcc -std=gnu11 -g -w -D_DEFAULT_SOURCE -fsanitize=address -fno-omit-frame-pointer %s -Iinclude -Iinclude/evfs -Isrc -o "$t/demo" "$d/demo.c" $src -lm -lpthread || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
'''
def run(c, **k): return subprocess.run(c, shell=True, **k)
def new(i, prop, j):
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    assert not run("git -C /repo status --porcelain", capture_output=True).stdout
    try:
        for f, o, n in j["edits"]:
            p = "/repo/" + f; t = open(p).read(); assert t.count(o) == 1, (f, o, t.count(o)); open(p, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "wb").write(run("git -C /repo diff", capture_output=True).stdout)
    finally:
        run("git -C /repo checkout -q -- .")
    open(d + "/demo.c", "w").write(j["demo"])
    open(d + "/demo.sh", "w").write(DEMO % j.get("cflags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def verify(i, check):
    d = os.path.join(S, i); prop = json.load(open(d + "/meta.json"))["property"]
    base = run("bash %s/demo.sh" % d, cwd="/repo", capture_output=True, text=True)
    out = ["%s %s demo-base=%d" % (i, prop, base.returncode)]
    if base.returncode: print(base.stdout[-600:], base.stderr[-1500:])
    run("git -C /repo apply %s/patch.diff" % d, check=True)
    try:
        t = tempfile.mktemp(); b = run("bash /opt/vp/test.sh %s" % t, capture_output=True, text=True)
        r = json.load(open(t)); bl = json.load(open("/opt/vp/BASELINE.json"))
        names = set(bl["stable"])
        out.append("tests=%d missing=%d" % (len(r["passed"]), len(names - set(r["passed"]))))
        p = run("bash %s/demo.sh" % d, cwd="/repo", capture_output=True, text=True)
        out.append("demo-bug=%d" % p.returncode); msg = (p.stdout + p.stderr).strip().splitlines()
        if check:
            c = run("timeout 900 %s/bin/vp check %s" % (H, prop), capture_output=True, text=True, cwd=H)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("check=%d %s" % (c.returncode, v[0][:200] if v else c.stdout[-400:]))
        out.append("| " + " / ".join(m for m in msg if "ERROR" in m or "demo" in m)[:160])
    finally:
        run("git -C /repo checkout -q -- ."); run("bash /opt/vp/build.sh", capture_output=True)
    print("  ".join(out), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "new": new(sys.argv[2], sys.argv[3], json.load(sys.stdin))
    else:
        for i in (sorted(os.listdir(S)) if sys.argv[2] == "all" else sys.argv[2].split(",")): verify(i, "--check" in sys.argv)
