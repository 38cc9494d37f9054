#!/usr/bin/python3
"""Development tool: writes and confirms planted bugs in /verif/seeded from tools/seeds.py.
usage: seed.py [--no-confirm] [id ...].  Each is confirmed in a scratch copy of /repo: applies, builds, stable tests pass,
demo exits 0 without and non-zero with the change."""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); import seeds
ENV = dict(os.environ, PATH="/usr/local/bin:/usr/bin:/bin", CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
DEMO = '''#!/bin/bash
# run in the root of the source tree: exit 0 if the property's behaviour is observed, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin
n=0
for f in $(find opm -name '*.cpp' -o -name '*.c' | sort); do
  n=$((n+1))
  case $f in
    *.c) gcc -std=c99 -O1 -w -I. -c "$f" -o "$t/$n.o" || exit 98 ;;
    *) g++ -std=c++11 -O1 -w -I. -c "$f" -o "$t/$n.o" || exit 98 ;;
  esac
done
g++ -std=c++11 -O1 -w -I. "$here/demo.cpp" "$t"/*.o -o "$t/demo" LINK || exit 97
timeout 60 "$t/demo"
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def one(s, confirm=True):
    d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = scratch + "/r"; sh(["git", "clone", "-q", "/repo", r], "/tmp")
        for f, o, n in s["edits"]:
            p = r + "/opm/" + f; t = open(p).read()
            if t.count(o) < 1: return "%s BAD EDIT %r" % (s["id"], o[:60])
            open(p, "w").write(t.replace(o, n, 1))
        diff = sh(["git", "diff"], r).stdout.decode()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("LINK", s.get("link", "")).replace(" LINK", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if not confirm: return s["id"] + " written"
        a = sh(["bash", d + "/demo.sh"], r)
        sh(["git", "stash", "-q"], r)
        b = sh(["bash", d + "/demo.sh"], r)
        sh(["git", "stash", "pop", "-q"], r)
        if b.returncode != 0: return "%s DEMO FAILS ON CLEAN (%d) %s" % (s["id"], b.returncode, b.stdout.decode()[-600:])
        if a.returncode in (0, 97, 98, 99): return "%s DEMO %d WITH PATCH %s" % (s["id"], a.returncode, a.stdout.decode()[-600:])
        c = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2 -g" -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" && ninja -j3 -C _build', r)
        if c.returncode: return "%s BUILD FAILS %s" % (s["id"], c.stdout.decode()[-600:])
        t = sh(["/usr/bin/python3", "/opt/vp/run_boost_cases.py", r + "/_build"], r).stdout.decode()
        bad = [l for l in t.splitlines() if "fail" in l.lower()]
        n = len([l for l in t.splitlines() if "pass" in l.lower()])
        if bad or n < 41: return "%s TESTS FAIL %s" % (s["id"], bad[:5] or t[-300:])
        return "%s ok (demo rc %d)" % (s["id"], a.returncode)
    finally: shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, "--no-confirm" not in sys.argv), [s for s in seeds.SEEDS if not ids or s["id"] in ids]): print(r, flush=True)
