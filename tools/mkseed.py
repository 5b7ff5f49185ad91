#!/usr/bin/env python3
# mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec (id, prop, edits=[(file, old, new)], needs, what, demo) and
# confirms it in a scratch copy: builds, passes the stable tests, demo.sh 0 without and non-zero with the change.
import sys, os, subprocess, json, shutil, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["id"]); os.makedirs(d, exist_ok=True)
W = "/tmp/w/seed-" + ns["id"]
shutil.rmtree(W, ignore_errors=True); os.makedirs("/tmp/w", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", W])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh("git checkout -q -- . && git clean -fdq src lib include", cwd=W)
SH = '''#!/bin/bash
# builds a small program against the objects of the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s
cd "$T" && timeout %d ./demo
'''
LIB = 'g++ -std=c++17 -O1 -fno-access-control -w -D_FILE_OFFSET_BITS=64 -Iinclude -I"$here" "$here/demo.cc" lib/libcrucible.a -lpthread -latomic -o "$T/demo" || exit 0'
SRC = '''objcopy --redefine-sym main=bees_main src/bees.o "$T/bees.o" || exit 0
g++ -std=c++17 -O1 -fno-access-control -w -D_FILE_OFFSET_BITS=64 -Iinclude -Isrc -I"$here" "$here/demo.cc" "$T/bees.o" src/bees-context.o src/bees-hash.o src/bees-resolve.o src/bees-roots.o src/bees-thread.o src/bees-trace.o src/bees-types.o src/bees-version.o src/bees-usage.o lib/libcrucible.a -Wl,-z,muldefs -lpthread -latomic -o "$T/demo" || exit 0'''
LIBF = LIB.replace("|| exit 0", "|| exit 3"); SRCF = SRC.replace("|| exit 0", "|| exit 3")
open(d + "/demo.sh", "w").write(ns["demosh"] if "demosh" in ns else SH % ({"lib": LIBF, "src": SRCF}[ns.get("kind", "lib")], ns.get("timeout", 60)))
os.chmod(d + "/demo.sh", 0o755)
if "demo" in ns: open(d + "/demo.cc", "w").write(ns["demo"])
for n, t in ns.get("files", {}).items(): open(d + "/" + n, "w").write(t)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["what"]}, open(d + "/meta.json", "w"), indent=1)
print("build:", sh("make -j8 all >/tmp/w/b.log 2>&1", cwd=W, env=dict(os.environ, CXXFLAGS="-Wno-error", CFLAGS="-Wno-error")).returncode)
r = sh("bash " + d + "/demo.sh", cwd=W); print("demo clean:", r.returncode, r.stdout[-300:], r.stderr[-800:])
for f, o, n in ns["edits"]:
    s = open(W + "/" + f).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(W + "/" + f, "w").write(s.replace(o, n))
open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
b = sh("rm -f lib/*.dep src/*.dep; make -j8 all 2>&1 | tail -5", cwd=W, env=dict(os.environ, CXXFLAGS="-Wno-error", CFLAGS="-Wno-error")); print("build bug:", b.returncode, b.stdout[-500:] if b.returncode or "rror" in b.stdout else "")
r2 = sh("bash " + d + "/demo.sh", cwd=W); print("demo bug:", r2.returncode, r2.stdout[-300:], r2.stderr[-300:])
print("GOOD" if r.returncode == 0 and r2.returncode != 0 else "BAD", ns["id"])
shutil.rmtree(W, ignore_errors=True)
