"""mkseed.mk(id, prop, [(file, old, new)], needs, breaks, demo_files): writes seeded/<id>/"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(i, prop, edits, needs, breaks, demo, **files):
    d = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        for f, a, b in edits:
            p = d + "/r/" + f; s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(d)
    o = V + "/seeded/" + i; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(demo)
    for n, c in files.items():
        open(o + "/" + n.replace("__", "."), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
PRE = r'''#!/bin/bash
# Compiles demo.c against the built library and runs it; everything stays in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf -- "$tmp"' EXIT
ulimit -c 0
'''
RUN = PRE + r'''gcc -std=gnu17 -O1 -fno-builtin -w -o "$tmp/demo" "$here/demo.c" -L"$PWD/%s" -l%s -Wl,-rpath,"$PWD/%s" -lpthread || exit 98
timeout 120 "$tmp/demo"
rc=$?
echo "demo exit $rc"
exit $rc
'''
DEF = RUN % ("out", "hardened_malloc", "out")
LIGHT = RUN % ("out-light", "hardened_malloc-light", "out-light")
# builds another configuration of the library from the sources in the current directory
CFG = PRE + r'''make -s CC=gcc OUT="$tmp/o" CONFIG_NATIVE=false CONFIG_WERROR=false %s >/dev/null 2>&1 || exit 97
lib=$(ls "$tmp"/o/*.so) || exit 97
gcc -std=gnu17 -O1 -fno-builtin -w -o "$tmp/demo" "$here/demo.c" "$lib" -Wl,-rpath,"$tmp/o" -lpthread || exit 98
timeout 120 "$tmp/demo"
rc=$?
echo "demo exit $rc"
exit $rc
'''
