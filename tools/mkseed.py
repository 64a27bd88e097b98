"""Writes a planted bug under /verif/seeded/<id>: patch from textual edits, a C++ demonstration."""
import os, subprocess, json, tempfile, shutil, difflib
REPO, OUT = os.environ.get("REPO", "/repo"), os.environ.get("OUT", "/verif/seeded")
SH = '''#!/bin/bash
# Demonstration: exit 0 when the behaviour is as promised, 1 when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -w -fopenmp -DFMT_HEADER_ONLY=1 -DGLM_FORCE_INTRINSICS -DLM_USE_CONFIG_RELEASE -DNDEBUG \\
    -I"$repo/include" -I"$repo/pch" "$here/demo.cpp" -o "$t/demo" \\
    -L"$repo/_build/bin" -Wl,-rpath,"$repo/_build/bin" -l:liblm.so -lstdc++fs -ldl -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''
HEAD = '''#include <pch.h>
#include <lm/lm.h>
#include <lm/assetgroup.h>
#include <lm/scheduler.h>
#include <lm/model.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/objloader.h>
#include <lm/parallelcontext.h>
#include <lm/progresscontext.h>
#include <lm/loggercontext.h>
using namespace lm;
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::cerr << "not as promised: " #c << std::endl; fails++; } } while (0)
'''


def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for f, old, new in edits:
        if f not in files:
            s = open(os.path.join(REPO, f), newline="").read()
            files[f] = [s, s]
        cur = files[f][1]
        if "\r\n" in cur:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert cur.count(old) == 1, (id, f, old, cur.count(old))
        files[f][1] = cur.replace(old, new)
    t = tempfile.mkdtemp()
    out = b""
    for f, (a, b) in files.items():
        for k, x in (("a", a), ("b", b)):
            p = os.path.join(t, k, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", newline="").write(x)
    r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=t, stdout=subprocess.PIPE)
    out = r.stdout.replace(b"a/a/", b"a/").replace(b"b/b/", b"b/")
    open(os.path.join(d, "patch.diff"), "wb").write(out)
    shutil.rmtree(t)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(SH)
    with open(os.path.join(d, "demo.cpp"), "w") as f:
        f.write(HEAD + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")], check=True)
