#!/usr/bin/env python3
"""plant(id, prop, [(file, old, new)], demo_sh, needs, breaks, files={}) writes seeded/<id>/"""
import os, json, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def plant(id, prop, edits, demo, needs, breaks, files={}):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True); out = ''; cur = {}
    for f, a, b in edits:
        s = cur.get(f) or open(R + '/' + f, newline='').read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        cur[f] = s.replace(a, b)
    for f, s in cur.items():
        o = open(R + '/' + f, newline='').read()
        out += ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w', newline='').write(out)
    open(d + '/demo.sh', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for n, t in files.items(): open(d + '/' + n, 'w').write(t)
# compile a program with the repository's own driver for Linux, run it, compare its output with the expected text
def runc(src, expect, flags='-linux'):
    return r'''#!/bin/bash
set -u
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat >"$T/a.c" <<'EOF_C'
%s
EOF_C
cat >"$T/exp" <<'EOF_E'
%s
EOF_E
export PATH="$PWD/_build/inst/bin:$PATH"
cd "$T" && smlrcc %s a.c -o a.out || { echo "compile failed"; exit 1; }
timeout 20 ./a.out >out; echo "rc=$?" >>out
diff exp out
''' % (src.strip(), expect.strip(), flags)
