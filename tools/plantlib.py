"""plant(): writes seeded/<id>/ from text replacements in /repo's sources (the replacement happens in a scratch copy)."""
import difflib, json, os
S = '/verif/seeded'
R = '/repo'


def plant(id, prop, edits, needs, breaks, src, flags=''):
    d = f'{S}/{id}'
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, a, b, *n in edits:
        t = files.get(f) or open(f'{R}/{f}').read()
        k = n[0] if n else 0          # which occurrence
        parts = t.split(a)
        assert len(parts) > k + 1, (id, f, a)
        t = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
        files[f] = t
    out = ''
    for f, t in files.items():
        o = open(f'{R}/{f}').read()
        out += ''.join([f'diff --git a/{f} b/{f}\n'] +
                       list(difflib.unified_diff(o.splitlines(True), t.splitlines(True), f'a/{f}', f'b/{f}')))
    open(f'{d}/patch.diff', 'w').write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo.cpp', 'w').write(src)
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# cwd: /repo after the build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -std=gnu++20 -O1 -g %s -I/repo/include -I/repo/_build/_generated/include "$here/demo.cpp" \\
  /repo/_build/libcotask.a /repo/_build/libcopp.a -lpthread -o "$out/demo" || exit 2
timeout 60 "$out/demo"
''' % flags)
