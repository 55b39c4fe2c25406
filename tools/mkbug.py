#!/usr/bin/env python3
"""Writes planted bugs to seeded/: python3 tools/mkbug.py FILE.py, which calls bug(...) for each of them."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g %(flags)s -I runtime/src -I runtime/test "$here/demo.cpp" %(sources)s _build/runtime/libZserioCpp17Runtime.a %(libs)s -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def bug(ident, prop, edits, demo, needs, breaks, flags="-O0", libs="", sources=""):
    if not os.path.isdir(S + "/.git"):
        subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (S, S), shell=True, check=True)
    for path, old, new in edits:
        p = os.path.join(S, "runtime/src/zserio", path)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %s: %d occurrences of %r" % (ident, path, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], check=True, stdout=subprocess.PIPE).stdout
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    for path, old, new in edits: # a line my own fixes added does not count
        base = subprocess.run(["git", "-C", S, "show", "6f5c575:runtime/src/zserio/" + path], stdout=subprocess.PIPE).stdout.decode()
        baselines = set(base.split("\n"))
        mine = [l for l in old.split("\n") if l not in new.split("\n") and l.strip() and not any(l in b for b in baselines)]
        if mine:
            print("NOTE", ident, "changes lines not in the original:", mine)
    d = os.path.join(VERIF, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(SH % dict(flags=flags, libs=libs, sources=sources))
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", ident)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
