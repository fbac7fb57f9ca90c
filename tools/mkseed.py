"""mkseed.mk(id, prop, needs, breaks, [(file, old, new)], demo_cpp): writes seeded/<id>/"""
import os, json, subprocess
HDR = '#include <bls12-381/bls12-381.hpp>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <random>\nusing namespace bls12_381; using namespace std;\n'
def mk(id, prop, needs, breaks, edits, demo, hdr=HDR, std='c++20'):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
    for f, a, b in edits:
        p = '/repo/' + f; s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(hdr + demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo after the build\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 2\ntrap \'rm -rf "$t"\' EXIT\ng++ -std=%s -O1 -I include -I src "$here/demo.cpp" _build/libbls12-381.a -o "$t/demo" || exit 3\ncd "$t" && timeout 120 ./demo\n' % std)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
