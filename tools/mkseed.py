"""Writes /verif/seeded/<id>/ from tools/seeds.py (patch, demonstration, meta). Not used by any check."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
from seeds import SEEDS

SH = r'''#!/bin/bash
# cwd: the repository. Exit 0: behaves as specified; otherwise broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O1 -w -pthread %s -I include "$here/demo.cpp" src/*.cpp -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''
INC = '#include <algorithm>\n#include <cstdio>\n#include <cstdlib>\n#include <cstdint>\n#include <new>\n#include <sstream>\n#include <string>\n#include <thread>\n#include <vector>\n#include "bignum/bignum.h"\n'


def main():
    only = set(sys.argv[1:])
    for s in SEEDS:
        if only and s['id'] not in only: continue
        tmp = tempfile.mkdtemp(prefix='seed')
        subprocess.check_call('cp -a /repo/include /repo/src %s/ && cd %s && git init -q . && git add . && git -c user.name=x -c user.email=x@x commit -qm x' % (tmp, tmp), shell=True)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], f, 'pattern occurs', t.count(old), 'times'); sys.exit(1)
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(OUT, s['id'])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', 'diff'], cwd=tmp)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(INC + s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % s.get('flags', ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(tmp)


main()
