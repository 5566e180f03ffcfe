#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list in tools/seedlist.py.

Usage: mkseeds.py [ID...]   (patches are made in a scratch copy of /repo)
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlist import SEEDS

ROOT = '/verif/seeded'

DEMO = r'''#!/bin/bash
# Generates a lexer and parser with the gogll of the current directory in a
# scratch folder and runs main.go against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
go build -o "$w/gogll" . || { echo "gogll does not build"; exit 2; }
mkdir "$w/m"
sed 's/^module .*/module demo/' go.mod > "$w/m/go.mod"
cp go.sum "$w/m/go.sum"
cp "$here"/g.md "$w/m/"
cd "$w/m" || exit 2
%(body)s
'''

GEN = r'''timeout 60 "$w/gogll" -o . %(flags)s g.md > out.txt 2>&1 || { echo "gogll failed"; cat out.txt; exit 1; }
cp "$here"/*.go . 
timeout 120 go run .
'''

def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(ROOT, s['id'])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        tmp = tempfile.mkdtemp(prefix='mkseed.')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
            for f, old, new in s['edits']:
                p = tmp + '/r/' + f
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit('%s: %d occurrences in %s of:\n%s' % (s['id'], t.count(old), f, old))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'])
            open(d + '/patch.diff', 'wb').write(diff)
        finally:
            shutil.rmtree(tmp)
        body = (s.get('body') or GEN).replace('%(flags)s', s.get('flags', ''))
        open(d + '/demo.sh', 'w').write(DEMO % {'body': body})
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/g.md', 'w').write(s['grammar'])
        if 'main' in s:
            open(d + '/main.go', 'w').write(s['main'])
        for f, c in s.get('files', {}).items():
            open(os.path.join(d, f), 'w').write(c)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print('wrote', s['id'])
main()
