#!/usr/bin/env python3
"""Plant one bug: seed.py SPEC.py   (development helper, not used by any check)
SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source), cxx (extra args), sources=[repo .cpp]
Writes seeded/<id>/ after confirming, in a scratch copy, that the patched tree
builds, passes the tests, and that the demo tells the two trees apart."""
import os, subprocess, sys, shutil, tempfile, json
V = '/verif'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def demo_sh(cxx, sources):
    return """#!/bin/bash
# exit 0: behaves as specified; nonzero: broken.  Run in the repository root.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/inc"; ln -s "$PWD/src" "$t/inc/envire"; ln -s "$PWD/icp" "$t/inc/icp"
for f in "$here/demo.cpp" %s; do
  ( g++ -std=c++14 -O0 -w -I"$here" -I"$here/shim" -I"$t/inc" -I"$PWD" -I"$PWD/src" -I/usr/include/eigen3 %s -c "$f" -o "$t/$(echo "$f" | tr / _).o" || touch "$t/failed" ) &
done
wait
[ -e "$t/failed" ] && exit 3
g++ "$t"/*.o -o "$t/demo" %s || exit 3
cd "$t" && timeout 120 ./demo
""" % (' '.join('"$PWD/%s"' % s if not s.startswith('shim:') else '"$here/shim/%s"' % s[5:] for s in sources), cxx[0], cxx[1])
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = V + '/seeded/' + ns['id']
    w = tempfile.mkdtemp(prefix='seed')
    R = w + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    for f, old, new in ns['edits']:
        s = open(R + '/' + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(R + '/' + f, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % R).stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(ns['demo'])
    open(d + '/demo.sh', 'w').write(demo_sh(ns.get('cxx', ('', '')), ns.get('sources', [])))
    os.chmod(d + '/demo.sh', 0o755)
    if ns.get('shim'):
        shutil.copytree(V + '/shim', d + '/shim')
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    good = sh('bash %s/demo.sh' % d, cwd='/repo'); bad = sh('bash %s/demo.sh' % d, cwd=R)
    print(ns['id'], 'clean', good.returncode, 'patched', bad.returncode)
    if good.returncode != 0 or bad.returncode in (0, 3):
        print(good.stdout[-2500:], '-----', bad.stdout[-2500:])
    shutil.rmtree(w)
main()
