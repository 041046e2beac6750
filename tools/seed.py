#!/usr/bin/env python3
"""Creates one planted bug under seeded/: seed.py SPEC.py, where SPEC defines id, property, file(s) edits, demo, meta."""
import os, sys, json, shutil, subprocess
V = '/verif'
spec = {}; exec(open(sys.argv[1]).read(), spec)
for b in spec['BUGS']:
    d = os.path.join(V,'seeded',b['id']); os.makedirs(d, exist_ok=True)
    wt = '/tmp/seedwt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',wt], check=True, capture_output=True)
    for f, old, new in b['edits']:
        p = os.path.join(wt,f); t = open(p).read()
        n = t.count(old); k = b.get('nth',0)
        if n == 0 or (n > 1 and 'nth' not in b): print(b['id'],'ambiguous/missing', f, n); sys.exit(1)
        i = -1
        for _ in range(k+1): i = t.index(old, i+1)
        open(p,'w').write(t[:i]+new+t[i+len(old):])
    diff = subprocess.run(['git','-C',wt,'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d,'patch.diff'),'w').write(diff)
    open(os.path.join(d,'demo.cc'),'w').write(b['demo'])
    for c in os.listdir(os.path.join(V,'cfg')): shutil.copy(os.path.join(V,'cfg',c), os.path.join(d,c))
    open(os.path.join(d,'demo.sh'),'w').write(b.get('sh') or '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero otherwise. Run with cwd = the dune-istl source tree.
here="$(cd "$(dirname "$0")" && pwd)"; out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O1 -w -DHAVE_CONFIG_H -I"$here" -I"$PWD" -I/opt/dune/prefix/include "$here/demo.cc" -o "$out/demo" -L/opt/dune/prefix/lib -ldunecommon -Wl,-rpath,/opt/dune/prefix/lib || exit 3
timeout 60 "$out/demo"
''')
    os.chmod(os.path.join(d,'demo.sh'),0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d,'meta.json'),'w'), indent=1)
    r0 = subprocess.run([os.path.join(d,'demo.sh')], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run([os.path.join(d,'demo.sh')], cwd=wt, capture_output=True, text=True)
    print(b['id'], 'clean', r0.returncode, 'patched', r1.returncode, (r0.stderr+r1.stderr)[-600:] if r0.returncode or not r1.returncode or r1.returncode==3 else '')
    shutil.rmtree(wt, ignore_errors=True)
