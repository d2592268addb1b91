"""mkseed.py ID PROPERTY 'needs' 'what' [demo.c from stdin]: takes the diff of the scratch clone /tmp/sw, resets it."""
import sys, os, subprocess, json
sid, prop, needs, what = sys.argv[1:5]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
subprocess.run(['git', '-C', '/tmp/sw', 'pull', '-q'], check=False)
p = subprocess.run(['git', '-C', '/tmp/sw', 'diff'], stdout=subprocess.PIPE).stdout.decode()
assert p.strip()
open(d + '/patch.diff', 'w').write(p)
subprocess.run(['git', '-C', '/tmp/sw', 'checkout', '-q', '--', '.'])
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
src = sys.stdin.read()
if src.startswith('#!'):
    open(d + '/demo.sh', 'w').write(src)
else:
    open(d + '/demo.c', 'w').write(src)
    mpi = 'ptscotch.h' in src
    libs = ('-lptscotch -lscotch -lptscotcherr' if mpi else '-lscotch -lscotcherr') + (' -lscotchmetisv5' if 'metis.h' in src else '') + (' -lesmumps' if 'esmumps' in src else '')
    pre = '' if not mpi else '. /opt/vp/env.sh\n'
    np = [l for l in src.split('\n') if l.startswith('/* NP ')]
    run = '"$T/demo"' if not mpi else 'timeout 100 mpirun -n %s "$T/demo"' % (np[0].split()[2] if np else '3')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository, after its build
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
%sT=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s -O1 -g -w -pthread -I$R/_build/src/include -I$R/src/libscotch -o "$T/demo" "$D/demo.c" -L$R/_build/lib %s -lm -Wl,-rpath,$R/_build/lib || exit 2
cd "$T"
timeout 120 %s
''' % (pre, 'mpicc' if mpi else 'gcc', libs, run if not mpi else run.replace('timeout 100 ', '')))
os.chmod(d + '/demo.sh', 0o755)
print(d)
