"""seed.py NAME PROP FILE 'needs' 'breaks' < json{edits:[[file,old,new]...], demo: c++ text, libs: [...]}: make /verif/seeded/NAME"""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -g -w %(flags)s -include cstdint -I_build/include -I_build/include/salticidae -Iinclude "$D/demo.cpp" %(srcs)s -o "$T/demo" %(libs)s || exit 3
cd "$T" && timeout 100 ./demo
'''
def make(name, prop, edits, demo, needs, breaks, flags='', srcs='', libs='-luv -lssl -lcrypto -lpthread'):
    t = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for f, old, new in edits:
        p = f'{t}/r/{f}'; s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.environ.get('SEEDDIR', f'{V}/seeded') + '/' + name; os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout)
    shutil.rmtree(t)
    open(f'{d}/demo.cpp', 'w').write(demo)
    open(f'{d}/demo.sh', 'w').write(DEMO % dict(flags=flags, srcs=srcs, libs=libs)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    print('made', name)
