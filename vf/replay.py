"""replay.py <property> <replay file>: run a saved counterexample natively against /repo's current sources."""
import sys, re
from .check import Check
def main():
    pid, path = sys.argv[1:3]
    c = Check(pid, 'quick', True)
    entry = None; ins = []
    for l in open(path):
        if l.startswith('# entry '): entry = l.split()[2]
        if l.startswith('#') or not l.strip(): continue
        k, n, v = l.split(None, 2); ins.append((k, n, v.strip()))
    for tu in c.spec['tus']:
        if entry in tu['entries']:
            if ins and ins[0][0] == 'fuzz': ok, out = c.run_native(c.native_bin(tu), entry, dict(VF_FUZZ=ins[0][2]))
            else: ok, out, _ = c.replay(tu, entry, [(k, n, None if v == '-' else v) for k, n, v in ins], 0)
            print(out); print('REPRODUCED' if ok else 'not reproduced'); c.cleanup(); sys.exit(1 if ok else 0)
main()
