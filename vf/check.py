"""check.py <property> [--tier quick|thorough]: decide one property; see DESIGN.md."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib.util, re, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from vf import build
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY): PY = 'python3-vt'

def load_spec(pid):
    ns = {}
    p = f'{VERIF}/contracts/{pid}.py'
    exec(compile(open(p).read(), p, 'exec'), ns)
    return ns['SPEC']

def run_worker(job, limit):
    try:
        r = subprocess.run([PY, '-m', 'vf.worker'], input=json.dumps(job), capture_output=True, text=True, timeout=limit, cwd=VERIF)
        return json.loads(r.stdout)
    except subprocess.TimeoutExpired:
        return dict(entry=job['entry'], mode=job['mode'], halt='deadline', paths=0, oblig=0, discharged=0, labels={}, fails=[], unknowns=[], bounded=[], unsupported={}, covers={}, summ={}, hooks={}, tsolve=0, nq=0, nlia=0, wall=limit, funcs=[])
    except Exception as x:
        return dict(entry=job['entry'], mode=job['mode'], halt='crash: ' + str(x) + (r.stderr[-800:] if 'r' in dir() else ''), paths=0, oblig=0, discharged=0, labels={}, fails=[], unknowns=[], bounded=[], unsupported={}, covers={}, summ={}, hooks={}, tsolve=0, nq=0, nlia=0, wall=0, funcs=[])

class Check:
    def __init__(self, pid, tier, verbose=False):
        self.pid = pid; self.tier = tier; self.spec = load_spec(pid); self.t0 = time.time(); self.verbose = verbose
        self.d = tempfile.mkdtemp(prefix=f'vf-{pid}-')
        self.natives = {}
        self.notes = []
        self.known = []
        try:
            for k in json.load(open(f'{VERIF}/known_findings.json'))['findings']:
                if k['property'] == pid and k.get('status') == 'known': self.known.append(k)
        except OSError: pass
    def log(self, *a):
        if self.verbose: print(*a, file=sys.stderr, flush=True)
    # ---- native replay
    def native_bin(self, tu):
        if tu['src'] not in self.natives:
            out = f'{self.d}/nat_' + re.sub(r'\W', '_', tu['src'])
            try:
                srcs = [f'{VERIF}/contracts/{tu["src"]}'] + [f'{build.REPO}/{s}' for s in tu.get('repo', [])]
                if tu.get('native_srcs'): srcs += [f'{VERIF}/{s}' for s in tu['native_srcs']]
                sd = f'{self.d}/n_' + re.sub(r'\W', '_', tu['src'])
                os.makedirs(sd, exist_ok=True)
                build.native(sd, srcs, out, defs=tu.get('defs', ()), first_inc=[f'{VERIF}/{i}' for i in tu.get('inc', [])], cfg=tu.get('cfg'), libs=('-rdynamic', '-luv', '-lcrypto', '-lssl', '-lpthread', '-ldl'))
                self.natives[tu['src']] = out
            except build.BuildError as x:
                self.notes.append('native build failed: ' + str(x)[-1500:]); self.natives[tu['src']] = None
                self.log('native build failed', str(x)[-3000:])
        return self.natives[tu['src']]
    def replay(self, tu, entry, inputs, n):
        """run the contract natively with the model's inputs.  returns (confirmed, output, path)"""
        rp = f'{self.d}/in_{entry}_{n}'
        with open(rp, 'w') as f:
            for i in inputs: f.write(f'{i[0]} {(i[1] or "_").replace(" ", "_")} {i[2] if i[2] not in (None, "") else "-"}\n')
        if not tu.get('replay', True): return False, 'contract has no native replay', rp
        b = self.native_bin(tu)
        if b is None: return False, 'native build failed', rp
        return self.run_native(b, entry, dict(VF_REPLAY=rp)) + (rp,)
    def run_native(self, b, entry, env, timeout=20):
        scratch = tempfile.mkdtemp(prefix='run-', dir=self.d)
        try:
            r = subprocess.run([b, entry], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096', **env), capture_output=True, text=True, errors='replace', timeout=timeout, cwd=scratch)
            rc, out = r.returncode, (r.stdout + r.stderr)[-4000:]
        except subprocess.TimeoutExpired: rc, out = 124, 'timeout (possible non-termination)'
        if rc in (0, 77, 99): return False, f'exit {rc}\n{out}'
        if 'std::bad_alloc' in out or 'out-of-memory' in out or 'allocation-size-too-big' in out: return False, 'out of memory\n' + out
        return True, f'exit {rc}\n{out}'
    def write_replay(self, kind, entry, f, out, inputs):
        os.makedirs(f'{VERIF}/evidence/replays', exist_ok=True)
        h = hashlib.sha1((entry + f['label'] + f['where']).encode()).hexdigest()[:8]
        p = f'{VERIF}/evidence/replays/{self.pid}-{entry}-{h}.txt'
        with open(p, 'w') as o:
            o.write(f'# property {self.pid}\n# entry {entry}\n# failed obligation [{f["kind"]}] {f["label"]}\n# at {f["where"]}\n# status {kind}\n')
            o.write('# trace:\n' + ''.join(f'#   {t}\n' for t in f['trace']))
            for i in inputs or []: o.write(f'{i[0]} {(i[1] or "_").replace(" ", "_")} {i[2] if i[2] not in (None, "") else "-"}\n')
            o.write('# verifier/native output:\n' + ''.join('# ' + l + '\n' for l in (out or '').splitlines()))
            o.write(f'# reproduce: python3-vt -m vf.replay {self.pid} {p}   (in /verif)\n')
        return p
    def is_known(self, entry, f):
        for k in self.known:
            if k.get('entry') == entry and k.get('label') == f['label']: return k
        return None
    # ---- main
    def run(self):
        spec = self.spec; tier = self.tier
        res = []; viol = []; knownhit = {}
        jobs = []
        limit = spec.get('time', {}).get(tier, 240 if tier == 'quick' else 1500)
        build_failed = []
        def comp(tu):
            sd = f'{self.d}/b_' + re.sub(r'\W', '_', tu['src'])
            os.makedirs(sd, exist_ok=True)
            cfg = tu.get('cfg')
            bcs = [build.bitcode(sd, f'{VERIF}/contracts/{tu["src"]}', defs=tu.get('defs', ()), first_inc=[f'{VERIF}/{i}' for i in tu.get('inc', [])], cfg=cfg)]
            for s in tu.get('repo', []): bcs.append(build.bitcode(sd, f'{build.REPO}/{s}', defs=tu.get('defs', ()), first_inc=[f'{VERIF}/{i}' for i in tu.get('inc', [])], cfg=cfg))
            return bcs
        ex = ThreadPoolExecutor(8)
        tus = spec['tus']
        futs = [(tu, ex.submit(comp, tu)) for tu in tus]
        work = []
        for tu, f in futs:
            try: bcs = f.result()
            except build.BuildError as x:
                build_failed.append((tu, str(x))); continue
            for en in tu['entries']:
                opts = dict(tu.get('opts', {})); opts['tier'] = tier
                opts.update(tu.get('entry_opts', {}).get(en, {}))
                job = dict(bcs=bcs, entry=en, mode='prove', time=limit, hooks=tu.get('hooks', {}), opts=opts, extra_funcs=spec.get('extra_funcs', []))
                work.append((tu, en, job, ex.submit(run_worker, job, limit + 30)))
        undecided = []
        for tu, en, job, fu in work:
            r = fu.result(); res.append(r)
            self.log(f'{en}: paths {r["paths"]} oblig {r["oblig"]} discharged {r["discharged"]} fails {len(r["fails"])} unk {len(r["unknowns"])} unsup {list(r["unsupported"])[:3]} bounded {r["bounded"][:3]} halt {r["halt"]} wall {r["wall"]} solver {r["tsolve"]} q {r["nq"]}')
            for f in r['fails']: self.log('   FAIL', f['kind'], f['label'], f['where'], f['inputs'])
        # second pass: failures
        for tu, en, job, fu in work:
            r = fu.result()
            fails = [f for f in r['fails']]
            newf = []
            for f in fails:
                k = self.is_known(en, f)
                if k: knownhit[k['id']] = k
                else: newf.append(f)
            incomplete = bool(r['unsupported'] or r['bounded'] or r['unknowns'] or (r['halt'] and r['halt'] != 'fail'))
            covers = tu.get('covers', {}).get(en)
            if covers and not incomplete and not fails:
                for c in covers:
                    if not r['covers'].get(c):
                        newf.append(dict(label=f'reachable: {c}', kind='cover', where=en, inputs=None, trace=[]))
            if newf:
                v = self.confirm(tu, en, job, newf, limit)
                if v: viol.append(v)
            elif incomplete:
                undecided.append((tu, en, job, r))
        # tool limits: bounded stand-in
        bounded_info = []
        if undecided or build_failed:
            bj = []
            for tu, en, job, r in undecided:
                j = dict(job, mode='bounded', time=min(200, limit)); bj.append((tu, en, r, ex.submit(run_worker, j, j['time'] + 30)))
            for tu, en, r, fu in bj:
                b = fu.result()
                self.log(f'  bounded {en}: paths {b["paths"]} oblig {b["oblig"]} fails {len(b["fails"])} unsup {b["unsupported"]} halt {b["halt"]}')
                why = dict(unsupported=r['unsupported'], bounded=r['bounded'], unknown=r['unknowns'], halt=r['halt'])
                bounded_info.append(dict(entry=en, reason=why, paths=b['paths'], obligations=b['oblig']))
                for f in b['fails']:
                    if self.is_known(en, f): knownhit[self.is_known(en, f)['id']] = self.is_known(en, f); continue
                    ok, out, rp = self.replay(tu, en, f['inputs'], 'b') if f['inputs'] is not None else (False, 'no model', None)
                    if ok:
                        viol.append((self.write_replay('counterexample replayed natively', en, f, out, f['inputs']), True, f)); break
            for tu, en in [(tu, en) for tu, en, _, _ in undecided] + [(tu, en) for tu, _ in build_failed for en in tu['entries']]:
                if any(v[2].get('entry') == en for v in viol): continue
                fz = self.fuzz(tu, en, 150 if tier == 'quick' else 2000)
                bounded_info.append(dict(entry=en, native_random_runs=fz[0]))
                if fz[1]:
                    f = dict(label='contract violated on a random input', kind='native', where=en, trace=[])
                    if not self.is_known(en, f): viol.append((self.write_replay('random native run', en, f, fz[2], [('fuzz', 'seed', fz[1])]), True, f))
        for tu, msg in build_failed:
            self.log('BUILD FAILED', msg[:3000]); self.notes.append('verification build failed: ' + msg[:600])
            nb = self.native_bin(tu)
            if nb is None and self.natives.get(tu['src']) is None and not self.repo_builds(tu):
                print(f'error: {self.pid}: sources do not compile: {msg[:2000]}', file=sys.stderr); self.cleanup(); return 2
        self.evidence(res, viol, bounded_info, knownhit)
        for k in knownhit.values(): print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        rc = 0
        if viol:
            seen = set()
            for p, conf, f in viol:
                if p in seen: continue
                seen.add(p)
                print(f'# failed obligation: {f["label"]} at {f["where"]}')
                if not conf and any(c for _, c, _ in viol): print(f'# verifier output: {p}'); continue
                print(f'VIOLATION property={self.pid} replay={p}' + ('' if conf else ' no-failing-input-found'))
            rc = 1
        self.cleanup()
        return rc
    def repo_builds(self, tu):
        for s in tu.get('repo', []) or ['src/stream.cpp']:
            sd = f'{self.d}/rb'; os.makedirs(sd, exist_ok=True); build.gen_config(sd, False)
            r = subprocess.run(['g++', '-std=c++14', '-fsyntax-only', '-w', '-include', 'cstdint', '-I', f'{sd}/inc', '-I', f'{sd}/inc/salticidae', '-I', f'{build.REPO}/include', f'{build.REPO}/{s}'], capture_output=True)
            if r.returncode: return False
        return True
    def fuzz(self, tu, en, n):
        if not tu.get('replay', True) or not tu.get('fuzz', True): return 0, None, ''
        b = self.native_bin(tu)
        if b is None: return 0, None, ''
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        hit = [None, '']
        def one(i):
            if hit[0]: return
            ok, out = self.run_native(b, en, dict(VF_FUZZ=str(seed * 100000 + i)), 10)
            if ok and 'timeout' not in out: hit[0] = seed * 100000 + i; hit[1] = out
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(n)))
        return n, hit[0], hit[1]
    def confirm(self, tu, en, job, fails, limit):
        """turn failed obligations into a violation, replayed natively when possible"""
        n = 0
        for f in fails:
            if f['inputs'] is None: continue
            ok, out, rp = self.replay(tu, en, f['inputs'], n); n += 1
            self.log(f'  replay {en} [{f["label"]}]: {ok} {out[:300]}')
            if ok: return (self.write_replay('counterexample replayed natively', en, f, out, f['inputs']), True, dict(f, entry=en))
            f['native'] = out
        # bounded search for a concrete counterexample
        for unroll in ((3, 6) if tu.get('replay', True) else ()):
            b = run_worker(dict(job, mode='bounded', time=min(150, limit), opts=dict(job['opts'], max_fail=6, unroll=unroll, bound=unroll - 1)), min(150, limit) + 30)
            self.log(f'  bounded {en}: paths {b["paths"]} fails {[f["label"] for f in b["fails"]]} halt {b["halt"]}')
            for f in b['fails']:
                if f['inputs'] is None or self.is_known(en, f): continue
                ok, out, rp = self.replay(tu, en, f['inputs'], n); n += 1
                self.log(f'  replay {en} [{f["label"]}]: {ok} {out[:300]}')
                if ok: return (self.write_replay('counterexample replayed natively', en, f, out, f['inputs']), True, dict(f, entry=en))
        f = fails[0]
        return (self.write_replay('no failing input found', en, f, f.get('native', ''), f['inputs']), False, dict(f, entry=en))
    def evidence(self, res, viol, bounded_info, knownhit):
        spec = self.spec
        ob = sum(r['oblig'] for r in res); di = sum(r['discharged'] for r in res)
        covers = {}
        for r in res:
            for c, v in r['covers'].items(): covers[f'{r["entry"]}:{c}'] = v
        funcs = sorted({f for r in res for f in r['funcs']})
        try:
            q = subprocess.run(['c++filt'], input='\n'.join(funcs), capture_output=True, text=True).stdout.split('\n')
            fd = sorted({re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string', x) for x in q if x and not x.startswith('std::') and 'vf' not in x.split('(')[0][:4]})
        except OSError: fd = funcs
        fd = [x for x in fd if re.search(r'salticidae::|^[a-z_0-9]+(\(|$)', x)]
        labels = {}
        for r in res:
            for l, c in r['labels'].items(): labels[l] = labels.get(l, 0) + c
        cov = dict(obligations=ob, discharged=di, checker_cmd=f'python3-vt -m vf.check {self.pid} --tier {self.tier}',
            trusted_base=['vf symbolic executor (this repository, /verif/vf)', 'clang-18 -O0 front end (C++ to LLVM IR)', 'z3 5.3.2 (bit-vectors/arrays) and its linear integer arithmetic solver'] + spec.get('trusted', []),
            contracts=[dict(entry=r['entry'], paths=r['paths'], obligations=r['oblig'], discharged=r['discharged'], loop_summaries=r['summ'], loop_contracts=r['hooks'],
                bounded=r['bounded'], undecided=r['unknowns'], unsupported=r['unsupported'], halt=r['halt'], solver_s=r['tsolve'], queries=r['nq'], queries_by_lia=r['nlia'], wall_s=r['wall']) for r in res],
            functions_under_contract=len(fd), functions=fd[:400], obligation_labels=labels, reachability=covers, solver_s=round(sum(r['tsolve'] for r in res), 2),
            bounded_stand_in=bounded_info, known_findings=sorted(knownhit), notes=self.notes)
        if spec.get('level') == 'other': cov['explanation'] = 'Bounded stand-in: every obligation of the contracts was discharged on every path of the bounded histories; ' + spec['note']
        if spec.get('bounds'): cov['bounds'] = spec['bounds']
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.get('level', 'proof'), coverage=cov,
            assumptions=spec.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.pid}.json', 'w'), indent=1)
    def cleanup(self): shutil.rmtree(self.d, ignore_errors=True)

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    c = Check(a.pid, a.tier, a.v)
    try: sys.exit(c.run())
    finally: c.cleanup()
if __name__ == '__main__': main()
