"""Compile /repo's current sources plus a contract file to LLVM bitcode (verification) or natively (replay)."""
import os, re, subprocess, tempfile, shutil
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'

def options():
    """option defaults of CMakeLists.txt"""
    try: txt = open(f'{REPO}/CMakeLists.txt').read()
    except OSError: txt = ''
    o = {}
    for m in re.finditer(r'option\((SALTICIDAE_\w+)\s+"[^"]*"\s+(ON|OFF)\)', txt): o[m.group(1)] = m.group(2) == 'ON'
    return o
def gen_config(d, verify, extra=None):
    o = options()
    if verify: o['SALTICIDAE_NORMAL_LOG'] = False; o['SALTICIDAE_DEBUG_LOG'] = False
    if extra: o.update(extra)
    out = []
    for l in open(f'{REPO}/src/config.h.in'):
        m = re.match(r'#cmakedefine\s+(\w+)', l)
        if m: out.append(f'#define {m.group(1)}\n' if o.get(m.group(1)) else f'/* #undef {m.group(1)} */\n')
        else: out.append(l)
    os.makedirs(f'{d}/inc/salticidae', exist_ok=True)
    for p in (f'{d}/inc/salticidae/config.h', f'{d}/inc/config.h'): open(p, 'w').write(''.join(out))

class BuildError(Exception): pass

def bitcode(d, src, defs=(), first_inc=(), cfg=None):
    gen_config(d, True, cfg)
    out = f'{d}/' + re.sub(r'\W', '_', src) + '.bc'
    cmd = [CLANG, '-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-w', '-c', '-emit-llvm',
           '-fno-access-control', '-DVF_VERIFY', '-include', 'cstdint', *[x for i in first_inc for x in ('-I', i)],
           '-isystem', f'{VERIF}/stl', '-I', f'{VERIF}/contracts', '-I', f'{d}/inc', '-I', f'{d}/inc/salticidae', '-I', f'{REPO}/include', *[f'-D{x}' for x in defs], src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[:6000])
    return out

def native(d, srcs, out, defs=(), first_inc=(), cfg=None, san=True, libs=('-luv', '-lcrypto', '-lssl', '-lpthread')):
    gen_config(d, False, dict(SALTICIDAE_NORMAL_LOG=False, **(cfg or {})))
    cmd = [CLANG, '-std=c++14', '-O1', '-g', '-w', '-fno-access-control', '-DVF_NATIVE', '-include', 'cstdint',
           *(['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,nonnull-attribute,null,pointer-overflow'] if san else []),
           *[x for i in first_inc for x in ('-I', i)],
           '-I', f'{VERIF}/native', '-I', f'{VERIF}/contracts', '-I', f'{d}/inc', '-I', f'{d}/inc/salticidae', '-I', f'{REPO}/include', *[f'-D{x}' for x in defs],
           *srcs, f'{VERIF}/native/vf_native.cpp', '-o', out, *libs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[:6000])
    return out
