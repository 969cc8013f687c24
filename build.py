#!/usr/bin/env python3
"""Compile /repo sources and property drivers to one LLVM module for cx."""
import subprocess, sys, os, hashlib, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('CX_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=c++17', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-include', 'cstdint', '-w', '-I', REPO + '/include']
CLANGAST = ['-I', '/usr/lib/llvm-14/include', '-fno-access-control', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS'] # drivers that include the compiler plugin
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
def oids(out): # data/oids.txt as a table
    e = []
    for l in open(REPO + '/data/oids.txt'):
        if '=' in l: k, v = l.strip().split('=', 1); b = [int(x, 16) for x in v.strip('"').split('\\x')[1:]]; e.append((len(b), b, k))
    with open(out + '/oids.inc', 'w') as f:
        for _, b, k in sorted(e):
            f.write('{ %d, { %s }, "%s" },\n' % (len(b), ','.join(map(str, b)), k.replace('OBJ_', '')))
def build(out, drivers):
    os.makedirs(out, exist_ok=True); jobs = []
    src = sorted(f[:-3] for f in os.listdir(REPO + '/src') if f.endswith('.cc') and f != 'reflect.cc') # reflect.cc is the compiler plugin
    tools = sorted(f[:-3] for f in os.listdir(REPO + '/tool') if f.endswith('.cc'))
    if 'o01' in drivers: oids(out)
    for s in src: jobs.append((REPO + '/src/' + s + '.cc', 'r_' + s, []))
    for t in tools: jobs.append((REPO + '/tool/' + t + '.cc', 't_' + t, ['-Dmain=cx_target_main_' + t]))
    for d in drivers + ['lib/rb', 'lib/str', 'lib/disj']: jobs.append((ROOT + '/drivers/' + d + '.cc', 'd_' + d.replace('/', '_'), ['-I', ROOT + '/drivers', '-I', REPO + '/src', '-I', out] + (CLANGAST if d.startswith('r0') else [])))
    def one(j):
        src, o, fl = j; sh([LLVM + 'clang++'] + FLAGS + fl + ['-emit-llvm', '-c', src, '-o', '%s/%s.bc' % (out, o)]); return '%s/%s.bc' % (out, o)
    with cf.ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, jobs))
    sh([LLVM + 'llvm-link'] + bcs + ['-o', out + '/all0.bc'])
    sh([LLVM + 'opt', '-passes=sroa', out + '/all0.bc', '-o', out + '/all.bc'])
    return out + '/all.bc'
if __name__ == '__main__': print(build(sys.argv[1], sys.argv[2:]))
