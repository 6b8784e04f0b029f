"""Mechanical extraction: /repo's current sources -> LLVM IR.  Nothing is written by hand between the code that runs and the
code that is verified; the standard library, Eigen and libm are replaced by the contract headers in /verif/stubs."""
import os, subprocess, glob, tempfile, shutil, hashlib, time
from concurrent.futures import ThreadPoolExecutor
from .ir import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CF = ('-std=c++14 -O0 -Xclang -disable-O0-optnone -fno-exceptions -fno-rtti -fno-math-errno -ffp-contract=off -fno-access-control '
      '-gline-tables-only -nostdinc++ -nostdinc -DNDEBUG -w -S -emit-llvm').split()

class ExtractError(Exception): pass

def sources():
    fs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    return [f for f in fs if 'steering_functions_node' not in os.path.basename(f)]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode != 0: raise ExtractError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout

def extract(drivers):
    """returns (Module, info)"""
    tmp = tempfile.mkdtemp(prefix='vcg_')
    try:
        t0 = time.time()
        inc = ['-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + VERIF + '/drivers']
        jobs = []
        for i, f in enumerate(sources() + [VERIF + '/drivers/%s.cpp' % d for d in drivers]):
            out = '%s/%d_%s.ll' % (tmp, i, os.path.basename(f)[:-4])
            jobs.append((f, out))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(['clang++'] + CF + inc + ['-o', j[1], j[0]]), jobs))
        allf = tmp + '/all.ll'
        run(['llvm-link-18', '-S'] + [o for _, o in jobs] + ['-o', allf])
        run(['opt-18', '-S', '-passes=mem2reg,mergereturn,loop-simplify', allf, '-o', allf])
        text = open(allf).read()
        m = Module(text)
        h = hashlib.sha256()
        for f in sources(): h.update(open(f, 'rb').read())
        return m, {'sources': [os.path.relpath(f, REPO) for f in sources()], 'sha256': h.hexdigest(), 'seconds': time.time() - t0}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
