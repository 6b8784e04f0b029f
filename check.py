#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID : decide property ID on /repo's current tree (see DESIGN.md).  Exit 0 holds, 1 violation."""
import sys, os, json, time, importlib, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0': pass
from vcg import extract as X
from vcg.ctx import *
from contracts.registry import REG, COMMON_ASSUMPTIONS, TRUSTED

def oracle_build(tmp):
    r = subprocess.run(['bash', HERE + '/oracle/build.sh', tmp + '/orc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return (tmp + '/orc/oracle') if r.returncode == 0 else None, r.stdout

def oracle_at(exe, pid, vec, timeout=60):
    try:
        r = subprocess.run([exe, pid, 'at'] + ['%.17g' % v for v in vec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    except subprocess.TimeoutExpired: return 'did not terminate within %d s' % timeout
    if r.returncode == 0: return None
    return (r.stdout.strip() or 'terminated by signal %d' % -r.returncode)

def oracle_search(exe, pid, seed, secs, maxn=2000000000):
    """8 seeds in parallel; first failing input or (None, cases tried)"""
    ps = [subprocess.Popen([exe, pid, 'search', str(seed * 1000 + i), str(secs), str(maxn)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True) for i in range(8)]
    found = None; tried = 0; crash = None
    end = time.time() + secs * 2 + 60
    for i, p in enumerate(ps):
        try: out, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); continue
        for l in out.splitlines():
            if l.startswith('TRIED'): tried += int(l.split()[1])
        if p.returncode == 1 and 'FAIL' in out:
            w = out[out.index('FAIL') + 5:].splitlines()[0]
            v = [l for l in out.splitlines() if l.startswith('INPUT')]
            if found is None and v: found = (w, [float(x) for x in v[0].split()[1:]])
        elif p.returncode not in (0, 1): crash = 'oracle process ended with %d (seed %d): %s' % (p.returncode, seed * 1000 + i, err[-400:])
    return found, tried, crash

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = REG[pid]
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 5400)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vpc_')
    obs = []; st = {}; info = {}; mod = None
    try:
        C = importlib.import_module('contracts.' + reg['module'])
        try:
            mod, info = X.extract(reg['drivers'])
        except X.ExtractError as e:
            obs = [Ob('extraction', '', 'unsupported', 'clang', detail='outside the verifier: extraction failed: %s' % str(e)[-1500:])]
        if mod is not None:
            try: tl = C.tasks(mod, pid)
            except Unsupported as e: tl = []; obs = [Ob('task setup', '', 'unsupported', 'vcgen', detail=str(e))]
            r, st = parallel(tl, deadline=deadline - 150)
            obs += r
        proved = [o for o in obs if o.status == 'proved']
        failed = [o for o in obs if o.status == 'failed']
        unsup = [o for o in obs if o.status == 'unsupported']
        bounded = [o for o in obs if o.status == 'bounded']
        viol = None; tried = 0; kf = []
        known = [k for k in json.load(open(HERE + '/known_findings.json')) if k['property'] == pid and k['status'] == 'known'] if os.path.exists(HERE + '/known_findings.json') else []
        need_oracle = failed or unsup or known or reg.get('bounded') or (tier == 'thorough')
        exe = None
        if need_oracle:
            exe, log = oracle_build(tmp)
            if exe is None: unsup.append(Ob('replay harness', '', 'unsupported', 'g++', detail='replay harness does not build: ' + log[-800:]))
        if exe:
            for k in known:
                w = oracle_at(exe, k.get('oracle', pid), k['input'])
                if w: kf.append(k); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            tried_at = 0
            for o in failed + unsup:
                for v in (o.model or []):
                    tried_at += 1
                    w = oracle_at(exe, pid, v)
                    if w and not any(k['input'] == v for k in known): viol = (w, v); break
                if viol or tried_at > 200: break
            if viol is None and (failed or unsup or reg.get('bounded') or tier == 'thorough'):
                secs = reg.get('secs', 40) if (failed or unsup) else reg.get('bounded', 0)
                if tier == 'thorough': secs = max(secs, 600)
                found, tried, crash = oracle_search(exe, pid, seed, secs)
                if found: viol = found
                elif crash: viol = (crash, [])
        rep = HERE + '/evidence/replay_%s.json' % pid
        doc = {'property': pid, 'failed_obligations': [o.row() for o in failed[:40]], 'outside_verifier': [o.row() for o in unsup[:40]],
               'extracted_from': info, 'verifier': 'vcgen (symbolic execution of clang IR) + algebraic normaliser + z3'}
        code = 0; line = None
        if viol:
            doc['failing_input'] = viol[1]; doc['observed'] = viol[0]
            doc['replay'] = 'bash /verif/oracle/build.sh /tmp/orc && /tmp/orc/oracle %s at %s' % (pid, ' '.join('%.17g' % v for v in viol[1]))
            line = 'VIOLATION property=%s replay=%s' % (pid, rep); code = 1
        elif failed:
            doc['note'] = 'no failing input found (%d inputs tried on the real library); the obligations above were not discharged' % tried
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep); code = 1
        if code or unsup: json.dump(doc, open(rep, 'w'), indent=1)
        elif os.path.exists(rep): os.remove(rep)
        fns = sorted(set(o.fn for o in obs if o.fn))
        be = {}
        for o in proved: be[o.backend] = be.get(o.backend, 0) + 1
        cov = {'obligations': len(obs), 'discharged': len(proved), 'checker_cmd': './check.py %s' % pid,
               'trusted_base': TRUSTED + reg.get('trusted', []),
               'explanation': 'functions under contract: %s; obligations by back end: %s; solver time z3 %.1f s in %d calls, algebraic normaliser %.1f s; not discharged: %d; outside the verifier (bounded stand-in on the real library, %d inputs, never counted as proved): %s' % (
                   ', '.join(fns), json.dumps(be), st.get('z3_time', 0), st.get('z3_calls', 0), st.get('alg_time', 0), len(failed), tried, '; '.join(o.name + ': ' + o.detail[:150] for o in (unsup + bounded)[:8]) or 'none')}
        if tried: cov['evaluations'] = tried
        if reg.get('bounded'): cov['rule'] = reg.get('bounded_note', '')
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': reg.get('level', 'proof') if not unsup or proved else 'exploration', 'coverage': cov,
              'assumptions': COMMON_ASSUMPTIONS + reg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
        if ev['level'] == 'exploration':
            cov['distinct_nontrivial'] = tried; cov.setdefault('evaluations', tried); cov['rule'] = 'bounded stand-in: random and boundary inputs on the real library'; cov['samples'] = ['seed %d' % seed]
        json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d failed, %d outside the verifier, %.1f s' % (pid, len(obs), len(proved), len(failed), len(unsup), time.time() - t0))
        for o in failed[:10]: print('  failed: %s %s' % (o.name, o.detail[:200]))
        for o in unsup[:10]: print('  outside the verifier (bounded): %s %s' % (o.name, o.detail[-300:]))
        if line: print(line)
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    if os.environ.get('VP_HASHSEED') != '1':
        os.environ['VP_HASHSEED'] = '1'; os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
