#!/usr/bin/env python3-vt
"""check.py PROPERTY: proves the contracts behind a property on the current tree and runs its replay harness."""
import glob
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER != 'thorough'
FUNC_TIMEOUT = 500 if QUICK else 1500
TOTAL = 760 if QUICK else 5400
T0 = time.time()


def goenv():
    e = dict(os.environ)
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMODCACHE='/root/go/pkg/mod', GOWORK='off')
    e.setdefault('HOME', '/root')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e


def build_frontend(tmp):
    out = os.path.join(V, '.build', 'gossa')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(os.path.join(V, 'frontend', 'main.go')):
        return out
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
    except OSError:
        pass
    t = os.path.join(tmp, 'gossa')
    r = subprocess.run(['go', 'build', '-o', t, '.'], cwd=os.path.join(V, 'frontend'), env=goenv(), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr)
        sys.exit('the front end does not build')
    try:
        shutil.copy(t, out + '.%d' % os.getpid())
        os.replace(out + '.%d' % os.getpid(), out)
        return out
    except OSError:
        return t


# ------------------------------------------------------------------ proofs
PROG = CON = None


def load(path):
    global PROG, CON
    import ssa
    import spec
    import specfn  # noqa
    PROG = ssa.Prog(path)
    CON = spec.Contracts(PROG)
    for f in sorted(glob.glob(os.path.join(V, 'contracts', '*.spec'))):
        CON.load(f)


def work(name, q):
    import spec
    import hints
    import prove as PV
    import resource
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        R = None
        try:
            if name.startswith('lemma:'):
                import lemmas
                R = lemmas.run(PROG, CON, name[6:], FUNC_TIMEOUT)
            else:
                R = spec.verify(PROG, CON, name, hints=hints.HINTS, deadline=time.time() + FUNC_TIMEOUT)
        except MemoryError:
            q.put({'name': name, 'error': 'out of memory', 'obligs': [], 'used': [], 'time': 0})
            return
        q.put({'name': name, 'error': R.error, 'time': R.time, 'rets': R.rets,
               'obligs': [(o.kind, o.pos, bool(o.ok), o.desc, round(o.time, 3)) for o in R.obligs],
               'used': sorted(R.used), 'inlined': sorted(R.inlined), 'intrinsics': sorted(R.intrinsics),
               'loops': R.loops, 'z3': PV.STAT['z3'], 'z3_time': round(PV.STAT['z3_time'], 2),
               'src': CON.tab[name].src if name in CON.tab else ''})
    except BaseException as e:  # an internal error of the verifier leaves the function unproved
        import traceback
        q.put({'name': name, 'error': 'internal error: %s: %s' % (type(e).__name__, traceback.format_exc()[-800:]), 'obligs': [], 'used': [], 'time': 0})


def prove_all(roots):
    """every contract in the closure, each function in its own process"""
    done, running, queued = {}, {}, list(dict.fromkeys(roots))
    seen = set(queued)
    ctx = mp.get_context('fork')
    # cheap machines: leave a core to the harness
    width = max(2, (os.cpu_count() or 4) - 1)
    while queued or running:
        while queued and len(running) < width:
            n = queued.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=work, args=(n, q), daemon=True)
            p.start()
            running[n] = (p, q, time.time())
        time.sleep(0.01)
        for n, (p, q, t) in list(running.items()):
            r = None
            if not q.empty():
                r = q.get()
                p.join(5)
            elif not p.is_alive():
                time.sleep(0.05)
                r = q.get() if not q.empty() else {'name': n, 'error': 'the verifier stopped', 'obligs': [], 'used': [], 'time': 0}
            elif time.time() - t > FUNC_TIMEOUT + 20 or time.time() - T0 > TOTAL:
                p.terminate()
                r = {'name': n, 'error': 'no answer within the time limit', 'obligs': [], 'used': [], 'time': time.time() - t}
            if r is not None:
                if p.is_alive():
                    p.kill()
                del running[n]
                done[n] = r
                for u in r['used']:
                    if u not in seen and u in CON.tab and not CON.tab[u].trusted:
                        seen.add(u)
                        queued.append(u)
    return done


# ------------------------------------------------------------------ harness
def start_harness(prop, name, tmp, race, secs):
    d = os.path.join(tmp, 'harness')
    shutil.copytree(os.path.join(V, 'harness'), d)
    m = os.path.join(d, 'go.mod')
    s = open(m).read().replace('=> /repo', '=> ' + REPO)
    open(m, 'w').write(s)
    if os.path.exists(os.path.join(REPO, 'go.sum')):
        shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(d, 'go.sum'))
    exe = os.path.join(tmp, 'hx_' + prop)
    cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', exe, './' + name]
    b = subprocess.run(cmd, cwd=d, env=goenv(), capture_output=True, text=True)
    if b.returncode:
        return None, 'the harness does not build: ' + b.stderr[-1500:]
    e = goenv()
    e['GOTRACEBACK'] = 'all'
    e['GOMEMLIMIT'] = '6GiB'
    e['GORACE'] = 'halt_on_error=1 exitcode=66'
    secs = secs if QUICK else 600
    p = subprocess.Popen([exe, prop, str(SEED), TIER, str(secs)], cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, ''


def end_harness(p):
    try:
        out, _ = p.communicate(timeout=240 if QUICK else 1500)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return {'evaluations': 1, 'distinct': 1, 'samples': [], 'fail': 'the run did not end', 'input': out[-2000:]}
    for l in out.split('\n'):
        if l.startswith('HX:'):
            return json.loads(l[3:])
    # the process itself died: a crash in a worker goroutine, or a deadlock
    keep = [l for l in out.split('\n') if 'unitizalized' not in l]
    what = 'data race' if 'WARNING: DATA RACE' in out else 'the process crashed'
    return {'evaluations': 1, 'distinct': 1, 'samples': [], 'fail': what, 'input': '\n'.join(keep)[:6000]}


RULE = ('The contract of the real function (compiled from the current tree) is evaluated on generated inputs: small sizes exhaustively, then random ones '
        'until the time is up; a case is non-trivial when its input differs from every earlier one (counted by hash of the whole input).')

TRUSTED = [
    'fr.Element operations of gurvy are the operations of the prime field (assumed contracts in engine/intr.py)',
    'int is treated as a mathematical integer; slice lengths and products of them stay below 2^63 (no overflow obligations)',
    'the Go compiler, golang.org/x/tools/go/ssa (front end) and the runtime',
    'the condition generator and term normaliser in /verif/engine (Python), z3 as back end',
    'memory exhaustion and non-termination outside counted loops are not modelled unless a loop-count obligation exists',
]


def main():
    prop = sys.argv[1]
    import props
    P = props.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return run(prop, P, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, P, tmp):
    import spec
    gossa = build_frontend(tmp)
    ssaf = os.path.join(tmp, 'ssa.json')
    r = subprocess.run([gossa, REPO, ssaf], env=goenv(), capture_output=True, text=True)
    if r.returncode:
        print(r.stdout + r.stderr)
        print('the repository cannot be loaded')
        return 2
    hp, herr = start_harness(prop, P.harness, tmp, P.race, P.secs)
    load(ssaf)
    plain = {n.replace('(*', '').replace('(', '').replace(')', ''): n for n in CON.tab}
    roots = [plain.get(spec.norm_name(n), spec.norm_name(n)) for n in P.funcs] + ['lemma:' + l for l in P.lemmas]
    done = prove_all(roots)
    h = end_harness(hp) if hp is not None else None
    bad = []
    nob = nok = 0
    by = {}
    for n, r in sorted(done.items()):
        for k, pos, ok, desc, tm in r['obligs']:
            nob += 1
            nok += 1 if ok else 0
            by[k] = by.get(k, 0) + 1
            if not ok:
                bad.append({'function': n, 'obligation': k, 'position': pos, 'text': desc})
        if r['error']:
            bad.append({'function': n, 'obligation': 'verification', 'position': '', 'text': r['error']})
        elif not r['obligs']:
            bad.append({'function': n, 'obligation': 'vacuity', 'position': '', 'text': 'no obligation was generated'})
    viol = None
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    rp = os.path.join(V, 'replay', prop + '.json')
    if h is not None and h.get('fail'):
        viol = {'property': prop, 'kind': 'contract fails on the real code for a concrete input', 'input': h['input'], 'observed': h['fail'],
                'failed_obligations': bad, 'replay': 'VERIF_SEED=%d VERIF_TIER=%s python3-vt %s/bin/check.py %s' % (SEED, TIER, V, prop)}
    elif bad:
        viol = {'property': prop, 'kind': 'obligations not discharged', 'failed_obligations': bad,
                'note': 'no failing input found' + (': ' + herr if herr else '')}
    trusted = sorted({i for r in done.values() for i in r.get('intrinsics', [])})
    inl = sorted({i for r in done.values() for i in r.get('inlined', [])})
    proof = {
        'obligations': nob, 'discharged': nok,
        'checker_cmd': 'python3-vt bin/check.py %s' % prop,
        'trusted_base': TRUSTED + ['assumed contract: ' + i for i in trusted] + ([P.note] if P.note else []),
        'functions_under_contract': {n: {'obligations': len(r['obligs']), 'discharged': sum(1 for o in r['obligs'] if o[2]),
                                         'loops': r.get('loops', 0), 'return_paths': r.get('rets', 0), 'time_s': round(r['time'], 2),
                                         'z3_calls': r.get('z3', 0), 'z3_s': r.get('z3_time', 0), 'contract': r.get('src', '')} for n, r in sorted(done.items())},
        'bodies_executed_in_place': inl,
        'obligations_by_kind': by,
        'back_ends': {'z3 %s (queries)' % z3version(): sum(r.get('z3', 0) for r in done.values()),
                      'term normalisation': 'the remaining obligations'},
        'solver_time_s': round(sum(r.get('z3_time', 0) for r in done.values()), 2),
    }
    bounded = {'what': P.bounded, 'rule': RULE,
               'evaluations': h['evaluations'] if h else 0, 'distinct_nontrivial': h['distinct'] if h else 0,
               'samples': (h['samples'] or []) if h else [], 'not_run': herr}
    if P.level == 'proof':
        cov = dict(proof, runtime_contract_checks_bounded=bounded)
    else:
        cov = {k: bounded[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')}
        cov['bounded_stand_in_for'] = P.bounded
        if P.funcs or P.lemmas:
            cov['proved_part'] = proof
    ev = {
        'property': prop, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': P.level,
        'coverage': cov,
        'assumptions': TRUSTED,
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if viol else 0,
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %.1fs; harness: %s' % (prop, nob, nok, len(done), time.time() - T0,
          ('%d cases' % h['evaluations']) if h else herr))
    if viol:
        json.dump(viol, open(rp, 'w'), indent=1)
        for b in bad[:10]:
            print('  failed: %s %s %s %s' % (b['function'], b['obligation'], b['position'], b['text'][:300]))
        if h is not None and h.get('fail'):
            print('  input: %s' % h['input'][:1500])
            print('  observed: %s' % h['fail'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    return 0


def z3version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.exit(main())
