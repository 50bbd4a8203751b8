"""mut.py [substring...]: do broken bodies fail their contracts? (text mutations of a copy; prints the ones that still verify)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
M = [l.rstrip('\n').split('\t') for l in open(os.path.join(HERE, 'mutations.tsv')) if l.strip() and not l.startswith('#')]
sel = sys.argv[1:]
base = tempfile.mkdtemp(prefix='mut_')
V = open(os.path.join(HERE, 'v.py')).read()


def one(x):
    n, (f, a, b, fns) = x
    a, b = [y.replace('\\n', '\n').replace('\\t', '\t') for y in (a, b)]
    t = '%s/%d' % (base, n)
    try:
        shutil.copytree('/repo', t + '/r', ignore=shutil.ignore_patterns('.git'))
        p = t + '/r/' + f
        s = open(p).read()
        if s.count(a) < 1:
            return 'NOT FOUND %s %s' % (f, a)
        open(p, 'w').write(s.replace(a, b, 1))
        r = subprocess.run(['/tmp/gossa', t + '/r', t + '/o.json'], capture_output=True, text=True)
        if r.returncode:
            return 'DOES NOT BUILD %s | %s -> %s %s' % (f, a, b, (r.stdout + r.stderr)[:200])
        open(t + '/v.py', 'w').write(V.replace('/tmp/out.json', t + '/o.json'))
        r = subprocess.run(['timeout', '400', 'python3-vt', t + '/v.py'] + fns.split(','), capture_output=True, text=True)
        bad = [l for l in r.stdout.split('\n') if l.startswith('BAD')]
        return '%s %s | %s -> %s | %s' % ('killed  ' if bad or r.returncode else 'SURVIVES', f, repr(a), repr(b), (bad or [r.stdout[-200:] or 'rc %d' % r.returncode])[0][:110])
    finally:
        shutil.rmtree(t, ignore_errors=True)


try:
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, [(n, m) for n, m in enumerate(M) if not sel or any(s in m[0] or s in m[3] for s in sel)]):
            print(r, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
