import sys; sys.path.insert(0,'/verif/engine')
import ssa, spec, prove as PV, glob, time
import specfn, hints
P=ssa.Prog('/tmp/out.json')
C=spec.Contracts(P)
for f in sorted(glob.glob('/verif/contracts/*.spec')): C.load(f)
names=[a for a in sys.argv[1:] if not a.startswith('-')]
PV.TRACE='-t' in sys.argv
for k in C.tab:
    if C.tab[k].trusted or C.tab[k].inline: continue
    if names and not any(n[1:] == k if n[0] == '=' else n in k for n in names): continue
    R=spec.verify(P,C,k,hints=hints.HINTS)
    bad=[o for o in R.obligs if not o.ok]
    print('OK ' if R.ok else 'BAD', k, '%.2fs'%R.time, len(R.obligs), 'bad', len(bad), R.error or '')
    for o in bad: print('     ',o.kind,o.pos,o.desc[:500])
    if '-l' in sys.argv:
        for n in R.notes: print('   loop',n)
