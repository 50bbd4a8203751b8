"""Mathematical functions used by the contracts."""
from term import *
import term as T
from val import *
from spec import specfn, SPECFN, Seq


def eqw_term(q, t, x):
    """product over i < t of q(i) or 1 - q(i), by the bits of x (x < 2^t), most significant first; q: index -> F"""
    i, k = T.as_atom(T.fresh('nat:~eqi')), T.as_atom(T.fresh('nat:~eqk'))
    A = T.atom('var', (T.as_atom(T.fresh('~eqA')).args[0],), 'fun')
    qi = q(T.lift(i))
    h = T.idiv(T.lift(k), I(2))
    bit = T.eq(T.sub(T.lift(k), T.scale(h, 2)), I(1))
    body = T.mul(T.lift(T.atom('fapp', (A, h), 'F')), T.ite(bit, qi, T.sub(Fc(1), qi)))
    step = T.lam((i, k, A), body)
    base = T.lam((k,), Fc(1))
    return T.mk_arec(step, base, t, (x,))


@specfn('eqw')
def _(E, q, t, x):
    s = E.seq(*q)
    if 'eqw' in E.ex.contract.opts.get('opaque', '').split():
        i = T.as_atom(T.fresh('nat:~sq'))
        return T.app('def:eqw', [T.lam((i,), s.fn(T.lift(i))), t[0], x[0]], 'F')
    return eqw_term(lambda i: s.fn(i), t[0], x[0])


@specfn('dec')
def _(E, x):
    return T.decimal(x[0])


@specfn('geval')
def _(E, g, l, r):
    """the value of a gate: what the contract of interface circuit.Gate calls its function"""
    from intr import geval
    return geval(g[0], l[0], r[0])


@specfn('gid')
def _(E, g):
    return T.atom('app', ('gid', g[0]), 'S')


def _consts(name):
    import os
    import re
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'ref', 'consts.go')).read()
    m = re.search(r'var %s = .*?\{(.*?)\n\}' % name, src, re.S)
    return [int(x) for x in re.findall(r'"(\d+)"', m.group(1))]


_TAB = {}


@specfn('published')
def _(E, name, i):
    """the published constants of the hash functions (a copy kept in harness/ref/consts.go)"""
    n = name[0].args[0]
    if n not in _TAB:
        _TAB[n] = _consts(n)
    return Fc(_TAB[n][int(cval(i[0]))])


for _nm, _fn in (('gdegL', 'lenDegHL'), ('gdegR', 'lenDegHR'), ('gdegP', 'lenDegHP')):
    def _deg(E, g, _fn=_fn):
        return T.app(_fn, (g[0],), 'I')
    SPECFN[_nm] = _deg
