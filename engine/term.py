"""Terms of the condition generator.

Interned, normalised terms:
  Poly  -- polynomial over atoms, sort 'I' (rational coefficients, used for Go integers) or
           'F' (coefficients modulo the order of the scalar field of bn256, used for fr.Element and
           for the value of a gnark variable)
  Atom  -- variable, uninterpreted application, sum, product, recursion, conditional, ...
  Bool  -- formulas
  Lam   -- binder, alpha-canonical (bound variables are named by binder height)
"""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(20000)

P = 21888242871839275222246405745257275088548364400416034343698204186575808495617

_ids = itertools.count(1)
_tab = {}
EMPTY = frozenset()


class Node:
    __slots__ = ()

    def __repr__(self):
        return show(self)


class Atom(Node):
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'h')


class Poly(Node):
    __slots__ = ('sort', 'items', 'id', 'fv', 'h', 'd')


class Bool(Node):
    __slots__ = ('op', 'args', 'id', 'fv', 'h')


class Lam(Node):
    __slots__ = ('params', 'body', 'id', 'fv', 'h')


def _meta(args):
    fv = set()
    h = 0
    st = list(args)
    while st:
        a = st.pop()
        if isinstance(a, Node):
            fv |= a.fv
            if a.h > h:
                h = a.h
        elif isinstance(a, tuple):
            st.extend(a)
    return frozenset(fv), h


def atom(op, args, sort):
    k = ('A', op, args, sort)
    r = _tab.get(k)
    if r is None:
        r = Atom()
        r.op, r.args, r.sort, r.id = op, args, sort, next(_ids)
        r.fv, r.h = _meta(args)
        if op == 'var':
            r.fv = frozenset([r])
        _tab[k] = r
    return r


def _mkey(mc):
    return tuple([(a.id, e) for a, e in mc[0]])


def mkpoly(sort, d):
    """d: dict mono -> coef"""
    items = [(m, c if type(c) is int or c.denominator != 1 else c.numerator) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=_mkey)
    items = tuple(items)
    k = ('P', sort, items)
    r = _tab.get(k)
    if r is None:
        r = Poly()
        r.sort, r.items, r.id = sort, items, next(_ids)
        r.d = None
        fv = set()
        h = 0
        for m, c in items:
            for a, e in m:
                fv |= a.fv
                if a.h > h:
                    h = a.h
        r.fv, r.h = frozenset(fv), h
        _tab[k] = r
    return r


def _bool(op, args):
    k = ('B', op, args)
    r = _tab.get(k)
    if r is None:
        r = Bool()
        r.op, r.args, r.id = op, args, next(_ids)
        r.fv, r.h = _meta(args)
        _tab[k] = r
    return r


def coef(sort, c):
    if sort == 'F':
        if isinstance(c, Fraction):
            return c.numerator * pow(c.denominator, -1, P) % P
        return c % P
    return c if type(c) is int else int(c) if c.denominator == 1 else c


def const(sort, c):
    c = coef(sort, c)
    return mkpoly(sort, {(): c} if c else {})


def I(n):
    return const('I', n)


def Fc(n):
    return const('F', n)


def is_const(p):
    return isinstance(p, Poly) and (not p.items or (len(p.items) == 1 and p.items[0][0] == ()))


def cval(p):
    """constant value or None"""
    if not isinstance(p, Poly):
        return None
    if not p.items:
        return 0
    if len(p.items) == 1 and p.items[0][0] == ():
        c = p.items[0][1]
        if p.sort == 'I' and c.denominator == 1:
            return int(c)
        return c
    return None


def var(name, sort='I'):
    return lift(atom('var', (name,), sort))


_fresh = {}


def fresh(name, sort='I'):
    n = _fresh.get(name, 0) + 1
    _fresh[name] = n
    return var('%s~%d' % (name, n), sort)


def lift(a):
    if a.sort in ('I', 'F'):
        return mkpoly(a.sort, {((a, 1),): coef(a.sort, 1)})
    if a.sort == 'B':
        return _bool('atom', (a,))
    return a


def as_atom(p):
    """the atom of a poly that is exactly one atom, else None"""
    if isinstance(p, Atom):
        return p
    if isinstance(p, Poly) and len(p.items) == 1:
        m, c = p.items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if isinstance(p, Bool) and p.op == 'atom':
        return p.args[0]
    return None


# ---------------------------------------------------------------- arithmetic

def mono_mul(sort, m1, m2):
    """returns (coef, mono)"""
    if not m1:
        return 1, m2
    if not m2:
        return 1, m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(sort, d)


def _mono_norm(sort, d):
    c = 1
    pw = [a for a in d if a.op == 'pow2']
    if len(pw) > 1 or (pw and d[pw[0]] != 1):
        ex = I(0)
        for a in pw:
            ex = add(ex, scale(a.args[0], d[a]))
            del d[a]
        k, rest = split_const(ex)
        c = Fraction(2) ** int(k)
        if rest.items:
            d[atom('pow2', (rest,), 'I')] = 1
    for a in d:
        if a.op == 'br':
            d[a] = 1
    ops = [a for a in d if a.op == 'br']
    if len(ops) > 1:
        # contradictory equalities
        for i in range(len(ops)):
            for j in range(i):
                b1, b2 = ops[i].args[0], ops[j].args[0]
                if b1.op == 'eq' and b2.op == 'eq' and b1.args[0].sort == b2.args[0].sort:
                    p, q = b1.args[0], b2.args[0]
                    for z in (sub(p, q), add(p, q)):
                        v = cval(z)
                        if v is not None and v != 0:
                            return 0, ()
    return c, tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def split_const(p):
    """(constant part, rest)"""
    for m, c in p.items:
        if m == ():
            return c, mkpoly(p.sort, {mm: cc for mm, cc in p.items if mm != ()})
    return 0, p


def add(a, b):
    if not b.items:
        return a
    if not a.items:
        return b
    assert a.sort == b.sort, (a, b)
    d = dict(a.items)
    for m, c in b.items:
        x = d.get(m, 0) + c
        if a.sort == 'F':
            x %= P
        d[m] = x
    return mkpoly(a.sort, d)


def scale(a, k):
    k = coef(a.sort, k)
    if k == 1:
        return a
    if a.sort == 'F':
        return mkpoly('F', {m: c * k % P for m, c in a.items})
    return mkpoly(a.sort, {m: c * k for m, c in a.items})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


_mulcache = {}


def mul(a, b):
    assert a.sort == b.sort, (a, b)
    if not a.items or not b.items:
        return const(a.sort, 0)
    ca, cb = cval(a), cval(b)
    if ca is not None and (a.sort == 'F' or isinstance(ca, int)):
        return scale(b, ca)
    if cb is not None and (a.sort == 'F' or isinstance(cb, int)):
        return scale(a, cb)
    key = (a, b) if a.id < b.id else (b, a)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(a.items) * len(b.items) > 4000:
        raise TooBig('product of polynomials with %d and %d terms' % (len(a.items), len(b.items)))
    d = {}
    F = a.sort == 'F'
    for m1, c1 in a.items:
        for m2, c2 in b.items:
            k, m = mono_mul(a.sort, m1, m2)
            if k == 0:
                continue
            x = d.get(m, 0) + c1 * c2 * (k if k != 1 else 1)
            if F:
                x %= P
            d[m] = x
    r = mkpoly(a.sort, d)
    _mulcache[key] = r
    return r


class TooBig(Exception):
    pass


def power(a, n):
    r = const(a.sort, 1)
    for _ in range(n):
        r = mul(r, a)
    return r


def pow2(e):
    k, rest = split_const(e)
    if k != int(k):
        return lift(atom('pow2', (e,), 'I'))
    r = I(Fraction(2) ** int(k))
    if rest.items:
        r = mul(r, lift(atom('pow2', (rest,), 'I')))
    return r


def mono_poly(sort, m, c=1):
    return mkpoly(sort, {m: coef(sort, c)})


def log2_of(p):
    """e such that p == 2^e syntactically, or None"""
    if len(p.items) != 1:
        return None
    m, c = p.items[0]
    if c <= 0:
        return None
    k = 0
    c = Fraction(c)
    while c > 1 and c.numerator % 2 == 0:
        c /= 2
        k += 1
    while c < 1 and c.denominator % 2 == 0:
        c *= 2
        k -= 1
    if c != 1:
        return None
    if m == ():
        return I(k)
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pow2':
        return add(m[0][0].args[0], I(k))
    return None


def nonneg_syn(p):
    """syntactically non negative integer polynomial"""
    for m, c in p.items:
        if c < 0:
            return False
        for a, e in m:
            if a.op == 'pow2' or e % 2 == 0 or a.op in ('br',):
                continue
            if a.op == 'app' and a.args[0].startswith('len'):
                continue
            if a.op == 'ite':
                if nonneg_syn(a.args[1]) and nonneg_syn(a.args[2]):
                    continue
            if a.op == 'var' and a.args[0].startswith('nat'):
                continue
            if a.op == 'mod' or (a.op == 'div' and nonneg_syn(a.args[0])):
                continue
            return False
    return True


def has_pow2_factor(m):
    for a, e in m:
        if a.op == 'pow2':
            return a
    return None


def idiv(a, b):
    """floor division (operands meant to be non negative; the executor makes it an obligation)"""
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0 and isinstance(ca, int) and isinstance(cb, int):
        return I(ca // cb)
    if cb == 1:
        return a
    if not a.items:
        return a
    x = as_atom(a)
    if x is not None and x.op == 'div' and _posdiv(b) and _posdiv(x.args[1]):
        return idiv(x.args[0], mul(x.args[1], b))
    if isinstance(cb, int) and cb > 1 and a.sort == 'I':
        # integral multiples of the divisor come out of a floor division
        quo = {m: c // cb for m, c in a.items if c.denominator == 1 and c % cb == 0}
        if quo:
            q = mkpoly('I', {m: Fraction(c) for m, c in quo.items()})
            return add(q, idiv(sub(a, scale(q, cb)), b))
    return lift(atom('div', (a, b), 'I'))


def _posdiv(b):
    c = cval(b)
    if c is not None:
        return c > 0
    return len(b.items) == 1 and b.items[0][1] > 0 and all(a.op == 'pow2' for a, e in b.items[0][0])


def imod(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0 and isinstance(ca, int) and isinstance(cb, int):
        return I(ca % cb)
    if cb == 1:
        return I(0)
    if not a.items:
        return a
    return sub(a, mul(b, idiv(a, b)))


def mono_div(p, q):
    """exact quotient of the polynomial p by the single-monomial polynomial q, as (quotient, rest)"""
    (mq, cq), = q.items
    dq = dict(mq)
    quo, rest = {}, {}
    for m, c in p.items:
        d = dict(m)
        ok = True
        k = Fraction(c) / cq
        for a, e in dq.items():
            if a.op == 'pow2':
                mine = has_pow2_factor(m)
                if mine is None:
                    ok = False
                    break
                ex = sub(mine.args[0], a.args[0])
                del d[mine]
                kk, r = split_const(ex)
                k = k * Fraction(2) ** int(kk)
                if r.items:
                    d[atom('pow2', (r,), 'I')] = 1
                # the remaining exponent has to be usable: decided by the caller
            else:
                if d.get(a, 0) < e:
                    ok = False
                    break
                d[a] -= e
        if ok:
            mm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
            quo[mm] = quo.get(mm, 0) + k
        else:
            rest[m] = c
    return mkpoly(p.sort, quo), mkpoly(p.sort, rest)


# ---------------------------------------------------------------- booleans

TRUE = _bool('T', ())
FALSE = _bool('F', ())


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le':
        # not (p <= 0) is p >= 1 only when p is an integer
        if all(nonneg_syn(a.args[0]) for m, c in b.args[0].items for a, e in m if a.op == 'pow2'):
            return le0(sub(I(1), b.args[0]))
        return _bool('not', (b,))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return _bool('not', (b,))


def band(*bs):
    s = {}
    st = list(bs)[::-1]
    while st:
        b = st.pop()
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.op == 'and':
            st.extend(b.args[::-1])
            continue
        s[b] = 1
    for b in s:
        if bnot_simple(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _bool('and', tuple(sorted(s, key=lambda x: x.id)))


def bnot_simple(b):
    if b.op in ('and', 'or'):
        return None
    return bnot(b)


def bor(*bs):
    s = {}
    st = list(bs)[::-1]
    while st:
        b = st.pop()
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.op == 'or':
            st.extend(b.args[::-1])
            continue
        s[b] = 1
    for b in s:
        if bnot_simple(b) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # absorption and common factors: (a & x) | (a & y) -> a & (x | y)
    conj = [set(b.args) if b.op == 'and' else {b} for b in s]
    common = set.intersection(*conj)
    if common:
        return band(*(sorted(common, key=lambda x: x.id) + [bor(*[band(*(c - common)) for c in conj])]))
    # a | (!a & x) -> a | x
    lits = {b for b in s if b.op not in ('and',)}
    changed = False
    out = []
    for b in s:
        if b.op == 'and':
            keep = [x for x in b.args if bnot_simple(x) not in lits]
            if len(keep) != len(b.args):
                changed = True
                b = band(*keep)
        out.append(b)
    if changed:
        return bor(*out)
    return _bool('or', tuple(sorted(s, key=lambda x: x.id)))


def implies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    return bor(band(c, a), band(bnot(c), b))


def _content(p):
    """positive rational factor making the coefficients coprime integers"""
    from math import gcd
    num, den = 0, 1
    for m, c in p.items:
        den = den * c.denominator // gcd(den, c.denominator)
    for m, c in p.items:
        num = gcd(num, int(c * den))
    return Fraction(den, num) if num else Fraction(1)


def _strip_pow2(p):
    """divide by a common pow2 factor (always positive)"""
    if not p.items:
        return p
    fac = [has_pow2_factor(m) for m, c in p.items]
    if all(f is not None for f in fac):
        f = fac[0]
        q = mono_poly('I', ((f, 1),))
        quo, rest = mono_div(p, q)
        return quo
    return p


def le0(p):
    """p <= 0"""
    v = cval(p)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    p = _strip_pow2(p)
    v = cval(p)
    if v is not None:
        return TRUE if v <= 0 else FALSE
    # integer tightening when every atom has an integer coefficient and is an integer
    k = _content(p)
    if k != 1:
        # tighten the constant: sum c_i x_i <= -c  with coprime integer c_i
        c0, rest = split_const(p)
        if all(not any(a.op == 'pow2' for a, e in m) for m, c in rest.items):
            kr = _content(rest)
            rest = scale(rest, kr)
            c0 = Fraction(c0) * kr
            import math
            p = add(rest, I(math.ceil(c0)))
        else:
            p = scale(p, k)
    if nonneg_syn(neg(p)):
        return TRUE
    if nonneg_syn(sub(p, I(1))):
        return FALSE
    return _bool('le', (p,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def eq0(p):
    v = cval(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    if p.sort == 'I':
        p = _strip_pow2(p)
        v = cval(p)
        if v is not None:
            return TRUE if v == 0 else FALSE
        p = scale(p, _content(p))
        c0, rest = split_const(p)
        if all(not any(a.op == 'pow2' for a, e in m) for m, c in rest.items):
            kr = _content(rest)
            if (Fraction(c0) * kr).denominator != 1:
                return FALSE
        if nonneg_syn(sub(p, I(1))) or nonneg_syn(sub(neg(p), I(1))):
            return FALSE
        if p.items[-1][1] < 0:
            p = neg(p)
    else:
        # make monic
        p = scale(p, pow(p.items[-1][1], -1, P))
    return _bool('eq', (p,))


def eq(a, b):
    if isinstance(a, Poly):
        return eq0(sub(a, b))
    if isinstance(a, Bool):
        return bite(a, b, bnot(b))
    if a is b:
        return TRUE
    if isinstance(a, Atom):
        if a.op == 'ite':
            return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == 'ite':
            return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.op == 'const' and b.op == 'const':
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return _bool('same', (a, b))
    raise TypeError(a)


# ---------------------------------------------------------------- conditionals

def br(sort, c):
    """1 if c else 0"""
    if c is TRUE:
        return const(sort, 1)
    if c is FALSE:
        return const(sort, 0)
    if c.op == 'and':
        r = const(sort, 1)
        for x in c.args:
            r = mul(r, br(sort, x))
        return r
    if c.op == 'or':
        r = const(sort, 1)
        for x in c.args:
            r = mul(r, sub(const(sort, 1), br(sort, x)))
        return sub(const(sort, 1), r)
    if c.op == 'not':
        return sub(const(sort, 1), br(sort, c.args[0]))
    if c.op == 'le':
        n = le0(sub(I(1), c.args[0]))
        if n.op == 'le' and n.id < c.id:
            return sub(const(sort, 1), lift(atom('br', (n,), sort)))
    return lift(atom('br', (c,), sort))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Bool):
        return bite(c, a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'le':
        n = le0(sub(I(1), c.args[0]))
        if n.op == 'le' and n.id < c.id:
            return ite(n, b, a)
    # nested with the same condition
    aa, ba = as_atom(a), as_atom(b)
    if aa is not None and aa.op == 'ite' and aa.args[0] is c:
        return ite(c, aa.args[1], b)
    if ba is not None and ba.op == 'ite' and ba.args[0] is c:
        return ite(c, a, ba.args[2])
    # ite(x == e, A, B) with B[x:=e] is A
    if c.op == 'eq' and isinstance(b, Poly):
        s = solve_var(c.args[0])
        if s is not None:
            v, e = s
            if v in b.fv and subst(b, {v: e}) is a:
                return b
            if v in a.fv:
                a2 = subst(a, {v: e})
                if a2 is b:
                    return b
    # ite(c1, ite(c2, x, y), y) -> ite(c1 & c2, x, y)
    if aa is not None and aa.op == 'ite' and aa.args[2] is b:
        return ite(band(c, aa.args[0]), aa.args[1], b)
    if ba is not None and ba.op == 'ite' and ba.args[1] is a:
        return ite(bor(c, ba.args[0]), a, ba.args[2])
    return lift(atom('ite', (c, a, b), a.sort))


def solve_var(p, allowed=None):
    """solve p == 0 for a variable with unit coefficient occurring only linearly: (var atom, value)"""
    best = None
    for m, c in p.items:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and (p.sort == 'F' or c in (1, -1)):
            v = m[0][0]
            if allowed is not None and v not in allowed:
                continue
            rest = mkpoly(p.sort, {mm: cc for mm, cc in p.items if mm != m})
            if v in rest.fv:
                continue
            e = scale(rest, Fraction(-1) / c if p.sort == 'I' else -pow(c, -1, P))
            if best is None or v.id > best[0].id:
                best = (v, e)
    return best


def solve_atom(p):
    """solve p == 0 for any atom occurring linearly and not inside the rest: list of (atom, value)"""
    out = []
    for m, c in p.items:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op not in ('pow2',) and (
                p.sort == 'F' or c in (1, -1) or all(mm == m or Fraction(cc, c).denominator == 1 or has_pow2_factor(mm) for mm, cc in p.items)):
            a = m[0][0]
            rest = mkpoly(p.sort, {mm: cc for mm, cc in p.items if mm != m})
            if occurs(a, rest):
                continue
            out.append((a, scale(rest, Fraction(-1) / c if p.sort == 'I' else -pow(c, -1, P))))
    return out


# ---------------------------------------------------------------- binders

def lam(params, body):
    """params: tuple of var atoms (any sort; sort 'fun' for function variables)"""
    bodies = body if isinstance(body, tuple) else (body,)
    fv, h = _meta(bodies)
    h += 1
    ren = {}
    ps = []
    for j, p in enumerate(params):
        q = atom('var', ('#%d.%d' % (h, j),), p.sort)
        ps.append(q)
        ren[p] = lift_if(q)
    nb = tuple(subst(b, ren) for b in bodies)
    if not isinstance(body, tuple):
        nb = nb[0]
    return _mklam(tuple(ps), nb, h)


def _mklam(ps, body, h):
    k = ('L', ps, body)
    r = _tab.get(k)
    if r is None:
        r = Lam()
        r.params, r.body, r.id = ps, body, next(_ids)
        fv, _ = _meta((body,))
        r.fv = fv - frozenset(ps)
        r.h = h
        _tab[k] = r
    return r


def lam_apply(l, args):
    m = dict(zip(l.params, args))
    if isinstance(l.body, tuple):
        return tuple(subst(b, m) for b in l.body)
    return subst(l.body, m)


_opened = {}


def lam_open_in(l, avoid, name='b'):
    """lam_open with the same variables each time, other than those of the set avoid"""
    k = 0
    while True:
        r = _opened.get((l, k, name))  # (kept for the whole run)
        if r is None:
            vs = [atom('var', ('%s~%d.%d%s' % (name, l.id, j, '.%d' % k if k else ''),), p.sort) for j, p in enumerate(l.params)]
            r = _opened[(l, k, name)] = vs, lam_apply(l, [lift(v) if v.sort in ('I', 'F', 'B') else v for v in vs])
        if not any(v in avoid for v in r[0]):
            return list(r[0]), r[1]
        k += 1


def lam_open(l, names=None):
    vs = []
    for j, p in enumerate(l.params):
        v = atom('var', ('%s~%d' % ((names[j] if names else 'b'), next(_open)),), p.sort)
        vs.append(v)
    return vs, lam_apply(l, [lift(v) if v.sort in ('I', 'F', 'B') else v for v in vs])


_open = itertools.count(1)


def forall(x, n, body):
    """forall 0 <= x < n: body.  x: var atom"""
    if body is TRUE:
        return TRUE
    v = cval(n)
    if v is not None:
        if v <= 0:
            return TRUE
        if v <= 2:
            return band(*[subst(body, {x: I(i)}) for i in range(int(v))])
    if x not in body.fv and nonneg_syn(sub(n, I(1))):
        return body
    # drop conditions on x that the range gives
    return _bool('all', (n, lam((x,), body)))


def exists(x, n, body):
    return bnot(forall(x, n, bnot(body)))


# ---------------------------------------------------------------- sums

def expand_ites(p, xs):
    """turn the conditionals of polynomial p that depend on xs into brackets"""
    again = True
    while again:
        again = False
        for m, c in p.items:
            for a, e in m:
                if a.op == 'ite' and (a.fv & xs):
                    again = True
                    b = br(p.sort, a.args[0])
                    val = add(a.args[2], mul(b, sub(a.args[1], a.args[2])))
                    p = replace_atom_top(p, a, val)
                    break
            if again:
                break
    return p


def replace_atom_top(p, a, val):
    r = const(p.sort, 0)
    for m, c in p.items:
        d = dict(m)
        e = d.pop(a, 0)
        mm = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
        t = mkpoly(p.sort, {mm: c})
        for _ in range(e):
            t = mul(t, val)
        r = add(r, t)
    return r


def mk_sum(x, n, body):
    """sum over 0 <= x < n of body; x var atom"""
    if not body.items:
        return body
    v = cval(n)
    if v is not None and v <= 0:
        return const(body.sort, 0)
    if v is not None and v <= 2:
        r = const(body.sort, 0)
        for i in range(int(v)):
            r = add(r, subst(body, {x: I(i)}))
        return r
    body = expand_ites(body, frozenset([x]))
    r = const(body.sort, 0)
    for m, c in body.items:
        r = add(r, scale(sum_mono(body.sort, [(x, n)], m), c))
    return r


def of_nat(sort, n):
    """cardinal of the range 0..n"""
    v = cval(n)
    if v is not None:
        return const(sort, max(0, v))
    if not nonneg_syn(n):
        n = ite(le0(neg(n)), n, I(0))
    return n if sort == 'I' else ofint(n)


def sum_mono(sort, binders, m):
    binders = list(binders)
    bset = {x for x, n in binders}
    facs = []
    outer = const(sort, 1)
    st = list(m)
    while st:
        a, e = st.pop()
        if a.op == 'sum' and (a.fv & bset) and not any((n.fv & bset) for n in a.args[0]):
            for _ in range(e):
                vs, b = lam_open(a.args[1])
                binders.extend(zip(vs, a.args[0]))
                bset |= set(vs)
                (mm, cc), = b.items
                assert cc == 1 or cc == Fraction(1), cc
                st.extend(mm)
            continue
        facs.append((a, e))
    mm = {}
    for a, e in facs:
        mm[a] = mm.get(a, 0) + e
    c0, mono = _mono_norm(sort, mm)
    if c0 == 0:
        return const(sort, 0)
    # collapse brackets
    for a, e in mono:
        if a.op == 'br' and a.args[0].op == 'eq' and a.args[0].args[0].sort == 'I' and (a.fv & bset):
            p = a.args[0].args[0]
            rest_m = tuple((b, k) for b, k in mono if b is not a)
            r = _collapse(sort, binders, bset, p, rest_m)
            if r is not None:
                return scale(r, c0) if c0 != 1 else r
    # x*g <= h < x*g + g  =>  x = h div g
    les = [a for a, e in mono if a.op == 'br' and a.args[0].op == 'le' and (a.fv & bset)]
    for a in les:
        for b in les:
            if a is b:
                continue
            # a: x*g - h <= 0 ; b: h - x*g - g + 1 <= 0 ; sum = 1 - g
            g = sub(I(1), add(a.args[0].args[0], b.args[0].args[0]))
            if g.fv & bset or not g.items:
                continue
            p = a.args[0].args[0]
            for x, n in binders:
                if x not in p.fv or (n.fv & bset):
                    continue
                h = sub(mul(lift(x), g), p)
                if h.fv & bset:
                    continue
                xe = idiv(h, g)
                rest_m = tuple((c, k) for c, k in mono if c is not a and c is not b)
                body2 = subst(mono_poly(sort, rest_m), {x: xe})
                body2 = mul(body2, br(sort, band(le(I(0), xe), lt(xe, n), le(I(1), g))))
                r = _resum(sort, [(z, m) for z, m in binders if z is not x], body2)
                return scale(r, c0) if c0 != 1 else r
    # independent factors and connected components
    bx = [x for x, n in binders]
    comps = []  # list of (set of binders, dict)
    for a, e in mono:
        dep = a.fv & bset
        if not dep:
            t = const(sort, 1)
            for _ in range(e):
                t = mul(t, lift(a))
            outer = mul(outer, t)
            continue
        cur = (set(dep), [(a, e)])
        rest = []
        for s, fs in comps:
            if s & cur[0]:
                cur = (cur[0] | s, cur[1] + fs)
            else:
                rest.append((s, fs))
        comps = rest + [cur]
    # bounds that depend on other binders link components
    used = set()
    for s, fs in comps:
        used |= s
    res = outer
    for x, n in binders:
        if x not in used:
            if n.fv & bset:
                # dependent bound: keep as a component of its own with a trivial body
                raise TooBig('dependent bound')
            res = mul(res, of_nat(sort, n))
    for s, fs in comps:
        bs = [(x, n) for x, n in binders if x in s]
        res = mul(res, _sum_atom(sort, bs, tuple(sorted(fs, key=lambda ae: ae[0].id))))
    return scale(res, c0) if c0 != 1 else res


def _collapse(sort, binders, bset, p, rest_m):
    bd = dict(binders)
    body = mono_poly(sort, rest_m)
    # h = x*g + y with y < g
    lin = {}
    for m, c in p.items:
        xs = [a for a, e in m if a in bset]
        if len(xs) == 1 and dict(m)[xs[0]] == 1:
            others = tuple((a, e) for a, e in m if a is not xs[0])
            if any((a.fv & bset) for a, e in others):
                return None
            lin.setdefault(xs[0], {})[others] = c
        elif any((a.fv & bset) for a, e in m):
            return None
    free = mkpoly('I', {m: c for m, c in p.items if not any((a.fv & bset) for a, e in m)})
    cs = {x: mkpoly('I', d) for x, d in lin.items()}
    for sgn in (1, -1):
        for y, cy in cs.items():
            if cval(cy) == sgn and not (bd[y].fv & bset):
                g = bd[y]
                for x, cx in cs.items():
                    if x is not y and scale(cx, sgn) is g and not (bd[x].fv & bset):
                        others = [z for z in cs if z not in (x, y)]
                        h = scale(free, -sgn)
                        for z in others:
                            h = sub(h, scale(mul(cs[z], lift(z)), sgn))
                        xe, ye = idiv(h, g), imod(h, g)
                        body2 = subst(body, {x: xe, y: ye})
                        body2 = mul(body2, br(sort, band(le(I(0), h), lt(xe, bd[x]), le(I(1), g))))
                        return _resum(sort, [(z, n) for z, n in binders if z not in (x, y)], body2)
    for x, cx in cs.items():
        k = cval(cx)
        if k in (1, -1) and not (bd[x].fv & bset):
            e = scale(sub(p, scale(lift(x), k)), -k)
            if x in e.fv:
                continue
            body2 = subst(body, {x: e})
            body2 = mul(body2, br(sort, band(le(I(0), e), lt(e, bd[x]))))
            return _resum(sort, [(z, n) for z, n in binders if z is not x], body2)
    return None


def _resum(sort, binders, body):
    for x, n in binders:
        body = mk_sum(x, n, body)
    return body


def _sum_atom(sort, bs, mono):
    body = mono_poly(sort, mono)
    if len(bs) == 1:
        return lift(atom('sum', ((bs[0][1],), lam((bs[0][0],), body)), sort))
    best = None
    groups = {}
    for x, n in bs:
        groups.setdefault(n, []).append(x)
    ns = sorted(groups, key=lambda n: n.id)
    perms = [list(itertools.permutations(groups[n])) for n in ns]
    bounds = tuple(n for n in ns for _ in groups[n])
    for choice in itertools.product(*perms):
        order = tuple(x for g in choice for x in g)
        a = atom('sum', (bounds, lam(order, body)), sort)
        if best is None or a.id < best.id:
            best = a
    return lift(best)


def mk_prod(x, n, body):
    v = cval(n)
    if v is not None and v <= 2:
        r = const(body.sort, 1)
        for i in range(max(0, int(v))):
            r = mul(r, subst(body, {x: I(i)}))
        return r
    if cval(body) == 1:
        return body
    return lift(atom('prod', (n, lam((x,), body)), body.sort))


def ofint(p):
    """image of an integer in the field"""
    r = Fc(0)
    for m, c in p.items:
        t = Fc(c if c.denominator != 1 else int(c))
        for a, e in m:
            if a.op == 'ite':
                v = ite(a.args[0], ofint(a.args[1]), ofint(a.args[2]))
            elif a.op == 'br':
                v = br('F', a.args[0])
            else:
                v = lift(atom('ofint', (lift(a),), 'F'))
            for _ in range(e):
                t = mul(t, v)
        r = add(r, t)
    return r


def fpow(x, e):
    """x^e with a symbolic exponent e >= 0"""
    v = cval(e)
    if v is not None and 0 <= v <= 16:
        return power(x, int(v))
    c = cval(x)
    if c == 1:
        return const('F', 1)
    if c == 0:
        return br('F', eq(e, const('I', 0)))
    k, rest = split_const(e)
    if k > 0 and k <= 16:
        return mul(power(x, int(k)), fpow(x, rest))
    return lift(atom('fpow', (x, e), 'F'))


def app(name, args, sort):
    return lift(atom('app', (name,) + tuple(args), sort))


def fapp(f, args, sort):
    """application of a function variable f (atom of sort 'fun') """
    return lift(atom('fapp', (f,) + tuple(args), sort))


# recursion: rec(comp, lam over (t, x_1..x_m) -> (step_1..step_m), (base_1..base_m), t)
def mk_rec(comp, step, bases, t):
    v = cval(t)
    if v == 0:
        return bases[comp]
    return lift(atom('rec', (comp, step, tuple(bases), t), bases[comp].sort))


def rec_step(a, t):
    """value of recursion atom a at t+1, in terms of its values at t"""
    comp, step, bases, _ = a.args
    prev = [mk_rec(i, step, bases, t) for i in range(len(bases))]
    return lam_apply(step, [t] + prev)[comp]


# array recursion: arec(lam (t, k..., A) -> value, lam (k...) -> base, t, ks)
def mk_arec(step, base, t, ks):
    if cval(t) == 0:
        return lam_apply(base, list(ks))
    b = base.body
    return lift(atom('arec', (step, base, t, tuple(ks)), b.sort))


def arec_step(a, t, ks):
    step, base = a.args[0], a.args[1]
    f = step.params[-1]
    vs = step.params
    body = step.body
    # replace fapp(f, args) by arec(step, base, t, args)
    return subst(body, dict(zip(vs[:-1], [t] + list(ks))), fun={f: (lambda args: mk_arec(step, base, t, args))})


# ---------------------------------------------------------------- substitution

def as_atom_fv(x):
    return x.fv if isinstance(x, Node) else ()


def _allfv(t):
    if isinstance(t, tuple):
        return set().union(*[_allfv(x) for x in t])
    return t.fv if isinstance(t, Node) else set()


def subst(t, m, fun=None):
    """m: {Atom: Node}; fun: {function atom: callable(args)}"""
    if not m and not fun:
        return t
    s = _Sub(m, fun)
    s.root = t
    return s.go(t)


class _Sub:
    def __init__(self, m, fun):
        self.m = {k: v for k, v in m.items() if lift_if(k) is not v}
        self.fun = fun or {}
        self.keys = set()
        self.complex = False
        for k in self.m:
            if k.op == 'var':
                self.keys.add(k)
            else:
                self.complex = True
        self.keys |= set(self.fun)
        self.cache = {}
        self.avoid = None

    def go(self, t):
        if isinstance(t, tuple):
            return tuple(self.go(x) for x in t)
        if not isinstance(t, Node):
            return t
        if not self.complex and not (t.fv & self.keys):
            return t
        r = self.cache.get(t)
        if r is None:
            r = self._go(t)
            self.cache[t] = r
        return r

    def _go(self, t):
        if isinstance(t, Poly):
            r = {}
            acc = None
            for m, c in t.items:
                changed = []
                keep = []
                for a, e in m:
                    na = self.atom(a)
                    if na is None:
                        keep.append((a, e))
                    else:
                        changed.append((na, e))
                if not changed:
                    x = r.get(m, 0) + c
                    r[m] = x % P if t.sort == 'F' else x
                else:
                    p = mkpoly(t.sort, {tuple(keep): c})
                    for v, e in changed:
                        for _ in range(e):
                            p = mul(p, v)
                    acc = p if acc is None else add(acc, p)
            base = mkpoly(t.sort, r)
            return base if acc is None else add(base, acc)
        if isinstance(t, Atom):
            n = self.atom(t)
            return t if n is None else (n if n.__class__ is not Poly or t.sort in ('I', 'F') else n)
        if isinstance(t, Bool):
            op, a = t.op, t.args
            if op in ('T', 'F'):
                return t
            if op == 'atom':
                n = self.atom(a[0])
                return t if n is None else n
            if op == 'not':
                return bnot(self.go(a[0]))
            if op == 'and':
                return band(*[self.go(x) for x in a])
            if op == 'or':
                return bor(*[self.go(x) for x in a])
            if op == 'le':
                return le0(self.go(a[0]))
            if op == 'eq':
                return eq0(self.go(a[0]))
            if op == 'same':
                return eq(self.go(a[0]), self.go(a[1]))
            if op == 'all':
                vs, b = self.open(a[1])
                return forall(vs[0], self.go(a[0]), self.go(b))
            if op == 'bapp':
                return _bool('bapp', (a[0],) + tuple(self.go(x) for x in a[1:]))
            raise TypeError(op)
        if isinstance(t, Lam):
            vs, b = self.open(t)
            nb = self.go(b)
            return lam(tuple(vs), nb)
        raise TypeError(t)

    def open(self, l):
        if self.fun:
            return lam_open(l)
        if self.avoid is None:
            self.avoid = set(self.keys) | _allfv(self.root)
            for k, v in self.m.items():
                self.avoid |= _allfv(k) | _allfv(v)
        return lam_open_in(l, self.avoid, 's')

    def atom(self, a):
        """None if unchanged, otherwise the new term"""
        if a in self.m:
            return self.m[a]
        if not self.complex and not (a.fv & self.keys):
            return None
        r = self.cache.get(a)
        if r is not None:
            return r if r is not a else None
        n = self._atom(a)
        self.cache[a] = n if n is not None else a
        return n

    def _atom(self, a):
        op, x = a.op, a.args
        if op == 'var' or op == 'const':
            return None
        if op == 'fapp':
            args = tuple(self.go(y) for y in x[1:])
            if x[0] in self.fun:
                return self.fun[x[0]](args)
            f = self.m.get(x[0], x[0])
            if f is x[0] and args == x[1:]:
                return None
            return fapp(f, args, a.sort)
        if op == 'sum':
            vs, b = self.open(x[1])
            b = self.go(b)
            r = b
            for v, n in reversed(list(zip(vs, x[0]))):
                r = mk_sum(v, self.go(n), r)
            return None if as_atom(r) is a else r
        if op == 'prod':
            vs, b = self.open(x[1])
            r = mk_prod(vs[0], self.go(x[0]), self.go(b))
            return None if as_atom(r) is a else r
        nx = tuple(self.go(y) for y in x)
        if nx == x:
            return None
        return rebuild(op, nx, a.sort)


def lift_if(a):
    return lift(a) if a.sort in ('I', 'F', 'B') else a


def rebuild(op, x, sort):
    if op == 'pow2':
        return pow2(x[0])
    if op == 'div':
        return idiv(*x)
    if op == 'mod':
        return imod(*x)
    if op == 'ite':
        return ite(*x)
    if op == 'br':
        return br(sort, x[0])
    if op == 'ofint':
        return ofint(x[0])
    if op == 'fpow':
        return fpow(*x)
    if op == 'inv':
        return inv(x[0])
    if op == 'rec':
        return mk_rec(*x)
    if op == 'arec':
        return mk_arec(*x)
    if op == 'app' and x[0] in APP_HOOK:
        r = APP_HOOK[x[0]](x[1:], sort)
        if r is not None:
            return r
    return lift(atom(op, x, sort))


APP_HOOK = {}


def inv(p):
    v = cval(p)
    if v is not None:
        return Fc(pow(v, -1, P)) if v else Fc(0)
    return lift(atom('inv', (p,), 'F'))


def occurs(a, t, _c=None):
    if a.op == 'var':
        return a in t.fv
    c = {} if _c is None else _c
    if t in c:
        return c[t]
    if t is a:
        return True
    r = False
    if isinstance(t, Poly):
        r = any(b is a or occurs(a, b, c) for m, _ in t.items for b, e in m)
    elif isinstance(t, Lam):
        bs = t.body if isinstance(t.body, tuple) else (t.body,)
        r = any(occurs(a, b, c) for b in bs)
    else:
        st = list(t.args)
        while st and not r:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Node):
                r = occurs(a, x, c)
    c[t] = r
    return r


def atoms_in(t, pred, out=None, seen=None, under=False):
    """top-level (not under binders unless under) atoms satisfying pred"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if isinstance(t, Poly):
        for m, c in t.items:
            for a, e in m:
                atoms_in(a, pred, out, seen, under)
        return out
    if isinstance(t, Atom):
        if pred(t):
            out.append(t)
        st = list(t.args)
    elif isinstance(t, Lam):
        if under:
            for b in (t.body if isinstance(t.body, tuple) else (t.body,)):
                atoms_in(b, pred, out, seen, under)
        return out
    else:
        st = list(t.args)
    st = st[::-1]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x[::-1])
        elif isinstance(x, Lam):
            if under:
                atoms_in(x, pred, out, seen, under)
        elif isinstance(x, Node):
            atoms_in(x, pred, out, seen, under)
    return out


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 12:
        return '...'
    if isinstance(t, Poly):
        if not t.items:
            return '0'
        out = []
        for m, c in t.items:
            if t.sort == 'F' and c > P // 2:
                c = c - P
            ms = '*'.join(show(a, d + 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        s = ' + '.join(out).replace('+ -', '- ')
        return s if len(out) == 1 else '(' + s + ')'
    if isinstance(t, Atom):
        x = t.args
        if t.op == 'var':
            return x[0]
        if t.op == 'const':
            return repr(x[0])
        if t.op == 'app':
            return x[0] + '(' + ', '.join(show(y, d + 1) for y in x[1:]) + ')'
        if t.op == 'fapp':
            return x[0].args[0] + '(' + ', '.join(show(y, d + 1) for y in x[1:]) + ')'
        if t.op == 'sum':
            return 'sum[%s](%s)' % (', '.join('%s<%s' % (p.args[0], show(n, d + 1)) for p, n in zip(x[1].params, x[0])), show(x[1].body, d + 1))
        if t.op == 'prod':
            return 'prod[%s<%s](%s)' % (x[1].params[0].args[0], show(x[0], d + 1), show(x[1].body, d + 1))
        if t.op == 'pow2':
            return '2^(%s)' % show(x[0], d + 1)
        if t.op == 'ite':
            return '(%s ? %s : %s)' % tuple(show(y, d + 1) for y in x)
        if t.op == 'br':
            return '[%s]' % show(x[0], d + 1)
        return t.op + '(' + ', '.join(show(y, d + 1) if isinstance(y, (Node, tuple)) else str(y) for y in x) + ')'
    if isinstance(t, Bool):
        x = t.args
        if t.op in 'TF':
            return {'T': 'true', 'F': 'false'}[t.op]
        if t.op == 'le':
            return '%s <= 0' % show(x[0], d + 1)
        if t.op == 'eq':
            return '%s == 0' % show(x[0], d + 1)
        if t.op == 'not':
            return '!(%s)' % show(x[0], d + 1)
        if t.op == 'and':
            return '(' + ' && '.join(show(y, d + 1) for y in x) + ')'
        if t.op == 'or':
            return '(' + ' || '.join(show(y, d + 1) for y in x) + ')'
        if t.op == 'all':
            return 'forall %s<%s: %s' % (x[1].params[0].args[0], show(x[0], d + 1), show(x[1].body, d + 1))
        if t.op == 'same':
            return '%s === %s' % (show(x[0], d + 1), show(x[1], d + 1))
        if t.op == 'atom':
            return show(x[0], d + 1)
        return t.op + '(' + ', '.join(show(y, d + 1) if isinstance(y, (Node, tuple)) else str(y) for y in x) + ')'
    if isinstance(t, Lam):
        return '\\%s. %s' % (','.join(p.args[0] for p in t.params), show(t.body, d + 1))
    if isinstance(t, tuple):
        return '<' + ', '.join(show(y, d + 1) for y in t) + '>'
    return str(t)


# ------------------------------------------------------------------ strings

def strcat(*parts):
    """normal form of a concatenation: constants merged, no nesting"""
    out = []
    for p in parts:
        for q in (p.args[1:] if p.op == 'app' and p.args[0] == 'strcat' else (p,)):
            if q.op == 'const':
                if q.args[0] == '':
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = atom('const', (out[-1].args[0] + q.args[0],), 'S')
                    continue
            out.append(q)
    if not out:
        return atom('const', ('',), 'S')
    if len(out) == 1:
        return out[0]
    return atom('app', ('strcat',) + tuple(out), 'S')


def decimal(x):
    """decimal representation of an integer or (canonical) of a field element"""
    c = cval(x)
    if c is not None and c == int(c):
        return atom('const', (str(int(c)),), 'S')
    return atom('app', ('frString' if x.sort == 'F' else 'intString', x), 'S')


# ------------------------------------------------------------------ running maximum

def mk_maxo(init, n, l):
    """max(init, l(0), ..., l(n-1))"""
    v = cval(n)
    if v is not None and v <= 0:
        return init
    k, rest = split_const(n)
    if k > 0 and nonneg_syn(rest) and k <= 4:
        r = mk_maxo(init, rest, l)
        for i in range(int(k)):
            g = lam_apply(l, [add(rest, I(i))])
            r = ite(lt(r, g), g, r)
        return r
    return lift(atom('app', ('maxo', init, n, l), 'I'))


def _maxo_hook(args, sort):
    r = mk_maxo(*args)
    a = as_atom(r)
    if a is not None and a.op == 'app' and a.args[0] == 'maxo':
        return None
    return r


APP_HOOK['maxo'] = _maxo_hook


def maxo_facts(m):
    """m an atom maxo"""
    _, init, n, l = m.args
    M = lift(m)
    u = as_atom(fresh('u'))
    g = lam_apply(l, [lift(u)])
    return [le(init, M), forall(u, n, le(g, M)), bor(eq(M, init), exists(u, n, eq(g, M)))]
