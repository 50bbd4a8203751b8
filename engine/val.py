"""Structured values and memory templates."""
from term import *
import term as T

DIM = [T.lift(T.atom('var', ('$%d' % i,), 'I')) for i in range(10)]
DIMA = [T.as_atom(d) for d in DIM]


class MergeFail(Exception):
    pass


class Unsupported(Exception):
    pass


class Region:
    """a family of objects of one type; fam = number of family indices"""
    __slots__ = ('name', 'tid', 'fam', 'kind', 'n')
    _tab = {}

    def __new__(cls, name, tid, fam, kind):
        k = (name, tid, fam, kind)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.name, r.tid, r.fam, r.kind = k
            r.n = len(cls._tab)
            cls._tab[k] = r
        return r

    def __repr__(self):
        return '<%s>' % self.name


class V:
    __slots__ = ()


class Struct(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Struct) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


class Arr(V):
    """array value or template: n elements (n None when unbounded), e over the next placeholder"""
    __slots__ = ('e', 'd', 'n')

    def __init__(self, e, d, n=None):
        self.e, self.d, self.n = e, d, n

    def __eq__(self, o):
        return isinstance(o, Arr) and self.e == o.e and self.d == o.d

    def __hash__(self):
        return hash((self.e, self.d))

    def __repr__(self):
        return '[$%d: %r]' % (self.d, self.e)


class Ptr(V):
    __slots__ = ('r', 'fam', 'path')

    def __init__(self, r, fam, path):
        self.r, self.fam, self.path = r, tuple(fam), tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.r, self.fam, self.path) == (o.r, o.fam, o.path)

    def __hash__(self):
        return hash((self.r, self.fam, self.path))

    def __repr__(self):
        return '&%r%s%s' % (self.r, list(self.fam) if self.fam else '', ''.join('.%d' % p if isinstance(p, int) else '[%r]' % p for p in self.path))


class Slice(V):
    """p: pointer to the array (None for nil), off/len/cap"""
    __slots__ = ('p', 'off', 'len', 'cap')

    def __init__(self, p, off, ln, cap):
        self.p, self.off, self.len, self.cap = p, off, ln, cap

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.p, self.off, self.len, self.cap) == (o.p, o.off, o.len, o.cap)

    def __hash__(self):
        return hash((self.p, self.off, self.len, self.cap))

    def __repr__(self):
        return '%r[%r:+%r:%r]' % (self.p, self.off, self.len, self.cap)


NILSLICE = Slice(None, T.I(0), T.I(0), T.I(0))


class Obj(V):
    """opaque or structured value compared by identity of its key"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Obj) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return '%s%r' % (self.k, self.a)


NIL = Obj('nil')


def vmap(v, f):
    """map f over the terms of a value"""
    if isinstance(v, (Poly, Bool, Atom)):
        return f(v)
    if isinstance(v, Struct):
        return Struct([vmap(x, f) for x in v.f])
    if isinstance(v, Arr):
        return Arr(vmap(v.e, f), v.d, v.n)
    if isinstance(v, Ptr):
        return Ptr(v.r, [f(x) for x in v.fam], [p if isinstance(p, int) else f(p) for p in v.path])
    if isinstance(v, Slice):
        return Slice(vmap(v.p, f) if v.p is not None else None, f(v.off), f(v.len), f(v.cap))
    if isinstance(v, Obj):
        if not v.a:
            return v
        r = [vmap(x, f) if isinstance(x, (V, Poly, Bool, Atom, tuple)) else x for x in v.a]
        if v.k == 'ite':
            return cond_obj(*r)
        return Obj(v.k, *r)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    return v


def vterms(v, out):
    vmap(v, lambda x: (out.append(x), x)[1])
    return out


def vsubst(v, m):
    if not m:
        return v

    def f(x):
        r = T.subst(x, m)
        if isinstance(x, Atom) and isinstance(r, Poly):
            r = T.as_atom(r) or r
        return r
    return vmap(v, f)


def cond_obj(c, a, b):
    if c is T.TRUE or a == b:
        return a
    if c is T.FALSE:
        return b
    return Obj('ite', c, a, b)


def merge_obj(c, a, b):
    """merge; values of different shapes are kept side by side"""
    try:
        return merge(c, a, b)
    except MergeFail:
        if isinstance(a, Struct) and isinstance(b, Struct) and len(a.f) == len(b.f):
            return Struct([merge_obj(c, x, y) for x, y in zip(a.f, b.f)])
        return cond_obj(c, a, b)


def is_boxed(v):
    return isinstance(v, Obj) and v.k == 'iface' and isinstance(v.a[-1], Poly)


def as_opt(v):
    if v.k == 'opt':
        return v.a
    if v == NIL:
        return T.FALSE, None
    if is_boxed(v):
        return T.TRUE, v
    raise MergeFail()


def merge(c, a, b):
    """value that is a when c, b otherwise"""
    if a is b or a == b:
        return a
    if isinstance(a, (Poly, Bool)) and a.__class__ is b.__class__:
        return T.ite(c, a, b)
    if isinstance(a, Atom) and isinstance(b, Atom):
        r = T.ite(c, a, b)
        return r
    if isinstance(a, Struct) and isinstance(b, Struct):
        return Struct([merge(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Arr) and isinstance(b, Arr) and a.d == b.d:
        return Arr(merge(c, a.e, b.e), a.d, a.n)
    if isinstance(a, Slice) and isinstance(b, Slice):
        if a.p is None:
            p = b.p
            off = b.off
        elif b.p is None:
            p = a.p
            off = a.off
        else:
            p = merge(c, a.p, b.p)
            off = merge(c, a.off, b.off)
        return Slice(p, off, merge(c, a.len, b.len), merge(c, a.cap, b.cap))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and len(a.path) == len(b.path):
        path = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, int) or isinstance(y, int):
                if x != y:
                    raise MergeFail()
                path.append(x)
            else:
                path.append(merge(c, x, y))
        return Ptr(a.r, [merge(c, x, y) for x, y in zip(a.fam, b.fam)], path)
    if isinstance(a, Ptr) and b == NIL:
        return a
    if isinstance(b, Ptr) and a == NIL:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj) and ('opt' in (a.k, b.k) or (a == NIL and is_boxed(b)) or (b == NIL and is_boxed(a))):
        # a boxed value or nil
        ca, va = as_opt(a)
        cb, vb = as_opt(b)
        return Obj('opt', T.ite(c, ca, cb), va if vb is None else vb if va is None else merge(c, va, vb))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k and len(a.a) == len(b.a):
        if all(isinstance(x, (V, Poly, Bool, Atom, tuple)) or x == y for x, y in zip(a.a, b.a)):
            return Obj(a.k, *[merge(c, x, y) if isinstance(x, (V, Poly, Bool, Atom, tuple)) else x for x, y in zip(a.a, b.a)])
    raise MergeFail()


def tmpl_get(t, path, binds, depth):
    """navigate template t; binds collects {placeholder atom: term}; returns (node, depth)"""
    for p in path:
        if isinstance(p, int):
            t = t.f[p]
        else:
            if not isinstance(t, Arr):
                raise Unsupported('index into %r' % (t,))
            binds[DIMA[depth]] = p
            depth += 1
            t = t.e
    return t, depth


def pick(v, binds):
    """the branch of a chain of conditionals on indices, for literal indices"""
    m = {a: x for a, x in binds.items() if cval(x) is not None}
    if not m:
        return v
    while True:
        a = T.as_atom(v)
        if a is None or a.op != 'ite' or not (a.args[0].fv & set(m)):
            return v
        c = a.args[0]
        t = True
        for l in (c.args if c.op == 'and' else (c,)):
            if l.op != 'eq' or not (l.args[0].fv <= set(m)) or not l.args[0].fv:
                return v
            t = T.subst(l, m)
            if t is T.FALSE:
                break
            if t is not T.TRUE:
                return v
        v = a.args[1] if t is T.TRUE else a.args[2]


def shift(v, k):
    """rename the placeholders from depth k on to start at 0 (k > 0) or from 0 to start at -k (k < 0)"""
    if k == 0:
        return v
    if k > 0:
        m = {DIMA[i]: DIM[i - k] for i in range(k, 10)}
    else:
        m = {DIMA[i]: DIM[i - k] for i in range(0, 10 + k)}
    v = vsubst(v, m)

    def fix(x):
        if isinstance(x, Arr):
            return Arr(fix(x.e), x.d - k, x.n)
        if isinstance(x, Struct):
            return Struct([fix(y) for y in x.f])
        return x
    return fix(v)


def leaves(v, out=None, path=()):
    """[(path, term)] of the scalar leaves; slices and pointers contribute their header terms"""
    if out is None:
        out = []
    if isinstance(v, (Poly, Bool, Atom)):
        out.append((path, v))
    elif isinstance(v, Struct):
        for i, x in enumerate(v.f):
            leaves(x, out, path + (i,))
    elif isinstance(v, Arr):
        leaves(v.e, out, path + ('e',))
    elif isinstance(v, Slice):
        if v.p is not None:
            leaves(v.p, out, path + ('p',))
        out.append((path + ('off',), v.off))
        out.append((path + ('len',), v.len))
        out.append((path + ('cap',), v.cap))
    elif isinstance(v, Ptr):
        for i, x in enumerate(v.fam):
            out.append((path + (('fam', i),), x))
        for i, x in enumerate(v.path):
            if not isinstance(x, int):
                out.append((path + (('ix', i),), x))
    elif isinstance(v, Obj):
        for i, x in enumerate(v.a):
            if isinstance(x, (V, Poly, Bool, Atom)):
                leaves(x, out, path + (('o', i),))
    return out


def rebuild_leaves(v, m, path=()):
    """replace leaves by m[path]"""
    if isinstance(v, (Poly, Bool, Atom)):
        return m.get(path, v)
    if isinstance(v, Struct):
        return Struct([rebuild_leaves(x, m, path + (i,)) for i, x in enumerate(v.f)])
    if isinstance(v, Arr):
        return Arr(rebuild_leaves(v.e, m, path + ('e',)), v.d, v.n)
    if isinstance(v, Slice):
        return Slice(rebuild_leaves(v.p, m, path + ('p',)) if v.p is not None else None,
                     m.get(path + ('off',), v.off), m.get(path + ('len',), v.len), m.get(path + ('cap',), v.cap))
    if isinstance(v, Ptr):
        return Ptr(v.r, [m.get(path + (('fam', i),), x) for i, x in enumerate(v.fam)],
                   [x if isinstance(x, int) else m.get(path + (('ix', i),), x) for i, x in enumerate(v.path)])
    if isinstance(v, Obj):
        return Obj(v.k, *[rebuild_leaves(x, m, path + (('o', i),)) if isinstance(x, (V, Poly, Bool, Atom)) else x for i, x in enumerate(v.a)])
    return v


def skeleton(v):
    """the shape of a value without its terms"""
    if isinstance(v, Poly):
        return ('t', v.sort)
    if isinstance(v, Bool):
        return ('t', 'B')
    if isinstance(v, Atom):
        return ('t', v.sort)
    if isinstance(v, Struct):
        return ('s',) + tuple(skeleton(x) for x in v.f)
    if isinstance(v, Arr):
        return ('a', v.d, skeleton(v.e))
    if isinstance(v, Slice):
        return ('sl', skeleton(v.p) if v.p is not None else None)
    if isinstance(v, Ptr):
        return ('p', v.r, tuple(x if isinstance(x, int) else 'i' for x in v.path))
    if isinstance(v, Obj):
        return ('o', v.k) + tuple(skeleton(x) if isinstance(x, (V, Poly, Bool, Atom)) else x for x in v.a)
    return v


def ndims(v):
    """number of placeholders used above: depth of the deepest leaf per path -> dict path->dims"""
    out = {}

    def go(v, path, d):
        if isinstance(v, Arr):
            go(v.e, path + ('e',), d + 1)
        elif isinstance(v, Struct):
            for i, x in enumerate(v.f):
                go(x, path + (i,), d)
        else:
            for p, t in leaves(v, None, path):
                out[p] = d
    go(v, (), 0)
    return out


def refs_of(v, out):
    if isinstance(v, Ptr):
        out.add(v.r)
    elif isinstance(v, Slice):
        if v.p is not None:
            out.add(v.p.r)
    elif isinstance(v, Struct):
        for x in v.f:
            refs_of(x, out)
    elif isinstance(v, Arr):
        refs_of(v.e, out)
    elif isinstance(v, Obj):
        for x in v.a:
            refs_of(x, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            refs_of(x, out)
