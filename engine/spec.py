"""Contracts: text format, evaluation over symbolic states, verification of a function against its
contract, and use of a contract at a call site (the body of the callee is not looked at there)."""
import ast
import re
import time
from term import *
import term as T
import prove as PV
from prove import entails, simp
from val import *
import val as VL
import intr
import loops as LP
import race as RC
from exec import St, GiveUp, FR, VAR, Exec

MOD = 'gkr-mimc/'


class SpecError(Exception):
    pass


class Seq:
    """a mathematical sequence: fn(index term) -> value, n: length (or None)"""

    def __init__(self, fn, n=None):
        self.fn, self.n = fn, n


class Contract:
    def __init__(self, name, params, results):
        # key: the name of the contract; a function may have several, KEY#case, for different sharing of the arguments
        base, _, case = name.partition('#')
        self.key, self.name, self.params, self.results = name, name if case.isdigit() else base, params, results
        self.same, self.isnil, self.views = [], [], []
        self.ghosts, self.requires, self.ensures, self.modifies, self.fresh = [], [], [], [], []
        self.lets = []
        self.inline = False
        self.trusted = False
        self.hints = []
        self.src = ''
        self.opts = {}


def norm_name(n):
    """common.Log2Floor -> gkr-mimc/common.Log2Floor ; (*polynomial.T).M -> (*gkr-mimc/polynomial.T).M"""
    if n.startswith('(*'):
        return '(*' + MOD + n[2:]
    if n.startswith('('):
        return '(' + MOD + n[1:]
    return MOD + n


def uncomment(l):
    m = re.search(r'(^|\s)#', l)
    return l[:m.start()] if m else l


def parse(text, fname='?'):
    out = {}
    cur = None
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        n = i
        i += 1
        l = uncomment(l)
        if not l.strip():
            continue
        # continuation lines: more indented
        while i < len(lines) and lines[i].strip() and re.match(r'^\s{8,}\S', lines[i]):
            c = uncomment(lines[i])
            l += ' ' + c.strip()
            i += 1
        w = l.strip()
        if not l[0].isspace() and w.startswith('define '):
            m = re.match(r'^define\s+(\w+)\((.*?)\)\s*=\s*(.*)$', w)
            if not m:
                raise SpecError('%s:%d: %s' % (fname, n + 1, w))
            DEFINES[m.group(1)] = ([x.strip() for x in m.group(2).split(',') if x.strip()], pexpr(m.group(3), fname, n))
            continue
        if not l[0].isspace() and w.startswith('invariant '):
            m = re.match(r'^invariant\s+(\S+)\s+by\s+(\S+)\s*:\s*(.*)$', w)
            if not m:
                raise SpecError('%s:%d: %s' % (fname, n + 1, w))
            INVARIANTS.append((MOD + m.group(1), norm_name(m.group(2)), pexpr(m.group(3), fname, n), m.group(3)))
            continue
        if not l[0].isspace():
            m = re.match(r'^func\s+(\S+?|\(\*?[\w./]+\)\.\w+(?:#\w+)?)\((.*?)\)\s*(?:\((.*?)\))?\s*$', w)
            if not m:
                raise SpecError('%s:%d: %s' % (fname, n + 1, w))
            cur = Contract(norm_name(m.group(1)), [x.strip() for x in m.group(2).split(',') if x.strip()],
                           [x.strip() for x in (m.group(3) or '').split(',') if x.strip()])
            cur.src = '%s:%d' % (fname, n + 1)
            out[cur.key] = cur
            continue
        kw, _, rest = w.partition(' ')
        rest = rest.strip()
        lab = None
        m = re.match(r'^\[(\w[\w.\-]*)\]\s*(.*)$', rest)
        if m:
            lab, rest = m.group(1), m.group(2)
        if kw == 'ghost':
            nm, _, e = rest.partition(':')
            cur.ghosts.append((nm.strip(), pexpr(e, fname, n)))
        elif kw == 'requires':
            cur.requires.append((pexpr(rest, fname, n), rest))
        elif kw == 'ensures':
            cur.ensures.append((pexpr(rest, fname, n), rest, lab))
        elif kw == 'same':
            # the two slices are one and the same
            a, b = rest.split()
            cur.same.append((pexpr(a, fname, n), pexpr(b, fname, n)))
        elif kw == 'view':
            # storage that may be shared with the arguments: a later write to either makes the other unknown
            cur.views += rest.split()
        elif kw == 'isnil':
            cur.isnil += [pexpr(x, fname, n) for x in rest.split()]
        elif kw == 'modifies':
            cur.modifies += [pexpr(x.replace('[]', '[ALL]'), fname, n) for x in split_commas(rest)]
        elif kw == 'fresh':
            cur.fresh += [pexpr(x, fname, n) for x in split_commas(rest)]
        elif kw == 'let':
            nm, _, e = rest.partition('=')
            cur.lets.append((nm.strip(), pexpr(e, fname, n)))
        elif kw in ('inline', 'trusted'):
            setattr(cur, kw, True)
        elif kw == 'hint':
            cur.hints.append(rest)
        elif kw == 'opt':
            k, _, v = rest.partition('=')
            cur.opts[k.strip()] = v.strip()
        else:
            raise SpecError('%s:%d: unknown clause %s' % (fname, n + 1, kw))
    return out


def split_commas(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([':
            d += 1
        if ch in ')]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def pexpr(s, fname='?', n=0):
    try:
        return ast.parse(s.strip(), mode='eval').body
    except SyntaxError as e:
        raise SpecError('%s:%d: %s in %r' % (fname, n + 1, e, s))


SPECFN = {}
DEFINES = {}
INVARIANTS = []     # (global, function that establishes it, expression, source)


def specfn(name):
    def d(f):
        SPECFN[name] = f
        return f
    return d


class Eval:
    """evaluation of contract expressions; values are (value, type id or None)"""

    def __init__(self, ex, env, pre, post):
        self.ex, self.env, self.pre, self.post = ex, env, pre, post
        self.st = post
        self.bind = {}

    def bool(self, e):
        v = self.ev(e)[0]
        if not isinstance(v, Bool):
            raise SpecError('not a condition: %s -> %r' % (ast.dump(e)[:100], v))
        return v

    def term(self, e):
        v = self.ev(e)[0]
        return v.a[1] if isinstance(v, Obj) and v.k == 'iface' else v

    def under(self, t):
        return self.ex.prog.under(t)

    def read(self, p):
        tr, self.ex.trace = self.ex.trace, None
        try:
            st = self.st
            if p.r not in st.mem:
                if p.r in self.pre.mem:
                    st = self.pre
            return self.ex.read(st, p)
        finally:
            self.ex.trace = tr

    def deref(self, v, t):
        while isinstance(v, Ptr) and t is not None and self.under(t)['k'] == 'ptr':
            v, t = self.read(v), self.under(t)['e']
        return v, t

    def coerce(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly) and a.sort != b.sort:
            if a.sort == 'I':
                a = T.ofint(a)
            else:
                b = T.ofint(b)
        return a, b

    def seq(self, v, t=None):
        """slice or array value as a sequence"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ptr):
            v, t = self.deref(v, t)
        if isinstance(v, Struct) and len(v.f) == 1:
            v = v.f[0]
        st0 = self.st

        def rd(p):
            s, self.st = self.st, st0
            try:
                return self.read(p)
            finally:
                self.st = s
        if isinstance(v, Slice):
            if v.p is None:
                return Seq(lambda i: Fc(0), I(0))
            return Seq(lambda i: self.unelem(rd(self.ex.slice_elem(v, i))), v.len)
        if isinstance(v, Arr):
            return Seq(lambda i: vsubst(v.e, {DIMA[v.d]: i}), I(v.n) if v.n is not None else None)
        raise SpecError('not a sequence: %r' % (v,))

    def flat(self, v, t=None):
        """arguments of a folded definition: sequences as a function and a length"""
        if isinstance(v, (Poly, Bool, Atom)):
            return [v]
        if isinstance(v, (Slice, Seq, Arr)):
            q = self.seq(v, t)
            i = T.as_atom(T.fresh('nat:~sq'))
            e = q.fn(T.lift(i))
            if not isinstance(e, T.Node):
                raise SpecError('sequence of structured values in a folded definition')
            return [T.lam((i,), e), q.n if q.n is not None else I(-1)]
        raise SpecError('argument %r of a folded definition' % (v,))

    def unelem(self, v):
        return v

    def ev(self, e):
        k = e.__class__.__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise SpecError('expression %s' % k)
        return f(e)

    def e_Name(self, e):
        n = e.id
        if n in self.bind:
            return self.bind[n]
        if n in self.env:
            return self.env[n]
        if n in ('true', 'True'):
            return T.TRUE, None
        if n in ('false', 'False'):
            return T.FALSE, None
        if n == 'nil':
            return NIL, None
        # package level constants and variables
        raise SpecError('unknown name ' + n)

    def e_Constant(self, e):
        if isinstance(e.value, bool):
            return (T.TRUE if e.value else T.FALSE), None
        if isinstance(e.value, int):
            return I(e.value), None
        if isinstance(e.value, str):
            return T.atom('const', (e.value,), 'S'), None
        raise SpecError('constant')

    def e_BinOp(self, e):
        a, b = self.ev(e.left)[0], self.ev(e.right)[0]
        op = e.op.__class__.__name__
        if op == 'Pow':
            if a.sort == 'F':
                return T.fpow(a, b), None
            l = T.log2_of(a)
            if l is None:
                raise SpecError('power')
            return T.pow2(T.mul(l, b)), None
        a, b = self.coerce(a, b)
        if op == 'Add' and isinstance(a, Atom):
            return T.strcat(a, b), None
        if op == 'Add':
            return T.add(a, b), None
        if op == 'Sub':
            return T.sub(a, b), None
        if op == 'Mult':
            return T.mul(a, b), None
        if op in ('Div', 'FloorDiv'):
            if a.sort == 'F':
                return T.mul(a, T.inv(b)), None
            q = PV.exact_div(self.st.ctx, a, b)
            return (q if q is not None else T.idiv(a, b)), None
        if op == 'Mod':
            q = PV.exact_div(self.st.ctx, a, b)
            if q is None:
                q = T.idiv(a, b)
            return T.sub(a, T.mul(b, q)), None
        raise SpecError(op)

    def e_UnaryOp(self, e):
        a = self.ev(e.operand)[0]
        op = e.op.__class__.__name__
        if op == 'USub':
            return T.neg(a), None
        if op == 'Not':
            return T.bnot(a), None
        raise SpecError(op)

    def equal(self, a, ta, b, tb):
        if isinstance(a, Seq) or isinstance(b, Seq):
            raise SpecError('equality of sequences')
        a, b = [x.a[1] if isinstance(x, Obj) and x.k == 'iface' else x for x in (a, b)]
        a, b = self.coerce(a, b)
        if isinstance(a, (Poly, Bool, Atom)) and isinstance(b, (Poly, Bool, Atom)):
            return T.eq(a, b)
        if isinstance(a, Slice) and isinstance(b, Slice):
            if a.p is None and b.p is None:
                return T.TRUE
            if a.p is None or b.p is None:
                return T.band(T.eq(a.len, b.len), T.eq(a.len, I(0)))
            if a.p.r is not b.p.r or len(a.p.path) != len(b.p.path):
                return T.FALSE
            return T.band(T.eq(a.off, b.off), T.eq(a.len, b.len), *([T.eq(x, y) for x, y in zip(a.p.fam, b.p.fam)] + [
                (T.TRUE if x == y else T.FALSE) if isinstance(x, int) or isinstance(y, int) else T.eq(x, y) for x, y in zip(a.p.path, b.p.path)]))
        if isinstance(a, Struct) and isinstance(b, Struct):
            return T.band(*[self.equal(x, None, y, None) for x, y in zip(a.f, b.f)])
        if isinstance(a, Arr) and isinstance(b, Arr):
            x = T.as_atom(T.fresh('q'))
            m = {DIMA[a.d]: T.lift(x)}
            n = {DIMA[b.d]: T.lift(x)}
            return T.forall(x, I(a.n), self.equal(vsubst(a.e, m), None, vsubst(b.e, n), None))
        if a == b:
            return T.TRUE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is not b.r or len(a.path) != len(b.path):
                return T.FALSE
            return T.band(*[T.eq(x, y) for x, y in zip(a.fam, b.fam)] + [
                (T.TRUE if x == y else T.FALSE) if isinstance(x, int) or isinstance(y, int) else T.eq(x, y) for x, y in zip(a.path, b.path)])
        if (isinstance(a, Ptr) and b == NIL) or (isinstance(b, Ptr) and a == NIL):
            return T.FALSE
        if isinstance(a, Obj) and isinstance(b, Obj):
            return T.FALSE
        raise SpecError('equality of %r and %r' % (a, b))

    def e_Compare(self, e):
        out = []
        l, tl = self.ev(e.left)
        for op, r in zip(e.ops, e.comparators):
            r, tr = self.ev(r)
            o = op.__class__.__name__
            if o == 'Eq':
                out.append(self.equal(l, tl, r, tr))
            elif o == 'NotEq':
                out.append(T.bnot(self.equal(l, tl, r, tr)))
            elif o == 'LtE':
                out.append(T.le(l, r))
            elif o == 'Lt':
                out.append(T.lt(l, r))
            elif o == 'GtE':
                out.append(T.le(r, l))
            elif o == 'Gt':
                out.append(T.lt(r, l))
            else:
                raise SpecError(o)
            l, tl = r, tr
        return T.band(*out), None

    def e_BoolOp(self, e):
        vs = [self.bool(x) for x in e.values]
        return (T.band(*vs) if e.op.__class__.__name__ == 'And' else T.bor(*vs)), None

    def e_IfExp(self, e):
        c = self.bool(e.test)
        a, t = self.ev(e.body)
        b, _ = self.ev(e.orelse)
        a, b = self.coerce(a, b)
        return merge(c, a, b), t

    def e_Attribute(self, e):
        v, t = self.ev(e.value)
        v, t = self.deref(v, t)
        if t is None:
            raise SpecError('field %s of an untyped value' % e.attr)
        u = self.under(t)
        if u['k'] != 'struct':
            raise SpecError('field %s of %s' % (e.attr, u['k']))
        for i, f in enumerate(u['f']):
            if f['n'] == e.attr:
                if isinstance(v, Struct):
                    return v.f[i], f['t']
                raise SpecError('field of %r' % (v,))
        raise SpecError('no field ' + e.attr)

    def e_Subscript(self, e):
        v, t = self.ev(e.value)
        v, t = self.deref(v, t)
        if isinstance(e.slice, ast.Slice):
            lo = self.term(e.slice.lower) if e.slice.lower else I(0)
            hi = self.term(e.slice.upper) if e.slice.upper else (v.len if isinstance(v, Slice) else v.n)
            if isinstance(v, Seq):
                return Seq(lambda i: v.fn(T.add(lo, i)), T.sub(hi, lo)), t
            return Slice(v.p, T.add(v.off, lo), T.sub(hi, lo), T.sub(v.cap, lo)), t
        i = self.term(e.slice)
        if isinstance(v, Seq):
            return v.fn(i), None
        et = self.under(t)['e'] if t is not None and self.under(t)['k'] in ('slice', 'array') else None
        if isinstance(v, Slice):
            if v.p is None:
                raise SpecError('index of nil')
            return self.read(self.ex.slice_elem(v, i)), et
        if isinstance(v, Arr):
            return vsubst(v.e, {DIMA[v.d]: i}), et
        if isinstance(v, tuple):
            return v[int(cval(i))], None
        raise SpecError('index of %r' % (v,))

    def e_Tuple(self, e):
        return tuple(self.ev(x)[0] for x in e.elts), None

    def binder(self, nm, f, sort='I'):
        x = T.as_atom(T.fresh(nm.id, sort))
        old = self.bind.get(nm.id)
        self.bind[nm.id] = (T.lift(x), None)
        try:
            return x, f()
        finally:
            if old is None:
                del self.bind[nm.id]
            else:
                self.bind[nm.id] = old

    def lamseq(self, nm, body, n):
        st0 = self.st
        b0 = dict(self.bind)
        env0 = self.env

        def fn(i):
            s, b, en = self.st, self.bind, self.env
            self.st, self.bind, self.env = st0, dict(b0), env0
            self.bind[nm.id] = (i, None)
            try:
                return self.ev(body)[0]
            finally:
                self.st, self.bind, self.env = s, b, en
        return Seq(fn, n)

    def e_Call(self, e):
        fn = e.func.id if isinstance(e.func, ast.Name) else None
        a = e.args
        if fn == 'old':
            s, self.st = self.st, self.pre
            try:
                return self.ev(a[0])
            finally:
                self.st = s
        if fn == 'len' or fn == 'cap':
            v, t = self.ev(a[0])
            v, t = self.deref(v, t)
            if isinstance(v, Slice):
                return (v.len if fn == 'len' else v.cap), None
            if isinstance(v, Arr):
                return I(v.n), None
            if isinstance(v, Seq):
                return v.n, None
            raise SpecError('len of %r' % (v,))
        if fn in ('forall', 'exists', 'sum', 'prod', 'largest'):
            n = self.term(a[1])
            try:
                x, b = self.binder(a[0], lambda: self.ev(a[2])[0])
            except SpecError:
                # storage that differs from case to case
                if fn != 'forall' or cval(n) is None or cval(n) > 20:
                    raise
                return self.ev(ast.Call(ast.Name('all', ast.Load()), [a[0], ast.Constant(int(cval(n))), a[2]], []))
            if fn == 'forall':
                return T.forall(x, n, b), None
            if fn == 'exists':
                return T.exists(x, n, b), None
            if fn == 'sum':
                return T.mk_sum(x, n, b), None
            if fn == 'largest':
                # the largest of 0 and the terms
                return T.mk_maxo(I(0), n, T.lam((x,), b)), None
            return T.mk_prod(x, n, b), None
        if fn == 'iter':
            # iter(i, n, x, x0, e): the value of x after n steps x <- e(i, x), from x0
            n, x0 = self.term(a[1]), self.term(a[3])
            x, (i, b) = self.binder(a[2], lambda: self.binder(a[0], lambda: self.term(a[4])), x0.sort)
            return T.mk_rec(0, T.lam((i, x), (b,)), (x0,), n), None
        if fn == 'aiter':
            # aiter(i, n, k, A, e0, e): the array after n steps A[k] <- e(i, k, A), from A[k] = e0(k)
            n = self.term(a[1])
            A = T.atom('var', (T.as_atom(T.fresh('~' + a[3].id)).args[0],), 'fun')
            old = self.bind.get(a[3].id)
            x, e0 = self.binder(a[2], lambda: self.term(a[4]))
            self.bind[a[3].id] = (Seq(lambda j: T.fapp(A, (j,), e0.sort)), None)
            k, (i, e) = self.binder(a[2], lambda: self.binder(a[0], lambda: self.term(a[5])))
            if old is None:
                del self.bind[a[3].id]
            else:
                self.bind[a[3].id] = old
            step, base = T.lam((i, k, A), e), T.lam((x,), e0)
            return Seq(lambda j: T.mk_arec(step, base, n, (j,))), None
        if fn == 'globalvar':
            nm = MOD + a[0].value
            gid = self.ex.prog.globals.get(nm)
            if gid is None:
                raise SpecError('no global ' + nm)
            p = intr.global_ptr(self.ex, self.st, nm, gid)
            return self.read(p), p.r.tid
        if fn in DEFINES:
            ps, body = DEFINES[fn]
            if len(ps) != len(a):
                raise SpecError('%s takes %d arguments' % (fn, len(ps)))
            vals = [self.ev(x) for x in a]
            if fn in self.ex.contract.opts.get('opaque', '').split():
                # the definition is kept folded: what is proved holds for any function of this name
                return T.app('def:' + fn, [y for x in vals for y in self.flat(*x)], 'F'), None
            b, env = self.bind, self.env
            self.bind, self.env = dict(zip(ps, vals)), {}
            try:
                return self.ev(body)
            finally:
                self.bind, self.env = b, env
        if fn == 'total':
            # total(i, n, e), n a literal: the sum, written out
            out = T.const('F', 0)
            old = self.bind.get(a[0].id)
            for j in range(int(cval(self.term(a[1])))):
                self.bind[a[0].id] = (I(j), None)
                out = T.add(out, self.term(a[2]))
            self.bind.pop(a[0].id, None)
            if old is not None:
                self.bind[a[0].id] = old
            return out, None
        if fn == 'all':
            # all(i, n, e), n a literal: the conjunction, written out
            out = []
            old = self.bind.get(a[0].id)
            for j in range(int(cval(self.term(a[1])))):
                self.bind[a[0].id] = (I(j), None)
                out.append(self.ev(a[2])[0])
            if old is None:
                self.bind.pop(a[0].id, None)
            else:
                self.bind[a[0].id] = old
            return T.band(*out), None
        if fn == 'seq':
            # seq(k, n, e)
            return self.lamseq(a[0], a[2], self.term(a[1])), None
        if fn == 'concat':
            ss = [self.seq(*self.ev(x)) for x in a]

            def cc(ss):
                if len(ss) == 1:
                    return ss[0]
                l, r = ss[0], cc(ss[1:])
                return Seq(lambda i: T.ite(T.lt(i, l.n), l.fn(i), r.fn(T.sub(i, l.n))), T.add(l.n, r.n))
            return cc(ss), None
        if fn == 'implies':
            c = self.bool(a[0])
            if c is T.FALSE:
                return T.TRUE, None
            return T.implies(c, self.bool(a[1])), None
        if fn == 'iff':
            return T.eq(self.bool(a[0]), self.bool(a[1])), None
        if fn == 'F':
            return T.ofint(self.term(a[0])), None
        if fn == 'inv':
            return T.inv(self.term(a[0])), None
        if fn == 'pow2':
            return T.pow2(self.term(a[0])), None
        if fn == 'nil':
            v, t = self.ev(a[0])
            return (T.TRUE if v == NIL or isinstance(v, Slice) and v.p is None else T.FALSE), None
        if fn == 'min' or fn == 'max':
            x, y = self.term(a[0]), self.term(a[1])
            return (T.ite(T.le(x, y), x, y) if fn == 'min' else T.ite(T.le(x, y), y, x)), None
        if fn == 'asserted':
            return self.st.mem.get(intr.GHOST_ASSERT, T.TRUE), None
        if fn == 'deref':
            v, t = self.ev(a[0])
            if not isinstance(v, Ptr):
                raise SpecError('deref of %r' % (v,))
            return self.read(v), self.under(t)['e']
        if fn == 'raw':
            # a literal of the field
            return Fc(int(a[0].value)), None
        if fn in SPECFN:
            vals = [self.ev(x) for x in a]
            return SPECFN[fn](self, *vals), None
        raise SpecError('unknown function %s' % fn)


# ------------------------------------------------------------------ contracts as callables

class Contracts:
    def __init__(self, prog):
        self.prog = prog
        self.tab = {}
        self.cases = {}
        self.active = None     # names whose contract is used at calls (None: all)
        self.inline_now = set()

    def load(self, path):
        for k, c in parse(open(path).read(), path.split('/')[-1]).items():
            if k in self.tab:
                raise SpecError('duplicate contract for ' + k)
            self.tab[k] = c
            if k != c.name:
                self.cases.setdefault(c.name, []).append(c)

    def call(self, ex, name, args, st, stack, pos):
        fn = self.prog.fns.get(name)
        if fn is None or name in self.inline_now:
            return None
        c = self.tab.get(name)
        for x in self.cases.get(name, ()):
            if case_applies(ex, x, fn, args, st):
                c = x
                break
        else:
            if not ex.checking:
                # a guess of the closed forms may assume that storage is allocated
                for x in self.cases.get(name, ()):
                    if x.isnil and case_applies(ex, x, fn, args, st, maybe=True):
                        c = x
                        break
        if c is None or c.inline:
            return None
        if len(c.params) != len(fn.params) or c.results and len(c.results) != len(fn.results):
            return None         # the function has changed its signature: its body is what the caller is checked against
        ex.stats['contracts'].add(c.key)
        return apply_contract(ex, c, fn, args, st, stack, pos)


def all_ensures(c):
    return list(c.ensures) + [(e, 'invariant of %s: %s' % (g, src), None) for g, by, e, src in INVARIANTS if by == c.name]


def rtypes(fn):
    return [r['t'] if isinstance(r, dict) else r for r in fn.results]


def case_applies(ex, c, fn, args, st, maybe=False):
    tr, ex.trace = ex.trace, None
    try:
        E = Eval(ex, env_of(c, fn, args), st, st)
        for e in c.isnil:
            v = E.ev(e)[0]
            if maybe and isinstance(v, Slice) and v.p is not None and v.p.r.name.startswith('own:') and not entails(st.ctx, T.le(I(1), v.cap)):
                continue
            if not (isinstance(v, Slice) and (v.p is None or v.cap is I(0) or entails(st.ctx, T.eq(v.cap, I(0))))):
                return False
        for a, b in c.same:
            x, y = E.ev(a)[0], E.ev(b)[0]
            if not (isinstance(x, Slice) and x.p is not None and isinstance(y, Slice) and x.p == y.p and x.off is y.off and x.len is y.len and x.cap is y.cap):
                return False
        return True
    finally:
        ex.trace = tr


def env_of(c, fn, args):
    env = {}
    if len(c.params) != len(fn.params):
        raise SpecError('contract of %s: %d parameters, the function has %d' % (c.name, len(c.params), len(fn.params)))
    for n, p, v in zip(c.params, fn.params, args):
        env[n] = (v, p['t'])
    return env


def do_lets(c, E):
    for n, e in c.lets:
        E.env[n] = E.ev(e)


def apply_contract(ex, c, fn, args, st, stack, pos):
    if ex.trace is None:
        return apply_contract1(ex, c, fn, args, st, stack, pos)
    st = st.copy()
    fps = []
    with RC.quiet(ex):
        for n, v in zip(c.params, args):
            reach(ex, st, v, (n,), fps, frozenset())
        E = Eval(ex, env_of(c, fn, args), st, st)
        ws = [w for m, w in written(c, E)]
    for f in fps:
        RC.access(ex, st, 'r', f)
    for w in ws:
        RC.access(ex, st, 'w', w)
    with RC.quiet(ex):
        return apply_contract1(ex, c, fn, args, st, stack, pos)


def is_nested(m):
    """x.f[].g[]: all elements of all the slices g"""
    return isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Name) and m.slice.id == 'ALL'


class _Ks(ast.NodeTransformer):
    def __init__(self):
        self.n = []

    def visit_Subscript(self, e):
        self.generic_visit(e)
        if isinstance(e.slice, ast.Name) and e.slice.id == 'ALL':
            self.n.append('all_%d' % len(self.n))
            return ast.Subscript(e.value, ast.Name(self.n[-1], ast.Load()), ast.Load())
        return e


def nested(E, m):
    """the slice g at arbitrary indices, its type, the indices"""
    import copy
    tr = _Ks()
    e = tr.visit(copy.deepcopy(m.value))
    old = dict(E.bind)
    ks = []
    try:
        for n in tr.n:
            ks.append(T.fresh('nat:' + n))
            E.bind[n] = (ks[-1], None)
        v, t = E.ev(e)
    finally:
        E.bind = old
    if not isinstance(v, Slice) or v.p is None or v.p.path or cval(v.off) != 0:
        raise SpecError('modifies %s' % ast.unparse(m))
    return v, t, ks


def written(c, E):
    """what the contract allows to be written, as footprints"""
    out = []
    for m in c.modifies:
        if is_nested(m):
            out.append((m, ('slice', None, nested(E, m)[0])))
            continue
        if isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Slice):
            v, t = E.ev(m)
            if not isinstance(v, Slice) or v.p is None:
                continue
            out.append((m, ('slice', None, v)))
        elif isinstance(m, ast.Call) and m.func.id == 'deref':
            out.append((m, ('cell', None, E.ev(m.args[0])[0])))
        elif isinstance(m, ast.Call):
            continue
        else:
            out.append((m, ('cell', None, lvalue(E, m)[0])))
    return out


def apply_contract1(ex, c, fn, args, st, stack, pos):
    prog = ex.prog
    env = env_of(c, fn, args)
    pre = st
    E = Eval(ex, env, pre, pre)
    for g, e in c.ghosts:
        # ghost n: X == f(n)   (f: pow2)
        lhs = E.term(e.left)
        rhs = e.comparators[0]
        env[g] = (ghost_value(ex, st, lhs, rhs, g), None)
        ex.oblige('requires', pos, st.ctx, E.bool(e), 'ghost %s of %s' % (g, c.name))
    do_lets(c, E)
    for r, src in c.requires:
        ex.oblige('requires', pos, st.ctx, E.bool(r), 'requires %s of %s' % (src, c.name) if ex.checking else '')
    for g, by, e, src in INVARIANTS:
        if by != c.name and by in reachable(prog, ex.curfn) and g in global_refs(prog, c.name):
            ex.oblige('requires', pos, st.ctx, E.bool(e), 'invariant of %s: %s' % (g, src))
    separation(ex, c, fn, args, E, st, pos)
    cut = c.opts.get('split')
    if cut is None:
        return [post_state(ex, c, fn, env, pre, st, stack, args, {})]
    # a state for each value of the boolean result
    k = c.results.index(cut)
    res, _ = post_state(ex, c, fn, env, pre, st, stack, args, {})
    out = []
    for b, cond in ((T.TRUE, res[k]), (T.FALSE, T.bnot(res[k]))):
        s2 = st.assume(cond)
        if cond is not T.FALSE and not s2.ctx.inconsistent():
            out.append(post_state(ex, c, fn, env, pre, s2, stack, args, {k: b}))
    return out


def post_state(ex, c, fn, env, pre, st, stack, args, force):
    """results and state after a call, from the contract; force: values given to results"""
    prog = ex.prog
    E = Eval(ex, env, pre, pre)
    post = st.copy()
    d = len(ex.iters)
    tag = 'call:' + stack
    tmp = {}
    defs = {}
    syms = {}

    lens = []
    symlen = {}
    viewed = []
    spare = c.opts.get('spare', '').split()

    def leaf(nm, idx, sort, isnat):
        nm = ('nat:' if isnat and not idx else 'len:' if isnat else '') + nm
        if idx:
            f = T.atom('var', (nm,), 'fun')
            syms[f] = (nm, len(idx), sort)
            symlen[f] = tuple(lens)
            return T.fapp(f, idx, sort) if sort in ('I', 'F', 'B') else T.atom('fapp', (f,) + tuple(idx), sort)
        a = T.atom('var', (nm,), sort)
        syms[a] = (nm, 0, sort)
        return T.lift(a) if sort in ('I', 'F', 'B') else a

    def make(nm, tid, idx):
        ty = prog.types[tid]
        if ty['k'] == 'named':
            full = ty.get('pkg', '') + '.' + ty['name']
            if full in (FR, VAR):
                return leaf(nm, idx, 'F', False)
            if full in ('gkr-mimc/circuit.Gate',) or full.endswith('snark/gkr.Gate'):
                return leaf(nm, idx, 'G', False)
            return make(nm, ty['u'], idx)
        k = ty['k']
        if k == 'basic':
            if ty['n'] == 'bool':
                return leaf(nm, idx, 'B', False)
            if ty['n'] == 'string':
                return leaf(nm, idx, 'S', False)
            return leaf(nm, idx, 'I', ty['n'].startswith('uint'))
        if k == 'struct':
            return Struct([make(nm + '.' + f['n'], f['t'], idx) for f in ty['f']])
        if k == 'slice':
            dd = len(idx)
            r = Region('tmp:' + tag + '/' + nm, ty['e'], dd, 'tmp')
            ln = leaf(nm + '#len', idx, 'I', True)
            lens.append(ln)
            tmp[r] = Arr(make(nm + '[]', ty['e'], tuple(DIM[:dd + 1])), dd)
            lens.pop()
            if any(nm == x or nm.startswith((x + '[', x + '.', x + '*')) for x in c.views):
                viewed.append(r)
            post.mem[r] = tmp[r]
            cp = ln
            if nm in spare:
                cp = T.add(ln, leaf(nm + '#spare', idx, 'I', True))
            return Slice(Ptr(r, idx, ()), I(0), ln, cp)
        if k == 'array':
            dd = len(idx)
            lens.append(I(ty['n']))
            try:
                return Arr(make(nm + '[]', ty['e'], tuple(idx) + (DIM[dd],)), dd, ty['n'])
            finally:
                lens.pop()
        if k == 'ptr':
            dd = len(idx)
            r = Region('tmp:' + tag + '/' + nm + '*', ty['e'], dd, 'tmp')
            tmp[r] = make(nm, ty['e'], tuple(DIM[:dd]))
            post.mem[r] = tmp[r]
            return Ptr(r, idx, ())
        raise Unsupported('result of type %s' % ty['s'])

    res = [make(n, t, ()) for n, t in zip(c.results or ['r%d' % i for i in range(len(fn.results))], rtypes(fn))]
    for k, x in force.items():
        res[k] = x
    mods = []
    ex.notouch += 1
    try:
        for m in c.modifies:
            mods.append(havoc(ex, c, E, m, post, leaf, make, tag))
    finally:
        ex.notouch -= 1
    env2 = dict(env)
    for n, v, t in zip(c.results, res, rtypes(fn)):
        env2[n] = (v, t)
    E2 = Eval(ex, env2, pre, post)
    facts = []
    headers = []
    for e, src, lab in all_ensures(c):
        for cj in conjuncts(e):
            if force and isinstance(cj, ast.Call) and cj.func.id in ('implies', 'iff') and isinstance(cj.args[0], ast.Name) and cj.args[0].id in c.results:
                b = env2[cj.args[0].id][0]
                if b is T.TRUE and cj.func.id == 'implies':
                    for c2 in conjuncts(cj.args[1]):
                        define(E2, c2, syms, defs, facts, headers, ex)
                    continue
                if b is T.FALSE and cj.func.id == 'implies' or b is T.TRUE or b is T.FALSE:
                    continue        # the condition is on the path
            define(E2, cj, syms, defs, facts, headers, ex)
    # apply the definitions
    fun = {}
    vm = {}

    def refresh():
        vm.clear()
        fun.clear()
        for a, x in defs.items():
            if syms[a][1] == 0:
                vm[a] = x
            else:
                fun[a] = x[0] if isinstance(x, tuple) else x

    refresh()

    def close(t, depth=0):
        if not isinstance(t, T.Node):
            return t
        for _ in range(6):
            if not any(a in t.fv for a in defs):
                break
            t = T.subst(t, vm, fun=fun)
        return t
    # a definition holds for the indices of its quantifiers only; the rest of the storage is unknown
    for a in list(defs):
        if syms[a][1] == 0:
            continue
        d0, ix, bnds = defs[a]
        sl = symlen[a]
        m = {DIMA[i]: T.lift(x) for i, x in enumerate(ix)}
        cond = []
        c2 = post.ctx.add(*[close(x) for x in facts if x.op in ('eq', 'le')])
        for i, x in enumerate(ix):
            n = close(bnds[x])
            if i < len(sl) and len(sl) == len(ix):
                ln = close(T.subst(sl[i], m))
                if ln is n or entails(c2, T.eq(ln, n)):
                    continue
            cond.append((i, n))
        if cond:
            nm, k, sort = syms[a]
            rest = T.atom('var', (nm + '~rest',), 'fun')
            syms[rest] = (nm + '~rest', k, sort)

            def wrap(d0, ix, cond, rest, sort):
                def f(args):
                    m = dict(zip(ix, args))
                    c = T.band(*[T.band(T.le(I(0), args[i]), T.lt(args[i], T.subst(n, m))) for i, n in cond])
                    r = T.fapp(rest, args, sort) if sort in ('I', 'F', 'B') else T.atom('fapp', (rest,) + tuple(args), sort)
                    return merge(c, d0(args), r)
                return f
            defs[a] = wrap(d0, ix, cond, rest, sort)
        else:
            defs[a] = d0
        fun[a] = defs[a]
    # what no definition determines depends on the enclosing iterations
    rest_vm, rest_fun = {}, {}
    if d:
        its = tuple(ex.iters)
        for a, (nm, k, sort) in syms.items():
            if a in defs:
                continue
            if k == 0:
                x = T.atom('app', (nm,) + its, sort)
                rest_vm[a] = T.lift(x) if sort in ('I', 'F', 'B') else x
            else:
                def mkf(nm, sort):
                    def f(args):
                        x = T.atom('app', (nm,) + its + tuple(args), sort)
                        return T.lift(x) if sort in ('I', 'F', 'B') else x
                    return f
                rest_fun[a] = mkf(nm, sort)

    def fin(t):
        t = close(t)
        if rest_vm or rest_fun:
            t = T.subst(t, rest_vm, fun=rest_fun) if isinstance(t, T.Node) else t
        return t

    def vfin(v):
        return vmap(v, lambda x: _unlift(fin(x), x))
    for hv, val in headers:
        pass
    res = [vfin(apply_headers(v, headers)) for v in res]
    moved = {}
    for r, tm in tmp.items():
        tm = vfin(post.mem[r])
        nr = Region(r.name[4:], r.tid, d + r.fam, 'alloc')
        if d:
            tm = shift(tm, -d)
            old = post.mem.get(nr)
            if old is not None and old != tm:
                cc = T.band(*[T.eq(DIM[i], f) for i, f in enumerate(ex.iters)])
                tm = merge(cc, tm, old)
        del post.mem[r]
        moved[r] = (nr, tm)

    def reloc(v):
        if isinstance(v, Ptr):
            if v.r in moved:
                return Ptr(moved[v.r][0], tuple(ex.iters) + tuple(v.fam), v.path)
            return v
        if isinstance(v, Slice):
            return Slice(reloc(v.p) if v.p is not None else None, v.off, v.len, v.cap)
        if isinstance(v, Struct):
            return Struct([reloc(x) for x in v.f])
        if isinstance(v, Arr):
            return Arr(reloc(v.e), v.d, v.n)
        if isinstance(v, Obj) and v.k == 'ite':
            x, y = reloc(v.a[1]), reloc(v.a[2])
            try:
                return VL.merge(v.a[0], x, y)
            except MergeFail:
                return VL.cond_obj(v.a[0], x, y)
        return v
    for r, (nr, tm) in moved.items():
        if d:
            tm = reloc_tmpl(tm, moved, d)
        else:
            tm = reloc(tm)
        post.mem[nr] = tm
    wrote = []
    for r in list(post.mem):
        if r in st.mem and post.mem[r] is st.mem[r]:
            continue
        if r.kind == 'tmp' or r in [x[0] for x in moved.values()]:
            continue
        post.mem[r] = vfin(post.mem[r])
        if post.mem[r] != st.mem.get(r):
            post.mem[r] = reloc(post.mem[r])
            wrote.append(r)
    for r in wrote:
        if r in ex.partners:
            ex.touched(post, r, tag)
    res = [reloc(v) for v in res]
    if viewed:
        orig = set()
        LP.regions_from(st, args, orig)
        if orig:
            ex.link({moved[r][0] for r in viewed}, orig)
    for f in facts:
        post.fact(fin(f))
    return tuple(res), post


def reach(ex, st, v, path, out, seen):
    """storage reachable from a value: ('slice', path, slice), ('cell', path, pointer) or ('region', path, region)"""
    if isinstance(v, Struct):
        for i, x in enumerate(v.f):
            reach(ex, st, x, path + (i,), out, seen)
    elif isinstance(v, Slice):
        if v.p is None:
            return
        out.append(('slice', path, v))
        reach_region(ex, st, v.p, path + ('[]',), out, seen)
    elif isinstance(v, Ptr):
        out.append(('cell', path, v))
        reach_region(ex, st, v, path + ('*',), out, seen)
    elif isinstance(v, Arr):
        reach(ex, st, v.e, path + ('[]',), out, seen)
    elif isinstance(v, Obj):
        for i, x in enumerate(v.a):
            if isinstance(x, V):
                reach(ex, st, x, path + (i,), out, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        reach(ex, st, y, path + (i,), out, seen)


def reach_region(ex, st, p, path, out, seen):
    if p.r in seen:
        return
    seen = seen | {p.r}
    if p.r not in st.mem:
        return
    tr, ex.trace = ex.trace, None
    try:
        v = ex.read(st, p)
    finally:
        ex.trace = tr

    def go(x, d):
        # d: number of array levels above; storage found below is a whole region when its address varies
        if isinstance(x, Arr):
            go(x.e, d + 1)
        elif isinstance(x, Struct):
            for y in x.f:
                go(y, d)
        elif isinstance(x, Slice) and x.p is not None or isinstance(x, Ptr):
            q = x.p if isinstance(x, Slice) else x
            if d == 0:
                reach(ex, st, x, path, out, seen)
            else:
                out.append(('region', path, q.r))
                if q.r not in seen:
                    reach_region(ex, st, Ptr(q.r, tuple(T.fresh('f') for _ in range(q.r.fam)), ()), path + ('[]',), out, seen)
    go(v, 0)


def disjoint(a, b):
    """condition for two footprints not to overlap"""
    ra = a[2] if a[0] == 'region' else a[2].p.r if a[0] == 'slice' else a[2].r
    rb = b[2] if b[0] == 'region' else b[2].p.r if b[0] == 'slice' else b[2].r
    if ra is not rb:
        return T.TRUE
    if a[0] == 'region' or b[0] == 'region':
        return T.FALSE
    pa = a[2].p if a[0] == 'slice' else a[2]
    pb = b[2].p if b[0] == 'slice' else b[2]
    diff = [T.bnot(T.eq(x, y)) for x, y in zip(pa.fam, pb.fam)]
    la, lb = list(pa.path), list(pb.path)
    if a[0] == 'slice':
        la.append(a[2])
    if b[0] == 'slice':
        lb.append(b[2])
    for x, y in zip(la, lb):
        if isinstance(x, int) or isinstance(y, int):
            if x != y:
                return T.TRUE
            continue
        lo1, n1 = (x.off, x.len) if isinstance(x, Slice) else (x, I(1))
        lo2, n2 = (y.off, y.len) if isinstance(y, Slice) else (y, I(1))
        diff.append(T.bor(T.le(T.add(lo1, n1), lo2), T.le(T.add(lo2, n2), lo1), T.le(n1, I(0)), T.le(n2, I(0))))
    return T.bor(*diff)


def separation(ex, c, fn, args, E, st, pos):
    """what the callee writes through one argument is not reachable through another: its contract was verified under this condition"""
    if not c.modifies or not ex.checking:
        return
    fps = []
    for n, v in zip(c.params, args):
        reach(ex, st, v, (n,), fps, frozenset())
    for m, a in written(c, E):
        own = False
        r = a[2].p.r if a[0] == 'slice' else a[2].r
        if is_nested(m):
            root = ast.unparse(m).split('[')[0].split('.')[0]
            for b in fps:
                if RC.region(b) is r and b[1][0] == root and not own:
                    own = True
                elif RC.region(b) is r or RC.region(b) in ex.partners.get(r, ()):
                    ex.oblige('separation', pos, st.ctx, T.FALSE, '%s of %s is not shared with argument %s' % (ast.unparse(m), c.name, '/'.join(map(str, b[1]))))
            continue
        if r.kind == 'global':
            ex.oblige('separation', pos, st.ctx, T.FALSE, '%s of %s is a package variable' % (ast.unparse(m), c.name))
            continue
        root = ast.unparse(m).replace('(', ' ').replace('.', ' ').replace('[', ' ').replace(')', ' ').split()
        root = root[1] if root[0] == 'deref' else root[0]
        twins = [{ast.unparse(x).split('.')[0], ast.unparse(y).split('.')[0]} for x, y in c.same]
        for b in fps:
            if b[0] == 'slice' and a[0] == 'slice' and b[2].p == a[2].p and b[2].off is a[2].off and b[2].len is a[2].len and any(
                    root in w and b[1][0] in w for w in twins):
                continue
            if b[1][0] == root and not own and (a[0] == b[0] and a[2] == b[2] or
                                                b[0] == 'slice' and a[0] == 'slice' and b[2].p == a[2].p and b[2].off == a[2].off or
                                                b[0] == 'cell' and a[0] == 'cell' and b[2].r is a[2].r and b[2].fam == a[2].fam and a[2].path[:len(b[2].path)] == b[2].path):
                own = True
                continue
            g = disjoint(a, b)
            if RC.region(b) in ex.partners.get(RC.region(a), ()):
                g = T.FALSE
            if g is not T.TRUE:
                ex.oblige('separation', pos, st.ctx, g, '%s of %s is not shared with argument %s' % (ast.unparse(m), c.name, '/'.join(map(str, b[1]))))


def reloc_tmpl(v, moved, d):
    """pointers inside a template that was shifted by d: the first placeholders are the iterations"""
    if isinstance(v, Ptr):
        if v.r in moved:
            return Ptr(moved[v.r][0], tuple(DIM[:d]) + tuple(v.fam), v.path)
        return v
    if isinstance(v, Slice):
        return Slice(reloc_tmpl(v.p, moved, d) if v.p is not None else None, v.off, v.len, v.cap)
    if isinstance(v, Struct):
        return Struct([reloc_tmpl(x, moved, d) for x in v.f])
    if isinstance(v, Arr):
        return Arr(reloc_tmpl(v.e, moved, d), v.d, v.n)
    if isinstance(v, Obj) and v.k == 'ite':
        x, y = reloc_tmpl(v.a[1], moved, d), reloc_tmpl(v.a[2], moved, d)
        try:
            return VL.merge(v.a[0], x, y)
        except MergeFail:
            return VL.cond_obj(v.a[0], x, y)
    return v


def _unlift(r, x):
    if isinstance(x, Atom) and isinstance(r, Poly):
        return T.as_atom(r) or r
    return r


def apply_headers(v, headers):
    """replace slice headers defined as equal to another slice"""
    def go(x):
        for old, new in headers:
            if x == old:
                return new
        if isinstance(x, Struct):
            return Struct([go(y) for y in x.f])
        if isinstance(x, Arr):
            return Arr(go(x.e), x.d, x.n)
        return x
    return go(v)


def ghost_value(ex, st, lhs, rhs, g):
    """value of ghost g from lhs == pow2(g) or lhs == g"""
    if isinstance(rhs, ast.Name):
        return lhs
    if isinstance(rhs, ast.Call) and rhs.func.id == 'pow2':
        l = simp(st.ctx, lhs)
        for c in (lhs, l, st.ctx.rewrite(l), simp(st.ctx, st.ctx.rewrite(l))):
            v = T.log2_of(c)
            if v is not None:
                return v
        return lg2(lhs)
    if isinstance(rhs, ast.BinOp) and isinstance(rhs.op, ast.Mult) and isinstance(rhs.left, ast.Constant):
        k = I(rhs.left.value)
        lhs = simp(st.ctx, lhs)
        q = PV.exact_div(st.ctx, lhs, k)
        return q if q is not None else T.idiv(lhs, k)
    raise SpecError('ghost')


def lg2(a):
    l = T.log2_of(a)
    if l is not None:
        return l
    return T.app('lenlg2', (a,), 'I')


def _lg2_lemma(a):
    x = a.args[1]
    r = T.lift(a)
    return [T.implies(T.le(I(1), x), T.band(T.le(T.pow2(r), x), T.lt(x, T.mul(I(2), T.pow2(r)))))]


PV.APP_LEMMA['lenlg2'] = _lg2_lemma


def _lg2_hook(args, sort):
    return T.log2_of(args[0])


T.APP_HOOK['lenlg2'] = _lg2_hook


@specfn('lg2')
def _(E, a):
    return lg2(a[0])


def conjuncts(e):
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        return [y for x in e.values for y in conjuncts(x)]
    return [e]


def define(E, e, syms, defs, facts, headers, ex):
    """use conjunct e as the definition of a fresh symbol when it has that form, else as a fact"""
    binders = []
    guards = []
    save = dict(E.bind)
    try:
        cur = e
        conds = []
        while isinstance(cur, ast.Call) and isinstance(cur.func, ast.Name) and cur.func.id == 'forall':
            n = E.term(cur.args[1])
            x = T.as_atom(T.fresh(cur.args[0].id))
            E.bind[cur.args[0].id] = (T.lift(x), None)
            binders.append((x, n))
            cs = conjuncts(cur.args[2])
            if len(cs) > 1:
                for c2 in cs:
                    e2 = ast.Call(func=cur.func, args=[cur.args[0], cur.args[1], c2], keywords=[])
                    e3 = rewrap(e, cur, e2)
                    E.bind.clear()
                    E.bind.update(save)
                    define(E, e3, syms, defs, facts, headers, ex)
                return
            cur = cur.args[2]
        iff = isinstance(cur, ast.Call) and isinstance(cur.func, ast.Name) and cur.func.id == 'iff'
        if iff or (isinstance(cur, ast.Compare) and len(cur.ops) == 1 and isinstance(cur.ops[0], ast.Eq)):
            le, re_ = (cur.args[0], cur.args[1]) if iff else (cur.left, cur.comparators[0])
            l, tl = E.ev(le)
            r, tr = E.ev(re_)
            if isinstance(l, Slice) and isinstance(r, Slice) and not binders and l.p is not None and l.p.r.kind == 'tmp':
                headers.append((l, r))
                h = [(l, r)]
                for rg in list(E.post.mem):
                    v = E.post.mem[rg]
                    nv = apply_headers(v, h)
                    if nv != v:
                        E.post.mem[rg] = nv
                for nm in list(E.env):
                    v, t = E.env[nm]
                    if isinstance(v, (Slice, Struct, Arr)):
                        E.env[nm] = (apply_headers(v, h), t)
                return
            if binders and isinstance(l, Poly):
                c2, bsimp = E.post.ctx, []
                known = {a: x for a, x in defs.items() if syms[a][1] == 0}
                for b, n in binders:
                    bsimp.append((b, simp(c2, T.subst(n, known))))
                    c2 = c2.rng(b, bsimp[-1][1])
                l = simp(c2, T.subst(l, known))
            for x, y in pairs(l, r):
                x, y = E.coerce(x, y)
                a = (T.as_atom(x) or x) if isinstance(x, Poly) else x
                if isinstance(x, Bool) and x.op == 'atom':
                    a = x.args[0]
                done = False
                if isinstance(a, Atom):
                    if a.op == 'var' and a in syms and a not in defs and not binders and not T.occurs(a, y):
                        defs[a] = y
                        done = True
                    elif a.op == 'fapp' and a.args[0] in syms and a.args[0] not in defs:
                        ix, y2, binders2 = two_digits(a.args[1:], binders, y)
                        if ix is None and binders and isinstance(l, Poly):
                            ix, y2, binders2 = two_digits(a.args[1:], [(b, simp(c2, n)) for b, n in bsimp], y)
                        if ix is not None:
                            y = y2
                        else:
                            ix, binders2 = [T.as_atom(z) if isinstance(z, Poly) else z for z in a.args[1:]], binders
                        bs = [b for b, n in binders2]
                        if all(i in bs for i in ix) and len(set(ix)) == len(ix) and not (y.fv & {a.args[0]}):
                            def mk(y, ix):
                                def f(args):
                                    return T.subst(y, dict(zip(ix, args)))
                                return f
                            defs[a.args[0]] = (mk(y, ix), ix, dict(binders2))
                            done = True
                if not done:
                    f = E.equal(x, None, y, None)
                    for b, n in reversed(binders):
                        f = T.forall(b, n, f)
                    facts.append(f)
            return
        f = E.bool(cur)
        for b, n in reversed(binders):
            f = T.forall(b, n, f)
        facts.append(f)
    finally:
        E.bind.clear()
        E.bind.update(save)


def two_digits(args, binders, y):
    """an index i * w + j with j < w: as one index k, with i = k // w and j the rest"""
    bs = dict(binders)
    for p, z in enumerate(args):
        if not isinstance(z, Poly) or T.as_atom(z) in bs:
            continue
        for j, w in binders:
            r = T.sub(z, T.lift(j))
            if j in r.fv or j in w.fv:
                continue
            for i, n in binders:
                if i is j or i in w.fv or j in n.fv or i in n.fv or r is not T.mul(T.lift(i), w):
                    continue
                if any(i in T.as_atom_fv(x) or j in T.as_atom_fv(x) for q, x in enumerate(args) if q != p):
                    continue
                k = T.as_atom(T.fresh('k'))
                q = T.idiv(T.lift(k), w)
                m = {i: q, j: T.sub(T.lift(k), T.mul(w, q))}
                ix = [k if q2 == p else T.as_atom(x) if isinstance(x, Poly) else x for q2, x in enumerate(args)]
                b2 = [(b, x) for b, x in binders if b is not i and b is not j] + [(k, T.mul(n, w))]
                if any(i in x.fv or j in x.fv for b, x in b2):
                    continue
                return ix, T.subst(y, m), b2
    return None, y, binders


def rewrap(e, old, new):
    if e is old:
        return new
    return ast.Call(func=e.func, args=[e.args[0], e.args[1], rewrap(e.args[2], old, new)], keywords=[])


def pairs(l, r):
    if isinstance(l, Struct) and isinstance(r, Struct):
        return [p for x, y in zip(l.f, r.f) for p in pairs(x, y)]
    return [(l, r)]


def lvalue(E, m):
    """pointer and type of a modifies expression"""
    if isinstance(m, ast.Attribute):
        p, t = lvalue_base(E, m.value)
        u = E.under(t)
        for i, f in enumerate(u['f']):
            if f['n'] == m.attr:
                return Ptr(p.r, p.fam, p.path + (i,)), f['t']
    if isinstance(m, ast.Call) and m.func.id == 'globalvar':
        nm = MOD + m.args[0].value
        p = intr.global_ptr(E.ex, E.st, nm, E.ex.prog.globals[nm])
        return p, p.r.tid
    raise SpecError('modifies')


def lvalue_base(E, e):
    v, t = E.ev(e)
    if isinstance(v, Ptr) and E.under(t)['k'] == 'ptr':
        return v, E.under(t)['e']
    if isinstance(e, ast.Attribute):
        return lvalue(E, e)
    raise SpecError('modifies of a value')


def havoc(ex, c, E, m, post, leaf, make, tag):
    """modifies clauses: x.f (a field), *x as deref(x), s[:] (the elements of a slice)"""
    nm = 'mod:' + tag + '/' + ast.unparse(m)
    if is_nested(m):
        v, t, ks = nested(E, m)
        et = E.under(t)['e']
        if has_refs(ex.prog, et):
            raise SpecError('modifies %s' % ast.unparse(m))
        r, d = v.p.r, len(v.p.fam)
        cond, ix = [], {}
        for i, x in enumerate(v.p.fam):
            a = T.as_atom(x)
            if x in ks:
                ix[ks.index(x)] = DIM[i]
            elif x.fv & {T.as_atom(k) for k in ks}:
                raise SpecError('modifies %s' % ast.unparse(m))
            else:
                cond.append(T.eq(DIM[i], x))
        if len(ix) != len(ks):
            raise SpecError('modifies %s' % ast.unparse(m))
        new = make(nm, et, tuple(ix[j] for j in range(len(ks))) + (DIM[d],))
        old = post.mem[r] if r in post.mem else ex.gstate.mem[r]
        post.mem[r] = Arr(merge(T.band(*cond), new, old.e), d, old.n)
        return ('nested', v)
    if isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Slice):
        v, t = E.ev(m)
        if not isinstance(v, Slice) or v.p is None:
            return None
        et = E.under(t)['e']

        def f(k, depth):
            # the value of the element over placeholders: index k relative to the slice
            tm = make(nm, et, (DIM[0],))
            return vsubst(shift(tm, -(depth - 1)), {DIMA[depth - 1]: k}) if depth > 1 else vsubst(tm, {DIMA[0]: k})
        ex.write_range(post, v.p, v.off, v.len, f)
        return ('slice', v)
    if isinstance(m, ast.Call) and m.func.id == 'deref':
        v, t = E.ev(m.args[0])
        et = E.under(t)['e']
        ex.write(post, v, make(nm, et, ()))
        return ('cell', v)
    if isinstance(m, ast.Call) and m.func.id == 'asserted':
        post.mem[intr.GHOST_ASSERT] = leaf(nm, (), 'B', False)
        return ('cell', None)
    p, t = lvalue(E, m)
    val = None
    for e, src, lab in c.ensures:
        for cj in conjuncts(e):
            if isinstance(cj, ast.Compare) and len(cj.ops) == 1 and isinstance(cj.ops[0], ast.Eq) and ast.unparse(cj.left) == ast.unparse(m):
                r = cj.comparators[0]
                q = r.value if isinstance(r, ast.Subscript) and isinstance(r.slice, ast.Slice) else r
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'old':
                    val = E.ev(r)[0]
    ex.write(post, p, make(nm, t, ()) if val is None else val)
    return ('cell', p)


# ------------------------------------------------------------------ verification of a function

class Result:
    def __init__(self, name):
        self.name = name
        self.obligs = []
        self.error = None
        self.time = 0
        self.used = set()
        self.inlined = set()
        self.intrinsics = set()
        self.loops = 0
        self.rets = 0
        self.notes = []

    @property
    def ok(self):
        return self.error is None and all(o.ok for o in self.obligs) and self.rets > 0


def _operands(x):
    if isinstance(x, dict):
        if 'k' in x and 'n' in x and x['k'] in ('global', 'func'):
            yield x
        for v in x.values():
            yield from _operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from _operands(v)


def reachable(prog, name):
    global_refs(prog, name)
    return prog.greach[name]


def global_refs(prog, name):
    """globals that the function, or what it can call, mentions"""
    if not hasattr(prog, 'grefs'):
        prog.grefs, prog.gtrans, prog.greach = {}, {}, {}
        for f in prog.fns.values():
            prog.grefs[f.name] = {(o['k'], o['n']) for o in _operands(f.blocks)}
    if name not in prog.gtrans:
        seen, todo, out = {name}, [name], set()
        while todo:
            for k, n in prog.grefs.get(todo.pop(), ()):
                if k == 'global':
                    out.add(n)
                elif n not in seen:
                    seen.add(n)
                    todo.append(n)
        prog.gtrans[name] = out
        prog.greach[name] = seen - {name}
    return prog.gtrans[name]


def global_writers(prog, g):
    """functions that do anything but load the global"""
    out = set()
    for f in prog.fns.values():
        if ('global', g) not in prog.grefs.get(f.name, ()):
            continue
        for b in f.blocks:
            for i in b['i']:
                if i['o'] == 'un' and i.get('op') == '*':
                    continue
                if any(o['k'] == 'global' and o['n'] == g for o in _operands(i)):
                    out.add(f.name)
    return out


def verify(prog, contracts, name, deadline=None, hints=None, unroll_now=4, unroll_limit=20, setup=None):
    c = contracts.tab[name]
    R = Result(name)
    t0 = time.time()
    key, name = name, c.name
    fn = prog.fns.get(name)
    if fn is None:
        R.error = 'the function does not exist'
        return R
    ex = Exec(prog, contracts, intr)
    ex.unroll_now = int(c.opts.get('unroll_now', unroll_now))
    ex.unroll_limit = int(c.opts.get('unroll', unroll_limit))
    ex.split_returns = c.opts.get('returns') == 'split'
    ex.loop_hints = hints or []
    ex.curfn = name
    ex.deadline = deadline
    ex.contract = c
    c_ens = list(c.ensures)
    contracts.inline_now = {name} | {norm_name(x) for x in c.opts.get('inline', '').split() if x}
    try:
        st = St({}, {}, PV.EMPTYCTX, ())
        ex.gstate = st
        if setup:
            setup(ex, st)
        args = [intr.input_value(ex, st, n, p['t'], ()) for n, p in zip(c.params, fn.params)]
        st.mem[intr.GHOST_ASSERT] = T.lift(T.atom('var', ('asserted before',), 'B'))
        set_sharing(ex, c, fn, args, st)
        env = env_of(c, fn, args)
        E = Eval(ex, env, st, st)
        for g, e in c.ghosts:
            env[g] = (T.var('nat:' + g), None)
        todo = [e for g, e in c.ghosts] + [e for e, s in c.requires]
        for g, by, e, src in INVARIANTS:
            if g in global_refs(prog, name):
                if by == name:
                    c_ens.append((e, 'invariant of %s: %s' % (g, src), None))
                    continue
                if by in reachable(prog, name):
                    continue        # initialisation: nothing is assumed before the call of the function that establishes it
                w = global_writers(prog, g)
                if w != {by}:
                    R.error = 'the invariant of %s is established by %s only, but it is written by %s' % (g, by, sorted(w))
                    return R
                ex.stats['contracts'].add(by)
                todo.append(e)
        sub_all = []
        pend = []

        def assume(e):
            nonlocal args, st
            for cj in conjuncts(e):
                b = E.bool(cj)
                if isinstance(cj, ast.Compare) and len(cj.ops) == 1 and isinstance(cj.ops[0], ast.Eq) and b.op == 'eq' and b.args[0].sort == 'I':
                    l = E.term(cj.left)
                    a = T.as_atom(l)
                    r = E.term(cj.comparators[0])
                    if a is not None and a.op == 'var' and a not in r.fv:
                        m = {a: r}
                        args[:] = [vsubst(v, m) for v in args]
                        for rg in list(st.mem):
                            st.mem[rg] = vsubst(st.mem[rg], m)
                        for k in list(env):
                            env[k] = (vsubst(env[k][0], m), env[k][1])
                        if T.nonneg_syn(l):
                            pend.append(T.le(I(0), r))
                        pend[:] = [T.subst(x, m) for x in pend]
                        continue
                pend.append(b)
        for e in todo:
            assume(e)
        for b in pend:
            st.fact(b)
        do_lets(c, E)
        if st.ctx.inconsistent():
            R.error = 'the requirements contradict each other'
            return R
        conc = RC.has_go(prog, name)
        if conc:
            ex.trace = True
            st.mem[RC.PENDING] = T.FALSE
            st.mem[RC.DONE] = T.FALSE
        pre = st.copy()
        R.pre = pre
        outs = ex.call_fn(name, args, (), st.copy(), '')
        R.rets = len(outs)
        if not outs:
            R.error = 'the function never returns'
        ex.trace = None
        for vals, s in outs:
            if conc:
                s = s.copy()
                ex.oblige('join', fn.pos, s.ctx, T.bnot(s.mem.get(RC.PENDING, T.FALSE)), 'every goroutine has ended when the function returns')
                s.mem.pop(RC.PENDING, None)
                s.mem.pop(RC.DONE, None)
            env2 = dict(env)
            for n, v, t in zip(c.results, vals, rtypes(fn)):
                env2[n] = (v, t)
            E2 = Eval(ex, env2, pre, s)
            ex.curfn = name
            s = s.copy()
            for e, src, lab in c_ens:
                check_ensures(ex, E2, e, src, lab, s, c, fn)
            check_frame(ex, E2, c, fn, pre, s)
            check_fresh(ex, E2, c, fn, pre, s)
            check_storage(ex, E2, c, fn, pre, s, vals)
    except (GiveUp, MergeFail, Unsupported, T.TooBig, SpecError, RecursionError) as e:
        R.error = '%s: %s' % (e.__class__.__name__, str(e)[:600])
    finally:
        contracts.inline_now = set()
    R.obligs = ex.obligs
    R.used = ex.stats['contracts']
    R.inlined = ex.stats['inlined']
    R.intrinsics = ex.stats['intrinsics']
    R.loops = ex.stats['loops']
    R.notes = ex.loopnotes
    R.time = time.time() - t0
    return R


def set_sharing(ex, c, fn, args, st):
    '''the entry state of a case: slices that are nil, or one and the same'''
    def put(e, val):
        if isinstance(e, ast.Name):
            args[c.params.index(e.id)] = val
            return
        if not isinstance(e, ast.Attribute):
            raise SpecError('sharing of ' + ast.unparse(e))
        E = Eval(ex, env_of(c, fn, args), st, st)
        b, t = E.ev(e.value)
        if isinstance(b, Ptr):
            p, t = lvalue(E, e)
            ex.write(st, p, val)
            return
        fs = E.under(t)['f']
        put(e.value, Struct([val if f['n'] == e.attr else x for f, x in zip(fs, b.f)]))
    for e in c.isnil:
        put(e, Slice(None, I(0), I(0), I(0)))
    for a, b in c.same:
        put(b, Eval(ex, env_of(c, fn, args), st, st).ev(a)[0])


def check_ensures(ex, E, e, src, lab, s, c, fn):
    for i, cj in enumerate(conjuncts(e)):
        try:
            if isinstance(cj, ast.Call) and isinstance(cj.func, ast.Name) and cj.func.id == 'iff':
                p, q = E.bool(cj.args[0]), E.bool(cj.args[1])
                g = T.band(T.implies(p, q), T.implies(q, p))
            else:
                g = E.bool(cj)
        except (SpecError, Unsupported) as x:
            ex.oblige('ensures', fn.pos, s.ctx, T.FALSE, 'ensures %s: cannot be evaluated: %s' % (src, x))
            continue
        ex.oblige('ensures', fn.pos, s.ctx, g, '%sensures %s' % ('[%s] ' % lab if lab else '', ast.unparse(cj)))
        if ex.obligs and ex.obligs[-1].ok:
            # later clauses may use the earlier ones
            s.fact(g)


def check_frame(ex, E, c, fn, pre, s):
    """regions of the entry state are unchanged unless the contract says so"""
    Epre = Eval(ex, {k: v for k, v in E.env.items()}, pre, pre)
    allowed = {}
    for m in c.modifies:
        if isinstance(m, ast.Subscript) and isinstance(m.slice, ast.Slice):
            v, t = Epre.ev(m)
            if isinstance(v, Slice) and v.p is not None:
                allowed.setdefault(v.p.r, []).append(('slice', v))
        elif isinstance(m, ast.Call) and m.func.id == 'deref':
            v, t = Epre.ev(m.args[0])
            allowed.setdefault(v.r, []).append(('cell', v))
        elif is_nested(m):
            v, t, ks = nested(Epre, m)
            if all(any(T.as_atom(k) in x.fv for k in ks) for x in v.p.fam):
                allowed.setdefault(v.p.r, []).append(('any',))
        elif isinstance(m, ast.Call) and m.func.id == 'asserted':
            allowed.setdefault(intr.GHOST_ASSERT, []).append(('any',))
        else:
            p, t = lvalue(Epre, m)
            allowed.setdefault(p.r, []).append(('cell', p))
    for r, new in s.mem.items():
        if r.kind == 'alloc' or r.kind == 'ghost' or r.kind == 'tmp':
            continue
        if r is intr.GHOST_ASSERT:
            old = pre.mem.get(r, T.TRUE)
        elif r in pre.mem:
            old = pre.mem[r]
        else:
            if r.kind == 'global':
                old = intr.global_template(ex, r)
            elif r in ex.gstate.mem:
                old = ex.gstate.mem[r]
            else:
                continue
        if old is new or old == new:
            continue
        al = allowed.get(r, [])
        if any(a[0] == 'any' for a in al):
            continue
        # mask the allowed cells, then compare leaf by leaf
        st2 = St({}, {r: new}, s.ctx, ())
        stop = False
        for a in al:
            p = a[1]
            if a[0] == 'slice':
                so = St({}, {r: old}, s.ctx, ())
                et = LP.elem_template(ex, so, a[1], 0)
                ex.write_range(st2, a[1].p, a[1].off, a[1].len, lambda k, dd: vsubst(shift(et, -(dd - 1)), {DIMA[dd - 1]: k}))
            else:
                so = St({}, {r: old}, s.ctx, ())
                ex.write(st2, p, ex.read(so, p))
        new2 = st2.mem[r]
        try:
            lo, ln = dict(leaves(old)), dict(leaves(new2))
        except Exception:
            lo, ln = {}, {1: 1}
        if lo.keys() != ln.keys():
            ex.oblige('frame', fn.pos, s.ctx, T.FALSE, 'the shape of %s is changed' % r)
            continue
        nd = ndims(old)
        for path in lo:
            if lo[path] is ln[path]:
                continue
            ctx = s.ctx
            m = {}
            for i in range(nd[path] + r.fam):
                x = T.fresh('x')
                m[DIMA[i]] = x
                ctx = ctx.add(T.le(I(0), x))
            ex.oblige('frame', fn.pos, ctx, T.eq(T.subst(lo[path], m), T.subst(ln[path], m)), '%s is unchanged' % r.name)


def check_fresh(ex, E, c, fn, pre, s):
    """results declared fresh: new storage, no spare capacity, nothing else returned shares it"""
    seen = set()
    for e in c.fresh:
        v, t = E.ev(e)
        if isinstance(v, Slice):
            if v.p is None:
                continue
            ok = v.p.r not in pre.mem and (v.p.r.kind == 'alloc' or new_ghost(ex, v.p.r, pre))
            ex.oblige('fresh', fn.pos, s.ctx, T.band(T.TRUE if ok else T.FALSE, T.TRUE if ast.unparse(e) in c.opts.get('spare', '').split() else T.eq(v.len, v.cap)), '%s is new storage' % ast.unparse(e))
        elif isinstance(v, Ptr):
            ok = v.r not in pre.mem and v.r.kind == 'alloc'
            ex.oblige('fresh', fn.pos, s.ctx, T.TRUE if ok else T.FALSE, '%s is new storage' % ast.unparse(e))


def has_refs(prog, tid, seen=()):
    ty = prog.types[tid]
    if ty['k'] == 'named':
        full = ty.get('pkg', '') + '.' + ty['name']
        if full in (FR, VAR, 'gkr-mimc/circuit.Gate') or full.endswith('snark/gkr.Gate') or tid in seen:
            return False
        return has_refs(prog, ty['u'], seen + (tid,))
    if ty['k'] in ('slice', 'ptr', 'map', 'chan'):
        return True
    if ty['k'] == 'struct':
        return any(has_refs(prog, f['t'], seen) for f in ty['f'])
    if ty['k'] == 'array':
        return has_refs(prog, ty['e'], seen)
    return False


def new_ghost(ex, r, pre):
    """the contents of a slice variable that a loop rebinds, when all storage it may have had is new"""
    return r.name.startswith('ghost:') and r.fam == 0 and not any(q in pre.mem or q.kind == 'global' for q in ex.partners.get(r, ()))


def check_storage(ex, E, c, fn, pre, s, vals):
    """a caller takes the storage of a result, or of a slice that is replaced, as new and unshared unless a postcondition says which slice it is"""
    named = set()
    for e in c.ensures:
        for cj in conjuncts(e[0]):
            if isinstance(cj, ast.Compare) and len(cj.ops) == 1 and isinstance(cj.ops[0], ast.Eq):
                named.add(ast.unparse(cj.left))
    spare = c.opts.get('spare', '').split()
    found = []      # (region, family, index variables, context, what)

    def bad(what, why):
        ex.oblige('storage', fn.pos, s.ctx, T.FALSE, '%s %s' % (what, why))

    def walk(v, tid, what, ivs, ctx):
        if tid is None or not has_refs(ex.prog, tid) or what in named or what in c.views:
            return
        ty = ex.prog.types[tid]
        while ty['k'] == 'named':
            ty = ex.prog.types[ty['u']]
        if ty['k'] == 'struct':
            if not isinstance(v, Struct):
                return      # library values
            for f, x in zip(ty['f'], v.f):
                walk(x, f['t'], what + '.' + f['n'], ivs, ctx)
        elif ty['k'] == 'array':
            i = T.fresh('i')
            walk(vsubst(v.e, {DIMA[v.d]: i}), ty['e'], what + '[]', ivs + [T.as_atom(i)], ctx.rng(T.as_atom(i), I(ty['n'])))
        elif ty['k'] == 'slice':
            if v == NIL or v.p is None:
                return
            if (v.p.r.kind != 'alloc' and not v.p.r.name.startswith('own:') and (has_refs(ex.prog, ty['e']) or not new_ghost(ex, v.p.r, pre))) or v.p.r in pre.mem:
                return bad(what, 'is not new storage')
            if v.p.path:
                return bad(what, 'is a part of something')
            if any(q in pre.mem or q.kind == 'global' for q in ex.partners.get(v.p.r, ())):
                return bad(what, 'may share storage with an argument')
            if what not in spare:
                ex.oblige('storage', fn.pos, ctx, T.eq(v.len, v.cap), '%s has no spare capacity' % what)
            found.append((v.p.r, v.p.fam, ivs, ctx.add(T.le(I(1), v.len)), what))
            if has_refs(ex.prog, ty['e']):
                i = T.fresh('i')
                c2 = ctx.rng(T.as_atom(i), v.len)
                s2 = s.copy()
                s2.ctx = c2
                walk(ex.read(s2, ex.slice_elem(v, i)), ty['e'], what + '[]', ivs + [T.as_atom(i)], c2)
        elif ty['k'] == 'ptr':
            if v == NIL or isinstance(v, Obj) or not isinstance(v, Ptr):
                return
            if v.r.kind != 'alloc' or v.r in pre.mem or v.path:
                return bad(what, 'is not new storage')
            found.append((v.r, v.fam, ivs, ctx, what))
            s2 = s.copy()
            s2.ctx = ctx
            walk(ex.read(s2, v), ty['e'], what + '*', ivs, ctx)

    for n, v, t in zip(c.results or ['result'] * len(vals), vals, rtypes(fn)):
        walk(v, t, n, [], s.ctx)
    for m in c.modifies:
        if is_nested(m):
            pass
        elif isinstance(m, ast.Subscript):
            v, t = E.ev(m)
            if t is not None and has_refs(ex.prog, E.under(t)['e']):
                bad(ast.unparse(m), 'holds references: not supported')
        elif isinstance(m, ast.Call) and m.func.id == 'deref':
            v, t = E.ev(m)
            walk(v, t, ast.unparse(m), [], s.ctx)
        elif not isinstance(m, ast.Call):
            v, t = E.ev(m)
            walk(v, t, ast.unparse(m), [], s.ctx)
    for k, (r, fam, ivs, ctx, what) in enumerate(found):
        if ivs:
            # different indices, different storage
            m = {a: T.fresh('j') for a in ivs}
            f2 = [T.subst(x, m) for x in fam]
            if not any(T.as_atom(x) == ivs[0] for x in fam) or len(ivs) > 1 and not all(any(T.as_atom(x) == a for x in fam) for a in ivs):
                c2 = ctx
                for f in ctx.facts if hasattr(ctx, 'facts') else ():
                    c2 = c2.add(T.subst(f, m))
                ex.oblige('storage', fn.pos, c2, T.bor(T.band(*[T.eq(T.lift(a), b) for a, b in m.items()]), *[T.bnot(T.eq(x, y)) for x, y in zip(fam, f2)]),
                          'the storage of %s differs between indices' % what)
        for r2, fam2, ivs2, ctx2, what2 in found[:k]:
            if r2 in ex.partners.get(r, ()):
                bad(what, 'may share storage with ' + what2)
            if r2 is r:
                m = {a: T.fresh('j') for a in ivs}
                ex.oblige('storage', fn.pos, ctx, T.bor(*[T.bnot(T.eq(T.subst(x, m), y)) for x, y in zip(fam, fam2)]), '%s and %s do not share storage' % (what, what2))
