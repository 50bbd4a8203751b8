"""Entailment and equality prover of the condition generator.

Arithmetic conditions go to z3 (integers, with powers of two and products abstracted and axiomatised);
equalities in the field are decided by polynomial normal form, case analysis and comparison of sums,
products and recursions (the latter by unfolding one step, never by assuming termination).
"""
import time
import z3
from fractions import Fraction
from term import *
import term as T

STAT = {'z3': 0, 'z3_time': 0.0, 'eq': 0}
Z3_TIMEOUT = 4000
TRACE = False


class Ctx:
    """an immutable set of facts"""

    __slots__ = ('facts', 'fset', 'key', 'cache', 'scache', '_alls', '_rw', '_fv')
    _by = {}

    def __new__(cls, facts=()):
        key = facts
        r = cls._by.get(key)
        if r is None:
            r = object.__new__(cls)
            r.facts = facts
            r.fset = frozenset(facts)
            r.cache = {}
            r.scache = {}
            r._alls = None
            r._rw = None
            r._fv = None
            cls._by[key] = r
        return r

    def add(self, *bs):
        new = list(self.facts)
        seen = set(self.fset)
        st = list(bs)[::-1]
        while st:
            b = st.pop()
            if b is TRUE or b in seen:
                continue
            if b.op == 'and':
                st.extend(b.args[::-1])
                continue
            seen.add(b)
            new.append(b)
        if len(new) == len(self.facts):
            return self
        return Ctx(tuple(new))

    def rng(self, x, n):
        x = lift_if(x)
        return self.add(le(I(0), x), lt(x, n))

    def fv(self):
        if self._fv is None:
            self._fv = frozenset().union(*[f.fv for f in self.facts])
        return self._fv

    def open(self, a, l, name='b'):
        """the body of the binder l of the node a, for variables unknown to the facts"""
        fv = self.fv()
        return lam_open_in(l, fv | a.fv if a.fv else fv, name)

    def fresh(self, name, *terms):
        """a variable that neither the facts nor the terms mention"""
        fv = self.fv()
        for t in terms:
            fv = fv | T._allfv(t)
        k = 0
        while True:
            v = T.var('%s~~%d' % (name, k))
            if not (v.fv & fv):
                return v
            k += 1

    def inconsistent(self):
        return entails(self, FALSE)

    def rewrites(self):
        """solved equalities: list of (atom, poly)"""
        if self._rw is None:
            rw = []
            eqs = [f.args[0] for f in self.facts if f.op == 'eq']
            les = {}
            for f in self.facts:
                if f.op == 'le':
                    p = f.args[0]
                    if neg(p) in les:
                        eqs.append(p)
                    les[p] = 1
            for p in eqs:
                if True:
                    for a, v in rw:
                        p = subst(p, {a: v})
                    if not p.items:
                        continue
                    so = solve_atom(p)
                    if so:
                        # prefer to eliminate young variables, then other atoms
                        if p.sort == 'I':
                            so = [av for av in so if av[0].op in ('var', 'app', 'div')]
                            so.sort(key=lambda av: (av[0].op == 'div', av[0].op == 'var', av[0].id))
                            if not so:
                                continue
                        else:
                            so.sort(key=lambda av: (av[0].op != 'var', av[0].id))
                        a, v = so[-1]
                        rw = [(b, subst(w, {a: v})) for b, w in rw]
                        rw.append((a, v))
            self._rw = rw
        return self._rw

    def rewrite(self, t):
        rw = self.rewrites()
        if rw:
            for a, v in rw:
                t = subst(t, {a: v})
        return t


EMPTYCTX = Ctx(())


# ---------------------------------------------------------------- z3 encoding

_lincache = {}


def _is_linear(f):
    if f.op in ('and', 'or', 'not'):
        return all(_is_linear(x) for x in f.args)
    if f.op == 'le' or (f.op == 'eq' and f.args[0].sort == 'I'):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('var', 'app')) for m, c in f.args[0].items)
    return False


_zglob, _zmono, _zleaf, _zobj = {}, {}, {}, {}
USORT = z3.DeclareSort('U')


def zleaves(n):
    """the monomials and objects that the encoding of the node mentions"""
    r = _zleaf.get(n)
    if r is None:
        ms, objs = {}, {}

        def put(x):
            u, w = zleaves(x)
            ms.update(dict.fromkeys(u))
            objs.update(dict.fromkeys(w))
        if isinstance(n, Poly):
            for m, c in n.items:
                if m == ():
                    continue
                a = m[0][0]
                if len(m) == 1 and m[0][1] == 1 and a.op in ('ite', 'br'):
                    for x in a.args:
                        put(x)
                else:
                    ms[m] = 1
        elif n.op in ('not', 'and', 'or'):
            for x in n.args:
                put(x)
        elif n.op == 'le' or (n.op == 'eq' and n.args[0].sort == 'I'):
            put(n.args[0])
        elif n.op == 'same':
            objs[n.args[0]] = objs[n.args[1]] = 1
        r = _zleaf[n] = tuple(ms), tuple(objs)
    return r


class Enc:
    def exp_nonneg(self, e):
        """the exponent is non negative by the linear facts"""
        if self.lin is None:
            self.lin = tuple(f for f in self.facts if _is_linear(f))
        key = (self.lin, e)
        r = _lincache.get(key)
        if r is None:
            r = False
            g = le0(neg(e))
            if g is TRUE:
                r = True
            elif _is_linear(g):
                s = z3.Solver()
                s.set('timeout', 500)
                enc = Enc()
                for f in self.lin:
                    s.add(enc.bool(f))
                s.add(z3.Not(enc.bool(g)))
                enc.lemmas()
                for c in enc.lem:
                    s.add(c)
                r = s.check() == z3.unsat
            _lincache[key] = r
        return r

    def __init__(self, facts=()):
        self.facts = facts
        self.lin = None
        self.monos = {}
        self.bools = {}
        self.lem = []
        self.nonlin = set()
        self.atoms = {}
        self.todo = []
        self.same = {}
        self.U = USORT
        self.reals = set()

    def poly(self, p):
        if not self.touch(p):
            v = _zglob.get(p)
            if v is None:
                v = _zglob[p] = self._poly(p)
            return v
        return self._poly(p)

    def touch(self, n):
        """register what the encoding of n mentions; True when some of it is encoded as a real"""
        ms, objs = zleaves(n)
        real = False
        for m in ms:
            if m in self.monos:
                real = real or m in self.reals
            else:
                self.mono(m)
                real = real or m in self.reals
        for a in objs:
            self.obj(a)
        return real

    def _poly(self, p):
        den = 1
        from math import gcd
        terms = []
        for m, c in p.items:
            den = den * c.denominator // gcd(den, c.denominator)
        for m, c in p.items:
            k = int(c * den)
            if m == ():
                terms.append(z3.IntVal(k))
            else:
                terms.append(k * self.mono(m))
        if not terms:
            return z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def mono(self, m):
        v = self.monos.get(m)
        if v is not None:
            return v
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == 'ite':
                v = z3.If(self.bool(a.args[0]), self.ratio(a.args[1]), self.ratio(a.args[2]))
                self.monos[m] = v
                return v
            if a.op == 'br':
                v = z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
                self.monos[m] = v
                return v
        # 2^e with e possibly negative is not an integer: use a real for it
        isreal = False
        for a, e in m:
            if a.op == 'pow2' and not nonneg_syn(a.args[0]) and not self.exp_nonneg(a.args[0]):
                isreal = True
        v = _zmono.get((m, isreal))
        if v is None:
            name = '%s%d_%s' % ('r' if isreal else 'm', len(_zmono), show(mono_poly('I', m))[:60])
            v = _zmono[(m, isreal)] = z3.Real(name) if isreal else z3.Int(name)
        if isreal:
            self.reals.add(m)
        self.monos[m] = v
        if len(m) > 1 or m[0][1] > 1:
            self.nonlin.add(m)
        for a, e in m:
            if a not in self.atoms:
                self.atoms[a] = 1
                self.todo.append(a)
        return v

    def ratio(self, p):
        # exact rational polynomial
        den = 1
        from math import gcd
        for m, c in p.items:
            den = den * c.denominator // gcd(den, c.denominator)
        x = self.poly(p)
        return x if den == 1 else z3.ToReal(x) / den if x.is_int() else x / den

    def bool(self, b):
        v = self.bools.get(b)
        if v is None:
            if not self.touch(b):
                v = _zglob.get(b)
                if v is None:
                    v = _zglob[b] = self._bool(b)
            else:
                v = self._bool(b)
            self.bools[b] = v
        return v

    def _bool(self, b):
        op, a = b.op, b.args
        if op == 'T':
            return z3.BoolVal(True)
        if op == 'F':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.bool(a[0]))
        if op == 'and':
            return z3.And([self.bool(x) for x in a])
        if op == 'or':
            return z3.Or([self.bool(x) for x in a])
        if op == 'le':
            return self.poly(a[0]) <= 0
        if op == 'eq' and a[0].sort == 'I':
            return self.poly(a[0]) == 0
        if op == 'same':
            return self.obj(a[0]) == self.obj(a[1])
        return z3.Bool('b%d' % b.id)

    def obj(self, a):
        v = self.same.get(a)
        if v is None:
            v = _zobj.get(a)
            if v is None:
                v = _zobj[a] = z3.Const('o%d' % a.id, self.U)
            for b, w in self.same.items():
                if a.op == 'const' and b.op == 'const':
                    self.lem.append(v != w)
            self.same[a] = v
        return v

    def lemmas(self):
        done = []
        while self.todo:
            a = self.todo.pop()
            done.append(a)
            v = lambda: self.mono(((a, 1),))
            if a.op == 'pow2':
                e = a.args[0]
                isint = ((a, 1),) not in self.reals
                integ = all(c.denominator == 1 for m, c in e.items)
                k = ('pow2', a, isint)
                if integ:
                    self.touch(e)
                f = _zglob.get(k)
                v()
                if f is None or self.reals:
                    f = [v() > 0]
                    if integ:
                        e = self.poly(e)
                        if not isint:
                            f.append(z3.Implies(e >= 0, v() == z3.ToReal(z3.Int('k%d' % a.id))))
                        f += [z3.Implies(e >= 0, v() >= e + 1), z3.Implies(e >= 1, v() >= 2), z3.Implies(e >= 2, v() >= 2 * e), z3.Implies(e <= 0, v() <= 1)]
                    if not self.reals:
                        _zglob[k] = f
                self.lem += f
                if integ:
                    for b in list(self.atoms):
                        if b.op == 'pow2' and b is not a:
                            k = ('pow2', a, b)
                            de = sub(a.args[0], b.args[0])
                            self.touch(de)
                            w = self.mono(((b, 1),))
                            f = _zglob.get(k)
                            if f is None or self.reals:
                                d = self.poly(de)
                                f = [z3.Implies(d >= 0, v() >= w), z3.Implies(d >= 1, v() >= 2 * w), z3.Implies(d <= 0, v() <= w), z3.Implies(d <= -1, 2 * v() <= w)]
                                if not self.reals:
                                    _zglob[k] = f
                            self.lem += f
            elif a.op == 'div':
                x, y = a.args
                q = lift(a)
                r = sub(x, mul(q, y))
                px, py = self.poly(x), self.poly(y)
                cond = z3.And(px >= 0, py >= 1)
                self.lem.append(z3.Implies(cond, z3.And(v() >= 0, self.poly(r) >= 0, self.poly(sub(r, sub(y, I(1)))) <= 0, v() <= px)))
                self.lem.append(z3.Implies(z3.And(cond, px < py), v() == 0))
                self.lem.append(z3.Implies(z3.And(cond, px >= py), v() >= 1))
            elif a.op == 'app' and a.args[0].startswith('len') and a.args[0] not in APP_LEMMA:
                self.lem.append(v() >= 0)
            elif a.op == 'var' and a.args[0].startswith('nat'):
                self.lem.append(v() >= 0)
            elif a.op == 'app' and a.args[0] in APP_LEMMA:
                if a.args[0].startswith('len'):
                    self.lem.append(v() >= 0)
                for f in APP_LEMMA[a.args[0]](a):
                    self.lem.append(self.bool(f))
            elif a.op == 'sum' and a.sort == 'I':
                if nonneg_syn(a.args[1].body) or all(x.op == 'br' for x, e in a.args[1].body.items[0][0]):
                    self.lem.append(v() >= 0)


APP_LEMMA = {}


def _bnd_mult(facts, enc, goal_polys):
    """products of inequalities with non negative factors, limited to monomials of the problem"""
    out = []
    monos = set(enc.nonlin)
    # factors to multiply with: pow2 atoms and the atoms in nonlinear monomials
    facs = {}
    for m in monos:
        for a, e in m:
            facs[a] = 1
    ineqs = [f.args[0] for f in facts if f.op == 'le'] + goal_polys
    eqs = [f.args[0] for f in facts if f.op == 'eq' and f.args[0].sort == 'I']
    for a in facs:
        la = lift(a)
        nonneg = a.op == 'pow2' or nonneg_syn(la)
        if not nonneg:
            # is there a fact a >= 0 ?
            if neg(la) in ineqs or any(q is neg(la) for q in ineqs):
                nonneg = True
            else:
                for q in ineqs:
                    # c - a <= 0 with c >= 0
                    k, r = split_const(q)
                    if r is neg(la) and k >= 0:
                        nonneg = True
        if nonneg:
            for q in ineqs:
                if any(len(m) > 2 for m, c in q.items):
                    continue
                if len(q.items) > 6:
                    continue
                if q.fv or any(True for m, c in q.items if m != ()):
                    pr = mul(q, la)
                    hit = [m for m, c in pr.items if m in monos]
                    if hit:
                        out.append(pr)
    res = [enc.poly(p) <= 0 for p in out]
    for a in facs:
        for q in eqs:
            if len(q.items) <= 4:
                pr = mul(q, lift(a))
                if any(m in monos for m, c in pr.items):
                    res.append(enc.poly(pr) == 0)
    # s*a and s*b with s >= 0: ordered as a and b are
    prods = [(m, a) for m in monos if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1 for a, e in m]
    if len(prods) <= 24:
        for i in range(len(prods)):
            for j in range(i):
                (m1, s1), (m2, s2) = prods[i], prods[j]
                if s1 is not s2 or m1 == m2:
                    continue
                a = [x for x, e in m1 if x is not s1][0]
                b = [x for x, e in m2 if x is not s1][0]
                if a.op not in ('var', 'div', 'app') or b.op not in ('var', 'div', 'app'):
                    continue
                la = lift(s1)
                if not (s1.op == 'pow2' or nonneg_syn(la) or s1.op == 'div'):
                    continue
                pa, pb = lift(a), lift(b)
                x, y = mul(la, pa), mul(la, pb)
                pos = enc.poly(la) >= 0
                res.append(z3.Implies(z3.And(pos, enc.poly(sub(pa, pb)) <= 0), enc.poly(sub(x, y)) <= 0))
                res.append(z3.Implies(z3.And(pos, enc.poly(sub(pb, pa)) <= 0), enc.poly(sub(y, x)) <= 0))
                res.append(z3.Implies(z3.And(pos, enc.poly(sub(pa, pb)) <= -1), enc.poly(add(sub(x, y), la)) <= 0))
                res.append(z3.Implies(z3.And(pos, enc.poly(sub(pb, pa)) <= -1), enc.poly(add(sub(y, x), la)) <= 0))
    # products of two inequalities sharing nonlinear monomials
    small = [q for q in ineqs if len(q.items) <= 3 and all(len(m) <= 1 for m, c in q.items)]
    if len(small) <= 14:
        for i in range(len(small)):
            for j in range(i, len(small)):
                pr = mul(small[i], small[j])
                nl = [m for m, c in pr.items if len(m) > 1 or (m and m[0][1] > 1)]
                if nl and all(m in monos for m in nl):
                    res.append(enc.poly(pr) >= 0)
    return res


def _relevant(facts, goal):
    """facts connected to the goal through shared atoms (all of them if few)"""
    if len(facts) <= 12:
        return facts
    fv = set(goal.fv)
    if goal is FALSE:
        return facts
    keep = [False] * len(facts)
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(facts):
            if not keep[i] and (not f.fv or (f.fv & fv)):
                keep[i] = True
                if not f.fv <= fv:
                    # big hubs (e.g. lengths) connect everything; that is fine
                    fv |= f.fv
                    changed = True
    return tuple(f for i, f in enumerate(facts) if keep[i])


def arith_facts(ctx):
    return ctx.facts


def entails(ctx, goal):
    if goal is TRUE:
        return True
    if goal in ctx.fset or FALSE in ctx.fset:
        return True
    r = ctx.cache.get(goal)
    if r is None:
        r = _entails(ctx, goal)
        ctx.cache[goal] = r
    return r


def _instances(ctx, goal):
    """instances of the universally quantified facts, by matching applications"""
    alls = [g for f in ctx.facts if f.op == 'all' for g in split_all(f)]
    if not alls:
        return ()
    inst = {}
    ground = {}

    def collect(t, seen):
        for a in atoms_in(t, lambda a: a.op in ('app', 'fapp'), under=False):
            ground.setdefault(a.args[0], {})[a] = 1
    seen = set()
    collect(goal, seen)
    for f in ctx.facts:
        if f.op != 'all':
            collect(f, seen)
    work = list(alls)
    for rnd in range(3):
        new = []
        for f in work:
            n, l = f.args
            vs, body = lam_open(l)
            x = vs[0]
            trig = atoms_in(body, lambda a: a.op in ('app', 'fapp') and x in a.fv)
            cands = {sub(n, I(1)): 1} if rnd == 0 else {}
            for tr in trig:
                for g in ground.get(tr.args[0], ()):
                    if len(g.args) != len(tr.args):
                        continue
                    val = match_var(tr, g, x)
                    if val is not None:
                        cands[val] = 1
            if body.op == 'all':
                # nested quantifier: instantiate the outer one by inner triggers
                n2, l2 = body.args
                vs2, b2 = lam_open(l2)
                for tr in atoms_in(b2, lambda a: a.op in ('app', 'fapp') and x in a.fv):
                    for g in ground.get(tr.args[0], ()):
                        if len(g.args) == len(tr.args):
                            val = match_var(tr, g, x, frozenset(vs2))
                            if val is not None:
                                cands[val] = 1
            for val in list(cands)[:12]:
                b = subst(body, {x: val})
                ins = implies(band(le(I(0), val), lt(val, n)), b)
                if ins not in inst:
                    inst[ins] = 1
                    if b.op == 'all':
                        new += [(ins, val, n, g) for g in split_all(b)]
                    else:
                        collect(ins, seen)
        work = []
        for ins, val, n, b in new:
            # guarded nested universal: only use it when the guard is known
            if entails(Ctx(tuple(f for f in ctx.facts if f.op != 'all')), band(le(I(0), val), lt(val, n))):
                work.append(b)
        if not work:
            break
    return tuple(i for i in inst if i.op != 'all')


def split_all(f):
    """a universal over a conjunction, as several"""
    r = _split.get(f)
    if r is None:
        vs, body = lam_open(f.args[1])
        r = [f] if body.op != 'and' else [forall(vs[0], f.args[0], b) for b in body.args]
        r = _split[f] = [g for g in r if g.op == 'all']
    return r


_split = {}


def match_var(pat, g, x, ign=frozenset()):
    """value of x such that pat[x:=value] is g (pat application containing x), or None"""
    val = None
    for p, q in zip(pat.args[1:], g.args[1:]):
        if not isinstance(p, Node) or not isinstance(q, Node):
            if p != q:
                return None
            continue
        if x not in p.fv:
            if p is not q and not (p.fv & ign):
                return None
            continue
        if isinstance(p, Poly) and isinstance(q, Poly):
            s = solve_var_for(p, q, x)
            if s is None:
                return None
            if val is not None and val is not s:
                return None
            val = s
        else:
            return None
    return val


def solve_var_for(p, q, x):
    """x such that p(x) == q, when p is linear in x with coefficient 1 or -1"""
    for m, c in p.items:
        if len(m) == 1 and m[0][0] is x and m[0][1] == 1 and c in (1, -1):
            rest = sub(p, mkpoly(p.sort, {m: c}))
            if x in rest.fv:
                return None
            return scale(sub(q, rest), c)
    return None


def _entails(ctx, goal):
    if goal.op == 'and':
        return all(entails(ctx, g) for g in goal.args)
    if goal.op == 'eq' and goal.args[0].sort == 'F':
        g2 = ctx.rewrite(goal)
        if g2 is TRUE:
            return True
    if goal.op in ('all',):
        return False
    facts = ctx.facts
    ng = bnot(goal)
    inst = _instances(ctx, goal)
    facts = _relevant(tuple(f for f in facts if f.op != 'all') + inst, goal)
    # congruence: rewriting by equalities makes equal terms syntactically equal
    t0 = time.time()
    STAT['z3'] += 1
    try:
        r = _z3(facts, ng)
        if not r and ctx.rewrites():
            rw = ctx.rewrites()
            f2 = tuple(dict.fromkeys(x for f in facts for x in [_rw(f, rw)] if x is not TRUE))
            n2 = _rw(ng, rw)
            if (f2 != facts or n2 is not ng):
                r = _z3(f2 + facts if len(facts) < 40 else f2, n2)
        if not r and inst and goal.op == 'le' and any(len(m) > 1 for m, c in goal.args[0].items):
            # instances whose guard is known: their conclusions take part in products
            base = Ctx(tuple(f for f in ctx.facts if f.op != 'all'))
            more = []
            for i in inst:
                if i.op != 'or':
                    continue
                for x in i.args:
                    if x.op in ('and', 'le') and _nonlin_rel(x, goal):
                        if all(entails(base, bnot(y)) for y in i.args if y is not x):
                            more += list(x.args) if x.op == 'and' else [x]
            more = tuple(x for x in dict.fromkeys(more) if x not in facts)
            if more:
                r = _z3(facts + more, ng)
    finally:
        STAT['z3_time'] += time.time() - t0
    return r


def _nonlin_rel(x, goal):
    nl = {a for m, c in goal.args[0].items if len(m) > 1 for a, e in m}
    return any(a in nl for a in atoms_in(x, lambda a: a in nl))


def _rw(t, rw):
    for a, v in rw:
        t = subst(t, {a: v})
    return t


_zcache = {}


def _z3(facts, ng):
    if ng is FALSE or FALSE in facts:
        return True
    key = (facts, ng)
    r = _zcache.get(key)
    if r is None:
        r = _z3x(facts, ng)
        _zcache[key] = r
    return r


_zmod = {}
MODELS = 6


def _refuted(facts, ng):
    """a model of the same facts, found for an earlier goal, in which this goal fails too"""
    ms = _zmod.get(facts)
    if not ms:
        return False
    leaves, objs = zleaves(ng)
    for i, (enc, md) in enumerate(ms):
        if objs or enc.reals or any(m not in enc.monos for m in leaves):
            continue
        if z3.is_true(md.eval(enc.bool(ng), model_completion=True)):
            STAT['reused'] = STAT.get('reused', 0) + 1
            return True
    return False


def _keep_model(facts, enc, s):
    ms = _zmod.setdefault(facts, [])
    if len(ms) < MODELS and not enc.reals:
        ms.append((enc, s.model()))
    if len(_zmod) > 3000:
        for k in list(_zmod)[:1000]:
            del _zmod[k]


def _z3x(facts, ng):
    if _refuted(facts, ng):
        return False
    enc = Enc(facts)
    s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
    s.set('timeout', Z3_TIMEOUT)
    try:
        cs = [enc.bool(f) for f in facts]
        cs.append(enc.bool(ng))
        enc.lemmas()
        for c in cs + enc.lem:
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            return True
        if not enc.nonlin:
            if r == z3.sat:
                _keep_model(facts, enc, s)
            return False
        lits = []
        st = list(facts) + [ng]
        while st:
            f = st.pop()
            if f.op == 'and':
                st.extend(f.args)
            else:
                lits.append(f)
        gp = []
        for rnd in range(2):
            n0 = len(enc.nonlin)
            pr = _bnd_mult(lits, enc, gp)
            enc.lem = []
            enc.lemmas()
            for c in pr + enc.lem:
                s.add(c)
            r = s.check()
            if r == z3.unsat:
                return True
            if len(enc.nonlin) == n0:
                break
        if r == z3.sat:
            _keep_model(facts, enc, s)
        return False
    except z3.Z3Exception as e:
        if TRACE:
            print('z3 exception', e)
        return False


# ---------------------------------------------------------------- simplification

def exact_div(ctx, a, b):
    """a div b as a polynomial, if it can be determined, else None (b > 0, a >= 0 in ctx)"""
    if len(b.items) == 1:
        quo, rest = mono_div(a, b)
        if quo.items:
            # coefficients: fold the fractional part of a coefficient in the power of two
            if integral(ctx, quo):
                if not rest.items:
                    return quo if entails(ctx, le(I(1), b)) else None
                if entails(ctx, band(le(I(0), rest), lt(rest, b))):
                    return quo
            else:
                # try with only the integral part
                q2, r2 = I(0), rest
                for m, c in quo.items:
                    p = mono_poly('I', m, c)
                    if integral(ctx, p):
                        q2 = add(q2, p)
                    else:
                        r2 = add(r2, mul(p, b))
                if entails(ctx, band(le(I(0), r2), lt(r2, b))):
                    return q2
        else:
            if entails(ctx, band(le(I(0), a), lt(a, b))):
                return I(0)
    else:
        # is a a multiple of b?  try a == k*b for small k and for single factors
        for m, c in a.items:
            for m2, c2 in b.items:
                k = mono_poly('I', (), Fraction(c) / c2) if m == m2 else None
                if m != m2:
                    q, r = mono_div(mono_poly('I', m, c), mono_poly('I', m2, c2))
                    k = q if q.items and not r.items else None
                if k is not None and integral(ctx, k):
                    rest = sub(a, mul(k, b))
                    if entails(ctx, band(le(I(0), rest), lt(rest, b))):
                        return k
            break
        if entails(ctx, band(le(I(0), a), lt(a, b))):
            return I(0)
    return None


def integral(ctx, p):
    for m, c in p.items:
        k = 0
        c = Fraction(c)
        while c.denominator % 2 == 0:
            c *= 2
            k += 1
        if c.denominator != 1:
            return False
        pw = has_pow2_factor(m)
        for a, e in m:
            if a is pw:
                continue
        if pw is not None:
            if not entails(ctx, le(I(k), pw.args[0])):
                return False
        elif k:
            return False
    return True


def simp(ctx, t, depth=0):
    """simplify t under ctx: decided conditions, exact divisions, ranges of sums"""
    if not isinstance(t, Node):
        return t
    r = ctx.scache.get(t)
    if r is None:
        r = _simp(ctx, t, depth)
        ctx.scache[t] = r
        if r is not t:
            ctx.scache.setdefault(r, r)
    return r


INTEREST = ('ite', 'br', 'div', 'sum', 'prod', 'rec', 'arec', 'app', 'fpow', 'ofint', 'inv', 'pow2', 'fapp')


def _simp(ctx, t, depth):
    if isinstance(t, Poly):
        acc = None
        for m, c in t.items:
            p = mkpoly(t.sort, {(): c})
            for a, e in m:
                v = simp_atom(ctx, a, depth)
                for _ in range(e):
                    p = mul(p, v)
            acc = p if acc is None else add(acc, p)
        return acc if acc is not None else t
    if isinstance(t, Atom):
        return simp_atom(ctx, t, depth)
    if isinstance(t, Bool):
        return simp_bool(ctx, t, depth)
    return t


def simp_atom(ctx, a, depth=0):
    r = ctx.scache.get(a)
    if r is None:
        r = _simp_atom(ctx, a, depth)
        ctx.scache[a] = r
    return r


def decide(ctx, c):
    if c is TRUE or c is FALSE:
        return c
    if entails(ctx, c):
        return TRUE
    if entails(ctx, bnot(c)):
        return FALSE
    return c


def _simp_atom(ctx, a, depth):
    op, x = a.op, a.args
    if op in ('var', 'const'):
        return lift_if(a)
    if op == 'ite':
        c = simp(ctx, x[0], depth)
        c = decide(ctx, c)
        if c is TRUE:
            return simp(ctx, x[1], depth)
        if c is FALSE:
            return simp(ctx, x[2], depth)
        return ite(c, simp(ctx.add(c), x[1], depth), simp(ctx.add(bnot(c)), x[2], depth))
    if op == 'br':
        c = decide(ctx, simp(ctx, x[0], depth))
        return br(a.sort, c)
    if op == 'div':
        n, d = simp(ctx, x[0], depth), simp(ctx, x[1], depth)
        e = exact_div(ctx, n, d)
        if e is None and len(d.items) == 1 and has_pow2_factor(d.items[0][0]) is not None:
            for k in (1, 2, 3):
                g = scale(d, Fraction(1, 2 ** k))
                if not integral(ctx, g):
                    break
                q, r = mono_div(n, g)
                if q.items and not r.items and integral(ctx, q):
                    return idiv(q, I(2 ** k))
        return e if e is not None else idiv(n, d)
    if op == 'sum':
        bounds = tuple(simp(ctx, n, depth) for n in x[0])
        vs, b = ctx.open(a, x[1])
        if any(v in n.fv for v in vs for n in bounds):
            vs, b = lam_open(x[1])
        c2 = ctx
        for v, n in zip(vs, bounds):
            c2 = c2.rng(v, n)
        b2 = simp(c2, b, depth + 1)
        r = b2
        if len(vs) == 1:
            r2 = narrow(ctx, c2, vs[0], bounds[0], b2)
            if r2 is not None:
                return r2
        for v, n in zip(vs, bounds):
            r = mk_sum(v, n, r)
        return r
    if op == 'prod':
        n = simp(ctx, x[0], depth)
        vs, b = ctx.open(a, x[1])
        return mk_prod(vs[0], n, simp(ctx.rng(vs[0], n), b, depth + 1))
    if op in ('rec',):
        return mk_rec(x[0], x[1], tuple(simp(ctx, y, depth) for y in x[2]), simp(ctx, x[3], depth))
    if op == 'arec':
        n, ks = simp(ctx, x[2], depth), tuple(simp(ctx, y, depth) for y in x[3])
        st = x[0]
        if st.body.__class__ is Poly and atoms_in(st.body, lambda a: a.op == 'ite'):
            # the step, for the iterations that are made
            vs, b = ctx.open(a, st)
            b2 = simp(ctx.rng(vs[0], n), b, depth + 1)
            if b2 is not b:
                st2 = lam(tuple(vs), b2)
                if st2 is not st:
                    return simp(ctx, mk_arec(st2, x[1], n, ks), depth)
        if st.body.__class__ is Poly:
            ba = as_atom(st.body)
            if ba is not None and ba.op == 'ite':
                # a cell that no step changes keeps its first value
                i = fresh('i')
                F0 = atom('var', (as_atom(fresh('~f')).args[0],), 'fun')
                E = subst(st.body, dict(zip(st.params[:-1], (i,) + ks)), fun={st.params[-1]: (lambda args: fapp(F0, args, st.body.sort))})
                E = simp(ctx.add(le(I(0), i), lt(i, n)), E, depth + 1)
                if E is fapp(F0, ks, st.body.sort):
                    return simp(ctx, lam_apply(x[1], list(ks)), depth + 1)
        return mk_arec(x[0], x[1], n, ks)
    nx = tuple(simp(ctx, y, depth) if isinstance(y, (Poly, Atom, Bool)) else y for y in x)
    if op == 'app' and isinstance(x[0], str) and x[0].startswith('def:') and any(isinstance(y, Lam) for y in x):
        nx = list(nx)
        for i, y in enumerate(x):
            if isinstance(y, Lam):
                vs, b = ctx.open(a, y)
                nx[i] = lam(vs, simp(ctx.rng(vs[0], nx[i + 1]), b, depth + 1))
        nx = tuple(nx)
    if nx == x:
        return lift_if(a)
    return rebuild(op, nx, a.sort)


def narrow(ctx, c2, x, n, body):
    """sum over 0<=x<n of a monomial with brackets restricting x to a sub-range"""
    if len(body.items) != 1:
        return None
    (m, c), = body.items
    for a, e in m:
        if a.op == 'br' and a.args[0].op == 'le':
            p = a.args[0].args[0]
            k = None
            for mm, cc in p.items:
                if len(mm) == 1 and mm[0] == (x, 1):
                    k = cc
            if k not in (1, -1):
                continue
            rest = sub(p, scale(lift(x), k))
            if x in rest.fv:
                continue
            rb = mkpoly(body.sort, {tuple((b, f) for b, f in m if b is not a): c})
            if k == 1:
                # x <= -rest
                hi = sub(I(1), rest)
                if entails(ctx, band(le(I(0), hi), le(hi, n))):
                    return simp(ctx, mk_sum(x, hi, rb))
            else:
                lo = rest  # rest - x <= 0
                if entails(ctx, band(le(I(0), lo), le(lo, n))):
                    return simp(ctx, sub(mk_sum(x, n, rb), mk_sum(x, lo, rb)))
    return None


def simp_bool(ctx, b, depth=0):
    if b is TRUE or b is FALSE:
        return b
    op, a = b.op, b.args
    if op == 'and':
        out = []
        c2 = ctx
        for x in a:
            y = simp(c2, x, depth)
            if y is FALSE:
                return FALSE
            out.append(y)
            c2 = c2.add(y)
        return band(*out)
    if op == 'or':
        out = []
        for x in a:
            y = simp(ctx, x, depth)
            if y is TRUE:
                return TRUE
            out.append(y)
        return bor(*out)
    if op == 'not':
        return bnot(simp(ctx, a[0], depth))
    if op == 'all':
        n = simp(ctx, a[0], depth)
        vs, bd = ctx.open(b, a[1])
        return forall(vs[0], n, simp(ctx.rng(vs[0], n), bd, depth + 1))
    if op == 'le':
        r = decide(ctx, le0(simp(ctx, a[0], depth)))
        if r.op == 'le':
            d = digits_le(ctx, r.args[0])
            if d is not None:
                return simp(ctx, d, depth)
        return r
    if op == 'eq':
        r = decide(ctx, eq0(simp(ctx, a[0], depth)))
        if r.op == 'eq' and r.args[0].sort == 'I':
            d = digits(ctx, r.args[0])
            if d is not None:
                return simp(ctx, d, depth)
        return r
    if op == 'same':
        return decide(ctx, eq(simp(ctx, a[0], depth), simp(ctx, a[1], depth)))
    return decide(ctx, b)


def radix(ctx, p):
    """the ways to write p as c * q + r with a power of two or an atom c"""
    if len(p.items) < 3 or any(k.denominator != 1 for m, k in p.items):
        return []
    cs = {a for m, k in p.items for a, e in m if a.op == 'pow2' or (len(m) > 1 or e > 1)}
    out = []
    for a in cs:
        c = lift(a)
        quo, rest = {}, {}
        for m, k in p.items:
            if a.op == 'pow2':
                q, r = mono_div(mkpoly('I', {m: k}), c)
                if q.items and not r.items and integral(ctx, q):
                    (mm, kk), = q.items
                    quo[mm] = quo.get(mm, 0) + kk
                else:
                    rest[m] = k
            else:
                d = dict(m)
                if a in d:
                    d[a] -= 1
                    mm = tuple((x, e) for x, e in ((x, d[x]) for x, e in m) if e)
                    quo[mm] = quo.get(mm, 0) + k
                else:
                    rest[m] = k
        q, r = mkpoly('I', quo), mkpoly('I', rest)
        if q.items and r.items and cval(q) is None:
            out.append((len(r.items), c, q, r))
    out.sort(key=lambda x: x[0])
    return out


def digits(ctx, p):
    """c * q + r == 0 with |r| < c, as q == 0 and r == 0"""
    for n, c, q, r in radix(ctx, p):
        if cval(r) is None and entails(ctx, lt(r, c)) and entails(ctx, lt(neg(c), r)):
            return band(eq0(q), eq0(r))
    return None


def digits_le(ctx, p):
    """c * q + r <= 0 with -c < r <= 0, as q <= 0"""
    for n, c, q, r in radix(ctx, p):
        if entails(ctx, le(r, I(0))) and entails(ctx, lt(neg(c), r)):
            return le(q, I(0))
    return None


# ---------------------------------------------------------------- proving

_heads = {}


def heads(t):
    """names of the functions applied in t, under binders too"""
    r = _heads.get(t)
    if r is None:
        r = _heads[t] = frozenset(a.args[0] for a in atoms_in(t, lambda a: a.op in ('app', 'fapp'), under=True))
    return r


_fieldy = {}


def fieldy(f):
    """the fact talks about field elements"""
    r = _fieldy.get(f)
    if r is None:
        if f.op in ('not', 'and', 'or'):
            r = any(fieldy(x) for x in f.args)
        elif f.op == 'eq':
            r = f.args[0].sort == 'F'
        elif f.op == 'all':
            vs, b = lam_open(f.args[1])
            r = fieldy(b)
        else:
            r = False
        _fieldy[f] = r
    return r


def by_match(ctx, goal):
    """a universal or an equation that is, up to equality of corresponding terms, an instance of a fact.
    Only the facts on integers are used in the comparison"""
    base = Ctx(tuple(f for f in ctx.facts if not fieldy(f)))
    hg = heads(goal)
    for f in ctx.facts:
        if f.op in ('all', 'eq') and fieldy(f) and len(heads(f) ^ hg) <= len(heads(f)):
            if matches(base, f, goal, 0):
                return True
    return False


def matches(c, f, g, d):
    """the formula f implies g; both of the same form"""
    if f is g or g is TRUE or g in c.fset:
        return True
    if d > 8:
        return False
    if g.op == 'and':
        return all(matches(c, f, x, d + 1) for x in g.args)
    if f.op == 'and':
        return any(matches(c, x, g, d + 1) for x in f.args)
    if f.op == 'eq' and g.op == 'eq':
        p, q = f.args[0], g.args[0]
        if p.sort != q.sort or len(heads(p) ^ heads(q)) > 2:
            return False
        for r in (sub(p, q), add(p, q)):
            r = simp(c, r)
            if not r.items:
                return True
            if len(r.items) <= max(len(p.items), len(q.items)) + 1 and prove_zero(c, r, 20):
                return True
        return False
    if f.op == 'all':
        if g.op == 'all':
            m, n = f.args[0], g.args[0]
            if m is n or entails(c, le(n, m)):
                vs, b = c.open(g, g.args[1], 'x')
                fb = lam_apply(f.args[1], [lift(vs[0])])
                if matches(c.rng(vs[0], n), fb, b, d + 1):
                    return True
        vs, b = lam_open(f.args[1])
        x = vs[0]
        cands = {}
        ground = {}
        for a in atoms_in(g, lambda a: a.op in ('app', 'fapp')):
            ground.setdefault(a.args[0], []).append(a)
        if g.op == 'all':
            for a in atoms_in(lam_open(g.args[1])[1], lambda a: a.op in ('app', 'fapp')):
                ground.setdefault(a.args[0], []).append(a)
        inner = frozenset()
        bodies = [b]
        for y in (b.args if b.op == 'and' else (b,)):
            if y.op == 'all':
                ws, b2 = lam_open(y.args[1])
                inner = inner | frozenset(ws)
                bodies.append(b2)
        for t in bodies:
            for tr in atoms_in(t, lambda a: a.op in ('app', 'fapp') and x in a.fv):
                for a in ground.get(tr.args[0], ()):
                    if len(a.args) == len(tr.args):
                        v = match_var(tr, a, x, inner)
                        if v is not None:
                            cands[v] = 1
        for v in list(cands)[:6]:
            if v.fv <= g.fv | c.fv() and entails(c, band(le(I(0), v), lt(v, f.args[0]))):
                if matches(c, subst(b, {x: v}), g, d + 1):
                    return True
    return False


class Fail(Exception):
    pass


LAST = {}


def prove(ctx, goal, depth=0):
    """True if the goal is proved"""
    if goal is TRUE:
        return True
    if depth > 40:
        return False
    if goal in ctx.fset:
        return True
    if any(f.op == 'all' and fieldy(f) for f in ctx.facts):
        if goal.op == 'and':
            return all(prove(ctx, x, depth + 1) for x in goal.args)
        if goal.op in ('all', 'eq') and fieldy(goal) and by_match(ctx, goal):
            return True
        if goal.op == 'or' and fieldy(goal):
            c2 = ctx.add(*[bnot(y) for y in goal.args])
            if FALSE in c2.fset:
                return True
            for f in c2.facts:
                if f.op == 'not' and f.args[0].op in ('all', 'eq') and fieldy(f) and by_match(c2, f.args[0]):
                    return True
    if entails(ctx, goal):
        return True
    goal = simp(ctx, goal)
    if goal is TRUE:
        return True
    op, a = goal.op, goal.args
    if op == 'and':
        return all(prove(ctx, x, depth + 1) for x in a)
    if op == 'le' or (op == 'or' and all(x.op == 'le' for x in a)):
        cs = [] if depth > 12 else conds_in(goal)
        if cs:
            c = _pick(cs)
            return prove(ctx.add(c), goal, depth + 1) and prove(ctx.add(bnot(c)), goal, depth + 1)
        c2 = saturate(ctx)
        if c2 is not ctx:
            return entails(c2, goal) or entails(c2, FALSE)
        return False
    if op == 'all':
        vs, b = ctx.open(goal, a[1], 'x')
        c2 = ctx.rng(vs[0], a[0])
        # instances of hypotheses with the same variable (and reversed)
        extra = []
        for f in ctx.facts:
            if f.op == 'all' and f.args[0].sort == 'I':
                extra.append(implies(lt(lift(vs[0]), f.args[0]), lam_apply(f.args[1], [lift(vs[0])])))
        c2 = c2.add(*[simp(c2, e) for e in extra])
        return prove(c2, b, depth + 1)
    if op == 'eq':
        if prove_zero(ctx, a[0], depth):
            return True
        if a[0].sort == 'I':
            return False
        return False
    if op == 'or':
        # assume the negation of the others
        nall = any(f.op == 'not' and f.args[0].op == 'all' or f.op == 'or' and any(x.op == 'not' and x.args[0].op == 'all' for x in f.args) for f in ctx.facts)
        neq = any(f.op == 'not' and f.args[0].op == 'eq' and f.args[0].args[0].sort == 'F' for f in ctx.facts)
        for x in sorted(a, key=lambda x: {'eq': 0, 'all': 1, 'and': 2}.get(x.op, 3)):
            if (x.op in ('eq', 'all', 'and', 'same') or nall and x.op == 'not' and x.args[0].op == 'all' or
                    neq and x.op == 'not' and x.args[0].op == 'eq' and x.args[0].args[0].sort == 'F'):
                others = [bnot(y) for y in a if y is not x]
                if prove(ctx.add(*others), x, depth + 1):
                    return True
        c2 = ctx.add(*[bnot(y) for y in a])
        return entails(c2, FALSE)
    if op == 'not' and a[0].op == 'all':
        # existential: from a hypothesis with an equivalent body
        for f in ctx.facts:
            if f.op == 'not' and f.args[0].op == 'all':
                # refute: assume the goal's universal, derive the hypothesis' universal
                if prove(ctx.add(a[0]), f.args[0], depth + 1):
                    return True
        for f in ctx.facts:
            if f.op == 'or':
                for x in f.args:
                    if x.op == 'not' and x.args[0].op == 'all':
                        if all(prove(ctx, bnot(y), depth + 1) for y in f.args if y is not x) and prove(ctx.add(a[0]), x.args[0], depth + 1):
                            return True
        return entails(ctx.add(a[0]), FALSE)
    if op == 'not' and a[0].op == 'eq':
        # disequality: from another disequality
        for f in ctx.facts:
            if f.op == 'not' and f.args[0].op == 'eq' and f.args[0].args[0].sort == a[0].args[0].sort:
                p, q = f.args[0].args[0], a[0].args[0]
                if prove(ctx, eq0(sub(p, q)), depth + 1) or prove(ctx, eq0(add(p, q)), depth + 1):
                    return True
        return False
    if op == 'same':
        return prove_same(ctx, a[0], a[1], depth)
    return False


def prove_same(ctx, x, y, depth):
    if x is y:
        return True
    if x.op == 'ite':
        return prove_same(ctx.add(x.args[0]), x.args[1], y, depth + 1) and prove_same(ctx.add(bnot(x.args[0])), x.args[2], y, depth + 1)
    if y.op == 'ite':
        return prove_same(ctx, y, x, depth)
    if x.op == y.op == 'app' and x.args[0] == y.args[0] and len(x.args) == len(y.args):
        return all(prove_eqv(ctx, p, q, depth + 1) for p, q in zip(x.args[1:], y.args[1:]))
    return entails(ctx, eq(x, y))


def prove_iff(ctx, p, q):
    if p is q:
        return True
    p, q = simp(ctx, p), simp(ctx, q)
    if p is q:
        return True
    # conjunctions: match conjunct by conjunct first
    return prove(ctx.add(p), q) and prove(ctx.add(q), p)


def prove_eqv(ctx, a, b, depth=0, n=None):
    """equality of two values of any kind"""
    if a is b:
        return True
    if isinstance(a, Bool):
        return prove_iff(ctx, a, b)
    if isinstance(a, Poly):
        return prove_zero(ctx, sub(a, b), depth)
    if isinstance(a, Atom):
        return prove_same(ctx, a, b, depth)
    if isinstance(a, Lam):
        if len(a.params) != len(b.params):
            return False
        vs, x = lam_open_in(a, ctx.fv() | a.fv | b.fv)
        y = lam_apply(b, [lift_if(v) for v in vs])
        c2 = ctx
        for i, v in enumerate(vs):
            if v.sort == 'I':
                c2 = c2.add(le(I(0), lift(v)))
                if i == 0 and n is not None:
                    c2 = c2.add(lt(lift(v), n))
        if isinstance(x, tuple):
            return all(prove_eqv(c2, p, q, depth + 1) for p, q in zip(x, y))
        return prove_eqv(c2, x, y, depth + 1)
    return a == b


def conds_in(p):
    """undecided conditions at top level of p, simplest first"""
    out = {}
    for at in atoms_in(p, lambda a: a.op in ('ite', 'br')):
        c = at.args[0]
        st = [c]
        while st:
            b = st.pop()
            if b.op in ('and', 'or', 'not'):
                st.extend(b.args)
            else:
                out[b] = 1
    return list(out)


BUDGET = {'n': 0}


def prove_zero(ctx, p, depth=0):
    """p == 0 under ctx"""
    STAT['eq'] += 1
    if not p.items:
        return True
    if depth > 30:
        return False
    if p.sort == 'I' and entails(ctx, eq0(p)):
        return True
    p = simp(ctx, p)
    p = ctx.rewrite(p)
    p = simp(ctx, p)
    if not p.items:
        return True
    if p.sort == 'I' and entails(ctx, eq0(p)):
        return True
    if entails(ctx, FALSE):
        return True
    cs = conds_in(p)
    if cs:
        if depth > 24:
            return False
        c = _pick(cs)
        return prove_zero(ctx.add(c), p, depth + 1) and prove_zero(ctx.add(bnot(c)), p, depth + 1)
    es = instance_eqs(ctx, p)
    if es:
        return prove_zero(ctx.add(*es), p, depth + 1)
    r = witness(ctx, p)
    if r is not None:
        return FALSE in r[0].fset or prove_zero(r[0], r[1], depth + 1)
    q = peel(ctx, p)
    if q is not p and prove_zero(ctx, q, depth + 1):
        return True
    s = shifted(ctx, p) if depth < 6 else None
    if s is not None and prove_zero(ctx, s, depth + 7):
        return True
    if q is not p:
        return False
    q = parity(ctx, p)
    if q is not None:
        return prove_zero(ctx, q, depth + 1)
    q = congruence(ctx, p, depth)
    if q is not p:
        return prove_zero(ctx, q, depth + 1)
    if combine_sums(ctx, p, depth):
        return True
    c2 = saturate(ctx)
    if c2 is not ctx and (FALSE in c2.fset or entails(c2, FALSE) or prove_zero(c2, p, depth + 1)):
        return True
    LAST['goal'] = (ctx, p)
    if TRACE:
        print('  ' * depth + 'STUCK', p, '\n   UNDER', [str(f) for f in ctx.facts])
    return False


def instance_eqs(ctx, p):
    """equations that universally quantified facts give about the applications of p"""
    out = []
    for f in ctx.facts:
        if f.op != 'all':
            continue
        for i in _instances(Ctx((f,)), eq0(p)):
            fs = [i]
            if i.op == 'or':
                # implication: the guard has to be known
                hold = [g for g in i.args if not entails(ctx, bnot(g))] if all(g.op in ('le', 'not', 'eq', 'and') for g in i.args) else []
                if len(hold) != 1:
                    continue
                fs = hold
            for g in (fs[0].args if fs[0].op == 'and' else fs):
                if g.op == 'eq' and g not in ctx.fset and g not in out and isinstance(g.args[0], Poly) and T.solve_atom(g.args[0]):
                    out.append(g)
    return [g for g in out if not (ctx.rewrite(g) is TRUE)]


def _pick(cs):
    return min(cs, key=lambda c: (c.op != 'eq', len(c.fv), c.id))


def _resimp(ctx, f):
    if f.op == 'le':
        return le0(simp(ctx, ctx.rewrite(f.args[0])))
    if f.op == 'eq':
        return eq0(simp(ctx, ctx.rewrite(f.args[0])))
    if f.op == 'not':
        return bnot(_resimp(ctx, f.args[0]))
    if f.op == 'and':
        return band(*[_resimp(ctx, g) for g in f.args])
    if f.op == 'or':
        return bor(*[_resimp(ctx, g) for g in f.args])
    return ctx.rewrite(f)


def saturate(ctx):
    """the facts rewritten by the equalities of the context and simplified, added to it"""
    if not ctx.rewrites() and not any(f.op in ('le', 'eq') and conds_in(f) for f in ctx.facts):
        return ctx
    r = ctx.scache.get('saturated')
    if r is None:
        r = ctx.add(*[_resimp(ctx, f) for f in ctx.facts])
        ctx.scache['saturated'] = r
        r.scache.setdefault('saturated', r)
    return r


def witness(ctx, p):
    """a hypothesis v = s*div(v, s) + c: replace v by s*w + c with w natural"""
    for f in ctx.facts:
        if f.op != 'eq' or f.args[0].sort != 'I':
            continue
        q = f.args[0]
        for D in atoms_in(q, lambda a: a.op == 'div'):
            v = as_atom(D.args[0])
            if v is None or v.op not in ('var', 'app') or occurs(v, D.args[1]):
                continue
            w = T.fresh('w')
            q2 = subst(q, {D: w})
            for a, val in T.solve_atom(q2):
                if a is v:
                    m = {v: val}
                    fs = [subst(subst(g, {D: w}), m) for g in ctx.facts if g is not f]
                    if any(g is FALSE for g in fs):
                        return Ctx((FALSE,)), p
                    c2 = Ctx(()).add(le(I(0), w), le(I(0), val), *fs)
                    c2 = c2.add(*[_resimp(c2, g) for g in fs if g.op in ('le', 'eq', 'not')])
                    return c2, subst(subst(p, {D: w}), m)
    return None


def T_const_part(n):
    for m, c in n.items:
        if m == ():
            return I(c) if c == int(c) else I(0)
    return I(0)


def peel(ctx, p):
    """unfold sums/products/recursions whose bounds differ by a small constant to the smallest of them"""
    ats = atoms_in(p, lambda a: a.op in ('sum', 'prod', 'rec', 'arec', 'fpow'))
    groups = {}
    for a in ats:
        if a.op == 'sum':
            if len(a.args[0]) != 1:
                continue
            groups.setdefault(('sum',), []).append((a, a.args[0][0]))
        elif a.op == 'prod':
            groups.setdefault(('prod',), []).append((a, a.args[0]))
        elif a.op == 'rec':
            groups.setdefault(('rec',), []).append((a, a.args[3]))
        elif a.op == 'arec':
            groups.setdefault(('arec',), []).append((a, a.args[2]))
    for key in (('arec',), ('rec',)):
        for a, n in groups.get(key, ()):
            k = cval(T_const_part(n))
            if cval(n) is None and k is not None and k >= 1 and entails(ctx, le(I(1), n)):
                return peel_one(ctx, p, a, sub(n, I(1)))
    for key, lst in groups.items():
        for a, n in lst:
            if cval(n) is not None:
                if 0 < cval(n) <= 8 and key[0] in ('sum', 'prod', 'rec', 'arec'):
                    if key[0] == 'rec' or key[0] == 'arec' or cval(n) <= 4:
                        return peel_one(ctx, p, a, I(cval(n) - 1))
                continue
            for b, m in lst:
                if b is a:
                    continue
                d = cval(sub(n, m))
                if d is not None and 0 < d <= 3 and entails(ctx, le(I(0), m)):
                    return peel_one(ctx, p, a, sub(n, I(1)))
    return p


def parity(ctx, p):
    """a sum over twice the range of another one, split in its even and odd terms"""
    ats = [a for a in atoms_in(p, lambda a: a.op == 'sum')]
    ranges = {m for a in ats for m in a.args[0]}
    for a in ats:
        for i, n in enumerate(a.args[0]):
            if cval(n) is not None:
                continue
            m = next((m for m in ranges if n is scale(m, 2)), None)
            if m is None:
                continue
            vs, bd = lam_open(a.args[1])
            y = lift(vs[i])
            v = add(subst(bd, {vs[i]: scale(y, 2)}), subst(bd, {vs[i]: add(scale(y, 2), I(1))}))
            for j in reversed(range(len(vs))):
                v = mk_sum(vs[j], m if j == i else a.args[0][j], v)
            return simp(ctx, subst(p, {a: v}))
    return None


def shifted(ctx, p):
    """p with the longer sums unfolded at their first term instead of their last"""
    ats = [a for a in atoms_in(p, lambda a: a.op == 'sum') if len(a.args[0]) == 1]
    for a in ats:
        for b in ats:
            if b is a:
                continue
            n, m = a.args[0][0], b.args[0][0]
            d = cval(sub(n, m))
            if d is not None and 0 < d <= 2 and entails(ctx, le(I(0), m)):
                vs, bd = lam_open(a.args[1])
                v = add(lam_apply(a.args[1], [I(0)]), mk_sum(vs[0], sub(n, I(1)), subst(bd, {vs[0]: add(lift(vs[0]), I(1))})))
                return simp(ctx, subst(p, {a: v}))
    return None


def peel_one(ctx, p, a, n):
    x = a.args
    if a.op == 'sum':
        v = add(mk_sum_lam(x[1], n), lam_apply(x[1], [n]))
    elif a.op == 'prod':
        vs, b = lam_open(x[1])
        v = mul(mk_prod(vs[0], n, b), lam_apply(x[1], [n]))
    elif a.op == 'rec':
        v = rec_step(a, n)
    else:
        v = arec_step(a, n, list(x[3]))
    return simp(ctx, subst(p, {a: v}))


def mk_sum_lam(l, n):
    vs, b = lam_open(l)
    return mk_sum(vs[0], n, b)


CONGR = ('app', 'fapp', 'rec', 'arec', 'inv', 'fpow', 'ofint', 'prod', 'div', 'pow2')


def congruence(ctx, p, depth):
    """merge applications whose arguments are provably equal"""
    ats = atoms_in(p, lambda a: a.op in CONGR)
    by = {}
    for a in ats:
        k = (a.op, a.args[0] if a.op in ('app', 'fapp') else None, len(a.args), a.sort)
        by.setdefault(k, []).append(a)
    for k, lst in by.items():
        for i in range(len(lst)):
            for j in range(i):
                a, b = lst[i], lst[j]
                if congruent(ctx, a, b, depth):
                    return simp(ctx, subst(p, {a: lift_if(b)}))
    return p


def arg_bound(a):
    """the range in which the first (function) argument of an application matters"""
    if a.op == 'app' and a.args[0] in LEN_BOUNDED:
        return a.args[LEN_BOUNDED[a.args[0]]]
    return None


LEN_BOUNDED = {}


def congruent(ctx, a, b, depth):
    key = (a, b, 'cg')
    r = ctx.cache.get(key)
    if r is not None:
        return r
    ctx.cache[key] = False
    r = _congruent(ctx, a, b, depth)
    ctx.cache[key] = r
    return r


def _congruent(ctx, a, b, depth):
    if depth > 12:
        return False
    if a.op == 'prod':
        if not prove_zero(ctx, sub(a.args[0], b.args[0]), depth + 1):
            return False
        vs, x = lam_open_in(a.args[1], ctx.fv() | a.fv | b.fv)
        y = lam_apply(b.args[1], [lift(vs[0])])
        return prove_zero(ctx.rng(vs[0], a.args[0]), sub(x, y), depth + 1)
    if a.op == 'rec':
        if a.args[0] != b.args[0] or len(a.args[2]) != len(b.args[2]):
            return False
        if not all(prove_eqv(ctx, x, y, depth + 1) for x, y in zip(a.args[2], b.args[2])):
            return False
        if not prove_eqv(ctx, a.args[3], b.args[3], depth + 1):
            return False
        return prove_eqv(ctx, a.args[1], b.args[1], depth + 1, n=a.args[3])
    if a.op == 'arec' and len(a.args[3]) == len(b.args[3]) and arec_congruent(ctx, a, b, depth):
        return True
    bound = a.args[2] if a.op == 'arec' else arg_bound(a)
    folded = a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('def:')
    # cheap arguments first
    order = sorted(range(len(a.args)), key=lambda i: isinstance(a.args[i], Lam))
    for i in order:
        x, y = a.args[i], b.args[i]
        if x is y:
            continue
        if isinstance(x, tuple):
            if len(x) != len(y) or not all(prove_eqv(ctx, u, v, depth + 1) for u, v in zip(x, y)):
                return False
            continue
        if not isinstance(x, Node):
            if x != y:
                return False
            continue
        if x.__class__ is not y.__class__:
            return False
        if not prove_eqv(ctx, x, y, depth + 1, n=(a.args[i + 1] if folded else bound) if isinstance(x, Lam) else None):
            return False
    return True


def arec_congruent(ctx, a, b, depth):
    """induction over the steps, for the cells of the range that the context states for the indices"""
    st1, ba1, n, ks = a.args
    st2, ba2, n2, ks2 = b.args
    if not all(prove_eqv(ctx, u, v, depth + 1) for u, v in zip(ks + (n,), ks2 + (n2,))):
        return False
    rng = []
    for d, k in enumerate(ks):
        v = as_atom(k)
        if v is None or v.op != 'var':
            continue
        for f in ctx.facts:
            if f.op == 'le' and v in f.fv and _upper(f.args[0], v):
                rng.append((d, v, f))
    if rng and arec_induct(ctx, a, b, depth, rng):
        return True
    if rng:
        return False
    # ranges that the steps themselves distinguish
    cand = []
    for st in (st1, st2):
        for d, v in enumerate(st.params[1:-1]):
            fs = [c for c in le_conds(st.body) if v in c.fv and _upper(c.args[0], v)]
            for f in fs:
                if not any(x is not v and x.args[0].startswith('#') for x in f.fv):
                    g = (d, v, f)
                    if entails(ctx, subst(f, {v: ks[d]})) and entails(ctx, le(I(0), ks[d])):
                        cand.append(g)
    for g in cand[:4]:
        if arec_induct(ctx, a, b, depth, [g]):
            return True
    return False


def _upper(p, v):
    """p <= 0 bounds v from above"""
    c = 0
    for m, co in p.items:
        if m == ((v, 1),):
            c = co
        elif any(v in x.fv for x, e in m):
            return False
    return c > 0


def le_conds(t):
    """comparisons inside a term, the weakest bounds last"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x in seen:
            if isinstance(x, tuple):
                st.extend(x)
            continue
        seen.add(x)
        if isinstance(x, Bool) and x.op == 'le' and x not in out:
            out.append(x)
        if isinstance(x, Poly):
            st.extend(a for m, c in x.items for a, e in m)
        elif isinstance(x, Lam):
            st.append(x.body)
        else:
            st.extend(x.args)
    return out


def arec_induct(ctx, a, b, depth, rng):
    st1, ba1, n, ks = a.args
    st2, ba2, n2, ks2 = b.args

    def R(args):
        return band(*[le(I(0), args[d]) for d in sorted({d for d, v, f in rng})], *[subst(f, {v: args[d]}) for d, v, f in rng])
    y = [fresh('y') for _ in ks]
    c1 = ctx.add(*[le(I(0), x) for x in y]).add(R(y))
    so = st1.body.sort
    if not prove_zero(c1, sub(lam_apply(ba1, y), lam_apply(ba2, y)), depth + 1):
        return False
    i = fresh('i')
    fs = [atom('var', (as_atom(fresh('~h')).args[0],), 'fun') for _ in range(3)]

    def body(st, o):
        return subst(st.body, dict(zip(st.params[:-1], [i] + y)),
                     fun={st.params[-1]: (lambda args: ite(R(args), fapp(fs[0], args, so), fapp(o, args, so)))})
    c2 = c1.add(le(I(0), i), lt(i, n))
    return prove_zero(c2, sub(body(st1, fs[1]), body(st2, fs[2])), depth + 1)


def combine_sums(ctx, p, depth):
    """p is a combination of sums: compare them pointwise"""
    ats = [a for a in atoms_in(p, lambda a: a.op == 'sum')]
    if not ats:
        return False
    # write p = sum_j c_j S_j + rest, S_j top-level linear
    by = {}
    rest = {}
    for m, c in p.items:
        sums = [(a, e) for a, e in m if a.op == 'sum']
        if not sums:
            rest[m] = c
            continue
        # the whole monomial as a nested sum
        binders, body = [], mkpoly(p.sort, {tuple((a, e) for a, e in m if a.op != 'sum'): c})
        for a, e in sums:
            for _ in range(e):
                vs, b = lam_open(a.args[1])
                binders.extend(zip(vs, a.args[0]))
                body = mul(body, b)
        by.setdefault(len(binders), []).append((binders, body))
    if rest:
        return False
    # try to align every monomial on the binders of the first
    allm = [bb for k in by for bb in by[k]]
    if len(by) != 1:
        return False
    ref, acc = allm[0]
    import itertools

    def align(i, acc, c2):
        if i == len(allm):
            return prove_zero(c2, acc, depth + 1)
        bs, body = allm[i]
        tried = 0
        for perm in itertools.permutations(range(len(bs))):
            ok = True
            mp = {}
            for r, k in zip(ref, perm):
                if r[1] is not bs[k][1] and not prove_zero(ctx, sub(r[1], bs[k][1]), depth + 1):
                    ok = False
                    break
                mp[bs[k][0]] = lift(r[0])
            if not ok:
                continue
            tried += 1
            if align(i + 1, add(acc, subst(body, mp)), c2):
                return True
            if len(ref) == 1:
                # reversed index
                n = ref[0][1]
                if align(i + 1, add(acc, subst(body, {bs[0][0]: sub(sub(n, I(1)), lift(ref[0][0]))})), c2):
                    return True
            if tried > 6:
                break
        return False
    if len(allm) > 8:
        return False
    c2 = ctx
    for x, n in ref:
        c2 = c2.rng(x, n)
    return align(1, acc, c2)
