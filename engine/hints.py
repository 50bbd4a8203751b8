"""Candidate closed forms for array loops. A candidate is only used when the induction step proves it,
so nothing here is trusted."""
import itertools
from fractions import Fraction
from term import *
import term as T
import prove as PV
import loops as LP
from exec import as_term
from prove import simp, entails
from val import DIM, DIMA
from specfn import eqw_term


def pow2_part(d, ta):
    """d as a power of two depending on t"""
    l = T.log2_of(d)
    return l if l is not None and ta in l.fv else None


def reads(E, sym):
    return T.atoms_in(E, lambda a: a.op == 'fapp' and a.args[0] is sym)


def offsets(S, sv, E):
    """(dimension, offset, read) of the reads of the array away from the own cell"""
    out = []
    for r in reads(E, sv.sym):
        ix = r.args[1:]
        ds = [T.sub(i, DIM[k]) for k, i in enumerate(ix)]
        nz = [(k, d) for k, d in enumerate(ds) if d.items]
        if len(nz) == 1:
            out.append((nz[0][0], nz[0][1], r))
    return out


def literals(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            literals(x, out)
    elif c.op == 'le':
        out.append(c)


def views(S, sv, E, ctx):
    """offsets, in E or in one of its cases; with the conditions of the case on the other dimensions"""
    out = [(dim, d, r, ()) for dim, d, r in offsets(S, sv, E)]
    if out and all(pow2_part(d, S.ta) is not None for dim, d, r, x in out):
        return out
    lits = []
    for a in T.atoms_in(E, lambda a: a.op == 'ite'):
        literals(a.args[0], lits)
    U, dims = S.unsolved(), set(DIMA[:sv.dims])
    lits = [c for c in dict.fromkeys(lits) if not (c.fv & U) and len(c.fv & dims) == 1]
    own = [c for c in lits if S.ta in c.fv]
    other = [c for c in lits if S.ta not in c.fv]
    if len(other) > 3 or len(own) > 3:
        return out
    for signs in itertools.product((False, True), repeat=len(other)):
        extra = tuple(c if s else T.bnot(c) for c, s in zip(other, signs))
        for o in own or [T.TRUE]:
            c2 = ctx.add(o, *extra)
            if c2.inconsistent():
                continue
            for dim, d, r in offsets(S, sv, simp(c2, E)):
                out.append((dim, d, r, tuple(x for x in extra if DIMA[dim] not in x.fv)))
    return out


def own_read(sv):
    return T.as_atom(sv.symt)


def coeff(E, U, m):
    v = T.subst(E, m)
    return None if v.fv & U else v


def butterflies(S, key, sv, E, ctx):
    """fold of the first variable: A(k) <- A(k) + c(t) (A(k+d) - A(k)); expansion: A(k+d) <- c A(k), A(k) <- A(k) - A(k+d)"""
    if sv.sort != 'F':
        return
    ta, t = S.ta, S.t
    U = S.unsolved()
    own = own_read(sv)
    dl = DIMA[:sv.dims]
    for dim, d, r, extra in views(S, sv, E, ctx):
        neg = T.neg(d)
        l = pow2_part(d, ta)
        if l is not None:
            # fold
            k = DIM[dim]
            c2 = ctx.add(T.lt(k, d), *extra)
            E2 = simp(c2, E)
            if any(x is not own and x is not r for x in reads(E2, sv.sym)):
                continue
            c = coeff(E2, U, {own: Fc(0), r: Fc(1)})
            b = coeff(E2, U, {own: Fc(1), r: Fc(0)})
            z = coeff(E2, U, {own: Fc(0), r: Fc(0)})
            if c is None or b is None or z is None or z.items or T.add(b, c) is not Fc(1):
                continue
            if c.fv & set(dl):
                continue
            y = T.as_atom(T.fresh('y'))
            d2 = T.scale(d, 2)
            w = eqw_term(lambda i: T.subst(c, {ta: i}), t, T.lift(y))
            e = T.subst(sv.entry, {DIMA[dim]: T.add(T.mul(T.lift(y), d2), k)})
            s = T.mk_sum(y, T.pow2(t), T.mul(w, e))
            rest = T.lift(T.atom('fapp', (T.atom('var', ('rest@' + str(sv.sym.args[0]),), 'fun'),) + tuple(S.ex.iters) + (t,) + tuple(DIM[:sv.dims]), 'F'))
            rng = T.band(T.lt(k, d2), *extra)
            yield T.ite(rng, s, rest), rng
    seen = set()
    for r in reads(E, sv.sym):
        for dim, i in enumerate(r.args[1:]):
            d = T.neg(T.sub(i, DIM[dim]))
            ss = [x.args[1] for x in T.atoms_in(i, lambda a: a.op == 'div')]
            if pow2_part(d, ta) is not None:
                ss.append(T.scale(d, 2))
            for s in ss:
                if pow2_part(s, ta) is None or (dim, s) in seen:
                    continue
                seen.add((dim, s))
                for cand in T.atoms_in(E, lambda a: a.sort == 'F' and a.op in ('fapp', 'app') and ta in a.fv and a.args[0] is not sv.sym):
                    if (cand.fv & U) or (cand.fv & set(dl)):
                        continue
                    c = T.lift(cand)
                    k = DIM[dim]
                    q = T.idiv(k, s)
                    w = eqw_term(lambda i: T.subst(c, {ta: i}), t, q)
                    e0 = T.subst(sv.entry, {DIMA[dim]: I(0)})
                    full = simp(ctx, T.mul(s, T.pow2(t)))
                    rest = T.lift(T.atom('fapp', (T.atom('var', ('rest@' + str(sv.sym.args[0]),), 'fun'),) + tuple(S.ex.iters) + (t,) + tuple(DIM[:sv.dims]), 'F'))
                    yield T.ite(T.lt(k, full), T.ite(T.eq(T.sub(k, T.mul(s, q)), I(0)), T.mul(w, e0), Fc(0)), rest), T.lt(k, full)
                    # only where the other indices are in the range that is written
                    lits = []
                    for a in T.atoms_in(E, lambda a: a.op == 'ite'):
                        literals(a.args[0], lits)
                    lits = [c for c in dict.fromkeys(lits) if not (c.fv & U) and ta not in c.fv and len(c.fv & set(dl)) == 1 and DIMA[dim] not in c.fv]
                    for c1 in lits:
                        rng = T.band(T.lt(k, full), c1)
                        yield T.ite(rng, T.ite(T.eq(T.sub(k, T.mul(s, q)), I(0)), T.mul(w, e0), Fc(0)), rest), rng


def rotation(S, key, sv, E, ctx):
    """exchanges of the cells t and t+1, one after the other: the first element travels along"""
    if sv.dims < 1:
        return
    t, z = S.t, I(0)
    for dim in range(sv.dims):
        k = DIM[dim]
        for r in reads(E, sv.sym):
            if r.args[1 + dim] in (t, T.add(t, I(1))):
                nxt, first = T.subst(sv.entry, {DIMA[dim]: T.add(k, I(1))}), T.subst(sv.entry, {DIMA[dim]: z})
                yield T.ite(T.lt(k, t), nxt, T.ite(T.eq(k, t), first, sv.entry)), None
                break


def same_for_all(S, key, sv, E, ctx):
    """A(k) <- A(k+d): an array whose cells are all equal keeps their value"""
    if sv.sort != 'I':
        return
    ta, t = S.ta, S.t
    for dim, d, r in offsets(S, sv, E):
        if pow2_part(d, ta) is None:
            continue
        k, d2 = DIM[dim], T.scale(d, 2)
        e0 = T.subst(sv.entry, {DIMA[dim]: I(0)})
        rest = T.lift(T.atom('fapp', (T.atom('var', ('rest@' + str(sv.sym.args[0]),), 'fun'),) + tuple(S.ex.iters) + (t,) + tuple(DIM[:sv.dims]), 'I'))
        yield T.ite(T.lt(k, d2), e0, rest), T.lt(k, d2)


def spread(S, key, sv, E, ctx):
    """A(k+d) <- A(k), d half of the last time: the cells at the multiples of a power of two hold the first one"""
    if sv.sort != 'I' or sv.dims != 1:
        return
    ta, t, k = S.ta, S.t, DIM[0]
    ss = [T.scale(T.neg(T.sub(r.args[1], k)), 2) for r in reads(E, sv.sym)]
    ss += [x.args[1] for x in T.atoms_in(E, lambda a: a.op == 'div')]
    seen = set()
    for s in ss:
        for s in (s, T.scale(s, Fraction(1, 2))):
            if pow2_part(s, ta) is None or s in seen:
                continue
            seen.add(s)
            q = T.idiv(k, s)
            e0 = T.subst(sv.entry, {DIMA[0]: I(0)})
            full = simp(ctx, T.mul(s, T.pow2(t)))
            rest = T.lift(T.atom('fapp', (T.atom('var', ('rest@' + str(sv.sym.args[0]),), 'fun'),) + tuple(S.ex.iters) + (t, k), 'I'))
            yield T.ite(T.lt(k, full), T.ite(T.eq(T.sub(k, T.mul(s, q)), I(0)), e0, I(0)), rest), T.lt(k, full)


def history(S, key, sv, E, ctx):
    """A(t+1, ..) <- f(A(t, ..)): cell l holds the value after l steps"""
    if sv.dims < 1 or sv.sort not in ('I', 'F'):
        return
    ta, t, k = S.ta, S.t, DIM[0]
    a = T.as_atom(E)
    if a is None or a.op != 'ite':
        return
    own = own_read(sv)
    z = simp(ctx, T.subst(a.args[0], {DIMA[0]: T.add(t, I(1))}))
    V, other = (a.args[1], a.args[2]) if z is T.TRUE else (a.args[2], a.args[1])
    if other is not sv.symt:
        return
    U = S.unsolved()
    V = simp(ctx, V)
    rs = T.atoms_in(V, lambda a: a.op == 'fapp' and a.args[0] is sv.sym, under=True)
    if not rs or any(r.args[1] is not t for r in rs) or (V.fv & U) - {sv.sym}:
        return
    rng = T.band(T.le(I(0), k), T.le(k, t))
    e0 = T.subst(sv.entry, {DIMA[0]: I(0)})
    if len(rs) == 1 and V is T.lift(rs[0]) and rs[0].args[2:] == tuple(DIM[1:sv.dims]):
        yield T.ite(rng, e0, sv.entry), None
        return
    if sv.dims < 2:
        return
    down = {DIMA[i]: DIM[i - 1] for i in range(1, sv.dims)}
    f = T.atom('var', ('h@' + str(sv.sym.args[0]),), 'fun')
    body = T.subst(V, {}, fun={sv.sym: (lambda args: as_term(T.atom('fapp', (f,) + tuple(args[1:]), sv.sort)))})
    step = T.lam((ta,) + tuple(DIMA[:sv.dims - 1]) + (f,), T.subst(body, down))
    base = T.lam(tuple(DIMA[:sv.dims - 1]), T.subst(e0, down))
    yield T.ite(rng, T.mk_arec(step, base, k, DIM[1:sv.dims]), sv.entry), None


HINTS = [same_for_all, butterflies, rotation, spread, history]
