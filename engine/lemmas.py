"""Lemmas over the contracts: finite or arithmetic facts that a property adds to the postconditions."""
import ast
import math
import time
from math import gcd
import spec
import specfn
import term as T
from exec import Oblig


class LemmaResult(spec.Result):
    def add(self, what, ok):
        self.obligs.append(Oblig(self.name, 'lemma', '', bool(ok), what, 0))


def prime(n):
    """Pratt certificate search: n - 1 is factored by sympy, the certificate is checked here"""
    import sympy
    if n == 2:
        return True
    fs = sympy.factorint(n - 1)
    m = 1
    for q, e in fs.items():
        m *= q ** e
    if m != n - 1:
        return False
    for a in range(2, 200):
        if pow(a, n - 1, n) != 1:
            return False
        if all(pow(a, (n - 1) // q, n) != 1 for q in fs):
            return all(q < 10 ** 6 and all(q % d for d in range(2, int(q ** 0.5) + 1)) or q >= 10 ** 6 and prime(q) for q in fs)
    return False


def sbox_bijective(R, prog, con):
    P = T.P
    R.add('the order of the field is prime (Pratt certificate)', prime(P))
    R.add('7 is invertible modulo p - 1, so that x -> x^7 is one-to-one on the field', gcd(7, P - 1) == 1)
    d = pow(7, -1, P - 1)
    R.add('7 * %d = 1 modulo p - 1: (x^7)^d = x' % d, 7 * d % (P - 1) == 1)
    R.used |= {'gkr-mimc/hash.SBoxInplace', 'gkr-mimc/hash.MimcPermutationInPlace'}
    # a round x -> sbox(x + k + c) composes one-to-one maps; the permutation is 91 of them (contract of MimcPermutationInPlace)
    c = con.tab['gkr-mimc/hash.MimcPermutationInPlace']
    R.add('the permutation is an iteration of rounds x -> sbox(x + constant): ' + '; '.join(s for e, s, l in c.ensures),
          ast.unparse(spec.DEFINES['mimc_perm'][1]) == 'iter(i, 91, x, s, sbox(x + k + arks()[i]))' and ast.unparse(spec.DEFINES['sbox'][1]) == 'x ** 7')


def cauchy_minors(R, prog, con):
    """a Cauchy matrix 1/(x_i + y_j) has every minor invertible when the x are distinct, the y are distinct and no sum is zero"""
    P = T.P
    xs, ys = specfn._consts('strXArr'), specfn._consts('strYArr')
    R.used |= {'gkr-mimc/hash.initArk', 'gkr-mimc/hash.GenerateMDSMatrix'}
    R.add('100 constants of each kind', len(xs) == 100 and len(ys) == 100)
    R.add('the row constants are distinct', len({x % P for x in xs}) == 100)
    R.add('the column constants are distinct', len({y % P for y in ys}) == 100)
    R.add('no sum of a row and a column constant is zero', all((x + y) % P for x in xs for y in ys))
    # a singular minor would give c_j, not all zero, with sum_j c_j / (x_i + y_j) = 0 for the n rows: the numerator
    # N(x) = sum_j c_j prod_{k != j} (x + y_k) has degree below n and n distinct roots, so N = 0, and
    # N(-y_j) = c_j prod_{k != j} (y_k - y_j) gives c_j = 0.


def gate_types(prog):
    out = []
    for t, ms in prog.methods.items():
        if t.startswith('gkr-mimc/circuit.') or t.startswith('*gkr-mimc/circuit.'):
            if {'ID', 'Eval', 'EvalManyVL', 'EvalManyVR', 'Degrees', 'GnarkEval'} <= set(ms):
                out.append((t, ms))
    # a pointer type whose methods are the ones of its value type is the same gate
    vals = {t for t, ms in out}
    return [(t, ms) for t, ms in out if not (t.startswith('*') and t[1:] in vals)]


def gate_ids(R, prog, con):
    """gates with the same identity compute the same function"""
    ids = {}
    for t, ms in gate_types(prog):
        nm = '(%s).' % t
        for m in ('ID', 'Eval', 'EvalManyVL', 'EvalManyVR', 'Degrees', 'GnarkEval'):
            R.add('%s%s is under contract' % (nm, m), nm + m in con.tab)
            if nm + m in con.tab:
                R.used.add(nm + m)
        if nm + 'ID' not in con.tab:
            continue
        (e, s, l), = con.tab[nm + 'ID'].ensures
        v = e.comparators[0]
        if isinstance(v, ast.Constant):
            ids[t] = (v.value, None)
        elif isinstance(v, ast.BinOp) and isinstance(v.left, ast.Constant) and isinstance(v.right, ast.Call) and v.right.func.id == 'dec':
            ids[t] = (v.left.value, ast.unparse(v.right.args[0]))
        else:
            R.add('the identity of %s has a known form' % t, False)
        # the function depends on the fields that the identity determines
        fn = prog.fns[nm + 'ID']
        ty = prog.types[fn.params[0]['t']]
        while ty['k'] in ('ptr', 'named'):
            ty = prog.types[ty['e'] if ty['k'] == 'ptr' else ty['u']]
        fields = {con.tab[nm + 'ID'].params[0] + '.' + f['n'] for f in ty.get('f', [])}
        R.add('the identity of %s determines its parameters %s' % (t, sorted(fields)), fields <= ({ids[t][1]} - {None} if t in ids else set()))
    R.add('there are gates', len(ids) >= 4)
    for a in ids:
        for b in ids:
            if a >= b:
                continue
            (s, x), (u, y) = ids[a], ids[b]
            if x is None and y is None:
                ok = s != u
            elif x is not None and y is not None:
                ok = not s.startswith(u) and not u.startswith(s)
            else:
                k, pre = (s, u) if x is None else (u, s)
                ok = not (k.startswith(pre) and k[len(pre):].isdigit())
            R.add('identities of %s and %s differ' % (a, b), ok)


def gate_degrees(R, prog, con):
    """the declared degrees bound the degrees of the function that the contract of Eval states"""
    import re
    import sympy
    L, Rr, A = sympy.symbols('L R A')
    for t, ms in gate_types(prog):
        nm = '(%s).' % t
        ev, dg = con.tab.get(nm + 'Eval'), con.tab.get(nm + 'Degrees')
        if ev is None or dg is None:
            R.add('%s is under contract' % nm, False)
            continue
        R.used |= {nm + 'Eval', nm + 'Degrees'}
        rhs = ast.unparse(ev.ensures[0][0].comparators[0])
        rhs = rhs.replace('old(deref(vL))', 'L').replace('old(deref(vR))', 'R').replace('g.Ark', 'A')
        f = sympy.expand(sympy.sympify(rhs, locals={'L': L, 'R': Rr, 'A': A}))
        dL, dR = sympy.degree(f, L), sympy.degree(f, Rr)
        # along a line in the common variables, left and right move together
        dP = max([sum(m) for m in sympy.Poly(f, L, Rr).monoms()])
        lo = {}
        for e, s, l in dg.ensures:
            for n, v in re.findall(r'(d[LRP]) >= (\d+)', ast.unparse(e)):
                lo[n] = int(v)
        for n, d in (('dL', dL), ('dR', dR), ('dP', dP)):
            R.add('%s: %s is at least the degree %d of %s' % (nm, n, d, f if len(str(f)) < 60 else rhs), lo.get(n, -1) >= d)


def chunk_order(R, prog, con):
    """entry i of chunk b is entry i * chunks + b of the whole table: the contract of the chunked evaluations, a double sum over
    the chunks, is the value of the multilinear extension of the whole table"""
    import prove as PV
    n, l = T.var('nat:n'), T.var('nat:l')
    y, b = T.var('nat:y'), T.var('nat:b')

    def q(i):
        return T.lift(T.atom('fapp', (T.atom('var', ('q',), 'fun'), i), 'F'))

    def split(l, y, b):
        w = T.add(T.mul(y, T.pow2(l)), b)
        return T.eq(specfn.eqw_term(q, T.add(n, l), w),
                    T.mul(specfn.eqw_term(q, n, y), specfn.eqw_term(lambda i: q(T.add(n, i)), l, b)))
    c = PV.EMPTYCTX.add(T.lt(y, T.pow2(n)))
    R.add('eqw(q, n + 0, y) = eqw(q, n, y) * eqw(q[n:], 0, 0)', PV.prove(c, split(T.I(0), y, T.I(0))))
    l1 = T.add(l, T.I(1))
    h = T.idiv(b, T.I(2))
    R.add('b < 2^(l + 1) gives b // 2 < 2^l', PV.prove(c.add(T.lt(b, T.pow2(l1))), T.lt(h, T.pow2(l))))
    R.add('for b < 2^(l + 1), the equation eqw(q, n + l, y * 2^l + b) = eqw(q, n, y) * eqw(q[n:], l, b) for l and b // 2 gives it for l + 1 and b',
          PV.prove(c.add(T.lt(b, T.pow2(l1)), split(l, y, h)), split(l1, y, b)))
    w = T.add(T.mul(y, T.pow2(l)), b)
    c2 = c.add(T.lt(b, T.pow2(l)))
    R.add('y * 2^l + b < 2^(n + l)', PV.prove(c2, T.lt(w, T.pow2(T.add(n, l)))))
    R.add('(y * 2^l + b) // 2^l = y, so that (y, b) -> y * 2^l + b is one-to-one from pairs to entries', PV.prove(c2, T.eq(T.idiv(w, T.pow2(l)), y)))
    R.add('(y * 2^l + b) % 2^l = b', PV.prove(c2, T.eq(T.imod(w, T.pow2(l)), b)))
    x = T.var('nat:x')
    R.add('x // 2^l < 2^n for x < 2^(n + l), so that every entry has its pair',
          PV.prove(PV.EMPTYCTX.add(T.lt(x, T.pow2(T.add(n, l)))), T.lt(T.idiv(x, T.pow2(l)), T.pow2(n))))
    d = spec.DEFINES['chunked']
    R.add('the contracts speak of this sum', ast.unparse(d[1]) ==
          'sum(y, pow2(n), eqw(q[:n], n, y) * sum(b, pow2(l), eqw(q[n:n + l], l, b) * bkts[b].Table[y]))')
    R.used |= {k for k in con.tab if k.endswith('polynomial.EvaluateChunked') or k.endswith('polynomial.EvaluateMixedChunked')}


def output_weights(R, prog, con):
    """every output has a non-zero weight in the claim that the contract of Verify states"""
    import prove as PV
    import z3
    P = T.P
    R.add('the order of the field is prime, so that a product of non-zero elements is not zero', prime(P))
    # every point has fewer than p - 3 coordinates: a table of 2^(p - 3) entries does not fit in memory
    k = z3.Int('k')
    for what, e in (('k + 2', k + 2), ('1 - (k + 2)', 1 - (k + 2))):
        s = z3.Solver()
        s.add(k >= 0, k < P - 3, e % P == 0)
        R.add('coordinate k of the initial point: %s is not zero in the field, for 0 <= k < p - 3' % what, s.check() == z3.unsat)
    n, x = T.var('nat:n'), T.var('nat:x')

    def q(i):
        return T.lift(T.atom('fapp', (T.atom('var', ('q',), 'fun'), i), 'F'))

    b = T.imod(x, T.I(2))
    c = PV.EMPTYCTX.add(T.lt(x, T.pow2(T.add(n, T.I(1)))))
    for v, f in ((1, lambda e: e), (0, lambda e: T.sub(T.const('F', 1), e))):
        R.add('eqw(q, n + 1, x) is eqw(q, n, x // 2) times %s when x is %s' % (('q[n]', 'odd') if v else ('1 - q[n]', 'even')),
              PV.prove(c.add(T.eq(b, T.I(v))), T.eq(specfn.eqw_term(q, T.add(n, T.I(1)), x), T.mul(specfn.eqw_term(q, n, T.idiv(x, T.I(2))), f(q(n))))))
    R.add('eqw(q, 0, 0) = 1', PV.prove(PV.EMPTYCTX, T.eq(specfn.eqw_term(q, T.I(0), T.I(0)), T.const('F', 1))))
    D = lambda d: ast.unparse(spec.DEFINES[d][1])
    R.add('the weight of output (b, y) in the claim is the product of a weight of y and a weight of b',
          D('chunked_values') == 'sum(y, pow2(n), eqw(q[:n], n, y) * sum(b, pow2(l), eqw(q[n:n + l], l, b) * x[b][y]))')
    R.add('the claim is taken at the initial point', D('first_point') == 'seq(i, n, F(i + 2))' and D('output_claim') ==
          'chunked_values(concat(first_point(v.circuit.Layers[n_layers(v) - 1].BGOutputs), first_point(v.bN)), outputs, no, lo)')
    R.add('the outputs take part in the acceptance of the top layer only, by the claim that its first round (or its last value) must equal',
          D('top_accepts').count('outputs') == 1 and D('top_accepts').startswith('accepts(v, proof, l, output_claim(v, outputs, no, lo), ') and
          D('accepts').count('claim') == 2 and D('accepts').startswith('rounds_ok(claim, ') and
          D('rounds_ok') == 'forall(i, len(sc.PolyCoeffs), evalpoly(sc.PolyCoeffs[i], F(0)) + evalpoly(sc.PolyCoeffs[i], F(1)) == sc_exp(claim, sc, i))' and
          'outputs' not in D('layer_accepts') + D('inputs_accept') + D('shape'))
    R.used |= {'gkr-mimc/gkr.GetInitialQPrimeAndQ', '(*gkr-mimc/gkr.Verifier).Verify'}


def post(con, name, k=0):
    c, = [c for n, c in con.tab.items() if n.replace('(*', '').replace('(', '').replace(')', '') == 'gkr-mimc/' + name]
    return ast.unparse(c.ensures[k][0])


def gadget_polynomials(R, prog, con):
    """the contracts of the gadgets and of their native counterparts state the same values"""
    import prove as PV
    ren = lambda s, *rs: [s := s.replace(a, b) for a, b in rs][-1]
    R.add('equality evaluation', post(con, 'snark/polynomial.EqEval') == post(con, 'polynomial.EvalEq'))
    R.add('multilinear evaluation', ren(post(con, 'snark/polynomial.MultilinearByValues.Eval'), ('xs', 'coordinates'), ('m.Table', 'bkt.Table')) ==
          post(con, 'polynomial.BookKeepingTable.Evaluate'))
    R.add('univariate evaluation', ren(post(con, 'snark/polynomial.Univariate.Eval'), ('u.Coefficients', 'c')) == post(con, 'polynomial.EvaluatePolynomial'))
    n = T.var('nat:n')
    c = lambda i: T.lift(T.atom('fapp', (T.atom('var', ('c',), 'fun'), i), 'F'))
    i = T.as_atom(T.fresh('nat:i'))
    ev = lambda x: T.mk_sum(i, n, T.mul(c(T.lift(i)), T.fpow(x, T.lift(i))))
    R.add('p(0) + p(1) = c_0 + the sum of the coefficients, for at least one coefficient',
          PV.prove(PV.EMPTYCTX.add(T.le(T.I(1), n)), T.eq(T.add(ev(T.const('F', 0)), ev(T.const('F', 1))), T.add(c(T.I(0)), T.mk_sum(i, n, c(T.lift(i)))))))
    R.add('the sum at 0 and 1', post(con, 'snark/polynomial.Univariate.ZeroAndOne') ==
          'r == u.Coefficients[0] + sum(i, len(u.Coefficients), u.Coefficients[i])')
    # left and right: entry y * 2^l + b has the weight eqw(q, n, y) * eqw(q', l, b) (lemma chunk_order, with q' for q[n:])
    D = lambda d: ast.unparse(spec.DEFINES[d][1])
    R.add('left and right evaluation', D('blocks') == 'sum(y, pow2(n), eqw(q, n, y) * sum(b, pow2(l), eqw(qPrime, l, b) * t[y * pow2(l) + b]))' and
          post(con, 'snark/polynomial.MultilinearByValues.EvalMixed') == 'vL == blocks(qL, qPrime, m.Table, len(qL), len(qPrime))' and
          post(con, 'snark/polynomial.MultilinearByValues.EvalMixed', 1) == 'vR == blocks(qR, qPrime, m.Table, len(qL), len(qPrime))' and
          post(con, 'polynomial.BookKeepingTable.EvaluateLeftAndRight') == 'l == sum(x, pow2(n), eqw(concat(hL, hPrime), n, x) * bkt.Table[x])' and
          post(con, 'polynomial.BookKeepingTable.EvaluateLeftAndRight', 1) == 'r == sum(x, pow2(n), eqw(concat(hR, hPrime), n, x) * bkt.Table[x])')
    R.add('chunks are assigned to the entries that the chunked evaluations take them for',
          post(con, 'snark/polynomial.MultilinearByValues.AssignFromChunkedBKT') ==
          'forall(b, len(values), forall(i, sz, m.Table[b + i * len(values)] == values[b][i]))')
    R.used |= {k for k in con.tab if 'snark/polynomial.' in k}


def gadget_sumcheck(R, prog, con):
    """the assertions of the gadget are the condition under which the native verifier accepts"""
    D = lambda d: ast.unparse(spec.DEFINES[d][1])
    n = lambda s: s.replace('p.HPolys[i].Coefficients', 'C[i]').replace('p.HPolys[i - 1].Coefficients', 'C[i - 1]').replace('p.PolyCoeffs[', 'C[').replace(
        'proof.PolyCoeffs', 'P').replace('p.HPolys', 'P').replace('gs_', 'sc_').replace('P[i].Coefficients', 'P[i]').replace('initialClaim, p', 'claim, proof')
    R.add('the challenges', n(D('gs_chal')) == n(D('sc_chal')))
    R.add('the expected values', n(D('gs_exp')) == n(D('sc_exp')))
    g, v = [post(con, x) for x in ('snark/sumcheck.Proof.AssertValid', 'sumcheck.Verifier.Verify')]
    R.add('the acceptance', g.startswith('iff(asserted(), old(asserted()) and forall(') and v.startswith('iff(ok, forall(') and
          n(g)[len('iff(asserted(), old(asserted()) and '):].replace('C[', 'P[') == n(v)[len('iff(ok, '):].replace('C[', 'P['))
    for k in (1, 2, 3):
        R.add('point %d' % k, 'gs_chal(p, ' in post(con, 'snark/sumcheck.Proof.AssertValid', k))
    want = ['len(hL) == bG and forall(i, bG, hL[i] == gs_chal(p, i))', 'len(hR) == bG and forall(i, bG, hR[i] == gs_chal(p, bG + i))',
            'len(hPrime) == len(p.HPolys) - 2 * bG and forall(i, len(p.HPolys) - 2 * bG, hPrime[i] == gs_chal(p, 2 * bG + i))', 'last == gs_exp(initialClaim, p, len(p.HPolys))']
    nat = ['implies(ok, forall(k, bG, qL[k] == sc_chal(proof, k)))', 'implies(ok, forall(k, bG, qR[k] == sc_chal(proof, bG + k)))',
           'implies(ok, forall(k, len(proof.PolyCoeffs) - 2 * bG, qPrime[k] == sc_chal(proof, 2 * bG + k)))', 'implies(ok, final == sc_exp(claim, proof, len(proof.PolyCoeffs)))']
    for k in range(4):
        R.add('the same challenges and last value: ' + want[k], post(con, 'snark/sumcheck.Proof.AssertValid', k + 1) == want[k] and post(con, 'sumcheck.Verifier.Verify', k + 2) == nat[k])
    R.used |= {k for k in con.tab if 'sumcheck.' in k}


def interpolation(R, prog, con):
    """the coefficients sum_i v_i LP[n][i] take the value v_m at m: sums exchanged, row i of LP[n] is 1 at i and 0 at the other points"""
    import prove as PV
    n, m = T.var('nat:n'), T.var('nat:m')
    LP = lambda i, j: T.lift(T.atom('fapp', (T.atom('var', ('LP',), 'fun'), i, j), 'F'))
    v = lambda i: T.lift(T.atom('fapp', (T.atom('var', ('v',), 'fun'), i), 'F'))
    i, j = T.as_atom(T.fresh('nat:i')), T.as_atom(T.fresh('nat:j'))
    I_, J = T.lift(i), T.lift(j)
    x = T.ofint(m)
    coef = T.mk_sum(i, n, T.mul(v(I_), LP(I_, J)))
    val = T.mk_sum(j, n, T.mul(coef, T.fpow(x, J)))
    ex = T.mk_sum(i, n, T.mul(v(I_), T.mk_sum(j, n, T.mul(LP(I_, J), T.fpow(x, J)))))
    c = PV.EMPTYCTX.add(T.lt(m, n))
    R.add('the value at m is sum_i v_i * (value of row i at m)', PV.prove(c, T.eq(val, ex)))
    R.add('sum_i v_i * (1 if i == m else 0) = v_m, for m < n', PV.prove(c, T.eq(T.mk_sum(i, n, T.mul(v(I_), T.br('F', T.eq(I_, m)))), v(m))))
    R.add('the contract of InterpolateOnRange states these coefficients', post(con, 'polynomial.InterpolateOnRange', 1) ==
          "forall(j, len(values), r[j] == sum(i, len(values), values[i] * globalvar('polynomial.lagrangePolynomials')[len(values)][i][j]))")
    R.add('the contract of initLagrangePolynomials states the values of the rows', post(con, 'polynomial.initLagrangePolynomials', 3) ==
          "all(n, 13, all(l, n, all(m, n, total(j, n, globalvar('polynomial.lagrangePolynomials')[n][l][j] * F(m) ** j) == F(1 if l == m else 0))))")
    R.used |= {k for k in con.tab if k.endswith('polynomial.InterpolateOnRange') or k.endswith('initLagrangePolynomials') or k.endswith('/polynomial.init#1')}


LEMMAS = {'interpolation': interpolation, 'gadget_polynomials': gadget_polynomials, 'gadget_sumcheck': gadget_sumcheck, 'output_weights': output_weights, 'chunk_order': chunk_order, 'gate_degrees': gate_degrees, 'sbox_bijective': sbox_bijective, 'cauchy_minors': cauchy_minors, 'gate_ids': gate_ids}


def run(prog, con, name, timeout):
    R = LemmaResult('lemma:' + name)
    t0 = time.time()
    try:
        LEMMAS[name](R, prog, con)
    except Exception as e:
        R.error = '%s: %s' % (type(e).__name__, e)
    R.rets = 1
    R.time = time.time() - t0
    return R
