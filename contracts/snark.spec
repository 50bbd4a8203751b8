# package snark/polynomial

func snark/polynomial.UnivariateEqEval(cs, q, h) (r)
    ensures r == 1 - q - h + 2 * q * h

func snark/polynomial.EqEval(cs, q, h) (r)
    requires len(h) >= len(q)
    ensures r == prod(i, len(q), 1 - q[i] - h[i] + 2 * q[i] * h[i])

func snark/polynomial.NewMultilinearByValues(table) (r)
    ensures r.Table == table

func snark/polynomial.AllocateMultilinear(nVars) (r)
    requires nVars >= 0
    ensures len(r.Table) == pow2(nVars)
    fresh r.Table

func (*snark/polynomial.MultilinearByValues).Assign(m, values)
    requires len(values) == len(m.Table)
    modifies m.Table[:]
    ensures forall(k, len(m.Table), m.Table[k] == values[k])

func (snark/polynomial.MultilinearByValues).DeepCopy(m) (r)
    ensures len(r.Table) == len(m.Table)
    ensures forall(k, len(m.Table), r.Table[k] == m.Table[k])
    fresh r.Table

func (*snark/polynomial.MultilinearByValues).Fold(m, cs, x)
    ghost h: len(m.Table) == 2 * h
    modifies m.Table, m.Table[:]
    ensures m.Table == old(m.Table)[:h]
    ensures forall(k, h, m.Table[k] == old(m.Table[k]) + x * (old(m.Table[k + h]) - old(m.Table[k])))

func (snark/polynomial.MultilinearByValues).Eval(m, cs, xs) (r)
    ghost n: len(m.Table) == pow2(n)
    requires len(xs) == n
    ensures r == sum(x, pow2(n), eqw(xs, n, x) * m.Table[x])

# entry x of the table is entry x % 2^l of block x // 2^l: with the lemma chunk_order, the multilinear extension at concat(q, qPrime)
define blocks(q, qPrime, t, n, l) = sum(y, pow2(n), eqw(q, n, y) * sum(b, pow2(l), eqw(qPrime, l, b) * t[y * pow2(l) + b]))

func (snark/polynomial.MultilinearByValues).EvalMixed(m, cs, qL, qR, qPrime) (vL, vR)
    requires len(m.Table) == pow2(len(qL) + len(qPrime)) and len(qR) == len(qL)
    ensures vL == blocks(qL, qPrime, m.Table, len(qL), len(qPrime))
    ensures vR == blocks(qR, qPrime, m.Table, len(qL), len(qPrime))

func (*snark/polynomial.MultilinearByValues).AssignFromChunkedBKT(m, values)
    ghost sz: len(values[0]) == sz
    requires len(m.Table) == len(values) * sz
    requires forall(b, len(values), len(values[b]) == sz)
    modifies m.Table[:]
    ensures forall(b, len(values), forall(i, sz, m.Table[b + i * len(values)] == values[b][i]))

func snark/polynomial.NewUnivariate(coeffs) (r)
    ensures r.Coefficients == coeffs

func snark/polynomial.AllocateUnivariate(degree) (r)
    requires degree >= 0
    ensures len(r.Coefficients) == degree + 1
    fresh r.Coefficients

func (*snark/polynomial.Univariate).Assign(u, coeffs)
    requires len(coeffs) == len(u.Coefficients)
    modifies u.Coefficients[:]
    ensures forall(k, len(coeffs), u.Coefficients[k] == coeffs[k])

func (*snark/polynomial.Univariate).Eval(u, cs, x) (r)
    requires len(u.Coefficients) >= 1
    ensures r == sum(i, len(u.Coefficients), u.Coefficients[i] * x ** i)

func (*snark/polynomial.Univariate).ZeroAndOne(u, cs) (r)
    requires len(u.Coefficients) >= 1
    ensures r == u.Coefficients[0] + sum(i, len(u.Coefficients), u.Coefficients[i])

# package snark/sumcheck
# asserted(): the conjunction of the assertions the circuit makes

func (*snark/sumcheck.Proof).Assign(p, proof)
    requires len(proof.PolyCoeffs) == len(p.HPolys)
    requires forall(i, len(p.HPolys), len(p.HPolys[i].Coefficients) == len(proof.PolyCoeffs[i]))
    modifies p.HPolys[].Coefficients[]
    ensures forall(i, len(p.HPolys), forall(k, len(proof.PolyCoeffs[i]), p.HPolys[i].Coefficients[k] == proof.PolyCoeffs[i][k]))

define gs_chal(p, i) = mimc_hash(p.HPolys[i].Coefficients, len(p.HPolys[i].Coefficients))
define gs_exp(claim, p, i) = claim if i == 0 else evalpoly(p.HPolys[i - 1].Coefficients, gs_chal(p, i - 1))

func (*snark/sumcheck.Proof).AssertValid(p, cs, initialClaim, bG) (hL, hR, hPrime, last)
    opt opaque=mimc_hash
    opt spare=hL hR hPrime
    requires bG >= 0 and 2 * bG <= len(p.HPolys)
    requires forall(i, len(p.HPolys), len(p.HPolys[i].Coefficients) >= 1)
    modifies asserted()
    ensures iff(asserted(), old(asserted()) and forall(i, len(p.HPolys), evalpoly(p.HPolys[i].Coefficients, F(0)) + evalpoly(p.HPolys[i].Coefficients, F(1)) == gs_exp(initialClaim, p, i)))
    ensures len(hL) == bG and forall(i, bG, hL[i] == gs_chal(p, i))
    ensures len(hR) == bG and forall(i, bG, hR[i] == gs_chal(p, bG + i))
    ensures len(hPrime) == len(p.HPolys) - 2 * bG and forall(i, len(p.HPolys) - 2 * bG, hPrime[i] == gs_chal(p, 2 * bG + i))
    ensures last == gs_exp(initialClaim, p, len(p.HPolys))
    fresh hL
    fresh hR
    fresh hPrime

func snark/sumcheck.AllocateProof(bN, bG, degHL, degHR, degHPrime) (r)
    requires bN >= 0 and bG >= 0 and degHL >= 0 and degHR >= 0 and degHPrime >= 0
    ensures len(r.HPolys) == bN + 2 * bG
    ensures forall(i, bG, len(r.HPolys[i].Coefficients) == degHL + 1)
    ensures forall(i, bG, len(r.HPolys[bG + i].Coefficients) == degHR + 1)
    ensures forall(i, bN, len(r.HPolys[2 * bG + i].Coefficients) == degHPrime + 1)
    fresh r
