# package polynomial

func polynomial.NewBookKeepingTable(table) (r)
    ensures r.Table == table

func (polynomial.BookKeepingTable).middleIndex(bkt) (r)
    ensures r == len(bkt.Table) // 2

func (*polynomial.BookKeepingTable).DeepCopy(bkt) (r)
    opt spare=r.Table
    ensures len(r.Table) == len(bkt.Table)
    ensures forall(k, len(bkt.Table), r.Table[k] == bkt.Table[k])
    fresh r.Table

func (*polynomial.BookKeepingTable).InterleavedChunk(bkt, on, nChunk) (r)
    requires nChunk >= 1 and 0 <= on and on < nChunk
    ensures len(r.Table) == len(bkt.Table) // nChunk
    ensures forall(i, len(r.Table), r.Table[i] == bkt.Table[on + i * nChunk])
    fresh r.Table

func (polynomial.BookKeepingTable).FunctionEvals(bkt) (r)
    ghost m: len(bkt.Table) == 2 * m
    ensures len(r) == m
    ensures forall(k, m, r[k] == bkt.Table[k + m] - bkt.Table[k])
    fresh r

func (*polynomial.BookKeepingTable).Fold(bkt, r)
    ghost m: len(bkt.Table) == 2 * m
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)[:m]
    ensures forall(k, m, bkt.Table[k] == old(bkt.Table[k]) + r * (old(bkt.Table[k + m]) - old(bkt.Table[k])))

func (*polynomial.BookKeepingTable).Evaluate(bkt, coordinates) (r)
    ghost n: len(bkt.Table) == pow2(n)
    requires len(coordinates) == n
    ensures r == sum(x, pow2(n), eqw(coordinates, n, x) * bkt.Table[x])

func (*polynomial.BookKeepingTable).EvaluateLeftAndRight(bkt, hPrime, hL, hR) (l, r)
    ghost n: len(bkt.Table) == pow2(n)
    requires len(hL) + len(hPrime) == n and len(hR) + len(hPrime) == n
    ensures l == sum(x, pow2(n), eqw(concat(hL, hPrime), n, x) * bkt.Table[x])
    ensures r == sum(x, pow2(n), eqw(concat(hR, hPrime), n, x) * bkt.Table[x])

func polynomial.LinearCombinationOfBookKeepingTables(t0, t1, a0, a1) (r)
    requires len(t0.Table) >= len(t1.Table)
    modifies t0.Table[:], t1.Table[:]
    ensures r.Table == t1.Table
    ensures forall(k, len(t1.Table), r.Table[k] == a0 * old(t0.Table[k]) + a1 * old(t1.Table[k]))

func polynomial.EvalEq(q, h) (r)
    requires len(h) >= len(q)
    ensures r == prod(i, len(q), 1 - q[i] - h[i] + 2 * q[i] * h[i])

func polynomial.GetFoldedEqTable(q) (r)
    ensures len(r.Table) == pow2(len(q))
    ensures forall(x, pow2(len(q)), r.Table[x] == eqw(q, len(q), x))
    fresh r.Table

func polynomial.EvaluatePolynomial(c, x) (r)
    requires len(c) >= 1
    ensures r == sum(i, len(c), c[i] * x ** i)

func (*polynomial.BookKeepingTable).Add(bkt, left, right)
    requires len(left.Table) == len(right.Table)
    requires len(bkt.Table) == len(left.Table)
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(left.Table), bkt.Table[k] == old(left.Table[k]) + old(right.Table[k]))

func (*polynomial.BookKeepingTable).Sub(bkt, left, right, nCore)
    requires nCore >= 1
    requires len(left.Table) == len(right.Table)
    requires len(bkt.Table) == len(left.Table)
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(left.Table), bkt.Table[k] == old(left.Table[k]) - old(right.Table[k]))

func (*polynomial.BookKeepingTable).Mul(bkt, lambda_, x, nCore)
    requires nCore >= 1
    requires len(bkt.Table) == len(x.Table)
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(x.Table), bkt.Table[k] == lambda_ * old(x.Table[k]))

func (*polynomial.BookKeepingTable).Sub#nil(bkt, left, right, nCore)
    isnil bkt.Table
    requires nCore >= 1
    requires len(left.Table) >= 1
    requires len(left.Table) == len(right.Table)
    modifies bkt.Table
    ensures len(bkt.Table) == len(left.Table)
    ensures forall(k, len(left.Table), bkt.Table[k] == left.Table[k] - right.Table[k])

func (*polynomial.BookKeepingTable).Sub#self(bkt, left, right, nCore)
    same bkt.Table left.Table
    requires nCore >= 1
    requires len(left.Table) == len(right.Table)
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(left.Table), bkt.Table[k] == old(left.Table[k]) - right.Table[k])

func (*polynomial.BookKeepingTable).Mul#nil(bkt, lambda_, x, nCore)
    isnil bkt.Table
    requires nCore >= 1
    requires len(x.Table) >= 1
    modifies bkt.Table
    ensures len(bkt.Table) == len(x.Table)
    ensures forall(k, len(x.Table), bkt.Table[k] == lambda_ * x.Table[k])

func (*polynomial.BookKeepingTable).Mul#self(bkt, lambda_, x, nCore)
    same bkt.Table x.Table
    requires nCore >= 1
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(x.Table), bkt.Table[k] == lambda_ * old(x.Table[k]))

func (*polynomial.BookKeepingTable).Add#self(bkt, left, right)
    same bkt.Table left.Table
    requires len(left.Table) == len(right.Table)
    modifies bkt.Table, bkt.Table[:]
    ensures bkt.Table == old(bkt.Table)
    ensures forall(k, len(left.Table), bkt.Table[k] == old(left.Table[k]) + right.Table[k])

func polynomial.AsChunkedBookKeepingTable(x) (r)
    ensures len(r) == len(x)
    ensures forall(i, len(x), len(r[i].Table) == len(x[i]))
    ensures forall(i, len(x), forall(k, len(x[i]), r[i].Table[k] == x[i][k]))
    view r[].Table

func polynomial.chunkedEvalRecombine(bkts, qs) (r)
    ghost l: len(bkts) == pow2(l)
    ghost m: len(bkts[0].Table) == m
    requires len(qs) == l
    requires m >= 1
    requires forall(b, len(bkts), len(bkts[b].Table) == m)
    ensures len(r.Table) == m
    ensures forall(x, m, r.Table[x] == sum(b, len(bkts), eqw(qs, l, b) * bkts[b].Table[x]))
    view r.Table

# entry x of the whole table is entry x // len(bkts) of chunk x % len(bkts); with the lemma eqw_split these are the
# values of the multilinear extension of the whole table
define chunked(q, bkts, n, l) = sum(y, pow2(n), eqw(q[:n], n, y) * sum(b, pow2(l), eqw(q[n:n + l], l, b) * bkts[b].Table[y]))

func polynomial.EvaluateChunked(bkts, q) (r)
    ghost l: len(bkts) == pow2(l)
    ghost n: len(bkts[0].Table) == pow2(n)
    requires len(q) == n + l
    requires forall(b, len(bkts), len(bkts[b].Table) == pow2(n))
    ensures r == chunked(q, bkts, n, l)

func polynomial.EvaluateMixedChunked(bkts, hPrime, hL, hR) (vL, vR)
    ghost l: len(bkts) == pow2(l)
    ghost n: len(bkts[0].Table) == pow2(n)
    requires len(hPrime) >= l
    requires len(hL) + len(hPrime) == n + l and len(hR) + len(hPrime) == n + l
    requires forall(b, len(bkts), len(bkts[b].Table) == pow2(n))
    ensures vL == chunked(concat(hL, hPrime), bkts, n, l)
    ensures vR == chunked(concat(hR, hPrime), bkts, n, l)

invariant polynomial.lagrangePolynomials by polynomial.initLagrangePolynomials: len(globalvar("polynomial.lagrangePolynomials")) == 13
invariant polynomial.lagrangePolynomials by polynomial.initLagrangePolynomials: forall(n, 13, len(globalvar("polynomial.lagrangePolynomials")[n]) == n)
invariant polynomial.lagrangePolynomials by polynomial.initLagrangePolynomials: forall(n, 13, forall(l, n, len(globalvar("polynomial.lagrangePolynomials")[n][l]) == n))

# the Lagrange polynomials of the domains of 0 to 12 points: row l takes the value 1 at l and 0 at the other points
func polynomial.initLagrangePolynomials()
    opt inline=LagrangeCoefficient EvaluatePolynomial
    opt concrete=yes
    modifies globalvar("polynomial.lagrangePolynomials")
    ensures len(globalvar("polynomial.lagrangePolynomials")) == 13
    ensures all(n, 13, len(globalvar("polynomial.lagrangePolynomials")[n]) == n)
    ensures all(n, 13, all(l, n, len(globalvar("polynomial.lagrangePolynomials")[n][l]) == n))
    ensures all(n, 13, all(l, n, all(m, n, total(j, n, globalvar("polynomial.lagrangePolynomials")[n][l][j] * F(m) ** j) == F(1 if l == m else 0))))

func polynomial.GetLagrangePolynomial(domainSize) (r)
    requires 0 <= domainSize and domainSize <= 12
    inline

# coefficient j of the sum over i of values[i] times the Lagrange polynomial i
func polynomial.InterpolateOnRange(values) (r)
    requires len(values) <= 12
    ensures len(r) == len(values)
    ensures forall(j, len(values), r[j] == sum(i, len(values), values[i] * globalvar("polynomial.lagrangePolynomials")[len(values)][i][j]))
    fresh r

# the package is ready for use
func polynomial.init#1()
    modifies globalvar("polynomial.lagrangePolynomials")
    ensures len(globalvar("polynomial.lagrangePolynomials")) == 13
    ensures forall(n, 13, len(globalvar("polynomial.lagrangePolynomials")[n]) == n)

# chunk b holds the entries b, b + nChunks, b + 2 * nChunks, ... of the table of GetFoldedEqTable
func polynomial.GetChunkedEqTable(qPrime, nChunks, nCore) (r)
    ghost l: nChunks == pow2(l)
    requires l <= len(qPrime)
    requires nCore >= 1
    ensures len(r) == nChunks
    ensures forall(b, nChunks, len(r[b].Table) == pow2(len(qPrime) - l))
    ensures forall(b, nChunks, forall(y, pow2(len(qPrime) - l), r[b].Table[y] == eqw(qPrime[:len(qPrime) - l], len(qPrime) - l, y) * eqw(qPrime[len(qPrime) - l:], l, b)))
    fresh r
