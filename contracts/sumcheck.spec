# package sumcheck

define evalpoly(c, x) = sum(j, len(c), c[j] * x ** j)
define sc_chal(p, i) = mimc_hash(p.PolyCoeffs[i], len(p.PolyCoeffs[i]))
define sc_exp(claim, p, i) = claim if i == 0 else evalpoly(p.PolyCoeffs[i - 1], sc_chal(p, i - 1))

func common.GetChallenge(seed) (r)
    opt opaque=sbox
    ensures r == mimc_hash(seed, len(seed))

func (sumcheck.Verifier).Verify(v, claim, proof, bN, bG) (ok, qPrime, qL, qR, final)
    opt opaque=mimc_hash
    opt spare=qL qR qPrime
    opt split=ok
    requires forall(i, len(proof.PolyCoeffs), len(proof.PolyCoeffs[i]) >= 1)
    requires bG >= 0 and 2 * bG <= len(proof.PolyCoeffs)
    ensures iff(ok, forall(i, len(proof.PolyCoeffs), evalpoly(proof.PolyCoeffs[i], F(0)) + evalpoly(proof.PolyCoeffs[i], F(1)) == sc_exp(claim, proof, i)))
    ensures implies(ok, len(qL) == bG and len(qR) == bG and len(qPrime) == len(proof.PolyCoeffs) - 2 * bG)
    ensures implies(ok, forall(k, bG, qL[k] == sc_chal(proof, k)))
    ensures implies(ok, forall(k, bG, qR[k] == sc_chal(proof, bG + k)))
    ensures implies(ok, forall(k, len(proof.PolyCoeffs) - 2 * bG, qPrime[k] == sc_chal(proof, 2 * bG + k)))
    ensures implies(ok, final == sc_exp(claim, proof, len(proof.PolyCoeffs)))
    fresh qL
    fresh qR
    fresh qPrime

func sumcheck.NewSingleThreadedProver(vL, vR, eq, gates, staticTables) (r)
    ensures r.vL.Table == vL.Table and r.vR.Table == vR.Table and r.eq.Table == eq.Table
    ensures r.gates == gates and r.staticTables == staticTables
    ensures r.degreeHL == largest(g, len(gates), gdegL(gates[g])) + 1
    ensures r.degreeHR == largest(g, len(gates), gdegR(gates[g])) + 1
    ensures r.degreeHPrime == largest(g, len(gates), gdegP(gates[g])) + 1

func sumcheck.NewMultiThreadedProver(vL, vR, eq, gates, staticTables) (r)
    ensures r.vL == vL and r.vR == vR and r.eq == eq
    ensures r.gates == gates and r.staticTables == staticTables
    ensures r.degreeHL == largest(g, len(gates), gdegL(gates[g])) + 1
    ensures r.degreeHR == largest(g, len(gates), gdegR(gates[g])) + 1
    ensures r.degreeHPrime == largest(g, len(gates), gdegP(gates[g])) + 1

func (*sumcheck.SingleThreadedProver).FoldHPrime(p, r)
    ghost m: len(p.eq.Table) == 2 * m
    requires len(p.vL.Table) == 2 * m and len(p.vR.Table) == 2 * m
    modifies p.vL.Table, p.vL.Table[:], p.vR.Table, p.vR.Table[:], p.eq.Table, p.eq.Table[:]
    ensures p.vL.Table == old(p.vL.Table)[:m] and p.vR.Table == old(p.vR.Table)[:m] and p.eq.Table == old(p.eq.Table)[:m]
    ensures forall(k, m, p.vL.Table[k] == old(p.vL.Table[k]) + r * (old(p.vL.Table[k + m]) - old(p.vL.Table[k])))
    ensures forall(k, m, p.vR.Table[k] == old(p.vR.Table[k]) + r * (old(p.vR.Table[k + m]) - old(p.vR.Table[k])))
    ensures forall(k, m, p.eq.Table[k] == old(p.eq.Table[k]) + r * (old(p.eq.Table[k + m]) - old(p.eq.Table[k])))
