# package gkr

func gkr.NewVerifier(bN, circuit) (r)
    ensures r.bN == bN
    ensures r.circuit.Layers == circuit.Layers
    view r.circuit.Layers

func gkr.GetInitialQPrimeAndQ(bN, bG) (qPrime, q)
    requires bN >= 0 and bG >= 0
    ensures len(qPrime) == bN and len(q) == bG
    ensures forall(k, bN, qPrime[k] == F(k + 2))
    ensures forall(k, bG, q[k] == F(k + 2))
    fresh qPrime
    fresh q

# a round polynomial is no longer than an honest one: its degree is at most one more than the largest degree of the gates
define max_degree(gates, i, bG) = largest(g, len(gates), gdegL(gates[g])) if i < bG else (largest(g, len(gates), gdegR(gates[g])) if i < 2 * bG else largest(g, len(gates), gdegP(gates[g])))
define round_shape(v, proof, l, i) = len(proof.SumcheckProofs[l].PolyCoeffs[i]) >= 1 and len(proof.SumcheckProofs[l].PolyCoeffs[i]) <= max_degree(v.circuit.Layers[l].Gates, i, v.circuit.Layers[l].BGInputs) + 2
define layer_shape(v, proof, l) = len(proof.SumcheckProofs[l].PolyCoeffs) == v.bN + 2 * v.circuit.Layers[l].BGInputs and forall(i, len(proof.SumcheckProofs[l].PolyCoeffs), round_shape(v, proof, l, i))
define shape(v, proof) = len(proof.SumcheckProofs) == len(v.circuit.Layers) and len(proof.ClaimsLeft) == len(v.circuit.Layers) and len(proof.ClaimsRight) == len(v.circuit.Layers) and forall(l, len(v.circuit.Layers), layer_shape(v, proof, l))

func (*gkr.Verifier).hasExpectedShape(v, proof) (r)
    requires forall(l, len(v.circuit.Layers), v.circuit.Layers[l].BGInputs >= 0)
    ensures iff(r, shape(v, proof))

define half(x, n) = x // pow2(n)
# the value at (qL, qR) of the wiring table of gate i folded at q
define wiring_at(l, i, q, c) = sum(x, pow2(2 * l.BGInputs), eqw(c, 2 * l.BGInputs, x) * static(l, i, q, half(x, l.BGInputs), x - pow2(l.BGInputs) * half(x, l.BGInputs)))

func (*gkr.Verifier).evaluateStaticTables(v, layer, q, nextQL, nextQR) (r)
    requires 0 <= layer and layer < len(v.circuit.Layers)
    requires v.circuit.Layers[layer].BGInputs >= 0 and v.circuit.Layers[layer].BGOutputs >= 0
    requires wiring_ok(v.circuit.Layers[layer])
    requires len(q) == v.circuit.Layers[layer].BGOutputs
    requires len(nextQL) == v.circuit.Layers[layer].BGInputs and len(nextQR) == v.circuit.Layers[layer].BGInputs
    modifies nextQL[len(nextQL):cap(nextQL)]
    ensures len(r) == len(v.circuit.Layers[layer].Gates)
    ensures forall(i, len(r), r[i] == wiring_at(v.circuit.Layers[layer], i, q, concat(nextQL, nextQR)))
    fresh r

func (*gkr.Verifier).evaluateStaticTablesLinCombs(v, layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR) (r)
    requires 0 <= layer and layer < len(v.circuit.Layers)
    requires v.circuit.Layers[layer].BGInputs >= 0 and v.circuit.Layers[layer].BGOutputs >= 0
    requires wiring_ok(v.circuit.Layers[layer])
    requires len(qL) == v.circuit.Layers[layer].BGOutputs and len(qR) == v.circuit.Layers[layer].BGOutputs
    requires len(nextQL) == v.circuit.Layers[layer].BGInputs and len(nextQR) == v.circuit.Layers[layer].BGInputs
    modifies nextQL[len(nextQL):cap(nextQL)]
    ensures len(r) == len(v.circuit.Layers[layer].Gates)
    ensures forall(i, len(r), r[i] == lambdaL * wiring_at(v.circuit.Layers[layer], i, qL, concat(nextQL, nextQR)) + lambdaR * wiring_at(v.circuit.Layers[layer], i, qR, concat(nextQL, nextQR)))
    fresh r

define layer_ok(l) = l.BGInputs >= 0 and l.BGOutputs >= 0 and wiring_ok(l)
define n_layers(v) = len(v.circuit.Layers)
# the challenge of round i of the sumcheck of layer l, and the expected value after its rounds
define chal(proof, l, i) = mimc_hash(proof.SumcheckProofs[l].PolyCoeffs[i], len(proof.SumcheckProofs[l].PolyCoeffs[i]))
define bGi(v, l) = v.circuit.Layers[l].BGInputs
define chal_seq(v, proof, l, from_, n) = seq(i, n, chal(proof, l, from_ + i))
define chunked_values(q, x, n, l) = sum(y, pow2(n), eqw(q[:n], n, y) * sum(b, pow2(l), eqw(q[n:n + l], l, b) * x[b][y]))
# the starting point, and the claim on the outputs there
define first_point(n) = seq(i, n, F(i + 2))
define output_claim(v, outputs, no, lo) = chunked_values(concat(first_point(v.circuit.Layers[n_layers(v) - 1].BGOutputs), first_point(v.bN)), outputs, no, lo)
# the combination of the claims of layer l + 1 that layer l proves
define lam(proof, l) = mimc_hash(seq(k, 2, proof.ClaimsRight[l + 1] if k == 1 else proof.ClaimsLeft[l + 1]), 2)
define rounds_ok(claim, sc) = forall(i, len(sc.PolyCoeffs), evalpoly(sc.PolyCoeffs[i], F(0)) + evalpoly(sc.PolyCoeffs[i], F(1)) == sc_exp(claim, sc, i))
# the point of layer l: left, right, instances; and the point of the layer above on its inputs
define left_right(v, proof, l) = chal_seq(v, proof, l, 0, 2 * bGi(v, l))
define inst(v, proof, l) = chal_seq(v, proof, l, 2 * bGi(v, l), v.bN)
# a layer is accepted: the rounds are consistent, and the last value is the one the claims on its inputs give;
# eqv(i): factor i of the equality of the points on the instances, w(g): value of the wiring of gate g
define accepts(v, proof, l, claim, eqv, wv) = rounds_ok(claim, proof.SumcheckProofs[l]) and sc_exp(claim, proof.SumcheckProofs[l], len(proof.SumcheckProofs[l].PolyCoeffs)) == eqv * wv
define same_inst(a, b) = 1 - a - b + 2 * a * b
define top_accepts(v, proof, outputs, no, lo, l) = accepts(v, proof, l, output_claim(v, outputs, no, lo), prod(i, v.bN, same_inst(F(i + 2), chal(proof, l, 2 * bGi(v, l) + i))), sum(g, len(v.circuit.Layers[l].Gates), wiring_at(v.circuit.Layers[l], g, first_point(v.circuit.Layers[l].BGOutputs), left_right(v, proof, l)) * geval(v.circuit.Layers[l].Gates[g], proof.ClaimsLeft[l], proof.ClaimsRight[l])))
define layer_accepts(v, proof, l) = accepts(v, proof, l, proof.ClaimsLeft[l + 1] + lam(proof, l) * proof.ClaimsRight[l + 1], prod(i, v.bN, same_inst(chal(proof, l + 1, 2 * bGi(v, l + 1) + i), chal(proof, l, 2 * bGi(v, l) + i))), sum(g, len(v.circuit.Layers[l].Gates), (wiring_at(v.circuit.Layers[l], g, chal_seq(v, proof, l + 1, 0, bGi(v, l + 1)), left_right(v, proof, l)) + lam(proof, l) * wiring_at(v.circuit.Layers[l], g, chal_seq(v, proof, l + 1, bGi(v, l + 1), bGi(v, l + 1)), left_right(v, proof, l))) * geval(v.circuit.Layers[l].Gates[g], proof.ClaimsLeft[l], proof.ClaimsRight[l])))
define inputs_accept(v, proof, inputs, ni, li) = proof.ClaimsLeft[0] == chunked_values(concat(chal_seq(v, proof, 0, 0, bGi(v, 0)), inst(v, proof, 0)), inputs, ni, li) and proof.ClaimsRight[0] == chunked_values(concat(chal_seq(v, proof, 0, bGi(v, 0), bGi(v, 0)), inst(v, proof, 0)), inputs, ni, li)

func (*gkr.Verifier).Verify(v, proof, inputs, outputs) (r)
    opt opaque=mimc_hash eqw
    opt returns=split
    ghost lo: len(outputs) == pow2(lo)
    ghost no: len(outputs[0]) == pow2(no)
    ghost li: len(inputs) == pow2(li)
    ghost ni: len(inputs[0]) == pow2(ni)
    requires v.bN >= 0 and n_layers(v) >= 1
    requires forall(l, n_layers(v), layer_ok(v.circuit.Layers[l]))
    requires forall(l, n_layers(v) - 1, v.circuit.Layers[l].BGOutputs == v.circuit.Layers[l + 1].BGInputs)
    requires forall(b, len(outputs), len(outputs[b]) == pow2(no)) and no == v.bN + v.circuit.Layers[n_layers(v) - 1].BGOutputs - lo
    requires forall(b, len(inputs), len(inputs[b]) == pow2(ni)) and ni == v.bN + v.circuit.Layers[0].BGInputs - li and li <= v.bN
    ensures iff(r, shape(v, proof) and top_accepts(v, proof, outputs, no, lo, n_layers(v) - 1) and forall(t, n_layers(v) - 1, layer_accepts(v, proof, n_layers(v) - 2 - t)) and inputs_accept(v, proof, inputs, ni, li))

# what the prover hands to the sumcheck: copies of the layer's values, the equality tables, the wiring tables
define top(p) = len(p.circuit.Layers) - 1
define wires_of(p, l) = p.circuit.Layers[l].BGInputs >= 0 and p.circuit.Layers[l].BGOutputs >= 0 and wiring_ok(p.circuit.Layers[l])
define cells(p, l) = pow2(p.circuit.Layers[l].BGInputs)

func (*gkr.Prover).GetBookKeepingTablesForInitialRound(p, qPrime, q, nCore) (vL, vR, eq, statics)
    opt spare=statics[].Table
    requires nCore >= 1
    requires len(p.circuit.Layers) >= 1 and len(p.assignment.Values) >= len(p.circuit.Layers)
    requires wires_of(p, top(p)) and len(q) == p.circuit.Layers[top(p)].BGOutputs
    ghost l: len(p.assignment.Values[top(p)]) == pow2(l)
    requires l <= len(qPrime)
    ensures len(vL) == pow2(l) and len(vR) == pow2(l) and len(eq) == pow2(l)
    ensures forall(b, pow2(l), len(vL[b].Table) == len(p.assignment.Values[top(p)][b]) and len(vR[b].Table) == len(p.assignment.Values[top(p)][b]))
    ensures forall(b, pow2(l), forall(k, len(p.assignment.Values[top(p)][b]), vL[b].Table[k] == p.assignment.Values[top(p)][b][k] and vR[b].Table[k] == p.assignment.Values[top(p)][b][k]))
    ensures forall(b, pow2(l), len(eq[b].Table) == pow2(len(qPrime) - l))
    ensures forall(b, pow2(l), forall(y, pow2(len(qPrime) - l), eq[b].Table[y] == eqw(qPrime[:len(qPrime) - l], len(qPrime) - l, y) * eqw(qPrime[len(qPrime) - l:], l, b)))
    ensures len(statics) == len(p.circuit.Layers[top(p)].Gates)
    ensures forall(i, len(statics), len(statics[i].Table) == pow2(2 * p.circuit.Layers[top(p)].BGInputs))
    ensures forall(i, len(statics), forall(a, cells(p, top(p)), forall(b, cells(p, top(p)), statics[i].Table[a * cells(p, top(p)) + b] == static(p.circuit.Layers[top(p)], i, q, a, b))))
    fresh vL
    fresh vR
    fresh eq
    fresh statics

func (*gkr.Prover).GetBookKeepingTablesForIntermediateRound(p, layer, qPrime, qL, qR, lambdaL, lambdaR, nCore) (vL, vR, eq, statics)
    opt spare=statics[].Table
    requires nCore >= 1
    requires 0 <= layer and layer < len(p.circuit.Layers) and len(p.assignment.Values) >= len(p.circuit.Layers)
    requires wires_of(p, layer) and len(qL) == p.circuit.Layers[layer].BGOutputs and len(qR) == p.circuit.Layers[layer].BGOutputs
    ghost l: len(p.assignment.Values[layer]) == pow2(l)
    requires l <= len(qPrime)
    ensures len(vL) == pow2(l) and len(vR) == pow2(l) and len(eq) == pow2(l)
    ensures forall(b, pow2(l), len(vL[b].Table) == len(p.assignment.Values[layer][b]) and len(vR[b].Table) == len(p.assignment.Values[layer][b]))
    ensures forall(b, pow2(l), forall(k, len(p.assignment.Values[layer][b]), vL[b].Table[k] == p.assignment.Values[layer][b][k] and vR[b].Table[k] == p.assignment.Values[layer][b][k]))
    ensures forall(b, pow2(l), len(eq[b].Table) == pow2(len(qPrime) - l))
    ensures forall(b, pow2(l), forall(y, pow2(len(qPrime) - l), eq[b].Table[y] == eqw(qPrime[:len(qPrime) - l], len(qPrime) - l, y) * eqw(qPrime[len(qPrime) - l:], l, b)))
    ensures len(statics) == len(p.circuit.Layers[layer].Gates)
    ensures forall(i, len(statics), len(statics[i].Table) == pow2(2 * p.circuit.Layers[layer].BGInputs))
    ensures forall(i, len(statics), forall(a, cells(p, layer), forall(b, cells(p, layer), statics[i].Table[a * cells(p, layer) + b] == lambdaL * static(p.circuit.Layers[layer], i, qL, a, b) + lambdaR * static(p.circuit.Layers[layer], i, qR, a, b))))
    fresh vL
    fresh vR
    fresh eq
    fresh statics
