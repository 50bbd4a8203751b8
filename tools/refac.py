"""refac.py [substring...]: do edits that keep the behaviour leave the contracts proved? (text edits of a copy; prints the contracts that fail)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = open(os.path.join(HERE, 'v.py')).read()
BK, LAY, GV, SV = 'polynomial/book_keeping.go', 'circuit/layers.go', 'gkr/verifier.go', 'sumcheck/verifier.go'
R = [
 ('fold-halves', BK, [("""	for i := range bottom {
		// updating""", """	for i := 0; i < mid; i++ {
		// updating""")], ['BookKeepingTable).Fold', 'BookKeepingTable).Evaluate']),
 ('fold-tmp', BK, [("""		top[i].Sub(&top[i], &bottom[i])
		top[i].Mul(&top[i], &r)
		bottom[i].Add(&bottom[i], &top[i])
	}
	bkt""", """		delta := top[i]
		delta.Sub(&delta, &bottom[i])
		delta.Mul(&delta, &r)
		top[i] = delta
		bottom[i].Add(&bottom[i], &delta)
	}
	bkt""")], ['BookKeepingTable).Fold']),
 ('fold-helper', BK, [("""		top[i].Sub(&top[i], &bottom[i])
		top[i].Mul(&top[i], &r)
		bottom[i].Add(&bottom[i], &top[i])
	}
""", """		foldPair(&bottom[i], &top[i], &r)
	}
"""), ('// FunctionEvals evaluates', """func foldPair(b, t, r *fr.Element) {
	t.Sub(t, b)
	t.Mul(t, r)
	b.Add(b, t)
}

// FunctionEvals evaluates""")], ['BookKeepingTable).Fold']),
 ('deepcopy-append', BK, [("""	tableDeepCopy := make([]fr.Element, len(bkt.Table))
	copy(tableDeepCopy, bkt.Table)
""", """	tableDeepCopy := append([]fr.Element{}, bkt.Table...)
""")], ['DeepCopy', 'BookKeepingTable).Evaluate']),
 ('deepcopy-loop', BK, [("""	copy(tableDeepCopy, bkt.Table)
""", """	for i, x := range bkt.Table {
		tableDeepCopy[i] = x
	}
""")], ['DeepCopy']),
 ('lr-prealloc', BK, [("""	coordinatesLeft := append([]fr.Element{}, hL...)
""", """	coordinatesLeft := make([]fr.Element, 0, len(hL)+len(hPrime))
	coordinatesLeft = append(coordinatesLeft, hL...)
""")], ['BookKeepingTable).EvaluateLeftAndRight']),
 ('lr-concat-helper', BK, [("""	coordinatesLeft := append([]fr.Element{}, hL...)
	coordinatesLeft = append(coordinatesLeft, hPrime...)
	coordinatesRight := append([]fr.Element{}, hR...)
	coordinatesRight = append(coordinatesRight, hPrime...)
""", """	coordinatesLeft := concat(hL, hPrime)
	coordinatesRight := concat(hR, hPrime)
"""), ('// LinearCombinationOfBookKeepingTables is', """func concat(a, b []fr.Element) []fr.Element {
	res := make([]fr.Element, len(a)+len(b))
	copy(res, a)
	copy(res[len(a):], b)
	return res
}

// LinearCombinationOfBookKeepingTables is""")], ['BookKeepingTable).EvaluateLeftAndRight']),
 ('lincomb-down', BK, [("for i := range prefoldedBKT1.Table {", "for i := len(prefoldedBKT1.Table) - 1; i >= 0; i-- {")], ['LinearCombination']),
 ('mul-swap', BK, [("bkt.Table[i].Mul(&x.Table[i], &lambda)", "bkt.Table[i].Mul(&lambda, &x.Table[i])")], ['BookKeepingTable).Mul']),
 ('mul-slices', BK, [("""			for i := chunk.Begin; i < chunk.End; i++ {
				bkt.Table[i].Mul(&x.Table[i], &lambda)
			}
""", """			dst, src := bkt.Table[chunk.Begin:chunk.End], x.Table[chunk.Begin:chunk.End]
			for i := range dst {
				dst[i].Mul(&src[i], &lambda)
			}
""")], ['BookKeepingTable).Mul']),
 ('mul-defer', BK, [("""			for i := chunk.Begin; i < chunk.End; i++ {
				bkt.Table[i].Mul(&x.Table[i], &lambda)
			}
			semaphore.Release()
			wg.Done()
""", """			defer wg.Done()
			defer semaphore.Release()
			for i := chunk.Begin; i < chunk.End; i++ {
				bkt.Table[i].Mul(&x.Table[i], &lambda)
			}
""")], ['BookKeepingTable).Mul']),
 ('eq-range', 'polynomial/eq.go', [("	for i := 0; i < len(qPrime); i++ {\n		nxt.Mul", "	for i := range qPrime {\n		nxt.Mul")], ['polynomial.EvalEq']),
 ('eq-product-form', 'polynomial/eq.go', [("""		nxt.Mul(&qPrime[i], &nextQPrime[i]) // nxt <- qi' * hi'
		nxt.Add(&nxt, &nxt)                 // nxt <- 2 * qi' * hi'
		nxt.Add(&nxt, &one)                 // nxt <- 1 + 2 * qi' * hi'
		sum.Add(&qPrime[i], &nextQPrime[i]) // sum <- qi' + hi'
		nxt.Sub(&nxt, &sum)                 // nxt <- 1 + 2 * qi' * hi' - qi' - hi'
""", """		var nq, nh fr.Element
		nq.Sub(&one, &qPrime[i])
		nh.Sub(&one, &nextQPrime[i])
		nxt.Mul(&qPrime[i], &nextQPrime[i])
		sum.Mul(&nq, &nh)
		nxt.Add(&nxt, &sum)
""")], ['polynomial.EvalEq']),
 ('eqtable-vars', 'polynomial/eq.go', [("""			J := j << (n - i)
			JNext := J + 1<<(n-1-i)
""", """			half := 1 << (n - 1 - i)
			J := 2 * j * half
			JNext := J + half
""")], ['GetFoldedEqTable']),
 ('eqtable-stride', 'polynomial/eq.go', [("""		for j := 0; j < (1 << i); j++ {
			J := j << (n - i)
			JNext := J + 1<<(n-1-i)
			foldedEq""", """		step := 1 << (n - i)
		for J := 0; J < len(foldedEqTable); J += step {
			JNext := J + step/2
			foldedEq""")], ['GetFoldedEqTable']),
 ('static-index', LAY, [("k := gO*w.O + gL*w.L + w.R", "k := (w.O*gL+w.L)*gL + w.R"), ("gO, gL := (1 << (2 * l.BGInputs)), 1<<l.BGInputs", "gL := 1 << l.BGInputs")], ['GetStaticTable']),
 ('static-continue', LAY, [("""			if w.Gate.ID() == gate.ID() {
				k := gO*w.O + gL*w.L + w.R
				tab[k].Add(&tab[k], &one)
			}
""", """			if w.Gate.ID() != gate.ID() {
				continue
			}
			k := gO*w.O + gL*w.L + w.R
			tab[k].Add(&tab[k], &one)
""")], ['GetStaticTable']),
 ('evaluate-helper', LAY, [("""				for h := 0; h < N; h++ {
					// Runs the gate evaluator
					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
				}
""", """				accumulate(w.Gate, subRes[wON:wON+N], inps[wLN:wLN+N], inps[wRN:wRN+N], &tmp)
"""), ("// BGOutputs return", """func accumulate(g Gate, out, l, r []fr.Element, tmp *fr.Element) {
	for h := range out {
		g.Eval(tmp, &l[h], &r[h])
		out[h].Add(&out[h], tmp)
	}
}

// BGOutputs return""")], ['Layer).Evaluate']),
 ('evaluate-defer', LAY, [("""			semaphore.Acquire()
			inps := inputs[i]
""", """			defer wg.Done()
			semaphore.Acquire()
			defer semaphore.Release()
			inps := inputs[i]
"""), ("""			semaphore.Release()
			wg.Done()
		}(i)""", "		}(i)")], ['Layer).Evaluate']),
 ('evaluate-closure', LAY, [("""		go func(i int) {
			semaphore.Acquire()
			inps := inputs[i]
""", """		i := i
		inps := inputs[i]
		go func() {
			semaphore.Acquire()
"""), ("		}(i)\n", "		}()\n")], ['Layer).Evaluate']),
 ('bginputs-max', LAY, [("""		if res < wire.L {
			res = wire.L
		}
		if res < wire.R {
			res = wire.R
		}
""", """		res = common.Max(res, common.Max(wire.L, wire.R))
""")], ['BGInputs']),
 ('gkr-concat', GV, [("""		evals[i] = tables[i].Evaluate(append(nextQL, nextQR...))
""", """		point := append([]fr.Element{}, nextQL...)
		point = append(point, nextQR...)
		evals[i] = tables[i].Evaluate(point)
""")], ['gkr.Verifier).Verify']),
 ('gkr-lambda', GV, [("""		var lambdaL fr.Element
		lambdaL.SetOne()
""", ""), ("lambdaR)", "lambdaR)"), ("nextQL, nextQR, lambdaL, lambdaR),", "nextQL, nextQR, lambdaR),"), ("nextQR []fr.Element, lambdaL, lambdaR fr.Element", "nextQR []fr.Element, lambdaR fr.Element"), ("		left.Mul(&left, &lambdaL)\n", "")], ['gkr.Verifier).Verify']),
 ('gkr-up', GV, [("	for layer := nLayers - 2; layer >= 0; layer-- {", "	for k := 0; k < nLayers-1; k++ {\n		layer := nLayers - 2 - k")], ['gkr.Verifier).Verify']),
 ('gkr-return', GV, [("""	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {
		return false
	}

	return true
""", """	return actualVL == proof.ClaimsLeft[0] && actualVR == proof.ClaimsRight[0]
""")], ['gkr.Verifier).Verify']),
 ('sumcheck-range', SV, [("	for i := 0; i < len(proof.PolyCoeffs); i++ {", "	for i := range proof.PolyCoeffs {")], ['sumcheck.Verifier).Verify']),
 ('sumcheck-append', SV, [("challenges := make([]fr.Element, len(proof.PolyCoeffs))", "challenges := make([]fr.Element, 0, len(proof.PolyCoeffs))"), ("		challenges[i] = r\n", "		challenges = append(challenges, r)\n")], ['sumcheck.Verifier).Verify']),
 ('sumcheck-poly', SV, [("""		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
""", """		poly := proof.PolyCoeffs[i]
		actualValue = polynomial.EvaluatePolynomial(poly, zero)
		evalAtOne = polynomial.EvaluatePolynomial(poly, one)
""")], ['sumcheck.Verifier).Verify']),
 ('mimc-index', 'hash/mimc.go', [("	for i := 0; i < MimcRounds; i++ {\n		state.Add(state, &block)\n		state.Add(state, &Arks[i])\n", "	for i := range Arks[:MimcRounds] {\n		var key fr.Element\n		key.Add(&block, &Arks[i])\n		state.Add(state, &key)\n")], ['hash.Mimc']),
 ('assign-index', 'circuit/circuit.go', [("""	for i, layer := range c.Layers {
		assignment[i+1] = layer.Evaluate(assignment[i], nCore)
	}
""", """	for i := 1; i < len(assignment); i++ {
		assignment[i] = c.Layers[i-1].Evaluate(assignment[i-1], nCore)
	}
""")], ['Circuit).Assign']),
 ('assign-current', 'circuit/circuit.go', [("""	for i, layer := range c.Layers {
		assignment[i+1] = layer.Evaluate(assignment[i], nCore)
	}
""", """	current := inputs
	for i := range c.Layers {
		current = c.Layers[i].Evaluate(current, nCore)
		assignment[i+1] = current
	}
""")], ['Circuit).Assign']),
 ('gmimc-copy', 'hash/gmimc.go', [("""		if i+g.t >= len(msg) {
			// Only zero-pad the input
			for j, w := range msg[i:len(msg)] {
				block[j] = w
			}
		} else {
			// Take a full chunk
			for j, w := range msg[i : i+g.t] {
				block[j] = w
			}
		}
""", """		copy(block, msg[i:])
""")], ['GMimcHasher).Hash']),
 ('gmimc-end', 'hash/gmimc.go', [("""		if i+g.t >= len(msg) {
			// Only zero-pad the input
			for j, w := range msg[i:len(msg)] {
				block[j] = w
			}
		} else {
			// Take a full chunk
			for j, w := range msg[i : i+g.t] {
				block[j] = w
			}
		}
""", """		end := i + g.t
		if end > len(msg) {
			end = len(msg)
		}
		for j := i; j < end; j++ {
			block[j-i] = msg[j]
		}
""")], ['GMimcHasher).Hash']),
 ('gmimc-rotate', 'hash/gmimc.go', [("""	for i := 1; i < len(state); i++ {
		state[i-1], state[i] = state[i], state[i-1]
	}
""", """	first := state[0]
	copy(state, state[1:])
	state[len(state)-1] = first
""")], ['InPlaceCircular', 'GMimcHasher).UpdateInplace']),
 ('gmimc-old', 'hash/gmimc.go', [("""	oldState := append([]fr.Element{}, state...)
""", """	oldState := make([]fr.Element, len(state))
	copy(oldState, state)
""")], ['GMimcHasher).UpdateInplace']),
 ('poseidon-one-loop', 'hash/poseidon.go', [("""	for i := 0; i < p.nRoundsF; i++ {
		AddArkAndKeysInplace(state, block, Arks[i])
		FullRoundInPlace(state)
		state = MatrixMultiplication(p.cauchy, state)
	}

	for i := p.nRoundsF; i < p.nRoundsF+p.nRoundsP; i++ {
		AddArkAndKeysInplace(state, block, Arks[i])
		PartialRoundInplace(state)
		state = MatrixMultiplication(p.cauchy, state)
	}

	for i := p.nRoundsF + p.nRoundsP; i < 2*p.nRoundsF+p.nRoundsP; i++ {
		AddArkAndKeysInplace(state, block, Arks[i])
		FullRoundInPlace(state)
		state = MatrixMultiplication(p.cauchy, state)
	}
""", """	for i := 0; i < 2*p.nRoundsF+p.nRoundsP; i++ {
		AddArkAndKeysInplace(state, block, Arks[i])
		if i < p.nRoundsF || i >= p.nRoundsF+p.nRoundsP {
			FullRoundInPlace(state)
		} else {
			PartialRoundInplace(state)
		}
		state = MatrixMultiplication(p.cauchy, state)
	}
""")], ['PoseidonHasher).Update']),
 ('poseidon-matrix', 'hash/poseidon.go', [("""	var tmp fr.Element
	for i, col := range mat {
		for j, el := range col {
			tmp.Set(&vec[j])
			tmp.Mul(&tmp, &el)
			res[i].Add(&res[i], &tmp)
		}
	}
""", """	for i := range mat {
		var acc, tmp fr.Element
		for j := range mat[i] {
			tmp.Mul(&mat[i][j], &vec[j])
			acc.Add(&acc, &tmp)
		}
		res[i] = acc
	}
""")], ['MatrixMultiplication']),
 ('poseidon-round', 'hash/poseidon.go', [("""	for i := 0; i < p.nRoundsF; i++ {
		AddArkAndKeysInplace(state, block, Arks[i])
		FullRoundInPlace(state)
		state = MatrixMultiplication(p.cauchy, state)
	}
""", """	for i := 0; i < p.nRoundsF; i++ {
		state = p.fullRound(state, block, i)
	}
"""), ("// GenerateMDSMatrix returns", """func (p *PoseidonHasher) fullRound(state, block []fr.Element, i int) []fr.Element {
	AddArkAndKeysInplace(state, block, Arks[i])
	FullRoundInPlace(state)
	return MatrixMultiplication(p.cauchy, state)
}

// GenerateMDSMatrix returns""")], ['PoseidonHasher).Update']),
 ('chunked-eval-down', 'polynomial/chunked.go', [("""		for k := range res {
			// res[i]""", """		for k := mid - 1; k >= 0; k-- {
			// res[i]""")], ['chunkedEvalRecombine']),
 ('chunked-split', 'polynomial/chunked.go', [("""	recombined := chunkedEvalRecombine(bkts, q[len(q)-logNChunks:])
	return recombined.Evaluate(q[:len(q)-logNChunks])
""", """	split := len(q) - logNChunks
	inner, outer := q[:split], q[split:]
	recombined := chunkedEvalRecombine(bkts, outer)
	return recombined.Evaluate(inner)
""")], ['EvaluateChunked']),
 ('lagrange-eval', 'polynomial/lagrange.go', [("""	var result fr.Element
	result.Set(&coeffs[len(coeffs)-1])
	for i := len(coeffs) - 2; i >= 0; i-- {
""", """	var result fr.Element
	for i := len(coeffs) - 1; i >= 0; i-- {
""")], ['polynomial.EvaluatePolynomial']),
 ('lagrange-powers', 'polynomial/lagrange.go', [("""	var result fr.Element
	result.Set(&coeffs[len(coeffs)-1])
	for i := len(coeffs) - 2; i >= 0; i-- {
		result.Mul(&result, &x)
		result.Add(&result, &coeffs[i])
	}
	return result
""", """	var result, power, term fr.Element
	power.SetOne()
	for i := range coeffs {
		term.Mul(&coeffs[i], &power)
		result.Add(&result, &term)
		power.Mul(&power, &x)
	}
	return result
""")], ['polynomial.EvaluatePolynomial']),
 ('interpolate-swap', 'polynomial/lagrange.go', [("""	for i, value := range values {
		for j, lagrangeCoeff := range lagrange[i] {
			tmp.Set(&lagrangeCoeff)
			tmp.Mul(&tmp, &value)
			result[j].Add(&result[j], &tmp)
		}
	}
""", """	for j := range result {
		for i := range values {
			tmp.Mul(&lagrange[i][j], &values[i])
			result[j].Add(&result[j], &tmp)
		}
	}
""")], ['InterpolateOnRange']),
 ('chunks-append', 'common/chunks.go', [("""	chunkRanges := make([]ChunkRange, nChunks)
	Begin := 0
	for i := 0; i < nChunks; i++ {
		chunkRanges[i] = ChunkRange{Begin: Begin, End: Min(N, Begin+chunkSize)}
		Begin += chunkSize
	}
""", """	chunkRanges := make([]ChunkRange, 0, nChunks)
	for begin := 0; begin < N; begin += chunkSize {
		chunkRanges = append(chunkRanges, ChunkRange{Begin: begin, End: Min(N, begin+chunkSize)})
	}
"""), ("	nChunks := N / chunkSize\n	if nChunks*chunkSize < N {\n		// handle the case where n is not divisible by chunkSize\n		nChunks++\n	}\n", "	nChunks := (N + chunkSize - 1) / chunkSize\n")], ['IntoChunkRanges', 'BookKeepingTable).Mul']),
 ('chunks-index', 'common/chunks.go', [("""		chunkRanges[i] = ChunkRange{Begin: Begin, End: Min(N, Begin+chunkSize)}
		Begin += chunkSize
""", """		begin := i * chunkSize
		chunkRanges[i] = ChunkRange{Begin: begin, End: Min(N, begin+chunkSize)}
"""), ("	Begin := 0\n", "")], ['IntoChunkRanges']),
 ('gadget-hash-sbox', 'snark/hash/mimc.go', [("""			tmp := cs.Mul(state, state) // ^2
			tmp = cs.Mul(state, tmp)    // ^3
			tmp = cs.Mul(tmp, tmp)      // ^6
			state = cs.Mul(state, tmp)  // ^7
""", """			state2 := cs.Mul(state, state)
			state4 := cs.Mul(state2, state2)
			state = cs.Mul(cs.Mul(state4, state2), state)
""")], ['snark/hash.MimcHash']),
 ('gadget-eq', 'snark/polynomial/eq.go', [("""	res := cs.Constant(1)
	res = cs.Sub(res, q)
	res = cs.Sub(res, h)
	res = cs.Add(res, cs.Mul(cs.Constant(2), cs.Mul(q, h)))
	return res
""", """	qh := cs.Mul(q, h)
	return cs.Add(cs.Sub(cs.Sub(cs.Constant(1), q), h), qh, qh)
""")], ['UnivariateEqEval', 'snark/polynomial.EqEval']),
 ('gadget-fold', 'snark/polynomial/multilinear.go', [("""	for i := 0; i < k; i++ {
		tmpLinExp""", """	bottom, top := m.Table[:k], m.Table[k:]
	for i := range bottom {
		tmpLinExp"""), ("cs.Sub(m.Table[i+k], m.Table[i])", "cs.Sub(top[i], bottom[i])"), ("m.Table[i] = cs.Add(m.Table[i], tmp)", "bottom[i] = cs.Add(bottom[i], tmp)"), ("	m.Table = m.Table[:k]", "	m.Table = bottom")], ['MultilinearByValues).Fold', 'MultilinearByValues).Eval']),
 ('gadget-mixed-copy', 'snark/polynomial/multilinear.go', [("""		multlin := NewMultilinearByValues(m.Table[i*chunkSize : (i+1)*chunkSize])
		intermediateTable[i] = multlin.Eval(cs, qPrime)
""", """		start := i * chunkSize
		intermediateTable[i] = NewMultilinearByValues(m.Table[start:start+chunkSize]).Eval(cs, qPrime)
""")], ['MultilinearByValues).EvalMixed']),
 ('mimc-update', 'hash/mimc.go', [("""	oldState := *state
	MimcPermutationInPlace(state, block)
	// TODO: readds the oldstate addition, when gnark moves to Miyaguchi-Preenel
	state.Add(state, &oldState)
	state.Add(state, &block)
""", """	var sum fr.Element
	sum.Add(state, &block)
	MimcPermutationInPlace(state, block)
	state.Add(state, &sum)
""")], ['hash.Mimc']),
 ('eval-ops', 'circuit/layers.go', [("""			if w.Gate.ID() == gate.ID() {
""", """			if id == w.Gate.ID() {
"""), ("		// The tab is filled with zeroes\n", "		id := gate.ID()\n")], ['GetStaticTable']),
]
sel = sys.argv[1:]
base = tempfile.mkdtemp(prefix='refac_')


def one(n, x):
    name, f, subs, fns = x
    t = '%s/%d' % (base, n)
    try:
        shutil.copytree('/repo', t + '/r', ignore=shutil.ignore_patterns('.git'))
        p = t + '/r/' + f
        s = open(p).read()
        for a, b in subs:
            if a not in s:
                return 'NOT FOUND %s %r' % (name, a[:60])
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        r = subprocess.run(['/tmp/gossa', t + '/r', t + '/o.json'], capture_output=True, text=True)
        if r.returncode:
            return 'DOES NOT BUILD %s %s' % (name, (r.stdout + r.stderr)[:300])
        open(t + '/v.py', 'w').write(V.replace('/tmp/out.json', t + '/o.json'))
        r = subprocess.run(['timeout', '450', 'python3-vt', t + '/v.py'] + fns, capture_output=True, text=True)
        ls = r.stdout.rstrip().split('\n')
        bad = [l[:200] for l in ls if not l.startswith('OK')]
        return '%-9s %s %s' % ('proved' if not bad and not r.returncode else 'FAILS', name, '\n    '.join(bad[:4]) if bad else '' if not r.returncode else 'rc %d %s' % (r.returncode, r.stderr[-200:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)


try:
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda q: one(*q), [(n, m) for n, m in enumerate(R) if not sel or any(s in m[0] for s in sel)]):
            print(r, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
