From 3f870049528dfbfeda0daa8336b524dbaeb06268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 1/8] fix: read the right input of a gate at R*N+h when
 evaluating a layer

The offset was multiplied by N twice, so any wire with R > 0 read out of range
(or the wrong value) as soon as a chunk held more than one instance.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 78c70125c99d4792aedd2eed490632a207dd43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 2/8] fix: deduplicate the gates of a layer

The map of already-seen gates was never filled, so a gate used by several wires
was listed (and its static table counted) once per wire, and honest proofs of
such circuits were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 67432a04ecdb547571f52273f5aa695481e16bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 3/8] fix: reject a proof whose intermediate layer claim is
 inconsistent

The verifier accepted the whole proof as soon as one intermediate layer failed
its final check.
---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From 3d83583d8a6c14a814764ba6c79d3368cfbc9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 4/8] fix: evaluate a polynomial given as a single chunk

With one chunk there is nothing to recombine and res stayed nil: the verifier
panicked on every single-chunk batch.
---
 polynomial/chunked.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..2204aff 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -36,7 +36,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 7971ad237c2065f2b4e7cda8e3529110a47be6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 5/8] fix: write the result of a Poseidon update back to the
 caller's state

The matrix multiplication reassigned the local slice, so everything after the
first S-box was lost: the hash ignored all but one element of every block.
---
 hash/poseidon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..582fe28 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -67,6 +67,8 @@ func (p *PoseidonHasher) Hash(msg []fr.Element) fr.Element {
 // https://en.wikipedia.org/wiki/One-way_compression_function#Miyaguchi.E2.80.93Preneel
 func (p *PoseidonHasher) Update(state, block []fr.Element) {
 
+	// The caller's state, to which the result is written back
+	callerState := state
 	// Deep-copies the state
 	oldState := append([]fr.Element{}, state...)
 
@@ -94,6 +96,7 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 		state[i].Add(&state[i], &oldState[i])
 		state[i].Add(&state[i], &block[i])
 	}
+	copy(callerState, state)
 }
 
 // GenerateMDSMatrix returns the MDS matrix for a given size
-- 
2.43.0


From e94ac60e63fa09421aed3200aeb1fd2b80976ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 6/8] fix: take the initial evaluation point outside of the
 hypercube

Its first coordinate was 1, so the weight of every output in the first half of
the batch was zero in the initial claim and wrong outputs were accepted there.
---
 gkr/prover.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..f9df321 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,12 +40,13 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
+	// No coordinate may be 0 or 1: the claim would be independent from half of the outputs
 	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+		q[i].SetUint64(uint64(i + 2))
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+		qPrime[i].SetUint64(uint64(i + 2))
 	}
 
 	return qPrime, q
-- 
2.43.0


From fb5fa15b66eaa7c7808994c37dd262b70589a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 7/8] fix: reject malformed GKR proofs instead of panicking

A proof with missing layers, claims, rounds or an empty round polynomial made
the verifier index out of range.
---
 gkr/verifier.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..aa58c8e 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,11 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if !v.hasExpectedShape(proof) {
+		// The proof is not one for this circuit
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -113,6 +118,27 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// hasExpectedShape returns true if the proof has a sumcheck and a pair of claims for each layer,
+// and each sumcheck has a non-empty polynomial for each variable
+func (v *Verifier) hasExpectedShape(proof Proof) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers || len(proof.ClaimsLeft) != nLayers || len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+	for layer := range proof.SumcheckProofs {
+		polyCoeffs := proof.SumcheckProofs[layer].PolyCoeffs
+		if len(polyCoeffs) != v.bN+2*v.circuit.Layers[layer].BGInputs {
+			return false
+		}
+		for i := range polyCoeffs {
+			if len(polyCoeffs[i]) == 0 {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0


From 58d90c98e37d48ed1b36c61d7bbdf59f5763e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 8/8] fix: bound the degree of the round polynomials of a GKR
 proof

The soundness of the sumcheck rests on it, the in-circuit verifier enforces it
by construction, and the native verifier took polynomials of any degree.
---
 gkr/verifier.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index aa58c8e..5418819 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -119,7 +119,8 @@ func (v *Verifier) Verify(
 }
 
 // hasExpectedShape returns true if the proof has a sumcheck and a pair of claims for each layer,
-// and each sumcheck has a non-empty polynomial for each variable
+// and each sumcheck has, for each variable, a non-empty polynomial whose degree is no larger than
+// the one of an honest proof
 func (v *Verifier) hasExpectedShape(proof Proof) bool {
 	nLayers := len(v.circuit.Layers)
 	if len(proof.SumcheckProofs) != nLayers || len(proof.ClaimsLeft) != nLayers || len(proof.ClaimsRight) != nLayers {
@@ -127,11 +128,25 @@ func (v *Verifier) hasExpectedShape(proof Proof) bool {
 	}
 	for layer := range proof.SumcheckProofs {
 		polyCoeffs := proof.SumcheckProofs[layer].PolyCoeffs
-		if len(polyCoeffs) != v.bN+2*v.circuit.Layers[layer].BGInputs {
+		bG := v.circuit.Layers[layer].BGInputs
+		if len(polyCoeffs) != v.bN+2*bG {
 			return false
 		}
+		degreeHL, degreeHR, degreeHPrime := 0, 0, 0
+		for _, gate := range v.circuit.Layers[layer].Gates {
+			dL, dR, dPrime := gate.Degrees()
+			degreeHL = common.Max(degreeHL, dL)
+			degreeHR = common.Max(degreeHR, dR)
+			degreeHPrime = common.Max(degreeHPrime, dPrime)
+		}
 		for i := range polyCoeffs {
-			if len(polyCoeffs[i]) == 0 {
+			degree := degreeHPrime + 1
+			if i < bG {
+				degree = degreeHL + 1
+			} else if i < 2*bG {
+				degree = degreeHR + 1
+			}
+			if len(polyCoeffs[i]) == 0 || len(polyCoeffs[i]) > degree+1 {
 				return false
 			}
 		}
-- 
2.43.0

