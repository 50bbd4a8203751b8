package main

import (
	"fmt"
	"runtime"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"verifharness/hx"
	"verifharness/ref"
)

type E = ref.E

// world is a proven statement
type world struct {
	c       ref.Circ
	rc      circuit.Circuit
	bN      int
	in, out [][]E
	asg     circuit.Assignment
	proof   gkr.Proof
}

func (w *world) String() string {
	return fmt.Sprintf("circuit=%v bN=%d chunks=%d inputs=%s", w.c, w.bN, len(w.in), hx.StrV2(w.in))
}

func mk(t *hx.T, c ref.Circ, bN, lc int) *world {
	bg, _ := ref.BG(c[0])
	w := &world{c: c, rc: c.Real(), bN: bN}
	w.in = ref.Chunk(t.Rands(1<<uint(bN+bg)), 1<<uint(lc))
	w.out = w.c.Eval(hx.Copy2(w.in))[len(c)]
	return w
}

func (w *world) prove(nCore int) {
	w.asg = w.rc.Assign(hx.Copy2(w.in), nCore)
	p := gkr.NewProver(w.rc, w.asg)
	w.proof = p.Prove(nCore)
}

func verify(w *world, p gkr.Proof, in, out [][]E) bool {
	v := gkr.NewVerifier(w.bN, w.rc)
	return v.Verify(p, in, out)
}

func refv(w *world, p gkr.Proof, in, out [][]E) (bool, string) {
	_, bo := ref.BG(w.c[len(w.c)-1])
	return w.c.Verify(w.bN, p, in, out, ref.InitialPoint(w.bN), ref.InitialPoint(bo))
}

func rnd(t *hx.T, layers int) *world {
	c := ref.RandCirc(t.Rnd, layers, 2, 5, t.Rand)
	bN := t.Rnd.Intn(4)
	return mk(t, c, bN, t.Rnd.Intn(bN+1))
}

var mimcCirc = func() ref.Circ {
	c := ref.Circ{}
	for i := 0; i < 90; i++ {
		c = append(c, []ref.Wire{{L: 1, Kind: 3, Ark: ref.Arks[i]}, {L: 1, O: 1, Kind: 2}})
	}
	return append(c, []ref.Wire{{L: 1, Kind: 3, Ark: ref.Arks[90]}})
}()

func c04(t *hx.T) {
	hx.CaseTimeout = 60 * time.Second
	one := func(w *world, nCore int) {
		t.Case(fmt.Sprintf("honest proof nCore=%d %v", nCore, w), func() string {
			w.prove(nCore)
			if !hx.EqV2(w.asg.Values[len(w.c)], w.out) {
				return "the assignment is not the evaluation of the circuit"
			}
			if !verify(w, w.proof, w.in, w.out) {
				ok, why := refv(w, w.proof, w.in, w.out)
				return fmt.Sprintf("an honest proof is rejected (reference verifier: %v %s)", ok, why)
			}
			return ""
		})
	}
	for layers := 1; layers <= 4; layers++ {
		for bN := 0; bN <= 3; bN++ {
			for lc := 0; lc <= bN; lc++ {
				for k := 0; k < 3; k++ {
					one(mk(t, ref.RandCirc(t.Rnd, layers, 2, 6, t.Rand), bN, lc), 1+t.Rnd.Intn(8))
				}
			}
		}
	}
	for lc := 0; lc <= 1; lc++ {
		m := mk(t, mimcCirc, 2, lc)
		m.rc = examples.CreateMimcCircuit()
		one(m, 1+3*lc)
	}
	for t.More() {
		c := ref.RandCirc(t.Rnd, 1+t.Rnd.Intn(4), 3, 8, t.Rand)
		bN := t.Rnd.Intn(5)
		one(mk(t, c, bN, t.Rnd.Intn(bN+1)), 1+t.Rnd.Intn(8))
	}
}

// judge compares the verifier with the reference on one statement
func judge(t *hx.T, w *world, p gkr.Proof, in, out [][]E, what string) {
	t.Case(fmt.Sprintf("verify, %s: %v outputs=%s proof=%v", what, w, hx.StrV2(out), pstr(p)), func() string {
		p0, i0, o0 := ref.CopyProof(p), hx.Copy2(in), hx.Copy2(out)
		want, why := refv(w, p0, i0, o0)
		if g := verify(w, p, in, out); g != want {
			return fmt.Sprintf("the verifier answers %v, want %v (%s)", g, want, why)
		}
		return ""
	})
}

func pstr(p gkr.Proof) string {
	s := ""
	for i, x := range p.SumcheckProofs {
		if i > 3 {
			break
		}
		s += hx.StrV2(x.PolyCoeffs)
	}
	return s + " " + hx.StrV(p.ClaimsLeft) + " " + hx.StrV(p.ClaimsRight)
}

func bump(t *hx.T, x *E) { *x = hx.Add(*x, t.Full()) }

// forge repairs the rounds of a layer from a given round on, to be consistent with a claim; ref only
func forge(t *hx.T, claim E, ps [][]E) [][]E {
	p := hx.Copy2(ps)
	cur := claim
	for i := range p {
		s := hx.Add(hx.PEval(p[i], hx.Zero()), hx.PEval(p[i], hx.One()))
		p[i][0] = hx.Add(p[i][0], hx.Mul(hx.Sub(cur, s), hx.Inv(hx.I(2))))
		cur = hx.PEval(p[i], ref.Mimc(p[i]))
	}
	return p
}

func c01(t *hx.T) {
	one := func(w *world) {
		w.prove(1 + t.Rnd.Intn(4))
		n := len(w.c)
		judge(t, w, w.proof, w.in, w.out, "honest")
		for l := 0; l < n; l++ {
			p := ref.CopyProof(w.proof)
			bump(t, &p.ClaimsLeft[l])
			judge(t, w, p, w.in, w.out, fmt.Sprintf("left claim %d changed", l))
			p = ref.CopyProof(w.proof)
			bump(t, &p.ClaimsRight[l])
			judge(t, w, p, w.in, w.out, fmt.Sprintf("right claim %d changed", l))
			p = ref.CopyProof(w.proof)
			p.ClaimsLeft[l], p.ClaimsRight[l] = p.ClaimsRight[l], p.ClaimsLeft[l]
			judge(t, w, p, w.in, w.out, fmt.Sprintf("claims %d exchanged", l))
			for i := range w.proof.SumcheckProofs[l].PolyCoeffs {
				p = ref.CopyProof(w.proof)
				c := p.SumcheckProofs[l].PolyCoeffs[i]
				bump(t, &c[t.Rnd.Intn(len(c))])
				judge(t, w, p, w.in, w.out, fmt.Sprintf("layer %d round %d changed", l, i))
				if len(c) >= 3 {
					p = ref.CopyProof(w.proof)
					c = p.SumcheckProofs[l].PolyCoeffs[i]
					x := t.Full()
					c[1], c[2] = hx.Add(c[1], x), hx.Sub(c[2], x)
					judge(t, w, p, w.in, w.out, fmt.Sprintf("layer %d round %d changed, keeping its sum", l, i))
				}
			}
		}
		// a proof whose sumchecks are all consistent with the claims, but not with the gates:
		// only the combination of one layer fails
		for l := n - 1; l >= 0; l-- {
			p := ref.CopyProof(w.proof)
			claim := initial(w, w.out)
			if l < n-1 {
				claim = hx.Add(p.ClaimsLeft[l+1], hx.Mul(ref.Mimc([]E{p.ClaimsLeft[l+1], p.ClaimsRight[l+1]}), p.ClaimsRight[l+1]))
			}
			ps := p.SumcheckProofs[l].PolyCoeffs
			if len(ps) == 0 {
				continue
			}
			k := t.Rnd.Intn(len(ps))
			if c := ps[k]; len(c) >= 2 {
				bump(t, &c[len(c)-1])
			}
			p.SumcheckProofs[l].PolyCoeffs = forge(t, claim, ps)
			judge(t, w, p, w.in, w.out, fmt.Sprintf("layer %d consistent but false", l))
		}
		// proofs that fail exactly one check
		qp, q := ref.InitialPoint(w.bN), ref.InitialPoint(len(initialQ(w)))
		for l := 0; l < n; l++ {
			for _, kind := range []string{"combine", "round", "left", "right"} {
				if (kind == "left" || kind == "right") && l > 0 {
					continue
				}
				m := 1
				if kind == "round" {
					m = len(w.proof.SumcheckProofs[l].PolyCoeffs)
				}
				for r := 0; r < m; r++ {
					if p, ok := w.c.Forge(w.bN, w.in, qp, q, ref.What{Kind: kind, Layer: l, Round: r}, t.Full); ok {
						judge(t, w, p, w.in, w.out, fmt.Sprintf("only the %s check of layer %d (round %d) fails", kind, l, r))
					}
				}
			}
		}
		// forged from the outputs to the inputs: every sumcheck and combination holds, only the inputs do not
		if p, ok := forgeAll(t, w); ok {
			judge(t, w, p, w.in, w.out, "only the inputs are inconsistent")
		}
		for b := range w.in {
			i := t.Rnd.Intn(len(w.in[b]))
			x := hx.Copy2(w.in)
			bump(t, &x[b][i])
			judge(t, w, w.proof, x, w.out, "one input changed")
			o := hx.Copy2(w.out)
			bump(t, &o[b][t.Rnd.Intn(len(o[b]))])
			judge(t, w, w.proof, w.in, o, "one output changed")
		}
		if len(w.in) > 1 {
			x := hx.Copy2(w.in)
			x[0], x[1] = x[1], x[0]
			judge(t, w, w.proof, x, w.out, "two input chunks exchanged")
		}
	}
	for layers := 1; layers <= 4; layers++ {
		for k := 0; k < 4; k++ {
			one(rnd(t, layers))
		}
	}
	// a first layer that is blind to one of its operands: only the link with the inputs stands
	for k := 0; k < 12; k++ {
		kind := []int{2, 2, 1, 1}[k%4]
		bN := t.Rnd.Intn(3)
		w := mk(t, ref.Circ{{{L: t.Rnd.Intn(2), R: 1, O: 0, Kind: kind}, {L: 1, R: t.Rnd.Intn(2), O: k % 2, Kind: kind}}}, bN, t.Rnd.Intn(bN+1))
		if k%3 == 0 {
			w = mk(t, append(ref.Circ{}, append(w.c, []ref.Wire{{L: k % 2, R: 0, Kind: 0}})...), bN, 0)
		}
		if kind == 1 {
			for b := range w.in {
				for i := range w.in[b] {
					w.in[b][i] = hx.Zero()
				}
			}
			w.out = w.c.Eval(hx.Copy2(w.in))[len(w.c)]
		}
		w.prove(1)
		judge(t, w, w.proof, w.in, w.out, "honest")
		p := ref.CopyProof(w.proof)
		bump(t, &p.ClaimsRight[0])
		judge(t, w, p, w.in, w.out, "right claim against the inputs")
		p = ref.CopyProof(w.proof)
		bump(t, &p.ClaimsLeft[0])
		judge(t, w, p, w.in, w.out, "left claim against the inputs")
		one(w)
	}
	// no rounds at all, so that only one check stands
	for layers := 1; layers <= 3; layers++ {
		for k := 0; k < 3; k++ {
			one(mk(t, ref.RandCirc(t.Rnd, layers, 0, 4, t.Rand), 0, 0))
		}
	}
	for t.More() {
		one(rnd(t, 1+t.Rnd.Intn(4)))
	}
}

func initialQ(w *world) []E {
	_, o := ref.BG(w.c[len(w.c)-1])
	return make([]E, o)
}

func initial(w *world, out [][]E) E {
	_, bo := ref.BG(w.c[len(w.c)-1])
	return hx.MLE(ref.Whole(out), append(ref.InitialPoint(bo), ref.InitialPoint(w.bN)...))
}

// forgeAll keeps everything consistent but the link with the inputs, by shifting the claims of layer 0
// in a direction the combination does not see, when there is one (a copy gate ignores its right input)
func forgeAll(t *hx.T, w *world) (gkr.Proof, bool) {
	for _, g := range w.c[0] {
		if g.Kind != 2 {
			return gkr.Proof{}, false
		}
	}
	p := ref.CopyProof(w.proof)
	bump(t, &p.ClaimsRight[0])
	return p, true
}

func c02(t *hx.T) {
	reject := func(w *world, p gkr.Proof, what string) {
		t.Case(fmt.Sprintf("malformed proof, %s: %v", what, w), func() string {
			if want, _ := refv(w, p, w.in, w.out); want {
				return "" // still a well-formed consistent proof
			}
			if verify(w, p, w.in, w.out) {
				return "accepted"
			}
			return ""
		})
	}
	one := func(w *world) {
		w.prove(1)
		n := len(w.c)
		reject(w, gkr.Proof{}, "empty")
		cut := func(what string, f func(p *gkr.Proof)) {
			p := ref.CopyProof(w.proof)
			f(&p)
			reject(w, p, what)
		}
		cut("no sumchecks", func(p *gkr.Proof) { p.SumcheckProofs = nil })
		cut("no left claims", func(p *gkr.Proof) { p.ClaimsLeft = nil })
		cut("no right claims", func(p *gkr.Proof) { p.ClaimsRight = nil })
		cut("first layer missing", func(p *gkr.Proof) { p.SumcheckProofs = p.SumcheckProofs[1:] })
		cut("last layer missing", func(p *gkr.Proof) { p.SumcheckProofs = p.SumcheckProofs[:n-1] })
		cut("last layer missing everywhere", func(p *gkr.Proof) {
			p.SumcheckProofs, p.ClaimsLeft, p.ClaimsRight = p.SumcheckProofs[:n-1], p.ClaimsLeft[:n-1], p.ClaimsRight[:n-1]
		})
		cut("layer added", func(p *gkr.Proof) { p.SumcheckProofs = append(p.SumcheckProofs, sumcheck.Proof{}) })
		cut("layer added everywhere", func(p *gkr.Proof) {
			p.SumcheckProofs = append(p.SumcheckProofs, p.SumcheckProofs[n-1])
			p.ClaimsLeft, p.ClaimsRight = append(p.ClaimsLeft, p.ClaimsLeft[n-1]), append(p.ClaimsRight, p.ClaimsRight[n-1])
		})
		cut("left claim missing", func(p *gkr.Proof) { p.ClaimsLeft = p.ClaimsLeft[:n-1] })
		cut("right claim missing", func(p *gkr.Proof) { p.ClaimsRight = p.ClaimsRight[:n-1] })
		cut("left claim added", func(p *gkr.Proof) { p.ClaimsLeft = append(p.ClaimsLeft, hx.Zero()) })
		cut("right claim added", func(p *gkr.Proof) { p.ClaimsRight = append(p.ClaimsRight, hx.Zero()) })
		for l := 0; l < n; l++ {
			l := l
			k := len(w.proof.SumcheckProofs[l].PolyCoeffs)
			set := func(what string, f func(c [][]E) [][]E) {
				cut(fmt.Sprintf("layer %d: %s", l, what), func(p *gkr.Proof) {
					p.SumcheckProofs[l].PolyCoeffs = f(p.SumcheckProofs[l].PolyCoeffs)
				})
			}
			set("round added", func(c [][]E) [][]E { return append(c, []E{hx.Zero()}) })
			set("constant rounds added", func(c [][]E) [][]E {
				// rounds that keep the checks true: the value halves
				_, _, last := ref.Sumcheck(claimOf(w, l), c)
				h := hx.Mul(last, hx.Inv(hx.I(2)))
				return append(c, []E{h})
			})
			set("no rounds", func(c [][]E) [][]E { return nil })
			if k > 0 {
				set("first round missing", func(c [][]E) [][]E { return c[1:] })
				set("last round missing", func(c [][]E) [][]E { return c[:k-1] })
			}
			for i := 0; i < k; i++ {
				i := i
				set(fmt.Sprintf("round %d empty", i), func(c [][]E) [][]E { c[i] = []E{}; return c })
				set(fmt.Sprintf("round %d nil", i), func(c [][]E) [][]E { c[i] = nil; return c })
				// higher degree, with the rounds made consistent again
				set(fmt.Sprintf("round %d of a higher degree", i), func(c [][]E) [][]E {
					c[i] = append(c[i], hx.One())
					return forge(t, claimOf(w, l), c)
				})
				set(fmt.Sprintf("round %d padded with a zero", i), func(c [][]E) [][]E {
					c[i] = append(c[i], hx.Zero())
					return forge(t, claimOf(w, l), c)
				})
				set(fmt.Sprintf("round %d longer by ten", i), func(c [][]E) [][]E {
					c[i] = append(c[i], t.Rands(10)...)
					return forge(t, claimOf(w, l), c)
				})
				set(fmt.Sprintf("round %d shorter", i), func(c [][]E) [][]E { c[i] = c[i][:len(c[i])-1]; return c })
			}
		}
		attack(t, w)
	}
	for layers := 1; layers <= 3; layers++ {
		for k := 0; k < 4; k++ {
			one(rnd(t, layers))
		}
	}
	for t.More() {
		one(rnd(t, 1+t.Rnd.Intn(4)))
	}
}

func claimOf(w *world, l int) E {
	if l == len(w.c)-1 {
		return initial(w, w.out)
	}
	p := w.proof
	return hx.Add(p.ClaimsLeft[l+1], hx.Mul(ref.Mimc([]E{p.ClaimsLeft[l+1], p.ClaimsRight[l+1]}), p.ClaimsRight[l+1]))
}

// attack: a false output, repaired by a last round of a degree one above the honest one whose value at
// its own challenge is the honest final value. With coefficient freedom d+2 unknowns and a hash fixed
// point the forger has to search; here only the shape is tested.
func attack(t *hx.T, w *world) {
	n := len(w.c)
	ps := w.proof.SumcheckProofs[n-1].PolyCoeffs
	if len(ps) == 0 {
		return
	}
	o := hx.Copy2(w.out)
	bump(t, &o[0][0])
	p := ref.CopyProof(w.proof)
	p.SumcheckProofs[n-1].PolyCoeffs = forge(t, initial(w, o), p.SumcheckProofs[n-1].PolyCoeffs)
	judge(t, w, p, w.in, o, "false output, last layer consistent")
}

func c20(t *hx.T) {
	one := func(w *world, nCore int) {
		t.Case(fmt.Sprintf("prove and verify twice nCore=%d %v", nCore, w), func() string {
			in := hx.Copy2(w.in)
			wires := fmt.Sprint(w.rc)
			asg := w.rc.Assign(in, nCore)
			vals := [][][]E{}
			for _, l := range asg.Values {
				vals = append(vals, hx.Copy2(l))
			}
			same := func() string {
				for i := range vals {
					if !hx.EqV2(vals[i], asg.Values[i]) {
						return fmt.Sprintf("layer %d of the assignment changed", i)
					}
				}
				if !hx.EqV2(in, w.in) {
					return "the inputs changed"
				}
				if fmt.Sprint(w.rc) != wires {
					return "the circuit changed"
				}
				return ""
			}
			p := gkr.NewProver(w.rc, asg)
			p1 := p.Prove(nCore)
			if s := same(); s != "" {
				return "after proving: " + s
			}
			c1 := ref.CopyProof(p1)
			p2 := p.Prove(nCore)
			if !ref.EqProof(c1, p2) {
				return "proving twice gives two proofs"
			}
			if !ref.EqProof(c1, p1) {
				return "the second run changed the first proof"
			}
			q := gkr.NewProver(w.rc, asg)
			if !ref.EqProof(q.Prove(1+nCore%3), c1) {
				return "a second prover gives another proof"
			}
			// spoil the first proof: a later call is not affected
			spoil(t, p1)
			if !ref.EqProof(p2, c1) {
				return "two proofs share storage"
			}
			if !ref.EqProof(p.Prove(nCore), c1) {
				return "the prover keeps what it returned"
			}
			if s := same(); s != "" {
				return "after proving again: " + s
			}
			out := hx.Copy2(asg.Values[len(w.c)])
			v := gkr.NewVerifier(w.bN, w.rc)
			for k := 0; k < 3; k++ {
				if !v.Verify(p2, in, out) {
					return fmt.Sprintf("verification %d refuses", k+1)
				}
				if !ref.EqProof(p2, c1) {
					return "verifying changed the proof"
				}
				if !hx.EqV2(out, asg.Values[len(w.c)]) {
					return "verifying changed the outputs"
				}
				if s := same(); s != "" {
					return "after verifying: " + s
				}
			}
			// refusals in between change nothing either
			bad := hx.Copy2(out)
			bump(t, &bad[0][0])
			bad0 := hx.Copy2(bad)
			r1 := v.Verify(p2, in, bad)
			if r2 := v.Verify(p2, in, bad); r1 != r2 || !hx.EqV2(bad, bad0) {
				return "two verifications of the same false statement differ"
			}
			if !v.Verify(p2, in, out) {
				return "an honest proof is refused after a false one"
			}
			// tables returned with a copy do not share storage with the assignment
			for l := range asg.Values {
				for _, b := range asg.LayerAsBKTWithCopy(l, nCore) {
					for i := range b.Table {
						b.Table[i] = hx.One()
					}
				}
			}
			if s := same(); s != "" {
				return "after writing in copies: " + s
			}
			return ""
		})
	}
	for layers := 1; layers <= 4; layers++ {
		for k := 0; k < 6; k++ {
			one(rnd(t, layers), 1+t.Rnd.Intn(4))
		}
	}
	for t.More() {
		one(rnd(t, 1+t.Rnd.Intn(4)), 1+t.Rnd.Intn(8))
	}
}

func spoil(t *hx.T, p gkr.Proof) {
	for _, s := range p.SumcheckProofs {
		for _, c := range s.PolyCoeffs {
			for i := range c {
				bump(t, &c[i])
			}
		}
	}
	for i := range p.ClaimsLeft {
		bump(t, &p.ClaimsLeft[i])
		bump(t, &p.ClaimsRight[i])
	}
}

func c22(t *hx.T) {
	for bN := 0; bN <= 40; bN++ {
		for bG := 0; bG <= 40; bG++ {
			t.Case(fmt.Sprintf("GetInitialQPrimeAndQ(%d,%d)", bN, bG), func() string {
				qp, q := gkr.GetInitialQPrimeAndQ(bN, bG)
				if len(qp) != bN || len(q) != bG {
					return fmt.Sprintf("lengths %d %d", len(qp), len(q))
				}
				for _, x := range append(hx.Copy(qp), q...) {
					if x.IsZero() || hx.Eq(x, hx.One()) {
						return fmt.Sprintf("coordinate %s gives half of the outputs no weight: qPrime=%s q=%s", hx.Str(x), hx.StrV(qp), hx.StrV(q))
					}
				}
				return ""
			})
		}
	}
	one := func(w *world) {
		w.prove(1)
		for b := range w.out {
			for i := range w.out[b] {
				o := hx.Copy2(w.out)
				bump(t, &o[b][i])
				t.Case(fmt.Sprintf("output %d of chunk %d changed to %s: %v", i, b, hx.Str(o[b][i]), w), func() string {
					if !verify(w, w.proof, w.in, w.out) {
						return "the true outputs are refused"
					}
					if verify(w, w.proof, w.in, o) {
						return "accepted"
					}
					return ""
				})
			}
		}
	}
	for bN := 0; bN <= 4; bN++ {
		for lc := 0; lc <= bN; lc++ {
			for k := 0; k < 3; k++ {
				one(mk(t, ref.RandCirc(t.Rnd, 1+k%2, 2, 6, t.Rand), bN, lc))
			}
		}
	}
	for t.More() {
		bN := t.Rnd.Intn(5)
		one(mk(t, ref.RandCirc(t.Rnd, 1+t.Rnd.Intn(2), 3, 8, t.Rand), bN, t.Rnd.Intn(bN+1)))
	}
	_ = runtime.NumCPU
}

func main() {
	hx.Main(map[string]func(*hx.T){"C01": c01, "C02": c02, "C04": c04, "C20": c20, "C22": c22})
}
