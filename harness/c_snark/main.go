package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	sgkr "gkr-mimc/snark/gkr"
	shash "gkr-mimc/snark/hash"
	spoly "gkr-mimc/snark/polynomial"
	ssum "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"

	"verifharness/hx"
	"verifharness/hx/gn"
	"verifharness/ref"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

type E = ref.E
type V = frontend.Variable
type CS = frontend.ConstraintSystem

// gad compiles a gadget and checks it on random inputs
func gad(t *hx.T, name string, nx, ny, tries int, f gn.F, want func(x []E) []E) {
	c, err := gn.Compile(nx, ny, f)
	for k := 0; k < tries; k++ {
		x := t.Rands(nx)
		t.Case(name+" at "+hx.StrV(x), func() string {
			if err != nil {
				return err.Error()
			}
			return c.Values(x, want(x))
		})
	}
}

func c16(t *hx.T) {
	one := func(n, tries int) {
		gad(t, fmt.Sprintf("MimcHash gadget of a message of length %d", n), n, 1, tries, func(cs *CS, x []V) []V {
			return []V{shash.MimcHash(cs, x...)}
		}, func(x []E) []E {
			w := ref.Mimc(x)
			if g := hash.MimcHash(x); !hx.Eq(g, w) {
				return []E{g} // the native hash is wrong: compare with it, another property reports it
			}
			return []E{w}
		})
	}
	for n := 0; n <= 14; n++ {
		one(n, 6)
	}
	// the message given as constants, or with repeated variables
	m := t.Rands(3)
	gad(t, "MimcHash gadget of constants "+hx.StrV(m), 0, 1, 1, func(cs *CS, x []V) []V {
		return []V{shash.MimcHash(cs, cs.Constant(m[0]), cs.Constant(m[1]), cs.Constant(m[2]))}
	}, func(x []E) []E { return []E{ref.Mimc(m)} })
	gad(t, "MimcHash gadget of x,x,y,x", 2, 1, 4, func(cs *CS, x []V) []V {
		return []V{shash.MimcHash(cs, x[0], x[0], x[1], x[0])}
	}, func(x []E) []E { return []E{ref.Mimc([]E{x[0], x[0], x[1], x[0]})} })
	for t.More() {
		one(t.Rnd.Intn(30), 8)
	}
}

func c17(t *hx.T) {
	eq := func(n int) {
		gad(t, fmt.Sprintf("EqEval in %d variables", n), 2*n, 1, 4, func(cs *CS, x []V) []V {
			return []V{spoly.EqEval(cs, x[:n], x[n:])}
		}, func(x []E) []E { return []E{ref.EqPts(x[:n], x[n:])} })
	}
	uni := func(n int) {
		gad(t, fmt.Sprintf("Univariate Eval, ZeroAndOne with %d coefficients", n), n+1, 2+n, 4, func(cs *CS, x []V) []V {
			u := spoly.NewUnivariate(append([]V{}, x[:n]...))
			a, b := u.Eval(cs, x[n]), u.ZeroAndOne(cs)
			return append([]V{a, b}, u.Coefficients...)
		}, func(x []E) []E {
			c := x[:n]
			return append([]E{hx.PEval(c, x[n]), hx.Add(hx.PEval(c, hx.Zero()), hx.PEval(c, hx.One()))}, c...)
		})
	}
	mul := func(n, k int) {
		s := 1 << uint(n)
		gad(t, fmt.Sprintf("Multilinear Eval in %d variables", n), s+n, 1+s, 3, func(cs *CS, x []V) []V {
			m := spoly.NewMultilinearByValues(append([]V{}, x[:s]...))
			e := m.Eval(cs, x[s:])
			return append([]V{e}, m.Table...) // the table is unchanged
		}, func(x []E) []E { return append([]E{hx.MLE(x[:s], x[s:])}, x[:s]...) })
		gad(t, fmt.Sprintf("Multilinear EvalMixed in %d+%d variables", k, n-k), s+n+k, 2+s, 3, func(cs *CS, x []V) []V {
			m := spoly.NewMultilinearByValues(append([]V{}, x[:s]...))
			l, r := m.EvalMixed(cs, x[s:s+k], x[s+k:s+2*k], x[s+2*k:])
			return append([]V{l, r}, m.Table...)
		}, func(x []E) []E {
			L, R, P := x[s:s+k], x[s+k:s+2*k], x[s+2*k:]
			return append([]E{hx.MLE(x[:s], append(hx.Copy(L), P...)), hx.MLE(x[:s], append(hx.Copy(R), P...))}, x[:s]...)
		})
		if n > 0 {
			gad(t, fmt.Sprintf("Multilinear Fold in %d variables", n), s+1, s/2+s, 2, func(cs *CS, x []V) []V {
				m := spoly.NewMultilinearByValues(append([]V{}, x[:s]...))
				d := m.DeepCopy()
				d.Fold(cs, x[s])
				return append(append([]V{}, d.Table...), m.Table...)
			}, func(x []E) []E { return append(hx.Copy(ref.Fold(x[:s], x[s])), x[:s]...) })
		}
	}
	for n := 0; n <= 6; n++ {
		eq(n)
	}
	for n := 1; n <= 13; n++ {
		uni(n)
	}
	for n := 0; n <= 5; n++ {
		for k := 0; k <= n; k++ {
			mul(n, k)
		}
	}
	assign := func(n, lc int) {
		w := t.Rands(1 << uint(n))
		ch := ref.Chunk(w, 1<<uint(lc))
		t.Case(fmt.Sprintf("Assign, AssignFromChunkedBKT chunks=%s", hx.StrV2(ch)), func() string {
			for mode := 0; mode < 2; mode++ {
				m := spoly.AllocateMultilinear(n)
				if len(m.Table) != len(w) {
					return fmt.Sprintf("AllocateMultilinear(%d) has %d entries", n, len(m.Table))
				}
				if mode == 0 {
					m.AssignFromChunkedBKT(hx.Copy2(ch))
				} else {
					v := make([]interface{}, len(w))
					for i := range w {
						v[i] = w[i]
					}
					m.Assign(v)
				}
				got, err := vals(m.Table)
				if err != nil {
					return err.Error()
				}
				if !hx.EqV(got, w) {
					return fmt.Sprintf("mode %d: assigned %s, want %s", mode, hx.StrV(got), hx.StrV(w))
				}
			}
			u := spoly.AllocateUnivariate(len(w) - 1)
			if len(u.Coefficients) != len(w) {
				return "AllocateUnivariate: wrong number of coefficients"
			}
			u.Assign(w)
			got, err := vals(u.Coefficients)
			if err != nil {
				return err.Error()
			}
			if !hx.EqV(got, w) {
				return "Univariate.Assign assigns " + hx.StrV(got)
			}
			return ""
		})
	}
	for n := 0; n <= 5; n++ {
		for lc := 0; lc <= n; lc++ {
			assign(n, lc)
		}
	}
	for t.More() {
		switch t.Rnd.Intn(4) {
		case 0:
			eq(t.Rnd.Intn(8))
		case 1:
			uni(1 + t.Rnd.Intn(16))
		case 2:
			n := t.Rnd.Intn(6)
			mul(n, t.Rnd.Intn(n+1))
		default:
			n := t.Rnd.Intn(7)
			assign(n, t.Rnd.Intn(n+1))
		}
	}
}

type holder struct{ T []V }

// Define does nothing
func (h *holder) Define(id gurvy.ID, cs *CS) error { return nil }

// vals reads back assigned values
func vals(v []V) ([]E, error) {
	m, err := frontend.ParseWitness(&holder{v})
	if err != nil {
		return nil, err
	}
	r := make([]E, len(v))
	for i := range v {
		x, ok := m[fmt.Sprintf("T_%d", i)]
		if !ok {
			return nil, fmt.Errorf("entry %d is not assigned", i)
		}
		e, ok := x.(E)
		if !ok {
			return nil, fmt.Errorf("entry %d is assigned a %T", i, x)
		}
		r[i] = e
	}
	return r, nil
}

func flat(p [][]E) []E {
	r := []E{}
	for _, c := range p {
		r = append(r, c...)
	}
	return r
}

func consistent(t *hx.T, degs []int) (E, [][]E) {
	claim := t.Rand()
	cur := claim
	polys := [][]E{}
	for _, d := range degs {
		p := t.Rands(d + 1)
		s := hx.Add(hx.PEval(p, hx.Zero()), hx.PEval(p, hx.One()))
		p[0] = hx.Add(p[0], hx.Mul(hx.Sub(cur, s), hx.Inv(hx.I(2))))
		polys = append(polys, p)
		cur = hx.PEval(p, ref.Mimc(p))
	}
	return claim, polys
}

func c18(t *hx.T) {
	one := func(bN, bG, dl, dr, dp, tries int) {
		degs := []int{}
		for i := 0; i < bN+2*bG; i++ {
			degs = append(degs, []int{dl, dr, dp}[map[bool]int{true: 0, false: map[bool]int{true: 1, false: 2}[i < 2*bG]}[i < bG]])
		}
		nx := 1
		for _, d := range degs {
			nx += d + 1
		}
		name := fmt.Sprintf("sumcheck gadget bN=%d bG=%d degrees %d %d %d", bN, bG, dl, dr, dp)
		t.Case(name+" allocation and assignment", func() string {
			p := ssum.AllocateProof(bN, bG, dl, dr, dp)
			if len(p.HPolys) != len(degs) {
				return fmt.Sprintf("%d polynomials", len(p.HPolys))
			}
			polys := [][]E{}
			for i, d := range degs {
				if len(p.HPolys[i].Coefficients) != d+1 {
					return fmt.Sprintf("round %d has %d coefficients, want %d", i, len(p.HPolys[i].Coefficients), d+1)
				}
				polys = append(polys, t.Rands(d+1))
			}
			p.Assign(sumcheck.Proof{PolyCoeffs: polys})
			for i := range polys {
				got, err := vals(p.HPolys[i].Coefficients)
				if err != nil {
					return fmt.Sprintf("round %d: %v", i, err)
				}
				if !hx.EqV(got, polys[i]) {
					return fmt.Sprintf("round %d is assigned %s, want %s", i, hx.StrV(got), hx.StrV(polys[i]))
				}
			}
			return ""
		})
		c, err := gn.Compile(nx, len(degs)+1, func(cs *CS, x []V) []V {
			p := ssum.AllocateProof(bN, bG, dl, dr, dp)
			k := 1
			for i := range p.HPolys {
				for j := range p.HPolys[i].Coefficients {
					p.HPolys[i].Coefficients[j] = x[k]
					k++
				}
			}
			hL, hR, hP, last := p.AssertValid(cs, x[0], bG)
			if len(hL) != bG || len(hR) != bG || len(hP) != bN {
				panic(fmt.Sprintf("%d, %d, %d challenges", len(hL), len(hR), len(hP)))
			}
			return append(append(append(append([]V{}, hL...), hR...), hP...), last)
		})
		try := func(claim E, polys [][]E, what string) {
			t.Case(fmt.Sprintf("%s, %s: claim=%s polys=%s", name, what, hx.Str(claim), hx.StrV2(polys)), func() string {
				if err != nil {
					return err.Error()
				}
				ok, _, _ := ref.Sumcheck(claim, polys)
				// outputs: as if it were consistent
				y, last := []E{}, claim
				for _, p := range polys {
					r := ref.Mimc(p)
					y, last = append(y, r), hx.PEval(p, r)
				}
				x := append([]E{claim}, flat(polys)...)
				if ok {
					nat, qp, ql, qr, fc := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: hx.Copy2(polys)}, bN, bG)
					if nat && !hx.EqV(append(append(append(append([]E{}, ql...), qr...), qp...), fc), append(hx.Copy(y), last)) {
						return "the native verifier returns other challenges"
					}
					return c.Values(x, append(y, last))
				}
				if s, e := c.Sat(x, append(y, last)); e != nil || s {
					return fmt.Sprintf("the assertions hold on an inconsistent proof (%v)", e)
				}
				return ""
			})
		}
		for k := 0; k < tries; k++ {
			claim, polys := consistent(t, degs)
			try(claim, polys, "consistent")
			try(hx.Add(claim, hx.One()), polys, "wrong claim")
			for i := range polys {
				p := hx.Copy2(polys)
				j := t.Rnd.Intn(len(p[i]))
				p[i][j] = hx.Add(p[i][j], t.Full())
				try(claim, p, fmt.Sprintf("round %d changed", i))
				// inconsistent at round i only
				p = hx.Copy2(polys)
				p[i][0] = hx.Add(p[i][0], hx.One())
				cur := hx.PEval(p[i], ref.Mimc(p[i]))
				for l := i + 1; l < len(p); l++ {
					s := hx.Add(hx.PEval(p[l], hx.Zero()), hx.PEval(p[l], hx.One()))
					p[l][0] = hx.Add(p[l][0], hx.Mul(hx.Sub(cur, s), hx.Inv(hx.I(2))))
					cur = hx.PEval(p[l], ref.Mimc(p[l]))
				}
				try(claim, p, fmt.Sprintf("inconsistent only at round %d", i))
			}
		}
	}
	for bN := 0; bN <= 3; bN++ {
		for bG := 0; bG <= 2; bG++ {
			one(bN, bG, 2, 3, 4, 1)
		}
	}
	one(2, 1, 2, 8, 8, 2)
	one(1, 1, 0, 1, 2, 2)
	for t.More() {
		one(t.Rnd.Intn(4), t.Rnd.Intn(3), t.Rnd.Intn(9), t.Rnd.Intn(9), t.Rnd.Intn(9), 1)
	}
}

var mimcCirc = func() ref.Circ {
	c := ref.Circ{}
	for i := 0; i < 90; i++ {
		c = append(c, []ref.Wire{{L: 1, Kind: 3, Ark: ref.Arks[i]}, {L: 1, O: 1, Kind: 2}})
	}
	return append(c, []ref.Wire{{L: 1, Kind: 3, Ark: ref.Arks[90]}})
}()

type gk struct {
	Circuit  sgkr.Circuit
	Proof    sgkr.Proof
	Q, QP    []V
	VIn, VOu spoly.MultilinearByValues
}

func newGk(bN int) *gk {
	c := sgkr.CreateMimcCircuit()
	return &gk{Circuit: c, Proof: sgkr.AllocateProof(bN, c), Q: []V{}, QP: make([]V, bN), VIn: spoly.AllocateMultilinear(bN + 1), VOu: spoly.AllocateMultilinear(bN)}
}

// Define runs the verifier
func (g *gk) Define(id gurvy.ID, cs *CS) error {
	g.Proof.AssertValid(cs, g.Circuit, g.Q, g.QP, g.VIn, g.VOu)
	return nil
}

func layers(t *hx.T) {
	sc := sgkr.CreateMimcCircuit()
	t.Case("layers of the in-circuit MiMC circuit", func() string {
		if len(sc.Layers) != 91 {
			return fmt.Sprintf("%d layers", len(sc.Layers))
		}
		for i, l := range sc.Layers {
			if l.BG != 1 || l.DegHL != 2 || l.DegHR != 8 || l.DegHPrime != 8 {
				return fmt.Sprintf("layer %d: BG %d, degrees %d %d %d", i, l.BG, l.DegHL, l.DegHR, l.DegHPrime)
			}
		}
		p := sgkr.AllocateProof(3, sc)
		if len(p.SumcheckProofs) != 91 || len(p.ClaimsLeft) != 91 || len(p.ClaimsRight) != 91 {
			return "AllocateProof: wrong number of layers"
		}
		for i, s := range p.SumcheckProofs {
			if len(s.HPolys) != 5 {
				return fmt.Sprintf("AllocateProof: layer %d has %d rounds", i, len(s.HPolys))
			}
			for j, h := range s.HPolys {
				if len(h.Coefficients) != []int{3, 9, 9, 9, 9}[j] {
					return fmt.Sprintf("AllocateProof: layer %d round %d has %d coefficients", i, j, len(h.Coefficients))
				}
			}
		}
		return ""
	})
	// Combine and CombineWithLinearComb of every layer, against the native tables and gates; x: qL qR qP(2) hL hR hP(2) lamL lamR vL vR
	bN := 2
	f := func(cs *CS, x []V) []V {
		r := []V{}
		for i := range sc.Layers {
			qL, qR, qP, hL, hR, hP := x[0:1], x[1:2], x[2:4], x[4:5], x[5:6], x[6:8]
			r = append(r, sc.Layers[i].Combine(cs, qL, qP, hL, hR, hP, x[10], x[11]),
				sc.Layers[i].CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, x[8], x[9], x[10], x[11]))
		}
		return r
	}
	_ = bN
	want := func(x []E) []E {
		r := []E{}
		h := x[4:6]
		for i, l := range mimcCirc {
			q1, q2 := x[0:1], x[1:2]
			if i == 90 {
				q1, q2 = nil, nil
			}
			tl, tr := ref.Static(l, q1), ref.Static(l, q2)
			a, b := hx.Zero(), hx.Zero()
			for j, g := range ref.Gates(l) {
				v := g.Gate(x[10], x[11])
				a = hx.Add(a, hx.Mul(hx.MLE(tl[j], h), v))
				b = hx.Add(b, hx.Mul(hx.Add(hx.Mul(x[8], hx.MLE(tl[j], h)), hx.Mul(x[9], hx.MLE(tr[j], h))), v))
			}
			e := ref.EqPts(x[2:4], x[6:8])
			r = append(r, hx.Mul(a, e), hx.Mul(b, e))
		}
		return r
	}
	gad(t, "Combine and CombineWithLinearComb of every layer", 12, 182, 6, f, want)
}

func c19(t *hx.T) {
	layers(t)
	for _, bN := range []int{0, 1, 2} {
		if bN == 2 && !t.Thorough && !t.More() {
			break
		}
		statement(t, bN)
	}
}

func statement(t *hx.T, bN int) {
	var r r1cs.R1CS
	var cerr error
	t.Case(fmt.Sprintf("compile the in-circuit verifier, bN=%d", bN), func() string {
		r, cerr = frontend.Compile(gurvy.BN256, newGk(bN))
		if cerr != nil {
			return cerr.Error()
		}
		return ""
	})
	nc := examples.CreateMimcCircuit()
	lc := t.Rnd.Intn(bN + 1)
	in := ref.Chunk(t.Fulls(2<<uint(bN)), 1<<uint(lc))
	asg := nc.Assign(hx.Copy2(in), 2)
	out := hx.Copy2(asg.Values[91])
	p := gkr.NewProver(nc, asg)
	proof := p.Prove(2)
	qp, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	nv := gkr.NewVerifier(bN, nc)
	try := func(pr gkr.Proof, in, out [][]E, q []E, what string) {
		t.Case(fmt.Sprintf("in-circuit verifier bN=%d, %s: inputs=%s outputs=%s q=%s claims=%s %s", bN, what, hx.StrV2(in), hx.StrV2(out), hx.StrV(q), hx.StrV(pr.ClaimsLeft), hx.StrV(pr.ClaimsRight)), func() string {
			want, why := mimcCirc.Verify(bN, pr, in, out, q, nil)
			if hx.EqV(q, qp) {
				if nat := nv.Verify(pr, in, out); nat != want {
					want, why = nat, "native verifier"
				}
			}
			w := newGk(bN)
			w.Proof.Assign(pr)
			for i := range q {
				w.QP[i].Assign(q[i])
			}
			w.VIn.AssignFromChunkedBKT(in)
			w.VOu.AssignFromChunkedBKT(out)
			m, err := frontend.ParseWitness(w)
			if err != nil {
				return err.Error()
			}
			got := r.IsSolved(m) == nil
			if got != want {
				return fmt.Sprintf("the assertions hold: %v, the native checks: %v %s", got, want, why)
			}
			return ""
		})
	}
	try(proof, in, out, qp, "honest")
	bump := func(x *E) { *x = hx.Add(*x, t.Full()) }
	for b := range out {
		o := hx.Copy2(out)
		bump(&o[b][t.Rnd.Intn(len(o[b]))])
		try(proof, in, o, qp, "an output changed")
		x := hx.Copy2(in)
		bump(&x[b][t.Rnd.Intn(len(x[b]))])
		try(proof, x, out, qp, "an input changed")
	}
	if bN > 0 {
		q := hx.Copy(qp)
		bump(&q[t.Rnd.Intn(bN)])
		try(proof, in, out, q, "another initial point")
	}
	ls := []int{0, 1, 45, 89, 90}
	for k := 0; k < 4; k++ {
		ls = append(ls, t.Rnd.Intn(91))
	}
	one := func(l int) {
		a := ref.CopyProof(proof)
		bump(&a.ClaimsLeft[l])
		try(a, in, out, qp, fmt.Sprintf("left claim %d changed", l))
		a = ref.CopyProof(proof)
		bump(&a.ClaimsRight[l])
		try(a, in, out, qp, fmt.Sprintf("right claim %d changed", l))
		for i := range proof.SumcheckProofs[l].PolyCoeffs {
			a = ref.CopyProof(proof)
			c := a.SumcheckProofs[l].PolyCoeffs[i]
			bump(&c[t.Rnd.Intn(len(c))])
			try(a, in, out, qp, fmt.Sprintf("layer %d round %d changed", l, i))
		}
		// consistent rounds, but a wrong end: only the combination of the layer fails
		a = ref.CopyProof(proof)
		ps := a.SumcheckProofs[l].PolyCoeffs
		k := t.Rnd.Intn(len(ps))
		c := ps[k]
		x := t.Full()
		c[1], c[2] = hx.Add(c[1], x), hx.Sub(c[2], x)
		for i := k + 1; i < len(ps); i++ {
			cur := hx.PEval(ps[i-1], ref.Mimc(ps[i-1]))
			s := hx.Add(hx.PEval(ps[i], hx.Zero()), hx.PEval(ps[i], hx.One()))
			ps[i][0] = hx.Add(ps[i][0], hx.Mul(hx.Sub(cur, s), hx.Inv(hx.I(2))))
		}
		try(a, in, out, qp, fmt.Sprintf("layer %d consistent from round %d but false", l, k))
	}
	exact := func(w ref.What) {
		if a, ok := mimcCirc.Forge(bN, in, qp, nil, w, t.Full); ok {
			try(a, in, out, qp, fmt.Sprintf("only the %s check of layer %d (round %d) fails", w.Kind, w.Layer, w.Round))
		}
	}
	exact(ref.What{Kind: "left"})
	exact(ref.What{Kind: "right"})
	for _, l := range []int{0, 1, 2 + t.Rnd.Intn(87), 89, 90} {
		exact(ref.What{Kind: "combine", Layer: l})
		exact(ref.What{Kind: "round", Layer: l, Round: 1 + t.Rnd.Intn(bN+1)})
		exact(ref.What{Kind: "round", Layer: l, Round: bN + 1})
	}
	for _, l := range ls {
		one(l)
	}
	// layer 0 with claims that satisfy the combination but not the inputs: a cipher gate and a copy gate
	// combine as s1*(vL+(vR+a)^7) + s2*vL, so vL can make up for any vR
	forged(t, bN, proof, func(a gkr.Proof) { try(a, in, out, qp, "only the inputs are inconsistent") })
	for t.More() && bN == 2 {
		one(t.Rnd.Intn(91))
	}
}

func forged(t *hx.T, bN int, proof gkr.Proof, f func(gkr.Proof)) {
	a := ref.CopyProof(proof)
	ps := a.SumcheckProofs[0].PolyCoeffs
	claim := hx.Add(a.ClaimsLeft[1], hx.Mul(ref.Mimc([]E{a.ClaimsLeft[1], a.ClaimsRight[1]}), a.ClaimsRight[1]))
	_, ch0, _ := ref.Sumcheck(claim, ps)
	_, ch1, _ := ref.Sumcheck(initial1(a), a.SumcheckProofs[1].PolyCoeffs)
	if len(ch0) < 2 || len(ch1) < 2 {
		return
	}
	lam := ref.Mimc([]E{a.ClaimsLeft[1], a.ClaimsRight[1]})
	tl, tr := ref.Static(mimcCirc[0], ch1[0:1]), ref.Static(mimcCirc[0], ch1[1:2])
	h := ch0[:2]
	s := []E{}
	for j := range tl {
		s = append(s, hx.Add(hx.MLE(tl[j], h), hx.Mul(lam, hx.MLE(tr[j], h))))
	}
	g := ref.Gates(mimcCirc[0])
	old := hx.Zero()
	for j := range g {
		old = hx.Add(old, hx.Mul(s[j], g[j].Gate(a.ClaimsLeft[0], a.ClaimsRight[0])))
	}
	vR := t.Full()
	// (s0+s1) vL + s0 (vR+ark)^7 = old
	p7 := hx.Mul(s[0], hx.Pow(hx.Add(vR, g[0].Ark), 7))
	vL := hx.Mul(hx.Sub(old, p7), hx.Inv(hx.Add(s[0], s[1])))
	a.ClaimsLeft[0], a.ClaimsRight[0] = vL, vR
	f(a)
}

// initial1 is the claim of layer 1
func initial1(a gkr.Proof) E {
	return hx.Add(a.ClaimsLeft[2], hx.Mul(ref.Mimc([]E{a.ClaimsLeft[2], a.ClaimsRight[2]}), a.ClaimsRight[2]))
}

func main() {
	hx.Main(map[string]func(*hx.T){"C16": c16, "C17": c17, "C18": c18, "C19": c19})
}
