package ref

import (
	"math/big"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"

	"verifharness/hx"
)

// Interpolate gives the coefficients of the polynomial with values v at 0, 1, 2, ...
func Interpolate(v []E) []E {
	n := len(v)
	d := append([]E{}, v...)
	// divided differences
	for k := 1; k < n; k++ {
		inv := hx.Inv(hx.I(int64(k)))
		for i := n - 1; i >= k; i-- {
			d[i] = hx.Mul(hx.Sub(d[i], d[i-1]), inv)
		}
	}
	r := make([]E, n)
	for k := n - 1; k >= 0; k-- {
		// r = r*(X-k) + d[k]
		nr := make([]E, n)
		for i := n - 1; i >= 0; i-- {
			if i > 0 {
				nr[i] = r[i-1]
			}
			nr[i] = hx.Sub(nr[i], hx.Mul(hx.I(int64(k)), r[i]))
		}
		nr[0] = hx.Add(nr[0], d[k])
		r = nr
	}
	return r
}

var root7 = new(big.Int).ModInverse(big.NewInt(7), new(big.Int).Sub(hx.Modulus, big.NewInt(1)))

// Root7 inverts x^7
func Root7(x E) E { return hx.El(new(big.Int).Exp(hx.Big(x), root7, hx.Modulus)) }

// What names the only check that a forged proof fails
type What struct {
	Kind  string // none, combine, round, left, right
	Layer int
	Round int
}

// Forge makes a proof of a true statement that fails exactly one check. ok is false when this is not possible.
func (c Circ) Forge(bN int, in [][]E, qPrime, q []E, w What, rnd func() E) (p gkr.Proof, ok bool) {
	n := len(c)
	vals := c.Eval(in)
	p.SumcheckProofs = make([]sumcheck.Proof, n)
	p.ClaimsLeft, p.ClaimsRight = make([]E, n), make([]E, n)
	claim := hx.MLE(Whole(vals[n]), cat(q, qPrime))
	qL, qR, qP := q, []E(nil), qPrime
	lam := hx.Zero()
	for l := n - 1; l >= 0; l-- {
		v := Whole(vals[l])
		s := Static(c[l], qL)
		if l < n-1 {
			t := Static(c[l], qR)
			for i := range s {
				for j := range s[i] {
					s[i][j] = hx.Add(s[i][j], hx.Mul(lam, t[i][j]))
				}
			}
		}
		eq := make([]E, 1<<uint(bN))
		for x := range eq {
			eq[x] = hx.EqW(qP, x)
		}
		pr := &Prover{VL: v, VR: v, Eq: eq, S: s, G: Gates(c[l])}
		kinds := pr.Kinds()
		bG, _ := BG(c[l])
		polys, ch := [][]E{}, []E{}
		deviate := l == w.Layer && (w.Kind == "combine" || w.Kind == "left" || w.Kind == "right")
		if w.Kind == "round" && l == w.Layer && w.Round >= len(kinds) {
			return p, false
		}
		first := false
		off := false // the rounds so far are not the honest ones
		for i, k := range kinds {
			ev := make([]E, pr.Degree(k)+1)
			for t := range ev {
				ev[t] = pr.Fix(k, hx.I(int64(t))).Sum()
			}
			g := Interpolate(ev)
			last := i == len(kinds)-1
			switch {
			case w.Kind == "round" && l == w.Layer && i == w.Round:
				// the honest polynomial; the round before (or the claim) was made inconsistent with it
				off = false
				if i == 0 {
					first = true
				}
			case off || w.Kind == "round" && l == w.Layer && i == w.Round-1 || deviate && last:
				// consistent with the claim so far, but not honest
				if len(g) < 2 {
					return p, false
				}
				x := rnd()
				g[0] = hx.Add(g[0], x)
				g[1] = hx.Sub(g[1], hx.Add(x, x))
				sum := hx.Add(hx.PEval(g, hx.Zero()), hx.PEval(g, hx.One()))
				g[0] = hx.Add(g[0], hx.Mul(hx.Sub(claim, sum), hx.Inv(hx.I(2))))
				off = true
			}
			r := Mimc(g)
			claim = hx.PEval(g, r)
			polys, ch = append(polys, g), append(ch, r)
			pr = pr.Fix(k, r)
		}
		p.SumcheckProofs[l] = sumcheck.Proof{PolyCoeffs: polys}
		hL, hR, hP := ch[:bG], ch[bG:2*bG], ch[2*bG:]
		vL, vR := hx.MLE(v, cat(hL, hP)), hx.MLE(v, cat(hR, hP))
		if first {
			// round 0 can only disagree with its claim when the claim is false, which another layer or the outputs decide
			return p, false
		}
		if l == w.Layer && (w.Kind == "left" || w.Kind == "right") {
			// solve the combination for one of the claims
			f := func(a, b E) E {
				s := hx.Zero()
				for i, g := range pr.G {
					s = hx.Add(s, hx.Mul(pr.S[i][0], g.Gate(a, b)))
				}
				return hx.Mul(s, pr.Eq[0])
			}
			if len(kinds) == 0 {
				return p, false
			}
			if w.Kind == "left" {
				a := f(hx.Zero(), vR)
				b := hx.Sub(f(hx.One(), vR), a)
				if b.IsZero() {
					return p, false
				}
				vL = hx.Mul(hx.Sub(claim, a), hx.Inv(b))
			} else {
				ciphers := 0
				for _, g := range pr.G {
					if g.Kind == 3 {
						ciphers++
					}
				}
				rest := 0
				for _, g := range pr.G {
					if g.Kind < 2 {
						rest++
					}
				}
				if ciphers == 0 {
					a := f(vL, hx.Zero())
					b := hx.Sub(f(vL, hx.One()), a)
					if b.IsZero() {
						return p, false
					}
					vR = hx.Mul(hx.Sub(claim, a), hx.Inv(b))
				} else if ciphers == 1 && rest == 0 {
					for i, g := range pr.G {
						if g.Kind == 3 {
							m := hx.Mul(pr.S[i][0], pr.Eq[0])
							if m.IsZero() {
								return p, false
							}
							base := f(vL, hx.Mul(g.Ark, hx.I(-1)))
							vR = hx.Sub(Root7(hx.Mul(hx.Sub(claim, base), hx.Inv(m))), g.Ark)
						}
					}
				} else {
					return p, false
				}
			}
			if !hx.Eq(f(vL, vR), claim) {
				return p, false
			}
		}
		p.ClaimsLeft[l], p.ClaimsRight[l] = vL, vR
		lam = Mimc([]E{vL, vR})
		claim = hx.Add(vL, hx.Mul(lam, vR))
		qL, qR, qP = hL, hR, hP
	}
	return p, true
}
