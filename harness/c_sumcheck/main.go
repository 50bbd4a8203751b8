package main

import (
	"fmt"
	"math/big"
	"runtime"
	"sync/atomic"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"

	"verifharness/hx"
	"verifharness/ref"
)

type E = ref.E

// honest makes polynomials that are consistent from a claim
func honest(t *hx.T, degs []int) (claim E, polys [][]E) {
	claim = t.Rand()
	cur := claim
	for _, d := range degs {
		p := t.Rands(d + 1)
		// p(0)+p(1) = 2 c0 + c1 + ... ; solve for one coefficient
		s := hx.Add(hx.PEval(p, hx.Zero()), hx.PEval(p, hx.One()))
		diff := hx.Sub(cur, s)
		if d == 0 || t.Rnd.Intn(2) == 0 {
			p[0] = hx.Add(p[0], hx.Mul(diff, hx.Inv(hx.I(2))))
		} else {
			k := 1 + t.Rnd.Intn(d)
			p[k] = hx.Add(p[k], diff)
		}
		polys = append(polys, p)
		cur = hx.PEval(p, ref.Mimc(p))
	}
	return
}

func c03(t *hx.T) {
	check := func(claim E, polys [][]E, bN, bG int, what string) {
		t.Case(fmt.Sprintf("%s: claim=%s polys=%s bN=%d bG=%d", what, hx.Str(claim), hx.StrV2(polys), bN, bG), func() string {
			p0 := hx.Copy2(polys)
			ok, ch, last := ref.Sumcheck(claim, p0)
			g, qp, ql, qr, fc := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: polys}, bN, bG)
			if g != ok {
				return fmt.Sprintf("verifier answers %v, the rounds are consistent: %v", g, ok)
			}
			if !hx.EqV2(polys, p0) {
				return "the proof changed"
			}
			if !ok {
				return ""
			}
			if !hx.EqV(ql, ch[:bG]) || !hx.EqV(qr, ch[bG:2*bG]) || !hx.EqV(qp, ch[2*bG:]) {
				return fmt.Sprintf("challenges %s %s %s, want %s", hx.StrV(ql), hx.StrV(qr), hx.StrV(qp), hx.StrV(ch))
			}
			if !hx.Eq(fc, last) {
				return "wrong final value"
			}
			// the returned slices do not share storage
			x := hx.Copy(qr)
			_ = append(ql, hx.One(), hx.One())
			if !hx.EqV(qr, x) {
				return "appending to the left challenges writes the right ones"
			}
			return ""
		})
	}
	one := func(bN, bG int) {
		d := make([]int, bN+2*bG)
		for i := range d {
			d[i] = t.Rnd.Intn(9)
		}
		claim, polys := honest(t, d)
		check(claim, polys, bN, bG, "consistent")
		// one deviation at a time
		check(hx.Add(claim, hx.One()), polys, bN, bG, "wrong claim")
		for i := range polys {
			p := hx.Copy2(polys)
			j := t.Rnd.Intn(len(p[i]))
			p[i][j] = hx.Add(p[i][j], t.Full())
			check(claim, p, bN, bG, fmt.Sprintf("coefficient %d of round %d changed", j, i))
		}
		for i := range polys {
			// keep the round's own sum, which only breaks a later round (or nothing in the last one)
			p := hx.Copy2(polys)
			if len(p[i]) >= 3 {
				x := t.Full()
				p[i][1] = hx.Add(p[i][1], x)
				p[i][2] = hx.Sub(p[i][2], x)
				check(claim, p, bN, bG, fmt.Sprintf("round %d changed, keeping its sum", i))
			}
		}
		// consistent in every round but one
		if len(polys) > 0 {
			k := t.Rnd.Intn(len(polys))
			p := hx.Copy2(polys)
			p[k][0] = hx.Add(p[k][0], hx.One())
			cur := hx.PEval(p[k], ref.Mimc(p[k]))
			for i := k + 1; i < len(p); i++ {
				s := hx.Add(hx.PEval(p[i], hx.Zero()), hx.PEval(p[i], hx.One()))
				p[i][0] = hx.Add(p[i][0], hx.Mul(hx.Sub(cur, s), hx.Inv(hx.I(2))))
				cur = hx.PEval(p[i], ref.Mimc(p[i]))
			}
			check(claim, p, bN, bG, fmt.Sprintf("inconsistent only at round %d", k))
		}
	}
	for bN := 0; bN <= 5; bN++ {
		for bG := 0; bG <= 3; bG++ {
			for k := 0; k < 3; k++ {
				one(bN, bG)
			}
		}
	}
	for t.More() {
		one(t.Rnd.Intn(8), t.Rnd.Intn(4))
	}
}

func instance(t *hx.T, bN, bG, nG int) *ref.Prover {
	n, g := 1<<uint(bN), 1<<uint(bG)
	p := &ref.Prover{VL: t.Rands(n * g), VR: t.Rands(n * g), Eq: t.Rands(n)}
	for i := 0; i < nG; i++ {
		w := ref.Wire{Kind: t.Rnd.Intn(4)}
		if w.Kind == 3 {
			w.Ark = t.Rand()
		}
		p.G = append(p.G, w)
		s := make([]E, g*g)
		for j := range s {
			if t.Rnd.Intn(3) > 0 {
				s[j] = t.Rand()
			}
		}
		if t.Rnd.Intn(4) == 0 {
			s = t.Rands(g * g)
		}
		p.S = append(p.S, s)
	}
	return p
}

func pstr(p *ref.Prover) string {
	return fmt.Sprintf("vL=%s vR=%s eq=%s gates=%v statics=%s", hx.StrV(p.VL), hx.StrV(p.VR), hx.StrV(p.Eq), p.G, hx.StrV2(p.S))
}

func gates(p *ref.Prover, slow bool) []circuit.Gate {
	r := []circuit.Gate{}
	for _, w := range p.G {
		if slow {
			r = append(r, slowGate{w.Real()})
		} else {
			r = append(r, w.Real())
		}
	}
	return r
}

func bk(x []E) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(hx.Copy(x)) }
func bks(x [][]E) []polynomial.BookKeepingTable {
	r := []polynomial.BookKeepingTable{}
	for _, v := range x {
		r = append(r, bk(v))
	}
	return r
}

func single(p *ref.Prover) sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(bk(p.VL), bk(p.VR), bk(p.Eq), gates(p, false), bks(p.S))
}

// checkProof compares a transcript with the definition
func checkProof(p *ref.Prover, proof sumcheck.Proof, qp, ql, qr, fc []E) string {
	ks := p.Kinds()
	if len(proof.PolyCoeffs) != len(ks) {
		return fmt.Sprintf("%d rounds, want %d", len(proof.PolyCoeffs), len(ks))
	}
	var ch [3][]E
	for i, k := range ks {
		d := p.Degree(k)
		c := proof.PolyCoeffs[i]
		if len(c) != d+1 {
			return fmt.Sprintf("round %d: %d coefficients, want %d", i, len(c), d+1)
		}
		for x := 0; x <= d; x++ {
			g, w := hx.PEval(c, hx.I(int64(x))), p.Fix(k, hx.I(int64(x))).Sum()
			if !hx.Eq(g, w) {
				return fmt.Sprintf("round %d: the polynomial has value %s at %d, the partial sum is %s", i, hx.Str(g), x, hx.Str(w))
			}
		}
		r := ref.Mimc(c)
		ch[k] = append(ch[k], r)
		p = p.Fix(k, r)
	}
	if !hx.EqV(ql, ch[0]) || !hx.EqV(qr, ch[1]) || !hx.EqV(qp, ch[2]) {
		return "the challenges are not the hashes of the rounds"
	}
	w := []E{p.VL[0], p.VR[0], p.Eq[0]}
	for _, s := range p.S {
		w = append(w, s[0])
	}
	if !hx.EqV(fc, w) {
		return fmt.Sprintf("final claims %s, want %s", hx.StrV(fc), hx.StrV(w))
	}
	return ""
}

func c05(t *hx.T) {
	one := func(bN, bG, nG int) {
		p := instance(t, bN, bG, nG)
		t.Case("sequential prover "+pstr(p), func() string {
			s := single(p)
			if g, w := s.GetClaim(), p.Sum(); !hx.Eq(g, w) {
				return fmt.Sprintf("GetClaim = %s, want %s", hx.Str(g), hx.Str(w))
			}
			if g := s.GetClaim(); !hx.Eq(g, p.Sum()) {
				return "a second GetClaim differs"
			}
			proof, qp, ql, qr, fc := s.Prove()
			return checkProof(p, proof, qp, ql, qr, fc)
		})
		// the pieces, at a random stage of folding
		k := t.Rnd.Intn(bN + 2*bG + 1)
		rs := t.Rands(k)
		t.Case(fmt.Sprintf("partial sums after folding %s %s", hx.StrV(rs), pstr(p)), func() string {
			s, q := single(p), p
			ks := p.Kinds()
			for i := 0; i < k; i++ {
				switch ks[i] {
				case 0:
					s.FoldHL(rs[i])
				case 1:
					s.FoldHR(rs[i])
				default:
					s.FoldHPrime(rs[i])
				}
				q = q.Fix(ks[i], rs[i])
			}
			if k == len(ks) {
				return ""
			}
			var ev []E
			switch ks[k] {
			case 0:
				ev = s.GetEvalsOnHL()
			case 1:
				ev = s.GetEvalsOnHR()
			default:
				ev = s.GetEvalsOnHPrime()
			}
			if len(ev) != p.Degree(ks[k])+1 {
				return fmt.Sprintf("%d evaluations", len(ev))
			}
			for x := range ev {
				if w := q.Fix(ks[k], hx.I(int64(x))).Sum(); !hx.Eq(ev[x], w) {
					return fmt.Sprintf("round %d: evaluation at %d is %s, want %s", k, x, hx.Str(ev[x]), hx.Str(w))
				}
			}
			return ""
		})
	}
	for bN := 0; bN <= 4; bN++ {
		for bG := 0; bG <= 2; bG++ {
			for nG := 1; nG <= 4; nG++ {
				one(bN, bG, nG)
			}
		}
	}
	// each gate on its own
	for kind := 0; kind < 4; kind++ {
		for bG := 0; bG <= 1; bG++ {
			p := instance(t, 2, bG, 1)
			p.G[0] = ref.Wire{Kind: kind}
			t.Case("sequential prover "+pstr(p), func() string {
				s := single(p)
				proof, qp, ql, qr, fc := s.Prove()
				return checkProof(p, proof, qp, ql, qr, fc)
			})
		}
	}
	for t.More() {
		one(t.Rnd.Intn(5), t.Rnd.Intn(4), 1+t.Rnd.Intn(4))
	}
}

type slowGate struct{ circuit.Gate }

var noise uint64

func wait() {
	switch x := atomic.AddUint64(&noise, 0x9E3779B97F4A7C15) >> 40; x % 6 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(x%53) * time.Microsecond)
	}
}

func (s slowGate) Eval(res, l, r *E) { wait(); s.Gate.Eval(res, l, r) }
func (s slowGate) EvalManyVL(res, l []E, r *E) {
	wait()
	s.Gate.EvalManyVL(res, l, r)
}
func (s slowGate) EvalManyVR(res []E, l *E, r []E) {
	wait()
	s.Gate.EvalManyVR(res, l, r)
}

func c06(t *hx.T) {
	hx.CaseTimeout = 30 * time.Second
	one := func(bN, bG, nG, lc, nCore int, slow bool) {
		p := instance(t, bN, bG, nG)
		nc := 1 << uint(lc)
		atomic.StoreUint64(&noise, uint64(t.Rnd.Int63()))
		t.Case(fmt.Sprintf("parallel prover chunks=%d nCore=%d yielding=%v %s", nc, nCore, slow, pstr(p)), func() string {
			mk := func() sumcheck.MultiThreadedProver {
				return sumcheck.NewMultiThreadedProver(bks(ref.Chunk(p.VL, nc)), bks(ref.Chunk(p.VR, nc)), bks(ref.Chunk(p.Eq, nc)), gates(p, slow), bks(p.S))
			}
			m := mk()
			w := p.Sum()
			if g := m.GetClaim(nCore); !hx.Eq(g, w) {
				return fmt.Sprintf("GetClaim = %s, want %s", hx.Str(g), hx.Str(w))
			}
			s := single(p)
			if !hx.Eq(s.GetClaim(), w) {
				return "the sequential claim is not the full sum"
			}
			p1, a1, b1, c1, d1 := s.Prove()
			p2, a2, b2, c2, d2 := m.Prove(nCore)
			if !hx.EqV2(p1.PolyCoeffs, p2.PolyCoeffs) || !hx.EqV(a1, a2) || !hx.EqV(b1, b2) || !hx.EqV(c1, c2) || !hx.EqV(d1, d2) {
				return fmt.Sprintf("parallel: %s %s %s %s %s, sequential: %s %s %s %s %s", hx.StrV2(p2.PolyCoeffs), hx.StrV(a2), hx.StrV(b2), hx.StrV(c2), hx.StrV(d2),
					hx.StrV2(p1.PolyCoeffs), hx.StrV(a1), hx.StrV(b1), hx.StrV(c1), hx.StrV(d1))
			}
			m2 := mk()
			if g := m2.GetClaim(nCore); !hx.Eq(g, w) {
				return "a second claim differs"
			}
			return ""
		})
	}
	for bN := 0; bN <= 4; bN++ {
		for bG := 0; bG <= 2; bG++ {
			for lc := 0; lc <= bN; lc++ {
				one(bN, bG, 1+t.Rnd.Intn(3), lc, 1, false)
				one(bN, bG, 1+t.Rnd.Intn(3), lc, 1+t.Rnd.Intn(9), t.Rnd.Intn(2) == 0)
			}
		}
	}
	for t.More() {
		bN := t.Rnd.Intn(6)
		one(bN, t.Rnd.Intn(3), 1+t.Rnd.Intn(3), t.Rnd.Intn(bN+1), 1+t.Rnd.Intn(9), t.Rnd.Intn(2) == 0)
	}
	_ = big.NewInt
}

func main() {
	hx.Main(map[string]func(*hx.T){"C03": c03, "C05": c05, "C06": c06})
}
