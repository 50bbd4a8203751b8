// Package ref holds plain reference definitions, independent of the code under test.
package ref

import (
	"fmt"
	"math/big"
	"math/rand"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"

	"github.com/consensys/gurvy/bn256/fr"
	"verifharness/hx"
)

type E = fr.Element

// XArr, YArr, Arks are the published constants
var XArr, YArr, Arks []E

func init() {
	conv := func(l []string) []E {
		r := make([]E, len(l))
		for i, s := range l {
			b, _ := new(big.Int).SetString(s, 10)
			r[i] = hx.El(b)
		}
		return r
	}
	XArr, YArr, Arks = conv(strXArr[:]), conv(strYArr[:]), conv(strArks[:])
}

// Rounds is the number of MiMC rounds
const Rounds = 91

// MimcPerm applies the permutation
func MimcPerm(x, k E) E {
	for i := 0; i < Rounds; i++ {
		x = hx.Pow(hx.Add(hx.Add(x, k), Arks[i]), 7)
	}
	return x
}

// Mimc is the hash of a message
func Mimc(m []E) E {
	s := hx.Zero()
	for _, b := range m {
		s = hx.Add(hx.Add(MimcPerm(s, b), s), b)
	}
	return s
}

// Wire of a circuit; Kind: 0 add, 1 mul, 2 copy, 3 cipher
type Wire struct {
	L, R, O, Kind int
	Ark           E
}

// Gate applies the gate of the wire
func (w Wire) Gate(l, r E) E {
	switch w.Kind {
	case 0:
		return hx.Add(l, r)
	case 1:
		return hx.Mul(l, r)
	case 2:
		return l
	}
	return hx.Add(l, hx.Pow(hx.Add(r, w.Ark), 7))
}

func (w Wire) key() string { return fmt.Sprintf("%d/%s", w.Kind, hx.Str(w.Ark)) }

// Degs are the degrees in left, right, common variables
func (w Wire) Degs() (int, int, int) {
	switch w.Kind {
	case 0:
		return 1, 1, 1
	case 1:
		return 1, 1, 2
	case 2:
		return 1, 0, 1
	}
	return 1, 7, 7
}

// Real gives the gate of the code under test
func (w Wire) Real() circuit.Gate {
	switch w.Kind {
	case 0:
		return circuit.AddGate{}
	case 1:
		return circuit.MulGate{}
	case 2:
		return circuit.CopyGate{}
	}
	return circuit.NewCipherGate(w.Ark)
}

func (w Wire) String() string {
	s := fmt.Sprintf("{L%d R%d O%d %s", w.L, w.R, w.O, [...]string{"add", "mul", "copy", "cipher"}[w.Kind])
	if w.Kind == 3 {
		s += " " + hx.Str(w.Ark)
	}
	return s + "}"
}

// Circ is a layered circuit
type Circ [][]Wire

func (c Circ) String() string { return fmt.Sprintf("%v", [][]Wire(c)) }

// Wiring gives the circuit of the code under test
func (c Circ) Wiring() [][]circuit.Wire {
	r := make([][]circuit.Wire, len(c))
	for i := range c {
		r[i] = WiresOf(c[i])
	}
	return r
}

// WiresOf gives the wires of a layer
func WiresOf(l []Wire) []circuit.Wire {
	r := []circuit.Wire{}
	for _, w := range l {
		r = append(r, circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: w.Real()})
	}
	return r
}

// Real gives the circuit of the code under test
func (c Circ) Real() circuit.Circuit { return circuit.NewCircuit(c.Wiring()) }

// CeilLog is the smallest k with 2^k >= n
func CeilLog(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// BG gives the log sizes of the inputs and outputs of a layer
func BG(l []Wire) (in, out int) {
	mi, mo := 0, 0
	for _, w := range l {
		if w.L > mi {
			mi = w.L
		}
		if w.R > mi {
			mi = w.R
		}
		if w.O > mo {
			mo = w.O
		}
	}
	return CeilLog(mi + 1), CeilLog(mo + 1)
}

// Gates gives one wire per distinct gate, in first-use order
func Gates(l []Wire) []Wire {
	seen := map[string]bool{}
	r := []Wire{}
	for _, w := range l {
		if !seen[w.key()] {
			seen[w.key()] = true
			r = append(r, w)
		}
	}
	return r
}

// Static gives, for each distinct gate, the table over (left, right) folded at q
func Static(l []Wire, q []E) [][]E {
	in, _ := BG(l)
	g := 1 << uint(in)
	r := [][]E{}
	for _, d := range Gates(l) {
		t := make([]E, g*g)
		for _, w := range l {
			if w.key() == d.key() {
				t[w.L*g+w.R] = hx.Add(t[w.L*g+w.R], hx.EqW(q, w.O))
			}
		}
		r = append(r, t)
	}
	return r
}

// EvalLayer evaluates a layer on one chunk
func EvalLayer(l []Wire, in []E) []E {
	bi, bo := BG(l)
	n := len(in) >> uint(bi)
	out := make([]E, n<<uint(bo))
	for _, w := range l {
		for h := 0; h < n; h++ {
			out[w.O*n+h] = hx.Add(out[w.O*n+h], w.Gate(in[w.L*n+h], in[w.R*n+h]))
		}
	}
	return out
}

// Eval evaluates the circuit: values[layer][chunk]
func (c Circ) Eval(in [][]E) [][][]E {
	r := [][][]E{in}
	for _, l := range c {
		o := make([][]E, len(in))
		for b := range o {
			o[b] = EvalLayer(l, r[len(r)-1][b])
		}
		r = append(r, o)
	}
	return r
}

// Whole un-chunks: entry i of chunk b is entry i*chunks+b
func Whole(c [][]E) []E {
	r := make([]E, len(c)*len(c[0]))
	for b := range c {
		for i := range c[b] {
			r[i*len(c)+b] = c[b][i]
		}
	}
	return r
}

// Chunk splits
func Chunk(w []E, n int) [][]E {
	r := make([][]E, n)
	for b := range r {
		r[b] = make([]E, len(w)/n)
		for i := range r[b] {
			r[b][i] = w[i*n+b]
		}
	}
	return r
}

// Sumcheck checks rounds; ch are the challenges
func Sumcheck(claim E, polys [][]E) (ok bool, ch []E, last E) {
	last = claim
	for _, p := range polys {
		s := hx.Add(hx.PEval(p, hx.Zero()), hx.PEval(p, hx.One()))
		if !hx.Eq(s, last) {
			return false, nil, hx.Zero()
		}
		r := Mimc(p)
		ch = append(ch, r)
		last = hx.PEval(p, r)
	}
	return true, ch, last
}

func cat(a, b []E) []E { return append(append([]E{}, a...), b...) }

// EqPts is the equality of two points
func EqPts(a, b []E) E {
	r := hx.One()
	for i := range a {
		xy := hx.Mul(a[i], b[i])
		r = hx.Mul(r, hx.Add(hx.Sub(hx.Sub(hx.One(), a[i]), b[i]), hx.Add(xy, xy)))
	}
	return r
}

// InitialPoint is the fixed initial point
func InitialPoint(n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = hx.I(int64(i + 2))
	}
	return r
}

// Shape tells whether a proof has the right shape
func (c Circ) Shape(bN int, p gkr.Proof) bool {
	if len(p.SumcheckProofs) != len(c) || len(p.ClaimsLeft) != len(c) || len(p.ClaimsRight) != len(c) {
		return false
	}
	for i, l := range c {
		bG, _ := BG(l)
		ps := p.SumcheckProofs[i].PolyCoeffs
		if len(ps) != bN+2*bG {
			return false
		}
		var d [3]int
		for _, w := range l {
			a, b, e := w.Degs()
			for j, x := range []int{a, b, e} {
				if x > d[j] {
					d[j] = x
				}
			}
		}
		for j, q := range ps {
			k := 2
			if j < bG {
				k = 0
			} else if j < 2*bG {
				k = 1
			}
			if len(q) == 0 || len(q) > d[k]+2 {
				return false
			}
		}
	}
	return true
}

// Verify is the reference GKR verifier, from given initial points
func (c Circ) Verify(bN int, p gkr.Proof, in, out [][]E, qPrime, q []E) (bool, string) {
	if !c.Shape(bN, p) {
		return false, "shape"
	}
	n := len(c)
	claim := hx.MLE(Whole(out), cat(q, qPrime))
	var qL, qR, lam = q, []E(nil), hx.Zero()
	var hL, hR, hP []E
	for l := n - 1; l >= 0; l-- {
		bG, _ := BG(c[l])
		ok, ch, last := Sumcheck(claim, p.SumcheckProofs[l].PolyCoeffs)
		if !ok {
			return false, fmt.Sprintf("sumcheck of layer %d", l)
		}
		hL, hR, hP = ch[:bG], ch[bG:2*bG], ch[2*bG:]
		s := hx.Zero()
		tl := Static(c[l], qL)
		var tr [][]E
		if l < n-1 {
			tr = Static(c[l], qR)
		}
		for i, g := range Gates(c[l]) {
			v := hx.MLE(tl[i], cat(hL, hR))
			if tr != nil {
				v = hx.Add(v, hx.Mul(lam, hx.MLE(tr[i], cat(hL, hR))))
			}
			s = hx.Add(s, hx.Mul(v, g.Gate(p.ClaimsLeft[l], p.ClaimsRight[l])))
		}
		s = hx.Mul(s, EqPts(qPrime, hP))
		if !hx.Eq(s, last) {
			return false, fmt.Sprintf("combination of layer %d", l)
		}
		lam = Mimc([]E{p.ClaimsLeft[l], p.ClaimsRight[l]})
		claim = hx.Add(p.ClaimsLeft[l], hx.Mul(lam, p.ClaimsRight[l]))
		qL, qR, qPrime = hL, hR, hP
	}
	w := Whole(in)
	if !hx.Eq(hx.MLE(w, cat(hL, hP)), p.ClaimsLeft[0]) || !hx.Eq(hx.MLE(w, cat(hR, hP)), p.ClaimsRight[0]) {
		return false, "inputs"
	}
	return true, ""
}

// fold fixes the first variable
func fold(t []E, r E) []E {
	h := len(t) / 2
	o := make([]E, h)
	for i := range o {
		o[i] = hx.Add(t[i], hx.Mul(r, hx.Sub(t[i+h], t[i])))
	}
	return o
}

// Fold fixes the first variable
func Fold(t []E, r E) []E { return fold(t, r) }

// Prover holds the tables of a sumcheck instance
type Prover struct {
	VL, VR, Eq []E
	S          [][]E
	G          []Wire
	N, GL, GR  int
}

// Sum is the sum over the hypercube
func (p *Prover) Sum() E {
	n := len(p.Eq)
	gl, gr := len(p.VL)/n, len(p.VR)/n
	s := hx.Zero()
	for i, g := range p.G {
		for a := 0; a < gl; a++ {
			for b := 0; b < gr; b++ {
				st := p.S[i][a*gr+b]
				if st.IsZero() {
					continue
				}
				u := hx.Zero()
				for h := 0; h < n; h++ {
					u = hx.Add(u, hx.Mul(p.Eq[h], g.Gate(p.VL[a*n+h], p.VR[b*n+h])))
				}
				s = hx.Add(s, hx.Mul(st, u))
			}
		}
	}
	return s
}

// Fix returns the instance with the next variable fixed; kind: 0 left, 1 right, 2 common
func (p *Prover) Fix(kind int, r E) *Prover {
	o := *p
	switch kind {
	case 0, 1:
		o.S = make([][]E, len(p.S))
		for i := range p.S {
			o.S[i] = fold(p.S[i], r)
		}
		if kind == 0 {
			o.VL = fold(p.VL, r)
		} else {
			o.VR = fold(p.VR, r)
		}
	default:
		o.VL, o.VR, o.Eq = fold(p.VL, r), fold(p.VR, r), fold(p.Eq, r)
	}
	return &o
}

// Degree of the round polynomials
func (p *Prover) Degree(kind int) int {
	d := 0
	for _, g := range p.G {
		a, b, c := g.Degs()
		if x := []int{a, b, c}[kind]; x > d {
			d = x
		}
	}
	return d + 1
}

// Kinds lists the rounds
func (p *Prover) Kinds() []int {
	n := len(p.Eq)
	bN, bG := CeilLog(n), CeilLog(len(p.VL)/n)
	r := []int{}
	for i := 0; i < bG; i++ {
		r = append(r, 0)
	}
	for i := 0; i < bG; i++ {
		r = append(r, 1)
	}
	for i := 0; i < bN; i++ {
		r = append(r, 2)
	}
	return r
}

// RandCirc makes a random well-formed circuit
func RandCirc(rnd *rand.Rand, layers, maxBG, maxWires int, el func() E) Circ {
	arks := []E{el(), el()}
	w := rnd.Intn(maxBG + 1)
	c := make(Circ, layers)
	for i := range c {
		in := w
		w = rnd.Intn(maxBG + 1)
		c[i] = RandLayer(rnd, in, w, 1+rnd.Intn(maxWires), arks)
	}
	return c
}

// RandLayer makes a random layer of given log sizes
func RandLayer(rnd *rand.Rand, in, out, wires int, arks []E) []Wire {
	l := []Wire{}
	top := func(b int) int { // an index that needs all the b bits
		if b == 0 {
			return 0
		}
		return 1<<uint(b-1) + rnd.Intn(1<<uint(b-1))
	}
	for j := 0; j < wires; j++ {
		w := Wire{L: rnd.Intn(1 << uint(in)), R: rnd.Intn(1 << uint(in)), O: rnd.Intn(1 << uint(out)), Kind: rnd.Intn(4)}
		if w.Kind == 3 {
			w.Ark = arks[rnd.Intn(len(arks))]
		}
		l = append(l, w)
	}
	k := rnd.Intn(wires)
	if rnd.Intn(2) == 0 {
		l[k].L = top(in)
	} else {
		l[k].R = top(in)
	}
	l[rnd.Intn(wires)].O = top(out)
	return l
}

// CopyProof copies a proof
func CopyProof(p gkr.Proof) gkr.Proof {
	r := gkr.Proof{ClaimsLeft: hx.Copy(p.ClaimsLeft), ClaimsRight: hx.Copy(p.ClaimsRight)}
	for _, s := range p.SumcheckProofs {
		t := s
		t.PolyCoeffs = hx.Copy2(s.PolyCoeffs)
		r.SumcheckProofs = append(r.SumcheckProofs, t)
	}
	return r
}

// EqProof compares proofs
func EqProof(a, b gkr.Proof) bool {
	if len(a.SumcheckProofs) != len(b.SumcheckProofs) || !hx.EqV(a.ClaimsLeft, b.ClaimsLeft) || !hx.EqV(a.ClaimsRight, b.ClaimsRight) {
		return false
	}
	for i := range a.SumcheckProofs {
		if !hx.EqV2(a.SumcheckProofs[i].PolyCoeffs, b.SumcheckProofs[i].PolyCoeffs) {
			return false
		}
	}
	return true
}
