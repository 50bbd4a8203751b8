package main

import (
	"fmt"
	"math/big"
	"runtime"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/hash"

	"verifharness/hx"
	"verifharness/hx/gn"
	"verifharness/ref"

	"github.com/consensys/gnark/frontend"
)

type E = ref.E

func allGates(t *hx.T) []ref.Wire {
	r := []ref.Wire{{Kind: 0}, {Kind: 1}, {Kind: 2}}
	for _, a := range []E{hx.Zero(), hx.One(), hx.I(-1), hx.I(2), t.Full(), t.Full(), ref.Arks[0], ref.Arks[90]} {
		r = append(r, ref.Wire{Kind: 3, Ark: a})
	}
	return r
}

func c11(t *hx.T) {
	gate := func(w ref.Wire, n int) {
		l, r := t.Rands(n), t.Rands(n)
		a := t.Rand()
		t.Case(fmt.Sprintf("gate %v a=%s l=%s r=%s", w, hx.Str(a), hx.StrV(l), hx.StrV(r)), func() string {
			g := w.Real()
			l0, r0, a0 := hx.Copy(l), hx.Copy(r), a
			res := t.Fulls(n)
			g.EvalManyVL(res, l, &a)
			for i := range res {
				if x := w.Gate(l0[i], a0); !hx.Eq(res[i], x) {
					return fmt.Sprintf("EvalManyVL[%d] = %s, want %s", i, hx.Str(res[i]), hx.Str(x))
				}
			}
			res = t.Fulls(n)
			g.EvalManyVR(res, &a, r)
			for i := range res {
				if x := w.Gate(a0, r0[i]); !hx.Eq(res[i], x) {
					return fmt.Sprintf("EvalManyVR[%d] = %s, want %s", i, hx.Str(res[i]), hx.Str(x))
				}
			}
			for i := range l {
				var v E = t.Full()
				g.Eval(&v, &l[i], &r[i])
				if x := w.Gate(l0[i], r0[i]); !hx.Eq(v, x) {
					return fmt.Sprintf("Eval(%s, %s) = %s, want %s", hx.Str(l0[i]), hx.Str(r0[i]), hx.Str(v), hx.Str(x))
				}
			}
			if !hx.EqV(l, l0) || !hx.EqV(r, r0) || !hx.Eq(a, a0) {
				return "an operand changed"
			}
			return ""
		})
	}
	for _, w := range allGates(t) {
		for n := 0; n <= 9; n++ {
			gate(w, n)
			gate(w, n)
		}
		degrees(t, w)
	}
	// identity: distinct functions have distinct identities
	gs := allGates(t)
	// constants that agree in part: leading digits, trailing digits, single words, sign
	x := t.Full()
	near := []E{x, hx.Mul(x, hx.I(-1)), hx.Mul(x, hx.Inv(hx.I(2)))}
	for _, k := range []uint{0, 1, 8, 16, 32, 63, 64, 96, 128, 160, 192, 224, 250} {
		near = append(near, hx.Add(x, hx.El(new(big.Int).Lsh(big.NewInt(1), k))))
	}
	ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(9), nil)
	for k, v := 0, big.NewInt(1); k < 8; k++ {
		v = new(big.Int).Mul(v, ten)
		near = append(near, hx.Add(x, hx.El(v)))
		near = append(near, hx.El(v), hx.El(new(big.Int).Add(v, big.NewInt(1))))
	}
	for k := 0; k < 4; k++ {
		y := x
		y[k] ^= 1
		if k == 3 {
			y[k] = x[k] ^ 1<<32
		}
		near = append(near, hx.El(hx.Big(y)))
	}
	for _, a := range near {
		gs = append(gs, ref.Wire{Kind: 3, Ark: a})
	}
	for i := range gs {
		for j := range gs {
			i, j := i, j
			t.Case(fmt.Sprintf("identities of %v and %v", gs[i], gs[j]), func() string {
				same := gs[i].Real().ID() == gs[j].Real().ID()
				if same && i != j && !(gs[i].Kind == 3 && gs[j].Kind == 3 && hx.Eq(gs[i].Ark, gs[j].Ark)) {
					return "two different gates have the same identity"
				}
				if !same && i == j {
					return "one gate has two identities"
				}
				return ""
			})
		}
	}
	gnarkGates(t)
	combinator(t)
	for t.More() {
		gs := allGates(t)
		gate(gs[t.Rnd.Intn(len(gs))], t.Rnd.Intn(20))
		combinator(t)
	}
}

func combinator(t *hx.T) {
	gs := allGates(t)
	k := t.Rnd.Intn(5)
	ws := []ref.Wire{}
	rs := []circuit.Gate{}
	for i := 0; i < k; i++ {
		w := gs[t.Rnd.Intn(len(gs))]
		ws, rs = append(ws, w), append(rs, w.Real())
	}
	l, r, e, s := t.Rand(), t.Rand(), t.Rand(), t.Rands(k)
	t.Case(fmt.Sprintf("EvaluateCombinator vL=%s vR=%s eq=%s gates=%v statics=%s", hx.Str(l), hx.Str(r), hx.Str(e), ws, hx.StrV(s)), func() string {
		l0, r0, e0, s0 := l, r, e, hx.Copy(s)
		g := circuit.EvaluateCombinator(&l, &r, &e, rs, s)
		x := hx.Zero()
		for i := range ws {
			x = hx.Add(x, hx.Mul(s0[i], ws[i].Gate(l0, r0)))
		}
		x = hx.Mul(x, e0)
		if !hx.Eq(g, x) {
			return fmt.Sprintf("= %s, want %s", hx.Str(g), hx.Str(x))
		}
		if !hx.Eq(l, l0) || !hx.Eq(r, r0) || !hx.Eq(e, e0) || !hx.EqV(s, s0) {
			return "an operand changed"
		}
		return ""
	})
}

// the declared degrees bound the true ones: finite differences of that order vanish
func degrees(t *hx.T, w ref.Wire) {
	t.Case(fmt.Sprintf("degrees of %v", w), func() string {
		dl, dr, dp := w.Real().Degrees()
		a, b, c := w.Degs()
		if dl < a || dr < b || dp < c {
			return fmt.Sprintf("declared degrees %d %d %d, true degrees %d %d %d", dl, dr, dp, a, b, c)
		}
		return ""
	})
}

func gnarkGates(t *hx.T) {
	for _, w := range allGates(t) {
		w := w
		c, err := gn.Compile(2, 1, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{w.Real().GnarkEval(cs, x[0], x[1])}
		})
		for k := 0; k < 8; k++ {
			x := t.Rands(2)
			t.Case(fmt.Sprintf("GnarkEval %v at %s", w, hx.StrV(x)), func() string {
				if err != nil {
					return err.Error()
				}
				return c.Values(x, []E{w.Gate(x[0], x[1])})
			})
		}
	}
}

// slow is a gate that yields, to vary the schedules
type slow struct {
	circuit.Gate
	n *int64
}

func (s slow) Eval(res, l, r *E) {
	s.Gate.Eval(res, l, r)
	switch l[0] % 5 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(l[0]%97) * time.Microsecond)
	}
}

func c12(t *hx.T) {
	one := func(c ref.Circ, bN, lc, nCore int, sl bool) {
		bg, _ := ref.BG(c[0])
		N := 1 << uint(bN)
		w := t.Rands(N << uint(bg))
		in := ref.Chunk(w, 1<<uint(lc))
		t.Case(fmt.Sprintf("Assign circuit=%v chunks=%d nCore=%d inputs=%s slow=%v", c, 1<<uint(lc), nCore, hx.StrV2(in), sl), func() string {
			in0 := hx.Copy2(in)
			wi := c.Wiring()
			if sl {
				for i := range wi {
					for j := range wi[i] {
						wi[i][j].Gate = slow{wi[i][j].Gate, nil}
					}
				}
			}
			rc := circuit.NewCircuit(wi)
			a := rc.Assign(in, nCore)
			want := c.Eval(in0)
			if len(a.Values) != len(want) {
				return fmt.Sprintf("%d layers of values, want %d", len(a.Values), len(want))
			}
			for i := range want {
				if !hx.EqV2(a.Values[i], want[i]) {
					return fmt.Sprintf("layer %d is %s, want %s", i, hx.StrV2(a.Values[i]), hx.StrV2(want[i]))
				}
			}
			if !hx.EqV2(in, in0) {
				return "the inputs changed"
			}
			return ""
		})
	}
	for bg := 0; bg <= 3; bg++ {
		for bo := 0; bo <= 3; bo++ {
			for bN := 0; bN <= 3; bN++ {
				for lc := 0; lc <= bN; lc++ {
					c := ref.Circ{ref.RandLayer(t.Rnd, bg, bo, 1+t.Rnd.Intn(6), t.Rands(2))}
					one(c, bN, lc, 1+t.Rnd.Intn(8), t.Rnd.Intn(3) == 0)
				}
			}
		}
	}
	for t.More() {
		c := ref.RandCirc(t.Rnd, 1+t.Rnd.Intn(5), 3, 8, t.Rand)
		bN := t.Rnd.Intn(6)
		one(c, bN, t.Rnd.Intn(bN+1), 1+t.Rnd.Intn(9), t.Rnd.Intn(3) == 0)
	}
}

func c13(t *hx.T) {
	one := func(l []ref.Wire) {
		in, out := ref.BG(l)
		q := t.Rands(out)
		t.Case(fmt.Sprintf("NewLayer wires=%v q=%s", l, hx.StrV(q)), func() string {
			wires := ref.WiresOf(l)
			y := circuit.NewLayer(wires)
			if y.BGInputs != in || y.BGOutputs != out {
				return fmt.Sprintf("dimensions %d %d, want %d %d", y.BGInputs, y.BGOutputs, in, out)
			}
			if len(y.Wires) != len(l) {
				return "wires lost"
			}
			gs := ref.Gates(l)
			if len(y.Gates) != len(gs) {
				return fmt.Sprintf("%d gates, want %d", len(y.Gates), len(gs))
			}
			for i := range gs {
				if y.Gates[i].ID() != gs[i].Real().ID() {
					return fmt.Sprintf("gate %d is %s, want %s", i, y.Gates[i].ID(), gs[i].Real().ID())
				}
			}
			q0 := hx.Copy(q)
			st := y.GetStaticTable(q)
			want := ref.Static(l, q0)
			if len(st) != len(want) {
				return "wrong number of static tables"
			}
			for i := range want {
				if !hx.EqV(st[i].Table, want[i]) {
					return fmt.Sprintf("static table %d is %s, want %s", i, hx.StrV(st[i].Table), hx.StrV(want[i]))
				}
			}
			if !hx.EqV(q, q0) {
				return "the folding point changed"
			}
			// a second call gives the same
			st2 := y.GetStaticTable(q)
			for i := range want {
				if !hx.EqV(st2[i].Table, want[i]) {
					return "a second call differs"
				}
			}
			return ""
		})
	}
	for bg := 0; bg <= 3; bg++ {
		for bo := 0; bo <= 3; bo++ {
			for k := 1; k <= 6; k++ {
				one(ref.RandLayer(t.Rnd, bg, bo, k, t.Rands(2)))
				one(ref.RandLayer(t.Rnd, bg, bo, k, t.Rands(1)))
			}
		}
	}
	// every wire position up to 9, alone
	for i := 0; i <= 9; i++ {
		one([]ref.Wire{{L: i, Kind: 0}})
		one([]ref.Wire{{R: i, Kind: 1}})
		one([]ref.Wire{{O: i, Kind: 2}})
		one([]ref.Wire{{O: i, Kind: 2}, {O: 0, R: 1, Kind: 2}, {L: 1, Kind: 0}})
	}
	for t.More() {
		one(ref.RandLayer(t.Rnd, t.Rnd.Intn(5), t.Rnd.Intn(5), 1+t.Rnd.Intn(10), t.Rands(2)))
	}
}

func c23(t *hx.T) {
	c := examples.CreateMimcCircuit()
	one := func(bN, lc, nCore int) {
		n := 1 << uint(bN)
		st, key := t.Rands(n), t.Rands(n)
		if t.Rnd.Intn(2) == 0 {
			// the sum with the key is chosen
			for i := range st {
				st[i] = hx.Sub(st[i], key[i])
			}
		}
		t.Case(fmt.Sprintf("MiMC circuit chunks=%d nCore=%d state=%s key=%s", 1<<uint(lc), nCore, hx.StrV(st), hx.StrV(key)), func() string {
			w := make([]E, 2*n)
			for i := range st {
				w[i], w[n+i] = hx.Add(st[i], key[i]), key[i]
			}
			// note the input layout: wire 0 is the cipher's right operand, wire 1 the left one
			a := c.Assign(ref.Chunk(w, 1<<uint(lc)), nCore)
			if len(a.Values) != 92 {
				return fmt.Sprintf("%d layers", len(a.Values))
			}
			out := ref.Whole(a.Values[91])
			if len(out) != n {
				return fmt.Sprintf("%d outputs for %d instances", len(out), n)
			}
			for i := range out {
				x := hx.Add(ref.MimcPerm(st[i], key[i]), key[i])
				if !hx.Eq(out[i], x) {
					return fmt.Sprintf("output %d is %s, want %s", i, hx.Str(out[i]), hx.Str(x))
				}
				s := st[i]
				hash.MimcPermutationInPlace(&s, key[i])
				if !hx.Eq(hx.Add(s, key[i]), x) {
					return fmt.Sprintf("the native permutation differs at %d", i)
				}
			}
			return ""
		})
	}
	t.Case("structure of the MiMC circuit", func() string {
		if len(c.Layers) != 91 {
			return fmt.Sprintf("%d layers", len(c.Layers))
		}
		return ""
	})
	for bN := 0; bN <= 4; bN++ {
		for lc := 0; lc <= bN; lc++ {
			for _, nc := range []int{1, 2, 5} {
				one(bN, lc, nc)
			}
		}
	}
	for t.More() {
		bN := t.Rnd.Intn(6)
		one(bN, t.Rnd.Intn(bN+1), 1+t.Rnd.Intn(8))
	}
}

func main() {
	hx.Main(map[string]func(*hx.T){"C11": c11, "C12": c12, "C13": c13, "C23": c23})
}
