package main

import (
	"fmt"
	"gkr-mimc/polynomial"

	"verifharness/hx"
	"verifharness/ref"
)

type E = ref.E

func tab(t []E) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(hx.Copy(t)) }

// a table with a marked backing array, to see writes past its end
func c07one(t *hx.T, n, m int) {
	T := t.Rands(1 << uint(n))
	q := t.Rands(n)
	t.Case(fmt.Sprintf("Evaluate table=%s q=%s", hx.StrV(T), hx.StrV(q)), func() string {
		b := tab(T)
		g := b.Evaluate(q)
		if w := hx.MLE(T, q); !hx.Eq(g, w) {
			return fmt.Sprintf("Evaluate = %s, want %s", hx.Str(g), hx.Str(w))
		}
		if !hx.EqV(b.Table, T) {
			return "Evaluate changed the table"
		}
		d := b.DeepCopy()
		if !hx.EqV(d.Table, T) {
			return "DeepCopy is not a copy"
		}
		d.Table[0] = hx.Add(d.Table[0], hx.One())
		if !hx.EqV(b.Table, T) {
			return "DeepCopy shares storage"
		}
		return ""
	})
	if n > 0 {
		r := t.Rand()
		t.Case(fmt.Sprintf("Fold table=%s r=%s", hx.StrV(T), hx.Str(r)), func() string {
			b := tab(T)
			fe := b.FunctionEvals()
			for i := range fe {
				if !hx.Eq(fe[i], hx.Sub(T[i+len(T)/2], T[i])) {
					return fmt.Sprintf("FunctionEvals[%d] wrong", i)
				}
			}
			if len(fe) != len(T)/2 || !hx.EqV(b.Table, T) {
				return "FunctionEvals: wrong length, or the table changed"
			}
			b.Fold(r)
			if w := ref.Fold(T, r); !hx.EqV(b.Table, w) {
				return fmt.Sprintf("Fold = %s, want %s", hx.StrV(b.Table), hx.StrV(w))
			}
			return ""
		})
	}
	// left/right: (L or R) then common
	for k := 0; k <= n; k++ {
		L, R, P := t.Rands(k), t.Rands(k), t.Rands(n-k)
		// the three may be parts of one slice
		orders := [][]*[]E{{&L, &R, &P}, {&L, &P, &R}, {&R, &L, &P}, {&P, &L, &R}, {&P, &R, &L}, {&R, &P, &L}}
		if o := t.Rnd.Intn(len(orders) + 1); o < len(orders) {
			all := []E{}
			for _, x := range orders[o] {
				all = append(all, *x...)
			}
			all, at := append(all, t.Rands(2)...), 0
			for _, x := range orders[o] {
				z := len(*x)
				*x = all[at : at+z]
				at += z
			}
		}
		L0, R0, P0 := hx.Copy(L), hx.Copy(R), hx.Copy(P)
		t.Case(fmt.Sprintf("EvaluateLeftAndRight table=%s hL=%s hR=%s hPrime=%s", hx.StrV(T), hx.StrV(L), hx.StrV(R), hx.StrV(P)), func() string {
			b := tab(T)
			l, r := b.EvaluateLeftAndRight(P, L, R)
			if !hx.Eq(l, hx.MLE(T, append(hx.Copy(L0), P0...))) || !hx.Eq(r, hx.MLE(T, append(hx.Copy(R0), P0...))) {
				return "EvaluateLeftAndRight is not the pair of evaluations"
			}
			if !hx.EqV(L, L0) || !hx.EqV(R, R0) || !hx.EqV(P, P0) {
				return "EvaluateLeftAndRight changed the coordinates"
			}
			if !hx.EqV(b.Table, T) {
				return "EvaluateLeftAndRight changed the table"
			}
			return ""
		})
	}
	algebra(t, 1<<uint(n), 1)
	_ = m
}

func algebra(t *hx.T, n, nCore int) {
	A, B := t.Rands(n), t.Rands(n)
	if n > 0 && n > 4000 {
		A, B = cheap(t, n), cheap(t, n)
	}
	x, y := t.Rand(), t.Rand()
	t.Case(fmt.Sprintf("Add/Sub/Mul/LinComb n=%d nCore=%d x=%s y=%s a=%s b=%s", n, nCore, hx.Str(x), hx.Str(y), hx.StrV(A), hx.StrV(B)), func() string {
		res := func() polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(cheap(t, n)) }
		chk := func(name string, got []E, f func(i int) E) string {
			if len(got) != n {
				return fmt.Sprintf("%s: length %d, want %d", name, len(got), n)
			}
			for i := range got {
				if w := f(i); !hx.Eq(got[i], w) {
					return fmt.Sprintf("%s[%d] = %s, want %s", name, i, hx.Str(got[i]), hx.Str(w))
				}
			}
			return ""
		}
		add := func(i int) E { return hx.Add(A[i], B[i]) }
		sub := func(i int) E { return hx.Sub(A[i], B[i]) }
		mul := func(i int) E { return hx.Mul(x, A[i]) }
		for mode := 0; mode < 3; mode++ {
			a, b := tab(A), tab(B)
			r1, r2, r3 := res(), res(), res()
			if mode == 1 { // allocates
				r1, r2, r3 = polynomial.BookKeepingTable{}, polynomial.BookKeepingTable{}, polynomial.BookKeepingTable{}
			}
			if mode == 2 { // in place
				r1, r2, r3 = tab(A), tab(A), tab(A)
				r1.Add(r1, b)
				r2.Sub(r2, b, nCore)
				r3.Mul(x, r3, nCore)
			} else {
				r1.Add(a, b)
				r2.Sub(a, b, nCore)
				r3.Mul(x, a, nCore)
			}
			for _, s := range []string{chk("Add", r1.Table, add), chk("Sub", r2.Table, sub), chk("Mul", r3.Table, mul)} {
				if s != "" {
					return fmt.Sprintf("mode %d: %s", mode, s)
				}
			}
			if !hx.EqV(a.Table, A) || !hx.EqV(b.Table, B) {
				return "an operand changed"
			}
		}
		a, b := tab(A), tab(B)
		l := polynomial.LinearCombinationOfBookKeepingTables(a, b, x, y)
		return chk("LinearCombination", l.Table, func(i int) E { return hx.Add(hx.Mul(x, A[i]), hx.Mul(y, B[i])) })
	})
}

var pool []E

func cheap(t *hx.T, n int) []E {
	if pool == nil {
		pool = t.Fulls(257)
	}
	r := make([]E, n)
	o := t.Rnd.Intn(200)
	for i := range r {
		r[i] = pool[(i*i+o+i)%257]
	}
	return r
}

func c07(t *hx.T) {
	for n := 0; n <= 7; n++ {
		for k := 0; k < 6; k++ {
			c07one(t, n, k)
		}
	}
	for _, n := range []int{1, 2, 3, 5, 4095, 4096, 4097, 8192, 12289} {
		for _, c := range []int{1, 2, 3, 5} {
			algebra(t, n, c)
		}
	}
	for i := 0; t.More(); i++ {
		c07one(t, t.Rnd.Intn(9), i)
	}
}

func c08(t *hx.T) {
	one := func(n int) {
		q, h := t.Rands(n), t.Rands(n)
		t.Case(fmt.Sprintf("EvalEq/GetFoldedEqTable q=%s h=%s", hx.StrV(q), hx.StrV(h)), func() string {
			q0, h0 := hx.Copy(q), hx.Copy(h)
			if g, w := polynomial.EvalEq(q, h), ref.EqPts(q, h); !hx.Eq(g, w) {
				return fmt.Sprintf("EvalEq = %s, want %s", hx.Str(g), hx.Str(w))
			}
			e := polynomial.GetFoldedEqTable(q)
			if len(e.Table) != 1<<uint(n) {
				return fmt.Sprintf("table of length %d", len(e.Table))
			}
			W := make([]E, 1<<uint(n))
			for i := range e.Table {
				W[i] = hx.EqW(q, i)
				if !hx.Eq(e.Table[i], W[i]) {
					return fmt.Sprintf("GetFoldedEqTable[%d] = %s, want %s", i, hx.Str(e.Table[i]), hx.Str(W[i]))
				}
			}
			for l := 0; l <= n; l++ {
				for _, nc := range []int{1, 2, 3, 8} {
					ch := polynomial.GetChunkedEqTable(q, 1<<uint(l), nc)
					if len(ch) != 1<<uint(l) {
						return "wrong number of chunks"
					}
					for b := range ch {
						if len(ch[b].Table) != 1<<uint(n-l) {
							return fmt.Sprintf("%d chunks: chunk %d has length %d", 1<<uint(l), b, len(ch[b].Table))
						}
						for i, x := range ch[b].Table {
							if w := W[i<<uint(l)+b]; !hx.Eq(x, w) {
								return fmt.Sprintf("%d chunks, nCore %d: chunk %d entry %d = %s, want %s", 1<<uint(l), nc, b, i, hx.Str(x), hx.Str(w))
							}
						}
					}
				}
			}
			if !hx.EqV(q, q0) || !hx.EqV(h, h0) {
				return "the point changed"
			}
			return ""
		})
	}
	for n := 0; n <= 9; n++ {
		for k := 0; k < 4; k++ {
			one(n)
		}
	}
	// chunks above the size at which the table operations are split
	for _, p := range [][3]int{{14, 1, 1}, {14, 1, 3}, {15, 2, 2}, {15, 1, 7}} {
		n, l, nc := p[0], p[1], p[2]
		q := t.Fulls(n)
		t.Case(fmt.Sprintf("GetChunkedEqTable n=%d chunks=%d nCore=%d q=%s", n, 1<<uint(l), nc, hx.StrV(q)), func() string {
			ch := polynomial.GetChunkedEqTable(q, 1<<uint(l), nc)
			W := polynomial.GetFoldedEqTable(q).Table
			for b := range ch {
				if len(ch[b].Table) != 1<<uint(n-l) {
					return "wrong chunk length"
				}
				for i, x := range ch[b].Table {
					if !hx.Eq(x, W[i<<uint(l)+b]) {
						return fmt.Sprintf("chunk %d entry %d wrong", b, i)
					}
				}
			}
			for _, i := range []int{0, 1, 1<<uint(n) - 1, 1 << uint(n-1), 12345, 4096, 4095, 8191} {
				if !hx.Eq(W[i], hx.EqW(q, i)) {
					return fmt.Sprintf("GetFoldedEqTable[%d] wrong", i)
				}
			}
			return ""
		})
	}
	for i := 0; t.More(); i++ {
		one(t.Rnd.Intn(10))
	}
}

func c09(t *hx.T) {
	one := func(n, l int) {
		w := t.Rands(1 << uint(n))
		nc := 1 << uint(l)
		ch := ref.Chunk(w, nc)
		q := t.Rands(n)
		t.Case(fmt.Sprintf("EvaluateChunked chunks=%d table=%s q=%s", nc, hx.StrV(w), hx.StrV(q)), func() string {
			c := hx.Copy2(ch)
			g := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(c), q)
			if x := hx.MLE(w, q); !hx.Eq(g, x) {
				return fmt.Sprintf("EvaluateChunked = %s, want %s", hx.Str(g), hx.Str(x))
			}
			if !hx.EqV2(c, ch) {
				return "EvaluateChunked changed the chunks"
			}
			b := polynomial.NewBookKeepingTable(hx.Copy(w))
			for i := 0; i < nc; i++ {
				if !hx.EqV(b.InterleavedChunk(i, nc).Table, ch[i]) {
					return fmt.Sprintf("InterleavedChunk(%d,%d) wrong", i, nc)
				}
			}
			if !hx.EqV(b.Table, w) {
				return "InterleavedChunk changed the table"
			}
			return ""
		})
		for k := 0; k <= n-l; k++ {
			L, R, P := t.Rands(k), t.Rands(k), t.Rands(n-k)
			t.Case(fmt.Sprintf("EvaluateMixedChunked chunks=%d table=%s hL=%s hR=%s hPrime=%s", nc, hx.StrV(w), hx.StrV(L), hx.StrV(R), hx.StrV(P)), func() string {
				c := hx.Copy2(ch)
				gl, gr := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(c), P, L, R)
				if !hx.Eq(gl, hx.MLE(w, append(hx.Copy(L), P...))) || !hx.Eq(gr, hx.MLE(w, append(hx.Copy(R), P...))) {
					return "EvaluateMixedChunked is not the pair of evaluations of the whole table"
				}
				if !hx.EqV2(c, ch) {
					return "EvaluateMixedChunked changed the chunks"
				}
				return ""
			})
		}
	}
	for n := 0; n <= 6; n++ {
		for l := 0; l <= n; l++ {
			for k := 0; k < 3; k++ {
				one(n, l)
			}
		}
	}
	// chunks longer than the splitting size
	for _, p := range [][2]int{{14, 1}, {13, 0}, {15, 2}} {
		n, l := p[0], p[1]
		w, q := cheap(t, 1<<uint(n)), t.Fulls(n)
		t.Case(fmt.Sprintf("EvaluateChunked n=%d chunks=%d q=%s", n, 1<<uint(l), hx.StrV(q)), func() string {
			x := hx.Copy(w)
			for _, r := range q {
				x = ref.Fold(x, r)
			}
			g := polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(ref.Chunk(w, 1<<uint(l))), q)
			if !hx.Eq(g, x[0]) {
				return "wrong value"
			}
			return ""
		})
	}
	for i := 0; t.More(); i++ {
		n := t.Rnd.Intn(9)
		one(n, t.Rnd.Intn(n+1))
	}
}

func c10(t *hx.T) {
	for n := 1; n <= 12; n++ {
		n := n
		t.Case(fmt.Sprintf("Lagrange polynomials of domain size %d", n), func() string {
			for _, L := range [][][]E{polynomial.GetLagrangePolynomial(n), polynomial.LagrangeCoefficient(n)} {
				if len(L) != n {
					return "wrong number of polynomials"
				}
				for i := range L {
					if len(L[i]) != n {
						return "wrong number of coefficients"
					}
					for j := 0; j < n; j++ {
						g := hx.PEval(L[i], hx.I(int64(j)))
						if i == j && !hx.Eq(g, hx.One()) || i != j && !g.IsZero() {
							return fmt.Sprintf("L_%d(%d) = %s", i, j, hx.Str(g))
						}
					}
				}
			}
			return ""
		})
	}
	one := func(n int) {
		v := t.Rands(n)
		x := t.Rand()
		t.Case(fmt.Sprintf("InterpolateOnRange %s", hx.StrV(v)), func() string {
			v0 := hx.Copy(v)
			c := polynomial.InterpolateOnRange(v)
			if len(c) != n {
				return fmt.Sprintf("%d coefficients", len(c))
			}
			for j := range v0 {
				if !hx.Eq(hx.PEval(c, hx.I(int64(j))), v0[j]) {
					return fmt.Sprintf("the interpolated polynomial has value %s at %d, want %s", hx.Str(hx.PEval(c, hx.I(int64(j)))), j, hx.Str(v0[j]))
				}
			}
			if !hx.EqV(v, v0) {
				return "the values changed"
			}
			c2 := polynomial.InterpolateOnRange(v)
			c2[0] = hx.Add(c2[0], hx.One())
			if !hx.EqV(polynomial.InterpolateOnRange(v), c) {
				return "a second interpolation of the same values differs"
			}
			return ""
		})
		t.Case(fmt.Sprintf("EvaluatePolynomial %s at %s", hx.StrV(v), hx.Str(x)), func() string {
			v0 := hx.Copy(v)
			if g, w := polynomial.EvaluatePolynomial(v, x), hx.PEval(v, x); !hx.Eq(g, w) {
				return fmt.Sprintf("EvaluatePolynomial = %s, want %s", hx.Str(g), hx.Str(w))
			}
			if !hx.EqV(v, v0) {
				return "the coefficients changed"
			}
			return ""
		})
	}
	for n := 1; n <= 12; n++ {
		for k := 0; k < 30; k++ {
			one(n)
		}
		for k := 0; k < n; k++ { // unit vectors: with linearity, these decide interpolation
			v := make([]E, n)
			v[k] = hx.One()
			t.Case(fmt.Sprintf("InterpolateOnRange unit %d of %d", k, n), func() string {
				c := polynomial.InterpolateOnRange(v)
				for j := 0; j < n; j++ {
					if !hx.Eq(hx.PEval(c, hx.I(int64(j))), v[j]) {
						return fmt.Sprintf("wrong value at %d", j)
					}
				}
				return ""
			})
		}
	}
	for n := 13; n <= 40; n++ {
		c, x := t.Rands(n), t.Rand()
		t.Case(fmt.Sprintf("EvaluatePolynomial %s at %s", hx.StrV(c), hx.Str(x)), func() string {
			if !hx.Eq(polynomial.EvaluatePolynomial(c, x), hx.PEval(c, x)) {
				return "wrong value"
			}
			return ""
		})
	}
}

func main() {
	hx.Main(map[string]func(*hx.T){"C07": c07, "C08": c08, "C09": c09, "C10": c10})
}
