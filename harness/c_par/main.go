package main

import (
	"fmt"
	"runtime"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/polynomial"

	"verifharness/hx"
	"verifharness/ref"
)

type E = ref.E

// leak tells whether workers are left behind once a call has returned
func leak(before int) string {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= before {
			return ""
		}
		time.Sleep(2 * time.Millisecond)
	}
	return fmt.Sprintf("%d workers are left behind", runtime.NumGoroutine()-before)
}

func ranges(t *hx.T, nCore, n int) {
	t.Case(fmt.Sprintf("IntoChunkRanges(%d,%d)", nCore, n), func() string {
		rs := common.IntoChunkRanges(nCore, n)
		at := 0
		for i, r := range rs {
			if r.Begin != at || r.End <= r.Begin || r.End > n {
				return fmt.Sprintf("range %d of %v is not the consecutive non-empty one", i, rs)
			}
			at = r.End
		}
		if at != n {
			return fmt.Sprintf("%v covers up to %d only", rs, at)
		}
		return ""
	})
}

// slow is a gate that yields, to vary the schedules
type slow struct{ circuit.Gate }

func (s slow) Eval(res, l, r *E) {
	switch l[0] % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(l[0]%211) * time.Microsecond)
	}
	s.Gate.Eval(res, l, r)
}

func cheap(t *hx.T, n int) []E {
	// distinct cheap values: the tables are long
	r := make([]E, n)
	x, d := t.Full(), t.Full()
	for i := range r {
		r[i] = x
		x.Add(&x, &d)
	}
	return r
}

func tables(t *hx.T, n, nCore int) {
	for _, op := range []string{"Sub", "Mul"} {
		op := op
		for _, dst := range []string{"nil", "larger", "left"} {
			dst := dst
			l, r := cheap(t, n), cheap(t, n)
			lam := t.Rand()
			t.Case(fmt.Sprintf("%s length=%d nCore=%d destination=%s first=%s %s", op, n, nCore, dst, hx.StrV(l[:hmin(n, 1)]), hx.StrV(r[:hmin(n, 1)])), func() string {
				before := runtime.NumGoroutine()
				L, R := hx.Copy(l), hx.Copy(r)
				var b polynomial.BookKeepingTable
				switch dst {
				case "larger":
					b.Table = cheap(t, n+3)
				case "left":
					b.Table = L
				}
				if op == "Sub" {
					b.Sub(polynomial.NewBookKeepingTable(L), polynomial.NewBookKeepingTable(R), nCore)
				} else {
					b.Mul(lam, polynomial.NewBookKeepingTable(L), nCore)
				}
				// at once: every worker must have finished
				if len(b.Table) != n {
					return fmt.Sprintf("length %d", len(b.Table))
				}
				for i := range l {
					var x E
					if op == "Sub" {
						x = hx.Sub(l[i], r[i])
					} else {
						x = hx.Mul(l[i], lam)
					}
					if !hx.Eq(b.Table[i], x) {
						return fmt.Sprintf("entry %d is %s, want %s", i, hx.Str(b.Table[i]), hx.Str(x))
					}
				}
				if !hx.EqV(R, r) || dst != "left" && !hx.EqV(L, l) {
					return "an operand changed"
				}
				return leak(before)
			})
		}
	}
}

func hmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func layer(t *hx.T) {
	l := ref.RandLayer(t.Rnd, t.Rnd.Intn(3), t.Rnd.Intn(3), 1+t.Rnd.Intn(6), t.Rands(2))
	bg, bo := ref.BG(l)
	_ = bo
	chunks := 1 << uint(t.Rnd.Intn(6))
	nCore := 1 + t.Rnd.Intn(9)
	in := make([][]E, chunks)
	N := 1 << uint(t.Rnd.Intn(3))
	for i := range in {
		in[i] = t.Rands(N << uint(bg))
	}
	t.Case(fmt.Sprintf("Layer.Evaluate wires=%v chunks=%d nCore=%d inputs=%s", l, chunks, nCore, hx.StrV2(in)), func() string {
		before := runtime.NumGoroutine()
		ws := ref.WiresOf(l)
		for i := range ws {
			ws[i].Gate = slow{ws[i].Gate}
		}
		y := circuit.NewLayer(ws)
		got := y.Evaluate(in, nCore)
		for i := range in {
			if w := ref.EvalLayer(l, in[i]); !hx.EqV(got[i], w) {
				return fmt.Sprintf("chunk %d is %s, want %s", i, hx.StrV(got[i]), hx.StrV(w))
			}
		}
		return leak(before)
	})
	t.Case(fmt.Sprintf("LayerAsBKTWithCopy chunks=%d nCore=%d values=%s", chunks, nCore, hx.StrV2(in)), func() string {
		before := runtime.NumGoroutine()
		a := circuit.Assignment{Values: [][][]E{nil, in}}
		in0 := hx.Copy2(in)
		c := a.LayerAsBKTWithCopy(1, nCore)
		if len(c) != len(in) {
			return fmt.Sprintf("%d tables", len(c))
		}
		for i := range c {
			if !hx.EqV(c[i].Table, in0[i]) {
				return fmt.Sprintf("table %d is %s, want %s", i, hx.StrV(c[i].Table), hx.StrV(in0[i]))
			}
			for j := range c[i].Table {
				c[i].Table[j] = hx.I(77)
			}
		}
		if !hx.EqV2(in, in0) {
			return "writing the copies changes the assignment"
		}
		return leak(before)
	})
}

func eqTable(t *hx.T) {
	n := t.Rnd.Intn(7)
	q := t.Rands(n)
	lc := t.Rnd.Intn(n + 1)
	nCore := 1 + t.Rnd.Intn(9)
	t.Case(fmt.Sprintf("GetChunkedEqTable q=%s chunks=%d nCore=%d", hx.StrV(q), 1<<uint(lc), nCore), func() string {
		before := runtime.NumGoroutine()
		c := polynomial.GetChunkedEqTable(q, 1<<uint(lc), nCore)
		for i := 0; i < 1<<uint(n); i++ {
			if x := hx.EqW(q, i); !hx.Eq(c[i%(1<<uint(lc))].Table[i>>uint(lc)], x) {
				return fmt.Sprintf("entry %d is wrong", i)
			}
		}
		return leak(before)
	})
}

func sem(t *hx.T, n int) {
	t.Case(fmt.Sprintf("semaphore of %d", n), func() string {
		before := runtime.NumGoroutine()
		s := common.NewSemaphore(n)
		for i := 0; i < n; i++ {
			s.Acquire()
		}
		got := make(chan bool, 1)
		go func() { s.Acquire(); got <- true }()
		select {
		case <-got:
			return fmt.Sprintf("more than %d workers acquired it", n)
		case <-time.After(3 * time.Millisecond):
		}
		for i := 0; i < n; i++ {
			s.Release()
		}
		<-got
		s.Release()
		s.Close()
		return leak(before)
	})
}

func c21(t *hx.T) {
	for nCore := 1; nCore <= 20; nCore++ {
		for n := 0; n <= 60; n++ {
			ranges(t, nCore, n)
		}
		for k := 1; k <= 12; k++ {
			for d := -2; d <= 2; d++ {
				ranges(t, nCore, k*common.MinChunkSize+d)
			}
			ranges(t, nCore, k*nCore*common.MinChunkSize+k%3-1)
			ranges(t, nCore, k*nCore*common.MinChunkSize+k*k)
		}
	}
	for i := 0; i < 500; i++ {
		ranges(t, 1+t.Rnd.Intn(300), t.Rnd.Intn(1<<uint(1+t.Rnd.Intn(28))))
	}
	for n := 1; n <= 9; n++ {
		sem(t, n)
	}
	m := common.MinChunkSize
	for _, n := range []int{0, 1, 2, 5, m - 1, m, m + 1, 2 * m, 2*m + 1, 3*m + 1} {
		for _, nCore := range []int{1, 2, 3, 8} {
			tables(t, n, nCore)
		}
	}
	for i := 0; i < 20 || t.More(); i++ {
		layer(t)
		eqTable(t)
		if i%8 == 0 {
			tables(t, t.Rnd.Intn(4*m), 1+t.Rnd.Intn(9))
		}
	}
}

func main() { hx.Main(map[string]func(*hx.T){"C21": c21}) }
