package main

import (
	"fmt"

	"gkr-mimc/common"
	"gkr-mimc/hash"

	"verifharness/hx"
	"verifharness/ref"
)

type E = ref.E

func c14(t *hx.T) {
	t.Case("round constants", func() string {
		if len(hash.Arks) < ref.Rounds || hash.MimcRounds != ref.Rounds {
			return "wrong number of rounds or constants"
		}
		for i := 0; i < ref.Rounds; i++ {
			if !hx.Eq(hash.Arks[i], ref.Arks[i]) {
				return fmt.Sprintf("round constant %d is %s, want %s", i, hx.Str(hash.Arks[i]), hx.Str(ref.Arks[i]))
			}
		}
		return ""
	})
	one := func(n int) {
		m := t.Rands(n)
		t.Case(fmt.Sprintf("MimcHash %s", hx.StrV(m)), func() string {
			m0 := hx.Copy(m)
			w := ref.Mimc(m0)
			for k := 0; k < 2; k++ {
				if g := hash.MimcHash(m); !hx.Eq(g, w) {
					return fmt.Sprintf("MimcHash = %s, want %s", hx.Str(g), hx.Str(w))
				}
			}
			if g := common.GetChallenge(m); !hx.Eq(g, w) {
				return "GetChallenge is not the hash"
			}
			if !hx.EqV(m, m0) {
				return "the message changed"
			}
			return ""
		})
		x, k := t.Rand(), t.Rand()
		t.Case(fmt.Sprintf("MimcPermutationInPlace/MimcUpdateInplace state=%s block=%s", hx.Str(x), hx.Str(k)), func() string {
			p, u := x, x
			hash.MimcPermutationInPlace(&p, k)
			w := ref.MimcPerm(x, k)
			if !hx.Eq(p, w) {
				return fmt.Sprintf("permutation = %s, want %s", hx.Str(p), hx.Str(w))
			}
			hash.MimcUpdateInplace(&u, k)
			if w = hx.Add(hx.Add(w, x), k); !hx.Eq(u, w) {
				return fmt.Sprintf("update = %s, want %s", hx.Str(u), hx.Str(w))
			}
			s := x
			hash.SBoxInplace(&s)
			if !hx.Eq(s, hx.Pow(x, 7)) {
				return "the S-box is not x^7"
			}
			return ""
		})
	}
	for n := 0; n <= 40; n++ {
		one(n)
		one(n)
	}
	for t.More() {
		one(t.Rnd.Intn(60))
	}
}

func mat(t int) [][]E {
	r := make([][]E, t)
	for i := range r {
		for j := 0; j < t; j++ {
			r[i] = append(r[i], hx.Inv(hx.Add(ref.XArr[i], ref.YArr[j])))
		}
	}
	return r
}

func poseidon(width, rf, rp int, msg []E) E {
	m := mat(width)
	st := make([]E, width)
	for i := 0; i < len(msg); i += width {
		blk := make([]E, width)
		copy(blk, msg[i:])
		s := hx.Copy(st)
		for r := 0; r < 2*rf+rp; r++ {
			for j := range s {
				s[j] = hx.Add(hx.Add(s[j], blk[j]), ref.Arks[r])
			}
			for j := range s {
				if j == 0 || r < rf || r >= rf+rp {
					s[j] = hx.Pow(s[j], 7)
				}
			}
			n := make([]E, width)
			for a := range n {
				for b := range s {
					n[a] = hx.Add(n[a], hx.Mul(m[a][b], s[b]))
				}
			}
			s = n
		}
		for j := range st {
			st[j] = hx.Add(hx.Add(s[j], st[j]), blk[j])
		}
	}
	return st[0]
}

func gmimc(width int, msg []E) E {
	st := make([]E, width)
	for i := 0; i < len(msg); i += width {
		blk := make([]E, width)
		copy(blk, msg[i:])
		s := hx.Copy(st)
		for r := 0; r < 91; r++ {
			for j := range s {
				s[j] = hx.Add(hx.Add(s[j], blk[j]), ref.Arks[r])
			}
			s[0] = hx.Pow(s[0], 7)
			s = append(append([]E{}, s[1:]...), s[0])
		}
		for j := range st {
			st[j] = hx.Add(hx.Add(s[j], st[j]), blk[j])
		}
	}
	return st[0]
}

func c15(t *hx.T) {
	ps := []*hash.PoseidonHasher{&hash.PoseidonT2, &hash.PoseidonT4, &hash.PoseidonT8}
	gs := []*hash.GMimcHasher{&hash.GMimcT2, &hash.GMimcT4, &hash.GMimcT8}
	par := [][3]int{{2, 8, 82}, {4, 8, 83}, {8, 8, 84}}
	one := func(k, n int) {
		m := t.Rands(n)
		w := par[k][0]
		t.Case(fmt.Sprintf("Poseidon/GMiMC width %d message %s", w, hx.StrV(m)), func() string {
			m0 := hx.Copy(m)
			for i := 0; i < 2; i++ {
				if g, x := ps[k].Hash(m), poseidon(w, par[k][1], par[k][2], m0); !hx.Eq(g, x) {
					return fmt.Sprintf("Poseidon = %s, want %s", hx.Str(g), hx.Str(x))
				}
				if g, x := gs[k].Hash(m), gmimc(w, m0); !hx.Eq(g, x) {
					return fmt.Sprintf("GMiMC = %s, want %s", hx.Str(g), hx.Str(x))
				}
			}
			if !hx.EqV(m, m0) {
				return "the message changed"
			}
			return ""
		})
	}
	for _, w := range []int{1, 2, 3, 4, 5, 8, 12} {
		w := w
		t.Case(fmt.Sprintf("GenerateMDSMatrix(%d)", w), func() string {
			g := hash.GenerateMDSMatrix(w)
			if !hx.EqV2(g, mat(w)) {
				return "not the Cauchy matrix of the published points"
			}
			// every square minor is invertible as the x are distinct, the y are distinct and no sum vanishes
			for i := 0; i < w; i++ {
				for j := 0; j < w; j++ {
					if !hx.Eq(hx.Mul(g[i][j], hx.Add(ref.XArr[i], ref.YArr[j])), hx.One()) {
						return "a sum of points vanishes"
					}
					if i != j && (hx.Eq(ref.XArr[i], ref.XArr[j]) || hx.Eq(ref.YArr[i], ref.YArr[j])) {
						return "points repeat"
					}
				}
			}
			return ""
		})
	}
	mm := func(k, n int) {
		M := make([][]E, k)
		for i := range M {
			M[i] = t.Rands(n)
		}
		v := t.Rands(n)
		t.Case(fmt.Sprintf("MatrixMultiplication %s %s", hx.StrV2(M), hx.StrV(v)), func() string {
			v0 := hx.Copy(v)
			r := hash.MatrixMultiplication(M, v)
			if len(r) != k {
				return "wrong length"
			}
			for i := range r {
				s := hx.Zero()
				for j := range v0 {
					s = hx.Add(s, hx.Mul(M[i][j], v0[j]))
				}
				if !hx.Eq(r[i], s) {
					return fmt.Sprintf("entry %d is %s, want %s", i, hx.Str(r[i]), hx.Str(s))
				}
			}
			if !hx.EqV(v, v0) {
				return "the vector changed"
			}
			return ""
		})
		s := t.Rands(n)
		t.Case(fmt.Sprintf("InPlaceCircularPermutation %s", hx.StrV(s)), func() string {
			x := hx.Copy(s)
			hash.InPlaceCircularPermutation(x)
			for i := range x {
				if !hx.Eq(x[i], s[(i+1)%n]) {
					return fmt.Sprintf("entry %d is wrong", i)
				}
			}
			return ""
		})
	}
	for k := 0; k <= 8; k++ {
		for n := 0; n <= 8; n++ {
			mm(k, n)
		}
	}
	for k := range par {
		for n := 0; n <= 3*par[k][0]+1; n++ {
			one(k, n)
		}
	}
	for t.More() {
		k := t.Rnd.Intn(3)
		one(k, t.Rnd.Intn(5*par[k][0]))
	}
}

func main() {
	hx.Main(map[string]func(*hx.T){"C14": c14, "C15": c15})
}
