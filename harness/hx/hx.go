// Package hx runs contracts on the real code for concrete inputs.
package hx

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/bits"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
)

// T is the state of one run
type T struct {
	Prop     string
	Thorough bool
	Rnd      *rand.Rand
	Deadline time.Time
	evals    int
	distinct map[uint64]bool
	samples  []string
}

type out struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Samples     []string `json:"samples"`
	Fail        string   `json:"fail,omitempty"`
	Input       string   `json:"input,omitempty"`
}

func (t *T) finish(fail, input string) {
	o := out{t.evals, len(t.distinct), t.samples, fail, input}
	b, _ := json.Marshal(o)
	os.Stdout.WriteString("\nHX:" + string(b) + "\n")
	if fail != "" {
		os.Exit(1)
	}
	os.Exit(0)
}

// More tells whether there is time left
func (t *T) More() bool { return time.Now().Before(t.Deadline) }

// CaseTimeout bounds a single case
var CaseTimeout = 60 * time.Second

// Case runs one contract on one input. f returns "" when the contract holds.
func (t *T) Case(input string, g func() string) {
	t.evals++
	key := input
	if len(key) > 300 {
		key = key[:300]
	}
	f := fnv.New64a()
	f.Write([]byte(input))
	t.distinct[f.Sum64()] = true
	if len(t.samples) < 3 || (len(t.samples) < 6 && t.evals%97 == 0) {
		t.samples = append(t.samples, key)
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		done <- g()
	}()
	select {
	case s := <-done:
		if s != "" {
			t.finish(s, input)
		}
	case <-time.After(CaseTimeout):
		t.finish("the call did not return within "+CaseTimeout.String(), input)
	}
}

// Main runs the property named in the arguments: PROP SEED TIER SECONDS
func Main(m map[string]func(*T)) {
	f, ok := m[os.Args[1]]
	if !ok {
		fmt.Println("no such property")
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	secs, _ := strconv.Atoi(os.Args[4])
	t := &T{Prop: os.Args[1], Thorough: os.Args[3] == "thorough", Rnd: rand.New(rand.NewSource(seed)),
		Deadline: time.Now().Add(time.Duration(secs) * time.Second), distinct: map[uint64]bool{}}
	f(t)
	t.finish("", "")
}

// Modulus is the order of the field
var Modulus = fr.Modulus()

// Big gives the value of an element
func Big(x fr.Element) *big.Int { r := new(big.Int); x.ToBigIntRegular(r); return r }

// El gives the element of a value
func El(x *big.Int) fr.Element {
	var r fr.Element
	r.SetBigInt(new(big.Int).Mod(x, Modulus))
	return r
}

// I gives the element of a small value
func I(x int64) fr.Element { return El(big.NewInt(x)) }

// Rand is a random element; small and special values come up often
func (t *T) Rand() fr.Element {
	switch t.Rnd.Intn(8) {
	case 0:
		return I(int64(t.Rnd.Intn(3)) - 1)
	case 1:
		return I(int64(t.Rnd.Intn(100)) - 50)
	}
	return El(new(big.Int).Rand(t.Rnd, Modulus))
}

// Full is a random element without special values
func (t *T) Full() fr.Element { return El(new(big.Int).Rand(t.Rnd, Modulus)) }

// Rands is a vector of random elements
func (t *T) Rands(n int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = t.Rand()
	}
	if n > 1 && t.Rnd.Intn(4) == 0 {
		t.pattern(r)
	}
	return r
}

// pattern gives a vector a structure that independent random elements hardly ever have
func (t *T) pattern(r []fr.Element) {
	n := len(r)
	h := 1 << uint(t.Rnd.Intn(bits.Len(uint(n-1)))) // a block size below n
	switch t.Rnd.Intn(7) {
	case 0: // nothing
		for i := range r {
			r[i] = fr.Element{}
		}
	case 1: // constant
		for i := range r {
			r[i] = r[0]
		}
	case 2: // the same block again and again
		for i := h; i < n; i++ {
			r[i] = r[i-h]
		}
	case 3: // opposite blocks
		for i := h; i < n; i++ {
			r[i].Neg(&r[i-h])
		}
	case 4: // constant blocks
		for i := range r {
			r[i] = r[i-i%h]
		}
	case 5: // one element only
		k := t.Rnd.Intn(n)
		for i := range r {
			if i != k {
				r[i] = fr.Element{}
			}
		}
	case 6: // a block of zeroes in each period
		for i := range r {
			if (i/h)%2 == 1 {
				r[i] = fr.Element{}
			}
		}
	}
}

// Fulls is a vector of random elements without special values
func (t *T) Fulls(n int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = t.Full()
	}
	return r
}

// Add, Sub, Mul, Neg, Inv, Pow on values
func Add(a, b fr.Element) (r fr.Element) { r.Add(&a, &b); return }
func Sub(a, b fr.Element) (r fr.Element) { r.Sub(&a, &b); return }
func Mul(a, b fr.Element) (r fr.Element) { r.Mul(&a, &b); return }
func Inv(a fr.Element) (r fr.Element)    { r.Inverse(&a); return }
func Pow(a fr.Element, n int) fr.Element {
	r := One()
	for i := 0; i < n; i++ {
		r = Mul(r, a)
	}
	return r
}
func One() (r fr.Element)              { r.SetOne(); return }
func Zero() (r fr.Element)             { return }
func Eq(a, b fr.Element) bool          { return a.Equal(&b) }
func Copy(a []fr.Element) []fr.Element { return append([]fr.Element(nil), a...) }

// EqV compares vectors
func EqV(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

// Str prints an element
func Str(a fr.Element) string { return Big(a).String() }

// StrV prints a vector
func StrV(a []fr.Element) string {
	s := "["
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		if i >= 40 {
			s += "..."
			break
		}
		s += Str(x)
	}
	return s + "]"
}

// Copy2 copies a matrix
func Copy2(a [][]fr.Element) [][]fr.Element {
	r := make([][]fr.Element, len(a))
	for i := range a {
		r[i] = Copy(a[i])
	}
	return r
}

// EqV2 compares matrices
func EqV2(a, b [][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !EqV(a[i], b[i]) {
			return false
		}
	}
	return true
}

// StrV2 prints a matrix
func StrV2(a [][]fr.Element) string {
	s := "["
	for i, x := range a {
		if i >= 12 {
			s += "..."
			break
		}
		s += StrV(x) + " "
	}
	return s + "]"
}

// EqW is the equality weight of an index at a point: product of q or 1-q by the bits of x, most significant first
func EqW(q []fr.Element, x int) fr.Element {
	r := One()
	n := len(q)
	for i := range q {
		if x>>uint(n-1-i)&1 == 1 {
			r = Mul(r, q[i])
		} else {
			r = Mul(r, Sub(One(), q[i]))
		}
	}
	return r
}

// MLE is the multilinear extension of a table at a point
func MLE(t []fr.Element, q []fr.Element) fr.Element {
	r := Zero()
	for x := range t {
		r = Add(r, Mul(t[x], EqW(q, x)))
	}
	return r
}

// PEval evaluates a polynomial by its coefficients
func PEval(c []fr.Element, x fr.Element) fr.Element {
	r := Zero()
	p := One()
	for i := range c {
		r = Add(r, Mul(c[i], p))
		p = Mul(p, x)
	}
	return r
}
