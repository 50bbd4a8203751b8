// Package gn evaluates gadgets: it compiles them and solves the constraint system.
package gn

import (
	"fmt"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
	"verifharness/hx"
)

// F maps inputs to outputs, in a constraint system
type F func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable

type circ struct {
	X, Y []frontend.Variable
	f    F
}

// Define asserts that the outputs of f are Y
func (c *circ) Define(id gurvy.ID, cs *frontend.ConstraintSystem) error {
	y := c.f(cs, c.X)
	if len(y) != len(c.Y) {
		return fmt.Errorf("the gadget returned %d variables, want %d", len(y), len(c.Y))
	}
	for i := range y {
		cs.AssertIsEqual(c.Y[i], y[i])
	}
	return nil
}

// C is a compiled gadget
type C struct {
	nx, ny int
	r      r1cs.R1CS
}

// Compile compiles a gadget with nx inputs and ny outputs
func Compile(nx, ny int, f F) (c *C, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while compiling: %v", r)
		}
	}()
	r, err := frontend.Compile(gurvy.BN256, &circ{make([]frontend.Variable, nx), make([]frontend.Variable, ny), f})
	if err != nil {
		return nil, err
	}
	return &C{nx, ny, r}, nil
}

// Sat tells whether the assertions hold on inputs x and outputs y
func (c *C) Sat(x, y []fr.Element) (bool, error) {
	if len(x) != c.nx || len(y) != c.ny {
		return false, fmt.Errorf("sizes")
	}
	m := map[string]interface{}{}
	w := circ{make([]frontend.Variable, c.nx), make([]frontend.Variable, c.ny), nil}
	for i := range x {
		w.X[i].Assign(x[i])
	}
	for i := range y {
		w.Y[i].Assign(y[i])
	}
	m, err := frontend.ParseWitness(&w)
	if err != nil {
		return false, err
	}
	err = c.r.IsSolved(m)
	return err == nil, nil
}

// Values checks that the gadget's outputs at x are y, and that no other y is accepted in any coordinate
func (c *C) Values(x, y []fr.Element) string {
	ok, err := c.Sat(x, y)
	if err != nil {
		return err.Error()
	}
	if !ok {
		return "the gadget's outputs are not " + hx.StrV(y)
	}
	for i := range y {
		if i > 3 && i < len(y)-1 {
			continue
		}
		z := hx.Copy(y)
		z[i] = hx.Add(z[i], hx.One())
		if ok, _ := c.Sat(x, z); ok {
			return fmt.Sprintf("the gadget also accepts output %d = %s", i, hx.Str(z[i]))
		}
	}
	return ""
}
