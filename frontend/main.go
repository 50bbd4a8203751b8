// gossa loads the packages of a module and writes their SSA form (golang.org/x/tools/go/ssa) as JSON.
// It is the mechanical extraction step of the verifier: nothing is written by hand between the
// compiler front end's view of the source and the condition generator.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeList []M
	fset     *token.FileSet
	root     string
)

func tstr(t types.Type) string { return types.TypeString(t, func(p *types.Package) string { return p.Path() }) }

func typ(t types.Type) int {
	t = types.Unalias(t)
	key := tstr(t)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	typeList = append(typeList, nil)
	m := M{"s": key}
	switch u := t.(type) {
	case *types.Named:
		m["k"] = "named"
		if u.Obj().Pkg() != nil {
			m["pkg"] = u.Obj().Pkg().Path()
		}
		m["name"] = u.Obj().Name()
		m["u"] = typ(u.Underlying())
	case *types.Basic:
		m["k"] = "basic"
		m["n"] = u.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typ(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typ(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = typ(u.Elem())
		m["n"] = u.Len()
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, M{"n": u.Field(i).Name(), "t": typ(u.Field(i).Type())})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		m["m"] = u.NumMethods()
	case *types.Map:
		m["k"] = "map"
		m["key"] = typ(u.Key())
		m["e"] = typ(u.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = typ(u.Elem())
	case *types.Signature:
		m["k"] = "func"
		r := []int{}
		for i := 0; i < u.Results().Len(); i++ {
			r = append(r, typ(u.Results().At(i).Type()))
		}
		m["res"] = r
	case *types.Tuple:
		m["k"] = "tuple"
		r := []int{}
		for i := 0; i < u.Len(); i++ {
			r = append(r, typ(u.At(i).Type()))
		}
		m["e"] = r
	default:
		m["k"] = "other"
	}
	typeList[id] = m
	return id
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return strings.TrimPrefix(q.Filename, root+"/") + ":" + fmt.Sprint(q.Line)
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": typ(x.Type())}
		if x.Value == nil {
			m["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["v"] = constant.StringVal(x.Value)
			case constant.Int:
				m["i"] = x.Value.ExactString()
			default:
				m["i"] = x.Value.ExactString()
				m["float"] = true
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "global", "n": x.RelString(nil), "t": typ(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x), "t": typ(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return M{"k": "param", "i": i}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return M{"k": "free", "i": i}
			}
		}
	}
	return M{"k": "reg", "n": v.Name()}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["iface"] = typ(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	sig := c.Signature()
	m["variadic"] = sig.Variadic()
	r := []int{}
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, typ(sig.Results().At(i).Type()))
	}
	m["res"] = r
	return m
}

func instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["d"] = v.Name()
		m["t"] = typ(v.Type())
	}
	m["pos"] = pos(in.Pos())
	switch x := in.(type) {
	case *ssa.Alloc:
		m["o"] = "alloc"
		m["heap"] = x.Heap
		m["n"] = x.Comment
	case *ssa.BinOp:
		m["o"] = "bin"
		m["op"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
		m["xt"] = typ(x.X.Type())
	case *ssa.UnOp:
		m["o"] = "un"
		m["op"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.Call:
		m["o"] = "call"
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["o"] = "go"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["o"] = "defer"
		m["call"] = call(&x.Call)
	case *ssa.RunDefers:
		m["o"] = "rundefers"
	case *ssa.ChangeType:
		m["o"] = "changetype"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["o"] = "convert"
		m["x"] = val(x.X)
		m["xt"] = typ(x.X.Type())
	case *ssa.ChangeInterface:
		m["o"] = "changetype"
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["o"] = "makeiface"
		m["x"] = val(x.X)
		m["xt"] = typ(x.X.Type())
	case *ssa.MakeClosure:
		m["o"] = "closure"
		m["fn"] = fname(x.Fn.(*ssa.Function))
		m["b"] = vals(x.Bindings)
	case *ssa.MakeSlice:
		m["o"] = "makeslice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
	case *ssa.MakeMap:
		m["o"] = "makemap"
	case *ssa.MakeChan:
		m["o"] = "makechan"
		m["size"] = val(x.Size)
	case *ssa.Slice:
		m["o"] = "slice"
		m["x"] = val(x.X)
		m["xt"] = typ(x.X.Type())
		m["lo"] = val(x.Low)
		m["hi"] = val(x.High)
		m["max"] = val(x.Max)
	case *ssa.FieldAddr:
		m["o"] = "fieldaddr"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.Field:
		m["o"] = "field"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.IndexAddr:
		m["o"] = "indexaddr"
		m["x"] = val(x.X)
		m["xt"] = typ(x.X.Type())
		m["i"] = val(x.Index)
	case *ssa.Index:
		m["o"] = "index"
		m["x"] = val(x.X)
		m["xt"] = typ(x.X.Type())
		m["i"] = val(x.Index)
	case *ssa.Lookup:
		m["o"] = "lookup"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.MapUpdate:
		m["o"] = "mapupdate"
		m["x"] = val(x.Map)
		m["key"] = val(x.Key)
		m["v"] = val(x.Value)
	case *ssa.Phi:
		m["o"] = "phi"
		m["e"] = vals(x.Edges)
		m["n"] = x.Comment
	case *ssa.Range:
		m["o"] = "range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["o"] = "next"
		m["x"] = val(x.Iter)
		m["str"] = x.IsString
	case *ssa.TypeAssert:
		m["o"] = "typeassert"
		m["x"] = val(x.X)
		m["at"] = typ(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["o"] = "extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Store:
		m["o"] = "store"
		m["a"] = val(x.Addr)
		m["v"] = val(x.Val)
	case *ssa.Send:
		m["o"] = "send"
		m["c"] = val(x.Chan)
		m["v"] = val(x.X)
	case *ssa.Jump:
		m["o"] = "jump"
	case *ssa.If:
		m["o"] = "if"
		m["c"] = val(x.Cond)
	case *ssa.Return:
		m["o"] = "return"
		m["r"] = vals(x.Results)
	case *ssa.Panic:
		m["o"] = "panic"
		m["x"] = val(x.X)
	case *ssa.DebugRef:
		return nil
	default:
		m["o"] = fmt.Sprintf("unsupported:%T", in)
	}
	return m
}

func dump(f *ssa.Function) M {
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typ(p.Type())})
	}
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typ(p.Type())})
	}
	rs := []M{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, M{"n": res.At(i).Name(), "t": typ(res.At(i).Type())})
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			if j := instr(in); j != nil {
				is = append(is, j)
			}
		}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		bs = append(bs, M{"i": is, "pred": pr, "succ": su, "n": b.Comment})
	}
	m := M{"name": fname(f), "params": ps, "free": fv, "results": rs, "blocks": bs, "pos": pos(f.Pos()), "synthetic": f.Synthetic != ""}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	root = dir
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax, Dir: dir, Fset: fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ours := map[string]bool{}
	for _, p := range spkgs {
		if p != nil {
			ours[p.Pkg.Path()] = true
		}
	}
	fns := []*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil {
			continue
		}
		if f.Pkg != nil && !ours[f.Pkg.Pkg.Path()] {
			continue
		}
		if f.Pkg == nil {
			// wrappers: keep the ones of our own types
			keep := false
			for p := range ours {
				if strings.Contains(fname(f), p+".") {
					keep = true
				}
			}
			if !keep {
				continue
			}
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	fj := []M{}
	for _, f := range fns {
		fj = append(fj, dump(f))
	}
	// method sets, to resolve calls through interfaces
	ms := M{}
	for _, p := range spkgs {
		for _, mem := range p.Members {
			if t, ok := mem.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					set := prog.MethodSets.MethodSet(tt)
					mm := M{}
					for i := 0; i < set.Len(); i++ {
						if fn := prog.MethodValue(set.At(i)); fn != nil {
							mm[set.At(i).Obj().Name()] = fname(fn)
						}
					}
					if len(mm) > 0 {
						ms[tstr(tt)] = mm
					}
				}
			}
		}
	}
	gl := M{}
	for _, p := range spkgs {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				gl[g.RelString(nil)] = typ(g.Type())
			}
		}
	}
	res := M{"types": typeList, "funcs": fj, "methods": ms, "globals": gl}
	f, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	if err := enc.Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
