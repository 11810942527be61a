package chk

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

func contractModel(target *ssa.Function, f func(st *vg.State, args []vg.Value) vg.Value) vg.Model {
	return func(it *vg.Interp, st *vg.State, call ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
		if fn == nil || fn != target {
			return nil, false
		}
		return f(st, args), true
	}
}

// errModel: error constructors return a fresh non-nil error (established for
// errorsWithData by the E properties); their wrappers map nil to nil.
func errModel(it *vg.Interp, st *vg.State, call ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	if fn == nil {
		return nil, false
	}
	o := fn
	if g := fn.Origin(); g != nil {
		o = g
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	name := o.Name()
	rs := fn.Signature.Results()
	if rs.Len() != 1 {
		return nil, false
	}
	t := rs.At(0).Type()
	site := "error"
	if call != nil {
		site = it.Prog.Fset.Position(call.Pos()).String()
	}
	wrap := func(base vg.Value) vg.Value {
		var al []vg.ChoiceAlt
		for _, b := range errChains(it, base) {
			al = append(al, vg.ChoiceAlt{C: b.C, V: vg.IfaceV{T: t, V: vg.OpaqueV{Why: "error " + site + b.chain}}})
		}
		return it.Merge(al)
	}
	if it.ErrData != nil && strings.HasSuffix(pkg, "/errorsWithData") && strings.HasSuffix(name, "_struct") {
		for _, a := range args {
			if p, ok := it.Force(a).(vg.PtrV); ok {
				it.ErrData[site] = append(it.ErrData[site], vg.ChoiceAlt{C: it.PathCond(), V: it.Load(st, p)})
			}
		}
	}
	switch {
	case strings.HasSuffix(pkg, "/errorsWithData") && strings.HasPrefix(name, "NewErrorWithData"):
		return wrap(args[0]), true
	case pkg == "errors" && name == "New", pkg == "fmt" && name == "Errorf":
		return wrap(vg.NilV{}), true
	case strings.HasSuffix(pkg, "/errorsWithData") && strings.HasPrefix(name, "AddDataToError"):
		b, ok := it.NilCond(args[0])
		if !ok {
			return nil, false
		}
		return it.Merge([]vg.ChoiceAlt{{C: b, V: vg.NilV{}}, {C: it.C.Not(b), V: wrap(args[0])}}), true
	}
	return nil, false
}

type errAlt struct {
	C     alg.Bdd
	chain string
}

// errChains lists the chains of wrapped errors of an error value.
func errChains(it *vg.Interp, v vg.Value) (out []errAlt) {
	v = it.Force(v)
	switch x := v.(type) {
	case *vg.ChoiceV:
		for _, a := range x.A {
			for _, b := range errChains(it, a.V) {
				out = append(out, errAlt{it.C.And(a.C, b.C), b.chain})
			}
		}
		return
	case vg.IfaceV:
		if o, ok := it.Force(x.V).(vg.OpaqueV); ok && strings.HasPrefix(o.Why, "error ") {
			return []errAlt{{alg.True, " < " + o.Why}}
		}
		return []errAlt{{alg.True, " < unknown error"}}
	}
	return []errAlt{{alg.True, ""}}
}

// IsErr is the condition under which an error wraps the error in a package variable.
func (e *Env) IsErr(v vg.Value, pkg, name string) alg.Bdd {
	g := e.R.P.Global(pkg, name)
	if g == nil {
		panic(vg.Undecided{Msg: "variable " + pkg + "." + name + " not found"})
	}
	w := errChains(e.It, e.It.Load(e.St, vg.PtrV{O: e.It.GlobalObj(g)}))
	if len(w) != 1 || !strings.HasPrefix(w[0].chain, " < error ") {
		panic(vg.Undecided{Msg: "value of " + pkg + "." + name + " unknown"})
	}
	return e.isErr(v, w[0].chain)
}

// isErr is the condition for error v to have the head of a chain among the errors it wraps.
func (e *Env) isErr(v vg.Value, chain string) alg.Bdd {
	id := strings.TrimPrefix(strings.SplitN(chain[3:], " < ", 2)[0], "error ")
	acc := alg.False
	for _, a := range errChains(e.It, v) {
		for _, p := range strings.Split(a.chain, " < ") {
			if strings.TrimPrefix(p, "error ") == id {
				acc = e.C.Or(acc, a.C)
			}
		}
	}
	return acc
}
