// Package vg builds gated value graphs: a forward, interprocedural,
// context-sensitive dataflow analysis over the SSA form in which every value
// is a polynomial over input atoms and every join is a gated phi.
package vg

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
)

// Value is an abstract value.
type Value any

// IntV is an integer; W==0 means unbounded (math/big).
type IntV struct {
	R      alg.Rng
	W      int
	Signed bool
}

// BoolV is a condition.
type BoolV struct{ B alg.Bdd }

// Obj is an abstract memory object.
type Obj struct {
	ID   int
	Name string
	T    types.Type
	Glob *ssa.Global
}

// PtrV points into an object.
type PtrV struct {
	O    *Obj
	Path string // sequence of 4-byte indices
}

// NilV is nil.
type NilV struct{}

// AggV is a struct or array value (immutable).
type AggV struct{ E []Value }

// SliceV is a slice with known extent.
type SliceV struct {
	Base          PtrV // pointer to the backing array
	Off, Len, Cap int
}

// StrV is a constant string.
type StrV struct{ S string }

// FuncV is a function value.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
}

// IfaceV is a non-nil interface value.
type IfaceV struct {
	T types.Type
	V Value
}

// TupleV is a multi-value.
type TupleV struct{ E []Value }

// OpaqueV is an unknown value.
type OpaqueV struct{ Why string }

// ChoiceV is a guarded union.
type ChoiceV struct {
	A []ChoiceAlt
}

// ChoiceAlt is one alternative of a ChoiceV.
type ChoiceAlt struct {
	C alg.Bdd
	V Value
}

// SymPtrV points to an element of an array at an index that is not constant.
type SymPtrV struct {
	O    *Obj
	Path string
	Idx  *IntV
}

// MapV is a map with constant integer keys; its content is an object.
type MapV struct{ O *Obj }

// MapC is the content of a map.
type MapC struct {
	K    []*big.Int
	V    []Value
	Zero Value
}

// LazyV is a not yet merged join of values.
type LazyV struct {
	A    []ChoiceAlt
	done Value
}

// DomV is implemented by domain specific leaf values.
type DomV interface {
	// MergeDom merges guarded alternatives of the same leaf kind.
	MergeDom(it *Interp, alts []ChoiceAlt) Value
	SameDom(o Value) bool
}

func pathPush(p string, i int) string {
	return p + string([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
}

func pathHead(p string) (int, string) {
	return int(p[0])<<24 | int(p[1])<<16 | int(p[2])<<8 | int(p[3]), p[4:]
}

// Undecided is raised for constructs the analysis cannot follow.
type Undecided struct{ Msg string }

func (u Undecided) Error() string { return u.Msg }

// KInt makes a constant integer value.
func KInt(v int64, w int, signed bool) *IntV {
	return &IntV{R: alg.KR(big.NewInt(v)), W: w, Signed: signed}
}

// ConstInt extracts a constant.
func ConstInt(v Value) (*big.Int, bool) {
	i, ok := v.(*IntV)
	if !ok || !i.R.P.IsConst() {
		return nil, false
	}
	return i.R.P.Const(), true
}

func same(a, b Value) bool {
	switch x := a.(type) {
	case *IntV:
		y, ok := b.(*IntV)
		return ok && (x == y || x.R.P.Equal(y.R.P))
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x == y
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x == y
	case NilV:
		_, ok := b.(NilV)
		return ok
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y
	case *AggV:
		y, ok := b.(*AggV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.E {
			if !same(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !same(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.T, y.T) && same(x.V, y.V)
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !same(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *LazyV:
		y, ok := b.(*LazyV)
		return ok && x == y
	case *ChoiceV:
		y, ok := b.(*ChoiceV)
		if !ok || len(x.A) != len(y.A) {
			return false
		}
		for i := range x.A {
			if x.A[i].C != y.A[i].C || !same(x.A[i].V, y.A[i].V) {
				return false
			}
		}
		return true
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ok && x == y
	case DomV:
		return x.SameDom(b)
	}
	return false
}

// Describe renders a value for reports.
func (it *Interp) Describe(v Value) string {
	switch x := v.(type) {
	case *IntV:
		return it.C.String(x.R.P)
	case BoolV:
		return it.C.BddString(x.B)
	case *AggV:
		s := "{"
		for i, e := range x.E {
			if i > 0 {
				s += ", "
			}
			s += it.Describe(e)
		}
		return s + "}"
	case *LazyV:
		return it.Describe(it.force(x))
	}
	return fmt.Sprintf("%T%v", v, v)
}
