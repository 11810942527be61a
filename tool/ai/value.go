// Package ai is a disjunctive abstract interpreter over the SSA form of generic and non-generic code.
//
// Shapes (which objects exist, which concrete types they have, which keys a map holds, how long a list is) are
// tracked exactly; payloads (strings, numbers, values of interface type) are opaque terms. A branch on an opaque term
// splits the abstract state on an atom (nil-ness, dynamic type, equality of two terms, presence of a key); the atoms
// taken are remembered, so that two occurrences of the same term agree. Nothing of the analysed program is executed.
package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value; values are immutable.
type Value any

// Const is a known constant.
type Const struct {
	V constant.Value
	T types.Type
}

// Sym is an opaque term.
type Sym struct {
	Key string
	T   types.Type
}

// Any is an unknown value; every use of it is independent. NonEmpty excludes "" for strings.
type Any struct {
	T        types.Type
	NonEmpty bool
}

// Nil is the nil of a pointer, slice, map, function or interface type.
type Nil struct{ T types.Type }

// Ptr points into an object.
type Ptr struct {
	O    int
	Path string
}

// Agg is a struct or array.
type Agg []Value

// Tuple is a multiple result.
type Tuple []Value

// Slice is a slice with known bounds.
type Slice struct {
	O             int
	Path          string
	Off, Len, Cap int
}

// Seq is the abstract input sequence (see Interp.Seq); only one exists per analysis.
type Seq struct{ Off int }

// Rel is an index relative to the number of elements taken from the sequence.
type Rel struct{ C int }

// SeqLen is the length of the sequence minus Off.
type SeqLen struct{ Off int }

// Map refers to a map object.
type Map struct{ O int }

// MapC is the content of a map object.
type MapC struct {
	K, V []Value
}

// Fn is a function value.
type Fn struct {
	F    *ssa.Function
	Bind []Value
	B    *ssa.Builtin
	Env  *Tenv
}

// Iface is a non-nil interface value of known dynamic type.
type Iface struct {
	T types.Type
	V Value
}

// Cat is a concatenation of strings (constants merged).
type Cat []Value

// Build is the content of a strings.Builder.
type Build struct{ C Cat }

// RT is a reflect.Type.
type RT struct{ T types.Type }

// RV is a reflect.Value: a location or a value.
type RV struct {
	P *Ptr
	V Value
	T types.Type
}

// Iter is an iterator over a map or string (object holding Agg{position, keys...}).
type Iter struct{ O int }

// PathPush extends a path.
func PathPush(p string, i int) string { return pathPush(p, i) }

func pathPush(p string, i int) string { return p + "." + strconv.Itoa(i) }

func pathSplit(p string) []int {
	var out []int
	for _, s := range strings.Split(p, ".") {
		if s != "" {
			n, _ := strconv.Atoi(s)
			out = append(out, n)
		}
	}
	return out
}

// TypeStr prints a type.
func TypeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// KInt is an integer constant.
func KInt(n int64, t types.Type) Const {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return Const{constant.MakeInt64(n), t}
}

// KStr is a string constant.
func KStr(s string) Const { return Const{constant.MakeString(s), types.Typ[types.String]} }

// KBool is a boolean constant.
func KBool(b bool) Const { return Const{constant.MakeBool(b), types.Typ[types.Bool]} }

// IntOf reads an integer constant.
func IntOf(v Value) (int, bool) {
	c, ok := v.(Const)
	if !ok || c.V == nil || c.V.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.V)
	return int(n), ok
}

// StrOf reads a string constant.
func StrOf(v Value) (string, bool) {
	switch x := v.(type) {
	case Const:
		if x.V != nil && x.V.Kind() == constant.String {
			return constant.StringVal(x.V), true
		}
	case Cat:
		if len(x) == 0 {
			return "", true
		}
		if len(x) == 1 {
			return StrOf(x[0])
		}
	}
	return "", false
}

// MkCat concatenates strings.
func MkCat(vs ...Value) Value {
	var out Cat
	var add func(v Value)
	add = func(v Value) {
		switch x := v.(type) {
		case Cat:
			for _, y := range x {
				add(y)
			}
			return
		case Const:
			s := constant.StringVal(x.V)
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].(Const); ok {
					out[n-1] = KStr(constant.StringVal(p.V) + s)
					return
				}
			}
			out = append(out, KStr(s))
			return
		}
		out = append(out, v)
	}
	for _, v := range vs {
		add(v)
	}
	if len(out) == 0 {
		return KStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// Key prints a value as a term (heap references are printed with their contents).
func (st *State) Key(v Value) string { return st.key(v, 0) }

func (st *State) key(v Value, d int) string {
	if d > 12 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "<unset>"
	case Const:
		if x.V == nil {
			return "zero"
		}
		return x.V.ExactString()
	case Sym:
		return x.Key
	case Any:
		return "any"
	case Nil:
		return "nil"
	case Ptr:
		o := st.objs[x.O]
		if b, ok := o.(Build); ok && x.Path == "" {
			_ = b
			return fmt.Sprintf("&builder%d", x.O)
		}
		if o == nil {
			return fmt.Sprintf("&%d%s", x.O, x.Path)
		}
		return "&" + st.key(sub(o, x.Path), d+1)
	case Agg:
		return "{" + st.keys(x, d) + "}"
	case Tuple:
		return "(" + st.keys(x, d) + ")"
	case Slice:
		var es []Value
		for i := 0; i < x.Len; i++ {
			es = append(es, sub(st.objs[x.O], pathPush(x.Path, x.Off+i)))
		}
		return "[" + st.keys(es, d) + "]"
	case Map:
		c := st.objs[x.O].(*MapC)
		var es []string
		for i := range c.K {
			es = append(es, st.key(c.K[i], d+1)+":"+st.key(c.V[i], d+1))
		}
		sort.Strings(es)
		return "map[" + strings.Join(es, ",") + "]"
	case Fn:
		if x.F == nil {
			return "func"
		}
		return "func " + x.F.Name()
	case Iface:
		return TypeStr(x.T) + "(" + st.key(x.V, d+1) + ")"
	case Cat:
		var es []string
		for _, e := range x {
			es = append(es, st.key(e, d+1))
		}
		return strings.Join(es, "+")
	case Build:
		return "builder{" + st.key(x.C, d+1) + "}"
	case RT:
		return "type " + TypeStr(x.T)
	case RV:
		if x.P != nil {
			return "reflect(" + st.key(*x.P, d+1) + ")"
		}
		return "reflect(" + st.key(x.V, d+1) + ")"
	}
	return fmt.Sprintf("%v", v)
}

func (st *State) keys(vs []Value, d int) string {
	var es []string
	for _, e := range vs {
		es = append(es, st.key(e, d+1))
	}
	return strings.Join(es, ",")
}

func sub(v Value, path string) Value {
	for _, i := range pathSplit(path) {
		a, ok := v.(Agg)
		if !ok || i >= len(a) || i < 0 {
			panic(Undecided{fmt.Sprintf("component %d of %T", i, v)})
		}
		v = a[i]
	}
	return v
}

func setSub(v Value, path []int, w Value) Value {
	if len(path) == 0 {
		return w
	}
	a, ok := v.(Agg)
	if !ok || path[0] >= len(a) || path[0] < 0 {
		panic(Undecided{fmt.Sprintf("component %d of %T", path[0], v)})
	}
	b := append(Agg{}, a...)
	b[path[0]] = setSub(a[path[0]], path[1:], w)
	return b
}

// Undecided aborts an analysis.
type Undecided struct{ Msg string }

func (u Undecided) Error() string { return u.Msg }

func bail(f string, a ...any) { panic(Undecided{fmt.Sprintf(f, a...)}) }

// Tenv maps type parameters to types.
type Tenv struct {
	m map[*types.TypeParam]types.Type
}

func (e *Tenv) subst(t types.Type) types.Type {
	if e == nil || len(e.m) == 0 || t == nil {
		return t
	}
	return e.s(t)
}

func (e *Tenv) s(t types.Type) types.Type {
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := e.m[x]; ok {
			return r
		}
		return t
	case *types.Alias:
		return e.s(types.Unalias(x))
	case *types.Pointer:
		return types.NewPointer(e.s(x.Elem()))
	case *types.Slice:
		return types.NewSlice(e.s(x.Elem()))
	case *types.Array:
		return types.NewArray(e.s(x.Elem()), x.Len())
	case *types.Map:
		return types.NewMap(e.s(x.Key()), e.s(x.Elem()))
	case *types.Chan:
		return types.NewChan(x.Dir(), e.s(x.Elem()))
	case *types.Named:
		if x.TypeArgs() == nil || x.TypeArgs().Len() == 0 {
			return t
		}
		var as []types.Type
		ch := false
		for i := 0; i < x.TypeArgs().Len(); i++ {
			a := e.s(x.TypeArgs().At(i))
			ch = ch || a != x.TypeArgs().At(i)
			as = append(as, a)
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(nil, x.Origin(), as, false)
		if err != nil {
			bail("instantiate %v: %v", x, err)
		}
		return r
	case *types.Struct:
		var fs []*types.Var
		var tg []string
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), e.s(f.Type()), f.Embedded()))
			tg = append(tg, x.Tag(i))
		}
		return types.NewStruct(fs, tg)
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), e.s(v.Type())))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, e.s(x.Params()).(*types.Tuple), e.s(x.Results()).(*types.Tuple), x.Variadic())
	case *types.Interface:
		var ms []*types.Func
		for i := 0; i < x.NumExplicitMethods(); i++ {
			m := x.ExplicitMethod(i)
			ms = append(ms, types.NewFunc(m.Pos(), m.Pkg(), m.Name(), e.s(m.Type()).(*types.Signature)))
		}
		var em []types.Type
		for i := 0; i < x.NumEmbeddeds(); i++ {
			em = append(em, e.s(x.EmbeddedType(i)))
		}
		r := types.NewInterfaceType(ms, em)
		r.Complete()
		return r
	}
	return t
}
