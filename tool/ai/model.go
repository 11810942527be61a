package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// pureExternal lists external functions that neither change nor retain what they are given.
func pureExternal(n string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "errors.New", "strings.", "strconv.", "unicode", "(reflect.", "reflect.", "go/token.", "errors.", "math/bits.", "bytes.", "regexp.", "(*regexp.", "(*strings.Replacer)", "sort.Search"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var stdModels = map[string]Model{}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

// extType makes a pointer-to-struct type standing for an unexported error type of a standard package.
var extTypes = map[string]types.Type{}

func (it *Interp) extType(pkg, name string) types.Type {
	for _, p := range it.P.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	bail("type %s.%s not found", pkg, name)
	return nil
}

func init() {
	nop := func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) { return nil, true }
	lock := func(mode string, take bool) Model {
		return func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			k := st.Key(args[0])
			if p, ok := args[0].(Ptr); ok {
				k = fmt.Sprint(p.O, p.Path)
			}
			if st.Held == nil {
				st.Held = map[string]string{}
			}
			old := st.Held[k]
			if take {
				if st.OnLock != nil {
					st.OnLock(st, k)
					if st.Held == nil {
						st.Held = map[string]string{}
					}
					old = st.Held[k]
				}
				if old != "" {
					return panicV{KStr("deadlock: lock taken while held")}, true
				}
				st.Held[k] = mode
			} else {
				if old != mode {
					return panicV{KStr("unlock of a lock that is not held")}, true
				}
				if st.OnUnlock != nil {
					st.OnUnlock(st)
				}
				delete(st.Held, k)
			}
			return nil, true
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		stdModels["(*sync."+t+").Lock"] = lock("w", true)
		stdModels["(*sync."+t+").Unlock"] = lock("w", false)
	}
	stdModels["(*sync.RWMutex).RLock"] = lock("r", true)
	stdModels["(*sync.RWMutex).RUnlock"] = lock("r", false)
	// ---- errors and formatting
	stdModels["fmt.Errorf"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		t := it.extType("fmt", "wrapError")
		if it.Finite {
			return Iface{t, st.Alloc(t, Any{T: t})}, true
		}
		return Iface{t, Sym{"Errorf(" + st.keys(args, 0) + ")", t}}, true
	}
	stdModels["errors.New"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		t := it.extType("errors", "errorString")
		if it.Finite {
			return Iface{t, st.Alloc(t, Any{T: t})}, true
		}
		return Iface{t, Sym{"New(" + st.keys(args, 0) + ")", t}}, true
	}
	stdModels["fmt.Sprintf"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		if f, ok := StrOf(args[0]); ok && !strings.Contains(f, "%") {
			return KStr(f), true
		}
		if it.Finite {
			ne := false
			if f, ok := StrOf(args[0]); ok && f[0] != '%' {
				ne = true
			}
			return Any{types.Typ[types.String], ne}, true
		}
		return it.sprintf(st, args[0], args[1]), true
	}
	stdModels["fmt.Sprint"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		if it.Finite {
			return Any{T: types.Typ[types.String]}, true
		}
		return Sym{"Sprint(" + st.keys(args, 0) + ")", types.Typ[types.String]}, true
	}
	stdModels["fmt.Fprintf"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		w := args[0]
		if i, ok := w.(Iface); ok {
			w = i.V
		}
		p, ok := w.(Ptr)
		if !ok {
			return nil, false
		}
		b, ok := st.buildOf(p)
		if !ok {
			return nil, false
		}
		st.Store(p, Build{cat(b.C, it.sprintf(st, args[1], args[2]))})
		return Tuple{it.unknown(types.Typ[types.Int], "n"), Nil{errT()}}, true
	}
	stdModels["errors.Unwrap"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		switch e := args[0].(type) {
		case Nil:
			return e, true
		case Iface:
			sel := it.P.SSA.MethodSets.MethodSet(e.T).Lookup(nil, "Unwrap")
			if sel == nil {
				return Nil{errT()}, true
			}
			sg := sel.Obj().Type().(*types.Signature)
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), errT()) {
				return Nil{errT()}, true
			}
			m := it.P.SSA.MethodValue(sel)
			if len(m.Blocks) == 0 && m.Origin() == nil {
				return it.unknown(errT(), "Unwrap("+st.Key(e)+")"), true
			}
			return TailCall{F: m, Args: []Value{e.V}}, true
		case Sym:
			if it.isNil(st, e) {
				return Nil{errT()}, true
			}
			return Sym{"Unwrap(" + e.Key + ")", errT()}, true
		}
		return it.unknown(errT(), "Unwrap"), true
	}
	// ---- strings
	write := func(f func(it *Interp, st *State, args []Value) Value) Model {
		return func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			p, ok := args[0].(Ptr)
			if !ok {
				return nil, false
			}
			b, ok := st.buildOf(p)
			if !ok {
				return nil, false
			}
			v := f(it, st, args)
			st.Store(p, Build{cat(b.C, v)})
			res := fn.Signature.Results()
			if res.Len() == 2 {
				return Tuple{it.unknown(types.Typ[types.Int], "n"), Nil{errT()}}, true
			}
			return Nil{errT()}, true
		}
	}
	stdModels["(*strings.Builder).WriteString"] = write(func(it *Interp, st *State, args []Value) Value { return args[1] })
	ch := func(it *Interp, st *State, args []Value) Value {
		if n, ok := IntOf(args[1]); ok {
			return KStr(string(rune(n)))
		}
		return Sym{"char(" + st.Key(args[1]) + ")", types.Typ[types.String]}
	}
	stdModels["(*strings.Builder).WriteRune"] = write(ch)
	stdModels["(*strings.Builder).WriteByte"] = write(ch)
	stdModels["(*strings.Builder).Grow"] = nop
	stdModels["(*strings.Builder).String"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		p, ok := args[0].(Ptr)
		if !ok {
			return nil, false
		}
		b, ok := st.buildOf(p)
		if !ok {
			return nil, false
		}
		return MkCat(b.C), true
	}
	fold := func(n string, f func(a []string) string) {
		stdModels[n] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			var ss []string
			for _, a := range args {
				s, ok := StrOf(a)
				if !ok {
					return nil, false
				}
				ss = append(ss, s)
			}
			return KStr(f(ss)), true
		}
	}
	fold("strings.ToValidUTF8", func(a []string) string { return strings.ToValidUTF8(a[0], a[1]) })
	fold("strings.ReplaceAll", func(a []string) string { return strings.ReplaceAll(a[0], a[1], a[2]) })
	fold("strings.TrimSpace", func(a []string) string { return strings.TrimSpace(a[0]) })
	fold("strings.TrimPrefix", func(a []string) string { return strings.TrimPrefix(a[0], a[1]) })
	fold("strings.TrimSuffix", func(a []string) string { return strings.TrimSuffix(a[0], a[1]) })
	fold("strings.Trim", func(a []string) string { return strings.Trim(a[0], a[1]) })
	fold("strings.TrimLeft", func(a []string) string { return strings.TrimLeft(a[0], a[1]) })
	fold("strings.TrimRight", func(a []string) string { return strings.TrimRight(a[0], a[1]) })
	fold("strings.ToLower", func(a []string) string { return strings.ToLower(a[0]) })
	fold("strings.ToUpper", func(a []string) string { return strings.ToUpper(a[0]) })
	stdModels["strings.Repeat"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		n, ok := IntOf(args[1])
		if !ok || n > 1000 {
			return nil, false
		}
		if n < 0 {
			return panicV{KStr("strings: negative Repeat count")}, true
		}
		r := Value(KStr(""))
		for i := 0; i < n; i++ {
			if _, isAny := args[0].(Any); isAny {
				return nil, false
			}
			r = MkCat(r, args[0])
		}
		return r, true
	}
	stdModels["strings.Join"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		if _, isNil := args[0].(Nil); isNil {
			return KStr(""), true
		}
		l, ok := args[0].(Slice)
		if !ok {
			return nil, false
		}
		r := Value(KStr(""))
		for i, e := range st.Elems(l) {
			if _, isAny := e.(Any); isAny {
				return nil, false
			}
			if i > 0 {
				r = MkCat(r, args[1])
			}
			r = MkCat(r, e)
		}
		return r, true
	}
	foldI := func(n string, f func(x, y string) int) {
		stdModels[n] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			x, ok1 := StrOf(args[0])
			y, ok2 := StrOf(args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return KInt(int64(f(x, y)), types.Typ[types.Int]), true
		}
	}
	foldI("strings.Index", strings.Index)
	foldI("strings.LastIndex", strings.LastIndex)
	foldI("strings.Count", strings.Count)
	foldI("strings.Compare", strings.Compare)
	foldI("strings.IndexAny", strings.IndexAny)
	foldB := func(n string, f func(a []Value) (bool, bool)) {
		stdModels[n] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			b, ok := f(args)
			if !ok {
				return nil, false
			}
			return KBool(b), true
		}
	}
	ss := func(a []Value, f func(x, y string) bool) (bool, bool) {
		x, ok1 := StrOf(a[0])
		y, ok2 := StrOf(a[1])
		return ok1 && ok2 && f(x, y), ok1 && ok2
	}
	foldB("unicode/utf8.ValidString", func(a []Value) (bool, bool) { s, ok := StrOf(a[0]); return utf8.ValidString(s), ok })
	foldB("strings.Contains", func(a []Value) (bool, bool) { return ss(a, strings.Contains) })
	foldB("strings.HasPrefix", func(a []Value) (bool, bool) { return ss(a, strings.HasPrefix) })
	foldB("strings.HasSuffix", func(a []Value) (bool, bool) { return ss(a, strings.HasSuffix) })
	foldB("go/token.IsIdentifier", func(a []Value) (bool, bool) { s, ok := StrOf(a[0]); return token.IsIdentifier(s), ok })
	foldB("go/token.IsExported", func(a []Value) (bool, bool) { s, ok := StrOf(a[0]); return token.IsExported(s), ok })
	foldB("strings.ContainsRune", func(a []Value) (bool, bool) {
		s, ok := StrOf(a[0])
		n, ok2 := IntOf(a[1])
		return ok && strings.ContainsRune(s, rune(n)), ok && ok2
	})
	stdModels["strings.NewReplacer"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		s, ok := args[0].(Slice)
		if !ok {
			return nil, false
		}
		return st.Alloc(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), Tuple(append([]Value{}, st.Elems(s)...))), true
	}
	stdModels["(*strings.Replacer).Replace"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		p, ok := args[0].(Ptr)
		s, ok2 := StrOf(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		var as []string
		tp, ok := st.objs[p.O].(Tuple)
		if !ok {
			return nil, false
		}
		for _, e := range tp {
			x, ok := StrOf(e)
			if !ok {
				return nil, false
			}
			as = append(as, x)
		}
		return KStr(strings.NewReplacer(as...).Replace(s)), true
	}
	stdModels["regexp.MustCompile"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		if _, ok := StrOf(args[0]); !ok {
			return nil, false
		}
		return st.Alloc(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), Tuple{args[0]}), true
	}
	stdModels["(*regexp.Regexp).FindAllString"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		p, ok := args[0].(Ptr)
		s, ok2 := StrOf(args[1])
		n, ok3 := IntOf(args[2])
		if !ok || !ok2 || !ok3 {
			return nil, false
		}
		tp, ok := st.objs[p.O].(Tuple)
		if !ok {
			return nil, false
		}
		pat, _ := StrOf(tp[0])
		re, err := regexp.Compile(pat)
		if err != nil {
			return PanicWith("invalid regular expression"), true
		}
		var es []Value
		for _, m := range re.FindAllString(s, n) {
			es = append(es, KStr(m))
		}
		t := fn.Signature.Results().At(0).Type()
		if len(es) == 0 {
			return Nil{t}, true
		}
		return st.NewSlice(t, es...), true
	}
	// ---- containers
	stdModels["maps.Clone"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		switch m := args[0].(type) {
		case Nil:
			return m, true
		case Map:
			st.touch(m.O, false)
			c := st.objs[m.O].(*MapC)
			return Map{st.Alloc(st.otype[m.O], &MapC{append([]Value{}, c.K...), append([]Value{}, c.V...)}).O}, true
		}
		return nil, false
	}
	stdModels["maps.Copy"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		d, ok := args[0].(Map)
		if !ok {
			return nil, false
		}
		switch m := args[1].(type) {
		case Nil:
			return nil, true
		case Map:
			c := st.objs[m.O].(*MapC)
			// decisions first
			for _, k := range c.K {
				for _, k2 := range st.objs[d.O].(*MapC).K {
					it.eq(st, k, k2)
				}
			}
			for i := range c.K {
				it.mapSet(st, d, c.K[i], c.V[i])
			}
			return nil, true
		}
		return nil, false
	}
	stdModels["sort.Slice"] = sortModel
	stdModels["sort.SliceStable"] = sortModel
	// ---- reflect
	stdModels["reflect.TypeOf"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		switch x := args[0].(type) {
		case Nil:
			return Nil{fn.Signature.Results().At(0).Type()}, true
		case Iface:
			return RT{x.T}, true
		case RT:
			return nil, false
		case Sym:
			if it.isNil(st, x) {
				return Nil{fn.Signature.Results().At(0).Type()}, true
			}
			if t, ok := st.dyn[x.Key]; ok {
				return RT{t}, true
			}
		}
		return nil, false
	}
	stdModels["reflect.ValueOf"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		switch x := args[0].(type) {
		case Iface:
			return RV{V: x.V, T: x.T}, true
		case Nil:
			return RV{}, true
		case Sym:
			if it.isNil(st, x) {
				return RV{}, true
			}
			if t, ok := st.dyn[x.Key]; ok {
				return RV{V: Expand(t, x.Key+".("+TypeStr(t)+")"), T: t}, true
			}
			return RV{V: x, T: nil}, true
		}
		return nil, false
	}
	stdModels["reflect.Zero"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		t, ok := args[0].(RT)
		if !ok {
			return nil, false
		}
		return RV{V: zero(t.T), T: t.T}, true
	}
	rv := func(n string, f func(it *Interp, st *State, v RV, args []Value) (Value, bool)) {
		stdModels["(reflect.Value)."+n] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
			v, ok := args[0].(RV)
			if !ok {
				return nil, false
			}
			if v.T == nil && n != "IsValid" && n != "Kind" {
				return PanicWith("reflect: call on zero or unknown Value"), true
			}
			return f(it, st, v, args[1:])
		}
	}
	rv("Elem", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		a := v.V
		if v.P != nil {
			a = st.Load(*v.P)
		}
		switch p := a.(type) {
		case Ptr:
			return RV{P: &p, T: pt.Elem()}, true
		case Sym:
			q, pv := it.addr(st, p)
			if pv != nil {
				return *pv, true
			}
			return RV{P: &q, T: pt.Elem()}, true
		case Nil:
			return RV{}, true
		}
		return nil, false
	})
	field := func(v RV, i int) (RV, bool) {
		s, ok := v.T.Underlying().(*types.Struct)
		if !ok || i < 0 || i >= s.NumFields() {
			return RV{}, false
		}
		t := s.Field(i).Type()
		if v.P != nil {
			return RV{P: &Ptr{v.P.O, pathPush(v.P.Path, i)}, T: t}, true
		}
		a, ok := v.V.(Agg)
		if !ok {
			return RV{}, false
		}
		return RV{V: a[i], T: t}, true
	}
	rv("FieldByIndex", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		s, ok := args[0].(Slice)
		if !ok {
			return nil, false
		}
		for _, e := range st.Elems(s) {
			i, ok := IntOf(e)
			if !ok {
				return nil, false
			}
			v, ok = field(v, i)
			if !ok {
				return PanicWith("reflect: bad field index"), true
			}
		}
		return v, true
	})
	rv("Field", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		i, ok := IntOf(args[0])
		if !ok {
			return nil, false
		}
		r, ok := field(v, i)
		if !ok {
			return PanicWith("reflect: bad field index"), true
		}
		return r, true
	})
	rv("NumField", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		s, ok := v.T.Underlying().(*types.Struct)
		if !ok {
			return PanicWith("reflect: NumField of non-struct"), true
		}
		return KInt(int64(s.NumFields()), nil), true
	})
	load := func(st *State, v RV) Value {
		if v.P != nil {
			return st.Load(*v.P)
		}
		return v.V
	}
	rv("Interface", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		x := load(st, v)
		if isIfaceT(v.T) {
			return x, true
		}
		return box(v.T, x), true
	})
	rv("Type", func(it *Interp, st *State, v RV, args []Value) (Value, bool) { return RT{v.T}, true })
	rv("Kind", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		if v.T == nil {
			if v.V != nil {
				return nil, false
			}
			return KInt(0, nil), true
		}
		return kindOf(v.T), true
	})
	rv("IsValid", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		return KBool(v.P != nil || v.V != nil), true
	})
	rv("CanSet", func(it *Interp, st *State, v RV, args []Value) (Value, bool) { return KBool(v.P != nil), true })
	rv("Call", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		sg, ok := v.T.Underlying().(*types.Signature)
		if !ok {
			return PanicWith("reflect: call of Call on non-func Value"), true
		}
		f, ok := load(st, v).(Sym)
		if !ok || it.Opaque == nil || sg.Variadic() {
			return nil, false
		}
		var in, as []Value
		if s, ok := args[0].(Slice); ok {
			in = st.Elems(s)
		}
		if len(in) != sg.Params().Len() {
			return PanicWith("reflect: Call with a wrong number of input arguments"), true
		}
		for i, x := range in {
			a, ok := x.(RV)
			if !ok {
				return nil, false
			}
			if a.V == nil && a.P == nil {
				return PanicWith("reflect: Call using zero Value argument"), true
			}
			if a.T == nil {
				return nil, false
			}
			if !types.AssignableTo(a.T, sg.Params().At(i).Type()) {
				return PanicWith("reflect: Call using a value of a wrong type"), true
			}
			y := load(st, a)
			if isIfaceT(sg.Params().At(i).Type()) && !isIfaceT(a.T) {
				y = box(a.T, y)
			}
			as = append(as, y)
		}
		res, ok := it.Opaque(it, st, f, as)
		if !ok {
			return nil, false
		}
		if p, ok := res.(panicV); ok {
			return p, true
		}
		tu, _ := res.(Tuple)
		var outs []Value
		for i, x := range tu {
			outs = append(outs, RV{V: x, T: sg.Results().At(i).Type()})
		}
		return st.NewSlice(types.NewSlice(types.NewInterfaceType(nil, nil)), outs...), true
	})
	rv("SetZero", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		if v.P == nil {
			return PanicWith("reflect: not settable"), true
		}
		st.Store(*v.P, zero(v.T))
		return nil, true
	})
	rv("Set", func(it *Interp, st *State, v RV, args []Value) (Value, bool) {
		w, ok := args[0].(RV)
		if !ok {
			return nil, false
		}
		if v.P == nil {
			return PanicWith("reflect: not settable"), true
		}
		if w.P == nil && w.V == nil {
			return PanicWith("reflect: Set of zero Value"), true
		}
		x := load(st, w)
		switch {
		case w.T == nil:
			// an opaque interface value of unknown dynamic type
			if !isIfaceT(v.T) {
				return nil, false
			}
		case types.Identical(w.T, v.T):
		case types.AssignableTo(w.T, v.T):
			if isIfaceT(v.T) && !isIfaceT(w.T) {
				x = box(w.T, x)
			}
		default:
			return PanicWith("reflect: Set of non-assignable type"), true
		}
		st.Store(*v.P, x)
		return nil, true
	})
	stdModels["(reflect.StructField).IsExported"] = func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
		a, ok := args[0].(Agg)
		if !ok {
			return nil, false
		}
		s, ok := StrOf(a[1])
		return KBool(s == ""), ok
	}
}

// sprintf builds the term of a formatted string; %v and %s of known strings are expanded.
func (it *Interp) sprintf(st *State, f Value, args Value) Value {
	if it.Finite {
		return Any{T: types.Typ[types.String]}
	}
	var as []Value
	if s, ok := args.(Slice); ok {
		as = st.Elems(s)
	}
	if s, ok := StrOf(f); ok && !strings.Contains(s, "%") && len(as) == 0 {
		return KStr(s)
	}
	return Sym{"Sprintf(" + st.Key(f) + ";" + st.keys(as, 0) + ")", types.Typ[types.String]}
}

func kindOf(t types.Type) Value {
	k := 0
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			k = 1
		case types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			k = int(u.Kind()-types.Int) + 2
		case types.Float32:
			k = 13
		case types.Float64:
			k = 14
		case types.Complex64:
			k = 15
		case types.Complex128:
			k = 16
		case types.String:
			k = 24
		case types.UnsafePointer:
			k = 26
		}
	case *types.Array:
		k = 17
	case *types.Chan:
		k = 18
	case *types.Signature:
		k = 19
	case *types.Interface:
		k = 20
	case *types.Map:
		k = 21
	case *types.Pointer:
		k = 22
	case *types.Slice:
		k = 23
	case *types.Struct:
		k = 25
	}
	return KInt(int64(k), types.Typ[types.Uint])
}

// rtypeMethod models the methods of reflect.Type.
func (it *Interp) rtypeMethod(st *State, t types.Type, m string, args []Value) Value {
	switch m {
	case "Kind":
		return kindOf(t)
	case "Name":
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return KStr(x.Obj().Name())
		case *types.Basic:
			return KStr(x.Name())
		}
		return KStr("")
	case "String":
		return KStr(TypeStr(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return RT{u.Elem()}
		case *types.Slice:
			return RT{u.Elem()}
		case *types.Array:
			return RT{u.Elem()}
		case *types.Map:
			return RT{u.Elem()}
		case *types.Chan:
			return RT{u.Elem()}
		}
		return PanicWith("reflect: Elem of invalid type")
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return KInt(u.Len(), nil)
		}
		return PanicWith("reflect: Len of non-array")
	case "NumField":
		if s, ok := t.Underlying().(*types.Struct); ok {
			return KInt(int64(s.NumFields()), nil)
		}
		return PanicWith("reflect: NumField of non-struct")
	case "Field":
		s, ok := t.Underlying().(*types.Struct)
		i, ok2 := IntOf(args[0])
		if !ok || !ok2 {
			bail("reflect Field")
		}
		if i < 0 || i >= s.NumFields() {
			return PanicWith("reflect: Field index out of bounds")
		}
		f := s.Field(i)
		pp := ""
		if !f.Exported() && f.Pkg() != nil {
			pp = f.Pkg().Path()
		}
		idx := st.NewSlice(types.NewSlice(types.Typ[types.Int]), KInt(int64(i), nil))
		return Agg{KStr(f.Name()), KStr(pp), RT{f.Type()}, KStr(s.Tag(i)), KInt(0, types.Typ[types.Uintptr]), idx, KBool(f.Embedded())}
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		sg, ok := t.Underlying().(*types.Signature)
		if !ok {
			return PanicWith("reflect: " + m + " of non-func type")
		}
		tu := sg.Params()
		if m == "NumOut" || m == "Out" {
			tu = sg.Results()
		}
		switch m {
		case "IsVariadic":
			return KBool(sg.Variadic())
		case "NumIn", "NumOut":
			return KInt(int64(tu.Len()), nil)
		}
		i, ok := IntOf(args[0])
		if !ok {
			bail("reflect %s", m)
		}
		if i < 0 || i >= tu.Len() {
			return PanicWith("reflect: index out of range")
		}
		return RT{tu.At(i).Type()}
	case "MethodByName":
		n, ok := StrOf(args[0])
		if !ok {
			bail("reflect MethodByName")
		}
		var obj *types.Func
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if o := ms.At(i).Obj().(*types.Func); o.Name() == n && o.Exported() {
				obj = o
			}
		}
		if obj == nil {
			return Tuple{Agg{KStr(""), KStr(""), Nil{types.NewInterfaceType(nil, nil)}, RV{}, KInt(0, nil)}, KBool(false)}
		}
		sg := obj.Type().(*types.Signature)
		if !isIfaceT(t) {
			// the receiver is the first parameter
			vs := []*types.Var{types.NewParam(token.NoPos, nil, "", t)}
			for i := 0; i < sg.Params().Len(); i++ {
				vs = append(vs, sg.Params().At(i))
			}
			sg = types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), sg.Results(), sg.Variadic())
		} else {
			sg = types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
		}
		return Tuple{Agg{KStr(n), KStr(""), RT{sg}, RV{V: Sym{"method " + n, sg}, T: sg}, KInt(0, nil)}, KBool(true)}
	case "AssignableTo":
		if u, ok := args[0].(RT); ok {
			return KBool(types.AssignableTo(t, u.T))
		}
		if _, ok := args[0].(Nil); ok {
			return PanicWith("reflect: nil type passed to AssignableTo")
		}
	case "Implements":
		if u, ok := args[0].(RT); ok {
			if !isIfaceT(u.T) {
				return PanicWith("reflect: Implements of non-interface")
			}
			return KBool(it.Implements(t, u.T))
		}
	case "Comparable":
		return KBool(types.Comparable(t))
	case "NumMethod":
		return KInt(int64(types.NewMethodSet(t).Len()), nil)
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return KStr(n.Obj().Pkg().Path())
		}
		return KStr("")
	}
	bail("reflect.Type method %s", m)
	return nil
}

// sortModel: insertion sort of a concrete slice; the comparison function is interpreted.
func sortModel(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool) {
	x := args[0]
	if i, ok := x.(Iface); ok {
		x = i.V
	}
	s, ok := x.(Slice)
	if !ok {
		if _, ok := x.(Nil); ok {
			return nil, true
		}
		return nil, false
	}
	less, ok := args[1].(Fn)
	if !ok {
		return nil, false
	}
	for i := 1; i < s.Len; i++ {
		for j := i; j > 0; j-- {
			sub := st.clone()
			outs := it.RunFrom(sub, less.F, less.Env, less.Bind, []Value{KInt(int64(j), nil), KInt(int64(j-1), nil)})
			if len(outs) != 1 || outs[0].Panic != nil {
				bail("undecided comparison in sort")
			}
			c, ok := outs[0].Ret[0].(Const)
			if !ok {
				bail("undecided comparison in sort")
			}
			if !constant.BoolVal(c.V) {
				break
			}
			a := Ptr{s.O, pathPush(s.Path, s.Off+j)}
			b := Ptr{s.O, pathPush(s.Path, s.Off+j-1)}
			va, vb := st.Load(a), st.Load(b)
			st.Store(a, vb)
			st.Store(b, va)
		}
	}
	return nil, true
}

// Describe prints an outcome.
func (o *Outcome) Describe() string {
	if o.Panic != nil {
		return "panic " + o.St.Key(o.Panic)
	}
	return fmt.Sprintf("return %s", o.St.keys(o.Ret, 0))
}
