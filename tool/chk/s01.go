package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/load"
	"verif/vg"
)

func init() {
	register(&Property{ID: "S01", Level: "other", Technique: techAI, F: s01,
		Note: "stack: all sequences of up to 5 (thorough 6) operations with opaque elements, and runs that grow to 70 (thorough 300) elements, shrink, grow and shrink again; lists and maps: all patterns of equality up to the stated lengths; reflection helpers: one type of every kind, methods of every shape; opaque function values for bound and reflected calls"})
}

func s01(r *Run) {
	r.aiGo("S01.stack", "Stack", func() { s01Stack(r) })
	r.aiGo("S01.compare", "comparisons", func() { s01Compare(r) })
	r.aiGo("S01.lists", "lists", func() { s01Lists(r) })
	r.aiGo("S01.reflect", "types", func() { s01Types(r) })
	r.aiGo("S01.method", "DoesMethodExist", func() { s01Methods(r) })
	r.aiGo("S01.call", "CallFunction_FixNil", func() { s01FixNil(r) })
	r.aiGo("S01.bind", "Bind", func() { s01Bind(r) })
	r.aiGo("S01.fields", "AllFields", func() { s01Fields(r) })
	r.Wait()
}

func (r *Run) need(pkg, name string) *ssa.Function {
	f := r.P.Func(pkg, name)
	if f == nil {
		panic(vg.Undecided{Msg: pkg + "." + name + " is missing"})
	}
	return f
}

// single runs a call that must have a single outcome on every path.
func single(outs []ai.Outcome, what string) ai.Outcome {
	if len(outs) != 1 {
		panic(vg.Undecided{Msg: fmt.Sprintf("%s has %d outcomes", what, len(outs))})
	}
	return outs[0]
}

var (
	tInt = types.Typ[types.Int]
	tStr = types.Typ[types.String]
)

func s01Stack(r *Run) {
	const pkg = "internal/stack"
	it := ai.New(r.P, pkg)
	T := []types.Type{tInt}
	mk, nw := r.need(pkg, "MakeStack"), r.need(pkg, "NewStack")
	meth := map[string]*ssa.Function{}
	for _, n := range []string{"Len", "IsEmpty", "Pop", "Push", "PushPtr", "Top", "Peek"} {
		meth[n] = r.need(pkg, "Stack."+n)
	}
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	type model struct {
		st   *ai.State
		p    ai.Value
		ref  []string
		hist string
		ext  ai.Ptr // variable pushed by PushPtr
	}
	n := 0
	depth := 5
	if r.Thorough() {
		depth = 6
	}
	fresh := 0
	sym := func() ai.Sym { fresh++; return ai.Sym{Key: fmt.Sprintf("v%d", fresh), T: tInt} }
	call := func(m model, f string, args ...ai.Value) ai.Outcome {
		n++
		return single(it.RunT(m.st, meth[f], T, append([]ai.Value{m.p}, args...)), f)
	}
	var explore func(m model, d int)
	explore = func(m model, d int) {
		if bad != "" {
			return
		}
		top := func(i int) string { return m.ref[len(m.ref)-1-i] }
		// observations
		o := call(m, "Len")
		if k, ok := ai.IntOf(o.Ret[0]); o.Panic != nil || !ok || k != len(m.ref) {
			note("%s: Len is %s, want %d", m.hist, o.Describe(), len(m.ref))
			return
		}
		o = call(m, "IsEmpty")
		if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(len(m.ref) == 0) {
			note("%s: IsEmpty is %s", m.hist, o.Describe())
			return
		}
		for i := -1; i <= len(m.ref); i++ {
			o := call(m, "Peek", ai.KInt(int64(i), tInt))
			if (o.Panic != nil) != (i < 0 || i >= len(m.ref)) {
				note("%s: Peek(%d): %s", m.hist, i, o.Describe())
				return
			}
			if o.Panic == nil {
				if p, ok := o.Ret[0].(ai.Ptr); !ok || o.St.Key(o.St.Load(p)) != top(i) {
					note("%s: Peek(%d) is not the element %d from the top", m.hist, i, i)
					return
				} else if d > 0 {
					// the element can be changed through the pointer
					v := sym()
					o.St.Store(p, v)
					m2 := model{o.St, m.p, append([]string{}, m.ref...), m.hist + fmt.Sprintf(" *Peek(%d)=", i), m.ext}
					m2.ref[len(m.ref)-1-i] = v.Key
					if i < 2 {
						explore(m2, min(d-1, 1))
					}
				}
			}
		}
		o = call(m, "Top")
		if (o.Panic != nil) != (len(m.ref) == 0) {
			note("%s: Top: %s", m.hist, o.Describe())
			return
		}
		if o.Panic == nil {
			if p, ok := o.Ret[0].(ai.Ptr); !ok || o.St.Key(o.St.Load(p)) != top(0) {
				note("%s: Top is not the top element", m.hist)
				return
			}
		}
		o = call(m, "Pop")
		if (o.Panic != nil) != (len(m.ref) == 0) {
			note("%s: Pop: %s", m.hist, o.Describe())
			return
		}
		if o.Panic == nil && o.St.Key(o.Ret[0]) != top(0) {
			note("%s: Pop returns %s, want %s", m.hist, o.St.Key(o.Ret[0]), top(0))
			return
		}
		if d == 0 {
			return
		}
		if o.Panic == nil {
			explore(model{o.St, m.p, m.ref[:len(m.ref)-1], m.hist + " Pop", m.ext}, d-1)
		}
		v := sym()
		o = call(m, "Push", v)
		if o.Panic != nil {
			note("%s: Push panics", m.hist)
			return
		}
		explore(model{o.St, m.p, append(append([]string{}, m.ref...), v.Key), m.hist + " Push", m.ext}, d-1)
		// PushPtr copies
		st := m.st.Clone()
		v = sym()
		st.Store(m.ext, v)
		m1 := m
		m1.st = st
		o = call(m1, "PushPtr", m.ext)
		if o.Panic != nil {
			note("%s: PushPtr panics", m.hist)
			return
		}
		o.St.Store(m.ext, sym())
		explore(model{o.St, m.p, append(append([]string{}, m.ref...), v.Key), m.hist + " PushPtr", m.ext}, d-1)
	}
	for _, how := range []string{"MakeStack", "NewStack"} {
		st := it.Base.Clone()
		f := mk
		if how == "NewStack" {
			f = nw
		}
		o := single(it.RunT(st, f, T, nil), how)
		if o.Panic != nil {
			note("%s panics", how)
			break
		}
		p := o.Ret[0]
		if how == "MakeStack" {
			p = o.St.Alloc(tInt, o.Ret[0])
		}
		ext := o.St.Alloc(tInt, ai.KInt(0, tInt))
		explore(model{o.St, p, nil, how, ext}, depth)
		// long runs: grow, shrink, grow and shrink again past every reallocation threshold
		m := model{o.St, p, nil, how + " long run", ext}
		long := 70
		if r.Thorough() {
			long = 300
		}
		phases := []int{long, -(long - 3), long / 2, -(long/2 + 3)}
		for pi, ph := range phases {
			for i := 0; i < ph && bad == ""; i++ {
				v := sym()
				o := call(m, "Push", v)
				if o.Panic != nil {
					note("%s: Push panics", m.hist)
					break
				}
				m = model{o.St, p, append(append([]string{}, m.ref...), v.Key), fmt.Sprintf("%s of %s: phase %d, push %d", how, "a long run", pi+1, i+1), ext}
			}
			for i := 0; i < -ph && bad == ""; i++ {
				o := call(m, "Pop")
				if o.Panic != nil || o.St.Key(o.Ret[0]) != m.ref[len(m.ref)-1] {
					note("%s, then Pop: %s", m.hist, o.Describe())
					break
				}
				m = model{o.St, p, m.ref[:len(m.ref)-1], fmt.Sprintf("%s of %s: phase %d, pop %d", how, "a long run", pi+1, i+1), ext}
				o = call(m, "Len")
				if k, ok := ai.IntOf(o.Ret[0]); o.Panic != nil || !ok || k != len(m.ref) {
					note("%s: Len is %s, want %d", m.hist, o.Describe(), len(m.ref))
				}
			}
			explore(m, 1)
		}
	}
	r.Count("stack operations", n)
	r.Ok("S01.stack", "Stack", meth["Push"].Pos(), "last in, first out; panics exactly when empty or out of range; pointers refer to the elements", bad == "", bad)
	r.noteVisited(it)
}

// lists enumerates the lists of up to n numbers below k.
func lists(n, k int) [][]int {
	res := [][]int{{}}
	prev := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, l := range prev {
			for v := 0; v < k; v++ {
				next = append(next, append(append([]int{}, l...), v))
			}
		}
		res = append(res, next...)
		prev = next
	}
	return res
}

func intList(st *ai.State, l []int) ai.Value {
	var vs []ai.Value
	for _, x := range l {
		vs = append(vs, ai.KInt(int64(x), tInt))
	}
	return st.NewSlice(types.NewSlice(tInt), vs...)
}

func s01Compare(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	sl := types.NewSlice(tInt)
	nilS := ai.Nil{T: sl}
	ls := lists(3, 2)
	n := 0
	bad := map[string]string{}
	note := func(k, f string, a ...any) {
		if bad[k] == "" {
			bad[k] = fmt.Sprintf(f, a...)
		}
	}
	cs, as := r.need(pkg, "CompareSlices"), r.need(pkg, "AssertSliceEquals")
	T := []types.Type{tInt}
	for i := -1; i < len(ls); i++ {
		for j := -1; j < len(ls); j++ {
			st := it.Base.Clone()
			x, y := ai.Value(nilS), ai.Value(nilS)
			if i >= 0 {
				x = intList(st, ls[i])
			}
			if j >= 0 {
				y = intList(st, ls[j])
			}
			eq := i == j || i >= 0 && j >= 0 && fmt.Sprint(ls[i]) == fmt.Sprint(ls[j])
			d := func(k int) string {
				if k < 0 {
					return "nil"
				}
				return fmt.Sprint(ls[k])
			}
			o := single(it.RunT(st, cs, T, []ai.Value{x, y}), "CompareSlices")
			n++
			if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(eq) {
				note("CompareSlices", "%s, %s: %s", d(i), d(j), o.Describe())
			}
			o = single(it.RunT(st, as, T, []ai.Value{x, y}), "AssertSliceEquals")
			n++
			// x == nil panics; no further arguments are an empty list
			want := i >= 0 && (eq || j < 0 && len(ls[i]) == 0)
			if (o.Panic == nil) != want {
				note("AssertSliceEquals", "%s, %s: %s", d(i), d(j), o.Describe())
			}
		}
	}
	// maps from {1, 2, 3} to values
	vals := []ai.Value{ai.KInt(0, tInt), ai.KInt(1, tInt)}
	anyVals := []ai.Value{ai.Iface{T: tInt, V: ai.KInt(0, tInt)}, ai.Iface{T: tInt, V: ai.KInt(1, tInt)}, ai.Iface{T: types.Typ[types.Int64], V: ai.KInt(0, types.Typ[types.Int64])}, ai.Iface{T: tStr, V: ai.KStr("0")}, ai.Nil{T: anyIface}}
	for _, c := range []struct {
		f    string
		t    []types.Type
		vals []ai.Value
	}{{"CompareMaps", []types.Type{tInt, tInt}, vals}, {"CompareParamMaps", []types.Type{tInt}, anyVals}} {
		f := r.need(pkg, c.f)
		mt := types.NewMap(tInt, tInt)
		if len(c.t) == 1 {
			mt = types.NewMap(tInt, anyIface)
		}
		var maps []map[int]int // key -> index of value
		maps = append(maps, nil)
		k := len(c.vals) + 1
		keys := 3
		if k > 4 {
			keys = 2
		}
		tot := 1
		for i := 0; i < keys; i++ {
			tot *= k
		}
		for c := 0; c < tot; c++ {
			m := map[int]int{}
			x := c
			for i := 1; i <= keys; i++ {
				if x%k > 0 {
					m[i] = x%k - 1
				}
				x /= k
			}
			maps = append(maps, m)
		}
		for i, a := range maps {
			for j, b := range maps {
				for _, rev := range []bool{false, true} {
					st := it.Base.Clone()
					build := func(m map[int]int, rev bool) ai.Value {
						if m == nil {
							return ai.Nil{T: mt}
						}
						var kv []ai.Value
						for x := 1; x <= keys; x++ {
							key := x
							if rev {
								key = keys + 1 - x
							}
							if v, ok := m[key]; ok {
								kv = append(kv, ai.KInt(int64(key), tInt), c.vals[v])
							}
						}
						return st.NewMap(mt, kv...)
					}
					x := build(a, false)
					y := build(b, rev)
					o := single(it.RunT(st, f, c.t, []ai.Value{x, y}), c.f)
					n++
					if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(i == j) {
						note(c.f, "%v, %v (indices of values): %s", a, b, o.Describe())
					}
				}
			}
		}
	}
	for _, k := range []string{"CompareSlices", "AssertSliceEquals", "CompareMaps", "CompareParamMaps"} {
		r.Ok("S01.compare", k, r.need(pkg, k).Pos(), "true (no panic) exactly for equal contents", bad[k] == "", bad[k])
	}
	r.Count("comparisons", n)
	r.noteVisited(it)
}

func s01Lists(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	in, cat := r.need(pkg, "ElementInList"), r.need(pkg, "ConcatenateListsWithoutDuplicates")
	norms := map[string]func(int) int{"n0": func(x int) int { return x % 2 }, "n1": func(x int) int { return 3 }, "n2": func(x int) int { return x ^ 1&^x }, "n3": func(x int) int { return []int{2, 1, 2, 2}[x%4] }}
	it.Opaque = func(it *ai.Interp, st *ai.State, fn ai.Sym, args []ai.Value) (ai.Value, bool) {
		f, ok := norms[fn.Key]
		k, ok2 := ai.IntOf(args[0])
		if !ok || !ok2 {
			return nil, false
		}
		return ai.KInt(int64(f(k)), tInt), true
	}
	fT := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", tInt)), types.NewTuple(types.NewVar(0, nil, "", tInt)), false)
	T := []types.Type{tInt}
	n := 0
	bad := map[string]string{}
	note := func(k, f string, a ...any) {
		if bad[k] == "" {
			bad[k] = fmt.Sprintf(f, a...)
		}
	}
	for _, nn := range []string{"", "n0", "n1", "n2", "n3", "two"} {
		norm := func(x int) int { return x }
		var fs []ai.Value
		switch nn {
		case "":
		case "two":
			fs = []ai.Value{ai.Sym{Key: "n0", T: fT}, ai.Sym{Key: "n1", T: fT}}
		default:
			norm = norms[nn]
			fs = []ai.Value{ai.Sym{Key: nn, T: fT}}
		}
		mkNorm := func(st *ai.State) ai.Value {
			if fs == nil {
				return ai.Nil{T: types.NewSlice(fT)}
			}
			return st.NewSlice(types.NewSlice(fT), fs...)
		}
		for e := 0; e < 4; e++ {
			for _, l := range lists(3, 4) {
				st := it.Base.Clone()
				want := false
				for _, x := range l {
					want = want || norm(x) == norm(e)
				}
				ll := intList(st, l)
				o := single(it.RunT(st, in, T, []ai.Value{ai.KInt(int64(e), tInt), ll, mkNorm(st)}), "ElementInList")
				n++
				if nn == "two" {
					if o.Panic == nil {
						note("ElementInList", "two normalizers are accepted")
					}
					continue
				}
				if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(want) {
					note("ElementInList", "%d, %v, normalizer %q: %s", e, l, nn, o.Describe())
				}
				if o.St.Key(ll) != fmt.Sprintf("%s", st.Key(ll)) {
					note("ElementInList", "the list is modified")
				}
			}
		}
		ls := lists(2, 3)
		if nn == "" || nn == "n3" {
			ls = lists(3, 3)
		}
		for _, a := range ls {
			for _, b := range ls {
				st := it.Base.Clone()
				la, lb := intList(st, a), intList(st, b)
				before := st.Key(la) + st.Key(lb)
				o := single(it.RunT(st, cat, T, []ai.Value{la, lb, mkNorm(st)}), "ConcatenateListsWithoutDuplicates")
				n++
				if nn == "two" {
					if o.Panic == nil {
						note("ConcatenateListsWithoutDuplicates", "two normalizers are accepted")
					}
					continue
				}
				if o.Panic != nil {
					note("ConcatenateListsWithoutDuplicates", "%v, %v, normalizer %q: panics", a, b, nn)
					continue
				}
				// the result has one element of every class that occurs, each from the lists, and is a new list
				seen := map[int]bool{}
				dup := false
				s, ok := o.Ret[0].(ai.Slice)
				if ok && (s.O == la.(ai.Slice).O || s.O == lb.(ai.Slice).O) {
					note("ConcatenateListsWithoutDuplicates", "the result shares memory with a list")
				}
				var got []int
				if ok {
					for _, x := range o.St.Elems(s) {
						k, ok := ai.IntOf(x)
						if !ok {
							note("ConcatenateListsWithoutDuplicates", "undecided element")
						}
						got = append(got, k)
						dup = dup || seen[norm(k)]
						seen[norm(k)] = true
						found := false
						for _, y := range append(append([]int{}, a...), b...) {
							found = found || y == k
						}
						dup = dup || !found
					}
				}
				want := map[int]bool{}
				for _, y := range append(append([]int{}, a...), b...) {
					want[norm(y)] = true
				}
				if dup || len(want) != len(seen) {
					note("ConcatenateListsWithoutDuplicates", "%v, %v, normalizer %q: %v", a, b, nn, got)
				}
				if o.St.Key(la)+o.St.Key(lb) != before {
					note("ConcatenateListsWithoutDuplicates", "a list is modified")
				}
			}
		}
	}
	for _, k := range []string{"ElementInList", "ConcatenateListsWithoutDuplicates"} {
		r.Ok("S01.lists", k, r.need(pkg, k).Pos(), "membership and union modulo the normalizer", bad[k] == "", bad[k])
	}
	r.Count("list operations", n)
	r.noteVisited(it)
}

// kindTypes: types of every kind; nilable: values can be nil.
func kindTypes() (ts []types.Type, nilable []bool) {
	add := func(t types.Type, n bool) { ts, nilable = append(ts, t), append(nilable, n) }
	for k := types.Bool; k <= types.Complex128; k++ {
		add(types.Typ[k], false)
	}
	add(tStr, false)
	add(types.Typ[types.UnsafePointer], true)
	add(types.NewArray(tInt, 2), false)
	add(types.NewArray(types.NewPointer(tInt), 0), false)
	add(types.NewStruct(nil, nil), false)
	add(types.NewPointer(tInt), true)
	add(types.NewPointer(types.NewPointer(tStr)), true)
	add(types.NewSlice(tInt), true)
	add(types.NewSlice(types.NewArray(tInt, 3)), true)
	add(types.NewMap(tStr, tInt), true)
	add(types.NewChan(types.SendRecv, tInt), true)
	add(types.NewChan(types.RecvOnly, tInt), true)
	add(types.NewSignatureType(nil, nil, nil, nil, nil, false), true)
	add(anyIface, true)
	add(errIface, true)
	base := len(ts)
	p := types.NewPackage("p", "p")
	for i := 0; i < base; i++ {
		if _, ok := ts[i].(*types.Named); ok {
			continue
		}
		add(types.NewNamed(types.NewTypeName(token.NoPos, p, fmt.Sprintf("T%d", i), nil), ts[i].Underlying(), nil), nilable[i])
	}
	return
}

func s01Types(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	tof, isn, istn, name, tname := r.need(pkg, "TypeOfType"), r.need(pkg, "IsNilable"), r.need(pkg, "IsTypeNilable"), r.need(pkg, "GetReflectName"), r.need(pkg, "NameOfType")
	acopy := r.need(pkg, "AddressOfCopy")
	ts, nl := kindTypes()
	bad := map[string]string{}
	note := func(k, f string, a ...any) {
		if bad[k] == "" {
			bad[k] = fmt.Sprintf(f, a...)
		}
	}
	for i, t := range ts {
		st := it.Base.Clone()
		o := single(it.RunT(st, tof, []types.Type{t}, nil), "TypeOfType")
		x, ok := ai.Value(nil), false
		if o.Panic == nil {
			x, ok = o.Ret[0], true
		}
		if rt, isRT := x.(ai.RT); !ok || !isRT || !types.Identical(rt.T, t) {
			note("TypeOfType", "%s: %s", t, o.Describe())
		}
		o = single(it.RunFrom(st, isn, nil, nil, []ai.Value{ai.RT{T: t}}), "IsNilable")
		if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(nl[i]) {
			note("IsNilable", "%s: %s", t, o.Describe())
		}
		o = single(it.RunT(st, istn, []types.Type{t}, nil), "IsTypeNilable")
		if o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(nl[i]) {
			note("IsTypeNilable", "%s: %s", t, o.Describe())
		}
		for _, f := range []*ssa.Function{name, tname} {
			if f == name {
				o = single(it.RunFrom(st, f, nil, nil, []ai.Value{ai.RT{T: t}}), "GetReflectName")
			} else {
				o = single(it.RunT(st, f, []types.Type{t}, nil), "NameOfType")
			}
			if o.Panic != nil {
				note(f.Name(), "%s: %s", t, o.Describe())
				continue
			}
			s, known := ai.StrOf(o.Ret[0])
			if known && s == "" {
				note(f.Name(), "%s: no name", t)
			}
			want := ""
			switch t := t.(type) {
			case *types.Named:
				want = t.Obj().Name()
			case *types.Basic:
				if t.Kind() != types.UnsafePointer {
					want = t.Name()
				}
			case *types.Pointer:
				if b, ok := t.Elem().(*types.Basic); ok {
					want = "*" + b.Name()
				}
			}
			if want != "" && (!known || s != want) {
				note(f.Name(), "%s: %s", t, o.Describe())
			}
		}
		v := ai.Sym{Key: "value", T: t}
		o = single(it.RunT(st, acopy, []types.Type{t}, []ai.Value{v}), "AddressOfCopy")
		if o.Panic != nil {
			note("AddressOfCopy", "panics")
		} else if p, ok := o.Ret[0].(ai.Ptr); !ok || o.St.Key(o.St.Load(p)) != "value" {
			note("AddressOfCopy", "%s", o.Describe())
		}
	}
	for _, f := range []*ssa.Function{tof, isn, istn, name, tname, acopy} {
		r.Ok("S01.reflect", f.Name(), f.Pos(), "right for every kind of type", bad[f.Name()] == "", bad[f.Name()])
	}
	r.Count("types", len(ts))
	r.noteVisited(it)
}

func s01Methods(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	f := r.need(pkg, "DoesMethodExist")
	p := types.NewPackage("p", "p")
	tup := func(ts ...types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewParam(0, p, "", t))
		}
		return types.NewTuple(vs...)
	}
	i64 := types.Typ[types.Int64]
	shapes := [][2][]types.Type{{{}, {}}, {{tInt}, {}}, {{}, {tInt}}, {{tInt, tStr}, {tInt, errIface}}, {{anyIface}, {anyIface}}, {{tInt}, {anyIface}}, {{anyIface}, {tInt}}, {{tStr, tInt}, {errIface, tInt}}, {{i64}, {i64}}, {{errIface, tInt}, {tInt}}}
	iface := func() *types.Interface {
		var ms []*types.Func
		for i, s := range shapes {
			ms = append(ms, types.NewFunc(0, p, fmt.Sprintf("M%d", i), types.NewSignatureType(nil, nil, nil, tup(s[0]...), tup(s[1]...), false)))
		}
		t := types.NewInterfaceType(ms, nil)
		t.Complete()
		return t
	}()
	named := types.NewNamed(types.NewTypeName(0, p, "T", nil), types.NewStruct(nil, nil), nil)
	for i, s := range shapes {
		var rt types.Type = named
		if i%2 == 1 {
			rt = types.NewPointer(named)
		}
		named.AddMethod(types.NewFunc(0, p, fmt.Sprintf("M%d", i), types.NewSignatureType(types.NewParam(0, p, "t", rt), nil, nil, tup(s[0]...), tup(s[1]...), false)))
	}
	rts := func(st *ai.State, ts []types.Type) ai.Value {
		var vs []ai.Value
		for _, t := range ts {
			vs = append(vs, ai.RT{T: t})
		}
		return st.NewSlice(types.NewSlice(anyIface), vs...)
	}
	bad := ""
	n := 0
	for _, recv := range []types.Type{named, types.NewPointer(named), iface} {
		for i := -1; i < len(shapes); i++ {
			mn := fmt.Sprintf("M%d", i)
			if i < 0 {
				mn = "Missing"
			}
			ms := types.NewMethodSet(recv)
			sel := ms.Lookup(p, mn)
			for _, s := range shapes {
				want := sel != nil && len(s[0]) == len(shapes[max(i, 0)][0]) && len(s[1]) == len(shapes[max(i, 0)][1])
				if want {
					for k, t := range s[0] {
						want = want && types.AssignableTo(t, shapes[i][0][k])
					}
					for k, t := range s[1] {
						want = want && types.AssignableTo(shapes[i][1][k], t)
					}
				}
				st := it.Base.Clone()
				o := single(it.RunFrom(st, f, nil, nil, []ai.Value{ai.RT{T: recv}, ai.KStr(mn), rts(st, s[0]), rts(st, s[1])}), "DoesMethodExist")
				n++
				d := ""
				switch {
				case o.Panic != nil:
					d = "panics"
				case o.St.Key(o.Ret[0]) != fmt.Sprint(want):
					d = "wrong answer " + o.Describe()
				default:
					s, ok := ai.StrOf(o.Ret[1])
					if want != (ok && s == "") {
						d = "wrong reason " + o.Describe()
					}
				}
				if d != "" && bad == "" {
					bad = fmt.Sprintf("%s on receiver %s asked for %v: %s", mn, recv, s, d)
				}
			}
		}
	}
	r.Count("method queries", n)
	r.Ok("S01.method", "DoesMethodExist", f.Pos(), "true exactly if there is such a method, up to assignability; a reason otherwise", bad == "", bad)
	r.noteVisited(it)
}

func s01FixNil(r *Run) {
	const pkg = "bandersnatch/common"
	it := ai.New(r.P, "internal/utils")
	f := r.need(pkg, "CallFunction_FixNil")
	ts, nl := kindTypes()
	bad := ""
	note := func(g string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(g, a...)
		}
	}
	n := 0
	var called []string
	it.Opaque = func(it *ai.Interp, st *ai.State, fn ai.Sym, args []ai.Value) (ai.Value, bool) {
		var ks []string
		for _, a := range args {
			ks = append(ks, st.Key(a))
		}
		called = append(called, strings.Join(ks, ";"))
		return ai.Tuple{ai.Sym{Key: "result", T: tInt}}, true
	}
	for i, t := range ts {
		for _, pattern := range []string{"n", "v", "nv", "vn", "nn", "vv", "vnv"} {
			sig := types.NewSignatureType(nil, nil, nil, func() *types.Tuple {
				var vs []*types.Var
				for range pattern {
					vs = append(vs, types.NewParam(0, nil, "", t))
				}
				return types.NewTuple(vs...)
			}(), types.NewTuple(types.NewParam(0, nil, "", tInt)), false)
			st := it.Base.Clone()
			var in []ai.Value
			var want []string
			for k, c := range pattern {
				if c == 'n' {
					in = append(in, ai.RV{})
					want = append(want, st.Key(ai.Zero(t)))
				} else {
					v := ai.Sym{Key: fmt.Sprintf("a%d", k), T: t}
					in = append(in, ai.RV{V: v, T: t})
					want = append(want, v.Key)
				}
			}
			ins := st.NewSlice(types.NewSlice(anyIface), in...)
			called = nil
			o := single(it.RunFrom(st, f, nil, nil, []ai.Value{ai.RV{V: ai.Sym{Key: "fun", T: sig}, T: sig}, ins}), "CallFunction_FixNil")
			n++
			refuse := !nl[i] && strings.Contains(pattern, "n")
			switch {
			case refuse && (o.Panic == nil || len(called) > 0):
				note("nil is passed for %s", t)
			case refuse:
			case o.Panic != nil:
				note("%s with arguments %s: %s", t, pattern, o.Describe())
			case len(called) != 1 || called[0] != strings.Join(want, ";"):
				note("%s with arguments %s: called with %v, want %v", t, pattern, called, want)
			default:
				s, ok := o.Ret[0].(ai.Slice)
				if !ok || s.Len != 1 || !strings.Contains(o.St.Key(o.St.Elems(s)[0]), "result") {
					note("the results of the function are not returned: %s", o.Describe())
				}
			}
		}
	}
	// not a function
	st := it.Base.Clone()
	o := single(it.RunFrom(st, f, nil, nil, []ai.Value{ai.RV{V: ai.KInt(1, tInt), T: tInt}, st.NewSlice(types.NewSlice(anyIface))}), "CallFunction_FixNil")
	if o.Panic == nil {
		note("a value that is no function is accepted")
	}
	r.Count("reflected calls", n)
	r.Ok("S01.call", "CallFunction_FixNil", f.Pos(), "calls the function once with nil in place of invalid values, refuses nil where impossible", bad == "", bad)
	r.noteVisited(it)
}

func s01Bind(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	for _, c := range []struct {
		n string
		k int
	}{{"Bind2", 2}, {"Bind23", 3}, {"Bind234", 4}, {"Bind2345", 5}} {
		f := r.need(pkg, c.n)
		var ts []types.Type
		var vs []*types.Var
		for i := 0; i < c.k; i++ {
			ts = append(ts, tInt)
			vs = append(vs, types.NewParam(0, nil, "", tInt))
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), nil, false)
		var called []string
		it.Opaque = func(it *ai.Interp, st *ai.State, fn ai.Sym, args []ai.Value) (ai.Value, bool) {
			s := ""
			for _, a := range args {
				s += st.Key(a) + " "
			}
			called = append(called, s)
			return ai.Tuple{}, true
		}
		args := []ai.Value{ai.Sym{Key: "f", T: sig}}
		want := "x1 "
		for i := 2; i <= c.k; i++ {
			args = append(args, ai.Sym{Key: fmt.Sprintf("x%d", i), T: tInt})
			want += fmt.Sprintf("x%d ", i)
		}
		o := single(it.RunT(it.Base.Clone(), f, ts, args), c.n)
		bad := ""
		if g, ok := o.Ret[0].(ai.Fn); o.Panic == nil && ok {
			for i := 0; i < 2; i++ {
				called = nil
				o2 := single(it.RunFrom(o.St, g.F, g.Env, g.Bind, []ai.Value{ai.Sym{Key: "x1", T: tInt}}), c.n)
				if o2.Panic != nil || len(called) != 1 || called[0] != want {
					bad = fmt.Sprintf("calls f with %v", called)
				}
				o.St = o2.St
			}
		} else {
			bad = o.Describe()
		}
		r.Ok("S01.bind", c.n, f.Pos(), "the bound function calls f once with the arguments in order", bad == "", bad)
	}
	r.noteVisited(it)
}

// s01Fields: AllFields lists the fields with those of embedded structs, in order, with independent index sequences.
func s01Fields(r *Run) {
	const pkg = "internal/utils"
	it := ai.New(r.P, pkg)
	f := r.need(pkg, "AllFields")
	tp := it.P.SPkgs[load.Path(pkg)].Pkg
	named := func(n string, t types.Type) *types.Named {
		return types.NewNamed(types.NewTypeName(token.NoPos, tp, n, nil), t, nil)
	}
	v := func(n string, t types.Type, emb bool) *types.Var { return types.NewField(token.NoPos, tp, n, t, emb) }
	st := func(fs ...*types.Var) *types.Struct { return types.NewStruct(fs, nil) }
	num := named("Num", tInt)
	ifc := named("Ifc", types.NewInterfaceType(nil, nil))
	leaf := named("Leaf", st(v("P", tInt, false), v("Q", tStr, false)))
	none := named("None", st())
	ptr := named("HoldsPtr", st(v("Leaf", types.NewPointer(leaf), true), v("R", tInt, false)))
	mid := named("Mid", st(v("A", tInt, false), v("Leaf", leaf, true), v("B", tInt, false), v("None", none, true)))
	deep := named("Deep", st(v("Mid", mid, true), v("C", tInt, false), v("HoldsPtr", ptr, true)))
	cyc := named("Cyc", nil)
	cyc.SetUnderlying(st(v("D", tInt, false), v("Cyc", types.NewPointer(cyc), true)))
	cases := []types.Type{none, leaf, num, ifc, types.NewPointer(leaf), tStr,
		st(v("X", tInt, false)), st(v("Num", num, true), v("Ifc", ifc, true), v("Leaf", leaf, false)),
		st(v("PNum", types.NewPointer(num), true), v("X", tInt, false)),
		mid, ptr, deep, cyc,
		st(v("HoldsPtr", ptr, true), v("Leaf", leaf, true)), // the pointer is not the last embedded field
		st(v("Leaf", leaf, true), v("HoldsPtr", ptr, true)),
		st(v("Cyc", types.NewPointer(cyc), true), v("Mid", mid, true), v("Leaf", leaf, true)),
		st(v("Deep", deep, true), v("Deep2", named("Deep2", deep.Underlying()), true), v("Z", tStr, false)),
	}
	type fld struct {
		name string
		t    types.Type
		idx  []int
	}
	var ref func(s *types.Struct, pre []int) ([]fld, bool)
	ref = func(s *types.Struct, pre []int) (out []fld, p bool) {
		for i := 0; i < s.NumFields(); i++ {
			x := s.Field(i)
			idx := append(append([]int{}, pre...), i)
			out = append(out, fld{x.Name(), x.Type(), idx})
			if !x.Embedded() {
				continue
			}
			if u, ok := x.Type().Underlying().(*types.Struct); ok {
				o, q := ref(u, idx)
				out, p = append(out, o...), p || q
			} else if u, ok := x.Type().Underlying().(*types.Pointer); ok {
				_, q := u.Elem().Underlying().(*types.Struct)
				p = p || q
			}
		}
		return
	}
	bad := ""
	note := func(t types.Type, s string, a ...any) {
		if bad == "" {
			bad = types.TypeString(t, types.RelativeTo(tp)) + ": " + fmt.Sprintf(s, a...)
		}
	}
	var sf *types.Struct
	for _, p := range it.P.SSA.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			sf = p.Pkg.Scope().Lookup("StructField").Type().Underlying().(*types.Struct)
		}
	}
	if sf == nil {
		panic(vg.Undecided{Msg: "reflect.StructField is missing"})
	}
	for _, t := range cases {
		o := single(it.RunFrom(it.Base.Clone(), f, nil, nil, []ai.Value{ai.RT{T: t}}), "AllFields")
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			if o.Panic == nil {
				note(t, "no panic")
			}
			continue
		}
		want, wp := ref(s, nil)
		if o.Panic != nil {
			note(t, "%s", o.Describe())
			continue
		}
		l, ok := o.Ret[0].(ai.Slice)
		if !ok {
			note(t, "%s", o.Describe())
			continue
		}
		es := o.St.Elems(l)
		if len(es) != len(want) || o.St.Key(o.Ret[1]) != fmt.Sprint(wp) {
			note(t, "%d fields, embedded pointer %s; want %d, %v", len(es), o.St.Key(o.Ret[1]), len(want), wp)
			continue
		}
		seen := map[int]bool{}
		for i, x := range es {
			a, ok := x.(ai.Agg)
			if !ok {
				panic(vg.Undecided{Msg: "form of a StructField"})
			}
			for k := 0; k < sf.NumFields(); k++ {
				switch sf.Field(k).Name() {
				case "Name":
					if n, _ := ai.StrOf(a[k]); n != want[i].name {
						note(t, "field %d is %s, want %s", i, n, want[i].name)
					}
				case "Type":
					y := a[k]
					if j, ok := y.(ai.Iface); ok {
						y = j.V
					}
					if rt, ok := y.(ai.RT); !ok || !types.Identical(rt.T, want[i].t) {
						note(t, "field %s has type %s", want[i].name, o.St.Key(a[k]))
					}
				case "Index":
					ix, ok := a[k].(ai.Slice)
					if !ok {
						note(t, "field %s has no index", want[i].name)
						continue
					}
					var got []int
					for _, e := range o.St.Elems(ix) {
						n, _ := ai.IntOf(e)
						got = append(got, n)
					}
					if fmt.Sprint(got) != fmt.Sprint(want[i].idx) {
						note(t, "field %s has index %v, want %v", want[i].name, got, want[i].idx)
					}
					if seen[ix.O] {
						note(t, "the index sequences of several fields share memory")
					}
					seen[ix.O] = true
				}
			}
		}
	}
	r.Count("struct types", len(cases))
	r.Ok("S01.fields", "AllFields", f.Pos(), "lists the fields and those of embedded structs in order with independent index sequences, reports embedded struct pointers, panics for other types", bad == "", bad)
	r.noteVisited(it)
}
