package chk

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
)

func init() {
	register(&Property{ID: "S03", Level: "other", Technique: techAI, F: s03,
		Note: "all thresholds up to 3 (thorough 4), all sequences of up to 4 (thorough 5) operations with transfers of up to 3 bytes; the byte buffer of the standard library is modelled; slices over arrays of up to 3 elements; opaque functions that return or panic"})
}

func s03(r *Run) {
	r.aiGo("S03.io", "FaultyBuffer", func() { s03IO(r) })
	r.aiGo("S03.alias", "CheckSliceAlias", func() { s03Alias(r) })
	r.aiGo("S03.panic", "CheckPanic", func() { s03Panic(r) })
	r.Wait()
}

// bytesBuffer models bytes.Buffer: field 0 is the slice of unread bytes (every operation stores a new one).
func bytesBuffer(it *ai.Interp) {
	get := func(st *ai.State, p ai.Value) []ai.Value {
		b, ok := st.Load(p.(ai.Ptr)).(ai.Agg)
		if !ok {
			return nil
		}
		if s, ok := b[0].(ai.Slice); ok {
			return st.Elems(s)
		}
		return nil
	}
	put := func(st *ai.State, p ai.Value, es []ai.Value) {
		b := append(ai.Agg{}, st.Load(p.(ai.Ptr)).(ai.Agg)...)
		b[0] = st.NewSlice(types.NewSlice(types.Typ[types.Byte]), es...)
		st.Store(p.(ai.Ptr), b)
	}
	set := func(n string, f func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool)) {
		it.Models["(*bytes.Buffer)."+n] = func(it *ai.Interp, st *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
			if _, ok := args[0].(ai.Ptr); !ok {
				return nil, false
			}
			return f(st, fn, args)
		}
	}
	elems := func(st *ai.State, v ai.Value) []ai.Value {
		if s, ok := v.(ai.Slice); ok {
			return st.Elems(s)
		}
		return nil
	}
	set("Write", func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		es := elems(st, args[1])
		put(st, args[0], append(append([]ai.Value{}, get(st, args[0])...), es...))
		return ai.Tuple{ai.KInt(int64(len(es)), tInt), ai.Nil{T: errIface}}, true
	})
	set("Read", func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		have := get(st, args[0])
		s, ok := args[1].(ai.Slice)
		if !ok || s.Len == 0 {
			return ai.Tuple{ai.KInt(0, tInt), ai.Nil{T: errIface}}, true
		}
		if len(have) == 0 {
			return ai.Tuple{ai.KInt(0, tInt), ai.Sym{Key: "EOF", T: errIface}}, true
		}
		n := min(len(have), s.Len)
		for i := 0; i < n; i++ {
			st.Store(ai.Ptr{O: s.O, Path: ai.PathPush(s.Path, s.Off+i)}, have[i])
		}
		put(st, args[0], have[n:])
		return ai.Tuple{ai.KInt(int64(n), tInt), ai.Nil{T: errIface}}, true
	})
	set("Reset", func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		put(st, args[0], nil)
		return nil, true
	})
	set("Len", func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		return ai.KInt(int64(len(get(st, args[0]))), tInt), true
	})
	set("Bytes", func(st *ai.State, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		b := st.Load(args[0].(ai.Ptr)).(ai.Agg)
		if s, ok := b[0].(ai.Slice); ok {
			return s, true
		}
		return ai.Nil{T: types.NewSlice(types.Typ[types.Byte])}, true
	})
}

func s03IO(r *Run) {
	const pkg = "internal/testutils"
	it := ai.New(r.P, pkg)
	bytesBuffer(it)
	mk := r.need(pkg, "NewFaultyBuffer")
	m := map[string]*ssa.Function{}
	for _, n := range []string{"Read", "Write", "Reset", "SetContent", "Bytes"} {
		m[n] = r.need(pkg, "FaultyBuffer."+n)
	}
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	maxT, depth := 3, 4
	if r.Thorough() {
		maxT, depth = 4, 5
	}
	byteT := types.Typ[types.Byte]
	bs := types.NewSlice(byteT)
	const designated = "designated"
	n := 0
	type ref struct {
		content  []string
		rd, wr   int
		rdFaulty bool
		wrFaulty bool
	}
	var explore func(st *ai.State, fb ai.Value, thr int, x ref, hist string, d int)
	// the designated error, possibly wrapped
	isDesignated := func(st *ai.State, v ai.Value, exact bool) bool {
		k := st.Key(v)
		if exact {
			return k == designated
		}
		return strings.Contains(k, designated)
	}
	fresh := 0
	explore = func(st *ai.State, fb ai.Value, thr int, x ref, hist string, d int) {
		if bad != "" {
			return
		}
		call := func(f string, st *ai.State, args ...ai.Value) (ai.Outcome, bool) {
			n++
			o := single(it.RunFrom(st, m[f], nil, nil, append([]ai.Value{fb}, args...)), f)
			if o.Panic != nil {
				note("threshold %d:%s: %s: %s", thr, hist, f, o.Describe())
				return o, false
			}
			return o, true
		}
		o, ok := call("Bytes", st)
		if !ok {
			return
		}
		var got []string
		if s, ok := o.Ret[0].(ai.Slice); ok {
			for _, e := range o.St.Elems(s) {
				got = append(got, o.St.Key(e))
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(x.content) {
			note("threshold %d:%s: the unread content is %v, want %v", thr, hist, got, x.content)
			return
		}
		if d == 0 {
			return
		}
		syms := func(k int) (vs []ai.Value, ks []string) {
			for i := 0; i < k; i++ {
				fresh++
				s := ai.Sym{Key: fmt.Sprintf("b%d", fresh), T: byteT}
				vs, ks = append(vs, s), append(ks, s.Key)
			}
			return
		}
		errOK := func(what string, v ai.Value, st *ai.State, fault, repeated bool) bool {
			k := st.Key(v)
			switch {
			case !fault && !repeated && !strings.HasPrefix(k, "nil"):
				note("threshold %d:%s: %s: error %s, want none", thr, hist, what, k)
			case fault && !isDesignated(st, v, true) || repeated && !isDesignated(st, v, false):
				note("threshold %d:%s: %s: %s, want the designated error", thr, hist, what, k)
			default:
				return true
			}
			return false
		}
		for k := 0; k <= 3; k++ {
			// write k bytes
			s := st.Clone()
			vs, ks := syms(k)
			what := fmt.Sprintf("Write(%d bytes)", k)
			if o, ok := call("Write", s, s.NewSlice(bs, vs...)); ok {
				y := x
				want := k
				fault := false
				rep := false
				if k > 0 {
					rep = x.wrFaulty
					if rep {
						want = 0
					} else if x.wr+k > thr {
						want, fault = thr-x.wr, true
					}
				}
				c, ok := ai.IntOf(o.Ret[0])
				if !ok || c != want {
					note("threshold %d:%s: %s: count %s, want %d", thr, hist, what, o.St.Key(o.Ret[0]), want)
					return
				}
				if !errOK(what, o.Ret[1], o.St, fault, rep) {
					return
				}
				y.wr += want
				y.wrFaulty = y.wrFaulty || fault
				y.content = append(append([]string{}, x.content...), ks[:want]...)
				explore(o.St, fb, thr, y, hist+" "+what, d-1)
			}
			// read k bytes
			s = st.Clone()
			vs, ks = syms(k)
			buf := s.NewSlice(bs, vs...)
			what = fmt.Sprintf("Read(%d bytes)", k)
			if o, ok := call("Read", s, buf); ok {
				y := x
				want := min(k, len(x.content))
				fault, rep, eof := false, false, false
				if k > 0 {
					rep = x.rdFaulty
					switch {
					case rep:
						want = 0
					case x.rd+want >= thr && x.rd+k > thr:
						// the threshold is reached and exceeded by the request
						want, fault = thr-x.rd, true
					case want == 0:
						eof = true
					}
				}
				c, ok := ai.IntOf(o.Ret[0])
				if !ok || c != want {
					note("threshold %d:%s: %s: count %s, want %d", thr, hist, what, o.St.Key(o.Ret[0]), want)
					return
				}
				if eof {
					if o.St.Key(o.Ret[1]) != "EOF" {
						note("threshold %d:%s: %s: %s, want the end of the content", thr, hist, what, o.St.Key(o.Ret[1]))
						return
					}
				} else if !errOK(what, o.Ret[1], o.St, fault, rep) {
					return
				}
				for i, e := range o.St.Elems(buf) {
					w := ks[i]
					if i < want {
						w = x.content[i]
					}
					if o.St.Key(e) != w {
						note("threshold %d:%s: %s: byte %d is wrong", thr, hist, what, i)
						return
					}
				}
				y.rd += want
				y.rdFaulty = y.rdFaulty || fault
				y.content = x.content[want:]
				explore(o.St, fb, thr, y, hist+" "+what, d-1)
			}
		}
		if o, ok := call("Reset", st.Clone()); ok {
			explore(o.St, fb, thr, ref{}, hist+" Reset", min(d-1, 2))
		}
		for _, k := range []int{0, 2, 5} {
			s := st.Clone()
			vs, ks := syms(k)
			if o, ok := call("SetContent", s, s.NewSlice(bs, vs...)); ok {
				explore(o.St, fb, thr, ref{content: ks}, hist+fmt.Sprintf(" SetContent(%d bytes)", k), min(d-1, 3))
			}
		}
	}
	for thr := 0; thr <= maxT; thr++ {
		st := it.Base.Clone()
		st.SetOracle(func(a string) (bool, bool) { return false, strings.Contains(a, "nil") })
		o := single(it.RunFrom(st, mk, nil, nil, []ai.Value{ai.KInt(int64(thr), tInt), ai.Sym{Key: designated, T: errIface}}), "NewFaultyBuffer")
		if o.Panic != nil {
			note("NewFaultyBuffer: %s", o.Describe())
			break
		}
		explore(o.St, o.Ret[0], thr, ref{}, "", depth)
		o = single(it.RunFrom(it.Base.Clone(), mk, nil, nil, []ai.Value{ai.KInt(int64(thr), tInt), ai.Nil{T: errIface}}), "NewFaultyBuffer")
		if o.Panic == nil {
			note("NewFaultyBuffer accepts a nil error")
		}
	}
	// the zero value is refused
	zt := r.P.Type(pkg, "FaultyBuffer")
	for nme, f := range m {
		st := it.Base.Clone()
		p := st.Alloc(zt, ai.Zero(zt))
		args := []ai.Value{p}
		if f.Signature.Params().Len() == 1 {
			args = append(args, st.NewSlice(bs, ai.KInt(1, byteT)))
		}
		if o := single(it.RunFrom(st, f, nil, nil, args), nme); o.Panic == nil {
			note("%s on a zero FaultyBuffer does not panic", nme)
		}
	}
	r.Count("buffer operations", n)
	r.Ok("S03.io", "FaultyBuffer", m["Read"].Pos(), "behaves like a buffer until exactly the threshold, then fails with the designated error", bad == "", bad)
	r.noteVisited(it)
}

func s03Alias(r *Run) {
	const pkg = "internal/testutils"
	it := ai.New(r.P, pkg)
	f := r.need(pkg, "CheckSliceAlias")
	sl := types.NewSlice(tInt)
	bad := ""
	n := 0
	type sd struct {
		arr, off, ln, cp int // arr -1: nil
	}
	var ds []sd
	ds = append(ds, sd{arr: -1})
	for arr := 0; arr < 2; arr++ {
		for size := 3; size >= 0; size -= 3 {
			a := arr
			if size == 0 {
				a += 2
			}
			for off := 0; off <= size; off++ {
				for ln := 0; off+ln <= size; ln++ {
					ds = append(ds, sd{a, off, ln, size - off})
				}
			}
		}
	}
	for _, x := range ds {
		for _, y := range ds {
			st := it.Base.Clone()
			var arrs []ai.Slice
			for i := 0; i < 4; i++ {
				var vs []ai.Value
				for k := 0; k < 3 && i < 2; k++ {
					vs = append(vs, ai.KInt(0, tInt))
				}
				arrs = append(arrs, st.NewSlice(sl, vs...))
			}
			mk := func(d sd) ai.Value {
				if d.arr < 0 {
					return ai.Nil{T: sl}
				}
				s := arrs[d.arr]
				s.Off, s.Len, s.Cap = d.off, d.ln, d.cp
				return s
			}
			o := single(it.RunT(st, f, []types.Type{tInt}, []ai.Value{mk(x), mk(y)}), "CheckSliceAlias")
			n++
			want := x.arr >= 0 && x.arr == y.arr && x.cp > 0 && y.cp > 0
			if bad == "" && (o.Panic != nil || o.St.Key(o.Ret[0]) != fmt.Sprint(want)) {
				bad = fmt.Sprintf("slices %+v, %+v: %s, want %v", x, y, o.Describe(), want)
			}
		}
	}
	r.Count("pairs of slices", n)
	r.Ok("S03.alias", "CheckSliceAlias", f.Pos(), "true exactly for slices of one array with capacity left", bad == "", bad)
	r.noteVisited(it)
}

func s03Panic(r *Run) {
	const pkg = "internal/testutils"
	it := ai.New(r.P, pkg)
	f1, f2 := r.need(pkg, "CheckPanic"), r.need(pkg, "CheckPanic2")
	bad := ""
	n := 0
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var how string
	calls := 0
	panics := map[string]ai.Value{
		"string":         ai.Iface{T: tStr, V: ai.KStr("boom")},
		"reflect string": ai.Iface{T: tStr, V: ai.KStr("reflect: call of a wrong function")},
		"int":            ai.Iface{T: tInt, V: ai.KInt(7, tInt)},
		"empty string":   ai.Iface{T: tStr, V: ai.KStr("")},
	}
	it.Opaque = func(it *ai.Interp, st *ai.State, fn ai.Sym, args []ai.Value) (ai.Value, bool) {
		calls++
		if v, ok := panics[how]; ok {
			return ai.PanicValue(v), true
		}
		return ai.Tuple{}, true
	}
	ptr := types.NewPointer(tInt)
	for _, params := range [][]types.Type{nil, {tInt}, {tInt, tStr}, {ptr}, {anyIface, tInt}} {
		var vs []*types.Var
		for _, t := range params {
			vs = append(vs, types.NewParam(0, nil, "", t))
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), nil, false)
		for _, h := range []string{"returns", "string", "reflect string", "int", "empty string"} {
			for argSet := 0; argSet < 3; argSet++ {
				how = h
				st := it.Base.Clone()
				var as []ai.Value
				valid := true
				for i, t := range params {
					switch argSet {
					case 0:
						dt := t
						if types.IsInterface(t) {
							dt = tInt
						}
						as = append(as, ai.Iface{T: dt, V: ai.Sym{Key: fmt.Sprintf("a%d", i), T: dt}})
					case 1:
						as = append(as, ai.Nil{T: anyIface})
						if t == tInt || t == tStr {
							valid = false
						}
					}
				}
				if argSet == 2 {
					// one argument too many
					valid = false
					for range len(params) + 1 {
						as = append(as, ai.Iface{T: tInt, V: ai.KInt(1, tInt)})
					}
				}
				if len(params) == 0 && argSet == 1 {
					continue
				}
				for _, f := range []*ssa.Function{f1, f2} {
					calls = 0
					n++
					o := single(it.RunFrom(st, f, nil, nil, []ai.Value{ai.Iface{T: sig, V: ai.Sym{Key: "fun", T: sig}}, st.NewSlice(types.NewSlice(anyIface), as...)}), f.Name())
					where := fmt.Sprintf("%s, function with %d parameters that %s (%s), arguments %d", f.Name(), len(params), map[bool]string{true: "returns", false: "panics"}[h == "returns"], h, argSet)
					want := h != "returns"
					switch {
					case !valid || h == "reflect string":
						if o.Panic == nil || !valid && calls > 0 {
							note("%s: a wrong use is not reported", where)
						}
					case o.Panic != nil:
						note("%s: %s", where, o.Describe())
					case calls != 1:
						note("%s: the function is called %d times", where, calls)
					case o.St.Key(o.Ret[0]) != fmt.Sprint(want):
						note("%s: %s", where, o.Describe())
					case f == f2:
						w := o.St.Key(panics[h])
						if g := o.St.Key(o.Ret[1]); want && g != w || !want && !strings.HasPrefix(g, "nil") {
							note("%s: panic value %s", where, g)
						}
					}
				}
			}
		}
	}
	r.Count("guarded calls", n)
	r.Ok("S03.panic", "CheckPanic, CheckPanic2", f2.Pos(), "true, with the panic value, exactly if the function panics", bad == "", bad)
	r.noteVisited(it)
}
