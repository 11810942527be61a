package chk

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/vg"
)

const etPkg = "internal/errorTransform"

func init() {
	register(&Property{ID: "E08", Level: "other", Technique: techAI, F: e08,
		Note: "errors: nil, io.EOF, io.ErrUnexpectedEOF, opaque foreign ones, foreign wrappers, errors of this library with and without data around each, nested twice; errors.Is is the chain of Unwrap"})
}

func e08(r *Run) {
	r.aiGo("E08.eof", "UnexpectEOF", func() { e08Run(r, "UnexpectEOF", false) })
	r.aiGo("E08.eof", "UnexpectEOF2", func() { e08Run(r, "UnexpectEOF2", true) })
	r.Wait()
}

func e08Run(r *Run, name string, typed bool) {
	e := newEwd(r)
	e.foreign()
	eof := ai.Sym{Key: "plainEOF", T: errIface}
	ueof := ai.Sym{Key: "plainUnexpected", T: errIface}
	e.it.GlobalHook = func(it *ai.Interp, g *ssa.Global) (ai.Value, bool) {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "io" {
			switch g.Name() {
			case "EOF":
				return eof, true
			case "ErrUnexpectedEOF":
				return ueof, true
			}
		}
		return nil, false
	}
	st := e.it.Base.Clone()
	st.SetOracle(func(a string) (bool, bool) {
		for _, k := range []string{"plainEOF", "plainUnexpected", "plain"} {
			switch a {
			case "nil(Unwrap(" + k + "))":
				return true, true
			case "nil(" + k + ")":
				return false, true
			}
		}
		if len(a) > 8 && (a[:8] == "is(plain" || len(a) > 10 && a[:10] == "impl(plain") {
			return false, true
		}
		if len(a) > 3 && a[:3] == "eq(" { // the three foreign errors differ
			return false, true
		}
		return false, false
	})
	// the chain of Unwrap
	chain := func(it *ai.Interp, s *ai.State, v ai.Value) []string {
		var out []string
		for i := 0; i < 20; i++ {
			switch x := v.(type) {
			case ai.Nil:
				return out
			case ai.Sym:
				return append(out, x.Key)
			case ai.Iface:
				out = append(out, s.Key(v))
				if t, ok := x.V.(ai.Tuple); ok {
					v = t[0]
					continue
				}
				if !it.HasMethod(x.T, "Unwrap") {
					return out
				}
				u := only(it.CallMethod(s.Clone(), v, "Unwrap"), "Unwrap")
				if u.Panic != nil {
					panic(vg.Undecided{Msg: "Unwrap: " + u.Describe()})
				}
				v = u.Ret[0]
			default:
				panic(vg.Undecided{Msg: "error of unknown form " + s.Key(v)})
			}
		}
		panic(vg.Undecided{Msg: "endless chain of errors"})
	}
	is := func(it *ai.Interp, s *ai.State, v ai.Value, k string) bool {
		for _, x := range chain(it, s, v) {
			if x == k {
				return true
			}
		}
		return false
	}
	e.it.Models["errors.Is"] = func(it *ai.Interp, s *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
		return ai.KBool(is(it, s, args[0], s.Key(args[1]))), true
	}
	texts := map[string]string{eof.Key: "EOF", ueof.Key: "unexpected EOF", "plain": "another error"}
	e.it.Invoke = func(it *ai.Interp, s *ai.State, recv ai.Value, m *types.Func, args []ai.Value) (ai.Value, bool) {
		if x, ok := recv.(ai.Sym); ok && m.Name() == "Error" && texts[x.Key] != "" {
			return ai.KStr(texts[x.Key]), true
		}
		return nil, false
	}
	f := r.need(etPkg, name)
	none := types.NewStruct(nil, nil)
	fX := types.NewField(token.NoPos, e.pkg, "X", types.Typ[types.Int], false)
	withX := types.NewStruct([]*types.Var{fX}, nil)
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	repl := e.global(st, "ReplacePreviousData")
	present := e.global(st, "EnsureDataIsPresent")
	type base struct {
		name string
		v    ai.Value
		lib  bool
		data bool // has X
	}
	bases := []base{{"nil", ai.Nil{T: errIface}, false, false}}
	add := func(b base) { bases = append(bases, b) }
	for _, k := range []struct {
		n string
		v ai.Sym
	}{{"io.EOF", eof}, {"io.ErrUnexpectedEOF", ueof}, {"another error", ai.Sym{Key: "plain", T: errIface}}} {
		add(base{k.n, k.v, false, false})
		wrapped := ai.Iface{T: e.errT, V: ai.Tuple{k.v}}
		add(base{"a foreign error wrapping " + k.n, wrapped, false, false})
		for _, in := range []struct {
			n string
			v ai.Value
		}{{k.n, k.v}, {"a foreign error wrapping " + k.n, wrapped}} {
			for i := 0; i < 4; i++ {
				var m ai.Value
				var T types.Type = none
				d := " without data"
				switch i {
				case 0:
					m = st.NewMap(anyMap)
				case 1, 2:
					d = " with data"
					m = st.NewMap(anyMap, ai.KStr("X"), payload(st, "x", types.Typ[types.Int]), ai.KStr("Y"), payload(st, "y", types.Typ[types.Int]))
					if i == 2 {
						T, d = withX, " with typed data"
					}
				case 3:
					d = " with one parameter"
					m = st.NewMap(anyMap, ai.KStr("X"), payload(st, "x", types.Typ[types.Int]))
				}
				o := only(e.run(st, "NewErrorWithData_map", []types.Type{T}, in.v, ai.KStr("message"), repl, present, m), "base error")
				if o.Panic != nil {
					panic(vg.Undecided{Msg: "base error: " + o.Describe()})
				}
				st = o.St
				own := o.Ret[0]
				add(base{"an error of the library" + d + " around " + in.n, own, true, i > 0})
				if i == 2 {
					o = only(e.run(st, "NewErrorWithData_map", []types.Type{T}, own, ai.KStr(""), repl, present, st.NewMap(anyMap, ai.KStr("Y"), payload(st, "z", types.Typ[types.Int]))), "base error")
					if o.Panic != nil {
						panic(vg.Undecided{Msg: "base error: " + o.Describe()})
					}
					st = o.St
					add(base{"two errors of the library around " + in.n, o.Ret[0], true, true})
					add(base{"a foreign error around one of the library around " + in.n, ai.Iface{T: e.errT, V: ai.Tuple{own}}, false, false})
				}
			}
		}
	}
	bad := ""
	n := 0
	data := func(s *ai.State, v ai.Value) string {
		if _, ok := v.(ai.Nil); ok {
			return ""
		}
		o := only(e.run(s.Clone(), "GetData_map", nil, v), "GetData_map")
		if o.Panic != nil {
			return o.Describe()
		}
		m, ok := o.Ret[0].(ai.Map)
		if !ok {
			return o.St.Key(o.Ret[0])
		}
		return mapData(o.St, m)
	}
	targs := []types.Type{none}
	if typed {
		targs = append(targs, withX)
	}
	for _, T := range targs {
		for _, b := range bases {
			if typed && !b.lib && b.name != "nil" || typed && T == types.Type(withX) && !b.data && b.name != "nil" {
				continue
			}
			n++
			s := st.Clone()
			p := s.Alloc(errIface, b.v)
			isEOF := is(e.it, s, b.v, eof.Key)
			before, bdata := s.Key(b.v), data(s, b.v)
			var outs []ai.Outcome
			if typed {
				outs = e.it.RunT(s, f, []types.Type{T}, []ai.Value{p})
			} else {
				outs = e.it.RunFrom(s, f, nil, nil, []ai.Value{p})
			}
			o := only(outs, name)
			d := ""
			if o.Panic != nil {
				d = o.Describe()
			} else {
				v := o.St.Load(p)
				ad := data(o.St, v)
				switch {
				case !isEOF:
					if o.St.Key(v) != before {
						d = "is changed to " + o.St.Key(v)
					}
				case is(e.it, o.St, v, eof.Key):
					d = "still is io.EOF"
				case !is(e.it, o.St, v, ueof.Key):
					d = "does not become io.ErrUnexpectedEOF but " + o.St.Key(v)
				case ad != bdata:
					d = "had data {" + bdata + "}, has data {" + ad + "} afterwards"
				case bdata == "" && !typed && o.St.Key(v) != ueof.Key:
					d = "has no data, but does not become io.ErrUnexpectedEOF itself"
				default:
					if _, plain := v.(ai.Sym); plain {
						break
					}
					m1 := only(e.it.CallMethod(o.St.Clone(), v, "Error"), "Error")
					if m1.Panic != nil {
						d = "Error: " + m1.Describe()
					} else if got := m1.St.Key(m1.Ret[0]); got != `"unexpected EOF"` {
						d = "has the message " + got
					}
				}
				if d == "" && data(o.St, b.v) != bdata {
					d = "the data of the original error is changed"
				}
			}
			if d != "" && bad == "" {
				bad = b.name + ": " + d
			}
		}
	}
	r.Count("errors transformed", n)
	r.Ok("E08.eof", name, f.Pos(), "an error that is io.EOF becomes io.ErrUnexpectedEOF with the same data; others, and nil, are unchanged", bad == "", bad)
	r.noteVisited(e.it)
}

// mapData describes the content of a map.
func mapData(s *ai.State, m ai.Map) string {
	c, ok := s.Obj(m.O).(ai.MapC)
	if !ok {
		return s.Key(m)
	}
	var d []string
	for i := range c.K {
		d = append(d, s.Key(c.K[i])+": "+s.Key(c.V[i]))
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}
