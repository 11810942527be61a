package chk

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/load"
	"verif/vg"
)

func init() {
	register(&Property{ID: "E06", Level: "other", Technique: techAI, F: e06,
		Note: "base errors are opaque (foreign error without extensions, foreign error that can be interpolated), made by this package, foreign errors wrapping one of these, or boxed as incomparable; every constructor and treatment"})
}

// bases lists the kinds of base errors, each with the error that is to be found by unwrapping and the text that the
// default message must produce ("" if the kind is nil).
type e06base struct {
	name   string
	v      ai.Value // as passed
	unbox  ai.Value // as wrapped
	text   func(st *ai.State, params []kv) string
	interp bool
	params []kv
}

func e06(r *Run) {
	for _, mode := range prevModes {
		mode := mode
		r.aiGo("E06.wrap", mode, func() { e06Wrap(newEwd(r), mode) })
	}
	r.aiGo("E06.box", "incomparable errors", func() { e06Box(newEwd(r)) })
	r.Wait()
}

// extOracle adds foreign errors: "fi" can be interpolated, "im" opts into being made incomparable.
func (e *ewd) extOracle(st *ai.State, imAll bool) {
	st.SetOracle(func(a string) (bool, bool) {
		for _, k := range []string{"plain", "fi", "im"} {
			switch {
			case a == "nil(Unwrap("+k+"))":
				return true, true
			case a == "nil("+k+")":
				return false, true
			case strings.HasPrefix(a, "is("+k+","):
				return false, true
			case strings.HasPrefix(a, "impl("+k+","):
				i := a[len("impl("+k+","):]
				switch {
				case strings.Contains(i, "ComparableMaker") && !strings.Contains(i, "Incomparable"):
					return false, true
				case k == "fi":
					return strings.HasSuffix(i, "ErrorInterpolater)"), true
				case k == "im":
					return imAll || strings.HasSuffix(i, "IncomparableMaker)"), true
				}
				return false, true
			}
		}
		return false, false
	})
}

func (e *ewd) errStr(o ai.Outcome, err ai.Value) string {
	x := only(e.it.CallMethod(o.St, err, "Error"), "Error")
	if x.Panic != nil {
		return x.Describe()
	}
	return x.St.Key(x.Ret[0])
}

func e06Wrap(e *ewd, mode string) {
	r := e.r
	e.foreign()
	e.it.Models["(*errors.errorString).Error"] = func(it *ai.Interp, st *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
		return ai.Sym{Key: "foreign.Error()", T: types.Typ[types.String]}, true
	}
	st := e.it.Base.Clone()
	e.extOracle(st, false)
	none := types.NewStruct(nil, nil)
	T := []types.Type{none}
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	must := func(o ai.Outcome, what string) (*ai.State, ai.Value) {
		if o.Panic != nil {
			panic(vg.Undecided{Msg: what + ": " + o.Describe()})
		}
		return o.St, o.Ret[0]
	}
	repl := e.global(st, "ReplacePreviousData")
	q := payload(st, "q", types.Typ[types.Int])
	p := payload(st, "p", types.Typ[types.Int])
	fi := ai.Sym{Key: "fi", T: errIface}
	st, own := must(only(e.run(st, "NewErrorWithData_any_map", nil, plainErr(), ai.KStr("X is $v{X}"), repl, st.NewMap(anyMap, ai.KStr("X"), q)), "base"), "base error")
	st, typed := must(only(e.run(st, "NewErrorWithData_map", []types.Type{types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "X", types.Typ[types.Int], false)}, nil)}, plainErr(), ai.KStr("X is $v{X}"), repl, e.global(st, "EnsureDataIsPresent"), st.NewMap(anyMap, ai.KStr("X"), q)), "base"), "base error")
	foreign := ai.Iface{T: e.errT, V: ai.Tuple{own}}
	im := ai.Sym{Key: "im", T: e.r.P.Type(ewdPkg, "IncomparableMaker")}
	bo := only(e.run(st, "MakeErrorIncomparable", nil, im), "MakeErrorIncomparable")
	var boxed ai.Value
	st, boxed = must(bo, "MakeErrorIncomparable")
	boxT := e.fn("MakeErrorIncomparable").Signature.Results().At(0).Type()
	bv := ai.Value(ai.Iface{T: boxT, V: boxed})
	// message of a base under "$w" given the final parameters
	sprintX := func(st *ai.State, ps []kv) string {
		x, ok := find(ps, "X")
		if !ok {
			return ""
		}
		return st.Key(x.v)
	}
	_ = sprintX
	errT := func(k string) string { return k + ".Error()" }
	type bs struct {
		name    string
		v, in   ai.Value
		kind    string // "nil", "plain", "interp", "own"
		text    string
		oldData bool
	}
	bases := []bs{
		{"nil", ai.Nil{T: errIface}, ai.Nil{T: errIface}, "nil", "", false},
		{"a foreign error", plainErr(), plainErr(), "plain", errT("plain"), false},
		{"a foreign error that can be interpolated", fi, fi, "interp", "", false},
		{"an error with data", own, own, "own", "", true},
		{"a typed error with data", typed, typed, "own", "", true},
		{"a foreign error wrapping one with data", foreign, foreign, "foreign", "", true},
		{"an incomparable error", bv, im, "plain", errT("im"), false},
	}
	var ms []string
	for _, m := range missModes {
		ms = append(ms, m)
	}
	type ctor struct {
		name    string
		add     bool // nil base gives nil, default message
		given   bool // new parameter X
		deleted bool
		call    func(s *ai.State, b ai.Value, txt string) []ai.Outcome
	}
	W := []types.Type{types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "X", types.Typ[types.Int], false)}, nil)}
	m := e.global(st, mode)
	miss := e.global(st, ms[1])
	newMap := func(s *ai.State) ai.Value { return s.NewMap(anyMap, ai.KStr("X"), p) }
	list := func(s *ai.State) ai.Value {
		return s.NewSlice(types.NewSlice(anyIface), ai.Iface{T: types.Typ[types.String], V: ai.KStr("X")}, p)
	}
	sct := func(s *ai.State) ai.Value { return s.Alloc(W[0], ai.Agg{ai.Sym{Key: "ps", T: types.Typ[types.Int]}}) }
	_ = sct
	modes := func(s *ai.State) ai.Value { return s.NewSlice(types.NewSlice(m2t(e, mode)), m) }
	ctors := []ctor{
		{name: "NewErrorWithData_map", given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "NewErrorWithData_map", T, b, ai.KStr(t), m, miss, newMap(s))
		}},
		{name: "NewErrorWithData_params", given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "NewErrorWithData_params", T, b, ai.KStr(t), m, miss, list(s))
		}},
		{name: "NewErrorWithData_any_map", given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "NewErrorWithData_any_map", nil, b, ai.KStr(t), m, newMap(s))
		}},
		{name: "NewErrorWithData_any_params", given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "NewErrorWithData_any_params", nil, b, ai.KStr(t), m, list(s))
		}},
		{name: "NewErrorWithData_struct", given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "NewErrorWithData_struct", W, b, ai.KStr(t), sct(s), modes(s))
		}},
		{name: "AddDataToError_map", add: true, given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AddDataToError_map", T, b, m, miss, newMap(s))
		}},
		{name: "AddDataToError_params", add: true, given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AddDataToError_params", T, b, m, miss, list(s))
		}},
		{name: "AddDataToError_any_map", add: true, given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AddDataToError_any_map", nil, b, m, newMap(s))
		}},
		{name: "AddDataToError_any_params", add: true, given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AddDataToError_any_params", nil, b, m, list(s))
		}},
		{name: "AddDataToError_struct", add: true, given: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AddDataToError_struct", W, b, sct(s), modes(s))
		}},
		{name: "DeleteParameterFromError", add: true, deleted: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "DeleteParameterFromError", T, b, ai.KStr("X"), miss)
		}},
		{name: "DeleteParameterFromError_any", add: true, deleted: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "DeleteParameterFromError_any", nil, b, ai.KStr("X"))
		}},
		{name: "AsErrorWithData", add: true, call: func(s *ai.State, b ai.Value, t string) []ai.Outcome {
			return e.run(s, "AsErrorWithData", T, b, miss)
		}},
	}
	for _, c := range ctors {
		bad := ""
		for _, b := range bases {
			for _, txt := range []string{"", "message"} {
				if c.add && txt != "" {
					continue
				}
				for _, o := range c.call(st.Clone(), b.v, txt) {
					d := ""
					switch {
					case b.kind == "nil" && txt == "" && !c.add:
						if o.Panic == nil {
							d = "neither base error nor message, but no panic"
						}
					case o.Panic != nil:
						if !(mode == "AssertDataIsNotReplaced" && c.given && b.oldData) {
							d = "unexpected " + o.Describe()
						}
					case b.kind == "nil" && c.add:
						if _, ok := o.Ret[0].(ai.Nil); !ok {
							d = "nil error becomes " + o.St.Key(o.Ret[0])
						} else if len(o.Ret) > 1 && o.St.Key(o.Ret[1]) != "true" {
							d = "second result is not true for a nil error"
						}
					default:
						d = e.checkWrap(o, b.in, txt, b.kind, b.text)
					}
					if d != "" && bad == "" {
						bad = fmt.Sprintf("[base: %s, message %q] %s", b.name, txt, d)
					}
				}
			}
		}
		r.Ok("E06.wrap", c.name+" "+mode, e.fn(c.name).Pos(), "wraps exactly the (unboxed) base error; the default message is the base's message with the resulting parameters; nil stays nil or is refused", bad == "", bad)
		r.Count("base errors", len(bases))
	}
	r.noteVisited(e.it)
}

// checkWrap: err unwraps to in; its message is txt or, by default, that of the base error with the parameters of err.
func (e *ewd) checkWrap(o ai.Outcome, in ai.Value, txt, kind, text string) string {
	err := o.Ret[0]
	if _, ok := err.(ai.Iface); !ok {
		return "no error is returned but " + o.St.Key(err)
	}
	u := only(e.it.CallMethod(o.St, err, "Unwrap"), "Unwrap")
	if u.Panic != nil {
		return "Unwrap: " + u.Describe()
	}
	if got, want := u.St.Key(u.Ret[0]), o.St.Key(in); got != want {
		return fmt.Sprintf("wraps %s instead of %s", got, want)
	}
	got := e.errStr(o, err)
	g := only(e.run(o.St, "GetData_map", nil, err), "GetData_map")
	x := only(e.run(g.St, "GetParameter", nil, err, ai.KStr("X")), "GetParameter")
	want := ""
	switch {
	case txt != "":
		want = fmt.Sprintf("%q", txt)
	case kind == "plain":
		want = text
	case kind == "interp":
		want = "fi.Error_interpolate(" + g.St.Key(g.Ret[0]) + ")"
	case kind == "own":
		i := only(e.it.CallMethod(g.St, in, "Error_interpolate", g.Ret[0]), "Error_interpolate")
		want = i.St.Key(i.Ret[0])
		xs := x.St.Key(x.Ret[0])
		if x.St.Key(x.Ret[1]) == "true" && !strings.Contains(got, xs) {
			return fmt.Sprintf("the message is %s; parameter X is %s", got, xs)
		}
	case kind == "foreign":
		want = "foreign.Error()"
	}
	if got != want {
		return fmt.Sprintf("the message is %s, want %s", got, want)
	}
	return ""
}

func e06Box(e *ewd) {
	r := e.r
	e.foreign()
	st := e.it.Base.Clone()
	e.extOracle(st, true)
	st0 := st.Clone()
	pkg := e.r.P.SPkgs[load.Path(ewdPkg)].Pkg
	none := types.NewStruct(nil, nil)
	for _, fn := range []string{"MakeErrorIncomparable", "MakeErrorIncomparable_any", "MakeErrorIncomparable_struct"} {
		f := e.fn(fn)
		bad := ""
		note := func(d string) {
			if d != "" && bad == "" {
				bad = d
			}
		}
		im := ai.Sym{Key: "im", T: f.Signature.Params().At(0).Type()}
		var T []types.Type
		if f.TypeParams() != nil && f.TypeParams().Len() > 0 {
			T = []types.Type{none}
		}
		rt := f.Signature.Results().At(0).Type()
		if _, isI := rt.Underlying().(*types.Interface); isI || types.Comparable(rt) {
			note("the result type " + types.TypeString(rt, types.RelativeTo(pkg)) + " can be compared with ==")
		}
		if T != nil {
			if it, err := types.Instantiate(nil, rt.(*types.Named).Origin(), T, false); err == nil {
				rt = it
			}
		}
		cur := ai.Value(im)
		for level := 1; level <= 2; level++ {
			for _, o := range e.run(st.Clone(), fn, T, cur) {
				if o.Panic != nil {
					note("unexpected " + o.Describe())
					continue
				}
				b := ai.Iface{T: rt, V: o.Ret[0]}
				u := only(e.run(o.St, "UnboxError", nil, b), "UnboxError")
				if u.Panic != nil || u.St.Key(u.Ret[0]) != "im" {
					note(fmt.Sprintf("boxed %d times, unboxing yields %s", level, u.Describe()))
				}
				for _, m := range []string{"AsComparable", "AsComparable_typed"} {
					if m == "AsComparable_typed" && fn == "MakeErrorIncomparable" {
						continue
					}
					if obj, _, _ := types.LookupFieldOrMethod(rt, false, pkg, m); obj == nil {
						continue
					}
					u := only(e.it.CallMethod(o.St, b, m), m)
					if u.Panic != nil || u.St.Key(u.Ret[0]) != "im" {
						note(fmt.Sprintf("boxed %d times, %s yields %s", level, m, u.Describe()))
					}
				}
				for _, m := range []string{"Error"} {
					u := only(e.it.CallMethod(o.St, b, m), m)
					if u.Panic != nil || u.St.Key(u.Ret[0]) != "im.Error()" {
						note(fmt.Sprintf("%s of the boxed error yields %s", m, u.Describe()))
					}
				}
				if un := map[string]string{"MakeErrorIncomparable_any": "UnboxError_any", "MakeErrorIncomparable_struct": "UnboxError_struct"}[fn]; un != "" {
					u := only(e.run(o.St, un, T, b), un)
					if u.Panic != nil || u.St.Key(u.Ret[0]) != "im" {
						note(fmt.Sprintf("boxed %d times, %s yields %s", level, un, u.Describe()))
					}
				}
				if level == 1 {
					st, cur = o.St, b
				}
			}
		}
		r.Ok("E06.box", fn, f.Pos(), "the result is of an incomparable type and unboxes to the error, also if boxed twice", bad == "", bad)
	}
	// boxes of one kind boxed by another function
	for _, c := range [][2]string{{"MakeErrorIncomparable_any", "MakeErrorIncomparable"}, {"MakeErrorIncomparable_struct", "MakeErrorIncomparable"}, {"MakeErrorIncomparable_struct", "MakeErrorIncomparable_any"}} {
		inner, outer := e.fn(c[0]), e.fn(c[1])
		inst := func(f *ssa.Function) ([]types.Type, types.Type) {
			rt := f.Signature.Results().At(0).Type()
			if f.TypeParams() == nil || f.TypeParams().Len() == 0 {
				return nil, rt
			}
			T := []types.Type{none}
			if it, err := types.Instantiate(nil, rt.(*types.Named).Origin(), T, false); err == nil {
				rt = it
			}
			return T, rt
		}
		T1, rt1 := inst(inner)
		T2, rt2 := inst(outer)
		bad := ""
		im := ai.Sym{Key: "im", T: inner.Signature.Params().At(0).Type()}
		for _, o := range e.run(st0.Clone(), c[0], T1, im) {
			if o.Panic != nil {
				bad = "unexpected " + o.Describe()
				continue
			}
			for _, q := range e.run(o.St, c[1], T2, ai.Iface{T: rt1, V: o.Ret[0]}) {
				if q.Panic != nil {
					bad = "unexpected " + q.Describe()
					continue
				}
				u := only(e.run(q.St, "UnboxError", nil, ai.Iface{T: rt2, V: q.Ret[0]}), "UnboxError")
				if u.Panic != nil || u.St.Key(u.Ret[0]) != "im" {
					bad = "unboxing yields " + u.Describe()
				}
			}
		}
		r.Ok("E06.box", c[1]+" of the result of "+c[0], outer.Pos(), "an error that was boxed before is boxed once", bad == "", bad)
	}
	for _, un := range []string{"UnboxError", "UnboxError_any", "UnboxError_struct"} {
		f := e.fn(un)
		var T []types.Type
		if f.TypeParams() != nil && f.TypeParams().Len() > 0 {
			T = []types.Type{none}
		}
		im := ai.Sym{Key: "im", T: f.Signature.Params().At(0).Type()}
		o := only(e.run(st, un, T, im), un)
		bad := ""
		if o.Panic != nil || o.St.Key(o.Ret[0]) != "im" {
			bad = o.Describe()
		}
		if un == "UnboxError" {
			o := only(e.run(st, un, T, ai.Nil{T: errIface}), un)
			if o.Panic != nil {
				bad = o.Describe()
			} else if _, ok := o.Ret[0].(ai.Nil); !ok {
				bad = o.Describe()
			}
		}
		r.Ok("E06.box", un, f.Pos(), "an error that is not boxed is returned as it is", bad == "", bad)
	}
	r.noteVisited(e.it)
}
