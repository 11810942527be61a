package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/load"
	"verif/vg"
)

const ewdPkg = "bandersnatch/errorsWithData"

// ewd is the abstract universe in which the errorsWithData API is analysed.
type ewd struct {
	r    *Run
	it   *ai.Interp
	pkg  *types.Package
	w    types.Type // witness struct
	wf   []*types.Var
	errT types.Type // concrete error type used for payloads
}

// aiGo runs a task, converting the interpreter's giving-up into a failed obligation.
func (r *Run) aiGo(rule, construct string, f func()) {
	r.Go(rule, construct, func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(ai.Undecided); ok {
					panic(vg.Undecided{Msg: u.Msg})
				}
				panic(e)
			}
		}()
		f()
	})
}

func newEwd(r *Run) *ewd {
	e := &ewd{r: r}
	e.it = ai.New(r.P, "internal/utils", "internal/stack", ewdPkg)
	e.pkg = r.P.SPkgs[load.Path(ewdPkg)].Pkg
	v := func(n string, t types.Type, emb bool) *types.Var {
		return types.NewField(token.NoPos, e.pkg, n, t, emb)
	}
	inner := types.NewNamed(types.NewTypeName(token.NoPos, e.pkg, "Witness", nil), types.NewStruct([]*types.Var{v("D", types.NewSlice(types.Typ[types.Byte]), false)}, nil), nil)
	errI := types.Universe.Lookup("error").Type()
	e.wf = []*types.Var{v("A", types.Typ[types.Int], false), v("B", types.Typ[types.String], false), v("C", errI, false), v("D", types.NewSlice(types.Typ[types.Byte]), false)}
	e.w = types.NewStruct([]*types.Var{e.wf[0], e.wf[1], v("Witness", inner, true), e.wf[2]}, nil)
	e.errT = types.NewPointer(r.P.SSA.ImportedPackage("errors").Pkg.Scope().Lookup("errorString").Type())
	// the foreign error "wrap" wraps the error held by the harness
	return e
}

// fn returns an API function, or fails the analysis.
func (e *ewd) fn(name string) *ssa.Function {
	f := e.r.P.Func(ewdPkg, name)
	if f == nil {
		panic(vg.Undecided{Msg: "exported function " + name + " of errorsWithData is missing"})
	}
	return f
}

// global reads an exported package variable.
func (e *ewd) global(st *ai.State, name string) ai.Value {
	g := e.r.P.Global(ewdPkg, name)
	if g == nil {
		panic(vg.Undecided{Msg: "exported variable " + name + " of errorsWithData is missing"})
	}
	return st.Load(e.it.GlobalPtr(g))
}

// run calls an API function; generic ones are instantiated with the type arguments.
func (e *ewd) run(st *ai.State, name string, targs []types.Type, args ...ai.Value) []ai.Outcome {
	f := e.fn(name)
	if f.TypeParams() != nil && f.TypeParams().Len() > 0 {
		return e.it.RunT(st, f, targs, args)
	}
	return e.it.RunFrom(st, f, nil, nil, args)
}

// start prepares a state in which the opaque foreign error "plain" supports none of the package's interfaces.
func (e *ewd) start() *ai.State {
	st := e.it.Base.Clone()
	st.SetOracle(func(a string) (bool, bool) {
		switch {
		case strings.HasPrefix(a, "nil(plain"):
			return a == "nil(Unwrap(plain))", true
		case strings.HasPrefix(a, "impl(plain,"):
			return false, true
		case strings.HasPrefix(a, "is(plain,"):
			return false, true
		case a == "nil(Unwrap(plain))":
			return true, true
		}
		return false, false
	})
	return st
}

var errIface = types.Universe.Lookup("error").Type()

func plainErr() ai.Value { return ai.Sym{Key: "plain", T: errIface} }

var anyIface = types.NewInterfaceType(nil, nil)

// payload is an opaque value of interface type any with known dynamic type (nil: a nil interface value).
func payload(st *ai.State, key string, t types.Type) ai.Value {
	if t == nil {
		return ai.Nil{T: anyIface}
	}
	st.SetDyn(key, t)
	return ai.Sym{Key: key, T: anyIface}
}

type kv struct {
	k string
	v ai.Value
	t types.Type // dynamic type (nil for nil)
}

// only expects exactly one path.
func only(outs []ai.Outcome, what string) ai.Outcome {
	if len(outs) != 1 {
		var d []string
		for _, o := range outs {
			d = append(d, o.Describe())
		}
		panic(vg.Undecided{Msg: fmt.Sprintf("%s has %d outcomes: %s", what, len(outs), strings.Join(d, " | "))})
	}
	return outs[0]
}

func mapStr(st *ai.State, m []kv) string {
	var s []string
	for _, x := range m {
		s = append(s, fmt.Sprintf("%q:%s", x.k, st.Key(x.v)))
	}
	sort.Strings(s)
	return "map[" + strings.Join(s, ",") + "]"
}

func find(m []kv, k string) (kv, bool) {
	for _, x := range m {
		if x.k == k {
			return x, true
		}
	}
	return kv{}, false
}

// scenario of a construction with data.
type dataCase struct {
	name string
	base string // nil, plain, data, wrapped, boxed
	old  []kv
	new  []kv
}

func (e *ewd) ptype(i int) types.Type { // payload type suitable for field i of the witness
	if i == 2 {
		return e.errT
	}
	return e.wf[i].Type()
}

// cases: every key of the witness struct and an additional key, old/new presence and type varied one key at a time,
// the other keys supplied by the new data.
func (e *ewd) cases(st *ai.State, structData bool) []dataCase {
	var out []dataCase
	keys := []string{"A", "B", "C", "D", "X"}
	typ := func(i int) types.Type {
		if i < 4 {
			return e.ptype(i)
		}
		return types.Typ[types.Float64]
	}
	wrong := types.NewPointer(types.Typ[types.Uint16])
	for i, k := range keys {
		for _, o := range []string{"", "good", "wrong", "nil"} {
			for _, n := range []string{"", "good", "wrong", "nil"} {
				if structData && n != "good" {
					continue
				}
				c := dataCase{name: fmt.Sprintf("%s old=%s new=%s", k, o, n), base: "data"}
				if o == "" {
					c.base = "plain"
				}
				mk := func(kind, pre string, j int) kv {
					switch kind {
					case "good":
						return kv{keys[j], payload(st, pre+keys[j], typ(j)), typ(j)}
					case "wrong":
						return kv{keys[j], payload(st, pre+keys[j]+"w", wrong), wrong}
					}
					return kv{keys[j], payload(st, "", nil), nil}
				}
				if o != "" {
					c.old = append(c.old, mk(o, "o", i))
				}
				if n != "" {
					c.new = append(c.new, mk(n, "n", i))
				}
				for j := range keys[:4] {
					if j != i {
						c.new = append(c.new, mk("good", "n", j))
					}
				}
				out = append(out, c)
			}
		}
	}
	g := func(pre string, js ...int) (m []kv) {
		for _, j := range js {
			m = append(m, kv{keys[j], payload(st, pre+keys[j], typ(j)), typ(j)})
		}
		return
	}
	out = append(out,
		dataCase{"nothing", "nil", nil, nil},
		dataCase{"all new", "nil", nil, g("n", 0, 1, 2, 3, 4)},
		dataCase{"all old", "data", g("o", 0, 1, 2, 3, 4), nil},
		dataCase{"all old, wrapped by a foreign error", "wrapped", g("o", 0, 1, 2, 3, 4), nil},
		dataCase{"all both, wrapped by a foreign error", "wrapped", g("o", 0, 1, 2, 3, 4), g("n", 0, 1, 2, 3, 4)},
		dataCase{"all both", "data", g("o", 0, 1, 2, 3, 4), g("n", 0, 1, 2, 3, 4)},
		dataCase{"split", "data", g("o", 0, 2, 4), g("n", 1, 3)},
	)
	return out
}

// mkBase builds the base error of a case through the API.
func (e *ewd) mkBase(st *ai.State, c dataCase) (*ai.State, ai.Value) {
	switch c.base {
	case "nil":
		return st, ai.Nil{T: errIface}
	case "plain":
		return st, plainErr()
	}
	m := st.NewMap(nil)
	var kvs []ai.Value
	for _, x := range c.old {
		kvs = append(kvs, ai.KStr(x.k), x.v)
	}
	m = st.NewMap(types.NewMap(types.Typ[types.String], anyIface), kvs...)
	o := only(e.run(st, "NewErrorWithData_any_map", nil, plainErr(), ai.KStr("base"), e.global(st, "ReplacePreviousData"), m), "NewErrorWithData_any_map for the base error")
	if o.Panic != nil {
		panic(vg.Undecided{Msg: "constructing the base error: " + o.Describe()})
	}
	if c.base == "wrapped" {
		return o.St, ai.Iface{T: e.errT, V: ai.Tuple{o.Ret[0]}}
	}
	return o.St, o.Ret[0]
}

type missing int

// spec computes the parameters of the resulting error; panics lists why construction must panic.
func (e *ewd) spec(c dataCase, mode string, miss string, fields []*types.Var, eqAtoms func(a, b kv) bool) (res []kv, pan string) {
	get := func(k string) (kv, bool) {
		o, ok1 := find(c.old, k)
		n, ok2 := find(c.new, k)
		switch {
		case ok1 && ok2:
			switch mode {
			case "ReplacePreviousData":
				return n, true
			case "PreferPreviousData":
				return o, true
			default:
				if !eqAtoms(o, n) {
					pan = "differing data for " + k + " under AssertDataIsNotReplaced"
				}
				return o, true
			}
		case ok1:
			return o, true
		case ok2:
			return n, true
		}
		return kv{}, false
	}
	keys := map[string]bool{}
	for _, x := range c.old {
		keys[x.k] = true
	}
	for _, x := range c.new {
		keys[x.k] = true
	}
	for k := range keys {
		x, _ := get(k)
		res = append(res, x)
	}
	for _, f := range fields {
		x, ok := find(res, f.Name())
		_, isI := f.Type().Underlying().(*types.Interface)
		switch {
		case !ok && miss == "EnsureDataIsPresent":
			pan = "parameter " + f.Name() + " is missing"
		case !ok:
			z := ai.Value(ai.Iface{T: f.Type(), V: ai.Zero(f.Type())})
			t := f.Type()
			if isI {
				z, t = ai.Nil{T: anyIface}, nil
			}
			res = append(res, kv{f.Name(), z, t})
		case x.t == nil && !nilable(f.Type()):
			pan = "parameter " + f.Name() + " is nil"
		case x.t == nil:
		case isI && !types.AssignableTo(x.t, f.Type()):
			pan = "parameter " + f.Name() + " does not implement the field's type"
		case !isI && !types.Identical(x.t, f.Type()):
			pan = "parameter " + f.Name() + " has the wrong type"
		}
	}
	return res, pan
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Chan, *types.Signature, *types.Slice, *types.Map:
		return true
	}
	return false
}

// judge compares the outcomes of a construction with the specification.
func (e *ewd) judge(outs []ai.Outcome, c dataCase, mode, miss string, fields []*types.Var, structMeth bool) string {
	if len(outs) == 0 {
		return "no outcome"
	}
	for i := range outs {
		o := &outs[i]
		want, pan := e.spec(c, mode, miss, fields, func(a, b kv) bool {
			if a.t == nil && b.t == nil {
				return true
			}
			if a.t == nil || b.t == nil {
				return false
			}
			if !types.Identical(a.t, b.t) {
				return false
			}
			for at, v := range o.St.Assume {
				if strings.HasPrefix(at, "eq(") && strings.Contains(at, o.St.Key(a.v)) && strings.Contains(at, o.St.Key(b.v)) {
					return v
				}
			}
			return true // not compared: a difference would go unnoticed; judged by the caller's undecided flag
		})
		if mode == "AssertDataIsNotReplaced" && o.Panic == nil {
			// every common key must have been compared
			for _, x := range c.old {
				if y, ok := find(c.new, x.k); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
					cmp := false
					for at, v := range o.St.Assume {
						if v && strings.HasPrefix(at, "eq(") && strings.Contains(at, o.St.Key(x.v)) && strings.Contains(at, o.St.Key(y.v)) {
							cmp = true
						}
					}
					if !cmp {
						return fmt.Sprintf("old and new value of %q are not compared", x.k)
					}
				}
			}
		}
		if pan != "" {
			if o.Panic == nil {
				return fmt.Sprintf("must panic (%s), but an error is returned", pan)
			}
			continue
		}
		if o.Panic != nil {
			return "unexpected " + o.Describe()
		}
		if d := e.same(o, o.Ret[0], want, fields, structMeth); d != "" {
			return d
		}
	}
	return ""
}

// same checks that an error holds exactly the wanted parameters, through all accessors.
func (e *ewd) same(o *ai.Outcome, err ai.Value, want []kv, fields []*types.Var, structMeth bool) string {
	st := o.St
	if _, ok := err.(ai.Iface); !ok {
		return fmt.Sprintf("result is %s", st.Key(err))
	}
	for _, f := range []string{"method", "function"} {
		var g ai.Outcome
		if f == "method" {
			g = only(e.it.CallMethod(st, err, "GetData_map"), "GetData_map")
		} else {
			g = only(e.run(st, "GetData_map", nil, err), "GetData_map")
		}
		if g.Panic != nil {
			return "GetData_map: " + g.Describe()
		}
		if got, w := g.St.Key(g.Ret[0]), mapStr(g.St, want); got != w {
			return fmt.Sprintf("parameters are %s, want %s", got, w)
		}
	}
	for _, k := range []string{"A", "B", "C", "D", "X", "Absent"} {
		x, ok := find(want, k)
		exp := "nil"
		if ok {
			exp = st.Key(x.v)
		}
		for _, f := range []string{"method", "function"} {
			var g, h ai.Outcome
			if f == "method" {
				g = only(e.it.CallMethod(st, err, "GetParameter", ai.KStr(k)), "GetParameter")
				h = only(e.it.CallMethod(st, err, "HasParameter", ai.KStr(k)), "HasParameter")
			} else {
				g = only(e.run(st, "GetParameter", nil, err, ai.KStr(k)), "GetParameter")
				h = only(e.run(st, "HasParameter", nil, err, ai.KStr(k)), "HasParameter")
			}
			if g.Panic != nil || h.Panic != nil {
				return "parameter accessor panics"
			}
			if a, b := g.St.Key(g.Ret[0]), g.St.Key(g.Ret[1]); a != exp || b != fmt.Sprint(ok) {
				return fmt.Sprintf("GetParameter(%q) returns %s, %s; want %s, %v", k, a, b, exp, ok)
			}
			if a := h.St.Key(h.Ret[0]); a != fmt.Sprint(ok) {
				return fmt.Sprintf("HasParameter(%q) returns %s, want %v", k, a, ok)
			}
		}
	}
	if structMeth {
		w := e.structStr(st, want)
		g := only(e.it.CallMethod(st, err, "GetData_struct"), "GetData_struct")
		if g.Panic != nil {
			return "GetData_struct: " + g.Describe()
		}
		if got := g.St.Key(g.Ret[0]); got != w {
			return fmt.Sprintf("GetData_struct returns %s, want %s", got, w)
		}
	}
	return ""
}

func (e *ewd) paramMap(st *ai.State, m []kv) ai.Value {
	var kvs []ai.Value
	for _, x := range m {
		kvs = append(kvs, ai.KStr(x.k), x.v)
	}
	return st.NewMap(types.NewMap(types.Typ[types.String], anyIface), kvs...)
}

func (e *ewd) paramList(st *ai.State, m []kv) ai.Value {
	var vs []ai.Value
	for _, x := range m {
		vs = append(vs, ai.Iface{T: types.Typ[types.String], V: ai.KStr(x.k)}, x.v)
	}
	return st.NewSlice(types.NewSlice(anyIface), vs...)
}

func init() {
	register(&Property{ID: "E01", Level: "other", Technique: techAI, F: e01,
		Note: "payload values, base errors and interpolation text are opaque; key sets are enumerated relative to a witness struct"})
}

const techAI = "disjunctive abstract interpretation over go/ssa: concrete shapes (types, keys, lengths), opaque payload terms, paths split on atoms, outcomes compared with a table of the specification"

var prevModes = []string{"ReplacePreviousData", "PreferPreviousData", "AssertDataIsNotReplaced"}
var missModes = []string{"EnsureDataIsPresent", "MissingDataAsZero"}

func e01(r *Run) {
	for _, mode := range prevModes {
		for _, miss := range missModes {
			mode, miss := mode, miss
			r.aiGo("E01.merge", mode+"/"+miss, func() { e01Merge(newEwd(r), mode, miss) })
		}
	}
	r.aiGo("E01.other", "deletion, conversion and empty cases", func() { e01Other(newEwd(r)) })
	r.Wait()
}

// foreign makes the concrete foreign error type unwrap to what the harness put inside.
func (e *ewd) foreign() {
	base := e.it.Models["errors.Unwrap"]
	e.it.Models["errors.Unwrap"] = func(it *ai.Interp, st *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
		if i, ok := args[0].(ai.Iface); ok {
			if t, ok := i.V.(ai.Tuple); ok {
				return t[0], true
			}
		}
		return base(it, st, fn, env, args)
	}
	// text composed for diagnostics is not the subject here: any plain string represents it
	for _, f := range []string{"fmt.Sprintf", "fmt.Sprint"} {
		m := e.it.Models[f]
		e.it.Models[f] = func(it *ai.Interp, st *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
			v, ok := m(it, st, fn, env, args)
			if _, known := ai.StrOf(v); ok && !known {
				v = ai.KStr("diagnostic")
			}
			return v, ok
		}
	}
}

func e01Merge(e *ewd, mode, miss string) {
	r := e.r
	e.foreign()
	none := types.NewStruct(nil, nil)
	type ctor struct {
		name   string
		fields []*types.Var
		data   bool // *StructType argument
		call   func(st *ai.State, base ai.Value, c dataCase) []ai.Outcome
		skip   bool
		add    bool
	}
	txt := ai.KStr("msg")
	md := func(st *ai.State) (ai.Value, ai.Value) { return e.global(st, mode), e.global(st, miss) }
	W, N := []types.Type{e.w}, []types.Type{none}
	_ = N
	ctors := []ctor{
		{name: "NewErrorWithData_map", fields: e.wf, call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, x := md(st)
			return e.run(st, "NewErrorWithData_map", W, b, txt, m, x, e.paramMap(st, c.new))
		}},
		{name: "NewErrorWithData_params", fields: e.wf, call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, x := md(st)
			return e.run(st, "NewErrorWithData_params", W, b, txt, m, x, e.paramList(st, c.new))
		}},
		{name: "AddDataToError_map", fields: e.wf, add: true, call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, x := md(st)
			return e.run(st, "AddDataToError_map", W, b, m, x, e.paramMap(st, c.new))
		}},
		{name: "AddDataToError_params", fields: e.wf, add: true, call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, x := md(st)
			return e.run(st, "AddDataToError_params", W, b, m, x, e.paramList(st, c.new))
		}},
		{name: "NewErrorWithData_struct", fields: e.wf, data: true, skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "NewErrorWithData_struct", W, b, txt, e.witness(st), st.NewSlice(types.NewSlice(m2t(e, mode)), m))
		}},
		{name: "AddDataToError_struct", fields: e.wf, data: true, add: true, skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "AddDataToError_struct", W, b, e.witness(st), st.NewSlice(types.NewSlice(m2t(e, mode)), m))
		}},
		{name: "NewErrorWithData_struct (default mode)", fields: e.wf, data: true, skip: miss != "EnsureDataIsPresent" || mode != "ReplacePreviousData", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			return e.run(st, "NewErrorWithData_struct", W, b, txt, e.witness(st), ai.Nil{})
		}},
		{name: "NewErrorWithData_any_map", skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "NewErrorWithData_any_map", nil, b, txt, m, e.paramMap(st, c.new))
		}},
		{name: "NewErrorWithData_any_params", skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "NewErrorWithData_any_params", nil, b, txt, m, e.paramList(st, c.new))
		}},
		{name: "AddDataToError_any_map", add: true, skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "AddDataToError_any_map", nil, b, m, e.paramMap(st, c.new))
		}},
		{name: "AddDataToError_any_params", add: true, skip: miss != "EnsureDataIsPresent", call: func(st *ai.State, b ai.Value, c dataCase) []ai.Outcome {
			m, _ := md(st)
			return e.run(st, "AddDataToError_any_params", nil, b, m, e.paramList(st, c.new))
		}},
	}
	for _, ct := range ctors {
		if ct.skip {
			continue
		}
		pos := e.fn(strings.Fields(ct.name)[0]).Pos()
		n := 0
		bad := ""
		st := e.start()
		for _, c := range e.cases(st, ct.data) {
			if ct.data { // the struct supplies all fields
				c.new = nil
				for i, f := range e.wf {
					v := ai.Value(ai.Iface{T: f.Type(), V: ai.Sym{Key: "s" + f.Name(), T: f.Type()}})
					if i == 2 {
						v = ai.Sym{Key: "sC", T: f.Type()}
					}
					c.new = append(c.new, kv{f.Name(), v, e.ptype(i)})
				}
			}
			s, b := e.mkBase(st.Clone(), c)
			if ct.add && c.base == "nil" {
				continue // nil in, nil out: E06
			}
			n++
			outs := ct.call(s, b, c)
			if d := e.judge(outs, c, mode, miss, ct.fields, ct.fields != nil); d != "" && bad == "" {
				bad = fmt.Sprintf("[%s, base %s] %s", c.name, c.base, d)
			}
		}
		r.Ok("E01.merge", fmt.Sprintf("%s %s %s", ct.name, mode, miss), pos, "the resulting parameters are the specified merge of old and new data; construction panics exactly when the data does not fit the struct", bad == "", bad)
		r.Count("constructions", n)
	}
	r.noteVisited(e.it)
}

// noteVisited records the functions analysed by an interpreter in the evidence.
func (r *Run) noteVisited(it *ai.Interp) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for f := range it.Visited {
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		r.Funcs[f.String()] = n
	}
	r.Counts["abstract paths"] += it.Paths
}

func m2t(e *ewd, mode string) types.Type {
	return e.r.P.Global(ewdPkg, mode).Type().(*types.Pointer).Elem()
}

func (e *ewd) witness(st *ai.State) ai.Value {
	st.SetDyn("sC", e.errT)
	return st.Alloc(e.w, ai.Agg{ai.Sym{Key: "sA", T: e.wf[0].Type()}, ai.Sym{Key: "sB", T: e.wf[1].Type()}, ai.Agg{ai.Sym{Key: "sD", T: e.wf[3].Type()}}, ai.Sym{Key: "sC", T: e.wf[2].Type()}})
}

func e01Other(e *ewd) {
	r := e.r
	e.foreign()
	W := []types.Type{e.w}
	none := types.NewStruct(nil, nil)
	st := e.start()
	cases := e.cases(st, false)
	type fail struct{ m map[string]string }
	bad := map[string]string{}
	note := func(fn, c, d string) {
		if d != "" && bad[fn] == "" {
			bad[fn] = "[" + c + "] " + d
		}
		if _, ok := bad[fn]; !ok {
			bad[fn] = ""
		}
	}
	n := 0
	seen := map[string]bool{}
	unchanged := func(o *ai.Outcome, b ai.Value, c dataCase) string {
		if _, ok := b.(ai.Iface); !ok {
			return ""
		}
		g := only(e.run(o.St, "GetData_map", nil, b), "GetData_map")
		if got, w := g.St.Key(g.Ret[0]), mapStr(g.St, c.old); got != w {
			return fmt.Sprintf("the argument's parameters have become %s, were %s", got, w)
		}
		return ""
	}
	for _, c := range cases {
		c.new = nil
		id := c.base + mapStr(st, c.old)
		if c.base == "nil" || seen[id] {
			continue
		}
		seen[id] = true
		s, b := e.mkBase(st.Clone(), c)
		nm := c.base + " " + mapStr(s, c.old)
		for _, miss := range missModes {
			x := e.global(s, miss)
			// deletion
			for _, k := range []string{"A", "B", "C", "D", "X", "Absent"} {
				d := c
				d.old = nil
				for _, y := range c.old {
					if y.k != k {
						d.old = append(d.old, y)
					}
				}
				n++
				outs := e.run(s.Clone(), "DeleteParameterFromError", W, b, ai.KStr(k), x)
				v := e.judge(outs, d, "ReplacePreviousData", miss, e.wf, true)
				for i := range outs {
					if v == "" {
						v = unchanged(&outs[i], b, c)
					}
				}
				note("DeleteParameterFromError", nm+" delete "+k+" "+miss, v)
				if miss == missModes[0] {
					outs := e.run(s.Clone(), "DeleteParameterFromError_any", nil, b, ai.KStr(k))
					v := e.judge(outs, d, "ReplacePreviousData", miss, nil, false)
					for i := range outs {
						if v == "" {
							v = unchanged(&outs[i], b, c)
						}
					}
					note("DeleteParameterFromError_any", nm+" delete "+k, v)
				}
			}
			// conversion
			n++
			outs := e.run(s.Clone(), "AsErrorWithData", W, b, x)
			want, pan := e.spec(c, "PreferPreviousData", miss, e.wf, nil)
			v := ""
			for i := range outs {
				o := &outs[i]
				if o.Panic != nil {
					v = "unexpected " + o.Describe()
				} else if ok := o.St.Key(o.Ret[1]); (ok == "true") != (pan == "") {
					v = fmt.Sprintf("ok is %s although %s", ok, map[bool]string{true: "the data fits", false: pan}[pan == ""])
				} else if pan == "" {
					v = e.same(o, o.Ret[0], want, e.wf, true)
				}
				if v == "" {
					v = unchanged(o, b, c)
				}
				if v != "" {
					break
				}
			}
			note("AsErrorWithData", nm+" "+miss, v)
			// struct access and presence test
			outs = e.run(s.Clone(), "GetData_struct", W, b, x)
			v = ""
			for i := range outs {
				o := &outs[i]
				if (o.Panic != nil) != (pan != "") {
					v = "outcome " + o.Describe() + ", but " + map[bool]string{true: "the data fits", false: pan}[pan == ""]
				} else if pan == "" {
					if got, w := o.St.Key(o.Ret[0]), e.structStr(o.St, want); got != w {
						v = fmt.Sprintf("returns %s, want %s", got, w)
					}
				}
				if v == "" {
					v = unchanged(o, b, c)
				}
			}
			note("GetData_struct", nm+" "+miss, v)
			if miss == "EnsureDataIsPresent" {
				v = ""
				for _, o := range e.run(s.Clone(), "HasData", W, b) {
					if o.Panic != nil {
						v = "unexpected " + o.Describe()
					} else if got := o.St.Key(o.Ret[0]); (got == "true") != (pan == "") {
						v = fmt.Sprintf("returns %s although %s", got, map[bool]string{true: "the data fits", false: pan}[pan == ""])
					}
				}
				note("HasData", nm, v)
			}
		}
	}
	r.Count("constructions", n)
	// repeated names, malformed lists, unset modes
	s := st.Clone()
	p1, p2 := payload(s, "p1", types.Typ[types.Int]), payload(s, "p2", types.Typ[types.Int])
	key := func(k string) ai.Value { return ai.Iface{T: types.Typ[types.String], V: ai.KStr(k)} }
	list := func(vs ...ai.Value) ai.Value { return s.NewSlice(types.NewSlice(anyIface), vs...) }
	type mal struct {
		what string
		args []ai.Value
		want string
	}
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	for _, m := range []mal{
		{"a repeated name", []ai.Value{key("X"), p1, key("X"), p2}, "p2"},
		{"a repeated name", []ai.Value{key("X"), p1, key("Y"), p1, key("X"), p2}, "p2"},
		{"an odd number of arguments", []ai.Value{key("X")}, "panic"},
		{"an odd number of arguments", []ai.Value{key("X"), p1, key("Y")}, "panic"},
		{"a name that is not a string", []ai.Value{p1, p1}, "panic"},
		{"a name that is not a string", []ai.Value{key("X"), p1, p2, p1}, "panic"},
		{"no name-value pair", nil, "nil"},
	} {
		for _, fn := range []string{"NewErrorWithData_params", "NewErrorWithData_any_params", "AddDataToError_params", "AddDataToError_any_params"} {
			var as []ai.Value
			as = append(as, plainErr())
			if strings.HasPrefix(fn, "New") {
				as = append(as, ai.KStr("msg"))
			}
			as = append(as, e.global(s, "ReplacePreviousData"))
			if !strings.Contains(fn, "any") {
				as = append(as, e.global(s, "EnsureDataIsPresent"))
			}
			as = append(as, list(m.args...))
			v := ""
			for _, o := range e.run(s.Clone(), fn, []types.Type{none}, as...) {
				switch {
				case (o.Panic != nil) != (m.want == "panic"):
					v = m.what + ": " + o.Describe()
				case o.Panic == nil:
					g := only(e.it.CallMethod(o.St, o.Ret[0], "GetParameter", ai.KStr("X")), "GetParameter")
					if got := g.St.Key(g.Ret[0]); got != m.want {
						v = fmt.Sprintf("%s: parameter X is %s, want %s", m.what, got, m.want)
					}
				}
			}
			note(fn+" argument list", m.what, v)
		}
	}
	// an unset treatment is rejected when data is given
	unset := ai.Zero(m2t(e, "ReplacePreviousData"))
	for _, fn := range []string{"NewErrorWithData_map", "NewErrorWithData_any_map", "NewErrorWithData_struct"} {
		as := []ai.Value{plainErr(), ai.KStr("msg")}
		switch fn {
		case "NewErrorWithData_map":
			as = append(as, unset, e.global(s, "MissingDataAsZero"), s.NewMap(anyMap, ai.KStr("X"), p1))
		case "NewErrorWithData_any_map":
			as = append(as, unset, s.NewMap(anyMap, ai.KStr("X"), p1))
		default:
			as = append(as, e.witness(s), s.NewSlice(types.NewSlice(m2t(e, "ReplacePreviousData")), unset))
		}
		v := ""
		for _, o := range e.run(s.Clone(), fn, W, as...) {
			if o.Panic == nil {
				v = "an unset PreviousDataTreatment is accepted"
			}
		}
		note(fn+" unset mode", "", v)
	}
	// errors without data
	for _, b := range []ai.Value{ai.Nil{T: errIface}, plainErr()} {
		g := only(e.run(st.Clone(), "GetData_map", nil, b), "GetData_map")
		note("GetData_map without data", st.Key(b), map[bool]string{false: "returns " + g.Describe()}[g.Panic == nil && g.St.Key(g.Ret[0]) == "map[]"])
		g = only(e.run(st.Clone(), "HasParameter", nil, b, ai.KStr("A")), "HasParameter")
		note("HasParameter without data", st.Key(b), map[bool]string{false: g.Describe()}[g.Panic == nil && g.St.Key(g.Ret[0]) == "false"])
		g = only(e.run(st.Clone(), "GetParameter", nil, b, ai.KStr("A")), "GetParameter")
		note("GetParameter without data", st.Key(b), map[bool]string{false: g.Describe()}[g.Panic == nil && g.St.Key(g.Ret[0]) == "nil" && g.St.Key(g.Ret[1]) == "false"])
	}
	// which struct types are accepted
	for _, w := range e.structTypes() {
		s := st.Clone()
		for pass := 0; pass < 2; pass++ { // the second call is answered from the cache
			o := only(e.run(s, "StructSuitableForErrorsWithData", []types.Type{w.t}), "StructSuitableForErrorsWithData")
			_, isNil := ai.Value(nil), false
			if o.Panic == nil {
				_, isNil = o.Ret[0].(ai.Nil)
			}
			v := ""
			if o.Panic != nil || isNil != w.ok {
				v = fmt.Sprintf("call %d: %s", pass+1, o.Describe())
			}
			note("StructSuitableForErrorsWithData", w.name, v)
			if o.Panic == nil {
				s = o.St
			}
		}
		for _, fn := range []string{"NewErrorWithData_map", "HasData", "GetData_struct", "AsErrorWithData"} {
			if w.ok {
				continue
			}
			var outs []ai.Outcome
			switch fn {
			case "NewErrorWithData_map":
				outs = e.run(s, fn, []types.Type{w.t}, plainErr(), ai.KStr("msg"), e.global(s, "ReplacePreviousData"), e.global(s, "MissingDataAsZero"), s.NewMap(anyMap))
			case "HasData":
				outs = e.run(s, fn, []types.Type{w.t}, plainErr())
			default:
				outs = e.run(s, fn, []types.Type{w.t}, plainErr(), e.global(s, "MissingDataAsZero"))
			}
			v := ""
			for _, o := range outs {
				if o.Panic == nil {
					v = "accepts an unsuitable struct type: " + o.Describe()
				}
			}
			note(fn+" unsuitable struct type", w.name, v)
		}
	}
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f := e.fn(strings.Fields(k)[0])
		r.Ok("E01.other", k, f.Pos(), "agrees with the specification", bad[k] == "", bad[k])
	}
	r.noteVisited(e.it)
}

func (e *ewd) structStr(st *ai.State, want []kv) string {
	val := func(f *types.Var) string {
		x, _ := find(want, f.Name())
		if _, isI := f.Type().Underlying().(*types.Interface); isI {
			return st.Key(x.v)
		}
		switch v := x.v.(type) {
		case ai.Iface:
			return st.Key(v.V)
		case ai.Nil:
			return st.Key(ai.Zero(f.Type()))
		case ai.Sym:
			return v.Key + ".(" + ai.TypeStr(f.Type()) + ")"
		}
		return "?"
	}
	return "{" + val(e.wf[0]) + "," + val(e.wf[1]) + ",{" + val(e.wf[3]) + "}," + val(e.wf[2]) + "}"
}

type structCase struct {
	name string
	t    types.Type
	ok   bool
}

// structTypes: the documented restrictions on struct types, one witness for each.
func (e *ewd) structTypes() []structCase {
	f := func(n string, t types.Type, emb bool) *types.Var {
		return types.NewField(token.NoPos, e.pkg, n, t, emb)
	}
	sct := func(fs ...*types.Var) types.Type { return types.NewStruct(fs, nil) }
	named := func(n string, t types.Type) types.Type {
		return types.NewNamed(types.NewTypeName(token.NoPos, e.pkg, n, nil), t, nil)
	}
	intT := types.Typ[types.Int]
	str := types.Typ[types.String]
	t := named("T", sct(f("X", intT, false)))
	wt := named("WrappedT", sct(f("T", t, true)))
	num := named("Num", intT)
	low := named("low", sct(f("X", intT, false)))
	lown := named("lown", intT)
	t2 := named("T2", sct(f("X", str, false)))
	deep := named("Deep", sct(f("WrappedT", wt, true)))
	return []structCase{
		{"empty struct", sct(), true},
		{"exported fields", sct(f("A", intT, false), f("B", str, false)), true},
		{"the witness struct", e.w, true},
		{"named struct", t, true},
		{"unexported field", sct(f("A", intT, false), f("b", str, false)), false},
		{"only an unexported field", sct(f("a", intT, false)), false},
		{"blank field", sct(f("_", intT, false)), false},
		{"embedded struct", sct(f("T", t, true), f("Y", str, false)), true},
		{"embedded struct of unexported type", sct(f("low", low, true)), true},
		{"embedded non-struct", sct(f("Num", num, true)), true},
		{"embedded non-struct of unexported type", sct(f("lown", lown, true)), false},
		{"embedded pointer to struct", sct(f("T", types.NewPointer(t), true)), false},
		{"embedded pointer to struct in an embedded struct", sct(f("E", named("E", sct(f("T", types.NewPointer(t), true))), true)), false},
		{"embedded pointer to non-struct", sct(f("Num", types.NewPointer(num), true)), true},
		{"unexported field in an embedded struct", sct(f("H", named("H", sct(f("x", intT, false))), true)), false},
		{"field shadowing a promoted one", sct(f("X", str, false), f("T", t, true)), true},
		{"field shadowing a promoted one, declared later", sct(f("T", t, true), f("X", str, false)), true},
		{"field shadowing two promoted ones", sct(f("T", t, true), f("WrappedT", wt, true), f("X", intT, false)), true},
		{"promoted via different embedded fields", sct(f("T", t, true), f("WrappedT", wt, true)), false},
		{"promoted via different embedded fields, deeper first", sct(f("WrappedT", wt, true), f("T", t, true)), false},
		{"two promoted fields of equal depth", sct(f("T", t, true), f("T2", t2, true)), false},
		{"two promoted fields of equal depth below a shadowing field", sct(f("T", t, true), f("T2", t2, true), f("X", intT, false)), true},
		{"deep promotion", sct(f("Deep", deep, true)), true},
		{"non-embedded struct with unexported fields", sct(f("A", low, false)), true},
		{"integer type", intT, false},
		{"pointer to struct", types.NewPointer(t), false},
		{"map type", types.NewMap(str, anyIface), false},
		{"interface type", anyIface, false},
	}
}
