package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/analysis"
	"golang.org/x/tools/go/analysis/passes/inspect"
	"golang.org/x/tools/go/analysis/passes/printf"
	"golang.org/x/tools/go/ast/inspector"
	"golang.org/x/tools/go/ssa"

	"verif/load"
)

func init() {
	register(&Property{ID: "E02", Level: "other",
		Technique: "Interprocedural dataflow over SSA: constant propagation of message templates and parameter names to every construction of an error with data, backward guaranteed-parameter analysis (must-analysis, intersection over all paths) of the errors wrapped; format strings of package fmt by the printf analysis of the Go toolchain; no code is executed.",
		F:         e02,
		Note:      "every call of an errorsWithData constructor, guard and package fmt formatting function in the packages that type-check"})
}

// tpl is a string known up to unknown parts (nil entries).
type tpl []*string

func (t tpl) konst() (string, bool) {
	s := ""
	for _, p := range t {
		if p == nil {
			return "", false
		}
		s += *p
	}
	return s, true
}

func (t tpl) String() string {
	s := ""
	for _, p := range t {
		if p == nil {
			s += "…"
		} else {
			s += *p
		}
	}
	return s
}

type e02x struct {
	r      *Run
	calls  map[*ssa.Function][]ssa.CallInstruction // static call sites
	taken  map[*ssa.Function]bool                  // address taken
	stores map[*ssa.Global][]ssa.Value
	ewd    string
	active map[ssa.Value]bool
}

// params: parameters that an error certainly has; all: every parameter (nil error).
// weak: where the value comes from is unknown, there may be more.
type pset struct {
	all, weak bool
	m         map[string]types.Type
}

func (a pset) union(b pset) pset {
	if a.all || b.all {
		return pset{all: true}
	}
	m := map[string]types.Type{}
	for k, v := range b.m {
		m[k] = v
	}
	for k, v := range a.m {
		m[k] = v
	}
	return pset{m: m, weak: a.weak || b.weak}
}

func (a pset) inter(b pset) pset {
	if a.all {
		return b
	}
	if b.all {
		return a
	}
	m := map[string]types.Type{}
	for k, v := range a.m {
		if w, ok := b.m[k]; ok {
			if v != nil && w != nil && !types.Identical(v, w) {
				v = nil
			}
			m[k] = v
		}
	}
	return pset{m: m, weak: a.weak || b.weak}
}

func (a pset) names() string {
	if a.all {
		return "(nil)"
	}
	var s []string
	for k := range a.m {
		s = append(s, k)
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ", ") + "}"
}

// suitable implements the documented restrictions on struct types; returns the fields with their types.
func suitable(t types.Type) (map[string]types.Type, string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, "not a struct type"
	}
	type ent struct {
		t     types.Type
		path  string
		depth int
	}
	got := map[string][]ent{}
	bad := ""
	var walk func(s *types.Struct, path string, d int)
	walk = func(s *types.Struct, path string, d int) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			u := f.Type().Underlying()
			if f.Embedded() {
				if in, ok := u.(*types.Struct); ok {
					walk(in, path+"."+f.Name(), d+1)
					continue
				}
				if p, ok := u.(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Struct); ok {
						bad = "embeds a pointer to a struct"
						continue
					}
				}
			}
			if !f.Exported() {
				bad = "has the unexported field " + f.Name()
				continue
			}
			got[f.Name()] = append(got[f.Name()], ent{f.Type(), path, d})
		}
	}
	walk(s, "", 0)
	m := map[string]types.Type{}
	for n, es := range got {
		sort.SliceStable(es, func(i, j int) bool { return es[i].depth < es[j].depth })
		if len(es) > 1 && es[0].depth > 0 {
			bad = "promotes several fields " + n
		}
		m[n] = es[0].t
	}
	return m, bad
}

func e02(r *Run) {
	x := &e02x{r: r, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, stores: map[*ssa.Global][]ssa.Value{}, ewd: load.Path(ewdPkg), active: map[ssa.Value]bool{}}
	// self check of the restrictions against the list that E01 holds the implementation to
	for _, c := range newEwd(r).structTypes() {
		if _, bad := suitable(c.t); (bad == "") != c.ok {
			r.Ok("E02.self", c.name, token.NoPos, "the analysis agrees with the documented restrictions", false, bad)
		}
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Origin() != nil && g.Origin() != g && x.inRepo(g) {
						add(g) // instances of generic functions
					}
				}
			}
		}
	}
	for _, f := range r.P.Functions() {
		add(f)
	}
	for _, sp := range r.P.SPkgs {
		if strings.HasPrefix(sp.Pkg.Path(), load.Module) {
			add(sp.Func("init"))
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						x.calls[callee] = append(x.calls[callee], c)
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						x.stores[g] = append(x.stores[g], s.Val)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && op == &c.Common().Value {
							continue
						}
						if _, ok := in.(*ssa.MakeClosure); ok {
							continue
						}
						x.taken[g] = true
					}
				}
			}
		}
	}
	n := 0
	for _, f := range fns {
		pk := f.Package()
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Package()
		}
		if pk == nil || pk.Pkg.Path() == x.ewd {
			continue
		}
		if f.TypeParams() != nil && f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue // the generic body itself; instances are analysed
		}
		k := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				o := g
				if g.Origin() != nil {
					o = g.Origin()
				}
				if o.Package() == nil || o.Package().Pkg.Path() != x.ewd || !token.IsExported(o.Name()) {
					continue
				}
				k[o.Name()]++
				if x.site(f, c, o.Name(), g, fmt.Sprintf("%s call %d of %s", shortFn(f.String()), k[o.Name()], o.Name())) {
					n++
				}
			}
		}
	}
	r.Count("constructor and guard calls", n)
	r.Ok("E02.sites", "errors with data", token.NoPos, "the library's error constructions are found", n >= 20, fmt.Sprintf("only %d calls found", n))
	for _, p := range r.P.Repo {
		if p.IllTyped && p.PkgPath != load.Path("bandersnatch/pointserializer") {
			d := ""
			if len(p.Errors) > 0 {
				d = p.Errors[0].Error()
			}
			r.Ok("E02.sites", strings.TrimPrefix(p.PkgPath, load.Module+"/"), token.NoPos, "the package can be analysed", false, d)
		}
	}
	x.fmt()
}

func (x *e02x) inRepo(f *ssa.Function) bool {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	return o.Package() != nil && strings.HasPrefix(o.Package().Pkg.Path(), load.Module)
}

// varargs resolves the elements of a variadic list built at the call.
func (x *e02x) varargs(v ssa.Value) ([]ssa.Value, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return nil, v.IsNil()
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil, false
		}
		arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]ssa.Value, arr.Len())
		for _, ref := range *a.Referrers() {
			switch ref := ref.(type) {
			case *ssa.IndexAddr:
				i, ok := ref.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, r2 := range *ref.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(ref) || out[i.Int64()] != nil {
						return nil, false
					}
					out[i.Int64()] = s.Val
				}
			case *ssa.Slice:
				if ref != v {
					return nil, false
				}
			default:
				return nil, false
			}
		}
		for _, o := range out {
			if o == nil {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// reach lists the values that flow into v through copies (phis, local variables written in this function, parameters of
// functions all of whose callers are known).
func (x *e02x) sources(v ssa.Value, f func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
			return
		case *ssa.ChangeType:
			walk(v.X)
			return
		case *ssa.ChangeInterface:
			walk(v.X)
			return
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if a, ok := v.X.(*ssa.Alloc); ok {
					if ss, ok := localStores(a); ok {
						for _, s := range ss {
							walk(s)
						}
						return
					}
				}
				if g, ok := v.X.(*ssa.Global); ok && len(x.stores[g]) == 1 {
					walk(x.stores[g][0])
					return
				}
			}
		case *ssa.Parameter:
			fn := v.Parent()
			if !x.taken[fn] && len(x.calls[fn]) > 0 && !token.IsExported(fn.Name()) {
				for i, p := range fn.Params {
					if p == v {
						for _, c := range x.calls[fn] {
							walk(c.Common().Args[i])
						}
					}
				}
				return
			}
		}
		f(v)
	}
	walk(v)
}

// localStores: the values stored in a local variable that is only loaded and stored (possibly by closures).
func localStores(a *ssa.Alloc) ([]ssa.Value, bool) {
	var out []ssa.Value
	var use func(p ssa.Value) bool
	use = func(p ssa.Value) bool {
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != p {
					return false
				}
				out = append(out, r.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == p && !use(fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	ok := use(a)
	return out, ok
}

// templates: the strings a value can be.
func (x *e02x) templates(v ssa.Value) []tpl {
	var out []tpl
	x.sources(v, func(s ssa.Value) { out = append(out, x.template(s)...) })
	return out
}

func (x *e02x) template(v ssa.Value) []tpl {
	unknown := []tpl{{nil}}
	if x.active[v] {
		return unknown
	}
	x.active[v] = true
	defer delete(x.active, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			s := constant.StringVal(v.Value)
			return []tpl{{&s}}
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			var out []tpl
			for _, a := range x.templates(v.X) {
				for _, b := range x.templates(v.Y) {
					if len(out) < 64 {
						out = append(out, append(append(tpl{}, a...), b...))
					}
				}
			}
			return out
		}
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g != nil && g.String() == "fmt.Sprintf" {
			var out []tpl
			for _, f := range x.templates(v.Common().Args[0]) {
				s, ok := f.konst()
				if !ok {
					out = append(out, tpl{nil})
					continue
				}
				var t tpl
				lit := ""
				for i := 0; i < len(s); i++ {
					if s[i] != '%' || i+1 == len(s) {
						lit += s[i : i+1]
						continue
					}
					i++
					if s[i] == '%' {
						lit += "%"
						continue
					}
					for i < len(s)-1 && strings.IndexByte("+-# 0123456789.[]*", s[i]) >= 0 {
						i++
					}
					l := lit
					lit = ""
					t = append(t, &l, nil)
				}
				l := lit
				out = append(out, append(t, &l))
			}
			return out
		}
	}
	return unknown
}

// captured finds the local variable that a closure's free variable refers to.
func captured(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	for i, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		var found *ssa.Alloc
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					switch v := mc.Bindings[i].(type) {
					case *ssa.Alloc:
						found = v
					case *ssa.FreeVar:
						found = captured(v)
					}
				}
			}
		}
		return found
	}
	return nil
}

// guar computes the parameters an error value certainly carries unless it is nil.
func (x *e02x) guar(v ssa.Value) pset {
	st := x.static(v.Type())
	if x.active[v] {
		return pset{all: true}
	}
	x.active[v] = true
	defer delete(x.active, v)
	meet := func(vs []ssa.Value) pset {
		res := pset{all: true}
		for _, e := range vs {
			res = res.inter(x.guar(e))
		}
		return res
	}
	call := func(c *ssa.Call, idx int) pset {
		g := c.Common().StaticCallee()
		if g == nil {
			return pset{weak: !c.Common().IsInvoke()}
		}
		o := g
		if g.Origin() != nil {
			o = g.Origin()
		}
		if o.Package() != nil && o.Package().Pkg.Path() == x.ewd {
			return x.made(c, o.Name(), g)
		}
		if !x.inRepo(g) || len(g.Blocks) == 0 {
			return pset{}
		}
		res := pset{all: true}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				res = res.inter(x.guar(ret.Results[idx]))
			}
		}
		return res
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return pset{all: true}
		}
	case *ssa.Phi:
		return st.union(meet(v.Edges))
	case *ssa.MakeInterface:
		return st.union(x.guar(v.X))
	case *ssa.ChangeInterface:
		return st.union(x.guar(v.X))
	case *ssa.ChangeType:
		return st.union(x.guar(v.X))
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return st.union(x.guar(v.X))
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return st.union(call(c, v.Index))
		}
		if a, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return st.union(x.guar(a.X))
		}
	case *ssa.Call:
		return st.union(call(v, 0))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				if ss, ok := localStores(a); ok {
					return st.union(meet(ss))
				}
			}
			if g, ok := v.X.(*ssa.Global); ok && len(x.stores[g]) == 1 {
				return st.union(x.guar(x.stores[g][0]))
			}
			if fv, ok := v.X.(*ssa.FreeVar); ok {
				if a := captured(fv); a != nil {
					if ss, ok := localStores(a); ok {
						return st.union(meet(ss))
					}
				}
			}
		}
		st.weak = true
	case *ssa.FreeVar, *ssa.Field, *ssa.Index, *ssa.Lookup:
		st.weak = true
	case *ssa.Parameter:
		fn := v.Parent()
		if !x.taken[fn] && len(x.calls[fn]) > 0 && !token.IsExported(fn.Name()) {
			res := pset{all: true}
			for i, p := range fn.Params {
				if p == v {
					for _, c := range x.calls[fn] {
						res = res.inter(x.guar(c.Common().Args[i]))
					}
				}
			}
			return st.union(res)
		}
	}
	return st
}

// static: the parameters promised by the type ErrorWithData[T].
func (x *e02x) static(t types.Type) pset {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "ErrorWithData" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == x.ewd && n.TypeArgs().Len() == 1 {
		if m, bad := suitable(n.TypeArgs().At(0)); bad == "" {
			return pset{m: m}
		}
	}
	return pset{m: map[string]types.Type{}}
}

// ewArgs maps the arguments of a constructor by the types and names of its parameters.
type ewArgs struct {
	base, msg, data, list, name, miss ssa.Value
	hasMap                            bool
	T                                 types.Type
}

func (x *e02x) args(c ssa.CallInstruction, g *ssa.Function) ewArgs {
	var a ewArgs
	if len(g.TypeArgs()) > 0 {
		a.T = g.TypeArgs()[0]
	}
	sig := g.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		v := c.Common().Args[i]
		switch t := sig.Params().At(i).Type().(type) {
		case *types.Basic:
			if strings.Contains(strings.ToLower(sig.Params().At(i).Name()), "name") {
				a.name = v
			} else {
				a.msg = v
			}
		case *types.Pointer:
			a.data = v
		case *types.Slice:
			if sig.Variadic() && i == sig.Params().Len()-1 {
				if it, ok := t.Elem().Underlying().(*types.Interface); ok && it.Empty() {
					a.list = v
				}
			}
		case *types.Map:
			a.hasMap = true
		default:
			if types.Identical(t, errIface) {
				a.base = v
			} else if n, ok := t.(*types.Named); ok {
				switch n.Obj().Name() {
				case "MissingDataTreatment":
					a.miss = v
				case "ParamMap":
					a.hasMap = true
				}
			} else if _, ok := t.Underlying().(*types.Map); ok {
				a.hasMap = true
			}
		}
	}
	return a
}

func (x *e02x) direct(a ewArgs) (pset, string) {
	m := map[string]types.Type{}
	if a.data != nil && a.T != nil {
		f, _ := suitable(a.T)
		for k, v := range f {
			m[k] = v
		}
	}
	if a.list != nil {
		l, ok := x.varargs(a.list)
		if !ok {
			return pset{m: m}, "open"
		}
		if len(l)%2 != 0 {
			return pset{m: m}, "the list of parameters has odd length"
		}
		for i := 0; i < len(l); i += 2 {
			mi, ok := l[i].(*ssa.MakeInterface)
			if !ok {
				return pset{m: m}, "open"
			}
			ts := x.templates(mi.X)
			if b, ok := mi.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return pset{m: m}, "a parameter name is not a string"
			}
			if len(ts) != 1 {
				return pset{m: m}, "open"
			}
			s, ok := ts[0].konst()
			if !ok {
				return pset{m: m}, "open"
			}
			if !token.IsIdentifier(s) || !token.IsExported(s) {
				return pset{m: m}, fmt.Sprintf("%q is not a valid parameter name", s)
			}
			var t types.Type
			if vi, ok := l[i+1].(*ssa.MakeInterface); ok {
				t = vi.X.Type()
			}
			m[s] = t
		}
	}
	return pset{m: m}, ""
}

func (x *e02x) made(c *ssa.Call, name string, g *ssa.Function) pset {
	if !strings.HasPrefix(name, "NewErrorWithData_") && !strings.HasPrefix(name, "AddDataToError_") && !strings.HasPrefix(name, "AsErrorWithData") && !strings.HasPrefix(name, "MakeErrorIncomparable") {
		return pset{m: map[string]types.Type{}}
	}
	a := x.args(c, g)
	d, _ := x.direct(a)
	if a.T != nil {
		f, _ := suitable(a.T)
		d = d.union(pset{m: f})
	}
	if a.base != nil {
		if b := x.guar(a.base); !b.all {
			d = d.union(b)
		}
	}
	return d
}

var e02ref = regexp.MustCompile(`%([^%${}]*)\{([^{}]*)\}`)

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func (x *e02x) site(f *ssa.Function, c ssa.CallInstruction, name string, g *ssa.Function, construct string) bool {
	r := x.r
	pos := c.Pos()
	okT := func(t types.Type) (map[string]types.Type, bool) {
		m, bad := suitable(t)
		r.Ok("E02.struct", construct, pos, "the struct type is suitable for errors with data", bad == "", fmt.Sprintf("%s %s", t, bad))
		return m, bad == ""
	}
	// guards
	switch name {
	case "CheckParameterForStruct", "CheckParametersForStruct_all", "CheckIsSubtype":
		m, ok := okT(g.TypeArgs()[0])
		if !ok {
			return true
		}
		bad := ""
		switch name {
		case "CheckIsSubtype":
			m2, ok := okT(g.TypeArgs()[1])
			for k := range m {
				if _, has := m2[k]; ok && !has {
					bad = "the field " + k + " is missing in the second type"
				}
			}
		case "CheckParameterForStruct":
			for _, t := range x.templates(c.Common().Args[0]) {
				if s, ok := t.konst(); ok {
					if _, has := m[s]; !has {
						bad = "there is no field " + s
					}
				}
			}
		default:
			l, ok := x.varargs(c.Common().Args[0])
			if ok {
				have := map[string]bool{}
				for _, v := range l {
					ts := x.templates(v)
					s, k := ts[0].konst()
					if len(ts) != 1 || !k {
						ok = false
						break
					}
					if have[s] {
						bad = "the name " + s + " is listed twice"
					}
					have[s] = true
				}
				if ok && bad == "" {
					for k := range m {
						if !have[k] {
							bad = "the field " + k + " is not listed"
						}
					}
					for k := range have {
						if _, is := m[k]; !is {
							bad = "there is no field " + k
						}
					}
				}
			}
		}
		r.Ok("E02.guard", construct, pos, "the guard that is run at initialisation holds", bad == "", bad)
		return true
	}
	if !strings.HasPrefix(name, "NewErrorWithData_") && !strings.HasPrefix(name, "AddDataToError_") {
		return false
	}
	a := x.args(c, g)
	var fields map[string]types.Type
	if a.T != nil {
		m, ok := okT(a.T)
		if !ok {
			return true
		}
		fields = m
	}
	d, bad := x.direct(a)
	open := a.hasMap || bad == "open"
	if bad == "open" {
		bad = ""
	}
	// values given for fields must fit
	for k, t := range d.m {
		if w, ok := fields[k]; ok && t != nil && a.list != nil && !types.AssignableTo(t, w) {
			bad = fmt.Sprintf("the parameter %s is given as %s, but must be %s", k, t, w)
		}
	}
	r.Ok("E02.list", construct, pos, "the list of parameters is well-formed and fits the struct", bad == "", bad)
	base := pset{all: true}
	if a.base != nil {
		base = x.guar(a.base)
	}
	have := d
	if !base.all {
		have = d.union(base)
	}
	// required fields
	if a.miss != nil && a.T != nil && !open {
		want := false
		if u, ok := a.miss.(*ssa.UnOp); ok {
			if gl, ok := u.X.(*ssa.Global); ok && gl.Name() == "EnsureDataIsPresent" {
				want = true
			}
		}
		if want {
			miss := ""
			for k := range fields {
				if _, ok := have.m[k]; !ok && !have.weak {
					miss = fmt.Sprintf("the field %s of the struct is certain neither to be in the list nor in the wrapped error (%s)", k, have.names())
				}
			}
			r.Ok("E02.present", construct, pos, "all data required by the struct is present", miss == "", miss)
		}
	}
	if a.T != nil {
		have = have.union(pset{m: fields})
	}
	if a.data != nil {
		r.Ok("E02.data", construct, pos, "the data is not nil", !isNilConst(a.data), "the data pointer is nil")
	}
	if a.msg == nil {
		return true
	}
	for _, t := range x.templates(a.msg) {
		s, k := t.konst()
		if k && s == "" {
			r.Ok("E02.base", construct, pos, "an error without a message of its own wraps another", !isNilConst(a.base), "the base error is nil and the message empty")
			continue
		}
		if k {
			e := mkErr(s, map[string]string{}, &iErr{kind: "nil"})
			r.Ok("E02.syntax", construct, pos, "the message follows the interpolation language", e.ok, fmt.Sprintf("%q is malformed", s))
		}
		var lits []string
		if k {
			lits = []string{s}
		} else {
			for _, p := range t {
				if p != nil {
					lits = append(lits, *p)
				}
			}
		}
		if open {
			continue
		}
		nobad := ""
		for _, l := range lits {
			l = strings.NewReplacer(`\\`, "", `\%`, "", `\$`, "", "%%", "").Replace(l)
			for _, m := range e02ref.FindAllStringSubmatch(l, -1) {
				if strings.HasPrefix(m[1], "!") || strings.HasPrefix(m[2], "!") {
					continue
				}
				if _, ok := have.m[m[2]]; !ok && !have.weak {
					nobad = fmt.Sprintf("the message %q uses the parameter %s, which is not certain to be present (%s)", t.String(), m[2], have.names())
				}
			}
		}
		r.Ok("E02.names", construct, pos, "the message uses only parameters that the error has", nobad == "", nobad)
	}
	return true
}

// fmt runs the toolchain's printf analysis on every package.
func (x *e02x) fmt() {
	r := x.r
	facts := map[string]analysis.Fact{}
	done := map[string]bool{}
	n := 0
	var visit func(path string)
	visit = func(path string) {
		p := r.P.Pkgs[path]
		if p == nil || done[path] || p.IllTyped {
			return
		}
		done[path] = true
		for q := range p.Imports {
			if strings.HasPrefix(q, load.Module) {
				visit(q)
			}
		}
		if !strings.HasPrefix(path, load.Module) {
			return
		}
		bad := ""
		var at token.Pos
		cnt := 0
		pass := &analysis.Pass{Analyzer: printf.Analyzer, Fset: r.P.Fset, Files: p.Syntax, Pkg: p.Types, TypesInfo: p.TypesInfo, TypesSizes: p.TypesSizes,
			ResultOf: map[*analysis.Analyzer]interface{}{inspect.Analyzer: inspector.New(p.Syntax)},
			Report: func(d analysis.Diagnostic) {
				if bad == "" {
					bad, at = d.Message, d.Pos
				}
				cnt++
			},
			ImportObjectFact: func(o types.Object, f analysis.Fact) bool {
				g, ok := facts[o.String()]
				if ok {
					copyFact(f, g)
				}
				return ok
			},
			ExportObjectFact:  func(o types.Object, f analysis.Fact) { facts[o.String()] = f },
			ImportPackageFact: func(*types.Package, analysis.Fact) bool { return false },
			ExportPackageFact: func(analysis.Fact) {},
			AllObjectFacts:    func() []analysis.ObjectFact { return nil },
			AllPackageFacts:   func() []analysis.PackageFact { return nil },
		}
		if _, err := printf.Analyzer.Run(pass); err != nil {
			bad = err.Error()
		}
		n++
		r.Ok("E02.fmt", strings.TrimPrefix(path, load.Module+"/"), at, "format strings match their arguments", bad == "", fmt.Sprintf("%s (%d in this package)", bad, cnt))
	}
	for _, p := range r.P.Repo {
		visit(p.PkgPath)
	}
	r.Count("packages", n)
}

func copyFact(dst, src analysis.Fact) {
	d, s := reflect.ValueOf(dst), reflect.ValueOf(src)
	if d.Type() == s.Type() {
		d.Elem().Set(s.Elem())
	}
}
