package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/load"
)

func init() {
	register(&Property{ID: "U03", Level: "other", Technique: "Interprocedural mod/ref analysis over SSA: every use of a constant-like package variable is followed through address computations, copies of pointers, closures and calls (function summaries to a fixpoint); a store, a mutating method or an unknown sink is the violation.", F: runU03,
		Note: "Constant-like variables are all package variables of packages common, exponents, fieldElements and curvePoints built from integers, big integers, field elements and points. Queries of field elements and points that may change the representation but not the value (decided by F05, C02, C06) count as reads; operands of arithmetic too (F01-F06, C01)."})
}

// constLike tells whether a type is built from numbers, field elements and points only.
func constLike(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *types.Pointer:
		return isBigInt(u.Elem()) || isModNumeric(u.Elem())
	case *types.Array:
		return constLike(u.Elem())
	case *types.Slice:
		return constLike(u.Elem())
	case *types.Map:
		return constLike(u.Key()) && constLike(u.Elem())
	case *types.Struct:
		return isModNumeric(t)
	}
	return false
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func isModNumeric(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), load.Module) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return constLike(n.Underlying())
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Type()
		if empty(f) {
			continue
		}
		if !constLike(f) {
			return false
		}
	}
	return true
}

// empty types carry no data
func empty(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !empty(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

// queries of field elements, 256-bit integers and points that do not change the value
var feQueries = map[string]bool{"Normalize": true, "RerandomizeRepresentation": true, "IsEqual": true, "IsZero": true, "IsOne": true, "Sign": true, "CmpAbs": true,
	"Jacobi": true, "IsSquare": true, "ToBigInt": true, "ToUint256": true, "ToUInt64": true, "ToUint64": true, "ToInt64": true, "String": true, "Format": true, "Bytes": true,
	"IsNaP": true, "Validate": true, "IsEqualAsBigInt": true}

var bigReads = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bit": true, "BitLen": true, "Bytes": true, "FillBytes": true, "Int64": true, "Uint64": true,
	"IsInt64": true, "IsUint64": true, "Text": true, "String": true, "Append": true, "Format": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Float64": true,
	"MarshalJSON": true, "MarshalText": true, "GobEncode": true}

type mrKey struct {
	fn   *ssa.Function
	i    int // parameter, or -1-k for free variable k
	deep bool
}

type mrHit struct {
	pos token.Pos
	fn  *ssa.Function
	why string
}

type mrSum struct {
	hits []mrHit
	ret  bool
}

type modref struct {
	r       *Run
	sums    map[mrKey]*mrSum
	todo    []mrKey
	changed bool
	reads   map[string]bool // methods of the reading interface of points
	sites   int
}

// interface method names that only read a point
func (m *modref) readNames() {
	m.reads = map[string]bool{}
	for k := range feQueries {
		m.reads[k] = true
	}
	if t := m.r.P.Type(curvePkg, "CurvePointPtrInterfaceRead"); t != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				m.reads[it.Method(i).Name()] = true
			}
		}
	}
}

func (m *modref) sum(k mrKey) *mrSum {
	if s, ok := m.sums[k]; ok {
		return s
	}
	s := &mrSum{}
	m.sums[k] = s
	m.todo = append(m.todo, k)
	m.changed = true
	return s
}

// hasPtr: values of the type can share memory.
func hasPtr(t types.Type) bool {
	if empty(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// flow follows a tainted value inside a function.
func (m *modref) flow(fn *ssa.Function, start []ssa.Value, ownInit func(in ssa.Instruction) bool) *mrSum {
	out := &mrSum{}
	seen := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	for _, v := range start {
		add(v)
	}
	hit := func(in ssa.Instruction, why string) {
		if ownInit != nil && ownInit(in) {
			return
		}
		out.hits = append(out.hits, mrHit{in.Pos(), fn, why})
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		var refs []ssa.Instruction
		if _, isG := v.(*ssa.Global); isG {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == v {
							refs = append(refs, in)
							break
						}
					}
				}
			}
		} else if rp := v.Referrers(); rp != nil {
			refs = *rp
		}
		for _, in := range refs {
			m.sites++
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v {
					// storing through the tainted address
					if al, ok := addrBase(v).(*ssa.Alloc); !ok || al.Parent() != fn {
						hit(in, "is assigned")
					}
				}
				if x.Val == v {
					switch b := addrBase(x.Addr).(type) {
					case *ssa.Alloc:
						add(b)
					case *ssa.Global:
						if !(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
							hit(in, "is stored in variable "+b.Name())
						}
					default:
						hit(in, "is stored where others can reach it")
					}
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					hit(in, "is assigned (map entry)")
				}
			case *ssa.FieldAddr:
				add(x)
			case *ssa.IndexAddr:
				if x.X == v {
					add(x)
				}
			case *ssa.Slice:
				if x.X == v {
					add(x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && hasPtr(x.Type()) {
					add(x)
				}
			case *ssa.Field:
				if hasPtr(x.Type()) {
					add(x)
				}
			case *ssa.Index:
				if x.X == v && hasPtr(x.Type()) {
					add(x)
				}
			case *ssa.Lookup:
				if x.X == v && hasPtr(x.Type()) {
					add(x)
				}
			case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
				add(in.(ssa.Value))
			case *ssa.Convert:
				if hasPtr(x.Type()) {
					if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
						add(x)
					}
				}
			case *ssa.Extract:
				if hasPtr(x.Type()) {
					add(x)
				}
			case *ssa.Next, *ssa.Range:
				add(in.(ssa.Value))
			case *ssa.Return:
				out.ret = true
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for k, b := range x.Bindings {
					if b == v {
						s := m.sum(mrKey{f, -1 - k, false})
						for _, h := range s.hits {
							if ownInit == nil || !ownInit(in) {
								out.hits = append(out.hits, h)
							}
						}
					}
				}
			case *ssa.Send:
				hit(in, "is sent on a channel")
			case ssa.CallInstruction:
				m.call(fn, x, v, add, hit, out, ownInit)
			}
		}
	}
	return out
}

func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (m *modref) call(fn *ssa.Function, x ssa.CallInstruction, v ssa.Value, add func(ssa.Value), hit func(ssa.Instruction, string), out *mrSum, ownInit func(ssa.Instruction) bool) {
	c := x.Common()
	res := func() {
		if val := x.Value(); val != nil && hasPtr(val.Type()) {
			add(val)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "append":
			if len(c.Args) > 0 && c.Args[0] == v {
				if b.Name() == "copy" {
					hit(x, "is overwritten by copy")
				} else {
					hit(x, "is appended to in place")
				}
			} else if b.Name() == "append" && hasPtr(c.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				res()
			}
		case "delete", "clear":
			hit(x, "is changed by "+b.Name())
		}
		return
	}
	if c.IsInvoke() {
		if c.Value == v && !m.reads[c.Method.Name()] {
			hit(x, "is changed by calling method "+c.Method.Name())
		}
		for _, a := range c.Args {
			if a == v && !m.operandMethod(c.Method, a) {
				hit(x, "is passed to unknown method "+c.Method.Name())
			}
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		if c.Value == v {
			return // calling a function value
		}
		hit(x, "is passed to an unknown function")
		return
	}
	if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
		f = o
	}
	for i, a := range c.Args {
		if a != v {
			continue
		}
		if pk := fnPkg(f); pk == nil || !strings.HasPrefix(pk.Path(), load.Module) || len(f.Blocks) == 0 {
			m.external(f, i, x, hit, res)
			continue
		}
		if m.query(f, i) {
			continue
		}
		s := m.sum(mrKey{f, i, false})
		for _, h := range s.hits {
			if ownInit == nil || !ownInit(x) {
				out.hits = append(out.hits, h)
			}
		}
		if s.ret {
			res()
		}
	}
}

func fnPkg(f *ssa.Function) *types.Package {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return nil
}

// operandMethod: arguments of methods of points, field elements and writers are only read.
func (m *modref) operandMethod(f *types.Func, a ssa.Value) bool {
	if f.Pkg() != nil && f.Pkg().Path() == "io" {
		return f.Name() == "Write"
	}
	if f.Pkg() != nil && (f.Pkg().Path() == "reflect" || f.Pkg().Path() == "hash") {
		return true
	}
	return f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), load.Module)
}

// query: the argument's value is preserved by contract (decided by other properties).
func (m *modref) query(f *ssa.Function, i int) bool {
	sg := f.Signature
	if sg.Recv() == nil || len(f.Params) == 0 {
		return false
	}
	rt := sg.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := types.Unalias(rt).(*types.Named)
	if !ok {
		return false
	}
	nm := n.Obj().Name()
	num := strings.HasPrefix(nm, "bsFieldElement") || strings.HasPrefix(strings.ToLower(nm), "point_")
	if !num {
		return false
	}
	if i == 0 {
		return m.reads[f.Name()]
	}
	// operands of points and field elements
	t := f.Params[i].Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		_, arr := t.Underlying().(*types.Array)
		return !arr && (isFEType(t) || strings.HasPrefix(strings.ToLower(NamedOf(t)), "point_"))
	}
	_, isI := t.Underlying().(*types.Interface)
	return isI
}

func (m *modref) external(f *ssa.Function, i int, x ssa.CallInstruction, hit func(ssa.Instruction, string), res func()) {
	name := f.String()
	pk := ""
	if p := fnPkg(f); p != nil {
		pk = p.Path()
	}
	switch pk {
	case "math/big":
		if f.Signature.Recv() != nil && i == 0 && !bigReads[f.Name()] {
			if f.Name() == "Bits" {
				res()
				return
			}
			hit(x, "is changed by "+f.Name())
		}
		if f.Signature.Recv() != nil && i > 0 {
			switch f.Name() {
			case "SetBits":
				res()
			case "DivMod", "QuoRem":
				if i == 3 {
					hit(x, "is changed as remainder of "+f.Name())
				}
			case "GCD":
				if i == 1 || i == 2 {
					hit(x, "is changed as cofactor of "+f.Name())
				}
			}
		}
	case "encoding/binary":
		if strings.HasPrefix(f.Name(), "Put") || f.Name() == "Read" {
			hit(x, "is overwritten by "+f.Name())
		}
	case "io":
		if strings.HasPrefix(f.Name(), "Read") && i == 1 {
			hit(x, "is overwritten by "+f.Name())
		}
	case "fmt":
		if strings.Contains(f.Name(), "can") {
			hit(x, "is overwritten by "+f.Name())
		}
	case "errors", "strings", "bytes", "math", "math/bits", "strconv", "testing":
	case "reflect":
		res()
	default:
		if name == "" {
			return
		}
		hit(x, "is passed to "+name)
	}
}

func runU03(r *Run) {
	const rule = "constants-unchanged"
	m := &modref{r: r, sums: map[mrKey]*mrSum{}}
	m.readNames()
	fns := map[*ssa.Function]bool{}
	for _, f := range r.P.Functions() {
		fns[f] = true
	}
	// instances of generic functions are reached through their callers
	var globs []*ssa.Global
	for _, pkg := range []string{common, "bandersnatch/exponents", fe, curvePkg} {
		sp := r.P.SPkgs[load.Path(pkg)]
		if sp == nil {
			r.Ok(rule, pkg, 0, "package is analysable", false, "package not found")
			continue
		}
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok && !strings.Contains(g.Name(), "$") && constLike(g.Type().(*types.Pointer).Elem()) {
				globs = append(globs, g)
			}
		}
	}
	sort.Slice(globs, func(i, j int) bool { return globs[i].String() < globs[j].String() })
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	users := map[*ssa.Global][]*ssa.Function{}
	for _, f := range list {
		seen := map[*ssa.Global]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !seen[g] {
						seen[g] = true
						users[g] = append(users[g], f)
					}
				}
			}
		}
	}
	declared := initialisedVars(r)
	res := map[*ssa.Global][]mrHit{}
	run := func() {
		for _, g := range globs {
			res[g] = nil
			for _, f := range users[g] {
				inInit := f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != ""
				own := func(in ssa.Instruction) bool { return false }
				if inInit {
					// the initialiser of g itself
					own = func(in ssa.Instruction) bool {
						s, ok := in.(*ssa.Store)
						return ok && addrBase(s.Addr) == ssa.Value(g)
					}
				} else if strings.HasPrefix(f.Name(), "init#") && !declared[g.Object()] {
					own = func(in ssa.Instruction) bool { return true }
				}
				s := m.flow(f, []ssa.Value{g}, own)
				res[g] = append(res[g], s.hits...)
				if s.ret && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
					res[g] = append(res[g], mrHit{f.Pos(), f, "is handed out by reference"})
				}
			}
		}
	}
	for round := 0; round < 30; round++ {
		m.changed = false
		m.sites = 0
		run()
		for i := 0; i < len(m.todo); i++ {
			k := m.todo[i]
			var v ssa.Value
			if k.i >= 0 {
				if k.i >= len(k.fn.Params) {
					continue
				}
				v = k.fn.Params[k.i]
			} else {
				v = k.fn.FreeVars[-1-k.i]
			}
			s := m.flow(k.fn, []ssa.Value{v}, nil)
			old := m.sums[k]
			if len(s.hits) != len(old.hits) || s.ret != old.ret {
				if len(s.hits) > 50 {
					s.hits = s.hits[:50]
				}
				if len(s.hits) != len(old.hits) || s.ret != old.ret {
					m.changed = true
				}
				m.sums[k] = s
			}
		}
		if !m.changed {
			break
		}
	}
	for _, g := range globs {
		what := g.Pkg.Pkg.Name() + "." + g.Name()
		bad := ""
		pos := g.Pos()
		if h := res[g]; len(h) > 0 {
			bad = fmt.Sprintf("%s in %s at %s", h[0].why, shortFn(h[0].fn.String()), r.P.Rel(h[0].pos))
			if h[0].pos.IsValid() {
				pos = h[0].pos
			}
		}
		r.Ok(rule, what, pos, "keeps its value after initialisation", bad == "", bad)
	}
	r.Count("variables", len(globs))
	r.Count("uses", m.sites)
	r.Count("summaries", len(m.sums))
	r.Ok(rule, "coverage", 0, "uses of constants were found", m.sites > 100 && len(globs) > 40, fmt.Sprint(m.sites, " uses of ", len(globs), " variables"))
}

// initialisedVars are the package variables declared with an initialiser.
func initialisedVars(r *Run) map[types.Object]bool {
	out := map[types.Object]bool{}
	for _, q := range r.P.Repo {
		for _, in := range q.TypesInfo.InitOrder {
			for _, v := range in.Lhs {
				out[v] = true
			}
		}
	}
	return out
}
