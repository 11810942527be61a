package vg

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
)

// Model gives the meaning of calls that are not followed.
type Model func(it *Interp, st *State, call ssa.CallInstruction, fn *ssa.Function, args []Value) (res Value, handled bool)

// Leaf decides whether values of a type are atomic and gives their zero value.
type Leaf func(t types.Type) (Value, bool)

// PanicRec is a reachable panic site.
type PanicRec struct {
	Cond alg.Bdd
	Pos  token.Position
	Why  string
	Fn   string
}

// Interp is one analysis run.
type Interp struct {
	ExternErr func(g *ssa.Global) bool                                             // error variables that are only known to be non-nil and distinct
	Iface     func(st *State, r IfaceV, method string, args []Value) (Value, bool) // methods of model objects
	ErrData   map[string][]ChoiceAlt                                               // data attached to errors, by site
	SymIndex  func(elems []Value, idx *IntV) (Value, bool)                         // reads an array of domain values at an unknown index
	Maps      bool                                                                 // follow maps with constant integer keys
	lens      map[int32]alg.Rng                                                    // bit length atoms
	Prog      *ssa.Program
	C         *alg.Ctx
	Models    []Model
	NonNil    func(fn *ssa.Function, i int) bool // argument i of a modelled function is dereferenced
	Leaf      Leaf
	// GlobConv turns the structural value of a package variable of leaf type into a leaf
	GlobConv func(v Value) (Value, bool)
	// Halt is set by a model to the condition under which the modelled call does not return
	Halt   alg.Bdd
	Follow func(fn *ssa.Function) bool
	Panics []PanicRec
	// statistics
	NInstr, NCalls int
	Funcs          map[string]int
	Ext            map[string]int
	nobj           int
	globs          map[*ssa.Global]*Obj
	globVal        map[*ssa.Global]Value
	initMem        map[*Obj]Value // objects allocated by package initialisers
	globBusy       map[*ssa.Global]bool
	depth          int
	abs            []alg.Bdd
	MaxInstr       int
	MaxIter        int
	NondetGates    int
	iterProbe      int
}

// New makes an interpreter.
func New(prog *ssa.Program, c *alg.Ctx) *Interp {
	return &Interp{Prog: prog, C: c, Funcs: map[string]int{}, Ext: map[string]int{}, globs: map[*ssa.Global]*Obj{}, globVal: map[*ssa.Global]Value{}, initMem: map[*Obj]Value{}, globBusy: map[*ssa.Global]bool{}, MaxInstr: 3000000, MaxIter: 5000, iterProbe: 40}
}

// State is the abstract memory.
type State struct {
	mem map[*Obj]Value
}

// NewState is empty memory.
func NewState() *State { return &State{mem: map[*Obj]Value{}} }

func (s *State) copy() *State {
	n := &State{mem: make(map[*Obj]Value, len(s.mem))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

// NewObj allocates an object.
func (it *Interp) NewObj(st *State, name string, t types.Type, v Value) PtrV {
	it.nobj++
	o := &Obj{ID: it.nobj, Name: name, T: t}
	st.mem[o] = v
	return PtrV{o, ""}
}

func (it *Interp) undecided(pos token.Pos, f string, a ...any) {
	panic(Undecided{fmt.Sprintf("%s: %s", it.Prog.Fset.Position(pos), fmt.Sprintf(f, a...))})
}

// Zero is the zero value of a type.
func (it *Interp) Zero(t types.Type) Value {
	if it.Leaf != nil {
		if v, ok := it.Leaf(t); ok {
			return v
		}
	}
	if IsBigInt(t) {
		return &IntV{R: alg.KR(new(big.Int))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{alg.False}
		case u.Info()&types.IsInteger != 0:
			w, s := intType(t)
			return KInt(0, w, s)
		case u.Info()&types.IsString != 0:
			return StrV{""}
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return NilV{}
		}
		return OpaqueV{"zero " + t.String()}
	case *types.Struct:
		a := &AggV{E: make([]Value, u.NumFields())}
		for i := range a.E {
			a.E[i] = it.Zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 70000 {
			return OpaqueV{"large array"}
		}
		a := &AggV{E: make([]Value, n)}
		if n > 0 {
			z := it.Zero(u.Elem())
			for i := range a.E {
				a.E[i] = z
			}
		}
		return a
	case *types.Tuple:
		a := &TupleV{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = it.Zero(u.At(i).Type())
		}
		return a
	}
	return NilV{}
}

// IsBigInt recognises math/big.Int.
func IsBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// IntType gives width and signedness.
func IntType(t types.Type) (int, bool) { return intType(t) }

func intType(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	}
	return 64, false
}

// ---- merging ----

func (it *Interp) merge(alts []ChoiceAlt) Value {
	first := alts[0].V
	eq := true
	for _, a := range alts[1:] {
		if !same(a.V, first) {
			eq = false
			break
		}
	}
	if eq {
		return first
	}
	return &LazyV{A: alts}
}

// Force resolves a lazy join.
func (it *Interp) Force(v Value) Value { return it.force(v) }

func (it *Interp) force(v Value) Value {
	l, ok := v.(*LazyV)
	if !ok {
		return v
	}
	if l.done != nil {
		return l.done
	}
	alts := make([]ChoiceAlt, 0, len(l.A))
	for _, a := range l.A {
		if a.C == alg.False {
			continue
		}
		alts = append(alts, ChoiceAlt{a.C, it.force(a.V)})
	}
	if len(alts) == 0 {
		return OpaqueV{"unreachable"}
	}
	l.done = it.mergeNow(alts)
	return l.done
}

func (it *Interp) mergeNow(alts []ChoiceAlt) Value {
	if len(alts) == 1 {
		return alts[0].V
	}
	// flatten choices
	var fl []ChoiceAlt
	for _, a := range alts {
		if ch, ok := a.V.(*ChoiceV); ok {
			for _, b := range ch.A {
				if c := it.C.And(a.C, b.C); c != alg.False {
					fl = append(fl, ChoiceAlt{c, b.V})
				}
			}
		} else {
			fl = append(fl, a)
		}
	}
	alts = fl
	eq := true
	for _, a := range alts[1:] {
		if !same(a.V, alts[0].V) {
			eq = false
		}
	}
	if eq {
		return alts[0].V
	}
	switch x := alts[0].V.(type) {
	case *IntV:
		var pa []alg.Alt
		var rs []alg.Rng
		for _, a := range alts {
			y, ok := a.V.(*IntV)
			if !ok {
				return it.choice(alts)
			}
			pa = append(pa, alg.Alt{Cond: a.C, P: y.R.P})
			rs = append(rs, y.R)
		}
		return &IntV{R: it.C.Phi(pa, rs, ""), W: x.W, Signed: x.Signed}
	case BoolV:
		acc := alg.False
		for _, a := range alts {
			y, ok := a.V.(BoolV)
			if !ok {
				return it.choice(alts)
			}
			acc = it.C.Or(acc, it.C.And(a.C, y.B))
		}
		return BoolV{acc}
	case *AggV:
		n := len(x.E)
		for _, a := range alts {
			y, ok := a.V.(*AggV)
			if !ok || len(y.E) != n {
				return it.choice(alts)
			}
		}
		r := &AggV{E: make([]Value, n)}
		for i := 0; i < n; i++ {
			sub := make([]ChoiceAlt, len(alts))
			for k, a := range alts {
				sub[k] = ChoiceAlt{a.C, a.V.(*AggV).E[i]}
			}
			r.E[i] = it.merge(sub)
		}
		return r
	case *TupleV:
		n := len(x.E)
		for _, a := range alts {
			y, ok := a.V.(*TupleV)
			if !ok || len(y.E) != n {
				return it.choice(alts)
			}
		}
		r := &TupleV{E: make([]Value, n)}
		for i := 0; i < n; i++ {
			sub := make([]ChoiceAlt, len(alts))
			for k, a := range alts {
				sub[k] = ChoiceAlt{a.C, a.V.(*TupleV).E[i]}
			}
			r.E[i] = it.merge(sub)
		}
		return r
	case DomV:
		for _, a := range alts {
			if _, ok := a.V.(DomV); !ok {
				return it.choice(alts)
			}
		}
		return x.MergeDom(it, alts)
	}
	return it.choice(alts)
}

func (it *Interp) choice(alts []ChoiceAlt) Value {
	var out []ChoiceAlt
outer:
	for _, a := range alts {
		for i := range out {
			if same(out[i].V, a.V) {
				out[i].C = it.C.Or(out[i].C, a.C)
				continue outer
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0].V
	}
	return &ChoiceV{A: out}
}

// each applies f to every alternative of v and merges the results.
func (it *Interp) each(v Value, f func(v Value) Value) Value {
	v = it.force(v)
	ch, ok := v.(*ChoiceV)
	if !ok {
		return f(v)
	}
	out := make([]ChoiceAlt, 0, len(ch.A))
	for _, a := range ch.A {
		out = append(out, ChoiceAlt{a.C, f(it.force(a.V))})
	}
	return it.force(it.merge(out))
}

// ---- memory ----

func (it *Interp) rootVal(st *State, o *Obj) Value {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if o.Glob != nil {
		return it.globInit(o.Glob)
	}
	if v, ok := it.initMem[o]; ok {
		return v
	}
	return OpaqueV{"unknown object " + o.Name}
}

func (it *Interp) sub(v Value, path string) Value {
	for path != "" {
		v = it.force(v)
		switch x := v.(type) {
		case *AggV:
			var i int
			i, path = pathHead(path)
			if i < 0 || i >= len(x.E) {
				return OpaqueV{"index out of range"}
			}
			v = x.E[i]
		case *ChoiceV:
			p := path
			return it.each(x, func(w Value) Value { return it.force(it.sub(w, p)) })
		case OpaqueV:
			return x
		default:
			return OpaqueV{fmt.Sprintf("component of %T", v)}
		}
	}
	return v
}

func (it *Interp) setSub(v Value, path string, w Value) Value {
	if path == "" {
		return w
	}
	v = it.force(v)
	x, ok := v.(*AggV)
	if !ok {
		if ch, ok := v.(*ChoiceV); ok {
			p := path
			return it.each(ch, func(u Value) Value { return it.setSub(u, p, w) })
		}
		if _, dom := v.(DomV); dom {
			panic(leafStore{})
		}
		return OpaqueV{"store into unknown"}
	}
	i, rest := pathHead(path)
	if i < 0 || i >= len(x.E) {
		return OpaqueV{"store out of range"}
	}
	n := &AggV{E: append([]Value(nil), x.E...)}
	n.E[i] = it.setSub(x.E[i], rest, w)
	return n
}

// Load reads through a pointer value.
func (it *Interp) Load(st *State, p Value) Value {
	p = it.force(p)
	switch x := p.(type) {
	case PtrV:
		return it.sub(it.rootVal(st, x.O), x.Path)
	case *ChoiceV:
		return it.each(x, func(w Value) Value {
			if _, isnil := w.(NilV); isnil {
				return OpaqueV{"nil dereference"}
			}
			return it.force(it.Load(st, w))
		})
	case NilV:
		return OpaqueV{"nil dereference"}
	case SymPtrV:
		if a, ok := it.force(it.sub(it.rootVal(st, x.O), x.Path)).(*AggV); ok {
			if v, ok := it.SymIndex(a.E, x.Idx); ok {
				return v
			}
		}
		return OpaqueV{"element at an unknown index"}
	}
	return OpaqueV{"load through unknown pointer"}
}

// Store writes through a pointer value.
func (it *Interp) Store(st *State, p Value, v Value) {
	p = it.force(p)
	switch x := p.(type) {
	case PtrV:
		st.mem[x.O] = it.setSub(it.rootVal(st, x.O), x.Path, v)
	case *ChoiceV:
		for _, a := range x.A {
			q, ok := a.V.(PtrV)
			if !ok {
				continue
			}
			old := it.sub(it.rootVal(st, q.O), q.Path)
			nv := it.merge([]ChoiceAlt{{a.C, v}, {it.C.Not(a.C), old}})
			st.mem[q.O] = it.setSub(it.rootVal(st, q.O), q.Path, nv)
		}
	case NilV:
	default:
		// a store through an unknown pointer may hit anything
		for o := range st.mem {
			st.mem[o] = OpaqueV{"clobbered by store through unknown pointer"}
		}
	}
}

// GlobalObj is the object of a package variable.
func (it *Interp) GlobalObj(g *ssa.Global) *Obj {
	if o, ok := it.globs[g]; ok {
		return o
	}
	it.nobj++
	o := &Obj{ID: it.nobj, Name: g.RelString(nil), T: g.Type().(*types.Pointer).Elem(), Glob: g}
	it.globs[g] = o
	return o
}

// globInit evaluates the package-level initialiser of g by a backward slice of the init function.
func (it *Interp) globInit(g *ssa.Global) Value {
	if v, ok := it.globVal[g]; ok {
		return v
	}
	if it.globBusy[g] {
		return OpaqueV{"cyclic initialisation"}
	}
	it.globBusy[g] = true
	defer delete(it.globBusy, g)
	elem := g.Type().(*types.Pointer).Elem()
	if it.ExternErr != nil && types.Identical(elem, types.Universe.Lookup("error").Type()) && it.ExternErr(g) {
		// an error variable of the standard library: a fixed non-nil error
		v := IfaceV{T: elem, V: OpaqueV{"error " + g.RelString(nil)}}
		it.globVal[g] = v
		return v
	}
	if s, ok := elem.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		// a type with a single value (binary.LittleEndian)
		v := it.Zero(elem)
		it.globVal[g] = v
		return v
	}
	_, leaf := Value(nil), false
	if it.Leaf != nil && it.GlobConv != nil {
		_, leaf = it.Leaf(elem)
	}
	v, ok := it.tryInit(g, leaf)
	if !ok {
		lf := it.Leaf
		it.Leaf = nil
		v = it.evalInit(g)
		it.Leaf = lf
		if w, ok := it.GlobConv(v); ok {
			v = w
		}
	}
	it.globVal[g] = v
	return v
}

type leafStore struct{ t string }

// tryInit evaluates an initialiser; it fails when a variable of a leaf type is built from its parts.
func (it *Interp) tryInit(g *ssa.Global, leaf bool) (v Value, ok bool) {
	if leaf {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(leafStore); is {
					v, ok = nil, false
					return
				}
				panic(e)
			}
		}()
	}
	return it.evalInit(g), true
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (it *Interp) evalInit(g *ssa.Global) Value {
	zero := it.Zero(g.Type().(*types.Pointer).Elem())
	if g.Pkg == nil {
		return OpaqueV{"no package"}
	}
	initFn := g.Pkg.Func("init")
	if initFn == nil || len(initFn.Blocks) == 0 {
		return OpaqueV{"no init of " + g.String()}
	}
	// assigned by a declared init function or elsewhere: unknown
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f == initFn {
			continue
		}
		if writesGlobal(f, g) {
			return OpaqueV{"variable " + g.String() + " is assigned outside its declaration (" + f.Name() + ")"}
		}
	}
	// slice
	need := map[ssa.Instruction]bool{}
	roots := map[ssa.Value]bool{g: true}
	var addVal func(v ssa.Value)
	addVal = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Parent() != initFn || need[in] {
			return
		}
		need[in] = true
		if al, ok := v.(*ssa.Alloc); ok {
			roots[al] = true
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				addVal(*op)
			}
		}
	}
	any := false
	for changed := true; changed; {
		changed = false
		for _, b := range initFn.Blocks {
			for _, in := range b.Instrs {
				if need[in] {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if roots[addrRoot(x.Addr)] {
						need[in] = true
						changed = true
						any = true
						addVal(x.Addr)
						addVal(x.Val)
					}
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if r := addrRoot(a); roots[r] && r != g {
							addVal(x)
							changed = true
							break
						}
					}
				case *ssa.MapUpdate:
					if need2, ok := x.Map.(ssa.Instruction); ok && need[need2] {
						need[in] = true
						changed = true
						addVal(x.Key)
						addVal(x.Value)
					}
				}
			}
		}
	}
	if !any {
		return zero
	}
	st := NewState()
	o := it.GlobalObj(g)
	st.mem[o] = zero
	fr := &frame{it: it, fn: initFn}
	regs := map[ssa.Value]Value{}
	sv := it.abs
	it.abs = nil
	defer func() { it.abs = sv }()
	for _, b := range initFn.Blocks {
		for _, in := range b.Instrs {
			if need[in] {
				it.NInstr++
				fr.instr(st, regs, in)
			}
		}
	}
	for q, v := range st.mem {
		if q.Glob == nil {
			it.initMem[q] = v
		}
	}
	return st.mem[o]
}

func writesGlobal(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && addrRoot(s.Addr) == ssa.Value(g) {
				return true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if writesGlobal(a, g) {
			return true
		}
	}
	return false
}

// ---- function evaluation ----

type edge struct {
	cond alg.Bdd
	st   *State
	regs map[ssa.Value]Value
	pred *ssa.BasicBlock
}

type retRec struct {
	cond alg.Bdd
	st   *State
	vals []Value
}

type frame struct {
	it      *Interp
	fn      *ssa.Function
	pending map[*ssa.BasicBlock][]edge
	rets    []retRec
	loops   map[*ssa.BasicBlock]*loop // header -> loop
	order   map[*ssa.BasicBlock]int
	inner   map[*ssa.BasicBlock]*loop
	bind    []Value
	defers  []*ssa.Defer
	dargs   map[*ssa.Defer][]Value
	visits  map[*ssa.BasicBlock]int
	cur     alg.Bdd
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type cfgInfo struct {
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop
	inner map[*ssa.BasicBlock]*loop
}

var (
	cfgCache = map[*ssa.Function]*cfgInfo{}
	cfgMu    sync.Mutex
)

func cfgOf(fn *ssa.Function) *cfgInfo {
	cfgMu.Lock()
	defer cfgMu.Unlock()
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	ci := &cfgInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		ci.order[b] = len(post) - 1 - i
	}
	// natural loops
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ci.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					ci.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] || !seen[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	var ls []*loop
	for _, l := range ci.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return ci.order[ls[i].header] < ci.order[ls[j].header]
	})
	for _, b := range post {
		for _, l := range ls {
			if l.blocks[b] {
				ci.inner[b] = l
				break
			}
		}
	}
	for i, l := range ls {
		for _, m := range ls[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
	}
	cfgCache[fn] = ci
	return ci
}

// Call analyses fn with the given arguments and returns merged results; st is updated in place.
// The result condition tells when the function returns normally.
func (it *Interp) Call(st *State, fn *ssa.Function, args []Value, bind []Value) ([]Value, alg.Bdd) {
	if len(fn.Blocks) == 0 {
		panic(Undecided{"no body: " + fn.String()})
	}
	if it.depth > 60 {
		panic(Undecided{"call depth exceeded at " + fn.String()})
	}
	it.depth++
	it.NCalls++
	it.Funcs[fn.RelString(nil)]++
	defer func() { it.depth-- }()
	ci := cfgOf(fn)
	fr := &frame{it: it, fn: fn, pending: map[*ssa.BasicBlock][]edge{}, loops: ci.loops, order: ci.order, inner: ci.inner, bind: bind, visits: map[*ssa.BasicBlock]int{}}
	regs := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			regs[f] = bind[i]
		} else {
			regs[f] = OpaqueV{"free variable"}
		}
	}
	fr.pending[fn.Blocks[0]] = []edge{{alg.True, st.copy(), regs, nil}}
	fr.runRegion(nil)
	if len(fr.rets) == 0 {
		return nil, alg.False
	}
	cond := alg.False
	for _, r := range fr.rets {
		cond = it.C.Or(cond, r.cond)
	}
	res := fr.mergeRets(cond, st)
	return res, cond
}

func (fr *frame) mergeRets(cond alg.Bdd, st *State) []Value {
	it := fr.it
	if len(fr.rets) == 1 {
		st.mem = fr.rets[0].st.mem
		return fr.rets[0].vals
	}
	var sts []*State
	var cs []alg.Bdd
	for _, r := range fr.rets {
		sts = append(sts, r.st)
		cs = append(cs, it.C.Constrain(r.cond, cond))
	}
	m := it.mergeStates(cs, sts)
	st.mem = m.mem
	n := len(fr.rets[0].vals)
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		alts := make([]ChoiceAlt, len(fr.rets))
		for k, r := range fr.rets {
			alts[k] = ChoiceAlt{cs[k], r.vals[i]}
		}
		out[i] = it.merge(alts)
	}
	return out
}

func (it *Interp) mergeStates(cs []alg.Bdd, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].copy()
	}
	m := NewState()
	keys := map[*Obj]bool{}
	for _, s := range sts {
		for o := range s.mem {
			keys[o] = true
		}
	}
	ks := make([]*Obj, 0, len(keys))
	for o := range keys {
		ks = append(ks, o)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, o := range ks {
		var alts []ChoiceAlt
		for i, s := range sts {
			v, ok := s.mem[o]
			if !ok {
				if o.Glob != nil {
					v = it.globInit(o.Glob)
				} else {
					continue // not allocated on that path
				}
			}
			alts = append(alts, ChoiceAlt{cs[i], v})
		}
		m.mem[o] = it.merge(alts)
	}
	return m
}

func (fr *frame) pick(l *loop) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for b := range fr.pending {
		if l != nil && (!l.blocks[b] || b == l.header) {
			continue
		}
		if best == nil || fr.order[b] < fr.order[best] {
			best = b
		}
	}
	if best == nil && l != nil {
		if _, ok := fr.pending[l.header]; ok {
			return l.header
		}
	}
	return best
}

// runRegion processes pending blocks of loop l (nil: whole function).
func (fr *frame) runRegion(l *loop) {
	if l != nil {
		fr.block(l.header)
	}
	for {
		b := fr.pick(l)
		if b == nil {
			return
		}
		if s := fr.loops[b]; s != nil && s != l {
			fr.runRegion(s)
			continue
		}
		fr.block(b)
	}
}

func (fr *frame) block(b *ssa.BasicBlock) {
	it := fr.it
	es := fr.pending[b]
	delete(fr.pending, b)
	fr.visits[b]++
	if fr.visits[b] > it.MaxIter {
		it.undecided(b.Instrs[0].Pos(), "loop bound exceeded in %s", fr.fn)
	}
	cond := alg.False
	for _, e := range es {
		cond = it.C.Or(cond, e.cond)
	}
	if cond == alg.False {
		return
	}
	var st *State
	var regs map[ssa.Value]Value
	cs := make([]alg.Bdd, len(es))
	for i, e := range es {
		cs[i] = it.C.Constrain(e.cond, cond)
	}
	if len(es) == 1 {
		st, regs = es[0].st, es[0].regs
	} else {
		sts := make([]*State, len(es))
		for i, e := range es {
			sts[i] = e.st
		}
		st = it.mergeStates(cs, sts)
		regs = map[ssa.Value]Value{}
		for r, v := range es[0].regs {
			alts := []ChoiceAlt{{cs[0], v}}
			ok := true
			for i, e := range es[1:] {
				w, has := e.regs[r]
				if !has {
					ok = false
					break
				}
				alts = append(alts, ChoiceAlt{cs[i+1], w})
			}
			if ok {
				regs[r] = it.merge(alts)
			}
		}
	}
	// unbounded loops: prune infeasible iterations
	if fr.loops[b] != nil && cond != alg.True && fr.visits[b] > 1 && (fr.visits[b] <= 8 || fr.visits[b]%16 == 0) && fr.visits[b] > 2 {
		full := cond
		for _, a := range it.abs {
			full = it.C.And(full, a)
		}
		if ok, _, _ := it.C.Prove(alg.Goal{Kind: alg.GFalse, P: alg.KI(0), Cond: full, Shallow: true}, 400); ok {
			return
		}
	}
	sv := fr.cur
	fr.cur = cond
	defer func() { fr.cur = sv }()
	// phis first
	var newv []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		alts := make([]ChoiceAlt, 0, len(es))
		for i, e := range es {
			k := -1
			for j, p := range b.Preds {
				if p == e.pred {
					k = j
					break
				}
			}
			if k < 0 {
				it.undecided(ph.Pos(), "phi without predecessor")
			}
			alts = append(alts, ChoiceAlt{cs[i], fr.get(e.regs, ph.Edges[k])})
		}
		phis = append(phis, ph)
		newv = append(newv, it.merge(alts))
	}
	for i, ph := range phis {
		regs[ph] = newv[i]
	}
	for _, in := range b.Instrs[len(phis):] {
		it.NInstr++
		if it.NInstr > it.MaxInstr {
			it.undecided(in.Pos(), "instruction budget exceeded in %s", fr.fn)
		}
		switch x := in.(type) {
		case *ssa.If:
			c := fr.toBdd(fr.get(regs, x.Cond), x.Cond)
			t, f := it.C.And(cond, c), it.C.And(cond, it.C.Not(c))
			if t != alg.False && f != alg.False {
				fr.push(b.Succs[0], edge{t, st.copy(), copyRegs(regs), b})
				fr.push(b.Succs[1], edge{f, st, regs, b})
			} else if t != alg.False {
				fr.push(b.Succs[0], edge{t, st, regs, b})
			} else if f != alg.False {
				fr.push(b.Succs[1], edge{f, st, regs, b})
			}
			return
		case *ssa.Jump:
			fr.push(b.Succs[0], edge{cond, st, regs, b})
			return
		case *ssa.Return:
			vals := make([]Value, len(x.Results))
			for i, r := range x.Results {
				vals[i] = fr.get(regs, r)
			}
			fr.rets = append(fr.rets, retRec{cond, st, vals})
			return
		case *ssa.Panic:
			it.panicAt(cond, x.Pos(), "panic", fr.fn)
			return
		default:
			ok := fr.instrC(st, regs, in, &cond)
			if !ok || cond == alg.False {
				return
			}
			fr.cur = cond
		}
	}
}

// Merge joins guarded alternatives.
func (it *Interp) Merge(alts []ChoiceAlt) Value {
	var live []ChoiceAlt
	for _, a := range alts {
		if a.C != alg.False {
			live = append(live, a)
		}
	}
	return it.merge(live)
}

// PathCond is the condition under which the currently analysed call is reached.
func (it *Interp) PathCond() alg.Bdd {
	full := alg.True
	for _, a := range it.abs {
		full = it.C.And(full, a)
	}
	return full
}

// NilCond is the condition under which a pointer or interface value is nil.
func (it *Interp) NilCond(v Value) (alg.Bdd, bool) {
	fr := &frame{it: it}
	return fr.eqVals(v, NilV{})
}

func (it *Interp) panicAt(cond alg.Bdd, pos token.Pos, why string, fn *ssa.Function) {
	full := it.C.And(cond, it.PathCond())
	if full == alg.False {
		return
	}
	it.Panics = append(it.Panics, PanicRec{full, it.Prog.Fset.Position(pos), why, fn.RelString(nil)})
}

func copyRegs(r map[ssa.Value]Value) map[ssa.Value]Value {
	n := make(map[ssa.Value]Value, len(r))
	for k, v := range r {
		n[k] = v
	}
	return n
}

func (fr *frame) push(b *ssa.BasicBlock, e edge) {
	fr.pending[b] = append(fr.pending[b], e)
}

func (fr *frame) get(regs map[ssa.Value]Value, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.it.constVal(x)
	case *ssa.Global:
		return PtrV{fr.it.GlobalObj(x), ""}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return OpaqueV{"builtin " + x.Name()}
	}
	r, ok := regs[v]
	if !ok {
		return OpaqueV{"undefined register " + v.Name()}
	}
	return fr.it.force(r)
}

func (it *Interp) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return it.Zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return BoolV{tfb(constant.BoolVal(x.Value))}
	case constant.String:
		return StrV{constant.StringVal(x.Value)}
	case constant.Int, constant.Float:
		b, ok := t.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			v := constant.ToInt(x.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if ok {
				w, s := intType(t)
				return &IntV{R: alg.KR(n), W: w, Signed: s}
			}
		}
	}
	return OpaqueV{"constant " + x.String()}
}

func tfb(b bool) alg.Bdd {
	if b {
		return alg.True
	}
	return alg.False
}

func (fr *frame) toBdd(v Value, at ssa.Value) alg.Bdd {
	it := fr.it
	v = it.force(v)
	switch x := v.(type) {
	case BoolV:
		return x.B
	case *ChoiceV:
		acc := alg.False
		for _, a := range x.A {
			acc = it.C.Or(acc, it.C.And(a.C, fr.toBdd(a.V, at)))
		}
		return acc
	}
	// unknown condition: a free gate
	it.NondetGates++
	g := it.C.NewAtom(fmt.Sprintf("nondet%d", len(it.C.Atoms)), alg.KGate, new(big.Int), big.NewInt(1))
	return it.C.BVar(g.ID)
}

// Nondet makes a free condition.
func (it *Interp) Nondet(name string) alg.Bdd {
	g := it.C.NewAtom(name, alg.KGate, new(big.Int), big.NewInt(1))
	return it.C.BVar(g.ID)
}

func (fr *frame) instr(st *State, regs map[ssa.Value]Value, in ssa.Instruction) {
	c := alg.True
	fr.instrC(st, regs, in, &c)
}

// instrC executes one instruction; false: control does not continue.
func (fr *frame) instrC(st *State, regs map[ssa.Value]Value, in ssa.Instruction, cond *alg.Bdd) bool {
	it := fr.it
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		regs[x] = it.NewObj(st, x.Comment, x.Type().(*types.Pointer).Elem(), it.Zero(x.Type().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		regs[x] = fr.binop(x, fr.get(regs, x.X), fr.get(regs, x.Y))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			regs[x] = it.Load(st, fr.get(regs, x.X))
		case token.NOT:
			regs[x] = BoolV{it.C.Not(fr.toBdd(fr.get(regs, x.X), x.X))}
		case token.SUB:
			v, ok := fr.get(regs, x.X).(*IntV)
			if !ok {
				regs[x] = OpaqueV{"negation"}
				break
			}
			regs[x] = it.wrap(it.C.NegR(v.R), v.W, v.Signed)
		case token.XOR:
			v, ok := fr.get(regs, x.X).(*IntV)
			if !ok {
				regs[x] = OpaqueV{"complement"}
				break
			}
			if v.Signed {
				regs[x] = it.wrap(it.C.SubR(alg.KR(big.NewInt(-1)), v.R), v.W, true)
			} else {
				regs[x] = &IntV{R: it.C.SubR(alg.KR(new(big.Int).Sub(alg.Two(uint(v.W)), big.NewInt(1))), v.R), W: v.W}
			}
		default:
			regs[x] = OpaqueV{"receive"}
		}
	case *ssa.Store:
		it.Store(st, fr.get(regs, x.Addr), fr.get(regs, x.Val))
	case *ssa.FieldAddr:
		regs[x] = it.each(fr.get(regs, x.X), func(v Value) Value {
			if p, ok := v.(PtrV); ok {
				return PtrV{p.O, pathPush(p.Path, x.Field)}
			}
			return OpaqueV{"field of unknown pointer"}
		})
	case *ssa.Field:
		regs[x] = it.sub(fr.get(regs, x.X), pathPush("", x.Field))
	case *ssa.IndexAddr:
		regs[x] = fr.indexAddr(st, x, fr.get(regs, x.X), fr.get(regs, x.Index), cond)
	case *ssa.Index:
		regs[x] = fr.index(x, fr.get(regs, x.X), fr.get(regs, x.Index))
	case *ssa.Extract:
		t := it.force(fr.get(regs, x.Tuple))
		regs[x] = it.each(t, func(v Value) Value {
			if tv, ok := v.(*TupleV); ok {
				return it.force(tv.E[x.Index])
			}
			return OpaqueV{"component of unknown tuple"}
		})
	case *ssa.ChangeType:
		regs[x] = fr.get(regs, x.X)
	case *ssa.ChangeInterface:
		regs[x] = fr.get(regs, x.X)
	case *ssa.Convert:
		regs[x] = fr.convert(x, fr.get(regs, x.X), st)
	case *ssa.MultiConvert:
		regs[x] = OpaqueV{"multiconvert"}
	case *ssa.MakeInterface:
		regs[x] = IfaceV{x.X.Type(), fr.get(regs, x.X)}
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, fr.get(regs, b))
		}
		regs[x] = f
	case *ssa.MakeSlice:
		n, ok1 := ConstInt(fr.get(regs, x.Len))
		c, ok2 := ConstInt(fr.get(regs, x.Cap))
		if !ok1 || !ok2 || !n.IsInt64() || c.Int64() > 70000 || n.Sign() < 0 {
			regs[x] = OpaqueV{"slice of unknown length"}
			break
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		a := &AggV{E: make([]Value, int(c.Int64()))}
		z := it.Zero(el)
		for i := range a.E {
			a.E[i] = z
		}
		p := it.NewObj(st, "make", x.Type(), a)
		regs[x] = SliceV{p, 0, int(n.Int64()), int(c.Int64())}
	case *ssa.Slice:
		regs[x] = fr.slice(st, x, regs)
	case *ssa.SliceToArrayPointer:
		s, ok := fr.get(regs, x.X).(SliceV)
		if !ok {
			regs[x] = OpaqueV{"slice to array"}
			break
		}
		if s.Off == 0 {
			regs[x] = s.Base
		} else {
			regs[x] = OpaqueV{"slice to array with offset"}
		}
	case *ssa.TypeAssert:
		regs[x] = fr.typeAssert(x, fr.get(regs, x.X), cond)
	case *ssa.Lookup:
		regs[x] = OpaqueV{"map lookup"}
		if m, ok := fr.get(regs, x.X).(MapV); ok && !x.CommaOk {
			if c, ok := it.force(it.rootVal(st, m.O)).(*MapC); ok {
				if k, ok := ConstInt(fr.get(regs, x.Index)); ok {
					regs[x] = c.Zero
					for i := range c.K {
						if c.K[i].Cmp(k) == 0 {
							regs[x] = c.V[i]
						}
					}
				}
			}
			break
		}
		if x.CommaOk {
			regs[x] = &TupleV{E: []Value{OpaqueV{"map lookup"}, OpaqueV{"map lookup ok"}}}
		}
		if s, ok := fr.get(regs, x.X).(StrV); ok {
			if i, ok := ConstInt(fr.get(regs, x.Index)); ok && i.IsInt64() && i.Int64() >= 0 && i.Int64() < int64(len(s.S)) {
				regs[x] = KInt(int64(s.S[i.Int64()]), 8, false)
			}
		}
	case *ssa.MapUpdate:
		if m, ok := fr.get(regs, x.Map).(MapV); ok {
			c, ok := it.force(it.rootVal(st, m.O)).(*MapC)
			k, isk := ConstInt(fr.get(regs, x.Key))
			if !ok || !isk {
				st.mem[m.O] = OpaqueV{"map"}
				break
			}
			d := &MapC{Zero: c.Zero}
			for i := range c.K {
				if c.K[i].Cmp(k) != 0 {
					d.K, d.V = append(d.K, c.K[i]), append(d.V, c.V[i])
				}
			}
			d.K, d.V = append(d.K, k), append(d.V, fr.get(regs, x.Value))
			st.mem[m.O] = d
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		if mt, ok := x.(ssa.Value).Type().Underlying().(*types.Map); ok && it.Maps {
			p := it.NewObj(st, "map", mt, &MapC{Zero: it.Zero(mt.Elem())})
			regs[x.(ssa.Value)] = MapV{p.O}
			break
		}
		regs[x.(ssa.Value)] = OpaqueV{"map"}
	case *ssa.Range:
		regs[x] = OpaqueV{"range"}
	case *ssa.Next:
		regs[x] = &TupleV{E: []Value{OpaqueV{"next"}, OpaqueV{"next"}, OpaqueV{"next"}}}
	case *ssa.Call:
		return fr.call(st, regs, x, cond)
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
		it.undecidedIf(fr.loops[x.Block()] != nil, x.Pos(), "defer in loop")
		// arguments are evaluated now
		args := fr.callArgs(regs, &x.Call)
		fr.deferArgs(x, args)
	case *ssa.RunDefers:
		// run deferred calls that dominate this point
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if d.Block().Dominates(x.Block()) {
				fr.runDeferred(st, d, cond)
			}
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		it.undecided(in.Pos(), "concurrency construct")
	default:
		it.undecided(in.Pos(), "instruction %T", in)
	}
	return true
}

func (it *Interp) undecidedIf(b bool, pos token.Pos, f string, a ...any) {
	if b {
		it.undecided(pos, f, a...)
	}
}

func (fr *frame) deferArgs(d *ssa.Defer, a []Value) {
	if fr.dargs == nil {
		fr.dargs = map[*ssa.Defer][]Value{}
	}
	fr.dargs[d] = a
}

func (fr *frame) runDeferred(st *State, d *ssa.Defer, cond *alg.Bdd) {
	fr.invoke(st, d, d.Common(), fr.dargs[d], cond)
}

func (fr *frame) indexAddr(st *State, x *ssa.IndexAddr, base, idx Value, cond *alg.Bdd) Value {
	it := fr.it
	return it.each(base, func(b Value) Value {
		return it.each(idx, func(iv Value) Value {
			i, ok := ConstInt(iv)
			var n int
			switch y := b.(type) {
			case PtrV:
				if pt, ok2 := x.X.Type().Underlying().(*types.Pointer); ok2 {
					if at, ok3 := pt.Elem().Underlying().(*types.Array); ok3 {
						n = int(at.Len())
					}
				}
				if ok {
					if !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(n) {
						it.panicAt(*cond, x.Pos(), "index out of range", fr.fn)
						return OpaqueV{"index out of range"}
					}
					return PtrV{y.O, pathPush(y.Path, int(i.Int64()))}
				}
			case SliceV:
				n = y.Len
				if ok {
					if !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(n) {
						it.panicAt(*cond, x.Pos(), "index out of range", fr.fn)
						return OpaqueV{"index out of range"}
					}
					return PtrV{y.Base.O, pathPush(y.Base.Path, y.Off+int(i.Int64()))}
				}
			case NilV:
				it.panicAt(*cond, x.Pos(), "index of nil slice", fr.fn)
				return OpaqueV{"index of nil"}
			default:
				return OpaqueV{"element of unknown"}
			}
			// symbolic index: guarded union over the possible elements
			v, isint := iv.(*IntV)
			if isint && it.SymIndex != nil {
				in := it.C.And(it.C.LtR(v.R, alg.KR(big.NewInt(int64(n)))), it.C.Not(it.C.LtR(v.R, alg.KR(new(big.Int)))))
				it.panicAt(it.C.And(*cond, it.C.Not(in)), x.Pos(), "index out of range", fr.fn)
				switch y := b.(type) {
				case PtrV:
					return SymPtrV{y.O, y.Path, v}
				}
			}
			if !isint || n > 64 {
				return OpaqueV{"symbolic index"}
			}
			var alts []ChoiceAlt
			for k := 0; k < n; k++ {
				c := it.C.EqR(v.R, alg.KR(big.NewInt(int64(k))))
				if c == alg.False {
					continue
				}
				switch y := b.(type) {
				case PtrV:
					alts = append(alts, ChoiceAlt{c, PtrV{y.O, pathPush(y.Path, k)}})
				case SliceV:
					alts = append(alts, ChoiceAlt{c, PtrV{y.Base.O, pathPush(y.Base.Path, y.Off+k)}})
				}
			}
			if len(alts) == 0 {
				return OpaqueV{"index out of range"}
			}
			return it.choice(alts)
		})
	})
}

func (fr *frame) index(x *ssa.Index, base, idx Value) Value {
	it := fr.it
	return it.each(base, func(b Value) Value {
		if i, ok := ConstInt(idx); ok && i.IsInt64() {
			if a, ok := b.(*AggV); ok && i.Sign() >= 0 && i.Int64() < int64(len(a.E)) {
				return it.force(a.E[i.Int64()])
			}
			if s, ok := b.(StrV); ok && i.Sign() >= 0 && i.Int64() < int64(len(s.S)) {
				return KInt(int64(s.S[i.Int64()]), 8, false)
			}
		}
		if a, ok := b.(*AggV); ok {
			if v, ok := idx.(*IntV); ok && len(a.E) <= 64 {
				var alts []ChoiceAlt
				for k := range a.E {
					c := it.C.EqR(v.R, alg.KR(big.NewInt(int64(k))))
					if c != alg.False {
						alts = append(alts, ChoiceAlt{c, it.force(a.E[k])})
					}
				}
				if len(alts) > 0 {
					return it.mergeNow(alts)
				}
			}
		}
		return OpaqueV{"index"}
	})
}

func (fr *frame) slice(st *State, x *ssa.Slice, regs map[ssa.Value]Value) Value {
	it := fr.it
	return it.each(fr.get(regs, x.X), func(b Value) Value {
		get := func(v ssa.Value, def int) (int, bool) {
			if v == nil {
				return def, true
			}
			c, ok := ConstInt(fr.get(regs, v))
			if !ok || !c.IsInt64() {
				return 0, false
			}
			return int(c.Int64()), true
		}
		switch y := b.(type) {
		case PtrV:
			n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			lo, ok1 := get(x.Low, 0)
			hi, ok2 := get(x.High, n)
			mx, ok3 := get(x.Max, n)
			if !ok1 || !ok2 || !ok3 || lo < 0 || hi > n || lo > hi {
				return OpaqueV{"slice bounds"}
			}
			return SliceV{y, lo, hi - lo, mx - lo}
		case SliceV:
			lo, ok1 := get(x.Low, 0)
			hi, ok2 := get(x.High, y.Len)
			mx, ok3 := get(x.Max, y.Cap)
			if !ok1 || !ok2 || !ok3 || lo < 0 || hi > y.Cap || lo > hi {
				return OpaqueV{"slice bounds"}
			}
			return SliceV{y.Base, y.Off + lo, hi - lo, mx - lo}
		case StrV:
			lo, ok1 := get(x.Low, 0)
			hi, ok2 := get(x.High, len(y.S))
			if ok1 && ok2 && lo >= 0 && hi <= len(y.S) && lo <= hi {
				return StrV{y.S[lo:hi]}
			}
		case NilV:
			return y
		}
		return OpaqueV{"slice"}
	})
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, v Value, cond *alg.Bdd) Value {
	it := fr.it
	r := it.each(v, func(v Value) Value {
		var ok bool
		var res Value
		switch y := v.(type) {
		case IfaceV:
			if types.IsInterface(x.AssertedType) {
				ok = types.Implements(y.T, x.AssertedType.Underlying().(*types.Interface))
				res = y
			} else {
				ok = types.Identical(y.T, x.AssertedType)
				res = y.V
			}
		case NilV:
			ok = false
		default:
			if x.CommaOk {
				return &TupleV{E: []Value{OpaqueV{"assert"}, OpaqueV{"assert ok"}}}
			}
			return OpaqueV{"assert"}
		}
		if !ok {
			res = it.Zero(x.AssertedType)
			if !x.CommaOk {
				it.panicAt(*cond, x.Pos(), "type assertion", fr.fn)
				return OpaqueV{"failed assertion"}
			}
		}
		if x.CommaOk {
			return &TupleV{E: []Value{res, BoolV{tfb(ok)}}}
		}
		return res
	})
	return r
}
