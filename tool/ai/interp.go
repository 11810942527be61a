package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/load"
)

// Frame is an activation.
type Frame struct {
	Fn     *ssa.Function
	Env    *Tenv
	Blk    *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	PC     int
	Regs   map[ssa.Value]Value
	Defers []deferred
	To     ssa.Instruction // instruction of the caller that receives the result (nil: discard)
	depth  int
	// a deferred call made while panicking; the panic goes on when it returns, unless it recovered
	unwind    *Outcome
	recovered bool
}

type deferred struct {
	fn   Value
	args []Value
}

// State is one abstract state.
type State struct {
	objs   map[int]Value
	otype  map[int]types.Type
	next   int
	Assume map[string]bool
	oracle func(atom string) (bool, bool)
	vals   map[string]Const
	dyn    map[string]types.Type
	lazy   map[string]int
	dec    []bool
	deci   int
	Frames []*Frame
	Log    []string
	// abstract input sequence
	Taken int
	SeqSt int
	Cur   Value
	// Trace is called for every access to a memory object; Held are the locks held (lock -> "r" or "w").
	Trace func(st *State, obj int, write bool)
	Held  map[string]string
	// OnUnlock is called before a lock is released.
	OnUnlock func(st *State)
	// OnLock is called before a lock is taken.
	OnLock func(st *State, key string)
	Node   int // fixpoint node
	Took   int // Taken at that node
	Ghost  any // client state; must be immutable (replaced, never modified)
	steps  int
}

// Outcome is the end of one path.
type Outcome struct {
	St    *State
	Ret   []Value
	Panic Value
	Pos   token.Pos
}

// Model gives a function's semantics. It must take all its decisions before changing the state.
type Model func(it *Interp, st *State, fn *ssa.Function, env *Tenv, args []Value) (Value, bool)

// TailCall asks the interpreter to call F instead.
type TailCall struct {
	F    *ssa.Function
	Env  *Tenv
	Bind []Value
	Args []Value
}

// Interp holds an analysis.
type Interp struct {
	P        *load.Program
	MaxSteps int
	MaxPaths int
	Models   map[string]Model
	Finite   bool // opaque results are unknown values instead of terms
	Base     *State
	globals  map[*ssa.Global]int
	inited   map[*ssa.Package]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads    map[*ssa.Function]map[*ssa.BasicBlock]bool
	// Seq enumerates the possible next elements in an automaton state; end reports whether the sequence can end.
	Seq func(s int) (elems []Value, next []int, end bool)
	// Header is called when a loop header is entered (fixpoint analyses); it returns false to stop the path.
	Header func(st *State) bool
	// Opaque gives the semantics of a call of an opaque function value.
	Opaque func(it *Interp, st *State, fn Sym, args []Value) (Value, bool)
	// Invoke gives the semantics of a method call on an opaque interface value.
	Invoke func(it *Interp, st *State, recv Value, m *types.Func, args []Value) (Value, bool)
	// Hooks for client domains: values of client types appear only where these hooks (or models) produce them.
	BinopHook  func(it *Interp, st *State, op token.Token, a, b Value, t types.Type) (Value, bool)
	ConvHook   func(it *Interp, st *State, v Value, from, to types.Type) (Value, bool)
	EqHook     func(it *Interp, st *State, a, b Value) (eq, ok bool)
	GlobalHook func(it *Interp, g *ssa.Global) (Value, bool)
	CallHook   func(it *Interp, st *State, fn *ssa.Function, args []Value) (Value, bool)
	// Visited collects the functions analysed.
	Visited map[*ssa.Function]bool
	Paths   int
}

// New prepares an analysis; the package initialisers of pkgs (import paths, in order) are interpreted first.
func New(p *load.Program, pkgs ...string) *Interp {
	it := &Interp{P: p, MaxSteps: 200000, MaxPaths: 20000, Models: map[string]Model{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, Visited: map[*ssa.Function]bool{}}
	it.Base = &State{objs: map[int]Value{}, otype: map[int]types.Type{}, Assume: map[string]bool{}, vals: map[string]Const{}, dyn: map[string]types.Type{}, lazy: map[string]int{}, next: 1}
	for k, m := range stdModels {
		it.Models[k] = m
	}
	for _, path := range pkgs {
		sp := p.SPkgs[load.Path(path)]
		if sp == nil {
			bail("package %s is missing or does not type-check", path)
		}
		it.inited[sp] = true
		var gs []*ssa.Global
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			t := g.Type().(*types.Pointer).Elem()
			it.globals[g] = it.Base.Alloc(t, zero(t)).O
		}
		outs := it.Run(sp.Func("init"), nil)
		if len(outs) != 1 || outs[0].Panic != nil {
			bail("initialiser of %s is not decided", path)
		}
		it.Base = outs[0].St
		it.Base.Frames, it.Base.steps, it.Base.Log = nil, 0, nil
	}
	it.Visited = map[*ssa.Function]bool{}
	return it
}

func (st *State) clone() *State {
	n := *st
	n.objs = cp(st.objs)
	n.otype = cp(st.otype)
	n.Assume = cp(st.Assume)
	n.vals = cp(st.vals)
	n.dyn = cp(st.dyn)
	n.lazy = cp(st.lazy)
	n.Held = cp(st.Held)
	n.dec = append([]bool{}, st.dec...)
	n.Log = append([]string{}, st.Log...)
	n.Frames = make([]*Frame, len(st.Frames))
	for i, f := range st.Frames {
		g := *f
		g.Regs = cp(f.Regs)
		g.Defers = append([]deferred{}, f.Defers...)
		n.Frames[i] = &g
	}
	return &n
}

// Clone copies a state.
func (st *State) Clone() *State { return st.clone() }

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Alloc creates an object.
func (st *State) Alloc(t types.Type, v Value) Ptr {
	id := st.next
	st.next++
	st.objs[id] = v
	st.otype[id] = t
	return Ptr{O: id}
}

// Load reads a location.
func (st *State) Load(p Ptr) Value {
	st.touch(p.O, false)
	return sub(st.objs[p.O], p.Path)
}

func (st *State) touch(o int, write bool) {
	if st.Trace != nil {
		st.Trace(st, o, write)
	}
}

// Next is the number of the next object to be allocated.
func (st *State) Next() int { return st.next }

// Where is the function being interpreted and the position reached.
func (st *State) Where() (*ssa.Function, token.Pos) {
	for i := len(st.Frames) - 1; i >= 0; i-- {
		f := st.Frames[i]
		for j := f.PC; j >= 0; j-- {
			if j < len(f.Blk.Instrs) && f.Blk.Instrs[j].Pos().IsValid() {
				return f.Fn, f.Blk.Instrs[j].Pos()
			}
		}
		if f.Fn.Pos().IsValid() {
			return f.Fn, f.Fn.Pos()
		}
	}
	return nil, token.NoPos
}

// Reach adds to set the objects reachable from a value.
func (st *State) Reach(v Value, set map[int]bool) {
	obj := func(o int) {
		if !set[o] {
			set[o] = true
			st.Reach(st.objs[o], set)
		}
	}
	switch x := v.(type) {
	case Ptr:
		obj(x.O)
	case Slice:
		obj(x.O)
	case Map:
		obj(x.O)
	case Iter:
		obj(x.O)
	case Agg:
		for _, e := range x {
			st.Reach(e, set)
		}
	case Tuple:
		for _, e := range x {
			st.Reach(e, set)
		}
	case Iface:
		st.Reach(x.V, set)
	case Fn:
		for _, e := range x.Bind {
			st.Reach(e, set)
		}
	case *MapC:
		if x == nil {
			return
		}
		for i := range x.K {
			st.Reach(x.K[i], set)
			st.Reach(x.V[i], set)
		}
	}
}

// ReachGlobals adds the objects reachable from package variables.
func (it *Interp) ReachGlobals(st *State, set map[int]bool) {
	for _, o := range it.globals {
		st.Reach(Ptr{O: o}, set)
	}
}

// Store writes a location.
func (st *State) Store(p Ptr, v Value) {
	st.touch(p.O, true)
	st.objs[p.O] = setSub(st.objs[p.O], pathSplit(p.Path), v)
}

// Obj returns an object's content.
func (st *State) Obj(id int) Value { return st.objs[id] }

// SetObj replaces an object's content.
func (st *State) SetObj(id int, v Value) { st.objs[id] = v }

// NewMap creates a map object.
func (st *State) NewMap(t types.Type, kv ...Value) Map {
	c := &MapC{}
	for i := 0; i+1 < len(kv); i += 2 {
		c.K = append(c.K, kv[i])
		c.V = append(c.V, kv[i+1])
	}
	return Map{st.Alloc(t, c).O}
}

// NewSlice creates a slice.
func (st *State) NewSlice(t types.Type, es ...Value) Slice {
	p := st.Alloc(t, Agg(append([]Value{}, es...)))
	return Slice{O: p.O, Len: len(es), Cap: len(es)}
}

// Elems lists the elements of a slice.
func (st *State) Elems(s Slice) []Value {
	var out []Value
	st.touch(s.O, false)
	for i := 0; i < s.Len; i++ {
		out = append(out, sub(st.objs[s.O], pathPush(s.Path, s.Off+i)))
	}
	return out
}

type forkReq struct {
	atom string
	free bool
}

// Decide returns the truth of an atom, splitting the state if it is open.
func (st *State) Decide(atom string) bool {
	if b, ok := st.Assume[atom]; ok {
		return b
	}
	if st.oracle != nil {
		if b, ok := st.oracle(atom); ok {
			return b
		}
	}
	panic(forkReq{atom: atom})
}

// Free splits the state on an unnamed choice.
func (st *State) Free() bool {
	if st.deci < len(st.dec) {
		st.deci++
		return st.dec[st.deci-1]
	}
	panic(forkReq{free: true})
}

// Zero returns the zero value of a type.
func Zero(t types.Type) Value { return zero(t) }

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return Const{constant.MakeString(""), t}
		case u.Info()&types.IsNumeric != 0:
			return Const{constant.MakeInt64(0), t}
		}
		return Nil{t}
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() > 4096 {
			bail("array of %d elements", u.Len())
		}
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return a
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return Sym{"zero " + TypeStr(t), t}
		}
	}
	return Nil{t}
}

// Expand builds an opaque value of a type.
func Expand(t types.Type, key string) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = Expand(u.Field(i).Type(), key+"."+u.Field(i).Name())
		}
		return a
	case *types.Array:
		if u.Len() <= 64 {
			a := make(Agg, u.Len())
			for i := range a {
				a[i] = Expand(u.Elem(), fmt.Sprintf("%s[%d]", key, i))
			}
			return a
		}
	}
	return Sym{key, t}
}

// unknown builds an unknown value of a type.
func (it *Interp) unknown(t types.Type, key string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		if tp.Len() == 1 {
			return it.unknown(tp.At(0).Type(), key)
		}
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, it.unknown(tp.At(i).Type(), fmt.Sprintf("%s#%d", key, i)))
		}
		return out
	}
	if it.Finite {
		if s, ok := t.Underlying().(*types.Struct); ok {
			a := make(Agg, s.NumFields())
			for i := range a {
				a[i] = it.unknown(s.Field(i).Type(), "")
			}
			return a
		}
		return Any{T: t}
	}
	return Expand(t, key)
}

// Run interprets fn from the base state.
func (it *Interp) Run(fn *ssa.Function, args []Value) []Outcome {
	return it.RunFrom(it.Base, fn, nil, nil, args)
}

// RunT interprets an instance of a generic function at the given type arguments.
func (it *Interp) RunT(st *State, fn *ssa.Function, targs []types.Type, args []Value) []Outcome {
	env := &Tenv{m: map[*types.TypeParam]types.Type{}}
	tps := fn.TypeParams()
	if tps == nil || tps.Len() != len(targs) {
		bail("%s has a different number of type parameters", fn)
	}
	for i, t := range targs {
		env.m[tps.At(i)] = t
	}
	return it.RunFrom(st, fn, env, nil, args)
}

// RunFrom interprets fn from a state.
func (it *Interp) RunFrom(st0 *State, fn *ssa.Function, env *Tenv, bind, args []Value) []Outcome {
	st := st0.clone()
	outer := st.Frames
	st.Frames = nil
	it.push(st, fn, env, bind, args, nil)
	var outs []Outcome
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.steps > it.MaxSteps {
				f := s.Frames[len(s.Frames)-1]
				bail("step bound exceeded in %s", f.Fn)
			}
			s.steps++
			out, fk, stop := it.step(s)
			if fk != nil {
				it.Paths++
				if len(work)+len(outs) > it.MaxPaths {
					bail("path bound exceeded in %s", s.Frames[len(s.Frames)-1].Fn)
				}
				o := s.clone()
				if fk.free {
					s.dec = append(s.dec, true)
					o.dec = append(o.dec, false)
				} else {
					s.Assume[fk.atom] = true
					o.Assume[fk.atom] = false
				}
				work = append(work, o)
				continue
			}
			if stop {
				break
			}
			if out != nil && out.Panic != nil {
				if out = it.unwind(s, out); out == nil {
					continue
				}
			}
			if out != nil {
				out.St.Frames = outer
				outs = append(outs, *out)
				break
			}
		}
	}
	return outs
}

// unwind runs the deferred calls of the frames left by a panic; it returns nil if the interpretation goes on.
func (it *Interp) unwind(s *State, out *Outcome) *Outcome {
	for len(s.Frames) > 0 {
		f := s.Frames[len(s.Frames)-1]
		n := len(f.Defers)
		if n == 0 {
			s.Frames = s.Frames[:len(s.Frames)-1]
			continue
		}
		d := f.Defers[n-1]
		f.Defers = f.Defers[:n-1]
		done, res := it.deferredCall(s, f, d)
		if !done {
			s.Frames[len(s.Frames)-1].unwind = out
			return nil
		}
		if p, ok := res.(panicV); ok {
			out = &Outcome{St: s, Panic: p.v, Pos: out.Pos}
		}
	}
	out.St = s
	return out
}

func (it *Interp) deferredCall(s *State, f *Frame, d deferred) (bool, Value) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(forkReq); ok {
				bail("a deferred call during a panic is not decided in %s", f.Fn)
			}
			panic(e)
		}
	}()
	return it.call(s, f, nil, d.fn, d.args)
}

func (it *Interp) push(st *State, fn *ssa.Function, env *Tenv, bind, args []Value, to ssa.Instruction) {
	if o := fn.Origin(); o != nil && o != fn && len(o.Blocks) > 0 {
		// run the generic body with the type arguments bound
		e := &Tenv{m: map[*types.TypeParam]types.Type{}}
		tps, tas := o.TypeParams(), fn.TypeArgs()
		if tps != nil && tps.Len() == len(tas) {
			for i, t := range tas {
				e.m[tps.At(i)] = env.subst(t)
			}
			fn, env = o, e
		}
	}
	if len(fn.Blocks) == 0 {
		bail("%s has no body", fn)
	}
	d := 0
	if n := len(st.Frames); n > 0 {
		d = st.Frames[n-1].depth + 1
	}
	if d > 60 {
		bail("call depth in %s", fn)
	}
	it.Visited[fn] = true
	f := &Frame{Fn: fn, Env: env, Blk: fn.Blocks[0], Regs: map[ssa.Value]Value{}, To: to, depth: d}
	if len(args) != len(fn.Params) {
		bail("%s called with %d arguments", fn, len(args))
	}
	for i, p := range fn.Params {
		f.Regs[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.Regs[v] = bind[i]
	}
	st.Frames = append(st.Frames, f)
}

// step executes one instruction; the state is unchanged if a fork is requested.
func (it *Interp) step(st *State) (out *Outcome, fk *forkReq, stop bool) {
	f := st.Frames[len(st.Frames)-1]
	st.deci = 0
	defer func() {
		if e := recover(); e != nil {
			if r, ok := e.(forkReq); ok {
				out, fk, stop = nil, &r, false
				return
			}
			if u, ok := e.(Undecided); ok && !strings.Contains(u.Msg, " at ") {
				pos := ""
				if f.PC < len(f.Blk.Instrs) {
					pos = it.P.Rel(f.Blk.Instrs[f.PC].Pos())
				}
				panic(Undecided{u.Msg + " at " + pos + " in " + f.Fn.String()})
			}
			panic(e)
		}
	}()
	in := f.Blk.Instrs[f.PC]
	switch x := in.(type) {
	case *ssa.Phi:
		// all phis of the block at once
		var vs []Value
		var ps []*ssa.Phi
		k := -1
		for i, p := range f.Blk.Preds {
			if p == f.Prev {
				k = i
			}
		}
		n := 0
		for _, j := range f.Blk.Instrs {
			p, ok := j.(*ssa.Phi)
			if !ok {
				break
			}
			v := it.get(st, f, p.Edges[k])
			if it.Seq != nil {
				v = it.relate(st, f, p, v)
			}
			vs = append(vs, v)
			ps = append(ps, p)
			n++
		}
		for i, p := range ps {
			f.Regs[p] = vs[i]
		}
		f.PC = n
		return it.atHeader(st, f)
	case *ssa.If:
		b := it.truth(st, it.get(st, f, x.Cond))
		st.dec = nil
		if b {
			return it.jump(st, f, f.Blk.Succs[0])
		}
		return it.jump(st, f, f.Blk.Succs[1])
	case *ssa.Jump:
		return it.jump(st, f, f.Blk.Succs[0])
	case *ssa.Return:
		var rs []Value
		for _, r := range x.Results {
			rs = append(rs, it.get(st, f, r))
		}
		st.dec = nil
		return it.ret(st, f, rs, x.Pos()), nil, false
	case *ssa.Panic:
		v := it.get(st, f, x.X)
		return &Outcome{St: st, Panic: v, Pos: x.Pos()}, nil, false
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			done, res := it.call(st, f, nil, d.fn, d.args)
			f.Defers = f.Defers[:n-1]
			st.dec = nil
			if p, ok := res.(panicV); ok && done {
				return &Outcome{St: st, Panic: p.v, Pos: x.Pos()}, nil, false
			}
			return nil, nil, false // re-executed until no deferred call is left
		}
	case *ssa.Defer:
		fv, args := it.callee(st, f, &x.Call)
		f.Defers = append(f.Defers, deferred{fv, args})
	case *ssa.Call:
		fv, args := it.callee(st, f, &x.Call)
		if p, ok := fv.(panicV); ok {
			return &Outcome{St: st, Panic: p.v, Pos: x.Pos()}, nil, false
		}
		done, res := it.call(st, f, x, fv, args)
		st.dec = nil
		if p, ok := res.(panicV); ok {
			return &Outcome{St: st, Panic: p.v, Pos: x.Pos()}, nil, false
		}
		f.PC++
		if done {
			f.Regs[x] = res
		}
		return nil, nil, false
	default:
		if v, ok := in.(ssa.Value); ok {
			r := it.eval(st, f, v)
			if p, ok := r.(panicV); ok {
				return &Outcome{St: st, Panic: p.v, Pos: in.Pos()}, nil, false
			}
			f.Regs[v] = r
		} else if p := it.exec(st, f, in); p != nil {
			return &Outcome{St: st, Panic: p.v, Pos: in.Pos()}, nil, false
		}
	}
	st.dec = nil
	f.PC++
	return nil, nil, false
}

// panicV is the result of an instruction that panics.
type panicV struct{ v Value }

// PanicWith makes a model panic.
// PanicValue is the result of a model that panics with an interface value.
func PanicValue(v Value) Value { return panicV{v} }

// PanicWith is the result of a model that panics.
func PanicWith(s string) Value { return panicV{KStr(s)} }

func (it *Interp) ret(st *State, f *Frame, rs []Value, pos token.Pos) *Outcome {
	st.Frames = st.Frames[:len(st.Frames)-1]
	if f.unwind != nil {
		if !f.recovered {
			return &Outcome{St: st, Panic: f.unwind.Panic, Pos: f.unwind.Pos}
		}
		g := st.Frames[len(st.Frames)-1]
		if g.Fn.Recover == nil || len(g.Defers) > 0 {
			bail("recovery in %s", g.Fn)
		}
		g.Prev, g.Blk, g.PC = nil, g.Fn.Recover, 0
		return nil
	}
	if len(st.Frames) == 0 {
		return &Outcome{St: st, Ret: rs, Pos: pos}
	}
	if f.To != nil {
		g := st.Frames[len(st.Frames)-1]
		var v Value
		if len(rs) == 1 {
			v = rs[0]
		} else {
			v = Tuple(rs)
		}
		g.Regs[f.To.(ssa.Value)] = v
	}
	return nil
}

func (it *Interp) jump(st *State, f *Frame, b *ssa.BasicBlock) (*Outcome, *forkReq, bool) {
	f.Prev, f.Blk, f.PC = f.Blk, b, 0
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			return nil, nil, false // header handling after the phis
		}
	}
	return it.atHeader(st, f)
}

func (it *Interp) atHeader(st *State, f *Frame) (*Outcome, *forkReq, bool) {
	if it.Header != nil && it.isHead(f.Fn, f.Blk) {
		if !it.Header(st) {
			return nil, nil, true
		}
	}
	return nil, nil, false
}

func (it *Interp) isHead(fn *ssa.Function, b *ssa.BasicBlock) bool {
	h, ok := it.heads[fn]
	if !ok {
		h = map[*ssa.BasicBlock]bool{}
		// targets of retreating edges of a depth-first search (covers irreducible regions)
		state := map[*ssa.BasicBlock]int{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			state[b] = 1
			for _, s := range b.Succs {
				switch state[s] {
				case 0:
					dfs(s)
				case 1:
					h[s] = true
				}
			}
			state[b] = 2
		}
		dfs(fn.Blocks[0])
		it.heads[fn] = h
	}
	return h[b]
}

// relate makes a loop counter that starts from constants relative to the sequence position.
func (it *Interp) relate(st *State, f *Frame, p *ssa.Phi, v Value) Value {
	n, ok := IntOf(v)
	if !ok {
		return v
	}
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
			if off, ok := it.usedOnSeq(st, f, p, b); ok {
				return Rel{n - st.Taken + off}
			}
		}
	}
	return v
}

// usedOnSeq: the counter indexes the input (or a tail of it).
func (it *Interp) usedOnSeq(st *State, f *Frame, p *ssa.Phi, b *ssa.BinOp) (int, bool) {
	for _, v := range []ssa.Value{p, b} {
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.Index == v {
				if s, ok := f.Regs[ia.X].(Seq); ok {
					return s.Off, true
				}
			}
		}
	}
	return 0, false
}

func (it *Interp) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		t := f.Env.subst(x.Type())
		if x.Value == nil {
			return zero(t)
		}
		return Const{x.Value, t}
	case *ssa.Global:
		if id, ok := it.globals[x]; ok {
			return Ptr{O: id}
		}
		id, ok := st.lazy["global "+x.String()]
		if !ok {
			t := x.Type().(*types.Pointer).Elem()
			var v Value
			known := false
			if it.GlobalHook != nil {
				v, known = it.GlobalHook(it, x)
			}
			if !known {
				v = it.unknown(t, x.String())
			}
			id = st.Alloc(t, v).O
			st.lazy["global "+x.String()] = id
		}
		return Ptr{O: id}
	case *ssa.Function:
		return Fn{F: x, Env: f.Env}
	case *ssa.Builtin:
		return Fn{B: x}
	}
	r, ok := f.Regs[v]
	if !ok {
		bail("register %s is unset", v.Name())
	}
	return r
}

func (it *Interp) truth(st *State, v Value) bool {
	switch x := v.(type) {
	case Const:
		return constant.BoolVal(x.V)
	case Sym:
		if strings.HasPrefix(x.Key, "!") {
			return !st.Decide(x.Key[1:])
		}
		return st.Decide(x.Key)
	case Any:
		return st.Free()
	}
	bail("condition %T", v)
	return false
}

// Header-state canonical form.

// LiveIn computes the registers live at the start of a block (after its phis).
func (it *Interp) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := it.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				k := -1
				for j, p := range s.Preds {
					if p == b {
						k = j
					}
				}
				for _, j := range s.Instrs {
					if p, ok := j.(*ssa.Phi); ok {
						delete(live, p)
					}
				}
				for _, j := range s.Instrs {
					if p, ok := j.(*ssa.Phi); ok {
						live[p.Edges[k]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				for _, o := range x.Operands(nil) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			for v := range live {
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
					continue
				}
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	it.live[fn] = in
	return in
}

// liveAt computes the registers live at a frame's current position (the frame waits for a call).
func (it *Interp) liveAt(f *Frame) map[ssa.Value]bool {
	in := it.liveIn(f.Fn)
	live := map[ssa.Value]bool{}
	for _, s := range f.Blk.Succs {
		for v := range in[s] {
			live[v] = true
		}
		for k, p := range s.Preds {
			if p == f.Blk {
				for _, j := range s.Instrs {
					if ph, ok := j.(*ssa.Phi); ok {
						live[ph.Edges[k]] = true
					}
				}
			}
		}
	}
	for j := len(f.Blk.Instrs) - 1; j >= f.PC; j-- {
		x := f.Blk.Instrs[j]
		if v, ok := x.(ssa.Value); ok {
			delete(live, v)
		}
		for _, o := range x.Operands(nil) {
			if *o != nil {
				live[*o] = true
			}
		}
	}
	if f.PC > 0 {
		if c, ok := f.Blk.Instrs[f.PC-1].(*ssa.Call); ok {
			delete(live, c) // the result of the call that is running
		}
	}
	return live
}

// Canon prints the part of the state that can influence what follows, with object names replaced by the order in
// which they are found; dead registers are dropped from the top frame.
//
// Slices held by objects for whose type trunc is true are represented by their length, capped at 3.
func (it *Interp) Canon(st *State, trunc func(types.Type) bool) string {
	var b strings.Builder
	num := map[int]int{}
	var pend []int
	ref := func(o int) string {
		n, ok := num[o]
		if !ok {
			n = len(num)
			num[o] = n
			pend = append(pend, o)
		}
		return fmt.Sprintf("#%d", n)
	}
	gl := map[int]bool{}
	for _, id := range it.globals {
		gl[id] = true
	}
	short := false
	var pr func(v Value) string
	list := func(vs []Value) string {
		var es []string
		for _, e := range vs {
			es = append(es, pr(e))
		}
		return strings.Join(es, ",")
	}
	pr = func(v Value) string {
		switch x := v.(type) {
		case Ptr:
			if gl[x.O] {
				return fmt.Sprintf("g%d%s", x.O, x.Path)
			}
			return ref(x.O) + x.Path
		case Slice:
			if short {
				return fmt.Sprintf("len%d", min(x.Len, 3))
			}
			return fmt.Sprintf("[%s]", list(st.Elems(x)))
		case Map:
			return "m" + ref(x.O)
		case Agg:
			return "{" + list(x) + "}"
		case Tuple:
			return "(" + list(x) + ")"
		case Iface:
			return TypeStr(x.T) + "(" + pr(x.V) + ")"
		case Fn:
			n := "builtin"
			if x.F != nil {
				n = x.F.String()
			}
			return "f" + n + "<" + list(x.Bind) + ">"
		case Cat:
			return "cat(" + list(x) + ")"
		case Build:
			return "build"
		case *MapC:
			return "map{" + list(x.K) + ";" + list(x.V) + "}"
		case Iter:
			return "it" + ref(x.O)
		case Any:
			return fmt.Sprintf("any(%v)", x.NonEmpty)
		case Const:
			return x.V.ExactString()
		case Nil:
			return "nil"
		}
		return fmt.Sprintf("%T%v", v, v)
	}
	for i, f := range st.Frames {
		fmt.Fprintf(&b, "|%s.%d.%d", f.Fn.String(), f.Blk.Index, f.PC)
		if i < len(st.Frames)-1 {
			fmt.Fprintf(&b, "p")
		}
		live := it.liveIn(f.Fn)[f.Blk]
		if i < len(st.Frames)-1 {
			live = it.liveAt(f)
		}
		var ks []ssa.Value
		for v := range f.Regs {
			if live[v] || i == len(st.Frames)-1 && isPhiOf(v, f.Blk) {
				ks = append(ks, v)
			}
		}
		sort.Slice(ks, func(a, c int) bool { return ks[a].Name() < ks[c].Name() })
		for _, k := range ks {
			fmt.Fprintf(&b, " %s=%s", k.Name(), pr(f.Regs[k]))
		}
		for _, d := range f.Defers {
			fmt.Fprintf(&b, " defer %s(%s)", pr(d.fn), list(d.args))
		}
	}
	fmt.Fprintf(&b, "|seq%d cur=%s", st.SeqSt, pr(st.Cur))
	for len(pend) > 0 {
		o := pend[0]
		pend = pend[1:]
		short = trunc != nil && trunc(st.otype[o])
		fmt.Fprintf(&b, ";%d:%s", num[o], pr(st.objs[o]))
		short = false
	}
	var as []string
	for a, v := range st.Assume {
		as = append(as, fmt.Sprintf("%s=%v", a, v))
	}
	sort.Strings(as)
	b.WriteString(strings.Join(as, "&"))
	return b.String()
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

// SetOracle fixes the truth of atoms in advance (assumptions about opaque inputs).
func (st *State) SetOracle(f func(atom string) (bool, bool)) { st.oracle = f }

// SetDyn fixes the dynamic type of an opaque interface value.
func (st *State) SetDyn(key string, t types.Type) { st.dyn[key] = t }

// GlobalPtr is the address of a package-level variable.
func (it *Interp) GlobalPtr(g *ssa.Global) Ptr { return Ptr{O: it.globals[g]} }

// CallMethod interprets a method of an interface value of known dynamic type.
func (it *Interp) CallMethod(st *State, recv Value, name string, args ...Value) []Outcome {
	i, ok := recv.(Iface)
	if !ok {
		bail("method %s of %T", name, recv)
	}
	sel := it.P.SSA.MethodSets.MethodSet(i.T).Lookup(nil, name)
	if sel == nil {
		bail("%s has no method %s", TypeStr(i.T), name)
	}
	fn := it.P.SSA.MethodValue(sel)
	return it.RunFrom(st, fn, nil, nil, append([]Value{i.V}, args...))
}

// HasMethod reports whether a type has an exported method.
func (it *Interp) HasMethod(t types.Type, name string) bool {
	return it.P.SSA.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

// MapValues replaces every value held in objects and registers (aggregates are traversed).
func (st *State) MapValues(f func(Value) Value) {
	var m func(v Value) Value
	m = func(v Value) Value {
		switch x := v.(type) {
		case Agg:
			n := make(Agg, len(x))
			for i := range x {
				n[i] = m(x[i])
			}
			return n
		case Tuple:
			n := make(Tuple, len(x))
			for i := range x {
				n[i] = m(x[i])
			}
			return n
		case Iface:
			x.V = m(x.V)
			return x
		}
		return f(v)
	}
	for id, v := range st.objs {
		st.objs[id] = m(v)
	}
	for _, fr := range st.Frames {
		for r, v := range fr.Regs {
			fr.Regs[r] = m(v)
		}
	}
}

// Name is the key of a function in Models.
func Name(fn *ssa.Function) string { return name(fn) }

// Bail gives up on a construct.
func Bail(f string, a ...any) { bail(f, a...) }

// Wrap reduces an integer constant to its type.
func Wrap(v constant.Value, t types.Type) Value { return fix(v, t) }

// ObjType is the type an object was created with.
func (st *State) ObjType(id int) types.Type { return st.otype[id] }
