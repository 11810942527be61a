package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/load"
	"verif/vg"
)

func init() {
	register(&Property{ID: "K01", Level: "other", Technique: "Lockset dataflow over SSA for every package variable written after initialisation; for the handler and the cache " + techAI + ", with interference by other goroutines at every lock acquisition; no code is executed.", F: k01,
		Note: "package variables: every access in every function of the packages that type-check, locks held tracked along all paths and through unexported callers. Handler and cache: up to two other operations, complete, interfere between any two critical sections; lists of up to 3 elements."})
}

func k01(r *Run) {
	r.aiGo("K01.globals", "package variables", func() { k01Globals(r) })
	r.aiGo("K01.handler", "handler of invalid points", func() { k01Handler(r) })
	for _, copyFn := range []bool{true, false} {
		for _, createFn := range []bool{true, false} {
			n := map[bool]string{true: "with", false: "without"}[copyFn] + " copy function, " + map[bool]string{true: "with", false: "without"}[createFn] + " creation function"
			r.aiGo("K01.cache", n, func() { k01Cache(r, copyFn, createFn, n) })
		}
	}
	r.Wait()
}

// ---- package variables

type k01acc struct {
	fn    *ssa.Function
	pos   token.Pos
	write bool
	held  map[string]bool // lock -> exclusively
}

// k01Globals: a package variable that is written after initialisation is only accessed while one common lock is held,
// exclusively at writes; sync/atomic operations and sync.Once bodies are synchronised.
func k01Globals(r *Run) {
	// functions that run during initialisation only
	callers := map[*ssa.Function][]*ssa.Function{}
	sites := map[*ssa.Function][]ssa.CallInstruction{}
	taken := map[*ssa.Function]bool{}
	once := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range r.P.Functions() {
		add(f)
	}
	for p, sp := range r.P.SPkgs {
		if strings.HasPrefix(p, load.Module) {
			add(sp.Func("init"))
			for _, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok {
					add(f)
				}
			}
		}
	}
	origin := func(f *ssa.Function) *ssa.Function {
		if o := f.Origin(); o != nil {
			return o
		}
		return f
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee = c.Common().StaticCallee(); callee != nil {
						g := origin(callee)
						callers[g] = append(callers[g], f)
						sites[g] = append(sites[g], c)
						if callee.String() == "(*sync.Once).Do" {
							switch a := c.Common().Args[1].(type) {
							case *ssa.Function:
								once[a] = true
							case *ssa.MakeClosure:
								once[a.Fn.(*ssa.Function)] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && op == &c.Common().Value {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok {
							// a closure that is only called or deferred here is like a call
							onlyCalled := true
							for _, u := range *mc.Referrers() {
								if c, ok := u.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(mc) {
									onlyCalled = false
								}
							}
							if onlyCalled {
								continue
							}
						}
						taken[origin(g)] = true
					}
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
	}
	initOnly := map[*ssa.Function]int{} // 1: yes, 2: no, 3: in progress
	var onlyInit func(f *ssa.Function) bool
	onlyInit = func(f *ssa.Function) bool {
		f = origin(f)
		if isInit(f) || once[f] {
			return true
		}
		switch initOnly[f] {
		case 1, 3:
			return true
		case 2:
			return false
		}
		initOnly[f] = 3
		res := true
		if f.Parent() != nil && !taken[f] {
			res = onlyInit(f.Parent())
		} else {
			res = !taken[f] && len(callers[f]) > 0 && !token.IsExported(f.Name())
			for _, c := range callers[f] {
				res = res && onlyInit(c)
			}
		}
		initOnly[f] = map[bool]int{true: 1, false: 2}[res]
		return res
	}
	// root of an address or reference
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 12 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			return root(v.X, d+1)
		case *ssa.IndexAddr:
			if g := root(v.X, d+1); g != nil {
				return g
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
					return root(v.X, d+1)
				}
			}
		case *ssa.Slice:
			return root(v.X, d+1)
		case *ssa.ChangeType:
			return root(v.X, d+1)
		}
		return nil
	}
	lockKey := func(v ssa.Value) string {
		var k func(v ssa.Value) string
		k = func(v ssa.Value) string {
			switch v := v.(type) {
			case *ssa.Global:
				return v.String()
			case *ssa.FieldAddr:
				return k(v.X) + fmt.Sprintf(".%d", v.Field)
			case *ssa.UnOp:
				return k(v.X)
			case *ssa.Parameter:
				return v.Parent().String() + ":" + v.Name()
			case *ssa.FreeVar:
				if a := captured(v); a != nil {
					return k(a)
				}
				return v.Parent().String() + ":" + v.Name()
			case ssa.Instruction:
				return v.Parent().String() + ":" + v.(ssa.Value).Name()
			}
			return ""
		}
		return k(v)
	}
	type set map[string]bool
	clone := func(s set) set {
		n := set{}
		for k, v := range s {
			n[k] = v
		}
		return n
	}
	meet := func(a, b set) set {
		if a == nil {
			return clone(b)
		}
		n := set{}
		for k, v := range a {
			if w, ok := b[k]; ok {
				n[k] = v && w
			}
		}
		return n
	}
	lockOp := func(c ssa.CallInstruction) (string, int) { // key, 1 lock, 2 rlock, -1 unlock
		g := c.Common().StaticCallee()
		if g == nil || len(c.Common().Args) == 0 {
			return "", 0
		}
		op := map[string]int{"(*sync.Mutex).Lock": 1, "(*sync.RWMutex).Lock": 1, "(*sync.RWMutex).RLock": 2, "(*sync.Mutex).Unlock": -1, "(*sync.RWMutex).Unlock": -1, "(*sync.RWMutex).RUnlock": -1}[g.String()]
		if op == 0 {
			return "", 0
		}
		return lockKey(c.Common().Args[0]), op
	}
	// net lock effect of calling a function (locks certainly held at all returns / released), for helpers
	memo := map[*ssa.Function]map[ssa.Instruction]set{}
	var flow func(f *ssa.Function, d int) map[ssa.Instruction]set
	var exitLocks func(f *ssa.Function, d int) set
	var entry func(f *ssa.Function, d int) set
	exitLocks = func(f *ssa.Function, d int) set {
		var res set
		m := flow(f, d+1)
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				res = meet(res, m[ret])
			}
		}
		return res
	}
	entry = func(f *ssa.Function, d int) set {
		f = origin(f)
		if taken[f] || (token.IsExported(f.Name()) && f.Parent() == nil) || len(sites[f]) == 0 || d > 6 {
			return set{}
		}
		var res set
		for _, c := range sites[f] {
			g := c.Parent()
			if onlyInit(g) {
				continue
			}
			if _, ok := c.(*ssa.Defer); ok {
				return set{}
			}
			if _, ok := c.(*ssa.Go); ok {
				return set{}
			}
			res = meet(res, flow(g, d+1)[c])
		}
		return clone(res)
	}
	flow = func(f *ssa.Function, d int) map[ssa.Instruction]set {
		if m, ok := memo[f]; ok {
			return m
		}
		m := map[ssa.Instruction]set{}
		memo[f] = m
		in := map[*ssa.BasicBlock]set{}
		if len(f.Blocks) == 0 {
			return m
		}
		in[f.Blocks[0]] = entry(f, d)
		work := []*ssa.BasicBlock{f.Blocks[0]}
		for n := 0; len(work) > 0 && n < 20000; n++ {
			b := work[0]
			work = work[1:]
			s := clone(in[b])
			for _, i := range b.Instrs {
				m[i] = clone(s)
				switch c := i.(type) {
				case *ssa.Call:
					if k, op := lockOp(c); op > 0 {
						s[k] = op == 1
					} else if op < 0 {
						delete(s, k)
					} else if g := c.Common().StaticCallee(); g != nil && d < 4 && len(origin(g).Blocks) > 0 && strings.HasPrefix(pkgPath(g), load.Module) && (!token.IsExported(g.Name()) || g.Parent() != nil) && touchesLocks(origin(g), lockOp) {
						for k, v := range exitLocks(origin(g), d) {
							s[k] = v
						}
					}
				case *ssa.RunDefers:
					for _, bb := range f.Blocks {
						for _, ii := range bb.Instrs {
							if df, ok := ii.(*ssa.Defer); ok {
								if k, op := lockOp(df); op < 0 {
									delete(s, k)
								}
							}
						}
					}
				}
			}
			for _, t := range b.Succs {
				old, ok := in[t]
				n := clone(s)
				if ok {
					n = meet(old, s)
					if len(n) == len(old) {
						same := true
						for k, v := range n {
							same = same && old[k] == v
						}
						if same {
							continue
						}
					}
				}
				in[t] = n
				work = append(work, t)
			}
		}
		return m
	}
	acc := map[*ssa.Global][]k01acc{}
	nAcc := 0
	for _, f := range fns {
		if onlyInit(f) || len(f.Blocks) == 0 {
			continue
		}
		var m map[ssa.Instruction]set
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				write := false
				switch x := in.(type) {
				case *ssa.Store:
					g, write = root(x.Addr, 0), true
				case *ssa.MapUpdate:
					g, write = root(x.Map, 0), true
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if gl, ok := x.X.(*ssa.Global); ok {
							g = gl
						} else if _, ok := x.X.(*ssa.FieldAddr); ok {
							g = root(x.X, 0)
						} else if _, ok := x.X.(*ssa.IndexAddr); ok {
							g = root(x.X, 0)
						}
					}
				case *ssa.Lookup:
					g = root(x.X, 0)
				case *ssa.Range:
					g = root(x.X, 0)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						g, write = root(x.Call.Args[0], 0), true
					}
					// a call that modifies what it is passed the address of
					if sc := x.Call.StaticCallee(); sc != nil && len(origin(sc).Blocks) > 0 {
						for i, a := range x.Call.Args {
							gl, ok := a.(*ssa.Global)
							if fa, ok2 := a.(*ssa.FieldAddr); ok2 {
								gl = root(fa, 0)
								ok = gl != nil
							}
							if ok && k01Writes(origin(sc), i, 0) {
								if m == nil {
									m = flow(f, 0)
								}
								acc[gl] = append(acc[gl], k01acc{f, in.Pos(), true, m[in]})
								nAcc++
							}
						}
					}
				}
				if g == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), load.Module) {
					continue
				}
				if m == nil {
					m = flow(f, 0)
				}
				acc[g] = append(acc[g], k01acc{f, in.Pos(), write, m[in]})
				nAcc++
			}
		}
	}
	var gs []*ssa.Global
	for g := range acc {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		name := strings.TrimPrefix(g.Pkg.Pkg.Path(), load.Module+"/") + "." + g.Name()
		var w *k01acc
		var common set
		for i := range acc[g] {
			a := &acc[g][i]
			if a.write {
				w = a
			}
			s := set{}
			for k, ex := range a.held {
				if ex || !a.write {
					s[k] = true
				}
			}
			common = meet(common, s)
		}
		if w == nil {
			r.Ok("K01.globals", name, g.Pos(), "not written after initialisation, or always under a lock", true, "")
			continue
		}
		// documented as not to be used concurrently: the call counters
		if strings.HasSuffix(g.Pkg.Pkg.Path(), "/callcounters") {
			continue
		}
		ok := len(common) > 0
		d := ""
		if !ok {
			worst := *w
			for _, a := range acc[g] {
				if len(a.held) == 0 && (a.write || !worst.write || len(worst.held) > 0) {
					worst = a
				}
			}
			d = fmt.Sprintf("written in %s (%s); no lock is common to all accesses, e.g. %s in %s (%s)", w.fn, r.P.Rel(w.pos), map[bool]string{true: "the write", false: "the read"}[worst.write], worst.fn, r.P.Rel(worst.pos))
		}
		r.Ok("K01.globals", name, g.Pos(), "not written after initialisation, or always under a lock", ok, d)
	}
	r.Count("accesses to package variables", nAcc)
	r.Count("package variables accessed", len(gs))
	r.Ok("K01.globals", "analysed", token.NoPos, "the accesses to package variables are found", nAcc > 20, fmt.Sprint(nAcc))
}

func pkgPath(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Package() == nil {
		return ""
	}
	return f.Package().Pkg.Path()
}

func touchesLocks(f *ssa.Function, lockOp func(ssa.CallInstruction) (string, int)) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if _, op := lockOp(c); op != 0 {
					return true
				}
			}
		}
	}
	return false
}

var k01mu sync.Mutex

var k01memo = map[string]int{}

// k01Writes: on every path to a return the function writes the memory its i-th parameter points to. (A write that
// only happens for some values, such as replacing a number by its reduced form, does not count: the package's own
// constants are reduced.)
func k01Writes(f *ssa.Function, i, d int) bool {
	if i >= len(f.Params) || d > 8 {
		return false
	}
	key := fmt.Sprintf("%p %d", f, i)
	k01mu.Lock()
	s, ok := k01memo[key]
	if !ok {
		k01memo[key] = 0
	}
	k01mu.Unlock()
	if ok {
		return s == 1
	}
	writes := map[*ssa.BasicBlock]bool{}
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == v {
					writes[u.Block()] = true
				}
			case *ssa.FieldAddr:
				use(u)
			case *ssa.IndexAddr:
				use(u)
			case *ssa.Slice:
				use(u)
			case *ssa.ChangeType:
				use(u)
			case *ssa.Call:
				if g := u.Common().StaticCallee(); g != nil {
					o := g
					if g.Origin() != nil {
						o = g.Origin()
					}
					for j, a := range u.Common().Args {
						if a == v && len(o.Blocks) > 0 && k01Writes(o, j, d+1) {
							writes[u.Block()] = true
						}
					}
				}
				if bi, ok := u.Common().Value.(*ssa.Builtin); ok && bi.Name() == "copy" && u.Common().Args[0] == v {
					writes[u.Block()] = true
				}
			}
		}
	}
	use(f.Params[i])
	must := len(writes) > 0
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || writes[b] {
			return
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			must = false
		}
		for _, t := range b.Succs {
			walk(t)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
	}
	if must {
		k01mu.Lock()
		k01memo[key] = 1
		k01mu.Unlock()
	}
	return must
}

// ---- handler

func k01Handler(r *Run) {
	const pkg = "bandersnatch/curvePoints"
	it := ai.New(r.P, "internal/utils")
	set, get := r.P.Func(pkg, "SetNaPErrorHandler"), r.P.Func(pkg, "GetNaPErrorHandler")
	if set == nil || get == nil {
		panic(vg.Undecided{Msg: "SetNaPErrorHandler / GetNaPErrorHandler missing"})
	}
	T := set.Signature.Params().At(0).Type()
	h := func(i int) ai.Value { return ai.Sym{Key: fmt.Sprintf("h%d", i), T: T} }
	type op struct {
		set bool
		i   int
	}
	// reference: a cell
	call := func(st *ai.State, o op) (*ai.State, string, string) {
		f, args := get, []ai.Value(nil)
		if o.set {
			f, args = set, []ai.Value{h(o.i)}
		}
		outs := it.RunFrom(st, f, nil, nil, args)
		if len(outs) != 1 || outs[0].Panic != nil {
			d := "no single outcome"
			if len(outs) > 0 {
				d = outs[0].Describe()
			}
			return nil, "", d
		}
		if len(outs[0].St.Held) > 0 {
			return nil, "", "a lock is still held at the end"
		}
		return outs[0].St, outs[0].St.Key(outs[0].Ret[0]), ""
	}
	bad := ""
	n := 0
	ops := []op{{true, 1}, {true, 2}, {false, 0}}
	for _, a := range ops {
		for _, b := range ops {
			for _, c := range ops {
				for k := 0; k < 3 && bad == ""; k++ {
					// install h0; run a with b (and then c) by another goroutine before a's k-th lock acquisition; then read
					st, _, e := call(it.Base.Clone(), op{true, 0})
					if e != "" {
						bad = e
						break
					}
					cnt := 0
					got := map[string]string{}
					inside := false
					order := ""
					st.OnLock = func(s *ai.State, key string) {
						if inside || len(s.Held) > 0 {
							return
						}
						if cnt == k {
							inside = true
							frames := s.Frames
							s2 := s.Clone()
							s2.Frames = nil
							for i, o := range []op{b, c} {
								t, res, e := call(s2, op{o.set, o.i + 10*(i+1)})
								if e != "" {
									bad = e
									t = s2
								}
								got[fmt.Sprint(i)] = res
								s2 = t
							}
							*s = *s2
							s.Frames = frames
							inside = false
							order = "b c"
						}
						cnt++
					}
					n++
					t, ra, e := call(st, a)
					if e != "" {
						bad = e
						break
					}
					t.OnLock = nil
					_, final, e2 := call(t, op{})
					if e2 != "" {
						bad = e2
						break
					}
					// some order of the operations explains all results
					type ev struct {
						o   op
						res string
					}
					evs := []ev{{a, ra}}
					if order != "" {
						evs = append(evs, ev{op{b.set, b.i + 10}, got["0"]}, ev{op{c.set, c.i + 20}, got["1"]})
					}
					explained := false
					perm(len(evs), func(p []int) {
						cell := "h0"
						// b before c
						if len(evs) == 3 && idxOf(p, 1) > idxOf(p, 2) {
							return
						}
						for _, i := range p {
							if evs[i].res != cell {
								return
							}
							if evs[i].o.set {
								cell = fmt.Sprintf("h%d", evs[i].o.i)
							}
						}
						explained = explained || cell == final
					})
					if !explained && bad == "" {
						bad = fmt.Sprintf("no order of the operations explains the results %v and the handler %s left installed", evs, final)
					}
				}
			}
		}
	}
	r.Count("interleavings of handler operations", n)
	r.Ok("K01.handler", "SetNaPErrorHandler, GetNaPErrorHandler", set.Pos(), "exchanging and reading the handler is atomic", bad == "", bad)
	r.noteVisited(it)
}

func idxOf(p []int, x int) int {
	for i, v := range p {
		if v == x {
			return i
		}
	}
	return -1
}

func perm(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// ---- cache

type k01op struct {
	prep bool
	key  string
	n    int
}

func (o k01op) String() string {
	if o.prep {
		return fmt.Sprintf("PrepopulateCache(%s, %d entries)", o.key, o.n)
	}
	return fmt.Sprintf("GetElements(%s, %d)", o.key, o.n)
}

// k01Cache: a cache behaves, for every schedule, like a map from keys to ever growing sequences.
func k01Cache(r *Run, copyFn, createFn bool, variant string) {
	const pkg = "internal/testutils"
	mk, get, prep := r.P.Func(pkg, "MakePrecomputedCache"), r.P.Func(pkg, "PrecomputedCache.GetElements"), r.P.Func(pkg, "PrecomputedCache.PrepopulateCache")
	if mk == nil || get == nil || prep == nil {
		panic(vg.Undecided{Msg: "MakePrecomputedCache, GetElements or PrepopulateCache missing"})
	}
	it := ai.New(r.P, pkg)
	tK, tE := types.Typ[types.String], types.Typ[types.Int]
	targs := []types.Type{tK, tE}
	sigs := mk.Signature.Params()
	type created struct {
		key, rng string
		j        int
	}
	var nCopy int
	var byRng map[string]int
	var elems map[string]created // created elements
	var copies map[string]string // copy -> original
	boom := false                // the functions supplied panic
	it.Opaque = func(it *ai.Interp, st *ai.State, fn ai.Sym, args []ai.Value) (ai.Value, bool) {
		if boom {
			return ai.PanicWith("supplied function"), true
		}
		switch fn.Key {
		case "rnd":
			nCopy++
			return ai.Sym{Key: fmt.Sprintf("rng%d(%s)", nCopy, st.Key(args[0])), T: mk.Signature.Params().At(0).Type().Underlying().(*types.Signature).Results().At(0).Type()}, true
		case "create":
			rng := st.Key(args[0])
			k := fmt.Sprintf("e%d(%s)", byRng[rng], rng)
			key, _ := ai.StrOf(args[1])
			elems[k] = created{key, rng, byRng[rng]}
			byRng[rng]++
			return ai.Sym{Key: k, T: tE}, true
		case "copy":
			nCopy++
			k := fmt.Sprintf("copy%d", nCopy)
			copies[k] = st.Key(args[0])
			return ai.Sym{Key: k, T: tE}, true
		}
		return nil, false
	}
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	type result struct {
		o     k01op
		vals  []string // normalised
		panic bool
	}
	type scenario struct {
		before []k01op
		a      k01op
		at     [2]int // lock acquisition of a before which b, c run
		bc     []k01op
		boom   bool // the supplied functions panic during a
	}
	nSc, nPt := 0, 0
	var maxAt int
	run := func(sc scenario) {
		nCopy, byRng, elems, copies = 0, map[string]int{}, map[string]created{}, map[string]string{}
		desc := func() string {
			return fmt.Sprintf("after %v, %v with %v interfering before lock acquisitions %v", sc.before, sc.a, sc.bc, sc.at)
		}
		var fs []ai.Value
		for i, n := range []string{"rnd", "create", "copy"} {
			if n == "copy" && !copyFn || n == "create" && !createFn {
				fs = append(fs, ai.Nil{T: sigs.At(i).Type()})
			} else {
				fs = append(fs, ai.Sym{Key: n, T: sigs.At(i).Type()})
			}
		}
		st0 := it.Base.Clone()
		st0.SetOracle(func(a string) (bool, bool) {
			// the functions and generators supplied are not nil
			return false, strings.Contains(a, "nil")
		})
		outs := it.RunT(st0, mk, targs, fs)
		if len(outs) != 1 || outs[0].Panic != nil {
			panic(vg.Undecided{Msg: fmt.Sprintf("MakePrecomputedCache has no single outcome: %d %s", len(outs), outs[0].Describe())})
		}
		st := outs[0].St
		ct := types.Type(types.Typ[types.Int])
		if n, ok := mk.Signature.Results().At(0).Type().(*types.Named); ok {
			if inst, err := types.Instantiate(nil, n.Origin(), targs, false); err == nil {
				ct = inst
			}
		}
		cache := st.Alloc(ct, outs[0].Ret[0])
		published := map[int]bool{}
		st.Reach(cache, published)
		acc := map[int][]e05acc{}
		returned := map[string]string{}
		handed := map[int]string{} // slices and entries handed in or out
		var cur k01op
		st.OnUnlock = func(s *ai.State) {
			now := map[int]bool{}
			s.Reach(cache, now)
			for o := range now {
				published[o] = true
			}
		}
		st.Trace = func(s *ai.State, o int, write bool) {
			if published[o] {
				fn, pos := s.Where()
				n := ""
				if fn != nil {
					n = fn.String()
				}
				acc[o] = append(acc[o], e05acc{write, e05Locks(s), n, pos, cur.String()})
			}
		}
		norm := func(k string) (string, int) {
			d := 0
			for {
				o, ok := copies[k]
				if !ok {
					break
				}
				d++
				k = o
			}
			if c, ok := elems[k]; ok {
				return fmt.Sprintf("%s:created %d", c.key, c.j), d
			}
			return k, d
		}
		nop := 0
		one := func(s *ai.State, o k01op, outer map[string]string) (*ai.State, result, bool) {
			cur = o
			nop++
			res := result{o: o}
			var outs []ai.Outcome
			in := -1
			if o.prep {
				var es []ai.Value
				for i := 0; i < o.n; i++ {
					es = append(es, ai.Sym{Key: fmt.Sprintf("%s:p%d.%d", o.key, nop, i), T: tE})
				}
				sl := s.NewSlice(types.NewSlice(tE), es...)
				handed[sl.O] = o.String()
				in = sl.O
				outs = it.RunT(s, prep, targs, []ai.Value{cache, ai.Const{V: ai.KStr(o.key).V, T: tK}, sl})
			} else {
				outs = it.RunT(s, get, targs, []ai.Value{cache, ai.Const{V: ai.KStr(o.key).V, T: tK}, ai.KInt(int64(o.n), types.Typ[types.Int])})
			}
			if len(outs) != 1 {
				panic(vg.Undecided{Msg: fmt.Sprintf("%v has %d outcomes", o, len(outs))})
			}
			out := outs[0]
			if out.Panic != nil {
				if strings.Contains(out.St.Key(out.Panic), "lock ") {
					if len(outer) > 0 {
						delete(handed, in)
						return s, res, false // blocked by the lock that is held: does not happen here
					}
					note("%s: %v: %s", desc(), o, out.Describe())
				}
				res.panic = true
			}
			for l := range out.St.Held {
				if _, ok := outer[l]; !ok {
					note("%s: %v ends with a lock held (panic: %v)", desc(), o, res.panic)
				}
			}
			if out.Panic == nil && !o.prep {
				sl, ok := out.Ret[0].(ai.Slice)
				if !ok {
					note("%s: %v returns no slice", desc(), o)
					return out.St, res, true
				}
				if handed[sl.O] != "" {
					note("%s: %v returns memory that was handed out before", desc(), o)
				}
				handed[sl.O] = o.String()
				for _, e := range out.St.Elems(sl) {
					k := out.St.Key(e)
					v, d := norm(k)
					res.vals = append(res.vals, v)
					if copyFn {
						need := 1
						if !strings.Contains(v, "created") {
							need = 2
						}
						if d < need || returned[k] != "" {
							note("%s: %v returns an element (%s) that is not a fresh copy", desc(), o, v)
						}
						returned[k] = o.String()
					}
				}
			}
			return out.St, res, true
		}
		var hist []result
		for _, o := range sc.before {
			s, res, _ := one(st, o, nil)
			st = s
			hist = append(hist, res)
		}
		// a, with b and c
		var inner []result
		cnt, next, inside := 0, 0, false
		if len(sc.bc) > 0 {
			st.OnLock = func(s *ai.State, key string) {
				if inside {
					return
				}
				for next < len(sc.bc) && cnt == sc.at[next] {
					inside = true
					save := cur
					frames := s.Frames
					s2 := s.Clone()
					s2.Frames = nil
					outer := map[string]string{}
					for k, v := range s2.Held {
						outer[k] = v
					}
					t, res, ok := one(s2, sc.bc[next], outer)
					if ok {
						*s = *t
						s.Frames = frames
						inner = append(inner, res)
					}
					inside = false
					cur = save
					next++
				}
				cnt++
			}
		}
		boom = sc.boom
		t, ra, _ := one(st, sc.a, nil)
		boom = false
		if cnt > maxAt {
			maxAt = cnt
		}
		st = t
		st.OnLock = nil
		var after []result
		for _, k := range []string{"a", "b"} {
			for _, n := range []int{1, 3, 2} {
				if !createFn && n > 1 {
					continue
				}
				s, res, _ := one(st, k01op{false, k, n}, nil)
				st = s
				after = append(after, res)
			}
		}
		nSc++
		// memory handed in or out is not part of the cache
		reach := map[int]bool{}
		st.Reach(cache, reach)
		for o := range reach {
			if handed[o] != "" {
				note("%s: memory of %s is part of the cache", desc(), handed[o])
			}
		}
		if copyFn {
			for o := range reach {
				ks := st.Key(st.Obj(o))
				for k, op := range returned {
					if strings.Contains(ks+" ", k+" ") || strings.Contains(ks+",", k+",") || strings.Contains(ks+")", k+")") || strings.Contains(ks+"}", k+"}") || strings.Contains(ks+"]", k+"]") {
						note("%s: an element returned by %s is still in the cache", desc(), op)
					}
				}
			}
		}
		// locksets
		for _, as := range acc {
			written := false
			var common map[string]bool
			for _, a := range as {
				written = written || a.write
				have := map[string]bool{}
				for _, l := range strings.Split(a.locks, ",") {
					k, m, _ := strings.Cut(l, ":")
					if k != "" && (m == "w" || !a.write) {
						have[k] = true
					}
				}
				if common == nil {
					common = have
				} else {
					for k := range common {
						if !have[k] {
							delete(common, k)
						}
					}
				}
			}
			if written && len(common) == 0 {
				for _, a := range as {
					if a.locks == "" || a.write && !strings.Contains(a.locks, ":w") {
						note("%s: %s accesses shared memory without the lock (%s)", a.op, a.fn, r.P.Rel(a.pos))
					}
				}
				note("%s: memory of the cache is accessed without a common lock", desc())
			}
		}
		// elements of one key come from one generator
		gen := map[string]string{}
		for k := range returned {
			o := k
			for copies[o] != "" {
				o = copies[o]
			}
			if c, ok := elems[o]; ok {
				if gen[c.key] != "" && gen[c.key] != c.rng {
					note("%s: elements of key %s are created from two generators", desc(), c.key)
				}
				gen[c.key] = c.rng
			}
		}
		// some order explains the results
		type page struct {
			seq []string
		}
		explain := func(order []result) bool {
			m := map[string]*page{}
			np := map[string]int{}
			for _, h := range order {
				p := m[h.o.key]
				if h.o.prep {
					if p != nil {
						if !h.panic {
							return false
						}
						continue
					}
					if h.panic {
						return false
					}
					p = &page{}
					for i := 0; i < h.o.n; i++ {
						p.seq = append(p.seq, "p")
					}
					np[h.o.key] = h.o.n
					m[h.o.key] = p
					continue
				}
				if h.o.n == 0 {
					if h.panic || len(h.vals) != 0 {
						return false
					}
					continue
				}
				if p == nil {
					p = &page{}
					m[h.o.key] = p
				}
				if !createFn && h.o.n > np[h.o.key] {
					if !h.panic {
						return false
					}
					continue
				}
				if h.panic || len(h.vals) != h.o.n {
					return false
				}
				for i, v := range h.vals {
					if i < np[h.o.key] {
						k, rest, _ := strings.Cut(v, ":")
						if k != h.o.key || !strings.HasPrefix(rest, "p") || !strings.HasSuffix(rest, fmt.Sprintf(".%d", i)) {
							return false
						}
						if p.seq[i] == "p" {
							p.seq[i] = v
						}
						if p.seq[i] != v {
							return false
						}
						continue
					}
					if v != fmt.Sprintf("%s:created %d", h.o.key, i-np[h.o.key]) {
						return false
					}
				}
			}
			return true
		}
		mid := append([]result{ra}, inner...)
		okk := sc.boom
		for _, h := range after {
			if sc.boom && h.panic {
				okk = false
			}
		}
		perm(len(mid), func(p []int) {
			if len(mid) == 3 && idxOf(p, 1) > idxOf(p, 2) {
				return
			}
			order := append([]result{}, hist...)
			for _, i := range p {
				order = append(order, mid[i])
			}
			okk = okk || explain(append(order, after...))
		})
		if !okk {
			note("%s: no order of the operations explains the results %v %v %v", desc(), hist, mid, after)
		}
	}
	var ops []k01op
	for _, n := range []int{0, 1, 2, 3} {
		ops = append(ops, k01op{false, "a", n})
	}
	ops = append(ops, k01op{true, "a", 0}, k01op{true, "a", 2}, k01op{false, "b", 2})
	if !createFn {
		// nothing can be created: only prepopulated keys
		for _, n := range []int{0, 1, 2, 3, 4} {
			run(scenario{before: []k01op{{true, "a", 3}, {true, "b", 3}, {false, "a", n}, {false, "a", 2}}, a: k01op{false, "a", 4}})
			run(scenario{before: []k01op{{true, "a", 2}, {true, "b", 3}, {false, "a", n}}, a: k01op{false, "a", n}})
		}
	} else {
		// sequences of operations
		for _, a := range ops {
			for _, b := range ops {
				for _, c := range ops {
					run(scenario{before: []k01op{a, b}, a: c})
				}
			}
		}
		// interference
		for _, before := range [][]k01op{nil, {{false, "a", 1}}, {{true, "a", 1}}, {{false, "a", 2}}} {
			for _, a := range ops {
				for _, b := range ops {
					for _, c := range ops {
						for k1 := 0; k1 <= 5; k1++ {
							for k2 := k1; k2 <= 5; k2++ {
								if bad != "" {
									break
								}
								nPt++
								maxAt = 0
								run(scenario{before: before, a: a, bc: []k01op{b, c}, at: [2]int{k1, k2}})
								if k2 >= maxAt {
									break
								}
							}
							if k1 >= maxAt {
								break
							}
						}
					}
				}
			}
		}
		// a supplied function panics: the cache stays usable
		for _, o := range []k01op{{false, "a", 2}, {false, "a", 1}, {true, "c", 2}} {
			for _, before := range [][]k01op{nil, {{false, "a", 1}}, {{true, "a", 1}}, {{false, "a", 2}}} {
				run(scenario{before: before, a: o, boom: true})
			}
		}
	}
	r.Count("schedules of cache operations", nSc)
	r.Ok("K01.cache", variant, get.Pos(), "linearizable, one sequence per key, copies in and out, locks released", bad == "", bad)
	r.noteVisited(it)
}
