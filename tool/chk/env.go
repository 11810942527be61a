package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/load"
	"verif/vg"
)

// Env is one analysis context (one function, one aliasing pattern).
type Env struct {
	R      *Run
	C      *alg.Ctx
	It     *vg.Interp
	St     *vg.State
	Rule   string
	Name   string // construct
	Fn     *ssa.Function
	Pre    alg.Bdd
	Extra  []alg.Fact
	Max    int // case budget
	resid  map[string]*vg.AggV
	zwords *vg.AggV
	rec    *bigRec
}

// NewEnv makes a fresh analysis context.
func (r *Run) NewEnv(rule, name string, fn *ssa.Function) *Env {
	c := alg.NewCtx()
	it := vg.New(r.P.SSA, c)
	it.Models = []vg.Model{errModel, vg.StdModel}
	it.Follow = func(f *ssa.Function) bool {
		if f.Pkg == nil {
			return f.Synthetic != "" || strings.Contains(f.String(), load.Module)
		}
		return strings.HasPrefix(f.Pkg.Pkg.Path(), load.Module)
	}
	return &Env{R: r, C: c, It: it, St: vg.NewState(), Rule: rule, Name: name, Fn: fn, Pre: alg.True, Max: 20000}
}

// Done accumulates statistics.
func (e *Env) Done() {
	e.R.mu.Lock()
	defer e.R.mu.Unlock()
	for f, n := range e.It.Funcs {
		e.R.Funcs[f] += n
	}
	e.R.Instrs += e.It.NInstr
}

func (e *Env) pos() string {
	if e.Fn == nil {
		return ""
	}
	return e.R.P.Rel(e.Fn.Pos())
}

var traceGoals = os.Getenv("VERIF_TRACE") != ""

func (e *Env) goal(what string, g alg.Goal) bool {
	g.Cond = e.C.And(g.Cond, e.Pre)
	g.Extra = append(g.Extra, e.Extra...)
	t0 := time.Now()
	ok, fail, cases := e.C.Prove(g, e.Max)
	if traceGoals {
		fmt.Fprintf(os.Stderr, "%6.2fs %5d %v %s: %s\n", time.Since(t0).Seconds(), cases, ok, e.Name, what)
	}
	if ok {
		fail = ""
	}
	e.R.Add(&Ob{Rule: e.Rule, Construct: e.Name, Pos: e.pos(), Goal: what, OK: ok, Detail: fail, Cases: cases})
	return ok
}

// Zero demands p == 0 under cond.
func (e *Env) Zero(what string, cond alg.Bdd, p *alg.Poly) bool {
	return e.goal(what, alg.Goal{Kind: alg.GZero, P: p, Cond: cond})
}

// ModZ demands p == 0 mod m under cond.
func (e *Env) ModZ(what string, cond alg.Bdd, p *alg.Poly, m *big.Int) bool {
	return e.goal(what, alg.Goal{Kind: alg.GMod, P: p, M: m, Cond: cond})
}

// In demands lo <= p <= hi under cond.
func (e *Env) In(what string, cond alg.Bdd, p *alg.Poly, lo, hi *big.Int) bool {
	return e.goal(what, alg.Goal{Kind: alg.GRange, P: p, Lo: lo, Hi: hi, Cond: cond})
}

// Never demands that cond cannot happen.
func (e *Env) Never(what string, cond alg.Bdd) bool {
	if e.C.And(cond, e.Pre) == alg.False {
		e.R.Add(&Ob{Rule: e.Rule, Construct: e.Name, Pos: e.pos(), Goal: what, OK: true})
		return true
	}
	return e.goal(what, alg.Goal{Kind: alg.GFalse, P: alg.KI(0), Cond: cond})
}

// Fail records a failure.
func (e *Env) Fail(what, detail string) {
	e.R.Add(&Ob{Rule: e.Rule, Construct: e.Name, Pos: e.pos(), Goal: what, OK: false, Detail: detail})
}

// Bool demands ok.
func (e *Env) Bool(what string, ok bool, detail string) bool {
	if ok {
		detail = ""
	}
	e.R.Add(&Ob{Rule: e.Rule, Construct: e.Name, Pos: e.pos(), Goal: what, OK: ok, Detail: detail})
	return ok
}

func two(k uint) *big.Int         { return alg.Two(k) }
func sub1(x *big.Int) *big.Int    { return new(big.Int).Sub(x, big.NewInt(1)) }
func bi(x int64) *big.Int         { return big.NewInt(x) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

func mustBig(s string) *big.Int {
	x, ok := new(big.Int).SetString(strings.ReplaceAll(s, "_", ""), 0)
	if !ok {
		panic("bad number " + s)
	}
	return x
}

// The field and group parameters of Bandersnatch (from the specification of the curve, not from the code).
var (
	Pbase  = mustBig("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	Pexp   = mustBig("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1")
	R256   = two(256)
	Rinv   = new(big.Int).ModInverse(R256, Pbase)
	halfFl = new(big.Int).Rsh(Pbase, 1)
)

// Words is an array of 64-bit limbs, low-endian.
func (e *Env) Words(name string, n int) (*vg.AggV, *alg.Poly) {
	a := &vg.AggV{}
	s := alg.KI(0)
	for i := 0; i < n; i++ {
		v := e.It.FreshInt(fmt.Sprintf("%s%d", name, i), alg.KInput, new(big.Int), sub1(two(64)), 64, false)
		a.E = append(a.E, v)
		s = s.Add(v.R.P.Scale(two(uint(64 * i))))
	}
	return a, s
}

// WordsBelow is Words with 0 <= value <= hi.
func (e *Env) WordsBelow(name string, n int, hi *big.Int) (*vg.AggV, *alg.Poly) {
	a, p := e.Words(name, n)
	if hi != nil {
		e.Bound(p, hi)
	}
	return a, p
}

// Bound records an input bound 0 <= p <= hi.
func (e *Env) Bound(p *alg.Poly, hi *big.Int) {
	e.C.AddFact(alg.True, p, new(big.Int), hi, "precondition")
	e.C.Vec = append(e.C.Vec, alg.VecBound{P: p, K: hi})
}

// U64 is a fresh 64-bit input.
func (e *Env) U64(name string) *vg.IntV {
	return e.It.FreshInt(name, alg.KInput, new(big.Int), sub1(two(64)), 64, false)
}

// I64 is a fresh signed 64-bit input.
func (e *Env) I64(name string) *vg.IntV {
	return e.It.FreshInt(name, alg.KInput, new(big.Int).Neg(two(63)), sub1(two(63)), 64, true)
}

// Num reads the integer value of nested 64-bit limbs.
func (e *Env) Num(v vg.Value) (*alg.Poly, bool) {
	v = e.It.Force(v)
	switch x := v.(type) {
	case *vg.IntV:
		return x.R.P, true
	case *vg.AggV:
		var el []vg.Value
		for _, w := range x.E {
			if a, ok := w.(*vg.AggV); ok && len(a.E) == 0 {
				continue
			}
			el = append(el, w)
		}
		if len(el) == 1 {
			return e.Num(el[0])
		}
		s := alg.KI(0)
		for i, w := range el {
			w = e.It.Force(w)
			iv, ok := w.(*vg.IntV)
			if !ok {
				return nil, false
			}
			s = s.Add(iv.R.P.Scale(two(uint(64 * i))))
		}
		return s, true
	}
	return nil, false
}

// MustNum is Num or undecided.
func (e *Env) MustNum(v vg.Value) *alg.Poly {
	p, ok := e.Num(v)
	if !ok {
		panic(vg.Undecided{Msg: e.Name + ": value is not numeric: " + e.It.Describe(v)})
	}
	return p
}

// At reads the number a pointer points to.
func (e *Env) At(p vg.Value) *alg.Poly { return e.MustNum(e.It.Load(e.St, p)) }

// Cond reads a boolean.
func (e *Env) Cond(v vg.Value) alg.Bdd {
	v = e.It.Force(v)
	if b, ok := v.(vg.BoolV); ok {
		return b.B
	}
	panic(vg.Undecided{Msg: e.Name + ": not a condition: " + e.It.Describe(v)})
}

// NilErr is the condition under which an error result is nil.
func (e *Env) NilErr(v vg.Value) alg.Bdd {
	b, ok := e.It.NilCond(v)
	if !ok {
		panic(vg.Undecided{Msg: e.Name + ": cannot tell whether the error is nil: " + e.It.Describe(e.It.Force(v))})
	}
	return b
}

// Elem is the pointed-to type.
func Elem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// NamedOf is the name of a (pointer to a) named type.
func NamedOf(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// NoPanics demands that no recorded panic site is reachable under allowed-complement.
func (e *Env) NoPanics(except alg.Bdd) {
	for _, p := range e.It.Panics {
		cond := e.C.And(p.Cond, e.C.Not(except))
		e.Never("no panic: "+p.Why+" in "+shortFn(p.Fn), cond)
	}
}

func shortFn(s string) string {
	s = strings.ReplaceAll(s, load.Module+"/", "")
	return strings.ReplaceAll(s, "bandersnatch/", "")
}

// Case is one function under one aliasing pattern.
type Case struct {
	*Env
	Args  []vg.Value
	Pre0  []vg.Value  // values of (pointed-to) arguments before the call
	In    []*alg.Poly // numeric values of (pointed-to) arguments before the call
	Res   []vg.Value
	Ret   alg.Bdd // returns normally
	Alias string
}

// Out is the numeric value behind pointer argument i after the call.
func (c *Case) Out(i int) *alg.Poly { return c.At(c.Args[i]) }

// FnSpec describes how to set up and what to demand of a function.
type FnSpec struct {
	Rule string
	Pkg  string
	Name string // "T.Method" or "Func"
	// Hi gives the inclusive upper bound of the numeric argument i (nil: full width)
	Hi func(i int) *big.Int
	// Arg overrides the construction of an argument
	Arg func(e *Env, i int, t types.Type) (vg.Value, bool)
	// NoAlias: do not analyse aliased arguments
	NoAlias bool
	As      string
	// Written arguments (default: 0 for methods with pointer receivers)
	Writes []int
	// Panic: condition under which panicking is allowed (nil: never)
	Panic func(c *Case) alg.Bdd
	Setup func(e *Env)
	Post  func(c *Case)
}

// setPartitions enumerates alias patterns: for each element the index of its representative.
func setPartitions(n int) [][]int {
	var out [][]int
	var rec func(i int, cur []int)
	rec = func(i int, cur []int) {
		if i == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		seen := map[int]bool{}
		for j := 0; j < i; j++ {
			if cur[j] == j && !seen[j] {
				seen[j] = true
				rec(i+1, append(cur, j))
			}
		}
		rec(i+1, append(cur, i))
	}
	rec(0, nil)
	return out
}

// Find resolves a function or records a failed obligation.
func (r *Run) Find(rule, pkg, name string) *ssa.Function {
	fn := r.P.Func(pkg, name)
	if fn == nil || len(fn.Blocks) == 0 {
		why := "function not found"
		if e := r.P.Broken[load.Path(pkg)]; len(e) > 0 {
			why = "package does not type-check: " + e[0].Error()
		}
		r.Add(&Ob{Rule: rule, Construct: pkg + "." + name, Goal: "anchor resolves", OK: false, Detail: why})
		return nil
	}
	return fn
}

// Check analyses a function in all aliasing patterns.
func (r *Run) Check(s FnSpec) {
	fn := r.Find(s.Rule, s.Pkg, s.Name)
	if fn == nil {
		return
	}
	r.CheckFn(s, fn)
}

// CheckFn analyses the given function.
func (r *Run) CheckFn(s FnSpec, fn *ssa.Function) {
	n := len(fn.Params)
	// group pointer params of identical type
	groups := map[string][]int{}
	var order []string
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			k := p.Type().String()
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], i)
		}
	}
	pats := [][]int{make([]int, n)}
	for i := range pats[0] {
		pats[0][i] = i
	}
	if !s.NoAlias {
		for _, k := range order {
			g := groups[k]
			if len(g) < 2 {
				continue
			}
			var next [][]int
			for _, base := range pats {
				for _, sp := range setPartitions(len(g)) {
					q := append([]int{}, base...)
					for a, rep := range sp {
						q[g[a]] = g[rep]
					}
					next = append(next, q)
				}
			}
			pats = next
		}
	}
	for _, pat := range pats {
		pat := pat
		al := ""
		for i, rep := range pat {
			if rep != i {
				if al != "" {
					al += ","
				}
				al += pname(fn, i) + "=" + pname(fn, rep)
			}
		}
		name := s.Pkg + "." + s.Name
		if s.As != "" {
			name = s.Pkg + "." + s.As
		}
		if al != "" {
			name += " [aliased: " + al + "]"
		}
		r.Go(s.Rule, name, func() {
			e := r.NewEnv(s.Rule, name, fn)
			defer e.Done()
			if s.Setup != nil {
				s.Setup(e)
			}
			c := &Case{Env: e, Alias: al}
			for i, p := range fn.Params {
				if pat[i] != i {
					c.Args = append(c.Args, c.Args[pat[i]])
					c.In = append(c.In, c.In[pat[i]])
					// the bound of the aliased argument also holds
					if s.Hi != nil && c.In[i] != nil {
						if h := s.Hi(i); h != nil {
							e.Bound(c.In[i], h)
						}
					}
					continue
				}
				var v vg.Value
				ok := false
				if s.Arg != nil {
					v, ok = s.Arg(e, i, p.Type())
				}
				var in *alg.Poly
				if !ok {
					var hi *big.Int
					if s.Hi != nil {
						hi = s.Hi(i)
					}
					v, in = e.MakeArg(pname(fn, i), p.Type(), hi)
				} else if _, isp := v.(vg.PtrV); isp {
					in, _ = e.Num(e.It.Load(e.St, v))
				} else {
					in, _ = e.Num(v)
				}
				c.Args = append(c.Args, v)
				c.In = append(c.In, in)
			}
			for _, a := range c.Args {
				if _, isp := a.(vg.PtrV); isp {
					c.Pre0 = append(c.Pre0, e.It.Load(e.St, a))
				} else {
					c.Pre0 = append(c.Pre0, a)
				}
			}
			c.Res, c.Ret = e.It.Call(e.St, fn, append([]vg.Value{}, c.Args...), nil)
			ex := alg.False
			if s.Panic != nil {
				ex = s.Panic(c)
			}
			e.NoPanics(ex)
			if c.Ret == alg.False {
				if s.Panic == nil {
					e.Fail("returns", "the function never returns normally")
				}
				return
			}
			// frame: other pointer arguments are unchanged
			wr := map[int]bool{}
			ws := s.Writes
			if ws == nil && strings.Contains(s.Name, ".") {
				ws = []int{0}
			}
			for _, w := range ws {
				wr[pat[w]] = true
			}
			for i := range c.Args {
				if pat[i] != i || wr[i] || c.In[i] == nil {
					continue
				}
				if _, ok := c.Args[i].(vg.PtrV); ok {
					e.Zero("argument "+pname(fn, i)+" is not modified", c.Ret, c.Out(i).Sub(c.In[i]))
				}
			}
			s.Post(c)
		})
	}
}

func pname(fn *ssa.Function, i int) string {
	n := fn.Params[i].Name()
	if n == "" || n == "_" {
		return fmt.Sprintf("arg%d", i)
	}
	return n
}

// MakeArg builds a symbolic argument of a type.
func (e *Env) MakeArg(name string, t types.Type, hi *big.Int) (vg.Value, *alg.Poly) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v, p := e.MakeArg(name, u.Elem(), hi)
		return e.It.NewObj(e.St, name, u.Elem(), v), p
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			return e.WordsBelow(name, int(u.Len()), hi)
		}
		a := &vg.AggV{}
		for i := 0; i < int(u.Len()); i++ {
			v, _ := e.MakeArg(fmt.Sprintf("%s[%d]", name, i), u.Elem(), nil)
			a.E = append(a.E, v)
		}
		return a, nil
	case *types.Struct:
		if vg.IsBigInt(t) {
			v := e.It.FreshInt(name, alg.KInput, nil, nil, 0, true)
			return v, v.R.P
		}
		a := &vg.AggV{}
		var pp *alg.Poly
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			v, p := e.MakeArg(name+"."+u.Field(i).Name(), u.Field(i).Type(), hi)
			a.E = append(a.E, v)
			if sub, ok := v.(*vg.AggV); ok && len(sub.E) == 0 {
				continue
			}
			pp = p
			n++
		}
		if n != 1 {
			pp = nil
		}
		return a, pp
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			b := e.It.Nondet(name)
			return vg.BoolV{B: b}, e.C.BoolR(b).P
		}
		if u.Info()&types.IsInteger != 0 {
			w, s := vg.IntType(t)
			lo, h := new(big.Int), sub1(two(uint(w)))
			if s {
				lo, h = new(big.Int).Neg(two(uint(w-1))), sub1(two(uint(w-1)))
			}
			if hi != nil {
				h = hi
			}
			v := e.It.FreshInt(name, alg.KInput, lo, h, w, s)
			return v, v.R.P
		}
	}
	return vg.OpaqueV{Why: "argument " + name}, nil
}

var _ = token.NoPos

// In2 is In with small constants, unconditional.
func (c *Case) In2(what string, p *alg.Poly, lo, hi int64) {
	c.Env.In(what, c.Ret, p, bi(lo), bi(hi))
}

// In2Big demands lo <= p <= hi under cond.
func (c *Case) In2Big(what string, cond alg.Bdd, p *alg.Poly, lo, hi *big.Int) {
	c.Env.In(what, cond, p, lo, hi)
}

// Iff demands that b holds exactly when p == 0.
func (c *Case) Iff(what string, b alg.Bdd, p *alg.Poly, bound *big.Int) {
	c.Zero(what+" (true case)", c.C.And(c.Ret, b), p)
	z := c.C.EqR(c.C.Tighten(alg.Rng{P: p}), alg.KR(new(big.Int)))
	c.Never(what+" (false case)", c.C.And(c.C.And(c.Ret, c.C.Not(b)), z))
}

// InR is the input value with its range.
func (c *Case) InR(i int) alg.Rng { return c.C.Tighten(alg.Rng{P: c.In[i]}) }

// GeConst is the gate p >= k.
func (c *Case) GeConst(p *alg.Poly, k *big.Int, rng alg.Rng) alg.Bdd {
	return c.C.Not(c.C.LtR(rng, alg.KR(k)))
}

// CheckNamed is Check under another construct name.
func (r *Run) CheckNamed(as string, s FnSpec) {
	fn := r.Find(s.Rule, s.Pkg, s.Name)
	if fn == nil {
		return
	}
	s.As = as
	r.CheckFn(s, fn)
}

// BitLen demands that p is the bit length of the first argument (four limbs).
func (c *Case) BitLen(what string, p *alg.Poly, limbs []vg.Value) {
	rest := alg.True
	for i := len(limbs) - 1; i >= 0; i-- {
		l := c.It.Force(limbs[i]).(*vg.IntV)
		z := c.C.EqR(l.R, alg.KR(new(big.Int)))
		ref := c.It.Len64(l.R).R.P.Add(alg.KI(int64(64 * i)))
		c.Zero(fmt.Sprintf("%s (highest non-zero word %d)", what, i), c.C.And(c.Ret, c.C.And(rest, c.C.Not(z))), p.Sub(ref))
		rest = c.C.And(rest, z)
	}
	c.Zero(what+" (zero)", c.C.And(c.Ret, rest), p)
}

// Guard runs f; undecided constructs become failures.
func (e *Env) Guard(f func()) {
	defer e.Done()
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(vg.Undecided); ok {
				e.Fail("analysable", u.Msg)
				return
			}
			panic(x)
		}
	}()
	f()
}
