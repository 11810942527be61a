package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/load"
	"verif/vg"
)

// feAlt is a guarded field element.
type feAlt struct {
	C alg.Bdd
	V ff.Val
}

// feV is a field element: a guarded union of rational functions.
type feV struct {
	d *feDom
	A []feAlt
}

// feDom is the field element domain of one analysis context.
type feDom struct {
	E     *Env
	F     *ff.Ctx
	gates map[int]alg.Bdd
	gfac  map[int32]int // gate atom -> factor
	signs map[string]alg.Bdd
	chis  map[string]alg.Bdd
	nap   alg.Bdd // a NaP handler has been called
	// the unsplit gates (for reports)
	Loose []string
	Gates int
	half  *big.Int
	feas  bool
	// SignOf fixes the sign of a value (normalised representation) when known
	nfresh int
}

// feType is the name of the type behind FieldElement.
var feType = "bsFieldElement_MontgomeryNonUnique"

func isFE(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == feType && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), load.Module)
}

// newFE installs the field element domain in an analysis context.
func newFE(e *Env) *feDom {
	d := &feDom{E: e, F: ff.NewCtx(Pbase, big.NewInt(-5), curveD), gates: map[int]alg.Bdd{}, gfac: map[int32]int{}, signs: map[string]alg.Bdd{},
		chis: map[string]alg.Bdd{}, nap: alg.False, half: new(big.Int).Rsh(Pbase, 1)}
	e.It.Leaf = func(t types.Type) (vg.Value, bool) {
		if isFE(t) {
			return d.k(0), true
		}
		return nil, false
	}
	e.It.GlobConv = func(v vg.Value) (vg.Value, bool) {
		var w [4]*big.Int
		a, ok := e.It.Force(v).(*vg.AggV)
		if !ok {
			return nil, false
		}
		for {
			var el []vg.Value
			for _, w := range a.E {
				if b, ok := w.(*vg.AggV); !ok || len(b.E) > 0 {
					el = append(el, w)
				}
			}
			if len(el) != 1 {
				break
			}
			if a, ok = e.It.Force(el[0]).(*vg.AggV); !ok {
				return nil, false
			}
		}
		if len(a.E) != 4 {
			return nil, false
		}
		s := new(big.Int)
		for i := range w {
			k, ok := vg.ConstInt(e.It.Force(a.E[i]))
			if !ok {
				return nil, false
			}
			s.Add(s, new(big.Int).Lsh(k, uint(64*i)))
		}
		return d.val(d.F.Const(s.Mul(s, Rinv))), true
	}
	e.It.Models = append([]vg.Model{d.model}, e.It.Models...)
	e.It.NonNil = func(fn *ssa.Function, i int) bool {
		if fn.Signature.Recv() == nil || i >= len(fn.Params) {
			return false
		}
		isP := func(t types.Type) bool {
			p, ok := types.Unalias(t).(*types.Pointer)
			return ok && isFE(p.Elem())
		}
		return isP(fn.Params[0].Type()) && isP(fn.Params[i].Type())
	}
	return d
}

func (d *feDom) k(x int64) *feV        { return d.val(d.F.ConstI(x)) }
func (d *feDom) val(v ff.Val) *feV     { return &feV{d, []feAlt{{alg.True, v}}} }
func (d *feDom) variable(n string) int { return d.F.Var(n) }

// MergeDom joins alternatives.
func (x *feV) MergeDom(it *vg.Interp, alts []vg.ChoiceAlt) vg.Value {
	r := &feV{d: x.d}
	for _, a := range alts {
		for _, b := range a.V.(*feV).A {
			r.add(it.C, it.C.And(a.C, b.C), b.V)
		}
	}
	if len(r.A) == 1 {
		r.A[0].C = alg.True
	}
	return r
}

func (x *feV) add(c *alg.Ctx, cond alg.Bdd, v ff.Val) {
	if cond == alg.False {
		return
	}
	for i := range x.A {
		if x.A[i].V.Equal(v) {
			x.A[i].C = c.Or(x.A[i].C, cond)
			return
		}
	}
	x.A = append(x.A, feAlt{cond, v})
	if len(x.A) > 400 {
		panic(vg.Undecided{Msg: "too many alternatives of a field element"})
	}
}

// SameDom is equality of representations.
func (x *feV) SameDom(o vg.Value) bool {
	y, ok := o.(*feV)
	if !ok || len(x.A) != len(y.A) {
		return false
	}
	for i := range x.A {
		if x.A[i].C != y.A[i].C || !x.A[i].V.Equal(y.A[i].V) {
			return false
		}
	}
	return true
}

// EqDom compares two elements with ==. Field elements have several
// representations, so this is only decided when they are the same.
func (x *feV) EqDom(it *vg.Interp, o vg.Value) (alg.Bdd, bool) {
	if x.SameDom(o) {
		return alg.True, true
	}
	return 0, false
}

func (d *feDom) String(x *feV) string {
	var s []string
	for _, a := range x.A {
		t := d.F.String(a.V)
		if len(x.A) > 1 {
			t = d.E.C.BddString(a.C) + " ? " + t
		}
		s = append(s, t)
	}
	return strings.Join(s, " | ")
}

func (d *feDom) map1(x *feV, f func(v ff.Val) ff.Val) *feV {
	r := &feV{d: d}
	for _, a := range x.A {
		r.add(d.E.C, a.C, f(a.V))
	}
	return r
}

func (d *feDom) map2(x, y *feV, f func(v, w ff.Val) ff.Val) *feV {
	r := &feV{d: d}
	for _, a := range x.A {
		for _, b := range y.A {
			if c := d.E.C.And(a.C, b.C); c != alg.False {
				r.add(d.E.C, c, f(a.V, b.V))
			}
		}
	}
	return r
}

// gate is the condition under which factor i vanishes.
func (d *feDom) gate(i int) alg.Bdd {
	if d.F.FacUnit(i) {
		return alg.False
	}
	if g, ok := d.gates[i]; ok {
		return g
	}
	if u, v, ok := d.F.Aniso(i); ok {
		g := d.E.C.And(d.zero(u, nil), d.zero(v, nil))
		d.gates[i] = g
		return g
	}
	f := d.F.Factor(i)
	g := d.E.It.Nondet("zero(" + d.F.PString(f.P) + ")")
	d.gates[i] = g
	d.Gates++
	id, _ := d.E.C.SingleVar(g)
	d.gfac[id] = i
	return g
}

// zero is the condition under which a value vanishes; alias gives the
// conditions for factors known from the meaning of gates.
func (d *feDom) zero(v ff.Val, alias map[int]alg.Bdd) alg.Bdd {
	if v.IsZero() {
		return alg.True
	}
	acc := alg.False
	for _, f := range v.Fs {
		if f.E > 0 {
			g, ok := alias[f.F]
			if !ok {
				g = d.gate(f.F)
			}
			acc = d.E.C.Or(acc, g)
		}
	}
	return acc
}

// nonUnits lists the factors of v that may vanish.
func (d *feDom) nonUnits(v ff.Val) (out []int) {
	for _, f := range v.Fs {
		if f.E > 0 && !d.F.FacUnit(f.F) {
			out = append(out, f.F)
		}
	}
	return
}

// zeroIn is the part of cond on which v vanishes, taking the meaning of gates into account.
func (d *feDom) zeroIn(v ff.Val, cond alg.Bdd, done map[int32]bool) alg.Bdd {
	return d.zeroUnder(v, cond, done, nil, nil)
}

// feasible is the part of cond that is consistent with the meaning of the gates.
func (d *feDom) feasible(cond alg.Bdd) alg.Bdd {
	d.feas = true
	defer func() { d.feas = false }()
	return d.zeroUnder(d.F.ConstI(0), cond, nil, nil, nil)
}

// asg is a substitution in force.
type asg struct {
	v int
	e int
	w ff.Val
}

func (d *feDom) zeroUnder(v ff.Val, cond alg.Bdd, done map[int32]bool, alias map[int]alg.Bdd, subs []asg) alg.Bdd {
	c := d.E.C
	if cond == alg.False || v.IsZero() && !d.feas {
		return cond
	}
	if d.F.Unit(v) {
		return alg.False
	}
	vars := map[int32]bool{}
	c.BddVars(cond, vars)
	var ids []int32
	for id := range vars {
		ids = append(ids, id)
	}
	rank := func(id int32) int { // simple conditions first
		if f, ok := d.gfac[id]; ok {
			return len(d.F.Factor(f).Vars)
		}
		return 0
	}
	sort.Slice(ids, func(i, j int) bool {
		if a, b := rank(ids[i]), rank(ids[j]); a != b {
			return a < b
		}
		return ids[i] < ids[j]
	})
	for _, id := range ids {
		if _, ok := d.gfac[id]; !ok || done[id] {
			continue
		}
		f := d.gfac[id]
		fv := d.F.OfPoly(d.F.Factor(f).P)
		for _, s := range subs {
			fv = d.F.Subst(fv, s.v, s.e, s.w)
		}
		nd := map[int32]bool{id: true}
		for k := range done {
			nd[k] = true
		}
		g := c.BVar(id)
		if fv.IsZero() { // forced by the gates above
			return d.zeroUnder(v, c.And(cond, g), nd, alias, subs)
		}
		nu := d.nonUnits(fv)
		if len(nu) == 0 {
			return d.zeroUnder(v, c.And(cond, c.Not(g)), nd, alias, subs)
		}
		// the gate holds: solve for a free variable
		var a alg.Bdd
		solved := false
		aniso := false
		for _, i := range nu {
			if _, _, ok := d.F.Aniso(i); ok {
				aniso = true
			}
		}
		if len(nu) == 1 && !aniso {
			for _, x := range d.F.Factor(nu[0]).Vars {
				if !d.F.IsFree(x) {
					continue
				}
				if w, e, lin := d.F.Linear(nu[0], x); lin {
					var ns []asg
					for _, s := range subs {
						ns = append(ns, asg{s.v, s.e, d.F.Subst(s.w, x, e, w)})
					}
					ns = append(ns, asg{x, e, w})
					a = d.zeroUnder(d.F.Subst(v, x, e, w), c.And(cond, g), nd, nil, ns)
					solved = true
					break
				}
			}
			if !solved {
				al := map[int]alg.Bdd{nu[0]: g}
				for k, b := range alias {
					al[k] = b
				}
				// the gate decides the factor on both sides
				return d.zeroUnder(v, cond, nd, al, subs)
			}
		}
		if !solved {
			// the gate is decided by the gates of its factors
			same := c.Not(c.Xor(g, d.zero(fv, alias)))
			if r := c.And(cond, same); r != cond {
				return d.zeroUnder(v, r, nd, alias, subs)
			}
			continue
		}
		b := d.zeroUnder(v, c.And(cond, c.Not(g)), nd, alias, subs)
		return c.Or(a, b)
	}
	return c.And(cond, d.zero(v, alias))
}

// isZero is the condition under which a field element vanishes.
func (d *feDom) isZero(x *feV) alg.Bdd {
	acc := alg.False
	for _, a := range x.A {
		acc = d.E.C.Or(acc, d.zeroIn(a.V, a.C, nil))
	}
	return acc
}

func (d *feDom) sub(x, y *feV) *feV { return d.map2(x, y, d.F.Sub) }

func (d *feDom) eq(x, y *feV) alg.Bdd { return d.isZero(d.sub(x, y)) }

// eqVal is the condition under which x equals v.
func (d *feDom) eqVal(x *feV, v ff.Val) alg.Bdd { return d.eq(x, d.val(v)) }

// signPos: sign(v) > 0 for nonzero v.
func (d *feDom) signPos(v ff.Val) alg.Bdd {
	neg := v.K.Cmp(d.half) > 0
	if neg {
		v = d.F.Neg(v)
	}
	b := alg.True
	if !v.IsConst() {
		k := v.Key()
		var ok bool
		if b, ok = d.signs[k]; !ok {
			b = d.E.It.Nondet("positive(" + d.F.String(v) + ")")
			d.signs[k] = b
		}
	}
	if neg {
		b = d.E.C.Not(b)
	}
	return b
}

func (d *feDom) trit(pos, neg alg.Bdd) vg.Value {
	c := d.E.C
	zero := c.And(c.Not(pos), c.Not(neg))
	return d.E.It.Merge([]vg.ChoiceAlt{{C: pos, V: vg.KInt(1, 64, true)}, {C: neg, V: vg.KInt(-1, 64, true)}, {C: zero, V: vg.KInt(0, 64, true)}})
}

// chiPos: chi(v) = +1 for nonzero v.
func (d *feDom) chiPos(v ff.Val) alg.Bdd {
	s, unk := d.F.Chi(v)
	b := alg.True
	for _, f := range unk {
		k := fmt.Sprint(f)
		g, ok := d.chis[k]
		if !ok {
			g = d.E.It.Nondet("square(" + d.F.PString(d.F.Factor(f).P) + ")")
			d.chis[k] = g
			d.Loose = append(d.Loose, "character of "+d.F.PString(d.F.Factor(f).P))
		}
		b = d.E.C.Not(d.E.C.Xor(b, g))
	}
	if s < 0 {
		b = d.E.C.Not(b)
	}
	return b
}

func (d *feDom) load(st *vg.State, p vg.Value) *feV {
	return d.conv(d.E.It.Load(st, p))
}

func (d *feDom) conv(v vg.Value) *feV {
	v = d.E.It.Force(v)
	switch x := v.(type) {
	case *feV:
		return x
	case *vg.ChoiceV:
		r := &feV{d: d}
		for _, a := range x.A {
			for _, b := range d.conv(a.V).A {
				r.add(d.E.C, d.E.C.And(a.C, b.C), b.V)
			}
		}
		return r
	}
	panic(vg.Undecided{Msg: d.E.Name + ": not a field element: " + d.E.It.Describe(v)})
}

// model gives the methods of field elements their meaning (established by F01-F06, F09).
func (d *feDom) model(it *vg.Interp, st *vg.State, in ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	if fn == nil {
		if n, ok := types.Unalias(in.Common().Value.Type()).(*types.Named); ok && n.Obj().Name() == "NaPErrorHandler" {
			d.nap = d.E.C.Or(d.nap, it.PathCond())
			return vg.BoolV{B: d.napAnswer()}, true
		}
		return nil, false
	}
	recv := fn.Signature.Recv()
	if recv == nil {
		return d.funcModel(it, st, in, fn, args)
	}
	if p, ok := types.Unalias(recv.Type()).(*types.Pointer); !ok || !isFE(p.Elem()) {
		return nil, false
	}
	return d.method(it, st, in, fn, args)
}

func (d *feDom) napAnswer() alg.Bdd {
	b, ok := d.chis["NaPHandler"]
	if !ok {
		b = d.E.It.Nondet("answer of the NaP handler")
		d.chis["NaPHandler"] = b
	}
	return b
}

func (d *feDom) funcModel(it *vg.Interp, st *vg.State, in ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	o := fn
	if g := fn.Origin(); g != nil {
		o = g
	}
	if o.Pkg == nil || !strings.HasSuffix(o.Pkg.Pkg.Path(), "/fieldElements") {
		return nil, false
	}
	if o.Name() == "InitFieldElementFromString" && fn.Signature.Results().Len() == 1 && isFE(fn.Signature.Results().At(0).Type()) {
		s, ok := it.Force(args[0]).(vg.StrV)
		if !ok {
			return nil, false
		}
		x, ok := new(big.Int).SetString(s.S, 0)
		if !ok {
			return nil, false
		}
		return d.val(d.F.Const(x)), true
	}
	return nil, false
}

func (d *feDom) method(it *vg.Interp, st *vg.State, in ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	F := d.F
	ar := func(i int) *feV { return d.load(st, args[i]) }
	set := func(v *feV) (vg.Value, bool) {
		it.Store(st, args[0], v)
		return &vg.TupleV{}, true
	}
	sq := func(v ff.Val) ff.Val { return F.Mul(v, v) }
	scale := func(k int64) func(v ff.Val) ff.Val {
		return func(v ff.Val) ff.Val { return F.Scale(v, big.NewInt(k)) }
	}
	inv := func(x *feV) *feV {
		r := &feV{d: d}
		bad := alg.False
		for _, a := range x.A {
			z := d.zeroIn(a.V, a.C, nil)
			bad = d.E.C.Or(bad, z)
			if ok := d.E.C.And(a.C, d.E.C.Not(z)); ok != alg.False {
				r.add(d.E.C, ok, F.Inv(a.V))
			}
		}
		it.PanicHere(bad, in, "division by zero", fn)
		if len(r.A) == 0 {
			r.add(d.E.C, alg.True, F.ConstI(0))
		}
		return r
	}
	i64 := func(i int) (*big.Int, bool) { return vg.ConstInt(it.Force(args[i])) }
	switch fn.Name() {
	case "Add":
		return set(d.map2(ar(1), ar(2), F.Add))
	case "AddEq":
		return set(d.map2(ar(0), ar(1), F.Add))
	case "Sub":
		return set(d.map2(ar(1), ar(2), F.Sub))
	case "SubEq":
		return set(d.map2(ar(0), ar(1), F.Sub))
	case "Mul":
		return set(d.map2(ar(1), ar(2), F.Mul))
	case "MulEq":
		return set(d.map2(ar(0), ar(1), F.Mul))
	case "Neg":
		return set(d.map1(ar(1), F.Neg))
	case "NegEq":
		return set(d.map1(ar(0), F.Neg))
	case "Square":
		return set(d.map1(ar(1), sq))
	case "SquareEq":
		return set(d.map1(ar(0), sq))
	case "Double":
		return set(d.map1(ar(1), scale(2)))
	case "DoubleEq":
		return set(d.map1(ar(0), scale(2)))
	case "MulFive":
		return set(d.map1(ar(1), scale(5)))
	case "MulEqFive":
		return set(d.map1(ar(0), scale(5)))
	case "Inv":
		return set(inv(ar(1)))
	case "InvEq":
		return set(inv(ar(0)))
	case "Divide":
		return set(d.map2(ar(1), inv(ar(2)), F.Mul))
	case "DivideEq":
		return set(d.map2(ar(0), inv(ar(1)), F.Mul))
	case "SetOne":
		return set(d.k(1))
	case "SetZero":
		return set(d.k(0))
	case "SetUint64", "SetInt64":
		k, ok := i64(1)
		if !ok {
			return nil, false
		}
		return set(d.val(F.Const(k)))
	case "MulInt64", "MulUint64", "AddInt64", "AddUint64", "SubInt64", "SubUint64":
		k, ok := i64(2)
		if !ok {
			return nil, false
		}
		kv := d.val(F.Const(k))
		switch fn.Name()[:3] {
		case "Mul":
			return set(d.map2(ar(1), kv, F.Mul))
		case "Add":
			return set(d.map2(ar(1), kv, F.Add))
		}
		return set(d.map2(ar(1), kv, F.Sub))
	case "SetBigInt":
		k, ok := vg.ConstInt(it.Force(it.Load(st, args[1])))
		if !ok {
			return nil, false
		}
		return set(d.val(F.Const(k)))
	case "SetRandomUnsafe", "SetRandomUnsafeNonZero":
		d.nfresh++
		v := F.Var(fmt.Sprintf("random%d", d.nfresh))
		F.Free(v)
		if fn.Name() == "SetRandomUnsafeNonZero" {
			F.Scaling(v)
		}
		return set(d.val(F.OfVar(v)))
	case "Normalize", "RerandomizeRepresentation":
		return &vg.TupleV{}, true
	case "IsZero":
		return vg.BoolV{B: d.isZero(ar(0))}, true
	case "IsOne":
		return vg.BoolV{B: d.eq(ar(0), d.k(1))}, true
	case "IsEqual":
		return vg.BoolV{B: d.eq(ar(0), ar(1))}, true
	case "CmpAbs":
		x, y := ar(0), ar(1)
		e := d.eq(x, y)
		n := d.isZero(d.map2(x, y, F.Add))
		return &vg.TupleV{E: []vg.Value{vg.BoolV{B: d.E.C.Or(e, n)}, vg.BoolV{B: e}}}, true
	case "Sign", "Jacobi":
		x := ar(0)
		pos, neg := alg.False, alg.False
		c := d.E.C
		for _, a := range x.A {
			nz := c.And(a.C, c.Not(d.zeroIn(a.V, a.C, nil)))
			if nz == alg.False {
				continue
			}
			var b alg.Bdd
			if fn.Name() == "Sign" {
				b = d.signPos(a.V)
			} else {
				b = d.chiPos(a.V)
			}
			pos = c.Or(pos, c.And(nz, b))
			neg = c.Or(neg, c.And(nz, c.Not(b)))
		}
		return d.trit(pos, neg), true
	case "SquareRoot":
		return d.sqrt(it, st, args, set)
	case "String", "Format":
		return vg.OpaqueV{Why: "text of a field element"}, true
	}
	return nil, false // analysed in place
}

func (d *feDom) sqrt(it *vg.Interp, st *vg.State, args []vg.Value, set func(*feV) (vg.Value, bool)) (vg.Value, bool) {
	c := d.E.C
	x := d.load(st, args[1])
	old := d.load(st, args[0])
	r := &feV{d: d}
	ok := alg.False
	for _, a := range x.A {
		z := d.zeroIn(a.V, a.C, nil)
		if z != alg.False {
			ok = c.Or(ok, z)
			r.add(c, z, d.F.ConstI(0))
		}
		nz := c.And(a.C, c.Not(z))
		if nz == alg.False {
			continue
		}
		pos := c.And(nz, d.chiPos(a.V))
		if pos != alg.False {
			s, have := d.F.Sqrt(a.V)
			if !have {
				panic(vg.Undecided{Msg: d.E.Name + ": square root of " + d.F.String(a.V)})
			}
			ok = c.Or(ok, pos)
			g := it.Nondet("root")
			r.add(c, c.And(pos, g), s)
			r.add(c, c.And(pos, c.Not(g)), d.F.Neg(s))
		}
		neg := c.And(nz, c.Not(pos))
		if neg != alg.False {
			for _, o := range old.A {
				r.add(c, c.And(neg, o.C), o.V)
			}
		}
	}
	set(r)
	return vg.BoolV{B: ok}, true
}
