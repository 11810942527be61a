package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

const curvePkg = "bandersnatch/curvePoints"

// Parameters of the curve a x^2 + y^2 = 1 + d x^2 y^2 and of its endomorphism.
var (
	curveA = big.NewInt(-5)
	curveD = mustBig("0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7")
	curveR = mustBig("37446463827641770816307242315180085052603635617490163568005256780843403514038") // sqrt(d/a)
	endoB  = mustBig("0x52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4")
	endoC  = mustBig("0x6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d")
)

// coordinate systems
const (
	cXTW = iota
	cAXTW
	cEFGH
)

// ptype is an exported curve point type.
type ptype struct {
	name string
	k    int
	sub  bool
}

var ptypes = []ptype{
	{"Point_xtw_full", cXTW, false}, {"Point_axtw_full", cAXTW, false}, {"Point_efgh_full", cEFGH, false},
	{"Point_xtw_subgroup", cXTW, true}, {"Point_axtw_subgroup", cAXTW, true}, {"Point_efgh_subgroup", cEFGH, true},
}

var coordNames = [][]string{{"x", "y", "z", "t"}, {"x", "y", "t"}, {"e", "f", "g", "h"}}

// mpt is a point of the curve on P1 x P1: x = X0/X1, y = Y0/Y1.
type mpt struct{ X0, X1, Y0, Y1 ff.Val }

// cosets of the prime order subgroup (and names of the 2-torsion points)
const (
	tN = iota
	tA
	tE1
	tE2
)

var torsName = []string{"N", "A", "E1", "E2"}

func torsAdd(a, b int) int { return a ^ b } // Klein four group: N=0 A=1 E1=2 E2=3

// gclass is the class of the stored coordinates of one operand.
type gclass struct {
	gen  bool // generic point (x, y nonzero and finite); else a torsion point
	t    int  // torsion point, or coset of the generic point if tag
	tag  bool
	desc string
}

func (g gclass) String() string {
	if g.gen {
		if g.tag {
			return "P+" + torsName[g.t]
		}
		return "P"
	}
	return torsName[g.t]
}

// classes of stored coordinates valid for a type.
func classesOf(t ptype, tags bool) []gclass {
	if t.sub {
		return []gclass{{t: tN}, {t: tA}, {gen: true, t: tN, tag: true}, {gen: true, t: tA, tag: true}}
	}
	cs := []gclass{{t: tN}, {t: tA}}
	if t.k != cAXTW {
		cs = append(cs, gclass{t: tE1}, gclass{t: tE2})
	}
	if tags {
		for i := 0; i < 4; i++ {
			cs = append(cs, gclass{gen: true, t: i, tag: true})
		}
	} else {
		cs = append(cs, gclass{gen: true})
	}
	return cs
}

// crv is one analysis context for curve points.
type crv struct {
	*Env
	d    *feDom
	F    *ff.Ctx
	tags map[int]int // pair -> coset
	vars map[int]ff.Val
	n    int
}

func (r *Run) newCrv(rule, name string, fn *ssa.Function) *crv {
	e := r.NewEnv(rule, name, fn)
	d := newFE(e)
	c := &crv{Env: e, d: d, F: d.F, tags: map[int]int{}}
	d.F.Excl = func(pair int, x, y *big.Int) bool {
		if x.Sign() == 0 || y.Sign() == 0 {
			return true
		}
		if t, ok := c.tags[pair]; ok {
			return cosetOf(x, y) != t
		}
		return false
	}
	return c
}

// cosetOf determines the coset of an affine point with x != 0 by the
// characters of 1 - a x^2 and (1-y)(1-ry).
func cosetOf(x, y *big.Int) int {
	p := Pbase
	md := func(z *big.Int) *big.Int { return z.Mod(z, p) }
	one := big.NewInt(1)
	a := md(bsub(one, bmul(curveA, bmul(x, x))))
	g := md(bmul(bsub(one, y), bsub(one, bmul(curveR, y))))
	ca, cg := big.Jacobi(a, p), big.Jacobi(g, p)
	switch {
	case ca == 1 && cg == -1:
		return tN
	case ca == 1 && cg == 1:
		return tA
	case ca == -1 && cg == -1:
		return tE1
	}
	return tE2
}

func (c *crv) k(x *big.Int) ff.Val { return c.F.Const(x) }
func (c *crv) ki(x int64) ff.Val   { return c.F.ConstI(x) }

// torsion gives a 2-torsion point.
func (c *crv) torsion(t int) mpt {
	switch t {
	case tN:
		return mpt{c.ki(0), c.ki(1), c.ki(1), c.ki(1)}
	case tA:
		return mpt{c.ki(0), c.ki(1), c.ki(-1), c.ki(1)}
	case tE1:
		return mpt{c.ki(1), c.ki(0), c.ki(1), c.k(curveR)}
	}
	return mpt{c.ki(1), c.ki(0), c.ki(-1), c.k(curveR)}
}

// generic makes a fresh generic point.
func (c *crv) generic(g gclass) mpt {
	c.n++
	x, y := c.F.Var(fmt.Sprintf("x%d", c.n)), c.F.Var(fmt.Sprintf("y%d", c.n))
	c.F.CurvePair(x, y)
	if g.tag {
		c.tags[c.n-1] = g.t
		X, Y := c.F.OfVar(x), c.F.OfVar(y)
		s := []int{1, 1, -1, -1}[g.t]
		c.setChi(c.F.Add(c.ki(1), c.F.Scale(c.F.Mul(X, X), big.NewInt(5))), s)
		c.setChi(c.gpoly(Y), []int{-1, 1, -1, 1}[g.t])
		c.setChi(c.gpoly(c.F.Neg(Y)), []int{1, -1, 1, -1}[g.t])
	}
	return mpt{c.F.OfVar(x), c.ki(1), c.F.OfVar(y), c.ki(1)}
}

// gpoly is (1-y)(1-ry).
func (c *crv) gpoly(y ff.Val) ff.Val {
	F := c.F
	return F.Add(F.Sub(F.Scale(F.Mul(y, y), curveR), F.Scale(y, badd(curveR, bi(1)))), c.ki(1))
}

func (c *crv) setChi(v ff.Val, s int) {
	num, _ := c.F.Expand(v)
	c.F.SetChi(num, s)
}

func (c *crv) addUnit(v ff.Val) {
	num, _ := c.F.Expand(v)
	c.F.AddUnit(num)
}

func (c *crv) negP(p mpt) mpt { return mpt{c.F.Neg(p.X0), p.X1, p.Y0, p.Y1} }

// plusT adds a 2-torsion point.
func (c *crv) plusT(p mpt, t int) mpt {
	F := c.F
	ar := bmul(curveA, curveR)
	switch t {
	case tA:
		return mpt{F.Neg(p.X0), p.X1, F.Neg(p.Y0), p.Y1}
	case tE1:
		return mpt{p.X1, F.Scale(p.X0, ar), p.Y1, F.Scale(p.Y0, curveR)}
	case tE2:
		return c.plusT(c.plusT(p, tE1), tA)
	}
	return p
}

// point gives the stored point of a class.
func (c *crv) point(g gclass) mpt {
	if g.gen {
		return c.generic(g)
	}
	return c.torsion(g.t)
}

// pick chooses between two projective values by non-degeneracy.
func (c *crv) pick(what string, a ...[2]ff.Val) (ff.Val, ff.Val) {
	for _, q := range a {
		if c.F.Unit(q[0]) || c.F.Unit(q[1]) {
			return q[0], q[1]
		}
	}
	panic(vg.Undecided{Msg: c.Name + ": cannot evaluate the group law (" + what + "): " + c.F.String(a[0][0]) + " : " + c.F.String(a[0][1])})
}

// add is the complete addition law of the curve on P1 x P1 (Bernstein, Lange).
func (c *crv) add(p, q mpt) mpt {
	F := c.F
	m := func(v ...ff.Val) ff.Val {
		r := v[0]
		for _, w := range v[1:] {
			r = F.Mul(r, w)
		}
		return r
	}
	X1, Z1, Y1, T1 := p.X0, p.X1, p.Y0, p.Y1
	X2, Z2, Y2, T2 := q.X0, q.X1, q.Y0, q.Y1
	var o mpt
	zzTT, dXXYY := m(Z1, Z2, T1, T2), F.Scale(m(X1, X2, Y1, Y2), curveD)
	xyN := F.Add(m(X1, Y2, Z2, T1), m(X2, Y1, Z1, T2))
	xyS := F.Sub(m(X1, Y2, Z2, T1), m(X2, Y1, Z1, T2))
	aN, aS := m(X1, Y1, Z2, T2), m(X2, Y2, Z1, T1)
	yy, axx := m(Y1, Y2, Z1, Z2), F.Scale(m(X1, X2, T1, T2), curveA)
	o.X0, o.X1 = c.pick("x", [2]ff.Val{xyN, F.Add(zzTT, dXXYY)}, [2]ff.Val{F.Add(aN, aS), F.Add(axx, yy)})
	o.Y0, o.Y1 = c.pick("y", [2]ff.Val{F.Sub(yy, axx), F.Sub(zzTT, dXXYY)}, [2]ff.Val{F.Sub(aN, aS), xyS})
	return o
}

// scaling is a fresh nonzero field element.
func (c *crv) scaling(name string) ff.Val {
	v := c.F.Var(name)
	c.F.Scaling(v)
	return c.F.OfVar(v)
}

// segre is (x:y:z:t) with x = X0/X1, y = Y0/Y1, t = x y.
func (c *crv) segre(p mpt) [4]ff.Val {
	F := c.F
	return [4]ff.Val{F.Mul(p.X0, p.Y1), F.Mul(p.X1, p.Y0), F.Mul(p.X1, p.Y1), F.Mul(p.X0, p.Y0)}
}

// coords gives coordinates of a point in a system, with arbitrary scaling.
func (c *crv) coords(k int, p mpt, name string) []ff.Val {
	F := c.F
	switch k {
	case cXTW:
		s := c.scaling("Z" + name)
		v := c.segre(p)
		return []ff.Val{F.Mul(v[0], s), F.Mul(v[1], s), F.Mul(v[2], s), F.Mul(v[3], s)}
	case cAXTW:
		if p.X1.IsZero() || p.Y1.IsZero() {
			panic("affine coordinates of an infinite point")
		}
		x, y := F.Mul(p.X0, F.Inv(p.X1)), F.Mul(p.Y0, F.Inv(p.Y1))
		return []ff.Val{x, y, F.Mul(x, y)}
	}
	s, t := c.scaling("G"+name), c.scaling("F"+name)
	return []ff.Val{F.Mul(p.X0, s), F.Mul(p.Y1, t), F.Mul(p.X1, s), F.Mul(p.Y0, t)}
}

// isRep is the condition for coordinates to represent a point.
func (c *crv) isRep(k int, f []*feV, p mpt) alg.Bdd {
	d := c.d
	acc := alg.True
	and := func(b alg.Bdd) { acc = c.C.And(acc, b) }
	mulv := func(x *feV, v ff.Val) *feV { return d.map1(x, func(w ff.Val) ff.Val { return c.F.Mul(v, w) }) }
	prop := func(f []*feV, s []ff.Val) {
		for i := range s {
			if !c.F.Unit(s[i]) {
				continue
			}
			and(c.C.Not(d.isZero(f[i])))
			for j := range s {
				if j != i {
					and(d.eq(mulv(f[j], s[i]), mulv(f[i], s[j])))
				}
			}
			return
		}
		panic(vg.Undecided{Msg: c.Name + ": no coordinate of the expected point is known to be nonzero"})
	}
	s := c.segre(p)
	switch k {
	case cXTW:
		prop(f, s[:])
	case cAXTW:
		prop([]*feV{f[0], f[1], d.k(1), f[2]}, s[:])
	default:
		prop([]*feV{f[0], f[2]}, []ff.Val{p.X0, p.X1})
		prop([]*feV{f[3], f[1]}, []ff.Val{p.Y0, p.Y1})
	}
	return acc
}

// feFields lists the paths of the field element coordinates of a point type.
func feFields(t types.Type) (names []string, path [][]int) {
	var rec func(t types.Type, p []int, nm string)
	rec = func(t types.Type, p []int, nm string) {
		if isFE(t) {
			names = append(names, nm)
			path = append(path, append([]int{}, p...))
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				rec(s.Field(i).Type(), append(append([]int{}, p...), i), s.Field(i).Name())
			}
		}
	}
	rec(t, nil, "")
	return
}

// order maps coordinates to positions among the fields.
func coordOrder(k int, names []string) []int {
	want := coordNames[k]
	o := make([]int, len(want))
	if len(names) != len(want) {
		return nil
	}
	for i, w := range want {
		o[i] = -1
		for j, n := range names {
			if strings.EqualFold(n, w) {
				o[i] = j
			}
		}
		if o[i] < 0 {
			for i := range o {
				o[i] = i
			}
			return o
		}
	}
	return o
}

// ptNamed resolves a point type.
func (r *Run) ptNamed(t ptype) *types.Named {
	tt := r.P.Type(curvePkg, t.name)
	if tt == nil {
		return nil
	}
	n, _ := types.Unalias(tt).(*types.Named)
	return n
}

// NewPoint allocates a point with the given coordinates.
func (c *crv) newPoint(t ptype, n *types.Named, name string, f []ff.Val) vg.Value {
	v := c.It.Zero(n)
	names, paths := feFields(n)
	o := coordOrder(t.k, names)
	if o == nil {
		panic(vg.Undecided{Msg: t.name + ": unknown representation"})
	}
	for i, x := range f {
		v = setPath(c.It, v, paths[o[i]], c.d.val(x))
	}
	return c.It.NewObj(c.St, name, n, v)
}

func setPath(it *vg.Interp, v vg.Value, p []int, x vg.Value) vg.Value {
	if len(p) == 0 {
		return x
	}
	a := it.Force(v).(*vg.AggV)
	b := &vg.AggV{E: append([]vg.Value{}, a.E...)}
	b.E[p[0]] = setPath(it, a.E[p[0]], p[1:], x)
	return b
}

// read gives the coordinates of a point value.
func (c *crv) readVal(t ptype, n types.Type, v vg.Value) []*feV {
	names, paths := feFields(n)
	o := coordOrder(t.k, names)
	var out []*feV
	for i := range coordNames[t.k] {
		w := v
		for _, j := range paths[o[i]] {
			w = c.It.Force(w)
			w = c.elem(w, j)
		}
		out = append(out, c.d.conv(w))
	}
	return out
}

func (c *crv) elem(w vg.Value, j int) vg.Value {
	switch x := w.(type) {
	case *vg.AggV:
		return x.E[j]
	case *vg.ChoiceV:
		var al []vg.ChoiceAlt
		for _, a := range x.A {
			al = append(al, vg.ChoiceAlt{C: a.C, V: c.elem(c.It.Force(a.V), j)})
		}
		return c.It.Merge(al)
	}
	panic(vg.Undecided{Msg: c.Name + ": not a point: " + c.It.Describe(w)})
}

func (c *crv) read(t ptype, n types.Type, p vg.Value) []*feV {
	return c.readVal(t, n, c.It.Load(c.St, p))
}

// junk is a point with arbitrary coordinates.
func (c *crv) junk(t ptype, name string) []ff.Val {
	var out []ff.Val
	for _, n := range coordNames[t.k] {
		v := c.F.Var(name + "_" + n)
		c.F.Free(v)
		out = append(out, c.F.OfVar(v))
	}
	return out
}

// stands tells whether stored coordinates stand for point p under the rules of the type.
func (c *crv) stands(t ptype, f []*feV, p mpt) alg.Bdd {
	b := c.isRep(t.k, f, p)
	if t.sub {
		b = c.C.Or(b, c.isRep(t.k, f, c.plusT(p, tA)))
	}
	return b
}

// meaning is the point that stored coordinates of a class stand for.
func (c *crv) meaning(t ptype, g gclass, q mpt) mpt {
	if t.sub && g.t == tA {
		return c.plusT(q, tA)
	}
	return q
}

// method resolves a method of *T.
func (r *Run) ptMethod(n *types.Named, name string) *ssa.Function {
	sel := r.P.SSA.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return r.P.SSA.MethodValue(sel)
}

// must demands that ok holds under cond (a purely propositional fact).
func (c *crv) must(what string, cond, ok alg.Bdd) bool {
	bad := c.C.And(c.C.And(cond, c.Pre), c.C.Not(ok))
	if bad != alg.False {
		bad = c.d.feasible(bad)
	}
	det := ""
	if bad != alg.False {
		det = "fails when " + c.C.BddString(bad)
		if len(det) > 600 {
			det = det[:600] + "..."
		}
	}
	return c.Bool(what, bad == alg.False, det)
}

// noPanic demands that no panic is reachable and no handler for invalid points is called.
func (c *crv) noPanic() {
	for _, p := range c.It.Panics {
		c.must("no panic: "+p.Why+" in "+shortFn(p.Fn), p.Cond, alg.False)
	}
	c.must("valid operands are not reported as invalid points", c.d.nap, alg.False)
}

// iface wraps a pointer to a named type as an interface value.
func iface(n *types.Named, p vg.Value) vg.Value {
	return vg.IfaceV{T: types.NewPointer(n), V: p}
}
