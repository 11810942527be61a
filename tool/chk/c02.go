package chk

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C02", Level: "proof", Technique: techFF, F: runC02,
		Note: "Equality, neutral element, infinity and subgroup queries and the setters of special points: exact answers for every class of points, every representation and pair of types."})
	register(&Property{ID: "C03", Level: "proof", Technique: techFF, F: runC03,
		Note: "The endomorphism: agrees with the closed formula on the whole curve (both torsion and infinite points), for every representation, type and aliasing pattern."})
}

// one is a single-operand situation.
type one struct {
	*crv
	t  ptype
	n  *types.Named
	g  gclass
	q  mpt // stored point
	m  mpt // meant point
	p  vg.Value
	fn *ssa.Function
}

// meant tells which torsion point or coset is meant.
func meantT(t ptype, g gclass) int {
	if t.sub && (g.t == tA) {
		return tN
	}
	return g.t
}

// each runs f for every class of points of every type that has the method.
func (r *Run) each(rule, method string, ts []ptype, tags bool, optional bool, f func(o *one)) {
	found := false
	for _, t := range ts {
		t := t
		n := r.ptNamed(t)
		if n == nil {
			r.ptFn(rule, t, method)
			continue
		}
		if fn := r.ptMethod(n, method); fn == nil {
			if !optional {
				r.ptFn(rule, t, method)
			}
			continue
		}
		found = true
		r.Go(rule, t.name+"."+method, func() {
			fn := r.ptFn(rule, t, method)
			for _, g := range classesOf(t, tags) {
				name := fmt.Sprintf("%s.%s.%s on %s", curvePkg, t.name, method, g)
				c := r.newCrv(rule, name, fn)
				func() {
					defer c.recover()
					defer c.Done()
					q := c.point(g)
					o := &one{crv: c, t: t, n: n, g: g, q: q, m: c.meaning(t, g, q), fn: fn}
					o.p = c.newPoint(t, n, "point", c.coords(t.k, q, "1"))
					f(o)
				}()
			}
		})
	}
	if !found {
		r.Ok(rule, curvePkg+" "+method, 0, "anchor resolves", false, "no type has the method")
	}
}

// call runs a method with the point as receiver.
func (o *one) call(args ...vg.Value) ([]vg.Value, alg.Bdd) {
	return o.It.Call(o.St, o.fn, append([]vg.Value{o.p}, args...), nil)
}

// method calls another method of the point.
func (o *one) method(name string, args ...vg.Value) ([]vg.Value, alg.Bdd) {
	fn := o.R.ptMethod(o.n, name)
	if fn == nil {
		panic(vg.Undecided{Msg: o.t.name + " has no method " + name})
	}
	return o.It.Call(o.St, fn, append([]vg.Value{o.p}, args...), nil)
}

// same demands that the point still stands for the same curve point.
func (o *one) same(ret alg.Bdd) {
	o.must("the point still stands for the same curve point", ret, o.stands(o.t, o.read(o.t, o.n, o.p), o.m))
}

// fine demands a normal return without panics.
func (o *one) fine(ret alg.Bdd) {
	o.noPanic()
	o.must("returns", o.C.Not(ret), alg.False)
}

// answer demands a definite boolean result.
func (c *crv) answer(what string, ret alg.Bdd, v vg.Value, want bool) {
	b := c.Cond(v)
	if !want {
		b = c.C.Not(b)
	}
	c.must(fmt.Sprintf("%s is %v", what, want), ret, b)
}

func runC02(r *Run) {
	const rule = "point-queries"
	q := func(method string, optional, tags bool, want func(o *one) bool) {
		r.each(rule, method, ptypes, tags, optional, func(o *one) {
			res, ret := o.call()
			o.fine(ret)
			o.answer(method, ret, res[0], want(o))
			o.same(ret)
		})
	}
	isT := func(ts ...int) func(o *one) bool {
		return func(o *one) bool {
			for _, t := range ts {
				if !o.g.gen && meantT(o.t, o.g) == t {
					return true
				}
			}
			return false
		}
	}
	q("IsNeutralElement", false, false, isT(tN))
	q("IsAtInfinity", false, false, isT(tE1, tE2))
	q("IsE1", true, false, isT(tE1))
	q("IsE2", true, false, isT(tE2))
	q("IsNaP", false, false, func(o *one) bool { return false })
	q("IsInSubgroup", false, true, func(o *one) bool { return meantT(o.t, o.g) == tN })
	q("Validate", true, true, func(o *one) bool { return true })
	q("CanOnlyRepresentSubgroup", false, false, func(o *one) bool { return o.t.sub })
	q("CanRepresentInfinity", false, false, func(o *one) bool { return !o.t.sub && o.t.k != cAXTW })
	set := func(method string, ts []ptype, t int) {
		r.each(rule, method, ts, false, true, func(o *one) {
			_, ret := o.call()
			o.fine(ret)
			o.must("the point is "+torsName[t], ret, o.stands(o.t, o.read(o.t, o.n, o.p), o.torsion(t)))
		})
	}
	full := ptypes[:3]
	set("SetNeutral", ptypes, tN)
	set("SetAffineTwoTorsion", full, tA)
	set("SetE1", full, tE1)
	set("SetE2", full, tE2)
	r.each(rule, "Clone", ptypes, false, false, func(o *one) {
		res, ret := o.call()
		o.fine(ret)
		v := o.It.Force(res[0])
		i, ok := v.(vg.IfaceV)
		if !ok {
			o.Fail("result is a point", o.It.Describe(v))
			return
		}
		o.Bool("the copy has the same type", types.Identical(i.T, types.NewPointer(o.n)), i.T.String())
		p, ok := o.It.Force(i.V).(vg.PtrV)
		if !ok {
			o.Fail("the copy is a pointer", o.It.Describe(i.V))
			return
		}
		o.Bool("the copy does not share memory with the original", p.O != o.p.(vg.PtrV).O, "the receiver itself is returned")
		o.must("the copy stands for the same point", ret, o.stands(o.t, o.read(o.t, o.n, p), o.m))
		o.same(ret)
	})
	for _, a := range ptypes {
		for _, b := range ptypes {
			a, b := a, b
			r.Go(rule, a.name+".IsEqual("+b.name+")", func() { r.equality(rule, a, b) })
		}
	}
}

// equal tells whether the meant points of a combination are equal.
func (k combo) equal(a, b ptype) bool {
	g, h := k.g[0], k.g[1]
	if g.gen != h.gen {
		return false
	}
	if !g.gen {
		return meantT(a, g) == meantT(b, h)
	}
	if k.r.sign != 1 {
		return false // 2P would be a 2-torsion point; there are no points of order 4
	}
	t := k.r.t
	if a.sub && g.t == tA {
		t = torsAdd(t, tA)
	}
	if b.sub && h.t == tA {
		t = torsAdd(t, tA)
	}
	return t == tN
}

func (r *Run) equality(rule string, a, b ptype) {
	fn := r.ptFn(rule, a, "IsEqual")
	na, nb := r.ptNamed(a), r.ptNamed(b)
	if fn == nil || na == nil || nb == nil {
		return
	}
	for _, k := range combos(a, b) {
		for _, same := range []bool{false, true} {
			if same && (a != b || k.g[0] != k.g[1] || k.g[0].gen && k.r != rel{1, tN}) {
				continue
			}
			al := ""
			if same {
				al = " [same variable]"
			}
			c := r.newCrv(rule, fmt.Sprintf("%s.%s.IsEqual(%s): %s%s", curvePkg, a.name, b.name, k, al), fn)
			func() {
				defer c.recover()
				defer c.Done()
				p, q := c.operands(k)
				pv := c.newPoint(a, na, "first", c.coords(a.k, p, "1"))
				qv := pv
				if !same {
					qv = c.newPoint(b, nb, "second", c.coords(b.k, q, "2"))
				}
				res, ret := c.It.Call(c.St, fn, []vg.Value{pv, iface(nb, qv)}, nil)
				c.noPanic()
				c.must("returns", c.C.Not(ret), alg.False)
				c.answer("IsEqual", ret, res[0], k.equal(a, b))
				c.must("the first operand still stands for the same point", ret, c.stands(a, c.read(a, na, pv), c.meaning(a, k.g[0], p)))
				c.must("the second operand still stands for the same point", ret, c.stands(b, c.read(b, nb, qv), c.meaning(b, k.g[1], q)))
			}()
		}
	}
}

// endo is the endomorphism of the curve.
func (c *crv) endo(p mpt, g gclass) mpt {
	if !g.gen {
		if g.t == tN || g.t == tA {
			return c.torsion(tN)
		}
		return c.torsion(tA)
	}
	F := c.F
	x := F.Mul(p.X0, F.Inv(p.X1))
	y := F.Mul(p.Y0, F.Inv(p.Y1))
	yy := F.Mul(y, y)
	b := c.k(endoB)
	var o mpt
	o.X0, o.X1 = c.pick("endomorphism x", [2]ff.Val{F.Scale(F.Sub(c.ki(1), yy), endoC), F.Mul(x, y)})
	o.Y0, o.Y1 = c.pick("endomorphism y", [2]ff.Val{F.Scale(F.Add(yy, b), endoB), F.Sub(yy, b)})
	return o
}

func runC03(r *Run) {
	const rule = "endomorphism"
	for _, o := range []op{{name: "Endo", ar: 1}, {name: "EndoEq", eq: true}} {
		for _, recv := range ptypes {
			o := o
			o.fg = func(c *crv, a []mpt, g gclass) mpt { return c.endo(a[0], g) }
			r.unary(rule, o, recv)
		}
	}
}
