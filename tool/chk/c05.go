package chk

import (
	"fmt"
	"math"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C05", Level: "proof", Technique: techFF, F: runC05,
		Note: "Constructing points from field elements and mapping points to field elements: every class of coordinates on the curve (all cosets of the subgroup, both signs), off the curve, arbitrary coordinates, valid and invalid signs, trusted and untrusted."})
}

const bErr = "bandersnatch/bandersnatchErrors"

// ctor is one analysed call of a point constructor.
type ctor struct {
	*crv
	fn   *ssa.Function
	t    ptype
	in   []ff.Val
	objs []vg.Value
	pt   []ff.Val
}

// build calls a constructor with field elements, an optional sign and a trust level.
func (r *Run) build(rule, name, desc string, sub bool, sign *int64, trusted bool, prep func(c *ctor) []ff.Val, check func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd)) {
	t := ptypes[1]
	if sub {
		t = ptypes[4]
	}
	d := desc
	if sign != nil {
		d += fmt.Sprintf(", sign %d", *sign)
	}
	r.Go(rule, name+" "+d, func() {
		fn := r.Find(rule, curvePkg, name)
		n := r.ptNamed(t)
		if fn == nil || n == nil {
			return
		}
		c := &ctor{crv: r.newCrv(rule, fmt.Sprintf("%s.%s (trusted: %v): %s", curvePkg, name, trusted, d), fn), fn: fn, t: t}
		defer c.recover()
		defer c.Done()
		c.in = prep(c)
		ps := fn.Signature.Params()
		want := len(c.in) + 1
		if sign != nil {
			want++
		}
		if ps.Len() != want || fn.Signature.Results().Len() != 2 {
			c.Fail("anchor resolves", "unexpected signature "+fn.Signature.String())
			return
		}
		var args []vg.Value
		for i, v := range c.in {
			o := c.It.NewObj(c.St, ps.At(i).Name(), Elem(ps.At(i).Type()), c.d.val(v))
			c.objs = append(c.objs, o)
			args = append(args, o)
		}
		if sign != nil {
			args = append(args, vg.KInt(*sign, 64, true))
		}
		args = append(args, c.trustV(trusted))
		res, ret := c.It.Call(c.St, fn, args, nil)
		c.noPanic()
		c.must("returns", c.C.Not(ret), alg.False)
		if len(res) == 0 {
			return
		}
		for i, o := range c.objs {
			c.must("the argument "+ps.At(i).Name()+" is not modified", ret, c.d.eqVal(c.d.load(c.St, o), c.in[i]))
		}
		ok := c.C.And(ret, c.NilErr(res[1]))
		check(c, c.readVal(t, n, res[0]), res[1], ok)
	})
}

func (c *ctor) accept(pt []*feV, err vg.Value, ok alg.Bdd, cond alg.Bdd, p mpt) {
	c.must("valid input is accepted", cond, ok)
	c.must("the result is the point described", c.C.And(cond, ok), c.stands(c.t, pt, p))
}

func (c *ctor) reject(err vg.Value, ok alg.Bdd, cond alg.Bdd, errs ...string) {
	c.must("invalid input is rejected", c.C.And(cond, ok), alg.False)
	acc := alg.False
	for _, e := range errs {
		acc = c.C.Or(acc, c.IsErr(err, bErr, e))
	}
	c.must(fmt.Sprint("the error is ", errs), c.C.And(cond, c.C.Not(ok)), acc)
}

// free is an arbitrary field element.
func (c *crv) free(name string) ff.Val {
	v := c.F.Var(name)
	c.F.Free(v)
	return c.F.OfVar(v)
}

// affClasses are the finite points, with cosets.
func affClasses() (out []gclass) {
	for _, g := range classesOf(ptypes[0], true) {
		if g.gen || g.t == tN || g.t == tA {
			out = append(out, g)
		}
	}
	return
}

// pos is the condition for a value to have positive sign (false for 0).
func (c *crv) pos(v ff.Val) alg.Bdd {
	if v.IsZero() {
		return alg.False
	}
	return c.d.signPos(v)
}

func runC05(r *Run) {
	const rule = "from-coordinates"
	xy := func(c *crv, p mpt) (x, y ff.Val) { w := c.affine(p); return w[0], w[1] }
	sgn := func(s int64) *int64 { return &s }
	bad := []int64{2, -2, 3, math.MaxInt64, math.MinInt64}

	r.each(rule, "IsNaP", ptypes, false, false, func(o *one) { // one per class of points
		fn := o.R.Find(rule, curvePkg, "MapToFieldElement")
		if fn == nil {
			return
		}
		o.Name = fmt.Sprintf("%s.MapToFieldElement on %s of type %s", curvePkg, o.g, o.t.name)
		res, ret := o.It.Call(o.St, fn, []vg.Value{iface(o.n, o.p)}, nil)
		if o.infinite(o.m) {
			o.must("points at infinity are refused", ret, alg.False)
			return
		}
		o.fine(ret)
		w := o.affine(o.m)
		o.must("the result is X/Y", ret, o.d.eqVal(o.d.conv(res[0]), o.F.Mul(w[0], o.F.Inv(w[1]))))
		o.same(ret)
	})

	for _, g := range affClasses() {
		g := g
		in := g.t == tN
		for _, tr := range []bool{false, true} {

			prepXY := func(c *ctor) []ff.Val { x, y := xy(c.crv, c.point(g)); return []ff.Val{x, y} }

			// both coordinates
			r.build(rule, "CurvePointFromXYAffine_full", "coordinates of "+g.String(), false, nil, tr, prepXY,
				func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
					c.accept(pt, err, ok, alg.True, c.given())
				})
			if in || !tr {
				r.build(rule, "CurvePointFromXYAffine_subgroup", "coordinates of "+g.String(), true, nil, tr, prepXY,
					func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
						if in {
							c.accept(pt, err, ok, alg.True, c.given())
						} else {
							c.reject(err, ok, alg.True, "ErrNotInSubgroup")
						}
					})
			}
			// x and the sign of y
			for _, s := range []int64{1, -1} {
				s := s
				flipped := func(c *ctor, y ff.Val) alg.Bdd { // y has the wrong sign
					b := c.pos(y)
					if s > 0 {
						b = c.C.Not(b)
					}
					return b
				}
				prepX := func(c *ctor) []ff.Val {
					p := c.point(g)
					x, y := xy(c.crv, p)
					c.objs0(x, y)
					return []ff.Val{x}
				}
				r.build(rule, "CurvePointFromXAndSignY_full", "x of "+g.String(), false, sgn(s), tr, prepX,
					func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
						x, y := c.xy()
						w := flipped(c, y)
						c.accept(pt, err, ok, c.C.Not(w), c.finite(x, y))
						c.accept(pt, err, ok, w, c.finite(x, c.F.Neg(y)))
					})
				if !tr {
					r.build(rule, "CurvePointFromXAndSignY_subgroup", "x of "+g.String(), true, sgn(s), tr, prepX,
						func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
							x, y := c.xy()
							w := flipped(c, y)
							errs := []string{"ErrNotInSubgroup", "ErrXNotInSubgroup"}
							switch g.t {
							case tN: // (x,-y) is A - P
								c.accept(pt, err, ok, c.C.Not(w), c.finite(x, y))
								c.reject(err, ok, w, errs...)
							case tA:
								c.accept(pt, err, ok, w, c.finite(x, c.F.Neg(y)))
								c.reject(err, ok, c.C.Not(w), errs...)
							default:
								c.reject(err, ok, alg.True, errs...)
							}
						})
				}
			}
			// y and the sign of x
			for _, s := range []int64{1, 0, -1} {
				s := s
				prepY := func(c *ctor) []ff.Val {
					p := c.point(g)
					x, y := xy(c.crv, p)
					c.objs0(x, y)
					return []ff.Val{y}
				}
				fits := func(c *ctor) (alg.Bdd, alg.Bdd) { // (x,y) fits, (-x,y) fits
					x, _ := c.xy()
					if x.IsZero() {
						return alg.True, alg.True
					}
					b := c.pos(x)
					switch {
					case s == 0:
						return alg.False, alg.False
					case s < 0:
						b = c.C.Not(b)
					}
					return b, c.C.Not(b)
				}
				if s != 0 || !g.gen || !tr {
					r.build(rule, "CurvePointFromYAndSignX_full", "y of "+g.String(), false, sgn(s), tr, prepY,
						func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
							x, y := c.xy()
							f, n := fits(c)
							c.accept(pt, err, ok, f, c.finite(x, y))
							c.accept(pt, err, ok, n, c.finite(c.F.Neg(x), y))
							c.reject(err, ok, c.C.Not(c.C.Or(f, n)), "ErrInvalidZeroSignX")
						})
				}
				if !tr || in && (s != 0 || !g.gen) {
					r.build(rule, "CurvePointFromYAndSignX_subgroup", "y of "+g.String(), true, sgn(s), tr, prepY,
						func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
							x, y := c.xy()
							f, n := fits(c)
							if in { // (-x,y) is -P
								c.accept(pt, err, ok, f, c.finite(x, y))
								c.accept(pt, err, ok, n, c.finite(c.F.Neg(x), y))
							} else {
								c.reject(err, ok, c.C.Or(f, n), "ErrNotInSubgroup")
							}
							c.reject(err, ok, c.C.Not(c.C.Or(f, n)), "ErrInvalidZeroSignX")
						})
				}
			}
			// x sign(y)
			r.build(rule, "CurvePointFromXTimesSignY_subgroup", "x of "+g.String(), true, nil, tr && (in || g.t == tA), func(c *ctor) []ff.Val {
				x, y := xy(c.crv, c.point(g))
				c.objs0(x, y)
				return []ff.Val{x}
			}, func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
				x, y := c.xy()
				if g.t != tN && g.t != tA {
					c.reject(err, ok, alg.True, "ErrXNotInSubgroup")
					return
				}
				// the point with x sign(y) equal to the argument is (x,y) or (x,-y), up to A
				w := c.pos(y)
				c.accept(pt, err, ok, w, c.finite(x, y))
				c.accept(pt, err, ok, c.C.Not(w), c.finite(x, c.F.Neg(y)))
			})
			// x sign(y), y sign(y)
			for _, swap := range []bool{false, true} {
				name := "CurvePointFromXYTimesSignY_subgroup"
				if swap {
					name = "CurvePointFromYXTimesSignY_subgroup"
				}
				swap := swap
				if tr && !(in || g.t == tA) {
					continue
				}
				r.build(rule, name, "coordinates of "+g.String(), true, nil, tr, func(c *ctor) []ff.Val {
					x, y := xy(c.crv, c.point(g))
					c.objs0(x, y)
					if swap {
						return []ff.Val{y, x}
					}
					return []ff.Val{x, y}
				}, func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
					x, y := c.xy()
					p := c.pos(y)
					if !tr {
						c.reject(err, ok, c.C.Not(p), "ErrWrongSignY")
					}
					if in || g.t == tA {
						c.accept(pt, err, ok, p, c.finite(x, y))
					} else {
						c.reject(err, ok, p, "ErrNotInSubgroup")
					}
				})
			}
		}
	}
	// arbitrary coordinates
	freeXY := func(c *ctor) []ff.Val { return []ff.Val{c.free("x"), c.free("y")} }
	curve := func(c *ctor, x, y ff.Val) alg.Bdd {
		F := c.F
		sq := func(v ff.Val) ff.Val { return F.Mul(v, v) }
		t := F.Mul(x, y)
		e := F.Sub(F.Add(F.Scale(sq(x), curveA), sq(y)), F.Add(F.ConstI(1), F.Scale(sq(t), curveD)))
		return c.d.isZero(c.d.val(e))
	}
	coords := func(c *ctor, pt []*feV, x, y ff.Val) alg.Bdd {
		return c.C.And(c.d.eqVal(pt[0], x), c.C.And(c.d.eqVal(pt[1], y), c.d.eqVal(pt[2], c.F.Mul(x, y))))
	}
	r.build(rule, "CurvePointFromXYAffine_full", "arbitrary coordinates", false, nil, false, freeXY,
		func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
			on := curve(c, c.in[0], c.in[1])
			zero := c.C.And(c.d.isZero(c.d.val(c.in[0])), c.d.isZero(c.d.val(c.in[1])))
			c.must("points on the curve are accepted", on, ok)
			c.must("the result has the given coordinates", ok, coords(c, pt, c.in[0], c.in[1]))
			c.reject(err, ok, c.C.And(c.C.Not(on), c.C.Not(zero)), "ErrNotOnCurve", "ErrCannotDeserializeNaP")
			c.reject(err, ok, zero, "ErrCannotDeserializeXYAllZero")
		})
	r.build(rule, "CurvePointFromXYAffine_subgroup", "arbitrary coordinates", true, nil, false, freeXY,
		func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
			on := curve(c, c.in[0], c.in[1])
			c.reject(err, ok, c.C.Not(on), "ErrNotOnCurve", "ErrCannotDeserializeNaP")
		})
	for _, swap := range []bool{false, true} {
		name := "CurvePointFromXYTimesSignY_subgroup"
		if swap {
			name = "CurvePointFromYXTimesSignY_subgroup"
		}
		swap := swap
		r.build(rule, name, "arbitrary coordinates", true, nil, false, freeXY,
			func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
				x, y := c.in[0], c.in[1]
				if swap {
					x, y = y, x
				}
				on := curve(c, x, y)
				yz := c.d.isZero(c.d.val(y))
				pos := c.C.And(c.C.Not(yz), c.pos(y))
				sq := c.d.chiPos(c.F.Add(c.ki(1), c.F.Scale(c.F.Mul(x, x), bi(5))))
				c.must("points are accepted", c.C.And(on, c.C.And(pos, sq)), ok)
				c.must("the result has the given coordinates", ok, coords(c, pt, x, y))
				c.reject(err, ok, c.C.Not(pos), "ErrWrongSignY")
				c.reject(err, ok, c.C.And(pos, c.C.Not(on)), "ErrNotOnCurve")
				c.reject(err, ok, c.C.And(pos, c.C.And(on, c.C.Not(sq))), "ErrNotInSubgroup")
			})
	}
	// x or y that belong to no point
	for _, s := range [][2]int{{1, -1}, {-1, 1}} {
		s := s
		offX := func(c *ctor) []ff.Val {
			x := c.free("x")
			xx := c.F.Mul(x, x)
			c.setChi(c.F.Add(c.ki(1), c.F.Scale(xx, bi(5))), s[0])
			c.setChi(c.F.Sub(c.ki(1), c.F.Scale(xx, curveD)), s[1])
			return []ff.Val{x}
		}
		offY := func(c *ctor) []ff.Val {
			y := c.free("y")
			yy := c.F.Mul(y, y)
			n, m := c.F.Sub(yy, c.ki(1)), c.F.Sub(c.F.Scale(yy, curveD), c.k(curveA))
			c.setChi(n, s[0])
			c.setChi(m, s[1])
			c.addUnit(n)
			c.addUnit(c.F.Sub(y, c.ki(1)))
			c.addUnit(c.F.Add(y, c.ki(1)))
			c.addUnit(m)
			return []ff.Val{y}
		}
		rej := func(errs ...string) func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
			return func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) { c.reject(err, ok, alg.True, errs...) }
		}
		d := fmt.Sprintf("without a point (characters %d %d)", s[0], s[1])
		for _, g := range []int64{1, -1} {
			r.build(rule, "CurvePointFromXAndSignY_full", "x "+d, false, sgn(g), false, offX, rej("ErrXNotOnCurve"))
			r.build(rule, "CurvePointFromXAndSignY_subgroup", "x "+d, true, sgn(g), false, offX, rej("ErrXNotOnCurve"))
			r.build(rule, "CurvePointFromYAndSignX_full", "y "+d, false, sgn(g), false, offY, rej("ErrYNotOnCurve"))
			r.build(rule, "CurvePointFromYAndSignX_subgroup", "y "+d, true, sgn(g), false, offY, rej("ErrYNotOnCurve"))
		}
		r.build(rule, "CurvePointFromXTimesSignY_subgroup", "x "+d, true, nil, false, offX, rej("ErrXNotOnCurve"))
		r.build(rule, "CurvePointFromYAndSignX_full", "y "+d, false, sgn(0), false, offY, rej("ErrInvalidZeroSignX", "ErrYNotOnCurve"))
	}
	// the y coordinate of points at infinity
	for _, neg := range []bool{false, true} {
		neg := neg
		for _, g := range []int64{1, -1, 0} {
			for _, sub := range []bool{false, true} {
				name := "CurvePointFromYAndSignX_full"
				if sub {
					name = "CurvePointFromYAndSignX_subgroup"
				}
				r.build(rule, name, fmt.Sprintf("y of a point at infinity (%v)", neg), sub, sgn(g), false, func(c *ctor) []ff.Val {
					y := c.F.Inv(c.k(curveR))
					if neg {
						y = c.F.Neg(y)
					}
					return []ff.Val{y}
				}, func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) {
					c.reject(err, ok, alg.True, "ErrYNotOnCurve", "ErrInvalidZeroSignX")
				})
			}
		}
	}
	// invalid signs
	for _, s := range append(bad, 0) {
		for _, sub := range []bool{false, true} {
			sfx := "_full"
			if sub {
				sfx = "_subgroup"
			}
			on := func(i int) func(c *ctor) []ff.Val {
				return func(c *ctor) []ff.Val {
					x, y := xy(c.crv, c.point(gclass{gen: true, tag: true, t: tN}))
					return []ff.Val{[]ff.Val{x, y}[i]}
				}
			}
			chk := func(c *ctor, pt []*feV, err vg.Value, ok alg.Bdd) { c.reject(err, ok, alg.True, "ErrInvalidSign") }
			r.build(rule, "CurvePointFromXAndSignY"+sfx, "x of a point", sub, sgn(s), false, on(0), chk)
			if s != 0 {
				r.build(rule, "CurvePointFromYAndSignX"+sfx, "y of a point", sub, sgn(s), false, on(1), chk)
			}
		}
	}

}

func (c *ctor) objs0(x, y ff.Val)      { c.pt = []ff.Val{x, y} }
func (c *ctor) xy() (x, y ff.Val)      { return c.pt[0], c.pt[1] }
func (c *ctor) finite(x, y ff.Val) mpt { return mpt{x, c.ki(1), y, c.ki(1)} }
func (c *ctor) given() mpt             { return c.finite(c.in[0], c.in[1]) }
