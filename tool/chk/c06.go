package chk

import (
	"fmt"
	"go/types"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C06", Level: "proof", Technique: techFF, F: runC06,
		Note: "Coordinate functions, conversions between point types, normalisation: exact for every class of points, every representation and pair of types, every order of the projective coordinate queries."})
	register(&Property{ID: "C04", Level: "proof", Technique: techFF, F: runC04,
		Note: "Import into the prime order subgroup and validation of representations: for every class of points, every representation and pair of types; validation also for arbitrary coordinates."})
}

// isProp is the condition for f to be proportional to s (and nonzero).
func (c *crv) isProp(f []*feV, s []ff.Val) alg.Bdd {
	d := c.d
	acc := alg.True
	for i := range s {
		if !c.F.Unit(s[i]) {
			continue
		}
		acc = c.C.Not(d.isZero(f[i]))
		for j := range s {
			if j != i {
				l := d.map1(f[j], func(w ff.Val) ff.Val { return c.F.Mul(w, s[i]) })
				r := d.map1(f[i], func(w ff.Val) ff.Val { return c.F.Mul(w, s[j]) })
				acc = c.C.And(acc, d.eq(l, r))
			}
		}
		return acc
	}
	panic(vg.Undecided{Msg: c.Name + ": no coordinate of the expected point is known to be nonzero"})
}

// affine gives x, y, t = xy of a finite point.
func (c *crv) affine(p mpt) []ff.Val {
	x, y := c.F.Mul(p.X0, c.F.Inv(p.X1)), c.F.Mul(p.Y0, c.F.Inv(p.Y1))
	return []ff.Val{x, y, c.F.Mul(x, y)}
}

// perms lists the orders of n things.
func perms(n int) (out [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func runC06(r *Run) {
	const rule = "coordinates"
	aff := func(method string, idx []int, optional bool) {
		r.each(rule, method, ptypes, true, optional, func(o *one) {
			res, ret := o.call()
			if o.infinite(o.m) {
				o.must("a point at infinity has no affine coordinates", ret, alg.False)
				return
			}
			o.fine(ret)
			w := o.affine(o.m)
			for i, j := range idx {
				if i >= len(res) {
					o.Fail("number of coordinates", fmt.Sprint(len(res)))
					return
				}
				o.must("the "+string("XYT"[j])+" coordinate is the affine one of the point", ret, o.d.eqVal(o.d.conv(res[i]), w[j]))
			}
			o.same(ret)
		})
	}
	aff("X_affine", []int{0}, false)
	aff("Y_affine", []int{1}, false)
	aff("T_affine", []int{2}, true)
	aff("XY_affine", []int{0, 1}, false)
	aff("XYT_affine", []int{0, 1, 2}, true)

	// projective coordinates: segre order is x y z t
	pick := func(v [4]ff.Val, idx []int) (out []ff.Val) {
		for _, i := range idx {
			out = append(out, v[i])
		}
		return
	}
	tuple := func(method string, idx []int, optional bool) {
		r.each(rule, method, ptypes, true, optional, func(o *one) {
			res, ret := o.call()
			o.fine(ret)
			var f []*feV
			for _, v := range res {
				f = append(f, o.d.conv(v))
			}
			if len(f) != len(idx) {
				o.Fail("number of coordinates", fmt.Sprint(len(f)))
				return
			}
			o.must("the coordinates are projective coordinates of the point", ret, o.isProp(f, pick(o.segre(o.m), idx)))
			o.same(ret)
		})
	}
	tuple("XYZ_projective", []int{0, 1, 2}, false)
	tuple("XYTZ_projective", []int{0, 1, 3, 2}, true)
	seq := func(what string, names []string, idx []int, decaf, affine bool) {
		for _, pm := range perms(len(names)) {
			pm := pm
			var ord []string
			for _, i := range pm {
				ord = append(ord, names[i])
			}
			r.each(rule, ord[0], ptypes, !decaf, false, func(o *one) {
				o.Name += fmt.Sprint(" in sequence ", ord)
				f := make([]*feV, len(names))
				all := alg.True
				for _, i := range pm {
					if o.R.ptMethod(o.n, names[i]) == nil {
						if len(ord) == 3 || names[i][0] == 'T' {
							return // no extended coordinates
						}
					}
					res, ret := o.method(names[i])
					all = o.C.And(all, ret)
					if len(res) == 0 {
						break
					}
					f[i] = o.d.conv(res[0])
				}
				if affine && o.infinite(o.m) {
					o.must("a point at infinity has no affine coordinates", all, alg.False)
					return
				}
				o.fine(all)
				if all == alg.False {
					return
				}
				want := func(p mpt) alg.Bdd {
					if affine {
						w := o.affine(p)
						b := alg.True
						for i, j := range idx {
							b = o.C.And(b, o.d.eqVal(f[i], w[j]))
						}
						return b
					}
					return o.isProp(f, pick(o.segre(p), idx))
				}
				b := want(o.m)
				if decaf {
					b = o.C.Or(b, want(o.plusT(o.m, tA)))
				}
				o.must("the coordinates fit together and belong to the point", all, b)
				o.same(all)
			})
		}
	}
	seq("projective", []string{"X_projective", "Y_projective", "Z_projective"}, []int{0, 1, 2}, false, false)
	seq("extended projective", []string{"X_projective", "Y_projective", "Z_projective", "T_projective"}, []int{0, 1, 2, 3}, false, false)
	seq("projective up to A", []string{"X_decaf_projective", "Y_decaf_projective", "Z_decaf_projective", "T_decaf_projective"}, []int{0, 1, 2, 3}, true, false)
	seq("affine up to A", []string{"X_decaf_affine", "Y_decaf_affine", "T_decaf_affine"}, []int{0, 1, 2}, true, true)

	// normalisation
	norm := func(method, coord string, seg int) {
		r.each(rule, method, ptypes, false, true, func(o *one) {
			res, ret := o.call()
			o.fine(ret)
			v := o.segre(o.m)[seg]
			if o.F.Unit(v) == v.IsZero() {
				o.Fail("analysis decides", "cannot tell whether the coordinate vanishes")
				return
			}
			o.answer("success of "+method, ret, res[0], !v.IsZero())
			o.same(ret)
			if !v.IsZero() {
				res, ret2 := o.method(coord)
				o.must(coord+" is 1 afterwards", o.C.And(ret, ret2), o.d.eqVal(o.d.conv(res[0]), o.ki(1)))
				o.must(coord+" returns", o.C.Not(ret2), alg.False)
			}
		})
	}
	norm("NormalizeForZ", "Z_decaf_projective", 2)
	norm("NormalizeForY", "Y_decaf_projective", 1)

	// conversions
	for _, recv := range ptypes {
		r.unary(rule, op{name: "SetFrom", ar: 1, f: func(c *crv, a []mpt) mpt { return a[0] }}, recv)
	}
}

func runC04(r *Run) {
	const rule = "subgroup-import"
	trust := r.P.Type("bandersnatch/common", "IsInputTrusted")
	if trust == nil {
		r.Add(&Ob{Rule: rule, Construct: "common.IsInputTrusted", Goal: "anchor resolves", OK: false, Detail: "type not found"})
		return
	}
	for _, recv := range ptypes {
		for _, a := range ptypes {
			recv, a := recv, a
			r.Go(rule, recv.name+".SetFromSubgroupPoint("+a.name+")", func() { r.importPt(rule, recv, a, trust) })
		}
		recv := recv
		r.Go(rule, recv.name+".Validate", func() { r.validate(rule, recv) })
	}
}

// trustV makes a trust level by the exported constructor.
func (c *crv) trustV(t bool) vg.Value {
	fn := c.R.P.Func("bandersnatch/common", "TrustLevelFromBool")
	if fn == nil {
		panic(vg.Undecided{Msg: "common.TrustLevelFromBool not found"})
	}
	b := alg.False
	if t {
		b = alg.True
	}
	res, _ := c.It.Call(c.St, fn, []vg.Value{vg.BoolV{B: b}}, nil)
	return res[0]
}

func (r *Run) importPt(rule string, recv, a ptype, trust types.Type) {
	fn := r.ptFn(rule, recv, "SetFromSubgroupPoint")
	nr, na := r.ptNamed(recv), r.ptNamed(a)
	if fn == nil || na == nil {
		return
	}
	for _, tr := range []bool{true, false} {
		for _, g := range classesOf(a, true) {
			in := meantT(a, g) == tN
			if tr && !in {
				continue // no guarantee
			}
			for _, same := range []bool{false, true} {
				if same && recv != a {
					continue
				}
				al := ""
				if same {
					al = " [receiver is the operand]"
				}
				c := r.newCrv(rule, fmt.Sprintf("%s.%s.SetFromSubgroupPoint of %s (trusted: %v): %s%s", curvePkg, recv.name, a.name, tr, g, al), fn)
				func() {
					defer c.recover()
					defer c.Done()
					p := c.point(g)
					pv := c.newPoint(a, na, "operand", c.coords(a.k, p, "1"))
					rv := pv
					junk := c.junk(recv, "old")
					if !same {
						rv = c.newPoint(recv, nr, "receiver", junk)
					}
					res, ret := c.It.Call(c.St, fn, []vg.Value{rv, iface(na, pv), c.trustV(tr)}, nil)
					mp := c.meaning(a, g, p)
					c.noPanic()
					c.must("returns", c.C.Not(ret), alg.False)
					c.answer("success", ret, res[0], in)
					f := c.read(recv, nr, rv)
					if in {
						c.must("the receiver stands for the operand", ret, c.stands(recv, f, mp))
					} else if !same {
						b := alg.True
						for i := range f {
							b = c.C.And(b, c.d.eqVal(f[i], junk[i]))
						}
						c.must("the receiver is unchanged", ret, b)
					}
					c.must("the operand still stands for the same point", ret, c.stands(a, c.read(a, na, pv), mp))
				}()
			}
		}
	}
}

// onCurve is the condition for arbitrary coordinates to represent a point.
func (c *crv) onCurve(t ptype, v []ff.Val) alg.Bdd {
	F, d := c.F, c.d
	z := func(v ff.Val) alg.Bdd { return d.isZero(d.val(v)) }
	sq := func(v ff.Val) ff.Val { return F.Mul(v, v) }
	both := func(x, y ff.Val) alg.Bdd { return c.C.And(z(x), z(y)) }
	acc := alg.True
	and := func(b alg.Bdd) { acc = c.C.And(acc, b) }
	// a x^2 + y^2 = z^2 + d t^2
	curve := func(x, y, t, zz ff.Val) ff.Val {
		return F.Sub(F.Add(F.Scale(sq(x), curveA), sq(y)), F.Add(sq(zz), F.Scale(sq(t), curveD)))
	}
	var num ff.Val // 1 - a x^2 up to squares
	switch t.k {
	case cXTW:
		x, y, zz, tt := v[0], v[1], v[2], v[3]
		and(c.C.Not(both(x, y)))
		and(z(F.Sub(F.Mul(x, y), F.Mul(zz, tt))))
		and(z(curve(x, y, tt, zz)))
		num = F.Add(sq(zz), F.Scale(sq(x), bi(5)))
	case cAXTW:
		x, y, tt := v[0], v[1], v[2]
		and(c.C.Not(both(x, y)))
		and(z(F.Sub(F.Mul(x, y), tt)))
		and(z(curve(x, y, tt, F.ConstI(1))))
		num = F.Add(F.ConstI(1), F.Scale(sq(x), bi(5)))
	default:
		e, f, g, h := v[0], v[1], v[2], v[3]
		and(c.C.Not(both(e, g)))
		and(c.C.Not(both(f, h)))
		and(z(curve(F.Mul(e, f), F.Mul(g, h), F.Mul(e, h), F.Mul(f, g))))
		num = F.Add(sq(g), F.Scale(sq(e), bi(5)))
	}
	if t.sub {
		// the character of a nonzero value (1 - a x^2 has no zero on the curve)
		and(d.chiPos(num))
	}
	return acc
}

// validate checks Validate for arbitrary coordinates.
func (r *Run) validate(rule string, t ptype) {
	n := r.ptNamed(t)
	if n == nil || r.ptMethod(n, "Validate") == nil {
		return
	}
	fn := r.ptMethod(n, "Validate")
	c := r.newCrv(rule, curvePkg+"."+t.name+".Validate on arbitrary coordinates", fn)
	defer c.Done()
	defer c.recover()
	v := c.junk(t, "p")
	p := c.newPoint(t, n, "point", v)
	res, ret := c.It.Call(c.St, fn, []vg.Value{p}, nil)
	got, want := c.Cond(res[0]), c.onCurve(t, v)
	for _, q := range c.It.Panics {
		c.must("no panic on representations of points: "+q.Why, c.C.And(want, q.Cond), alg.False)
	}
	c.must("returns on representations of points", c.C.And(want, c.C.Not(ret)), alg.False)
	c.must("accepts only representations of points", c.C.And(ret, got), want)
	c.must("accepts all representations of points", c.C.And(ret, want), got)
}
