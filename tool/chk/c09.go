package chk

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C09", Level: "proof", Technique: techFF, F: runC09,
		Note: "Sampling of points, changes of representation, addition of 2-torsion on coordinates: every class of drawn coordinates and every choice of the generator."})
}

// draws makes the random choices of the code under analysis arbitrary;
// field elements are drawn from the given list first.
func (c *crv) draws(vs ...ff.Val) {
	nz, bit := 0, 0
	c.It.Models = append([]vg.Model{func(it *vg.Interp, st *vg.State, call ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
		if fn == nil {
			return nil, false
		}
		switch fn.Name() {
		case "SetRandomUnsafeNonZero":
			if fn.Signature.Recv() == nil || len(args) == 0 || !isFEPtr(fn) {
				return nil, false
			}
			nz++
			it.Store(st, args[0], c.d.val(c.scaling(fmt.Sprintf("nonzero%d", nz))))
			return &vg.TupleV{}, true
		case "SetRandomUnsafe":
			if fn.Signature.Recv() == nil || len(args) == 0 || !isFEPtr(fn) || len(vs) == 0 {
				return nil, false
			}
			it.Store(st, args[0], c.d.val(vs[0]))
			vs = vs[1:]
			return &vg.TupleV{}, true
		}
		switch fn.String() {
		case "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int31n", "(*math/rand.Rand).Int63n":
			n, ok := vg.ConstInt(it.Force(args[1]))
			if !ok || n.Sign() <= 0 {
				return nil, false
			}
			bit++
			if n.Cmp(big.NewInt(2)) == 0 {
				// two values: an arbitrary bit
				b := it.Nondet(fmt.Sprintf("coin%d", bit))
				one, zero := vg.KInt(1, 64, true), vg.KInt(0, 64, true)
				if fn.Name() == "Int31n" {
					one, zero = vg.KInt(1, 32, true), vg.KInt(0, 32, true)
				}
				return it.Merge([]vg.ChoiceAlt{{C: b, V: one}, {C: it.C.Not(b), V: zero}}), true
			}
			w := 64
			if fn.Name() == "Int31n" {
				w = 32
			}
			return it.FreshInt("draw", alg.KInput, new(big.Int), bsub(n, big.NewInt(1)), w, true), true
		}
		return nil, false
	}}, c.It.Models...)
}

func isFEPtr(fn *ssa.Function) bool {
	return len(fn.Params) > 0 && isFE(Elem(fn.Params[0].Type()))
}

func runC09(r *Run) {
	r.shifts("torsion-shift")
	r.rerand("representation")
	r.sample("sampling")
	r.Wait()
}

// shifts: adding a 2-torsion point directly on the coordinates.
func (r *Run) shifts(rule string) {
	for t, m := range map[int]string{tA: "torsionAddA", tE1: "torsionAddE1", tE2: "torsionAddE2"} {
		t, m := t, m
		if r.ptMethodAny(m) {
			r.each(rule, m, ptypes, false, true, func(o *one) {
				want := o.plusT(o.q, t)
				full := o.t
				full.sub = false // the coordinates themselves are shifted
				_, ret := o.call()
				if o.t.k == cAXTW && o.infinite(want) {
					o.must("a result at infinity is not stored in an affine type", ret, alg.False)
					return
				}
				o.fine(ret)
				o.must("the coordinates are those of the point plus "+torsName[t], ret, o.stands(full, o.read(o.t, o.n, o.p), want))
			})
			r.onNaPs(rule, m)
		}
	}
	if r.ptMethodAny("flipDecaf") {
		r.each(rule, "flipDecaf", ptypes, false, true, func(o *one) {
			_, ret := o.call()
			o.fine(ret)
			full := o.t
			full.sub = false
			o.must("the coordinates are those of the point plus A", ret, o.stands(full, o.read(o.t, o.n, o.p), o.plusT(o.q, tA)))
		})
		r.onNaPs(rule, "flipDecaf")
	}
}

func (r *Run) ptMethodAny(m string) bool {
	for _, t := range ptypes {
		if n := r.ptNamed(t); n != nil && r.ptMethod(n, m) != nil {
			return true
		}
	}
	return false
}

// onNaPs: an invalid point stays invalid.
func (r *Run) onNaPs(rule, method string) {
	for _, t := range ptypes {
		n := r.ptNamed(t)
		if n == nil || r.ptMethod(n, method) == nil {
			continue
		}
		t := t
		r.Go(rule, t.name+"."+method+" on invalid points", func() {
			fn := r.ptMethod(n, method)
			for _, s := range napsOf(t) {
				func() {
					c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s on %s", curvePkg, t.name, method, s.desc), fn)
					defer c.Done()
					defer c.recover()
					c.draws()
					p := c.newPoint(t, n, "point", c.napCoords(t, s, "n"))
					args := []vg.Value{p}
					for _, q := range fn.Params[1:] {
						args = append(args, c.It.NewObj(c.St, "rnd", Elem(q.Type()), vg.OpaqueV{Why: "generator"}))
					}
					_, ret := c.It.Call(c.St, fn, args, nil)
					c.quiet(alg.False)
					c.must("returns", c.C.Not(ret), alg.False)
					c.isNaP("the point", t, p, ret)
				}()
			}
		})
	}
}

func (c *crv) rnd(fn *ssa.Function, i int) vg.Value {
	return c.It.NewObj(c.St, "rnd", Elem(fn.Params[i].Type()), vg.OpaqueV{Why: "generator"})
}

// rerand: changes of the representation keep the point.
func (r *Run) rerand(rule string) {
	const m = "rerandomizeRepresentation"
	if r.ptMethodAny(m) {
		r.each(rule, m, ptypes, false, true, func(o *one) {
			o.draws()
			_, ret := o.call(o.rnd(o.fn, 1))
			o.fine(ret)
			o.same(ret)
		})
		r.onNaPs(rule, m)
	}
	if r.ptMethodAny("normalizeSubgroup") {
		r.each(rule, "normalizeSubgroup", ptypes, false, true, func(o *one) {
			_, ret := o.call()
			o.fine(ret)
			full := o.t
			full.sub = false
			o.must("the coordinates are those of the point of the subgroup", ret, o.stands(full, o.read(o.t, o.n, o.p), o.m))
		})
	}
}

// sample: drawn points.
func (r *Run) sample(rule string) {
	type target struct {
		t    ptype
		fn   *ssa.Function
		name string
		recv bool
	}
	var ts []target
	for _, t := range ptypes {
		n := r.ptNamed(t)
		if n == nil {
			continue
		}
		if fn := r.ptMethod(n, "sampleRandomUnsafe"); fn != nil {
			ts = append(ts, target{t, fn, t.name + ".sampleRandomUnsafe", true})
		}
	}
	for _, t := range []ptype{ptypes[0], ptypes[3]} {
		nm := map[bool]string{false: "MakeRandomPointUnsafe_xtw_full", true: "MakeRandomPointUnsafe_xtw_subgroup"}[t.sub]
		if fn := r.Find(rule, curvePkg, nm); fn != nil {
			ts = append(ts, target{t, fn, nm, false})
		}
	}
	type draw struct {
		desc string
		sub  bool // the points with that x-coordinate are in the subgroup up to A
		x    func(c *crv) ([]ff.Val, []mpt)
	}
	// the points with the x-coordinate of p
	both := func(c *crv, p mpt) []mpt {
		return []mpt{p, {p.X0, p.X1, c.F.Neg(p.Y0), p.Y1}}
	}
	var ds []draw
	for t := 0; t < 4; t++ {
		g := gclass{gen: true, t: t, tag: true}
		ds = append(ds, draw{"x of " + g.String(), t == tN || t == tA, func(c *crv) ([]ff.Val, []mpt) {
			p := c.generic(g)
			return []ff.Val{p.X0}, both(c, p)
		}})
	}
	ds = append(ds, draw{"x of N and A", true, func(c *crv) ([]ff.Val, []mpt) {
		return []ff.Val{c.ki(0)}, both(c, c.torsion(tN))
	}})
	for _, s := range []int{1, -1} {
		s := s
		ds = append(ds, draw{fmt.Sprintf("an x without a point (1-ax² of character %d), then x of a point", s), false, func(c *crv) ([]ff.Val, []mpt) {
			u := c.scaling("u")
			uu := c.F.Mul(u, u)
			num, den := c.F.Add(c.ki(1), c.F.Scale(uu, big.NewInt(5))), c.F.Sub(c.ki(1), c.F.Scale(uu, curveD))
			c.addUnit(num)
			c.addUnit(den)
			c.setChi(num, s)
			c.setChi(den, -s)
			p := c.generic(gclass{gen: true})
			return []ff.Val{u, p.X0}, both(c, p)
		}})
	}
	for _, q := range ts {
		for _, d := range ds {
			q, d := q, d
			r.Go(rule, q.name+": "+d.desc, func() {
				n := r.ptNamed(q.t)
				c := r.newCrv(rule, fmt.Sprintf("%s.%s drawing %s", curvePkg, q.name, d.desc), q.fn)
				defer c.Done()
				defer c.recover()
				xs, pts := d.x(c)
				c.draws(xs...)
				var args []vg.Value
				var p vg.Value
				if q.recv {
					p = c.newPoint(q.t, n, "receiver", c.junk(q.t, "old"))
					args = append(args, p)
				}
				args = append(args, c.rnd(q.fn, len(args)))
				res, ret := c.It.Call(c.St, q.fn, args, nil)
				c.noPanic()
				c.must("returns", c.C.Not(ret), alg.False)
				var f []*feV
				if q.recv {
					f = c.read(q.t, n, p)
				} else {
					f = c.readVal(q.t, n, c.It.Force(res[0]))
				}
				ok := alg.False
				for _, w := range pts {
					ok = c.C.Or(ok, c.stands(q.t, f, c.add(w, w)))
					if !q.t.sub || d.sub {
						ok = c.C.Or(ok, c.stands(q.t, f, w))
					}
				}
				if q.t.sub {
					c.must("the result is the double of a point with the drawn x-coordinate, or one that is in the subgroup itself", ret, ok)
				} else {
					c.must("the result is a point of the curve with the drawn x-coordinate, or its double", ret, ok)
				}
			})
		}
	}
	const m = "sampleNaP"
	for _, t := range ptypes {
		t := t
		n := r.ptNamed(t)
		if n == nil || r.ptMethod(n, m) == nil {
			continue
		}
		r.Go(rule, t.name+"."+m, func() {
			fn := r.ptMethod(n, m)
			for i := 0; i < 60; i++ {
				func() {
					c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s with index %d", curvePkg, t.name, m, i), fn)
					defer c.Done()
					defer c.recover()
					c.draws()
					p := c.newPoint(t, n, "receiver", c.junk(t, "old"))
					_, ret := c.It.Call(c.St, fn, []vg.Value{p, c.rnd(fn, 1), vg.KInt(int64(i), 64, true)}, nil)
					c.quiet(alg.False)
					c.must("returns", c.C.Not(ret), alg.False)
					c.isNaP("the sample", t, p, ret)
				}()
			}
		})
	}
}
