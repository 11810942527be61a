package chk

import (
	"fmt"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C07", Level: "proof", Technique: techFF, F: runC07,
		Note: "Uninitialised and invalid points (NaPs): detected by every query, reported to the handler by comparisons and conversions, contagious under every operation; every shape of NaP of every type, every position, all valid other operands."})
}

// nap is an invalid point; shape selects which coordinates vanish.
type napShape struct {
	zero []int
	desc string
	all  bool // all coordinates vanish (uninitialised variable)
}

func napsOf(t ptype) []napShape {
	out := []napShape{{nil, "uninitialised point", true}}
	if t.k == cEFGH {
		return append(out, napShape{[]int{1, 3}, "NaP with f=h=0", false}, napShape{[]int{0, 2}, "NaP with e=g=0", false}, napShape{[]int{0, 3}, "NaP with e=h=0", false})
	}
	return append(out, napShape{[]int{0, 1}, "NaP with x=y=0", false})
}

func (c *crv) napCoords(t ptype, s napShape, name string) []ff.Val {
	v := c.junk(t, name)
	for i := range v {
		z := s.all
		for _, j := range s.zero {
			z = z || i == j
		}
		if z {
			v[i] = c.ki(0)
		}
	}
	return v
}

// isNaP asks the point itself.
func (c *crv) isNaP(what string, t ptype, p vg.Value, cond alg.Bdd) {
	n := c.R.ptNamed(t)
	res, ret := c.It.Call(c.St, c.R.ptMethod(n, "IsNaP"), []vg.Value{p}, nil)
	if len(res) == 0 {
		c.must(what+" is recognised as NaP (query returns)", cond, alg.False)
		return
	}
	c.must(what+" is recognised as NaP", cond, c.C.And(ret, c.Cond(res[0])))
}

func (c *crv) quiet(except alg.Bdd) {
	for _, p := range c.It.Panics {
		c.must("no panic: "+p.Why+" in "+shortFn(p.Fn), p.Cond, except)
	}
}

func runC07(r *Run) {
	const rule = "invalid-points"
	for _, t := range ptypes {
		t := t
		r.Go(rule, t.name+" queries", func() {
			n := r.ptNamed(t)
			if n == nil {
				r.ptFn(rule, t, "IsNaP")
				return
			}
			for _, s := range napsOf(t) {
				with := func(method string, f func(o *one)) {
					fn := r.ptMethod(n, method)
					if fn == nil {
						return
					}
					c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s on %s", curvePkg, t.name, method, s.desc), fn)
					defer c.Done()
					defer c.recover()
					o := &one{crv: c, t: t, n: n, fn: fn}
					o.p = c.newPoint(t, n, "point", c.napCoords(t, s, "n"))
					f(o)
				}
				with("IsNaP", func(o *one) {
					o.isNaP("the point", t, o.p, alg.True)
					o.quiet(alg.False)
				})
				with("IsNeutralElement", func(o *one) {
					res, ret := o.call()
					o.quiet(alg.False)
					o.must("the handler is called", ret, o.d.nap)
					if len(res) > 0 {
						o.must("the answer is that of the handler", ret, o.C.Not(o.C.Xor(o.Cond(res[0]), o.d.napAnswer())))
					}
				})
				asked := []string{"IsAtInfinity"}
				if !t.sub {
					// for subgroup-only types, IsInSubgroup is a statement about the type
					asked = append(asked, "IsInSubgroup")
				}
				for _, m := range asked {
					with(m, func(o *one) {
						res, ret := o.call()
						o.quiet(alg.False)
						o.must("the handler is called", ret, o.d.nap)
						if len(res) > 0 && m == "IsInSubgroup" {
							o.must("the answer is that of the handler", ret, o.C.Not(o.C.Xor(o.Cond(res[0]), o.d.napAnswer())))
						}
					})
				}
				for _, m := range []string{"IsE1", "IsE2"} {
					with(m, func(o *one) {
						_, ret := o.call()
						o.quiet(alg.False)
						o.must("the handler is called", ret, o.d.nap)
					})
				}
				for _, m := range []string{"NormalizeForY", "NormalizeForZ"} {
					with(m, func(o *one) {
						res, ret := o.call()
						o.quiet(alg.False)
						o.answer("success", ret, res[0], false)
						o.isNaP("the point", t, o.p, ret)
					})
				}
				with("Clone", func(o *one) {
					res, ret := o.call()
					o.quiet(alg.False)
					i, ok := o.It.Force(res[0]).(vg.IfaceV)
					if ok {
						o.isNaP("the copy", t, i.V, ret)
					}
				})
				with("IsInSubgroup", func(o *one) {
					fn := o.R.Find(rule, curvePkg, "MapToFieldElement")
					if fn == nil {
						return
					}
					o.Name = fmt.Sprintf("%s.MapToFieldElement on %s of type %s", curvePkg, s.desc, t.name)
					_, ret := o.It.Call(o.St, fn, []vg.Value{iface(n, o.p)}, nil)
					o.must("a NaP is not mapped to a field element", ret, alg.False)
				})
				for _, m := range []string{"DoubleEq", "NegEq", "EndoEq"} {
					with(m, func(o *one) {
						_, ret := o.call()
						o.quiet(alg.False)
						o.isNaP("the result", t, o.p, ret)
					})
				}
				for _, a := range ptypes {
					na := r.ptNamed(a)
					if na == nil || a.sub && !t.sub && false {
						continue
					}
					// the receiver is of type a
					conv := func(method string, more func(o *one) []vg.Value, f func(o *one, rv vg.Value, res []vg.Value, ret alg.Bdd)) {
						fn := r.ptMethod(na, method)
						if fn == nil {
							return
						}
						c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s of %s of type %s", curvePkg, a.name, method, s.desc, t.name), fn)
						defer c.Done()
						defer c.recover()
						o := &one{crv: c, t: t, n: n, fn: fn}
						o.p = c.newPoint(t, n, "point", c.napCoords(t, s, "n"))
						rv := c.newPoint(a, na, "receiver", c.junk(a, "old"))
						args := []vg.Value{rv, iface(n, o.p)}
						if more != nil {
							args = append(args, more(o)...)
						}
						res, ret := c.It.Call(c.St, fn, args, nil)
						f(o, rv, res, ret)
					}
					for _, m := range []string{"SetFrom", "Double", "Neg", "Endo"} {
						m := m
						conv(m, nil, func(o *one, rv vg.Value, res []vg.Value, ret alg.Bdd) {
							if !(a.sub && !t.sub) {
								o.quiet(alg.False)
							}
							o.isNaP("the result", a, rv, ret)
						})
					}
					for _, tr := range []bool{true, false} {
						tr := tr
						conv("SetFromSubgroupPoint", func(o *one) []vg.Value {
							o.Name += fmt.Sprintf(" (trusted: %v)", tr)
							return []vg.Value{o.trustV(tr)}
						}, func(o *one, rv vg.Value, res []vg.Value, ret alg.Bdd) {
							o.quiet(alg.False)
							o.must("the handler is called", ret, o.d.nap)
							o.answer("success", ret, res[0], false)
						})
					}
				}
			}
		})
	}
	// a NaP together with another point
	for _, a := range ptypes {
		for _, b := range ptypes {
			a, b := a, b
			r.Go(rule, a.name+" with "+b.name, func() { r.napPair(rule, a, b) })
		}
	}
}

func (r *Run) napPair(rule string, a, b ptype) {
	na, nb := r.ptNamed(a), r.ptNamed(b)
	if na == nil || nb == nil {
		return
	}
	// operands: a NaP and a class of points or another NaP
	type operand struct {
		s *napShape
		g gclass
	}
	ops := func(t ptype) (out []operand) {
		for _, s := range napsOf(t) {
			s := s
			out = append(out, operand{s: &s})
		}
		for _, g := range classesOf(t, false) {
			out = append(out, operand{g: g})
		}
		return
	}
	desc := func(o operand) string {
		if o.s != nil {
			return o.s.desc
		}
		return o.g.String()
	}
	for _, x := range ops(a) {
		for _, y := range ops(b) {
			if x.s == nil && y.s == nil {
				continue
			}
			mk := func(c *crv) (vg.Value, vg.Value) {
				pt := func(t ptype, o operand, name string) []ff.Val {
					if o.s != nil {
						return c.napCoords(t, *o.s, name)
					}
					return c.coords(t.k, c.point(o.g), name)
				}
				return c.newPoint(a, na, "first", pt(a, x, "1")), c.newPoint(b, nb, "second", pt(b, y, "2"))
			}
			func() {
				fn := r.ptFn(rule, a, "IsEqual")
				if fn == nil {
					return
				}
				c := r.newCrv(rule, fmt.Sprintf("%s.%s.IsEqual(%s): %s, %s", curvePkg, a.name, b.name, desc(x), desc(y)), fn)
				defer c.Done()
				defer c.recover()
				p, q := mk(c)
				res, ret := c.It.Call(c.St, fn, []vg.Value{p, iface(nb, q)}, nil)
				c.quiet(alg.False)
				c.must("the handler is called", ret, c.d.nap)
				if len(res) > 0 {
					c.must("the answer is that of the handler", ret, c.C.Not(c.C.Xor(c.Cond(res[0]), c.d.napAnswer())))
				}
			}()
			for _, recv := range ptypes {
				if recv.sub && (!a.sub || !b.sub) {
					continue
				}
				nr := r.ptNamed(recv)
				for _, m := range []string{"Add", "Sub"} {
					fn := r.ptFn(rule, recv, m)
					if fn == nil || nr == nil {
						continue
					}
					func() {
						c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s(%s, %s): %s, %s", curvePkg, recv.name, m, a.name, b.name, desc(x), desc(y)), fn)
						defer c.Done()
						defer c.recover()
						p, q := mk(c)
						rv := c.newPoint(recv, nr, "receiver", c.junk(recv, "old"))
						_, ret := c.It.Call(c.St, fn, []vg.Value{rv, iface(na, p), iface(nb, q)}, nil)
						c.quiet(alg.False)
						c.isNaP("the result", recv, rv, ret)
					}()
				}
			}
			for _, m := range []string{"AddEq", "SubEq"} {
				if a.sub && !b.sub {
					continue
				}
				fn := r.ptFn(rule, a, m)
				if fn == nil {
					continue
				}
				func() {
					c := r.newCrv(rule, fmt.Sprintf("%s.%s.%s(%s): %s, %s", curvePkg, a.name, m, b.name, desc(x), desc(y)), fn)
					defer c.Done()
					defer c.recover()
					p, q := mk(c)
					_, ret := c.It.Call(c.St, fn, []vg.Value{p, iface(nb, q)}, nil)
					c.quiet(alg.False)
					c.isNaP("the result", a, p, ret)
				}()
			}
		}
	}
}
