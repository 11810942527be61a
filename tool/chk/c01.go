package chk

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C01", Level: "proof", Technique: techFF, F: runC01,
		Note: "Addition, subtraction, doubling, negation of curve points: complete case distinction over the relation of the operands, for all coordinate representations, operand types and aliasing patterns."})
}

const techFF = "abstract interpretation of Go SSA: value-graph dataflow over rational functions on the curve"

// op is an operation on curve points.
type op struct {
	name string
	ar   int  // number of operands besides the receiver
	eq   bool // the receiver is the first operand
	f    func(c *crv, a []mpt) mpt
	full bool // a subgroup receiver accepts general operands
	fg   func(c *crv, a []mpt, g gclass) mpt
}

var groupOps = []op{
	{"Add", 2, false, func(c *crv, a []mpt) mpt { return c.add(a[0], a[1]) }, false, nil},
	{"Sub", 2, false, func(c *crv, a []mpt) mpt { return c.add(a[0], c.negP(a[1])) }, false, nil},
	{"AddEq", 1, true, func(c *crv, a []mpt) mpt { return c.add(a[0], a[1]) }, false, nil},
	{"SubEq", 1, true, func(c *crv, a []mpt) mpt { return c.add(a[0], c.negP(a[1])) }, false, nil},
	{"Double", 1, false, func(c *crv, a []mpt) mpt { return c.add(a[0], a[0]) }, true, nil},
	{"DoubleEq", 0, true, func(c *crv, a []mpt) mpt { return c.add(a[0], a[0]) }, false, nil},
	{"Neg", 1, false, func(c *crv, a []mpt) mpt { return c.negP(a[0]) }, false, nil},
	{"NegEq", 0, true, func(c *crv, a []mpt) mpt { return c.negP(a[0]) }, false, nil},
}

// rel is the relation of two generic operands: q2 = sign*q1 + t (sign 0: unrelated).
type rel struct{ sign, t int }

// combo is a combination of classes of two stored operands.
type combo struct {
	g [2]gclass
	r rel
}

func (k combo) String() string {
	s := "first " + k.g[0].String() + ", second " + k.g[1].String()
	if k.g[0].gen && k.g[1].gen {
		if k.r.sign == 0 {
			s += " independent of the first"
		} else {
			s += fmt.Sprintf(" = %s(first)+%s", map[int]string{1: "", -1: "-"}[k.r.sign], torsName[k.r.t])
		}
	}
	return s
}

func combos(a, b ptype) (out []combo) {
	for _, g := range classesOf(a, false) {
		for _, h := range classesOf(b, false) {
			if !g.gen || !h.gen {
				out = append(out, combo{g: [2]gclass{g, h}})
				continue
			}
			out = append(out, combo{[2]gclass{g, h}, rel{}})
			for _, s := range []int{1, -1} {
				for t := 0; t < 4; t++ {
					if a.sub && b.sub && torsAdd(g.t, h.t) != t {
						continue
					}
					out = append(out, combo{[2]gclass{g, h}, rel{s, t}})
				}
			}
		}
	}
	return
}

// operands makes the two stored points of a combination.
func (c *crv) operands(k combo) (p, q mpt) {
	g, h := k.g[0], k.g[1]
	if !g.gen || !h.gen {
		return c.point(g), c.point(h)
	}
	if k.r.sign == 0 {
		p, q = c.generic(g), c.generic(h)
		F := c.F
		x1, y1, x2, y2 := p.X0, p.Y0, q.X0, q.Y0
		m := F.Mul
		dd := F.Scale(m(m(x1, x2), m(y1, y2)), curveD)
		five := F.Scale(m(x1, x2), bi(5))
		c.addUnit(F.Add(m(x1, y2), m(x2, y1)))
		c.addUnit(F.Sub(m(x1, y2), m(x2, y1)))
		c.addUnit(F.Add(c.ki(1), dd))
		c.addUnit(F.Sub(c.ki(1), dd))
		c.addUnit(F.Add(m(y1, y2), five))
		c.addUnit(F.Sub(m(y1, y2), five))
		c.addUnit(F.Add(m(x1, y1), m(x2, y2)))
		c.addUnit(F.Sub(m(x1, y1), m(x2, y2)))
		c.addUnit(F.Add(x1, x2))
		c.addUnit(F.Sub(x1, x2))
		c.addUnit(F.Add(y1, y2))
		c.addUnit(F.Sub(y1, y2))
		return
	}
	der := func(p mpt) mpt {
		if k.r.sign < 0 {
			p = c.negP(p)
		}
		return c.plusT(p, k.r.t)
	}
	// the operand whose coset is known is the base
	if !g.tag && h.tag {
		q = c.generic(h)
		return der(q), q
	}
	p = c.generic(g)
	return p, der(p)
}

func runC01(r *Run) {
	for _, recv := range ptypes {
		for _, o := range groupOps {
			switch {
			case o.eq && o.ar == 0, !o.eq && o.ar == 1:
				r.unary("group-law", o, recv)
			default:
				r.binary("group-law", o, recv)
			}
		}
	}
}

func (r *Run) binary(rule string, o op, recv ptype) {
	for _, a := range ptypes {
		if o.eq && a != recv {
			continue
		}
		for _, b := range ptypes {
			a, b := a, b
			r.Go(rule, fmt.Sprintf("%s.%s(%s, %s)", recv.name, o.name, a.name, b.name), func() {
				r.binaryT(rule, o, recv, a, b)
			})
		}
	}
}

func (r *Run) ptFn(rule string, t ptype, m string) *ssa.Function {
	n := r.ptNamed(t)
	if n == nil {
		r.Add(&Ob{Rule: rule, Construct: curvePkg + "." + t.name, Goal: "anchor resolves", OK: false, Detail: "type not found"})
		return nil
	}
	fn := r.ptMethod(n, m)
	if fn == nil {
		r.Add(&Ob{Rule: rule, Construct: curvePkg + "." + t.name + "." + m, Goal: "anchor resolves", OK: false, Detail: "method not found"})
	}
	return fn
}

func (r *Run) binaryT(rule string, o op, recv, a, b ptype) {
	fn := r.ptFn(rule, recv, o.name)
	nr, na, nb := r.ptNamed(recv), r.ptNamed(a), r.ptNamed(b)
	if fn == nil || na == nil || nb == nil {
		return
	}
	// who aliases whom: receiver = first, second operand; first = second
	type al struct{ ra, rb, ab bool }
	als := []al{{}}
	if o.eq {
		als = []al{{ra: true}}
	} else if recv == a {
		als = append(als, al{ra: true})
	}
	if recv == b && !o.eq {
		als = append(als, al{rb: true})
	}
	if a == b {
		als = append(als, al{ra: o.eq, ab: true})
		if recv == a {
			als = append(als, al{true, true, true})
		}
		if o.eq {
			als = als[:len(als)-1]
		}
	}
	for _, k := range combos(a, b) {
		for _, l := range als {
			if l.ab && (k.g[0] != k.g[1] || k.g[0].gen && k.r != rel{1, tN}) {
				continue
			}
			al := ""
			if l.ra && !o.eq {
				al += " [receiver is the first operand]"
			}
			if l.rb || o.eq && l.ab {
				al += " [receiver is the second operand]"
			}
			if l.ab && !o.eq {
				al += " [operands are the same variable]"
			}
			name := fmt.Sprintf("%s.%s.%s of %s, %s: %s%s", curvePkg, recv.name, o.name, a.name, b.name, k, al)
			c := r.newCrv(rule, name, fn)
			func() {
				defer c.recover()
				defer c.Done()
				p, q := c.operands(k)
				pv := c.newPoint(a, na, "first", c.coords(a.k, p, "1"))
				qv := pv
				if !l.ab {
					qv = c.newPoint(b, nb, "second", c.coords(b.k, q, "2"))
				}
				rv := pv
				if l.rb {
					rv = qv
				} else if !l.ra {
					rv = c.newPoint(recv, nr, "receiver", c.junk(recv, "old"))
				}
				args := []vg.Value{rv}
				if !o.eq {
					args = append(args, iface(na, pv))
				}
				args = append(args, iface(nb, qv))
				_, ret := c.It.Call(c.St, fn, args, nil)
				mp, mq := c.meaning(a, k.g[0], p), c.meaning(b, k.g[1], q)
				if recv.sub && (!a.sub || !b.sub) {
					c.must("general operands are refused by a subgroup type", ret, alg.False)
					return
				}
				c.result(o, recv, nr, rv, ret, []mpt{mp, mq}, gclass{})
				if !l.ra {
					c.must("the first operand still stands for the same point", ret, c.stands(a, c.read(a, na, pv), mp))
				}
				if !l.rb && !l.ab {
					c.must("the second operand still stands for the same point", ret, c.stands(b, c.read(b, nb, qv), mq))
				}
			}()
		}
	}
}

// result checks the receiver of an operation.
func (c *crv) result(o op, recv ptype, nr *types.Named, rv vg.Value, ret alg.Bdd, ops []mpt, g gclass) {
	var s mpt
	if o.fg != nil {
		s = o.fg(c, ops, g)
	} else {
		s = o.f(c, ops)
	}
	if recv.k == cAXTW && c.infinite(s) {
		c.must("a result at infinity is not stored in an affine type", ret, alg.False)
		return
	}
	c.noPanic()
	c.must("returns", c.C.Not(ret), alg.False)
	c.must("the result is "+o.name+" of the operands", ret, c.stands(recv, c.read(recv, nr, rv), s))
}

func (c *crv) infinite(p mpt) bool {
	if p.X1.IsZero() || p.Y1.IsZero() {
		return true
	}
	if !c.F.Unit(p.X1) || !c.F.Unit(p.Y1) {
		panic(vg.Undecided{Msg: c.Name + ": cannot tell whether the expected point is finite"})
	}
	return false
}

func (r *Run) unary(rule string, o op, recv ptype) {
	for _, a := range ptypes {
		if o.eq && a != recv {
			continue
		}
		a := a
		r.Go(rule, fmt.Sprintf("%s.%s(%s)", recv.name, o.name, a.name), func() {
			fn := r.ptFn(rule, recv, o.name)
			nr, na := r.ptNamed(recv), r.ptNamed(a)
			if fn == nil || na == nil {
				return
			}
			als := []bool{o.eq}
			if !o.eq && recv == a {
				als = append(als, true)
			}
			for _, g := range classesOf(a, false) {
				for _, same := range als {
					al := ""
					if same && !o.eq {
						al = " [receiver is the operand]"
					}
					name := fmt.Sprintf("%s.%s.%s of %s: %s%s", curvePkg, recv.name, o.name, a.name, g, al)
					c := r.newCrv(rule, name, fn)
					func() {
						defer c.recover()
						defer c.Done()
						p := c.point(g)
						pv := c.newPoint(a, na, "operand", c.coords(a.k, p, "1"))
						rv := pv
						if !same {
							rv = c.newPoint(recv, nr, "receiver", c.junk(recv, "old"))
						}
						args := []vg.Value{rv}
						if !o.eq {
							args = append(args, iface(na, pv))
						}
						_, ret := c.It.Call(c.St, fn, args, nil)
						mp := c.meaning(a, g, p)
						if recv.sub && !a.sub && !o.full {
							c.must("general operands are refused by a subgroup type", ret, alg.False)
							return
						}
						c.result(o, recv, nr, rv, ret, []mpt{mp}, g)
						if !same {
							c.must("the operand still stands for the same point", ret, c.stands(a, c.read(a, na, pv), mp))
						}
					}()
				}
			}
		})
	}
}

// recover turns an undecided question into a failed obligation.
func (c *crv) recover() {
	if x := recover(); x != nil {
		if u, ok := x.(vg.Undecided); ok && os.Getenv("DBGP") == "" {
			c.Fail("analysis decides", u.Msg)
			return
		}
		panic(x)
	}
}
