package chk

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/alg"
	"verif/vg"
)

func init() {
	register(&Property{ID: "F04", Level: "proof", Technique: techVG, F: runF04,
		Note: "Every ring operation of the field element type is proven on the Montgomery representation, for all admissible (also non-unique) representations and all aliasing patterns; Montgomery multiplication and conversion enter through the contracts that F03 (and the Mul obligation here) establish."})
	register(&Property{ID: "F05", Level: "proof", Technique: techVG, F: runF05,
		Note: "Predicates, comparison, sign and normalisation depend only on the field element, not on its representation; decided by case distinction over gates with linear bounds. Not covered: that CmpAbs recognises the negative 2p-z of a representation z above p."})
	register(&Property{ID: "F06", Level: "proof", Technique: techVG, F: runF06,
		Note: "Conversions between field elements and integers, for all inputs."})
}

const feT = "FieldElement"

// fieldArg tells whether a type is (a pointer to) the Montgomery field element.
func (r *Run) isFE(t types.Type) bool {
	ft := r.P.Type(fe, feT)
	return ft != nil && types.Identical(types.Unalias(Elem(t)), types.Unalias(ft))
}

// feCase bounds the field element arguments by the carry-avoiding interval.
func (r *Run) feArg(e *Env, i int, t types.Type) (vg.Value, bool) {
	if r.isFE(t) {
		v, _ := e.MakeArg(pname(e.Fn, i), t, ivC())
		return v, true
	}
	return nil, false
}

// useMontgomery installs the contracts established by F03 and by the Mul obligations.
func (e *Env) useMontgomery(mul bool) {
	m := func(name string, pre []int, out func(args []*alg.Poly) *alg.Poly, hi *big.Int) {
		fn := e.R.P.Func(fe, name)
		if fn == nil || fn == e.Fn {
			return
		}
		e.It.Models = append([]vg.Model{contractModel(fn, func(st *vg.State, args []vg.Value) vg.Value {
			in := make([]*alg.Poly, len(args))
			for i, a := range args {
				if i == 0 && fn.Signature.Results().Len() == 0 { // the receiver is only written
					continue
				}
				in[i] = e.MustNum(e.It.Load(st, a))
			}
			for _, k := range pre {
				e.In("precondition of "+name+" (range)", e.It.PathCond(), in[k], new(big.Int), ivC())
			}
			v := e.residue(name, out(in), hi)
			if fn.Signature.Results().Len() == 1 {
				return v
			}
			e.storeWords(st, args[0], v)
			return &vg.TupleV{}
		})}, e.It.Models...)
	}
	mulmod := func(a []*alg.Poly) *alg.Poly { return e.C.Mul(a[1], a[2]).Scale(Rinv).Mod(Pbase) }
	m("Uint256.MulMontgomery_c", []int{1, 2}, mulmod, ivC())
	m("Uint256.FromMontgomeryRepresentation_fc", []int{1}, func(a []*alg.Poly) *alg.Poly { return a[1].Scale(Rinv).Mod(Pbase) }, ivF())
	m("Uint256.ToNonMontgomery_fc", []int{0}, func(a []*alg.Poly) *alg.Poly { return a[0].Scale(Rinv).Mod(Pbase) }, ivF())
	m("Uint256.ConvertToMontgomeryRepresentation_c", []int{1}, func(a []*alg.Poly) *alg.Poly { return a[1].Scale(R256).Mod(Pbase) }, ivC())
	if mul {
		m("FieldElement.Mul", []int{1, 2}, mulmod, ivC())
	}
}

// residue is a 256-bit number congruent to f modulo the base field size, within [0,hi].
func (e *Env) residue(name string, f *alg.Poly, hi *big.Int) *vg.AggV {
	// a residue below the modulus is unique
	key := f.Key()
	if hi != nil && hi.Cmp(Pbase) < 0 {
		if w, ok := e.resid[key]; ok {
			return w
		}
	}
	k := e.It.FreshInt("k", alg.KOpq, nil, nil, 0, true)
	w := &vg.AggV{E: make([]vg.Value, 4)}
	rest := alg.KI(0)
	for i := 1; i < 4; i++ {
		v := e.It.FreshInt(name+"w", alg.KInput, new(big.Int), sub1(two(64)), 64, false)
		w.E[i] = v
		rest = rest.Add(v.R.P.Scale(two(uint(64 * i))))
	}
	w.E[0] = e.It.DefInt(f.Sub(k.R.P.Scale(Pbase)).Sub(rest), 64)
	if hi != nil {
		e.C.AddFact(alg.True, f.Sub(k.R.P.Scale(Pbase)), new(big.Int), hi, "contract range")
		if hi.Cmp(Pbase) < 0 {
			if e.resid == nil {
				e.resid = map[string]*vg.AggV{}
			}
			e.resid[key] = w
		}
	}
	return w
}

// storeWords writes four limbs to a Uint256 or the words of a field element.
func (e *Env) storeWords(st *vg.State, ptr vg.Value, w *vg.AggV) {
	old, ok := e.It.Load(st, ptr).(*vg.AggV)
	if ok && len(old.E) != 4 {
		n := &vg.AggV{E: append([]vg.Value{}, old.E...)}
		for i, x := range n.E {
			if a, ok := x.(*vg.AggV); ok && len(a.E) == 4 {
				n.E[i] = w
			}
		}
		e.It.Store(st, ptr, n)
		return
	}
	e.It.Store(st, ptr, w)
}

// intval is the integer read as an argument of a field operation.
func runF04(r *Run) {
	const rule = "field-ring"
	add := func(name, what string, writes []int, contracts bool, rel func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Writes: writes,
			Arg: r.feArg,
			Setup: func(e *Env) {
				if contracts {
					e.useMontgomery(true)
				}
			},
			Post: func(c *Case) {
				c.ModZ(what+" (on the Montgomery representation, modulo the base field size)", c.Ret, rel(c), Pbase)
				c.In2Big("result is an admissible representation", c.Ret, c.Out(0), bi(0), ivC())
			}})
	}
	in := func(c *Case, i int) *alg.Poly { return c.In[i] }
	out := func(c *Case) *alg.Poly { return c.Out(0) }
	plus := func(name string, i, j int) {
		add(name, "z = x+y", nil, false, func(c *Case) *alg.Poly { return out(c).Sub(in(c, i)).Sub(in(c, j)) })
	}
	minus := func(name string, i, j int) {
		add(name, "z = x-y", nil, false, func(c *Case) *alg.Poly { return out(c).Sub(in(c, i)).Add(in(c, j)) })
	}
	times := func(name string, contracts bool, i, j int) {
		add(name, "z = x*y", nil, contracts, func(c *Case) *alg.Poly {
			return out(c).Scale(R256).Sub(c.C.Mul(in(c, i), in(c, j)))
		})
	}
	scaled := func(name string, i int, k int64) {
		add(name, "z = constant * x", nil, false, func(c *Case) *alg.Poly { return out(c).Sub(in(c, i).Scale(bi(k))) })
	}
	plus("Add", 1, 2)
	minus("Sub", 1, 2)
	plus("AddEq", 0, 1)
	minus("SubEq", 0, 1)
	scaled("Double", 1, 2)
	scaled("DoubleEq", 0, 2)
	scaled("Neg", 1, -1)
	scaled("NegEq", 0, -1)
	scaled("MulFive", 1, 5)
	scaled("MulEqFive", 0, 5)
	times("Mul", false, 1, 2)
	times("MulEq", true, 0, 1)
	times("Square", true, 1, 1)
	times("SquareEq", true, 0, 0)
	// operations with machine integers: y enters as 2^256*y
	num := func(name, what string, rel func(c *Case, y *alg.Poly) *alg.Poly) {
		for _, s := range []string{"Int64", "Uint64"} {
			add(name+s, what, nil, true, func(c *Case) *alg.Poly { return rel(c, in(c, 2)) })
		}
	}
	num("Add", "z = x + integer", func(c *Case, y *alg.Poly) *alg.Poly { return out(c).Sub(in(c, 1)).Sub(y.Scale(R256)) })
	num("Sub", "z = x - integer", func(c *Case, y *alg.Poly) *alg.Poly { return out(c).Sub(in(c, 1)).Add(y.Scale(R256)) })
	num("Mul", "z = x * integer", func(c *Case, y *alg.Poly) *alg.Poly { return out(c).Sub(c.C.Mul(in(c, 1), y)) })
	add("SetZero", "z = 0", nil, false, out)
	add("SetOne", "z = 1", nil, false, func(c *Case) *alg.Poly { return out(c).Sub(alg.K(R256)) })
	r.Wait()
}

func runF05(r *Run) {
	const rule = "field-predicates"
	ro := func(name string, contracts bool, writes []int, post func(c *Case)) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Arg: r.feArg, Writes: writes, Setup: func(e *Env) {
			if contracts {
				e.useMontgomery(true)
			}
		}, Post: post})
	}
	modzero := func(c *Case, what string, b alg.Bdd, d *alg.Poly, lo, hi int64) {
		c.ModZ(what+": true implies equal in the field", c.C.And(c.Ret, b), d, Pbase)
		nb := c.C.And(c.Ret, c.C.Not(b))
		for k := lo; k <= hi; k++ {
			q := d.Sub(alg.K(bmul(bi(k), Pbase)))
			c.Never(what+": false implies different in the field (difference "+bi(k).String()+" times the modulus)", c.C.And(nb, c.C.EqR(c.C.Tighten(alg.Rng{P: q}), alg.KR(bi(0)))))
		}
	}
	// related analyses the function on two representations x = s*z + k*p of related elements
	relatedIn := func(name string, s, k int64, lo, hi *big.Int, writes []int, post func(c *Case)) {
		in := ""
		if lo != nil || hi != nil {
			in = fmt.Sprintf(", %v <= z <= %v", lo, hi)
		}
		r.CheckNamed(fmt.Sprintf("%s.%s (x = %d*z%+d*p%s)", feT, name, s, k, in), FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Writes: writes, NoAlias: true,
			Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
				if i == 1 && r.isFE(t) {
					v, _ := e.MakeArg("x", t, nil)
					e.storeWords(e.St, v, e.relWords(e.zwords, s, k))
					return v, true
				}
				v, ok := r.feArg(e, i, t)
				if ok {
					for _, x := range e.It.Load(e.St, v).(*vg.AggV).E {
						if w, ok := x.(*vg.AggV); ok && len(w.E) == 4 {
							e.zwords = w
						}
					}
					if i == 0 && in != "" {
						p := e.At(v)
						e.C.AddFact(alg.True, p, lo, hi, "case")
						e.C.AddFact(alg.True, alg.K(bmul(bi(k), Pbase)).Add(p.Scale(bi(s))), new(big.Int), sub1(two(256)), "case")
					}
				}
				return v, ok
			}, Post: post})
	}
	related := func(name string, s, k int64, writes []int, post func(c *Case)) {
		relatedIn(name, s, k, nil, nil, writes, post)
	}
	ro("IsZero", false, []int{}, func(c *Case) { modzero(c, "zero test", c.Cond(c.Res[0]), c.In[0], 0, 2) })
	ro("IsOne", false, []int{}, func(c *Case) { modzero(c, "one test", c.Cond(c.Res[0]), c.In[0].Sub(alg.K(R256)), -3, 0) })
	// equality may normalise its arguments, but must not change their values
	keep := func(c *Case) {
		for i := 0; i < 2; i++ {
			c.ModZ("operand "+pname(c.Fn, i)+" keeps its value", c.Ret, c.Out(i).Sub(c.In[i]), Pbase)
			c.In2Big("operand "+pname(c.Fn, i)+" stays admissible", c.Ret, c.Out(i), bi(0), ivC())
		}
	}
	ro("IsEqual", false, []int{0, 1}, func(c *Case) {
		c.ModZ("true implies equal in the field", c.C.And(c.Ret, c.Cond(c.Res[0])), c.In[0].Sub(c.In[1]), Pbase)
		keep(c)
	})
	for k := int64(-1); k <= 1; k++ {
		related("IsEqual", 1, k, []int{0, 1}, func(c *Case) {
			c.Never("equal elements are reported equal", c.C.And(c.Ret, c.C.Not(c.Cond(c.Res[0]))))
		})
	}
	ro("CmpAbs", false, []int{0, 1}, func(c *Case) {
		a, x := c.Cond(c.Res[0]), c.Cond(c.Res[1])
		c.ModZ("exact equality implies equal in the field", c.C.And(c.Ret, x), c.In[0].Sub(c.In[1]), Pbase)
		c.ModZ("absolute equality without exact equality implies z = -x", c.C.And(c.C.And(c.Ret, a), c.C.Not(x)), c.In[0].Add(c.In[1]), Pbase)
		c.Never("exact equality implies absolute equality", c.C.And(c.C.And(c.Ret, x), c.C.Not(a)))
		keep(c)
	})
	for k := int64(-1); k <= 1; k++ {
		related("CmpAbs", 1, k, []int{0, 1}, func(c *Case) {
			c.Never("equal elements are reported equal", c.C.And(c.Ret, c.C.Not(c.Cond(c.Res[1]))))
		})
	}
	for k := int64(0); k <= 4; k++ {
		post := func(c *Case) {
			c.Never("negatives are reported equal in absolute value", c.C.And(c.Ret, c.C.Not(c.Cond(c.Res[0]))))
		}
		if k != 2 {
			related("CmpAbs", -1, k, []int{0, 1}, post)
			continue
		}
		relatedIn("CmpAbs", -1, k, new(big.Int), sub1(Pbase), []int{0, 1}, post)
		relatedIn("CmpAbs", -1, k, Pbase, Pbase, []int{0, 1}, post)
		// z > p with x = 2p-z exceeds the budget of cases
	}
	ro("Normalize", false, nil, func(c *Case) {
		c.ModZ("value is kept", c.Ret, c.Out(0).Sub(c.In[0]), Pbase)
		c.In2Big("representation is the unique reduced one", c.Ret, c.Out(0), bi(0), ivF())
	})
	ro("RerandomizeRepresentation", false, nil, func(c *Case) {
		c.ModZ("value is kept", c.Ret, c.Out(0).Sub(c.In[0]), Pbase)
		c.In2Big("representation is admissible", c.Ret, c.Out(0), bi(0), ivC())
	})
	// sign: +1 on [1,(p-1)/2], -1 on [(p+1)/2, p-1], 0 on 0
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + ".Sign", Arg: r.feArg, Writes: []int{}, Setup: func(e *Env) { e.useMontgomery(true) }, Post: func(c *Case) {
		v := c.It.Force(c.Res[0]).(*vg.IntV)
		g := func(k int64) alg.Bdd { return c.C.EqR(v.R, alg.KR(bi(k))) }
		// the plain value of z
		w := c.MustNum(c.residue("plain", c.In[0].Scale(Rinv).Mod(Pbase), ivF()))
		h := new(big.Int).Rsh(Pbase, 1)
		c.ModZ("0 implies z = 0", c.C.And(c.Ret, g(0)), c.In[0], Pbase)
		c.In2Big("+1 implies 1 <= z <= (p-1)/2", c.C.And(c.Ret, g(1)), w, bi(0), h)
		c.In2Big("-1 implies z > (p-1)/2", c.C.And(c.Ret, g(-1)), w, badd(h, bi(1)), nil)
		for k := int64(0); k <= 1; k++ {
			q := c.In[0].Sub(alg.K(bmul(bi(k), Pbase)))
			c.Never("zero has sign 0", c.C.And(c.C.And(c.Ret, c.C.Not(g(0))), c.C.EqR(c.C.Tighten(alg.Rng{P: q}), alg.KR(bi(0)))))
		}
		c.Never("result is -1, 0 or 1", c.C.And(c.Ret, c.C.Not(c.C.Or(g(0), c.C.Or(g(1), g(-1))))))
	}})
	r.Wait()
}

func runF06(r *Run) {
	const rule = "field-convert"
	set := func(name, what string) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Arg: r.feArg, Setup: func(e *Env) { e.useMontgomery(true) }, Post: func(c *Case) {
			c.ModZ(what, c.Ret, c.Out(0).Sub(c.In[1].Scale(R256)), Pbase)
			c.In2Big("result is an admissible representation", c.Ret, c.Out(0), bi(0), ivC())
		}})
	}
	set("SetUint64", "z = x")
	set("SetInt64", "z = x")
	set("SetUint256", "z = x")
	set("SetBigInt", "z = x")
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + ".ToBigInt", Arg: r.feArg, Writes: []int{}, Setup: func(e *Env) { e.useMontgomery(true) }, Post: func(c *Case) {
		o := c.At(c.Res[0])
		c.ModZ("result = z", c.Ret, o.Scale(R256).Sub(c.In[0]), Pbase)
		c.In2Big("result in [0, p)", c.Ret, o, bi(0), ivF())
	}})
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + ".ToUint256", Arg: r.feArg, Writes: []int{1}, Setup: func(e *Env) { e.useMontgomery(true) }, Post: func(c *Case) {
		o := c.Out(1)
		c.ModZ("result = z", c.Ret, o.Scale(R256).Sub(c.In[0]), Pbase)
		c.In2Big("result in [0, p)", c.Ret, o, bi(0), ivF())
	}})
	narrow := func(name string, lo, hi *big.Int) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Arg: r.feArg, Writes: []int{}, Setup: func(e *Env) { e.useMontgomery(true) }, Post: func(c *Case) {
			isnil := c.NilErr(c.Res[1])
			ok := c.C.And(c.Ret, isnil)
			bad := c.C.And(c.Ret, c.C.Not(isnil))
			o := c.MustNum(c.Res[0])
			c.ModZ("without error, result = z", ok, o.Scale(R256).Sub(c.In[0]), Pbase)
			c.Zero("with an error, result = 0", bad, o)
			w := c.MustNum(c.residue("plain", c.In[0].Scale(Rinv).Mod(Pbase), ivF()))
			if lo.Sign() == 0 {
				c.In2Big("an error implies z does not fit", bad, w, badd(hi, bi(1)), nil)
			} else {
				c.In2Big("an error implies z exceeds the positive range", bad, w, badd(hi, bi(1)), nil)
				c.In2Big("an error implies z exceeds the negative range", bad, w, nil, bsub(badd(Pbase, lo), bi(1)))
			}
		}})
	}
	narrow("ToUint64", bi(0), sub1(two(64)))
	narrow("ToInt64", new(big.Int).Neg(two(63)), sub1(two(63)))
	r.Wait()
}

// relWords are the limbs of s*w + k*p, which is assumed to be admissible.
func (e *Env) relWords(w *vg.AggV, s, k int64) *vg.AggV {
	out := &vg.AggV{}
	total := alg.KI(0)
	carry := alg.KR(bi(0))
	kp := bmul(bi(k), Pbase)
	for i := 0; i < 4; i++ {
		iv := w.E[i].(*vg.IntV)
		total = total.Add(iv.R.P.Scale(bi(s)).Scale(two(uint(64 * i))))
	}
	total = total.Add(alg.K(kp))
	e.Bound(total, ivC())
	for i := 0; i < 4; i++ {
		iv := w.E[i].(*vg.IntV)
		m := new(big.Int).Rsh(new(big.Int).Abs(kp), uint(64*i))
		if i < 3 {
			m.Mod(m, two(64))
		}
		if k < 0 {
			m.Neg(m)
		}
		a := iv.R
		if s < 0 {
			a = e.C.NegR(a)
		}
		t := e.C.AddR(e.C.AddR(a, alg.KR(m)), carry)
		if i == 3 {
			e.C.AddFact(alg.True, t.P, new(big.Int), sub1(two(64)), "admissible")
			t.Lo, t.Hi = new(big.Int), sub1(two(64))
			out.E = append(out.E, &vg.IntV{R: t, W: 64})
			break
		}
		q, r := e.C.DivMod(t, two(64), "rel")
		out.E = append(out.E, &vg.IntV{R: r, W: 64})
		carry = q
	}
	return out
}
