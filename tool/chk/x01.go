package chk

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/alg"
	"verif/vg"
)

const expo = "bandersnatch/exponents"

func init() {
	register(&Property{ID: "X01", Level: "proof", Technique: techVG, F: runX01,
		Note: "Exponent arithmetic: every exported operation is a congruence modulo twice the subgroup order with a fully reduced result, for all reduced operands and all aliasing patterns."})
	register(&Property{ID: "X02", Level: "proof", Technique: techVG, F: runX02,
		Note: "The short decomposition u, v of any exponent t satisfies u + eigenvalue*v = t modulo the subgroup order and |u|, |v| < 2^126, for every t; the 128-bit helpers are exact."})
}

func ivE() *big.Int { return sub1(bmul(Pexp, bi(2))) }

func (e *Env) bigArg(name string) (vg.Value, *alg.Poly) {
	v := e.It.FreshInt(name, alg.KInput, nil, nil, 0, true)
	return v, v.R.P
}

func runX01(r *Run) {
	const rule = "exponent-arith"
	E2 := bmul(Pexp, bi(2))
	S := func(name, what string, f func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: expo, Name: name, Hi: func(int) *big.Int { return ivE() }, Post: func(c *Case) {
			c.ModZ(what+" modulo 2*GroupOrder", c.Ret, c.Out(0).Sub(f(c)), E2)
			c.In2Big("result is reduced", c.Ret, c.Out(0), bi(0), ivE())
		}})
	}
	S("Exponent.Add", "z = x+y", func(c *Case) *alg.Poly { return c.In[1].Add(c.In[2]) })
	S("Exponent.Sub", "z = x-y", func(c *Case) *alg.Poly { return c.In[1].Sub(c.In[2]) })
	S("Exponent.Mul", "z = x*y", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[2]) })
	S("Exponent.Neg", "z = -x", func(c *Case) *alg.Poly { return c.In[1].Neg() })
	set := func(name, what string, f func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: expo, Name: name, Post: func(c *Case) {
			c.ModZ(what+" modulo 2*GroupOrder", c.Ret, c.Out(0).Sub(f(c)), E2)
			c.In2Big("result is reduced", c.Ret, c.Out(0), bi(0), ivE())
		}})
	}
	set("Exponent.SetZero", "z = 0", func(c *Case) *alg.Poly { return alg.KI(0) })
	set("Exponent.SetOne", "z = 1", func(c *Case) *alg.Poly { return alg.KI(1) })
	set("Exponent.SetUInt", "z = x", func(c *Case) *alg.Poly { return c.In[1] })
	set("Exponent.SetInt", "z = x", func(c *Case) *alg.Poly { return c.In[1] })
	set("Exponent.SetBigInt", "z = x", func(c *Case) *alg.Poly { return c.In[1] })
	rd := func(name string, post func(c *Case)) {
		r.Check(FnSpec{Rule: rule, Pkg: expo, Name: name, Hi: func(int) *big.Int { return ivE() }, Writes: []int{}, Post: post})
	}
	rd("Exponent.ToBigInt_Full", func(c *Case) {
		c.Zero("result is the reduced value", c.Ret, c.At(c.Res[0]).Sub(c.In[0]))
	})
	rd("Exponent.ToBigInt_Subgroup", func(c *Case) {
		o := c.At(c.Res[0])
		c.ModZ("result = z modulo GroupOrder", c.Ret, o.Sub(c.In[0]), Pexp)
		c.In2Big("result in [0, GroupOrder)", c.Ret, o, bi(0), sub1(Pexp))
	})
	rd("Exponent.ModuloP253", func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.ModZ("result = z modulo GroupOrder", c.Ret, o.Sub(c.In[0]), Pexp)
		c.In2Big("result in [0, GroupOrder)", c.Ret, o, bi(0), sub1(Pexp))
	})
	rd("Exponent.IsZero_Full", func(c *Case) { c.Iff("true iff z = 0", c.Cond(c.Res[0]), c.In[0], E2) })
	rd("Exponent.IsOne_Full", func(c *Case) { c.Iff("true iff z = 1", c.Cond(c.Res[0]), c.In[0].Sub(alg.KI(1)), E2) })
	// reduced values are 0 modulo the group order exactly for 0 and GroupOrder
	two := func(name string, a int64) {
		rd(name, func(c *Case) {
			b := c.Cond(c.Res[0])
			p0 := c.In[0].Sub(alg.KI(a))
			p1 := p0.Sub(alg.K(Pexp))
			c.ModZ(fmt.Sprintf("true implies z = %d modulo GroupOrder", a), c.C.And(c.Ret, b), p0, Pexp)
			nb := c.C.And(c.Ret, c.C.Not(b))
			c.Never(fmt.Sprintf("true for z = %d", a), c.C.And(nb, c.C.EqR(c.C.Tighten(alg.Rng{P: p0}), alg.KR(bi(0)))))
			c.Never(fmt.Sprintf("true for z = GroupOrder+%d", a), c.C.And(nb, c.C.EqR(c.C.Tighten(alg.Rng{P: p1}), alg.KR(bi(0)))))
		})
	}
	two("Exponent.IsZero_Subgroup", 0)
	two("Exponent.IsOne_Subgroup", 1)
	r.Wait()
}

func runX02(r *Run) {
	const rule = "glv"
	lambda := mustBig("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	// the eigenvalue of the specification: a square root of -2 modulo the group order
	r.Ok("glv", "eigenvalue", 0, "eigenvalue^2 = -2 modulo the group order", new(big.Int).Mod(badd(bmul(lambda, lambda), bi(2)), Pexp).Sign() == 0, "")
	tb := r.Find(rule, expo, "glvExponent.ToBigInt")
	if tb == nil {
		return
	}
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "GLV_representation", Writes: []int{}, Hi: func(int) *big.Int { return ivE() }, Post: func(c *Case) {
		agg := c.It.Force(c.Res[0]).(*vg.AggV)
		var o [2]*alg.Poly
		for i := range o {
			p := c.It.NewObj(c.St, "uv", tb.Params[0].Type().(*types.Pointer).Elem(), agg.E[i])
			res, ret := c.It.Call(c.St, tb, []vg.Value{p}, nil)
			c.Never("conversion returns", c.C.And(c.Ret, c.C.Not(ret)))
			o[i] = c.At(res[0])
			c.In2Big([]string{"|u| < 2^126", "|v| < 2^126"}[i], c.Ret, o[i], new(big.Int).Neg(sub1(two(126))), sub1(two(126)))
		}
		c.ModZ("u + eigenvalue*v = t modulo GroupOrder", c.Ret, o[0].Add(o[1].Scale(lambda)).Sub(c.In[0]), Pexp)
	}})
	M := two(128)
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "add128", Post: func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.ModZ("result = x+y modulo 2^128", c.Ret, o.Sub(c.In[0]).Sub(c.In[1]), M)
		c.In2Big("result in [0, 2^128)", c.Ret, o, bi(0), sub1(M))
	}})
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "mul128", Post: func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.ModZ("result = x*y modulo 2^128", c.Ret, o.Sub(c.C.Mul(c.In[0], c.In[1])), M)
	}})
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "uint128.SetBigInt", Post: func(c *Case) {
		c.ModZ("z = x modulo 2^128", c.Ret, c.Out(0).Sub(c.In[1]), M)
	}})
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "uint128.ToBigInt", Writes: []int{}, Post: func(c *Case) {
		c.Zero("result = z", c.Ret, c.At(c.Res[0]).Sub(c.In[0]))
	}})
	r.Check(FnSpec{Rule: rule, Pkg: expo, Name: "glvExponent.SetBigInt", Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
		if i != 1 {
			return nil, false
		}
		v := e.It.FreshInt("x", alg.KInput, new(big.Int).Neg(sub1(M)), sub1(M), 0, true)
		return e.It.NewObj(e.St, "x", Elem(t), v), true
	}, Post: func(c *Case) {
		res, ret := c.It.Call(c.St, tb, []vg.Value{c.Args[0]}, nil)
		c.Never("conversion returns", c.C.And(c.Ret, c.C.Not(ret)))
		c.Zero("reading the value back gives x", c.Ret, c.At(res[0]).Sub(c.In[1]))
	}})
	for _, name := range []string{"uint128.Bit", "glvExponent.Bit"} {
		for k := 0; k < 128; k++ {
			k := k
			r.CheckNamed(fmt.Sprintf("%s(%d)", name, k), FnSpec{Rule: rule, Pkg: expo, Name: name, Writes: []int{}, Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
				if i == 1 {
					return vg.KInt(int64(k), 64, false), true
				}
				return nil, false
			}, Post: func(c *Case) {
				v := c.Pre0[0].(*vg.AggV)
				if len(v.E) == 2 {
					if w, ok := v.E[0].(*vg.AggV); ok {
						v = w
					}
				}
				q, _ := c.C.DivMod(v.E[k/64].(*vg.IntV).R, two(uint(k%64)), "bit")
				_, b := c.C.DivMod(q, bi(2), "bit")
				c.Zero("result is that bit of the number", c.Ret, c.MustNum(c.Res[0]).Sub(b.P))
			}})
		}
	}
	r.Wait()
}
