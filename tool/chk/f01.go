package chk

import (
	"fmt"
	"go/types"

	"verif/alg"
	"verif/vg"
)

const fe = "bandersnatch/fieldElements"

func init() {
	register(&Property{ID: "F01", Level: "proof", Technique: techVG, F: runF01,
		Note: "Every exported operation of the 256/512-bit integer types is evaluated for all inputs and all aliasing patterns of its pointer arguments; the result must equal the integer specification as a polynomial identity."})
}

const techVG = "Forward interprocedural dataflow over SSA: value numbering with polynomial normal forms over input limbs and carries, gated joins, constant-trip loops, and a linear-inequality bound domain; no code is executed."

func runF01(r *Run) {
	const rule = "uint-arith"
	M := R256
	S := func(name string, post func(c *Case)) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Post: post})
	}
	mod := func(what string, f func(c *Case) *alg.Poly) func(c *Case) {
		return func(c *Case) {
			c.ModZ(what, c.Ret, c.Out(0).Sub(f(c)), M)
		}
	}
	S("Uint256.Add", mod("z = x+y mod 2^256", func(c *Case) *alg.Poly { return c.In[1].Add(c.In[2]) }))
	S("Uint256.Sub", mod("z = x-y mod 2^256", func(c *Case) *alg.Poly { return c.In[1].Sub(c.In[2]) }))
	S("Uint256.Mul", mod("z = x*y mod 2^256", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[2]) }))
	S("Uint256.Increment", mod("z = x+1 mod 2^256", func(c *Case) *alg.Poly { return c.In[1].Add(alg.KI(1)) }))
	S("Uint256.IncrementEq", mod("z = z+1 mod 2^256", func(c *Case) *alg.Poly { return c.In[0].Add(alg.KI(1)) }))
	S("Uint256.Decrement", mod("z = x-1 mod 2^256", func(c *Case) *alg.Poly { return c.In[1].Sub(alg.KI(1)) }))
	S("Uint256.DecrementEq", mod("z = z-1 mod 2^256", func(c *Case) *alg.Poly { return c.In[0].Sub(alg.KI(1)) }))
	S("Uint256.AddAndReturnCarry", func(c *Case) {
		k := c.MustNum(c.Res[0])
		c.Zero("z + 2^256 carry = x+y", c.Ret, c.Out(0).Add(k.Scale(M)).Sub(c.In[1].Add(c.In[2])))
		c.In2("carry is a bit", k, 0, 1)
	})
	S("Uint256.SubAndReturnBorrow", func(c *Case) {
		k := c.MustNum(c.Res[0])
		c.Zero("z - 2^256 borrow = x-y", c.Ret, c.Out(0).Sub(k.Scale(M)).Sub(c.In[1].Sub(c.In[2])))
		c.In2("borrow is a bit", k, 0, 1)
	})
	zero := func(what string, f func(c *Case) *alg.Poly) func(c *Case) {
		return func(c *Case) { c.Zero(what, c.Ret, c.Out(0).Sub(f(c))) }
	}
	S("Uint256.SetZero", zero("z = 0", func(c *Case) *alg.Poly { return alg.KI(0) }))
	S("Uint256.SetOne", zero("z = 1", func(c *Case) *alg.Poly { return alg.KI(1) }))
	S("Uint256.SetUint64", zero("z = x", func(c *Case) *alg.Poly { return c.In[1] }))
	S("Uint512.SetUint64", zero("z = x", func(c *Case) *alg.Poly { return c.In[1] }))
	S("Uint256.SetUint256", zero("z = x", func(c *Case) *alg.Poly { return c.In[1] }))
	S("Uint512.SetUint256", zero("z = x", func(c *Case) *alg.Poly { return c.In[1] }))
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.ToUint256", Writes: []int{1}, Post: func(c *Case) {
		c.Zero("x = z", c.Ret, c.Out(1).Sub(c.In[0]))
	}})
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint512.ToUint256", Writes: []int{1},
		Panic: func(c *Case) alg.Bdd {
			// allowed exactly when z >= 2^256
			return c.GeConst(c.In[0], M, c.InR(0))
		},
		Post: func(c *Case) {
			c.Zero("x = z", c.Ret, c.Out(1).Sub(c.In[0]))
		}})
	S("Uint512.LongMul", zero("z = x*y", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[2]) }))
	S("Uint512.LongSquare", zero("z = x*x", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[1]) }))
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "LongMulUint64", Writes: []int{0}, Post: func(c *Case) {
		c.Zero("target = x*y", c.Ret, c.Out(0).Sub(c.C.Mul(c.In[1], c.In[2])))
	}})
	// shifts
	S("Uint256.ShiftRightEq_64", func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.Zero("z = 2^64 z' + out", c.Ret, c.Out(0).Scale(two(64)).Add(o).Sub(c.In[0]))
	})
	S("Uint256.ShiftLeftEq_64", func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.Zero("2^64 z = z' + 2^256 out", c.Ret, c.Out(0).Add(o.Scale(M)).Sub(c.In[0].Scale(two(64))))
	})
	for a := 0; a <= 64; a++ {
		a := a
		r.CheckNamed(fmt.Sprintf("Uint256.ShiftRightEq(amount=%d)", a), FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.ShiftRightEq",
			Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
				if i == 1 {
					return vg.KInt(int64(a), 64, false), true
				}
				return nil, false
			},
			Post: func(c *Case) {
				d := c.In[0].Sub(c.Out(0).Scale(two(uint(a))))
				c.In2Big("0 <= z - 2^amount*z' < 2^amount", c.Ret, d, bi(0), sub1(two(uint(a))))
			}})
	}
	// predicates
	S("Uint256.IsZero", func(c *Case) { c.Iff("IsZero iff z = 0", c.Cond(c.Res[0]), c.In[0], M) })
	S("Uint256.IsOne", func(c *Case) { c.Iff("IsOne iff z = 1", c.Cond(c.Res[0]), c.In[0].Sub(alg.KI(1)), M) })
	S("Uint256.IsLessThan", func(c *Case) {
		b := c.Cond(c.Res[0])
		d := c.In[0].Sub(c.In[1])
		c.In2Big("true implies z < x", c.C.And(c.Ret, b), d, nil, bi(-1))
		c.In2Big("false implies z >= x", c.C.And(c.Ret, c.C.Not(b)), d, bi(0), nil)
	})
	S("Uint256.Cmp", func(c *Case) {
		d := c.In[0].Sub(c.In[1])
		v := c.It.Force(c.Res[0]).(*vg.IntV)
		lt := c.C.EqR(v.R, alg.KR(bi(-1)))
		eq := c.C.EqR(v.R, alg.KR(bi(0)))
		gt := c.C.EqR(v.R, alg.KR(bi(1)))
		c.In2Big("-1 implies z < x", c.C.And(c.Ret, lt), d, nil, bi(-1))
		c.In2Big("+1 implies z > x", c.C.And(c.Ret, gt), d, bi(1), nil)
		c.Zero("0 implies z = x", c.C.And(c.Ret, eq), d)
		c.Never("result is -1, 0 or 1", c.C.And(c.Ret, c.C.Not(c.C.Or(lt, c.C.Or(eq, gt)))))
	})
	S("Uint256.BitLen", func(c *Case) {
		c.BitLen("result is the bit length of z", c.MustNum(c.Res[0]), c.It.Force(c.Pre0[0]).(*vg.AggV).E)
	})
	r.Wait()
}
