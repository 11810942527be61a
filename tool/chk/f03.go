package chk

import "verif/alg"

func runF03(r *Run) {
	const rule = "montgomery"
	mont := func(name string, f func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Hi: allHi(ivC()), Post: func(c *Case) {
			c.ModZ("2^256 z = product modulo the base field size", c.Ret, c.Out(0).Scale(R256).Sub(f(c)), Pbase)
			c.In2Big("result interval", c.Ret, c.Out(0), bi(0), ivC())
		}})
	}
	mont("Uint256.MulMontgomery_c", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[2]) })
	mont("Uint256.SquareMontgomery_c", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[1]) })
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.FromMontgomeryRepresentation_fc", Hi: allHi(ivC()), Post: func(c *Case) {
		c.ModZ("2^256 z = x modulo the base field size", c.Ret, c.Out(0).Scale(R256).Sub(c.In[1]), Pbase)
		c.In2Big("result interval", c.Ret, c.Out(0), bi(0), ivF())
	}})
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.ToNonMontgomery_fc", Hi: allHi(ivC()), Writes: []int{}, Post: func(c *Case) {
		o := c.MustNum(c.Res[0])
		c.ModZ("2^256 r = z modulo the base field size", c.Ret, o.Scale(R256).Sub(c.In[0]), Pbase)
		c.In2Big("result interval", c.Ret, o, bi(0), ivF())
	}})
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.ConvertToMontgomeryRepresentation_c", Hi: allHi(ivC()), Post: func(c *Case) {
		c.ModZ("z = 2^256 x modulo the base field size", c.Ret, c.Out(0).Sub(c.In[1].Scale(R256)), Pbase)
		c.In2Big("result interval", c.Ret, c.Out(0), bi(0), ivC())
	}})
	r.Wait()
}
