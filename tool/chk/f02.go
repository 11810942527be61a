package chk

import (
	"math/big"

	"verif/alg"
	"verif/vg"
)

func init() {
	register(&Property{ID: "F02", Level: "proof", Technique: techVG, F: runF02,
		Note: "Each reduction operation must return a value congruent to its specification modulo the base field size and inside the interval promised by its suffix, for all inputs inside the interval required by its suffix and all aliasing patterns."})
	register(&Property{ID: "F03", Level: "proof", Technique: techVG, F: runF03,
		Note: "Montgomery multiplication, squaring and conversion: congruence 2^256*z = x*y modulo the base field size and the promised interval, for all inputs in the carry-avoiding interval and all aliasing patterns."})
}

// intervals (inclusive upper bounds)
func ivA() *big.Int { return sub1(R256) }
func ivB() *big.Int { return sub1(bmul(Pbase, bi(2))) }
func ivC() *big.Int { return sub1(bsub(R256, Pbase)) }
func ivF() *big.Int { return sub1(Pbase) }

func allHi(h *big.Int) func(int) *big.Int { return func(int) *big.Int { return h } }

// cong demands out == f mod p and 0 <= out <= hi.
func cong(what string, hi *big.Int, f func(c *Case) *alg.Poly) func(c *Case) {
	return func(c *Case) {
		c.ModZ(what+" modulo the base field size", c.Ret, c.Out(0).Sub(f(c)), Pbase)
		if hi != nil {
			c.In2Big("result interval", c.Ret, c.Out(0), new(big.Int), hi)
		}
	}
}

func runF02(r *Run) {
	const rule = "mod-reduce"
	S := func(name string, in, out *big.Int, what string, f func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Hi: allHi(in), Post: cong(what, out, f)})
	}
	add := func(c *Case) *alg.Poly { return c.In[1].Add(c.In[2]) }
	sub := func(c *Case) *alg.Poly { return c.In[1].Sub(c.In[2]) }
	self := func(c *Case) *alg.Poly { return c.In[0] }
	S("Uint256.AddAndReduce_b", ivB(), ivB(), "z = x+y", add)
	S("Uint256.AddAndReduce_c", ivC(), ivC(), "z = x+y", add)
	S("Uint256.SubAndReduce_b", ivB(), ivB(), "z = x-y", sub)
	S("Uint256.SubAndReduce_c", ivC(), ivC(), "z = x-y", sub)
	S("Uint256.AddEqAndReduce_a", nil, nil, "z = z+x", func(c *Case) *alg.Poly { return c.In[0].Add(c.In[1]) })
	S("Uint256.SubEqAndReduce_a", nil, nil, "z = z-x", func(c *Case) *alg.Poly { return c.In[0].Sub(c.In[1]) })
	S("Uint256.DoubleEqAndReduce_a", nil, nil, "z = 2z", func(c *Case) *alg.Poly { return c.In[0].Scale(bi(2)) })
	S("Uint256.Reduce", nil, ivF(), "z = z", self)
	S("Uint256.Reduce_fa", nil, ivF(), "z = z", self)
	S("Uint256.Reduce_ca", nil, ivC(), "z = z", self)
	S("Uint256.Reduce_fb", ivB(), ivF(), "z = z", self)
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: "Uint256.ComputeModularNegative_Weak_a", Writes: []int{}, Post: func(c *Case) {
		c.ModZ("r = -z modulo the base field size", c.Ret, c.MustNum(c.Res[0]).Add(c.In[0]), Pbase)
	}})
	S("Uint256.ReduceUint512ToUint256_a", nil, nil, "z = x", func(c *Case) *alg.Poly { return c.In[1] })
	// multiplication goes through the two verified stages; the product is kept symbolic
	viaReduce := func(name string, f func(c *Case) *alg.Poly) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Setup: func(e *Env) { e.useReduce512() }, Post: cong(name, nil, f)})
	}
	viaReduce("Uint256.MulAndReduce_a", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[2]) })
	viaReduce("Uint256.SquareAndReduce_a", func(c *Case) *alg.Poly { return c.C.Mul(c.In[1], c.In[1]) })
	viaReduce("Uint256.MulEqAndReduce_a", func(c *Case) *alg.Poly { return c.C.Mul(c.In[0], c.In[1]) })
	viaReduce("Uint256.SquareEqAndReduce_a", func(c *Case) *alg.Poly { return c.C.Mul(c.In[0], c.In[0]) })
	// membership predicates
	pred := func(name string, bound *big.Int) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Post: func(c *Case) {
			b := c.Cond(c.Res[0])
			c.In2Big("true implies z below the bound", c.C.And(c.Ret, b), c.In[0], nil, sub1(bound))
			c.In2Big("false implies z not below the bound", c.C.And(c.Ret, c.C.Not(b)), c.In[0], bound, nil)
		}})
	}
	pred("Uint256.IsReduced_a", R256)
	pred("Uint256.IsReduced_b", bmul(Pbase, bi(2)))
	pred("Uint256.IsReduced_c", bsub(R256, Pbase))
	pred("Uint256.IsReduced_f", Pbase)
	r.Wait()
}

// useReduce512 replaces the 512-bit reduction by its (separately verified) contract.
func (e *Env) useReduce512() {
	target := e.R.P.Func(fe, "Uint256.ReduceUint512ToUint256_a")
	e.It.Models = append([]vg.Model{contractModel(target, func(st *vg.State, args []vg.Value) vg.Value {
		in := e.MustNum(args[1])
		// any 256-bit value congruent to the input: in - k*p with an arbitrary integer k
		k := e.It.FreshInt("k", alg.KOpq, nil, nil, 0, true)
		w, _ := e.Words("red", 4)
		rest := alg.KI(0)
		for i := 1; i < 4; i++ {
			rest = rest.Add(w.E[i].(*vg.IntV).R.P.Scale(two(uint(64 * i))))
		}
		w.E[0] = e.It.DefInt(in.Sub(k.R.P.Scale(Pbase)).Sub(rest), 64)
		e.It.Store(st, args[0], w)
		return &vg.TupleV{}
	})}, e.It.Models...)
}
