package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

// F12: conversions from and to big integers, division, and the reference implementation of field elements are exact.

func init() {
	register(&Property{ID: "F12", Level: "proof", Technique: techVG, F: runF12,
		Note: "All inputs and all aliasing patterns. math/big enters through its documented contracts; modular inversion, exponentiation, square root, Jacobi symbol and decimal formatting of math/big are uninterpreted operations whose operands and whose use of the result are checked. Random constructors are analysed for every first non-zero draw after up to two zero draws."})
}

// bigOp is a recorded use of an uninterpreted operation of math/big.
type bigOp struct {
	in   []*alg.Poly
	args []vg.Value
	out  *alg.Poly
	ok   alg.Bdd // there is a result
	val  vg.Value
}

type bigRec struct {
	*Env
	ops map[string][]bigOp
}

// record installs the uninterpreted operations.
func (e *Env) record() *bigRec {
	b := &bigRec{Env: e, ops: map[string][]bigOp{}}
	e.rec = b
	num := func(st *vg.State, v vg.Value) *alg.Poly {
		if p, ok := v.(vg.PtrV); ok {
			v = e.It.Load(st, p)
		}
		x, ok := e.Num(v)
		if !ok {
			panic(vg.Undecided{Msg: e.Name + ": operand of an operation on big integers is not known"})
		}
		return x
	}
	e.It.Models = append([]vg.Model{func(it *vg.Interp, st *vg.State, call ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
		if fn == nil {
			return nil, false
		}
		n := fn.String()
		if strings.HasSuffix(n, "callcounters.IncrementCallCounter") {
			return &vg.TupleV{}, true
		}
		fresh := func(what string, lo, hi *big.Int) *vg.IntV { return it.FreshInt(what, alg.KInput, lo, hi, 0, true) }
		modulus := func(v vg.Value) *big.Int {
			m := num(st, v)
			if !m.IsConst() || m.Const().Sign() <= 0 {
				panic(vg.Undecided{Msg: e.Name + ": modulus is not constant"})
			}
			return m.Const()
		}
		opt := func(op bigOp, name string, v *vg.IntV) vg.Value {
			op.out = v.R.P
			b.ops[name] = append(b.ops[name], op)
			old := it.Load(st, args[0])
			it.Store(st, args[0], it.Merge([]vg.ChoiceAlt{{C: op.ok, V: v}, {C: e.C.Not(op.ok), V: old}}))
			return it.Merge([]vg.ChoiceAlt{{C: op.ok, V: args[0]}, {C: e.C.Not(op.ok), V: vg.NilV{}}})
		}
		switch n {
		case "(*math/big.Int).ModInverse":
			m := modulus(args[2])
			a := num(st, args[1])
			if !m.ProbablyPrime(20) {
				panic(vg.Undecided{Msg: e.Name + ": modulus is not prime"})
			}
			return opt(bigOp{in: []*alg.Poly{a, alg.K(m)}, ok: e.C.Not(e.zeroMod(a, m))}, "ModInverse", fresh("inverse", new(big.Int), sub1(m))), true
		case "(*math/big.Int).ModSqrt":
			m := modulus(args[2])
			return opt(bigOp{in: []*alg.Poly{num(st, args[1]), alg.K(m)}, ok: it.Nondet("is a square")}, "ModSqrt", fresh("root", new(big.Int), sub1(m))), true
		case "(*math/big.Int).Exp":
			m := modulus(args[3])
			v := fresh("power", new(big.Int), sub1(m))
			b.ops["Exp"] = append(b.ops["Exp"], bigOp{in: []*alg.Poly{num(st, args[1]), num(st, args[2]), alg.K(m)}, out: v.R.P, ok: alg.True})
			it.Store(st, args[0], v)
			return args[0], true
		case "math/big.Jacobi":
			v := it.FreshInt("Jacobi", alg.KInput, bi(-1), bi(1), 64, true)
			b.ops["Jacobi"] = append(b.ops["Jacobi"], bigOp{in: []*alg.Poly{num(st, args[0]), num(st, args[1])}, out: v.R.P, ok: alg.True})
			return v, true
		case "(*math/big.Int).SetString":
			if _, isC := args[1].(vg.StrV); isC {
				return nil, false
			}
			v := fresh("parsed", nil, nil)
			op := bigOp{args: args[1:], ok: it.Nondet("is a number")}
			r := opt(op, "SetString", v)
			return &vg.TupleV{E: []vg.Value{r, vg.BoolV{B: op.ok}}}, true
		case "(*math/big.Int).String", "(*math/big.Int).Text":
			v := vg.OpaqueV{Why: fmt.Sprintf("decimal string %d", len(b.ops["String"]))}
			b.ops["String"] = append(b.ops["String"], bigOp{in: []*alg.Poly{num(st, args[0])}, args: args[1:], val: v, ok: alg.True})
			return v, true
		case "(*math/big.Int).Format":
			b.ops["Format"] = append(b.ops["Format"], bigOp{in: []*alg.Poly{num(st, args[0])}, args: args[1:], ok: alg.True})
			return &vg.TupleV{}, true
		case "(*math/big.Int).Rand":
			m := modulus(args[2])
			lo := new(big.Int)
			ops := b.ops["Rand"]
			var v vg.Value
			if len(b.ops["zeros"]) > len(ops) {
				v = vg.KInt(0, 0, true)
				ops = append(ops, bigOp{in: []*alg.Poly{alg.K(m)}, out: alg.KI(0), ok: alg.True})
			} else {
				if len(b.ops["zeros"]) > 0 || len(b.ops["nonzero"]) > 0 {
					lo = bi(1)
				}
				x := fresh("draw", lo, sub1(m))
				v = x
				ops = append(ops, bigOp{in: []*alg.Poly{alg.K(m)}, out: x.R.P, ok: alg.True})
			}
			b.ops["Rand"] = ops
			it.Store(st, args[0], v)
			return args[0], true
		case "(*math/rand.Rand).Uint64":
			return it.FreshInt("random", alg.KInput, new(big.Int), sub1(two(64)), 64, false), true
		}
		return nil, false
	}}, e.It.Models...)
	return b
}

// zeroMod is the condition that m divides a. Sums of words with non-negative coefficients vanish exactly when every word does.
func (e *Env) zeroMod(a *alg.Poly, m *big.Int) alg.Bdd {
	x := e.C.Tighten(alg.Rng{P: a})
	if x.Hi != nil && x.Lo != nil && x.Lo.Sign() >= 0 && x.Hi.Cmp(bmul(m, bi(4))) < 0 {
		simple := a.EachLinear(func(id int32, k *big.Int) bool {
			if id < 0 || k.Sign() < 0 {
				return false
			}
			w := e.C.Tighten(alg.Rng{P: e.C.V(e.C.Atoms[id])})
			return w.Lo != nil && w.Lo.Sign() >= 0
		})
		zero := alg.True
		for _, id := range a.AtomIDs() {
			if simple {
				zero = e.C.And(zero, e.C.EqR(e.C.Tighten(alg.Rng{P: e.C.V(e.C.Atoms[id])}), alg.KR(new(big.Int))))
			}
		}
		if simple && x.Hi.Cmp(m) < 0 {
			return zero
		}
	}
	_, r := e.C.DivMod(x, m, "inv")
	return e.C.EqR(r, alg.KR(new(big.Int)))
}

// one is the single recorded use of an operation.
func (b *bigRec) one(name string) (bigOp, bool) {
	if !b.Bool("uses math/big."+name+" exactly once", len(b.ops[name]) == 1, fmt.Sprintf("%d uses", len(b.ops[name]))) {
		return bigOp{}, false
	}
	return b.ops[name][0], true
}

func runF12(r *Run) {
	// instances extend the program, so they are made before anything runs concurrently
	insts := map[string]*ssa.Function{}
	for _, t := range []string{feT, refT} {
		for _, name := range []string{"CreateRandomFieldElement_Unsafe", "CreateRandomNonZeroFieldElement_Unsafe", "InitFieldElementFromString"} {
			if T, fn := r.P.Type(fe, t), r.P.Func(fe, name); T != nil && fn != nil {
				insts[t+"."+name] = r.P.Instance(fn, T, types.NewPointer(T))
			}
		}
	}
	r.f12Uint("uint-convert")
	r.f12Divide("field-divide")
	r.f12Ref("reference-field")
	r.f12Misc("field-misc", insts)
	r.Wait()
}

func (r *Run) f12Uint(rule string) {
	toBig := func(name string) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Writes: []int{}, Post: func(c *Case) {
			c.Zero("result = z", c.Ret, c.At(c.Res[0]).Sub(c.In[0]))
		}})
	}
	toBig("Uint256.ToBigInt")
	toBig("Uint512.ToBigInt")
	outside := func(c *Case, i, n int) alg.Bdd {
		x := alg.Rng{P: c.In[i]}
		return c.C.Or(c.C.LtR(x, alg.KR(bi(0))), c.C.Not(c.C.LtR(x, alg.KR(two(uint(n))))))
	}
	set := func(pkg, name string, arg, n int, out func(c *Case) *alg.Poly, exact bool) {
		r.Check(FnSpec{Rule: rule, Pkg: pkg, Name: name, Panic: func(c *Case) alg.Bdd { return outside(c, arg, n) }, Post: func(c *Case) {
			c.Zero("z = x", c.Ret, out(c).Sub(c.In[arg]))
			c.Never("returns only for 0 <= x < 2^"+fmt.Sprint(n), c.C.And(c.Ret, outside(c, arg, n)))
		}})
	}
	recv := func(c *Case) *alg.Poly { return c.Out(0) }
	res := func(c *Case) *alg.Poly { return c.MustNum(c.Res[0]) }
	set(fe, "Uint256.SetBigInt", 1, 256, recv, true)
	set(fe, "Uint512.SetBigInt", 1, 512, recv, true)
	set(fe, "BigIntToUInt256", 0, 256, res, true)
	set(fe, "BigIntToUint512", 0, 512, res, true)
	if r.P.Func("internal/utils", "BigIntToUIntArray") != nil {
		set("internal/utils", "BigIntToUIntArray", 0, 256, res, true)
	}
	if r.P.Func("internal/utils", "UIntarrayToInt") != nil {
		r.Check(FnSpec{Rule: rule, Pkg: "internal/utils", Name: "UIntarrayToInt", Writes: []int{}, Post: func(c *Case) {
			c.Zero("result = z", c.Ret, c.At(c.Res[0]).Sub(c.In[0]))
		}})
	}
	str := func(pkg, name string, n int, out func(c *Case) *alg.Poly, mod bool, setup func(e *Env)) {
		if r.P.Func(pkg, name) == nil && pkg != fe {
			return
		}
		r.Check(FnSpec{Rule: rule, Pkg: pkg, Name: name, Setup: func(e *Env) {
			e.record()
			if setup != nil {
				setup(e)
			}
		}, Panic: func(c *Case) alg.Bdd {
			if len(c.rec.ops["SetString"]) != 1 {
				return alg.False
			}
			op := c.rec.ops["SetString"][0]
			bad := c.C.Not(op.ok)
			if n > 0 {
				x := alg.Rng{P: op.out}
				bad = c.C.Or(bad, c.C.Or(c.C.LtR(x, alg.KR(bi(0))), c.C.Not(c.C.LtR(x, alg.KR(two(uint(n)))))))
			}
			return bad
		}, Post: func(c *Case) {
			op, ok := c.rec.one("SetString")
			if !ok {
				return
			}
			k, isC := vg.ConstInt(op.args[1])
			c.Bool("the base is taken from the prefix of the string", isC && k.Sign() == 0, "")
			c.Bool("the given string is parsed", fmt.Sprint(op.args[0]) == fmt.Sprint(c.Args[0]), fmt.Sprint(op.args[0]))
			c.Never("returns only if the string is a number in range", c.C.And(c.Ret, func() alg.Bdd {
				bad := c.C.Not(op.ok)
				if n > 0 {
					x := alg.Rng{P: op.out}
					bad = c.C.Or(bad, c.C.Or(c.C.LtR(x, alg.KR(bi(0))), c.C.Not(c.C.LtR(x, alg.KR(two(uint(n)))))))
				}
				return bad
			}()))
			c.Zero("result is the number", c.Ret, out(c).Sub(op.out))
		}})
	}
	str(fe, "InitUint256FromString", 256, res, false, nil)
	str("internal/utils", "InitIntFromString", 0, func(c *Case) *alg.Poly {
		v := c.Res[0]
		if ch, ok := c.It.Force(v).(*vg.ChoiceV); ok { // what is returned
			for _, a := range ch.A {
				if c.C.And(a.C, c.Ret) != alg.False {
					v = a.V
				}
			}
		}
		return c.At(v)
	}, false, nil)
	show := func(name string) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name + ".String", Writes: []int{}, Setup: func(e *Env) { e.record() }, Post: func(c *Case) {
			if op, ok := c.rec.one("String"); ok {
				c.Zero("prints z", c.Ret, op.in[0].Sub(c.In[0]))
				c.Bool("returns the decimal string of math/big", fmt.Sprint(c.Res[0]) == fmt.Sprint(op.val), "")
			}
		}})
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name + ".Format", Writes: []int{}, Setup: func(e *Env) { e.record() }, Post: func(c *Case) {
			if op, ok := c.rec.one("Format"); ok {
				c.Zero("prints z", c.Ret, op.in[0].Sub(c.In[0]))
				c.Bool("with the given verb and flags", len(op.args) == 2 && fmt.Sprint(op.args) == fmt.Sprint(c.Args[1:]), "")
			}
		}})
	}
	show("Uint256")
	show("Uint512")
	r.f12Exp(rule, "Uint256.ModularExponentiation_fa", nil, nil, func(c *Case) (*alg.Poly, *alg.Poly, *alg.Poly) { return c.In[1], c.In[2], c.Out(0) }, nil)
	equalAs := func(pkg, name string) {
		fn := r.P.Func(pkg, name)
		if fn == nil {
			return
		}
		u := r.P.Type(fe, "Uint256")
		if u == nil {
			return
		}
		r.Check(FnSpec{Rule: rule, Pkg: pkg, Name: name, Writes: []int{}, Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
			p := types.NewPointer(u)
			v, _ := e.MakeArg(pname(fn, i), p, nil)
			return vg.IfaceV{T: p, V: v}, true
		}, Post: func(c *Case) {
			b := c.Cond(c.Res[0])
			at := func(i int) *alg.Poly { return c.At(c.Args[i].(vg.IfaceV).V) }
			d := at(0).Sub(at(1))
			c.Zero("true implies equal", c.C.And(c.Ret, b), d)
			c.Never("false implies different", c.C.And(c.C.And(c.Ret, c.C.Not(b)), c.C.EqR(c.C.Tighten(alg.Rng{P: d}), alg.KR(bi(0)))))
		}})
	}
	equalAs(fe, "IsEqualAsUint256")
	equalAs("internal/utils", "IsEqualAsBigInt")
}

// f12Exp demands z = base^exponent through math/big.
func (r *Run) f12Exp(rule, name string, arg func(*Env, int, types.Type) (vg.Value, bool), setup func(*Env), f func(c *Case) (base, exp, out *alg.Poly), hi func(i int) *big.Int) {
	r.Check(FnSpec{Rule: rule, Pkg: fe, Name: name, Arg: arg, Hi: hi, NoAlias: false, Setup: func(e *Env) {
		if setup != nil {
			setup(e)
		}
		e.record()
	}, Post: func(c *Case) {
		op, ok := c.rec.one("Exp")
		if !ok {
			return
		}
		base, exp, out := f(c)
		c.ModZ("the base is raised", c.Ret, op.in[0].Sub(base), Pbase)
		c.Zero("to the exponent", c.Ret, op.in[1].Sub(exp))
		c.Bool("modulo the base field size", op.in[2].Const().Cmp(Pbase) == 0, "")
		c.Zero("z is the power", c.Ret, out.Sub(op.out))
	}})
}

// inverse is the recorded inversion of x; cond restricts where x is demanded.
func (c *Case) inverse(x *alg.Poly, cond alg.Bdd) (*alg.Poly, bool) {
	op, ok := c.rec.one("ModInverse")
	if !ok {
		return nil, false
	}
	c.ModZ("the divisor is inverted", cond, op.in[0].Sub(x), Pbase)
	c.Bool("modulo the base field size", op.in[1].IsConst() && op.in[1].Const().Cmp(Pbase) == 0, "")
	return op.out, true
}

// zeroDiv is the condition under which a division may panic: the recorded inversion has no result.
func zeroDiv(c *Case) alg.Bdd {
	ops := c.rec.ops["ModInverse"]
	if len(ops) != 1 {
		return alg.False
	}
	return c.C.Not(ops[0].ok)
}

func (r *Run) f12Divide(rule string) {
	// z = num/denom on Montgomery representations: z = num * inverse, where the plain value of denom is inverted
	div := func(name string, num, den func(c *Case) *alg.Poly, mustPanic bool) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Arg: r.feArg, Setup: func(e *Env) { e.useMontgomery(true); e.record() },
			Panic: zeroDiv, Post: func(c *Case) {
				inv, ok := c.inverse(den(c), c.Ret)
				if !ok {
					return
				}
				c.ModZ("z = x/y", c.Ret, c.Out(0).Sub(c.C.Mul(num(c), inv)), Pbase)
				c.In2Big("result is an admissible representation", c.Ret, c.Out(0), bi(0), ivC())
				if mustPanic {
					c.Never("division by zero panics", c.C.And(c.Ret, zeroDiv(c)))
				}
			}})
	}
	plain := func(i int) func(c *Case) *alg.Poly {
		return func(c *Case) *alg.Poly { return c.In[i].Scale(Rinv) }
	}
	in := func(i int) func(c *Case) *alg.Poly { return func(c *Case) *alg.Poly { return c.In[i] } }
	oneR := func(c *Case) *alg.Poly { return alg.K(R256) }
	div("Inv", oneR, plain(1), false)
	div("InvEq", oneR, plain(0), false)
	div("Divide", in(1), plain(2), false)
	div("DivideEq", in(0), plain(1), false)
	div("DivideInt64", in(1), in(2), true)
	div("DivideUint64", in(1), in(2), true)
}

const refT = "bsFieldElement_BigInt"

// f12Ref: the reference implementation stores the plain residue below p.
func (r *Run) f12Ref(rule string) {
	if r.P.Type(fe, refT) == nil {
		return
	}
	isRef := func(t types.Type) bool { return NamedOf(t) == refT }
	arg := func(e *Env, i int, t types.Type) (vg.Value, bool) {
		if isRef(t) {
			v, _ := e.MakeArg(pname(e.Fn, i), t, ivF())
			return v, true
		}
		return nil, false
	}
	chk := func(name string, s FnSpec) {
		if r.P.Func(fe, refT+"."+name) == nil {
			return
		}
		s.Rule, s.Pkg, s.Name, s.Arg = rule, fe, refT+"."+name, arg
		s.Setup = func(e *Env) { e.record() }
		r.Check(s)
	}
	op := func(name string, f func(c *Case) *alg.Poly) {
		chk(name, FnSpec{Post: func(c *Case) {
			c.ModZ("z has the value of the operation", c.Ret, c.Out(0).Sub(f(c)), Pbase)
			c.In2Big("z is reduced", c.Ret, c.Out(0), bi(0), ivF())
		}})
	}
	in := func(c *Case, i int) *alg.Poly { return c.In[i] }
	type f = func(c *Case) *alg.Poly
	lin := func(i, j int, k int64) f {
		return func(c *Case) *alg.Poly { return in(c, i).Add(in(c, j).Scale(bi(k))) }
	}
	mul := func(i, j int) f { return func(c *Case) *alg.Poly { return c.C.Mul(in(c, i), in(c, j)) } }
	scale := func(i int, k int64) f { return func(c *Case) *alg.Poly { return in(c, i).Scale(bi(k)) } }
	op("Add", lin(1, 2, 1))
	op("Sub", lin(1, 2, -1))
	op("AddEq", lin(0, 1, 1))
	op("SubEq", lin(0, 1, -1))
	op("Mul", mul(1, 2))
	op("MulEq", mul(0, 1))
	op("Square", mul(1, 1))
	op("SquareEq", mul(0, 0))
	op("Neg", scale(1, -1))
	op("NegEq", scale(0, -1))
	op("Double", scale(1, 2))
	op("DoubleEq", scale(0, 2))
	op("MulFive", scale(1, 5))
	op("MulEqFive", scale(0, 5))
	op("SetZero", func(*Case) *alg.Poly { return alg.KI(0) })
	op("SetOne", func(*Case) *alg.Poly { return alg.KI(1) })
	for _, s := range []string{"Int64", "Uint64"} {
		op("Add"+s, lin(1, 2, 1))
		op("Sub"+s, lin(1, 2, -1))
		op("Mul"+s, mul(1, 2))
		op("Set"+s, scale(1, 1))
	}
	op("SetUint256", scale(1, 1))
	op("SetBigInt", scale(1, 1))
	op("Normalize", scale(0, 1))
	op("RerandomizeRepresentation", scale(0, 1))
	div := func(name string, num, den f) {
		chk(name, FnSpec{Panic: func(c *Case) alg.Bdd {
			return c.zeroMod(den(c), Pbase)
		}, Post: func(c *Case) {
			inv, ok := c.inverse(den(c), c.Ret)
			if !ok {
				return
			}
			c.ModZ("z = x/y", c.Ret, c.Out(0).Sub(c.C.Mul(num(c), inv)), Pbase)
			c.In2Big("z is reduced", c.Ret, c.Out(0), bi(0), ivF())
		}})
	}
	arg1 := func(i int) f { return func(c *Case) *alg.Poly { return in(c, i) } }
	div("Inv", func(*Case) *alg.Poly { return alg.KI(1) }, arg1(1))
	div("InvEq", func(*Case) *alg.Poly { return alg.KI(1) }, arg1(0))
	div("Divide", arg1(1), arg1(2))
	div("DivideEq", arg1(0), arg1(1))
	div("DivideInt64", arg1(1), arg1(2))
	div("DivideUint64", arg1(1), arg1(2))
	chk("ToBigInt", FnSpec{Writes: []int{}, Post: func(c *Case) { c.Zero("result = z", c.Ret, c.At(c.Res[0]).Sub(in(c, 0))) }})
	chk("ToUint256", FnSpec{Writes: []int{1}, Post: func(c *Case) { c.Zero("x = z", c.Ret, c.Out(1).Sub(in(c, 0))) }})
	pred := func(name string, f func(c *Case) *alg.Poly) {
		chk(name, FnSpec{Writes: []int{}, Post: func(c *Case) {
			b, d := c.Cond(c.Res[0]), f(c)
			c.Zero("true implies equal", c.C.And(c.Ret, b), d)
			c.Never("false implies different", c.C.And(c.C.And(c.Ret, c.C.Not(b)), c.C.EqR(c.C.Tighten(alg.Rng{P: d}), alg.KR(bi(0)))))
		}})
	}
	pred("IsZero", arg1(0))
	pred("IsOne", func(c *Case) *alg.Poly { return in(c, 0).Sub(alg.KI(1)) })
	pred("IsEqual", lin(0, 1, -1))
	chk("CmpAbs", FnSpec{Writes: []int{}, Post: func(c *Case) {
		a, x := c.Cond(c.Res[0]), c.Cond(c.Res[1])
		d, s := in(c, 0).Sub(in(c, 1)), in(c, 0).Add(in(c, 1))
		is := func(p *alg.Poly) alg.Bdd { return c.C.EqR(c.C.Tighten(alg.Rng{P: p}), alg.KR(bi(0))) }
		c.Zero("exact equality implies equal", c.C.And(c.Ret, x), d)
		c.Never("exactly equal elements are reported", c.C.And(c.C.And(c.Ret, c.C.Not(x)), is(d)))
		c.ModZ("absolute equality without exact equality implies z = -x", c.C.And(c.C.And(c.Ret, a), c.C.Not(x)), s, Pbase)
		c.Never("equal elements are equal in absolute value", c.C.And(c.C.And(c.Ret, c.C.Not(a)), is(d)))
	}})
	for k := int64(0); k <= 1 && r.P.Func(fe, refT+".CmpAbs") != nil; k++ {
		k := k
		r.CheckNamed(fmt.Sprintf("%s.%s.CmpAbs (y = %d*p - z)", fe, refT, k), FnSpec{Rule: rule, Pkg: fe, Name: refT + ".CmpAbs", Writes: []int{}, NoAlias: true,
			Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
				v, ok := arg(e, i, t)
				if !ok {
					return v, ok
				}
				if i == 1 {
					e.storeWords(e.St, v, e.relWords(e.zwords, -1, k))
					e.Bound(e.At(v), ivF())
					return v, true
				}
				for _, x := range e.It.Load(e.St, v).(*vg.AggV).E {
					if w, ok := x.(*vg.AggV); ok && len(w.E) == 4 {
						e.zwords = w
					}
				}
				return v, true
			}, Post: func(c *Case) {
				c.Never("negatives are equal in absolute value", c.C.And(c.Ret, c.C.Not(c.Cond(c.Res[0]))))
			}})
	}
	half := new(big.Int).Rsh(Pbase, 1)
	chk("Sign", FnSpec{Writes: []int{}, Post: func(c *Case) {
		v := c.It.Force(c.Res[0]).(*vg.IntV)
		g := func(k int64) alg.Bdd { return c.C.And(c.Ret, c.C.EqR(v.R, alg.KR(bi(k)))) }
		c.Zero("0 implies z = 0", g(0), in(c, 0))
		c.In2Big("+1 implies 0 < z <= (p-1)/2", g(1), in(c, 0), bi(1), half)
		c.In2Big("-1 implies (p-1)/2 < z", g(-1), in(c, 0), badd(half, bi(1)), nil)
		c.Never("result is -1, 0 or 1", c.C.And(c.Ret, c.C.Not(c.C.Or(g(0), c.C.Or(g(1), g(-1))))))
	}})
	narrow := func(name string, lo, hi *big.Int) {
		chk(name, FnSpec{Writes: []int{}, Post: func(c *Case) {
			isnil := c.NilErr(c.Res[1])
			ok, bad := c.C.And(c.Ret, isnil), c.C.And(c.Ret, c.C.Not(isnil))
			o := c.MustNum(c.Res[0])
			c.ModZ("without error, result = z", ok, o.Sub(in(c, 0)), Pbase)
			c.Zero("with an error, result = 0", bad, o)
			c.In2Big("an error implies z does not fit", bad, in(c, 0), badd(hi, bi(1)), sub1(badd(Pbase, lo)))
		}})
	}
	narrow("ToUint64", bi(0), sub1(two(64)))
	narrow("ToInt64", new(big.Int).Neg(two(63)), sub1(two(63)))
	chk("Jacobi", FnSpec{Writes: []int{}, Post: func(c *Case) {
		if op, ok := c.rec.one("Jacobi"); ok {
			c.ModZ("the symbol of z", c.Ret, op.in[0].Sub(in(c, 0)), Pbase)
			c.Zero("modulo the base field size", c.Ret, op.in[1].Sub(alg.K(Pbase)))
			c.Zero("is returned", c.Ret, c.MustNum(c.Res[0]).Sub(op.out))
		}
	}})
	chk("SquareRoot", FnSpec{Post: func(c *Case) {
		if op, ok := c.rec.one("ModSqrt"); ok {
			b := c.Cond(c.Res[0])
			c.ModZ("the root of x", c.Ret, op.in[0].Sub(in(c, 1)), Pbase)
			c.Never("true exactly for squares", c.C.And(c.Ret, c.C.Xor(b, op.ok)))
			c.Zero("z is the root", c.C.And(c.Ret, b), c.Out(0).Sub(op.out))
			c.Zero("z is unchanged for non-squares", c.C.And(c.Ret, c.C.Not(b)), c.Out(0).Sub(in(c, 0)))
		}
	}})
	if r.P.Func(fe, refT+".Exp") != nil {
		r.f12Exp(rule, refT+".Exp", arg, nil, func(c *Case) (*alg.Poly, *alg.Poly, *alg.Poly) { return in(c, 1), in(c, 2), c.Out(0) }, nil)
	}
	chk("String", FnSpec{Writes: []int{}, Post: func(c *Case) {
		if op, ok := c.rec.one("String"); ok {
			c.Zero("prints z", c.Ret, op.in[0].Sub(in(c, 0)))
			c.Bool("returns the decimal string of math/big", fmt.Sprint(c.Res[0]) == fmt.Sprint(op.val), "")
		}
	}})
}

func (r *Run) f12Misc(rule string, insts map[string]*ssa.Function) {
	// printing shows the plain value
	show := func(name, op string) {
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: feT + "." + name, Arg: func(e *Env, i int, t types.Type) (vg.Value, bool) {
			if r.isFE(t) {
				v, _ := e.MakeArg(pname(e.Fn, i), t, ivC())
				return v, true
			}
			return nil, false
		}, Writes: []int{}, Setup: func(e *Env) { e.useMontgomery(true); e.record() }, Post: func(c *Case) {
			if o, ok := c.rec.one(op); ok {
				c.ModZ("prints the value of z", c.Ret, o.in[0].Scale(R256).Sub(c.In[0]), Pbase)
				c.In2Big("as a number below the modulus", c.Ret, o.in[0], bi(0), ivF())
				if op == "String" {
					c.Bool("returns the decimal string of math/big", fmt.Sprint(c.Res[0]) == fmt.Sprint(o.val), "")
				} else {
					c.Bool("with the given verb and flags", len(o.args) == 2 && fmt.Sprint(o.args) == fmt.Sprint(c.Args[1:]), "")
				}
			}
		}})
	}
	show("String", "String")
	show("Format", "Format")
	// raw serialization: SetBytes reads back what ToBytes wrote, and only 32 bytes are touched
	for _, t := range []string{feT, refT} {
		t := t
		to, from := r.P.Func(fe, t+".ToBytes"), r.P.Func(fe, t+".SetBytes")
		if to == nil || from == nil {
			if t == feT {
				r.Find(rule, fe, t+".ToBytes")
				r.Find(rule, fe, t+".SetBytes")
			}
			continue
		}
		for _, n := range []int{32, 35} {
			n := n
			r.Go(rule, fmt.Sprintf("%s.%s.SetBytes after ToBytes, buffer of %d bytes", fe, t, n), func() {
				e := r.NewEnv(rule, fmt.Sprintf("%s.%s.SetBytes after ToBytes, buffer of %d bytes", fe, t, n), from)
				defer e.Done()
				hi := ivC()
				if t == refT {
					hi = ivF()
				}
				z, in := e.MakeArg("z", to.Params[0].Type(), hi)
				var el []vg.Value
				for i := 0; i < n; i++ {
					el = append(el, e.It.FreshInt(fmt.Sprintf("b%d", i), alg.KInput, new(big.Int), bi(255), 8, false))
				}
				arr := e.It.NewObj(e.St, "buf", types.NewArray(types.Typ[types.Byte], int64(n)), &vg.AggV{E: append([]vg.Value{}, el...)})
				buf := vg.SliceV{Base: arr, Len: n, Cap: n}
				_, ret := e.It.Call(e.St, to, []vg.Value{z, buf}, nil)
				e.NoPanics(alg.False)
				e.Zero("ToBytes leaves z alone", ret, e.At(z).Sub(in))
				for i := 32; i < n; i++ {
					v := e.MustNum(e.It.Load(e.St, vg.SliceElemPtr(buf, i)))
					e.Zero("bytes after the first 32 are not touched", ret, v.Sub(e.MustNum(el[i])))
				}
				w, _ := e.MakeArg("w", from.Params[0].Type(), hi)
				_, ret = e.It.Call(e.St, from, []vg.Value{w, buf}, nil)
				e.NoPanics(alg.False)
				e.Zero("the element read back is the one written", ret, e.At(w).Sub(in))
			})
		}
		r.Check(FnSpec{Rule: rule, Pkg: fe, Name: t + ".BytesLength", Writes: []int{}, Post: func(c *Case) {
			c.Zero("32 bytes are used", c.Ret, c.MustNum(c.Res[0]).Sub(alg.KI(32)))
		}})
	}
	r.f12Rand(rule, insts)
}

// f12Rand: random elements are admissible representations, the non-zero variants are not zero, and parsing of strings
// gives the residue of the number.
func (r *Run) f12Rand(rule string, insts map[string]*ssa.Function) {
	for _, t := range []string{feT, refT} {
		T := r.P.Type(fe, t)
		if T == nil {
			continue
		}
		hi := ivC()
		plain := func(z, x *alg.Poly) *alg.Poly { return z.Sub(x.Scale(R256)) }
		if t == refT {
			hi = ivF()
			plain = func(z, x *alg.Poly) *alg.Poly { return z.Sub(x) }
		}
		draw := func(name string, fn *ssa.Function, zeros int, nonzero, method bool) {
			what := fmt.Sprintf("%s.%s[%s]", fe, name, t)
			if nonzero {
				what += fmt.Sprintf(" after %d zero draws", zeros)
			}
			r.Go(rule, what, func() {
				e := r.NewEnv(rule, what, fn)
				defer e.Done()
				e.useMontgomery(true)
				b := e.record()
				if nonzero {
					b.ops["nonzero"] = []bigOp{{}}
					b.ops["zeros"] = make([]bigOp, zeros)
				}
				rnd := vg.OpaqueV{Why: "random source"}
				var zp *alg.Poly
				var ret alg.Bdd
				if method {
					z, _ := e.MakeArg("z", fn.Params[0].Type(), hi)
					_, ret = e.It.Call(e.St, fn, []vg.Value{z, rnd}, nil)
					zp = e.At(z)
				} else {
					var res []vg.Value
					res, ret = e.It.Call(e.St, fn, []vg.Value{rnd}, nil)
					zp = e.MustNum(res[0])
				}
				e.NoPanics(alg.False)
				e.Bool("one draw after the zero draws", len(b.ops["Rand"]) == zeros+1, fmt.Sprintf("%d draws", len(b.ops["Rand"])))
				if n := len(b.ops["Rand"]); n > 0 {
					op := b.ops["Rand"][n-1]
					e.Zero("the draw is below the base field size", ret, op.in[0].Sub(alg.K(Pbase)))
					e.ModZ("z is the number drawn", ret, plain(zp, op.out), Pbase)
				}
				e.In("z is admissible", ret, zp, new(big.Int), hi)
			})
		}
		for _, m := range []struct {
			name    string
			nonzero bool
		}{{"SetRandomUnsafe", false}, {"SetRandomUnsafeNonZero", true}} {
			if fn := r.P.Func(fe, t+"."+m.name); fn != nil {
				draw(t+"."+m.name, fn, 0, m.nonzero, true)
				if m.nonzero {
					draw(t+"."+m.name, fn, 1, true, true)
					draw(t+"."+m.name, fn, 2, true, true)
				}
			}
		}
		gen := func(name string) *ssa.Function {
			if r.Find(rule, fe, name) == nil {
				return nil
			}
			return insts[t+"."+name]
		}
		if fn := gen("CreateRandomFieldElement_Unsafe"); fn != nil {
			draw("CreateRandomFieldElement_Unsafe", fn, 0, false, false)
		}
		if fn := gen("CreateRandomNonZeroFieldElement_Unsafe"); fn != nil {
			for k := 0; k <= 2; k++ {
				draw("CreateRandomNonZeroFieldElement_Unsafe", fn, k, true, false)
			}
		}
		if fn := gen("InitFieldElementFromString"); fn != nil {
			what := fmt.Sprintf("%s.InitFieldElementFromString[%s]", fe, t)
			r.Go(rule, what, func() {
				e := r.NewEnv(rule, what, fn)
				defer e.Done()
				e.useMontgomery(true)
				b := e.record()
				str := vg.OpaqueV{Why: "input string"}
				res, ret := e.It.Call(e.St, fn, []vg.Value{str}, nil)
				op, ok := b.one("SetString")
				if !ok {
					return
				}
				e.NoPanics(e.C.Not(op.ok))
				k, isC := vg.ConstInt(op.args[1])
				e.Bool("the base is taken from the prefix of the string", isC && k.Sign() == 0, "")
				e.Bool("the given string is parsed", fmt.Sprint(op.args[0]) == fmt.Sprint(vg.Value(str)), fmt.Sprint(op.args[0]))
				e.Never("returns only if the string is a number", e.C.And(ret, e.C.Not(op.ok)))
				zp := e.MustNum(res[0])
				e.ModZ("the result is the residue of the number", ret, plain(zp, op.out), Pbase)
				e.In("the result is normalised", ret, zp, new(big.Int), ivF())
			})
		}
	}
}
