package chk

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

func init() {
	register(&Property{ID: "F09", Level: "proof", Technique: "Forward interprocedural dataflow over SSA in a domain of powers: every field element is tracked as x^a g^L with g the fixed dyadic root of unity, a constant and L a linear form in the digits of the unknown discrete logarithm; constant-trip loops are followed, precomputed tables are evaluated from their initialisers; no code is executed.", F: runF09,
		Note: "SquareRoot is analysed for zero and for an arbitrary nonzero element x, whose odd-order power is g^(-n) for unknown n < 2^32; the result must square to x exactly if n is even. The small discrete logarithm used on the way is evaluated for all 256 arguments in all representations."})
}

const dyadicRoot = "0xF32C26F7_82044B66_7336B3F4_7B2464A8_E4FC91B6_3DF3E369_81960EC4"

type powAlt struct {
	C    alg.Bdd
	Zero bool
	A    *big.Int  // exponent of x
	L    *alg.Poly // exponent of g, modulo 2^32
}

type powV struct {
	d *powDom
	A []powAlt
}

type powDom struct {
	*Env
	odd  *big.Int
	n    *alg.Poly // discrete logarithm of x^-odd
	g    *big.Int
	xval bool
	napp int
}

func (x *powV) MergeDom(it *vg.Interp, alts []vg.ChoiceAlt) vg.Value {
	r := &powV{d: x.d}
	for _, a := range alts {
		for _, b := range a.V.(*powV).A {
			r.add(powAlt{it.C.And(a.C, b.C), b.Zero, b.A, b.L})
		}
	}
	if len(r.A) == 1 {
		r.A[0].C = alg.True
	}
	return r
}

func (x *powV) add(b powAlt) {
	if b.C == alg.False {
		return
	}
	for i := range x.A {
		if x.A[i].same(b) {
			x.A[i].C = x.d.C.Or(x.A[i].C, b.C)
			return
		}
	}
	x.A = append(x.A, b)
	if len(x.A) > 64 {
		panic(vg.Undecided{Msg: "too many alternatives of a power"})
	}
}

func (a powAlt) same(b powAlt) bool {
	return a.Zero == b.Zero && (a.Zero || a.A.Cmp(b.A) == 0 && a.L.Equal(b.L))
}

func (x *powV) SameDom(o vg.Value) bool {
	y, ok := o.(*powV)
	if !ok || len(x.A) != len(y.A) {
		return false
	}
	for i := range x.A {
		if x.A[i].C != y.A[i].C || !x.A[i].same(y.A[i]) {
			return false
		}
	}
	return true
}

func (d *powDom) pow(a *big.Int, l *alg.Poly) *powV {
	return &powV{d, []powAlt{d.norm(alg.True, a, l)}}
}

func (d *powDom) zero() *powV { return &powV{d, []powAlt{{C: alg.True, Zero: true}}} }

// norm brings x^a g^l into normal form: x^odd is g^-n.
func (d *powDom) norm(c alg.Bdd, a *big.Int, l *alg.Poly) powAlt {
	k, r := new(big.Int).DivMod(a, d.odd, new(big.Int))
	l = l.Sub(d.n.Scale(k))
	return powAlt{C: c, A: r, L: l.MapCoef(func(z *big.Int) *big.Int {
		return new(big.Int).Mod(z, two(32))
	})}
}

func (d *powDom) mul(x, y *powV) *powV {
	r := &powV{d: d}
	for _, a := range x.A {
		for _, b := range y.A {
			c := d.C.And(a.C, b.C)
			if c == alg.False {
				continue
			}
			if a.Zero || b.Zero {
				r.add(powAlt{C: c, Zero: true})
				continue
			}
			r.add(d.norm(c, badd(a.A, b.A), a.L.Add(b.L)))
		}
	}
	return r
}

// constant elements that are powers of g
func (d *powDom) konst(v *big.Int) (*powV, bool) {
	v = new(big.Int).Mod(v, Pbase)
	if v.Sign() == 0 {
		return d.zero(), true
	}
	// Pohlig-Hellman
	e := new(big.Int)
	gi := new(big.Int).ModInverse(d.g, Pbase)
	for i := uint(0); i < 32; i++ {
		t := bmul(v, new(big.Int).Exp(gi, e, Pbase))
		t.Exp(t.Mod(t, Pbase), two(31-i), Pbase)
		if t.Cmp(bi(1)) != 0 {
			e.SetBit(e, int(i), 1)
		}
	}
	if new(big.Int).Exp(d.g, e, Pbase).Cmp(v) != 0 {
		return nil, false
	}
	return d.pow(new(big.Int), alg.K(e)), true
}

func newPow(e *Env) *powDom {
	d := &powDom{Env: e, odd: new(big.Int).Rsh(Pbase, 32), g: mustBig(dyadicRoot)}
	e.Max = 400000
	e.C.NestQuot = true
	d.n = alg.KI(0)
	for i := 0; i < 4; i++ {
		b := e.It.FreshInt(fmt.Sprintf("n%d", i), alg.KInput, new(big.Int), bi(255), 64, false)
		d.n = d.n.Add(b.R.P.Scale(two(uint(8 * i))))
	}
	e.It.Leaf = func(t types.Type) (vg.Value, bool) {
		if isFE(t) {
			return d.zero(), true
		}
		return nil, false
	}
	e.It.GlobConv = func(v vg.Value) (vg.Value, bool) {
		k, ok := feWords(e, v)
		if !ok {
			return nil, false
		}
		return d.konst(bmul(k, Rinv))
	}
	e.It.SymIndex = d.symIndex
	e.It.Models = append([]vg.Model{d.model}, e.It.Models...)
	return d
}

// feWords is the number stored in the words of a constant field element.
func feWords(e *Env, v vg.Value) (*big.Int, bool) {
	a, ok := e.It.Force(v).(*vg.AggV)
	if !ok {
		return nil, false
	}
	for len(a.E) != 4 {
		var el []vg.Value
		for _, w := range a.E {
			if b, ok := w.(*vg.AggV); !ok || len(b.E) > 0 {
				el = append(el, w)
			}
		}
		if len(el) != 1 {
			return nil, false
		}
		if a, ok = e.It.Force(el[0]).(*vg.AggV); !ok {
			return nil, false
		}
	}
	s := new(big.Int)
	for i := range a.E {
		k, ok := vg.ConstInt(e.It.Force(a.E[i]))
		if !ok {
			return nil, false
		}
		s.Add(s, new(big.Int).Lsh(k, uint(64*i)))
	}
	return s, true
}

// symIndex reads a table of powers of g in arithmetic progression.
func (d *powDom) symIndex(el []vg.Value, idx *vg.IntV) (vg.Value, bool) {
	if len(el) < 2 {
		return nil, false
	}
	var l []*big.Int
	for _, x := range el {
		v, ok := d.It.Force(x).(*powV)
		if !ok || len(v.A) != 1 || v.A[0].Zero || v.A[0].A.Sign() != 0 || !v.A[0].L.IsConst() {
			return nil, false
		}
		l = append(l, v.A[0].L.Const())
	}
	step := bsub(l[1], l[0])
	for i := range l {
		z := bsub(bsub(l[i], l[0]), bmul(step, bi(int64(i))))
		if z.Mod(z, two(32)).Sign() != 0 {
			return nil, false
		}
	}
	return d.pow(new(big.Int), alg.K(l[0]).Add(idx.R.P.Scale(step))), true
}

func (d *powDom) model(it *vg.Interp, st *vg.State, in ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	if fn == nil {
		return nil, false
	}
	if nm := fn.Name(); fn.Signature.Recv() == nil {
		switch {
		case nm == "sqrtAlg_NegDlogInSmallDyadicSubgroup" && len(args) == 1:
			return d.negDlog(d.at(st, args[0])), true
		case nm == "IncrementCallCounter":
			return &vg.TupleV{}, true
		}
		o := fn
		if g := fn.Origin(); g != nil {
			o = g
		}
		if o.Name() == "InitFieldElementFromString" && isFE(fn.Signature.Results().At(0).Type()) {
			if s, ok := it.Force(args[0]).(vg.StrV); ok {
				if x, ok := new(big.Int).SetString(s.S, 0); ok {
					if v, ok := d.konst(x); ok {
						return v, true
					}
				}
			}
		}
		return nil, false
	}
	if p, ok := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer); !ok || !isFE(p.Elem()) {
		return nil, false
	}
	set := func(v *powV) (vg.Value, bool) {
		it.Store(st, args[0], v)
		return &vg.TupleV{}, true
	}
	at := func(i int) *powV { return d.at(st, args[i]) }
	switch fn.Name() {
	case "Mul":
		return set(d.mul(at(1), at(2)))
	case "MulEq":
		return set(d.mul(at(0), at(1)))
	case "Square":
		return set(d.mul(at(1), at(1)))
	case "SquareEq":
		return set(d.mul(at(0), at(0)))
	case "SetOne":
		return set(d.pow(new(big.Int), alg.KI(0)))
	case "SetZero":
		return set(d.zero())
	case "Normalize", "RerandomizeRepresentation":
		return &vg.TupleV{}, true
	case "IsZero":
		c := alg.False
		for _, a := range at(0).A {
			if a.Zero {
				c = d.C.Or(c, a.C)
			}
		}
		return vg.BoolV{B: c}, true
	case "ToInt64", "IsOne", "IsEqual":
		x := at(0)
		if fn.Name() == "IsEqual" {
			y := at(1)
			if len(x.A) == 1 && len(y.A) == 1 && x.A[0].same(y.A[0]) {
				return vg.BoolV{B: alg.True}, true
			}
			return nil, false
		}
		if len(x.A) != 1 || x.A[0].Zero || x.A[0].A.Sign() != 0 || !x.A[0].L.IsConst() {
			return nil, false
		}
		v := new(big.Int).Exp(d.g, x.A[0].L.Const(), Pbase)
		if fn.Name() == "IsOne" {
			return vg.BoolV{B: tf(v.Cmp(bi(1)) == 0)}, true
		}
		if v.BitLen() > 63 {
			v.Sub(v, Pbase)
		}
		if v.BitLen() <= 63 {
			return &vg.TupleV{E: []vg.Value{&vg.IntV{R: alg.KR(v), W: 64, Signed: true}, vg.NilV{}}}, true
		}
	}
	return nil, false
}

func (d *powDom) at(st *vg.State, p vg.Value) *powV {
	v := d.It.Force(d.It.Load(st, p))
	if c, ok := v.(*vg.ChoiceV); ok {
		r := &powV{d: d}
		for _, a := range c.A {
			if b, ok := d.It.Force(a.V).(*powV); ok {
				for _, e := range b.A {
					e.C = d.C.And(e.C, a.C)
					r.add(e)
				}
				continue
			}
			panic(vg.Undecided{Msg: d.Name + ": field element in unknown form: " + d.It.Describe(a.V)})
		}
		return r
	}
	x, ok := v.(*powV)
	if !ok {
		panic(vg.Undecided{Msg: d.Name + ": field element in unknown form: " + d.It.Describe(v)})
	}
	return x
}

// negDlog: for g^(2^24 m) the result is -m mod 256.
func (d *powDom) negDlog(x *powV) vg.Value {
	d.napp++
	if len(x.A) != 1 || x.A[0].Zero || x.A[0].A.Sign() != 0 {
		d.Fail("the small discrete logarithm is taken of a power of the root of unity", fmt.Sprint(len(x.A)))
		panic(vg.Undecided{Msg: "argument of the discrete logarithm is not a power of the root of unity"})
	}
	l := x.A[0].L
	if !d.ModZ("the small discrete logarithm is taken of a root of unity of order 256", d.It.PathCond(), l, two(24)) {
		panic(vg.Undecided{Msg: "argument of the discrete logarithm does not have order 256"})
	}
	m := l.MapCoef(func(k *big.Int) *big.Int { // -l / 2^24, coefficients in (-128, 128]
		z := new(big.Int).Neg(k)
		z.Mod(z, two(32))
		z.Rsh(z, 24)
		if z.Cmp(bi(128)) > 0 {
			z.Sub(z, bi(256))
		}
		return z
	})
	r := alg.Rng{P: m, Lo: bi(-1 << 40), Hi: bi(1 << 40)}
	_, rem := d.C.DivMod(d.C.Tighten(r), bi(256), "discrete logarithm")
	return &vg.IntV{R: d.C.Tighten(rem), W: 64}
}

// congruent demands p = 0 modulo 2^32.
func (d *powDom) congruent(what string, c alg.Bdd, p *alg.Poly) {
	s := p.MapCoef(func(k *big.Int) *big.Int {
		z := new(big.Int).Mod(k, two(32))
		if z.Cmp(two(31)) > 0 {
			z.Sub(z, two(32))
		}
		return z
	})
	if ok, _, n := d.C.Prove(alg.Goal{Kind: alg.GZero, P: s, Cond: c}, d.Max); ok {
		d.R.Add(&Ob{Rule: d.Rule, Construct: d.Name, Pos: d.pos(), Goal: what, OK: true, Cases: n})
		return
	}
	d.ModZ(what, c, p, two(32))
}

func runF09(r *Run) {
	const rule = "square-root"
	fn := r.Find(rule, fe, feType+".SquareRoot")
	if fn == nil {
		return
	}
	feN := Elem(fn.Params[0].Type())
	for _, isZero := range []bool{false, true} {
		for _, alias := range []bool{false, true} {
			isZero, alias := isZero, alias
			r.Go(rule, "SquareRoot", func() {
				d := newPow(r.NewEnv(rule, fmt.Sprintf("SquareRoot: zero=%v aliased=%v", isZero, alias), fn))
				d.Guard(func() {
					xv := d.pow(bi(1), alg.KI(0))
					if isZero {
						xv = d.zero()
					}
					x := d.It.NewObj(d.St, "x", feN, xv)
					// the old value of z: some element, written x^12345 as a marker
					old := d.pow(bi(12345), alg.KI(0))
					z := x
					if !alias {
						z = d.It.NewObj(d.St, "z", feN, old)
					} else {
						old = xv
					}
					res, ret := d.It.Call(d.St, fn, []vg.Value{z, x}, nil)
					d.Never("returns", d.C.Not(ret))
					d.NoPanics(alg.False)
					ok := d.Cond(res[0])
					got := d.at(d.St, z)
					if !alias {
						y := d.at(d.St, x)
						d.Bool("the argument is kept", len(y.A) == 1 && y.A[0].same(xv.A[0]), "")
					}
					if isZero {
						d.Never("zero is a square", d.C.Not(ok))
						d.Bool("the root of zero is zero", len(got.A) == 1 && got.A[0].Zero, "")
						return
					}
					// success exactly if n is even
					_, par := d.C.DivMod(d.C.Tighten(alg.Rng{P: d.n, Lo: new(big.Int), Hi: sub1(two(32))}), bi(2), "parity")
					d.Zero("success only for squares", ok, par.P)
					d.Zero("failure only for non-squares", d.C.Not(ok), par.P.Sub(alg.KI(1)))
					for _, a := range got.A {
						c := d.C.And(a.C, ok)
						if c != alg.False {
							sq := d.norm(c, badd(a.A, a.A), a.L.Add(a.L))
							if !a.Zero {
								d.Bool("the square of the result is x times a root of unity", sq.A.Cmp(bi(1)) == 0, sq.A.String())
								d.congruent("the square of the result is x", c, sq.L)
							} else {
								d.Never("the root of a nonzero element is not zero", c)
							}
						}
						if c := d.C.And(a.C, d.C.Not(ok)); c != alg.False && !a.same(old.A[0]) {
							d.Never("the receiver is kept if there is no root", c)
						}
					}
				})
			})
		}
	}
	// the small discrete logarithm, for all arguments in all representations
	dl := r.P.Func(fe, "sqrtAlg_NegDlogInSmallDyadicSubgroup")
	if dl != nil {
		r.Go("small-dlog", dl.Name(), func() {
			e := r.NewEnv("small-dlog", dl.Name(), dl)
			e.It.Maps = true
			e.It.MaxInstr = 40000000
			e.Guard(func() {
				w := new(big.Int).Exp(mustBig(dyadicRoot), two(24), Pbase)
				n := 0
				for m := int64(0); m < 256; m++ {
					v := new(big.Int).Exp(w, bi(m), Pbase)
					v.Mod(v.Mul(v, R256), Pbase)
					for ; v.Cmp(bsub(R256, Pbase)) < 0; v = badd(v, Pbase) {
						a := &vg.AggV{}
						for i := 0; i < 4; i++ {
							k := new(big.Int).Rsh(v, uint(64*i))
							a.E = append(a.E, &vg.IntV{R: alg.KR(k.And(k, sub1(two(64)))), W: 64})
						}
						p := e.It.NewObj(e.St, "x", Elem(dl.Params[0].Type()), e.feOf(Elem(dl.Params[0].Type()), a))
						res, ret := e.It.Call(e.St, dl, []vg.Value{p}, nil)
						e.Never("returns", e.C.Not(ret))
						e.Zero(fmt.Sprintf("the result is the negative discrete logarithm (%d)", m), ret, e.MustNum(res[0]).Sub(alg.KI((256-m)%256)))
						n++
					}
				}
				r.Count("elements for which the small discrete logarithm was evaluated", n)
			})
		})
	}
	r.Wait()
}

// feOf wraps four words into the structure of the field element type.
func (e *Env) feOf(t types.Type, w *vg.AggV) vg.Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return w
	case *types.Struct:
		v := e.It.Zero(t).(*vg.AggV)
		out := &vg.AggV{E: append([]vg.Value{}, v.E...)}
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && len(v.E[i].(*vg.AggV).E) == 0 {
				continue
			}
			if a, ok := u.Field(i).Type().Underlying().(*types.Array); ok && a.Len() == 0 {
				continue
			}
			out.E[i] = e.feOf(u.Field(i).Type(), w)
		}
		return out
	}
	panic(vg.Undecided{Msg: "unknown representation of field elements"})
}
