package chk

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/load"
	"verif/vg"
)

func init() {
	register(&Property{ID: "U02", Level: "proof", Technique: "Evaluation of constant declarations (go/types) and of the initialisers of package variables (forward dataflow over SSA with constant operands), compared with independently computed values.", F: runU02,
		Note: "Every constant, string, big integer, word array, 256-bit integer, field element and point that packages common, exponents, fieldElements and curvePoints declare under a name of the table is evaluated and compared with a value recomputed from the modulus, the curve equation and the group order. Word tables are split off the base name (_64, _32_3, ...). Exported names of the table must exist."})
}

// constTable maps base names of constants to values.
func constTable() map[string]*big.Int {
	p, r := Pbase, Pexp
	md := func(z *big.Int) *big.Int { return new(big.Int).Mod(z, p) }
	inv := func(z *big.Int) *big.Int { return new(big.Int).ModInverse(z, p) }
	odd := new(big.Int).Rsh(sub1(p), 32)
	R := two(256)
	t := map[string]*big.Int{
		"BaseFieldSize":                   p,
		"BaseFieldBitLength":              bi(int64(p.BitLen())),
		"BaseFieldByteLength":             bi(32),
		"GroupOrder":                      r,
		"halfGroupOrder":                  new(big.Int).Rsh(r, 1),
		"Cofactor":                        bi(4),
		"CurveOrder":                      bmul(bi(4), r),
		"CurveExponent":                   bmul(bi(2), r),
		"BaseField2Adicity":               bi(32),
		"BaseFieldMultiplicativeOddOrder": odd,
		"BaseFieldMultiplicateOddOrder":   odd,
		"tonelliShanksExponent":           new(big.Int).Rsh(badd(odd, bi(1)), 1),
		"One":                             bi(1),
		"Two":                             bi(2),
		"MinusOne":                        bi(-1),
		"TwoTo32":                         two(32),
		"TwoTo64":                         two(64),
		"TwoTo128":                        two(128),
		"TwoTo256":                        two(256),
		"TwoTo512":                        two(512),
		"uint256Max":                      sub1(two(256)),
		"zero":                            new(big.Int),
		"twiceBaseFieldSize":              bmul(bi(2), p),
		"thriceBaseFieldSize":             bmul(bi(3), p),
		"thriceBaseFieldSizeMod2To256":    new(big.Int).Mod(bmul(bi(3), p), R),
		"twoTo256ModBaseField":            md(R),
		"twoTo512ModBaseField":            md(bmul(R, R)),
		"minus2To256ModBaseField":         md(new(big.Int).Neg(R)),
		"montgomeryBound":                 bsub(R, p),
		"minusOneHalfModBaseField":        new(big.Int).Rsh(p, 1),
		"oneHalfModBaseField":             new(big.Int).Rsh(badd(p, bi(1)), 1),
		"negativeInverseModulus":          bsub(two(64), new(big.Int).ModInverse(p, two(64))),
		"FieldElementOne":                 bi(1),
		"FieldElementZero":                new(big.Int),
		"FieldElementMinusOne":            sub1(p),
		"FieldElementTwo":                 bi(2),
		"DyadicRootOfUnity":               mustBig(dyadicRoot),
		"CurveParameterA":                 curveA,
		"CurveParameterD":                 curveD,
		"squareRootDByA":                  curveR,
		"yAtInfinity_E1":                  inv(curveR),
		"yAtInfinity_E2":                  md(new(big.Int).Neg(inv(curveR))),
		"endo_b":                          endoB,
		"endo_c":                          endoC,
		"endo_binverse":                   inv(endoB),
		"endo_bcd":                        md(bmul(endoB, bmul(endoC, curveD))),
		"reciprocal":                      new(big.Int).Quo(two(512), p),
	}
	re4 := new(big.Int).Rsh(t["reciprocal"], 256)
	t["mmu0"] = new(big.Int).Mod(bmul(p, re4), R)
	t["mmu1"] = new(big.Int).Mod(bmul(p, badd(re4, bi(1))), R)
	return t
}

// constAlias maps spellings to names of the table.
var constAlias = map[string]string{"squareRootDbyA": "squareRootDByA", "one": "One", "two": "Two", "baseFieldSize": "BaseFieldSize",
	"twoTo128": "TwoTo128", "twoTo256": "TwoTo256", "twoTo512": "TwoTo512", "m": "BaseFieldSize", "re": "reciprocal",
	"curveExponent": "CurveExponent", "curveOrder": "CurveOrder", "groupOrder": "GroupOrder",
	"baseFieldMultiplicativeOddOrder": "BaseFieldMultiplicativeOddOrder", "fieldElementZero": "FieldElementZero", "fieldElementOne": "FieldElementOne",
	"fieldElementTwo": "FieldElementTwo", "fieldElementMinusOne": "FieldElementMinusOne", "bsFieldElement_64_zero": "FieldElementZero",
	"bsFieldElement_64_zero_alt": "FieldElementZero", "bsFieldElement_64_one": "FieldElementOne", "bsFieldElement_64_minusone": "FieldElementMinusOne",
	"dyadicRootOfUnity": "DyadicRootOfUnity"}

// constExported lists exported names that users refer to.
var constExported = map[string][]string{
	common: {"BaseFieldSize", "BaseFieldSize_untyped", "BaseFieldSize_string", "BaseFieldSize_Int", "BaseFieldBitLength", "BaseFieldByteLength",
		"GroupOrder", "GroupOrder_string", "GroupOrder_Int", "Cofactor", "Cofactor_string", "Cofactor_Int", "CurveOrder", "CurveOrder_string", "CurveOrder_Int",
		"CurveExponent", "CurveExponent_string", "CurveExponent_Int", "EndomorphismEigenvalue", "EndomorphismEigenvalue_string", "EndomorphismEigenvalue_Int",
		"One_Int", "Two_Int", "MinusOne_Int", "TwoTo32_Int", "TwoTo64_Int", "TwoTo128_Int", "TwoTo256_Int", "TwoTo512_Int"},
	"bandersnatch/exponents": {"CurveExponent", "CurveOrder", "GroupOrder", "EndomorphismEigenvalue", "CurveExponent_Int", "GroupOrder_Int", "EndomorphismEigenvalue_Int", "CurveOrder_Int"},
	fe: {"BaseFieldSize_untyped", "BaseFieldSize_string", "BaseFieldSize_Int", "BaseFieldSize_64", "BaseFieldSize_32", "BaseFieldSize_16", "BaseFieldSize_8", "BaseFieldBitLength", "BaseFieldByteLength",
		"BaseField2Adicity", "BaseFieldMultiplicativeOddOrder", "BaseFieldMultiplicateOddOrder_uint256", "FieldElementOne", "FieldElementZero", "FieldElementMinusOne", "FieldElementTwo",
		"DyadicRootOfUnity_untyped", "DyadicRootOfUnity_string", "DyadicRootOfUnity_fe"},
	curvePkg: {"Cofactor", "CurveOrder", "EndomorphismEigenvalue_Int", "GroupOrder_Int", "BaseFieldSize_untyped", "BaseFieldSize_string", "BaseFieldSize_Int", "BaseFieldSize_64", "BaseFieldSize_32", "BaseFieldBitLength", "BaseFieldByteLength",
		"GroupOrder", "CurveParameterA", "CurveParameterA_string", "CurveParameterD", "CurveParameterD_string", "CurveParameterD_Int", "CurveParameterD_fe", "CurveParameterA_Int", "CurveParameterA_fe",
		"NeutralElement_xtw_full", "NeutralElement_xtw_subgroup", "NeutralElement_axtw_full", "NeutralElement_axtw_subgroup", "NeutralElement_efgh_full", "NeutralElement_efgh_subgroup",
		"AffineOrderTwoPoint_xtw", "AffineOrderTwoPoint_axtw", "AffineOrderTwoPoint_efgh", "InfinitePoint1_xtw", "InfinitePoint2_xtw", "InfinitePoint1_efgh", "InfinitePoint2_efgh", "SubgroupGenerator_xtw_subgroup"},
}

var constSuffix = regexp.MustCompile(`^(.*?)(?:_(Int|untyped|string|fe|uint256|uint64|uint|copy))?$`)
var constWord = regexp.MustCompile(`^(.*?)(?:_(64|32|16|8))?(?:_(\d+))?$`)

type constName struct {
	base string
	word int // -1 or index of the word
	bits int
}

// lookupConst splits a name into a table entry and a word.
func lookupConst(t map[string]*big.Int, name string) (constName, bool) {
	has := func(s string) (string, bool) {
		if a, ok := constAlias[s]; ok {
			s = a
		}
		_, ok := t[s]
		return s, ok
	}
	if b, ok := has(name); ok {
		return constName{b, -1, 64}, true
	}
	if m := constSuffix.FindStringSubmatch(name); m[2] != "" {
		if b, ok := has(m[1]); ok {
			return constName{b, -1, 64}, true
		}
	}
	m := constWord.FindStringSubmatch(name)
	b, ok := has(m[1])
	if !ok {
		return constName{}, false
	}
	c := constName{b, -1, 64}
	if m[2] != "" {
		c.bits, _ = strconv.Atoi(m[2])
	}
	if m[3] != "" {
		c.word, _ = strconv.Atoi(m[3])
	}
	return c, true
}

func constBig(v constant.Value) (*big.Int, bool) {
	switch v.Kind() {
	case constant.Int:
		switch x := constant.Val(v).(type) {
		case int64:
			return bi(x), true
		case *big.Int:
			return new(big.Int).Set(x), true
		}
	case constant.String:
		return new(big.Int).SetString(constant.StringVal(v), 0)
	}
	return nil, false
}

func runU02(r *Run) {
	const rule = "constants"
	tab := constTable()
	var pk []string
	for p := range constExported {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, pkg := range pk {
		pkg := pkg
		sp := r.P.SSA.ImportedPackage(load.Module + "/" + pkg)
		if sp == nil {
			r.Ok(rule, pkg, 0, "package is analysable", false, "package not found")
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range constExported[pkg] {
			if sc.Lookup(n) == nil {
				r.Ok(rule, pkg+"."+n, 0, "declared", false, "exported constant not found")
			}
		}
		for _, n := range sc.Names() {
			n := n
			obj := sc.Lookup(n)
			what := pkg[strings.LastIndex(pkg, "/")+1:] + "." + n
			if strings.HasPrefix(n, "EndomorphismEigenvalue") {
				r.eigenvalue(rule, what, obj)
				continue
			}
			cn, ok := lookupConst(tab, n)
			if !ok {
				if v, isVar := obj.(*types.Var); isVar && pkg == curvePkg {
					r.pointConst(rule, what, v)
				}
				continue
			}
			want := tab[cn.base]
			switch o := obj.(type) {
			case *types.Const:
				if cn.word >= 0 {
					want = new(big.Int).And(new(big.Int).Rsh(want, uint(cn.word*cn.bits)), sub1(two(uint(cn.bits))))
				}
				got, ok := constBig(o.Val())
				r.Ok(rule, what, o.Pos(), "value", ok && got.Cmp(want) == 0, fmt.Sprintf("declared as %v, expected %v", o.Val(), want))
				r.Count("constants", 1)
			case *types.Var:
				r.Go(rule, what, func() {
					e := r.NewEnv(rule, what, nil)
					defer e.Done()
					if isFEType(o.Type()) {
						d := newFE(e)
						g := e.initialised(o)
						x := d.load(e.St, g)
						r.Ok(rule, what, o.Pos(), "value", d.eqVal(x, d.F.Const(new(big.Int).Mod(want, Pbase))) == alg.True, fmt.Sprintf("field element initialised to %s, expected %v", d.String(x), want))
						r.Count("variables", 1)
						return
					}
					got, kind := e.constVar(o, cn.bits)
					ok := got != nil && got.Cmp(want) == 0
					r.Ok(rule, what, o.Pos(), "value", ok, fmt.Sprintf("%s initialised to %v, expected %v", kind, got, want))
					r.Count("variables", 1)
				})
			}
		}
	}
	r.Wait()
}

// eigenvalue checks that a constant is a root of X^2+2 mod the group order:
// the one belonging to the endomorphism.
func (r *Run) eigenvalue(rule, what string, obj types.Object) {
	var got *big.Int
	switch o := obj.(type) {
	case *types.Const:
		got, _ = constBig(o.Val())
	case *types.Var:
		e := r.NewEnv(rule, what, nil)
		defer e.Done()
		e.Guard(func() { got, _ = e.constVar(o, 64) })
	}
	ok := got != nil && got.Sign() > 0 && got.Cmp(Pexp) < 0 && new(big.Int).Mod(badd(bmul(got, got), bi(2)), Pexp).Sign() == 0
	r.Ok(rule, what, obj.Pos(), "square is -2 modulo the group order", ok, fmt.Sprint("value ", got))
	if ok {
		r.Ok(rule, what, obj.Pos(), "eigenvalue of the endomorphism on the subgroup", ptEq(ptMul(got, genPt()), endoPt(genPt())), fmt.Sprint("value ", got))
	}
}

// constVar evaluates the initialiser of a package variable.
func (e *Env) constVar(o *types.Var, bits int) (*big.Int, string) {
	v := e.It.Force(e.It.Load(e.St, e.initialised(o)))
	t := o.Type()
	if p, ok := v.(vg.PtrV); ok {
		k, ok := vg.ConstInt(e.It.Force(e.It.Load(e.St, p)))
		if !ok {
			return nil, "integer"
		}
		return k, "integer"
	}
	if k, ok := vg.ConstInt(v); ok {
		return k, "integer"
	}
	a, ok := v.(*vg.AggV)
	if !ok {
		return nil, e.It.Describe(v)
	}
	if arr, isA := t.Underlying().(*types.Array); isA {
		if b, isB := arr.Elem().Underlying().(*types.Basic); isB {
			switch b.Kind() {
			case types.Uint64:
				bits = 64
			case types.Uint32:
				bits = 32
			case types.Uint16:
				bits = 16
			case types.Uint8:
				bits = 8
			}
		}
	}
	s := new(big.Int)
	for i := range a.E {
		k, ok := vg.ConstInt(e.It.Force(a.E[i]))
		if !ok {
			return nil, "words"
		}
		s.Add(s, new(big.Int).Lsh(k, uint(bits*i)))
	}
	return s, "words"
}

// initialised is a pointer to a package variable, after the declared init functions that refer to it have run.
func (e *Env) initialised(o *types.Var) vg.Value {
	pk := e.R.P.SSA.Package(o.Pkg())
	g, _ := pk.Members[o.Name()].(*ssa.Global)
	if g == nil {
		panic(vg.Undecided{Msg: "unresolved variable " + o.Name()})
	}
	var fns []*ssa.Function
	for n, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "init#") && mentions(f, g) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		e.It.Call(e.St, f, nil, nil)
	}
	return vg.PtrV{O: e.It.GlobalObj(g)}
}

func mentions(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

func isFEType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "bsFieldElement_MontgomeryNonUnique"
}

// affPt is a point as (X:Z),(Y:Z2) quotients in P1 x P1.
type affPt struct{ x0, x1, y0, y1 *big.Int }

func ptMod(z *big.Int) *big.Int { return z.Mod(z, Pbase) }

func projEq(a, b, c, d *big.Int) bool {
	return new(big.Int).Mod(bsub(bmul(a, d), bmul(b, c)), Pbase).Sign() == 0
}

func ptEq(a, b affPt) bool { return projEq(a.x0, a.x1, b.x0, b.x1) && projEq(a.y0, a.y1, b.y0, b.y1) }

func genPt() affPt {
	return affPt{mustBig("0x29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18"), bi(1),
		mustBig("0x2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166"), bi(1)}
}

// ptAdd adds affine points of the subgroup (no exceptions occur there).
func ptAdd(p, q affPt) affPt {
	aff := func(p affPt) (x, y *big.Int) {
		x = ptMod(bmul(p.x0, new(big.Int).ModInverse(p.x1, Pbase)))
		y = ptMod(bmul(p.y0, new(big.Int).ModInverse(p.y1, Pbase)))
		return
	}
	x1, y1 := aff(p)
	x2, y2 := aff(q)
	d := ptMod(bmul(curveD, bmul(bmul(x1, x2), bmul(y1, y2))))
	return affPt{ptMod(badd(bmul(x1, y2), bmul(y1, x2))), ptMod(badd(bi(1), d)),
		ptMod(bsub(bmul(y1, y2), bmul(curveA, bmul(x1, x2)))), ptMod(bsub(bi(1), d))}
}

func ptMul(k *big.Int, p affPt) affPt {
	r := affPt{new(big.Int), bi(1), bi(1), bi(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ptAdd(r, r)
		if k.Bit(i) == 1 {
			r = ptAdd(r, p)
		}
	}
	return r
}

// endoPt is the degree two endomorphism on affine points.
func endoPt(p affPt) affPt {
	x, y := p.x0, p.y0
	xy := ptMod(bmul(x, y))
	yy := ptMod(bmul(y, y))
	return affPt{ptMod(bmul(endoC, bsub(bi(1), yy))), xy, ptMod(bmul(endoB, badd(yy, endoB))), ptMod(bsub(yy, endoB))}
}

// pointConst checks the exported point constants.
func (r *Run) pointConst(rule, what string, o *types.Var) {
	var t ptype
	found := false
	for _, x := range ptypes {
		if n, ok := types.Unalias(o.Type()).(*types.Named); ok && n.Obj().Name() == x.name {
			t, found = x, true
		}
	}
	if !found || !o.Exported() {
		return
	}
	one, z := bi(1), new(big.Int)
	neg := big.NewInt(-1)
	var want affPt
	ri := new(big.Int).ModInverse(curveR, Pbase)
	gen := false
	switch nm := o.Name(); {
	case strings.HasPrefix(nm, "NeutralElement_"):
		want = affPt{z, one, one, one}
	case strings.HasPrefix(nm, "AffineOrderTwoPoint"):
		want = affPt{z, one, neg, one}
	case strings.HasPrefix(nm, "InfinitePoint1"):
		want = affPt{one, z, ri, one}
	case strings.HasPrefix(nm, "InfinitePoint2"):
		want = affPt{one, z, new(big.Int).Neg(ri), one}
	case strings.HasPrefix(nm, "SubgroupGenerator"):
		want, gen = genPt(), true
	default:
		return
	}
	r.Go(rule, what, func() {
		e := r.NewEnv(rule, what, nil)
		defer e.Done()
		v := e.It.Load(e.St, e.initialised(o))
		names, paths := feFields(o.Type())
		ord := coordOrder(t.k, names)
		var c []*big.Int
		for i := range coordNames[t.k] {
			w := v
			for _, j := range paths[ord[i]] {
				w = e.It.Force(w).(*vg.AggV).E[j]
			}
			k, ok := feWords(e, w)
			if !ok {
				panic(vg.Undecided{Msg: what + ": coordinate is not constant"})
			}
			c = append(c, ptMod(bmul(k, Rinv)))
		}
		zero := func(z *big.Int) bool { return new(big.Int).Mod(z, Pbase).Sign() == 0 }
		var ok bool
		switch t.k {
		case cEFGH: // x = e/g, y = h/f
			ok = !(zero(c[0]) && zero(c[2])) && !(zero(c[1]) && zero(c[3]))
			ok = ok && ptEq(affPt{c[0], c[2], c[3], c[1]}, want)
		default:
			X, Y, Z, T := c[0], c[1], one, c[2]
			if t.k == cXTW {
				Z, T = c[2], c[3]
			}
			// (X:Z), (Y:Z) if Z != 0, else (T:Y), (T:X)
			ok = !(zero(X) && zero(Y) && zero(Z) && zero(T)) && zero(bsub(bmul(X, Y), bmul(T, Z)))
			ok = ok && zero(bsub(bmul(X, want.x1), bmul(Z, want.x0))) && zero(bsub(bmul(T, want.x1), bmul(Y, want.x0)))
			ok = ok && zero(bsub(bmul(Y, want.y1), bmul(Z, want.y0))) && zero(bsub(bmul(T, want.y1), bmul(X, want.y0)))
		}
		r.Ok(rule, what, o.Pos(), "stands for its point", ok, fmt.Sprint("coordinates ", c))
		if gen {
			p := genPt()
			xx, yy := bmul(p.x0, p.x0), bmul(p.y0, p.y0)
			on := zero(bsub(badd(bmul(curveA, xx), yy), badd(one, bmul(curveD, bmul(xx, yy)))))
			r.Ok(rule, what, o.Pos(), "lies on the curve and has the order of the subgroup", on && ptEq(ptMul(Pexp, p), affPt{z, one, one, one}), "")
		}
		r.Count("points", 1)
	})
}
