package vg

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
)

// wrap reduces an exact integer into the range of a machine type.
func (it *Interp) wrap(r alg.Rng, w int, signed bool) *IntV {
	if w == 0 {
		return &IntV{R: r}
	}
	r = it.C.Tighten(r)
	if !signed {
		mx := new(big.Int).Sub(alg.Two(uint(w)), big.NewInt(1))
		if r.Lo != nil && r.Hi != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(mx) <= 0 {
			return &IntV{R: r, W: w}
		}
		_, rem := it.C.DivMod(r, alg.Two(uint(w)), "wrap")
		return &IntV{R: rem, W: w}
	}
	h := alg.Two(uint(w - 1))
	if r.Lo != nil && r.Hi != nil && r.Lo.Cmp(new(big.Int).Neg(h)) >= 0 && r.Hi.Cmp(h) < 0 {
		return &IntV{R: r, W: w, Signed: true}
	}
	_, rem := it.C.DivMod(it.C.AddR(r, alg.KR(h)), alg.Two(uint(w)), "swrap")
	return &IntV{R: it.C.SubR(rem, alg.KR(h)), W: w, Signed: true}
}

func (fr *frame) eqVals(a, b Value) (alg.Bdd, bool) {
	it := fr.it
	a, b = it.force(a), it.force(b)
	if ch, ok := a.(*ChoiceV); ok {
		acc := alg.False
		for _, x := range ch.A {
			e, ok := fr.eqVals(x.V, b)
			if !ok {
				return 0, false
			}
			acc = it.C.Or(acc, it.C.And(x.C, e))
		}
		return acc, true
	}
	if _, ok := b.(*ChoiceV); ok {
		return fr.eqVals(b, a)
	}
	switch x := a.(type) {
	case *IntV:
		if y, ok := b.(*IntV); ok {
			return it.C.EqR(x.R, y.R), true
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return it.C.Not(it.C.Xor(x.B, y.B)), true
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return tfb(x.S == y.S), true
		}
	case NilV:
		switch b.(type) {
		case NilV:
			return alg.True, true
		case PtrV, IfaceV, *FuncV, SliceV:
			return alg.False, true
		}
	case PtrV:
		switch y := b.(type) {
		case NilV:
			return alg.False, true
		case PtrV:
			return tfb(x == y), true
		}
	case SliceV, *FuncV:
		if _, ok := b.(NilV); ok {
			return alg.False, true
		}
	case IfaceV:
		switch y := b.(type) {
		case NilV:
			return alg.False, true
		case IfaceV:
			if !types.Identical(x.T, y.T) {
				return alg.False, true
			}
			return fr.eqVals(x.V, y.V)
		}
	case *AggV:
		if y, ok := b.(*AggV); ok && len(x.E) == len(y.E) {
			acc := alg.True
			for i := range x.E {
				e, ok := fr.eqVals(x.E[i], y.E[i])
				if !ok {
					return 0, false
				}
				acc = it.C.And(acc, e)
			}
			return acc, true
		}
	case EqDom:
		return x.EqDom(it, b)
	}
	return 0, false
}

// EqDom is implemented by leaf values that can be compared.
type EqDom interface {
	EqDom(it *Interp, o Value) (alg.Bdd, bool)
}

func (fr *frame) binop(x *ssa.BinOp, a, b Value) Value {
	it := fr.it
	switch x.Op {
	case token.EQL, token.NEQ:
		e, ok := fr.eqVals(a, b)
		if !ok {
			return OpaqueV{"comparison"}
		}
		if x.Op == token.NEQ {
			e = it.C.Not(e)
		}
		return BoolV{e}
	}
	return it.each(a, func(a Value) Value {
		return it.each(b, func(b Value) Value { return fr.binop1(x, a, b) })
	})
}

func (fr *frame) binop1(x *ssa.BinOp, a, b Value) Value {
	it := fr.it
	if s, ok := a.(StrV); ok {
		if t, ok := b.(StrV); ok {
			switch x.Op {
			case token.ADD:
				return StrV{s.S + t.S}
			case token.LSS:
				return BoolV{tfb(s.S < t.S)}
			case token.GTR:
				return BoolV{tfb(s.S > t.S)}
			}
		}
		return OpaqueV{"string operation"}
	}
	if p, ok := a.(BoolV); ok {
		if q, ok := b.(BoolV); ok {
			switch x.Op {
			case token.AND, token.LAND:
				return BoolV{it.C.And(p.B, q.B)}
			case token.OR, token.LOR:
				return BoolV{it.C.Or(p.B, q.B)}
			}
		}
		return OpaqueV{"bool operation"}
	}
	p, ok1 := a.(*IntV)
	q, ok2 := b.(*IntV)
	if !ok1 || !ok2 {
		return OpaqueV{"operation on unknown"}
	}
	return it.IntOp(x.Op, p, q)
}

// IntOp is machine-integer arithmetic.
func (it *Interp) IntOp(op token.Token, p, q *IntV) Value {
	c := it.C
	switch op {
	case token.ADD:
		return it.wrap(c.AddR(p.R, q.R), p.W, p.Signed)
	case token.SUB:
		return it.wrap(c.SubR(p.R, q.R), p.W, p.Signed)
	case token.MUL:
		return it.wrap(c.MulR(p.R, q.R), p.W, p.Signed)
	case token.LSS:
		return BoolV{it.ltR(p.R, q.R)}
	case token.GTR:
		return BoolV{it.ltR(q.R, p.R)}
	case token.LEQ:
		return BoolV{c.Not(it.ltR(q.R, p.R))}
	case token.GEQ:
		return BoolV{c.Not(it.ltR(p.R, q.R))}
	case token.QUO, token.REM:
		pc, ok1 := ConstInt(p)
		qc, ok2 := ConstInt(q)
		if ok2 && qc.Sign() == 0 {
			return OpaqueV{"division by zero"}
		}
		if ok1 && ok2 {
			qu, re := new(big.Int).QuoRem(pc, qc, new(big.Int))
			if op == token.QUO {
				return &IntV{R: alg.KR(qu), W: p.W, Signed: p.Signed}
			}
			return &IntV{R: alg.KR(re), W: p.W, Signed: p.Signed}
		}
		if ok2 && qc.Sign() > 0 && p.R.Lo != nil && p.R.Lo.Sign() >= 0 {
			qu, re := c.DivMod(p.R, qc, "div")
			if op == token.QUO {
				return &IntV{R: qu, W: p.W, Signed: p.Signed}
			}
			return &IntV{R: re, W: p.W, Signed: p.Signed}
		}
		return it.opaqueInt(p.W, p.Signed)
	case token.SHL:
		k, ok := ConstInt(q)
		if !ok {
			return it.shiftSym(op, p, q)
		}
		if k.Sign() < 0 {
			return OpaqueV{"negative shift"}
		}
		if p.W != 0 && k.Cmp(big.NewInt(int64(p.W))) >= 0 {
			return &IntV{R: alg.KR(new(big.Int)), W: p.W, Signed: p.Signed}
		}
		return it.wrap(c.MulR(p.R, alg.KR(alg.Two(uint(k.Int64())))), p.W, p.Signed)
	case token.SHR:
		k, ok := ConstInt(q)
		if !ok {
			return it.shiftSym(op, p, q)
		}
		if k.Sign() < 0 {
			return OpaqueV{"negative shift"}
		}
		if k.Cmp(big.NewInt(100000)) > 0 {
			k = big.NewInt(100000)
		}
		kk := uint(k.Int64())
		if p.W != 0 && int(kk) > p.W {
			kk = uint(p.W)
		}
		qu, _ := c.DivMod(p.R, alg.Two(kk), "shr")
		return &IntV{R: qu, W: p.W, Signed: p.Signed}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return it.bitop(op, p, q)
	}
	return OpaqueV{"operator " + op.String()}
}

func (it *Interp) shiftSym(op token.Token, p, q *IntV) Value {
	// enumerate a small range of shift amounts
	r := it.C.Tighten(q.R)
	if r.Lo == nil || r.Hi == nil || r.Lo.Sign() < 0 {
		return OpaqueV{"symbolic shift"}
	}
	hi := r.Hi
	if hi.Cmp(big.NewInt(64)) > 0 {
		if p.W == 0 {
			return OpaqueV{"symbolic shift"}
		}
		hi = big.NewInt(64)
	}
	var alts []ChoiceAlt
	for k := r.Lo.Int64(); k <= hi.Int64(); k++ {
		var cd alg.Bdd
		if k == 64 {
			cd = it.C.Not(it.C.LtR(q.R, alg.KR(big.NewInt(64))))
		} else {
			cd = it.C.EqR(q.R, alg.KR(big.NewInt(k)))
		}
		if cd == alg.False {
			continue
		}
		alts = append(alts, ChoiceAlt{cd, it.IntOp(op, p, KInt(k, 64, false))})
	}
	if len(alts) == 0 {
		return OpaqueV{"symbolic shift"}
	}
	return it.mergeNow(alts)
}

func (it *Interp) opaqueInt(w int, signed bool) *IntV {
	var lo, hi *big.Int
	if w > 0 {
		if signed {
			h := alg.Two(uint(w - 1))
			lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
		} else {
			lo, hi = new(big.Int), new(big.Int).Sub(alg.Two(uint(w)), big.NewInt(1))
		}
	}
	a := it.C.NewAtom("opq", alg.KOpq, lo, hi)
	return &IntV{R: alg.Rng{P: it.C.V(a), Lo: lo, Hi: hi}, W: w, Signed: signed}
}

// FreshInt makes an unknown of a machine type.
func (it *Interp) FreshInt(name string, kind alg.AtomKind, lo, hi *big.Int, w int, signed bool) *IntV {
	a := it.C.NewAtom(name, kind, lo, hi)
	return &IntV{R: alg.Rng{P: it.C.V(a), Lo: lo, Hi: hi}, W: w, Signed: signed}
}

func is01(r alg.Rng) bool {
	return r.Lo != nil && r.Hi != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(big.NewInt(1)) <= 0
}

func (it *Interp) bitop(op token.Token, p, q *IntV) Value {
	c := it.C
	pr, qr := c.Tighten(p.R), c.Tighten(q.R)
	pc, ok1 := ConstInt(p)
	qc, ok2 := ConstInt(q)
	if ok1 && ok2 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(pc, qc)
		case token.OR:
			r.Or(pc, qc)
		case token.XOR:
			r.Xor(pc, qc)
		case token.AND_NOT:
			r.AndNot(pc, qc)
		}
		return &IntV{R: alg.KR(r), W: p.W, Signed: p.Signed}
	}
	if op == token.AND_NOT {
		// p &^ q = p & (all ^ q)
		if p.Signed {
			if ok2 {
				return it.bitop(token.AND, p, &IntV{R: alg.KR(new(big.Int).Not(qc)), W: p.W, Signed: true})
			}
		} else {
			all := new(big.Int).Sub(alg.Two(uint(p.W)), big.NewInt(1))
			return it.bitop(token.AND, p, &IntV{R: c.SubR(alg.KR(all), qr), W: p.W})
		}
	}
	if ok1 {
		p, q = q, p
		pr, qr = qr, pr
		pc, qc = qc, pc
		ok1, ok2 = ok2, ok1
	}
	if p == q || pr.P.Equal(qr.P) {
		if op == token.XOR {
			return &IntV{R: alg.KR(new(big.Int)), W: p.W, Signed: p.Signed}
		}
		return p
	}
	if is01(pr) && is01(qr) {
		x, y := c.EqR(pr, alg.KR(big.NewInt(1))), c.EqR(qr, alg.KR(big.NewInt(1)))
		var b alg.Bdd
		switch op {
		case token.AND:
			b = c.And(x, y)
		case token.OR:
			b = c.Or(x, y)
		case token.XOR:
			b = c.Xor(x, y)
		}
		return &IntV{R: c.BoolR(b), W: p.W, Signed: p.Signed}
	}
	if ok2 {
		if qc.Sign() == 0 {
			if op == token.AND {
				return &IntV{R: alg.KR(new(big.Int)), W: p.W, Signed: p.Signed}
			}
			return p
		}
		// masks: decompose the constant into runs of ones
		if op == token.AND && (qc.Sign() > 0 || p.Signed) {
			m := new(big.Int).Set(qc)
			if m.Sign() < 0 { // signed: two's complement within W bits
				m.Add(m, alg.Two(uint(p.W)))
			}
			acc := alg.KR(new(big.Int))
			pp := pr
			neg := pr.Lo == nil || pr.Lo.Sign() < 0
			if p.W > 0 && m.BitLen() <= p.W && !(neg && m.Bit(p.W-1) == 1) {
				i := 0
				for i < m.BitLen() {
					if m.Bit(i) == 0 {
						i++
						continue
					}
					j := i
					for j < m.BitLen() && m.Bit(j) == 1 {
						j++
					}
					// bits [i,j)
					var hiPart, part alg.Rng
					if j >= p.W && !neg {
						part = pp
					} else {
						hiPart, part = c.DivMod(pp, alg.Two(uint(j)), "mask")
						_ = hiPart
					}
					if i > 0 {
						_, low := c.DivMod(part, alg.Two(uint(i)), "mask")
						part = c.SubR(part, low)
						if part.Lo == nil || part.Lo.Sign() < 0 {
							part.Lo = new(big.Int)
						}
					}
					acc = c.AddR(acc, part)
					i = j
				}
				return &IntV{R: acc, W: p.W, Signed: p.Signed}
			}
		}
		if op == token.XOR && !p.Signed && p.W > 0 && qc.Cmp(new(big.Int).Sub(alg.Two(uint(p.W)), big.NewInt(1))) == 0 {
			return &IntV{R: c.SubR(alg.KR(qc), pr), W: p.W}
		}
	}
	nonneg := pr.Lo != nil && qr.Lo != nil && pr.Lo.Sign() >= 0 && qr.Lo.Sign() >= 0
	if nonneg && pr.Hi != nil && qr.Hi != nil && (op == token.OR || op == token.XOR || op == token.AND) {
		// disjoint bit ranges
		disj := func(a, b alg.Rng) bool { return tz(a.P) >= b.Hi.BitLen() }
		if disj(pr, qr) || disj(qr, pr) {
			if op == token.AND {
				return &IntV{R: alg.KR(new(big.Int)), W: p.W, Signed: p.Signed}
			}
			return &IntV{R: c.AddR(pr, qr), W: p.W, Signed: p.Signed}
		}
		// bitwise over explicit bit decompositions
		if x, ok := it.bits(pr.P); ok {
			if y, ok := it.bits(qr.P); ok {
				acc := alg.KR(new(big.Int))
				for k := 0; k < 64; k++ {
					u, v := x[k], y[k]
					var b alg.Bdd
					switch op {
					case token.AND:
						b = c.And(u, v)
					case token.OR:
						b = c.Or(u, v)
					default:
						b = c.Xor(u, v)
					}
					acc = c.AddR(acc, c.MulR(c.BoolR(b), alg.KR(alg.Two(uint(k)))))
				}
				return &IntV{R: acc, W: p.W, Signed: p.Signed}
			}
		}
		// general: range facts only
		key := op.String() + pr.P.Key() + "|" + qr.P.Key()
		if pr.P.Key() > qr.P.Key() {
			key = op.String() + qr.P.Key() + "|" + pr.P.Key()
		}
		if o, ok := c.Named[key]; ok {
			return &IntV{R: c.Tighten(alg.Rng{P: o}), W: p.W, Signed: p.Signed}
		}
		hb := pr.Hi.BitLen()
		if qr.Hi.BitLen() > hb {
			hb = qr.Hi.BitLen()
		}
		hi := new(big.Int).Sub(alg.Two(uint(hb)), big.NewInt(1))
		o := it.FreshInt("bit"+op.String(), alg.KOpq, new(big.Int), hi, p.W, p.Signed)
		c.Named[key] = o.R.P
		z := new(big.Int)
		for _, ab := range [][2]alg.Rng{{pr, qr}, {qr, pr}} {
			if k := tz(ab[0].P); k > 0 && k < 4096 {
				// disjoint bit ranges if the other value is below 2^k
				small := c.LtR(ab[1], alg.KR(alg.Two(uint(k))))
				if op == token.AND {
					c.AddFact(small, o.R.P, z, z, "disjoint bits")
				} else {
					c.AddFact(small, o.R.P.Sub(pr.P).Sub(qr.P), z, z, "disjoint bits")
				}
			}
		}
		switch op {
		case token.OR:
			c.AddFact(alg.True, o.R.P.Sub(pr.P), z, nil, "or>=")
			c.AddFact(alg.True, o.R.P.Sub(qr.P), z, nil, "or>=")
			c.AddFact(alg.True, pr.P.Add(qr.P).Sub(o.R.P), z, nil, "or<=")
		case token.AND:
			c.AddFact(alg.True, pr.P.Sub(o.R.P), z, nil, "and<=")
			c.AddFact(alg.True, qr.P.Sub(o.R.P), z, nil, "and<=")
		case token.XOR:
			c.AddFact(alg.True, pr.P.Add(qr.P).Sub(o.R.P), z, nil, "xor<=")
			c.AddFact(alg.True, o.R.P.Sub(pr.P).Add(qr.P), z, nil, "xor>=")
			c.AddFact(alg.True, o.R.P.Add(pr.P).Sub(qr.P), z, nil, "xor>=")
		}
		return o
	}
	return it.opaqueInt(p.W, p.Signed)
}

// bits views a polynomial Σ 2^i b_i (b_i boolean literals) as 64 conditions.
func (it *Interp) bits(p *alg.Poly) ([64]alg.Bdd, bool) {
	var out [64]alg.Bdd
	for i := range out {
		out[i] = alg.False
	}
	ok := p.EachLinear(func(id int32, co *big.Int) bool {
		if id < 0 { // constant
			if co.Sign() < 0 || co.BitLen() > 64 {
				return false
			}
			for i := 0; i < co.BitLen(); i++ {
				if co.Bit(i) == 1 {
					if out[i] != alg.False {
						return false
					}
					out[i] = alg.True
				}
			}
			return true
		}
		a := it.C.Atoms[id]
		if co.Sign() <= 0 {
			return false
		}
		k := int(co.TrailingZeroBits())
		if k > 63 || new(big.Int).Rsh(co, uint(k)).Cmp(big.NewInt(1)) != 0 || out[k] != alg.False {
			return false
		}
		if a.IsBool() {
			out[k] = it.C.BVar(id)
			return true
		}
		if a.Kind == alg.KPhi && a.Lo != nil && a.Lo.Sign() >= 0 && a.Hi != nil && a.Hi.Cmp(big.NewInt(1)) <= 0 {
			out[k] = it.C.EqR(it.C.Tighten(alg.Rng{P: it.C.V(a)}), alg.KR(big.NewInt(1)))
			return true
		}
		return false
	})
	return out, ok
}

func tz(p *alg.Poly) int {
	m := 1 << 20
	p.EachCoef(func(v *big.Int) {
		if k := int(v.TrailingZeroBits()); k < m {
			m = k
		}
	})
	return m
}

func (fr *frame) convert(x *ssa.Convert, v Value, st *State) Value {
	it := fr.it
	return it.each(v, func(v Value) Value {
		tt := x.Type().Underlying()
		if b, ok := tt.(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				if i, ok := v.(*IntV); ok {
					w, s := intType(x.Type())
					return it.wrap(i.R, w, s)
				}
				return OpaqueV{"conversion to integer"}
			}
			if b.Info()&types.IsString != 0 {
				if s, ok := v.(StrV); ok {
					return s
				}
				if s, ok := v.(SliceV); ok {
					out := make([]byte, s.Len)
					for i := 0; i < s.Len; i++ {
						c, ok := ConstInt(it.force(it.Load(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)})))
						if !ok || !c.IsInt64() {
							return OpaqueV{"string of symbolic bytes"}
						}
						out[i] = byte(c.Int64())
					}
					return StrV{string(out)}
				}
				return OpaqueV{"conversion to string"}
			}
			return OpaqueV{"conversion"}
		}
		if sl, ok := tt.(*types.Slice); ok {
			if s, ok := v.(StrV); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					a := &AggV{E: make([]Value, len(s.S))}
					for i := range a.E {
						a.E[i] = KInt(int64(s.S[i]), 8, false)
					}
					p := it.NewObj(st, "bytes", x.Type(), a)
					return SliceV{p, 0, len(s.S), len(s.S)}
				}
			}
			return OpaqueV{"conversion to slice"}
		}
		return v
	})
}

// DefInt is an unsigned machine integer known to equal p (which is therefore in range).
func (it *Interp) DefInt(p *alg.Poly, w int) *IntV {
	hi := new(big.Int).Sub(alg.Two(uint(w)), big.NewInt(1))
	it.C.AddFact(alg.True, p, new(big.Int), hi, "definition")
	return &IntV{R: alg.Rng{P: p, Lo: new(big.Int), Hi: hi}, W: w}
}

// ltR is a < b; comparisons of a bit length with a constant are comparisons with a power of two.
func (it *Interp) ltR(a, b alg.Rng) alg.Bdd {
	c := it.C
	d := c.SubR(a, b)
	if len(it.lens) > 0 && d.P.NumTerms() <= 2 && d.P.Degree() == 1 {
		if ids := d.P.AtomIDs(); len(ids) == 1 {
			if x, ok := it.lens[ids[0]]; ok {
				k := d.P.Sub(c.V(c.Atoms[ids[0]])) // d = L + k or d = -L + k
				if k.IsConst() {                   // L < -k: x < 2^(-k-1)
					n := new(big.Int).Neg(k.Const())
					switch {
					case n.Sign() <= 0:
						return alg.False
					case n.Cmp(big.NewInt(4096)) > 0:
						return c.LtR(a, b)
					}
					return c.LtR(x, alg.KR(alg.Two(uint(n.Int64()-1))))
				}
				if k = d.P.Add(c.V(c.Atoms[ids[0]])); k.IsConst() { // L > k: x >= 2^k
					n := k.Const()
					switch {
					case n.Sign() < 0:
						return alg.True
					case n.Cmp(big.NewInt(4096)) > 0:
						return c.LtR(a, b)
					}
					return c.Not(c.LtR(x, alg.KR(alg.Two(uint(n.Int64())))))
				}
			}
		}
	}
	return c.LtR(a, b)
}

// EqualCond is the condition for two values to be equal (==).
func (it *Interp) EqualCond(a, b Value) (alg.Bdd, bool) {
	fr := &frame{it: it}
	return fr.eqVals(a, b)
}
