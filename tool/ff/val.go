package ff

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// FE is one factor with its exponent.
type FE struct{ F, E int }

// Val is K * prod F^E, or zero when K is zero.
type Val struct {
	K  *big.Int
	Fs []FE // sorted by F, E != 0
}

// Const makes a constant.
func (c *Ctx) Const(x *big.Int) Val { return Val{K: c.mod(x)} }

// ConstI makes a constant.
func (c *Ctx) ConstI(x int64) Val { return c.Const(big.NewInt(x)) }

// IsZero tells whether the value is identically zero.
func (v Val) IsZero() bool { return v.K.Sign() == 0 }

// IsConst tells whether the value is a constant.
func (v Val) IsConst() bool { return len(v.Fs) == 0 }

// Equal is equality of the representations.
func (v Val) Equal(w Val) bool {
	if v.K.Cmp(w.K) != 0 || len(v.Fs) != len(w.Fs) {
		return false
	}
	for i := range v.Fs {
		if v.Fs[i] != w.Fs[i] {
			return false
		}
	}
	return true
}

// Key identifies the representation.
func (v Val) Key() string { return v.K.Text(36) + fmt.Sprint(v.Fs) }

// Factor returns an interned factor.
func (c *Ctx) Factor(i int) *Fac { return c.facs[i] }

func (c *Ctx) intern(p Poly) int {
	k := p.key()
	if i, ok := c.byKey[k]; ok {
		return i
	}
	f := &Fac{P: p, Key: k, Vars: p.vars()}
	c.facs = append(c.facs, f)
	c.byKey[k] = len(c.facs) - 1
	return len(c.facs) - 1
}

// OfVar is a variable as a value.
func (c *Ctx) OfVar(i int) Val {
	return Val{K: big.NewInt(1), Fs: []FE{{c.intern(c.V(i)), 1}}}
}

// OfPoly factors a polynomial as far as it is known how to.
func (c *Ctx) OfPoly(p Poly) Val {
	p = c.reduce(p)
	if len(p) == 0 {
		return Val{K: new(big.Int)}
	}
	// monomial content
	var g Mono
	first := true
	for m := range p {
		if first {
			g = m
			first = false
			continue
		}
		for i := range g {
			if m[i] < g[i] {
				g[i] = m[i]
			}
		}
	}
	l := lead(p)
	k := new(big.Int).Set(p[l])
	ki := new(big.Int).ModInverse(k, c.P)
	q := make(Poly, len(p))
	for m, x := range p {
		for i := range m {
			m[i] -= g[i]
		}
		y := new(big.Int).Mul(x, ki)
		q[m] = y.Mod(y, c.P)
	}
	v := Val{K: k}
	for i := range g {
		if g[i] > 0 {
			v.Fs = append(v.Fs, FE{c.intern(c.V(i)), int(g[i])})
		}
	}
	sort.Slice(v.Fs, func(i, j int) bool { return v.Fs[i].F < v.Fs[j].F })
	if len(q) == 1 {
		return v
	}
	if w, ok := c.canon[q.key()]; ok {
		return c.Mul(v, w)
	}
	return c.Mul(v, Val{K: big.NewInt(1), Fs: []FE{{c.intern(q), 1}}})
}

// Canon registers that poly p equals v (as values on the curve).
func (c *Ctx) Canon(p Poly, v Val) {
	w := c.OfPoly(p)
	if len(w.Fs) != 1 || w.Fs[0].E != 1 {
		panic("ff: cannot register factorisation of " + c.String(w))
	}
	ki := new(big.Int).ModInverse(w.K, c.P)
	c.canon[c.facs[w.Fs[0].F].Key] = c.Scale(v, ki)
}

// Scale multiplies by a constant.
func (c *Ctx) Scale(v Val, k *big.Int) Val {
	x := new(big.Int).Mul(v.K, k)
	x.Mod(x, c.P)
	if x.Sign() == 0 {
		return Val{K: x}
	}
	return Val{K: x, Fs: v.Fs}
}

// Neg negates.
func (c *Ctx) Neg(v Val) Val { return c.Scale(v, big.NewInt(-1)) }

// Mul multiplies.
func (c *Ctx) Mul(v, w Val) Val {
	if v.IsZero() || w.IsZero() {
		return Val{K: new(big.Int)}
	}
	k := new(big.Int).Mul(v.K, w.K)
	k.Mod(k, c.P)
	r := Val{K: k, Fs: make([]FE, 0, len(v.Fs)+len(w.Fs))}
	i, j := 0, 0
	for i < len(v.Fs) || j < len(w.Fs) {
		switch {
		case j >= len(w.Fs) || i < len(v.Fs) && v.Fs[i].F < w.Fs[j].F:
			r.Fs = append(r.Fs, v.Fs[i])
			i++
		case i >= len(v.Fs) || w.Fs[j].F < v.Fs[i].F:
			r.Fs = append(r.Fs, w.Fs[j])
			j++
		default:
			if e := v.Fs[i].E + w.Fs[j].E; e != 0 {
				r.Fs = append(r.Fs, FE{v.Fs[i].F, e})
			}
			i++
			j++
		}
	}
	return r
}

// Pow is v^n for n >= 0, or n < 0 with v nonzero.
func (c *Ctx) Pow(v Val, n int) Val {
	if n == 0 {
		return c.ConstI(1)
	}
	if v.IsZero() {
		return v
	}
	k := new(big.Int).Exp(v.K, big.NewInt(int64(abs(n))), c.P)
	if n < 0 {
		k.ModInverse(k, c.P)
	}
	r := Val{K: k}
	for _, f := range v.Fs {
		r.Fs = append(r.Fs, FE{f.F, f.E * n})
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// Inv inverts a value that is not identically zero.
func (c *Ctx) Inv(v Val) Val { return c.Pow(v, -1) }

// Add adds.
func (c *Ctx) Add(v, w Val) Val {
	if v.IsZero() {
		return w
	}
	if w.IsZero() {
		return v
	}
	c.Calls++
	// common part: minimum exponents
	var com, rv, rw []FE
	i, j := 0, 0
	put := func(f, ev, ew int) {
		m := ev
		if ew < m {
			m = ew
		}
		if m != 0 {
			com = append(com, FE{f, m})
		}
		if ev-m != 0 {
			rv = append(rv, FE{f, ev - m})
		}
		if ew-m != 0 {
			rw = append(rw, FE{f, ew - m})
		}
	}
	for i < len(v.Fs) || j < len(w.Fs) {
		switch {
		case j >= len(w.Fs) || i < len(v.Fs) && v.Fs[i].F < w.Fs[j].F:
			put(v.Fs[i].F, v.Fs[i].E, 0)
			i++
		case i >= len(v.Fs) || w.Fs[j].F < v.Fs[i].F:
			put(w.Fs[j].F, 0, w.Fs[j].E)
			j++
		default:
			put(v.Fs[i].F, v.Fs[i].E, w.Fs[j].E)
			i++
			j++
		}
	}
	s := c.PAdd(c.expand(v.K, rv), c.expand(w.K, rw), big.NewInt(1))
	return c.Mul(Val{K: big.NewInt(1), Fs: com}, c.OfPoly(s))
}

func (c *Ctx) expand(k *big.Int, fs []FE) Poly {
	p := c.K(k)
	for _, f := range fs {
		for e := 0; e < f.E; e++ {
			p = c.PMul(p, c.facs[f.F].P)
		}
	}
	return p
}

// Sub subtracts.
func (c *Ctx) Sub(v, w Val) Val { return c.Add(v, c.Neg(w)) }

// Expand is numerator and denominator.
func (c *Ctx) Expand(v Val) (num, den Poly) {
	var n, d []FE
	for _, f := range v.Fs {
		if f.E > 0 {
			n = append(n, f)
		} else {
			d = append(d, FE{f.F, -f.E})
		}
	}
	return c.expand(v.K, n), c.expand(big.NewInt(1), d)
}

// Subst replaces the e-th power of variable i by w.
func (c *Ctx) Subst(v Val, i, e int, w Val) Val {
	if v.IsZero() {
		return v
	}
	r := c.Const(v.K)
	for _, f := range v.Fs {
		has := false
		for _, x := range c.facs[f.F].Vars {
			if x == i {
				has = true
			}
		}
		if !has {
			r = c.Mul(r, Val{K: big.NewInt(1), Fs: []FE{f}})
			continue
		}
		s := c.substPoly(c.facs[f.F].P, i, e, w)
		if s.IsZero() && f.E < 0 {
			// division by zero: cannot happen under the condition considered
			return Val{K: new(big.Int)}
		}
		r = c.Mul(r, c.Pow(s, f.E))
	}
	return r
}

func (c *Ctx) substPoly(p Poly, i, e int, w Val) Val {
	byDeg := map[int]Poly{}
	for m, k := range p {
		d := int(m[i])
		m[i] = uint8(d % e)
		d /= e
		if byDeg[d] == nil {
			byDeg[d] = Poly{}
		}
		byDeg[d][m] = k
	}
	var ds []int
	for d := range byDeg {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	s := c.ConstI(0)
	for _, d := range ds {
		s = c.Add(s, c.Mul(c.OfPoly(byDeg[d]), c.Pow(w, d)))
	}
	return s
}

// Linear solves factor f = 0 for a power e of variable i when f is linear in it.
func (c *Ctx) Linear(f, i int) (w Val, e int, ok bool) {
	a, b := Poly{}, Poly{}
	for m, k := range c.facs[f].P {
		d := int(m[i])
		if d == 0 {
			b[m] = k
			continue
		}
		if e != 0 && d != e {
			return Val{}, 0, false
		}
		e = d
		m[i] = 0
		a[m] = k
	}
	if len(a) == 0 {
		return Val{}, 0, false
	}
	av := c.OfPoly(a)
	if !c.Unit(av) {
		return Val{}, 0, false
	}
	return c.Neg(c.Mul(c.OfPoly(b), c.Inv(av))), e, true
}

// String renders a value.
func (c *Ctx) String(v Val) string {
	if v.IsConst() {
		return c.numStr(v.K)
	}
	var parts []string
	if k := c.numStr(v.K); k != "1" {
		parts = append(parts, k)
	}
	for _, f := range v.Fs {
		s := c.PString(c.facs[f.F].P)
		if len(c.facs[f.F].P) > 1 {
			s = "(" + s + ")"
		}
		if f.E != 1 {
			s += fmt.Sprintf("^%d", f.E)
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " ")
}
