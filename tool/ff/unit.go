package ff

import (
	"math/big"
)

// CurvePair declares (x,y) to be a point of the curve with x, y nonzero.
func (c *Ctx) CurvePair(x, y int) {
	c.pairs = append(c.pairs, [2]int{x, y})
	i := len(c.pairs) - 1
	c.onCrv[x], c.onCrv[y] = i, i
	X, Y := c.V(x), c.V(y)
	xx, yy := c.PMul(X, X), c.PMul(Y, Y)
	one := c.K(big.NewInt(1))
	// 1 - a x^2 = y^2 (1 - d x^2)
	nA := new(big.Int).Neg(c.A)
	nD := new(big.Int).Neg(c.D)
	den := c.PAdd(one, xx, nD)
	dv := c.OfPoly(den)
	c.Canon(c.PAdd(one, xx, nA), c.Mul(c.Pow(c.OfVar(y), 2), dv))
	// y^2 - 1 = x^2 (d y^2 - a)
	dy := c.PAdd(c.K(nA), yy, c.D)
	c.Canon(c.PAdd(yy, one, big.NewInt(-1)), c.Mul(c.Pow(c.OfVar(x), 2), c.OfPoly(dy)))
	// a x^2 + y^2 - 1 = d x^2 y^2
	c.Canon(c.PAdd(c.PAdd(yy, xx, c.A), one, big.NewInt(-1)), c.Scale(c.Mul(c.Pow(c.OfVar(x), 2), c.Pow(c.OfVar(y), 2)), c.D))
	// a, d non-squares: 1 - d x^2 never vanishes
	c.AddUnit(den)
	c.AddUnit(X)
	c.AddUnit(Y)
}

// Scaling declares a free nonzero variable.
func (c *Ctx) Scaling(i int) {
	c.scaling[i] = true
	c.AddUnit(c.V(i))
}

// AddUnit declares the factors of p not to vanish anywhere in the class.
func (c *Ctx) AddUnit(p Poly) {
	v := c.OfPoly(p)
	if v.IsZero() {
		panic("ff: zero declared a unit")
	}
	for _, f := range v.Fs {
		c.facs[f.F].Unit = true
	}
}

// SetChi declares the quadratic character of polynomial p (with one unknown factor of odd exponent).
func (c *Ctx) SetChi(p Poly, s int) {
	v := c.OfPoly(p)
	s *= c.chiK(v.K)
	odd := -1
	for _, f := range v.Fs {
		if f.E%2 != 0 {
			if x, ok := c.chi[f.F]; ok {
				s *= x
				continue
			}
			if odd >= 0 {
				panic("ff: character of several unknown factors")
			}
			odd = f.F
		}
	}
	if odd < 0 {
		if s != 1 {
			panic("ff: inconsistent character")
		}
		return
	}
	c.chi[odd] = s
}

func (c *Ctx) chiK(k *big.Int) int {
	return big.Jacobi(k, c.P)
}

// Chi is the quadratic character of a nonzero value; unknown lists factors of unknown character.
func (c *Ctx) Chi(v Val) (s int, unknown []int) {
	s = c.chiK(v.K)
	for _, f := range v.Fs {
		if f.E%2 == 0 {
			continue
		}
		if x, ok := c.chi[f.F]; ok {
			s *= x
			continue
		}
		if t, ok := c.squarePart(f.F); ok {
			s *= t
			continue
		}
		unknown = append(unknown, f.F)
	}
	return
}

// squarePart: character of factors that are a constant character everywhere (none at present).
func (c *Ctx) squarePart(f int) (int, bool) { return 0, false }

// Sqrt takes the square root of a value with even exponents and square constant.
func (c *Ctx) Sqrt(v Val) (Val, bool) {
	if v.IsZero() {
		return v, true
	}
	k := new(big.Int).ModSqrt(v.K, c.P)
	if k == nil {
		return Val{}, false
	}
	r := Val{K: k}
	for _, f := range v.Fs {
		if f.E%2 != 0 {
			return Val{}, false
		}
		r.Fs = append(r.Fs, FE{f.F, f.E / 2})
	}
	return r, true
}

// Unit tells whether the value vanishes nowhere in the class.
func (c *Ctx) Unit(v Val) bool {
	if v.IsZero() {
		return false
	}
	for _, f := range v.Fs {
		if f.E > 0 && !c.FacUnit(f.F) {
			return false
		}
	}
	return true
}

// FacUnit decides whether a factor vanishes nowhere in the class.
func (c *Ctx) FacUnit(i int) bool {
	f := c.facs[i]
	if f.Unit {
		return true
	}
	if m := c.locus[i]; m != 0 {
		return m == 1
	}
	r := c.decide(f)
	if u, v, ok := c.Aniso(i); ok && (c.Unit(u) || c.Unit(v)) {
		r = true
	}
	c.locus[i] = 2
	if r {
		c.locus[i] = 1
		f.Unit = true
	}
	return r
}

// decide computes the F_p-points of the class on which a factor in the
// coordinates of a single point vanishes.
func (c *Ctx) decide(f *Fac) bool {
	pair := -1
	for _, v := range f.Vars {
		p, ok := c.onCrv[v]
		if !ok || pair >= 0 && p != pair {
			return false
		}
		pair = p
	}
	if pair < 0 || c.Excl == nil {
		return false
	}
	pts, ok := c.Zeros(f.P, pair)
	if !ok {
		return false
	}
	for _, q := range pts {
		if !c.Excl(pair, q[0], q[1]) {
			return false
		}
	}
	return true
}

// Zeros lists the affine F_p-points of the curve on which p (in the
// coordinates of the given pair only) vanishes; ok is false when there are infinitely many.
func (c *Ctx) Zeros(p Poly, pair int) (pts [][2]*big.Int, ok bool) {
	x, y := c.pairs[pair][0], c.pairs[pair][1]
	one := upoly{big.NewInt(1)}
	num := c.uadd(one, upoly{new(big.Int), new(big.Int), c.mod(new(big.Int).Neg(c.A))}) // 1 - a x^2
	den := c.uadd(one, upoly{new(big.Int), new(big.Int), c.mod(new(big.Int).Neg(c.D))}) // 1 - d x^2
	k := 0
	for m := range p {
		if int(m[y])/2 > k {
			k = int(m[y]) / 2
		}
	}
	pw := func(b upoly, n int) upoly {
		r := one
		for i := 0; i < n; i++ {
			r = c.umul(r, b)
		}
		return r
	}
	var f0, f1 upoly
	for m, co := range p {
		for i := range m {
			if i != x && i != y && m[i] != 0 {
				return nil, false
			}
		}
		t := make(upoly, int(m[x])+1)
		for i := range t {
			t[i] = new(big.Int)
		}
		t[m[x]] = co
		h := int(m[y]) / 2
		t = c.umul(t, c.umul(pw(num, h), pw(den, k-h)))
		if m[y]%2 == 0 {
			f0 = c.uadd(f0, t)
		} else {
			f1 = c.uadd(f1, t)
		}
	}
	// f = (f0 + y f1)/den^k ; norm: f0^2 den - f1^2 num
	nrm := c.uadd(c.umul(c.umul(f0, f0), den), c.uneg(c.umul(c.umul(f1, f1), num)))
	if len(nrm) == 0 {
		return nil, false
	}
	for _, x0 := range c.roots(nrm) {
		n0, d0 := c.ueval(num, x0), c.ueval(den, x0)
		if d0.Sign() == 0 {
			continue
		}
		yy := new(big.Int).Mul(n0, new(big.Int).ModInverse(d0, c.P))
		yy.Mod(yy, c.P)
		y0 := new(big.Int)
		if yy.Sign() != 0 {
			y0 = new(big.Int).ModSqrt(yy, c.P)
			if y0 == nil {
				continue
			}
		}
		a, b := c.ueval(f0, x0), c.ueval(f1, x0)
		for i := 0; i < 2; i++ {
			yv := y0
			if i == 1 {
				if y0.Sign() == 0 {
					break
				}
				yv = new(big.Int).Sub(c.P, y0)
			}
			s := new(big.Int).Mul(b, yv)
			s.Add(s, a)
			if s.Mod(s, c.P).Sign() == 0 {
				pts = append(pts, [2]*big.Int{x0, yv})
			}
		}
	}
	return pts, true
}

// ---- univariate polynomials over F_p, low degree first, no leading zeros ----

type upoly []*big.Int

func trim(a upoly) upoly {
	for len(a) > 0 && a[len(a)-1].Sign() == 0 {
		a = a[:len(a)-1]
	}
	return a
}

func (c *Ctx) uadd(a, b upoly) upoly {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(upoly, n)
	for i := range r {
		r[i] = new(big.Int)
		if i < len(a) {
			r[i].Add(r[i], a[i])
		}
		if i < len(b) {
			r[i].Add(r[i], b[i])
		}
		r[i].Mod(r[i], c.P)
	}
	return trim(r)
}

func (c *Ctx) uneg(a upoly) upoly {
	r := make(upoly, len(a))
	for i := range a {
		r[i] = c.mod(new(big.Int).Neg(a[i]))
	}
	return r
}

func (c *Ctx) umul(a, b upoly) upoly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make(upoly, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	t := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			t.Mul(a[i], b[j])
			r[i+j].Add(r[i+j], t)
		}
	}
	for i := range r {
		r[i].Mod(r[i], c.P)
	}
	return trim(r)
}

func (c *Ctx) ueval(a upoly, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(a) - 1; i >= 0; i-- {
		r.Mul(r, x)
		r.Add(r, a[i])
		r.Mod(r, c.P)
	}
	return r
}

func (c *Ctx) umonic(a upoly) upoly {
	if len(a) == 0 {
		return a
	}
	i := new(big.Int).ModInverse(a[len(a)-1], c.P)
	r := make(upoly, len(a))
	for k := range a {
		r[k] = c.mod(new(big.Int).Mul(a[k], i))
	}
	return r
}

func (c *Ctx) udivmod(a, b upoly) (q, r upoly) {
	r = make(upoly, len(a))
	for i := range a {
		r[i] = new(big.Int).Set(a[i])
	}
	if len(a) < len(b) {
		return nil, trim(r)
	}
	inv := new(big.Int).ModInverse(b[len(b)-1], c.P)
	q = make(upoly, len(a)-len(b)+1)
	for i := len(q) - 1; i >= 0; i-- {
		k := new(big.Int).Mul(r[i+len(b)-1], inv)
		k.Mod(k, c.P)
		q[i] = k
		if k.Sign() == 0 {
			continue
		}
		for j := range b {
			r[i+j].Sub(r[i+j], new(big.Int).Mul(k, b[j]))
			r[i+j].Mod(r[i+j], c.P)
		}
	}
	return trim(q), trim(r)
}

func (c *Ctx) ugcd(a, b upoly) upoly {
	for len(b) > 0 {
		_, r := c.udivmod(a, b)
		a, b = b, r
	}
	return c.umonic(a)
}

func (c *Ctx) upowmod(b upoly, e *big.Int, m upoly) upoly {
	r := upoly{big.NewInt(1)}
	_, b = c.udivmod(b, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		_, r = c.udivmod(c.umul(r, r), m)
		if e.Bit(i) == 1 {
			_, r = c.udivmod(c.umul(r, b), m)
		}
	}
	return r
}

// roots lists the distinct roots in F_p.
func (c *Ctx) roots(f upoly) []*big.Int {
	f = c.umonic(f)
	var out []*big.Int
	// factor x
	for len(f) > 1 && f[0].Sign() == 0 {
		if len(out) == 0 {
			out = append(out, new(big.Int))
		}
		f = f[1:]
	}
	if len(f) <= 1 {
		return out
	}
	x := upoly{new(big.Int), big.NewInt(1)}
	if len(f) == 2 {
		return append(out, c.mod(new(big.Int).Neg(f[0])))
	}
	xp := c.upowmod(x, c.P, f)
	g := c.ugcd(f, c.uadd(xp, c.uneg(x)))
	return append(out, c.split(g, 1)...)
}

// split factors a product of distinct linear factors.
func (c *Ctx) split(g upoly, seed int64) []*big.Int {
	if len(g) <= 1 {
		return nil
	}
	if len(g) == 2 {
		return []*big.Int{c.mod(new(big.Int).Neg(g[0]))}
	}
	e := new(big.Int).Rsh(c.P, 1)
	for s := seed; ; s++ {
		h := c.upowmod(upoly{big.NewInt(s), big.NewInt(1)}, e, g)
		h = c.uadd(h, upoly{c.mod(big.NewInt(-1))})
		d := c.ugcd(g, h)
		if len(d) > 1 && len(d) < len(g) {
			q, _ := c.udivmod(g, d)
			return append(c.split(d, s+1), c.split(c.umonic(q), s+1)...)
		}
	}
}

// IsFree tells whether a variable is unconstrained by curve equations.
func (c *Ctx) IsFree(i int) bool {
	_, on := c.onCrv[i]
	return !on
}

// Free declares nothing: the variable ranges over the whole field.
func (c *Ctx) Free(i int) {}

// Aniso recognises factors u^2 - c v^2 with c a non-square: they vanish exactly where u and v both do.
func (c *Ctx) Aniso(i int) (u, v Val, ok bool) {
	f := c.facs[i]
	if len(f.P) != 2 {
		return
	}
	var h [2]Val
	var k [2]*big.Int
	n := 0
	for m, x := range f.P {
		for j, e := range m {
			if e%2 != 0 {
				return
			}
			m[j] = e / 2
		}
		h[n] = c.OfPoly(Poly{m: big.NewInt(1)})
		k[n] = x
		n++
	}
	q := new(big.Int).ModInverse(k[1], c.P)
	q.Mul(q, k[0]).Neg(q).Mod(q, c.P)
	if big.Jacobi(q, c.P) != -1 {
		return
	}
	return h[0], h[1], true
}
