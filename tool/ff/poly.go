// Package ff is the value domain for prime field elements: factored rational
// functions over F_p modulo the equations of twisted Edwards curves.
package ff

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// MaxVars is the number of variables a monomial can mention.
const MaxVars = 16

// Mono is an exponent vector.
type Mono [MaxVars]uint8

// Poly is a polynomial with coefficients in [1,p).
type Poly map[Mono]*big.Int

// Ctx holds the variables, the curve equations and the interned factors.
type Ctx struct {
	P     *big.Int
	A, D  *big.Int // curve parameters
	Names []string
	pairs [][2]int // (x,y) variables on the curve
	onCrv map[int]int
	facs  []*Fac
	byKey map[string]int
	canon map[string]Val // known factorisations
	units map[string]bool
	// Excl tells whether an affine point of pair i is excluded from the class
	Excl    func(pair int, x, y *big.Int) bool
	scaling map[int]bool // nonzero free variables
	chi     map[int]int  // known quadratic characters of factors
	locus   map[int]int  // memo: 0 unknown 1 unit 2 not
	Calls   int
}

// Fac is an interned irreducible-as-far-as-known factor (monic polynomial).
type Fac struct {
	P    Poly
	Key  string
	Unit bool
	Vars []int
}

// NewCtx makes a domain over F_p with curve a x^2 + y^2 = 1 + d x^2 y^2.
func NewCtx(p, a, d *big.Int) *Ctx {
	c := &Ctx{P: p, A: new(big.Int).Mod(a, p), D: new(big.Int).Mod(d, p), byKey: map[string]int{}, canon: map[string]Val{},
		units: map[string]bool{}, onCrv: map[int]int{}, scaling: map[int]bool{}, chi: map[int]int{}, locus: map[int]int{}}
	return c
}

// Var adds a variable.
func (c *Ctx) Var(name string) int {
	c.Names = append(c.Names, name)
	if len(c.Names) > MaxVars {
		panic("ff: too many variables")
	}
	return len(c.Names) - 1
}

func (c *Ctx) mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, c.P) }

// K is a constant polynomial.
func (c *Ctx) K(x *big.Int) Poly {
	m := c.mod(x)
	if m.Sign() == 0 {
		return Poly{}
	}
	return Poly{Mono{}: m}
}

// V is a variable as a polynomial.
func (c *Ctx) V(i int) Poly {
	var m Mono
	m[i] = 1
	return Poly{m: big.NewInt(1)}
}

func (c *Ctx) addTo(p Poly, m Mono, k *big.Int) {
	if o, ok := p[m]; ok {
		s := new(big.Int).Add(o, k)
		s.Mod(s, c.P)
		if s.Sign() == 0 {
			delete(p, m)
		} else {
			p[m] = s
		}
		return
	}
	s := c.mod(k)
	if s.Sign() != 0 {
		p[m] = s
	}
}

// PAdd is p + k*q.
func (c *Ctx) PAdd(p, q Poly, k *big.Int) Poly {
	r := make(Poly, len(p)+len(q))
	for m, x := range p {
		r[m] = x
	}
	for m, x := range q {
		c.addTo(r, m, new(big.Int).Mul(x, k))
	}
	return r
}

// PMul is p*q in normal form.
func (c *Ctx) PMul(p, q Poly) Poly {
	r := make(Poly, len(p)*2)
	for m, x := range p {
		for n, y := range q {
			var mn Mono
			for i := range m {
				s := int(m[i]) + int(n[i])
				if s > 250 {
					panic("ff: degree overflow")
				}
				mn[i] = uint8(s)
			}
			c.addTo(r, mn, new(big.Int).Mul(x, y))
		}
	}
	return c.reduce(r)
}

// reduce rewrites x^2 y^2 = (a x^2 + y^2 - 1)/d for every curve pair.
func (c *Ctx) reduce(p Poly) Poly {
	if len(c.pairs) == 0 {
		return p
	}
	for _, pr := range c.pairs {
		x, y := pr[0], pr[1]
		need := false
		for m := range p {
			if m[x] >= 2 && m[y] >= 2 {
				need = true
				break
			}
		}
		if !need {
			continue
		}
		di := new(big.Int).ModInverse(c.D, c.P)
		out := make(Poly, len(p))
		// process by decreasing degree
		work := p
		for {
			next := Poly{}
			any := false
			for m, k := range work {
				if m[x] >= 2 && m[y] >= 2 {
					any = true
					b := m
					b[x] -= 2
					b[y] -= 2
					kd := new(big.Int).Mul(k, di)
					kd.Mod(kd, c.P)
					m1 := b
					m1[x] += 2
					c.addTo(next, m1, new(big.Int).Mul(kd, c.A))
					m2 := b
					m2[y] += 2
					c.addTo(next, m2, kd)
					c.addTo(next, b, new(big.Int).Neg(kd))
				} else {
					c.addTo(out, m, k)
				}
			}
			if !any {
				break
			}
			work = next
		}
		p = out
	}
	return p
}

func less(a, b Mono) bool { // graded lex
	da, db := 0, 0
	for i := range a {
		da += int(a[i])
		db += int(b[i])
	}
	if da != db {
		return da < db
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func lead(p Poly) Mono {
	var l Mono
	first := true
	for m := range p {
		if first || less(l, m) {
			l = m
			first = false
		}
	}
	return l
}

func (p Poly) key() string {
	ms := make([]Mono, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return less(ms[j], ms[i]) })
	var b strings.Builder
	for _, m := range ms {
		b.Write(m[:])
		b.WriteString(p[m].Text(36))
		b.WriteByte(';')
	}
	return b.String()
}

// Equal compares normal forms.
func (p Poly) Equal(q Poly) bool {
	if len(p) != len(q) {
		return false
	}
	for m, x := range p {
		y, ok := q[m]
		if !ok || x.Cmp(y) != 0 {
			return false
		}
	}
	return true
}

func (p Poly) vars() []int {
	var seen Mono
	for m := range p {
		for i := range m {
			if m[i] > 0 {
				seen[i] = 1
			}
		}
	}
	var r []int
	for i := range seen {
		if seen[i] > 0 {
			r = append(r, i)
		}
	}
	return r
}

// String renders a polynomial.
func (c *Ctx) PString(p Poly) string {
	if len(p) == 0 {
		return "0"
	}
	ms := make([]Mono, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return less(ms[j], ms[i]) })
	var parts []string
	for _, m := range ms {
		k := p[m]
		s := c.numStr(k)
		var fs []string
		for i := range m {
			if m[i] == 1 {
				fs = append(fs, c.Names[i])
			} else if m[i] > 1 {
				fs = append(fs, fmt.Sprintf("%s^%d", c.Names[i], m[i]))
			}
		}
		if len(fs) > 0 {
			if s == "1" {
				s = strings.Join(fs, " ")
			} else {
				s += " " + strings.Join(fs, " ")
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}

func (c *Ctx) numStr(k *big.Int) string {
	n := new(big.Int).Sub(k, c.P)
	if n.BitLen() < 40 {
		return "-" + new(big.Int).Neg(n).String()
	}
	if k.BitLen() < 40 {
		return k.String()
	}
	for i := int64(2); i <= 10; i++ {
		x := new(big.Int).Mul(k, big.NewInt(i))
		x.Mod(x, c.P)
		y := new(big.Int).Sub(x, c.P)
		if x.BitLen() < 12 {
			return fmt.Sprintf("(%v/%d)", x, i)
		}
		if y.BitLen() < 12 {
			return fmt.Sprintf("(%v/%d)", y, i)
		}
	}
	switch {
	case k.Cmp(c.D) == 0:
		return "d"
	case new(big.Int).Sub(c.P, k).Cmp(c.D) == 0:
		return "-d"
	}
	return "0x" + k.Text(16)[:6] + ".."
}
