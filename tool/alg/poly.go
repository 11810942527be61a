// Package alg is the numeric domain of the value-graph analysis: integer
// polynomials over atoms, reduced ordered decision diagrams over the boolean
// atoms, and a polyhedral (linear-inequality) bound computation.
package alg

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// AtomKind classifies atoms.
type AtomKind uint8

const (
	KInput AtomKind = iota // input of the analysed function
	KQuot                  // quotient introduced by a wrap-around / shift / division
	KGate                  // outcome of a comparison
	KPhi                   // value merged at a control-flow join
	KOpq                   // otherwise unknown value with range information
)

// Atom is an integer-valued unknown.
type Atom struct {
	ID     int32
	Name   string
	Kind   AtomKind
	Lo, Hi *big.Int // nil: unbounded
	Alts   []Alt    // KPhi: guarded alternatives
}

// Alt is one guarded alternative of a phi atom.
type Alt struct {
	Cond Bdd
	P    *Poly
}

// IsBool reports whether the atom ranges over {0,1}.
func (a *Atom) IsBool() bool {
	return a.Kind != KPhi && a.Lo != nil && a.Hi != nil && a.Lo.Sign() == 0 && a.Hi.IsInt64() && a.Hi.Int64() == 1
}

// mono is a sorted sequence of atom ids (with repetition), 4 bytes each.
type mono string

func mkMono(ids []int32) mono {
	b := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		b = append(b, byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
	}
	return mono(b)
}

func (m mono) ids() []int32 {
	r := make([]int32, 0, len(m)/4)
	for i := 0; i+3 < len(m); i += 4 {
		r = append(r, int32(m[i])<<24|int32(m[i+1])<<16|int32(m[i+2])<<8|int32(m[i+3]))
	}
	return r
}

// Poly is an immutable integer polynomial.
type Poly struct {
	t   map[mono]*big.Int
	key string
}

// Ctx owns the atoms, decision diagrams and facts of one analysis.
type Ctx struct {
	NestQuot bool // nested quotients are rewritten as one
	quotOf   map[string]quotRec

	Atoms    []*Atom
	Facts    []Fact
	bdd      *bddTab
	rem      map[string][]*Poly // canonical remainders by congruence class
	quotFact map[string]bool
	quot     map[string]int32
	gates    map[string]int32
	phis     map[string]int32
	Named    map[string]*Poly
	// Vec lists linear input constraints Σ c_i a_i <= K used to derive product facts.
	Vec []VecBound
	// Stats
	LPs, Splits, Closed int
	// Mod, if set, is the modulus below which polynomials are compared by Zero.
	Trace func(format string, args ...any)
}

// VecBound is an upper bound on a linear form over inputs.
type VecBound struct {
	P *Poly
	K *big.Int
}

// Fact: Cond = 1 implies Lo <= P <= Hi.
type Fact struct {
	Cond   Bdd
	P      *Poly
	Lo, Hi *big.Int
	Why    string
}

// NewCtx makes an empty context.
func NewCtx() *Ctx {
	c := &Ctx{rem: map[string][]*Poly{}, quotFact: map[string]bool{}, quot: map[string]int32{}, gates: map[string]int32{}, phis: map[string]int32{}, Named: map[string]*Poly{}}
	c.bdd = newBddTab()
	return c
}

// NewAtom makes a fresh atom.
func (c *Ctx) NewAtom(name string, kind AtomKind, lo, hi *big.Int) *Atom {
	a := &Atom{ID: int32(len(c.Atoms)), Name: name, Kind: kind, Lo: lo, Hi: hi}
	c.Atoms = append(c.Atoms, a)
	return a
}

// AddFact records a fact.
func (c *Ctx) AddFact(cond Bdd, p *Poly, lo, hi *big.Int, why string) {
	if p.IsConst() {
		return
	}
	c.Facts = append(c.Facts, Fact{cond, p, lo, hi, why})
}

// V is the polynomial consisting of one atom.
func (c *Ctx) V(a *Atom) *Poly {
	return &Poly{t: map[mono]*big.Int{mkMono([]int32{a.ID}): big.NewInt(1)}}
}

// K is a constant polynomial.
func K(v *big.Int) *Poly {
	p := &Poly{t: map[mono]*big.Int{}}
	if v.Sign() != 0 {
		p.t[""] = new(big.Int).Set(v)
	}
	return p
}

// KI is a small constant polynomial.
func KI(v int64) *Poly { return K(big.NewInt(v)) }

// IsZero reports the zero polynomial.
func (p *Poly) IsZero() bool { return len(p.t) == 0 }

// IsConst reports a constant polynomial.
func (p *Poly) IsConst() bool {
	if len(p.t) == 0 {
		return true
	}
	if len(p.t) == 1 {
		_, ok := p.t[""]
		return ok
	}
	return false
}

// Const is the constant term.
func (p *Poly) Const() *big.Int {
	if v, ok := p.t[""]; ok {
		return v
	}
	return new(big.Int)
}

// NumTerms is the number of monomials.
func (p *Poly) NumTerms() int { return len(p.t) }

func (p *Poly) clone() *Poly {
	q := &Poly{t: make(map[mono]*big.Int, len(p.t))}
	for m, v := range p.t {
		q.t[m] = v
	}
	return q
}

func (p *Poly) addTo(m mono, v *big.Int) {
	if o, ok := p.t[m]; ok {
		s := new(big.Int).Add(o, v)
		if s.Sign() == 0 {
			delete(p.t, m)
		} else {
			p.t[m] = s
		}
	} else if v.Sign() != 0 {
		p.t[m] = v
	}
}

// Add returns p+q.
func (p *Poly) Add(q *Poly) *Poly {
	if p.IsZero() {
		return q
	}
	if q.IsZero() {
		return p
	}
	r := p.clone()
	for m, v := range q.t {
		r.addTo(m, v)
	}
	return r
}

// Sub returns p-q.
func (p *Poly) Sub(q *Poly) *Poly {
	if q.IsZero() {
		return p
	}
	r := p.clone()
	for m, v := range q.t {
		r.addTo(m, new(big.Int).Neg(v))
	}
	return r
}

// Scale returns k*p.
func (p *Poly) Scale(k *big.Int) *Poly {
	if k.Sign() == 0 {
		return K(k)
	}
	r := &Poly{t: make(map[mono]*big.Int, len(p.t))}
	for m, v := range p.t {
		r.t[m] = new(big.Int).Mul(v, k)
	}
	return r
}

// Neg returns -p.
func (p *Poly) Neg() *Poly { return p.Scale(big.NewInt(-1)) }

func (c *Ctx) mulMono(a, b mono) mono {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x, y := a.ids(), b.ids()
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	push := func(v int32) {
		if len(r) > 0 && r[len(r)-1] == v && c.Atoms[v].IsBool() {
			return
		}
		r = append(r, v)
	}
	for i < len(x) || j < len(y) {
		if j >= len(y) || (i < len(x) && x[i] <= y[j]) {
			push(x[i])
			i++
		} else {
			push(y[j])
			j++
		}
	}
	return mkMono(r)
}

// Mul returns p*q.
func (c *Ctx) Mul(p, q *Poly) *Poly {
	if p.IsConst() {
		return q.Scale(p.Const())
	}
	if q.IsConst() {
		return p.Scale(q.Const())
	}
	r := &Poly{t: make(map[mono]*big.Int)}
	for m, v := range p.t {
		for n, w := range q.t {
			r.addTo(c.mulMono(m, n), new(big.Int).Mul(v, w))
		}
	}
	return r
}

// Key is a canonical string.
func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	ks := make([]string, 0, len(p.t))
	for m := range p.t {
		ks = append(ks, string(m))
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%x:%s;", k, p.t[mono(k)].Text(62))
	}
	if sb.Len() == 0 {
		sb.WriteString("0")
	}
	p.key = sb.String()
	return p.key
}

// Equal compares polynomials.
func (p *Poly) Equal(q *Poly) bool {
	if p == q {
		return true
	}
	if len(p.t) != len(q.t) {
		return false
	}
	for m, v := range p.t {
		w, ok := q.t[m]
		if !ok || v.Cmp(w) != 0 {
			return false
		}
	}
	return true
}

// MapCoef applies f to every coefficient.
func (p *Poly) MapCoef(f func(*big.Int) *big.Int) *Poly {
	r := &Poly{t: make(map[mono]*big.Int, len(p.t))}
	for m, v := range p.t {
		w := f(v)
		if w.Sign() != 0 {
			r.t[m] = w
		}
	}
	return r
}

// Mod reduces all coefficients modulo m into [0,m).
func (p *Poly) Mod(m *big.Int) *Poly {
	return p.MapCoef(func(v *big.Int) *big.Int { return new(big.Int).Mod(v, m) })
}

// Atoms lists the atoms occurring in p.
func (p *Poly) AtomIDs() []int32 {
	seen := map[int32]bool{}
	for m := range p.t {
		for _, i := range m.ids() {
			seen[i] = true
		}
	}
	r := make([]int32, 0, len(seen))
	for i := range seen {
		r = append(r, i)
	}
	sort.Slice(r, func(a, b int) bool { return r[a] < r[b] })
	return r
}

// Degree is the total degree.
func (p *Poly) Degree() int {
	d := 0
	for m := range p.t {
		if len(m)/4 > d {
			d = len(m) / 4
		}
	}
	return d
}

// Subst replaces atoms by polynomials.
func (c *Ctx) Subst(p *Poly, f func(id int32) *Poly) *Poly {
	touched := false
	cache := map[int32]*Poly{}
	get := func(id int32) *Poly {
		if q, ok := cache[id]; ok {
			return q
		}
		q := f(id)
		cache[id] = q
		return q
	}
	for m := range p.t {
		for _, i := range m.ids() {
			if get(i) != nil {
				touched = true
			}
		}
	}
	if !touched {
		return p
	}
	r := &Poly{t: make(map[mono]*big.Int)}
	for m, v := range p.t {
		var acc *Poly
		var keep []int32
		for _, i := range m.ids() {
			if q := get(i); q != nil {
				if acc == nil {
					acc = q
				} else {
					acc = c.Mul(acc, q)
				}
			} else {
				keep = append(keep, i)
			}
		}
		if acc == nil {
			r.addTo(m, v)
			continue
		}
		km := mkMono(keep)
		for n, w := range acc.t {
			r.addTo(c.mulMono(km, n), new(big.Int).Mul(v, w))
		}
	}
	return r
}

// MonoBounds gives the box bounds of a monomial.
func (c *Ctx) monoBounds(m mono) (lo, hi *big.Int) {
	lo, hi = big.NewInt(1), big.NewInt(1)
	ids := m.ids()
	for k := 0; k < len(ids); k++ {
		a := c.Atoms[ids[k]]
		if a.Lo == nil || a.Hi == nil {
			return nil, nil
		}
		x := [4]*big.Int{new(big.Int).Mul(lo, a.Lo), new(big.Int).Mul(lo, a.Hi), new(big.Int).Mul(hi, a.Lo), new(big.Int).Mul(hi, a.Hi)}
		l, h := x[0], x[0]
		for _, v := range x[1:] {
			if v.Cmp(l) < 0 {
				l = v
			}
			if v.Cmp(h) > 0 {
				h = v
			}
		}
		lo, hi = l, h
	}
	return
}

// Bounds gives interval bounds of p from the atoms' boxes (nil: unbounded).
func (c *Ctx) Bounds(p *Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for m, v := range p.t {
		l, h := c.monoBounds(m)
		if l == nil {
			return nil, nil
		}
		if v.Sign() < 0 {
			l, h = h, l
		}
		lo.Add(lo, new(big.Int).Mul(v, l))
		hi.Add(hi, new(big.Int).Mul(v, h))
	}
	return
}

// String renders p.
func (c *Ctx) String(p *Poly) string {
	if p.IsZero() {
		return "0"
	}
	type tm struct {
		m mono
		s string
	}
	var ts []tm
	for m := range p.t {
		var n []string
		for _, i := range m.ids() {
			n = append(n, c.Atoms[i].Name)
		}
		ts = append(ts, tm{m, strings.Join(n, "*")})
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].m < ts[j].m })
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if i > 14 {
			fmt.Fprintf(&sb, "… (%d terms)", len(ts))
			break
		}
		v := p.t[t.m]
		cs := v.String()
		if len(cs) > 24 {
			cs = fmt.Sprintf("0x%s", v.Text(16))
		}
		if t.s == "" {
			sb.WriteString(cs)
		} else {
			sb.WriteString(cs + "*" + t.s)
		}
	}
	return sb.String()
}

// EachLinear visits the terms of a polynomial of degree <= 1 (id -1: constant); false if the degree is larger or f stops.
func (p *Poly) EachLinear(f func(id int32, co *big.Int) bool) bool {
	for m, v := range p.t {
		ids := m.ids()
		if len(ids) > 1 {
			return false
		}
		id := int32(-1)
		if len(ids) == 1 {
			id = ids[0]
		}
		if !f(id, v) {
			return false
		}
	}
	return true
}

// EachCoef visits all coefficients.
func (p *Poly) EachCoef(f func(*big.Int)) {
	for _, v := range p.t {
		f(v)
	}
}

// lead is the term with the greatest monomial.
func (p *Poly) lead() (mono, *big.Int) {
	best, first := mono(""), true
	for m := range p.t {
		if first || m > best {
			best, first = m, false
		}
	}
	return best, p.t[best]
}
