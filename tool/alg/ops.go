package alg

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Rng is a value with an interval.
type Rng struct {
	P      *Poly
	Lo, Hi *big.Int
}

// KR is a constant with its interval.
func KR(v *big.Int) Rng { return Rng{K(v), v, v} }

func (r Rng) IsConst() bool { return r.P.IsConst() }

// tighten intersects the interval with the box interval.
func (c *Ctx) Tighten(r Rng) Rng {
	lo, hi := c.Bounds(r.P)
	if lo != nil && (r.Lo == nil || lo.Cmp(r.Lo) > 0) {
		r.Lo = lo
	}
	if hi != nil && (r.Hi == nil || hi.Cmp(r.Hi) < 0) {
		r.Hi = hi
	}
	return r
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

// AddR adds two values.
func (c *Ctx) AddR(a, b Rng) Rng {
	return c.Tighten(Rng{a.P.Add(b.P), addB(a.Lo, b.Lo), addB(a.Hi, b.Hi)})
}

// NegR negates.
func (c *Ctx) NegR(a Rng) Rng {
	n := func(v *big.Int) *big.Int {
		if v == nil {
			return nil
		}
		return new(big.Int).Neg(v)
	}
	return Rng{a.P.Neg(), n(a.Hi), n(a.Lo)}
}

// SubR subtracts.
func (c *Ctx) SubR(a, b Rng) Rng { return c.AddR(a, c.NegR(b)) }

// MulR multiplies.
func (c *Ctx) MulR(a, b Rng) Rng {
	r := Rng{P: c.Mul(a.P, b.P)}
	if a.Lo != nil && a.Hi != nil && b.Lo != nil && b.Hi != nil {
		for i, x := range []*big.Int{a.Lo, a.Hi} {
			for j, y := range []*big.Int{b.Lo, b.Hi} {
				v := new(big.Int).Mul(x, y)
				if i == 0 && j == 0 {
					r.Lo, r.Hi = v, v
					continue
				}
				if v.Cmp(r.Lo) < 0 {
					r.Lo = v
				}
				if v.Cmp(r.Hi) > 0 {
					r.Hi = v
				}
			}
		}
	}
	return c.Tighten(r)
}

// Two is 2^k.
func Two(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

var one = big.NewInt(1)

type quotRec struct {
	a Rng
	k *big.Int
}

// DivMod splits a = m*q + r with 0 <= r < m, introducing at most one atom.
func (c *Ctx) DivMod(a Rng, m *big.Int, why string) (q, r Rng) {
	m1 := new(big.Int).Sub(m, one)
	if c.NestQuot {
		// floor(floor(x/k)/m) is floor(x/(k m))
		if o, ok := c.quotOf[a.P.Key()]; ok {
			q, _ := c.DivMod(o.a, new(big.Int).Mul(o.k, m), why)
			return q, c.Tighten(Rng{a.P.Sub(q.P.Scale(m)), new(big.Int), m1})
		}
		defer func() {
			if !q.P.IsConst() {
				if c.quotOf == nil {
					c.quotOf = map[string]quotRec{}
				}
				if _, ok := c.quotOf[q.P.Key()]; !ok && m.Cmp(one) > 0 {
					c.quotOf[q.P.Key()] = quotRec{a, m}
				}
			}
		}()
	}
	if a.Lo != nil && a.Hi != nil {
		ql, qh := floorDiv(a.Lo, m), floorDiv(a.Hi, m)
		if ql.Cmp(qh) == 0 {
			return KR(ql), c.Tighten(Rng{a.P.Sub(K(new(big.Int).Mul(ql, m))), new(big.Int).Sub(a.Lo, new(big.Int).Mul(ql, m)), new(big.Int).Sub(a.Hi, new(big.Int).Mul(ql, m))})
		}
	}
	// common factor of the coefficients and the modulus
	g := new(big.Int).Set(m)
	for mo, v := range a.P.t {
		if mo != "" {
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
	}
	if g.Cmp(one) > 0 && !a.P.IsConst() {
		k := a.P.Const()
		c1 := floorDiv(k, g)
		c0 := new(big.Int).Sub(k, new(big.Int).Mul(c1, g))
		red := a.P.Sub(K(c0)).MapCoef(func(v *big.Int) *big.Int { return new(big.Int).Div(v, g) })
		ra := Rng{P: red}
		if a.Lo != nil {
			ra.Lo = ceilDiv(new(big.Int).Sub(a.Lo, c0), g)
		}
		if a.Hi != nil {
			ra.Hi = floorDiv(new(big.Int).Sub(a.Hi, c0), g)
		}
		m2 := new(big.Int).Div(m, g)
		var q2, r2 Rng
		if m2.Cmp(one) == 0 {
			q2, r2 = c.Tighten(ra), KR(new(big.Int))
		} else {
			q2, r2 = c.DivMod(ra, m2, why)
		}
		return q2, c.Tighten(Rng{r2.P.Scale(g).Add(K(c0)), new(big.Int), new(big.Int).Set(m1)})
	}
	half := new(big.Int).Rsh(m, 1)
	// p1: coefficients reduced modulo m (two candidates), p2 = (P-p1)/m
	cand := func(sym bool) (*Poly, *big.Int, *big.Int) {
		p1 := a.P.MapCoef(func(v *big.Int) *big.Int {
			w := new(big.Int).Mod(v, m)
			if sym && w.Cmp(half) > 0 {
				w.Sub(w, m)
			}
			return w
		})
		if p1.Equal(a.P) {
			return p1, a.Lo, a.Hi
		}
		l, h := c.polyRange(p1)
		return p1, l, h
	}
	p1, l1, h1 := cand(true)
	pb, lb, hb := cand(false)
	width := func(l, h *big.Int) *big.Int {
		if l == nil || h == nil {
			return nil
		}
		return new(big.Int).Sub(floorDiv(h, m), floorDiv(l, m))
	}
	w1, wb := width(l1, h1), width(lb, hb)
	if wb != nil && (w1 == nil || wb.Cmp(w1) < 0) {
		p1, l1, h1, w1 = pb, lb, hb, wb
	}
	// the unreduced form may be better when its interval is small
	if wa := width(a.Lo, a.Hi); wa != nil && (w1 == nil || wa.Cmp(w1) < 0) {
		p1, l1, h1, w1 = a.P, a.Lo, a.Hi, wa
	}
	// a known remainder of the same (or the opposite) congruence class
	for _, sgn := range []int64{1, -1} {
		for _, kr := range c.rem[classKey(a.P.Scale(big.NewInt(sgn)), m)] {
			ck := new(big.Int).Sub(a.P.Const(), new(big.Int).Mul(big.NewInt(sgn), kr.Const()))
			ck.Mod(ck, m)
			l, h := c.polyRange(kr)
			if l == nil || h == nil {
				continue
			}
			for _, kc := range []*big.Int{ck, new(big.Int).Sub(ck, m)} {
				cl, ch := new(big.Int).Add(l, kc), new(big.Int).Add(h, kc)
				if sgn < 0 {
					cl, ch = new(big.Int).Sub(kc, h), new(big.Int).Sub(kc, l)
				}
				if w := width(cl, ch); w1 == nil || w.Cmp(w1) < 0 {
					p1, l1, h1, w1 = kr.Scale(big.NewInt(sgn)).Add(K(kc)), cl, ch, w
				}
			}
		}
	}
	p2 := a.P.Sub(p1).MapCoef(func(v *big.Int) *big.Int { return new(big.Int).Div(v, m) })
	var qa *Poly
	var ql, qh *big.Int
	if l1 != nil {
		ql = floorDiv(l1, m)
	}
	if h1 != nil {
		qh = floorDiv(h1, m)
	}
	if ql != nil && qh != nil && ql.Cmp(qh) == 0 {
		qa = K(ql)
	} else {
		key := p1.Key() + "/" + m.Text(62)
		if id, ok := c.quot[key]; ok {
			qa = c.V(c.Atoms[id])
			if ql != nil {
				qa = qa.Add(c.quotBase(id))
			}
		} else {
			var at *Atom
			nm := fmt.Sprintf("q%d", len(c.Atoms))
			if why != "" {
				nm = fmt.Sprintf("%s#%d", why, len(c.Atoms))
			}
			if ql != nil && qh != nil {
				at = c.NewAtom(nm, KQuot, new(big.Int), new(big.Int).Sub(qh, ql))
				qa = c.V(at).Add(K(ql))
			} else {
				at = c.NewAtom(nm, KQuot, nil, nil)
				qa = c.V(at)
			}
			c.quot[key] = at.ID
			if ql != nil && qh != nil {
				c.setQuotBase(at.ID, K(ql))
			}
			rem := p1.Sub(qa.Scale(m))
			c.AddFact(True, rem, new(big.Int), m1, "remainder "+nm)
			ck := classKey(rem, m)
			c.rem[ck] = append(c.rem[ck], rem)
		}
	}
	rp := p1.Sub(qa.Scale(m))
	r = c.Tighten(Rng{rp, new(big.Int), m1})
	qp := p2.Add(qa)
	q = Rng{P: qp}
	if a.Lo != nil {
		q.Lo = floorDiv(a.Lo, m)
	}
	if a.Hi != nil {
		q.Hi = floorDiv(a.Hi, m)
	}
	// integrality of a compound quotient
	if q.Lo != nil && q.Hi != nil && !qp.IsConst() {
		if l, h := c.Bounds(qp); l == nil || h == nil || l.Cmp(q.Lo) < 0 || h.Cmp(q.Hi) > 0 {
			if k := qp.Key(); !c.quotFact[k] {
				c.quotFact[k] = true
				c.AddFact(True, qp, q.Lo, q.Hi, "quotient "+why)
			}
		}
	}
	q = c.Tighten(q)
	return q, r
}

// classKey names the congruence class modulo m of the non-constant part of p.
func classKey(p *Poly, m *big.Int) string {
	q := p.Sub(K(p.Const())).Mod(m)
	return m.Text(62) + "|" + q.Key()
}

func (c *Ctx) setQuotBase(id int32, p *Poly) {
	c.Named[fmt.Sprintf("qb%d", id)] = p
}
func (c *Ctx) quotBase(id int32) *Poly {
	if p, ok := c.Named[fmt.Sprintf("qb%d", id)]; ok {
		return p
	}
	return KI(0)
}

// polyRange is the best known interval of p: box bounds or a recorded fact.
func (c *Ctx) polyRange(p *Poly) (lo, hi *big.Int) {
	lo, hi = c.Bounds(p)
	for i := len(c.Facts) - 1; i >= 0 && i > len(c.Facts)-200; i-- {
		f := c.Facts[i]
		if f.Cond != True || f.P.NumTerms() != p.NumTerms() {
			continue
		}
		if f.P.Equal(p) {
			if f.Lo != nil && (lo == nil || f.Lo.Cmp(lo) > 0) {
				lo = f.Lo
			}
			if f.Hi != nil && (hi == nil || f.Hi.Cmp(hi) < 0) {
				hi = f.Hi
			}
		} else if f.P.Equal(p.Neg()) {
			if f.Hi != nil {
				n := new(big.Int).Neg(f.Hi)
				if lo == nil || n.Cmp(lo) > 0 {
					lo = n
				}
			}
			if f.Lo != nil {
				n := new(big.Int).Neg(f.Lo)
				if hi == nil || n.Cmp(hi) < 0 {
					hi = n
				}
			}
		}
	}
	return
}

// Less is the decision diagram of "d < 0".
func (c *Ctx) Neg0(d Rng) Bdd {
	d = c.Tighten(d)
	if d.Hi != nil && d.Hi.Sign() < 0 {
		return True
	}
	if d.Lo != nil && d.Lo.Sign() >= 0 {
		return False
	}
	// affine in a single boolean atom
	if ids := d.P.AtomIDs(); len(ids) == 1 && c.Atoms[ids[0]].IsBool() && d.P.Degree() == 1 {
		k := d.P.Const()
		co := d.P.Sub(K(k)).t[mkMono(ids)]
		v0 := k.Sign() < 0
		v1 := new(big.Int).Add(k, co).Sign() < 0
		return c.Ite(c.BVar(ids[0]), tf(v1), tf(v0))
	}
	// phi with boolean-decidable alternatives
	if b, ok := c.phiDecide(d.P, func(p *Poly) (Bdd, bool) {
		l, h := c.Bounds(p)
		if h != nil && h.Sign() < 0 {
			return True, true
		}
		if l != nil && l.Sign() >= 0 {
			return False, true
		}
		if ids := p.AtomIDs(); len(ids) == 1 && c.Atoms[ids[0]].IsBool() && p.Degree() == 1 {
			return c.Neg0(Rng{P: p}), true
		}
		return 0, false
	}); ok {
		return b
	}
	// canonical gate: divide by content of the non-constant part
	key := "lt:" + d.P.Key()
	if id, ok := c.gates[key]; ok {
		return c.BVar(id)
	}
	// complement form: not(d<0) <=> -d-1 < 0
	ckey := "lt:" + d.P.Neg().Sub(KI(1)).Key()
	if id, ok := c.gates[ckey]; ok {
		return c.Not(c.BVar(id))
	}
	at := c.NewAtom(fmt.Sprintf("g%d", len(c.Atoms)), KGate, new(big.Int), big.NewInt(1))
	c.gates[key] = at.ID
	v := c.BVar(at.ID)
	c.AddFact(v, d.P, nil, big.NewInt(-1), "gate")
	c.AddFact(c.Not(v), d.P, new(big.Int), nil, "gate")
	return v
}

func tf(b bool) Bdd {
	if b {
		return True
	}
	return False
}

// phiDecide resolves a predicate on a polynomial k*phi+c through the alternatives of a single phi.
func (c *Ctx) phiDecide(p *Poly, pred func(*Poly) (Bdd, bool)) (Bdd, bool) {
	ids := p.AtomIDs()
	n := -1
	for _, i := range ids {
		if c.Atoms[i].Kind == KPhi {
			if n >= 0 {
				return 0, false
			}
			n = int(i)
		}
	}
	if n < 0 {
		return 0, false
	}
	acc := False
	for _, alt := range c.Atoms[n].Alts {
		q := c.Subst(p, func(id int32) *Poly {
			if int(id) == n {
				return alt.P
			}
			return nil
		})
		b, ok := pred(q)
		if !ok {
			b, ok = c.phiDecide(q, pred)
			if !ok {
				return 0, false
			}
		}
		acc = c.Or(acc, c.And(alt.Cond, b))
	}
	return acc, true
}

// LtR is a < b.
func (c *Ctx) LtR(a, b Rng) Bdd { return c.Neg0(c.SubR(a, b)) }

// EqR is a == b.
func (c *Ctx) EqR(a, b Rng) Bdd {
	d := c.SubR(a, b)
	if d.P.IsConst() {
		return tf(d.P.IsZero())
	}
	if d.Lo != nil && d.Lo.Sign() > 0 || d.Hi != nil && d.Hi.Sign() < 0 {
		return False
	}
	if d.Lo != nil && d.Lo.Sign() == 0 {
		return c.Neg0(c.SubR(d, KR(one)))
	}
	if d.Hi != nil && d.Hi.Sign() == 0 {
		return c.Not(c.Neg0(d))
	}
	// canonical sign: leading coefficient positive
	neg := c.Neg0(d)
	pos := c.Neg0(c.NegR(d))
	// neg and pos exclude each other: record it for the diagrams
	return c.And(c.Not(neg), c.Not(pos))
}

// Phi merges guarded alternatives (conditions disjoint and jointly exhaustive in context).
func (c *Ctx) Phi(alts []Alt, rngs []Rng, name string) Rng {
	// identical?
	same := true
	for _, a := range alts[1:] {
		if !a.P.Equal(alts[0].P) {
			same = false
		}
	}
	lo, hi := rngs[0].Lo, rngs[0].Hi
	for _, r := range rngs[1:] {
		if lo == nil || r.Lo == nil {
			lo = nil
		} else if r.Lo.Cmp(lo) < 0 {
			lo = r.Lo
		}
		if hi == nil || r.Hi == nil {
			hi = nil
		} else if r.Hi.Cmp(hi) > 0 {
			hi = r.Hi
		}
	}
	if same {
		return Rng{alts[0].P, lo, hi}
	}
	// group equal polys
	grp := map[string]int{}
	var ga []Alt
	for _, a := range alts {
		k := a.P.Key()
		if i, ok := grp[k]; ok {
			ga[i].Cond = c.Or(ga[i].Cond, a.Cond)
		} else {
			grp[k] = len(ga)
			ga = append(ga, a)
		}
	}
	sort.Slice(ga, func(i, j int) bool { return ga[i].Cond < ga[j].Cond })
	var sb strings.Builder
	for _, a := range ga {
		fmt.Fprintf(&sb, "%d|%s||", a.Cond, a.P.Key())
	}
	key := sb.String()
	if id, ok := c.phis[key]; ok {
		return Rng{c.V(c.Atoms[id]), lo, hi}
	}
	at := c.NewAtom(fmt.Sprintf("phi%d", len(c.Atoms)), KPhi, lo, hi)
	at.Alts = ga
	c.phis[key] = at.ID
	return Rng{c.V(at), lo, hi}
}

// BoolR converts a condition to a 0/1 value.
func (c *Ctx) BoolR(b Bdd) Rng {
	if b == True {
		return KR(big.NewInt(1))
	}
	if b == False {
		return KR(new(big.Int))
	}
	if v, ok := c.SingleVar(b); ok {
		return Rng{c.V(c.Atoms[v]), new(big.Int), big.NewInt(1)}
	}
	n := c.Not(b)
	if v, ok := c.SingleVar(n); ok {
		return Rng{KI(1).Sub(c.V(c.Atoms[v])), new(big.Int), big.NewInt(1)}
	}
	return c.Phi([]Alt{{b, KI(1)}, {n, KI(0)}}, []Rng{KR(big.NewInt(1)), KR(new(big.Int))}, "b")
}
