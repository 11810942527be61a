package alg

import (
	"math/big"
	"sort"
)

// This file decides emptiness of a convex polyhedron given by box bounds on
// monomials and two-sided linear facts, exactly over the rationals (general
// simplex in the form of Dutertre and de Moura).

type lpVar struct {
	lo, hi *big.Rat // nil: unbounded
	val    *big.Rat
	row    int // >=0: basic, index into rows
}

type lpRow struct {
	basic int
	c     map[int]*big.Rat // over nonbasic variables
}

type lpProb struct {
	vars []lpVar
	rows []*lpRow
	cols []map[int]bool // var -> rows in which it occurs
}

func (l *lpProb) newVar(lo, hi *big.Int) int {
	v := lpVar{row: -1, val: new(big.Rat)}
	if lo != nil {
		v.lo = new(big.Rat).SetInt(lo)
	}
	if hi != nil {
		v.hi = new(big.Rat).SetInt(hi)
	}
	if v.lo != nil {
		v.val.Set(v.lo)
	} else if v.hi != nil {
		v.val.Set(v.hi)
	}
	l.vars = append(l.vars, v)
	l.cols = append(l.cols, map[int]bool{})
	return len(l.vars) - 1
}

// addRow adds a two-sided constraint with a slack variable, expressed over
// the current nonbasic variables.
func (l *lpProb) addRow(f sysRow) {
	s := l.newVar(f.lo, f.hi)
	r := &lpRow{basic: s, c: map[int]*big.Rat{}}
	val := new(big.Rat)
	add := func(x int, c *big.Rat) {
		if q, ok := r.c[x]; ok {
			q = new(big.Rat).Add(q, c)
			if q.Sign() == 0 {
				delete(r.c, x)
			} else {
				r.c[x] = q
			}
		} else {
			r.c[x] = c
		}
	}
	for j, x := range f.idx {
		c := new(big.Rat).SetInt(f.co[j])
		val.Add(val, new(big.Rat).Mul(c, l.vars[x].val))
		if ri := l.vars[x].row; ri >= 0 {
			for k, v := range l.rows[ri].c {
				add(k, new(big.Rat).Mul(c, v))
			}
		} else {
			add(x, c)
		}
	}
	for k := range r.c {
		l.cols[k][len(l.rows)] = true
	}
	l.vars[s].val = val
	l.vars[s].row = len(l.rows)
	l.rows = append(l.rows, r)
}

func (l *lpProb) clone() *lpProb {
	n := &lpProb{vars: append([]lpVar{}, l.vars...)}
	n.rows = make([]*lpRow, len(l.rows))
	for i, r := range l.rows {
		c := make(map[int]*big.Rat, len(r.c))
		for k, v := range r.c {
			c[k] = v
		}
		n.rows[i] = &lpRow{r.basic, c}
	}
	n.cols = make([]map[int]bool, len(l.cols))
	for i, m := range l.cols {
		c := make(map[int]bool, len(m))
		for k := range m {
			c[k] = true
		}
		n.cols[i] = c
	}
	return n
}

// bound replaces the bounds of a variable.
func (l *lpProb) bound(x int, lo, hi *big.Int) {
	v := &l.vars[x]
	v.lo, v.hi = nil, nil
	if lo != nil {
		v.lo = new(big.Rat).SetInt(lo)
	}
	if hi != nil {
		v.hi = new(big.Rat).SetInt(hi)
	}
	if v.row >= 0 {
		return
	}
	var t *big.Rat
	if v.lo != nil && v.val.Cmp(v.lo) < 0 {
		t = v.lo
	} else if v.hi != nil && v.val.Cmp(v.hi) > 0 {
		t = v.hi
	} else {
		return
	}
	d := new(big.Rat).Sub(t, v.val)
	v.val = new(big.Rat).Set(t)
	for ri := range l.cols[x] {
		r := l.rows[ri]
		bv := &l.vars[r.basic]
		bv.val = new(big.Rat).Add(bv.val, new(big.Rat).Mul(r.c[x], d))
	}
}

func (l *lpProb) pivot(ri, xj int) {
	r := l.rows[ri]
	xi := r.basic
	a := r.c[xj]
	inv := new(big.Rat).Inv(a)
	// xj = (xi - Σ_{k≠j} c_k x_k)/a
	nc := map[int]*big.Rat{}
	for k, v := range r.c {
		delete(l.cols[k], ri)
		if k == xj {
			continue
		}
		w := new(big.Rat).Mul(v, inv)
		nc[k] = w.Neg(w)
	}
	nc[xi] = inv
	r.c = nc
	r.basic = xj
	for k := range nc {
		l.cols[k][ri] = true
	}
	l.vars[xi].row = -1
	l.vars[xj].row = ri
	for oi := range l.cols[xj] {
		o := l.rows[oi]
		f := o.c[xj]
		delete(o.c, xj)
		for k, v := range nc {
			p := new(big.Rat).Mul(f, v)
			if q, ok := o.c[k]; ok {
				q = p.Add(p, q) // p is fresh
				if q.Sign() == 0 {
					delete(o.c, k)
					delete(l.cols[k], oi)
				} else {
					o.c[k] = q
				}
			} else {
				o.c[k] = p
				l.cols[k][oi] = true
			}
		}
	}
	l.cols[xj] = map[int]bool{}
}

// feasible decides emptiness; budget is a pivot limit (exceeded: treated as
// feasible, the sound answer for an analysis that must prove emptiness).
func (l *lpProb) feasible(budget int) bool {
	for i := range l.vars {
		v := &l.vars[i]
		if v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) > 0 {
			return false
		}
	}
	for it := 0; it < budget; it++ {
		bi, below := -1, false
		// Bland late, greatest sparsity early
		best := 1 << 30
		for ri, r := range l.rows {
			v := &l.vars[r.basic]
			bad, bl := false, false
			if v.lo != nil && v.val.Cmp(v.lo) < 0 {
				bad, bl = true, true
			} else if v.hi != nil && v.val.Cmp(v.hi) > 0 {
				bad = true
			}
			if !bad {
				continue
			}
			score := len(r.c)
			if it > 300 {
				score = r.basic
			}
			if score < best {
				best, bi, below = score, ri, bl
			}
		}
		if bi < 0 {
			return true
		}
		r := l.rows[bi]
		ks := make([]int, 0, len(r.c))
		for k := range r.c {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		ent, es := -1, 1<<30
		for _, k := range ks {
			v := &l.vars[k]
			up := r.c[k].Sign() > 0 == below // need to increase x_k
			ok := false
			if up {
				ok = v.hi == nil || v.val.Cmp(v.hi) < 0
			} else {
				ok = v.lo == nil || v.val.Cmp(v.lo) > 0
			}
			if !ok {
				continue
			}
			sc := len(l.cols[k])
			if it > 300 {
				sc = 0
			}
			if sc < es {
				es, ent = sc, k
			}
		}
		if ent < 0 {
			return false
		}
		bv := &l.vars[r.basic]
		target := bv.hi
		if below {
			target = bv.lo
		}
		theta := new(big.Rat).Sub(target, bv.val)
		theta.Quo(theta, r.c[ent])
		bv.val = new(big.Rat).Set(target)
		l.vars[ent].val = new(big.Rat).Add(l.vars[ent].val, theta)
		for oi := range l.cols[ent] {
			if oi == bi {
				continue
			}
			o := l.rows[oi]
			ov := &l.vars[o.basic]
			ov.val = new(big.Rat).Add(ov.val, new(big.Rat).Mul(o.c[ent], theta))
		}
		l.pivot(bi, ent)
	}
	return true
}

// linear constraint after substitution
type lin struct {
	p      *Poly
	lo, hi *big.Int
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, big.NewInt(1))
	}
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	q := floorDiv(new(big.Int).Neg(a), b)
	return q.Neg(q)
}

// sysRow is lo <= sum co[i]*x[idx[i]] <= hi.
type sysRow struct {
	idx    []int
	co     []*big.Int
	lo, hi *big.Int
}

// system is a set of linear constraints over integer monomials.
type system struct {
	c      *Ctx
	id     map[mono]int
	lo, hi []*big.Int
	rows   []sysRow
	occ    [][]int // monomial -> rows
	dead   bool
	lp     *lpProb // solved relaxation
	lpRows map[int]int
	budget int
}

func (s *system) mono(m mono) int {
	if i, ok := s.id[m]; ok {
		return i
	}
	i := len(s.lo)
	s.id[m] = i
	l, h := s.c.monoBounds(m)
	s.lo = append(s.lo, l)
	s.hi = append(s.hi, h)
	s.occ = append(s.occ, nil)
	return i
}

// row adds a constraint; -1 when it only mentions one monomial (folded into the box).
func (s *system) row(f lin) int {
	ms := make([]mono, 0, len(f.p.t))
	for m := range f.p.t {
		if m != "" {
			ms = append(ms, m)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	k := f.p.Const()
	r := sysRow{}
	if f.lo != nil {
		r.lo = new(big.Int).Sub(f.lo, k)
	}
	if f.hi != nil {
		r.hi = new(big.Int).Sub(f.hi, k)
	}
	if len(ms) == 0 {
		if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
			s.dead = true
		}
		return -1
	}
	for _, m := range ms {
		r.idx = append(r.idx, s.mono(m))
		r.co = append(r.co, f.p.t[m])
	}
	s.rows = append(s.rows, r)
	ri := len(s.rows) - 1
	for _, i := range r.idx {
		s.occ[i] = append(s.occ[i], ri)
	}
	return ri
}

// tighten refines the box with integer rounding, starting from the given rows;
// false when the box becomes empty.
func (s *system) tighten(todo []int, passes int) bool {
	queued := map[int]bool{}
	queue := append([]int{}, todo...)
	for _, r := range queue {
		queued[r] = true
	}
	work := passes * (len(s.rows) + 1)
	slo, shi, t, rest, d := new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	for len(queue) > 0 && work > 0 {
		work--
		ri := queue[0]
		queue = queue[1:]
		queued[ri] = false
		f := &s.rows[ri]
		slo.SetInt64(0)
		shi.SetInt64(0)
		nlo, nhi, mlo, mhi := 0, 0, -1, -1
		for j, i := range f.idx {
			l, h := s.lo[i], s.hi[i]
			if f.co[j].Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				nlo++
				mlo = j
			} else {
				slo.Add(slo, t.Mul(f.co[j], l))
			}
			if h == nil {
				nhi++
				mhi = j
			} else {
				shi.Add(shi, t.Mul(f.co[j], h))
			}
		}
		if nlo == 0 && f.hi != nil && slo.Cmp(f.hi) > 0 {
			return false
		}
		if nhi == 0 && f.lo != nil && shi.Cmp(f.lo) < 0 {
			return false
		}
		// redundant row
		if nlo == 0 && nhi == 0 && (f.hi == nil || shi.Cmp(f.hi) <= 0) && (f.lo == nil || slo.Cmp(f.lo) >= 0) {
			continue
		}
		for j, i := range f.idx {
			v := f.co[j]
			l, h := s.lo[i], s.hi[i]
			ml, mh := l, h
			if v.Sign() < 0 {
				ml, mh = h, l
			}
			moved := false
			if f.hi != nil && (nlo == 0 || nlo == 1 && mlo == j) {
				rest.Set(slo)
				if nlo == 0 {
					rest.Sub(rest, t.Mul(v, ml))
				}
				d.Sub(f.hi, rest)
				if v.Sign() > 0 {
					if h == nil || t.Mul(v, h).Cmp(d) > 0 {
						h = floorDiv(d, v)
						moved = true
					}
				} else if l == nil || t.Mul(v, l).Cmp(d) > 0 {
					l = ceilDiv(d, v)
					moved = true
				}
			}
			if f.lo != nil && (nhi == 0 || nhi == 1 && mhi == j) {
				rest.Set(shi)
				if nhi == 0 {
					rest.Sub(rest, t.Mul(v, mh))
				}
				d.Sub(f.lo, rest)
				if v.Sign() > 0 {
					if l == nil || t.Mul(v, l).Cmp(d) < 0 {
						l = ceilDiv(d, v)
						moved = true
					}
				} else if h == nil || t.Mul(v, h).Cmp(d) < 0 {
					h = floorDiv(d, v)
					moved = true
				}
			}
			if !moved {
				continue
			}
			s.lo[i], s.hi[i] = l, h
			if l != nil && h != nil && l.Cmp(h) > 0 {
				return false
			}
			for _, o := range s.occ[i] {
				if !queued[o] {
					queued[o] = true
					queue = append(queue, o)
				}
			}
		}
	}
	return true
}

// system compiles constraints and solves the relaxation once.
func (c *Ctx) system(cs []lin, budget int) *system {
	s := &system{c: c, id: map[mono]int{}, budget: budget}
	var todo []int
	for _, f := range cs {
		if r := s.row(f); r >= 0 {
			todo = append(todo, r)
		}
	}
	if s.dead {
		return s
	}
	if !s.tighten(todo, 12) {
		s.dead = true
		return s
	}
	c.LPs++
	l := &lpProb{}
	for i := range s.lo {
		l.newVar(s.lo[i], s.hi[i])
	}
	for _, r := range s.rows {
		if len(r.idx) > 1 {
			l.addRow(r)
		}
	}
	s.lp = l
	if !l.feasible(budget) {
		s.dead = true
	}
	return s
}

// empty decides whether the system together with extra constraints is infeasible.
func (s *system) empty(extra ...lin) bool {
	if s.dead {
		return true
	}
	if len(extra) == 0 {
		return false
	}
	n := &system{c: s.c, id: map[mono]int{}, budget: s.budget}
	for m, i := range s.id {
		n.id[m] = i
	}
	n.lo = append([]*big.Int{}, s.lo...)
	n.hi = append([]*big.Int{}, s.hi...)
	n.rows = append([]sysRow{}, s.rows...)
	n.occ = make([][]int, len(s.occ))
	for i, o := range s.occ {
		n.occ[i] = o[:len(o):len(o)]
	}
	var todo []int
	for _, f := range extra {
		if r := n.row(f); r >= 0 {
			todo = append(todo, r)
		}
	}
	if n.dead {
		return true
	}
	if !n.tighten(todo, 6) {
		return true
	}
	s.c.LPs++
	l := s.lp.clone()
	// the variables of the monomials come first, rows' slacks follow: new
	// monomials get variables of their own
	at := func(i int) int {
		if i < len(s.lo) {
			return i
		}
		return -1
	}
	extraVar := map[int]int{}
	for i := len(s.lo); i < len(n.lo); i++ {
		extraVar[i] = l.newVar(n.lo[i], n.hi[i])
	}
	for i := range s.lo {
		if n.lo[i] != s.lo[i] || n.hi[i] != s.hi[i] {
			l.bound(i, n.lo[i], n.hi[i])
		}
	}
	for _, ri := range todo {
		r := n.rows[ri]
		if len(r.idx) < 2 {
			continue
		}
		q := sysRow{co: r.co, lo: r.lo, hi: r.hi}
		for _, i := range r.idx {
			if k := at(i); k >= 0 {
				q.idx = append(q.idx, k)
			} else {
				q.idx = append(q.idx, extraVar[i])
			}
		}
		l.addRow(q)
	}
	return !l.feasible(s.budget)
}

// empty decides whether the constraints are jointly infeasible.
func (c *Ctx) empty(cs []lin, budget int) bool {
	return c.system(cs, budget).dead
}
