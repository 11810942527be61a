package alg

import (
	"fmt"
	"math/big"
	"sort"
)

// Goal kinds.
type GoalKind int

const (
	GZero  GoalKind = iota // P == 0
	GMod                   // P == 0 modulo M
	GRange                 // Lo <= P <= Hi
	GFalse                 // the case is impossible
)

// Goal is an obligation about a polynomial under a condition.
type Goal struct {
	Kind   GoalKind
	P      *Poly
	M      *big.Int
	Lo, Hi *big.Int
	Cond   Bdd
	Extra  []Fact // additional hypotheses
	// Shallow: do not split beyond the condition itself
	Shallow bool
}

// Prover discharges goals by case distinction on gates and carries.
type Prover struct {
	c      *Ctx
	goal   Goal
	budget int
	Cases  int
	Fail   string
}

type caseState struct {
	as map[int32]bool // boolean assignment
	eq map[int32]*Poly
}

func (s *caseState) copy() *caseState {
	n := &caseState{as: map[int32]bool{}}
	for k, v := range s.as {
		n.as[k] = v
	}
	return n
}

// resolve substitutes the assignment and determined phis.
func (c *Ctx) resolve(p *Poly, as map[int32]bool) *Poly {
	for depth := 0; depth < 400; depth++ {
		q := c.Subst(p, func(id int32) *Poly {
			a := c.Atoms[id]
			if v, ok := as[id]; ok {
				if v {
					return KI(1)
				}
				return KI(0)
			}
			if a.Kind == KPhi {
				for _, alt := range a.Alts {
					if c.Restrict(alt.Cond, as) == True {
						return alt.P
					}
				}
			}
			return nil
		})
		if q == p || q.Equal(p) {
			return q
		}
		p = q
	}
	return p
}

// Prove discharges a goal; a failure explanation is returned otherwise.
func (c *Ctx) Prove(g Goal, maxCases int) (bool, string, int) {
	pr := &Prover{c: c, goal: g, budget: maxCases}
	ok := pr.run(&caseState{as: map[int32]bool{}})
	return ok, pr.Fail, pr.Cases
}

func (pr *Prover) facts(as map[int32]bool, seed []*Poly) []lin {
	c := pr.c
	// slice facts connected with the seed polynomials
	var all []lin
	use := func(f Fact) {
		if f.Cond != True && c.Restrict(f.Cond, as) != True {
			return
		}
		p := c.resolve(f.P, as)
		all = append(all, lin{p, f.Lo, f.Hi})
	}
	for _, f := range c.Facts {
		use(f)
	}
	for _, f := range pr.goal.Extra {
		use(f)
	}
	// phi atoms unresolved: box only
	need := map[mono]bool{}
	for _, s := range seed {
		for m := range s.t {
			if m != "" {
				need[m] = true
			}
		}
	}
	// product facts for vector bounds
	monos := map[mono]bool{}
	for _, f := range all {
		for m := range f.p.t {
			if len(m) == 8 {
				monos[m] = true
			}
		}
	}
	for _, v := range c.Vec {
		first := map[int32]bool{}
		for _, i := range v.P.AtomIDs() {
			first[i] = true
		}
		others := map[int32]bool{}
		for m := range monos {
			ids := m.ids()
			if first[ids[0]] {
				others[ids[1]] = true
			}
			if first[ids[1]] {
				others[ids[0]] = true
			}
		}
		var ol []int32
		for o := range others {
			ol = append(ol, o)
		}
		sort.Slice(ol, func(a, b int) bool { return ol[a] < ol[b] })
		for _, o := range ol {
			a := c.Atoms[o]
			if a.Lo == nil || a.Lo.Sign() < 0 {
				continue
			}
			pp := c.Mul(v.P, c.V(a)).Sub(c.V(a).Scale(v.K))
			all = append(all, lin{c.resolve(pp, as), nil, new(big.Int)})
		}
	}
	used := make([]bool, len(all))
	var out []lin
	for changed := true; changed; {
		changed = false
		for i, f := range all {
			if used[i] {
				continue
			}
			hit := false
			for m := range f.p.t {
				if need[m] {
					hit = true
					break
				}
			}
			if hit || f.p.IsConst() {
				used[i] = true
				out = append(out, f)
				for m := range f.p.t {
					if m != "" && !need[m] {
						need[m] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

const lpBudget = 1500

func (pr *Prover) run(st *caseState) bool {
	c := pr.c
	pr.Cases++
	if pr.Cases > pr.budget {
		pr.Fail = "case budget exhausted"
		return false
	}
	for {
		cond := c.Restrict(pr.goal.Cond, st.as)
		if cond == False {
			return true
		}
		p := c.resolve(pr.goal.P, st.as)
		// 1. closed by algebra?
		switch pr.goal.Kind {
		case GZero:
			if p.IsZero() && cond == True {
				return true
			}
			if p.IsZero() {
				return true
			}
		case GMod:
			p = p.Mod(pr.goal.M)
			if p.IsZero() {
				return true
			}
		case GRange:
			lo, hi := c.Bounds(p)
			if lo != nil && (pr.goal.Lo == nil || lo.Cmp(pr.goal.Lo) >= 0) && (pr.goal.Hi == nil || hi.Cmp(pr.goal.Hi) <= 0) {
				return true
			}
		}
		// 2. candidates for splitting
		sup := map[int32]bool{}
		if cond != True {
			c.BddVars(cond, sup)
		}
		seenPhi := map[int32]bool{}
		var phiVars func(id int32)
		carr := map[int32]bool{}
		phiVars = func(id int32) {
			if seenPhi[id] {
				return
			}
			seenPhi[id] = true
			a := c.Atoms[id]
			for _, alt := range a.Alts {
				r := c.Restrict(alt.Cond, st.as)
				c.BddVars(r, sup)
			}
		}
		for _, id := range p.AtomIDs() {
			a := c.Atoms[id]
			if a.Kind == KPhi {
				phiVars(id)
			} else if a.IsBool() {
				carr[id] = true
			}
		}
		var gates, carries []int32
		for i := range sup {
			gates = append(gates, i)
		}
		for i := range carr {
			if !sup[i] {
				carries = append(carries, i)
			}
		}
		sort.Slice(gates, func(a, b int) bool { return gates[a] < gates[b] })
		sort.Slice(carries, func(a, b int) bool { return carries[a] > carries[b] })

		if len(gates) > 0 {
			return pr.split(st, gates[0])
		}
		if pr.goal.Kind == GRange {
			// feasibility of the complement
			sys := c.system(pr.facts(st.as, []*Poly{p}), lpBudget)
			ok := true
			if pr.goal.Lo != nil && !sys.empty(lin{p, nil, new(big.Int).Sub(pr.goal.Lo, big.NewInt(1))}) {
				ok = false
			}
			if ok && pr.goal.Hi != nil && !sys.empty(lin{p, new(big.Int).Add(pr.goal.Hi, big.NewInt(1)), nil}) {
				ok = false
			}
			if ok {
				return true
			}
		}
		// is the whole case impossible?
		base := pr.facts(st.as, []*Poly{p})
		sys := c.system(base, lpBudget)
		if sys.empty() {
			return true
		}
		if pr.goal.Kind == GFalse {
			wide := pr.facts(st.as, pr.assignedSeeds(st))
			if c.empty(wide, lpBudget) {
				return true
			}
			if !pr.goal.Shallow && len(st.as) < 120 {
				if id := pr.openGate(st); id >= 0 {
					return pr.split(st, id)
				}
				if id := pr.nearGate(st, wide); id >= 0 {
					return pr.split(st, id)
				}
				if id := pr.openBit(st, wide); id >= 0 {
					return pr.split(st, id)
				}
			}
			pr.Fail = "case is feasible: " + pr.describe(st, p)
			return false
		}
		// the equations of this case may already suffice
		if pr.goal.Kind == GZero || pr.goal.Kind == GMod {
			if done, _ := pr.reduces(c.resolve(pr.goal.P, st.as), base); done {
				return true
			}
		}
		// 3. carries whose value is forced
		forced := false
		var ext []lin
		for _, id := range carries {
			v := c.V(c.Atoms[id])
			set := func(b bool, k int64) {
				if !forced {
					st = st.copy()
				}
				st.as[id] = b
				forced = true
				ext = append(ext, lin{v, big.NewInt(k), big.NewInt(k)})
			}
			if sys.empty(append(ext[:len(ext):len(ext)], lin{v, big.NewInt(1), nil})...) {
				set(false, 0)
			} else if sys.empty(append(ext[:len(ext):len(ext)], lin{v, nil, new(big.Int)})...) {
				set(true, 1)
			}
		}
		if forced {
			continue
		}
		// 3b. non-boolean integer atoms or whole residual forced to 0
		if pr.goal.Kind == GZero || pr.goal.Kind == GMod {
			q := c.resolve(pr.goal.P, st.as)
			if pr.zero(q, sys, nil) {
				return true
			}
		}
		var spare []int32
		// 3c. the residual is a combination of equations that hold in this case
		if pr.goal.Kind == GZero || pr.goal.Kind == GMod {
			q := c.resolve(pr.goal.P, st.as)
			done, rest := pr.reduces(q, base)
			if done {
				return true
			}
			// bits the equations bring in may be forced as well
			again := false
			for _, id := range rest {
				if _, ok := st.as[id]; ok {
					continue
				}
				v := c.V(c.Atoms[id])
				if sys.empty(lin{v, big.NewInt(1), nil}) {
					st = st.copy()
					st.as[id] = false
					again = true
					break
				}
				if sys.empty(lin{v, nil, new(big.Int)}) {
					st = st.copy()
					st.as[id] = true
					again = true
					break
				}
			}
			if again {
				continue
			}
			for _, id := range rest {
				if _, ok := st.as[id]; !ok {
					spare = append(spare, id)
				}
			}
		}
		// 3c'. quotients that can be read off in this case
		if pr.goal.Kind == GZero || pr.goal.Kind == GMod {
			q := pr.readQuot(c.resolve(pr.goal.P, st.as), base)
			if q.IsZero() || pr.goal.Kind == GMod && q.Mod(pr.goal.M).IsZero() {
				return true
			}
		}
		// 3d. equal to a multiple of the modulus after a computation modulo 2^(64 j)
		if pr.goal.Kind == GMod && pr.goal.M.Bit(0) == 1 && pr.multiple(c.resolve(pr.goal.P, st.as), sys, st.as) {
			return true
		}
		// 4. split on a carry
		if len(carries) > 0 && len(st.as) < 64 {
			return pr.split(st, carries[0])
		}
		if len(spare) > 0 && len(st.as) < 64 {
			return pr.split(st, spare[0])
		}
		// everything known about the assigned gates together may exclude the case
		wide := pr.facts(st.as, pr.assignedSeeds(st))
		if c.empty(wide, lpBudget) {
			return true
		}
		if pr.goal.Kind == GZero || pr.goal.Kind == GMod {
			if ok, _ := pr.reduces(c.resolve(pr.goal.P, st.as), wide); ok {
				return true
			}
		}
		if pr.goal.Kind == GRange {
			sys := c.system(wide, lpBudget)
			if (pr.goal.Lo == nil || sys.empty(lin{p, nil, new(big.Int).Sub(pr.goal.Lo, big.NewInt(1))})) &&
				(pr.goal.Hi == nil || sys.empty(lin{p, new(big.Int).Add(pr.goal.Hi, big.NewInt(1)), nil})) {
				return true
			}
		}
		// 5. what the assigned gates say may depend on joins that are still open
		if len(st.as) < 64 {
			if id := pr.openGate(st); id >= 0 {
				return pr.split(st, id)
			}
		}
		// 6. small integers
		if len(st.as) < 64 {
			if id := pr.smallInt(st, wide, p); id >= 0 {
				return pr.split(st, id)
			}
		}
		// 7. any carry the facts depend on
		if !pr.goal.Shallow && len(st.as) < 64 {
			if id := pr.openBit(st, wide); id >= 0 {
				return pr.split(st, id)
			}
		}
		pr.Fail = "residual does not vanish: " + pr.describe(st, p)
		return false
	}
}

// openGate is a gate that decides a join occurring in the facts about the assigned gates.
func (pr *Prover) openGate(st *caseState) int32 {
	c := pr.c
	best := int32(-1)
	for _, s := range pr.assignedSeeds(st) {
		for _, id := range s.AtomIDs() {
			a := c.Atoms[id]
			if a.Kind != KPhi {
				continue
			}
			vs := map[int32]bool{}
			for _, alt := range a.Alts {
				c.BddVars(c.Restrict(alt.Cond, st.as), vs)
			}
			for v := range vs {
				if _, ok := st.as[v]; !ok && (best < 0 || v < best) {
					best = v
				}
			}
		}
	}
	return best
}

// smallInt is a gate that narrows an integer of few possible values.
func (pr *Prover) smallInt(st *caseState, facts []lin, p *Poly) int32 {
	c := pr.c
	ids := map[int32]bool{}
	for _, i := range p.AtomIDs() {
		ids[i] = true
	}
	for _, f := range facts {
		for _, i := range f.p.AtomIDs() {
			ids[i] = true
		}
	}
	var ord []int32
	for i := range ids {
		a := c.Atoms[i]
		if a.Kind != KPhi && !a.IsBool() && a.Lo != nil && a.Hi != nil && new(big.Int).Sub(a.Hi, a.Lo).Cmp(big.NewInt(8)) <= 0 {
			ord = append(ord, i)
		}
	}
	sort.Slice(ord, func(x, y int) bool { return ord[x] < ord[y] })
	for _, i := range ord {
		a := c.Atoms[i]
		for k := new(big.Int).Set(a.Lo); k.Cmp(a.Hi) < 0; k.Add(k, big.NewInt(1)) {
			g := c.LtR(Rng{c.V(a), a.Lo, a.Hi}, KR(new(big.Int).Add(k, big.NewInt(1))))
			id := c.BddTop(g)
			if id < 0 {
				break
			}
			if _, ok := st.as[id]; !ok {
				return id
			}
			if c.Restrict(g, st.as) == True {
				break
			}
		}
	}
	return -1
}

// nearGate is an open comparison between quantities that all occur in the facts of the case.
func (pr *Prover) nearGate(st *caseState, facts []lin) int32 {
	c := pr.c
	have := map[int32]bool{}
	for _, f := range facts {
		for _, i := range f.p.AtomIDs() {
			have[i] = true
		}
	}
	best := int32(-1)
	for _, f := range c.Facts {
		if f.Cond == True {
			continue
		}
		id := c.BddTop(f.Cond)
		if _, ok := st.as[id]; ok || id < 0 || best >= 0 && id >= best {
			continue
		}
		in := true
		for _, i := range c.resolve(f.P, st.as).AtomIDs() {
			if !have[i] {
				in = false
				break
			}
		}
		if in {
			best = id
		}
	}
	return best
}

// openBit is the most significant unassigned carry among the facts.
func (pr *Prover) openBit(st *caseState, facts []lin) int32 {
	c := pr.c
	best := int32(-1)
	for _, f := range facts {
		for _, i := range f.p.AtomIDs() {
			if _, ok := st.as[i]; !ok && c.Atoms[i].IsBool() && i > best {
				best = i
			}
		}
	}
	return best
}

func (pr *Prover) assignedSeeds(st *caseState) []*Poly {
	c := pr.c
	var seeds []*Poly
	for _, f := range c.Facts {
		hit := false
		if f.Cond != True {
			vs := map[int32]bool{}
			c.BddVars(f.Cond, vs)
			for i := range vs {
				if _, ok := st.as[i]; ok {
					hit = true
				}
			}
			if hit && c.Restrict(f.Cond, st.as) != True {
				hit = false
			}
		}
		for _, i := range f.P.AtomIDs() {
			if _, ok := st.as[i]; ok {
				hit = true
			}
		}
		if hit {
			seeds = append(seeds, c.resolve(f.P, st.as))
		}
	}
	return seeds
}

// reduces reports whether q vanishes (modulo the goal's modulus) after
// eliminating with the equations among the facts, and otherwise the bits left.
func (pr *Prover) reduces(q *Poly, facts []lin) (bool, []int32) {
	c := pr.c
	type iv struct {
		p      *Poly
		lo, hi *big.Int
	}
	byKey := map[string]*iv{}
	var order []string
	for _, f := range facts {
		p := f.p
		k := p.t[""]
		base := p
		lo, hi := f.lo, f.hi
		if k != nil && k.Sign() != 0 {
			base = p.Sub(K(k))
			if lo != nil {
				lo = new(big.Int).Sub(lo, k)
			}
			if hi != nil {
				hi = new(big.Int).Sub(hi, k)
			}
		}
		if base.IsZero() {
			continue
		}
		_, lead := base.lead()
		if lead.Sign() < 0 {
			base = base.Neg()
			nlo, nhi := (*big.Int)(nil), (*big.Int)(nil)
			if hi != nil {
				nlo = new(big.Int).Neg(hi)
			}
			if lo != nil {
				nhi = new(big.Int).Neg(lo)
			}
			lo, hi = nlo, nhi
		}
		key := base.Key()
		e := byKey[key]
		if e == nil {
			e = &iv{p: base}
			bl, bh := c.Bounds(base)
			e.lo, e.hi = bl, bh
			byKey[key] = e
			order = append(order, key)
		}
		if lo != nil && (e.lo == nil || lo.Cmp(e.lo) > 0) {
			e.lo = lo
		}
		if hi != nil && (e.hi == nil || hi.Cmp(e.hi) < 0) {
			e.hi = hi
		}
	}
	var eqs []*Poly
	for _, key := range order {
		e := byKey[key]
		if e.lo != nil && e.hi != nil && e.lo.Cmp(e.hi) == 0 {
			eqs = append(eqs, e.p.Sub(K(e.lo)))
		}
	}
	if len(eqs) == 0 {
		return false, nil
	}
	// a word known to be congruent to a constant modulo its size is that constant
	word := Two(64)
	var derived []*Poly
	for _, key := range order {
		e := byKey[key]
		if e.lo == nil || e.hi == nil || e.lo.Cmp(e.hi) == 0 || new(big.Int).Sub(e.hi, e.lo).Cmp(word) >= 0 {
			continue
		}
		for _, q := range eqs {
			var piv mono
			var u *big.Int
			for m, v := range q.t {
				if m != "" && v.Bit(0) == 1 && (u == nil || m > piv) {
					piv, u = m, v
				}
			}
			if u == nil {
				continue
			}
			k, ok := e.p.t[piv]
			if !ok {
				continue
			}
			f := new(big.Int).ModInverse(u, word)
			f.Mul(f, k)
			f.Mod(f, word)
			d := e.p.Sub(q.Scale(f)).Mod(word)
			if !d.IsConst() {
				continue
			}
			// e.p = d modulo 2^64, within [lo,hi]
			v := new(big.Int).Sub(d.Const(), e.lo)
			v.Mod(v, word)
			v.Add(v, e.lo)
			if v.Cmp(e.hi) > 0 {
				return true, nil // contradictory
			}
			derived = append(derived, e.p.Sub(K(v)))
			break
		}
	}
	eqs = append(eqs, derived...)
	norm := func(p *Poly) *Poly {
		if pr.goal.Kind == GMod {
			return p.Mod(pr.goal.M)
		}
		return p
	}
	q = norm(q)
	done := make([]bool, len(eqs))
	for i := range eqs {
		e := norm(eqs[i])
		eqs[i] = e
		if e.IsZero() {
			done[i] = true
			continue
		}
		// pivot: a monomial with the smallest coefficient (a unit)
		piv, coef, rank := mono(""), (*big.Int)(nil), 0
		for m, v := range e.t {
			if m == "" {
				continue
			}
			u, r := v, 1
			if ids := m.ids(); len(ids) == 1 && c.Atoms[ids[0]].IsBool() {
				r = 2
			}
			if coef == nil || r < rank || r == rank && (u.CmpAbs(coef) < 0 || (u.CmpAbs(coef) == 0 && m > piv)) {
				piv, coef, rank = m, u, r
			}
		}
		if coef == nil {
			continue
		}
		elim := func(t *Poly) *Poly {
			k, ok := t.t[piv]
			if !ok {
				return t
			}
			if pr.goal.Kind == GMod {
				inv := new(big.Int).ModInverse(coef, pr.goal.M)
				if inv == nil {
					return t
				}
				return norm(t.Sub(e.Scale(new(big.Int).Mul(k, inv))))
			}
			// scale t so that the pivot cancels
			return t.Scale(coef).Sub(e.Scale(k))
		}
		q = elim(q)
		if q.IsZero() {
			return true, nil
		}
		for j := i + 1; j < len(eqs); j++ {
			eqs[j] = elim(eqs[j])
		}
	}
	if q.IsZero() {
		return true, nil
	}
	var bits []int32
	for _, id := range q.AtomIDs() {
		if c.Atoms[id].IsBool() {
			bits = append(bits, id)
		}
	}
	return false, bits
}

func (pr *Prover) split(st *caseState, id int32) bool {
	c := pr.c
	c.Splits++
	for _, v := range []bool{false, true} {
		n := st.copy()
		n.as[id] = v
		// prune impossible cases
		a := c.V(c.Atoms[id])
		seeds := []*Poly{a}
		for _, f := range c.Facts {
			if f.Cond == True {
				continue
			}
			vs := map[int32]bool{}
			c.BddVars(f.Cond, vs)
			if vs[id] && c.Restrict(f.Cond, n.as) == True {
				seeds = append(seeds, c.resolve(f.P, n.as))
			}
		}
		// the assignment may also have turned a carry constant: look at all facts mentioning it
		for _, f := range c.Facts {
			for _, i := range f.P.AtomIDs() {
				if i == id {
					seeds = append(seeds, c.resolve(f.P, n.as))
					break
				}
			}
		}
		cs := pr.facts(n.as, seeds)
		if c.empty(cs, lpBudget) {
			continue
		}
		if !pr.run(n) {
			return false
		}
	}
	return true
}

func (pr *Prover) describe(st *caseState, p *Poly) string {
	var ids []int32
	for i := range st.as {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	s := ""
	for _, i := range ids {
		v := 0
		if st.as[i] {
			v = 1
		}
		s += fmt.Sprintf("%s=%d ", pr.c.Atoms[i].Name, v)
	}
	return fmt.Sprintf("in case {%s}: %s", s, pr.c.String(p))
}

// multiple looks for an integer form A with q = M*A in this case; A is guessed
// from the coefficients modulo powers of the word size and then verified.
func (pr *Prover) multiple(q *Poly, facts *system, as map[int32]bool) bool {
	if q.IsConst() {
		return false
	}
	M := pr.goal.M
	seen := map[string]bool{}
	for j := uint(1); j <= 8; j++ {
		W := Two(64 * j)
		inv := new(big.Int).ModInverse(M, W)
		if inv == nil {
			return false
		}
		half := Two(64*j - 1)
		A := q.MapCoef(func(k *big.Int) *big.Int {
			a := new(big.Int).Mul(k, inv)
			a.Mod(a, W)
			if a.Cmp(half) >= 0 {
				a.Sub(a, W)
			}
			return a
		})
		r := q.Sub(A.Scale(M))
		if r.IsZero() {
			return true
		}
		if k := r.Key(); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		if k := r.t[""]; r.NumTerms() == 1 && k != nil {
			continue
		}
		if pr.zero(r, facts, as) {
			return true
		}
	}
	return false
}

// zero decides whether the integer form r can only be 0.
func (pr *Prover) zero(r *Poly, facts *system, as map[int32]bool) bool {
	g := new(big.Int)
	for _, k := range r.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Sign() == 0 {
		return true
	}
	only0 := func(r *Poly, g *big.Int, more ...lin) bool {
		if !facts.empty(append(more, lin{r, g, nil})...) {
			return false
		}
		return facts.empty(append(more, lin{r, nil, new(big.Int).Neg(g)})...)
	}
	if only0(r, g) {
		return true
	}
	if as == nil || r.NumTerms() < 3 {
		return false
	}
	// r/g is congruent to a known remainder modulo a word: the quotient is an
	// integer form of its own; once it is known to vanish it sharpens r
	b := r.MapCoef(func(k *big.Int) *big.Int { return new(big.Int).Quo(k, g) })
	m := Two(64)
	one := big.NewInt(1)
	for _, f := range pr.c.Facts {
		if f.Cond != True || f.Lo == nil || f.Hi == nil || f.Lo.Sign() != 0 || f.Hi.BitLen() != 64 {
			continue
		}
		kr := pr.c.resolve(f.P, as)
		for _, d := range []*Poly{b.Sub(kr), b.Add(kr)} {
			ok := true
			for mo, k := range d.t {
				if mo != "" && new(big.Int).Mod(k, m).Sign() != 0 {
					ok = false
					break
				}
			}
			if !ok || d.IsConst() {
				continue
			}
			k := new(big.Int).Mod(d.Const(), m)
			t := d.Sub(K(k)).MapCoef(func(k *big.Int) *big.Int { return new(big.Int).Quo(k, m) })
			if only0(t, one) && only0(r, g, lin{t, new(big.Int), new(big.Int)}) {
				return true
			}
		}
	}
	return false
}

// readQuot replaces quotient atoms x with 0 <= A - m x < m by A1 whenever A = m A1 + A0 with 0 <= A0 < m.
func (pr *Prover) readQuot(p *Poly, base []lin) *Poly {
	return pr.readQuotMemo(p, base, map[int32]*Poly{})
}

func (pr *Prover) readQuotMemo(p *Poly, base []lin, memo map[int32]*Poly) *Poly {
	c := pr.c
	for _, id := range p.AtomIDs() {
		if c.Atoms[id].Kind != KQuot {
			continue
		}
		if _, ok := memo[id]; ok {
			continue
		}
		memo[id] = nil
		x := c.V(c.Atoms[id])
		for _, f := range base {
			if f.lo == nil || f.hi == nil || f.lo.Sign() != 0 {
				continue
			}
			m := new(big.Int).Add(f.hi, one)
			if m.Cmp(one) <= 0 || !hasAtom(f.p, id) {
				continue
			}
			a := f.p.Add(x.Scale(m))
			if hasAtom(a, id) {
				continue
			}
			a = pr.readQuotMemo(a, base, memo)
			a0 := a.Mod(m)
			lo, hi := c.Bounds(a0)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(m) >= 0 {
				continue
			}
			memo[id] = a.Sub(a0).MapCoef(func(v *big.Int) *big.Int { return new(big.Int).Div(v, m) })
			break
		}
	}
	return c.Subst(p, func(i int32) *Poly { return memo[i] })
}

func hasAtom(p *Poly, id int32) bool {
	for _, i := range p.AtomIDs() {
		if i == id {
			return true
		}
	}
	return false
}
