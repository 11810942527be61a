package alg

import "fmt"

// Bdd is a node of a reduced ordered decision diagram; variables are atom ids.
type Bdd int32

const (
	False Bdd = 0
	True  Bdd = 1
)

type bddNode struct {
	v      int32
	lo, hi Bdd
}

type bddTab struct {
	nodes []bddNode
	uniq  map[bddNode]Bdd
	memo  map[[3]Bdd]Bdd
}

func newBddTab() *bddTab {
	return &bddTab{nodes: []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}, uniq: map[bddNode]Bdd{}, memo: map[[3]Bdd]Bdd{}}
}

func (t *bddTab) mk(v int32, lo, hi Bdd) Bdd {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if r, ok := t.uniq[n]; ok {
		return r
	}
	r := Bdd(len(t.nodes))
	t.nodes = append(t.nodes, n)
	t.uniq[n] = r
	return r
}

// BVar is the diagram of a boolean atom.
func (c *Ctx) BVar(id int32) Bdd { return c.bdd.mk(id, False, True) }

// Ite is if-then-else.
func (c *Ctx) Ite(f, g, h Bdd) Bdd {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	t := c.bdd
	k := [3]Bdd{f, g, h}
	if r, ok := t.memo[k]; ok {
		return r
	}
	v := t.nodes[f].v
	if w := t.nodes[g].v; w < v {
		v = w
	}
	if w := t.nodes[h].v; w < v {
		v = w
	}
	cof := func(b Bdd, hi bool) Bdd {
		n := t.nodes[b]
		if n.v != v {
			return b
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	lo := c.Ite(cof(f, false), cof(g, false), cof(h, false))
	hi := c.Ite(cof(f, true), cof(g, true), cof(h, true))
	r := t.mk(v, lo, hi)
	t.memo[k] = r
	return r
}

func (c *Ctx) And(a, b Bdd) Bdd { return c.Ite(a, b, False) }
func (c *Ctx) Or(a, b Bdd) Bdd  { return c.Ite(a, True, b) }
func (c *Ctx) Not(a Bdd) Bdd    { return c.Ite(a, False, True) }
func (c *Ctx) Xor(a, b Bdd) Bdd { return c.Ite(a, c.Not(b), b) }

// Restrict evaluates b under a partial assignment.
func (c *Ctx) Restrict(b Bdd, as map[int32]bool) Bdd {
	if b == True || b == False || len(as) == 0 {
		return b
	}
	memo := map[Bdd]Bdd{}
	var rec func(b Bdd) Bdd
	rec = func(b Bdd) Bdd {
		if b <= 1 {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := c.bdd.nodes[b]
		var r Bdd
		if v, ok := as[n.v]; ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = c.bdd.mk(n.v, rec(n.lo), rec(n.hi))
			// children may have become out of order only if variables were renamed: they are not
		}
		memo[b] = r
		return r
	}
	return rec(b)
}

// BddTop is the first variable of b (-1 for constants).
func (c *Ctx) BddTop(b Bdd) int32 {
	if b <= 1 {
		return -1
	}
	return c.bdd.nodes[b].v
}

// BddVars lists the support of b.
func (c *Ctx) BddVars(b Bdd, into map[int32]bool) {
	seen := map[Bdd]bool{}
	var rec func(Bdd)
	rec = func(b Bdd) {
		if b <= 1 || seen[b] {
			return
		}
		seen[b] = true
		n := c.bdd.nodes[b]
		into[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(b)
}

// BddString renders small diagrams.
func (c *Ctx) BddString(b Bdd) string {
	if b == True {
		return "true"
	}
	if b == False {
		return "false"
	}
	n := c.bdd.nodes[b]
	nm := c.Atoms[n.v].Name
	if n.lo == False && n.hi == True {
		return nm
	}
	if n.lo == True && n.hi == False {
		return "!" + nm
	}
	return fmt.Sprintf("(%s?%s:%s)", nm, c.BddString(n.hi), c.BddString(n.lo))
}

// SingleVar reports whether b is exactly one positive variable.
func (c *Ctx) SingleVar(b Bdd) (int32, bool) {
	if b <= 1 {
		return 0, false
	}
	n := c.bdd.nodes[b]
	return n.v, n.lo == False && n.hi == True
}

// Constrain simplifies f using that care holds (agrees with f wherever care is true).
func (c *Ctx) Constrain(f, care Bdd) Bdd {
	if care == True || care == False || f == True || f == False {
		return f
	}
	memo := map[[2]Bdd]Bdd{}
	var rec func(f, g Bdd) Bdd
	rec = func(f, g Bdd) Bdd {
		if g == True || f <= 1 {
			return f
		}
		if f == g {
			return True
		}
		k := [2]Bdd{f, g}
		if r, ok := memo[k]; ok {
			return r
		}
		nf, ng := c.bdd.nodes[f], c.bdd.nodes[g]
		var r Bdd
		switch {
		case ng.v < nf.v:
			if ng.lo == False {
				r = rec(f, ng.hi)
			} else if ng.hi == False {
				r = rec(f, ng.lo)
			} else {
				// quantify the variable f does not depend on
				r = rec(f, c.Or(ng.lo, ng.hi))
			}
		case nf.v < ng.v:
			r = c.bdd.mk(nf.v, rec(nf.lo, g), rec(nf.hi, g))
		default:
			if ng.lo == False {
				r = rec(nf.hi, ng.hi)
			} else if ng.hi == False {
				r = rec(nf.lo, ng.lo)
			} else {
				r = c.bdd.mk(nf.v, rec(nf.lo, ng.lo), rec(nf.hi, ng.hi))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}
