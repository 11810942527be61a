package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "C08", Level: "other", Technique: techFF, F: runC08,
		Note: "Batch normalisation and slice views of points: every combination of classes of points (generic, normalised, torsion, infinite, invalid) in every position, all representations, for slices of length up to 3 (thorough 4), up to three special elements among representations of one generic point for selected lengths up to 33 (thorough 65), and one at the end for every length up to 34 and some up to 130."})
}

// bcls is the class of one element of a slice of points.
type bcls struct {
	g    gclass
	norm int       // value of the coordinate to be normalised if 1 or -1
	nap  *napShape // invalid point
}

func (b bcls) String() string {
	if b.nap != nil {
		return b.nap.desc
	}
	if b.norm != 0 {
		return fmt.Sprintf("%v with coordinate %d", b.g, b.norm)
	}
	return b.g.String()
}

// batchEl makes the coordinates of an element; j is the coordinate to be normalised.
func (c *crv) batchEl(t ptype, b bcls, j, i int) (v []ff.Val, m mpt) {
	if b.nap != nil {
		v = c.napCoords(t, *b.nap, fmt.Sprintf("n%d", i))
		for k := range v {
			if !v[k].IsZero() {
				for _, s := range []int64{0, 1, -1} {
					c.addUnit(c.F.Sub(v[k], c.ki(s)))
				}
			}
		}
		return
	}
	m = c.point(b.g)
	v = c.coords(t.k, m, fmt.Sprint(i))
	if v[j].IsZero() {
		return
	}
	if b.norm != 0 {
		s := c.F.Mul(c.F.Inv(v[j]), c.ki(int64(b.norm)))
		for k := range v {
			v[k] = c.F.Mul(v[k], s)
		}
		return
	}
	for _, s := range []int64{1, -1} {
		c.addUnit(c.F.Sub(v[j], c.ki(s)))
	}
	return
}

// wordsOf lists the words of length n over k letters.
func wordsOf(k, n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range wordsOf(k, n-1) {
		for i := 0; i < k; i++ {
			out = append(out, append(append([]int{}, p...), i))
		}
	}
	return out
}

func runC08(r *Run) {
	const rule = "batch-points"
	for _, t := range ptypes {
		t := t
		n := r.ptNamed(t)
		if n == nil {
			r.ptFn(rule, t, "IsNaP")
			continue
		}
		sl := r.sliceOf(n)
		if sl == nil {
			r.Ok(rule, "slice of "+t.name, 0, "anchor resolves", false, "no named slice type")
			continue
		}
		for _, m := range []string{"BatchNormalizeForZ", "BatchNormalizeForY"} {
			sel := r.P.SSA.MethodSets.MethodSet(sl).Lookup(n.Obj().Pkg(), m)
			if sel == nil {
				continue
			}
			fn := r.P.SSA.MethodValue(sel)
			j := 2
			if strings.HasSuffix(m, "Y") {
				j = 1
			}
			if t.k == cEFGH {
				r.Ok(rule, shortFn(fn.String()), fn.Pos(), "representation known", false, "batch normalisation of this representation is not specified")
				continue
			}
			var cls []bcls
			for _, g := range classesOf(t, false) {
				cls = append(cls, bcls{g: g})
				if t.k != cAXTW && !(g.t >= tE1 && !g.gen) {
					cls = append(cls, bcls{g: g, norm: 1})
					if g.gen {
						cls = append(cls, bcls{g: g, norm: -1})
					}
				}
			}
			for _, s := range napsOf(t) {
				s := s
				cls = append(cls, bcls{nap: &s})
			}
			maxL := 3
			if r.Thorough() {
				maxL = 4
			}
			for L := 0; L <= maxL; L++ {
				for _, co := range wordsOf(len(cls), L) {
					r.batchCase(rule, t, n, fn, j, cls, co)
				}
			}
			// longer slices: a few special elements among generic ones
			gen := -1
			for i, x := range cls {
				if x.g.gen && x.norm == 0 && x.nap == nil && gen < 0 {
					gen = i
				}
			}
			lens := map[int]bool{5: true, 8: true, 9: true, 17: true, 33: true}
			if r.Thorough() {
				lens = map[int]bool{5: true, 6: true, 7: true, 8: true, 9: true, 16: true, 17: true, 32: true, 33: true, 65: true}
			}
			for L := 4; L <= 130; L++ {
				put := func(k int, pos ...int) {
					co := make([]int, L)
					for i := range co {
						co[i] = gen
					}
					for _, p := range pos {
						co[p] = k
					}
					r.batchCase(rule, t, n, fn, j, cls, co)
				}
				if !lens[L] { // every residue of the length: one special element at the end
					for k := range cls {
						if L >= 129 && k == 0 || L == 65 || L <= 34 && (k == gen || k == len(cls)-1 || L%4 == 3 || r.Thorough()) {
							put(k, L-1)
						}
					}
					continue
				}
				for k := range cls {
					put(k, 0)
					put(k, L/2)
					put(k, L-1)
					put(k, 0, L-1)
					put(k, 1, 2, L-2)
				}
			}
		}
		r.views(rule, t, n, sl)
	}
}

// sliceOf finds the named slice type over a point type.
func (r *Run) sliceOf(n *types.Named) types.Type {
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), n) {
			return tn.Type()
		}
	}
	return nil
}

func (c *crv) pointSlice(t ptype, n *types.Named, pts [][]ff.Val) (vg.SliceV, func(i int) vg.Value) {
	var el []vg.Value
	for i, v := range pts {
		el = append(el, c.It.Load(c.St, c.newPoint(t, n, fmt.Sprintf("tmp%d", i), v)))
	}
	base := c.It.NewObj(c.St, "points", types.NewArray(n, int64(len(pts))), &vg.AggV{E: el})
	s := vg.SliceV{Base: base, Len: len(pts), Cap: len(pts)}
	return s, func(i int) vg.Value { return vg.SliceElemPtr(s, i) }
}

func (r *Run) batchCase(rule string, t ptype, n *types.Named, fn *ssa.Function, j int, cls []bcls, co []int) {
	var desc []string
	for _, i := range co {
		desc = append(desc, cls[i].String())
	}
	name := fmt.Sprintf("%s.%s.%s of [%s]", curvePkg, t.name, fn.Name(), strings.Join(desc, "; "))
	r.Go(rule, name, func() {
		c := r.newCrv(rule, name, fn)
		defer c.Done()
		defer c.recover()
		var pts [][]ff.Val
		var ms []mpt
		var zero []int64
		invalid := false
		first := map[int]int{}
		for i, k := range co {
			var v []ff.Val
			var m mpt
			if i0, ok := first[k]; ok && len(co) > 4 && cls[k].nap == nil && cls[k].norm == 0 {
				// another representation of an earlier element
				m = ms[i0]
				for q, x := range pts[i0] {
					s := big.NewInt(int64(i + 1))
					if t.k == cAXTW {
						s = big.NewInt(1)
					}
					v = append(v, c.F.Scale(x, s))
					if q == j && t.k != cAXTW && !x.IsZero() {
						for _, e := range []int64{1, -1} {
							c.addUnit(c.F.Sub(v[q], c.ki(e)))
						}
					}
				}
			} else {
				v, m = c.batchEl(t, cls[k], j, i)
			}
			if _, ok := first[k]; !ok {
				first[k] = i
			}
			pts = append(pts, v)
			ms = append(ms, m)
			if t.k != cAXTW && v[j].IsZero() {
				zero = append(zero, int64(i))
			}
			invalid = invalid || cls[k].nap != nil
		}
		s, at := c.pointSlice(t, n, pts)
		res, ret := c.It.Call(c.St, fn, []vg.Value{s}, nil)
		c.quiet(alg.False)
		c.must("returns", c.C.Not(ret), alg.False)
		if len(res) != 1 {
			return
		}
		if !invalid {
			c.must("valid points are not reported as invalid", c.d.nap, alg.False)
		}
		got, null, ok := c.ints(res[0])
		c.Bool("the failing indices are reported", ok && fmt.Sprint(got) == fmt.Sprint(zero), fmt.Sprintf("reported %v, want %v", got, zero))
		c.Bool("no failure is reported as nil", ok && null == (len(zero) == 0), "")
		for i, k := range co {
			f := c.read(t, n, at(i))
			if cls[k].nap != nil {
				if pts[i][j].IsZero() && t.k != cAXTW {
					c.must(fmt.Sprintf("the handler is called for element %d", i), ret, c.d.nap)
				}
				c.isNaP(fmt.Sprintf("element %d", i), t, at(i), ret)
				continue
			}
			c.must(fmt.Sprintf("element %d is the same point", i), ret, c.stands(t, f, c.meaning(t, cls[k].g, ms[i])))
			if t.k == cXTW && !pts[i][j].IsZero() {
				c.must(fmt.Sprintf("element %d is normalised", i), ret, c.d.eq(f[j], c.d.k(1)))
			}
		}
	})
}

// views checks the slice interface: length and elements.
func (r *Run) views(rule string, t ptype, n *types.Named, sl types.Type) {
	const L = 3
	m := func(tt types.Type, name string) *ssa.Function {
		sel := r.P.SSA.MethodSets.MethodSet(tt).Lookup(n.Obj().Pkg(), name)
		if sel == nil {
			return nil
		}
		return r.P.SSA.MethodValue(sel)
	}
	get, ln := m(sl, "GetByIndex"), m(sl, "Len")
	if get == nil || ln == nil {
		r.Ok(rule, "slice of "+t.name, 0, "anchor resolves", false, "GetByIndex or Len not found")
		return
	}
	do := func(fn *ssa.Function, f func(c *crv, s vg.SliceV, at func(i int) vg.Value)) {
		name := shortFn(fn.String())
		r.Go(rule, name, func() {
			c := r.newCrv(rule, name, fn)
			defer c.Done()
			defer c.recover()
			var pts [][]ff.Val
			for i := 0; i < L; i++ {
				pts = append(pts, c.junk(t, fmt.Sprintf("p%d", i)))
			}
			s, at := c.pointSlice(t, n, pts)
			f(c, s, at)
		})
	}
	isLen := func(c *crv, res []vg.Value, ret alg.Bdd) {
		c.quiet(alg.False)
		c.must("returns", c.C.Not(ret), alg.False)
		k, ok := vg.ConstInt(c.It.Force(res[0]))
		c.Bool("the length is that of the slice", ok && k.Int64() == L, c.It.Describe(res[0]))
	}
	isAt := func(c *crv, res []vg.Value, ret alg.Bdd, want vg.Value, i int) {
		c.quiet(alg.False)
		c.must("returns", c.C.Not(ret), alg.False)
		v := c.It.Force(res[0])
		if f, ok := v.(vg.IfaceV); ok {
			v = c.It.Force(f.V)
		}
		c.Bool(fmt.Sprintf("element %d is a pointer into the slice", i), v == want, c.It.Describe(v))
	}
	do(ln, func(c *crv, s vg.SliceV, at func(i int) vg.Value) {
		res, ret := c.It.Call(c.St, ln, []vg.Value{s}, nil)
		isLen(c, res, ret)
	})
	for i := 0; i < L; i++ {
		i := i
		for _, g := range []*ssa.Function{get, m(sl, "GetByIndexTyped")} {
			g := g
			if g == nil {
				continue
			}
			do(g, func(c *crv, s vg.SliceV, at func(i int) vg.Value) {
				res, ret := c.It.Call(c.St, g, []vg.Value{s, vg.KInt(int64(i), 64, true)}, nil)
				isAt(c, res, ret, at(i), i)
			})
		}
	}
}
