package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/ff"
	"verif/vg"
)

func init() {
	register(&Property{ID: "F10", Level: "other", Technique: techFF, F: runF10,
		Note: "Batch operations on field elements: all values of the elements (every pattern of zeros, ones, minus ones and other elements), every aliasing of the receiver with an argument, for every length up to 40 (inversion: all patterns up to length 5, then no zero or a final zero); for selected lengths up to 65 (thorough 257) with up to three special elements (beyond eleven, the other elements are distinct multiples of earlier ones); other longer inputs are not covered."})
}

// batch is one analysed call of a batch operation.
type batch struct {
	*crv
	vals  []ff.Val
	slice vg.Value // backing array of the elements
	arr   vg.PtrV
}

func (b *batch) at(i int) vg.Value {
	return vg.SliceElemPtr(vg.SliceV{Base: b.arr, Len: len(b.vals), Cap: len(b.vals)}, i)
}

func newBatch(c *crv, fe types.Type, vals []ff.Val) *batch {
	b := &batch{crv: c, vals: vals}
	var el []vg.Value
	for _, v := range vals {
		el = append(el, c.d.val(v))
	}
	b.arr = c.It.NewObj(c.St, "elements", types.NewArray(fe, int64(len(vals))), &vg.AggV{E: el})
	b.slice = vg.SliceV{Base: b.arr, Len: len(vals), Cap: len(vals)}
	return b
}

// ptrs makes a slice of pointers to the elements.
func (b *batch) ptrs(fe types.Type, idx []int) vg.Value {
	var el []vg.Value
	for _, i := range idx {
		el = append(el, b.at(i))
	}
	if len(el) == 0 {
		return vg.NilV{}
	}
	p := b.It.NewObj(b.St, "pointers", types.NewArray(types.NewPointer(fe), int64(len(el))), &vg.AggV{E: el})
	return vg.SliceV{Base: p, Len: len(el), Cap: len(el)}
}

func (b *batch) now(i int) *feV { return b.d.load(b.St, b.at(i)) }

// ints reads a slice of integers; ok is false if its length or an element is not determined.
func (e *Env) ints(v vg.Value) (out []int64, null, ok bool) {
	switch s := e.It.Force(v).(type) {
	case vg.NilV:
		return nil, true, true
	case vg.SliceV:
		for i := 0; i < s.Len; i++ {
			k, ok := vg.ConstInt(e.It.Force(e.It.Load(e.St, vg.SliceElemPtr(s, i))))
			if !ok {
				return nil, false, false
			}
			out = append(out, k.Int64())
		}
		return out, false, true
	}
	return nil, false, false
}

// longVar makes the i-th of a list of elements; beyond the number of variables
// they are distinct multiples of earlier ones.
func (c *crv) longVar(i int) ff.Val {
	const n = 11
	if c.vars == nil {
		c.vars = map[int]ff.Val{}
	}
	j := i % n
	v, ok := c.vars[j]
	if !ok {
		v = c.F.OfVar(c.F.Var(fmt.Sprintf("v%d", j)))
		c.vars[j] = v
	}
	if i >= n {
		v = c.F.Scale(v, big.NewInt(int64(i)))
	}
	return v
}

// elemOf makes an element of a class: 0, 1, -1 or any other.
func (c *crv) elemOf(k byte, i int) ff.Val {
	switch k {
	case '0':
		return c.ki(0)
	case '1':
		return c.ki(1)
	case '-':
		return c.ki(-1)
	}
	v := c.longVar(i)
	for _, k := range []int64{0, 1, -1} {
		c.addUnit(c.F.Sub(v, c.ki(k)))
	}
	return v
}

// patterns lists the words of length n over an alphabet.
func patterns(alphabet string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, p := range patterns(alphabet, n-1) {
		for _, a := range alphabet {
			out = append(out, p+string(a))
		}
	}
	return out
}

func upTo(n int) (out []int) {
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	return
}

// everyL lists the lengths up to 40 and the further ones.
func everyL(more []int) []int {
	out := upTo(40)
	for _, l := range more {
		if l > 40 {
			out = append(out, l)
		}
	}
	return out
}

// longL lists lengths around the usual block sizes.
func longL(r *Run) []int {
	if r.Thorough() {
		return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257}
	}
	return []int{16, 17, 32, 33, 65}
}

func runF10(r *Run) {
	const rule = "batch-operations"
	feN, _ := types.Unalias(r.P.Type(fe, feT)).(*types.Named)
	if feN == nil {
		r.Ok(rule, feType, 0, "anchor resolves", false, "type not found")
		return
	}
	maxL := 5
	if r.Thorough() {
		maxL = 6
	}
	// products and sums
	for _, op := range []struct {
		name  string
		slice bool
		unit  int64
		mul   bool
	}{{"MultiplySlice", true, 1, true}, {"MultiplyMany", false, 1, true}, {"SummationSlice", true, 0, false}, {"SummationMany", false, 0, false}} {
		op := op
		fn := r.ptMethod(feN, op.name)
		if fn == nil {
			r.Ok(rule, op.name, 0, "anchor resolves", false, "method not found")
			continue
		}
		for _, L := range everyL(longL(r)) {
			L := L
			r.Go(rule, fmt.Sprintf("%s of %d", op.name, L), func() {
				var idxs [][]int
				id := make([]int, L)
				for i := range id {
					id[i] = i
				}
				idxs = append(idxs, id)
				if !op.slice && L >= 2 && L <= 4 { // repeated operands
					for _, p := range setPartitions(L) {
						idxs = append(idxs, p)
					}
				}
				for _, idx := range idxs {
					for alias := -1; alias < L; alias++ {
						if L > maxL+5 && alias > 1 && alias != L/2 && alias < L-2 {
							continue
						}
						c := r.newCrv(rule, fmt.Sprintf("%s.(*%s).%s of %d elements %v, receiver alias %d", fe, feType, op.name, L, idx, alias), fn)
						func() {
							defer c.Done()
							defer c.recover()
							var vals []ff.Val
							for i := 0; i < L; i++ {
								vals = append(vals, c.longVar(i))
							}
							b := newBatch(c, feN, vals)
							want := c.ki(op.unit)
							for _, i := range idx {
								if op.mul {
									want = c.F.Mul(want, vals[i])
								} else {
									want = c.F.Add(want, vals[i])
								}
							}
							var recv vg.Value
							if alias >= 0 {
								recv = b.at(idx[alias])
							} else {
								recv = c.It.NewObj(c.St, "z", feN, c.d.val(c.F.OfVar(c.F.Var("old"))))
							}
							arg := b.slice
							if !op.slice {
								arg = b.ptrs(feN, idx)
							}
							_, ret := c.It.Call(c.St, fn, []vg.Value{recv, arg}, nil)
							c.noPanic()
							c.must("returns", c.C.Not(ret), alg.False)
							c.must("the receiver holds the product or sum", ret, c.d.eqVal(c.d.load(c.St, recv), want))
							for i := 0; i < L; i++ {
								if alias < 0 || idx[alias] != i {
									c.must(fmt.Sprintf("element %d is not modified", i), ret, c.d.eqVal(b.now(i), vals[i]))
								}
							}
						}()
					}
				}
			})
		}
	}
	// inversion
	for _, op := range []struct {
		name        string
		slice, skip bool
	}{{"MultiInvertEq", false, false}, {"MultiInvertEqSlice", true, false}, {"MultiInvertEqSkipZeros", false, true}, {"MultiInvertEqSliceSkipZeros", true, true}} {
		op := op
		fn := r.Find(rule, fe, op.name)
		if fn == nil {
			continue
		}
		for L := 0; L <= maxL; L++ {
			alphabet := "01-v"
			if L > 3 && !r.Thorough() || L > 4 {
				alphabet = "0v"
			}
			for _, pat := range patterns(alphabet, L) {
				pat := pat
				r.Go(rule, op.name+" "+pat, func() { r.invert(rule, op.name, fn, feN, pat, op.slice, op.skip) })
			}
		}
		// longer inputs with a few special elements
		long := map[string]bool{}
		for L := 6; L <= 40; L++ { // every residue of the length: no special element, or the last one zero
			long[strings.Repeat("v", L)] = true
			long[strings.Repeat("v", L-1)+"0"] = true
		}
		for _, L := range append([]int{7, 8, 9, 12}, longL(r)...) {
			base := []byte(strings.Repeat("v", L))
			put := func(a byte, pos ...int) {
				w := append([]byte{}, base...)
				for _, p := range pos {
					w[p] = a
				}
				long[string(w)] = true
			}
			put('v')
			step := 1
			if L > 12 {
				step = L / 5
			}
			for i := 0; i < L; i += step {
				put('0', i)
				put('1', i)
				put('-', i)
				for j := i + 1; j < L; j += step {
					put('0', i, j)
				}
			}
			for _, a := range []byte("01-") {
				put(a, L-1)
				put(a, L-2, L-1)
				put(a, 0, L-1)
				put(a, 0, 1, L/2)
			}
		}
		var pats []string
		for p := range long {
			pats = append(pats, p)
		}
		sort.Strings(pats)
		for _, pat := range pats {
			pat := pat
			r.Go(rule, op.name+" "+pat, func() { r.invert(rule, op.name, fn, feN, pat, op.slice, op.skip) })
		}
		if !op.skip {
			for _, pat := range []string{strings.Repeat("0", 9) + "v", strings.Repeat("0v", 9), strings.Repeat("0", 10) + "v", strings.Repeat("v0", 11), strings.Repeat("0", 12)} {
				pat := pat
				r.Go(rule, op.name+" "+pat, func() { r.invert(rule, op.name, fn, feN, pat, op.slice, op.skip) })
			}
		}
	}
}

func (r *Run) invert(rule, name string, fn *ssa.Function, feN types.Type, pat string, slice, skip bool) {
	c := r.newCrv(rule, fmt.Sprintf("%s.%s of elements %q (v: not 0, 1, -1)", fe, name, pat), fn)
	c.It.ErrData = map[string][]vg.ChoiceAlt{}
	defer c.Done()
	defer c.recover()
	var vals []ff.Val
	var zeros []int64
	for i := range pat {
		vals = append(vals, c.elemOf(pat[i], i))
		if pat[i] == '0' {
			zeros = append(zeros, int64(i))
		}
	}
	b := newBatch(c, feN, vals)
	arg := b.slice
	if !slice {
		idx := make([]int, len(pat))
		for i := range idx {
			idx[i] = i
		}
		arg = b.ptrs(feN, idx)
	}
	res, ret := c.It.Call(c.St, fn, []vg.Value{arg}, nil)
	c.noPanic()
	c.must("returns", c.C.Not(ret), alg.False)
	if len(res) != 1 {
		return
	}
	same := func(got []int64) bool { return fmt.Sprint(got) == fmt.Sprint(zeros) }
	if skip {
		got, null, ok := c.ints(res[0])
		c.Bool("the indices of zeros are reported", ok && same(got), fmt.Sprintf("reported %v, want %v", got, zeros))
		c.Bool("the list of indices is nil exactly if there is no zero", ok && null == (len(zeros) == 0), "")
	} else {
		isNil := c.NilErr(res[0])
		if len(zeros) == 0 {
			c.must("no error without zeros", ret, isNil)
		} else {
			c.must("zeros are reported as an error", c.C.And(ret, isNil), alg.False)
			c.must("the error wraps ErrDivisionByZero", ret, c.IsErr(res[0], fe, "ErrDivisionByZero"))
			c.errIndices(res[0], same, len(zeros))
		}
	}
	for i, v := range vals {
		want := v
		if skip && !v.IsZero() || !skip && len(zeros) == 0 {
			want = c.F.Inv(v)
		}
		c.must(fmt.Sprintf("element %d is right", i), ret, c.d.eqVal(b.now(i), want))
	}
}

// errIndices checks the data of the error of a multi-inversion.
func (c *crv) errIndices(err vg.Value, same func([]int64) bool, n int) {
	for _, a := range errChains(c.It, err) {
		if a.C == alg.False {
			continue
		}
		site := strings.TrimPrefix(strings.SplitN(strings.TrimPrefix(a.chain, " < "), " < ", 2)[0], "error ")
		data := c.It.ErrData[site]
		if len(data) == 0 {
			c.Bool("the error carries the indices", false, "no data at "+site)
			continue
		}
		for _, d := range data {
			if c.C.And(d.C, a.C) == alg.False {
				continue
			}
			agg, ok := c.It.Force(d.V).(*vg.AggV)
			if !ok || len(agg.E) != 2 {
				c.Bool("the error carries the indices", false, c.It.Describe(d.V))
				continue
			}
			for _, f := range agg.E {
				f = c.It.Force(f)
				if k, ok := vg.ConstInt(f); ok {
					c.Bool("the error carries the number of zeros", k.IsInt64() && k.Int64() == int64(n), "it says "+k.String())
					continue
				}
				got, _, ok := c.ints(f)
				c.Bool("the error carries the indices of the zeros", ok && same(got), fmt.Sprint(got))
			}
		}
	}
}
