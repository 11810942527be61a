package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/maphash"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
)

// X03: the decompositions of exponents into windows denote the exponent.
//
// Integers are linear forms in the bits of the input. The ghost delta is (value of the entries emitted) - (input); bits
// that have been accounted for cancel, so that the loop has finitely many states and is analysed to a fixpoint.

func init() {
	register(&Property{ID: "X03", Level: "other", Technique: techAI, F: runX03,
		Note: "Abstract interpretation over linear forms in the input's bits, path-splitting on single bits, to a fixpoint over bit positions: exact for all inputs of the given length at each window size. Signed windows (128 bits): 1 to 8, 12, 16, 24, 31, 32, 33, 63 (thorough: all from 1 to 63). Unsigned windows, window size/bits of the input: 51/256, 63/256, 32/128, 16/96, 8/80, 4/72, 3/68; thorough also 33, 40, 48, 52, 57, 60, 62/256, 24/160, 8, 12, 16/128, 4, 5, 6/96, 3/80 (small windows have too many states at 256 bits)."})
}

type lterm struct {
	b int // bit of the input
	k *big.Int
}

// lf is the integer c + sum of k*bit.
type lf struct {
	c *big.Int
	t []lterm
	s string
}

func (x *lf) String() string {
	if x.s != "" {
		return x.s
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "L%s", x.c.Text(62))
	for i := 0; i < len(x.t); {
		j := i + 1
		for j < len(x.t) && x.t[j].b == x.t[i].b+(j-i) && new(big.Int).Rsh(x.t[j].k, uint(j-i)).Cmp(x.t[i].k) == 0 && x.t[j].k.TrailingZeroBits() >= uint(j-i) {
			j++
		}
		fmt.Fprintf(&sb, "+%s*%d-%d", x.t[i].k.Text(62), x.t[i].b, x.t[j-1].b)
		i = j
	}
	x.s = sb.String()
	return x.s
}

func lfConst(c *big.Int) *lf { return &lf{c: c} }

// lin is x + k*y.
func (x *lf) lin(y *lf, k *big.Int) *lf {
	z := &lf{c: badd(x.c, bmul(y.c, k))}
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j == len(y.t) || i < len(x.t) && x.t[i].b < y.t[j].b:
			z.t = append(z.t, x.t[i])
			i++
		case i == len(x.t) || y.t[j].b < x.t[i].b:
			if v := bmul(y.t[j].k, k); v.Sign() != 0 {
				z.t = append(z.t, lterm{y.t[j].b, v})
			}
			j++
		default:
			if v := badd(x.t[i].k, bmul(y.t[j].k, k)); v.Sign() != 0 {
				z.t = append(z.t, lterm{x.t[i].b, v})
			}
			i++
			j++
		}
	}
	return z
}

// low is the lowest bit of the input, or binary digit of the constant, that x depends on, -1 if x is zero.
func (x *lf) low() int {
	u := -1
	if x.c.Sign() != 0 {
		u = int(x.c.TrailingZeroBits())
	}
	for _, t := range x.t {
		if u < 0 || t.b < u {
			u = t.b
		}
	}
	return u
}

func (x *lf) minmax() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(x.c), new(big.Int).Set(x.c)
	for _, t := range x.t {
		if t.k.Sign() > 0 {
			hi.Add(hi, t.k)
		} else {
			lo.Add(lo, t.k)
		}
	}
	return
}

// subst applies what has been decided about bits.
func (x *lf) subst(st *ai.State) *lf {
	var y *lf
	if len(st.Assume) == 0 {
		return x
	}
	for i, t := range x.t {
		v, ok := st.Assume[bitAtom(t.b)]
		if !ok {
			if y != nil {
				y.t = append(y.t, t)
			}
			continue
		}
		if y == nil {
			y = &lf{c: new(big.Int).Set(x.c), t: append([]lterm{}, x.t[:i]...)}
		}
		if v {
			y.c.Add(y.c, t.k)
		}
	}
	if y == nil {
		return x
	}
	return y
}

var bitAtoms = func() (a [512]string) {
	for i := range a {
		a[i] = fmt.Sprintf("b.%d", i)
	}
	return
}()

func bitAtom(b int) string { return bitAtoms[b] }

// decide splits on the lowest undecided bit.
func (x *lf) decide(st *ai.State) {
	if len(x.t) > 0 {
		st.Decide(bitAtom(x.t[0].b))
	}
}

// cell is one binary digit: a constant (Bit < 0) or a bit of the input.
type cell struct {
	bit int
	v   bool
}

// cells are the binary digits of a non-negative number whose digits are constants or bits of the input.
func (x *lf) cells(w int) ([]cell, bool) {
	out := make([]cell, w)
	if x.c.Sign() < 0 || x.c.BitLen() > w {
		return nil, false
	}
	for i := range out {
		out[i] = cell{-1, x.c.Bit(i) == 1}
	}
	for _, t := range x.t {
		p := int(t.k.TrailingZeroBits())
		if t.k.Sign() < 0 || t.k.BitLen() != p+1 || p >= w || out[p].bit >= 0 || out[p].v {
			return nil, false
		}
		out[p] = cell{t.b, false}
	}
	return out, true
}

func fromCells(cs []cell) *lf {
	x := &lf{c: new(big.Int)}
	for i, c := range cs {
		if c.bit >= 0 {
			x.t = append(x.t, lterm{c.bit, two(uint(i))})
		} else if c.v {
			x.c.SetBit(x.c, i, 1)
		}
	}
	sort.SliceStable(x.t, func(i, j int) bool { return x.t[i].b < x.t[j].b })
	for i := 1; i < len(x.t); i++ {
		if x.t[i].b == x.t[i-1].b {
			ai.Bail("a bit occurs twice in a word")
		}
	}
	return x
}

// orV is a bitwise or of which only being zero is known.
type orV struct{ xs []*lf }

func (o *orV) String() string { return fmt.Sprint("or", o.xs) }

// folded stands for an entry that has been accounted for.
type folded struct{}

type bitGhost struct {
	delta *lf
	last  int // position of the last entry
	n     int // entries
	edge  int // index of the last entry
	viol  string
	up    *bitState // the loop headers passed
}

type bitState struct {
	k  [2]uint64
	n  int
	up *bitState
}

func (g bitGhost) key() string { return fmt.Sprint(g.delta, " ", g.last, g.n, g.edge, g.viol) }

// bitDom analyses one decomposition.
type bitDom struct {
	r      *Run
	elem   types.Type // of the entries
	pos    int        // fields of an entry
	coeff  int
	sign   int // -1 if there is none
	up     bool
	maxLen int // bits of a coefficient
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func toLF(st *ai.State, v ai.Value) (*lf, bool) {
	switch x := v.(type) {
	case *lf:
		return x.subst(st), true
	case ai.Const:
		if x.V.Kind() == constant.Int {
			c, ok := new(big.Int).SetString(x.V.ExactString(), 10)
			return lfConst(c), ok
		}
	}
	return nil, false
}

// value gives a linear form a type, which it has to fit.
func (d *bitDom) value(x *lf, t types.Type) ai.Value {
	lo, hi := x.minmax()
	n := uint(bitsOf(t))
	if isUnsigned(t) {
		if lo.Sign() < 0 || hi.Cmp(two(n)) >= 0 {
			ai.Bail("arithmetic may wrap around")
		}
	} else if lo.Cmp(new(big.Int).Neg(two(n-1))) < 0 || hi.Cmp(two(n-1)) >= 0 {
		ai.Bail("arithmetic may overflow")
	}
	if len(x.t) == 0 {
		return ai.Wrap(constant.Make(x.c), t)
	}
	return x
}

// allZero decides whether non-negative numbers are all zero; that some bit is set is not remembered beyond the next
// loop header.
func (d *bitDom) allZero(st *ai.State, xs []*lf) bool {
	a, one := "z.", -1
	for _, x := range xs {
		x = x.subst(st)
		if lo, _ := x.minmax(); lo.Sign() != 0 {
			if lo.Sign() < 0 {
				ai.Bail("test of a number that may be negative")
			}
			return false
		}
		for _, t := range x.t {
			a += fmt.Sprintf("%d,", t.b)
			if one == -1 || one == t.b {
				one = t.b
			} else {
				one = -2
			}
		}
	}
	switch {
	case one == -1:
		return true
	case one >= 0:
		return !st.Decide(bitAtom(one))
	case !st.Decide(a):
		return false
	}
	for _, x := range xs {
		for _, t := range x.t {
			st.Assume[bitAtom(t.b)] = false
		}
	}
	return true
}

// cmp compares with zero.
func (d *bitDom) cmp(st *ai.State, x *lf, op token.Token) bool {
	for {
		x = x.subst(st)
		lo, hi := x.minmax()
		same := lo.Cmp(hi) == 0
		s := lo.Sign()
		switch op {
		case token.EQL, token.NEQ:
			ne := s > 0 || hi.Sign() < 0
			if !ne && len(x.t) > 0 {
				g := x.t[0].k.TrailingZeroBits()
				for _, t := range x.t {
					g = min(g, t.k.TrailingZeroBits())
				}
				ne = x.c.Sign() != 0 && x.c.TrailingZeroBits() < g
			}
			if ne || same {
				return (!ne && s == 0) == (op == token.EQL)
			}
			if s == 0 && len(x.t) > 1 {
				return d.allZero(st, []*lf{x}) == (op == token.EQL)
			}
		case token.LSS, token.GEQ:
			if hi.Sign() < 0 || s >= 0 {
				return (hi.Sign() < 0) == (op == token.LSS)
			}
		case token.GTR, token.LEQ:
			if s > 0 || hi.Sign() <= 0 {
				return (s > 0) == (op == token.GTR)
			}
		default:
			ai.Bail("comparison %v", op)
		}
		x.decide(st)
	}
}

func (d *bitDom) install(it *ai.Interp) {
	ours := func(v ai.Value) bool {
		switch v.(type) {
		case *lf, *orV:
			return true
		}
		return false
	}
	it.MaxPaths, it.MaxSteps = 1<<30, 1<<30
	it.GlobalHook = func(it *ai.Interp, g *ssa.Global) (ai.Value, bool) { return d.r.wordGlobal(g, nil, nil) }
	it.EqHook = func(it *ai.Interp, st *ai.State, a, b ai.Value) (bool, bool) {
		for i, v := range []ai.Value{a, b} {
			// an array of words and the zero array
			x, ok := v.(ai.Agg)
			if _, z := entryState([]ai.Value{b, a}[i]); !ok || !z || len(x) == 0 {
				continue
			}
			var xs []*lf
			for _, e := range x {
				y, isI := toLF(st, e)
				ok = ok && isI
				xs = append(xs, y)
			}
			if ok {
				return d.allZero(st, xs), true
			}
		}
		if !ours(a) && !ours(b) {
			return false, false
		}
		x, ok1 := toLF(st, a)
		y, ok2 := toLF(st, b)
		if !ok1 || !ok2 {
			ai.Bail("comparison of %T and %T", a, b)
		}
		return d.cmp(st, x.lin(y, bi(-1)), token.EQL), true
	}
	it.ConvHook = func(it *ai.Interp, st *ai.State, v ai.Value, from, to types.Type) (ai.Value, bool) {
		switch x := v.(type) {
		case *orV:
			if isIntT(to) && bitsOf(to) >= bitsOf(from) {
				return x, true
			}
			ai.Bail("conversion")
		case *lf:
			if !isIntT(to) {
				ai.Bail("conversion")
			}
			y := x.subst(st)
			if cs, ok := y.cells(bitsOf(from)); ok && isUnsigned(to) && bitsOf(to) < bitsOf(from) {
				y = fromCells(cs[:bitsOf(to)])
			}
			return d.value(y, to), true
		}
		return nil, false
	}
	it.BinopHook = func(it *ai.Interp, st *ai.State, op token.Token, a, b ai.Value, t types.Type) (ai.Value, bool) {
		if _, isF := a.(folded); isF {
			ai.Bail("an entry is read again")
		}
		if !ours(a) && !ours(b) {
			return nil, false
		}
		if op == token.OR {
			if _, ok := a.(*orV); !ok {
				a, b = b, a
			}
			if o, ok := a.(*orV); ok {
				if p, ok := b.(*orV); ok {
					return &orV{append(append([]*lf{}, o.xs...), p.xs...)}, true
				}
				if y, ok := toLF(st, b); ok {
					return &orV{append(append([]*lf{}, o.xs...), y)}, true
				}
			}
		}
		for i, v := range []ai.Value{a, b} {
			o := []ai.Value{b, a}[i]
			if _, ok := v.(*orV); ok {
				if c, ok := toLF(st, o); ok && len(c.t) == 0 && c.c.Sign() == 0 && (op == token.EQL || op == token.NEQ) {
					return ai.KBool(d.allZero(st, v.(*orV).xs) == (op == token.EQL)), true
				}
				ai.Bail("use of a bitwise or")
			}
		}
		x, ok1 := toLF(st, a)
		y, ok2 := toLF(st, b)
		if !ok1 || !ok2 {
			ai.Bail("%v of %T and %T", op, a, b)
		}
		w := bitsOf(t)
		digits := func(x *lf) []cell {
			c, ok := x.cells(w)
			if !ok {
				ai.Bail("bit operation on a number that is not made of bits of the input")
			}
			return c
		}
		konst := func(y *lf) int {
			if len(y.t) > 0 || y.c.Sign() < 0 {
				ai.Bail("%v by an unknown amount", op)
			}
			if !y.c.IsInt64() || y.c.Int64() > 1000 {
				return 1000
			}
			return int(y.c.Int64())
		}
		// pow2 is the exponent of a constant power of two
		pow2 := func(y *lf) int {
			p := int(y.c.TrailingZeroBits())
			if len(y.t) > 0 || y.c.Sign() <= 0 || y.c.BitLen() != p+1 {
				ai.Bail("division by something else than a power of two")
			}
			return p
		}
		shift := func(cs []cell, n int) []cell {
			out := make([]cell, w)
			for i := range out {
				out[i] = cell{bit: -1}
				if k := i + n; k >= 0 && k < w {
					out[i] = cs[k]
				}
			}
			return out
		}
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ai.KBool(d.cmp(st, x.lin(y, bi(-1)), op)), true
		case token.ADD:
			return d.value(x.lin(y, bi(1)), t), true
		case token.SUB:
			return d.value(x.lin(y, bi(-1)), t), true
		case token.MUL:
			if len(x.t) > 0 {
				x, y = y, x
			}
			if len(x.t) > 0 {
				ai.Bail("product of unknown numbers")
			}
			return d.value(lfConst(new(big.Int)).lin(y, x.c), t), true
		case token.SHL:
			return d.value(fromCells(shift(digits(x), -konst(y))), t), true
		case token.SHR:
			return d.value(fromCells(shift(digits(x), konst(y))), t), true
		case token.QUO:
			return d.value(fromCells(shift(digits(x), pow2(y))), t), true
		case token.REM:
			p := pow2(y)
			cs := digits(x)
			for i := p; i < w; i++ {
				cs[i] = cell{bit: -1}
			}
			return d.value(fromCells(cs), t), true
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			p, q := digits(x), digits(y)
			out := make([]cell, w)
			for i := range out {
				c, e := p[i], q[i]
				if c.bit < 0 && e.bit >= 0 && op != token.AND_NOT {
					c, e = e, c
				}
				f := cell{bit: -1}
				switch {
				case c.bit < 0 && e.bit < 0:
					switch op {
					case token.AND:
						f.v = c.v && e.v
					case token.OR:
						f.v = c.v || e.v
					case token.XOR:
						f.v = c.v != e.v
					default:
						f.v = c.v && !e.v
					}
				case e.bit < 0 && op == token.AND && e.v, e.bit < 0 && op != token.AND && !e.v:
					f = c
				case e.bit < 0 && op == token.AND, e.bit < 0 && op == token.AND_NOT, c.bit < 0 && op == token.AND_NOT && !c.v:
				case e.bit < 0 && op == token.OR:
					f.v = true
				case c == e && (op == token.AND || op == token.OR):
					f = c
				default:
					if op == token.OR {
						return &orV{[]*lf{x, y}}, true
					}
					ai.Bail("bit operation on two unknown digits")
				}
				out[i] = f
			}
			return d.value(fromCells(out), t), true
		}
		ai.Bail("operation %v", op)
		return nil, true
	}
	it.CallHook = func(it *ai.Interp, st *ai.State, f *ssa.Function, args []ai.Value) (ai.Value, bool) {
		n := ai.Name(f)
		if strings.HasSuffix(n, ".IncrementCallCounter") {
			return ai.Tuple{}, true
		}
		if !strings.HasPrefix(n, "math/bits.") || len(args) != 1 {
			return nil, false
		}
		x, ok := toLF(st, args[0])
		if !ok {
			ai.Bail("%s", n)
		}
		w := bitsOf(f.Signature.Params().At(0).Type())
		set := func(i int) bool {
			cs, ok := x.subst(st).cells(w)
			if !ok {
				ai.Bail("%s of a number that is not made of bits of the input", n)
			}
			if cs[i].bit < 0 {
				return cs[i].v
			}
			return st.Decide(bitAtom(cs[i].bit))
		}
		k := func(n int) (ai.Value, bool) { return ai.KInt(int64(n), types.Typ[types.Int]), true }
		switch {
		case strings.HasPrefix(f.Name(), "TrailingZeros"):
			for i := 0; i < w; i++ {
				if set(i) {
					return k(i)
				}
			}
			return k(w)
		case strings.HasPrefix(f.Name(), "Len"), strings.HasPrefix(f.Name(), "LeadingZeros"):
			i := w
			for i > 0 && !set(i-1) {
				i--
			}
			if strings.HasPrefix(f.Name(), "Len") {
				return k(i)
			}
			return k(w - i)
		}
		ai.Bail("%s", n)
		return nil, true
	}
}

// isEntry: a value of the entry type that is not zero.
func entryState(v ai.Value) (isFolded, isZero bool) {
	if _, ok := v.(folded); ok {
		return true, false
	}
	a, ok := v.(ai.Agg)
	if !ok {
		return false, false
	}
	for _, x := range a {
		c, ok := x.(ai.Const)
		if !ok || c.V.Kind() != constant.Int || constant.Sign(c.V) != 0 {
			return false, false
		}
	}
	return false, true
}

// fold accounts for the entries stored so far.
func (d *bitDom) fold(st *ai.State) bitGhost {
	g := st.Ghost.(bitGhost)
	fail := func(f string, a ...any) {
		if g.viol == "" {
			g.viol = fmt.Sprintf(f, a...)
		}
	}
	g.delta = g.delta.subst(st)
	for id := 1; id <= st.Next(); id++ {
		t := st.ObjType(id)
		if t == nil {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		}
		if !types.Identical(t, d.elem) {
			continue
		}
		es, ok := st.Obj(id).(ai.Agg)
		if !ok {
			continue
		}
		var todo []int
		for i, v := range es {
			if f, z := entryState(v); !f && !z {
				if a, ok := v.(ai.Agg); !ok || len(a) <= max(d.pos, d.coeff, d.sign) {
					todo = nil // a single entry
					break
				}
				todo = append(todo, i)
			}
		}
		if len(todo) == 0 {
			continue
		}
		// variadic argument of an append: a copy is in the list
		if arr, ok := st.ObjType(id).Underlying().(*types.Array); ok && arr.Len() == 1 {
			continue
		}
		n := append(ai.Agg{}, es...)
		if !d.up {
			sort.Sort(sort.Reverse(sort.IntSlice(todo)))
		}
		for _, i := range todo {
			e := es[i].(ai.Agg)
			n[i] = folded{}
			pos, ok := toLF(st, e[d.pos])
			if !ok || len(pos.t) > 0 || !pos.c.IsInt64() {
				ai.Bail("position of an entry is not known")
			}
			co, ok := toLF(st, e[d.coeff])
			if !ok {
				ai.Bail("coefficient of an entry is not known")
			}
			k := two(uint(pos.c.Int64()))
			if d.sign >= 0 {
				s, ok := toLF(st, e[d.sign])
				if !ok || len(s.t) > 0 {
					ai.Bail("sign of an entry is not known")
				}
				if s.c.CmpAbs(bi(1)) > 0 {
					fail("an entry has sign %v", s.c)
				}
				k = bmul(k, s.c)
			}
			lo, hi := co.minmax()
			odd := co.c.Bit(0) == 1
			for _, t := range co.t {
				odd = odd && t.k.Bit(0) == 0
			}
			p := int(pos.c.Int64())
			switch {
			case !odd:
				fail("an entry may be even")
			case lo.Sign() <= 0 || hi.BitLen() > d.maxLen:
				fail("an entry may exceed the window (between %v and %v)", lo, hi)
			case p <= g.last:
				fail("positions are not in order: %d after %d, %v", p, g.last, es)
			case g.delta.low() >= 0 && g.delta.low() < p:
				fail("an entry at position %d, while lower digits are not accounted for: the difference is %v", p, g.delta)
			case g.n > 0 && (d.up && i != g.edge+1 || !d.up && i != g.edge-1):
				fail("entries are not stored next to each other")
			}
			g.delta = g.delta.lin(co, k)
			g.last, g.edge = p, i
			g.n++
		}
		st.SetObj(id, n)
	}
	g.delta = g.delta.subst(st)
	return g
}

// run analyses fn for one window size; it returns a violation and the number of states.
func (d *bitDom) run(fn *ssa.Function, args func(st *ai.State) ([]ai.Value, *lf), elems func(st *ai.State, v ai.Value) []ai.Value) (string, int, *ai.Interp) {
	it := ai.New(d.r.P)
	d.install(it)
	keys := map[[2]uint64]bool{}
	seed1, seed2 := maphash.MakeSeed(), maphash.MakeSeed()
	viol := ""
	it.Header = func(st *ai.State) bool {
		g := d.fold(st)
		if g.viol != "" {
			_, pos := st.Where()
			viol = g.viol + " at " + d.r.P.Rel(pos)
		}
		if viol != "" {
			return false
		}
		u := g.delta.low()
		if u < 0 {
			u = g.last + 1
		}
		g.last = max(g.last, u-1)
		// digits found to be zero all at once are known to be zero for good; other digits below u are read anew, as
		// unknowns, if they are read again
		gone := map[int]bool{}
		for a, v := range st.Assume {
			if bs, ok := strings.CutPrefix(a, "z."); ok && v {
				for _, f := range strings.Split(bs, ",") {
					if b, err := strconv.Atoi(f); err == nil {
						gone[b] = true
					}
				}
			}
		}
		st.MapValues(func(v ai.Value) ai.Value {
			if x, ok := v.(*lf); ok {
				y := x
				if len(x.t) == 1 {
					y = x.subst(st)
				} else if len(gone) > 0 {
					y = &lf{c: x.c}
					for _, t := range x.t {
						if !gone[t.b] {
							y.t = append(y.t, t)
						}
					}
				}
				if len(y.t) == 0 {
					return ai.Const{V: constant.Make(y.c), T: types.Typ[types.Uint64]}
				}
				return y
			}
			return v
		})
		for a := range st.Assume {
			b, err := strconv.Atoi(strings.TrimPrefix(a, "b."))
			if err == nil && b < u || strings.HasPrefix(a, "z.") {
				delete(st.Assume, a)
			}
		}
		st.Ghost = g
		ks := it.Canon(st, nil) + g.key()
		k := [2]uint64{maphash.String(seed1, ks), maphash.String(seed2, ks)}
		if keys[k] {
			// depth-first exploration meets every cycle as a state that repeats one before it on its own path
			for a := g.up; a != nil && viol == ""; a = a.up {
				if a.k == k {
					_, pos := st.Where()
					viol = "a loop may not terminate, at " + d.r.P.Rel(pos)
				}
			}
			return false
		}
		up := &bitState{k, 1, g.up}
		if g.up != nil {
			up.n = g.up.n + 1
		}
		if up.n > 4000 {
			ai.Bail("more than 4000 loop iterations")
		}
		g.up = up
		st.Ghost = g
		keys[k] = true
		if len(keys) > 2000000 {
			ai.Bail("too many states")
		}
		return true
	}
	st := it.Base.Clone()
	as, in := args(st)
	st.Ghost = bitGhost{delta: lfConst(new(big.Int)).lin(in, bi(-1)), last: -1}
	for _, o := range it.RunFrom(st, fn, nil, nil, as) {
		if viol != "" {
			break
		}
		if o.Panic != nil {
			viol = o.Describe() + " at " + d.r.P.Rel(o.Pos)
			break
		}
		g := d.fold(o.St)
		n := 0
		for _, v := range elems(o.St, o.Ret[0]) {
			if f, _ := entryState(v); f {
				n++
			} else {
				g.viol = "the result has an entry that was never filled in"
			}
		}
		switch {
		case g.viol != "":
		case n != g.n:
			g.viol = fmt.Sprintf("%d entries are stored, %d are returned", g.n, n)
		case len(g.delta.t) > 0 || g.delta.c.Sign() != 0:
			g.viol = fmt.Sprintf("the entries do not add up to the input: the difference is %v", g.delta)
		}
		if g.viol != "" {
			viol = g.viol + ", at " + d.r.P.Rel(o.Pos)
		}
	}
	return viol, len(keys), it
}

// fields finds the fields of an entry.
func (d *bitDom) fields(t types.Type) bool {
	d.elem, d.pos, d.coeff, d.sign = t, -1, -1, -1
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n := strings.ToLower(s.Field(i).Name())
		switch {
		case strings.HasPrefix(n, "pos"):
			d.pos = i
		case strings.HasPrefix(n, "sign"):
			d.sign = i
		default:
			d.coeff = i
		}
	}
	return d.pos >= 0 && d.coeff >= 0
}

func wordsLF(bits int) ai.Agg {
	var a ai.Agg
	for i := 0; i < bits; i += 64 {
		x := &lf{c: new(big.Int)}
		for k := 0; k < 64 && i+k < bits; k++ {
			x.t = append(x.t, lterm{i + k, two(uint(k))})
		}
		a = append(a, x)
	}
	return a
}

func inputLF(bits int, sign int64) *lf {
	x := &lf{c: new(big.Int)}
	for k := 0; k < bits && sign != 0; k++ {
		x.t = append(x.t, lterm{k, bmul(two(uint(k)), bi(sign))})
	}
	return x
}

func runX03(r *Run) {
	elems := func(st *ai.State, v ai.Value) []ai.Value {
		switch x := v.(type) {
		case ai.Slice:
			return st.Elems(x)
		case ai.Nil:
			return nil
		}
		ai.Bail("result is %T", v)
		return nil
	}
	resElem := func(fn *ssa.Function) types.Type {
		if s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
		return types.Typ[types.Int]
	}
	const name = "Uint256.SlidingWindowDecomposition"
	// window size and number of bits of the input: two short entries in one word need a small window, and the number of
	// states grows with the number of entries
	type job struct{ w, bits int }
	jobs := []job{{51, 256}, {63, 256}, {32, 128}, {16, 96}, {8, 80}, {4, 72}, {3, 68}}
	signedSizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31, 32, 33, 63}
	if r.Thorough() {
		jobs = append(jobs, []job{{8, 128}, {12, 128}, {16, 128}, {24, 160}, {3, 80}, {4, 96}, {5, 96}, {6, 96}, {33, 256}, {40, 256}, {48, 256}, {52, 256}, {57, 256}, {60, 256}, {62, 256}}...)
		signedSizes = nil
		for i := 1; i < 64; i++ {
			signedSizes = append(signedSizes, i)
		}
	}
	for _, j := range jobs {
		w, bits := j.w, j.bits
		what := fmt.Sprintf("%s.%s [window %d, %d bits]", fe, name, w, bits)
		r.aiGo("X03.unsigned", what, func() {
			fn := r.need(fe, name)
			d := &bitDom{r: r, maxLen: w}
			if !d.fields(resElem(fn)) {
				ai.Bail("fields of an entry not found")
			}
			viol, n, it := d.run(fn, func(st *ai.State) ([]ai.Value, *lf) {
				t := fn.Params[0].Type().(*types.Pointer).Elem()
				v := append(ai.Agg{}, ai.Zero(t).(ai.Agg)...)
				copy(v, wordsLF(bits))
				return []ai.Value{st.Alloc(t, v), ai.KInt(int64(w), fn.Params[1].Type())}, inputLF(bits, 1)
			}, elems)
			r.Ok("X03.unsigned", what, fn.Pos(), "odd entries below 2^window at decreasing positions add up to the number, for every number", viol == "", viol)
			r.Count("states of the decomposition loops", n)
			r.noteVisited(it)
		})
	}
	for _, w := range []int64{0, 64, 65, 255} {
		w := w
		what := fmt.Sprintf("%s.%s [window %d]", fe, name, w)
		r.aiGo("X03.refuse", what, func() {
			fn := r.need(fe, name)
			it := ai.New(r.P)
			(&bitDom{r: r}).install(it)
			it.MaxSteps, it.MaxPaths = 20000, 1000
			st := it.Base.Clone()
			t := fn.Params[0].Type().(*types.Pointer).Elem()
			bad := ""
			for _, o := range it.RunFrom(st, fn, nil, nil, []ai.Value{st.Alloc(t, wordsLF(256)), ai.KInt(w, fn.Params[1].Type())}) {
				if o.Panic == nil {
					bad = "returns"
				}
			}
			r.Ok("X03.refuse", what, fn.Pos(), "window sizes that are not between 0 and 64 are refused", bad == "", bad)
		})
	}
	const sname = "decomposeUnalignedSignedAdic"
	if fn := r.P.Func("bandersnatch/exponents", sname); fn != nil {
		for _, w := range signedSizes {
			for _, sign := range []int64{1, -1, 0} {
				w, sign := w, sign
				what := fmt.Sprintf("bandersnatch/exponents.%s [window %d, sign %+d]", sname, w, sign)
				r.aiGo("X03.signed", what, func() {
					d := &bitDom{r: r, maxLen: w, up: true}
					if !d.fields(resElem(fn)) || d.sign < 0 {
						ai.Bail("fields of an entry not found")
					}
					viol, n, it := d.run(fn, func(st *ai.State) ([]ai.Value, *lf) {
						t := fn.Params[0].Type()
						s, ok := t.Underlying().(*types.Struct)
						if !ok {
							ai.Bail("input is not a struct")
						}
						v := append(ai.Agg{}, ai.Zero(t).(ai.Agg)...)
						for i := 0; i < s.NumFields(); i++ {
							switch u := s.Field(i).Type().Underlying().(type) {
							case *types.Array:
								if sign != 0 {
									v[i] = wordsLF(64 * int(u.Len()))
								}
							case *types.Basic:
								v[i] = ai.KInt(sign, s.Field(i).Type())
							}
						}
						return []ai.Value{v, ai.KInt(int64(w), fn.Params[1].Type())}, inputLF(128, sign)
					}, elems)
					r.Ok("X03.signed", what, fn.Pos(), "odd entries of at most the window's bits at increasing positions add up to the number, for every number", viol == "", viol)
					r.Count("states of the decomposition loops", n)
					r.noteVisited(it)
				})
			}
		}
	}
	r.Wait()
}
