package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	mbits "math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/vg"
)

// F11: the Legendre symbol and exponentiation are exact for all inputs, and the loops terminate.
//
// Numbers are opaque tokens; a loop is analysed by a fixpoint over what is known about them.

func init() {
	register(&Property{ID: "F11", Level: "other", Technique: techAI, F: f11,
		Note: "Legendre symbol: abstract interpretation of the loop with a ghost pair (A,B) and sign such that symbol = sign*J(A/B), updated by the laws of the Jacobi symbol (factors of two, reciprocity, subtraction), to a fixpoint over low bits and zero facts. Exponentiation: powers of the base with exponents linear in a prefix of the exponent, to a fixpoint over bit positions. Multi-limb operations used in the loops (comparison, shift, subtraction, Montgomery products) enter through the contracts of F01 and F03; multiplication by an unreduced base is proved here"})
}

// ---- machine words of opaque numbers

// lw is the limb I of token T, shifted right by Sh.
type lw struct{ T, I, Sh int }

// kb is an integer of which the bits in Mask are known.
type kb struct {
	Mask, Val uint64
	T         types.Type
}

// orl is the OR of limbs (a bit set) of a token.
type orl struct {
	T  int
	Is uint
}

// numDom is what the word-level hooks need to know about tokens.
type numDom interface {
	bit(st *ai.State, t, pos int) bool
	zeroLimbs(st *ai.State, t int, set uint) bool
	equal(st *ai.State, a ai.Agg, b ai.Agg) bool
}

func wordConst(v ai.Value) (uint64, bool) {
	if c, ok := v.(ai.Const); ok && c.V.Kind() == constant.Int {
		if u, ok := constant.Uint64Val(c.V); ok {
			return u, true
		}
		if i, ok := constant.Int64Val(c.V); ok {
			return uint64(i), true
		}
	}
	return 0, false
}

func bitsOf(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}

// mkKb makes an integer value of known bits.
func mkKb(mask, val uint64, t types.Type) ai.Value {
	full := ^uint64(0) >> (64 - bitsOf(t))
	mask &= full
	val &= mask
	if mask == full {
		return ai.Wrap(constant.MakeUint64(val), t)
	}
	return kb{mask, val, t}
}

func isAggOfWords(v ai.Value) (ai.Agg, bool) {
	a, ok := v.(ai.Agg)
	if !ok || len(a) != 4 {
		return nil, false
	}
	for _, x := range a {
		if _, ok := x.(lw); ok {
			continue
		}
		if _, ok := wordConst(x); !ok {
			return nil, false
		}
	}
	return a, true
}

// installWords installs the hooks of a domain.
func installWords(it *ai.Interp, d numDom) {
	low := func(st *ai.State, w lw, mask uint64) (uint64, uint64) {
		var val, got uint64
		for k := 0; k < 64; k++ {
			if mask>>k&1 == 0 {
				continue
			}
			got |= 1 << k
			if k+w.Sh < 64 && d.bit(st, w.T, w.I*64+k+w.Sh) {
				val |= 1 << k
			}
		}
		return got, val
	}
	word := func(st *ai.State, v ai.Value, mask uint64) (uint64, uint64, bool) {
		switch x := v.(type) {
		case kb:
			return x.Mask, x.Val, true
		case lw:
			m, val := low(st, x, mask)
			return m, val, true
		}
		if c, ok := wordConst(v); ok {
			return ^uint64(0), c, true
		}
		return 0, 0, false
	}
	ours := func(v ai.Value) bool {
		switch v.(type) {
		case lw, kb, orl:
			return true
		}
		return false
	}
	it.ConvHook = func(it *ai.Interp, st *ai.State, v ai.Value, from, to types.Type) (ai.Value, bool) {
		switch x := v.(type) {
		case lw:
			if bitsOf(to) == 64 {
				if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if b.Info()&types.IsUnsigned != 0 {
						return x, true
					}
					m, val := low(st, x, 7)
					return mkKb(m, val, to), true
				}
			}
			m, val := low(st, x, 7)
			return mkKb(m, val, to), true
		case kb:
			if bitsOf(to) > bitsOf(from) {
				ai.Bail("widening of a partly known integer")
			}
			return mkKb(x.Mask, x.Val, to), true
		}
		return nil, false
	}
	it.BinopHook = func(it *ai.Interp, st *ai.State, op token.Token, a, b ai.Value, t types.Type) (ai.Value, bool) {
		if x, ok := isAggOfWords(a); ok {
			if y, ok := isAggOfWords(b); ok && (op == token.EQL || op == token.NEQ) {
				return ai.KBool(d.equal(st, x, y) == (op == token.EQL)), true
			}
		}
		if !ours(a) && !ours(b) {
			return nil, false
		}
		if op == token.OR {
			as := func(v ai.Value) (orl, bool) {
				switch x := v.(type) {
				case orl:
					return x, true
				case lw:
					if x.Sh == 0 {
						return orl{x.T, 1 << x.I}, true
					}
				}
				return orl{}, false
			}
			if x, ok := as(a); ok {
				if y, ok := as(b); ok && x.T == y.T {
					return orl{x.T, x.Is | y.Is}, true
				}
				if c, ok := wordConst(b); ok && c == 0 {
					return a, true
				}
			}
		}
		if op == token.EQL || op == token.NEQ {
			if ours(b) && !ours(a) {
				a, b = b, a
			}
			c, isC := wordConst(b)
			res := func(eq bool) (ai.Value, bool) { return ai.KBool(eq == (op == token.EQL)), true }
			switch x := a.(type) {
			case orl:
				if isC && c == 0 {
					return res(d.zeroLimbs(st, x.T, x.Is))
				}
			case lw:
				if isC && c == 0 && x.Sh == 0 {
					return res(d.zeroLimbs(st, x.T, 1<<x.I))
				}
				if y, ok := b.(lw); ok && x == y {
					return res(true)
				}
			case kb:
				if isC && c&x.Mask != x.Val {
					return res(false)
				}
				if y, ok := b.(kb); ok && (x.Val^y.Val)&(x.Mask&y.Mask) != 0 {
					return res(false)
				}
			}
			ai.Bail("comparison of words of unknown numbers")
		}
		switch op {
		case token.SHL, token.SHR:
			k, ok := wordConst(b)
			if !ok {
				ai.Bail("shift by an unknown amount")
			}
			if k >= 64 {
				return mkKb(^uint64(0), 0, t), true
			}
			if x, ok := a.(lw); ok && op == token.SHR {
				return lw{x.T, x.I, x.Sh + int(k)}, true
			}
			m, v, ok := word(st, a, 7)
			if !ok {
				break
			}
			if op == token.SHL {
				return mkKb(m<<k|(1<<k-1), v<<k, t), true
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				return mkKb(m>>k&^(^uint64(0)<<(64-k)), v>>k, t), true // the sign is unknown
			}
			n := bitsOf(t)
			return mkKb(m>>k|^(^uint64(0)>>(64-n)>>k), v>>k, t), true
		case token.AND, token.AND_NOT, token.XOR, token.OR:
			need := uint64(3)
			if op == token.AND || op == token.AND_NOT {
				// only the bits that the other operand lets through
				for _, v := range []ai.Value{a, b} {
					if m, val, ok := constBits(v); ok {
						if op == token.AND_NOT {
							val = ^val & m
						}
						thru := ^m | val
						if mbits.OnesCount64(thru) <= 8 {
							need = thru
						}
					}
				}
			}
			m, v, ok := word(st, a, need)
			n, w, ok2 := word(st, b, need)
			if !ok || !ok2 {
				break
			}
			if op == token.AND_NOT {
				w = ^w & n
			}
			switch op {
			case token.AND, token.AND_NOT:
				zero := m&^v | n&^w
				return mkKb(m&n|zero, v&w, t), true
			case token.OR:
				return mkKb(m&n|v|w, v|w, t), true
			}
			return mkKb(m&n, v^w, t), true
		case token.ADD, token.SUB, token.MUL:
			m, v, ok := word(st, a, 7)
			n, w, ok2 := word(st, b, 7)
			if !ok || !ok2 {
				break
			}
			k := mbits.TrailingZeros64(^(m & n))
			mask := uint64(1)<<k - 1
			if k == 64 {
				mask = ^uint64(0)
			}
			switch op {
			case token.ADD:
				v += w
			case token.SUB:
				v -= w
			default:
				v *= w
			}
			return mkKb(mask, v&mask, t), true
		}
		ai.Bail("operation %s on words of unknown numbers", op)
		return nil, false
	}
	it.EqHook = func(it *ai.Interp, st *ai.State, a, b ai.Value) (bool, bool) {
		x, ok := isAggOfWords(a)
		y, ok2 := isAggOfWords(b)
		if ok && ok2 {
			return d.equal(st, x, y), true
		}
		return false, false
	}
}

func constBits(v ai.Value) (mask, val uint64, ok bool) {
	switch x := v.(type) {
	case kb:
		return x.Mask, x.Val, true
	}
	c, ok := wordConst(v)
	return ^uint64(0), c, ok
}

func aggBig(a ai.Agg) (*big.Int, bool) {
	z := new(big.Int)
	for i := len(a) - 1; i >= 0; i-- {
		c, ok := wordConst(a[i])
		if !ok {
			return nil, false
		}
		z.Lsh(z, 64).Or(z, new(big.Int).SetUint64(c))
	}
	return z, true
}

// tokOf is the token of which an aggregate holds all limbs in order.
func tokOf(a ai.Agg) (int, bool) {
	t := 0
	for i, v := range a {
		w, ok := v.(lw)
		if !ok || w.I != i || w.Sh != 0 || i > 0 && w.T != t {
			return 0, false
		}
		t = w.T
	}
	return t, true
}

func limbs(t int) ai.Agg {
	return ai.Agg{lw{t, 0, 0}, lw{t, 1, 0}, lw{t, 2, 0}, lw{t, 3, 0}}
}

// ---- the Jacobi symbol

type jInfo struct {
	mask, val  uint64 // known bits of the low limb
	zl         uint   // limbs known to be zero
	nz, notOne bool
	c          *big.Int // the value
}

func (i jInfo) zero() bool { return i.zl == 15 }
func (i jInfo) odd() bool  { return i.mask&1 != 0 && i.val&1 != 0 }
func (i jInfo) one() bool  { return i.c != nil && i.c.Cmp(big.NewInt(1)) == 0 }

func jConst(c *big.Int) jInfo {
	lo := new(big.Int).And(c, new(big.Int).SetUint64(^uint64(0))).Uint64()
	inf := jInfo{mask: ^uint64(0), val: lo, nz: c.Sign() != 0, notOne: c.Cmp(big.NewInt(1)) != 0, c: c}
	for i := 0; i < 4; i++ {
		l := new(big.Int).Rsh(c, uint(64*i))
		if l.And(l, new(big.Int).SetUint64(^uint64(0))).Sign() == 0 {
			inf.zl |= 1 << i
		}
	}
	return inf
}

// jGhost: the symbol to compute is (-1)^neg * J(A/B).
type jGhost struct {
	A, B, next int
	neg        bool
	info       map[int]jInfo
	ord        map[[2]int]int
	prog       int // steps that decrease A+B
	shifted    bool
	node, took int
}

func (g jGhost) set(t int, f func(*jInfo)) jGhost {
	m := make(map[int]jInfo, len(g.info)+1)
	for k, v := range g.info {
		m[k] = v
	}
	i := m[t]
	f(&i)
	m[t] = i
	g.info = m
	return g
}

func (g jGhost) setOrd(a, b, o int) jGhost {
	m := make(map[[2]int]int, len(g.ord)+2)
	for k, v := range g.ord {
		m[k] = v
	}
	m[[2]int{a, b}], m[[2]int{b, a}] = o, -o
	g.ord = m
	return g
}

type jDom struct{}

func jg(st *ai.State) jGhost { return st.Ghost.(jGhost) }

const jDead = -1

func (jDom) bit(st *ai.State, t, pos int) bool {
	if t == jDead {
		ai.Bail("use of a number from an earlier iteration")
	}
	g := jg(st)
	if pos >= 64 {
		return st.Decide(fmt.Sprintf("bit<%d>.%d", t, pos))
	}
	i := g.info[t]
	if i.mask>>pos&1 == 0 {
		b := i.zl&1 == 0 && st.Decide(fmt.Sprintf("bit<%d>.%d", t, pos))
		st.Ghost = g.set(t, func(i *jInfo) {
			i.mask |= 1 << pos
			if b {
				i.val |= 1 << pos
				i.nz = true
				i.zl &^= 1
				if pos > 0 {
					i.notOne = true
				}
			} else if pos == 0 {
				i.notOne = true
			}
			if i.mask == ^uint64(0) && i.val == 0 {
				i.zl |= 1
			}
		})
		return b
	}
	return i.val>>pos&1 == 1
}

func (jDom) zeroLimbs(st *ai.State, t int, set uint) bool {
	if t == jDead {
		ai.Bail("use of a number from an earlier iteration")
	}
	g := jg(st)
	i := g.info[t]
	set &^= i.zl
	if set == 0 {
		return true
	}
	if i.val != 0 && set&1 != 0 {
		return false
	}
	if set|i.zl == 15 && i.nz {
		return false
	}
	z := st.Decide(fmt.Sprintf("zero<%d>.%d", t, set))
	st.Ghost = g.set(t, func(i *jInfo) {
		if z {
			i.zl |= set
			if set&1 != 0 {
				i.mask, i.val = ^uint64(0), 0
			}
			if i.zl == 15 {
				i.notOne = true
			}
		} else {
			i.nz = true
		}
	})
	return z
}

func (d jDom) tok(st *ai.State, a ai.Agg) (int, jInfo) {
	if c, ok := aggBig(a); ok {
		return 0, jConst(c)
	}
	t, ok := tokOf(a)
	if !ok {
		ai.Bail("a number made of words of different numbers")
	}
	if t == jDead {
		ai.Bail("use of a number from an earlier iteration")
	}
	return t, jg(st).info[t]
}

func (d jDom) equal(st *ai.State, a, b ai.Agg) bool {
	t, i := d.tok(st, a)
	u, j := d.tok(st, b)
	if t == 0 {
		t, i, u, j = u, j, t, i
	}
	switch {
	case t == u && t != 0:
		return true
	case i.c != nil && j.c != nil:
		return i.c.Cmp(j.c) == 0
	case u == 0:
		if i.zero() {
			return j.c.Sign() == 0
		}
		if (i.val^j.val)&(i.mask&j.mask) != 0 || j.c.Sign() == 0 && i.nz || j.c.Cmp(big.NewInt(1)) == 0 && i.notOne {
			return false
		}
		eq := st.Decide(fmt.Sprintf("tok<%d>=%s", t, j.c))
		st.Ghost = jg(st).set(t, func(i *jInfo) {
			if eq {
				*i = j
				return
			}
			if j.c.Sign() == 0 {
				i.nz = true
			}
			if j.c.Cmp(big.NewInt(1)) == 0 {
				i.notOne = true
			}
		})
		return eq
	}
	return d.cmp(st, t, u) == 0
}

func (d jDom) cmp(st *ai.State, t, u int) int {
	if t == u {
		return 0
	}
	g := jg(st)
	if o, ok := g.ord[[2]int{t, u}]; ok && o != 9 {
		return o
	}
	lo, hi := min(t, u), max(t, u)
	o := 1
	if st.Decide(fmt.Sprintf("lt<%d,%d>", lo, hi)) {
		o = -1
	} else if st.Decide(fmt.Sprintf("eq<%d,%d>", lo, hi)) {
		o = 0
	}
	st.Ghost = jg(st).setOrd(lo, hi, o)
	if t != lo {
		o = -o
	}
	return o
}

// fresh makes a token with the given knowledge.
func (d jDom) fresh(st *ai.State, i jInfo) int {
	g := jg(st)
	t := g.next
	g.next++
	g = g.set(t, func(j *jInfo) { *j = i })
	st.Ghost = g
	return t
}

// reload gives the token of the number an object holds; constants get a token of their own.
func (d jDom) reload(st *ai.State, p ai.Ptr) (int, jInfo) {
	a, ok := isAggOfWords(st.Load(p))
	if !ok {
		ai.Bail("operand is not a number")
	}
	t, i := d.tok(st, a)
	if t == 0 {
		t = d.fresh(st, i)
	}
	return t, i
}

func (d jDom) shift(st *ai.State, p ai.Ptr, k int) {
	t, _ := d.reload(st, p)
	if k == 0 {
		return
	}
	g := jg(st)
	i := g.info[t]
	if k > 64 {
		ai.Bail("shift by more than a limb")
	}
	if i.mask&(^uint64(0)>>(64-k)) != ^uint64(0)>>(64-k) || i.val&(^uint64(0)>>(64-k)) != 0 {
		if t == g.A || t == g.B {
			ai.Bail("the shifted number is not known to be divisible by 2^%d", k)
		}
	}
	neg := false
	if t == g.A {
		if !g.info[g.B].odd() {
			ai.Bail("the lower number is not known to be odd")
		}
		b1, b2 := d.bit(st, g.B, 1), d.bit(st, g.B, 2)
		neg = k%2 == 1 && b1 != b2
	}
	n := jInfo{nz: false}
	if i.zl == 15 {
		n = jConst(new(big.Int))
	} else if k < 64 {
		n.mask, n.val, n.zl = i.mask>>k, i.val>>k, i.zl&8
		n.nz = i.nz && t == g.A
	} else {
		n.zl = i.zl>>1 | 8
		n.nz = i.nz && t == g.A
	}
	if n.val != 0 {
		n.nz = true
	}
	if i.zl != 15 && n.val > 1 {
		n.notOne = true
	}
	u := d.fresh(st, n)
	g = jg(st)
	if t == g.A {
		g.A = u
		g.neg = g.neg != neg
		g.shifted = true
	}
	st.Ghost = g
	st.Store(p, limbs(u))
}

func (d jDom) sub(st *ai.State, z, x, y ai.Ptr) {
	t, _ := d.reload(st, x)
	u, _ := d.reload(st, y)
	g := jg(st)
	o := d.cmp(st, t, u)
	if o < 0 {
		ai.Bail("subtraction may be negative")
	}
	neg, A, B := g.neg, g.A, g.B
	track := false
	switch {
	case t == A && u == B:
		track = true
	case t == B && u == A:
		if !g.info[A].odd() || !g.info[B].odd() {
			ai.Bail("reciprocity for numbers not known to be odd")
		}
		a1, b1 := d.bit(st, A, 1), d.bit(st, B, 1)
		neg = neg != (a1 && b1)
		A, B, track = B, A, true
	}
	g = jg(st)
	i, j := g.info[t], g.info[u]
	n := jInfo{}
	k := mbits.TrailingZeros64(^(i.mask & j.mask))
	mask := uint64(1)<<k - 1
	if k == 64 {
		mask = ^uint64(0)
	}
	n.mask, n.val = mask, (i.val-j.val)&mask
	n.nz = o > 0
	if o == 0 {
		n = jConst(new(big.Int))
	}
	if n.mask&1 == 1 && n.val&1 == 0 {
		n.notOne = true
	}
	v := d.fresh(st, n)
	g = jg(st)
	if track {
		if g.info[B].odd() || g.info[B].nz {
			g.prog++
		}
		g.A, g.B, g.neg = v, B, neg
		g.shifted = false
	}
	st.Ghost = g
	st.Store(z, limbs(v))
}

func (r *Run) f11Jacobi(fn *ssa.Function, conv func(*ai.State) ai.Value) (viol string, nodes int, it *ai.Interp) {
	it = ai.New(r.P)
	it.MaxPaths = 150000
	d := jDom{}
	installWords(it, d)
	it.GlobalHook = func(it *ai.Interp, g *ssa.Global) (ai.Value, bool) { return r.wordGlobal(g, limbs(2), Pbase) }
	it.CallHook = func(it *ai.Interp, st *ai.State, f *ssa.Function, args []ai.Value) (ai.Value, bool) {
		n := ai.Name(f)
		if strings.HasSuffix(n, ".IncrementCallCounter") {
			return ai.Tuple{}, true
		}
		if n == "math/bits.TrailingZeros64" {
			if w, ok := args[0].(lw); ok && w.I == 0 && w.Sh == 0 {
				for k := 0; k < 64; k++ {
					if d.bit(st, w.T, k) {
						return ai.KInt(int64(k), types.Typ[types.Int]), true
					}
				}
				return ai.KInt(64, types.Typ[types.Int]), true
			}
		}
		if !strings.HasPrefix(n, "(*"+load256+").") {
			return nil, false
		}
		ptr := func(i int) ai.Ptr {
			p, ok := args[i].(ai.Ptr)
			if !ok {
				ai.Bail("operand is not a pointer")
			}
			return p
		}
		switch f.Name() {
		case "ShiftRightEq":
			k, ok := wordConst(args[1])
			if !ok {
				ai.Bail("shift by an unknown amount")
			}
			d.shift(st, ptr(0), int(k))
			return ai.Tuple{}, true
		case "ShiftRightEq_64":
			if f.Signature.Results().Len() == 0 {
				d.shift(st, ptr(0), 64)
				return ai.Tuple{}, true
			}
		case "Cmp":
			t, _ := d.reload(st, ptr(0))
			u, _ := d.reload(st, ptr(1))
			return ai.KInt(int64(d.cmp(st, t, u)), types.Typ[types.Int]), true
		case "IsLessThan":
			t, _ := d.reload(st, ptr(0))
			u, _ := d.reload(st, ptr(1))
			return ai.KBool(d.cmp(st, t, u) < 0), true
		case "Sub":
			d.sub(st, ptr(0), ptr(1), ptr(2))
			return ai.Tuple{}, true
		}
		return nil, false
	}
	keys := map[string]int{}
	edges := map[int]map[int]bool{}
	it.Header = func(st *ai.State) bool {
		g := jg(st)
		prog := g.prog
		if g.shifted && (g.info[g.A].nz || g.info[g.A].odd()) {
			prog++
		}
		ren := map[int]int{g.A: 1, g.B: 2}
		st.MapValues(func(v ai.Value) ai.Value {
			switch x := v.(type) {
			case lw:
				n, ok := ren[x.T]
				if !ok {
					n = jDead
				}
				return lw{n, x.I, x.Sh}
			case orl:
				n, ok := ren[x.T]
				if !ok {
					n = jDead
				}
				return orl{n, x.Is}
			case kb:
				return mkKb(x.Mask&3, x.Val&3, x.T)
			}
			return v
		})
		st.Assume = map[string]bool{}
		n := jGhost{A: 1, B: 2, next: 3, neg: g.neg, info: map[int]jInfo{}}
		for o, t := range ren {
			i := g.info[o]
			i.mask, i.val, i.c = i.mask&1, i.val&1, nil
			n.info[t] = i
		}
		if o, ok := g.ord[[2]int{g.A, g.B}]; ok && o != 9 {
			n = n.setOrd(1, 2, o)
		}
		k := it.Canon(st, nil) + fmt.Sprint("|", n.neg, n.info[1], n.info[2], n.ord[[2]int{1, 2}], len(n.ord))
		id, old := keys[k]
		if !old {
			id = len(keys) + 1
			keys[k] = id
		}
		if g.node != 0 && prog == 0 {
			if edges[g.node] == nil {
				edges[g.node] = map[int]bool{}
			}
			edges[g.node][id] = true
		}
		n.node = id
		st.Ghost = n
		return !old
	}
	st := it.Base.Clone()
	st.Ghost = jGhost{A: 1, B: 2, next: 3, info: map[int]jInfo{1: {}, 2: jConst(Pbase)}}
	for _, o := range it.RunFrom(st, fn, nil, nil, []ai.Value{conv(st)}) {
		if viol != "" {
			break
		}
		if o.Panic != nil {
			viol = o.Describe() + " at " + r.P.Rel(o.Pos)
			continue
		}
		g := jg(o.St)
		A, B := g.info[g.A], g.info[g.B]
		want := int64(9)
		switch {
		case B.one() || A.one():
			want = 1
		case A.zero() && B.notOne:
			want = 0
		}
		if g.neg {
			want = -want
		}
		c, ok := ai.IntOf(o.Ret[0])
		switch {
		case want == 9 || want == -9:
			viol = "returns before the symbol is determined, at " + r.P.Rel(o.Pos)
		case !ok:
			viol = "returns a value that depends on more than the symbol"
		case int64(c) != want:
			viol = fmt.Sprintf("returns %d where the symbol is %d, at %s", c, want, r.P.Rel(o.Pos))
		}
	}
	if viol == "" && cyclic(edges) {
		viol = "the loop can repeat without making the numbers smaller"
	}
	return viol, len(keys), it
}

func cyclic(edges map[int]map[int]bool) bool {
	col := map[int]int{}
	var dfs func(n int) bool
	dfs = func(n int) bool {
		col[n] = 1
		for m := range edges[n] {
			if col[m] == 1 || col[m] == 0 && dfs(m) {
				return true
			}
		}
		col[n] = 2
		return false
	}
	for n := range edges {
		if col[n] == 0 && dfs(n) {
			return true
		}
	}
	return false
}

// wordGlobal gives the value of a package variable of type Uint256: the token for a known constant, or its words.
func (r *Run) wordGlobal(g *ssa.Global, tok ai.Agg, val *big.Int) (ai.Value, bool) {
	b, ok := r.globalUint256(g)
	if !ok {
		return nil, false
	}
	if val != nil && b.Cmp(val) == 0 {
		return tok, true
	}
	a := make(ai.Agg, 4)
	u64 := types.Typ[types.Uint64]
	for i := range a {
		l := new(big.Int).Rsh(b, uint(64*i))
		a[i] = ai.Const{V: constant.MakeUint64(l.And(l, new(big.Int).SetUint64(^uint64(0))).Uint64()), T: u64}
	}
	return a, true
}

// globalUint256 evaluates a package variable of type Uint256.
func (r *Run) globalUint256(g *ssa.Global) (z *big.Int, ok bool) {
	o, isV := g.Object().(*types.Var)
	if !isV {
		return nil, false
	}
	arr, isA := o.Type().Underlying().(*types.Array)
	if !isA || arr.Len() != 4 {
		return nil, false
	}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(vg.Undecided); !is {
				panic(x)
			}
			z, ok = nil, false
		}
	}()
	e := r.NewEnv("F11", g.String(), nil)
	z, _ = e.constVar(o, 64)
	return z, z != nil
}
