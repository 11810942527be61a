package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
)

// ---- exponentiation

// eTok is the number base^(C*prefix(Lo)+D) in Montgomery form, where prefix(i) is the exponent shifted right by i.
// Red is the interval: 0 below p, 1 below 2^256-p, 2 below 2p, 3 any.
type eTok struct {
	Lo, Red int
	C, D    string // decimal
}

type eGhost struct {
	exp, next  int
	L          int // bit length of the exponent, -1 if not known
	nonzero    bool
	toks       map[int]eTok
	node, took int
}

func eg(st *ai.State) eGhost { return st.Ghost.(eGhost) }

func (g eGhost) put(t eTok) (eGhost, int) {
	m := make(map[int]eTok, len(g.toks)+1)
	for k, v := range g.toks {
		m[k] = v
	}
	id := g.next
	m[id] = t
	g.toks = m
	g.next++
	return g, id
}

type eDom struct{ mulAny bool }

func (d *eDom) known(st *ai.State, pos int) (val, ok bool) {
	g := eg(st)
	if g.L >= 0 {
		if pos >= g.L {
			return false, true
		}
		if pos == g.L-1 {
			return true, true
		}
	}
	val, ok = st.Assume[fmt.Sprintf("e.%d", pos)]
	return
}

func (d *eDom) bit(st *ai.State, t, pos int) bool {
	if t != eg(st).exp {
		ai.Bail("bit of a number other than the exponent")
	}
	if v, ok := d.known(st, pos); ok {
		return v
	}
	return st.Decide(fmt.Sprintf("e.%d", pos))
}

func (d *eDom) length(st *ai.State) int {
	g := eg(st)
	if g.L < 0 {
		for l := 0; l < 256; l++ {
			if l == 0 && g.nonzero {
				continue
			}
			if st.Decide(fmt.Sprintf("len.%d", l)) {
				g.L = l
				break
			}
		}
		if g.L < 0 {
			g.L = 256
		}
		st.Ghost = g
	}
	return g.L
}

func (d *eDom) zeroLimbs(st *ai.State, t int, set uint) bool {
	g := eg(st)
	if t != g.exp {
		ai.Bail("test of a number other than the exponent")
	}
	if g.nonzero && set == 15 {
		return false
	}
	l := g.L
	if l < 0 {
		if set == 15 {
			z := st.Decide("e=0")
			if z {
				g.L = 0
			} else {
				g.nonzero = true
			}
			st.Ghost = g
			return z
		}
		l = d.length(st)
	}
	for i := 0; i < 4; i++ {
		if set>>i&1 == 1 && (l-1)/64 == i && l > 0 {
			return false
		}
	}
	for i := 0; i < 4; i++ {
		if set>>i&1 == 1 && i*64 < l {
			ai.Bail("test of a part of the exponent")
		}
	}
	return true
}

func (d *eDom) equal(st *ai.State, a, b ai.Agg) bool {
	t, ok := tokOf(a)
	if !ok {
		a, b = b, a
		t, ok = tokOf(a)
	}
	c, isC := aggBig(b)
	if ok && isC && t == eg(st).exp {
		if c.Sign() == 0 {
			return d.zeroLimbs(st, t, 15)
		}
		if c.Cmp(big.NewInt(1)) == 0 {
			return d.length(st) == 1
		}
	}
	ai.Bail("comparison of numbers")
	return false
}

var mont1 = new(big.Int).Mod(two(256), Pbase)

// load gives the power an object holds.
func (d *eDom) load(st *ai.State, v ai.Value) eTok {
	p, ok := v.(ai.Ptr)
	if !ok {
		ai.Bail("operand is not a pointer")
	}
	a, ok := isAggOfWords(st.Load(p))
	if !ok {
		ai.Bail("operand is not a number")
	}
	if t, ok := tokOf(a); ok {
		if e, ok := eg(st).toks[t]; ok {
			return e
		}
	}
	if c, ok := aggBig(a); ok && new(big.Int).Mod(c, Pbase).Cmp(mont1) == 0 {
		return eTok{C: "0", D: "0", Red: intervalOf(c)}
	}
	ai.Bail("operand is not a power of the base")
	return eTok{}
}

func intervalOf(c *big.Int) int {
	for i, hi := range []*big.Int{ivF(), ivC(), ivB()} {
		if c.Cmp(hi) <= 0 {
			return i
		}
	}
	return 3
}

func (d *eDom) store(st *ai.State, v ai.Value, e eTok) {
	g, id := eg(st).put(e)
	st.Ghost = g
	st.Store(v.(ai.Ptr), limbs(id))
}

// norm expresses a power by the lowest prefix possible.
func (d *eDom) norm(st *ai.State, e eTok) eTok {
	c, q := mustBig(e.C), mustBig(e.D)
	for e.Lo > 0 && c.Sign() > 0 && c.Bit(0) == 0 {
		b, ok := d.known(st, e.Lo-1)
		if !ok {
			break
		}
		c.Rsh(c, 1)
		if b {
			q.Sub(q, c)
		}
		e.Lo--
	}
	if g := eg(st); c.Sign() == 0 && g.L >= 0 && q.Cmp(big.NewInt(2)) >= 0 {
		pre := new(big.Int)
		for i := g.L - 1; i >= 0; i-- {
			b, ok := d.known(st, i)
			if !ok {
				break
			}
			pre.Lsh(pre, 1)
			if b {
				pre.SetBit(pre, 0, 1)
			}
			if pre.Cmp(q) == 0 {
				c, q, e.Lo = bi(1), new(big.Int), i
				break
			}
		}
	}
	if c.Sign() == 0 {
		e.Lo = 0
	}
	e.C, e.D = c.String(), q.String()
	return e
}

func (d *eDom) mul(st *ai.State, a, b eTok) eTok {
	a, b = d.norm(st, a), d.norm(st, b)
	if a.Red > 1 || b.Red > 1 && !d.mulAny {
		ai.Bail("factors of a Montgomery product are not reduced as it requires")
	}
	if a.C == "0" {
		a.Lo = b.Lo
	}
	if b.C == "0" {
		b.Lo = a.Lo
	}
	if a.Lo != b.Lo {
		ai.Bail("product of powers of unrelated exponents")
	}
	add := func(x, y string) string { return badd(mustBig(x), mustBig(y)).String() }
	return eTok{Lo: a.Lo, C: add(a.C, b.C), D: add(a.D, b.D), Red: 1}
}

var montMul = map[string]bool{"MulMontgomery_c": true, "mulMontgomery_Unrolled_c": true, "mulMontgomerySlow_c": true}

func (r *Run) f11Exp(fn *ssa.Function, isFE bool, alias string, mulAny bool) (viol string, nodes int, it *ai.Interp) {
	it = ai.New(r.P)
	d := &eDom{mulAny: mulAny}
	installWords(it, d)
	it.GlobalHook = func(it *ai.Interp, g *ssa.Global) (ai.Value, bool) { return r.wordGlobal(g, nil, nil) }
	it.CallHook = func(it *ai.Interp, st *ai.State, f *ssa.Function, args []ai.Value) (ai.Value, bool) {
		n := ai.Name(f)
		if strings.HasSuffix(n, ".IncrementCallCounter") {
			return ai.Tuple{}, true
		}
		if !strings.HasPrefix(n, "(*"+load256+").") {
			return nil, false
		}
		red := func(need, to int) (ai.Value, bool) {
			e := d.load(st, args[0])
			if e.Red > need {
				ai.Bail("operand of %s is not reduced as it requires", f.Name())
			}
			if e.Red > to {
				e.Red = to
			}
			d.store(st, args[0], e)
			return ai.Tuple{}, true
		}
		switch {
		case montMul[f.Name()] && len(args) == 3:
			d.store(st, args[0], d.mul(st, d.load(st, args[1]), d.load(st, args[2])))
			return ai.Tuple{}, true
		case f.Name() == "SquareMontgomery_c" && len(args) == 2:
			x := d.load(st, args[1])
			if x.Red > 1 {
				ai.Bail("operand of a Montgomery square is not reduced as it requires")
			}
			d.store(st, args[0], d.mul(st, x, x))
			return ai.Tuple{}, true
		case f.Name() == "Reduce" || f.Name() == "Reduce_fa":
			return red(3, 0)
		case f.Name() == "Reduce_ca":
			return red(3, 1)
		case f.Name() == "Reduce_fb":
			return red(2, 0)
		case f.Name() == "BitLen" && len(args) == 1:
			if a, ok := isAggOfWords(st.Load(args[0].(ai.Ptr))); ok {
				if t, ok := tokOf(a); ok && t == eg(st).exp {
					return ai.KInt(int64(d.length(st)), types.Typ[types.Int]), true
				}
			}
		}
		return nil, false
	}
	keys := map[string]int{}
	it.Header = func(st *ai.State) bool {
		g := eg(st)
		// canonical names for the powers in use
		names := map[eTok]int{}
		var lo = 257
		n := eGhost{exp: g.exp, L: g.L, nonzero: g.nonzero, next: 1000, toks: map[int]eTok{}}
		st.MapValues(func(v ai.Value) ai.Value {
			if w, ok := v.(lw); ok {
				if e, ok := g.toks[w.T]; ok && w.T != g.exp && w.T != 1 {
					e = d.norm(st, e)
					if e.C != "0" && e.Lo < lo {
						lo = e.Lo
					}
					names[e] = 0
				}
			}
			return v
		})
		var ks []string
		by := map[string]eTok{}
		for e := range names {
			k := fmt.Sprintf("%+v", e)
			ks = append(ks, k)
			by[k] = e
		}
		sort.Strings(ks)
		for i, k := range ks {
			names[by[k]] = 10 + i
			n.toks[10+i] = by[k]
		}
		for _, t := range []int{1, g.exp} {
			if e, ok := g.toks[t]; ok {
				n.toks[t] = e
			}
		}
		ren := func(t int) int {
			e, ok := g.toks[t]
			if !ok || t == g.exp || t == 1 {
				return t
			}
			return names[d.norm(st, e)]
		}
		st.MapValues(func(v ai.Value) ai.Value {
			if w, ok := v.(lw); ok {
				return lw{ren(w.T), w.I, w.Sh}
			}
			return v
		})
		keep := map[string]bool{}
		if lo <= 256 {
			n.L, n.nonzero = -1, n.nonzero || n.L > 0
		}
		for a, v := range st.Assume {
			var pos int
			if k, _ := fmt.Sscanf(a, "e.%d", &pos); k == 1 && pos < lo {
				keep[a] = v
			}
		}
		st.Assume = keep
		k := it.Canon(st, nil) + fmt.Sprintf("|%d|%v|%v", n.L, n.nonzero, n.toks)
		_, old := keys[k]
		if !old {
			keys[k] = len(keys)
		}
		if len(keys) > 20000 {
			ai.Bail("too many states")
		}
		st.Ghost = n
		return !old
	}
	st := it.Base.Clone()
	red := 3
	if isFE {
		red = 1
	}
	g := eGhost{exp: 2, next: 1000, L: -1, toks: map[int]eTok{1: {C: "0", D: "1", Red: red}}}
	T := func(i int) types.Type { return fn.Params[i].Type().(*types.Pointer).Elem() }
	num := func(i, tok int) ai.Ptr {
		v := ai.Value(limbs(tok))
		if _, ok := T(i).Underlying().(*types.Struct); ok {
			v = feOf(T(i), v)
		}
		return st.Alloc(T(i), v)
	}
	base := num(1, 1)
	exp := num(2, 2)
	z := ai.Value(base)
	switch alias {
	case "z=base":
	case "z=exponent":
		z = exp
	case "base=exponent":
		base = exp
		g.toks[2] = g.toks[1]
		z = num(0, 3)
	case "all":
		base = exp
		g.toks[2] = g.toks[1]
		z = exp
	default:
		z = num(0, 3)
	}
	st.Ghost = g
	baseT, expT := st.Load(base), st.Load(exp)
	outs := it.RunFrom(st, fn, nil, nil, []ai.Value{z, base, exp})
	for _, o := range outs {
		if viol != "" {
			break
		}
		if o.Panic != nil {
			viol = o.Describe() + " at " + r.P.Rel(o.Pos)
			continue
		}
		res := z
		if isFE {
			res = wordsPtr(T(0), z.(ai.Ptr))
		}
		e := d.norm(o.St, d.load(o.St, res))
		gg := eg(o.St)
		ok := e.C == "1" && e.D == "0" && e.Lo == 0 || gg.L == 0 && e.C == "0" && e.D == "0" || gg.L == 1 && e.C == "0" && e.D == "1"
		hi := 0
		if isFE {
			hi = 1
		}
		switch {
		case !ok:
			viol = fmt.Sprintf("returns base^(%s*(exponent>>%d)+%s) on some exponent, at %s", e.C, e.Lo, e.D, r.P.Rel(o.Pos))
		case e.Red > hi:
			viol = "the result is not reduced as promised, at " + r.P.Rel(o.Pos)
		}
		if z != ai.Value(base) && o.St.Key(o.St.Load(base)) != o.St.Key(baseT) || z != ai.Value(exp) && o.St.Key(o.St.Load(exp)) != o.St.Key(expT) {
			viol = "an operand is changed"
		}
	}
	return viol, len(keys), it
}

// feOf is a field element with the given words.
func feOf(t types.Type, words ai.Value) ai.Value {
	s := t.Underlying().(*types.Struct)
	a := ai.Zero(t).(ai.Agg)
	n := append(ai.Agg{}, a...)
	for i := 0; i < s.NumFields(); i++ {
		if arr, ok := s.Field(i).Type().Underlying().(*types.Array); ok && arr.Len() == 4 {
			n[i] = words
		}
	}
	return n
}

func wordsPtr(t types.Type, p ai.Ptr) ai.Ptr {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if arr, ok := s.Field(i).Type().Underlying().(*types.Array); ok && arr.Len() == 4 {
			return ai.Ptr{O: p.O, Path: ai.PathPush(p.Path, i)}
		}
	}
	return p
}

func f11(r *Run) {
	load256 = r.need(fe, "Uint256.Reduce").Signature.Recv().Type().(*types.Pointer).Elem().String()
	jac := func(name string, opt bool) {
		fn := r.P.Func(fe, name)
		if fn == nil && opt {
			return
		}
		r.aiGo("F11.jacobi", fe+"."+name, func() {
			fn := r.need(fe, name)
			t := fn.Params[0].Type().(*types.Pointer).Elem()
			viol, n, it := r.f11Jacobi(fn, func(st *ai.State) ai.Value {
				v := ai.Value(limbs(1))
				if _, ok := t.Underlying().(*types.Struct); ok {
					v = feOf(t, v)
				}
				return st.Alloc(t, v)
			})
			r.Ok("F11.jacobi", fe+"."+name, fn.Pos(), "returns the Legendre symbol on every input, and terminates", viol == "", viol)
			r.Count("states of the symbol loop", n)
			r.noteVisited(it)
		})
	}
	jac(feT+".Jacobi", false)
	exp := func(name string, isFE bool) {
		for _, alias := range []string{"distinct", "z=base", "z=exponent", "base=exponent", "all"} {
			if isFE && alias != "distinct" && alias != "z=base" {
				continue
			}
			alias := alias
			what := fe + "." + name + " [" + alias + "]"
			r.aiGo("F11.exp", what, func() {
				fn := r.need(fe, name)
				viol, n, it := r.f11Exp(fn, isFE, alias, true)
				r.Ok("F11.exp", what, fn.Pos(), "z = base^exponent for every base and exponent, reduced as promised", viol == "", viol)
				r.Count("states of exponentiation loops", n)
				r.noteVisited(it)
			})
		}
	}
	exp("Uint256.ModularExponentiationMontgomery_fa", false)
	exp(feT+".Exp", true)
	for name := range montMul {
		if fn := r.P.Func(fe, "Uint256."+name); fn != nil {
			r.CheckFn(FnSpec{Rule: "F11.lax", Pkg: fe, Name: "Uint256." + name, Arg: nil, Hi: func(i int) *big.Int {
				if i == 1 {
					return ivC()
				}
				return nil
			}, Post: func(c *Case) {
				c.ModZ("z*2^256 = x*y for x below 2^256-p and any y", c.Ret, c.Out(0).Scale(R256).Sub(c.C.Mul(c.In[1], c.In[2])), Pbase)
				c.In2Big("result interval", c.Ret, c.Out(0), bi(0), ivC())
			}}, fn)
		}
	}
	r.Wait()
}

var load256 string
