package vg

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
)

func (fr *frame) callArgs(regs map[ssa.Value]Value, c *ssa.CallCommon) []Value {
	var args []Value
	if c.IsInvoke() {
		args = append(args, fr.get(regs, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		args = append(args, fr.get(regs, c.Value))
	} else {
		args = append(args, nil)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(regs, a))
	}
	return args
}

func (fr *frame) call(st *State, regs map[ssa.Value]Value, x *ssa.Call, cond *alg.Bdd) bool {
	args := fr.callArgs(regs, &x.Call)
	v := fr.invoke(st, x, &x.Call, args, cond)
	regs[x] = v
	return *cond != alg.False
}

func pack(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return &TupleV{E: vs}
}

func (fr *frame) invoke(st *State, in ssa.CallInstruction, c *ssa.CallCommon, all []Value, cond *alg.Bdd) Value {
	it := fr.it
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, in, b, all[1:], cond)
	}
	callee := all[0]
	args := all[1:]
	if c.IsInvoke() {
		callee = it.force(callee)
		switch r := callee.(type) {
		case IfaceV:
			if it.Iface != nil {
				it.abs = append(it.abs, *cond)
				v, ok := it.Iface(st, r, c.Method.Name(), args)
				it.abs = it.abs[:len(it.abs)-1]
				if ok {
					return v
				}
			}
			fn := it.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				return fr.unknownCall(st, c, append([]Value{r.V}, args...), "no method "+c.Method.Name())
			}
			return fr.callFn(st, in, fn, append([]Value{r.V}, args...), nil, cond)
		case *ChoiceV:
			return fr.callChoice(st, r, cond, func(st *State, v Value, cond *alg.Bdd) Value {
				return fr.invoke(st, in, c, append([]Value{v}, args...), cond)
			})
		case NilV:
			it.panicAt(*cond, in.Pos(), "method call on nil interface", fr.fn)
			*cond = alg.False
			return OpaqueV{"nil call"}
		}
		// models may know interface methods
		for _, m := range it.Models {
			if v, ok := m(it, st, in, nil, append([]Value{callee}, args...)); ok {
				return v
			}
		}
		return fr.unknownCall(st, c, append([]Value{callee}, args...), "dynamic call "+c.Method.FullName())
	}
	switch f := it.force(callee).(type) {
	case *FuncV:
		return fr.callFn(st, in, f.Fn, args, f.Bind, cond)
	case *ChoiceV:
		return fr.callChoice(st, f, cond, func(st *State, v Value, cond *alg.Bdd) Value {
			return fr.invoke(st, in, c, append([]Value{v}, args...), cond)
		})
	}
	for _, m := range it.Models {
		if v, ok := m(it, st, in, nil, append([]Value{callee}, args...)); ok {
			return v
		}
	}
	return fr.unknownCall(st, c, args, "call of unknown function value")
}

// callChoice performs a call once per alternative and merges.
func (fr *frame) callChoice(st *State, ch *ChoiceV, cond *alg.Bdd, f func(st *State, v Value, cond *alg.Bdd) Value) Value {
	it := fr.it
	var sts []*State
	var alts []ChoiceAlt
	var cs []alg.Bdd
	tot := alg.False
	for _, a := range ch.A {
		cd := it.C.And(*cond, a.C)
		if cd == alg.False {
			continue
		}
		s := st.copy()
		v := f(s, a.V, &cd)
		if cd == alg.False {
			continue
		}
		sts = append(sts, s)
		cs = append(cs, cd)
		alts = append(alts, ChoiceAlt{cd, v})
		tot = it.C.Or(tot, cd)
	}
	*cond = tot
	if len(alts) == 0 {
		return OpaqueV{"unreachable"}
	}
	for i := range cs {
		cs[i] = it.C.Constrain(cs[i], tot)
		alts[i].C = cs[i]
	}
	st.mem = it.mergeStates(cs, sts).mem
	return it.merge(alts)
}

func (fr *frame) callFn(st *State, in ssa.CallInstruction, fn *ssa.Function, args, bind []Value, cond *alg.Bdd) Value {
	it := fr.it
	for i := range args {
		args[i] = it.force(args[i])
		if it.NonNil != nil && it.NonNil(fn, i) {
			isNil := alg.False
			switch x := args[i].(type) {
			case NilV:
				isNil = alg.True
			case *ChoiceV:
				for _, a := range x.A {
					if _, n := it.force(a.V).(NilV); n {
						isNil = it.C.Or(isNil, a.C)
					}
				}
			}
			if isNil != alg.False {
				it.panicAt(it.C.And(*cond, isNil), in.Pos(), "nil pointer dereference", fr.fn)
				*cond = it.C.And(*cond, it.C.Not(isNil))
				if *cond == alg.False {
					return OpaqueV{"does not return"}
				}
			}
		}
	}
	it.abs = append(it.abs, *cond)
	defer func() { it.abs = it.abs[:len(it.abs)-1] }()
	for _, m := range it.Models {
		if v, ok := m(it, st, in, fn, args); ok {
			it.Ext[fn.RelString(nil)]++
			if it.Halt != alg.False {
				*cond = it.C.And(*cond, it.C.Not(it.Halt))
				it.Halt = alg.False
			}
			return v
		}
	}
	follow := len(fn.Blocks) > 0
	if follow && it.Follow != nil {
		follow = it.Follow(fn)
	}
	if !follow {
		return fr.unknownCall(st, in.Common(), args, "external "+fn.RelString(nil))
	}
	vals, rc := it.Call(st, fn, args, bind)
	if rc != alg.True {
		*cond = it.C.And(*cond, rc)
	}
	if rc == alg.False {
		return OpaqueV{"does not return"}
	}
	return pack(vals)
}

// unknownCall havocs everything reachable from the arguments.
func (fr *frame) unknownCall(st *State, c *ssa.CallCommon, args []Value, why string) Value {
	it := fr.it
	it.Ext["unknown: "+why]++
	for _, a := range args {
		it.havoc(st, a, why, map[*Obj]bool{})
	}
	return it.opaqueResult(c.Signature().Results(), why)
}

func (it *Interp) opaqueResult(rs *types.Tuple, why string) Value {
	one := func(t types.Type) Value { return it.OpaqueOf(t, why) }
	switch rs.Len() {
	case 0:
		return &TupleV{}
	case 1:
		return one(rs.At(0).Type())
	}
	t := &TupleV{}
	for i := 0; i < rs.Len(); i++ {
		t.E = append(t.E, one(rs.At(i).Type()))
	}
	return t
}

// OpaqueOf makes an unknown value of a type (integers keep their range).
func (it *Interp) OpaqueOf(t types.Type, why string) Value {
	if it.Leaf != nil {
		if _, ok := it.Leaf(t); ok {
			return OpaqueV{why}
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			w, s := intType(t)
			return it.opaqueInt(w, s)
		}
		if b.Info()&types.IsBoolean != 0 {
			return BoolV{it.Nondet("unknown:" + why)}
		}
	}
	return OpaqueV{why}
}

func (it *Interp) havoc(st *State, v Value, why string, seen map[*Obj]bool) {
	v = it.force(v)
	switch x := v.(type) {
	case PtrV:
		if seen[x.O] {
			return
		}
		seen[x.O] = true
		old := it.rootVal(st, x.O)
		it.havoc(st, old, why, seen)
		st.mem[x.O] = OpaqueV{"may be changed by " + why}
	case SliceV:
		it.havoc(st, x.Base, why, seen)
	case *AggV:
		for _, e := range x.E {
			it.havoc(st, e, why, seen)
		}
	case *TupleV:
		for _, e := range x.E {
			it.havoc(st, e, why, seen)
		}
	case IfaceV:
		it.havoc(st, x.V, why, seen)
	case *ChoiceV:
		for _, a := range x.A {
			it.havoc(st, a.V, why, seen)
		}
	case *FuncV:
		for _, b := range x.Bind {
			it.havoc(st, b, why, seen)
		}
	}
}

func (fr *frame) builtin(st *State, in ssa.CallInstruction, b *ssa.Builtin, args []Value, cond *alg.Bdd) Value {
	it := fr.it
	switch b.Name() {
	case "len", "cap":
		return it.each(args[0], func(v Value) Value {
			switch x := v.(type) {
			case SliceV:
				if b.Name() == "cap" {
					return KInt(int64(x.Cap), 64, true)
				}
				return KInt(int64(x.Len), 64, true)
			case StrV:
				return KInt(int64(len(x.S)), 64, true)
			case NilV:
				return KInt(0, 64, true)
			case *AggV:
				return KInt(int64(len(x.E)), 64, true)
			case MapV:
				if c, ok := it.force(it.rootVal(st, x.O)).(*MapC); ok {
					return KInt(int64(len(c.K)), 64, true)
				}
			case PtrV:
				if a, ok := in.Common().Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					return KInt(a.Len(), 64, true)
				}
			}
			o := it.opaqueInt(64, true)
			it.C.Atoms[len(it.C.Atoms)-1].Lo = new(big.Int)
			o.R.Lo = new(big.Int)
			return o
		})
	case "copy":
		d, ok1 := args[0].(SliceV)
		var n int
		switch s := args[1].(type) {
		case SliceV:
			if !ok1 {
				break
			}
			n = d.Len
			if s.Len < n {
				n = s.Len
			}
			vals := make([]Value, n)
			for i := 0; i < n; i++ {
				vals[i] = it.Load(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)})
			}
			for i := 0; i < n; i++ {
				it.Store(st, PtrV{d.Base.O, pathPush(d.Base.Path, d.Off+i)}, vals[i])
			}
			return KInt(int64(n), 64, true)
		case StrV:
			if !ok1 {
				break
			}
			n = d.Len
			if len(s.S) < n {
				n = len(s.S)
			}
			for i := 0; i < n; i++ {
				it.Store(st, PtrV{d.Base.O, pathPush(d.Base.Path, d.Off+i)}, KInt(int64(s.S[i]), 8, false))
			}
			return KInt(int64(n), 64, true)
		case NilV:
			return KInt(0, 64, true)
		}
		it.havoc(st, args[0], "copy", map[*Obj]bool{})
		return it.opaqueInt(64, true)
	case "append":
		var base []Value
		switch s := args[0].(type) {
		case NilV:
		case SliceV:
			for i := 0; i < s.Len; i++ {
				base = append(base, it.Load(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)}))
			}
			// spare capacity: the new elements are written in place
			if t, ok := args[1].(SliceV); ok && s.Len+t.Len <= s.Cap {
				for i := 0; i < t.Len; i++ {
					it.Store(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+s.Len+i)}, it.Load(st, PtrV{t.Base.O, pathPush(t.Base.Path, t.Off+i)}))
				}
				return SliceV{s.Base, s.Off, s.Len + t.Len, s.Cap}
			}
		default:
			return OpaqueV{"append to unknown"}
		}
		if len(args) < 2 {
			return args[0]
		}
		switch t := args[1].(type) {
		case SliceV:
			for i := 0; i < t.Len; i++ {
				base = append(base, it.Load(st, PtrV{t.Base.O, pathPush(t.Base.Path, t.Off+i)}))
			}
		case StrV:
			for i := 0; i < len(t.S); i++ {
				base = append(base, KInt(int64(t.S[i]), 8, false))
			}
		case NilV:
			return args[0]
		default:
			return OpaqueV{"append of unknown"}
		}
		p := it.NewObj(st, "append", in.Common().Signature().Results().At(0).Type(), &AggV{E: base})
		return SliceV{p, 0, len(base), len(base)}
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			p, ok1 := acc.(*IntV)
			q, ok2 := a.(*IntV)
			if !ok1 || !ok2 {
				return OpaqueV{b.Name()}
			}
			lt := it.C.LtR(p.R, q.R)
			if b.Name() == "max" {
				lt = it.C.Not(lt)
			}
			acc = it.mergeNow([]ChoiceAlt{{lt, p}, {it.C.Not(lt), q}})
		}
		return acc
	case "panic":
		it.panicAt(*cond, in.Pos(), "panic", fr.fn)
		*cond = alg.False
		return OpaqueV{"panic"}
	case "recover":
		return NilV{}
	case "print", "println", "delete", "clear", "close":
		return &TupleV{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	return OpaqueV{"builtin " + b.Name()}
}

// ---- models of the standard library ----

func rng01(p *alg.Poly) alg.Rng { return alg.Rng{P: p, Lo: new(big.Int), Hi: big.NewInt(1)} }

// StdModel knows math/bits, math/big, encoding/binary and a few others.
func StdModel(it *Interp, st *State, in ssa.CallInstruction, fn *ssa.Function, args []Value) (Value, bool) {
	if fn == nil || fn.Pkg == nil {
		return nil, false
	}
	name := fn.RelString(nil)
	c := it.C
	b64 := alg.Two(64)
	ints := func() ([]*IntV, bool) {
		out := make([]*IntV, len(args))
		for i, a := range args {
			v, ok := a.(*IntV)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	u64 := func(r alg.Rng) *IntV { return &IntV{R: r, W: 64} }
	switch name {
	case "math/bits.Add64", "math/bits.Sub64", "math/bits.Mul64", "math/bits.Add", "math/bits.Sub", "math/bits.Mul":
		a, ok := ints()
		if !ok {
			return &TupleV{E: []Value{it.opaqueInt(64, false), it.opaqueInt(64, false)}}, true
		}
		switch name[10:13] {
		case "Add":
			q, r := c.DivMod(c.AddR(c.AddR(a[0].R, a[1].R), a[2].R), b64, "carry")
			return &TupleV{E: []Value{u64(r), u64(q)}}, true
		case "Sub":
			q, r := c.DivMod(c.SubR(c.SubR(a[0].R, a[1].R), a[2].R), b64, "borrow")
			return &TupleV{E: []Value{u64(r), u64(c.NegR(q))}}, true
		default:
			q, r := c.DivMod(c.MulR(a[0].R, a[1].R), b64, "hi")
			return &TupleV{E: []Value{u64(q), u64(r)}}, true
		}
	case "math/bits.Len64", "math/bits.Len":
		a, ok := ints()
		if !ok {
			return it.opaqueInt(64, true), true
		}
		if k, ok := ConstInt(a[0]); ok {
			return KInt(int64(k.BitLen()), 64, true), true
		}
		if bs, ok := it.bits(a[0].R.P); ok {
			var alts []ChoiceAlt
			rest := alg.True
			for k := 63; k >= 0; k-- {
				cd := c.And(rest, bs[k])
				if cd != alg.False {
					alts = append(alts, ChoiceAlt{cd, KInt(int64(k+1), 64, true)})
				}
				rest = c.And(rest, c.Not(bs[k]))
			}
			if rest != alg.False {
				alts = append(alts, ChoiceAlt{rest, KInt(0, 64, true)})
			}
			return it.mergeNow(alts), true
		}
		return it.Len64(a[0].R), true
	case "math/bits.LeadingZeros64", "math/bits.LeadingZeros":
		a, ok := ints()
		if !ok {
			return it.opaqueInt(64, true), true
		}
		if k, ok := ConstInt(a[0]); ok {
			return KInt(int64(64-k.BitLen()), 64, true), true
		}
		l := it.Len64(a[0].R)
		return &IntV{R: c.SubR(alg.KR(big.NewInt(64)), l.R), W: 64, Signed: true}, true
	case "math/bits.TrailingZeros64":
		a, ok := ints()
		if ok {
			if k, ok := ConstInt(a[0]); ok {
				n := 64
				if k.Sign() != 0 {
					n = int(k.TrailingZeroBits())
				}
				return KInt(int64(n), 64, true), true
			}
		}
		return it.FreshInt("tz64", alg.KOpq, new(big.Int), big.NewInt(64), 64, true), true
	case "math/big.NewInt":
		if v, ok := args[0].(*IntV); ok {
			return it.NewObj(st, "big", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), &IntV{R: v.R}), true
		}
		return OpaqueV{"big.NewInt"}, true
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		return it.bigModel(st, fn.Name(), fn, args)
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		return it.binModel(st, in, name, args)
	}
	switch name {
	case "fmt.Sprintf", "fmt.Errorf", "errors.New", "fmt.Sprint", "fmt.Sprintln", "strings.Join":
		return OpaqueV{name}, true
	}
	return nil, false
}

func (it *Interp) bigModel(st *State, m string, fn *ssa.Function, args []Value) (Value, bool) {
	c := it.C
	args = append([]Value{}, args...)
	for i, a := range args {
		if ch, ok := it.force(a).(*ChoiceV); ok {
			var rest []ChoiceAlt
			for _, w := range ch.A {
				if _, isnil := w.V.(NilV); isnil {
					it.panicAt(w.C, fn.Pos(), "nil *big.Int", fn)
				} else {
					rest = append(rest, w)
				}
			}
			if len(rest) == 1 {
				args[i] = rest[0].V
			}
		}
	}
	ld := func(i int) (alg.Rng, bool) {
		v, ok := it.force(it.Load(st, args[i])).(*IntV)
		if !ok {
			return alg.Rng{}, false
		}
		return v.R, true
	}
	set := func(r alg.Rng) Value {
		it.Store(st, args[0], &IntV{R: r})
		return args[0]
	}
	bad := func(why string) (Value, bool) {
		for _, a := range args {
			if p, ok := a.(PtrV); ok {
				_ = p
			}
		}
		it.Store(st, args[0], OpaqueV{"big.Int." + why})
		return args[0], true
	}
	bin := func(f func(a, b alg.Rng) alg.Rng) (Value, bool) {
		a, ok1 := ld(1)
		b, ok2 := ld(2)
		if !ok1 || !ok2 {
			return bad(m)
		}
		return set(f(a, b)), true
	}
	integer := func(i int) (*IntV, bool) { v, ok := args[i].(*IntV); return v, ok }
	switch m {
	case "Add":
		return bin(c.AddR)
	case "Sub":
		return bin(c.SubR)
	case "Mul":
		return bin(c.MulR)
	case "Neg":
		if a, ok := ld(1); ok {
			return set(c.NegR(a)), true
		}
		return bad(m)
	case "Set":
		if a, ok := ld(1); ok {
			return set(a), true
		}
		return bad(m)
	case "SetUint64", "SetInt64":
		if a, ok := integer(1); ok {
			return set(a.R), true
		}
		return bad(m)
	case "Abs":
		a, ok := ld(1)
		if !ok {
			return bad(m)
		}
		return set(it.absR(a)), true
	case "Lsh":
		a, ok := ld(1)
		k, ok2 := ConstInt(args[2])
		if !ok || !ok2 {
			return bad(m)
		}
		return set(c.MulR(a, alg.KR(alg.Two(uint(k.Int64()))))), true
	case "Rsh":
		a, ok := ld(1)
		k, ok2 := ConstInt(args[2])
		if !ok || !ok2 {
			return bad(m)
		}
		q, _ := c.DivMod(a, alg.Two(uint(k.Int64())), "bigshr")
		return set(q), true
	case "Mod", "Div", "Quo", "Rem":
		a, ok := ld(1)
		b, ok2 := ld(2)
		if !ok || !ok2 || !b.IsConst() || b.P.Const().Sign() <= 0 {
			return bad(m)
		}
		if (m == "Quo" || m == "Rem") && (a.Lo == nil || a.Lo.Sign() < 0) {
			// truncated division: sign split
			n := c.Neg0(a)
			q1, r1 := c.DivMod(a, b.P.Const(), "bigdiv")
			q2, r2 := c.DivMod(c.NegR(a), b.P.Const(), "bigdiv")
			x, y := q1, c.NegR(q2)
			if m == "Rem" {
				x, y = r1, c.NegR(r2)
			}
			return set(it.mergeNow([]ChoiceAlt{{c.Not(n), &IntV{R: x}}, {n, &IntV{R: y}}}).(*IntV).R), true
		}
		q, r := c.DivMod(a, b.P.Const(), "bigdiv")
		if m == "Mod" || m == "Rem" {
			return set(r), true
		}
		return set(q), true
	case "DivMod":
		a, ok := ld(1)
		b, ok2 := ld(2)
		if !ok || !ok2 || !b.IsConst() || b.P.Const().Sign() <= 0 {
			it.Store(st, args[3], OpaqueV{"DivMod"})
			v, _ := bad(m)
			return &TupleV{E: []Value{v, args[3]}}, true
		}
		q, r := c.DivMod(a, b.P.Const(), "bigdiv")
		set(q)
		it.Store(st, args[3], &IntV{R: r})
		return &TupleV{E: []Value{args[0], args[3]}}, true
	case "And":
		a, ok := ld(1)
		b, ok2 := ld(2)
		if ok && ok2 {
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() {
				k := new(big.Int).Add(b.P.Const(), big.NewInt(1))
				if k.Sign() > 0 && int(k.TrailingZeroBits()) == k.BitLen()-1 {
					_, r := c.DivMod(a, k, "bigand")
					return set(r), true
				}
			}
		}
		return bad(m)
	case "Sign":
		a, ok := ld(0)
		if !ok {
			return it.opaqueInt(64, true), true
		}
		n := c.Neg0(a)
		z := c.EqR(a, alg.KR(new(big.Int)))
		return it.mergeNow([]ChoiceAlt{{n, KInt(-1, 64, true)}, {z, KInt(0, 64, true)}, {c.And(c.Not(n), c.Not(z)), KInt(1, 64, true)}}), true
	case "Cmp", "CmpAbs":
		a, ok := ld(0)
		b, ok2 := ld(1)
		if m == "CmpAbs" && ok && ok2 {
			a, b = it.absR(a), it.absR(b)
		}
		if !ok || !ok2 {
			return it.FreshInt("cmp", alg.KOpq, big.NewInt(-1), big.NewInt(1), 64, true), true
		}
		n := c.LtR(a, b)
		z := c.EqR(a, b)
		var alts []ChoiceAlt
		for _, x := range []ChoiceAlt{{n, KInt(-1, 64, true)}, {z, KInt(0, 64, true)}, {c.And(c.Not(n), c.Not(z)), KInt(1, 64, true)}} {
			if x.C != alg.False {
				alts = append(alts, x)
			}
		}
		return it.mergeNow(alts), true
	case "Uint64":
		a, ok := ld(0)
		if !ok {
			return it.opaqueInt(64, false), true
		}
		// low 64 bits of the absolute value (two's complement for negatives agrees with mod 2^64 of the value)
		if a.Lo == nil || a.Lo.Sign() < 0 {
			// documented: undefined if not representable
			_, r := c.DivMod(a, alg.Two(64), "u64")
			return &IntV{R: r, W: 64}, true
		}
		_, r := c.DivMod(a, alg.Two(64), "u64")
		return &IntV{R: r, W: 64}, true
	case "Int64":
		a, ok := ld(0)
		if !ok {
			return it.opaqueInt(64, true), true
		}
		return it.wrap(a, 64, true), true
	case "IsInt64", "IsUint64":
		a, ok := ld(0)
		if !ok {
			return BoolV{it.Nondet(m)}, true
		}
		lo, hi := new(big.Int), new(big.Int).Sub(alg.Two(64), big.NewInt(1))
		if m == "IsInt64" {
			lo, hi = new(big.Int).Neg(alg.Two(63)), new(big.Int).Sub(alg.Two(63), big.NewInt(1))
		}
		return BoolV{c.And(c.Not(c.LtR(a, alg.KR(lo))), c.Not(c.LtR(alg.KR(hi), a)))}, true
	case "BitLen":
		a, ok := ld(0)
		if ok && a.IsConst() {
			return KInt(int64(a.P.Const().BitLen()), 64, true), true
		}
		o := it.FreshInt("bitlen", alg.KOpq, new(big.Int), alg.Two(40), 64, true)
		if ok && a.Lo != nil && a.Hi != nil {
			n := a.Hi.BitLen()
			if k := a.Lo.BitLen(); k > n {
				n = k
			}
			c.Atoms[len(c.Atoms)-1].Hi = big.NewInt(int64(n))
			o.R.Hi = big.NewInt(int64(n))
		}
		if ok {
			if it.lens == nil {
				it.lens = map[int32]alg.Rng{}
			}
			it.lens[o.R.P.AtomIDs()[0]] = it.absR(a)
		}
		return o, true
	case "Bit":
		a, ok := ld(0)
		k, ok2 := ConstInt(args[1])
		if ok && ok2 {
			q, _ := c.DivMod(a, alg.Two(uint(k.Int64())), "bit")
			_, r := c.DivMod(q, big.NewInt(2), "bit")
			return &IntV{R: r, W: 64}, true
		}
		return it.FreshInt("bit", alg.KOpq, new(big.Int), big.NewInt(1), 64, false), true
	case "SetBit":
		a, ok := ld(1)
		k, ok2 := ConstInt(args[2])
		b, ok3 := ConstInt(args[3])
		if ok && ok2 && ok3 && a.IsConst() {
			return set(alg.KR(new(big.Int).SetBit(a.P.Const(), int(k.Int64()), uint(b.Int64())))), true
		}
		return bad(m)
	case "SetString":
		s, ok := args[1].(StrV)
		b, ok2 := ConstInt(args[2])
		if ok && ok2 {
			n, good := new(big.Int).SetString(s.S, int(b.Int64()))
			if !good {
				return &TupleV{E: []Value{NilV{}, BoolV{alg.False}}}, true
			}
			return &TupleV{E: []Value{set(alg.KR(n)), BoolV{alg.True}}}, true
		}
		bad(m)
		return &TupleV{E: []Value{args[0], BoolV{it.Nondet("SetString")}}}, true
	case "ModInverse", "Exp", "Sqrt", "ModSqrt", "GCD":
		if m == "ModInverse" {
			a, ok := ld(1)
			b, ok2 := ld(2)
			if ok && ok2 && a.IsConst() && b.IsConst() {
				r := new(big.Int).ModInverse(a.P.Const(), b.P.Const())
				if r != nil {
					return set(alg.KR(r)), true
				}
			}
		}
		if m == "Exp" {
			a, ok := ld(1)
			b, ok2 := ld(2)
			if ok && ok2 && a.IsConst() && b.IsConst() {
				if _, isnil := args[3].(NilV); isnil {
					if b.P.Const().BitLen() < 20 {
						return set(alg.KR(new(big.Int).Exp(a.P.Const(), b.P.Const(), nil))), true
					}
				} else if mm, ok := ld(3); ok && mm.IsConst() {
					return set(alg.KR(new(big.Int).Exp(a.P.Const(), b.P.Const(), mm.P.Const()))), true
				}
			}
		}
		return bad(m)
	case "SetBytes":
		s, ok := args[1].(SliceV)
		if !ok {
			return bad(m)
		}
		acc := alg.KR(new(big.Int))
		for i := 0; i < s.Len; i++ {
			v, ok := it.force(it.Load(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)})).(*IntV)
			if !ok {
				return bad(m)
			}
			acc = c.AddR(c.MulR(acc, alg.KR(big.NewInt(256))), v.R)
		}
		return set(acc), true
	case "FillBytes":
		s, ok := args[1].(SliceV)
		a, ok2 := ld(0)
		if !ok || !ok2 {
			it.havoc(st, args[1], "FillBytes", map[*Obj]bool{})
			return args[1], true
		}
		a = it.absR(a)
		it.panicAt(c.Not(c.LtR(a, alg.KR(alg.Two(uint(8*s.Len))))), fn.Pos(), "the number does not fit into the buffer", fn)
		for i := s.Len - 1; i >= 0; i-- {
			q, r := c.DivMod(a, big.NewInt(256), "byte")
			it.Store(st, PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)}, &IntV{R: r, W: 8})
			a = q
		}
		return args[1], true
	case "String", "Text":
		return OpaqueV{"big string"}, true
	case "ProbablyPrime":
		return BoolV{it.Nondet(m)}, true
	}
	return nil, false
}

// SliceElemPtr is the address of an element.
func (it *Interp) absR(a alg.Rng) alg.Rng {
	c := it.C
	if a.Lo != nil && a.Lo.Sign() >= 0 {
		return a
	}
	n := c.Neg0(a)
	v := it.mergeNow([]ChoiceAlt{{c.Not(n), &IntV{R: a}}, {n, &IntV{R: c.NegR(a)}}})
	r := v.(*IntV).R
	if r.Lo == nil || r.Lo.Sign() < 0 {
		c.AddFact(alg.True, r.P, new(big.Int), nil, "abs")
		r.Lo = new(big.Int)
	}
	return r
}

func SliceElemPtr(s SliceV, i int) PtrV { return PtrV{s.Base.O, pathPush(s.Base.Path, s.Off+i)} }

func (it *Interp) binModel(st *State, in ssa.CallInstruction, name string, args []Value) (Value, bool) {
	c := it.C
	le := strings.Contains(name, "littleEndian")
	be := strings.Contains(name, "bigEndian")
	if !le && !be {
		return nil, false
	}
	n := 0
	switch {
	case strings.HasSuffix(name, "Uint64"):
		n = 8
	case strings.HasSuffix(name, "Uint32"):
		n = 4
	case strings.HasSuffix(name, "Uint16"):
		n = 2
	default:
		return nil, false
	}
	s, ok := args[1].(SliceV)
	if _, null := args[1].(NilV); (ok || null) && s.Len < n && !strings.Contains(name, ").Append") && in != nil {
		it.PanicHere(alg.True, in, "index out of range", in.Parent())
	}
	if strings.Contains(name, ").Put") {
		v, ok2 := args[2].(*IntV)
		if !ok || !ok2 || s.Len < n {
			it.havoc(st, args[1], name, map[*Obj]bool{})
			return &TupleV{}, true
		}
		a := v.R
		for i := 0; i < n; i++ {
			q, r := c.DivMod(a, big.NewInt(256), "byte")
			k := i
			if be {
				k = n - 1 - i
			}
			it.Store(st, SliceElemPtr(s, k), &IntV{R: r, W: 8})
			a = q
		}
		return &TupleV{}, true
	}
	if strings.Contains(name, ").Append") {
		return nil, false
	}
	if !ok || s.Len < n {
		return it.opaqueInt(n*8, false), true
	}
	acc := alg.KR(new(big.Int))
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if be {
			k = i
		}
		v, ok := it.force(it.Load(st, SliceElemPtr(s, k))).(*IntV)
		if !ok {
			return it.opaqueInt(n*8, false), true
		}
		acc = c.AddR(c.MulR(acc, alg.KR(big.NewInt(256))), v.R)
	}
	return &IntV{R: acc, W: n * 8}, true
}

// Len64 is the (hash-consed) bit length of a 64-bit value that is not further decomposed.
func (it *Interp) Len64(r alg.Rng) *IntV {
	c := it.C
	key := "len64:" + r.P.Key()
	if p, ok := c.Named[key]; ok {
		return &IntV{R: alg.Rng{P: p, Lo: new(big.Int), Hi: big.NewInt(64)}, W: 64, Signed: true}
	}
	o := it.FreshInt("len64", alg.KOpq, new(big.Int), big.NewInt(64), 64, true)
	c.Named[key] = o.R.P
	if it.lens == nil {
		it.lens = map[int32]alg.Rng{}
	}
	it.lens[o.R.P.AtomIDs()[0]] = r
	z := c.EqR(r, alg.KR(new(big.Int)))
	c.AddFact(z, o.R.P, new(big.Int), new(big.Int), "Len64(0)=0")
	c.AddFact(c.Not(z), o.R.P, big.NewInt(1), big.NewInt(64), "Len64(x)>0")
	return o
}

// PanicHere records a panic of the call being modelled under cond and stops that path.
func (it *Interp) PanicHere(cond alg.Bdd, in ssa.CallInstruction, why string, fn *ssa.Function) {
	if it.C.And(cond, it.PathCond()) == alg.False {
		return
	}
	it.panicAt(cond, in.Pos(), why, fn)
	it.Halt = it.C.Or(it.Halt, cond)
}
