package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) exec(st *State, f *Frame, in ssa.Instruction) *panicV {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Store:
		v := it.get(st, f, x.Val)
		p, pv := it.addr(st, it.get(st, f, x.Addr))
		if pv != nil {
			return pv
		}
		st.Store(p, v)
		return nil
	case *ssa.MapUpdate:
		m := it.get(st, f, x.Map)
		k, v := it.get(st, f, x.Key), it.get(st, f, x.Value)
		switch mm := m.(type) {
		case Map:
			it.mapSet(st, mm, k, v)
			return nil
		case Nil:
			return &panicV{KStr("assignment to entry in nil map")}
		case Sym:
			if st.Decide("nil(" + mm.Key + ")") {
				return &panicV{KStr("assignment to entry in nil map")}
			}
			st.Log = append(st.Log, fmt.Sprintf("mapset %s[%s]=%s", mm.Key, st.Key(k), st.Key(v)))
			return nil
		}
		bail("map update of %T", m)
	}
	bail("instruction %T", in)
	return nil
}

// addr resolves an address; opaque pointers are materialised.
func (it *Interp) addr(st *State, v Value) (Ptr, *panicV) {
	switch p := v.(type) {
	case Ptr:
		return p, nil
	case Nil:
		return Ptr{}, &panicV{KStr("nil dereference")}
	case Sym:
		if id, ok := st.lazy[p.Key]; ok {
			return Ptr{O: id}, nil
		}
		if st.Decide("nil(" + p.Key + ")") {
			return Ptr{}, &panicV{KStr("nil dereference")}
		}
		pt, ok := p.T.Underlying().(*types.Pointer)
		if !ok {
			bail("dereference of %s", p.Key)
		}
		q := st.Alloc(pt.Elem(), Expand(pt.Elem(), "*"+p.Key))
		st.lazy[p.Key] = q.O
		return q, nil
	}
	bail("dereference of %T", v)
	return Ptr{}, nil
}

func (it *Interp) mapGet(st *State, m Map, k Value) (Value, bool) {
	st.touch(m.O, false)
	c := st.objs[m.O].(*MapC)
	for i := len(c.K) - 1; i >= 0; i-- {
		if it.eq(st, c.K[i], k) {
			return c.V[i], true
		}
	}
	return nil, false
}

func (it *Interp) mapSet(st *State, m Map, k, v Value) {
	st.touch(m.O, true)
	c := st.objs[m.O].(*MapC)
	n := &MapC{append([]Value{}, c.K...), append([]Value{}, c.V...)}
	for i := range c.K {
		if it.eq(st, c.K[i], k) {
			n.V[i] = v
			st.objs[m.O] = n
			return
		}
	}
	n.K, n.V = append(n.K, k), append(n.V, v)
	st.objs[m.O] = n
}

func (it *Interp) mapDel(st *State, m Map, k Value) {
	st.touch(m.O, true)
	c := st.objs[m.O].(*MapC)
	n := &MapC{}
	for i := range c.K {
		if !it.eq(st, c.K[i], k) {
			n.K, n.V = append(n.K, c.K[i]), append(n.V, c.V[i])
		}
	}
	st.objs[m.O] = n
}

// Eq decides equality of two values.
func (it *Interp) Eq(st *State, a, b Value) bool { return it.eq(st, a, b) }

func isIfaceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (it *Interp) eq(st *State, a, b Value) bool {
	if it.EqHook != nil {
		if r, ok := it.EqHook(it, st, a, b); ok {
			return r
		}
	}
	if c, ok := a.(Cat); ok && len(c) == 1 {
		a = c[0]
	}
	if c, ok := b.(Cat); ok && len(c) == 1 {
		b = c[0]
	}
	switch x := a.(type) {
	case Const:
		switch y := b.(type) {
		case Const:
			return x.V.Kind() == y.V.Kind() && constant.Compare(x.V, token.EQL, y.V)
		case Sym, Any, Cat:
			return it.eq(st, b, a)
		case Iface, RT, Nil:
			return it.eq(st, b, a)
		}
	case Any:
		if x.NonEmpty {
			if s, ok := StrOf(b); ok && s == "" {
				return false
			}
		}
		return st.Free()
	case Cat:
		if s, ok := StrOf(b); ok {
			n := 0
			for _, p := range x {
				if c, ok := p.(Const); ok {
					n += len(constant.StringVal(c.V))
				}
			}
			if n > len(s) {
				return false
			}
		}
		if c, ok := b.(Any); ok {
			return it.eq(st, c, a)
		}
		ka, kb := st.Key(a), st.Key(b)
		return ka == kb || st.Decide(eqAtom(ka, kb))
	case Nil:
		switch y := b.(type) {
		case Nil:
			return true
		case Sym:
			return it.isNil(st, y)
		case Any:
			return st.Free()
		}
		return false
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		case Sym:
			if id, ok := st.lazy[y.Key]; ok {
				return x == Ptr{O: id}
			}
			return false
		case Any:
			return st.Free()
		}
		return false
	case Iface:
		switch y := b.(type) {
		case Iface:
			return types.Identical(x.T, y.T) && it.eq(st, x.V, y.V)
		case Nil, RT:
			return false
		case Sym:
			if isIfaceT(y.T) {
				if t, ok := st.dyn[y.Key]; ok && !types.Identical(t, x.T) {
					return false
				}
				ka, kb := st.Key(a), st.Key(b)
				return st.Decide(eqAtom(ka, kb))
			}
			return it.eq(st, x.V, b)
		case Any:
			return st.Free()
		default:
			return it.eq(st, x.V, b) // comparison with a concrete value
		}
	case RT:
		switch y := b.(type) {
		case RT:
			return types.Identical(x.T, y.T)
		case Sym:
			return it.eq(st, b, a)
		}
		return false
	case Agg:
		if y, ok := b.(Agg); ok {
			for i := range x {
				if !it.eq(st, x[i], y[i]) {
					return false
				}
			}
			return true
		}
	case Sym:
		switch y := b.(type) {
		case Sym:
			if x.Key == y.Key {
				return true
			}
			if t, ok := st.dyn[x.Key]; ok {
				if u, ok := st.dyn[y.Key]; ok && !types.Identical(t, u) {
					return false
				}
			}
			return st.Decide(eqAtom(x.Key, y.Key))
		case Nil:
			return it.isNil(st, x)
		case Const:
			if c, ok := st.vals[x.Key]; ok {
				return it.eq(st, c, y)
			}
			if y.V.Kind() == constant.Bool {
				return it.truth(st, x) == constant.BoolVal(y.V)
			}
			if strings.HasPrefix(x.Key, "len(") || strings.HasPrefix(x.Key, "cap(") {
				if constant.Sign(y.V) < 0 {
					return false
				}
			}
			r := st.Decide("eq(" + x.Key + "," + y.V.ExactString() + ")")
			if r {
				st.vals[x.Key] = y
			}
			return r
		case Any:
			return st.Free()
		case Cat, Iface, Ptr, RT:
			ka, kb := st.Key(a), st.Key(b)
			if y, ok := b.(Iface); ok {
				return it.eq(st, y, a)
			}
			if y, ok := b.(Ptr); ok {
				return it.eq(st, y, a)
			}
			return st.Decide(eqAtom(ka, kb))
		}
	case Fn:
		if _, ok := b.(Nil); ok {
			return false
		}
	case Slice, Map, Seq:
		if _, ok := b.(Nil); ok {
			return false
		}
	}
	bail("comparison of %T and %T", a, b)
	return false
}

// IsNil decides nil-ness of an opaque term.
func (it *Interp) isNil(st *State, x Sym) bool {
	if _, ok := st.lazy[x.Key]; ok {
		return false
	}
	if _, ok := st.dyn[x.Key]; ok {
		return false
	}
	return st.Decide("nil(" + x.Key + ")")
}

func eqAtom(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return "eq(" + a + "," + b + ")"
}

func (it *Interp) eval(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := f.Env.subst(x.Type().(*types.Pointer).Elem())
		return st.Alloc(t, zero(t))
	case *ssa.BinOp:
		return it.binop(st, x.Op, it.get(st, f, x.X), it.get(st, f, x.Y), f.Env.subst(x.X.Type()), f.Env.subst(x.Type()))
	case *ssa.UnOp:
		a := it.get(st, f, x.X)
		switch x.Op {
		case token.MUL:
			p, pv := it.addr(st, a)
			if pv != nil {
				return *pv
			}
			if q, ok := a.(Ptr); ok {
				_ = q
			}
			v := st.Load(p)
			if s, ok := v.(seqElem); ok {
				return s.v
			}
			return v
		case token.NOT:
			switch y := a.(type) {
			case Const:
				return KBool(!constant.BoolVal(y.V))
			case Any:
				return Any{T: y.T}
			case Sym:
				if strings.HasPrefix(y.Key, "!") {
					return Sym{y.Key[1:], y.T}
				}
				return Sym{"!" + y.Key, y.T}
			}
		case token.SUB, token.XOR:
			if c, ok := a.(Const); ok {
				return fix(constant.UnaryOp(x.Op, c.V, 0), c.T)
			}
			return it.opaque(st, x.Type(), x.Op.String(), a)
		}
		bail("unary %s of %T", x.Op, a)
	case *ssa.ChangeInterface:
		return it.get(st, f, x.X)
	case *ssa.ChangeType:
		return it.retype(it.get(st, f, x.X), f.Env.subst(x.Type()))
	case *ssa.Convert:
		return it.convert(st, it.get(st, f, x.X), f.Env.subst(x.X.Type()), f.Env.subst(x.Type()))
	case *ssa.MultiConvert:
		return it.convert(st, it.get(st, f, x.X), f.Env.subst(x.X.Type()), f.Env.subst(x.Type()))
	case *ssa.Extract:
		t := it.get(st, f, x.Tuple)
		tp, ok := t.(Tuple)
		if !ok {
			bail("extract from %T", t)
		}
		return tp[x.Index]
	case *ssa.Field:
		a := it.get(st, f, x.X)
		if ag, ok := a.(Agg); ok {
			return ag[x.Field]
		}
		if any, ok := a.(Any); ok {
			_ = any
			return it.unknown(f.Env.subst(x.Type()), "")
		}
		bail("field of %T", a)
	case *ssa.FieldAddr:
		p, pv := it.addr(st, it.get(st, f, x.X))
		if pv != nil {
			return *pv
		}
		return Ptr{p.O, pathPush(p.Path, x.Field)}
	case *ssa.Index:
		a, i := it.get(st, f, x.X), it.get(st, f, x.Index)
		n, ok := IntOf(i)
		if ag, k := a.(Agg); k && ok {
			if n < 0 || n >= len(ag) {
				return panicV{KStr("index out of range")}
			}
			return ag[n]
		}
		if s, k := StrOf(a); k && ok {
			if n < 0 || n >= len(s) {
				return panicV{KStr("index out of range")}
			}
			return KInt(int64(s[n]), types.Typ[types.Byte])
		}
		return it.opaque(st, f.Env.subst(x.Type()), "index", a, i)
	case *ssa.IndexAddr:
		return it.indexAddr(st, f, x)
	case *ssa.Lookup:
		return it.lookup(st, f, x)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, it.get(st, f, b))
		}
		return Fn{F: x.Fn.(*ssa.Function), Bind: bs, Env: f.Env}
	case *ssa.MakeInterface:
		a := it.get(st, f, x.X)
		t := f.Env.subst(x.X.Type())
		if isIfaceT(t) { // type parameter instantiated with an interface type
			return a
		}
		if r, ok := a.(RT); ok {
			return r
		}
		return box(t, a)
	case *ssa.MakeMap:
		return st.NewMap(f.Env.subst(x.Type()))
	case *ssa.MakeSlice:
		t := f.Env.subst(x.Type())
		n, ok1 := IntOf(it.get(st, f, x.Len))
		c, ok2 := IntOf(it.get(st, f, x.Cap))
		if !ok1 || !ok2 {
			if ok1 && !ok2 { // unknown capacity hint
				c = n
			} else {
				bail("make with unknown length")
			}
		}
		if n < 0 || c < n {
			return panicV{KStr("makeslice: len out of range")}
		}
		if c > 4096 {
			bail("make of %d elements", c)
		}
		el := t.Underlying().(*types.Slice).Elem()
		a := make(Agg, c)
		for i := range a {
			a[i] = zero(el)
		}
		return Slice{O: st.Alloc(t, a).O, Len: n, Cap: c}
	case *ssa.Range:
		return it.rng(st, it.get(st, f, x.X))
	case *ssa.Next:
		return it.next(st, it.get(st, f, x.Iter).(Iter), x.IsString)
	case *ssa.Slice:
		return it.slice(st, f, x)
	case *ssa.TypeAssert:
		return it.typeAssert(st, it.get(st, f, x.X), f.Env.subst(x.AssertedType), x.CommaOk)
	case *ssa.SliceToArrayPointer:
		a := it.get(st, f, x.X)
		s, ok := a.(Slice)
		n := int(f.Env.subst(x.Type()).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if ok && s.Len >= n && s.Off == 0 {
			return Ptr{s.O, s.Path}
		}
		bail("slice to array pointer of %T", a)
	}
	bail("value %T", v)
	return nil
}

func (it *Interp) retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case Const:
		return Const{x.V, t}
	case Sym:
		return Sym{x.Key, t}
	case Any:
		return Any{t, x.NonEmpty}
	case Nil:
		return Nil{t}
	}
	return v
}

func (it *Interp) convert(st *State, v Value, from, to types.Type) Value {
	if it.ConvHook != nil {
		if r, ok := it.ConvHook(it, st, v, from, to); ok {
			return r
		}
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fs, ts := fb.Info()&types.IsString != 0, tb.Info()&types.IsString != 0
		if fs && ts {
			return it.retype(v, to)
		}
		if c, ok := v.(Const); ok {
			if fb.Info()&types.IsInteger != 0 && ts {
				n, _ := constant.Int64Val(c.V)
				return Const{constant.MakeString(string(rune(n))), to}
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return Const{wrapInt(c.V, tb), to}
			}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return it.retype(v, to)
		}
	}
	return it.opaque(st, to, "convert "+TypeStr(to), v)
}

func wrapInt(v constant.Value, b *types.Basic) constant.Value {
	var bits uint
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	m := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	r := constant.BinaryOp(v, token.AND, constant.BinaryOp(m, token.SUB, constant.MakeInt64(1)))
	if signed && constant.Compare(r, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)) {
		r = constant.BinaryOp(r, token.SUB, m)
	}
	return r
}

// opaque builds the result of an operation that is not modelled.
func (it *Interp) opaque(st *State, t types.Type, op string, as ...Value) Value {
	if it.Finite {
		return Any{T: t}
	}
	return Expand(t, op+"("+st.keys(as, 0)+")")
}

func (it *Interp) binop(st *State, op token.Token, a, b Value, at, t types.Type) Value {
	if it.BinopHook != nil {
		if r, ok := it.BinopHook(it, st, op, a, b, t); ok {
			return r
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if x, ok := a.(Any); ok && it.Finite {
			if s, k := StrOf(b); k && s == "" && x.NonEmpty {
				return KBool(neg)
			}
		}
		r := it.eqRel(st, a, b)
		return KBool(r != neg)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ca, ok1 := a.(Const)
		cb, ok2 := b.(Const)
		if ok1 && ok2 {
			return KBool(constant.Compare(ca.V, op, cb.V))
		}
		if r, ok := a.(Rel); ok {
			if l, ok2 := b.(SeqLen); ok2 && op == token.LSS {
				return KBool(it.seqLess(st, r, l))
			}
		}
		if l, ok := a.(SeqLen); ok {
			if r, ok2 := b.(Rel); ok2 && op == token.GTR {
				return KBool(it.seqLess(st, r, l))
			}
		}
		if l, ok := a.(SeqLen); ok && ok2 { // comparisons of the length with small constants
			return it.seqLenCmp(st, l, op, cb)
		}
		if _, ok := a.(Any); ok {
			return Any{T: t}
		}
		if _, ok := b.(Any); ok {
			return Any{T: t}
		}
		// normal forms over equality with zero for lengths, otherwise an ordered atom
		ka, kb := st.Key(a), st.Key(b)
		if strings.HasPrefix(ka, "len(") && ok2 {
			n, _ := IntOf(cb)
			if (op == token.GTR && n == 0) || (op == token.GEQ && n == 1) {
				return KBool(!it.eq(st, a, KInt(0, nil)))
			}
			if (op == token.LSS && n == 1) || (op == token.LEQ && n == 0) {
				return KBool(it.eq(st, a, KInt(0, nil)))
			}
			if op == token.GEQ && n <= 0 {
				return KBool(true)
			}
			if op == token.LSS && n <= 0 {
				return KBool(false)
			}
		}
		if strings.HasPrefix(kb, "len(") && ok1 {
			n, _ := IntOf(ca)
			if op == token.LSS && n == 0 {
				return KBool(!it.eq(st, b, KInt(0, nil)))
			}
			if op == token.GEQ && n == 0 {
				return KBool(it.eq(st, b, KInt(0, nil)))
			}
		}
		switch op {
		case token.LSS:
			return Sym{"lt(" + ka + "," + kb + ")", t}
		case token.GTR:
			return Sym{"lt(" + kb + "," + ka + ")", t}
		case token.GEQ:
			return Sym{"!lt(" + ka + "," + kb + ")", t}
		default:
			return Sym{"!lt(" + kb + "," + ka + ")", t}
		}
	}
	if bt, ok := at.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && op == token.ADD {
		if x, ok := a.(Any); ok {
			y, _ := b.(Any)
			s, k := StrOf(b)
			return Any{t, x.NonEmpty || y.NonEmpty || k && s != ""}
		}
		if y, ok := b.(Any); ok {
			s, k := StrOf(a)
			return Any{t, y.NonEmpty || k && s != ""}
		}
		return MkCat(a, b)
	}
	ca, ok1 := a.(Const)
	cb, ok2 := b.(Const)
	if ok1 && ok2 {
		switch op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cb.V)
			return fix(constant.Shift(ca.V, op, uint(n)), t)
		case token.QUO:
			if constant.Sign(cb.V) == 0 {
				return panicV{KStr("division by zero")}
			}
			return fix(constant.BinaryOp(ca.V, token.QUO_ASSIGN, cb.V), t)
		case token.REM:
			if constant.Sign(cb.V) == 0 {
				return panicV{KStr("division by zero")}
			}
		}
		return fix(constant.BinaryOp(ca.V, op, cb.V), t)
	}
	if r, ok := a.(Rel); ok && ok2 {
		n, _ := IntOf(cb)
		switch op {
		case token.ADD:
			return Rel{r.C + n}
		case token.SUB:
			return Rel{r.C - n}
		}
	}
	if l, ok := a.(SeqLen); ok && ok2 && op == token.SUB {
		n, _ := IntOf(cb)
		return SeqLen{l.Off + n}
	}
	return it.opaque(st, t, op.String(), a, b)
}

func fix(v constant.Value, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.Kind() == constant.Int {
		return Const{wrapInt(v, b), t}
	}
	return Const{v, t}
}

func (it *Interp) eqRel(st *State, a, b Value) bool {
	if _, ok := b.(SeqLen); ok {
		a, b = b, a
	}
	if l, ok := a.(SeqLen); ok {
		if c, ok := b.(Const); ok {
			r := it.seqLenCmp(st, l, token.EQL, c)
			return constant.BoolVal(r.(Const).V)
		}
		if r, ok := b.(Rel); ok {
			return !it.seqLess(st, r, l)
		}
	}
	return it.eq(st, a, b)
}

// ---- the abstract input sequence
//
// Elements are produced one at a time. st.Taken counts them, st.Cur is the last one. An index is relative: Rel{0} is the
// next element, Rel{-1} the last one taken; all in absolute positions of the underlying sequence (slices of it shift).

type seqElem struct{ v Value }

func (it *Interp) seqLess(st *State, r Rel, l SeqLen) bool {
	// index r (relative to the slice it belongs to, see indexAddr) compared with the slice's length
	if r.C < 0 {
		return true
	}
	if r.C > 0 {
		bail("index beyond the next element of the input")
	}
	el, _, end := it.Seq(st.SeqSt)
	if len(el) == 0 {
		return false
	}
	if !end {
		return true
	}
	return st.Free()
}

func (it *Interp) seqLenCmp(st *State, l SeqLen, op token.Token, c Const) Value {
	// only decided before anything was taken: the sequence is known to have at least the elements of its automaton
	min := 0
	s := 0
	for {
		el, nx, end := it.Seq(s)
		if end || len(el) != 1 {
			break
		}
		min++
		s = nx[0]
	}
	n, _ := IntOf(c)
	switch op {
	case token.EQL:
		if n < min-l.Off {
			return KBool(false)
		}
	case token.LSS:
		if n <= min-l.Off {
			return KBool(false)
		}
	case token.LEQ:
		if n < min-l.Off {
			return KBool(false)
		}
	case token.GTR:
		if n < min-l.Off {
			return KBool(true)
		}
	case token.GEQ:
		if n <= min-l.Off {
			return KBool(true)
		}
	}
	return KBool(st.Free())
}

// take returns the element at a relative position.
func (it *Interp) seqAt(st *State, c int) Value {
	if c == -1 && st.Cur != nil {
		return st.Cur
	}
	if c != 0 {
		bail("input element at relative position %d", c)
	}
	el, nx, end := it.Seq(st.SeqSt)
	if len(el) == 0 {
		return panicV{KStr("index out of range of the input")}
	}
	if end && st.Free() {
		return panicV{KStr("index out of range of the input")}
	}
	k := 0
	for k < len(el)-1 && !st.Free() {
		k++
	}
	st.Cur = el[k]
	st.SeqSt = nx[k]
	st.Taken++
	for _, f := range st.Frames {
		for r, v := range f.Regs {
			if x, ok := v.(Rel); ok {
				f.Regs[r] = Rel{x.C - 1}
			}
		}
	}
	return el[k]
}

func (it *Interp) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	a, i := it.get(st, f, x.X), it.get(st, f, x.Index)
	if s, ok := a.(Seq); ok {
		var rel int
		switch j := i.(type) {
		case Rel:
			rel = j.C
		case Const:
			n, _ := IntOf(j)
			rel = n + s.Off - st.Taken
		default:
			bail("index %T of the input", i)
		}
		v := it.seqAt(st, rel)
		if p, ok := v.(panicV); ok {
			return p
		}
		// a read-only cell
		return st.Alloc(nil, seqElem{v})
	}
	n, ok := IntOf(i)
	if !ok {
		if ptr, k := a.(Ptr); k && it.Finite {
			_ = ptr
		}
		bail("index %s of %T", st.Key(i), a)
	}
	switch s := a.(type) {
	case Slice:
		if n < 0 || n >= s.Len {
			return panicV{KStr("index out of range")}
		}
		return Ptr{s.O, pathPush(s.Path, s.Off+n)}
	case Nil:
		return panicV{KStr("index out of range")}
	case Ptr:
		ar, ok := st.Load(s).(Agg)
		if !ok {
			bail("index into %T", st.Load(s))
		}
		if n < 0 || n >= len(ar) {
			return panicV{KStr("index out of range")}
		}
		return Ptr{s.O, pathPush(s.Path, n)}
	}
	bail("index of %T", a)
	return nil
}

func (it *Interp) lookup(st *State, f *Frame, x *ssa.Lookup) Value {
	m, k := it.get(st, f, x.X), it.get(st, f, x.Index)
	t := f.Env.subst(x.X.Type())
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		n, ok := IntOf(k)
		if s, k2 := StrOf(m); k2 && ok {
			if n < 0 || n >= len(s) {
				return panicV{KStr("index out of range")}
			}
			return KInt(int64(s[n]), types.Typ[types.Byte])
		}
		if it.Finite {
			return Any{T: types.Typ[types.Byte]}
		}
		if ok && n == 0 {
			if it.eq(st, m, KStr("")) {
				return panicV{KStr("index out of range")}
			}
		}
		return Sym{"index(" + st.Key(m) + "," + st.Key(k) + ")", types.Typ[types.Byte]}
	}
	et := t.Underlying().(*types.Map).Elem()
	var v Value
	var found bool
	switch mm := m.(type) {
	case Map:
		v, found = it.mapGet(st, mm, k)
	case Nil:
	case Sym:
		if !it.isNil(st, mm) {
			found = st.Decide("has(" + mm.Key + "," + st.Key(k) + ")")
			v = Expand(et, mm.Key+"["+st.Key(k)+"]")
		}
	case Any:
		found = st.Free()
		v = it.unknown(et, "")
	default:
		bail("lookup in %T", m)
	}
	if !found {
		v = zero(et)
	}
	if x.CommaOk {
		return Tuple{v, KBool(found)}
	}
	return v
}

func (it *Interp) rng(st *State, v Value) Value {
	switch m := v.(type) {
	case Map:
		return Iter{st.Alloc(nil, Agg{KInt(0, nil), m}).O}
	case Nil:
		return Iter{st.Alloc(nil, Agg{KInt(0, nil), st.NewMap(m.T)}).O}
	}
	if s, ok := StrOf(v); ok {
		return Iter{st.Alloc(nil, Agg{KInt(0, nil), KStr(s)}).O}
	}
	bail("range over %T", v)
	return nil
}

func (it *Interp) next(st *State, x Iter, str bool) Value {
	a := st.objs[x.O].(Agg)
	i, _ := IntOf(a[0])
	if str {
		s, _ := StrOf(a[1])
		if i >= len(s) {
			return Tuple{KBool(false), KInt(0, nil), KInt(0, types.Typ[types.Rune])}
		}
		for j, r := range s[i:] {
			if j == 0 {
				st.objs[x.O] = Agg{KInt(int64(i+len(string(r))), nil), a[1]}
				return Tuple{KBool(true), KInt(int64(i), nil), KInt(int64(r), types.Typ[types.Rune])}
			}
		}
	}
	st.touch(a[1].(Map).O, false)
	c := st.objs[a[1].(Map).O].(*MapC)
	if i >= len(c.K) {
		return Tuple{KBool(false), nil, nil}
	}
	st.objs[x.O] = Agg{KInt(int64(i+1), nil), a[1]}
	return Tuple{KBool(true), c.K[i], c.V[i]}
}

func (it *Interp) slice(st *State, f *Frame, x *ssa.Slice) Value {
	a := it.get(st, f, x.X)
	bound := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		return IntOf(it.get(st, f, v))
	}
	if s, ok := a.(Seq); ok {
		lo, ok := bound(x.Low, 0)
		if !ok || x.High != nil || x.Max != nil {
			bail("reslicing the input")
		}
		return Seq{s.Off + lo}
	}
	if s, ok := StrOf(a); ok {
		lo, ok1 := bound(x.Low, 0)
		hi, ok2 := bound(x.High, len(s))
		if ok1 && ok2 {
			if lo < 0 || hi > len(s) || lo > hi {
				return panicV{KStr("slice bounds out of range")}
			}
			return KStr(s[lo:hi])
		}
	}
	var s Slice
	switch b := a.(type) {
	case Slice:
		s = b
	case Ptr:
		ar, ok := st.Load(b).(Agg)
		if !ok {
			bail("slice of %T", st.Load(b))
		}
		s = Slice{O: b.O, Path: b.Path, Len: len(ar), Cap: len(ar)}
	case Nil:
		lo, ok1 := bound(x.Low, 0)
		hi, ok2 := bound(x.High, 0)
		if !ok1 || !ok2 {
			bail("slice bounds")
		}
		if lo != 0 || hi != 0 {
			return panicV{KStr("slice bounds out of range")}
		}
		return b
	default:
		if t, ok := f.Env.subst(x.X.Type()).Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
			return it.opaque(st, f.Env.subst(x.Type()), "substring", a)
		}
		bail("slice of %T", a)
	}
	lo, ok1 := bound(x.Low, 0)
	hi, ok2 := bound(x.High, s.Len)
	mx, ok3 := bound(x.Max, s.Cap)
	if !ok1 || !ok2 || !ok3 {
		bail("slice bounds")
	}
	if lo < 0 || hi < lo || mx < hi || mx > s.Cap {
		return panicV{KStr("slice bounds out of range")}
	}
	return Slice{s.O, s.Path, s.Off + lo, hi - lo, mx - lo}
}

func (it *Interp) typeAssert(st *State, v Value, t types.Type, commaOk bool) Value {
	ok := false
	var r Value
	switch x := v.(type) {
	case Nil:
	case Iface:
		if it.Implements(x.T, t) {
			ok = true
			r = x
			if !isIfaceT(t) {
				r = x.V
			}
		}
	case RT:
		ok, r = isIfaceT(t), x
	case Sym:
		if isIfaceT(t) {
			if u, k := st.dyn[x.Key]; k {
				ok = it.Implements(u, t)
			} else if it.ifaceCovers(x.T, t) {
				ok = !it.isNil(st, x)
			} else if !it.isNil(st, x) {
				ok = st.Decide("impl(" + x.Key + "," + TypeStr(t) + ")")
			}
			r = Sym{x.Key, t}
		} else {
			if u, k := st.dyn[x.Key]; k {
				ok = types.Identical(u, t)
			} else if !it.isNil(st, x) {
				ok = st.Decide("is(" + x.Key + "," + TypeStr(t) + ")")
				if ok {
					st.dyn[x.Key] = t
				}
			}
			r = Expand(t, x.Key+".("+TypeStr(t)+")")
		}
	case Any:
		ok = st.Free()
		r = it.unknown(t, "")
		if isIfaceT(t) {
			r = Any{T: t}
		}
	default:
		bail("type assertion on %T", v)
	}
	if commaOk {
		if !ok {
			r = zero(t)
		}
		return Tuple{r, KBool(ok)}
	}
	if !ok {
		return panicV{KStr("failed type assertion to " + TypeStr(t))}
	}
	return r
}

// Implements reports whether a value of dynamic type u satisfies the assertion to t.
func (it *Interp) Implements(u, t types.Type) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(u, i)
	}
	return types.Identical(u, t)
}

func (it *Interp) ifaceCovers(have, want types.Type) bool {
	if have == nil {
		return false
	}
	h, ok1 := have.Underlying().(*types.Interface)
	w, ok2 := want.Underlying().(*types.Interface)
	return ok1 && ok2 && types.Implements(h, w)
}

// ---- calls

func (it *Interp) callee(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, it.get(st, f, a))
	}
	if !c.IsInvoke() {
		return it.get(st, f, c.Value), args
	}
	recv := it.get(st, f, c.Value)
	if tp, ok := types.Unalias(c.Value.Type()).(*types.TypeParam); ok {
		// method of a type parameter: the receiver is a concrete value
		ct := f.Env.subst(tp)
		if !isIfaceT(ct) {
			recv = Iface{ct, recv}
		}
	}
	return invokeV{recv, c.Method}, args
}

type invokeV struct {
	recv Value
	m    *types.Func
}

// MethodOf finds the function implementing a method of a concrete type.
func (it *Interp) MethodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := it.P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return it.P.SSA.MethodValue(sel)
}

// call returns done=true with the result, or done=false after pushing a frame.
func (it *Interp) call(st *State, f *Frame, to ssa.Instruction, fv Value, args []Value) (bool, Value) {
	switch x := fv.(type) {
	case invokeV:
		switch r := x.recv.(type) {
		case Nil:
			return true, panicV{KStr("method call on nil interface: " + x.m.Name())}
		case Iface:
			if fn := it.MethodOf(r.T, x.m); fn != nil {
				return it.callFn(st, f, to, fn, nil, nil, append([]Value{r.V}, args...))
			}
			bail("method %s of %s", x.m.Name(), TypeStr(r.T))
		case RT:
			v := it.rtypeMethod(st, r.T, x.m.Name(), args)
			return true, v
		case Sym:
			if it.isNil(st, r) {
				return true, panicV{KStr("method call on nil interface: " + x.m.Name())}
			}
			if it.Invoke != nil {
				if v, ok := it.Invoke(it, st, r, x.m, args); ok {
					return true, v
				}
			}
			return true, it.unknownCall(st, r.Key+"."+x.m.Name(), x.m.Type().(*types.Signature).Results(), args)
		case Any:
			if it.Invoke != nil {
				if v, ok := it.Invoke(it, st, r, x.m, args); ok {
					return true, v
				}
			}
			return true, it.unknown(x.m.Type().(*types.Signature).Results(), x.m.Name())
		}
		bail("method %s on %T", x.m.Name(), x.recv)
	case Fn:
		if x.B != nil {
			return true, it.builtin(st, f, x.B, args, to)
		}
		return it.callFn(st, f, to, x.F, x.Env, x.Bind, args)
	case Nil:
		return true, panicV{KStr("call of nil function")}
	case Sym:
		if sg, ok := x.T.Underlying().(*types.Signature); ok {
			if it.Opaque != nil {
				if v, ok := it.Opaque(it, st, x, args); ok {
					return true, v
				}
			}
			return true, it.unknownCall(st, x.Key, sg.Results(), args)
		}
	}
	bail("call of %T", fv)
	return false, nil
}

// unknownCall: an uninterpreted function of its arguments; builders passed to it receive a marker.
func (it *Interp) unknownCall(st *State, name string, res *types.Tuple, args []Value) Value {
	key := name + "(" + st.keys(args, 0) + ")"
	for _, a := range args {
		if i, ok := a.(Iface); ok {
			a = i.V
		}
		if p, ok := a.(Ptr); ok {
			if b, ok := st.buildOf(p); ok {
				st.Store(p, Build{cat(b.C, Sym{"⟦" + key + "⟧", types.Typ[types.String]})})
			}
		}
	}
	st.Log = append(st.Log, "call "+key)
	return it.unknown(res, key)
}

func cat(c Cat, v Value) Cat {
	switch r := MkCat(c, v).(type) {
	case Cat:
		return r
	case Const:
		if s, _ := StrOf(r); s == "" {
			return Cat{}
		}
		return Cat{r}
	default:
		return Cat{r}
	}
}

func (st *State) buildOf(p Ptr) (Build, bool) {
	if st.objs[p.O] == nil {
		return Build{}, false
	}
	b, ok := st.Load(p).(Build)
	if ok {
		return b, true
	}
	if t := st.otype[p.O]; t != nil && p.Path == "" && TypeStr(t) == "strings.Builder" {
		return Build{}, true
	}
	return Build{}, false
}

func name(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (it *Interp) callFn(st *State, f *Frame, to ssa.Instruction, fn *ssa.Function, env *Tenv, bind, args []Value) (bool, Value) {
	if it.CallHook != nil {
		if v, ok := it.CallHook(it, st, fn, args); ok {
			return true, v
		}
	}
	if m, ok := it.Models[name(fn)]; ok {
		e := env
		if o := fn.Origin(); o != nil && o != fn {
			e = &Tenv{m: map[*types.TypeParam]types.Type{}}
			if tps := o.TypeParams(); tps != nil {
				for i, t := range fn.TypeArgs() {
					e.m[tps.At(i)] = env.subst(t)
				}
			}
		}
		if v, ok := m(it, st, fn, e, args); ok {
			if tc, ok := v.(TailCall); ok {
				return it.callFn(st, f, to, tc.F, tc.Env, tc.Bind, tc.Args)
			}
			return true, v
		}
	}
	if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && len(st.Frames) > 0 && fn.Pkg != st.Frames[0].Fn.Pkg {
		return true, nil // another package's initialiser
	}
	repo := len(fn.Blocks) > 0
	if o := fn.Origin(); o != nil && len(o.Blocks) > 0 {
		repo = true
	}
	if !repo {
		if len(fn.Blocks) == 0 && fn.Pkg == nil && fn.Synthetic != "" {
			bail("synthetic function %s", fn)
		}
		n := name(fn)
		if pureExternal(n) {
			return true, it.pure(st, n, fn, args)
		}
		return true, it.unknownCall(st, n, fn.Signature.Results(), args)
	}
	var env2 *Tenv
	if fn.Parent() != nil {
		env2 = env // closures share the type arguments of their parent
	} else if fn.Origin() != nil {
		env2 = env
	}
	it.push(st, fn, env2, bind, args, to)
	return false, nil
}

// pure: an external function without effects.
func (it *Interp) pure(st *State, n string, fn *ssa.Function, args []Value) Value {
	return it.unknown(fn.Signature.Results(), n+"("+st.keys(args, 0)+")")
}

func (it *Interp) builtin(st *State, f *Frame, b *ssa.Builtin, args []Value, to ssa.Instruction) Value {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				return KInt(int64(x.Cap), nil)
			}
			return KInt(int64(x.Len), nil)
		case Nil:
			return KInt(0, nil)
		case Map:
			st.touch(x.O, false)
			return KInt(int64(len(st.objs[x.O].(*MapC).K)), nil)
		case Const:
			s, _ := StrOf(x)
			return KInt(int64(len(s)), nil)
		case Seq:
			return SeqLen{x.Off}
		case Any:
			return Any{T: types.Typ[types.Int]}
		case Agg:
			return KInt(int64(len(x)), nil)
		case Ptr:
			return KInt(int64(len(st.Load(x).(Agg))), nil)
		case Sym:
			return Sym{b.Name() + "(" + x.Key + ")", types.Typ[types.Int]}
		}
		return it.opaque(st, types.Typ[types.Int], b.Name(), args[0])
	case "append":
		var es []Value
		switch y := args[1].(type) {
		case Slice:
			es = st.Elems(y)
		case Nil:
		case Const:
			s, _ := StrOf(y)
			for i := 0; i < len(s); i++ {
				es = append(es, KInt(int64(s[i]), types.Typ[types.Byte]))
			}
		default:
			bail("append of %T", args[1])
		}
		switch x := args[0].(type) {
		case Nil:
			if len(es) == 0 {
				return x
			}
			return st.NewSlice(x.T, es...)
		case Slice:
			if x.Len+len(es) <= x.Cap {
				for i, e := range es {
					st.Store(Ptr{x.O, pathPush(x.Path, x.Off+x.Len+i)}, e)
				}
				x.Len += len(es)
				return x
			}
			return st.NewSlice(st.otype[x.O], append(st.Elems(x), es...)...)
		}
		bail("append to %T", args[0])
	case "copy":
		d, ok1 := args[0].(Slice)
		var es []Value
		switch y := args[1].(type) {
		case Slice:
			es = st.Elems(y)
		case Nil:
		default:
			bail("copy from %T", args[1])
		}
		if _, k := args[0].(Nil); k {
			return KInt(0, nil)
		}
		if !ok1 {
			bail("copy to %T", args[0])
		}
		n := d.Len
		if len(es) < n {
			n = len(es)
		}
		for i := 0; i < n; i++ {
			st.Store(Ptr{d.O, pathPush(d.Path, d.Off+i)}, es[i])
		}
		return KInt(int64(n), nil)
	case "delete":
		switch m := args[0].(type) {
		case Map:
			it.mapDel(st, m, args[1])
		case Nil:
		case Sym:
			st.Log = append(st.Log, fmt.Sprintf("mapdel %s[%s]", m.Key, st.Key(args[1])))
		default:
			bail("delete from %T", args[0])
		}
		return nil
	case "ssa:wrapnilchk":
		if _, ok := args[0].(Nil); ok {
			return panicV{KStr("nil receiver")}
		}
		return args[0]
	case "print", "println":
		return nil
	case "recover":
		if f.unwind != nil && !f.recovered {
			f.recovered = true
			if i, ok := f.unwind.Panic.(Iface); ok {
				return i
			}
			return Sym{"panic value", types.NewInterfaceType(nil, nil)}
		}
		return Nil{types.NewInterfaceType(nil, nil)}
	case "min", "max":
		c := args[0]
		for _, a := range args[1:] {
			x, ok1 := c.(Const)
			y, ok2 := a.(Const)
			if !ok1 || !ok2 {
				bail("min/max of unknown values")
			}
			if constant.Compare(y.V, map[string]token.Token{"min": token.LSS, "max": token.GTR}[b.Name()], x.V) {
				c = y
			}
		}
		return c
	case "clear":
		if m, ok := args[0].(Map); ok {
			st.touch(m.O, true)
			st.objs[m.O] = &MapC{}
			return nil
		}
	}
	bail("builtin %s", b.Name())
	return nil
}

// box makes an interface value; the concrete part of an opaque interface value becomes that value again.
func box(t types.Type, v Value) Value {
	if s, ok := v.(Sym); ok {
		if suf := ".(" + TypeStr(t) + ")"; strings.HasSuffix(s.Key, suf) {
			return Sym{strings.TrimSuffix(s.Key, suf), anyT}
		}
	}
	return Iface{t, v}
}

var anyT = types.NewInterfaceType(nil, nil)
