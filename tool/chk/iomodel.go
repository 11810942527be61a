package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

// bufV is the content of a byte stream or of a bytes.Buffer (immutable).
type bufV struct {
	data []vg.Value // everything written to it or available for reading
	pos  int        // what has been read
	room int        // bytes that can still be written (-1: unlimited)
	werr vg.Value   // error if there is no room
	rerr vg.Value   // error at the end of the data (nil: io.EOF)
}

func (b *bufV) MergeDom(it *vg.Interp, alts []vg.ChoiceAlt) vg.Value {
	for _, a := range alts {
		o := a.V.(*bufV)
		if len(o.data) != len(b.data) || o.pos != b.pos || o.room != b.room {
			return &vg.ChoiceV{A: alts}
		}
	}
	n := *b
	n.data = nil
	for i := range b.data {
		var al []vg.ChoiceAlt
		for _, a := range alts {
			al = append(al, vg.ChoiceAlt{C: a.C, V: a.V.(*bufV).data[i]})
		}
		n.data = append(n.data, it.Merge(al))
	}
	return &n
}

func (b *bufV) SameDom(o vg.Value) bool { return b == o }

// iom models byte streams.
type iom struct {
	e      *Env
	T      *types.Named // the dynamic type of model streams
	n      int
	custom vg.Value
}

func newIOM(e *Env) *iom {
	m := &iom{e: e}
	pkg := types.NewPackage("verif/model", "model")
	m.T = types.NewNamed(types.NewTypeName(token.NoPos, pkg, "stream", nil), types.NewStruct(nil, nil), nil)
	errT := types.Universe.Lookup("error").Type()
	recv := types.NewPointer(m.T)
	for _, name := range []string{"Read", "Write"} {
		sig := types.NewSignatureType(types.NewVar(0, pkg, "s", recv), nil, nil,
			types.NewTuple(types.NewVar(0, pkg, "b", types.NewSlice(types.Typ[types.Byte]))),
			types.NewTuple(types.NewVar(0, pkg, "n", types.Typ[types.Int]), types.NewVar(0, pkg, "err", errT)), false)
		m.T.AddMethod(types.NewFunc(0, pkg, name, sig))
	}
	m.custom = vg.IfaceV{T: errT, V: vg.OpaqueV{Why: "error of the stream"}}
	e.It.ExternErr = func(g *ssa.Global) bool { return g.Pkg.Pkg.Path() == "io" }
	leaf := e.It.Leaf
	e.It.Leaf = func(t types.Type) (vg.Value, bool) {
		if isBuffer(t) {
			return &bufV{room: -1}, true
		}
		if leaf != nil {
			return leaf(t)
		}
		return nil, false
	}
	e.It.Models = append([]vg.Model{m.model}, e.It.Models...)
	e.It.Iface = func(st *vg.State, r vg.IfaceV, name string, args []vg.Value) (vg.Value, bool) {
		if _, _, ok := m.get(st, r); !ok {
			return nil, false
		}
		return m.method(st, r, name, args)
	}
	return m
}

func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && (n.Obj().Name() == "Buffer" || n.Obj().Name() == "Reader")
}

// reader makes a stream with data that ends with an error.
func (m *iom) stream(b *bufV) vg.PtrV {
	m.n++
	return m.e.It.NewObj(m.e.St, fmt.Sprintf("stream%d", m.n), m.T, b)
}

func (m *iom) iface(p vg.PtrV) vg.Value { return vg.IfaceV{T: types.NewPointer(m.T), V: p} }

// bufAlt is a possible content of a stream on the current path.
type bufAlt struct {
	C alg.Bdd
	b *bufV
}

// get finds the buffer behind a pointer or interface.
func (m *iom) get(st *vg.State, v vg.Value) (p vg.PtrV, out []bufAlt, ok bool) {
	it := m.e.It
	v = it.Force(v)
	if i, is := v.(vg.IfaceV); is {
		v = it.Force(i.V)
	}
	p, ok = v.(vg.PtrV)
	if !ok {
		return
	}
	switch x := it.Force(it.Load(st, p)).(type) {
	case *bufV:
		return p, []bufAlt{{alg.True, x}}, true
	case *vg.ChoiceV:
		for _, a := range x.A {
			if it.C.And(a.C, it.PathCond()) == alg.False {
				continue
			}
			b, is := it.Force(a.V).(*bufV)
			if !is {
				return p, nil, false
			}
			out = append(out, bufAlt{a.C, b})
		}
		return p, out, len(out) > 0
	}
	return p, nil, false
}

// do runs an operation on the content of a stream.
func (m *iom) do(st *vg.State, at vg.Value, f func(b *bufV) (vg.Value, *bufV, []vg.Value, bool), dst vg.Value) (vg.Value, bool) {
	it := m.e.It
	p, alts, ok := m.get(st, at)
	if !ok {
		return nil, false
	}
	var res, nb []vg.ChoiceAlt
	type fill struct {
		c alg.Bdd
		d []vg.Value
	}
	var fills []fill
	for _, a := range alts {
		r, b, d, ok := f(a.b)
		if !ok {
			return nil, false
		}
		if t, is := r.(*vg.TupleV); is && len(t.E) == 0 {
			r = nil
		}
		if r != nil {
			res = append(res, vg.ChoiceAlt{C: a.C, V: r})
		}
		nb = append(nb, vg.ChoiceAlt{C: a.C, V: b})
		fills = append(fills, fill{a.C, d})
	}
	// alternatives that were dropped are not on this path: complete the last one
	rest := alg.True
	for i := range nb {
		if i == len(nb)-1 {
			nb[i].C = rest
			if len(res) == len(nb) {
				res[i].C = rest
			}
			fills[i].c = rest
		}
		rest = it.C.And(rest, it.C.Not(nb[i].C))
	}
	it.Store(st, p, it.Merge(nb))
	if sl, is := dst.(vg.SliceV); is {
		for i := 0; i < sl.Len; i++ {
			q := vg.SliceElemPtr(sl, i)
			old := it.Load(st, q)
			var al []vg.ChoiceAlt
			for _, f := range fills {
				v := old
				if i < len(f.d) {
					v = f.d[i]
				}
				al = append(al, vg.ChoiceAlt{C: f.c, V: v})
			}
			it.Store(st, q, it.Merge(al))
		}
	}
	if len(res) == 0 {
		return &vg.TupleV{}, true
	}
	if t0, is := res[0].V.(*vg.TupleV); is { // merge componentwise
		t := &vg.TupleV{}
		for k := range t0.E {
			var al []vg.ChoiceAlt
			for _, r := range res {
				al = append(al, vg.ChoiceAlt{C: r.C, V: r.V.(*vg.TupleV).E[k]})
			}
			t.E = append(t.E, it.Merge(al))
		}
		return t, true
	}
	return it.Merge(res), true
}

// global loads an error variable of the standard library.
func (m *iom) global(pkg, name string) vg.Value {
	if p := m.e.R.P.SSA.ImportedPackage(pkg); p != nil {
		if g := p.Var(name); g != nil {
			return m.e.It.Load(m.e.St, vg.PtrV{O: m.e.It.GlobalObj(g)})
		}
	}
	panic(vg.Undecided{Msg: "variable " + pkg + "." + name + " not found"})
}

func (m *iom) bytesOf(st *vg.State, v vg.Value) ([]vg.Value, bool) {
	switch s := m.e.It.Force(v).(type) {
	case vg.NilV:
		return nil, true
	case vg.SliceV:
		var out []vg.Value
		for i := 0; i < s.Len; i++ {
			out = append(out, m.e.It.Load(st, vg.SliceElemPtr(s, i)))
		}
		return out, true
	}
	return nil, false
}

func (m *iom) slice(st *vg.State, d []vg.Value) vg.Value {
	p := m.e.It.NewObj(st, "bytes", types.NewArray(types.Typ[types.Byte], int64(len(d))), &vg.AggV{E: append([]vg.Value{}, d...)})
	return vg.SliceV{Base: p, Len: len(d), Cap: len(d)}
}

func kint(n int) vg.Value { return vg.KInt(int64(n), 64, true) }

// write appends as much of d as there is room for.
func (m *iom) write(b *bufV, d []vg.Value) (int, vg.Value, *bufV) {
	n := len(d)
	var err vg.Value = vg.NilV{}
	nb := *b
	if b.room >= 0 {
		if n > b.room {
			n = b.room
			err = b.werr
		}
		nb.room -= n
	}
	nb.data = append(append([]vg.Value{}, b.data...), d[:n]...)
	return n, err, &nb
}

// read takes up to len(buf) bytes; full demands all of them (io.ReadFull).
func (m *iom) read(st *vg.State, at, buf vg.Value, full bool) (vg.Value, bool) {
	buf = m.e.It.Force(buf)
	s, ok := buf.(vg.SliceV)
	if !ok {
		if _, ok := buf.(vg.NilV); !ok {
			return nil, false
		}
	}
	return m.do(st, at, func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
		n := len(b.data) - b.pos
		var err vg.Value = vg.NilV{}
		if n >= s.Len {
			n = s.Len
		} else {
			switch {
			case b.rerr != nil && (full || n == 0):
				err = b.rerr
			case n == 0:
				err = m.global("io", "EOF")
			case full:
				err = m.global("io", "ErrUnexpectedEOF")
			}
		}
		nb := *b
		nb.pos += n
		return &vg.TupleV{E: []vg.Value{kint(n), err}}, &nb, b.data[b.pos : b.pos+n], true
	}, buf)
}

func (m *iom) method(st *vg.State, at vg.Value, name string, args []vg.Value) (vg.Value, bool) {
	type ret = func(b *bufV) (vg.Value, *bufV, []vg.Value, bool)
	do := func(f ret) (vg.Value, bool) { return m.do(st, at, f, nil) }
	switch name {
	case "Write":
		d, ok := m.bytesOf(st, args[0])
		if !ok {
			return nil, false
		}
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
			n, err, nb := m.write(b, d)
			return &vg.TupleV{E: []vg.Value{kint(n), err}}, nb, nil, true
		})
	case "WriteByte":
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
			_, err, nb := m.write(b, []vg.Value{args[0]})
			return err, nb, nil, true
		})
	case "Read":
		return m.read(st, at, args[0], false)
	case "ReadByte":
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
			if b.pos == len(b.data) {
				err := b.rerr
				if err == nil {
					err = m.global("io", "EOF")
				}
				return &vg.TupleV{E: []vg.Value{vg.KInt(0, 8, false), err}}, b, nil, true
			}
			nb := *b
			nb.pos++
			return &vg.TupleV{E: []vg.Value{b.data[b.pos], vg.NilV{}}}, &nb, nil, true
		})
	case "Len":
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) { return kint(len(b.data) - b.pos), b, nil, true })
	case "Bytes":
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) { return m.slice(st, b.data[b.pos:]), b, nil, true })
	case "Next":
		k, ok := vg.ConstInt(m.e.It.Force(args[0]))
		if !ok || !k.IsInt64() || k.Sign() < 0 {
			return nil, false
		}
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
			n := len(b.data) - b.pos
			if k.Int64() < int64(n) {
				n = int(k.Int64())
			}
			nb := *b
			nb.pos += n
			return m.slice(st, b.data[b.pos:b.pos+n]), &nb, nil, true
		})
	case "Reset":
		return do(func(b *bufV) (vg.Value, *bufV, []vg.Value, bool) {
			nb := *b
			nb.data, nb.pos = nil, 0
			return nil, &nb, nil, true
		})
	case "Grow":
		return &vg.TupleV{}, true
	}
	return nil, false
}

func (m *iom) model(it *vg.Interp, st *vg.State, in ssa.CallInstruction, fn *ssa.Function, args []vg.Value) (vg.Value, bool) {
	if fn == nil {
		return nil, false
	}
	name := fn.RelString(nil)
	switch name {
	case "io.ReadFull":
		return m.read(st, args[0], args[1], true)
	case "bytes.NewBuffer", "bytes.NewReader":
		d, ok := m.bytesOf(st, args[0])
		if !ok {
			return nil, false
		}
		return it.NewObj(st, "buffer", Elem(fn.Signature.Results().At(0).Type()), &bufV{data: d, room: -1}), true
	case "errors.Is":
		w := errChains(it, args[1])
		if len(w) != 1 || strings.Contains(w[0].chain, "unknown error") {
			return nil, false
		}
		return vg.BoolV{B: m.e.isErr(args[0], w[0].chain)}, true
	}
	if fn.Signature.Recv() != nil && isBuffer(Elem(fn.Signature.Recv().Type())) {
		return m.method(st, args[0], fn.Name(), args[1:])
	}
	if o := fn.Origin(); o != nil && strings.HasSuffix(fn.RelString(nil), "GetData_map") || strings.HasSuffix(name, "/errorsWithData.GetData_map") {
		// errors that come directly from a stream carry no data
		ch := errChains(it, args[0])
		for _, c := range ch {
			if strings.Count(c.chain, " < ") > 1 {
				return nil, false
			}
		}
		return vg.NilV{}, true
	}
	return nil, false
}

// wraps is the condition for an error to wrap the given one.
func (m *iom) wraps(err, target vg.Value) alg.Bdd {
	w := errChains(m.e.It, target)
	return m.e.isErr(err, w[0].chain)
}
