package chk

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

func init() {
	register(&Property{ID: "F07", Level: "proof", Technique: techVG, F: runF07,
		Note: "Serialization of 256-bit integers and field elements: all values, all contents of the input, every prefix length and prefix, both byte orders, every number of bytes the stream accepts or delivers before it fails; the streams themselves (io.Writer, io.ReadFull, bytes.Buffer) are modelled by their documented contracts."})
}

// ser is one analysed call of a (de)serialization function.
type ser struct {
	*Env
	m      *iom
	fn     *ssa.Function
	big    bool
	fe     bool // field element, else Uint256
	z      vg.Value
	zP     *alg.Poly // what is stored in the receiver initially
	iface  vg.Value  // receiver as an interface (for free functions)
	order  vg.Value
	bits   *alg.Poly // prefix
	plen   int
	header vg.Value
}

func orderName(big bool) string {
	if big {
		return "BigEndian"
	}
	return "LittleEndian"
}

func (r *Run) newSer(rule, what string, fn *ssa.Function, bigE bool) *ser {
	s := &ser{Env: r.NewEnv(rule, fmt.Sprintf("%s, %s: %s", shortFn(fn.String()), orderName(bigE), what), fn), fn: fn, big: bigE}
	s.It.ErrData = map[string][]vg.ChoiceAlt{}
	s.m = newIOM(s.Env)
	s.useMontgomery(true)
	g := r.P.Global("bandersnatch/common", orderName(bigE))
	if g == nil {
		panic(vg.Undecided{Msg: "common." + orderName(bigE) + " not found"})
	}
	s.order = s.It.Load(s.St, vg.PtrV{O: s.It.GlobalObj(g)})
	return s
}

// recv makes the object that is (de)serialized.
func (s *ser) recv() {
	name := "Uint256"
	if s.fe {
		name = feT
	}
	t := s.R.P.Type(fe, name)
	hi := (*big.Int)(nil)
	if s.fe {
		hi = ivC()
	}
	s.z, s.zP = s.MakeArg("z", types.NewPointer(types.Unalias(t)), hi)
	s.iface = vg.IfaceV{T: types.NewPointer(types.Unalias(t)), V: s.z}
}

// bitHeader makes a header with symbolic bits.
func (s *ser) bitHeader(l int) {
	s.plen = l
	b := s.It.FreshInt("prefix", alg.KInput, new(big.Int), sub1(two(uint(l))), 8, false)
	s.bits = b.R.P
	mk := s.R.P.Func("bandersnatch/common", "MakeBitHeader")
	if mk == nil {
		panic(vg.Undecided{Msg: "common.MakeBitHeader not found"})
	}
	res, _ := s.It.Call(s.St, mk, []vg.Value{b, vg.KInt(int64(l), 8, false)}, nil)
	if len(res) != 1 {
		panic(vg.Undecided{Msg: "common.MakeBitHeader does not return"})
	}
	s.header = res[0]
}

// value is the integer that is transmitted for the receiver: canonical, without Montgomery factor.
func (s *ser) checkSent(what string, cond alg.Bdd, sent *alg.Poly) {
	// sent = v + bits * 2^(256-plen)
	v := sent
	if s.bits != nil {
		v = v.Sub(s.bits.Scale(two(uint(256 - s.plen))))
	}
	if s.fe {
		s.ModZ(what+": the value is the field element", cond, v.Scale(R256).Sub(s.zP), Pbase)
		s.In(what+": the value is canonical", cond, v, new(big.Int), sub1(Pbase))
		return
	}
	s.Zero(what+": the value is the integer", cond, v.Sub(s.zP))
}

func (s *ser) number(d []vg.Value) *alg.Poly {
	p := alg.KI(0)
	for i, b := range d {
		k := i
		if s.big {
			k = len(d) - 1 - i
		}
		p = p.Add(s.MustNum(b).Scale(two(uint(8 * k))))
	}
	return p
}

// errField reads a numeric, boolean or slice member of the data of an error.
func (s *ser) errData(err vg.Value, f func(cond alg.Bdd, v vg.Value)) {
	for _, a := range errChains(s.It, err) {
		if a.C == alg.False || a.chain == "" {
			continue
		}
		site := strings.TrimPrefix(strings.SplitN(strings.TrimPrefix(a.chain, " < "), " < ", 2)[0], "error ")
		data := s.It.ErrData[site]
		if len(data) == 0 {
			s.Bool("the error carries data", false, "no data at "+site)
		}
		for _, d := range data {
			if c := s.C.And(d.C, a.C); c != alg.False {
				f(c, d.V)
			}
		}
	}
}

// readData checks number and content of bytes reported by a read error.
func (s *ser) readData(err vg.Value, cond alg.Bdd, n int, data []vg.Value) {
	s.errData(err, func(c alg.Bdd, v vg.Value) {
		a, ok := s.It.Force(v).(*vg.AggV)
		if !ok {
			s.Bool("the error carries data", false, s.It.Describe(v))
			return
		}
		if c = s.C.And(c, cond); c == alg.False {
			return
		}
		first := true
		for _, f := range a.E {
			switch x := s.It.Force(f).(type) {
			case *vg.IntV:
				s.Zero("the error tells the number of bytes read", c, x.R.P.Sub(alg.KI(int64(n))))
			case vg.BoolV:
				if first {
					s.Never("the error tells whether the read was partial", s.C.And(c, s.C.Xor(x.B, tf(n != 0 && n != 32))))
				}
				first = false
			case vg.NilV:
				s.Bool("the error carries what was read", n == 0, "nil")
			case vg.SliceV:
				got, _ := s.m.bytesOf(s.St, x)
				if !s.Bool("the error carries what was read", len(got) == n, fmt.Sprintf("%d bytes", len(got))) {
					return
				}
				for i := range got {
					s.Zero(fmt.Sprintf("the error carries byte %d that was read", i), c, s.MustNum(got[i]).Sub(s.MustNum(data[i])))
				}
			default:
				s.Bool("the error data is known", false, s.It.Describe(x))
			}
		}
	})
}

func tf(b bool) alg.Bdd {
	if b {
		return alg.True
	}
	return alg.False
}

// input makes n symbolic bytes; the most significant of 32 is split after plen bits.
func (s *ser) input(n, plen int) []vg.Value {
	var out []vg.Value
	for i := 0; i < n; i++ {
		msb := s.big && i == 0 || !s.big && i == 31
		if msb && plen > 0 && plen < 8 {
			h := s.It.FreshInt("head", alg.KInput, new(big.Int), sub1(two(uint(plen))), 8, false)
			l := s.It.FreshInt("tail", alg.KInput, new(big.Int), sub1(two(uint(8-plen))), 8, false)
			out = append(out, &vg.IntV{R: s.C.AddR(s.C.MulR(h.R, alg.KR(two(uint(8-plen)))), l.R), W: 8})
			continue
		}
		out = append(out, s.It.FreshInt(fmt.Sprintf("b%d", i), alg.KInput, new(big.Int), bi(255), 8, false))
	}
	return out
}

func (s *ser) intResult(what string, cond alg.Bdd, v vg.Value, n int) {
	s.Zero(what, cond, s.MustNum(v).Sub(alg.KI(int64(n))))
}

type serFn struct {
	name     string
	fe, free bool
	prefix   string // "", "get", "with"
	kind     string // stream, buffer, bytes
	fn       *ssa.Function
}

func (r *Run) serFns(rule string, read bool) (out []serFn) {
	add := func(name string, f serFn) {
		fn := r.Find(rule, fe, name)
		if fn != nil {
			f.name, f.fn = name, fn
			out = append(out, f)
		}
	}
	if read {
		for _, k := range []struct{ suf, kind string }{{"", "stream"}, {"_Buffer", "buffer"}, {"_Bytes", "bytes"}} {
			add("Uint256.Deserialize"+k.suf, serFn{kind: k.kind})
			add("Uint256.DeserializeAndGetPrefix"+k.suf, serFn{kind: k.kind, prefix: "get"})
		}
		add("Uint256.DeserializeWithExpectedPrefix", serFn{kind: "stream", prefix: "with"})
		add(feT+".Deserialize", serFn{fe: true, kind: "stream"})
		add(feT+".DeserializeAndGetPrefix", serFn{fe: true, kind: "stream", prefix: "get"})
		add(feT+".DeserializeWithExpectedPrefix", serFn{fe: true, kind: "stream", prefix: "with"})
		add("DeserializeFieldElement", serFn{fe: true, free: true, kind: "stream"})
		add("DeserializeFieldElementAndGetPrefix", serFn{fe: true, free: true, kind: "stream", prefix: "get"})
		add("DeserializeFieldElementWithExpectedPrefix", serFn{fe: true, free: true, kind: "stream", prefix: "with"})
		return
	}
	for _, k := range []struct{ suf, kind string }{{"", "stream"}, {"_Buffer", "buffer"}, {"_Bytes", "bytes"}} {
		add("Uint256.Serialize"+k.suf, serFn{kind: k.kind})
		add("Uint256.SerializeWithPrefix"+k.suf, serFn{kind: k.kind, prefix: "with"})
	}
	add(feT+".Serialize", serFn{fe: true, kind: "stream"})
	add(feT+".SerializeWithPrefix", serFn{fe: true, kind: "stream", prefix: "with"})
	add("SerializeFieldElement", serFn{fe: true, free: true, kind: "stream"})
	add("SerializeFieldElementWithPrefix", serFn{fe: true, free: true, kind: "stream", prefix: "with"})
	return
}

func runF07(r *Run) {
	const rule = "serialization"
	var limits []int
	if r.Thorough() {
		for i := 0; i <= 33; i++ {
			limits = append(limits, i)
		}
	} else {
		limits = []int{0, 1, 2, 31, 32, 40}
	}
	for _, f := range r.serFns(rule, false) {
		f := f
		for _, bigE := range []bool{false, true} {
			bigE := bigE
			for l := 0; l <= 8; l++ {
				l := l
				if f.prefix == "" && l > 0 {
					break
				}
				for _, lim := range limits {
					lim := lim
					if f.kind == "buffer" && lim > 0 {
						break
					}
					if f.prefix != "" && lim != 32 && l%4 != 2 && f.kind != "buffer" {
						continue
					}
					r.Go(rule, fmt.Sprintf("%s %v %d %d", f.name, bigE, l, lim), func() { r.serialize(rule, f, bigE, l, lim) })
				}
			}
		}
	}
	for _, f := range r.serFns(rule, true) {
		f := f
		for _, bigE := range []bool{false, true} {
			bigE := bigE
			for l := 0; l <= 8; l++ {
				if f.prefix == "" && l > 0 {
					break
				}
				for _, lim := range limits {
					for _, custom := range []bool{false, true} {
						l, lim, custom := l, lim, custom
						if custom && (lim >= 32 || f.kind != "stream") || lim < 32 && f.prefix != "" && l%4 != 2 {
							continue
						}
						r.Go(rule, fmt.Sprintf("%s %v %d %d %v", f.name, bigE, l, lim, custom), func() { r.deserialize(rule, f, bigE, l, lim, custom) })
					}
				}
			}
			if f.prefix == "get" {
				for _, l := range []int{9, 64, 255} {
					l := l
					r.Go(rule, fmt.Sprintf("%s %v %d", f.name, bigE, l), func() { r.deserialize(rule, f, bigE, l, 40, false) })
				}
			}
		}
	}
}

func (r *Run) serialize(rule string, f serFn, bigE bool, l, lim int) {
	what := fmt.Sprintf("%d bytes of space", lim)
	if f.kind == "buffer" {
		what = "any buffer"
	}
	if f.prefix != "" {
		what += fmt.Sprintf(", prefix of %d bits", l)
	}
	s := r.newSer(rule, what, f.fn, bigE)
	s.fe = f.fe
	s.Guard(func() {
		s.recv()
		s.header = nil
		if f.prefix != "" {
			s.bitHeader(l)
		}
		args := []vg.Value{s.z}
		if f.free {
			args[0] = s.iface
		}
		var st vg.PtrV
		var old []vg.Value
		room := lim
		switch f.kind {
		case "stream":
			st = s.m.stream(&bufV{room: lim, werr: s.m.custom})
			args = append(args, s.m.iface(st))
		case "buffer":
			room = 32
			old = s.input(3, 0)
			t := Elem(f.fn.Signature.Params().At(0).Type())
			st = s.It.NewObj(s.St, "buffer", t, &bufV{data: old, room: -1})
			args = append(args, st)
		case "bytes":
			old = s.input(lim, 0)
			args = append(args, s.m.slice(s.St, old))
			if sl, ok := args[1].(vg.SliceV); ok {
				st = sl.Base
			}
		}
		if f.prefix != "" {
			args = append(args, s.header)
		}
		args = append(args, s.order)
		res, ret := s.It.Call(s.St, f.fn, args, nil)
		s.NoPanics(alg.False)
		s.Never("returns", s.C.Not(ret))
		if len(res) != 2 {
			return
		}
		ok := s.C.And(ret, s.NilErr(res[1]))
		bad := s.C.And(ret, s.C.Not(s.NilErr(res[1])))
		// what arrived
		var got []vg.Value
		if f.kind == "bytes" {
			got, _ = s.m.bytesOf(s.St, args[1])
		} else {
			b, is := s.It.Force(s.It.Load(s.St, st)).(*bufV)
			if !is { // written or not, depending on the value
				ch, is := s.It.Force(s.It.Load(s.St, st)).(*vg.ChoiceV)
				if !is {
					s.Fail("analysable", "unknown output")
					return
				}
				for _, a := range ch.A {
					x, is := s.It.Force(a.V).(*bufV)
					if !is {
						s.Fail("analysable", "unknown output")
						return
					}
					if len(x.data) == len(old) {
						if lim < 1 && f.kind == "stream" {
							continue
						}
						s.Never("nothing is written if and only if the prefix does not fit", s.C.And(s.C.And(ret, a.C), s.C.Not(s.IsErr(res[1], fe, "ErrPrefixDoesNotFit"))))
						s.intResult("the number of bytes written is returned", s.C.And(ret, a.C), res[0], 0)
						continue
					}
					if b != nil {
						s.Fail("analysable", "ambiguous output")
						return
					}
					b = x
					s.Never("nothing is written if and only if the prefix does not fit", s.C.And(s.C.And(ret, a.C), s.IsErr(res[1], fe, "ErrPrefixDoesNotFit")))
				}
			}
			if b == nil {
				s.Fail("analysable", "unknown output")
				return
			}
			got = b.data
			for i := range old {
				s.Zero("the earlier content of the buffer is kept", ret, s.MustNum(got[i]).Sub(s.MustNum(old[i])))
			}
			got = got[len(old):]
		}
		// success
		full := room >= 32
		if !full {
			s.Never("an error is reported if not everything could be written", ok)
		}
		if full {
			if s.Bool("32 bytes are written", len(got) >= 32, fmt.Sprint(len(got))) {
				s.checkSent("output", ok, s.number(got[:32]))
				s.intResult("the number of bytes written is returned", ok, res[0], 32)
			}
			if f.kind == "bytes" {
				for i := 32; i < len(got); i++ {
					s.Zero("bytes behind the output are kept", ret, s.MustNum(got[i]).Sub(s.MustNum(old[i])))
				}
				for i := range got {
					s.Zero("nothing is written on error", bad, s.MustNum(got[i]).Sub(s.MustNum(old[i])))
				}
			}
		} else if f.kind == "bytes" {
			for i := range got {
				s.Zero("nothing is written on error", ret, s.MustNum(got[i]).Sub(s.MustNum(old[i])))
			}
			s.intResult("the number of bytes written is returned", ret, res[0], 0)
		} else {
			s.Bool("the bytes that fit are written", len(got) == lim, fmt.Sprint(len(got)))
		}
		// errors
		noFit := alg.False
		if f.prefix != "" {
			noFit = s.C.And(ret, s.IsErr(res[1], fe, "ErrPrefixDoesNotFit"))
			s.Never("a prefix that does not fit is an error", s.C.And(ok, noFit))
			hi := sub1(two(uint(256 - l)))
			v := s.zP
			if s.fe {
				v = nil
			}
			if v != nil {
				s.In("the value leaves room for the prefix on success", ok, v, new(big.Int), hi)
				s.In("the error ErrPrefixDoesNotFit is justified", noFit, v, badd(hi, bi(1)), sub1(two(256)))
			}
			s.intResult("nothing is written if the prefix does not fit", noFit, res[0], 0)
		}
		rest := s.C.And(bad, s.C.Not(noFit))
		if full {
			s.Never("no other error", rest)
			if f.fe && l <= 1 {
				s.Never("prefixes of up to one bit always fit", bad)
			}
			return
		}
		if f.kind == "stream" {
			s.Never("the error of the stream is reported", s.C.And(rest, s.C.Not(s.m.wraps(res[1], s.m.custom))))
			s.intResult("the number of bytes written is returned", rest, res[0], lim)
			s.errData(res[1], func(c alg.Bdd, v vg.Value) {
				a, is := s.It.Force(v).(*vg.AggV)
				if !is {
					return
				}
				first := true
				for _, e := range a.E {
					switch x := s.It.Force(e).(type) {
					case *vg.IntV:
						s.Zero("the error tells the number of bytes written", s.C.And(c, rest), x.R.P.Sub(alg.KI(int64(lim))))
					case vg.BoolV:
						if first {
							s.Never("the error tells whether the write was partial", s.C.And(s.C.And(c, rest), s.C.Xor(x.B, tf(lim != 0 && lim != 32))))
						}
						first = false
					}
				}
			})
		} else if f.kind == "bytes" {
			name := "ErrUnexpectedEOF"
			if lim == 0 {
				name = "EOF"
			}
			s.Never("the error wraps io."+name, s.C.And(rest, s.C.Not(s.m.wraps(res[1], s.m.global("io", name)))))
		}
	})
}

func (r *Run) deserialize(rule string, f serFn, bigE bool, l, lim int, custom bool) {
	what := fmt.Sprintf("%d bytes of input", lim)
	if custom {
		what += " and then an error"
	}
	if f.prefix != "" {
		what += fmt.Sprintf(", prefix of %d bits", l)
	}
	s := r.newSer(rule, what, f.fn, bigE)
	s.fe = f.fe
	s.Guard(func() {
		s.recv()
		var exp *alg.Poly
		if f.prefix == "with" {
			s.bitHeader(l)
			exp = s.bits
		}
		sl := l
		if sl > 8 {
			sl = 0
		}
		data := s.input(lim, sl)
		args := []vg.Value{s.z}
		if f.free {
			args[0] = s.iface
		}
		var st vg.PtrV
		b := &bufV{data: data, room: -1}
		if custom {
			b.rerr = s.m.custom
		}
		switch f.kind {
		case "stream":
			st = s.m.stream(b)
			args = append(args, s.m.iface(st))
		case "buffer":
			st = s.It.NewObj(s.St, "buffer", Elem(f.fn.Signature.Params().At(0).Type()), b)
			args = append(args, st)
		case "bytes":
			args = append(args, s.m.slice(s.St, data))
		}
		switch f.prefix {
		case "get":
			args = append(args, vg.KInt(int64(l), 8, false))
		case "with":
			args = append(args, s.header)
		}
		args = append(args, s.order)
		res, ret := s.It.Call(s.St, f.fn, args, nil)
		s.NoPanics(alg.False)
		s.Never("returns", s.C.Not(ret))
		want := 2
		if f.prefix == "get" {
			want = 3
		}
		if len(res) != want {
			return
		}
		n, err := res[0], res[want-1]
		isNil := s.NilErr(err)
		ok := s.C.And(ret, isNil)
		bad := s.C.And(ret, s.C.Not(isNil))
		if f.kind == "bytes" {
			now, _ := s.m.bytesOf(s.St, args[1])
			for i := range now {
				s.Zero("the input is not modified", ret, s.MustNum(now[i]).Sub(s.MustNum(data[i])))
			}
		}
		zNow := s.At(s.z)
		kept := func(cond alg.Bdd) { s.Zero("the receiver is not modified on error", cond, zNow.Sub(s.zP)) }
		consumed := func(cond alg.Bdd, k int) {
			if f.kind == "bytes" {
				return
			}
			v := s.It.Force(s.It.Load(s.St, st))
			alts := []vg.ChoiceAlt{{C: alg.True, V: v}}
			if ch, is := v.(*vg.ChoiceV); is {
				alts = ch.A
			}
			for _, a := range alts {
				x, is := s.It.Force(a.V).(*bufV)
				if !is {
					s.Fail("analysable", "unknown stream")
					return
				}
				if x.pos != k {
					s.Never(fmt.Sprintf("exactly %d bytes are consumed", k), s.C.And(cond, a.C))
				}
			}
		}
		if l > 8 {
			s.Never("prefix lengths above 8 are rejected", ok)
			s.Never("the error wraps ErrPrefixLengthInvalid", s.C.And(bad, s.C.Not(s.IsErr(err, fe, "ErrPrefixLengthInvalid"))))
			kept(ret)
			consumed(ret, 0)
			s.intResult("no bytes are read", ret, n, 0)
			s.readData(err, bad, 0, nil)
			return
		}
		mism := alg.False
		if f.prefix == "with" {
			mism = s.C.And(ret, s.IsErr(err, fe, "ErrPrefixMismatch"))
		}
		if lim < 32 {
			s.Never("truncated input is an error", ok)
			kept(ret)
			rest := s.C.And(ret, s.C.Not(mism))
			consumed(rest, lim)
			s.intResult("the number of bytes read is returned", rest, n, lim)
			var e vg.Value
			name := "the error of the stream"
			switch {
			case custom:
				e = s.m.custom
			case lim == 0:
				e, name = s.m.global("io", "EOF"), "io.EOF"
			default:
				e, name = s.m.global("io", "ErrUnexpectedEOF"), "io.ErrUnexpectedEOF"
			}
			s.Never("the error wraps "+name, s.C.And(rest, s.C.Not(s.m.wraps(err, e))))
			s.readData(err, rest, lim, data)
			if exp != nil && s.big && lim > 0 {
				head := s.MustNum(data[0])
				s.headIs("a mismatch is reported only for a different prefix", mism, head, l, exp, false)
			} else {
				s.Never("no mismatch is reported for incomplete input", mism)
			}
			return
		}
		v := s.number(data[:32])
		good := s.C.And(ret, s.C.Not(mism)) // something was stored
		consumed(good, 32)
		s.intResult("32 bytes are read", good, n, 32)
		msb := data[31]
		if s.big {
			msb = data[0]
		}
		head := s.MustNum(msb)
		var pre *alg.Poly // prefix found, if represented
		switch {
		case f.prefix == "with":
			s.headIs("a mismatch is reported exactly for a different prefix", mism, head, l, exp, false)
			s.headIs("data is accepted only with the expected prefix", good, head, l, exp, true)
			kept(mism)
			s.errPos(err, mism, n, data)
			pre = exp
		case f.prefix == "get":
			pre = s.MustNum(res[1])
			s.In("the prefix has the requested length", ret, pre, new(big.Int), sub1(two(uint(l))))
		default:
			pre = alg.KI(0)
		}
		payload := v.Sub(pre.Scale(two(uint(256 - l))))
		if !f.fe {
			s.Zero("the receiver holds the number read, without the prefix", good, zNow.Sub(payload))
			s.In("the receiver has no bits of the prefix", good, zNow, new(big.Int), sub1(two(uint(256-l))))
			s.Never("no error for complete input", s.C.And(good, bad))
			return
		}
		non := s.C.And(ret, s.IsErr(err, fe, "ErrNonNormalizedDeserialization"))
		s.Never("no other errors for complete input", s.C.And(bad, s.C.Not(s.C.Or(non, mism))))
		s.ModZ("the receiver holds the field element read, without the prefix", good, zNow.Sub(payload.Scale(R256)), Pbase)
		s.In("the receiver is admissible", good, zNow, new(big.Int), ivC())
		s.In("data is accepted without error only if canonical", ok, payload, new(big.Int), sub1(Pbase))
		s.In("ErrNonNormalizedDeserialization is justified", non, payload, Pbase, sub1(two(256)))
		s.readData(err, s.C.And(non, bad), 32, data)
	})
}

// errPos checks the consistency of a mismatch error with the returned number of bytes.
func (s *ser) errPos(err vg.Value, cond alg.Bdd, n vg.Value, data []vg.Value) {
	s.errData(err, func(c alg.Bdd, v vg.Value) {
		a, ok := s.It.Force(v).(*vg.AggV)
		if !ok {
			return
		}
		if c = s.C.And(c, cond); c == alg.False {
			return
		}
		for _, f := range a.E {
			if x, ok := s.It.Force(f).(*vg.IntV); ok {
				s.Zero("the error tells the number of bytes read", c, x.R.P.Sub(s.MustNum(n)))
			}
		}
	})
}

// headIs demands that under cond the l leading bits of a byte are (or are not) the expected prefix.
func (s *ser) headIs(what string, cond alg.Bdd, msb *alg.Poly, l int, exp *alg.Poly, equal bool) {
	// msb = q 2^(8-l) + rest
	q, _ := s.C.DivMod(s.C.Tighten(alg.Rng{P: msb, Lo: new(big.Int), Hi: bi(255)}), two(uint(8-l)), "head")
	d := q.P.Sub(exp)
	if equal {
		s.Zero(what, cond, d)
		return
	}
	// under cond, d != 0: the case d == 0 is impossible
	s.goal(what, alg.Goal{Kind: alg.GFalse, P: alg.KI(0), Cond: s.C.And(cond, s.eqz(d))})
}

// eqz is the condition d == 0.
func (s *ser) eqz(d *alg.Poly) alg.Bdd {
	return s.C.EqR(s.C.Tighten(alg.Rng{P: d}), alg.KR(new(big.Int)))
}
