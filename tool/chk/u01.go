package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/alg"
	"verif/vg"
)

const common = "bandersnatch/common"

func init() {
	register(&Property{ID: "U01", Level: "proof", Technique: techVG, F: runU01,
		Note: "Byte orders: all numbers and all byte contents, every slice length from 0 to 40 (with larger capacity as well), both byte orders. Bit headers: all 256 x 256 combinations of bits and length; every function of the package that writes a bit header is analysed."})
}

// u is a call of a function of package common.
type ucall struct {
	*Env
	m  *iom
	fn *ssa.Function
}

func (r *Run) newU(rule, name string, fn *ssa.Function) *ucall {
	u := &ucall{Env: r.NewEnv(rule, shortFn(fn.String())+": "+name, fn), fn: fn}
	u.m = newIOM(u.Env)
	return u
}

// order loads common.LittleEndian, BigEndian or DefaultEndian.
func (u *ucall) global(name string) vg.Value {
	g := u.R.P.Global(common, name)
	if g == nil {
		panic(vg.Undecided{Msg: "common." + name + " not found"})
	}
	return u.It.Load(u.St, vg.PtrV{O: u.It.GlobalObj(g)})
}

func (u *ucall) bytes(n, extra int) (vg.Value, []vg.Value) {
	var d []vg.Value
	for i := 0; i < n+extra; i++ {
		d = append(d, u.It.FreshInt(fmt.Sprintf("b%d", i), alg.KInput, new(big.Int), bi(255), 8, false))
	}
	v := u.m.slice(u.St, d)
	s := v.(vg.SliceV)
	s.Len = n
	return s, d
}

func (u *ucall) backing(v vg.Value) []vg.Value {
	s := v.(vg.SliceV)
	s.Len = s.Cap
	d, _ := u.m.bytesOf(u.St, s)
	return d
}

// numbers: bytes d (first n) as a number
func number(bigE bool, d []vg.Value, num func(vg.Value) *alg.Poly) *alg.Poly {
	p := alg.KI(0)
	for i, b := range d {
		k := i
		if bigE {
			k = len(d) - 1 - i
		}
		p = p.Add(num(b).Scale(two(uint(8 * k))))
	}
	return p
}

const eT = "FieldElementEndianness"

func runU01(r *Run) {
	const rule = "byte-order"
	lens := []int{0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 40}
	if r.Thorough() {
		lens = nil
		for i := 0; i <= 70; i++ {
			lens = append(lens, i)
		}
	}
	for _, bigE := range []bool{false, true} {
		bigE := bigE
		for _, size := range []int{2, 4, 8, 32} {
			size := size
			bits := fmt.Sprint(8 * size)
			var put, get []string
			put, get = []string{"PutUint" + bits}, []string{"Uint" + bits}
			if size == 32 {
				put = append(put, "PutUint256_ptr", "PutUint256_array")
				get = append(get, "Uint256_indirect", "Uint256_array")
			}
			for _, name := range put {
				name := name
				fn := r.Find(rule, common, eT+"."+name)
				if fn == nil {
					continue
				}
				for _, n := range lens {
					for _, extra := range []int{0, 40} {
						n, extra := n, extra
						if strings.HasSuffix(name, "_array") && (n != 32 || extra != 0) {
							continue
						}
						r.Go(rule, name, func() { r.putInt(rule, fn, bigE, size, n, extra) })
					}
				}
			}
			for _, name := range get {
				name := name
				fn := r.Find(rule, common, eT+"."+name)
				if fn == nil {
					continue
				}
				for _, n := range lens {
					for _, extra := range []int{0, 40} {
						n, extra := n, extra
						if strings.HasSuffix(name, "_array") && (n != 32 || extra != 0) {
							continue
						}
						r.Go(rule, name, func() { r.getInt(rule, fn, bigE, size, n, extra) })
					}
				}
			}
		}
		r.orderMisc(rule, bigE)
	}
	r.headers("bit-header")
	r.flags("flags")
	r.Wait()
}

func (u *ucall) panics(want bool, ret alg.Bdd) {
	if want {
		u.Never("too short slices are refused", ret)
		return
	}
	u.NoPanics(alg.False)
	u.Never("returns", u.C.Not(ret))
}

func (r *Run) putInt(rule string, fn *ssa.Function, bigE bool, size, n, extra int) {
	u := r.newU(rule, fmt.Sprintf("%s, %d bytes of %d", orderName(bigE), n, n+extra), fn)
	u.Guard(func() {
		out, old := u.bytes(n, extra)
		arg := out
		ps := fn.Params
		if _, ok := ps[1].Type().Underlying().(*types.Pointer); ok {
			arg = out.(vg.SliceV).Base
		}
		in, val := u.MakeArg("in", ps[2].Type(), nil)
		_, ret := u.It.Call(u.St, fn, []vg.Value{u.global(orderName(bigE)), arg, in}, nil)
		u.panics(n < size, ret)
		now := u.backing(out)
		if n < size {
			return
		}
		u.Zero("the bytes encode the number", ret, number(bigE, now[:size], u.MustNum).Sub(val))
		for i := size; i < len(now); i++ {
			u.Zero("later bytes are kept", ret, u.MustNum(now[i]).Sub(u.MustNum(old[i])))
		}
		for i := 0; i < size; i++ {
			u.In("bytes are bytes", ret, u.MustNum(now[i]), new(big.Int), bi(255))
		}
		if _, ok := in.(vg.PtrV); ok {
			u.Zero("the number is kept", ret, u.At(in).Sub(val))
		}
	})
}

func (r *Run) getInt(rule string, fn *ssa.Function, bigE bool, size, n, extra int) {
	u := r.newU(rule, fmt.Sprintf("%s, %d bytes of %d", orderName(bigE), n, n+extra), fn)
	u.Guard(func() {
		in, old := u.bytes(n, extra)
		arg := in
		ps := fn.Params
		if _, ok := ps[1].Type().Underlying().(*types.Pointer); ok {
			arg = in.(vg.SliceV).Base
		}
		args := []vg.Value{u.global(orderName(bigE)), arg}
		var out vg.Value
		var before *alg.Poly
		if len(ps) > 2 {
			out, before = u.MakeArg("out", ps[2].Type(), nil)
			args = append(args, out)
		}
		res, ret := u.It.Call(u.St, fn, args, nil)
		u.panics(n < size, ret)
		if n < size {
			if out != nil {
				u.Zero("nothing is written for too short slices", alg.True, u.At(out).Sub(before))
			}
			return
		}
		var got *alg.Poly
		if out != nil {
			got = u.At(out)
		} else {
			got = u.MustNum(res[0])
		}
		u.Zero("the number is encoded by the bytes", ret, got.Sub(number(bigE, old[:size], u.MustNum)))
		now := u.backing(in)
		for i := range now {
			u.Zero("the input is kept", ret, u.MustNum(now[i]).Sub(u.MustNum(old[i])))
		}
	})
}

func (r *Run) orderMisc(rule string, bigE bool) {
	one := func(name string, f func(u *ucall, o vg.Value, res []vg.Value, ret alg.Bdd)) {
		fn := r.Find(rule, common, eT+"."+name)
		if fn == nil {
			return
		}
		r.Go(rule, name, func() {
			u := r.newU(rule, orderName(bigE), fn)
			u.Guard(func() {
				o := u.global(orderName(bigE))
				res, ret := u.It.Call(u.St, fn, []vg.Value{o}, nil)
				u.panics(false, ret)
				f(u, o, res, ret)
			})
		})
	}
	one("StartsWithMSB", func(u *ucall, o vg.Value, res []vg.Value, ret alg.Bdd) {
		u.Never("true exactly for big endian", u.C.And(ret, u.C.Xor(u.Cond(res[0]), tf(bigE))))
	})
	one("GetEndianness", func(u *ucall, o vg.Value, res []vg.Value, ret alg.Bdd) {
		u.same("the result is the byte order", ret, res[0], o)
	})
	one("String", func(u *ucall, o vg.Value, res []vg.Value, ret alg.Bdd) {
		s, ok := u.It.Force(res[0]).(vg.StrV)
		u.Bool("the name is the name of the byte order", ok && s.S == orderName(bigE), u.It.Describe(res[0]))
	})
	// SetEndianness
	fn := r.Find(rule, common, eT+".SetEndianness")
	if fn == nil {
		return
	}
	eType := Elem(fn.Params[0].Type())
	set := func(what string, arg func(u *ucall) vg.Value, want string) {
		r.Go(rule, "SetEndianness", func() {
			u := r.newU(rule, orderName(bigE)+" := "+what, fn)
			u.Guard(func() {
				o := u.global(orderName(bigE))
				p := u.It.NewObj(u.St, "order", eType, o)
				_, ret := u.It.Call(u.St, fn, []vg.Value{p, arg(u)}, nil)
				if want == "" {
					u.Never("other byte orders are refused", ret)
					return
				}
				u.panics(false, ret)
				u.same("the byte order is set", ret, u.It.Load(u.St, p), u.global(want))
			})
		})
	}
	for _, to := range []string{"LittleEndian", "BigEndian"} {
		to := to
		set("common."+to, func(u *ucall) vg.Value { return vg.IfaceV{T: eType, V: u.global(to)} }, to)
		set("binary."+to, func(u *ucall) vg.Value {
			if p := r.P.SSA.ImportedPackage("encoding/binary"); p != nil {
				if g := p.Var(to); g != nil {
					return vg.IfaceV{T: Elem(g.Type()), V: u.It.Zero(Elem(g.Type()))}
				}
			}
			panic(vg.Undecided{Msg: "binary." + to + " not found"})
		}, to)
	}
	set("nil", func(u *ucall) vg.Value { return vg.NilV{} }, "")
	set("another order", func(u *ucall) vg.Value {
		return vg.IfaceV{T: u.m.T, V: u.It.Zero(u.m.T)}
	}, "")
	r.Go(rule, "DefaultEndian", func() {
		u := r.newU(rule, "default", fn)
		u.Guard(func() {
			u.same("the zero value is the default", alg.True, u.It.Zero(eType), u.global("DefaultEndian"))
			u.same("the default is LittleEndian", alg.True, u.global("LittleEndian"), u.global("DefaultEndian"))
		})
	})
}

// same demands structural equality of two values.
func (u *ucall) same(what string, cond alg.Bdd, a, b vg.Value) {
	c, ok := u.It.EqualCond(a, b)
	if !ok {
		u.Fail(what, u.It.Describe(a)+" versus "+u.It.Describe(b))
		return
	}
	u.Never(what, u.C.And(cond, u.C.Not(c)))
}

func (r *Run) headers(rule string) {
	hT := r.P.Type(common, "BitHeader")
	if hT == nil {
		r.Find(rule, common, "BitHeader.PrefixBits")
		return
	}
	mk := r.Find(rule, common, "MakeBitHeader")
	get := r.Find(rule, common, "BitHeader.PrefixBits")
	ln := r.Find(rule, common, "BitHeader.PrefixLen")
	setter := r.Find(rule, common, "BitHeader.SetBitHeader")
	copyFrom := r.Find(rule, common, "BitHeader.SetBitHeaderFromBitHeader")
	getH := r.Find(rule, common, "BitHeader.GetBitHeader")
	val := r.Find(rule, common, "BitHeader.Validate")
	if mk == nil || get == nil || ln == nil || setter == nil || copyFrom == nil || getH == nil || val == nil {
		return
	}
	for l := 0; l < 256; l++ {
		l := l
		for _, which := range []string{"make", "set"} {
			which := which
			fn := mk
			if which == "set" {
				fn = setter
			}
			r.Go(rule, which, func() {
				u := r.newU(rule, fmt.Sprintf("length %d", l), fn)
				u.Guard(func() {
					b := u.It.FreshInt("bits", alg.KInput, new(big.Int), bi(255), 8, false)
					args := []vg.Value{b, vg.KInt(int64(l), 8, false)}
					p := u.It.NewObj(u.St, "header", hT, u.It.Zero(hT))
					if which == "set" {
						args = append([]vg.Value{p}, args...)
					}
					res, ret := u.It.Call(u.St, fn, args, nil)
					if l > 8 {
						u.Never("lengths above 8 are refused", ret)
						return
					}
					hi := sub1(two(uint(l)))
					u.In("bits that do not fit are refused", ret, b.R.P, new(big.Int), hi)
					u.In("only bits that do not fit are refused", u.C.Not(ret), b.R.P, badd(hi, bi(1)), bi(1000))
					if ret == alg.False {
						return
					}
					if which == "make" {
						u.It.Store(u.St, p, res[0])
					}
					check := func(what string, q vg.Value) {
						for _, f := range []*ssa.Function{get, ln} {
							res, r2 := u.It.Call(u.St, f, []vg.Value{q}, nil)
							u.Never(what+": "+f.Name()+" returns", u.C.And(ret, u.C.Not(r2)))
							if len(res) != 1 {
								continue
							}
							want := b.R.P
							if f == ln {
								want = alg.KI(int64(l))
							}
							u.Zero(what+": "+f.Name()+" is what was set", ret, u.MustNum(res[0]).Sub(want))
						}
					}
					np := len(u.It.Panics)
					check("header", p)
					// copies
					h := u.It.Load(u.St, p)
					q := u.It.NewObj(u.St, "copy", hT, u.It.Zero(hT))
					_, r2 := u.It.Call(u.St, copyFrom, []vg.Value{q, h}, nil)
					u.Never("valid headers can be copied", u.C.And(ret, u.C.Not(r2)))
					check("copy", q)
					res2, r3 := u.It.Call(u.St, getH, []vg.Value{p}, nil)
					u.Never("headers can be read", u.C.And(ret, u.C.Not(r3)))
					if len(res2) == 1 {
						q2 := u.It.NewObj(u.St, "copy2", hT, res2[0])
						check("GetBitHeader", q2)
					}
					_, r4 := u.It.Call(u.St, val, []vg.Value{p}, nil)
					u.Never("valid headers pass validation", u.C.And(ret, u.C.Not(r4)))
					for _, pn := range u.It.Panics[np:] {
						u.Never("no panic: "+pn.Why, u.C.And(pn.Cond, ret))
					}
				})
			})
		}
	}
	// nobody else writes the fields of a header
	known := map[*ssa.Function]bool{mk: true, setter: true, copyFrom: true}
	// unexported helpers of these functions only
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range r.P.Functions() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				c, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c != nil && op == &c.Common().Value {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					} else if _, ok := in.(*ssa.MakeClosure); !ok {
						escapes[g] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range r.P.Functions() {
			if known[f] {
				continue
			}
			if f.Parent() != nil {
				if known[f.Parent()] {
					known[f], again = true, true
				}
				continue
			}
			ok := !token.IsExported(f.Name()) && !escapes[f] && len(callers[f]) > 0
			for c := range callers[f] {
				ok = ok && known[c]
			}
			if ok {
				known[f], again = true, true
			}
		}
	}
	n := 0
	for _, f := range r.P.Functions() {
		if f.Pkg == nil || f.Pkg.Pkg != hT.(*types.Named).Obj().Pkg() {
			continue
		}
		n++
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(types.Unalias(Elem(fa.X.Type())), hT) {
					continue
				}
				r.Ok(rule, shortFn(f.String()), st.Pos(), "bit headers are only written by functions that validate them", known[f], "field of BitHeader is written")
			}
		}
	}
	r.Count("functions of the package searched for writers of BitHeader", n)
}

func (r *Run) flags(rule string) {
	type gs struct{ typ, set, get string }
	s := gs{"SubgroupRestriction", "SetSubgroupRestriction", "IsSubgroupOnly"}
	set := r.Find(rule, common, s.typ+"."+s.set)
	get := r.Find(rule, common, s.typ+"."+s.get)
	if set != nil && get != nil {
		for _, v := range []bool{false, true} {
			v := v
			r.Go(rule, s.typ, func() {
				u := r.newU(rule, fmt.Sprint(v), set)
				u.Guard(func() {
					T := Elem(set.Params[0].Type())
					p := u.It.NewObj(u.St, "flag", T, u.It.Zero(T))
					for _, first := range []bool{!v, v} {
						_, ret := u.It.Call(u.St, set, []vg.Value{p, vg.BoolV{B: tf(first)}}, nil)
						u.panics(false, ret)
					}
					res, ret := u.It.Call(u.St, get, []vg.Value{p}, nil)
					u.panics(false, ret)
					u.Never("the restriction is the one that was set", u.C.Xor(u.Cond(res[0]), tf(v)))
				})
			})
		}
	}
	if set, get := r.Find(rule, common, "SubgroupOnly."+s.set), r.Find(rule, common, "SubgroupOnly."+s.get); set != nil && get != nil {
		for _, v := range []bool{false, true} {
			v := v
			r.Go(rule, "SubgroupOnly", func() {
				u := r.newU(rule, fmt.Sprint(v), set)
				u.Guard(func() {
					T := Elem(set.Params[0].Type())
					p := u.It.NewObj(u.St, "flag", T, u.It.Zero(T))
					_, ret := u.It.Call(u.St, set, []vg.Value{p, vg.BoolV{B: tf(v)}}, nil)
					if !v {
						u.Never("the restriction cannot be removed", ret)
						return
					}
					u.panics(false, ret)
					res, ret := u.It.Call(u.St, get, []vg.Value{p}, nil)
					u.panics(false, ret)
					u.Never("the restriction is set", u.C.Not(u.Cond(res[0])))
				})
			})
		}
	}
	b := r.Find(rule, common, "IsInputTrusted.Bool")
	from := r.Find(rule, common, "TrustLevelFromBool")
	if b == nil || from == nil {
		return
	}
	r.Go(rule, "IsInputTrusted", func() {
		u := r.newU(rule, "trust", b)
		u.Guard(func() {
			is := func(what string, v vg.Value, want bool) {
				res, ret := u.It.Call(u.St, b, []vg.Value{v}, nil)
				u.panics(false, ret)
				u.Never(what, u.C.Xor(u.Cond(res[0]), tf(want)))
			}
			is("TrustedInput is trusted", u.global("TrustedInput"), true)
			is("UntrustedInput is not trusted", u.global("UntrustedInput"), false)
			is("the zero value is not trusted", u.It.Zero(b.Params[0].Type()), false)
			for _, v := range []bool{false, true} {
				res, ret := u.It.Call(u.St, from, []vg.Value{vg.BoolV{B: tf(v)}}, nil)
				u.panics(false, ret)
				is(fmt.Sprintf("TrustLevelFromBool(%v)", v), res[0], v)
			}
		})
	})
}
