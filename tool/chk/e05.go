package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/vg"
)

// E05: errors are immutable after construction, share no parameter maps with callers, and may be used concurrently.

func init() {
	register(&Property{ID: "E05", Level: "other", Technique: techAI + "; every access to an abstract memory object is recorded with the locks held (ownership and lockset analysis)", F: e05,
		Note: "objects that exist before a call (errors, their parameter maps and syntax trees, maps passed in, package variables) are shared; a write to one without an exclusively held lock, or an access without the lock to one that is written under a lock, is the violation. Payload values are opaque and shared by reference as documented. Each operation runs on errors that were never used before and on used ones, with empty and filled type caches."})
}

type e05acc struct {
	write bool
	locks string // of the locks held: "k:w,k:r"
	fn    string
	pos   token.Pos
	op    string
}

type e05run struct {
	e    *ewd
	own  map[int]string // shared objects with a description
	acc  map[int][]e05acc
	op   string
	bad  map[string]string
	opsN int
}

func e05Locks(st *ai.State) string {
	var ks []string
	for k, m := range st.Held {
		ks = append(ks, k+":"+m)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// run executes one operation; everything that exists before it is shared.
func (x *e05run) run(st *ai.State, op string, f func(st *ai.State) []ai.Outcome, check func(o ai.Outcome) string) *ai.State {
	x.op = op
	x.opsN++
	s := st.Clone()
	s.Held = nil
	mark := s.Next()
	published := map[int]bool{}
	s.OnUnlock = func(st *ai.State) {
		// everything now reachable from package variables is shared
		now := map[int]bool{}
		x.e.it.ReachGlobals(st, now)
		for o := range now {
			published[o] = true
		}
	}
	s.Trace = func(st *ai.State, o int, write bool) {
		if o >= mark && !published[o] {
			return
		}
		fn, pos := st.Where()
		name := ""
		if fn != nil {
			name = fn.String()
		}
		a := e05acc{write, e05Locks(st), name, pos, op}
		x.acc[o] = append(x.acc[o], a)
	}
	note := func(d string) {
		if d != "" && x.bad[op] == "" {
			x.bad[op] = d
		}
	}
	var next *ai.State
	for _, o := range f(s) {
		if l := e05Locks(o.St); l != "" {
			note("a lock is still held at the end: " + l)
		}
		if o.Panic != nil {
			if strings.Contains(o.St.Key(o.Panic), "lock ") {
				note(o.Describe())
			}
			continue
		}
		o.St.Trace, o.St.OnUnlock = nil, nil
		if check != nil {
			note(check(o))
		}
		if next == nil {
			next = o.St
		}
	}
	if next == nil {
		return st
	}
	next.Trace, next.OnUnlock = nil, nil
	return next
}

// finish judges all recorded accesses.
func (x *e05run) finish() {
	for obj, as := range x.acc {
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			continue
		}
		// some lock must be held at every access, exclusively at writes
		common := map[string]bool{}
		for i, a := range as {
			have := map[string]bool{}
			for _, l := range strings.Split(a.locks, ",") {
				k, m, _ := strings.Cut(l, ":")
				if k != "" && (m == "w" || !a.write) {
					have[k] = true
				}
			}
			if i == 0 {
				common = have
				continue
			}
			for k := range common {
				if !have[k] {
					delete(common, k)
				}
			}
		}
		if len(common) > 0 {
			continue
		}
		worst := as[0]
		for _, a := range as {
			if a.write && (!worst.write || a.locks == "" && worst.locks != "") {
				worst = a
			}
		}
		if worst.locks != "" {
			for _, a := range as {
				if a.locks == "" {
					worst = a
				}
			}
		}
		what := map[bool]string{true: "writes to", false: "reads"}[worst.write]
		d := fmt.Sprintf("%s %s shared memory (object %d: %s) without a lock that all accesses hold, at %s", worst.fn, what, obj, x.own[obj], x.e.r.P.Rel(worst.pos))
		if old := x.bad[worst.op]; old == "" {
			x.bad[worst.op] = d
		}
	}
}

func e05(r *Run) {
	r.aiGo("E05.shared", "operations on errors", func() { newEwd(r).e05() })
	r.Wait()
}

func (e *ewd) e05() {
	r := e.r
	e.foreign()
	x := &e05run{e: e, own: map[int]string{}, acc: map[int][]e05acc{}, bad: map[string]string{}}
	st := e.it.Base.Clone()
	e.extOracle(st, false)
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	intT := types.Typ[types.Int]
	W := []types.Type{types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "X", intT, false)}, nil)}
	W2 := []types.Type{types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "Y", intT, false)}, nil)}
	p, q := payload(st, "p", intT), payload(st, "q", intT)
	miss := e.global(st, "MissingDataAsZero")
	mode := e.global(st, "ReplacePreviousData")
	prefer := e.global(st, "PreferPreviousData")
	fi := ai.Sym{Key: "fi", T: errIface}
	passed := st.NewMap(anyMap, ai.KStr("X"), p) // a map the caller goes on using
	x.own[passed.O] = "parameter map passed by the caller"
	plist := st.NewSlice(types.NewSlice(anyIface), ai.Iface{T: types.Typ[types.String], V: ai.KStr("X")}, p)
	x.own[plist.O] = "argument list passed by the caller"
	sct := st.Alloc(W[0], ai.Agg{ai.Sym{Key: "ps", T: intT}})
	x.own[sct.O] = "struct passed by the caller"
	modes := st.NewSlice(types.NewSlice(m2t(e, "ReplacePreviousData")), mode)
	names := st.NewSlice(types.NewSlice(types.Typ[types.String]), ai.KStr("X"))
	text := "v %{X} $v{X} %!m>0{in %{X}} $!m=0{none} %w $w {" // parts of the string are malformed on purpose in one error
	good := text[:len(text)-2]

	// fresh results must not be reachable from errors or package variables, and vice versa
	fresh := func(o ai.Outcome, v ai.Value, mark int, errs ...ai.Value) string {
		s := map[int]bool{}
		o.St.Reach(v, s)
		sh := map[int]bool{}
		e.it.ReachGlobals(o.St, sh)
		for _, er := range errs {
			o.St.Reach(er, sh)
		}
		// payloads are opaque: only the containers count
		switch y := v.(type) {
		case ai.Map:
			if sh[y.O] {
				return "the returned parameter map is shared with the error or the package"
			}
		case ai.Ptr:
			if sh[y.O] {
				return "the returned struct is shared with the error or the package"
			}
		}
		return ""
	}
	notRetained := func(o ai.Outcome) string {
		sh := map[int]bool{}
		e.it.ReachGlobals(o.St, sh)
		for _, v := range o.Ret {
			o.St.Reach(v, sh)
		}
		for _, c := range []int{passed.O, plist.O, sct.O} {
			if sh[c] {
				return "the " + x.own[c] + " is retained"
			}
		}
		return ""
	}
	type ctor struct {
		name string
		call func(s *ai.State, b ai.Value, txt string) []ai.Outcome
	}
	dn := func(name string, T []types.Type, args func(b ai.Value, t string) []ai.Value) ctor {
		return ctor{name, func(s *ai.State, b ai.Value, t string) []ai.Outcome { return e.run(s, name, T, args(b, t)...) }}
	}
	var ctors []ctor
	for _, m := range []ai.Value{mode, prefer} {
		m := m
		ctors = append(ctors,
			dn("NewErrorWithData_map", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr(t), m, miss, passed} }),
			dn("NewErrorWithData_params", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr(t), m, miss, plist} }),
			dn("NewErrorWithData_any_map", nil, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr(t), m, passed} }),
			dn("NewErrorWithData_any_params", nil, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr(t), m, plist} }),
			dn("NewErrorWithData_struct", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr(t), sct, modes} }),
			dn("AddDataToError_map", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, m, miss, passed} }),
			dn("AddDataToError_params", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, m, miss, plist} }),
			dn("AddDataToError_any_map", nil, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, m, passed} }),
			dn("AddDataToError_any_params", nil, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, m, plist} }),
			dn("AddDataToError_struct", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, sct, modes} }),
		)
	}
	ctors = append(ctors,
		dn("DeleteParameterFromError", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr("X"), miss} }),
		dn("DeleteParameterFromError_any", nil, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, ai.KStr("X")} }),
		dn("AsErrorWithData", W, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, miss} }),
		dn("AsErrorWithData", W2, func(b ai.Value, t string) []ai.Value { return []ai.Value{b, miss} }),
	)
	// errors to work on: made without and with use of the caches
	type ev struct {
		name string
		v    ai.Value
	}
	var errs []ev
	mk := func(name, fn string, T []types.Type, args ...ai.Value) ai.Value {
		o := only(e.run(st, fn, T, args...), fn)
		if o.Panic != nil {
			panic(vg.Undecided{Msg: fn + ": " + o.Describe()})
		}
		st = o.St
		errs = append(errs, ev{name, o.Ret[0]})
		return o.Ret[0]
	}
	own := func(m ai.Value) ai.Value { return st.NewMap(anyMap, ai.KStr("X"), m) }
	base := mk("a base error", "NewErrorWithData_any_map", nil, fi, ai.KStr(good), mode, own(q))
	mk("an error", "NewErrorWithData_any_map", nil, base, ai.KStr(good), mode, own(p))
	mk("a malformed error", "NewErrorWithData_any_map", nil, base, ai.KStr(text), mode, own(p))
	mk("a typed error", "NewErrorWithData_map", W, base, ai.KStr(good), mode, miss, own(p))
	mk("an error without parameters", "NewErrorWithData_any_map", nil, plainErr(), ai.KStr("$w"), mode, ai.Nil{T: anyMap})
	for _, er := range errs {
		s := map[int]bool{}
		st.Reach(er.v, s)
		for o := range s {
			if x.own[o] == "" {
				x.own[o] = "part of " + er.name
			}
		}
	}
	{
		s := map[int]bool{}
		e.it.ReachGlobals(st, s)
		for o := range s {
			if x.own[o] == "" {
				x.own[o] = "package variable or reachable from one"
			}
		}
	}
	all := append([]ev{{"nil", ai.Nil{T: errIface}}, {"a foreign error", plainErr()}}, errs...)
	// 1. queries of every error, in any order (each from the same state, and once more after all others)
	for round := 0; round < 2; round++ {
		for _, er := range all {
			er := er
			if _, isNil := er.v.(ai.Nil); !isNil && er.name != "a foreign error" {
				meths := []string{"Error", "Unwrap", "Error_interpolate", "ValidateSyntax", "ValidateError_Final", "ValidateError_Base", "ValidateError_Params", "GetData_map", "GetParameter", "HasParameter", "GetData_struct"}
				for _, m := range meths {
					if m == "GetData_struct" && er.name != "a typed error" {
						continue
					}
					st = x.run(st, m, func(s *ai.State) []ai.Outcome {
						switch m {
						case "Error_interpolate", "ValidateError_Params":
							return e.it.CallMethod(s, er.v, m, passed)
						case "GetParameter", "HasParameter":
							return e.it.CallMethod(s, er.v, m, ai.KStr("X"))
						}
						return e.it.CallMethod(s, er.v, m)
					}, func(o ai.Outcome) string {
						if m == "GetData_map" {
							return fresh(o, o.Ret[0], 0, er.v)
						}
						return ""
					})
				}
			}
			for _, f := range []struct {
				n string
				T []types.Type
				a []ai.Value
			}{{"GetData_map", nil, nil}, {"GetParameter", nil, []ai.Value{ai.KStr("X")}}, {"HasParameter", nil, []ai.Value{ai.KStr("X")}}, {"HasData", W, nil}, {"GetData_struct", W, []ai.Value{miss}}, {"HasData", W2, nil}, {"UnboxError", nil, nil}} {
				st = x.run(st, "function "+f.n, func(s *ai.State) []ai.Outcome {
					return e.run(s, f.n, f.T, append([]ai.Value{er.v}, f.a...)...)
				}, func(o ai.Outcome) string {
					if f.n == "GetData_map" {
						return fresh(o, o.Ret[0], 0, er.v)
					}
					return ""
				})
			}
			// 2. making new errors from it
			for _, c := range ctors {
				c := c
				var made ai.Value
				// results are used, too: a new error must not have been modified after being published
				s2 := x.run(st, c.name, func(s *ai.State) []ai.Outcome { return c.call(s, er.v, good) }, func(o ai.Outcome) string {
					made = o.Ret[0]
					return notRetained(o)
				})
				if made != nil {
					if _, ok := made.(ai.Iface); ok {
						for _, m := range []string{"Error", "GetData_map", "ValidateError_Final"} {
							s2 = x.run(s2, c.name+", then "+m, func(s *ai.State) []ai.Outcome { return e.it.CallMethod(s, made, m) }, func(o ai.Outcome) string {
								if m == "GetData_map" {
									return fresh(o, o.Ret[0], 0, made, er.v)
								}
								return ""
							})
						}
					}
				}
			}
		}
		for _, f := range []struct {
			n string
			T []types.Type
			a []ai.Value
		}{{"StructSuitableForErrorsWithData", W, nil}, {"StructSuitableForErrorsWithData", W2, nil}, {"CheckParametersForStruct_all", W, []ai.Value{names}}, {"CheckParameterForStruct", W, []ai.Value{ai.KStr("X")}}, {"CheckIsSubtype", []types.Type{W[0], W[0]}, nil}, {"CheckIsSubtype", []types.Type{W[0], W2[0]}, nil}, {"ValidInterpolationName", nil, []ai.Value{ai.KStr("X")}}} {
			st = x.run(st, f.n, func(s *ai.State) []ai.Outcome { return e.run(s, f.n, f.T, f.a...) }, nil)
		}
	}
	x.finish()
	seen := map[string]bool{}
	var ops []string
	_ = ops
	for _, as := range x.acc {
		for _, a := range as {
			seen[a.op] = true
		}
	}
	for op := range x.bad {
		seen[op] = true
	}
	for op := range seen {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	for _, op := range ops {
		var pos token.Pos
		n, _, _ := strings.Cut(strings.TrimPrefix(op, "function "), ",")
		if f := r.P.Func(ewdPkg, n); f != nil {
			pos = f.Pos()
		}
		r.Ok("E05.shared", op, pos, "modifies nothing that existed before the call except under a lock held at every access; keeps no reference to argument maps and returns none to its own", x.bad[op] == "", x.bad[op])
	}
	r.Count("operations run", x.opsN)
	r.Count("shared objects accessed", len(x.acc))
	r.noteVisited(e.it)
	var _ *ssa.Function
}
