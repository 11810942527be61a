package chk

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"verif/ai"
)

func init() {
	register(&Property{ID: "E07", Level: "other", Technique: techAI, F: e07,
		Note: "struct guards: one witness type per documented restriction, all pairs of them, name lists derived from each; error guards: lists of up to 3 (thorough 4) opaque errors, every combination of verdicts; names: a list covering each rule for exported Go identifiers"})
}

// goFields: names of the fields of t that Go's selector rules make reachable, embedded structs expanded (an embedded
// struct is not a field of its own). Only for suitable t.
func goFields(t types.Type) []string {
	depth := map[string]int{}
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
				walk(f.Type(), d+1)
				continue
			}
			if x, ok := depth[f.Name()]; !ok || d < x {
				depth[f.Name()] = d
			}
		}
	}
	walk(t, 0)
	var r []string
	for k := range depth {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func e07(r *Run) {
	r.aiGo("E07.struct", "struct guards", func() { e07Struct(newEwd(r)) })
	for _, k := range []string{"Final", "Base", "Syntax"} {
		k := k
		r.aiGo("E07.errors", k, func() { e07Errors(newEwd(r), k) })
	}
	r.aiGo("E07.name", "names", func() { e07Names(newEwd(r)) })
	r.Wait()
}

func (e *ewd) strList(st *ai.State, l []string) ai.Value {
	var vs []ai.Value
	for _, x := range l {
		vs = append(vs, ai.KStr(x))
	}
	return st.NewSlice(types.NewSlice(types.Typ[types.String]), vs...)
}

func e07Struct(e *ewd) {
	r := e.r
	cases := e.structTypes()
	all := map[string]bool{"": true, "a": true, "b": true, "x": true, "ZZ": true, "X ": true, "Witness": true, "_": true}
	for _, c := range cases {
		if c.ok {
			for _, f := range goFields(c.t) {
				all[f] = true
			}
		}
		if s, ok := c.t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				all[s.Field(i).Name()] = true
			}
		}
	}
	var univ []string
	for n := range all {
		univ = append(univ, n)
	}
	sort.Strings(univ)
	// verdict: every path of the call must panic, or none
	judge := func(outs []ai.Outcome, want bool, what string) string {
		if len(outs) == 0 {
			return what + " does not return"
		}
		for _, o := range outs {
			if (o.Panic == nil) != want {
				if want {
					return what + " panics: " + o.Describe()
				}
				return what + " accepts it"
			}
		}
		return ""
	}
	type verdict struct{ bad string }
	v := map[string]*verdict{"CheckParametersForStruct_all": {}, "CheckParameterForStruct": {}, "CheckIsSubtype": {}}
	note := func(n, d string) {
		r.Count("cases "+n, 1)
		if d != "" && v[n].bad == "" {
			v[n].bad = d
		}
	}
	base := e.it.Base.Clone()
	set := func(c structCase) map[string]bool {
		m := map[string]bool{}
		if c.ok {
			for _, f := range goFields(c.t) {
				m[f] = true
			}
		}
		return m
	}
	for _, c := range cases {
		fs := []string{"A", "X"}
		if c.ok {
			fs = goFields(c.t)
		}
		var lists [][]string
		add := func(l ...string) { lists = append(lists, append([]string{}, l...)) }
		add()
		add(fs...)
		var rev []string
		for i := len(fs) - 1; i >= 0; i-- {
			rev = append(rev, fs[i])
		}
		add(rev...)
		add(append(append([]string{}, fs...), "ZZ")...)
		add(append([]string{"ZZ"}, fs...)...)
		add("ZZ", "ZZ")
		for i := range fs {
			without := append(append([]string{}, fs[:i]...), fs[i+1:]...)
			add(without...)
			add(append(append([]string{}, without...), "ZZ")...)
			add(append(append([]string{}, fs...), fs[i])...)
			add(append([]string{fs[i]}, fs...)...)
			add(append(append([]string{}, without...), strings.ToLower(fs[i]))...)
			for j := range without {
				// right length, but one name stands twice in place of another
				add(append(append([]string{}, without...), without[j])...)
			}
		}
		want := set(c)
		for _, l := range lists {
			seen := map[string]bool{}
			ok := c.ok && len(l) == len(want)
			for _, n := range l {
				ok = ok && want[n] && !seen[n]
				seen[n] = true
			}
			st := base.Clone()
			outs := e.run(st, "CheckParametersForStruct_all", []types.Type{c.t}, e.strList(st, l))
			note("CheckParametersForStruct_all", judge(outs, ok, fmt.Sprintf("with %s (fields %v) and the list %q, CheckParametersForStruct_all", c.name, fs, l)))
		}
		for _, n := range univ {
			st := base.Clone()
			outs := e.run(st, "CheckParameterForStruct", []types.Type{c.t}, ai.KStr(n))
			note("CheckParameterForStruct", judge(outs, want[n], fmt.Sprintf("with %s (fields %v) and the name %q, CheckParameterForStruct", c.name, fs, n)))
		}
		for _, d := range cases {
			ok := c.ok && d.ok
			w2 := set(d)
			for n := range want {
				ok = ok && w2[n]
			}
			outs := e.run(base.Clone(), "CheckIsSubtype", []types.Type{c.t, d.t})
			note("CheckIsSubtype", judge(outs, ok, fmt.Sprintf("with %s and %s, CheckIsSubtype", c.name, d.name)))
		}
	}
	for n, x := range v {
		r.Ok("E07.struct", n, e.fn(n).Pos(), "panics exactly if the struct types are unsuitable or their fields are not as stated", x.bad == "", x.bad)
	}
	r.noteVisited(e.it)
}

// e07Errors: EnsureErrorsValid_X panics exactly if X's validation refuses one of the errors; the panic carries the first.
func e07Errors(e *ewd, kind string) {
	r := e.r
	name := "EnsureErrorsValid_" + kind
	meth := "ValidateError_" + kind
	if kind == "Syntax" {
		meth = "ValidateSyntax"
	}
	f := e.fn(name)
	pt := f.Signature.Params().At(0).Type().(*types.Slice)
	max := 3
	if r.Tier == "thorough" {
		max = 4
	}
	bad := ""
	for n := 0; n <= max && bad == ""; n++ {
		for mask := 0; mask < 1<<n; mask++ { // bit set: invalid
			st := e.it.Base.Clone()
			asked := map[string]bool{}
			st.SetOracle(func(a string) (bool, bool) {
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("e%d", i)
					switch {
					case a == "nil("+k+")":
						return false, true
					case strings.HasPrefix(a, "nil("+k+"."+meth):
						asked[k] = true
						return mask>>i&1 == 0, true
					case strings.HasPrefix(a, "nil("+k+".Validate"):
						// another validation: its verdict is the opposite, so a mix-up is noticed
						return mask>>i&1 != 0, true
					}
				}
				return false, false
			})
			var es []ai.Value
			first := ""
			for i := 0; i < n; i++ {
				es = append(es, ai.Sym{Key: fmt.Sprintf("e%d", i), T: pt.Elem()})
				if mask>>i&1 == 1 && first == "" {
					first = fmt.Sprintf("e%d.%s", i, meth)
				}
			}
			var arg ai.Value = ai.Nil{T: pt}
			if n > 0 {
				arg = st.NewSlice(pt, es...)
			}
			outs := e.it.RunFrom(st, f, nil, nil, []ai.Value{arg})
			what := fmt.Sprintf("with %d errors of which %0*b (last first) are invalid", n, n, mask)
			r.Count("cases "+name, 1)
			if len(outs) != 1 {
				bad = fmt.Sprintf("%s: %d outcomes", what, len(outs))
				break
			}
			o := outs[0]
			switch {
			case (o.Panic != nil) != (mask != 0):
				bad = what + ": " + o.Describe()
			case o.Panic != nil && !strings.Contains(o.St.Key(o.Panic), first):
				bad = fmt.Sprintf("%s: the panic %s does not contain the first issue %s", what, o.St.Key(o.Panic), first)
			}
			if bad != "" {
				break
			}
		}
	}
	r.Ok("E07.errors", name, f.Pos(), "panics with the first issue exactly if "+meth+" of some argument reports one", bad == "", bad)
	r.noteVisited(e.it)
}

func e07Names(e *ewd) {
	r := e.r
	f := e.fn("ValidInterpolationName")
	bad := ""
	names := []string{"", "A", "a", "_", "_A", "A_", "A1", "1A", "Ä", "ä", "Äö1_", "A-B", "A B", " A", "A ", "A.B", "A{", "!m", "M", "m", "!map", "A٣", "É", "Func", "func", "Type", "Ω", "語", "A\x00", "A語", "ǅ", "A\n", "%A", "$A"}
	for c := rune(1); c < 128; c++ {
		names = append(names, string(c), "A"+string(c), string(c)+"A")
	}
	for _, n := range names {
		want := n != ""
		for i, c := range n {
			if i == 0 {
				want = want && unicode.IsUpper(c)
			}
			want = want && (c == '_' || unicode.IsLetter(c) || i > 0 && unicode.IsDigit(c))
		}
		outs := e.it.RunFrom(e.it.Base.Clone(), f, nil, nil, []ai.Value{ai.KStr(n)})
		r.Count("names", 1)
		if len(outs) != 1 || outs[0].Panic != nil {
			bad = fmt.Sprintf("ValidInterpolationName(%q) has no single result", n)
			break
		}
		if got := outs[0].St.Key(outs[0].Ret[0]); got != fmt.Sprint(want) {
			bad = fmt.Sprintf("ValidInterpolationName(%q) is %s, want %v", n, got, want)
			break
		}
	}
	r.Ok("E07.name", "ValidInterpolationName", f.Pos(), "true exactly for exported Go identifiers", bad == "", bad)
	r.noteVisited(e.it)
}
