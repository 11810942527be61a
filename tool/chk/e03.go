package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"verif/ai"
	"verif/load"
)

// E03: parsing of interpolation strings is total: no string makes construction, validation or formatting panic or loop,
// and the syntax verdict is exact.

func init() {
	register(&Property{ID: "E03", Level: "other", Technique: techAI, F: e03,
		Note: "part 1 is exhaustive over all sequences of the tokens of the language up to a length (quick 4, thorough 5) and over all short strings of bytes relevant to the tokenizer, and of tokens inside up to 8 nested conditionals; part 2 is a fixpoint over token sequences of any length in which strings are opaque non-empty values, at most three (thorough: four) conditionals, and lists are abstracted to their length capped at 3; if the unexported parser function is not found or not analysable, only part 1 decides"})
}

func e03(r *Run) {
	toks := []string{"%", "$", "%!", "$!", "{", "}", "%w", "$w", "m>0", "A"}
	max := 4
	if r.Tier == "thorough" {
		max = 5
	}
	var strs []string
	seen := map[string]bool{}
	var gen func(p string, n int)
	gen = func(p string, n int) {
		if !seen[p] {
			seen[p] = true
			strs = append(strs, p)
		}
		if n == 0 {
			return
		}
		for _, t := range toks {
			gen(p+t, n-1)
		}
	}
	gen("", max)
	nTok := len(strs)
	// bytes the tokenizer distinguishes, with escapes, line breaks, bytes that are not valid UTF-8 and multi-byte characters
	ab := []string{"%", "$", "{", "}", "\\", "!", "w", "a", "\n", "\xff", "é"}
	var gen2 func(p string, n int)
	gen2 = func(p string, n int) {
		if !seen[p] {
			seen[p] = true
			strs = append(strs, p)
		}
		if n > 0 {
			for _, t := range ab {
				gen2(p+t, n-1)
			}
		}
	}
	gen2("", 3)
	gen2("%{", 2)
	gen2("%!m>0{", 2)
	// tokens inside nested conditionals
	maxDeep, tails := 8, 1
	if r.Tier == "thorough" {
		maxDeep, tails = 12, 2
	}
	nByte := len(strs) - nTok
	for d := 1; d <= maxDeep; d++ {
		for _, kind := range []int{0, 1, 2} {
			for cl := 0; cl <= d+1; cl++ {
				open := ""
				for j := 0; j < d; j++ {
					if kind == 0 || kind == 2 && j%2 == 0 {
						open += "%!m>0{"
					} else {
						open += "$!m=0{x"
					}
				}
				gen(open+strings.Repeat("}", cl), tails)
			}
		}
	}
	nDeep := len(strs) - nTok - nByte
	var mu sync.Mutex
	bad := map[string]string{}
	n := 16
	for i := 0; i < n; i++ {
		var part []string
		for j := i; j < len(strs); j += n {
			part = append(part, strs[j])
		}
		r.aiGo("E03.total", fmt.Sprintf("part %d", i+1), func() {
			newEwd(r).e03Part(part, func(what, d string) {
				mu.Lock()
				defer mu.Unlock()
				if old, ok := bad[what]; !ok || d != "" && (old == "" || len(d) < len(old)) {
					if d != "" || !ok {
						bad[what] = d
					}
				}
			})
		})
	}
	r.Wait()
	var pos token.Pos
	if f := r.P.Func(ewdPkg, "NewErrorWithData_any_map"); f != nil {
		pos = f.Pos()
	}
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.Ok("E03.total", k, pos, "does not panic, terminates and gives the documented verdict for every generated string", bad[k] == "", bad[k])
	}
	r.Count("token sequences", nTok)
	r.Count("byte sequences", nByte)
	r.Count("strings with nested conditionals", nDeep)
	r.e03Fix()
}

func (e *ewd) e03Part(strs []string, note func(what, d string)) {
	st := e.it.Base.Clone()
	repl := e.global(st, "ReplacePreviousData")
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	val := payload(st, "a", types.Typ[types.Int])
	params := st.NewMap(anyMap, ai.KStr("A"), val)
	nilB := &iErr{kind: "nil", v: ai.Nil{T: errIface}}
	for _, s := range strs {
		if s == "" {
			continue // a nil base and no message of its own is refused (E06)
		}
		x := mkErr(s, map[string]string{"A": "a"}, nilB)
		name := fmt.Sprintf("[string %q]", s)
		o := e.run(st.Clone(), "NewErrorWithData_any_map", nil, nilB.v, ai.KStr(s), repl, params)
		if len(o) != 1 || o[0].Panic != nil {
			d := "no single outcome"
			if len(o) > 0 {
				d = o[0].Describe()
			}
			note("construction", name+" "+d)
			continue
		}
		note("construction", "")
		st2, v := o[0].St, o[0].Ret[0]
		for _, m := range []string{"Error", "ValidateSyntax", "ValidateError_Final"} {
			os := e.it.CallMethod(st2.Clone(), v, m)
			d := ""
			switch {
			case len(os) != 1:
				d = fmt.Sprintf("%d outcomes", len(os))
			case os[0].Panic != nil:
				d = os[0].Describe()
			case m == "Error":
				got := mapTerm.ReplaceAllString(os[0].St.Key(os[0].Ret[0]), "$1")
				if want, ok := x.text(nil, iMapKey); ok {
					if w := os[0].St.Key(ai.MkCat(want...)); w != got {
						d = "is " + got + ", want " + w
					}
				} else if !x.ok && !strings.Contains(got, iMapKey(x.params)) {
					d = "message of a malformed string does not show the parameters: " + got
				}
			default:
				want := x.ok
				if m == "ValidateError_Final" {
					want = x.valid(false, nil, true)
				}
				if _, isNil := os[0].Ret[0].(ai.Nil); isNil != want {
					d = fmt.Sprintf("returns %s, want %s", os[0].St.Key(os[0].Ret[0]), map[bool]string{true: "nil", false: "an error"}[want])
				}
			}
			if d != "" {
				d = name + " " + d
			}
			note(m, d)
		}
	}
	e.r.noteVisited(e.it)
}

// ---- fixpoint over token sequences of any length

type e03State struct {
	str  bool // the last token was a string
	cond int  // conditionals opened so far
	past bool // the start token was read
	fin  bool // the end token was read
}

func (r *Run) e03Fix() {
	f := r.P.Func(ewdPkg, "make_ast")
	pkg := r.P.SPkgs[load.Path(ewdPkg)]
	if f == nil || pkg == nil || len(f.Params) != 1 {
		r.Count("fixpoint not available", 1)
		return
	}
	sc := pkg.Pkg.Scope()
	strT, specT := sc.Lookup("stringToken"), sc.Lookup("specialToken")
	if strT == nil || specT == nil {
		r.Count("fixpoint not available", 1)
		return
	}
	var special []*types.Const
	var start, end *types.Const
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), specT.Type()) {
			continue
		}
		switch n {
		case "tokenStart":
			start = c
		case "tokenEnd":
			end = c
		case "tokenInvalid":
		default:
			special = append(special, c)
		}
	}
	if start == nil || end == nil || len(special) < 8 {
		r.Count("fixpoint not available", 1)
		return
	}
	var viol, undec string
	nodes := map[string]int{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(ai.Undecided); ok {
					undec = u.Msg
					return
				}
				panic(e)
			}
		}()
		e := newEwd(r)
		it := e.it
		it.Finite = true
		it.MaxSteps, it.MaxPaths = 20000000, 2000000
		tok := func(c *types.Const) ai.Value {
			return ai.Iface{T: specT.Type(), V: ai.Const{V: c.Val(), T: specT.Type()}}
		}
		maxCond := 3
		if r.Tier == "thorough" {
			maxCond = 4
		}
		// automaton states are numbered on demand
		ids := map[e03State]int{{}: 0}
		list := []e03State{{}}
		id := func(s e03State) int {
			n, ok := ids[s]
			if !ok {
				n = len(list)
				ids[s] = n
				list = append(list, s)
			}
			return n
		}
		it.Seq = func(n int) (el []ai.Value, next []int, fin bool) {
			s := list[n]
			switch {
			case !s.past:
				return []ai.Value{tok(start)}, []int{id(e03State{past: true})}, false
			case s.fin:
				return nil, nil, true
			}
			if !s.str {
				el = append(el, ai.Iface{T: strT.Type(), V: ai.Any{T: strT.Type(), NonEmpty: true}})
				next = append(next, id(e03State{str: true, cond: s.cond, past: true}))
			}
			for _, c := range special {
				k := s.cond
				if strings.HasSuffix(c.Name(), "Cond") {
					if k++; k > maxCond {
						continue
					}
				}
				el = append(el, tok(c))
				next = append(next, id(e03State{cond: k, past: true}))
			}
			el = append(el, tok(end))
			next = append(next, id(e03State{past: true, fin: true}))
			return el, next, false
		}
		trunc := func(t types.Type) bool {
			n, ok := t.(*types.Named)
			if !ok || n.Obj().Pkg() != pkg.Pkg {
				return false
			}
			_, ok = n.Underlying().(*types.Slice)
			return ok
		}
		edges := map[int]map[int]bool{} // node -> node without consuming input
		it.Header = func(st *ai.State) bool {
			k := fmt.Sprint(st.SeqSt, "|", it.Canon(st, trunc))
			n, old := nodes[k]
			if !old {
				n = len(nodes) + 1
				nodes[k] = n
			}
			if st.Node != 0 && st.Taken == st.Took {
				if edges[st.Node] == nil {
					edges[st.Node] = map[int]bool{}
				}
				edges[st.Node][n] = true
			}
			st.Node, st.Took = n, st.Taken
			return !old
		}
		outs := it.RunFrom(it.Base.Clone(), f, nil, nil, []ai.Value{ai.Seq{}})
		for _, o := range outs {
			if o.Panic != nil && viol == "" {
				viol = o.Describe() + " at " + r.P.Rel(o.Pos)
			}
		}
		// a cycle of steps that consume nothing need not terminate
		col := map[int]int{}
		var dfs func(n int) bool
		dfs = func(n int) bool {
			col[n] = 1
			for m := range edges[n] {
				if col[m] == 1 || col[m] == 0 && dfs(m) {
					return true
				}
			}
			col[n] = 2
			return false
		}
		for n := range edges {
			if col[n] == 0 && dfs(n) && viol == "" {
				viol = "a loop can repeat without reading a token"
			}
		}
		r.Count("fixpoint final paths", len(outs))
		r.noteVisited(it)
	}()
	if undec != "" {
		r.Count("fixpoint not decided: "+undec, 1)
		return
	}
	r.Count("fixpoint nodes", len(nodes))
	r.Ok("E03.fixpoint", "parser on token sequences of any length", f.Pos(), "no reachable panic, every loop reads tokens", viol == "", viol)
}
