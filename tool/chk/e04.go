package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"verif/ai"
)

func init() {
	register(&Property{ID: "E04", Level: "other", Technique: techAI, F: e04,
		Note: "interpolation strings are generated from the grammar up to nesting depth 2 (thorough: all ordered pairs of elements), with every kind of malformed element; parameter values and foreign errors are opaque; the fmt package is a contract (the formatted text is a term over verb and value)"})
}

// ---- oracle: the interpolation language as documented

type iKind int

const (
	iText iKind = iota
	iVar
	iWrap
	iCond
)

type iNode struct {
	kind   iKind
	dollar bool
	text   string // text, format verb or condition
	name   string
	sub    []*iNode
}

type iTok struct {
	lit bool
	s   string
}

func iTokens(s string) []iTok {
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, string(utf8.RuneError))
	}
	var out []iTok
	lit := func(t string) {
		if n := len(out); n > 0 && out[n-1].lit {
			out[n-1].s += t
			return
		}
		out = append(out, iTok{true, t})
	}
	for i := 0; i < len(s); {
		two := ""
		if i+1 < len(s) {
			two = s[i : i+2]
		}
		switch {
		case two == `\%` || two == `\$` || two == `\{` || two == `\}` || two == `\\`:
			lit(two[1:])
			i += 2
		case two == "%%":
			lit("%")
			i += 2
		case two == "%!" || two == "$!" || two == "%w" || two == "$w":
			out = append(out, iTok{false, two})
			i += 2
		case strings.ContainsRune("%${}", rune(s[i])):
			out = append(out, iTok{false, s[i : i+1]})
			i++
		default:
			lit(s[i : i+1])
			i++
		}
	}
	return out
}

// iParse returns the syntax tree, or nil, false for a malformed string.
func iParse(ts []iTok, depth int) (seq []*iNode, rest []iTok, ok bool) {
	for len(ts) > 0 {
		t := ts[0]
		switch {
		case t.lit:
			seq = append(seq, &iNode{kind: iText, text: t.s})
			ts = ts[1:]
		case t.s == "%w" || t.s == "$w":
			seq = append(seq, &iNode{kind: iWrap, dollar: t.s == "$w"})
			ts = ts[1:]
		case t.s == "%" || t.s == "$":
			n := &iNode{kind: iVar, dollar: t.s == "$", text: "v"}
			ts = ts[1:]
			if len(ts) > 0 && ts[0].lit {
				n.text = ts[0].s
				ts = ts[1:]
			}
			if len(ts) < 3 || ts[0].lit || ts[0].s != "{" || !ts[1].lit || ts[2].lit || ts[2].s != "}" {
				return nil, nil, false
			}
			n.name = ts[1].s
			ts = ts[3:]
			seq = append(seq, n)
		case t.s == "%!" || t.s == "$!":
			n := &iNode{kind: iCond, dollar: t.s == "$!"}
			ts = ts[1:]
			if len(ts) < 2 || !ts[0].lit || ts[1].lit || ts[1].s != "{" {
				return nil, nil, false
			}
			n.text = ts[0].s
			var o bool
			n.sub, ts, o = iParse(ts[2:], depth+1)
			if !o || len(ts) == 0 {
				return nil, nil, false
			}
			ts = ts[1:] // the closing bracket
			seq = append(seq, n)
		case t.s == "}" && depth > 0:
			return seq, ts, true
		default:
			return nil, nil, false
		}
	}
	return seq, nil, depth == 0
}

var iSelectors = map[string]bool{"!m": true, "!map": true, "!params": true, "!parameters": true}

func iSyntax(seq []*iNode) bool {
	for _, n := range seq {
		switch n.kind {
		case iVar:
			if strings.Contains(n.text, "%") || !iSelectors[n.name] && !(token.IsIdentifier(n.name) && token.IsExported(n.name)) {
				return false
			}
		case iCond:
			if n.text != "m>0" && n.text != "m=0" || !iSyntax(n.sub) {
				return false
			}
		}
	}
	return true
}

// iErr is an error of the model.
type iErr struct {
	kind   string // "nil", "plain", "fi", "own"
	key    string
	seq    []*iNode
	ok     bool // syntax
	src    string
	params map[string]string // keys of values
	base   *iErr
	v      ai.Value
}

func mkErr(src string, params map[string]string, base *iErr) *iErr {
	e := &iErr{kind: "own", src: src, params: params, base: base}
	seq, _, ok := iParse(iTokens(src), 0)
	e.seq, e.ok = seq, ok && iSyntax(seq)
	return e
}

// text is the expected message of a well-formed chain; ok is false if the chain contains a malformed string.
func (x *iErr) text(passed map[string]string, fiMap func(map[string]string) string) (out []ai.Value, ok bool) {
	if !x.ok {
		return nil, false
	}
	if passed == nil {
		passed = x.params
	}
	ok = true
	var walk func(seq []*iNode)
	walk = func(seq []*iNode) {
		for _, n := range seq {
			m, c := x.params, "%"
			if n.dollar {
				m, c = passed, "$"
			}
			switch n.kind {
			case iText:
				out = append(out, ai.KStr(n.text))
			case iVar:
				v, has := m[n.name]
				if iSelectors[n.name] {
					v, has = iMapKey(m), true
				}
				if has {
					out = append(out, iSprintf(n.text, v))
				} else {
					out = append(out, ai.KStr(c+n.text+"!<missing value>"))
				}
			case iCond:
				if (len(m) == 0) == (n.text == "m=0") {
					walk(n.sub)
				}
			case iWrap:
				switch x.base.kind {
				case "nil":
					out = append(out, ai.KStr(c+"w(<nil>)"))
				case "plain":
					if n.dollar {
						out = append(out, ai.KStr("<$w is not supported by base error!>"))
					}
					out = append(out, ai.Sym{Key: x.base.key + ".Error()", T: types.Typ[types.String]})
				case "fi":
					if n.dollar {
						out = append(out, ai.Sym{Key: x.base.key + ".Error_interpolate(" + fiMap(m) + ")", T: types.Typ[types.String]})
					} else {
						out = append(out, ai.Sym{Key: x.base.key + ".Error()", T: types.Typ[types.String]})
					}
				case "own":
					p := passed
					if !n.dollar {
						p = nil
					}
					t, o := x.base.text(p, fiMap)
					ok = ok && o
					out = append(out, t...)
				}
			}
		}
	}
	walk(x.seq)
	return out, ok
}

func iMapKey(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "map["
	for i, k := range ks {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%q:%s", k, m[k])
	}
	return s + "]"
}

func iSprintf(verb, val string) ai.Value {
	return ai.Sym{Key: "Sprintf(" + fmt.Sprintf("%q", "%"+verb) + ";" + val + ")", T: types.Typ[types.String]}
}

// valid is the expected verdict of ValidateError_Base (base true) or ValidateError_Params(passed).
func (x *iErr) valid(base bool, passed map[string]string, fiGood bool) bool {
	if !x.ok {
		return false
	}
	if passed == nil {
		passed = x.params
	}
	var walk func(seq []*iNode) bool
	walk = func(seq []*iNode) bool {
		for _, n := range seq {
			m := x.params
			if n.dollar {
				m = passed
			}
			switch n.kind {
			case iVar:
				if n.dollar && base {
					continue
				}
				if _, has := m[n.name]; !has && !iSelectors[n.name] {
					return false
				}
			case iCond:
				if n.dollar && base || (len(m) == 0) == (n.text == "m=0") {
					if !walk(n.sub) {
						return false
					}
				}
			case iWrap:
				switch x.base.kind {
				case "nil":
					return false
				case "plain":
					if n.dollar {
						return false
					}
				case "fi":
					if !fiGood {
						return false
					}
				case "own":
					switch {
					case !n.dollar:
						if !x.base.valid(false, nil, fiGood) {
							return false
						}
					case base:
						if !x.base.valid(true, nil, fiGood) {
							return false
						}
					default:
						if !x.base.valid(false, passed, fiGood) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return walk(x.seq)
}

// ---- generation

var iGood = []string{
	"text", `\%`, "%%", `\$`, `\{`, `\}`, `\\`, `\x`, "a b", "é", "\n", "\xff", "!", "w", `a\%b\\c`, "A\x00B",
	"%{A}", "${A}", "%v{A}", "$v{A}", "%#x{A}", "$+5.2f{B}", "%s{B}", "%d{Missing}", "$q{Missing}", "%{Missing}", "${Missing}",
	"%{!m}", "%{!map}", "%v{!params}", "%{!parameters}", "${!m}", "${!map}", "$x{!params}", "${!parameters}",
	"%w", "$w", "%{Ä}", "%{A1_b}", `%\${A}`, `$ {A}`,
}
var iBadSyntax = []string{`%\%{A}`, `$d%%{A}`, "%{a}", "${missing}", "%{!x}", "${!M}", "%{!}", "%{ A}", "%{A b}", "%{1}", "%{_A}", "%{A.B}", `%{\}}`, "%!x{A}", "$!m > 0{}", "%!m>1{%w}", "%! m>0{}", "%{!mapp}", "%{Type-A}"}
var iBadParse = []string{"{", "}", "%", "$", "%v", "$x", "%{", "%{}", "${}", "%v{}", "%v{A", "%v{A%", "%{A", "%}", "%v}", "%v{%{A}}", "%!", "$!", "%!{}", "%!m>0", "%!m>0}", "$!m>0{", "$!m>0{text", "%!m>0%{A}", "$%{A}", "%$", "$$", "$${A}", "%v%w", "%$w", "%{%w}", "%v{A{", "%!$w{}", "${$}", "$v${A}"}

func iStrings(thorough bool) []string {
	var out []string
	add := func(s ...string) { out = append(out, s...) }
	add(iGood...)
	add(iBadSyntax...)
	add(iBadParse...)
	conds := []string{"%!m>0{", "%!m=0{", "$!m>0{", "$!m=0{"}
	add("")
	for _, c := range conds {
		add(c + "}")
		for _, g := range []string{"text", "%{A}", "${A}", "%{Missing}", "${Missing}", "%w", "$w", `\}`, "${!m}", "a%{A}b", "%{a}", "$!x{}", "{", "%", "%v{}", "$!m>0"} {
			add(c + g + "}")
		}
		for _, d := range conds {
			add(c+"x"+d+"%{A}y"+"}z}", c+d+"${Missing}}}", c+"}"+d+"$w}")
		}
	}
	// order and concatenation
	small := []string{"t", `\$`, "%{A}", "${B}", "%w", "$w", "%!m>0{c}", "$!m=0{${A}}", "%{Missing}"}
	for _, a := range small {
		for _, b := range small {
			add(a + b)
			if thorough {
				for _, c := range small {
					add(a + b + c)
				}
			}
		}
	}
	bad := []string{"%{a}", "{", "$", "%!q{c}", "}", "%v", "%!m>0{"}
	for _, a := range []string{"t", "%{A}", "$w", "%!m>0{c}"} {
		for _, b := range bad {
			add(a+b, b+a, a+b+a)
		}
	}
	for _, c := range []string{"%!m>0{$!m=0{%!m=0{x}y}z}", "%!m=0{$!m>0{%!m>0{%{A}}y}z}", "$!m>0{$!m=0{${A}}${B}$!m>0{%w}}"} {
		add(c)
	}
	if thorough {
		g := append(append([]string{}, iGood...), iBadSyntax...)
		for _, a := range g {
			for _, b := range small {
				add(a+b, b+a)
			}
		}
	}
	seen := map[string]bool{}
	var u []string
	for _, s := range out {
		if s != "" && !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

// mapTerm matches a parameter map converted to an interface.
var mapTerm = regexp.MustCompile(`(?:errorsWithData\.ParamMap|map\[string\](?:any|interface ?\{\}))\((map\[[^()]*\])\)`)

// ---- comparison

func e04(r *Run) {
	ss := iStrings(r.Tier == "thorough")
	n := 8
	var mu sync.Mutex
	bad := map[string]string{}
	cnt := map[string]int{}
	run := func(name string, part []string, mixed bool) {
		r.aiGo("E04.interpolate", name, func() {
			newEwd(r).e04Part(part, mixed, func(what, d string) {
				mu.Lock()
				defer mu.Unlock()
				cnt[what]++
				if _, ok := bad[what]; !ok || d != "" && (bad[what] == "" || len(d) < len(bad[what])) {
					if d != "" || !ok {
						bad[what] = d
					}
				}
			})
		})
	}
	for i := 0; i < n; i++ {
		var part []string
		for j := i; j < len(ss); j += n {
			part = append(part, ss[j])
		}
		run(fmt.Sprintf("part %d", i+1), part, false)
	}
	run("chains", nil, true)
	r.Wait()
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		m := strings.Fields(k)[0]
		var pos token.Pos
		if f := r.P.Func(ewdPkg, "NewErrorWithData_any_map"); f != nil {
			pos = f.Pos()
		}
		_ = m
		r.Ok("E04.interpolate", k, pos, "agrees with the documented interpolation language on every generated string", bad[k] == "", bad[k])
		r.Count("cases "+k, cnt[k])
	}
	r.Count("interpolation strings", len(ss))
}

func (e *ewd) e04Part(strs []string, chains bool, note func(what, d string)) {
	st := e.it.Base.Clone()
	st.SetOracle(func(a string) (bool, bool) {
		for _, k := range []string{"plain", "good", "bad"} {
			switch {
			case a == "nil(Unwrap("+k+"))":
				return true, true
			case a == "nil("+k+")":
				return false, true
			case strings.HasPrefix(a, "is("+k+","):
				return false, true
			case strings.HasPrefix(a, "nil("+k+".Validate"):
				return k == "good", true
			case strings.HasPrefix(a, "impl("+k+","):
				return k != "plain" && strings.HasSuffix(a, "ErrorInterpolater)"), true
			}
		}
		return false, false
	})
	// validation of foreign errors is asked through the documented methods only
	repl := e.global(st, "ReplacePreviousData")
	anyMap := types.NewMap(types.Typ[types.String], anyIface)
	intT := types.Typ[types.Int]
	val := map[string]ai.Value{}
	for _, k := range []string{"a", "b", "pa", "pb", "u"} {
		val[k] = payload(st, k, intT)
	}
	mkMap := func(s *ai.State, m map[string]string) ai.Value {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var kvs []ai.Value
		for _, k := range ks {
			kvs = append(kvs, ai.KStr(k), val[m[k]])
		}
		return s.NewMap(anyMap, kvs...)
	}
	build := func(x *iErr, given map[string]string) string {
		o := e.run(st, "NewErrorWithData_any_map", nil, x.base.v, ai.KStr(x.src), repl, mkMap(st, given))
		if len(o) != 1 || o[0].Panic != nil {
			d := "no single outcome"
			if len(o) > 0 {
				d = o[0].Describe()
			}
			return "constructing the error: " + d
		}
		st, x.v = o[0].St, o[0].Ret[0]
		return ""
	}
	nilB := &iErr{kind: "nil", v: ai.Nil{T: errIface}}
	plainB := &iErr{kind: "plain", key: "plain", v: plainErr()}
	goodB := &iErr{kind: "fi", key: "good", v: ai.Sym{Key: "good", T: errIface}}
	badB := &iErr{kind: "fi", key: "bad", v: ai.Sym{Key: "bad", T: errIface}}
	A, AB, none := map[string]string{"A": "a"}, map[string]string{"A": "a", "B": "b", "Ä": "u", "A1_b": "u"}, map[string]string{}
	passed := []map[string]string{nil, none, {"A": "pa"}, {"A": "pa", "B": "pb"}}
	merge := func(a, b map[string]string) map[string]string {
		m := map[string]string{}
		for k, v := range a {
			m[k] = v
		}
		for k, v := range b {
			m[k] = v
		}
		return m
	}
	one := func(x *iErr, name string) {
		call := func(m string, args ...ai.Value) (ai.Outcome, string) {
			os := e.it.CallMethod(st.Clone(), x.v, m, args...)
			if len(os) != 1 {
				return ai.Outcome{}, fmt.Sprintf("%s has %d outcomes", m, len(os))
			}
			if os[0].Panic != nil {
				return os[0], m + ": " + os[0].Describe()
			}
			return os[0], ""
		}
		text := func(m string, p map[string]string, args ...ai.Value) {
			o, d := call(m, args...)
			if d == "" {
				got := mapTerm.ReplaceAllString(o.St.Key(o.Ret[0]), "$1")
				want, ok := x.text(p, iMapKey)
				switch {
				case ok:
					if w := o.St.Key(ai.MkCat(want...)); got != w {
						d = fmt.Sprintf("%s is %s, want %s", m, got, w)
					}
				case !x.ok:
					// malformed: the message reports this, the base error and all parameters
					var need []string
					switch x.base.kind {
					case "plain", "fi":
						need = append(need, x.base.key+".Error()")
					}
					if len(x.params) > 0 {
						need = append(need, iMapKey(x.params))
					}
					if p != nil {
						need = append(need, iMapKey(p))
					}
					for _, n := range need {
						if !strings.Contains(got, n) {
							d = fmt.Sprintf("%s of a malformed string does not contain %s: %s", m, n, got)
						}
					}
					if x.reported() && !strings.Contains(got, "<") && d == "" {
						d = fmt.Sprintf("%s does not report that the string is malformed: %s", m, got)
					}
				}
			}
			if d != "" {
				d = name + " " + d
			}
			note(m, d)
		}
		valid := func(m string, want bool, args ...ai.Value) {
			o, d := call(m, args...)
			if d == "" {
				_, isNil := o.Ret[0].(ai.Nil)
				if s, ok := o.Ret[0].(ai.Sym); ok { // result of the foreign error's validation
					isNil = strings.HasPrefix(s.Key, "good.")
				}
				if isNil != want {
					d = fmt.Sprintf("%s returns %s, want %s", m, o.St.Key(o.Ret[0]), map[bool]string{true: "nil", false: "an error"}[want])
				}
			}
			if d != "" {
				d = name + " " + d
			}
			note(m, d)
		}
		text("Error", nil)
		valid("ValidateSyntax", x.ok)
		// whether foreign error "good" validates does not depend on the arguments, so one flag suffices
		g := x.root() != badB
		valid("ValidateError_Final", x.valid(false, nil, g))
		valid("ValidateError_Base", x.valid(true, nil, g))
		for _, p := range passed {
			var m ai.Value = ai.Nil{T: anyMap}
			if p != nil {
				m = mkMap(st, p)
			}
			text("Error_interpolate", p, m)
			valid("ValidateError_Params", x.valid(false, p, g), m)
		}
	}
	for _, s := range strs {
		hasW := strings.Contains(s, "%w") || strings.Contains(s, "$w")
		bases := []*iErr{nilB, goodB}
		if hasW {
			bases = append(bases, plainB, badB)
		}
		for _, b := range bases {
			for pi, p := range []map[string]string{none, A, AB} {
				if b != nilB && pi == 1 && !hasW {
					continue
				}
				x := mkErr(s, p, b)
				saved := st
				name := fmt.Sprintf("[string %q, base %s, parameters %s]", s, b.name(), iMapKey(p))
				if d := build(x, p); d != "" {
					note("Error", name+" "+d)
					continue
				}
				one(x, name)
				st = saved
			}
		}
	}
	if !chains {
		return
	}
	inner := []string{"%{A}", "${A}", "${B}%{B}", "%!m>0{p}$!m>0{q}%!m=0{r}$!m=0{s}", "%{!m}${!map}", "$!m>0{${Missing}}", "$!m=0{%{Missing}}", "%w", "$w", "{", "%{a}", "${Missing}"}
	outer := []string{"$w", "%w", "$w%w", "%!m>0{$w}", "$!m=0{%w}", "x${A}$w", "$!m>0{$w}%{A}", "no"}
	for _, in := range inner {
		for _, pb := range []map[string]string{none, A, {"B": "b"}} {
			for _, bb := range []*iErr{plainB, goodB, badB} {
				if bb != plainB && !strings.Contains(in, "w") {
					continue
				}
				saved := st
				b := mkErr(in, pb, bb)
				if d := build(b, pb); d != "" {
					note("Error", fmt.Sprintf("[string %q] %s", in, d))
					continue
				}
				for _, out := range outer {
					for _, p := range []map[string]string{none, {"A": "pa"}, {"B": "pb"}} {
						s2 := st
						x := mkErr(out, merge(pb, p), b)
						name := fmt.Sprintf("[string %q parameters %s, base %q with parameters %s and base %s]", out, iMapKey(p), in, iMapKey(pb), bb.name())
						if d := build(x, p); d != "" {
							note("Error", name+" "+d)
							continue
						}
						one(x, name)
						// three levels
						if out == "$w" || out == "%w" {
							y := mkErr("%{!m}$w", merge(merge(pb, p), map[string]string{"A": "u"}), x)
							if d := build(y, map[string]string{"A": "u"}); d == "" {
								one(y, "[third level \"%{!m}$w\" with A=u] "+name)
							} else {
								note("Error", d)
							}
						}
						st = s2
					}
				}
				st = saved
			}
		}
	}
	e.r.noteVisited(e.it)
}

// reported: the mistake is in a part of the message that is always printed.
func (x *iErr) reported() bool {
	for _, n := range x.seq {
		if n.kind == iCond && (n.text == "m>0" || n.text == "m=0") {
			continue
		}
		if !iSyntax([]*iNode{n}) {
			return true
		}
	}
	return x.seq == nil
}

func (x *iErr) root() *iErr {
	for x.base != nil {
		x = x.base
	}
	return x
}

func (x *iErr) name() string {
	switch x.kind {
	case "nil":
		return "nil"
	case "plain":
		return "a foreign error"
	case "fi":
		return "an interpolatable foreign error (" + x.key + ")"
	}
	return "own"
}
