package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/ai"
	"verif/load"
	"verif/vg"
)

const ccPkg = "internal/callcounters"

func init() {
	register(&Property{ID: "S02", Level: "other", Technique: techAI + "; counts and multipliers are polynomials in opaque numbers", F: s02, Tags: true,
		Note: "acyclic structures of 3 (thorough: 4) counters of all kinds in all creation orders, with the numbers of calls opaque (or zero) and opaque multipliers; in the callcounters configuration: all creations and all increments of every package"})
}

func s02(r *Run) {
	r.aiGo("S02.count", "callcounters", func() { s02Count(r) })
	r.aiGo("S02.reset", "callcounters", func() { s02Reset(r) })
	r.aiGo("S02.unknown", "callcounters", func() { s02Unknown(r) })
	r.aiGo("S02.structure", "GetCallCounterStructureReport", func() { s02Structure(r) })
	r.aiGo("S02.created", "all packages (callcounters)", func() { s02Created(r) })
	r.Wait()
}

// lin is a polynomial with integer coefficients over opaque numbers; monomials are sorted names joined by "*".
type lin map[string]*big.Int

func linOf(v ai.Value, tab map[string]lin) (lin, bool) {
	switch v := v.(type) {
	case ai.Const:
		if v.V.Kind() == constant.Int {
			n, ok := new(big.Int).SetString(v.V.ExactString(), 10)
			if ok {
				if n.Sign() == 0 {
					return lin{}, true
				}
				return lin{"": n}, true
			}
		}
	case ai.Sym:
		if p, ok := tab[v.Key]; ok {
			return p, true
		}
		if strings.HasPrefix(v.Key, "#") {
			return lin{v.Key: big.NewInt(1)}, true
		}
	}
	return nil, false
}

func (a lin) add(b lin, k int64) lin {
	r := lin{}
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		x := new(big.Int).Mul(c, big.NewInt(k))
		if o := r[m]; o != nil {
			x.Add(x, o)
		}
		r[m] = x
		if x.Sign() == 0 {
			delete(r, m)
		}
	}
	return r
}

func (a lin) mul(b lin) lin {
	r := lin{}
	for m, c := range a {
		for n, d := range b {
			var fs []string
			for _, s := range append(strings.Split(m, "*"), strings.Split(n, "*")...) {
				if s != "" {
					fs = append(fs, s)
				}
			}
			sort.Strings(fs)
			r = r.add(lin{strings.Join(fs, "*"): new(big.Int).Mul(c, d)}, 1)
		}
	}
	return r
}

func (a lin) String() string {
	var ms []string
	for m, c := range a {
		ms = append(ms, c.String()+"*"+m)
	}
	sort.Strings(ms)
	if len(ms) == 0 {
		return "0"
	}
	return strings.Join(ms, " + ")
}

func (a lin) value(tab map[string]lin, t types.Type) ai.Value {
	if len(a) == 0 {
		return ai.KInt(0, t)
	}
	if c, ok := a[""]; ok && len(a) == 1 {
		return ai.KInt(c.Int64(), t)
	}
	k := "lin(" + a.String() + ")"
	tab[k] = a
	return ai.Sym{Key: k, T: t}
}

// positive reports whether every value is positive: numbers of calls (#n...) are, multipliers (#m...) may not be.
func (a lin) positive() bool {
	for m, c := range a {
		if c.Sign() < 0 || strings.Contains(m, "#m") {
			return false
		}
	}
	return len(a) > 0
}

// ccEnv is an analysis of the package callcounters.
type ccEnv struct {
	r   *Run
	it  *ai.Interp
	tab map[string]lin
	n   int
}

func newCC(r *Run, p *load.Program) *ccEnv {
	e := &ccEnv{r: r, tab: map[string]lin{}}
	e.it = ai.New(p, ccPkg)
	e.it.MaxSteps = 2000000
	e.it.BinopHook = func(it *ai.Interp, st *ai.State, op token.Token, a, b ai.Value, t types.Type) (ai.Value, bool) {
		_, sa := a.(ai.Sym)
		_, sb := b.(ai.Sym)
		if !sa && !sb {
			return nil, false
		}
		x, ok1 := linOf(a, e.tab)
		y, ok2 := linOf(b, e.tab)
		if !ok1 || !ok2 {
			return nil, false
		}
		d := x.add(y, -1)
		switch op {
		case token.ADD:
			return x.add(y, 1).value(e.tab, t), true
		case token.SUB:
			return d.value(e.tab, t), true
		case token.MUL:
			return x.mul(y).value(e.tab, t), true
		case token.EQL: // opaque numbers are in general position: nothing cancels by accident
			return ai.KBool(len(d) == 0), true
		case token.NEQ:
			return ai.KBool(len(d) != 0), true
		case token.GTR, token.LEQ, token.LSS, token.GEQ:
			if op == token.LSS || op == token.GEQ {
				d = y.add(x, -1)
			}
			// d > 0 ?
			if d.positive() {
				return ai.KBool(op == token.GTR || op == token.LSS), true
			}
			if d = d.mul(lin{"": big.NewInt(-1)}); d.positive() || len(d) == 0 {
				return ai.KBool(op == token.LEQ || op == token.GEQ), true
			}
		}
		panic(ai.Undecided{Msg: "the sign of " + d.String() + " decides a branch"})
	}
	// formatting of known strings and numbers with the plain verbs
	e.it.Models["fmt.Sprintf"] = func(it *ai.Interp, st *ai.State, fn *ssa.Function, env *ai.Tenv, args []ai.Value) (ai.Value, bool) {
		f, ok := ai.StrOf(args[0])
		var as []any
		if l, isL := args[1].(ai.Slice); isL {
			for _, v := range st.Elems(l) {
				if i, isI := v.(ai.Iface); isI {
					v = i.V
				}
				if s, isS := ai.StrOf(v); isS {
					as = append(as, s)
				} else if n, isN := ai.IntOf(v); isN {
					as = append(as, n)
				} else {
					ok = false
				}
			}
		}
		if !ok {
			return ai.Sym{Key: "formatted", T: tStr}, true
		}
		return ai.KStr(fmt.Sprintf(f, as...)), true
	}
	return e
}

func (e *ccEnv) fn(name string) *ssa.Function { return e.r.needIn(e.it.P, ccPkg, name) }

func (r *Run) needIn(p *load.Program, pkg, name string) *ssa.Function {
	f := p.Func(pkg, name)
	if f == nil {
		panic(vg.Undecided{Msg: pkg + "." + name + " is missing"})
	}
	return f
}

func (e *ccEnv) call(st *ai.State, f string, args ...ai.Value) ai.Outcome {
	e.n++
	return single(e.it.RunFrom(st.Clone(), e.fn(f), nil, nil, args), f)
}

func idv(s string) ai.Value { return ai.KStr(s) }

// setCount makes the number of increments of a counter opaque: the word that Increment changes from 0 to 1 is replaced.
func (e *ccEnv) setCount(st *ai.State, id string, v ai.Sym) (*ai.State, error) {
	o := e.call(st, "Id.Increment", idv(id))
	if o.Panic != nil {
		return nil, fmt.Errorf("Increment(%s) panics", id)
	}
	found := 0
	var at ai.Ptr
	for i := 1; i < o.St.Next(); i++ {
		e.diff(st.Obj(i), o.St.Obj(i), "", func(path string) { found++; at = ai.Ptr{O: i, Path: path} })
	}
	if found != 1 {
		panic(vg.Undecided{Msg: fmt.Sprintf("Increment changes %d words", found)})
	}
	o.St.Store(at, v)
	return o.St, nil
}

func (e *ccEnv) diff(a, b ai.Value, path string, f func(string)) {
	if x, ok := b.(ai.Agg); ok {
		y, _ := a.(ai.Agg)
		for i := range x {
			var w ai.Value
			if i < len(y) {
				w = y[i]
			}
			e.diff(w, x[i], ai.PathPush(path, i), f)
		}
		return
	}
	n, ok1 := ai.IntOf(a)
	m, ok2 := ai.IntOf(b)
	if ok1 && ok2 && n == 0 && m == 1 {
		f(path)
	}
}

// ccNode is a counter of the reference model.
type ccNode struct {
	id, name     string
	kind         int // 0 hierarchical, 1 new, 2 attached
	show, root   bool
	parent       int // -1: none
	remain       bool
	parentName   string
	to           map[int]lin
	count        lin
	total        lin
	remaining    lin
	onlyReferred bool
}

type ccModel []*ccNode

// propagate computes what every counter shows.
func (m ccModel) propagate() {
	for _, n := range m {
		n.total = lin{}
	}
	var add func(i int, a lin)
	add = func(i int, a lin) {
		m[i].total = m[i].total.add(a, 1)
		for j, k := range m[i].to {
			add(j, a.mul(k))
		}
	}
	for i, n := range m {
		add(i, n.count)
	}
	for i, n := range m {
		n.remaining = n.total
		for _, c := range m {
			if c.parent == i {
				n.remaining = n.remaining.add(c.total, -1)
			}
		}
	}
}

// entry is a line of a report.
type ccEntry struct {
	tag    string
	calls  lin
	up     string // tag of the counter above, "" for roots
	depth  int
	must   bool // must be listed
	zero   bool // must not be listed
	hidden bool // hidden itself
	below  bool // below a hidden one
	dummy  bool
	parent *ccEntry
}

// listing gives the entries that a report has to (must) or may contain.
func (m ccModel) listing(onlyPositive, names, hidden bool) []*ccEntry {
	var out []*ccEntry
	var visit func(i int, up *ccEntry)
	tag := func(n *ccNode) string {
		if names {
			return n.name
		}
		return n.id
	}
	add := func(e *ccEntry, up *ccEntry) *ccEntry {
		e.parent, e.must = up, true
		if up != nil {
			e.depth, e.up, e.below = up.depth+1, up.tag, up.hidden || up.below
			e.must = up.must
		}
		if onlyPositive && !e.calls.positive() {
			e.must = false
			if len(e.calls) == 0 {
				e.zero = true // must not be listed itself
			}
		}
		out = append(out, e)
		return e
	}
	visit = func(i int, up *ccEntry) {
		n := m[i]
		if !hidden && !n.show {
			return
		}
		e := add(&ccEntry{tag: tag(n), calls: n.total, hidden: !n.show, dummy: n.onlyReferred}, up)
		for j, c := range m {
			if c.parent == i {
				visit(j, e)
			}
		}
		if n.remain {
			t := n.id + "Other"
			if names {
				t = n.id + "(other)"
			}
			add(&ccEntry{tag: t, calls: n.remaining}, e)
		}
	}
	for i, n := range m {
		if n.root {
			visit(i, nil)
		}
	}
	return out
}

// ccConfig is a structure together with the order in which it is created.
type ccConfig struct {
	m     ccModel
	order []int
	links [][3]int // from, to, 0: AddThisToTarget on the id, 1: AddToThisFromSource on the id, 2, 3: on the pointer
	desc  string
	early bool // links before creation
	flips int  // how often displayRemaining is set and unset first
}

// build creates the structure in the analysed program; it returns the pointers.
func (e *ccEnv) build(c *ccConfig) (*ai.State, map[int]ai.Value, string) {
	st := e.it.Base
	ptr := map[int]ai.Value{}
	do := func(f string, args ...ai.Value) (ai.Value, string) {
		o := e.call(st, f, args...)
		if o.Panic != nil {
			return nil, f + " panics: " + o.Describe()
		}
		st = o.St
		if len(o.Ret) == 0 {
			return nil, ""
		}
		return o.Ret[0], ""
	}
	link := func() string {
		for i, l := range c.links {
			k := ai.Sym{Key: fmt.Sprintf("#m%d", i), T: tInt}
			a, b := c.m[l[0]], c.m[l[1]]
			f, x, y := "Id.AddThisToTarget", a, b
			if l[2]&1 != 0 {
				f, x, y = "Id.AddToThisFromSource", b, a
			}
			recv := idv(x.id)
			if l[2]&2 != 0 && !c.early {
				f = "CallCounter" + f[2:]
				for j, n := range c.m {
					if n == x {
						recv = ptr[j]
					}
				}
			}
			if _, bad := do(f, recv, idv(y.id), k); bad != "" {
				return bad
			}
			if _, bad := do(f, recv, idv(y.id), ai.KInt(0, tInt)); bad != "" {
				return bad
			}
		}
		return ""
	}
	if c.early {
		if bad := link(); bad != "" {
			return nil, nil, bad
		}
		for _, n := range c.m { // switched on before it exists
			if n.remain && c.flips%2 == 0 {
				if _, bad := do("Id.SetDisplayRemaining", idv(n.id), ai.KBool(true)); bad != "" {
					return nil, nil, bad
				}
			}
		}
	}
	for _, i := range c.order {
		n := c.m[i]
		par := ""
		if n.parent >= 0 {
			par = c.m[n.parent].id
		}
		var v ai.Value
		var bad string
		switch n.kind {
		case 0:
			v, bad = do("CreateHierarchicalCallCounter", idv(n.id), idv(n.parentName), idv(par))
		case 1:
			v, bad = do("CreateNewCallCounter", idv(n.id), idv(n.parentName), ai.KBool(n.show), idv(par), ai.KBool(n.root))
		case 2:
			v, bad = do("CreateAttachedCallCounter", idv(n.id), idv(n.parentName), idv(par))
		}
		if bad != "" {
			return nil, nil, bad
		}
		ptr[i] = v
		if n.remain && c.flips%2 == 0 { // set before the children are attached
			for k := 0; k < 1+c.flips; k++ {
				if _, bad := do("CallCounter.SetDisplayRemaining", v, ai.KBool(k%2 == 0)); bad != "" {
					return nil, nil, bad
				}
			}
		}
	}
	if !c.early {
		if bad := link(); bad != "" {
			return nil, nil, bad
		}
	}
	for i, n := range c.m {
		for k := 0; k < c.flips; k++ {
			if n.remain && c.flips%2 == 0 {
				break // set once and for all above
			}
			if _, bad := do("Id.SetDisplayRemaining", idv(n.id), ai.KBool(k%2 != 0 != n.remain)); bad != "" {
				return nil, nil, bad
			}
		}
		if _, bad := do("CallCounter.SetDisplayRemaining", ptr[i], ai.KBool(n.remain)); bad != "" {
			return nil, nil, bad
		}
	}
	return st, ptr, ""
}

// configs enumerates structures.
func (e *ccEnv) configs(k int, f func(c *ccConfig)) {
	ids := []string{"A", "B", "C", "D"}
	perms := [][]int{{}}
	for i := 0; i < k; i++ {
		var next [][]int
		for _, p := range perms {
			for j := 0; j <= len(p); j++ {
				q := append([]int{}, p[:j]...)
				q = append(q, i)
				next = append(next, append(q, p[j:]...))
			}
		}
		perms = next
	}
	n := 0
	var rec func(i int, m []ccNode)
	rec = func(i int, m []ccNode) {
		if i == k {
			n++
			for pi, p := range perms {
				if k > 2 && (n+pi)%len(perms) >= 2 && !(e.r.Thorough() && k == 3) {
					continue // two orders for each structure; every order occurs
				}
				c := &ccConfig{order: p, early: (n+pi)%5 == 0, flips: (n / 2) % 4}
				for _, x := range m {
					y := x
					y.to = map[int]lin{}
					for a, b := range x.to {
						y.to[a] = b
					}
					c.m = append(c.m, &y)
				}
				// attached counters make their parent display the rest unless that is unset later
				// extra links from later to earlier counters
				for a := 1; a < k; a++ {
					for b := 0; b < a; b++ {
						if (n+3*a+5*b+pi)%3 == 0 {
							l := len(c.links)
							c.links = append(c.links, [3]int{a, b, (n + a + pi) % 4})
							o := c.m[a].to[b]
							if o == nil {
								o = lin{}
							}
							c.m[a].to[b] = o.add(lin{fmt.Sprintf("#m%d", l): big.NewInt(1)}, 1)
						}
					}
				}
				var ds []string
				for _, j := range p {
					x := c.m[j]
					d := []string{"hierarchical ", "new ", "attached "}[x.kind] + x.id
					if x.parent >= 0 {
						d += " below " + c.m[x.parent].id
					}
					if x.kind == 1 {
						d += fmt.Sprintf(" (display %v, root %v)", x.show, x.root)
					}
					if x.remain {
						d += " +rest"
					}
					ds = append(ds, d)
				}
				c.desc = strings.Join(ds, ", ")
				for _, l := range c.links {
					c.desc += fmt.Sprintf(", %s adds to %s", c.m[l[0]].id, c.m[l[1]].id)
				}
				if c.early {
					c.desc += " (links first)"
				}
				f(c)
			}
			return
		}
		for par := -1; par < i; par++ {
			for v := 0; v < 6; v++ {
				x := ccNode{id: ids[i], parent: par, show: true, to: map[int]lin{}}
				switch v {
				case 0:
					x.root = par < 0
					if par >= 0 {
						x.to[par] = lin{"": big.NewInt(1)}
					}
				case 1, 2, 3, 4:
					x.kind, x.show, x.root = 1, v&1 == 0 || par >= 0 && v == 3, v >= 3
					if v == 4 && par >= 0 {
						x.show = false
					}
				case 5:
					if par < 0 {
						continue
					}
					x.kind = 2
				}
				x.remain = (i+v+par+n)%2 == 0
				x.name = x.id
				if (i+v)%2 == 0 {
					x.parentName = "name of " + x.id
					x.name = x.parentName
				}
				if k > 3 && (len(m)*7+v*3+par+n)%3 != 0 {
					continue
				}
				rec(i+1, append(append([]ccNode{}, m...), x))
			}
		}
	}
	rec(0, nil)
}

// report reads the entries of a report.
func (e *ccEnv) report(o ai.Outcome) (tags []string, calls []lin, ok bool) {
	if o.Panic != nil || len(o.Ret) != 1 {
		return nil, nil, false
	}
	s, isS := o.Ret[0].(ai.Slice)
	if !isS {
		_, isNil := o.Ret[0].(ai.Nil)
		return nil, nil, isNil
	}
	rt := e.it.P.SPkgs[load.Path(ccPkg)].Pkg.Scope().Lookup("CCReport").Type().Underlying().(*types.Struct)
	for _, v := range o.St.Elems(s) {
		g, isA := v.(ai.Agg)
		if !isA {
			return nil, nil, false
		}
		var t string
		var c lin
		okT, okC := false, false
		for i := 0; i < rt.NumFields(); i++ {
			switch rt.Field(i).Name() {
			case "Tag":
				t, okT = ai.StrOf(g[i])
			case "Calls":
				c, okC = linOf(g[i], e.tab)
			}
		}
		if !okT || !okC {
			return nil, nil, false
		}
		tags, calls = append(tags, t), append(calls, c)
	}
	return tags, calls, true
}

// compare checks a report against the expected entries.
func compareReport(tags []string, calls []lin, want []*ccEntry) string {
	under := func(tag, anc string) bool { // some entry with the tag is anc or below it
		for _, w := range want {
			if w.tag == tag {
				for p := w; p != nil; p = p.parent {
					if p.tag == anc {
						return true
					}
				}
			}
		}
		return false
	}
	for i, t := range tags {
		ups := map[string]bool{}
		for _, w := range want {
			if w.tag != t {
				continue
			}
			if w.calls.String() != calls[i].String() {
				return fmt.Sprintf("%q is reported with %s calls, want %s", t, calls[i], w.calls)
			}
			if w.zero {
				return fmt.Sprintf("%q is reported although it is zero", t)
			}
			ups[w.up] = true
		}
		if len(ups) == 0 {
			return fmt.Sprintf("%q is reported but must not be", t)
		}
		if !ups[""] {
			ok := false
			for u := range ups {
				ok = ok || i > 0 && under(tags[i-1], u)
			}
			if !ok {
				return fmt.Sprintf("%q is not listed below the counter it belongs to", t)
			}
		}
	}
	must, may, got := map[string]int{}, map[string]int{}, map[string]int{}
	for _, w := range want {
		if w.must {
			must[w.tag]++
		}
		may[w.tag]++
	}
	for _, t := range tags {
		got[t]++
	}
	for t, n := range may {
		if got[t] < must[t] || got[t] > n {
			return fmt.Sprintf("%q is listed %d times, want %d to %d", t, got[t], must[t], n)
		}
	}
	return ""
}

func s02Count(r *Run) {
	e := newCC(r, r.P)
	bad := map[string]string{}
	note := func(rule string, c *ccConfig, f string, a ...any) {
		if bad[rule] == "" {
			bad[rule] = c.desc + ": " + fmt.Sprintf(f, a...)
		}
	}
	structures := 0
	run := func(c *ccConfig, zeros int) {
		structures++
		st, ptr, msg := e.build(c)
		if msg != "" {
			note("build", c, "%s", msg)
			return
		}
		for i, n := range c.m {
			n.count = lin{}
			if zeros>>i&1 == 0 {
				s := ai.Sym{Key: fmt.Sprintf("#n%d", i), T: tInt}
				n.count = lin{s.Key: big.NewInt(1)}
				s2, err := e.setCount(st, n.id, s)
				if err != nil {
					note("count", c, "%v", err)
					return
				}
				st = s2
			}
		}
		c.m.propagate()
		if (structures+c.flips)%3 != 0 { // reading changes nothing
			o := e.call(st, "ReportCallCounters", ai.KBool(structures%2 == 0), ai.KBool(true))
			if o.Panic != nil {
				note("report", c, "ReportCallCounters panics: %s", o.Describe())
				return
			}
			st = e.call(o.St, "GetCallCounterStructureReport", idv(" ")).St
		}
		for i, n := range c.m {
			for k, o := range []ai.Outcome{e.call(st, "Id.Get", idv(n.id)), e.call(st, "CallCounter.Get", ptr[i])} {
				var got lin
				ok := o.Panic == nil && len(o.Ret) == 2
				if ok {
					got, ok = linOf(o.Ret[0], e.tab)
				}
				if !ok || got.String() != n.total.String() || o.St.Key(o.Ret[1]) != "true" {
					note("count", c, "Get of %s (%s) is %s, want %s and true", n.id, []string{"id", "pointer"}[k], o.Describe(), n.total)
				}
			}
			o := e.call(st, "Id.Exists", idv(n.id))
			if o.Panic != nil || o.St.Key(o.Ret[0]) != "true" {
				note("count", c, "Exists of %s is %s", n.id, o.Describe())
			}
			for _, f := range []string{"CreateHierarchicalCallCounter", "CreateAttachedCallCounter"} {
				o = e.call(st, f, idv(n.id), idv(""), idv(""))
				if o.Panic == nil {
					note("count", c, "%s creates %s a second time", f, n.id)
				}
			}
			o = e.call(st, "CreateNewCallCounter", idv(n.id), idv(""), ai.KBool(true), idv(""), ai.KBool(false))
			if o.Panic == nil {
				note("count", c, "CreateNewCallCounter creates %s a second time", n.id)
			}
		}
		for k := 0; k < 4; k++ {
			pos, names := k&1 == 0, k&2 == 0
			o := e.call(st, "ReportCallCounters", ai.KBool(pos), ai.KBool(names))
			tags, calls, ok := e.report(o)
			if !ok {
				note("report", c, "ReportCallCounters(%v,%v): %s", pos, names, o.Describe())
				continue
			}
			if msg := compareReport(tags, calls, c.m.listing(pos, names, false)); msg != "" {
				note("report", c, "ReportCallCounters(%v,%v): %s", pos, names, msg)
			}
		}
	}
	n := 0
	for k := 1; k <= 3; k++ {
		e.configs(k, func(c *ccConfig) {
			n++
			run(c, 0)
			if n%4 == 0 || r.Thorough() {
				run(c, 1+n%(1<<k-1))
			}
		})
	}
	if r.Thorough() {
		e.configs(4, func(c *ccConfig) {
			n++
			run(c, (n%16)&(n/7%16))
		})
	}
	pos := e.fn("ReportCallCounters").Pos()
	r.Count("structures of counters", structures)
	r.Count("calls analysed", e.n)
	r.Ok("S02.create", "Create*CallCounter", e.fn("CreateNewCallCounter").Pos(), "counters can be created and linked in every order", bad["build"] == "", bad["build"])
	r.Ok("S02.count", "Get", e.fn("Id.Get").Pos(), "a counter shows its own increments and those added along all links, weighted; it exists once created and cannot be created again", bad["count"] == "", bad["count"])
	r.Ok("S02.report", "ReportCallCounters", pos, "every displayed counter below a displayed root is listed with its count below its parent, the rest counter with the difference, hidden ones are not", bad["report"] == "", bad["report"])
	r.noteVisited(e.it)
}

func s02Reset(r *Run) {
	e := newCC(r, r.P)
	bad := ""
	n := 0
	e.configs(2, func(c *ccConfig) {
		n++
		st, ptr, msg := e.build(c)
		if msg != "" {
			bad = msg
			return
		}
		for i, x := range c.m {
			s := ai.Sym{Key: fmt.Sprintf("#n%d", i), T: tInt}
			x.count = lin{s.Key: big.NewInt(1)}
			s2, err := e.setCount(st, x.id, s)
			if err != nil {
				bad = c.desc + ": " + err.Error()
				return
			}
			st = s2
		}
		for how := 0; how < 5; how++ {
			what := ""
			var o ai.Outcome
			cleared := []bool{how == 0 || how == 1 || how == 3, how == 0 || how == 2 || how == 4}
			// reading before must not matter
			s0 := st
			if n%2 == 0 {
				s0 = e.call(st, "ReportCallCounters", ai.KBool(false), ai.KBool(false)).St
			}
			switch how {
			case 0:
				what = "ResetAllCounters"
				o = e.call(s0, what)
			case 1, 2:
				what = "Reset of " + c.m[how-1].id
				o = e.call(s0, "Id.Reset", idv(c.m[how-1].id))
			case 3, 4:
				what = "Reset of the pointer " + c.m[how-3].id
				o = e.call(s0, "CallCounter.Reset", ptr[how-3])
			}
			if o.Panic != nil {
				bad = c.desc + ": " + what + " panics"
				return
			}
			for i, x := range c.m {
				x.count = lin{fmt.Sprintf("#n%d", i): big.NewInt(1)}
				if cleared[i] {
					x.count = lin{}
				}
			}
			for round := 0; round < 2; round++ {
				c.m.propagate()
				for _, x := range c.m {
					g := e.call(o.St, "Id.Get", idv(x.id))
					var got lin
					ok := g.Panic == nil
					if ok {
						got, ok = linOf(g.Ret[0], e.tab)
					}
					if !ok || got.String() != x.total.String() {
						bad = fmt.Sprintf("%s: after %s (and %d increments), Get of %s is %s, want %s", c.desc, what, round, x.id, g.Describe(), x.total)
						return
					}
				}
				// counting goes on
				o = e.call(o.St, "Id.Increment", idv(c.m[1].id))
				if o.Panic != nil {
					bad = c.desc + ": Increment panics after " + what
					return
				}
				c.m[1].count = c.m[1].count.add(lin{"": big.NewInt(1)}, 1)
			}
		}
	})
	r.Count("reset structures", n)
	r.Ok("S02.reset", "Reset", e.fn("Id.Reset").Pos(), "Reset forgets exactly the increments of the counter, ResetAllCounters those of all; counting goes on from there", bad == "", bad)
	r.noteVisited(e.it)
}

func s02Unknown(r *Run) {
	e := newCC(r, r.P)
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	st := e.it.Base
	states := map[string]*ai.State{"with no counter": st}
	if o := e.call(st, "CreateHierarchicalCallCounter", idv("A"), idv(""), idv("")); o.Panic == nil {
		states["with another counter"] = o.St
	}
	for what, s := range states {
		if o := e.call(s, "Id.Exists", idv("X")); o.Panic != nil || o.St.Key(o.Ret[0]) != "false" {
			note("%s: Exists of an unknown id: %s", what, o.Describe())
		}
		if o := e.call(s, "Id.Get", idv("X")); o.Panic != nil || len(o.Ret) != 2 || o.St.Key(o.Ret[1]) != "false" {
			note("%s: Get of an unknown id: %s, want not ok", what, o.Describe())
		}
		if o := e.call(s, "Id.Increment", idv("X")); o.Panic == nil {
			note("%s: Increment of an unknown id is ignored", what)
		}
		if o := e.call(s, "Id.Exists", idv("")); o.Panic != nil || o.St.Key(o.Ret[0]) != "false" {
			note("%s: Exists of the empty id: %s", what, o.Describe())
		}
		for _, f := range []string{"Id.Get", "Id.Increment"} {
			if o := e.call(s, f, idv("")); o.Panic == nil {
				note("%s: %s accepts the empty id", what, f)
			}
		}
		// referred to, never created
		o := e.call(s, "Id.AddThisToTarget", idv("Y"), idv("X"), ai.KInt(1, tInt))
		if o.Panic != nil {
			note("%s: a link between counters that do not exist yet: %s", what, o.Describe())
			continue
		}
		if q := e.call(o.St, "Id.Exists", idv("X")); q.Panic != nil || q.St.Key(q.Ret[0]) != "false" {
			note("%s: a counter that was only referred to exists: %s", what, q.Describe())
		}
		if q := e.call(o.St, "Id.Increment", idv("X")); q.Panic == nil {
			note("%s: Increment of a counter that was only referred to is accepted", what)
		}
		if q := e.call(o.St, "Id.Get", idv("X")); q.Panic != nil {
			note("%s: Get of a counter that was only referred to: %s", what, q.Describe())
		}
	}
	r.Ok("S02.unknown", "Exists, Get, Increment", e.fn("Id.Get").Pos(), "unknown counters do not exist; Get reports that instead of crashing, Increment panics", bad == "", bad)
	r.noteVisited(e.it)
}

// s02Structure checks the structure report: every counter is listed, indented by its depth, hidden ones are marked.
func s02Structure(r *Run) {
	e := newCC(r, r.P)
	bad := ""
	n := 0
	check := func(c *ccConfig) {
		if bad != "" {
			return
		}
		st, _, msg := e.build(c)
		if msg != "" {
			bad = c.desc + ": " + msg
			return
		}
		for _, x := range c.m {
			x.count = lin{}
		}
		c.m.propagate()
		n++
		o := e.call(st, "GetCallCounterStructureReport", idv("~"))
		s, ok := "", false
		if o.Panic == nil {
			s, ok = ai.StrOf(o.Ret[0])
		}
		if !ok {
			bad = c.desc + ": " + o.Describe()
			return
		}
		type line struct {
			depth       int
			tag, suffix string
		}
		var ls []line
		for _, l := range strings.Split(s, "\n") {
			d := 0
			for strings.HasPrefix(l, "~") {
				l, d = l[1:], d+1
			}
			t, suf, _ := strings.Cut(l, " ")
			if t != "" && (len(t) == 1 || strings.HasSuffix(t, "Other")) {
				ls = append(ls, line{d, t, suf})
			}
		}
		want := c.m.listing(false, false, true)
		seen := map[string]bool{}
		used := make([]bool, len(ls))
		for _, w := range want {
			seen[w.tag] = true
			found := false
			for i, l := range ls {
				hid := strings.Contains(l.suffix, "hidden")
				rec := strings.Contains(l.suffix, "recursively")
				if !used[i] && l.tag == w.tag && l.depth == w.depth && hid == (w.hidden || w.below) && (!rec || w.below) && (rec || w.hidden || !w.below) && !strings.Contains(l.suffix, "never") {
					used[i], found = true, true
					break
				}
			}
			if !found {
				bad = fmt.Sprintf("%s: no line for %s at depth %d with hidden=%v, below a hidden one=%v in %q", c.desc, w.tag, w.depth, w.hidden, w.below, s)
				return
			}
		}
		for _, x := range c.m {
			if seen[x.id] {
				continue
			}
			found := false
			for i, l := range ls {
				if !used[i] && l.tag == x.id && strings.Contains(l.suffix, "hidden") == !x.show {
					used[i], found = true, true
					break
				}
			}
			if !found {
				bad = fmt.Sprintf("%s: %s, which is below no displayed root, is missing in %q", c.desc, x.id, s)
				return
			}
		}
		for i, l := range ls {
			if !used[i] {
				bad = fmt.Sprintf("%s: unexpected line for %s in %q", c.desc, l.tag, s)
			}
		}
	}
	for k := 1; k <= 3; k++ {
		e.configs(k, check)
	}
	if r.Thorough() {
		e.configs(4, check)
	}
	// a counter that was only referred to
	if o := e.call(e.it.Base, "CreateHierarchicalCallCounter", idv("A"), idv(""), idv("B")); bad == "" && o.Panic == nil {
		o = e.call(o.St, "GetCallCounterStructureReport", idv("~"))
		s, ok := "", false
		if o.Panic == nil {
			s, ok = ai.StrOf(o.Ret[0])
		}
		if !ok || strings.Count(s, "never actually created") != 1 || strings.Count(s, "\n~A\n") != 1 {
			bad = fmt.Sprintf("counter below one that was never created: %q", s)
		}
	}
	r.Count("structure reports", n)
	r.Ok("S02.structure", "GetCallCounterStructureReport", e.fn("GetCallCounterStructureReport").Pos(), "every counter is listed below its parent, hidden ones and all below them are marked", bad == "", bad)
	r.noteVisited(e.it)
}

// s02Created interprets all creations of counters of all packages in the callcounters configuration, in the order of
// initialisation, and checks that every increment in any function concerns a counter that was created.
func s02Created(r *Run) {
	if r.PC == nil {
		panic(vg.Undecided{Msg: "the callcounters configuration is missing"})
	}
	e := newCC(r, r.PC)
	cpath := load.Path(ccPkg)
	callee := func(c ssa.CallInstruction) *ssa.Function {
		f := c.Common().StaticCallee()
		if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == cpath {
			return f
		}
		return nil
	}
	var paths []string
	for p, sp := range r.PC.SPkgs {
		if sp != nil && p != cpath {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	// packages in dependency order
	var order []*ssa.Package
	done := map[*types.Package]bool{}
	byT := map[*types.Package]*ssa.Package{}
	for _, p := range paths {
		byT[r.PC.SPkgs[p].Pkg] = r.PC.SPkgs[p]
	}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if done[t] {
			return
		}
		done[t] = true
		for _, i := range t.Imports() {
			visit(i)
		}
		if sp := byT[t]; sp != nil {
			order = append(order, sp)
		}
	}
	for _, p := range paths {
		visit(r.PC.SPkgs[p].Pkg)
	}
	st := e.it.Base
	created := 0
	var ids []string
	for _, sp := range order {
		fs := []*ssa.Function{sp.Func("init")}
		for i := 1; ; i++ {
			f := sp.Func(fmt.Sprintf("init#%d", i))
			if f == nil {
				break
			}
			fs = append(fs, f)
		}
		for _, f := range fs {
			if f == nil {
				continue
			}
			vals := map[ssa.Value]ai.Value{}
			for _, b := range f.DomPreorder() {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := callee(c)
					if g == nil || g.Name() == "init" {
						continue
					}
					var args []ai.Value
					for _, a := range c.Call.Args {
						switch a := a.(type) {
						case *ssa.Const:
							if a.Value == nil {
								panic(vg.Undecided{Msg: "nil argument of " + g.Name()})
							}
							args = append(args, ai.Const{V: a.Value, T: a.Type()})
						default:
							v, ok := vals[a]
							if !ok {
								panic(vg.Undecided{Msg: "argument of " + g.Name() + " at " + r.PC.Rel(c.Pos()) + " is not constant"})
							}
							args = append(args, v)
						}
					}
					o := single(e.it.RunFrom(st.Clone(), g, nil, nil, args), g.Name())
					created++
					if o.Panic != nil {
						r.Ok("S02.created", sp.Pkg.Name()+".init", c.Pos(), "counters are created without panic", false, g.Name()+" panics at "+r.PC.Rel(c.Pos())+": "+o.Describe())
						return
					}
					st = o.St
					if len(o.Ret) > 0 {
						vals[c] = o.Ret[0]
					}
					if strings.HasPrefix(g.Name(), "Create") {
						if s, ok := ai.StrOf(args[0]); ok {
							ids = append(ids, s)
						}
					}
				}
			}
		}
	}
	// increments
	incs := 0
	exists := map[string]string{}
	for _, id := range ids {
		o := e.call(st, "Id.Exists", idv(id))
		if o.Panic == nil && o.St.Key(o.Ret[0]) == "true" {
			exists[id] = id
		}
	}
	for _, fn := range r.PC.Functions() {
		if fn.Pkg == nil || byT[fn.Pkg.Pkg] == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil {
					continue
				}
				for _, a := range c.Common().Args {
					k, ok := a.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					nt, ok := k.Type().(*types.Named)
					if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != cpath || nt.Obj().Name() != "Id" {
						continue
					}
					if f.Signature.Results().Len() > 0 {
						continue
					}
					incs++
					s := constant.StringVal(k.Value)
					if exists[s] == "" {
						r.Ok("S02.increment", ai.Name(fn)+" "+s, c.Pos(), "only counters that are created are incremented", false, fmt.Sprintf("%s increments %q, which no initialiser creates: with call counters, this panics", ai.Name(fn), s))
					}
				}
			}
		}
	}
	// no cycles: reading terminates with increments everywhere
	for i, id := range ids {
		s2, err := e.setCount(st, id, ai.Sym{Key: fmt.Sprintf("#n%d", i), T: tInt})
		if err != nil {
			r.Ok("S02.created", id, token.NoPos, "counters can be incremented", false, err.Error())
			return
		}
		st = s2
	}
	o := e.call(st, "ReportCallCounters", ai.KBool(false), ai.KBool(false))
	r.Count("creations and links", created)
	r.Count("increments", incs)
	if len(ids) == 0 || incs == 0 {
		panic(vg.Undecided{Msg: "no counters found"})
	}
	r.Ok("S02.created", "all packages", token.NoPos, "all counters are created once, without cycles; every increment concerns one of them", o.Panic == nil, o.Describe())
	r.noteVisited(e.it)
}
