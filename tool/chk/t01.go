package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	"verif/load"
)

func init() {
	register(&Property{ID: "T01", Level: "other",
		Technique: "Type checking of every package under each build configuration (build tags x word sizes), and a table of (type, interface) conformance obligations decided on the type-checked program; no code is executed.",
		F:         t01,
		Note:      "configurations: default, callcounters, 32-bit (thorough: all combinations, arm64); tests are not part of the analysed program"})
}

// t01api lists documented conformances: package, type (pointer receiver), interfaces as package.Name.
var t01api = []struct {
	pkg, typ string
	ifs      []string
}{
	{"bandersnatch/curvePoints", "CurvePointSlice_axtw_full", []string{"bandersnatch/curvePoints.BatchNormalizerForZ", "bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "CurvePointSlice_axtw_subgroup", []string{"bandersnatch/curvePoints.BatchNormalizerForZ", "bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "CurvePointSlice_efgh_full", []string{"bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "CurvePointSlice_efgh_subgroup", []string{"bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "CurvePointSlice_xtw_full", []string{"bandersnatch/curvePoints.BatchNormalizerForY", "bandersnatch/curvePoints.BatchNormalizerForZ", "bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "CurvePointSlice_xtw_subgroup", []string{"bandersnatch/curvePoints.BatchNormalizerForY", "bandersnatch/curvePoints.BatchNormalizerForZ", "bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "GenericPointSlice", []string{"bandersnatch/curvePoints.CurvePointSlice"}},
	{"bandersnatch/curvePoints", "Point_axtw_full", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite", "bandersnatch/curvePoints.NormalizerForZ"}},
	{"bandersnatch/curvePoints", "Point_axtw_subgroup", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite", "bandersnatch/curvePoints.NormalizerForZ"}},
	{"bandersnatch/curvePoints", "Point_efgh_full", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceDistinguishInfinity", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite"}},
	{"bandersnatch/curvePoints", "Point_efgh_subgroup", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceDistinguishInfinity", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite"}},
	{"bandersnatch/curvePoints", "Point_xtw_full", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceDistinguishInfinity", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite", "bandersnatch/curvePoints.NormalizerForY", "bandersnatch/curvePoints.NormalizerForZ"}},
	{"bandersnatch/curvePoints", "Point_xtw_subgroup", []string{"bandersnatch/curvePoints.CurvePointPtrInterface", "bandersnatch/curvePoints.CurvePointPtrInterfaceBaseRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceCooReadExtended", "bandersnatch/curvePoints.CurvePointPtrInterfaceDistinguishInfinity", "bandersnatch/curvePoints.CurvePointPtrInterfaceRead", "bandersnatch/curvePoints.CurvePointPtrInterfaceWrite", "bandersnatch/curvePoints.NormalizerForY", "bandersnatch/curvePoints.NormalizerForZ"}},
	{"bandersnatch/fieldElements", "FieldElement", []string{"bandersnatch/fieldElements.FieldElementInterface_common", "bandersnatch/fieldElements.FieldElementSerializeMethods", "bandersnatch/fieldElements.ToUint256Convertible", "internal/utils.ToIntConvertible"}},
	{"bandersnatch/fieldElements", "Uint256", []string{"bandersnatch/fieldElements.FieldElementSerializeMethods", "bandersnatch/fieldElements.ToUint256Convertible", "internal/utils.ToIntConvertible"}},
	{"bandersnatch/fieldElements", "Uint512", []string{"bandersnatch/fieldElements.ToUint256Convertible", "internal/utils.ToIntConvertible"}},
}

func t01(r *Run) {
	// default configuration: loaded already
	for _, p := range r.P.Repo {
		d := ""
		if len(p.Errors) > 0 {
			d = fmt.Sprintf("%s (%d errors)", p.Errors[0], len(p.Errors))
		}
		r.Ok("T01.build", strings.TrimPrefix(p.PkgPath, load.Module+"/"), token.NoPos, "the package type-checks", !p.IllTyped && d == "", d)
	}
	broken := map[string]bool{load.Path("bandersnatch/pointserializer"): true} // reported above
	type conf struct{ tags, arch string }
	confs := []conf{{"callcounters", "amd64"}, {"", "386"}}
	if r.Tier == "thorough" {
		confs = append(confs, conf{"callcounters", "386"}, conf{"", "arm64"}, conf{"callcounters", "arm64"})
	}
	var mu sync.Mutex
	for _, c := range confs {
		c := c
		name := strings.TrimSpace(c.arch + " " + c.tags)
		r.Go("T01.build", name, func() {
			env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOARCH="+c.arch, "CGO_ENABLED=0")
			cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps, Dir: r.P.Root, Env: env, Fset: token.NewFileSet()}
			if c.tags != "" {
				cfg.BuildFlags = []string{"-tags=" + c.tags}
			}
			ps, err := packages.Load(cfg, "./...")
			mu.Lock()
			defer mu.Unlock()
			if err != nil || len(ps) == 0 {
				r.Ok("T01.build", name, token.NoPos, "the packages load", false, fmt.Sprint(err))
				return
			}
			for _, p := range ps {
				if broken[p.PkgPath] {
					continue
				}
				d := ""
				if len(p.Errors) > 0 {
					d = fmt.Sprintf("%s (%d errors)", p.Errors[0], len(p.Errors))
				}
				r.Ok("T01.build", name+" "+strings.TrimPrefix(p.PkgPath, load.Module+"/"), token.NoPos, "the package type-checks", !p.IllTyped && d == "", d)
			}
			r.Count("configurations", 1)
		})
	}
	r.Count("configurations", 1)
	for _, e := range t01api {
		t := r.P.Type(e.pkg, e.typ)
		if t == nil {
			r.Ok("T01.api", e.pkg+"."+e.typ, token.NoPos, "the exported type exists", false, "the type is missing")
			continue
		}
		for _, i := range e.ifs {
			k := strings.LastIndexByte(i, '.')
			it := r.P.Type(i[:k], i[k+1:])
			if it == nil {
				r.Ok("T01.api", i, token.NoPos, "the exported interface exists", false, "the interface is missing")
				continue
			}
			iface := it.Underlying().(*types.Interface)
			m, wrong := types.MissingMethod(types.NewPointer(t), iface, true)
			d := ""
			if m != nil {
				d = "missing method " + m.Name()
				if wrong {
					d = "wrong type of method " + m.Name()
				}
			}
			r.Ok("T01.api", e.typ+" as "+i[k+1:], token.NoPos, "a pointer to the type implements the interface", m == nil, d)
		}
	}
	r.Wait()
}

// t01dump prints the conformance table of the current tree (used to write t01api).
func t01dump(p *load.Program) string {
	type ent struct{ pkg, name string }
	var ifs []ent
	var ts []ent
	for _, q := range p.Repo {
		if q.IllTyped {
			continue
		}
		short := strings.TrimPrefix(q.PkgPath, load.Module+"/")
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !tn.Exported() {
				continue
			}
			nt, ok := types.Unalias(tn.Type()).(*types.Named)
			if ok && tn.IsAlias() && (nt.Obj().Exported() || nt.Obj().Pkg() != q.Types) {
				continue
			}
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if it, ok := nt.Underlying().(*types.Interface); ok {
				priv := false
				for i := 0; i < it.NumMethods(); i++ {
					priv = priv || !it.Method(i).Exported()
				}
				if it.NumMethods() > 0 && it.IsMethodSet() && !priv {
					ifs = append(ifs, ent{short, n})
				}
			} else {
				ts = append(ts, ent{short, n})
			}
		}
	}
	var sb strings.Builder
	for _, t := range ts {
		var l []string
		for _, i := range ifs {
			if types.Implements(types.NewPointer(p.Type(t.pkg, t.name)), p.Type(i.pkg, i.name).Underlying().(*types.Interface)) {
				l = append(l, fmt.Sprintf("%q", i.pkg+"."+i.name))
			}
		}
		sort.Strings(l)
		if len(l) > 0 {
			fmt.Fprintf(&sb, "\t{%q, %q, []string{%s}},\n", t.pkg, t.name, strings.Join(l, ", "))
		}
	}
	return sb.String()
}
