package main

import (
	"bytes"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// genExports writes the in-package export shims.  Each shim is a template in
// /verif/sim/export/<pkg>.go.tmpl with sections
//
//	//zz:if TYPE.METHOD   (or FUNC / TYPE)
//	...
//	//zz:else
//	...
//	//zz:end
//
// so that a tree without the named declaration still builds.  A name written
// with $ in the method or the signature is found by what the declaration
// looks like, and stands for that name in the rest of the template.
func genExports(sim, out, repo string, feat map[string]*types.Package, overlay map[string]string) {
	m, _ := filepath.Glob(filepath.Join(sim, "export", "*.go.tmpl"))
	for _, t := range m {
		rel := strings.ReplaceAll(strings.TrimSuffix(filepath.Base(t), ".go.tmpl"), "__", "/")
		tp := feat[rel]
		if tp == nil {
			die("export template for unknown package %s", rel)
		}
		b, err := os.ReadFile(t)
		if err != nil {
			die("%v", err)
		}
		var o bytes.Buffer
		keep := []bool{true}
		bound := map[string]string{}
		for _, line := range strings.Split(string(b), "\n") {
			for k, v := range bound {
				line = strings.ReplaceAll(line, k, v)
			}
			tl := strings.TrimSpace(line)
			switch {
			case strings.HasPrefix(tl, "//zz:if "):
				spec := strings.TrimPrefix(tl, "//zz:if ")
				if strings.Contains(spec, "$") {
					keep = append(keep, find(tp, spec, bound))
				} else {
					keep = append(keep, has(tp, spec))
				}
				continue
			case tl == "//zz:else":
				keep[len(keep)-1] = !keep[len(keep)-1]
				continue
			case tl == "//zz:end":
				keep = keep[:len(keep)-1]
				continue
			}
			ok := true
			for _, k := range keep {
				ok = ok && k
			}
			if ok {
				o.WriteString(line + "\n")
			}
		}
		dst := filepath.Join(out, "export", rel, "zz_verif_export.go")
		write(dst, o.Bytes())
		overlay[filepath.Join(repo, rel, "zz_verif_export.go")] = dst
	}
}

// has reports whether the package declares name, Type.Method, or Type.Method
// with the exact signature given after a space.
func has(tp *types.Package, spec string) bool {
	want := ""
	if i := strings.IndexByte(spec, ' '); i >= 0 {
		spec, want = spec[:i], strings.TrimSpace(spec[i+1:])
	}
	parts := strings.SplitN(spec, ".", 2)
	o := tp.Scope().Lookup(parts[0])
	if o == nil {
		return false
	}
	if len(parts) == 2 {
		var t types.Type = o.Type()
		if _, ok := t.Underlying().(*types.Interface); !ok {
			t = types.NewPointer(t)
		}
		obj, _, _ := types.LookupFieldOrMethod(t, true, tp, parts[1])
		if obj == nil {
			return false
		}
		o = obj
	}
	if want == "" {
		return true
	}
	return typeText(o.Type()) == want
}

// typeText is the type with parameter names left out.
func typeText(t types.Type) string {
	if sg, ok := t.(*types.Signature); ok {
		// parameter names do not matter
		bare := func(tu *types.Tuple) *types.Tuple {
			var v []*types.Var
			for i := 0; i < tu.Len(); i++ {
				v = append(v, types.NewParam(token.NoPos, nil, "", tu.At(i).Type()))
			}
			return types.NewTuple(v...)
		}
		t = types.NewSignatureType(nil, nil, nil, bare(sg.Params()), bare(sg.Results()), sg.Variadic())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var variable = regexp.MustCompile(`\\\$[A-Za-z]+`)

// find looks for the one method of a type that fits "Type.$name signature",
// and binds the names.
func find(tp *types.Package, spec string, bound map[string]string) bool {
	i := strings.IndexByte(spec, ' ')
	parts := strings.SplitN(spec[:i], ".", 2)
	o := tp.Scope().Lookup(parts[0])
	if o == nil || len(parts) != 2 {
		return false
	}
	var vars []string
	pat := variable.ReplaceAllStringFunc(regexp.QuoteMeta(parts[1]+" "+strings.TrimSpace(spec[i:])), func(v string) string {
		vars = append(vars, v[1:])
		if v[2] >= 'a' {
			return `([a-z]\w*)` // something unexported
		}
		return `([A-Za-z]\w*)`
	})
	re := regexp.MustCompile("^" + pat + "$")
	t := o.Type()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	var hit []string
	for k := 0; k < ms.Len(); k++ {
		f := ms.At(k).Obj()
		if m := re.FindStringSubmatch(f.Name() + " " + typeText(f.Type())); m != nil {
			if hit != nil {
				return false
			}
			hit = m
		}
	}
	if hit == nil {
		return false
	}
	for k, v := range vars {
		bound[v] = hit[k+1]
	}
	return true
}

var _ = ast.NewIdent
var _ = token.NoPos
