package main

// Mechanical drivers for the code generator: on every run this reads
// cmd/sqlgen/codegen/*.go and writes, into an overlay file that is never part
// of /repo,
//   - one wrapper per method of Generator that writes text (makes a
//     strings.Builder, calls the real method, returns what it wrote), and
//   - one function per section of generateModels' loop body that has no
//     method of its own: the section's statement is copied verbatim.
// What this drops: the surrounding generateModels code (the other sections,
// the file header, goimports formatting, writing the file).

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

var genSections = [][2]string{
	{"gvColumns", "sqlColumner"},
	{"gvPK", "HasPK() {}"},
	{"gvInsertSection", "InsertPlaceholders(row int)"},
}

var genBuilders = []string{"buildInsertOne", "buildFindByPK", "buildUpdateByPK", "buildValuer", "buildScanner", "buildCompositeKeys"}

func genOverlay(dir string) (map[string][]byte, error) {
	src := dir + "/cmd/sqlgen/codegen"
	files, err := filepath.Glob(src + "/*.go")
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	fset := token.NewFileSet()
	methods := map[string]*ast.FuncDecl{}
	str := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		return b.String()
	}
	imports := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		gen := false
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv != nil && fd.Body != nil && len(fd.Recv.List) == 1 && str(fd.Recv.List[0].Type) == "*Generator" {
				methods[fd.Name.Name] = fd
				gen = true
			}
		}
		if gen {
			for _, i := range af.Imports {
				p := strings.Trim(i.Path.Value, `"`)
				n := p[strings.LastIndex(p, "/")+1:]
				if i.Name != nil {
					n = i.Name.Name
				}
				imports[n] = p
			}
		}
	}
	imports["strings"] = "strings"
	imports["compiler"] = modP + "/cmd/sqlgen/internal/compiler"
	var body strings.Builder
	fn := func(name, stmts, g, p, t string) {
		fmt.Fprintf(&body, "func %s(%s *Generator, %s *Package, %s *compiler.Table) (string, error) {\n%s\n}\n\n", name, g, p, t, stmts)
	}
	// how to call a writing method; "" when the wrapper does not know how
	call := func(fd *ast.FuncDecl) string {
		var as []string
		for _, f := range fd.Type.Params.List {
			for i := 0; i < max(1, len(f.Names)); i++ {
				a, ok := map[string]string{"io.Writer": "w", "*strings.Builder": "w", "*Package": "p", "*compiler.Table": "t"}[str(f.Type)]
				if !ok {
					return ""
				}
				as = append(as, a)
			}
		}
		c := "g." + fd.Name.Name + "(" + strings.Join(as, ", ") + ")"
		switch r := fd.Type.Results; {
		case r == nil:
			return c + "\n\treturn w.String(), nil"
		case len(r.List) == 1 && str(r.List[0].Type) == "error":
			return "err := " + c + "\n\treturn w.String(), err"
		}
		return ""
	}
	wrap := func(name string, fd *ast.FuncDecl) bool {
		c := ""
		if fd != nil {
			c = call(fd)
		}
		if c != "" {
			fn(name, "\tw := new(strings.Builder)\n\t"+c, "g", "p", "t")
		}
		return c != ""
	}
	for _, m := range genBuilders {
		wrap("gv"+strings.ToUpper(m[:1])+m[1:], methods[m])
	}
	gm := methods["generateModels"]
	for _, s := range genSections {
		if st := sectionOf(gm, s[1], str); st != nil {
			w, p, t := sectionVars(gm, str)
			fn(s[0], fmt.Sprintf("\t%s := new(strings.Builder)\n%s\n\treturn %s.String(), nil", w, str(st), w), recvName(gm), p, t)
			continue
		}
		for _, n := range sortedNames(methods) { // a method of its own?
			if n != "generateModels" && strings.Contains(str(methods[n].Body), s[1]) && wrap(s[0], methods[n]) {
				break
			}
		}
	}
	var o strings.Builder
	o.WriteString("package codegen\n\n// Written by govc on every run.\n\nimport (\n")
	b := body.String()
	used := map[string]bool{}
	bf, err := parser.ParseFile(token.NewFileSet(), "drivers.go", "package codegen\n"+b, 0)
	if err != nil {
		return nil, err
	}
	ast.Inspect(bf, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	for _, n := range sortedKeys2(imports) {
		if used[n] {
			fmt.Fprintf(&o, "\t%s %q\n", n, imports[n])
		}
	}
	o.WriteString(")\n\n" + b)
	return map[string][]byte{src + "/zz_govc_drivers.go": []byte(o.String())}, nil
}

func sortedNames(m map[string]*ast.FuncDecl) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func sortedKeys2(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func recvName(fd *ast.FuncDecl) string { return fd.Recv.List[0].Names[0].Name }

// sectionOf finds the statement of the per-table loop that contains the marker.
func sectionOf(gm *ast.FuncDecl, marker string, str func(ast.Node) string) (out ast.Stmt) {
	if gm == nil {
		return nil
	}
	for _, s := range gm.Body.List {
		f, ok := s.(*ast.ForStmt)
		if !ok {
			continue
		}
		for _, st := range f.Body.List {
			if strings.Contains(str(st), marker) {
				if out != nil {
					return nil
				}
				out = st
			}
		}
	}
	return
}

// sectionVars: the names generateModels gives its writer, imports and table.
func sectionVars(gm *ast.FuncDecl, str func(ast.Node) string) (w, p, t string) {
	w, p, t = "w", "importPkgs", "t"
	ast.Inspect(gm.Body, func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
			return true
		}
		l, ok := a.Lhs[0].(*ast.Ident)
		if !ok {
			return true
		}
		switch r := str(a.Rhs[0]); {
		case strings.HasPrefix(r, "bufio.NewWriter("):
			w = l.Name
		case strings.HasPrefix(r, "NewPackage("):
			p = l.Name
		case strings.HasSuffix(r, ".Tables[0]"):
			t = l.Name
		}
		return true
	})
	return
}
