package codegen

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/mysql"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/postgres"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/sqlite"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/strfmt"
)

// What the generator writes for random models, read back.

type gvModel struct {
	src   strings.Builder
	own   map[string]bool // answers TableName itself
	names []string
}

var gvFieldTypes = []string{"string", "int64", "bool", "float64", "int", "uint8", "int32", "*string", "*int64", "[]byte", "Status", "*Status", "Point", "time.Time", "*time.Time", "[2]byte", "[]string", "float32"}

func (r *gvRun) gvModels(n int) *gvModel {
	m := &gvModel{own: map[string]bool{}}
	m.src.WriteString("package gvmodels\n\nimport \"time\"\n\nvar _ time.Time\n\ntype Status int\n\ntype Point struct{ X, Y float64 }\n\n")
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("M%d", i)
		m.names = append(m.names, t)
		if r.rng.Intn(6) == 0 {
			m.src.WriteString("// +sql:readonly\n")
		}
		var deep []string // fields of an embedded struct
		fmt.Fprintf(&m.src, "type %s struct {\n", t)
		k := 1 + r.rng.Intn(6)
		switch r.rng.Intn(8) {
		case 0:
			k = 9 + r.rng.Intn(6)
		case 1:
			k = 40
		}
		autoAt, keys := -1, r.rng.Intn(4)
		if r.rng.Intn(3) == 0 {
			autoAt = r.rng.Intn(k)
		}
		for j := 0; j < k; j++ {
			name, tag := fmt.Sprintf("F%d", j), ""
			ty := gvFieldTypes[r.rng.Intn(len(gvFieldTypes))]
			col := ""
			if r.rng.Intn(3) == 0 {
				col = fmt.Sprintf("%s%d", []string{"c_", "Col", "x", "order_by", "c"}[r.rng.Intn(5)], j)
			}
			switch {
			case j == autoAt:
				ty, tag = []string{"int64", "uint", "int"}[r.rng.Intn(3)], ",pk,auto_increment"
				if r.rng.Intn(2) == 0 {
					tag = ",auto_increment"
				}
			case keys > 0 && r.rng.Intn(3) == 0:
				keys--
				ty, tag = []string{"string", "int64", "int32", "time.Time"}[r.rng.Intn(4)], []string{",pk", ",primary_key"}[r.rng.Intn(2)]
			case r.rng.Intn(5) == 0:
				tag = ",readonly"
			}
			f := fmt.Sprintf("\t%s %s `sql:\"%s%s\"`\n", name, ty, col, tag)
			if tag == "" && r.rng.Intn(7) == 0 {
				deep = append(deep, f)
				continue
			}
			m.src.WriteString(f)
		}
		if len(deep) > 0 {
			fmt.Fprintf(&m.src, "\t%sEmb%d\n", []string{"", "*"}[r.rng.Intn(2)], i)
		}
		m.src.WriteString("}\n\n")
		if len(deep) > 0 {
			fmt.Fprintf(&m.src, "type Emb%d struct {\n%s}\n\n", i, strings.Join(deep, ""))
		}
		if r.rng.Intn(4) == 0 {
			m.own[t] = true
			fmt.Fprintf(&m.src, "func (%s) TableName() string { return \"mine\" }\n\n", t)
		}
	}
	return m
}

type gvGen struct {
	driver  string
	quote   bool
	own     map[string]bool
	table   *compiler.Table
	methods map[string]*ast.FuncDecl
	fset    *token.FileSet
	d       dialect.Dialect
}

func (g *gvGen) qid(s string) string {
	if g.driver == "mysql" {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

func (g *gvGen) qi(s string) string {
	if g.quote {
		return g.qid(s)
	}
	return s
}

func (g *gvGen) ph(i int) string {
	if g.driver == "postgres" {
		return "$" + strconv.Itoa(i+1)
	}
	return "?"
}

func (g *gvGen) isPoint(c *compiler.Column) bool { return strings.HasSuffix(c.Type.String(), "gvmodels.Point") }

func (g *gvGen) bind(c *compiler.Column, i int) string {
	if g.isPoint(c) {
		return "ST_From(" + g.ph(i) + ",4326)"
	}
	return g.ph(i)
}

func (g *gvGen) sel(c *compiler.Column) string {
	if g.isPoint(c) {
		return "ST_AsText(" + g.qid(c.Name) + ")"
	}
	return g.qid(c.Name)
}

func (g *gvGen) tbl() string {
	if g.own[g.table.GoName] {
		return "<table>"
	}
	return g.qid(g.table.Name)
}

func (g *gvGen) key() []*compiler.Column {
	if k, ok := g.table.AutoIncrKey(); ok {
		return []*compiler.Column{k}
	}
	return g.table.Keys
}

func (g *gvGen) writable(insert bool) (out []*compiler.Column) {
	auto, _ := g.table.AutoIncrKey()
	keys := map[string]bool{}
	for _, k := range g.table.Keys {
		keys[k.Name] = !insert
	}
	for _, c := range g.table.Columns {
		if !c.Readonly && c != auto && !keys[c.Name] {
			out = append(out, c)
		}
	}
	return
}

func gvMap(cs []*compiler.Column, f func(c *compiler.Column, i int) string) string {
	var out []string
	for i, c := range cs {
		out = append(out, f(c, i))
	}
	return strings.Join(out, ",")
}

func (g *gvGen) text(e ast.Node) string {
	var b strings.Builder
	printer.Fprint(&b, g.fset, e)
	return b.String()
}

// str: the value of a text expression; env names its variables.
func (g *gvGen) str(e ast.Expr, env map[string]int) string {
	switch e := e.(type) {
	case *ast.BasicLit:
		s, err := strconv.Unquote(e.Value)
		if err != nil {
			panic(err)
		}
		return s
	case *ast.ParenExpr:
		return g.str(e.X, env)
	case *ast.BinaryExpr:
		return g.str(e.X, env) + g.str(e.Y, env)
	case *ast.CallExpr:
		switch f := g.text(e.Fun); f {
		case "v.TableName":
			return "<table>"
		case "strconv.Itoa":
			return strconv.Itoa(g.num(e.Args[0], env))
		}
	}
	panic("text expression " + g.text(e))
}

func (g *gvGen) num(e ast.Expr, env map[string]int) int {
	switch e := e.(type) {
	case *ast.BasicLit:
		n, err := strconv.Atoi(e.Value)
		if err != nil {
			panic(err)
		}
		return n
	case *ast.ParenExpr:
		return g.num(e.X, env)
	case *ast.Ident:
		if n, ok := env[e.Name]; ok {
			return n
		}
	case *ast.BinaryExpr:
		a, b := g.num(e.X, env), g.num(e.Y, env)
		switch e.Op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		}
	}
	panic("number expression " + g.text(e))
}

func (g *gvGen) results(m string) []ast.Expr {
	fd := g.methods[g.table.GoName+"."+m]
	if fd == nil {
		return nil
	}
	for _, s := range fd.Body.List {
		if r, ok := s.(*ast.ReturnStmt); ok {
			return r.Results
		}
	}
	return nil
}

func (g *gvGen) list(e ast.Expr) []ast.Expr { return e.(*ast.CompositeLit).Elts }

func (g *gvGen) strs(e ast.Expr) string {
	var out []string
	for _, x := range g.list(e) {
		out = append(out, g.str(x, nil))
	}
	return strings.Join(out, ",")
}

var gvPath = regexp.MustCompile(`\bv((?:\.\w+)+)`)

// paths: the fields a list of values or addresses refers to.
func (g *gvGen) paths(es []ast.Expr) string {
	var out []string
	for _, e := range es {
		p := "?"
		if m := gvPath.FindStringSubmatch(g.text(e)); m != nil {
			p = m[1]
		}
		out = append(out, p)
	}
	return strings.Join(out, ",")
}

func (g *gvGen) goPaths(cs []*compiler.Column) string {
	return gvMap(cs, func(c *compiler.Column, _ int) string {
		if c.IsUnderlyingPtr() {
			return "." + c.GoName + "Value"
		}
		return c.GoPath
	})
}

func gvDiff(what, got, want string) string {
	if got != want {
		return fmt.Sprintf("%s is %q, want %q", what, got, want)
	}
	return ""
}

func gvFirst(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

// gvGenerate calls f for every table of random models under every dialect.
func (r *gvRun) gvGenerate(f func(g *gvGen, what string)) {
	r.t.Setenv("GOWORK", "off")
	r.t.Setenv("GOFLAGS", "-mod=mod")
	rounds := 4 + 2*r.deep
	for i := 0; i < rounds; i++ {
		dir, err := os.MkdirTemp(os.Getenv("GOVC_TMP"), "gen")
		if err != nil {
			r.t.Fatal(err)
		}
		m := r.gvModels(14)
		os.WriteFile(dir+"/go.mod", []byte("module gvmodels\n\ngo 1.21\n"), 0o644)
		os.WriteFile(dir+"/models.go", []byte(m.src.String()), 0o644)
		for j := 0; j < 3; j++ {
			driver := []string{"mysql", "postgres", "sqlite"}[j]
			quote := r.rng.Intn(2) == 0
			in := fmt.Sprintf("driver %s, quote_identifier %v, models %s", driver, quote, m.src.String())
			r.try("generate", in, func() string {
				cfg := DefaultConfig()
				cfg.Driver = SqlDriver(driver)
				cfg.QuoteIdentifier = quote
				scan, val := "ST_AsText({{.}})", "ST_From({{.}},4326)"
				cfg.DataTypes = map[string]*DataType{"gvmodels.Point": {SQLScanner: &scan, SQLValuer: &val}}
				d, ok := dialect.GetDialect(driver)
				if !ok {
					return "dialect is missing"
				}
				gen, err := newGenerator(cfg, d)
				if err != nil {
					return err.Error()
				}
				schema, err := compiler.Parse(dir, &compiler.Config{Tag: cfg.Tag, RenameFunc: strfmt.ToSnakeCase, Matcher: gvAny{}})
				if err != nil {
					return err.Error()
				}
				tables := append([]*compiler.Table(nil), schema.Tables...)
				out := filepath.Join(dir, "out")
				if err := gen.generateModels(out, schema); err != nil {
					return "generateModels: " + err.Error()
				}
				fset := token.NewFileSet()
				af, err := parser.ParseFile(fset, filepath.Join(out, cfg.Exec.Filename), nil, 0)
				if err != nil {
					return "generated code does not parse: " + err.Error()
				}
				ms := map[string]*ast.FuncDecl{}
				for _, dl := range af.Decls {
					if fd, ok := dl.(*ast.FuncDecl); ok && fd.Recv != nil {
						t := fd.Recv.List[0].Type
						if s, ok := t.(*ast.StarExpr); ok {
							t = s.X
						}
						ms[t.(*ast.Ident).Name+"."+fd.Name.Name] = fd
					}
				}
				for _, t := range tables {
					f(&gvGen{driver: driver, quote: quote, own: m.own, table: t, methods: ms, fset: fset, d: d},
						fmt.Sprintf("driver %s, quote_identifier %v, model %s of %s", driver, quote, t.GoName, m.src.String()))
				}
				return ""
			})
		}
		os.RemoveAll(dir)
	}
}

type gvAny struct{}

func (gvAny) Match(string) bool { return true }

func TestGovc_C08(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	r.gvGenerate(func(g *gvGen, what string) {
		qid := func(c *compiler.Column, _ int) string { return g.qid(c.Name) }
		all := g.table.Columns
		where := func(n int) string {
			k := g.key()
			if len(k) == 1 {
				return g.qid(k[0].Name) + " = " + g.ph(n)
			}
			return "(" + gvMap(k, qid) + ") = (" + gvMap(k, func(c *compiler.Column, i int) string { return g.bind(c, n+i) }) + ")"
		}
		r.try("insert statement", what, func() string {
			ins := g.writable(true)
			res := g.results("InsertOneStmt")
			if g.table.Readonly || len(ins) == 0 {
				if res != nil {
					return "a table without insertable columns has an insert statement"
				}
				return ""
			}
			if len(res) != 2 {
				return "no insert statement"
			}
			want := "INSERT INTO " + g.tbl() + " (" + gvMap(ins, qid) + ") VALUES (" + gvMap(ins, g.bind) + ")"
			if g.driver == "postgres" {
				want += " RETURNING " + gvMap(all, func(c *compiler.Column, _ int) string { return g.sel(c) })
			}
			args := g.goPaths(ins)
			got := ""
			if g.text(res[1]) == "v.Values()" {
				v := g.results("Values")
				if len(v) != 1 {
					return "Values is missing"
				}
				got = g.paths(g.list(v[0]))
			} else {
				got = g.paths(g.list(res[1]))
			}
			return gvFirst(gvDiff("the text", g.str(res[0], nil), want+";"), gvDiff("the argument list", got, args))
		})
		if !g.table.HasPK() {
			return
		}
		r.try("find statement", what, func() string {
			res := g.results("FindOneByPKStmt")
			if len(res) != 2 {
				return "no find statement"
			}
			want := "SELECT " + gvMap(all, func(c *compiler.Column, _ int) string { return g.sel(c) }) + " FROM " + g.tbl() + " WHERE " + where(0) + " LIMIT 1;"
			return gvFirst(gvDiff("the text", g.str(res[0], nil), want), gvDiff("the argument list", g.paths(g.list(res[1])), g.goPaths(g.key())))
		})
		r.try("update statement", what, func() string {
			w := g.writable(false)
			res := g.results("UpdateOneByPKStmt")
			if g.table.Readonly || len(w) == 0 {
				if res != nil {
					return "a table without writable columns has an update statement"
				}
				return ""
			}
			if len(res) != 2 {
				return "no update statement"
			}
			want := "UPDATE " + g.tbl() + " SET " + gvMap(w, func(c *compiler.Column, i int) string { return g.qid(c.Name) + " = " + g.bind(c, i) }) + " WHERE " + where(len(w)) + ";"
			args := append(append([]*compiler.Column(nil), w...), g.key()...)
			return gvFirst(gvDiff("the text", g.str(res[0], nil), want), gvDiff("the argument list", g.paths(g.list(res[1])), g.goPaths(args)))
		})
	})
}

func TestGovc_C09(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	r.gvGenerate(func(g *gvGen, what string) {
		names := func(cs []*compiler.Column) string {
			return gvMap(cs, func(c *compiler.Column, _ int) string { return g.qi(c.Name) })
		}
		all, ins := g.table.Columns, g.writable(true)
		r.try("column lists", what, func() string {
			pos := gvMap(all, func(c *compiler.Column, i int) string { return strconv.Itoa(c.Pos) })
			var want []string
			for i := range all {
				want = append(want, strconv.Itoa(i))
			}
			if s := gvDiff("the list of positions", pos, strings.Join(want, ",")); s != "" {
				return s
			}
			res := g.results("Columns")
			if len(res) != 1 {
				return "Columns is missing"
			}
			if s := gvDiff("Columns", g.strs(res[0]), names(all)); s != "" {
				return s
			}
			res = g.results("Addrs")
			if len(res) != 1 {
				return "Addrs is missing"
			}
			if s := gvDiff("Addrs", g.paths(g.list(res[0])), gvMap(all, func(c *compiler.Column, _ int) string { return c.GoPath })); s != "" {
				return s
			}
			if g.table.Readonly || len(ins) == 0 {
				return ""
			}
			if res = g.results("Values"); len(res) != 1 {
				return "Values is missing"
			}
			if s := gvDiff("Values", g.paths(g.list(res[0])), g.goPaths(ins)); s != "" {
				return s
			}
			res = g.results("InsertColumns")
			if len(ins) == len(all) {
				return ""
			} else if len(res) != 1 {
				return "InsertColumns is missing"
			}
			return gvDiff("InsertColumns", g.strs(res[0]), names(ins))
		})
		r.try("keys", what, func() string {
			if !g.table.HasPK() {
				return ""
			}
			k := g.key()
			pos := gvMap(k, func(c *compiler.Column, _ int) string { return strconv.Itoa(c.Pos) })
			if len(k) == 1 {
				res := g.results("PK")
				if len(res) != 3 {
					return "PK is missing"
				}
				return gvFirst(gvDiff("the key's name", g.str(res[0], nil), names(k)), gvDiff("the key's position", g.text(res[1]), pos), gvDiff("the key's value", g.paths(res[2:]), g.goPaths(k)))
			}
			res := g.results("CompositeKey")
			if len(res) != 3 {
				return "CompositeKey is missing"
			}
			ps := ""
			for i, e := range g.list(res[1]) {
				if i > 0 {
					ps += ","
				}
				ps += g.text(e)
			}
			return gvFirst(gvDiff("the names", g.strs(res[0]), names(k)), gvDiff("the positions", ps, pos), gvDiff("the values", g.paths(g.list(res[2])), g.goPaths(k)))
		})
	})
}

func TestGovc_C10(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	r.gvGenerate(func(g *gvGen, what string) {
		r.try("InsertPlaceholders", what, func() string {
			ins := g.writable(true)
			fd := g.methods[g.table.GoName+".InsertPlaceholders"]
			if g.table.Readonly || len(ins) == 0 {
				if fd != nil {
					return "a table without insertable columns has insert placeholders"
				}
				return ""
			}
			if fd == nil {
				return "InsertPlaceholders is missing"
			}
			env := map[string]int{}
			for _, s := range fd.Body.List {
				if d, ok := s.(*ast.DeclStmt); ok {
					for _, sp := range d.Decl.(*ast.GenDecl).Specs {
						v := sp.(*ast.ValueSpec)
						env[v.Names[0].Name] = g.num(v.Values[0], nil)
					}
				}
			}
			n := len(ins)
			for _, row := range []int{0, 1, 2, 3, 9, 10, 99, 1000, r.rng.Intn(1 << 20)} {
				env["row"] = row
				var want []string
				for k := 0; k < n; k++ {
					want = append(want, g.ph(row*n+k))
				}
				if s := gvDiff(fmt.Sprintf("row %d", row), g.str(g.results("InsertPlaceholders")[0], env), "("+strings.Join(want, ",")+")"); s != "" {
					return s
				}
			}
			return ""
		})
	})
}
