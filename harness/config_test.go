package codegen

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
)

func (r *gvRun) gvText() string {
	return []string{"", "", "db", "x", "y/z", "operator.go", "migrate", "sql", "a b"}[r.rng.Intn(9)]
}

func (r *gvRun) gvFill(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(r.gvText())
	case reflect.Bool:
		v.SetBool(r.rng.Intn(2) == 0)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.gvFill(v.Field(i))
		}
	case reflect.Pointer:
		if r.rng.Intn(2) == 0 {
			v.Set(reflect.New(v.Type().Elem()))
			r.gvFill(v.Elem())
		}
	case reflect.Slice:
		if n := r.rng.Intn(4); n > 0 {
			v.Set(reflect.MakeSlice(v.Type(), n-1, n-1))
			for i := 0; i < n-1; i++ {
				r.gvFill(v.Index(i))
			}
		}
	case reflect.Map:
		if n := r.rng.Intn(4); n > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < n-1; i++ {
				e := reflect.New(v.Type().Elem()).Elem()
				r.gvFill(e)
				v.SetMapIndex(reflect.ValueOf([]string{"a", "b", "c"}[r.rng.Intn(3)]).Convert(v.Type().Key()), e)
			}
		}
	}
}

func gvJSON(v any) string { b, _ := json.Marshal(v); return string(b) }

// gvWant: the field-wise meaning of a merge; defaults fill what neither gave.
func gvWant(o, b, m reflect.Value, path string, dflt map[string]string) string {
	switch m.Kind() {
	case reflect.String:
		w := b.String()
		if o.String() != "" {
			w = o.String()
		}
		if w == "" {
			w = dflt[path]
		}
		if m.String() != w {
			return fmt.Sprintf("%s is %q, want %q", path, m, w)
		}
	case reflect.Bool:
		if m.Bool() != (o.Bool() || b.Bool()) {
			return fmt.Sprintf("%s is %v", path, m)
		}
	case reflect.Struct:
		for i := 0; i < m.NumField(); i++ {
			if s := gvWant(o.Field(i), b.Field(i), m.Field(i), path+"."+m.Type().Field(i).Name, dflt); s != "" {
				return s
			}
		}
	}
	return ""
}

func TestGovc_C16(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	dflt := map[string]string{".Driver": "mysql", ".NamingConvention": "snake_case", ".Tag": "sql", ".Exec.Filename": "generated.go", ".Getter.Prefix": "Column",
		".Database.Package": "db", ".Database.Dir": "db", ".Database.Filename": "db.go", ".Database.Operator.Filename": "operator.go",
		".Migration.Package": "migrate", ".Migration.Dir": "migrate", ".Migration.Filename": "migrate.go"}
	copyOf := func(c *Config) *Config { // deep copy
		n := new(Config)
		var cp func(d, s reflect.Value)
		cp = func(d, s reflect.Value) {
			switch s.Kind() {
			case reflect.Struct:
				for i := 0; i < s.NumField(); i++ {
					cp(d.Field(i), s.Field(i))
				}
			case reflect.Pointer:
				if !s.IsNil() {
					d.Set(reflect.New(s.Type().Elem()))
					cp(d.Elem(), s.Elem())
				}
			case reflect.Slice:
				if !s.IsNil() {
					d.Set(reflect.MakeSlice(s.Type(), s.Len(), s.Len()))
					reflect.Copy(d, s)
				}
			case reflect.Map:
				if !s.IsNil() {
					d.Set(reflect.MakeMap(s.Type()))
					for _, k := range s.MapKeys() {
						d.SetMapIndex(k, s.MapIndex(k))
					}
				}
			default:
				d.Set(s)
			}
		}
		cp(reflect.ValueOf(n).Elem(), reflect.ValueOf(c).Elem())
		return n
	}
	for i := 0; i < 20000*r.deep; i++ {
		b, o := new(Config), new(Config)
		if r.rng.Intn(3) == 0 {
			b.Init()
		} else {
			r.gvFill(reflect.ValueOf(b).Elem())
		}
		r.gvFill(reflect.ValueOf(o).Elem())
		b0, o0 := copyOf(b), copyOf(o)
		r.try("Merge", "base "+gvJSON(b)+" override "+gvJSON(o), func() string {
			m := b.Merge(o)
			if m != b {
				return "the result is not the receiver"
			}
			if !reflect.DeepEqual(o, o0) {
				return "the override was changed to " + gvJSON(o)
			}
			or, br, mr := reflect.ValueOf(o0).Elem(), reflect.ValueOf(b0).Elem(), reflect.ValueOf(m).Elem()
			for i := 0; i < mr.NumField(); i++ {
				f := mr.Type().Field(i)
				ov, bv, mv := or.Field(i), br.Field(i), mr.Field(i)
				switch f.Name {
				case "Source":
					w := bv
					if !ov.IsNil() {
						w = ov
					}
					if !w.IsNil() && !reflect.DeepEqual(append([]string{}, mv.Interface().([]string)...), append([]string{}, w.Interface().([]string)...)) {
						return fmt.Sprintf("Source is %v, want %v", mv, w)
					}
				case "Strict":
					w := bv
					if !ov.IsNil() {
						w = ov
					}
					if !reflect.DeepEqual(mv.Interface(), w.Interface()) {
						return "Strict is " + gvJSON(mv.Interface()) + ", want " + gvJSON(w.Interface())
					}
				case "DataTypes":
					w := map[string]*DataType{}
					for k, v := range b0.DataTypes {
						w[k] = v
					}
					for k, v := range o0.DataTypes {
						w[k] = v
					}
					if !reflect.DeepEqual(m.DataTypes, w) {
						return "DataTypes is " + gvJSON(m.DataTypes) + ", want " + gvJSON(w)
					}
				case "Migration", "Database":
					if f.Name == "Migration" && ov.IsNil() && bv.IsNil() {
						if !mv.IsNil() {
							return "Migration appeared"
						}
						continue
					}
					z := reflect.New(mv.Type().Elem())
					if ov.IsNil() {
						ov = z
					}
					if bv.IsNil() {
						bv = z
					}
					if mv.IsNil() {
						return f.Name + " is missing"
					}
					if s := gvWant(ov.Elem(), bv.Elem(), mv.Elem(), "."+f.Name, dflt); s != "" {
						return s
					}
				default:
					if s := gvWant(ov, bv, mv, "."+f.Name, dflt); s != "" {
						return s
					}
				}
			}
			// the operator block
			var oo, ob DatabaseOperatorConfig
			bd := DatabaseConfig{}
			if o0.Database != nil && o0.Database.Operator != nil {
				oo = *o0.Database.Operator
			}
			if b0.Database != nil {
				bd = *b0.Database
				if bd.Operator != nil {
					ob = *bd.Operator
				}
			}
			op := m.Database.Operator
			chk := func(n, got, o, b, bdb, mdb string) string {
				ok := got == o
				if o == "" {
					ok = got == b && b != "" || got == mdb && (b == "" || b == bdb)
				}
				if !ok {
					return fmt.Sprintf("Database.Operator.%s is %q (override %q, base %q)", n, got, o, b)
				}
				return ""
			}
			if op == nil {
				return "Database.Operator is missing"
			}
			s := chk("Package", op.Package, oo.Package, ob.Package, bd.Package, m.Database.Package) + chk("Dir", op.Dir, oo.Dir, ob.Dir, bd.Dir, m.Database.Dir)
			want := oo.Filename
			if want == "" {
				want = ob.Filename
			}
			if want == "" {
				want = "operator.go"
			}
			if op.Filename != want {
				s += fmt.Sprintf("Database.Operator.Filename is %q, want %q", op.Filename, want)
			}
			return s
		})
	}
}
