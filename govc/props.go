package main

const encDir = "sequel/encoding"

func encH(test string) Harness {
	return Harness{Pkg: encDir, Name: "encoding", File: "encoding_test.go", Test: test}
}

func init() {
	sqlH := func(id string) Harness {
		return Harness{Pkg: "sequel/sqltype", Name: "sqltype", File: "sqltype_test.go", Test: "TestGovc_" + id}
	}
	pgH := func(id string) Harness {
		return Harness{Pkg: "sequel/driver/postgres/pgtype", Name: "pgtype", File: "pgtype_test.go", Test: "TestGovc_" + id}
	}
	property(&Property{ID: "C01",
		Assume:  []string{"float values are opaque: the stored value is the one strconv or the Go conversion yields", "64-bit unsigned values travel as int64 in two's complement"},
		Harness: []Harness{encH("TestGovc_C01")}})
	property(&Property{ID: "C02",
		Assume:  []string{"JSON targets with their own UnmarshalJSON decide about NULL themselves"},
		Harness: []Harness{encH("TestGovc_C02"), sqlH("C02"), pgH("C02")}})
	property(&Property{ID: "C03",
		Assume:  []string{"the slice handed to an array scanner has at least the stated size (generated code passes v[:])"},
		Harness: []Harness{encH("TestGovc_C03")}})
	split := []string{"that parseArray splits an encoded text into the encoded elements (the composition of Value and Scan) is run on boundary and random lists, not proved; each half is"}
	property(&Property{ID: "C04", Harness: []Harness{sqlH("C04")}, Bounded: split})
	property(&Property{ID: "C05", Harness: []Harness{pgH("C05")}, Bounded: append(split, "bytea elements in PostgreSQL's octal escape form")})
	property(&Property{ID: "C06", Harness: []Harness{sqlH("C06"), pgH("C06")}})
	property(&Property{ID: "C07", Harness: []Harness{{Pkg: "sequel/driver/postgres/pgutil", Name: "pgutil", File: "pgutil_test.go", Test: "TestGovc_C07"}}})
	genH := func(id string) []Harness {
		return []Harness{{Pkg: "cmd/sqlgen/codegen", Name: "codegen", File: "gen_test.go", Test: "TestGovc_" + id}}
	}
	dialect := "the methods of a dialect depend on their arguments only"
	names := "a model's Go name holds no % sign (Go identifiers cannot)"
	property(&Property{ID: "C08", Harness: genH("C08"),
		Assume:  []string{dialect, names, "a column's own SQL template (data_types) is an opaque text of its column and position", "imports.Process (goimports) keeps the meaning of the text it formats"},
		Bounded: []string{"that the sections are assembled in generateModels, formatted and written out is checked on random models (3 dialects), not proved; so are columns with SQL templates of their own"}})
	property(&Property{ID: "C09", Harness: genH("C09"),
		Assume:  []string{dialect, names, "imports.Process (goimports) keeps the meaning of the text it formats"},
		Bounded: []string{"that a column's value and destination expressions name its own field (Column.GoPath) and that positions count up from 0 is checked on random models, not proved"}})
	property(&Property{ID: "C10", Harness: genH("C10"),
		Assume:  []string{dialect, names, "generated arithmetic (row * n + k) does not overflow int"},
		Bounded: []string{"the callers of InsertPlaceholders in the database template are not covered"}})
	property(&Property{ID: "C13",
		Assume:  []string{"strings.TrimSpace removes nothing but white space"},
		Harness: []Harness{{Pkg: "cmd/sqlgen/internal/strfmt", Name: "strfmt", File: "strfmt_test.go", Test: "TestGovc_C13"}}})
	property(&Property{ID: "C14",
		Assume:  []string{"code outside the units under contract keeps the same pool discipline (sync.Pool hands out either a new object or one that was put back)"},
		Harness: []Harness{encH("TestGovc_C14")}})
	property(&Property{ID: "C15",
		Assume:  []string{"strconv, encoding/json and time.Format spell one element correctly"},
		Harness: []Harness{encH("TestGovc_C15")}})
	property(&Property{ID: "C16",
		Assume:  []string{"base and override are two configurations that do not share their data type map"},
		Harness: []Harness{{Pkg: "cmd/sqlgen/codegen", Name: "codegen", File: "config_test.go", Test: "TestGovc_C16"}}})
	property(&Property{ID: "C17",
		Assume:  []string{"pointer targets are non-nil when a non-NULL value is scanned (generated code allocates them)"},
		Harness: []Harness{encH("TestGovc_C17"), {Pkg: "sequel/types", Name: "types", File: "types_test.go", Test: "TestGovc_C17"}}})
	property(&Property{ID: "C19",
		Assume:  []string{"time.Parse and time.Unix denote the instants; a layout's optional fraction (.999…) parses like the plain layout"},
		Harness: []Harness{encH("TestGovc_C19")}})
}
