#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the claims below and properties.jsonl.
import json
CLAIM={
"C01":"Every path of every scalar scanner instantiation (value and pointer targets, strict and lenient) meets its contract for all driver values; floats opaque; strconv behaves as documented.",
"C02":"NULL contracts of all scanners under contract, for all previous target contents.",
"C03":"Loops proved with inferred inductive invariants for all array sizes and all byte strings; UTF-8 decoding is the library's.",
"C04":"Every list type: encoding is exactly the bracketed text of its elements for all lists, decoding meets the element contract for all element texts (relative to what parseArray returns as elements); that parseArray splits an encoded text into the encoded elements is checked by the bounded harness only.",
"C05":"As C04 for the PostgreSQL arrays, bytea included.",
"C06":"parseArray, scanLinearArray and every list/array Scan: no panic for any input, the target is unchanged on error, the input is not modified; loops with inductive invariants for all lengths.",
"C07":"Loop proved with an inductive invariant over a PostgreSQL literal automaton, for all strings.",
"C08":"Every builder of a single-row statement (insert, find, update; the key auto-incremented, single or composite; the table's name known or asked at run time): the text written is exactly the statement whose placeholders are numbered in step with the argument list, for all tables with any number of columns; loops with inductive invariants. Code is extracted per run only to give the builders a writer (DESIGN.md); a column's own SQL template is opaque there and checked by the bounded harness.",
"C09":"Columns, Values, Addrs, InsertColumns, PK and CompositeKey sections and the column selections they use: the lists are exactly the table's columns (or keys, or insertable columns) in order, for all tables; sections of generateModels are copied verbatim on every run. That each value expression names its own field is checked by the bounded harness.",
"C10":"The InsertPlaceholders section for every dialect, any number of columns and every row: proved to write row*n+1 … row*n+n (or n unnumbered marks).",
"C13":"All names: loop proved with inductive invariants over byte strings of any length; strings.TrimSpace trusted to remove white space only.",
"C14":"Every unit that takes a buffer from a pool: empty when handed out, one owner, returned at most once, empty, and not used afterwards, on every path.",
"C15":"All lists of every element type: loop proved with an inductive invariant; the spelling of one element is strconv's, encoding/json's or time's.",
"C16":"Every setting of Config, for all base and override values (nil and partial blocks included); loop free, all paths.",
"C17":"All driver values; the user's decoder is abstract (any receiver, any error).",
"C19":"All driver values and all texts; the accepted layouts are regular languages, time.Parse itself is trusted.",
}
NA={
"C11":"the condition builders exist only as text/template source (operator.go.tpl, db.go.tpl): what runs is rendered into each project, as generic functions that call user-held closures on a statement interface, for which the verifier has no contracts; a hand-written copy would be a model",
"C12":"the helpers exist only as text/template source (db.go.tpl) and drive database/sql through user-supplied interfaces; the statements they send from ordinary functions are decided under C08 and C10, the rendered helpers themselves are outside the verifier's reach",
"C18":"the row loops are in the same templates (db.go.tpl) and the property is about database/sql's Rows after a driver fault, whose state no contract on functions in /repo describes",
"C20":"a whole-history property: it relates a sequence of generated statements to the row order and isolation of an external SQL engine, which no contract on the functions in /repo can express",
"C21":"it quantifies over runs of the Go compiler on generated files; no postcondition over the generator's string output within reach of the verifier can express that an arbitrary package type-checks",
"C22":"the mechanism is the go/types and go/packages walk in cmd/sqlgen/internal/compiler; its inputs (type-checker object graphs) have no tractable specification in the verifier and assuming contracts for all of go/types would leave nothing proved",
}
T="contract-based deductive verification of the real code (go/ssa symbolic execution with inferred loop invariants, obligations discharged by z3/cvc5); counterexamples replayed by an executable contract on the real code"
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],"notes":"see DESIGN.md"}
for i in ids:
    if i in CLAIM:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"technique":T,"level":"proof","level_note":CLAIM[i]+" Assumptions and trusted base are listed in the evidence file and DESIGN.md."})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
