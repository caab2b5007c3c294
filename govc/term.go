package main

// Logical terms: hash-consed, sorted, with a small simplifier.  Integers are
// mathematical; Go conversions and sized arithmetic insert explicit wrapping.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SStr
	SSeq
	SNamed
	SData
	SArr
)

type Sort struct {
	Kind SortKind
	Name string // SMT name
	Elem *Sort  // SSeq / SArr value
	Key  *Sort  // SArr
	// SData
	Ctor   string
	Fields []DField
}

type DField struct {
	Name string
	Sort *Sort
}

var (
	BoolS = &Sort{Kind: SBool, Name: "Bool"}
	IntS  = &Sort{Kind: SInt, Name: "Int"}
	StrS  = &Sort{Kind: SStr, Name: "String"}

	sortMu  sync.Mutex
	sortTab = map[string]*Sort{}
)

func SeqOf(e *Sort) *Sort {
	if e == nil {
		panic("nil elem")
	}
	n := "(Seq " + e.Name + ")"
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SSeq, Name: n, Elem: e}
	sortTab[n] = s
	return s
}

func ArrOf(k, v *Sort) *Sort {
	n := "(Array " + k.Name + " " + v.Name + ")"
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SArr, Name: n, Elem: v, Key: k}
	sortTab[n] = s
	return s
}

func NamedS(n string) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SNamed, Name: n}
	sortTab[n] = s
	return s
}

func DataS(n string, fields []DField) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: SData, Name: n, Ctor: "mk_" + n, Fields: fields}
	sortTab[n] = s
	return s
}

// Term is hash-consed; compare with ==.
type Term struct {
	Op   string // "int","str","bool","var","app", or an SMT operator
	Name string // var/app name, str literal payload
	Args []*Term
	Sort *Sort
	Int  *big.Int
	id   int
	key  string
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termN   int
)

func mk(op, name string, s *Sort, i *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(s.Name)
	if i != nil {
		b.WriteByte('|')
		b.WriteString(i.String())
	}
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op + " " + name)
		}
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{Op: op, Name: name, Args: args, Sort: s, Int: i, id: termN, key: k}
	termTab[k] = t
	return t
}

var (
	True  = mk("bool", "true", BoolS, nil)
	False = mk("bool", "false", BoolS, nil)
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func I(n int64) *Term       { return mk("int", "", IntS, big.NewInt(n)) }
func IB(n *big.Int) *Term   { return mk("int", "", IntS, n) }
func S(s string) *Term      { return mk("str", s, StrS, nil) }
func (t *Term) IsInt() bool { return t.Op == "int" }
func (t *Term) IsStr() bool { return t.Op == "str" }

func Var(name string, s *Sort) *Term { return mk("var", name, s, nil) }

var (
	freshMu sync.Mutex
	freshN  = map[string]int{}
)

func Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	freshMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	freshMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", prefix, n), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteByte(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func App(name string, s *Sort, args ...*Term) *Term {
	return mk("app", name, s, nil, args...)
}

// ---- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<=": // not (a<=b)  ==> b+1 <= a
		return Le(Add(a.Args[1], I(1)), a.Args[0])
	}
	return mk("not", "", BoolS, nil, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == True {
			return true
		}
		if x == False {
			return false
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", BoolS, nil, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == True {
			return True
		}
		if x == False || seen[x] {
			continue
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if seen[Not(y)] {
					return True
				}
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if seen[Not(x)] {
			return True
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", BoolS, nil, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", BoolS, nil, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", "", a.Sort, nil, c, a, b)
}

func isLit(t *Term) bool { return t.Op == "int" || t.Op == "str" || t.Op == "bool" }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.Sort.Name, b, b.Sort.Name))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	switch a.Sort {
	case IntS:
		d := Sub(a, b)
		if d.IsInt() {
			return B(d.Int.Sign() == 0)
		}
	case BoolS:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if a.Sort == StrS || a.Sort.Kind == SSeq {
		x, y := catParts(a), catParts(b)
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		x, y = x[n:], y[n:]
		n = 0
		for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
			n++
		}
		x, y = x[:len(x)-n], y[:len(y)-n]
		if a.Sort == StrS && len(x) > 0 && len(y) > 0 {
			// strip literal prefixes
			if x[0].IsStr() && y[0].IsStr() {
				p, q := x[0].Name, y[0].Name
				k := 0
				for k < len(p) && k < len(q) && p[k] == q[k] {
					k++
				}
				if k < len(p) && k < len(q) {
					return False
				}
				if k > 0 {
					x = append([]*Term{S(p[k:])}, x[1:]...)
					y = append([]*Term{S(q[k:])}, y[1:]...)
				}
			}
			l, m := x[len(x)-1], y[len(y)-1]
			if l.IsStr() && m.IsStr() {
				p, q := l.Name, m.Name
				k := 0
				for k < len(p) && k < len(q) && p[len(p)-1-k] == q[len(q)-1-k] {
					k++
				}
				if k < len(p) && k < len(q) {
					return False
				}
				if k > 0 {
					x = append(append([]*Term{}, x[:len(x)-1]...), S(p[:len(p)-k]))
					y = append(append([]*Term{}, y[:len(y)-1]...), S(q[:len(q)-k]))
				}
			}
		}
		na, nb := CatS(a.Sort, x...), CatS(a.Sort, y...)
		if na == nb {
			return True
		}
		if na != a || nb != b {
			return Eq(na, nb)
		}
		// definitely different lengths of literals/units
		if la, lb := Len(a), Len(b); la.IsInt() && lb.IsInt() && la.Int.Cmp(lb.Int) != 0 {
			return False
		}
		// one side empty, other has a definitely non-empty part
		if len(x) == 0 || len(y) == 0 {
			o := append(append([]*Term{}, x...), y...)
			for _, p := range o {
				if p.IsStr() && p.Name != "" || p.Op == "seq.unit" {
					return False
				}
			}
		}
	}
	if a.Op == "app" && b.Op == "app" && a.Sort.Kind == SData && a.Name == a.Sort.Ctor && b.Name == b.Sort.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", BoolS, nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- integers (linear normal form)

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func linOf(t *Term) lin {
	switch {
	case t.IsInt():
		return lin{t.Int, nil}
	case t.Op == "+":
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		for _, a := range t.Args {
			r.add(linOf(a), big.NewInt(1))
		}
		return r
	case t.Op == "*" && t.Args[0].IsInt():
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		r.add(linOf(t.Args[1]), t.Args[0].Int)
		return r
	}
	return lin{new(big.Int), map[*Term]*big.Int{t: big.NewInt(1)}}
}

func (l *lin) add(o lin, k *big.Int) {
	l.c = new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k))
	if l.m == nil {
		l.m = map[*Term]*big.Int{}
	}
	for t, c := range o.m {
		v := new(big.Int).Mul(c, k)
		if p, ok := l.m[t]; ok {
			v.Add(v, p)
		}
		if v.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = v
		}
	}
}

func (l lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var parts []*Term
	for _, t := range ts {
		c := l.m[t]
		if c.IsInt64() && c.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", "", IntS, nil, IB(c), t))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IB(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", IntS, nil, parts...)
}

func Add(xs ...*Term) *Term {
	r := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, x := range xs {
		if x.Sort != IntS {
			panic("Add on " + x.Sort.Name)
		}
		r.add(linOf(x), big.NewInt(1))
	}
	return r.term()
}
func Sub(a, b *Term) *Term {
	r := lin{new(big.Int), map[*Term]*big.Int{}}
	r.add(linOf(a), big.NewInt(1))
	r.add(linOf(b), big.NewInt(-1))
	return r.term()
}
func Mul(a, b *Term) *Term {
	if a.IsInt() {
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		r.add(linOf(b), a.Int)
		return r.term()
	}
	if b.IsInt() {
		return Mul(b, a)
	}
	// distribute over sums so that (x+1)*y and x*y+y meet
	if a.Op == "+" {
		r := I(0)
		for _, p := range a.Args {
			r = Add(r, Mul(p, b))
		}
		return r
	}
	if b.Op == "+" {
		return Mul(b, a)
	}
	if a.Op == "*" && a.Args[0].IsInt() {
		return Mul(a.Args[0], Mul(a.Args[1], b))
	}
	if b.Op == "*" && b.Args[0].IsInt() {
		return Mul(b.Args[0], Mul(a, b.Args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", IntS, nil, a, b)
}
func Div(a, b *Term) *Term { // SMT euclidean; callers guard
	if a.IsInt() && b.IsInt() && b.Int.Sign() != 0 {
		return IB(new(big.Int).Div(a.Int, b.Int))
	}
	return mk("div", "", IntS, nil, a, b)
}
func Mod(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.Int.Sign() != 0 {
		return IB(new(big.Int).Mod(a.Int, b.Int))
	}
	return mk("mod", "", IntS, nil, a, b)
}

func nonNeg(t *Term) bool {
	switch {
	case t.IsInt():
		return t.Int.Sign() >= 0
	case t.Op == "str.len" || t.Op == "seq.len":
		return true
	case t.Op == "*":
		if t.Args[0].IsInt() {
			return t.Args[0].Int.Sign() >= 0 && nonNeg(t.Args[1])
		}
	case t.Op == "+":
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	}
	return false
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.IsInt() {
		return B(d.Int.Sign() >= 0)
	}
	if nonNeg(d) {
		return True
	}
	// canonical: move negative coefficients left
	l := linOf(d)
	lo := lin{new(big.Int), map[*Term]*big.Int{}}
	hi := lin{new(big.Int), map[*Term]*big.Int{}}
	for t, c := range l.m {
		if c.Sign() > 0 {
			hi.m[t] = c
		} else {
			lo.m[t] = new(big.Int).Neg(c)
		}
	}
	if l.c.Sign() >= 0 {
		hi.c = l.c
	} else {
		lo.c = new(big.Int).Neg(l.c)
	}
	return mk("<=", "", BoolS, nil, lo.term(), hi.term())
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- strings / sequences (uniform helpers)

func isSeqLike(s *Sort) bool { return s == StrS || s.Kind == SSeq }

func Empty(s *Sort) *Term {
	if s == StrS {
		return S("")
	}
	return mk("seq.empty", "", s, nil)
}

func Unit(x *Term) *Term { return mk("seq.unit", "", SeqOf(x.Sort), nil, x) }

func catParts(t *Term) []*Term {
	switch {
	case t.Op == "str.++" || t.Op == "seq.++":
		return t.Args
	case t.Op == "seq.empty" || t.IsStr() && t.Name == "":
		return nil
	}
	return []*Term{t}
}

func Cat(xs ...*Term) *Term { return CatS(xs[0].Sort, xs...) }

func CatS(s *Sort, xs ...*Term) *Term {
	var parts []*Term
	for _, x := range xs {
		if x.Sort != s {
			panic(fmt.Sprintf("Cat sort mismatch %s vs %s", x.Sort.Name, s.Name))
		}
		for _, p := range catParts(x) {
			if n := len(parts); n > 0 {
				if p.IsStr() && parts[n-1].IsStr() {
					parts[n-1] = S(parts[n-1].Name + p.Name)
					continue
				}
				// adjacent slices of the same sequence: s[a:b]++s[b:c] = s[a:c]
				// (sound only when in range; kept when the offsets chain and the
				// lengths are known non-negative — handled by the solver instead)
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return Empty(s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	if s == StrS {
		return mk("str.++", "", s, nil, parts...)
	}
	return mk("seq.++", "", s, nil, parts...)
}

func Len(t *Term) *Term {
	switch {
	case t.IsStr():
		return I(int64(len(t.Name)))
	case t.Op == "seq.empty":
		return I(0)
	case t.Op == "seq.unit":
		return I(1)
	case t.Op == "str.++" || t.Op == "seq.++":
		r := I(0)
		for _, a := range t.Args {
			r = Add(r, Len(a))
		}
		return r
	case t.Op == "str.from_code": // only ever applied to byte values
		return I(1)
	}
	if t.Sort == StrS {
		return mk("str.len", "", IntS, nil, t)
	}
	return mk("seq.len", "", IntS, nil, t)
}

// Extract(s, off, n): s[off:off+n]
func Extract(s, off, n *Term) *Term {
	if n.IsInt() && n.Int.Sign() <= 0 {
		return Empty(s.Sort)
	}
	if off.IsInt() && off.Int.Sign() == 0 && n == Len(s) {
		return s
	}
	if (s.Op == "str.at" || s.Op == "str.from_code") && off.IsInt() && off.Int.Sign() == 0 && n.IsInt() && n.Int.Sign() > 0 {
		return s
	}
	if s.IsStr() && off.IsInt() && n.IsInt() {
		o, l := off.Int.Int64(), n.Int.Int64()
		if o >= 0 && o <= int64(len(s.Name)) {
			e := o + l
			if e > int64(len(s.Name)) {
				e = int64(len(s.Name))
			}
			return S(s.Name[o:e])
		}
	}
	// drop whole leading parts of a concatenation
	if ps := catParts(s); len(ps) > 1 || (len(ps) == 1 && ps[0] != s) {
		l0 := Len(ps[0])
		d := Sub(off, l0)
		if nonNeg(d) {
			return Extract(CatS(s.Sort, ps[1:]...), d, n)
		}
		if off.IsInt() && off.Int.Sign() == 0 {
			d := Sub(n, l0)
			if nonNeg(d) {
				return CatS(s.Sort, ps[0], Extract(CatS(s.Sort, ps[1:]...), I(0), d))
			}
		}
		// literal head, concrete offset inside it
		if ps[0].IsStr() && off.IsInt() && off.Int.Sign() > 0 && off.Int.Cmp(big.NewInt(int64(len(ps[0].Name)))) < 0 {
			k := int(off.Int.Int64())
			return Extract(CatS(s.Sort, append([]*Term{S(ps[0].Name[k:])}, ps[1:]...)...), I(0), n)
		}
		if ps[0].IsStr() && off.IsInt() && off.Int.Sign() == 0 && n.IsInt() && n.Int.Cmp(big.NewInt(int64(len(ps[0].Name)))) <= 0 {
			return S(ps[0].Name[:n.Int.Int64()])
		}
		// drop a trailing part exactly cut off: off+n == len(all but last)
		init := CatS(s.Sort, ps[:len(ps)-1]...)
		if e := Sub(Len(init), Add(off, n)); nonNeg(e) {
			return Extract(init, off, n)
		}
		// literal tail cut in the middle
		if lt := ps[len(ps)-1]; lt.IsStr() {
			if e := Sub(Len(s), Add(off, n)); e.IsInt() && e.Int.Sign() > 0 && e.Int.Cmp(big.NewInt(int64(len(lt.Name)))) < 0 {
				k := len(lt.Name) - int(e.Int.Int64())
				ns := CatS(s.Sort, append(append([]*Term{}, ps[:len(ps)-1]...), S(lt.Name[:k]))...)
				return Extract(ns, off, n)
			}
		}
	}
	// nested extract with the same end convention: (s[o1:o1+n1])[off:off+n] when off+n<=n1 syntactically
	if (s.Op == "str.substr" || s.Op == "seq.extract") && nonNeg(off) && nonNeg(Sub(s.Args[2], Add(off, n))) {
		return Extract(s.Args[0], Add(s.Args[1], off), n)
	}
	if s.Sort == StrS {
		return mk("str.substr", "", s.Sort, nil, s, off, n)
	}
	return mk("seq.extract", "", s.Sort, nil, s, off, n)
}

// At: byte code at index (Str) — Int.
func ByteAt(s, i *Term) *Term { return ToCode(CharAt(s, i)) }

func CharAt(s, i *Term) *Term {
	if s.IsStr() && i.IsInt() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return S(s.Name[k : k+1])
		}
		return S("")
	}
	if ps := catParts(s); len(ps) > 1 {
		l0 := Len(ps[0])
		if d := Sub(i, l0); nonNeg(d) {
			return CharAt(CatS(s.Sort, ps[1:]...), d)
		}
		if nonNeg(i) && nonNeg(Sub(Sub(l0, i), I(1))) {
			return CharAt(ps[0], i)
		}
	}
	if s.Op == "str.substr" && nonNeg(i) && nonNeg(Sub(Sub(s.Args[2], i), I(1))) {
		return CharAt(s.Args[0], Add(s.Args[1], i))
	}
	return mk("str.at", "", StrS, nil, s, i)
}

func ToCode(c *Term) *Term {
	if c.IsStr() && len(c.Name) == 1 {
		return I(int64(c.Name[0]))
	}
	if c.Op == "str.from_code" {
		return mk("str.to_code", "", IntS, nil, c)
	}
	return mk("str.to_code", "", IntS, nil, c)
}

func FromCode(n *Term) *Term {
	if n.IsInt() && n.Int.Sign() >= 0 && n.Int.Cmp(big.NewInt(256)) < 0 {
		return S(string([]byte{byte(n.Int.Int64())}))
	}
	if n.Op == "str.to_code" && (n.Args[0].Op == "str.at") {
		return n.Args[0]
	}
	if n.Op == "ite" {
		return Ite(n.Args[0], FromCode(n.Args[1]), FromCode(n.Args[2]))
	}
	return mk("str.from_code", "", StrS, nil, n)
}

func Nth(s, i *Term) *Term {
	if s.Sort == StrS {
		return ByteAt(s, i)
	}
	if ps := catParts(s); len(ps) > 1 {
		l0 := Len(ps[0])
		if d := Sub(i, l0); nonNeg(d) {
			return Nth(CatS(s.Sort, ps[1:]...), d)
		}
		if nonNeg(i) && nonNeg(Sub(Sub(l0, i), I(1))) {
			return Nth(ps[0], i)
		}
	} else if s.Op == "seq.unit" && i.IsInt() && i.Int.Sign() == 0 {
		return s.Args[0]
	}
	if s.Op == "seq.extract" && nonNeg(i) && nonNeg(Sub(Sub(s.Args[2], i), I(1))) {
		return Nth(s.Args[0], Add(s.Args[1], i))
	}
	return mk("seq.nth", "", s.Sort.Elem, nil, s, i)
}

// One element of a sequence-like sort from an element term.
func UnitFor(s *Sort, e *Term) *Term {
	if s == StrS {
		return FromCode(e)
	}
	return Unit(e)
}

func Update(s, i, v *Term) *Term {
	if s.Op == "seq.update" && s.Args[1] == i {
		return Update(s.Args[0], i, v)
	}
	// rewrite into concatenation when the cut points are syntactically clear
	ps := catParts(s)
	if len(ps) > 1 {
		l0 := Len(ps[0])
		if d := Sub(i, l0); nonNeg(d) {
			return CatS(s.Sort, ps[0], Update(CatS(s.Sort, ps[1:]...), d, v))
		}
		if nonNeg(i) && nonNeg(Sub(Sub(l0, i), I(1))) {
			return CatS(s.Sort, append([]*Term{Update(ps[0], i, v)}, ps[1:]...)...)
		}
	}
	if s.IsStr() && i.IsInt() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return Cat(S(s.Name[:k]), FromCode(v), S(s.Name[k+1:]))
		}
	}
	if s.Op == "seq.unit" && i.IsInt() && i.Int.Sign() == 0 {
		return Unit(v)
	}
	return Cat(Extract(s, I(0), i), UnitFor(s.Sort, v), Extract(s, Add(i, I(1)), Sub(Len(s), Add(i, I(1)))))
}

func Prefix(p, s *Term) *Term {
	if p.IsStr() && s.IsStr() {
		return B(strings.HasPrefix(s.Name, p.Name))
	}
	if p.IsStr() && len(p.Name) == 1 {
		if s.Op == "str.substr" && Add(s.Args[1], s.Args[2]) == Len(s.Args[0]) {
			o := s.Args[1]
			return And(Le(I(0), o), Lt(o, Len(s.Args[0])), Eq(ByteAt(s.Args[0], o), I(int64(p.Name[0]))))
		}
		return And(Lt(I(0), Len(s)), Eq(ByteAt(s, I(0)), I(int64(p.Name[0]))))
	}
	if p.Sort == StrS {
		return mk("str.prefixof", "", BoolS, nil, p, s)
	}
	return mk("seq.prefixof", "", BoolS, nil, p, s)
}
func Suffix(p, s *Term) *Term { return mk("str.suffixof", "", BoolS, nil, p, s) }
func Contains(s, p *Term) *Term {
	if p.IsStr() && s.IsStr() {
		return B(strings.Contains(s.Name, p.Name))
	}
	return mk("str.contains", "", BoolS, nil, s, p)
}
func IndexOf(s, p, from *Term) *Term { return mk("str.indexof", "", IntS, nil, s, p, from) }

func Select(a, k *Term) *Term {
	for a.Op == "store" {
		e := Eq(a.Args[1], k)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	return mk("select", "", a.Sort.Elem, nil, a, k)
}
func Store(a, k, v *Term) *Term { return mk("store", "", a.Sort, nil, a, k, v) }

// ---- datatypes

func Ctor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("ctor arity " + s.Name)
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "app" && args[0].Name == s.Fields[0].Name {
		x := args[0].Args[0]
		ok := x.Sort == s
		for i := range args {
			if !(args[i].Op == "app" && args[i].Name == s.Fields[i].Name && args[i].Args[0] == x) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return mk("app", s.Ctor, s, nil, args...)
}

func Field(t *Term, i int) *Term {
	s := t.Sort
	if t.Op == "app" && t.Name == s.Ctor {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Field(t.Args[1], i), Field(t.Args[2], i))
	}
	return mk("app", s.Fields[i].Name, s.Fields[i].Sort, nil, t)
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 0x20 || c > 0x7e:
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtName(n string) string {
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!') {
			return "|" + strings.ReplaceAll(n, "|", "!") + "|"
		}
	}
	return n
}

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, nil)
	return b.String()
}

func (t *Term) print(b *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	t.printTop(b, names)
}

func (t *Term) printTop(b *strings.Builder, names map[*Term]string) {
	switch t.Op {
	case "forall":
		fmt.Fprintf(b, "|forall!%d|", t.id)
	case "bool":
		b.WriteString(t.Name)
	case "int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.Int).String())
		} else {
			b.WriteString(t.Int.String())
		}
	case "str":
		b.WriteString(smtStr(t.Name))
	case "var":
		b.WriteString(smtName(t.Name))
	case "seq.empty":
		fmt.Fprintf(b, "(as seq.empty %s)", t.Sort.Name)
	case "str.in_re":
		b.WriteString("(str.in_re ")
		t.Args[0].print(b, names)
		b.WriteByte(' ')
		b.WriteString(t.Name)
		b.WriteByte(')')
	case "app":
		if len(t.Args) == 0 {
			b.WriteString(smtName(t.Name))
			return
		}
		b.WriteByte('(')
		b.WriteString(smtName(t.Name))
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.print(b, names)
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.print(b, names)
		}
		b.WriteByte(')')
	}
}

// Forall: a universally quantified fact over an integer.  Positive
// occurrences are instantiated at the index terms of a query, negative ones
// are skolemised; anywhere else it is an opaque proposition.
func Forall(f func(k *Term) *Term) *Term {
	q := Var("?q0", IntS)
	b := f(q)
	if b.Op == "bool" {
		return b
	}
	return mk("forall", "", BoolS, nil, q, b)
}

func inst(t, k *Term) *Term { return Subst(t.Args[1], map[*Term]*Term{t.Args[0]: k}) }

// Subst replaces terms (by identity) everywhere, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term { return substMemo(t, m, map[*Term]*Term{}) }

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "str.++", "seq.++":
		return CatS(t.Sort, a...)
	case "str.len", "seq.len":
		return Len(a[0])
	case "str.substr", "seq.extract":
		return Extract(a[0], a[1], a[2])
	case "str.at":
		return CharAt(a[0], a[1])
	case "str.to_code":
		return ToCode(a[0])
	case "str.from_code":
		return FromCode(a[0])
	case "seq.nth":
		return Nth(a[0], a[1])
	case "seq.unit":
		return Unit(a[0])
	case "str.prefixof", "seq.prefixof":
		return Prefix(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "app":
		if t.Sort.Kind == SData && t.Name == t.Sort.Ctor {
			return Ctor(t.Sort, a...)
		}
		if len(a) == 1 && a[0].Sort.Kind == SData {
			for i, f := range a[0].Sort.Fields {
				if f.Name == t.Name {
					return Field(a[0], i)
				}
			}
		}
	}
	return mk(t.Op, t.Name, t.Sort, t.Int, a...)
}
