package main

// Symbolic values, heap objects and their translation to logical terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Scalar struct {
	T *Term
	P *Object // string sharing this memory
}

type SliceV struct {
	Nil *Term
	Obj *Object // backing store; content in State.Heap
	Off *Term
	Len *Term
	Cap *Term // nil = unknown (>= Len)
}

type StructV struct{ F []Val }

// ArrV: fixed array (or array backing a slice) with individually known elements.
type ArrV struct{ E []Val }

type PathElem struct {
	Field int
	Index *Term // nil => field
}

type PtrV struct {
	Obj  *Object
	Path []PathElem
}

// RPtr: pointer through an opaque reference term into the typed field heap.
type RPtr struct {
	Ref  *Term
	Root types.Type
	Path []PathElem
}

type IfaceV struct {
	T types.Type
	V Val
}

type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
}

type BuiltinV struct{ Name string }

type TupleV struct{ V []Val }

// MapV points to an object whose content is a MapC.
type MapV struct {
	Obj *Object
	Ref *Term // non-nil: the map may be nil, namely when Ref is
}

func (m MapV) notNil() *Term {
	if m.Ref == nil {
		return True
	}
	return Ne(m.Ref, NilRef())
}

type MapC struct {
	Has, Val *Term // arrays
	Len      *Term
}

type IterV struct {
	Str  *Term
	Pos  *Object // content Scalar Int
	Map  Val
	Done bool
}

type Object struct {
	ID         int
	Name       string
	Type       types.Type // type of content (pointee) ; for slice backing: element type
	Slice      bool       // slice backing store
	Extern     bool       // allocated by the caller (visible outside)
	Owner      string     // provenance label: "driver" for memory owned by the driver
	RO         bool       // read-only memory (string data)
	Global     bool
	parent     *Object   // appended from (possible in-place alias)
	kids       []*Object // objects derived by append
	frozen     bool
	frozenUse  bool
	derivedLen *Term
}

var (
	objMu sync.Mutex
	objN  int
	objBy = map[string]*Object{}
	fnBy  = map[string]*FuncV{}
	fnN   int
)

func newObject(name string, t types.Type, slice bool) *Object {
	objMu.Lock()
	defer objMu.Unlock()
	objN++
	o := &Object{ID: objN, Name: name, Type: t, Slice: slice}
	objBy[fmt.Sprintf("obj#%d", objN)] = o
	return o
}

func refOf(o *Object) *Term { return Var(fmt.Sprintf("obj#%d", o.ID), RefS) }

var (
	RefS  = NamedS("Ref")
	AnyS  = NamedS("Any")
	FnS   = NamedS("Fn")
	F64S  = NamedS("F64")
	F32S  = NamedS("F32")
	TimeS = NamedS("Time")
)

func NilRef() *Term { return Var("nilref", RefS) }
func AnyNil() *Term { return Var("anynil", AnyS) }
func NilFn() *Term  { return Var("nilfn", FnS) }
func TypeOf(a *Term) *Term {
	if a.Op == "app" && strings.HasPrefix(a.Name, "box!") {
		return I(typeID(a.Name[4:]))
	}
	if a == AnyNil() {
		return I(0)
	}
	return App("typeof", IntS, a)
}
func BoxT(ty string, v *Term) *Term {
	if v.Op == "app" && v.Name == "unbox!"+ty {
		// kept as a box so that typeof stays visible
	}
	return App("box!"+ty, AnyS, v)
}
func UnboxT(ty string, s *Sort, a *Term) *Term {
	if a.Op == "app" && a.Name == "box!"+ty {
		return a.Args[0]
	}
	return App("unbox!"+ty, s, a)
}

func IsNilAny(a *Term) *Term { return Eq(TypeOf(a), I(0)) }

func typeKey(t types.Type) string {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	k = byteWord.ReplaceAllString(k, "${1}uint8${2}")
	k = runeWord.ReplaceAllString(k, "${1}int32${2}")
	if k == "any" {
		k = "interface{}"
	}
	return k
}

var (
	byteWord = regexp.MustCompile(`(^|[\]\*( ])byte($|[^\w./])`)
	runeWord = regexp.MustCompile(`(^|[\]\*( ])rune($|[^\w./])`)
)

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var opaqueStructs = map[string]bool{
	"time.Time": true,
}

// mainPkgs: packages whose struct types are modelled field by field.
var structPkgPrefix = []string{"github.com/si3nloong/sqlgen", "command-line-arguments", "rendered", "govc"}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	for _, pre := range structPkgPrefix {
		if strings.HasPrefix(p, pre) {
			return false
		}
	}
	if p == "github.com/samber/lo" {
		return false
	}
	return true
}

func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func contentSort(elem types.Type) *Sort {
	if isByte(elem) {
		return StrS
	}
	return SeqOf(sortOf(elem))
}

func sliceSort(elem types.Type) *Sort {
	cs := contentSort(elem)
	n := "Sl_" + strings.NewReplacer("(", "", ")", "", " ", "_").Replace(cs.Name)
	return DataS(n, []DField{{n + ".nil", BoolS}, {n + ".c", cs}})
}

var sortBusy sync.Map

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isBuilder(t) {
		return StrS
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Kind() == types.Float32:
			return F32S
		case u.Info()&types.IsFloat != 0:
			return F64S
		case u.Kind() == types.UnsafePointer:
			return RefS
		case u.Kind() == types.UntypedNil:
			return RefS
		}
		return NamedS("B_" + u.Name())
	case *types.Slice:
		return sliceSort(u.Elem())
	case *types.Array:
		return contentSort(u.Elem())
	case *types.Pointer, *types.Map, *types.Chan:
		return RefS
	case *types.Interface:
		return AnyS
	case *types.Signature:
		return FnS
	case *types.Struct:
		k := typeKey(t)
		if isOpaqueStruct(t) {
			if k == "time.Time" {
				return TimeS
			}
			return NamedS("O_" + sanitize(k))
		}
		var fs []DField
		n := "St_" + sanitize(k)
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, DField{fmt.Sprintf("%s.%s", n, sanitize(u.Field(i).Name())+fmt.Sprint(i)), sortOf(u.Field(i).Type())})
		}
		if len(fs) == 0 {
			fs = append(fs, DField{n + ".unit", BoolS})
		}
		return DataS(n, fs)
	case *types.Tuple:
		return NamedS("Tuple")
	}
	panic("sortOf " + t.String())
}

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intWidth(b)
	if bits == 0 {
		return nil, nil, false
	}
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
}

func intWidth(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func InRange(t types.Type, x *Term) *Term {
	lo, hi, ok := intBounds(t)
	if !ok {
		return True
	}
	return And(Le(IB(lo), x), Le(x, IB(hi)))
}

// WrapTo converts a mathematical integer to the Go integer type t.
func WrapTo(t types.Type, x *Term) *Term {
	b := t.Underlying().(*types.Basic)
	bits, signed := intWidth(b)
	if bits == 0 {
		return x
	}
	lo, hi, _ := intBounds(t)
	if x.IsInt() {
		m := pow2(bits)
		r := new(big.Int).Mod(x.Int, m)
		if signed && r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		_ = lo
		return IB(r)
	}
	if l, h, ok := knownRange(x); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	if signed {
		h := IB(pow2(bits - 1))
		return Sub(Mod(Add(x, h), IB(pow2(bits))), h)
	}
	return Mod(x, IB(pow2(bits)))
}

// ---- state

type deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Val
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Defers []deferred
	Ret    ssa.Value                         // value in caller's frame receiving the result
	RetFn  func(x *Exec, st *State, res Val) // native continuation
	ID     int
	Active map[*ssa.BasicBlock]*loopRun // loops being cut in this frame
	depth  int
	Unroll map[*ssa.BasicBlock]int
}

type State struct {
	Frames   []*Frame
	Heap     map[*Object]Val
	H        map[string]*Term
	PC       []*Term
	Ghost    map[string]*Term
	GObj     map[string]map[*Object]bool
	memo     map[*Term]*Object // slice term -> backing object
	Res      map[*Object]bool  // objects moved to the reference heap
	Writes   map[*Object]bool  // recorded writes (dry runs)
	HW       map[string]bool
	GW       map[string]bool
	Trace    []string
	quiet    bool
	lastExec []Val
}

func (s *State) clone() *State {
	n := &State{
		Heap: make(map[*Object]Val, len(s.Heap)), H: make(map[string]*Term, len(s.H)),
		PC: append([]*Term(nil), s.PC...), Ghost: make(map[string]*Term, len(s.Ghost)),
		memo: make(map[*Term]*Object, len(s.memo)), Res: map[*Object]bool{}, Writes: s.Writes, HW: s.HW, GW: s.GW,
		quiet: s.quiet, Trace: append([]string(nil), s.Trace...),
		GObj:     make(map[string]map[*Object]bool, len(s.GObj)),
		lastExec: s.lastExec,
	}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.H {
		n.H[k] = v
	}
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	for k, m := range s.GObj {
		mm := map[*Object]bool{}
		for o, b := range m {
			mm[o] = b
		}
		n.GObj[k] = mm
	}
	for k, v := range s.memo {
		n.memo[k] = v
	}
	for k, v := range s.Res {
		n.Res[k] = v
	}
	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		g := *f
		g.Env = make(map[ssa.Value]Val, len(f.Env))
		for k, v := range f.Env {
			g.Env[k] = v
		}
		g.Defers = append([]deferred(nil), f.Defers...)
		if f.Unroll != nil {
			g.Unroll = make(map[*ssa.BasicBlock]int, len(f.Unroll))
			for k, v := range f.Unroll {
				g.Unroll[k] = v
			}
		}
		g.Active = make(map[*ssa.BasicBlock]*loopRun, len(f.Active))
		for k, v := range f.Active {
			g.Active[k] = v
		}
		n.Frames[i] = &g
	}
	return n
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.PC {
		if p == t {
			return
		}
	}
	s.PC = append(s.PC, t)
}

func (s *State) infeasible() bool {
	for _, p := range s.PC {
		if p == False {
			return true
		}
	}
	return And(s.PC...) == False
}

func (s *State) setHeap(o *Object, v Val) {
	s.Heap[o] = v
	if s.Writes != nil {
		s.Writes[o] = true
	}
}

func (s *State) setGhost(k string, t *Term) {
	s.Ghost[k] = t
	if s.GW != nil {
		s.GW[k] = true
	}
}

// ---- terms <-> values

func (x *Exec) fresh(st *State, name string, t types.Type) Val {
	return x.fromTerm(st, Fresh(name, sortOf(t)), t)
}

// content of a slice value as a term
func (x *Exec) content(st *State, s SliceV) *Term {
	if s.Obj == nil {
		panic("slice without object")
	}
	c := x.objSeq(st, s.Obj)
	return Extract(c, s.Off, s.Len)
}

func (x *Exec) objSeq(st *State, o *Object) *Term {
	switch c := st.Heap[o].(type) {
	case Scalar:
		return c.T
	case ArrV:
		cs := contentSort(o.Type)
		r := Empty(cs)
		for _, e := range c.E {
			r = CatS(cs, r, UnitFor(cs, x.toTerm(st, e, o.Type)))
		}
		return r
	case nil:
		panic("no content for object " + o.Name)
	default:
		panic(fmt.Sprintf("objSeq %T", c))
	}
}

func (x *Exec) newSlice(st *State, name string, elem types.Type, content *Term) SliceV {
	o := newObject(name, elem, true)
	st.Heap[o] = Scalar{T: content}
	return SliceV{Nil: False, Obj: o, Off: I(0), Len: Len(content)}
}

func (x *Exec) nilSlice(st *State, elem types.Type) SliceV {
	s := x.newSlice(st, "nil", elem, Empty(contentSort(elem)))
	s.Nil = True
	s.Cap = I(0)
	return s
}

func (x *Exec) fromTerm(st *State, t *Term, gt types.Type) Val {
	gt = types.Unalias(gt)
	if isBuilder(gt) {
		return Scalar{T: t}
	}
	switch u := gt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && !t.IsInt() {
			st.assume(InRange(gt, t))
		}
		return Scalar{T: t}
	case *types.Slice:
		o := st.memo[t]
		if o == nil {
			o = newObject("slice", u.Elem(), true)
			o.Extern = true
			st.memo[t] = o
			st.Heap[o] = Scalar{T: Field(t, 1)}
			st.assume(Implies(Field(t, 0), Eq(Len(Field(t, 1)), I(0))))
		}
		if _, ok := st.Heap[o]; !ok {
			st.Heap[o] = Scalar{T: Field(t, 1)}
		}
		return SliceV{Nil: Field(t, 0), Obj: o, Off: I(0), Len: Len(Field(t, 1))}
	case *types.Array:
		st.assume(Eq(Len(t), I(u.Len())))
		if u.Len() <= 16 {
			var a ArrV
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, x.fromTerm(st, Nth(t, I(i)), u.Elem()))
			}
			return a
		}
		return Scalar{T: t}
	case *types.Struct:
		if isOpaqueStruct(gt) {
			return Scalar{T: t}
		}
		var s StructV
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.fromTerm(st, Field(t, i), u.Field(i).Type()))
		}
		return s
	case *types.Pointer:
		if o, ok := objBy2(t); ok {
			if st.Res[o] {
				return RPtr{Ref: t, Root: u.Elem()}
			}
			return PtrV{Obj: o}
		}
		return Scalar{T: t}
	case *types.Interface:
		if t.Op == "app" && strings.HasPrefix(t.Name, "box!") {
			if bt := boxedType(t.Name[4:]); bt != nil {
				return IfaceV{T: bt, V: x.fromTerm(st, t.Args[0], bt)}
			}
		}
		return Scalar{T: t}
	case *types.Signature:
		if t.Op == "var" {
			objMu.Lock()
			f := fnBy[t.Name]
			objMu.Unlock()
			if f != nil {
				return *f
			}
		}
		return Scalar{T: t}
	case *types.Map:
		if o, ok := objBy2(t); ok {
			return MapV{Obj: o}
		}
		if t == NilRef() {
			return Scalar{T: t}
		}
		o := st.memo[t]
		if o == nil {
			o = newObject("map", gt, false)
			o.Extern = true
			st.memo[t] = o
			l := Fresh("mlen", IntS)
			st.Heap[o] = MapC{Has: Fresh("mhas", ArrOf(sortOf(u.Key()), BoolS)), Val: Fresh("mval", ArrOf(sortOf(u.Key()), sortOf(u.Elem()))), Len: l}
			st.assume(And(Le(I(0), l), Implies(Eq(t, NilRef()), Eq(l, I(0)))))
		}
		return MapV{Obj: o, Ref: t}
	}
	return Scalar{T: t}
}

func objBy2(t *Term) (*Object, bool) {
	if t.Op != "var" || !strings.HasPrefix(t.Name, "obj#") {
		return nil, false
	}
	objMu.Lock()
	defer objMu.Unlock()
	o, ok := objBy[t.Name]
	return o, ok
}

var boxTypes sync.Map

func boxedType(k string) types.Type {
	if v, ok := boxTypes.Load(k); ok {
		return v.(types.Type)
	}
	return nil
}

func boxVal(t types.Type, v *Term) *Term {
	k := typeKey(t)
	boxTypes.Store(k, t)
	return BoxT(k, v)
}

func (x *Exec) toTerm(st *State, v Val, gt types.Type) *Term {
	gt = types.Unalias(gt)
	switch v := v.(type) {
	case Scalar:
		return v.T
	case SliceV:
		el := gt.Underlying().(*types.Slice).Elem()
		ss := sliceSort(el)
		return Ctor(ss, v.Nil, x.content(st, v))
	case StructV:
		ss := sortOf(gt)
		u := gt.Underlying().(*types.Struct)
		if u.NumFields() == 0 {
			return Ctor(ss, True)
		}
		var fs []*Term
		for i := range v.F {
			fs = append(fs, x.toTerm(st, v.F[i], u.Field(i).Type()))
		}
		return Ctor(ss, fs...)
	case ArrV:
		el := gt.Underlying().(*types.Array).Elem()
		cs := contentSort(el)
		r := Empty(cs)
		for _, e := range v.E {
			r = CatS(cs, r, UnitFor(cs, x.toTerm(st, e, el)))
		}
		return r
	case IfaceV:
		return boxVal(v.T, x.toTerm(st, v.V, v.T))
	case PtrV:
		if len(v.Path) == 0 {
			x.moveToHeap(st, v.Obj)
			return refOf(v.Obj)
		}
		// interior pointer: opaque but distinct identity
		x.moveToHeap(st, v.Obj)
		r := refOf(v.Obj)
		for _, p := range v.Path {
			if p.Index != nil {
				r = App("ielem", RefS, r, p.Index)
			} else {
				r = App(fmt.Sprintf("ifield%d", p.Field), RefS, r)
			}
		}
		return r
	case RPtr:
		r := v.Ref
		for _, p := range v.Path {
			if p.Index != nil {
				r = App("ielem", RefS, r, p.Index)
			} else {
				r = App(fmt.Sprintf("ifield%d", p.Field), RefS, r)
			}
		}
		return r
	case MapV:
		if v.Ref != nil {
			return v.Ref
		}
		return refOf(v.Obj)
	case FuncV:
		objMu.Lock()
		defer objMu.Unlock()
		fnN++
		n := fmt.Sprintf("fn#%d", fnN)
		f := v
		fnBy[n] = &f
		return Var(n, FnS)
	}
	panic(fmt.Sprintf("toTerm %T of %s", v, gt))
}

// moveToHeap makes a local object addressable through opaque references.
func (x *Exec) moveToHeap(st *State, o *Object) {
	if st.Res[o] || o.Slice || o.Type == nil {
		return
	}
	if _, ok := o.Type.Underlying().(*types.Struct); ok && !isOpaqueStruct(o.Type) {
		c, ok := st.Heap[o]
		if !ok {
			return
		}
		st.Res[o] = true
		st.assume(Ne(refOf(o), NilRef()))
		x.rstore(st, RPtr{Ref: refOf(o), Root: o.Type}, o.Type, c)
	}
}

func (x *Exec) zero(st *State, t types.Type) Val {
	t = types.Unalias(t)
	if isBuilder(t) {
		return Scalar{T: S("")}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case BoolS:
			return Scalar{T: False}
		case IntS:
			return Scalar{T: I(0)}
		case StrS:
			return Scalar{T: S("")}
		case F64S:
			return Scalar{T: Var("f64zero", F64S)}
		case F32S:
			return Scalar{T: Var("f32zero", F32S)}
		case RefS:
			return Scalar{T: NilRef()}
		}
		return Scalar{T: Var("zero_"+u.Name(), sortOf(t))}
	case *types.Slice:
		return x.nilSlice(st, u.Elem())
	case *types.Array:
		if u.Len() <= 64 {
			var a ArrV
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, x.zero(st, u.Elem()))
			}
			return a
		}
		return Scalar{T: Fresh("zeroarr", contentSort(u.Elem()))}
	case *types.Pointer, *types.Map, *types.Chan:
		return Scalar{T: NilRef()}
	case *types.Interface:
		return Scalar{T: AnyNil()}
	case *types.Signature:
		return Scalar{T: NilFn()}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return Scalar{T: Var("zero_"+sanitize(typeKey(t)), sortOf(t))}
		}
		var s StructV
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	panic("zero " + t.String())
}

// ---- memory access

func fieldType(t types.Type, p PathElem) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		return u.Field(p.Field).Type()
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	panic("fieldType " + t.String())
}

func (x *Exec) getPath(st *State, v Val, t types.Type, path []PathElem) (Val, types.Type) {
	for _, p := range path {
		if p.Index == nil {
			if s, ok := v.(StructV); ok {
				v = s.F[p.Field]
			} else {
				v = Scalar{T: App("opq."+fmt.Sprint(p.Field), sortOf(fieldType(t, p)), v.(Scalar).T)}
			}
		} else {
			el := fieldType(t, p)
			switch a := v.(type) {
			case ArrV:
				if p.Index.IsInt() && p.Index.Int.IsInt64() && p.Index.Int.Int64() >= 0 && p.Index.Int.Int64() < int64(len(a.E)) {
					v = a.E[p.Index.Int.Int64()]
				} else {
					v = x.fromTerm(st, Nth(x.toTerm(st, a, t), p.Index), el)
				}
			case Scalar:
				v = x.fromTerm(st, Nth(a.T, p.Index), el)
			default:
				panic(fmt.Sprintf("index path on %T", v))
			}
		}
		t = fieldType(t, p)
	}
	return v, t
}

func (x *Exec) setPath(st *State, v Val, t types.Type, path []PathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	ft := fieldType(t, p)
	if p.Index == nil {
		s, ok := v.(StructV)
		if !ok {
			return v
		}
		n := StructV{F: append([]Val(nil), s.F...)}
		n.F[p.Field] = x.setPath(st, s.F[p.Field], ft, path[1:], nv)
		return n
	}
	switch a := v.(type) {
	case ArrV:
		if p.Index.IsInt() && p.Index.Int.Int64() < int64(len(a.E)) {
			n := ArrV{E: append([]Val(nil), a.E...)}
			k := p.Index.Int.Int64()
			n.E[k] = x.setPath(st, a.E[k], ft, path[1:], nv)
			return n
		}
		seq := x.toTerm(st, a, t)
		return x.setPath(st, Scalar{T: seq}, t, path, nv)
	case Scalar:
		inner := nv
		if len(path) > 1 {
			inner = x.setPath(st, x.fromTerm(st, Nth(a.T, p.Index), ft), ft, path[1:], nv)
		}
		return Scalar{T: Update(a.T, p.Index, x.toTerm(st, inner, ft))}
	}
	panic(fmt.Sprintf("setPath on %T", v))
}

// pseudo container type for object content
func objContainer(o *Object) types.Type {
	if o.Slice {
		return types.NewSlice(o.Type)
	}
	return o.Type
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch p := p.(type) {
	case PtrV:
		if st.Res[p.Obj] {
			return x.rload(st, RPtr{Ref: refOf(p.Obj), Root: p.Obj.Type, Path: p.Path}, t)
		}
		c, ok := st.Heap[p.Obj]
		if !ok {
			c = x.fresh(st, p.Obj.Name, objContainer(p.Obj))
			st.Heap[p.Obj] = c
		}
		v, _ := x.getPath(st, c, objContainer(p.Obj), p.Path)
		return v
	case RPtr:
		return x.rload(st, p, t)
	case Scalar:
		return x.rload(st, RPtr{Ref: p.T, Root: t}, t)
	}
	panic(fmt.Sprintf("load through %T", p))
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch p := p.(type) {
	case PtrV:
		for q := p.Obj; q != nil; q = q.parent {
			if q.Slice && st.GObj["stale"][q] {
				x.bail("write to a slice that was joined with another")
			}
		}
		if p.Obj.RO || p.Obj.frozen {
			x.oblige(st, "memory", "no write into read-only/string memory", False)
		}
		if p.Obj.Owner != "" && x.cur != nil && x.cur.NoWriteOwner[p.Obj.Owner] {
			x.oblige(st, "frame", "no write into memory owned by "+p.Obj.Owner, False)
		}
		if st.Res[p.Obj] {
			x.rstore(st, RPtr{Ref: refOf(p.Obj), Root: p.Obj.Type, Path: p.Path}, t, v)
			return
		}
		c, ok := st.Heap[p.Obj]
		if !ok {
			c = x.fresh(st, p.Obj.Name, objContainer(p.Obj))
		}
		st.setHeap(p.Obj, x.setPath(st, c, objContainer(p.Obj), p.Path, v))
		for q := p.Obj.parent; q != nil; q = q.parent {
			// the appended slice may share its backing array with q
			if cc, ok := st.Heap[q]; ok {
				_ = cc
				st.setHeap(q, Scalar{T: Fresh("clobbered", contentSort(q.Type))})
			}
		}
		return
	case RPtr:
		x.rstore(st, p, t, v)
		return
	case Scalar:
		x.rstore(st, RPtr{Ref: p.T, Root: t}, t, v)
		return
	}
	panic(fmt.Sprintf("store through %T", p))
}

// hname names the heap array for a leaf and returns the leaf type and the
// remaining (array index) path.
func hname(root types.Type, path []PathElem) (string, types.Type, []PathElem) {
	n := "H." + sanitize(typeKey(root))
	t := root
	for i, p := range path {
		if p.Index != nil {
			return n, t, path[i:]
		}
		n += fmt.Sprintf(".%s", sanitize(t.Underlying().(*types.Struct).Field(p.Field).Name()))
		t = fieldType(t, p)
	}
	return n, t, nil
}

func (x *Exec) harr(st *State, name string, leaf *Sort) *Term {
	if a, ok := st.H[name]; ok {
		return a
	}
	a := Var(name+"@0", ArrOf(RefS, leaf))
	st.H[name] = a
	return a
}

func (x *Exec) rload(st *State, p RPtr, t types.Type) Val {
	n, lt, rest := hname(p.Root, p.Path)
	if len(rest) == 0 {
		if u, ok := lt.Underlying().(*types.Struct); ok && !isOpaqueStruct(lt) {
			var s StructV
			for i := 0; i < u.NumFields(); i++ {
				s.F = append(s.F, x.rload(st, RPtr{p.Ref, p.Root, append(append([]PathElem(nil), p.Path...), PathElem{Field: i})}, u.Field(i).Type()))
			}
			return s
		}
	}
	a := x.harr(st, n, sortOf(lt))
	v := x.fromTerm(st, Select(a, p.Ref), lt)
	if len(rest) > 0 {
		v, _ = x.getPath(st, v, lt, rest)
	}
	return v
}

func (x *Exec) rstore(st *State, p RPtr, t types.Type, v Val) {
	n, lt, rest := hname(p.Root, p.Path)
	if len(rest) == 0 {
		if u, ok := lt.Underlying().(*types.Struct); ok && !isOpaqueStruct(lt) {
			s, ok := v.(StructV)
			if !ok {
				s = x.fromTerm(st, v.(Scalar).T, lt).(StructV)
			}
			for i := 0; i < u.NumFields(); i++ {
				x.rstore(st, RPtr{p.Ref, p.Root, append(append([]PathElem(nil), p.Path...), PathElem{Field: i})}, u.Field(i).Type(), s.F[i])
			}
			return
		}
	}
	a := x.harr(st, n, sortOf(lt))
	if len(rest) > 0 {
		old := x.fromTerm(st, Select(a, p.Ref), lt)
		v = x.setPath(st, old, lt, rest, v)
	}
	st.H[n] = Store(a, p.Ref, x.toTerm(st, v, lt))
	if st.HW != nil {
		st.HW[n] = true
	}
}

// knownRange: syntactic bounds of an integer term.
func knownRange(t *Term) (lo, hi *big.Int, ok bool) {
	switch {
	case t.IsInt():
		return t.Int, t.Int, true
	case t.Op == "str.to_code":
		return big.NewInt(-1), big.NewInt(255), t.Args[0].Op != "str.at"
	case t.Op == "mod" && t.Args[1].IsInt() && t.Args[1].Int.Sign() > 0:
		return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1)), true
	case t.Op == "ite":
		l1, h1, ok1 := knownRange(t.Args[1])
		l2, h2, ok2 := knownRange(t.Args[2])
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	return nil, nil, false
}

func (st *State) knownRange(t *Term) (lo, hi *big.Int, ok bool) {
	if t.Op == "str.to_code" {
		if v, d := st.decide(Le(I(0), t)); d && v {
			return big.NewInt(0), big.NewInt(255), true
		}
	}
	return knownRange(t)
}
