package main

// Loops: concrete unrolling where every test is decided, otherwise a cut at
// the header with inferred (Houdini) and specified invariants.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	inner  bool // contains another loop
}

type loopRun struct {
	loop *Loop
	dry  bool
	back func(st *State)
}

func (lr *loopRun) onBack(st *State) {
	if lr.back != nil {
		lr.back(st)
	}
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	for h, l := range m {
		for h2 := range m {
			if h2 != h && l.body[h2] {
				l.inner = true
			}
		}
	}
	return m
}

// headerDecided evaluates the pure instructions of the loop header and tells
// whether its branch is decided without the solver.
func (x *Exec) headerDecided(st *State, h *ssa.BasicBlock) bool {
	c := st.clone()
	c.quiet = true
	fr := c.top()
	x.dry++
	defer func() { x.dry-- }()
	for fr.Idx < len(h.Instrs) {
		switch in := h.Instrs[fr.Idx].(type) {
		case *ssa.If:
			t := tm(x.val(c, in.Cond))
			_, ok := c.decide(t)
			return ok
		case *ssa.Jump:
			return false
		case *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Extract:
		case *ssa.Next:
			it, ok := x.val(c, in.Iter).(IterV)
			if !ok || !in.IsString || !it.Str.IsStr() || !tm(c.Heap[it.Pos]).IsInt() {
				return false
			}
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
		out := x.step(c)
		if len(out) != 1 {
			return false
		}
		c = out[0]
		fr = c.top()
		if fr.Block != h {
			return false
		}
	}
	return false
}

// ---- cells and widening

type wid struct {
	all  bool // the whole value is arbitrary
	pos  bool // slice: same backing object, offset and length arbitrary
	kids map[int]*wid
}

func (w *wid) kid(i int) *wid {
	if w.kids == nil {
		w.kids = map[int]*wid{}
	}
	if w.kids[i] == nil {
		w.kids[i] = &wid{}
	}
	return w.kids[i]
}

func pathEq(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff widens w so that value b (at a back edge) is covered given header value h.
func (w *wid) diff(h, b Val) bool {
	if w.all {
		return false
	}
	setAll := func() bool { w.all = true; return true }
	switch h := h.(type) {
	case Scalar:
		if o, ok := b.(Scalar); ok && o.T == h.T {
			return false
		}
		return setAll()
	case StructV:
		o, ok := b.(StructV)
		if !ok || len(o.F) != len(h.F) {
			return setAll()
		}
		ch := false
		for i := range h.F {
			if w.kid(i).diff(h.F[i], o.F[i]) {
				ch = true
			}
		}
		return ch
	case ArrV:
		o, ok := b.(ArrV)
		if !ok || len(o.E) != len(h.E) {
			return setAll()
		}
		ch := false
		for i := range h.E {
			if w.kid(i).diff(h.E[i], o.E[i]) {
				ch = true
			}
		}
		return ch
	case SliceV:
		o, ok := b.(SliceV)
		if !ok {
			return setAll()
		}
		if o.Obj != h.Obj {
			return setAll()
		}
		if w.pos {
			return false
		}
		if o.Off != h.Off || o.Len != h.Len || o.Nil != h.Nil {
			w.pos = true
			return true
		}
		return false
	case PtrV:
		if o, ok := b.(PtrV); ok && o.Obj == h.Obj && pathEq(o.Path, h.Path) {
			return false
		}
		return setAll()
	case RPtr:
		if o, ok := b.(RPtr); ok && o.Ref == h.Ref && pathEq(o.Path, h.Path) {
			return false
		}
		return setAll()
	case IfaceV:
		if o, ok := b.(IfaceV); ok && types.Identical(o.T, h.T) {
			v := &wid{}
			if !v.diff(h.V, o.V) {
				return false
			}
		}
		return setAll()
	case FuncV:
		if o, ok := b.(FuncV); ok && o.Fn == h.Fn && len(o.Binds) == 0 {
			return false
		}
		return setAll()
	case MapV:
		if o, ok := b.(MapV); ok && o.Obj == h.Obj {
			return false
		}
		return setAll()
	case MapC:
		if o, ok := b.(MapC); ok && o.Has == h.Has && o.Val == h.Val && o.Len == h.Len {
			return false
		}
		return setAll()
	case IterV:
		return false
	case nil:
		return false
	}
	panic(fmt.Sprintf("diff %T", h))
}

type leaf struct {
	Name  string
	Type  types.Type
	Cell  string
	Get   func(st *State) Val
	Entry Val
}

type loopInfo struct {
	x      *Exec
	loop   *Loop
	phis   []*ssa.Phi
	depth  int
	entry  *State
	wPhi   []*wid
	wHeap  map[*Object]*wid
	wH     map[string]bool
	wG     map[string]bool
	taints map[*Object]bool
	leaves []leaf
	parent map[*Object]*Object
}

// havoc replaces the widened leaves of v by arbitrary values.
func (li *loopInfo) havoc(st *State, name string, w *wid, v Val, t types.Type, get func(st *State) Val, elemOf bool) Val {
	x := li.x
	if w == nil {
		return v
	}
	addLeaf := func(nv Val, suffix string, g func(st *State) Val) {
		li.leaves = append(li.leaves, leaf{Name: name + suffix, Type: t, Get: g, Entry: g(li.entry)})
	}
	if w.all {
		switch h := v.(type) {
		case SliceV:
			el := t.Underlying().(*types.Slice).Elem()
			o := newObject(name, el, true)
			o.Owner = h.Obj.Owner
			o.Extern = h.Obj.Extern
			c := Fresh(name, contentSort(el))
			st.Heap[o] = Scalar{T: c}
			if st.GObj["tainted"][h.Obj] || li.taints[h.Obj] {
				st.taint(o)
			}
			if h.Nil != True {
				o.parent = h.Obj
			}
			n := Fresh(name+".nil", BoolS)
			st.assume(Implies(n, Eq(Len(c), I(0))))
			r := SliceV{Nil: n, Obj: o, Off: I(0), Len: Len(c)}
			addLeaf(r, "", get)
			return r
		case MapC:
			return MapC{Has: Fresh("mhas", h.Has.Sort), Val: Fresh("mval", h.Val.Sort), Len: Fresh("mlen", IntS)}
		}
		var s *Sort
		if elemOf { // content of a slice backing object
			el := t.Underlying().(*types.Slice).Elem()
			s = contentSort(el)
			nv := Scalar{T: Fresh(name, s)}
			addLeaf(nv, "", get)
			return nv
		}
		s = sortOf(t)
		f := Fresh(name, s)
		nv := x.fromTerm(st, f, t)
		if sc, ok := v.(Scalar); ok && sc.P != nil {
			if n, ok := nv.(Scalar); ok {
				n.P = sc.P
				nv = n
			}
		}
		addLeaf(nv, "", get)
		return nv
	}
	if w.pos {
		s := v.(SliceV)
		s.Off = Fresh(name+".off", IntS)
		s.Len = Fresh(name+".len", IntS)
		s.Nil = Fresh(name+".nil", BoolS)
		if s.Cap != nil {
			s.Cap = nil
		}
		st.assume(And(Le(I(0), s.Off), Le(I(0), s.Len), Le(Add(s.Off, s.Len), Len(x.objSeq(st, s.Obj)))))
		st.assume(Implies(s.Nil, Eq(s.Len, I(0))))
		li.leaves = append(li.leaves, leaf{Name: name, Type: t, Get: get, Entry: get(li.entry)})
		return s
	}
	if len(w.kids) == 0 {
		return v
	}
	var ks []int
	for k := range w.kids {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	switch h := v.(type) {
	case StructV:
		u := t.Underlying().(*types.Struct)
		n := StructV{F: append([]Val(nil), h.F...)}
		for _, k := range ks {
			k := k
			n.F[k] = li.havoc(st, name+"."+u.Field(k).Name(), w.kids[k], h.F[k], u.Field(k).Type(), func(st *State) Val {
				switch s := get(st).(type) {
				case StructV:
					return s.F[k]
				}
				return nil
			}, false)
		}
		return n
	case ArrV:
		var el types.Type
		switch u := t.Underlying().(type) {
		case *types.Array:
			el = u.Elem()
		case *types.Slice:
			el = u.Elem()
		}
		n := ArrV{E: append([]Val(nil), h.E...)}
		for _, k := range ks {
			k := k
			n.E[k] = li.havoc(st, fmt.Sprintf("%s[%d]", name, k), w.kids[k], h.E[k], el, func(st *State) Val {
				if a, ok := get(st).(ArrV); ok && k < len(a.E) {
					return a.E[k]
				}
				return nil
			}, false)
		}
		return n
	}
	return v
}

func (li *loopInfo) header() *State {
	st := li.entry.clone()
	li.leaves = nil
	fr := st.top()
	// heap first: slices with a kept object refer to its content
	var objs []*Object
	for o := range li.wHeap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		o := o
		st.Heap[o] = li.havoc(st, o.Name, li.wHeap[o], li.entry.Heap[o], objContainer(o), func(st *State) Val { return st.Heap[o] }, o.Slice)
		if o.Slice {
			if a, ok := st.Heap[o].(Scalar); ok {
				_ = a
			}
		}
	}
	for _, n := range sortedKeys(li.wH) {
		a := li.x.harr(li.entry, n, nil)
		st.H[n] = Fresh(n, a.Sort)
	}
	for _, g := range sortedKeys(li.wG) {
		g := g
		e := li.entry.Ghost[g]
		if e == nil {
			continue
		}
		st.Ghost[g] = Fresh("ghost_"+g, e.Sort)
		li.leaves = append(li.leaves, leaf{Name: "ghost." + g, Get: func(st *State) Val { return Scalar{T: st.Ghost[g]} }, Entry: Scalar{T: e}})
	}
	for i, p := range li.phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		fr.Env[p] = li.havoc(st, nm, li.wPhi[i], li.entry.top().Env[p], p.Type(), func(st *State) Val { return st.Frames[li.depth].Env[p] }, false)
	}
	for o := range li.taints {
		st.taint(o)
	}
	return st
}

// absorb widens the cells by a back-edge state; true when something changed.
func (li *loopInfo) absorb(h, b *State) bool {
	ch := false
	bf := b.Frames[li.depth]
	for i, p := range li.phis {
		if li.wPhi[i].diff(h.Frames[li.depth].Env[p], bf.Env[p]) {
			ch = true
		}
		// taint/aliasing of widened slices
		if s, ok := bf.Env[p].(SliceV); ok && li.wPhi[i].all {
			li.checkRoots(h, s, h.Frames[li.depth].Env[p])
		}
	}
	for o, hv := range h.Heap {
		bv, ok := b.Heap[o]
		if !ok {
			continue
		}
		if _, pre := li.entry.Heap[o]; !pre {
			continue
		}
		w := li.wHeap[o]
		if w == nil {
			w = &wid{}
		}
		if w.diff(hv, bv) {
			ch = true
			li.wHeap[o] = w
		}
	}
	for o, bv := range b.Heap {
		if _, pre := h.Heap[o]; pre {
			continue
		}
		if o.Global {
			// materialise at entry and start over
			for g, go_ := range li.x.globals {
				if go_ == o {
					li.entry.Heap[o] = li.x.globalInit(li.entry, g)
					ch = true
				}
			}
			continue
		}
		if o.Extern && o.Slice {
			for t, mo := range b.memo {
				if mo == o && t.Sort.Kind == SData && len(t.Sort.Fields) == 2 {
					if sc, ok := bv.(Scalar); !ok || sc.T != Field(t, 1) {
						li.x.bail("loop writes to memory first reached inside the loop (%s)", o.Name)
					}
				}
			}
		}
	}
	for n, t := range b.H {
		e := li.x.harrEntry(h, n, t.Sort)
		if e != t && !li.wH[n] {
			li.wH[n] = true
			if _, ok := li.entry.H[n]; !ok {
				li.entry.H[n] = Var(n+"@0", t.Sort)
			}
			ch = true
		}
	}
	for g, t := range b.Ghost {
		if h.Ghost[g] != t && !li.wG[g] {
			if li.entry.Ghost[g] == nil {
				continue
			}
			li.wG[g] = true
			ch = true
		}
	}
	for o := range b.Res {
		if _, pre := li.entry.Heap[o]; pre && !li.entry.Res[o] {
			li.x.moveToHeap(li.entry, o)
			ch = true
		}
	}
	for o := range b.GObj["tainted"] {
		if _, pre := li.entry.Heap[o]; pre && !li.taints[o] && !li.entry.GObj["tainted"][o] {
			li.taints[o] = true
			ch = true
		}
		// a widened slice cell whose new object is tainted taints the entry object
		for i, p := range li.phis {
			if s, ok := bf.Env[p].(SliceV); ok && s.Obj == o && li.wPhi[i].all {
				if e, ok := li.entry.top().Env[p].(SliceV); ok && !li.taints[e.Obj] {
					li.taints[e.Obj] = true
					ch = true
				}
			}
		}
	}
	return ch
}

// checkRoots: a widened slice variable may only share memory with the object
// it started from (or memory allocated in the loop).
func (li *loopInfo) checkRoots(h *State, s SliceV, hv Val) {
	hs, ok := hv.(SliceV)
	if !ok {
		return
	}
	for q := s.Obj; q != nil; q = q.parent {
		if q == hs.Obj {
			return
		}
		if _, pre := li.entry.Heap[q]; pre {
			if e, ok := li.entry.top().Env[nil].(SliceV); ok && e.Obj == q {
				return
			}
			for _, p := range li.phis {
				if e, ok := li.entry.top().Env[p].(SliceV); ok && e.Obj == q {
					return
				}
			}
			if q.Name == "nil" {
				return
			}
			li.x.note("loop variable may come to share memory with %s", q.Name)
			return
		}
	}
}

func (x *Exec) harrEntry(st *State, name string, s *Sort) *Term {
	if a, ok := st.H[name]; ok {
		return a
	}
	return Var(name+"@0", s)
}

// LoopCtx is what invariant templates see.
type LoopCtx struct {
	X     *Exec
	Li    *loopInfo
	Entry *State
	Fn    *ssa.Function
	cands []cand
}

type cand struct {
	ix   int
	key  string
	name string
	spec bool
	f    func(st *State) *Term
}

func (lc *LoopCtx) Add(name string, f func(st *State) *Term) {
	lc.cands = append(lc.cands, cand{name: name, spec: true, f: f, ix: len(lc.cands)})
}

// Ints lists the integer loop variables (accessors).
func (lc *LoopCtx) Ints() (out []func(st *State) *Term) {
	for _, l := range lc.Li.leaves {
		l := l
		switch e := l.Entry.(type) {
		case Scalar:
			if e.T.Sort == IntS {
				if e.T == I(-1) || l.Name == "rangeindex" {
					// index of a range loop: number of completed iterations
					out = append(out, func(st *State) *Term {
						if t := tmOr(l.Get(st)); t != nil {
							return Add(t, I(1))
						}
						return nil
					})
					continue
				}
				out = append(out, func(st *State) *Term { return tmOr(l.Get(st)) })
			}
		}
	}
	return
}

func tmOr(v Val) *Term {
	if s, ok := v.(Scalar); ok {
		return s.T
	}
	return nil
}

// Strs lists the string-valued loop variables and byte-slice contents.
func (lc *LoopCtx) Strs() (out []func(st *State) *Term) { return lc.Seqs(StrS) }

// Seqs lists loop variables of a sequence sort (slices by content).
func (lc *LoopCtx) Seqs(s *Sort) (out []func(st *State) *Term) {
	x := lc.X
	for _, l := range lc.Li.leaves {
		l := l
		switch e := l.Entry.(type) {
		case Scalar:
			if e.T.Sort == s {
				out = append(out, func(st *State) *Term { return tmOr(l.Get(st)) })
			}
		case ArrV:
			if sl, ok := l.Type.Underlying().(*types.Slice); ok && contentSort(sl.Elem()) == s {
				out = append(out, func(st *State) *Term {
					switch v := l.Get(st).(type) {
					case Scalar:
						return v.T
					case ArrV:
						r := Empty(s)
						for _, e := range v.E {
							r = CatS(s, r, UnitFor(s, x.toTerm(st, e, sl.Elem())))
						}
						return r
					}
					return nil
				})
			}
		case SliceV:
			if contentSort(e.Obj.Type) == s {
				out = append(out, func(st *State) *Term {
					v, ok := l.Get(st).(SliceV)
					if !ok {
						return nil
					}
					return x.content(st, v)
				})
			}
		}
	}
	return
}

// Maps lists the key sets of the maps with such keys that the loop updates.
func (lc *LoopCtx) Maps(key *Sort) (out []func(st *State) *Term) {
	for o := range lc.Li.wHeap {
		if m, ok := lc.Entry.Heap[o].(MapC); ok && m.Has.Sort == ArrOf(key, BoolS) {
			out = append(out, func(st *State) *Term {
				if m, ok := st.Heap[o].(MapC); ok {
					return m.Has
				}
				return nil
			})
		}
	}
	return
}

// Slices lists the slice-valued loop variables.
func (lc *LoopCtx) Slices() (out []func(st *State) (SliceV, bool)) {
	for _, l := range lc.Li.leaves {
		l := l
		if _, ok := l.Entry.(SliceV); ok {
			out = append(out, func(st *State) (SliceV, bool) { v, ok := l.Get(st).(SliceV); return v, ok })
		}
	}
	return
}

func (li *loopInfo) defaults(h *State) []cand {
	x := li.x
	var cs []cand
	add := func(n string, f func(st *State) *Term) { cs = append(cs, cand{name: n, f: f}) }
	type iv struct {
		name  string
		get   func(st *State) *Term
		entry *Term
	}
	var ints []iv
	for _, l := range li.leaves {
		l := l
		switch e := l.Entry.(type) {
		case Scalar:
			if e.T.Sort == IntS {
				ints = append(ints, iv{l.Name, func(st *State) *Term { return tmOr(l.Get(st)) }, e.T})
			}
			if e.T.Sort == StrS {
				ints = append(ints, iv{"len(" + l.Name + ")", func(st *State) *Term { return lenOr(tmOr(l.Get(st))) }, Len(e.T)})
			}
			if e.T.Sort == BoolS {
				add(l.Name+" unchanged", func(st *State) *Term { return eqOr(tmOr(l.Get(st)), e.T) })
			}
			if e.T.Sort == AnyS {
				add(l.Name+" nil", func(st *State) *Term {
					v := l.Get(st)
					if n, ok := isNilVal(v); ok {
						return n
					}
					return nil
				})
			}
			if e.T.Sort.Kind == SSeq {
				ints = append(ints, iv{"len(" + l.Name + ")", func(st *State) *Term {
					switch v := l.Get(st).(type) {
					case Scalar:
						return Len(v.T)
					case ArrV:
						return I(int64(len(v.E)))
					}
					return nil
				}, Len(e.T)})
			}
		case ArrV:
			add("len("+l.Name+") unchanged", func(st *State) *Term {
				switch v := l.Get(st).(type) {
				case Scalar:
					return Eq(Len(v.T), I(int64(len(e.E))))
				case ArrV:
					return Eq(I(int64(len(v.E))), I(int64(len(e.E))))
				}
				return nil
			})
		case SliceV:
			ints = append(ints, iv{"len(" + l.Name + ")", func(st *State) *Term {
				if s, ok := l.Get(st).(SliceV); ok {
					return s.Len
				}
				return nil
			}, e.Len})
			if hv, ok := l.Get(h).(SliceV); ok && hv.Off != I(0) {
				ints = append(ints, iv{"off(" + l.Name + ")", func(st *State) *Term {
					if s, ok := l.Get(st).(SliceV); ok {
						return s.Off
					}
					return nil
				}, e.Off})
			}
			add(l.Name+" nilness unchanged", func(st *State) *Term {
				if s, ok := l.Get(st).(SliceV); ok {
					return Eq(s.Nil, e.Nil)
				}
				return nil
			})
			add(l.Name+" not nil", func(st *State) *Term {
				if s, ok := l.Get(st).(SliceV); ok {
					return Not(s.Nil)
				}
				return nil
			})
		}
	}
	// bounds available in the frame
	bounds := map[*Term]string{}
	var bl []*Term
	fresh := map[*Term]bool{}
	for _, i := range ints {
		if t := i.get(h); t != nil {
			fresh[t] = true
		}
	}
	addB := func(t *Term, n string) {
		if t == nil || t.IsInt() || fresh[t] || bounds[t] != "" || len(bl) > 14 {
			return
		}
		bounds[t] = n
		bl = append(bl, t)
	}
	fr := h.Frames[li.depth]
	var names []ssa.Value
	for v := range fr.Env {
		if in, ok := v.(ssa.Instruction); ok {
			if b := in.Block(); b == li.loop.header || !b.Dominates(li.loop.header) {
				continue // a leftover of an earlier path
			}
		}
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		switch e := fr.Env[v].(type) {
		case SliceV:
			addB(e.Len, "len("+v.Name()+")")
		case Scalar:
			if e.T.Sort == StrS {
				addB(Len(e.T), "len("+v.Name()+")")
			}
			if e.T.Sort == IntS {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					addB(e.T, v.Name())
				}
			}
		case PtrV:
			if len(e.Path) == 0 && !h.Res[e.Obj] {
				if c, ok := h.Heap[e.Obj].(SliceV); ok {
					addB(c.Len, "len(*"+v.Name()+")")
				}
			}
		}
	}
	for _, i := range ints {
		i := i
		add(i.name+" >= start", func(st *State) *Term { return leOr(i.entry, i.get(st)) })
		add(i.name+" <= start", func(st *State) *Term { return leOr(i.get(st), i.entry) })
		add(i.name+" == start", func(st *State) *Term { return eqOr(i.get(st), i.entry) })
		for _, k := range []int64{-1, 0, 1} {
			k := k
			add(fmt.Sprintf("%s >= %d", i.name, k), func(st *State) *Term { return leOr(I(k), i.get(st)) })
		}
		for _, b := range bl {
			b := b
			add(i.name+" <= "+bounds[b], func(st *State) *Term { return leOr(i.get(st), b) })
			add(i.name+" < "+bounds[b], func(st *State) *Term {
				if t := i.get(st); t != nil {
					return Lt(t, b)
				}
				return nil
			})
		}
		for _, j := range ints {
			j := j
			if i.name == j.name {
				continue
			}
			if i.name < j.name {
				d := Sub(i.entry, j.entry)
				add(i.name+" and "+j.name+" in step", func(st *State) *Term {
					a, b := i.get(st), j.get(st)
					if a == nil || b == nil {
						return nil
					}
					return Eq(Sub(a, b), d)
				})
				sm := Add(i.entry, j.entry)
				add(i.name+" and "+j.name+" opposed", func(st *State) *Term {
					a, b := i.get(st), j.get(st)
					if a == nil || b == nil {
						return nil
					}
					return Eq(Add(a, b), sm)
				})
			}
			add(i.name+" <= "+j.name, func(st *State) *Term {
				a, b := i.get(st), j.get(st)
				if a == nil || b == nil {
					return nil
				}
				return Le(a, b)
			})
		}
	}
	_ = x
	return cs
}

func lenOr(t *Term) *Term {
	if t == nil || !isSeqLike(t.Sort) {
		return nil
	}
	return Len(t)
}
func leOr(a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	return Le(a, b)
}
func eqOr(a, b *Term) *Term {
	if a == nil || b == nil || a.Sort != b.Sort {
		return nil
	}
	return Eq(a, b)
}

func (x *Exec) enterLoop(st *State, loop *Loop, phis []*ssa.Phi) []*State {
	fr := st.top()
	if fr.Unroll == nil {
		fr.Unroll = map[*ssa.BasicBlock]int{}
	}
	if fr.Unroll[loop.header] < 200 && x.headerDecided(st, loop.header) {
		fr.Unroll[loop.header]++
		return []*State{st}
	}
	if k := x.cur.Unroll; k > 0 && fr.Unroll[loop.header] < k {
		fr.Unroll[loop.header]++
		return []*State{st}
	}
	li := &loopInfo{x: x, loop: loop, phis: phis, depth: len(st.Frames) - 1, entry: st,
		wHeap: map[*Object]*wid{}, wH: map[string]bool{}, wG: map[string]bool{}, taints: map[*Object]bool{}}
	for range phis {
		li.wPhi = append(li.wPhi, &wid{})
	}
	t0, q0 := time.Now(), atomic.LoadInt64(&stats.Queries)
	if os.Getenv("GOVC_PROF") != "" {
		defer func() {
			fmt.Fprintf(os.Stderr, "prof %s block %d dry=%d shape=%d: %d queries %.1fs\n", fr.Fn.Name(), loop.header.Index, x.dry, x.shape, atomic.LoadInt64(&stats.Queries)-q0, time.Since(t0).Seconds())
		}()
	}
	type back struct{ st *State }
	runBody := func(h *State) []*State {
		var mu sync.Mutex
		var backs []*State
		c := h.clone()
		lr := &loopRun{loop: loop, dry: true, back: func(st *State) {
			mu.Lock()
			backs = append(backs, st)
			mu.Unlock()
		}}
		c.Frames[li.depth].Active[loop.header] = lr
		x.dry++
		sv := x.nested
		x.nested++
		x.run([]*State{c})
		x.nested = sv
		x.dry--
		return backs
	}
	var h *State
	var backs []*State
	for round := 0; ; round++ {
		if round > 12 {
			x.bail("loop widening does not settle in %s", fr.Fn)
		}
		h = li.header()
		x.shape++
		backs = runBody(h)
		x.shape--
		ch := false
		for _, b := range backs {
			if li.absorb(h, b) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	if len(backs) == 0 {
		// never comes back: no cut needed
		fr.Unroll[loop.header]++
		return []*State{st}
	}
	if x.shape > 0 {
		// an enclosing loop only looks for what its body writes
		lr := &loopRun{loop: loop, back: func(b *State) {}}
		h.top().Active[loop.header] = lr
		return []*State{h}
	}
	if !x.cur.OwnInv {
		backs = runBody(h)
	}
	for _, b := range backs {
		if li.absorb(h, b) {
			x.bail("loop shape does not settle in %s", fr.Fn)
		}
	}
	// candidates
	lc := &LoopCtx{X: x, Li: li, Entry: st, Fn: fr.Fn}
	if x.cur.Inv != nil {
		x.cur.Inv(lc)
	}
	cs := lc.cands
	if !x.cur.OwnInv {
		cs = append(cs, li.defaults(h)...)
	}
	// hold at entry
	var live []cand
	seen := map[*Term]bool{}
	{
		type ent struct {
			c  cand
			t  *Term
			ok bool
		}
		var es []*ent
		for _, c := range cs {
			ht := c.f(h)
			if ht == nil || ht == True || seen[ht] {
				continue
			}
			t := c.f(st)
			if t == nil || t == False {
				continue
			}
			seen[ht] = true
			es = append(es, &ent{c: c, t: t})
		}
		var ts []*Term
		var specs []bool
		for _, e := range es {
			ts = append(ts, e.t)
			specs = append(specs, e.c.spec)
		}
		for i, ok := range x.proveEach(st.PC, ts, specs) {
			es[i].ok = ok
		}
		for _, e := range es {
			if e.ok {
				live = append(live, e.c)
			} else if e.c.spec && os.Getenv("GOVC_INV") != "" {
				fmt.Fprintf(os.Stderr, "inv false at entry (%s): %s\n    goal %v\n", fr.Fn.Name(), e.c.name, e.t)
			}
		}
	}
	houdini := func(h *State, backs []*State, live []cand) []cand {
		for {
			var invs []*Term
			for _, c := range live {
				invs = append(invs, c.f(h))
			}
			bad := make([]bool, len(live))
			var mu sync.Mutex
			parallel(len(backs), func(k int) {
				b := backs[k]
				var ts []*Term
				var specs []bool
				var ix []int
				mu.Lock()
				for i, c := range live {
					if bad[i] {
						continue
					}
					t := c.f(b)
					if t == nil {
						bad[i] = true
						continue
					}
					ts, specs, ix = append(ts, t), append(specs, c.spec), append(ix, i)
				}
				mu.Unlock()
				for i, ok := range x.proveEach(append(append([]*Term(nil), b.PC...), invs...), ts, specs) {
					if ok {
						continue
					}
					if c := live[ix[i]]; os.Getenv("GOVC_INV") != "" && c.spec {
						fmt.Fprintf(os.Stderr, "inv dropped (%s): %s\n    goal %v\n", fr.Fn.Name(), c.name, ts[i])
						if os.Getenv("GOVC_INV") == "2" {
							for _, p := range b.PC {
								fmt.Fprintf(os.Stderr, "       pc %v\n", p)
							}
						}
					}
					mu.Lock()
					bad[ix[i]] = true
					mu.Unlock()
				}
			})
			var nl []cand
			for i, c := range live {
				if !bad[i] {
					nl = append(nl, c)
				}
			}
			if len(nl) == len(live) {
				return nl
			}
			live = nl
		}
	}
	var proved []cand
	if x.cur.OwnInv {
		// greatest fixpoint: the body is run under all candidates still alive
		key := fmt.Sprintf("%s %d %d %s", fr.Fn, loop.header.Index, len(cs), leafNames(li))
		for _, l := range li.leaves { // a loop whose first round was run on its own is another loop
			if t := tmOr(l.Entry); t != nil && t.IsInt() {
				key += " " + t.Int.String()
			}
		}
		for i := range live {
			live[i].key = fmt.Sprintf("%s %d", live[i].name, nameIdx(cs, live[i].name, live[i].ix))
		}
		var keep []cand
		for _, c := range live {
			if x.cur.NoMemo || !x.dropped[key+"|"+c.key] {
				keep = append(keep, c)
			}
		}
		live = keep
		for proved = live; ; {
			h2 := h.clone()
			for _, c := range proved {
				h2.assume(c.f(h2))
			}
			backs = runBody(h2)
			for _, b := range backs {
				if li.absorb(h, b) {
					x.bail("loop shape does not settle in %s", fr.Fn)
				}
			}
			p2 := houdini(h2, backs, proved)
			if len(p2) == len(proved) {
				break
			}
			in := map[string]bool{}
			for _, c := range p2 {
				in[c.key] = true
			}
			for _, c := range proved {
				if !in[c.key] {
					x.dropped[key+"|"+c.key] = true
				}
			}
			proved = p2
		}
	} else {
		proved = houdini(h, backs, live)
	}
	if x.cur.OwnInv {
	} else if loop.inner || x.cur.InvRounds > 0 {
		for r := 0; r < 2; r++ {
			if len(proved) == len(live) {
				break
			}
			h2 := h.clone()
			for _, c := range proved {
				h2.assume(c.f(h2))
			}
			backs = runBody(h2)
			p2 := houdini(h2, backs, live)
			if len(p2) <= len(proved) {
				break
			}
			proved = p2
		}
	}
	if x.dry == 0 {
		x.loopsN++
		x.invs[fr.Fn.Name()] += len(proved)
		x.invObls += len(proved) * (1 + len(backs))
		if os.Getenv("GOVC_INV") != "" {
			fmt.Fprintf(os.Stderr, "loop in %s block %d: %d back edges, leaves %s\n", fr.Fn.Name(), loop.header.Index, len(backs), leafNames(li))
			for _, c := range proved {
				fmt.Fprintf(os.Stderr, "   inv %s\n", c.name)
			}
			for _, c := range live {
				ok := false
				for _, p := range proved {
					if p.name == c.name {
						ok = true
					}
				}
				if !ok && c.spec {
					fmt.Fprintf(os.Stderr, "   NOT %s\n", c.name)
				}
			}
		}
	}
	for _, c := range proved {
		h.assume(c.f(h))
	}
	entryG := st.GObj
	lr := &loopRun{loop: loop, dry: x.dry > 0 && false, back: func(b *State) {
		for _, k := range []string{"released", "owned"} {
			for o := range entryG[k] {
				if b.GObj[k][o] != entryG[k][o] {
					x.oblige(b, "pool", "pool ownership is the same after each iteration", False)
				}
			}
			for o := range b.GObj[k] {
				if _, pre := st.Heap[o]; pre && b.GObj[k][o] != entryG[k][o] {
					x.oblige(b, "pool", "pool ownership is the same after each iteration", False)
				}
			}
		}
	}}
	h.top().Active[loop.header] = lr
	return []*State{h}
}

func leafNames(li *loopInfo) string {
	var s []string
	for _, l := range li.leaves {
		s = append(s, l.Name)
	}
	return strings.Join(s, ",")
}

// proveEach tells which goals follow from pc.  Goals a model of pc falsifies
// are dropped together; what no model falsifies is proved together, or one by
// one where the solver cannot do that.
func (x *Exec) proveEach(pc, goals []*Term, spec []bool) []bool {
	ok := make([]bool, len(goals))
	var live []int
	for i, g := range goals {
		switch g {
		case True:
			ok[i] = true
		case False:
		default:
			live = append(live, i)
		}
	}
	for round := 0; len(live) > 1 && round < 40 && os.Getenv("GOVC_NOBATCH") == ""; round++ {
		var gs []*Term
		for _, i := range live {
			gs = append(gs, goals[i])
		}
		st, falsified := x.th.CheckAll(pc, gs)
		if st == "unsat" {
			for _, i := range live {
				ok[i] = true
			}
			return ok
		}
		if st != "sat" {
			if falsified != nil { // what the ground stage refuted
				var rest []int
				for k, i := range live {
					if falsified[k] {
						ok[i] = true
					} else {
						rest = append(rest, i)
					}
				}
				live = rest
			}
			break
		}
		var rest []int
		for k, i := range live {
			if !falsified[k] {
				rest = append(rest, i)
			}
		}
		if len(rest) == len(live) {
			break
		}
		live = rest
	}
	parallel(len(live), func(k int) {
		i := live[k]
		ok[i] = x.prove(pc, goals[i], !spec[i])
	})
	return ok
}

// prove tells whether pc |= goal.
func (x *Exec) prove(pc []*Term, goal *Term, quick bool) bool {
	if goal == True {
		return true
	}
	r := x.th.Check(append(append([]*Term(nil), pc...), Not(goal)), nil, quick, false)
	return r.Status == "unsat"
}

func parallel(n int, f func(i int)) {
	if n == 0 {
		return
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	w := 8
	if n < w {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func nameIdx(cs []cand, name string, ix int) (n int) {
	for _, c := range cs {
		if c.name == name && c.ix < ix {
			n++
		}
	}
	return
}
