package main

// Joining the two sides of a branch again where they meet, instead of
// carrying both to the end of the function (Spec.Merge).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ipdom: the block every way to a return passes next, or nil.
func (e *Engine) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	e.mu.Lock()
	defer e.mu.Unlock()
	fn := b.Parent()
	m, ok := e.pdoms[fn]
	if !ok {
		m = postDoms(fn)
		e.pdoms[fn] = m
	}
	return m[b]
}

func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// pd[i]: set of blocks on every way from i to a return
	pd := make([]map[int]bool, n)
	exit := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}
	for i, b := range fn.Blocks {
		if exit(b) {
			pd[i] = map[int]bool{i: true}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if exit(b) {
				continue
			}
			var m map[int]bool
			for _, s := range b.Succs {
				q := pd[s.Index]
				if q == nil {
					continue // no way to a return known from there
				}
				if m == nil {
					m = map[int]bool{}
					for k := range q {
						m[k] = true
					}
					continue
				}
				for k := range m {
					if !q[k] {
						delete(m, k)
					}
				}
			}
			if m == nil {
				continue
			}
			m[i] = true
			if pd[i] == nil || len(pd[i]) != len(m) {
				pd[i], ch = m, true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		for k := range pd[i] {
			// the nearest: the one that all the others post-dominate
			if k != i && len(pd[k]) == len(pd[i])-1 {
				out[b] = fn.Blocks[k]
			}
		}
	}
	return out
}

// meet: where the sides of the branch ending b may be joined.
func (x *Exec) meet(b *ssa.BasicBlock) *ssa.BasicBlock {
	j := x.eng.ipdom(b)
	if j == nil || x.eng.loopAt(j) != nil {
		return nil
	}
	x.eng.loopAt(b)
	for _, l := range x.eng.loops[b.Parent()] {
		if l.body[b] != l.body[j] {
			return nil
		}
	}
	return j
}

// runTo runs st until its frame reaches j; other ends (returns of the frame)
// do not occur before j.
func (x *Exec) runTo(work []*State, depth, id int, j *ssa.BasicBlock) (out []*State) {
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(st.Frames) == depth && st.top().ID == id && st.top().Block == j {
				out = append(out, st)
				break
			}
			x.steps++
			if x.steps > 4000000 {
				x.bail("step limit")
			}
			next := x.step(st)
			if len(next) == 1 {
				st = next[0]
				continue
			}
			if len(next) > 1 {
				x.paths += len(next) - 1
				if x.paths > 20000 {
					x.bail("path limit")
				}
			}
			work = append(work, next...)
			break
		}
	}
	return
}

type mergeFail struct{ why string }

// join merges a (where c holds) and b (where it does not), both grown from a
// state with n assumptions.
func (x *Exec) join(a, b *State, c *Term, n int) (m *State, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			f, is := r.(mergeFail)
			if !is {
				panic(r)
			}
			x.note("branches kept apart: %s", f.why)
			m, ok = nil, false
		}
	}()
	fail := func(why string) { panic(mergeFail{why}) }
	if len(a.Frames) != len(b.Frames) || len(a.PC) < n || len(b.PC) < n {
		fail("frames")
	}
	for i := 0; i < n; i++ {
		if a.PC[i] != b.PC[i] {
			fail("assumptions")
		}
	}
	a, b = a.clone(), b.clone()
	for o := range a.Res {
		x.moveAny(b, o)
	}
	for o := range b.Res {
		x.moveAny(a, o)
	}
	for i, f := range a.Frames {
		g := b.Frames[i]
		if f.ID != g.ID || len(f.Defers) != len(g.Defers) || len(f.Active) != len(g.Active) || i < len(a.Frames)-1 && (f.Block != g.Block || f.Idx != g.Idx) {
			fail("frames")
		}
	}
	m = a.clone()
	mg := &merger{x: x, a: a, b: b, m: m, c: c, fail: fail}
	for i, f := range m.Frames {
		for k, v := range f.Env {
			w, ok := b.Frames[i].Env[k]
			if !ok {
				if i == len(m.Frames)-1 {
					delete(f.Env, k) // not visible at the meeting point
				}
				continue
			}
			f.Env[k] = mg.val(v, w, k.Type())
		}
	}
	done := map[*Object]bool{}
	for ch := true; ch; { // merging may move objects to the reference heap
		ch = false
		for o, w := range b.Heap {
			if done[o] {
				continue
			}
			done[o], ch = true, true
			v, ok := a.Heap[o]
			if !ok {
				m.Heap[o] = w
				continue
			}
			if m.Res[o] {
				continue
			}
			if _, dup := m.Heap[o]; dup {
				t := o.Type
				if o.Slice {
					m.Heap[o] = mg.content(v, w)
					continue
				}
				m.Heap[o] = mg.val(v, w, t)
			}
		}
	}
	hs := map[string]bool{}
	for k := range a.H {
		hs[k] = true
	}
	for k := range b.H {
		hs[k] = true
	}
	for k := range hs {
		p, q := a.H[k], b.H[k]
		if p == nil {
			p = Var(k+"@0", q.Sort)
		}
		if q == nil {
			q = Var(k+"@0", p.Sort)
		}
		m.H[k] = Ite(c, p, q)
	}
	for k, v := range a.Ghost {
		w, ok := b.Ghost[k]
		if !ok {
			fail("ghost " + k)
		}
		m.Ghost[k] = Ite(c, v, w)
	}
	if len(b.Ghost) != len(a.Ghost) {
		fail("ghost")
	}
	for k, v := range b.GObj {
		for o, t := range v {
			if a.GObj[k][o] != t {
				if k != "stale" && (a.Heap[o] != nil || t) {
					fail("ghost " + k)
				}
				if m.GObj[k] == nil {
					m.GObj[k] = map[*Object]bool{}
				}
				m.GObj[k][o] = t
			}
		}
	}
	for k, v := range a.GObj {
		for o, t := range v {
			if b.GObj[k][o] != t && k != "stale" && (b.Heap[o] != nil || t) {
				fail("ghost " + k)
			}
		}
	}
	for k, o := range b.memo {
		if p, ok := m.memo[k]; ok && p != o {
			fail("two views of a slice")
		}
		m.memo[k] = o
	}
	// assumptions
	m.PC = append([]*Term(nil), a.PC[:n]...)
	for _, p := range a.PC[n:] {
		m.assume(Implies(c, p))
	}
	for _, p := range b.PC[n:] {
		m.assume(Implies(Not(c), p))
	}
	for _, p := range mg.extra {
		m.assume(p)
	}
	return m, true
}

type merger struct {
	x       *Exec
	a, b, m *State
	c       *Term
	fail    func(string)
	extra   []*Term
}

func (g *merger) content(v, w Val) Val {
	if p, ok := v.(Scalar); ok {
		if q, ok := w.(Scalar); ok {
			if p.T.Sort != q.T.Sort {
				g.fail("contents")
			}
			return Scalar{T: Ite(g.c, p.T, q.T), P: p.P}
		}
	}
	return g.val(v, w, nil)
}

func (g *merger) stale(o *Object) {
	if g.m.GObj["stale"] == nil {
		g.m.GObj["stale"] = map[*Object]bool{}
	}
	g.m.GObj["stale"][o] = true
}

func (g *merger) ref(v Val) (*Term, bool) {
	switch v := v.(type) {
	case PtrV:
		if len(v.Path) > 0 {
			return nil, false
		}
		if !g.a.Res[v.Obj] || !g.b.Res[v.Obj] {
			g.x.moveAny(g.a, v.Obj)
			g.x.moveAny(g.b, v.Obj)
			g.m.Res[v.Obj] = true
			g.extra = append(g.extra, Ne(refOf(v.Obj), NilRef()))
		}
		return refOf(v.Obj), true
	case RPtr:
		if len(v.Path) > 0 {
			return nil, false
		}
		return v.Ref, true
	case Scalar:
		return v.T, v.T.Sort == RefS
	}
	return nil, false
}

func (g *merger) val(v, w Val, t types.Type) Val {
	switch p := v.(type) {
	case Scalar:
		if q, ok := w.(Scalar); ok {
			if p.T == q.T && p.P == q.P {
				return v
			}
			if p.T.Sort != q.T.Sort || p.P != q.P {
				g.fail("scalars")
			}
			return Scalar{T: Ite(g.c, p.T, q.T), P: p.P}
		}
	case StructV:
		if q, ok := w.(StructV); ok && len(p.F) == len(q.F) {
			var r StructV
			for i := range p.F {
				var ft types.Type
				if t != nil {
					if u, ok := t.Underlying().(*types.Struct); ok {
						ft = u.Field(i).Type()
					}
				}
				r.F = append(r.F, g.val(p.F[i], q.F[i], ft))
			}
			return r
		}
	case ArrV:
		if q, ok := w.(ArrV); ok && len(p.E) == len(q.E) {
			var r ArrV
			for i := range p.E {
				r.E = append(r.E, g.val(p.E[i], q.E[i], nil))
			}
			return r
		}
	case TupleV:
		if q, ok := w.(TupleV); ok && len(p.V) == len(q.V) {
			var r TupleV
			for i := range p.V {
				r.V = append(r.V, g.val(p.V[i], q.V[i], nil))
			}
			return r
		}
	case FuncV:
		if q, ok := w.(FuncV); ok && p.Fn == q.Fn && len(p.Binds) == len(q.Binds) {
			r := FuncV{Fn: p.Fn}
			for i := range p.Binds {
				r.Binds = append(r.Binds, g.val(p.Binds[i], q.Binds[i], nil))
			}
			return r
		}
	case BuiltinV:
		if q, ok := w.(BuiltinV); ok && p == q {
			return p
		}
	case IterV:
		if q, ok := w.(IterV); ok && p == q {
			return p
		}
	case IfaceV:
		if q, ok := w.(IfaceV); ok && types.Identical(p.T, q.T) {
			return IfaceV{T: p.T, V: g.val(p.V, q.V, p.T)}
		}
	case SliceV:
		if q, ok := w.(SliceV); ok {
			if p.Obj == q.Obj {
				r := SliceV{Nil: Ite(g.c, p.Nil, q.Nil), Obj: p.Obj, Off: Ite(g.c, p.Off, q.Off), Len: Ite(g.c, p.Len, q.Len)}
				if p.Cap == q.Cap {
					r.Cap = p.Cap
				}
				return r
			}
			var el types.Type
			for _, o := range []*Object{p.Obj, q.Obj} {
				if o != nil {
					el = o.Type
				}
			}
			if el == nil {
				g.fail("slices")
			}
			get := func(st *State, s SliceV) *Term {
				if s.Obj == nil {
					return Empty(contentSort(el))
				}
				g.stale(s.Obj)
				return g.x.content(st, s)
			}
			o := newObject("joined", el, true)
			cp, cq := get(g.a, p), get(g.b, q)
			o.RO = true
			g.m.Heap[o] = Scalar{T: Ite(g.c, cp, cq)}
			return SliceV{Nil: Ite(g.c, p.Nil, q.Nil), Obj: o, Off: I(0), Len: Ite(g.c, p.Len, q.Len)}
		}
	case MapV:
		if q, ok := w.(MapV); ok {
			rp, rq := p.Ref, q.Ref
			if p.Obj == q.Obj && rp == rq {
				return p
			}
			if rp == nil {
				rp = refOf(p.Obj)
				g.extra = append(g.extra, Ne(rp, NilRef()))
			}
			if rq == nil {
				rq = refOf(q.Obj)
				g.extra = append(g.extra, Ne(rq, NilRef()))
			}
			if p.Obj != q.Obj {
				x, y := g.a.Heap[p.Obj].(MapC), g.b.Heap[q.Obj].(MapC)
				g.stale(p.Obj)
				g.stale(q.Obj)
				o := newObject("joined", p.Obj.Type, false)
				g.m.Heap[o] = MapC{Has: Ite(g.c, x.Has, y.Has), Val: Ite(g.c, x.Val, y.Val), Len: Ite(g.c, x.Len, y.Len)}
				return MapV{Obj: o, Ref: Ite(g.c, rp, rq)}
			}
			return MapV{Obj: p.Obj, Ref: Ite(g.c, rp, rq)}
		}
	case MapC:
		if q, ok := w.(MapC); ok {
			return MapC{Has: Ite(g.c, p.Has, q.Has), Val: Ite(g.c, p.Val, q.Val), Len: Ite(g.c, p.Len, q.Len)}
		}
	case PtrV:
		if q, ok := w.(PtrV); ok && p.Obj == q.Obj && pathEq(p.Path, q.Path) {
			return p
		}
	case RPtr:
		if q, ok := w.(RPtr); ok && p.Ref == q.Ref && pathEq(p.Path, q.Path) {
			return p
		}
	}
	if rp, ok := g.ref(v); ok {
		if rq, ok := g.ref(w); ok {
			return Scalar{T: Ite(g.c, rp, rq)}
		}
	}
	if any := func(v Val) *Term {
		switch v := v.(type) {
		case Scalar:
			if v.T.Sort == AnyS {
				return v.T
			}
		case IfaceV:
			switch v.V.(type) {
			case Scalar, StructV:
				return g.x.toTerm(g.m, v, types.NewInterfaceType(nil, nil))
			}
		}
		return nil
	}; any(v) != nil && any(w) != nil {
		return Scalar{T: Ite(g.c, any(v), any(w))}
	}
	g.fail("values")
	return nil
}

// moveAny: as moveToHeap, for pointees of any type.
func (x *Exec) moveAny(st *State, o *Object) {
	if st.Res[o] || o.Slice || o.Type == nil {
		return
	}
	if _, ok := o.Type.Underlying().(*types.Basic); ok {
		c, ok := st.Heap[o]
		if !ok {
			return
		}
		st.Res[o] = true
		st.assume(Ne(refOf(o), NilRef()))
		x.rstore(st, RPtr{Ref: refOf(o), Root: o.Type}, o.Type, c)
		return
	}
	x.moveToHeap(st, o)
	if !st.Res[o] {
		panic(mergeFail{"pointee " + o.Type.String()})
	}
}
