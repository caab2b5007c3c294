package main

// Path-by-path symbolic execution of go/ssa functions with contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Obl is one verification condition: PC |= Goal.
type Obl struct {
	Unit    string // function (instance) being verified
	Kind    string // ensures, panic, bounds, nil, ...
	Name    string
	Loc     string
	PC      []*Term `json:"-"`
	Goal    *Term   `json:"-"`
	GoalS   string
	Res     Result
	OK      bool
	Trace   []string
	Exclude map[string]bool `json:"-"`
	Prop    string          // the only property it belongs to; empty: all of the unit's
}

type Model func(x *Exec, st *State, call *Call) []*State

// Call is a call in progress (callee known by name).
type Call struct {
	Name   string
	Fn     *ssa.Function
	Args   []Val
	Sig    *types.Signature
	ret    func(x *Exec, st *State, v Val)
	Instr  ssa.CallInstruction
	Caller *ssa.Function
}

// Return completes the call with the given results in st.
func (c *Call) Return(x *Exec, st *State, vs ...Val) []*State {
	var v Val
	switch len(vs) {
	case 0:
		v = TupleV{}
	case 1:
		v = vs[0]
	default:
		v = TupleV{vs}
	}
	c.ret(x, st, v)
	return []*State{st}
}

type Exec struct {
	shape      int // >0 while an enclosing loop looks for what its body writes
	prog       *ssa.Program
	th         *Theory
	cur        *Spec
	eng        *Engine
	obls       []*Obl
	finish     func(st *State, res []Val)
	dry        int
	steps      int
	paths      int
	loopsN     int
	notes      map[string]bool
	inlined    map[string]bool
	usedSpecs  map[string]bool
	usedModels map[string]bool
	invs       map[string]int
	dropped    map[string]bool
	invObls    int
	trivial    int
	globals    map[*ssa.Global]*Object
	inits      map[*ssa.Global]Val
	abort      string
	nested     int
}

type bailout struct{ msg string }

func (x *Exec) bail(f string, a ...any) { panic(bailout{fmt.Sprintf(f, a...)}) }
func (x *Exec) note(f string, a ...any) { x.notes[fmt.Sprintf(f, a...)] = true }

func posStr(prog *ssa.Program, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) here(st *State) string {
	for i := len(st.Frames) - 1; i >= 0; i-- {
		fr := st.Frames[i]
		if fr.Block == nil || fr.Idx == 0 {
			continue
		}
		if fr.Idx-1 < len(fr.Block.Instrs) {
			if s := posStr(x.prog, fr.Block.Instrs[fr.Idx-1].Pos()); s != "" {
				return s
			}
		}
	}
	return ""
}

// oblige emits a verification condition and continues under its assumption.
func (x *Exec) oblige(st *State, kind, name string, goal *Term) {
	if goal == True {
		if x.dry == 0 && !st.quiet {
			x.eng.trivial(x, kind)
		}
		return
	}
	if x.dry == 0 && !st.quiet {
		fn := ""
		if len(st.Frames) > 0 {
			fn = st.top().Fn.Name()
		}
		x.obls = append(x.obls, &Obl{Unit: x.cur.ID, Kind: kind, Name: name, Loc: fn + "@" + x.here(st), PC: append([]*Term(nil), st.PC...), Goal: goal, Trace: append([]string(nil), st.Trace...)})
	}
	st.assume(goal)
}

// decide answers whether c is already decided by the path condition syntactically.
func (st *State) decide(c *Term) (bool, bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	n := Not(c)
	for _, p := range st.PC {
		if p == c {
			return true, true
		}
		if p == n {
			return false, true
		}
	}
	if c.Op == "=" {
		t, l := c.Args[0], c.Args[1]
		if t.IsInt() {
			t, l = l, t
		}
		if l.IsInt() {
			for _, p := range st.PC {
				if p.Op == "=" {
					a, b := p.Args[0], p.Args[1]
					if a.IsInt() {
						a, b = b, a
					}
					if a == t && b.IsInt() && b != l {
						return false, true
					}
				}
			}
		}
	}
	if c.Op == "and" {
		all := true
		for _, a := range c.Args {
			v, ok := st.decide(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.Op == "or" {
		all := true
		for _, a := range c.Args {
			v, ok := st.decide(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (x *Exec) feasible(st *State) bool {
	if st.infeasible() {
		return false
	}
	if x.shape > 0 {
		return true
	}
	if x.cur.OwnInv {
		return !x.th.groundUnsat(st.PC)
	}
	r := x.th.Check(st.PC, nil, true, false)
	return r.Status != "unsat"
}

// fork splits st on c; infeasible sides are dropped.
func (x *Exec) fork(st *State, c *Term) (t, f *State) {
	if v, ok := st.decide(c); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	n := st.clone()
	st.assume(c)
	n.assume(Not(c))
	var a, b bool
	parallel(2, func(i int) {
		if i == 0 {
			a = x.feasible(st)
		} else {
			b = x.feasible(n)
		}
	})
	if !a && !b {
		return nil, nil
	}
	if !a {
		return nil, n
	}
	if !b {
		return st, nil
	}
	return st, n
}

// branch forks and runs the continuation on both sides.
func (x *Exec) branch(st *State, c *Term, yes, no func(st *State) []*State) []*State {
	a, b := x.fork(st, c)
	var out []*State
	if a != nil {
		out = append(out, yes(a)...)
	}
	if b != nil {
		out = append(out, no(b)...)
	}
	return out
}

func (x *Exec) run(work []*State) {
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			x.steps++
			if x.steps > 4000000 {
				x.bail("step limit")
			}
			next := x.step(st)
			if len(next) == 1 {
				st = next[0]
				continue
			}
			if len(next) > 1 {
				x.paths += len(next) - 1
				if x.paths > 20000 {
					x.bail("path limit")
				}
			}
			work = append(work, next...)
			break
		}
	}
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, ret func(x *Exec, st *State, v Val)) {
	if len(st.Frames) > 60 {
		x.bail("call depth exceeded in %s", fn)
	}
	n := 0
	for _, f := range st.Frames {
		if f.Fn == fn {
			n++
		}
	}
	if n > 8 {
		x.bail("recursion without contract in %s", fn)
	}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Val{}, Block: fn.Blocks[0], Active: map[*ssa.BasicBlock]*loopRun{}, RetFn: ret, depth: len(st.Frames)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.Env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.Env[p] = binds[i]
	}
	st.Frames = append(st.Frames, fr)
}

func (x *Exec) globalObj(g *ssa.Global) *Object {
	if o, ok := x.globals[g]; ok {
		return o
	}
	o := newObject("global."+g.Name(), g.Type().(*types.Pointer).Elem(), false)
	o.Global = true
	x.globals[g] = o
	return o
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		o := x.globalObj(v)
		if _, ok := st.Heap[o]; !ok {
			st.Heap[o] = x.globalInit(st, v)
		}
		return PtrV{Obj: o}
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return BuiltinV{v.Name()}
	}
	for i := len(st.Frames) - 1; i >= 0; i-- {
		if r, ok := st.Frames[i].Env[v]; ok {
			return r
		}
		break
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, st.top().Fn))
}

// globalInit gives the content of a package variable at function entry.
func (x *Exec) globalInit(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if v := x.eng.globalConst(x, st, g); v != nil {
		return v
	}
	key := "g." + g.Pkg.Pkg.Path() + "." + g.Name()
	switch t.Underlying().(type) {
	case *types.Interface: // sentinel errors and the like
		a := Var(key, AnyS)
		st.assume(Not(IsNilAny(a)))
		return Scalar{T: a}
	}
	return x.fromTerm(st, Var(key, sortOf(t)), t)
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	if isTypeParam(t) {
		panic("type parameter constant " + t.String())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Scalar{T: B(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return Scalar{T: S(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := constant.Val(v).(*big.Int)
			if !ok {
				b = big.NewInt(constant.Val(v).(int64))
			}
			return Scalar{T: IB(b)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if f == 0 {
				return x.zero(st, t)
			}
			return Scalar{T: Var(fmt.Sprintf("f64const_%v", f), sortOf(t))}
		}
	case *types.Slice: // []byte("...") constants do not occur
	}
	panic("const " + c.String())
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func tm(v Val) *Term {
	if s, ok := v.(Scalar); ok {
		return s.T
	}
	panic(fmt.Sprintf("scalar expected, got %T", v))
}

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.top().Env[v] = r }

// ---- one step

func (x *Exec) step(st *State) []*State {
	fr := st.top()
	instr := fr.Block.Instrs[fr.Idx]
	fr.Idx++
	if x.eng.traceSSA {
		fmt.Fprintf(os.Stderr, "[%d] %s: %s\n", len(st.Frames), fr.Fn.Name(), instrString(instr))
	}
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := newObject(in.Comment, in.Type().(*types.Pointer).Elem(), false)
		st.Heap[o] = x.zero(st, o.Type)
		x.set(st, in, PtrV{Obj: o})
	case *ssa.BinOp:
		return x.binop(st, in)
	case *ssa.UnOp:
		x.unop(st, in)
	case *ssa.ChangeType:
		x.set(st, in, x.val(st, in.X))
	case *ssa.ChangeInterface:
		x.set(st, in, x.val(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, x.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		x.set(st, in, x.convert(st, x.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		x.set(st, in, IfaceV{T: in.X.Type(), V: v})
	case *ssa.MakeClosure:
		var b []Val
		for _, f := range in.Bindings {
			b = append(b, x.val(st, f))
		}
		x.set(st, in, FuncV{Fn: in.Fn.(*ssa.Function), Binds: b})
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		n := tm(x.val(st, in.Len))
		c := tm(x.val(st, in.Cap))
		x.oblige(st, "bounds", "make: length is not negative", Le(I(0), n))
		if n != c {
			x.oblige(st, "bounds", "make: length within capacity", Le(n, c))
		}
		s := x.makeSlice(st, el, n)
		s.Cap = c
		x.set(st, in, s)
	case *ssa.MakeMap:
		x.set(st, in, x.makeMap(st, in.Type()))
	case *ssa.MapUpdate:
		m := x.val(st, in.Map)
		x.mapUpdate(st, m, in.Map.Type(), x.val(st, in.Key), x.val(st, in.Value))
	case *ssa.Lookup:
		return x.lookup(st, in)
	case *ssa.Extract:
		x.set(st, in, x.val(st, in.Tuple).(TupleV).V[in.Index])
	case *ssa.Field:
		s := x.val(st, in.X)
		v, _ := x.getPath(st, s, in.X.Type(), []PathElem{{Field: in.Field}})
		x.set(st, in, v)
	case *ssa.FieldAddr:
		p := x.val(st, in.X)
		x.set(st, in, x.fieldAddr(st, p, in.X.Type(), in.Field))
	case *ssa.Index:
		s := x.val(st, in.X)
		i := tm(x.val(st, in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, I(u.Len()))))
			v, _ := x.getPath(st, s, in.X.Type(), []PathElem{{Index: i}})
			x.set(st, in, v)
		default: // string
			t := tm(s)
			x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, Len(t))))
			b := ByteAt(t, i)
			st.assume(And(Le(I(0), b), Le(b, I(255))))
			x.set(st, in, Scalar{T: b})
		}
	case *ssa.IndexAddr:
		p := x.val(st, in.X)
		i := tm(x.val(st, in.Index))
		x.set(st, in, x.indexAddr(st, p, in.X.Type(), i))
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.SliceToArrayPointer:
		x.bail("slice to array pointer in %s", fr.Fn)
	case *ssa.Store:
		x.storeAt(st, x.val(st, in.Addr), in.Val.Type(), x.val(st, in.Val))
	case *ssa.Phi:
		panic("phi reached by step")
	case *ssa.If:
		c := tm(x.val(st, in.Cond))
		n := len(st.PC)
		a, b := x.fork(st, c)
		var out []*State
		blk := in.Block()
		if a != nil && b != nil && x.cur.Merge {
			if j := x.meet(blk); j != nil {
				depth, id := len(a.Frames), a.top().ID
				oa := x.runTo(x.jump(a, blk, blk.Succs[0]), depth, id, j)
				ob := x.runTo(x.jump(b, blk, blk.Succs[1]), depth, id, j)
				if len(oa) == 1 && len(ob) == 1 {
					if m, ok := x.join(oa[0], ob[0], c, n); ok {
						return []*State{m}
					}
				}
				return append(oa, ob...)
			}
		}
		if a != nil {
			if b != nil {
				a.Trace = append(a.Trace, x.brTrace(in, true))
			}
			out = append(out, x.jump(a, blk, blk.Succs[0])...)
		}
		if b != nil {
			if a != nil {
				b.Trace = append(b.Trace, x.brTrace(in, false))
			}
			out = append(out, x.jump(b, blk, blk.Succs[1])...)
		}
		return out
	case *ssa.Jump:
		return x.jump(st, in.Block(), in.Block().Succs[0])
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, x.val(st, r))
		}
		return x.doReturn(st, res)
	case *ssa.RunDefers:
		return x.runDefers(st)
	case *ssa.Defer:
		d := deferred{}
		d.call = in
		d.fn, d.args = x.callOperands(st, in.Common())
		fr.Defers = append(fr.Defers, d)
	case *ssa.Panic:
		msg := "no panic"
		if c, ok := in.X.(*ssa.MakeInterface); ok {
			if k, ok := c.X.(*ssa.Const); ok {
				msg = "no panic(" + k.Value.String() + ")"
			}
		}
		x.oblige(st, "panic", msg, False)
		return nil
	case *ssa.Call:
		fn, args := x.callOperands(st, in.Common())
		return x.doCall(st, in, fn, args, func(x *Exec, st *State, v Val) { x.set(st, in, v) })
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Range:
		m := x.val(st, in.X)
		if s, ok := m.(Scalar); ok && s.T.Sort == StrS {
			o := newObject("strpos", types.Typ[types.Int], false)
			st.Heap[o] = Scalar{T: I(0)}
			x.set(st, in, IterV{Str: s.T, Pos: o})
		} else {
			x.set(st, in, IterV{Map: m})
		}
	case *ssa.Next:
		return x.next(st, in)
	default:
		x.bail("unsupported instruction %T (%s) in %s", instr, instr, fr.Fn)
	}
	return []*State{st}
}

func instrString(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name() + " = " + in.String()
	}
	return in.String()
}

func (x *Exec) brTrace(in *ssa.If, v bool) string {
	return fmt.Sprintf("%s %v", posStr(x.prog, in.Cond.Pos()), v)
}

func (x *Exec) doReturn(st *State, res []Val) []*State {
	fr := st.top()
	for _, lr := range fr.Active {
		if lr.dry {
			return nil
		}
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
	var v Val
	switch len(res) {
	case 1:
		v = res[0]
	default:
		v = TupleV{res}
	}
	if fr.RetFn != nil {
		fr.RetFn(x, st, v)
	}
	if len(st.Frames) == 0 {
		if x.dry == 0 && x.finish != nil {
			x.finish(st, res)
		}
		return nil
	}
	return []*State{st}
}

func (x *Exec) runDefers(st *State) []*State {
	fr := st.top()
	if len(fr.Defers) == 0 {
		return []*State{st}
	}
	d := fr.Defers[len(fr.Defers)-1]
	fr.Defers = fr.Defers[:len(fr.Defers)-1]
	fr.Idx-- // re-run RunDefers afterwards
	return x.doCall(st, d.call, d.fn, d.args, func(x *Exec, st *State, v Val) {})
}

// ---- jumps and phis

func (x *Exec) jump(st *State, from, to *ssa.BasicBlock) []*State {
	fr := st.top()
	for h, lr := range fr.Active {
		if !lr.loop.body[to] {
			if lr.dry {
				return nil
			}
			delete(fr.Active, h)
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(st, p.Edges[pi]))
		phis = append(phis, p)
	}
	for i, p := range phis {
		fr.Env[p] = vals[i]
	}
	fr.Prev, fr.Block, fr.Idx = from, to, len(phis)
	if loop := x.eng.loopAt(to); loop != nil {
		if lr := fr.Active[to]; lr != nil {
			lr.onBack(st)
			return nil
		}
		return x.enterLoop(st, loop, phis)
	}
	return []*State{st}
}

// ---- memory helpers

func (x *Exec) makeSlice(st *State, el types.Type, n *Term) SliceV {
	o := newObject("make", el, true)
	if n.IsInt() && n.Int.IsInt64() && n.Int.Int64() <= 64 && !isByte(el) {
		var a ArrV
		for i := int64(0); i < n.Int.Int64(); i++ {
			a.E = append(a.E, x.zero(st, el))
		}
		st.Heap[o] = a
		return SliceV{Nil: False, Obj: o, Off: I(0), Len: n}
	}
	cs := contentSort(el)
	st.Heap[o] = Scalar{T: x.zeroSeq(st, el, cs, n)}
	return SliceV{Nil: False, Obj: o, Off: I(0), Len: n}
}

func (x *Exec) zeroSeq(st *State, el types.Type, cs *Sort, n *Term) *Term {
	var z *Term
	if cs == StrS {
		z = S("\x00")
	} else {
		z = Unit(x.toTerm(st, x.zero(st, el), el))
	}
	if n.IsInt() && n.Int.Int64() <= 64 {
		r := Empty(cs)
		for i := int64(0); i < n.Int.Int64(); i++ {
			r = CatS(cs, r, z)
		}
		return r
	}
	t := x.eng.Rep(z, n)
	st.assume(Eq(Len(t), n))
	return t
}

func (x *Exec) nonNil(st *State, p Val, what string) {
	if s, ok := p.(Scalar); ok {
		x.oblige(st, "nil", what, Ne(s.T, NilRef()))
	}
	if r, ok := p.(RPtr); ok && len(r.Path) == 0 {
		x.oblige(st, "nil", what, Ne(r.Ref, NilRef()))
	}
}

func (x *Exec) checkLive(st *State, p Val) {
	if q, ok := p.(PtrV); ok && st.GObj["released"][q.Obj] {
		x.oblige(st, "pool", "no use of a buffer after it was returned to its pool", False)
	}
}

func (x *Exec) fieldAddr(st *State, p Val, pt types.Type, f int) Val {
	switch p := p.(type) {
	case PtrV:
		return PtrV{Obj: p.Obj, Path: append(append([]PathElem(nil), p.Path...), PathElem{Field: f})}
	case RPtr:
		return RPtr{Ref: p.Ref, Root: p.Root, Path: append(append([]PathElem(nil), p.Path...), PathElem{Field: f})}
	case Scalar:
		x.nonNil(st, p, "pointer is not nil")
		return RPtr{Ref: p.T, Root: pt.Underlying().(*types.Pointer).Elem(), Path: []PathElem{{Field: f}}}
	}
	panic(fmt.Sprintf("fieldAddr %T", p))
}

func (x *Exec) indexAddr(st *State, p Val, pt types.Type, i *Term) Val {
	switch p := p.(type) {
	case SliceV:
		x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, p.Len)))
		return PtrV{Obj: p.Obj, Path: []PathElem{{Index: Add(p.Off, i)}}}
	case PtrV:
		n := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, I(n))))
		return PtrV{Obj: p.Obj, Path: append(append([]PathElem(nil), p.Path...), PathElem{Index: i})}
	case RPtr:
		n := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, I(n))))
		return RPtr{Ref: p.Ref, Root: p.Root, Path: append(append([]PathElem(nil), p.Path...), PathElem{Index: i})}
	}
	panic(fmt.Sprintf("indexAddr %T", p))
}

func tainted(v Val) bool {
	switch v := v.(type) {
	case Scalar:
		return v.P != nil && v.P.Owner == "driver"
	case SliceV:
		return v.Obj.Owner == "driver"
	case StructV:
		for _, f := range v.F {
			if tainted(f) {
				return true
			}
		}
	case ArrV:
		for _, f := range v.E {
			if tainted(f) {
				return true
			}
		}
	case IfaceV:
		return tainted(v.V)
	}
	return false
}

func (st *State) taint(o *Object) {
	if st.GObj["tainted"] == nil {
		st.GObj["tainted"] = map[*Object]bool{}
	}
	st.GObj["tainted"][o] = true
}

func (x *Exec) storeAt(st *State, p Val, t types.Type, v Val) {
	x.nonNil(st, p, "pointer is not nil")
	x.checkLive(st, p)
	if q, ok := p.(PtrV); ok && tainted(v) {
		st.taint(q.Obj)
	}
	x.store(st, p, t, v)
}

func (x *Exec) loadAt(st *State, p Val, t types.Type) Val {
	x.nonNil(st, p, "pointer is not nil")
	x.checkLive(st, p)
	v := x.load(st, p, t)
	if q, ok := p.(PtrV); ok && st.GObj["tainted"][q.Obj] {
		switch s := v.(type) {
		case Scalar:
			if s.T.Sort == StrS && s.P == nil {
				s.P = &Object{Name: "driver memory", Owner: "driver"}
				return s
			}
		case SliceV:
			if s.Obj.Owner == "" {
				s.Obj.Owner = "driver"
			}
		}
	}
	return v
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		x.set(st, in, x.loadAt(st, v, in.Type()))
	case token.NOT:
		x.set(st, in, Scalar{T: Not(tm(v))})
	case token.SUB:
		if sortOf(in.Type()) == IntS {
			x.set(st, in, Scalar{T: x.wrapArith(in.Type(), Sub(I(0), tm(v)))})
		} else {
			x.set(st, in, Scalar{T: App("fneg", tm(v).Sort, tm(v))})
		}
	case token.XOR:
		x.set(st, in, Scalar{T: WrapTo(in.Type(), Sub(I(-1), tm(v)))})
	default:
		x.bail("unop %s", in.Op)
	}
}

// wrapArith: arithmetic results of sized types wrap; signed 64-bit arithmetic
// is treated as mathematical (stated assumption).
func (x *Exec) wrapArith(t types.Type, r *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return r
	}
	bits, signed := intWidth(b)
	if bits == 64 && signed || bits == 0 {
		return r
	}
	return WrapTo(t, r)
}

func truncDiv(a, b *Term) *Term {
	if nonNeg(a) && b.IsInt() && b.Int.Sign() > 0 {
		return Div(a, b)
	}
	na := Sub(I(0), a)
	// Go truncates toward zero
	return Ite(Le(I(0), a), Div(a, b), Sub(I(0), Div(na, b)))
}

func (x *Exec) binop(st *State, in *ssa.BinOp) []*State {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	set := func(v Val) []*State { x.set(st, in, v); return []*State{st} }
	switch in.Op {
	case token.EQL, token.NEQ:
		c := x.equal(st, a, b, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			c = Not(c)
		}
		return set(Scalar{T: c})
	}
	ta, tb := tm(a), tm(b)
	switch ta.Sort {
	case StrS:
		switch in.Op {
		case token.ADD:
			return set(Scalar{T: Cat(ta, tb)})
		case token.LSS:
			return set(Scalar{T: mk("str.<", "", BoolS, nil, ta, tb)})
		case token.GTR:
			return set(Scalar{T: mk("str.<", "", BoolS, nil, tb, ta)})
		case token.LEQ:
			return set(Scalar{T: mk("str.<=", "", BoolS, nil, ta, tb)})
		case token.GEQ:
			return set(Scalar{T: mk("str.<=", "", BoolS, nil, tb, ta)})
		}
	case IntS:
		t := in.Type()
		switch in.Op {
		case token.ADD:
			return set(Scalar{T: x.wrapArith(t, Add(ta, tb))})
		case token.SUB:
			return set(Scalar{T: x.wrapArith(t, Sub(ta, tb))})
		case token.MUL:
			return set(Scalar{T: x.wrapArith(t, Mul(ta, tb))})
		case token.QUO, token.REM:
			x.oblige(st, "div", "divisor is not zero", Ne(tb, I(0)))
			if v, ok := st.decide(Le(I(0), ta)); ok && v && tb.IsInt() && tb.Int.Sign() > 0 {
				if in.Op == token.QUO {
					return set(Scalar{T: Div(ta, tb)})
				}
				return set(Scalar{T: Mod(ta, tb)})
			}
			if tb.IsInt() {
				q := truncDiv(ta, tb)
				if in.Op == token.QUO {
					return set(Scalar{T: q})
				}
				return set(Scalar{T: Sub(ta, Mul(tb, q))})
			}
			nm := "goquo"
			if in.Op == token.REM {
				nm = "gorem"
			}
			return set(x.fromTerm(st, App(nm, IntS, ta, tb), t))
		case token.LSS:
			return set(Scalar{T: Lt(ta, tb)})
		case token.LEQ:
			return set(Scalar{T: Le(ta, tb)})
		case token.GTR:
			return set(Scalar{T: Lt(tb, ta)})
		case token.GEQ:
			return set(Scalar{T: Le(tb, ta)})
		case token.SHL:
			if tb.IsInt() && tb.Int.IsUint64() && tb.Int.Uint64() < 64 {
				return set(Scalar{T: WrapTo(t, Mul(ta, IB(pow2(uint(tb.Int.Uint64())))))})
			}
		case token.SHR:
			if tb.IsInt() && tb.Int.IsUint64() && tb.Int.Uint64() < 64 {
				return set(Scalar{T: Div(ta, IB(pow2(uint(tb.Int.Uint64()))))})
			}
		case token.AND:
			if tb.IsInt() && tb.Int.Sign() >= 0 {
				m := new(big.Int).Add(tb.Int, big.NewInt(1))
				if m.BitLen() > 0 && new(big.Int).And(m, tb.Int).Sign() == 0 {
					return set(Scalar{T: Mod(ta, IB(m))})
				}
			}
		}
		return set(x.fromTerm(st, App("bits!"+in.Op.String(), IntS, ta, tb), t))
	case BoolS:
		switch in.Op {
		case token.AND:
			return set(Scalar{T: And(ta, tb)})
		case token.OR:
			return set(Scalar{T: Or(ta, tb)})
		}
	}
	// floating point and the rest: uninterpreted
	s := ta.Sort
	if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		s = BoolS
	}
	return set(Scalar{T: App("fop!"+sanitize(in.Op.String())+"!"+sanitize(ta.Sort.Name), s, ta, tb)})
}

func isNilVal(v Val) (*Term, bool) {
	switch v := v.(type) {
	case PtrV:
		return False, true
	case RPtr:
		if len(v.Path) == 0 {
			return Eq(v.Ref, NilRef()), true
		}
		return False, true
	case IfaceV, FuncV:
		return False, true
	case MapV:
		return Not(v.notNil()), true
	case SliceV:
		return v.Nil, true
	case Scalar:
		switch v.T.Sort {
		case RefS:
			return Eq(v.T, NilRef()), true
		case AnyS:
			return IsNilAny(v.T), true
		case FnS:
			return Eq(v.T, NilFn()), true
		}
	}
	return nil, false
}

func isNilConst(v Val) bool {
	s, ok := v.(Scalar)
	return ok && (s.T == NilRef() || s.T == AnyNil() || s.T == NilFn())
}

func (x *Exec) equal(st *State, a, b Val, at, bt types.Type) *Term {
	if s, ok := b.(SliceV); ok && s.Nil == True {
		if n, ok := isNilVal(a); ok {
			return n
		}
	}
	if isNilConst(b) {
		if n, ok := isNilVal(a); ok {
			return n
		}
	}
	if isNilConst(a) {
		if n, ok := isNilVal(b); ok {
			return n
		}
	}
	if s, ok := a.(SliceV); ok && s.Nil == True {
		if n, ok := isNilVal(b); ok {
			return n
		}
	}
	if p, ok := a.(PtrV); ok {
		if q, ok := b.(PtrV); ok {
			if p.Obj != q.Obj {
				return False
			}
			if len(p.Path) == 0 && len(q.Path) == 0 {
				return True
			}
		}
	}
	_, ai := at.Underlying().(*types.Interface)
	_, bi := bt.Underlying().(*types.Interface)
	if ai && !bi {
		b = IfaceV{T: bt, V: b}
		bt = at
	}
	if bi && !ai {
		a = IfaceV{T: at, V: a}
		at = bt
	}
	return Eq(x.toTerm(st, a, at), x.toTerm(st, b, bt))
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	v := x.val(st, in.X)
	get := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return tm(x.val(st, o))
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = I(0)
	}
	if mx != nil {
		// three-index slices only restrict capacity
	}
	switch s := v.(type) {
	case Scalar: // string
		if s.T.Sort == StrS {
			if hi == nil {
				hi = Len(s.T)
				x.oblige(st, "bounds", "slice in range", And(Le(I(0), lo), Le(lo, hi)))
			} else {
				x.oblige(st, "bounds", "slice in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, Len(s.T))))
			}
			x.set(st, in, Scalar{T: Extract(s.T, lo, Sub(hi, lo)), P: s.P})
			return
		}
	case SliceV:
		n := SliceV{Nil: s.Nil, Obj: s.Obj, Off: Add(s.Off, lo)}
		if hi == nil {
			hi = s.Len
			x.oblige(st, "bounds", "slice in range", And(Le(I(0), lo), Le(lo, hi)))
		} else {
			// Go allows hi up to the capacity; beyond the length the content
			// is not tracked, so the length is the limit we accept.
			if s.Cap != nil {
				if d, ok := st.decide(Le(hi, s.Len)); !(ok && d) && Le(hi, s.Len) != True {
					x.note("re-slicing beyond the length but within the capacity is reported as out of bounds")
				}
			}
			x.oblige(st, "bounds", "slice in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, s.Len)))
		}
		n.Len = Sub(hi, lo)
		if s.Cap != nil {
			n.Cap = Sub(s.Cap, lo)
		}
		x.set(st, in, n)
		return
	case PtrV: // pointer to array
		at := in.X.Type().Underlying().(*types.Pointer).Elem()
		arr := at.Underlying().(*types.Array)
		if hi == nil {
			hi = I(arr.Len())
		}
		x.oblige(st, "bounds", "slice in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, I(arr.Len()))))
		if len(s.Path) == 0 {
			if st.Res[s.Obj] {
				x.bail("slicing an array in the reference heap")
			}
			// the array object itself becomes the backing store
			o := s.Obj
			if !o.Slice {
				o.Slice = true
				o.Type = arr.Elem()
			}
			x.set(st, in, SliceV{Nil: False, Obj: o, Off: lo, Len: Sub(hi, lo), Cap: Sub(I(arr.Len()), lo)})
			return
		}
		// array field: view by value (writes through the view are not tracked)
		c := x.load(st, s, at)
		o := newObject("arrview", arr.Elem(), true)
		o.RO = true
		st.Heap[o] = c
		x.note("slices of array fields are treated as read-only views")
		x.set(st, in, SliceV{Nil: False, Obj: o, Off: lo, Len: Sub(hi, lo)})
		return
	}
	x.bail("slice of %T in %s", v, st.top().Fn)
}

// ---- maps

func (x *Exec) makeMap(st *State, t types.Type) Val {
	u := t.Underlying().(*types.Map)
	o := newObject("map", t, false)
	ks, vs := sortOf(u.Key()), sortOf(u.Elem())
	has := App("constfalse!"+ks.Name, ArrOf(ks, BoolS))
	val := Fresh("mval", ArrOf(ks, vs))
	st.Heap[o] = MapC{Has: has, Val: val, Len: I(0)}
	return MapV{Obj: o}
}

func (x *Exec) mapC(st *State, m Val, t types.Type) (MapC, *Object, bool) {
	switch m := m.(type) {
	case MapV:
		if st.GObj["stale"][m.Obj] {
			x.bail("map used under its old name after a join")
		}
		c := st.Heap[m.Obj].(MapC)
		if m.Ref != nil {
			ks := c.Has.Sort
			c.Has = Ite(m.notNil(), c.Has, App("constfalse!"+sortOf(t.Underlying().(*types.Map).Key()).Name, ks))
		}
		return c, m.Obj, true
	case Scalar:
		if m.T == NilRef() {
			return MapC{}, nil, false
		}
		return x.mapC(st, x.fromTerm(st, m.T, t), t)
	}
	panic(fmt.Sprintf("map %T", m))
}

func mapSel(has, k *Term) *Term {
	for {
		if has.Op == "app" && has.Name == "mapover.has" {
			return Or(mapSel(has.Args[0], k), mapSel(has.Args[1], k))
		}
		if has.Op == "ite" {
			return Ite(has.Args[0], mapSel(has.Args[1], k), mapSel(has.Args[2], k))
		}
		if has.Op == "app" && strings.HasPrefix(has.Name, "constfalse!") {
			return False
		}
		if has.Op == "store" {
			e := Eq(has.Args[1], k)
			if e == True {
				return has.Args[2]
			}
			if e == False {
				has = has.Args[0]
				continue
			}
			return Or(And(e, has.Args[2]), And(Not(e), mapSel(has.Args[0], k)))
		}
		return Select(has, k)
	}
}

// mapGet: the value under a key that is present.
func mapGet(val, k *Term) *Term {
	if val.Op == "app" && val.Name == "mapover.val" {
		return Ite(mapSel(val.Args[0], k), mapGet(val.Args[1], k), mapGet(val.Args[2], k))
	}
	if val.Op == "ite" {
		return Ite(val.Args[0], mapGet(val.Args[1], k), mapGet(val.Args[2], k))
	}
	return Select(val, k)
}

func (x *Exec) mapUpdate(st *State, m Val, t types.Type, k, v Val) {
	c, o, ok := x.mapC(st, m, t)
	if !ok {
		x.oblige(st, "nil", "assignment to a non-nil map", False)
		return
	}
	if m, is := m.(MapV); is && m.Ref != nil {
		x.oblige(st, "nil", "assignment to a non-nil map", m.notNil())
	}
	u := t.Underlying().(*types.Map)
	kt := x.toTerm(st, k, u.Key())
	old := mapSel(c.Has, kt)
	st.setHeap(o, MapC{Has: Store(c.Has, kt, True), Val: Store(c.Val, kt, x.toTerm(st, v, u.Elem())), Len: Ite(old, c.Len, Add(c.Len, I(1)))})
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) []*State {
	m := x.val(st, in.X)
	if s, ok := m.(Scalar); ok && s.T.Sort == StrS {
		i := tm(x.val(st, in.Index))
		x.oblige(st, "bounds", "index in range", And(Le(I(0), i), Lt(i, Len(s.T))))
		b := ByteAt(s.T, i)
		st.assume(And(Le(I(0), b), Le(b, I(255))))
		x.set(st, in, Scalar{T: b})
		return []*State{st}
	}
	u := in.X.Type().Underlying().(*types.Map)
	c, _, ok := x.mapC(st, m, in.X.Type())
	if !ok {
		z := x.zero(st, u.Elem())
		if in.CommaOk {
			x.set(st, in, TupleV{[]Val{z, Scalar{T: False}}})
		} else {
			x.set(st, in, z)
		}
		return []*State{st}
	}
	kt := x.toTerm(st, x.val(st, in.Index), u.Key())
	has := mapSel(c.Has, kt)
	return x.branch(st, has, func(st *State) []*State {
		v := x.fromTerm(st, mapGet(c.Val, kt), u.Elem())
		if in.CommaOk {
			v = TupleV{[]Val{v, Scalar{T: True}}}
		}
		x.set(st, in, v)
		return []*State{st}
	}, func(st *State) []*State {
		v := x.zero(st, u.Elem())
		if in.CommaOk {
			v = TupleV{[]Val{v, Scalar{T: False}}}
		}
		x.set(st, in, v)
		return []*State{st}
	})
}

func (x *Exec) next(st *State, in *ssa.Next) []*State {
	it := x.val(st, in.Iter).(IterV)
	if in.IsString {
		pos := tm(st.Heap[it.Pos])
		return x.branch(st, Lt(pos, Len(it.Str)), func(st *State) []*State {
			rest := Extract(it.Str, pos, Sub(Len(it.Str), pos))
			r, w := x.eng.DecodeRune(st, rest)
			st.setHeap(it.Pos, Scalar{T: Add(pos, w)})
			x.set(st, in, TupleV{[]Val{Scalar{T: True}, Scalar{T: pos}, Scalar{T: r}}})
			return []*State{st}
		}, func(st *State) []*State {
			x.set(st, in, TupleV{[]Val{Scalar{T: False}, Scalar{T: I(0)}, Scalar{T: I(0)}}})
			return []*State{st}
		})
	}
	// map iteration: any key, any number of times (over-approximation)
	mt := in.Iter.(*ssa.Range).X.Type()
	u := mt.Underlying().(*types.Map)
	more := Fresh("more", BoolS)
	return x.branch(st, more, func(st *State) []*State {
		k := x.fresh(st, "mk", u.Key())
		c, _, ok := x.mapC(st, it.Map, mt)
		if !ok {
			return nil
		}
		kt := x.toTerm(st, k, u.Key())
		st.assume(mapSel(c.Has, kt))
		x.set(st, in, TupleV{[]Val{Scalar{T: True}, k, x.fromTerm(st, mapGet(c.Val, kt), u.Elem())}})
		return []*State{st}
	}, func(st *State) []*State {
		x.set(st, in, TupleV{[]Val{Scalar{T: False}, x.zero(st, u.Key()), x.zero(st, u.Elem())}})
		return []*State{st}
	})
}

// ---- conversions

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Pointer:
		return v // unsafe.Pointer or pointer: same object
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		fb, fIsB := fu.(*types.Basic)
		switch {
		case t.Info()&types.IsInteger != 0 && fIsB && fb.Info()&types.IsInteger != 0:
			s := tm(v)
			lo, hi, ok := intBounds(to)
			flo, fhi, ok2 := intBounds(from)
			if ok && ok2 && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return Scalar{T: s}
			}
			if l, h, known := st.knownRange(s); known && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return Scalar{T: s}
			}
			return Scalar{T: WrapTo(to, s)}
		case t.Info()&types.IsString != 0 && fIsB && fb.Info()&types.IsString != 0:
			return v
		case t.Info()&types.IsString != 0 && fIsB && fb.Info()&types.IsInteger != 0:
			return Scalar{T: x.eng.EncodeRune(st, tm(v))}
		case t.Info()&types.IsString != 0:
			if sl, ok := fu.(*types.Slice); ok {
				if isByte(sl.Elem()) {
					return Scalar{T: x.content(st, v.(SliceV))}
				}
				return Scalar{T: x.eng.RunesToStr(x.content(st, v.(SliceV)))}
			}
		case t.Info()&types.IsFloat != 0 && fIsB && fb.Info()&types.IsInteger != 0:
			return Scalar{T: App("i2f!"+sortOf(to).Name, sortOf(to), tm(v))}
		case t.Info()&types.IsInteger != 0 && fIsB && fb.Info()&types.IsFloat != 0:
			return x.fromTerm(st, App("f2i!"+sortOf(from).Name+"!"+t.Name(), IntS, tm(v)), to)
		case t.Info()&types.IsFloat != 0 && fIsB && fb.Info()&types.IsFloat != 0:
			if sortOf(to) == sortOf(from) {
				return v
			}
			s := tm(v)
			if sortOf(to) == F64S {
				return Scalar{T: App("f32to64", F64S, s)}
			}
			if s.Op == "app" && s.Name == "f32to64" {
				return Scalar{T: s.Args[0]}
			}
			return Scalar{T: App("f64to32", F32S, s)}
		case fIsB && fb.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsBoolean != 0:
			return v
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			s := tm(v)
			if isByte(t.Elem()) {
				return x.newSlice(st, "bytes", t.Elem(), s)
			}
			return x.newSlice(st, "runes", t.Elem(), x.eng.StrToRunes(s))
		}
		return v
	default:
		return v
	}
	x.bail("convert %s -> %s", from, to)
	return nil
}

// ---- type assertions

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	v := x.val(st, in.X)
	at := in.AssertedType
	ok := func(st *State, r Val) []*State {
		if in.CommaOk {
			r = TupleV{[]Val{r, Scalar{T: True}}}
		}
		x.set(st, in, r)
		return []*State{st}
	}
	no := func(st *State) []*State {
		if !in.CommaOk {
			x.oblige(st, "typeassert", "type assertion to "+shortType(at)+" holds", False)
			return nil
		}
		x.set(st, in, TupleV{[]Val{x.zero(st, at), Scalar{T: False}}})
		return []*State{st}
	}
	iface, isIface := at.Underlying().(*types.Interface)
	switch v := v.(type) {
	case IfaceV:
		if isIface {
			if x.eng.implements(v.T, iface) {
				return ok(st, v)
			}
			return no(st)
		}
		if types.Identical(v.T, at) {
			return ok(st, v.V)
		}
		return no(st)
	case Scalar:
		if v.T == AnyNil() {
			return no(st)
		}
		if isIface {
			if types.IsInterface(in.X.Type()) && iface.NumMethods() == 0 {
				return x.branch(st, Not(IsNilAny(v.T)), func(st *State) []*State { return ok(st, v) }, no)
			}
			c := And(Not(IsNilAny(v.T)), App("implements!"+shortType(at), BoolS, TypeOf(v.T)))
			return x.branch(st, c, func(st *State) []*State { return ok(st, v) }, no)
		}
		k := typeKey(at)
		boxTypes.Store(k, at)
		return x.branch(st, Eq(TypeOf(v.T), I(typeID(k))), func(st *State) []*State {
			u := UnboxT(k, sortOf(at), v.T)
			r := x.fromTerm(st, u, at)
			if sl, isS := r.(SliceV); isS && x.cur != nil && x.cur.DriverArgs[v.T] {
				sl.Obj.Owner = "driver"
			}
			if sc, isS := r.(Scalar); isS && sc.T.Sort == StrS && x.cur != nil && x.cur.DriverArgs[v.T] {
				// strings are immutable: sharing the driver's string is fine
				r = sc
			}
			return ok(st, r)
		}, no)
	}
	panic(fmt.Sprintf("typeAssert on %T", v))
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- calls

func (x *Exec) callOperands(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return x.val(st, c.Value), args
	}
	return x.val(st, c.Value), args
}

func (x *Exec) doCall(st *State, instr ssa.CallInstruction, fn Val, args []Val, ret func(x *Exec, st *State, v Val)) []*State {
	c := instr.Common()
	if c.IsInvoke() {
		return x.invoke(st, instr, fn, c.Method, args, ret)
	}
	switch f := fn.(type) {
	case BuiltinV:
		return x.builtin(st, instr, f.Name, args, ret)
	case FuncV:
		return x.callFn(st, instr, f, args, ret)
	case Scalar:
		x.oblige(st, "nil", "function value is not nil", Ne(f.T, NilFn()))
		if m := x.cur.DynCall; m != nil {
			call := &Call{Name: "dynamic", Args: args, Sig: c.Signature(), ret: ret, Instr: instr, Caller: instr.Parent()}
			if out, ok := m(x, st, f.T, call); ok {
				return out
			}
		}
		x.note("unknown function value called in %s: assumed to return normally and to change nothing visible", st.top().Fn.Name())
		ret(x, st, x.freshResults(st, "dyn", c.Signature()))
		return []*State{st}
	}
	panic(fmt.Sprintf("call of %T", fn))
}

func (x *Exec) freshResults(st *State, name string, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return x.fresh(st, name, r.At(0).Type())
	}
	var vs []Val
	for i := 0; i < r.Len(); i++ {
		vs = append(vs, x.fresh(st, name, r.At(i).Type()))
	}
	return TupleV{vs}
}

func (x *Exec) callFn(st *State, instr ssa.CallInstruction, f FuncV, args []Val, ret func(x *Exec, st *State, v Val)) []*State {
	fn := f.Fn
	name := fnKey(fn)
	call := &Call{Name: name, Fn: fn, Args: args, Sig: fn.Signature, ret: ret, Instr: instr, Caller: st.top().Fn}
	if m := x.cur.Models[name]; m != nil {
		return m(x, st, call)
	}
	if sp := x.eng.modular(fn, name); sp != nil && sp != x.cur.Base() {
		x.usedSpecs[sp.ID] = true
		return sp.apply(x, st, call)
	}
	if m := x.eng.model(name); m != nil {
		x.usedModels[stripInst(name)] = true
		return m(x, st, call)
	}
	if len(fn.Blocks) > 0 {
		x.inlined[name] = true
		x.pushFrame(st, fn, args, f.Binds, ret)
		return []*State{st}
	}
	x.note("external function %s: assumed to return normally and to change nothing visible to the caller; result unconstrained", name)
	ret(x, st, x.freshResults(st, sanitize(fn.Name()), fn.Signature))
	return []*State{st}
}

func fnKey(fn *ssa.Function) string {
	s := fn.String()
	return s
}

// stripInst removes type arguments: pkg.F[int] -> pkg.F
func stripInst(n string) string {
	var b strings.Builder
	d := 0
	for i := 0; i < len(n); i++ {
		switch n[i] {
		case '[':
			d++
			continue
		case ']':
			d--
			continue
		}
		if d == 0 {
			b.WriteByte(n[i])
		}
	}
	return b.String()
}

func (x *Exec) invoke(st *State, instr ssa.CallInstruction, recv Val, m *types.Func, args []Val, ret func(x *Exec, st *State, v Val)) []*State {
	sig := m.Type().(*types.Signature)
	switch r := recv.(type) {
	case IfaceV:
		full := append([]Val{r.V}, args...)
		fn := x.prog.LookupMethod(r.T, m.Pkg(), m.Name())
		if fn == nil {
			x.bail("method %s of %s not found", m.Name(), r.T)
		}
		return x.callFn(st, instr, FuncV{Fn: fn}, full, ret)
	case Scalar:
		x.oblige(st, "nil", "interface receiver of "+m.Name()+" is not nil", Not(IsNilAny(r.T)))
		name := m.FullName()
		call := &Call{Name: name, Args: append([]Val{recv}, args...), Sig: sig, ret: ret, Instr: instr, Caller: st.top().Fn}
		if h := x.cur.Models[name]; h != nil {
			return h(x, st, call)
		}
		if h := x.cur.Models["."+m.Name()]; h != nil {
			return h(x, st, call)
		}
		if h := x.eng.model(name); h != nil {
			x.usedModels[name] = true
			return h(x, st, call)
		}
		if h := x.eng.model("." + m.Name()); h != nil {
			x.usedModels[name] = true
			return h(x, st, call)
		}
		// pure getter by default when all arguments are values
		return x.pureCall(st, call, name)
	}
	panic(fmt.Sprintf("invoke on %T", recv))
}

// pureCall models a call as a pure uninterpreted function of its arguments.
func (x *Exec) pureCall(st *State, call *Call, name string) []*State {
	x.note("interface method %s: treated as a pure function of its arguments", shortName(name))
	var ts []*Term
	for i, a := range call.Args {
		var t types.Type
		if i == 0 && len(call.Args) == call.Sig.Params().Len()+1 {
			t = types.NewInterfaceType(nil, nil)
			if s, ok := a.(Scalar); ok {
				ts = append(ts, s.T)
				continue
			}
			if iv, ok := a.(IfaceV); ok {
				ts = append(ts, x.toTerm(st, iv, t))
				continue
			}
		}
		k := i
		if len(call.Args) == call.Sig.Params().Len()+1 {
			k = i - 1
		}
		ts = append(ts, x.toTerm(st, a, call.Sig.Params().At(k).Type()))
	}
	var vs []Val
	for i := 0; i < call.Sig.Results().Len(); i++ {
		t := call.Sig.Results().At(i).Type()
		vs = append(vs, x.fromTerm(st, App(fmt.Sprintf("m!%s!%d", sanitize(shortName(name)), i), sortOf(t), ts...), t))
	}
	return call.Return(x, st, vs...)
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		p := ""
		if strings.HasPrefix(n, "(") {
			p = "("
		}
		return p + n[i+1:]
	}
	return n
}

func (x *Exec) builtin(st *State, instr ssa.CallInstruction, name string, args []Val, ret func(x *Exec, st *State, v Val)) []*State {
	c := instr.Common()
	done := func(v Val) []*State { ret(x, st, v); return []*State{st} }
	switch name {
	case "Sizeof":
		return done(Scalar{T: I(types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type()))})
	case "len":
		switch s := args[0].(type) {
		case SliceV:
			return done(Scalar{T: s.Len})
		case Scalar:
			if s.T.Sort == StrS {
				return done(Scalar{T: Len(s.T)})
			}
			if s.T == NilRef() {
				return done(Scalar{T: I(0)})
			}
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				mc, _, _ := x.mapC(st, s, c.Args[0].Type())
				st.assume(Le(I(0), mc.Len))
				return done(Scalar{T: mc.Len})
			}
		case MapV:
			l := st.Heap[s.Obj].(MapC).Len
			st.assume(Le(I(0), l))
			return done(Scalar{T: l})
		}
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			if s.Cap == nil {
				k := Fresh("cap", IntS)
				st.assume(Le(s.Len, k))
				return done(Scalar{T: k})
			}
			return done(Scalar{T: s.Cap})
		}
	case "append":
		return done(x.append(st, args[0].(SliceV), args[1], c.Args[0].Type(), c.Args[1].Type()))
	case "copy":
		d := args[0].(SliceV)
		var src *Term
		tn := false
		switch s := args[1].(type) {
		case SliceV:
			src = x.content(st, s)
			tn = tainted(s) && !isByte(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		case Scalar:
			src = s.T
		}
		n := Len(src)
		k := Ite(Le(d.Len, n), d.Len, n)
		return x.branch(st, Le(n, d.Len), func(st *State) []*State {
			x.splice(st, d, I(0), src, n)
			if tn {
				st.taint(d.Obj)
			}
			ret(x, st, Scalar{T: n})
			return []*State{st}
		}, func(st *State) []*State {
			_ = k
			x.splice(st, d, I(0), Extract(src, I(0), d.Len), d.Len)
			if tn {
				st.taint(d.Obj)
			}
			ret(x, st, Scalar{T: d.Len})
			return []*State{st}
		})
	case "print", "println":
		return done(TupleV{})
	case "min", "max":
		a := tm(args[0])
		for _, b := range args[1:] {
			if name == "min" {
				a = Ite(Le(a, tm(b)), a, tm(b))
			} else {
				a = Ite(Le(a, tm(b)), tm(b), a)
			}
		}
		return done(Scalar{T: a})
	case "clear":
		if m, ok := args[0].(MapV); ok {
			mt := c.Args[0].Type()
			nm := x.makeMap(st, mt).(MapV)
			st.setHeap(m.Obj, st.Heap[nm.Obj])
			return done(TupleV{})
		}
	case "delete":
		mc, o, ok := x.mapC(st, args[0], c.Args[0].Type())
		if ok {
			kt := x.toTerm(st, args[1], c.Args[0].Type().Underlying().(*types.Map).Key())
			st.setHeap(o, MapC{Has: Store(mc.Has, kt, False), Val: mc.Val, Len: Fresh("mlen", IntS)})
		}
		return done(TupleV{})
	case "SliceData", "StringData":
		// pointer to the first element; only used together with String/Slice
		switch s := args[0].(type) {
		case SliceV:
			return done(dataPtr{S: s})
		case Scalar:
			return done(dataPtr{Str: s.T, IsStr: true})
		}
	case "String": // unsafe.String(ptr, len)
		if p, ok := args[0].(dataPtr); ok && !p.IsStr {
			n := tm(args[1])
			x.oblige(st, "bounds", "unsafe.String within the slice", And(Le(I(0), n), Le(n, p.S.Len)))
			p.S.Obj.frozenUse = true
			return done(Scalar{T: x.content(st, SliceV{Obj: p.S.Obj, Off: p.S.Off, Len: n}), P: p.S.Obj})
		} else if ok {
			return done(Scalar{T: Extract(p.Str, I(0), tm(args[1]))})
		}
	case "Slice":
		if p, ok := args[0].(dataPtr); ok && p.IsStr {
			n := tm(args[1])
			x.oblige(st, "bounds", "unsafe.Slice within the string", And(Le(I(0), n), Le(n, Len(p.Str))))
			o := newObject("strbytes", types.Typ[types.Byte], true)
			o.RO = true
			st.Heap[o] = Scalar{T: p.Str}
			return done(SliceV{Nil: False, Obj: o, Off: I(0), Len: n})
		} else if ok {
			return done(SliceV{Nil: False, Obj: p.S.Obj, Off: p.S.Off, Len: tm(args[1])})
		}
	case "recover":
		return done(Scalar{T: AnyNil()})
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], "receiver is not nil")
		return done(args[0])
	}
	x.bail("builtin %s(%T) in %s", name, args[0], st.top().Fn)
	return nil
}

type dataPtr struct {
	S     SliceV
	Str   *Term
	IsStr bool
}

// splice overwrites d[at:at+n] with src (len n).
func (x *Exec) splice(st *State, d SliceV, at, src, n *Term) {
	if n.IsInt() && n.Int.Sign() == 0 {
		return
	}
	if d.Obj.RO {
		x.oblige(st, "memory", "no write into read-only memory", False)
	}
	c := x.objSeq(st, d.Obj)
	o := Add(d.Off, at)
	e := Add(o, n)
	st.setHeap(d.Obj, Scalar{T: CatS(c.Sort, Extract(c, I(0), o), src, Extract(c, e, Sub(Len(c), e)))})
	x.clobberParents(st, d.Obj)
}

func (x *Exec) clobberParents(st *State, o *Object) {
	for q := o.parent; q != nil; q = q.parent {
		if _, ok := st.Heap[q]; ok {
			if n := Len(x.objSeq(st, q)); true {
				f := Fresh("clobbered", contentSort(q.Type))
				st.assume(Eq(Len(f), n))
				st.setHeap(q, Scalar{T: f})
			}
		}
	}
}

func (x *Exec) append(st *State, a SliceV, b Val, at, bt types.Type) Val {
	el := at.Underlying().(*types.Slice).Elem()
	// appending nothing returns the same slice
	var bl *Term
	switch s := b.(type) {
	case SliceV:
		bl = s.Len
		if bl.IsInt() && bl.Int.Sign() == 0 {
			return a
		}
	case Scalar:
		bl = Len(s.T)
		if bl.IsInt() && bl.Int.Sign() == 0 {
			return a
		}
	}
	if a.Obj.Owner == "driver" {
		x.oblige(st, "memory", "no append to a slice of the driver's buffer (may overwrite it)", B(false))
	}
	o := newObject("append", el, true)
	// keep element values when both sides are concrete lists
	av, aok := x.elems(st, a)
	tn := st.GObj["tainted"][a.Obj]
	var bv []Val
	bok := false
	if s, ok := b.(SliceV); ok {
		bv, bok = x.elems(st, s)
		if st.GObj["tainted"][s.Obj] {
			tn = true
		}
	}
	if aok && bok && !isByte(el) {
		st.Heap[o] = ArrV{E: append(append([]Val(nil), av...), bv...)}
	} else {
		var bc *Term
		switch s := b.(type) {
		case SliceV:
			if bok && !isByte(el) {
				cs := contentSort(el)
				bc = Empty(cs)
				for _, e := range bv {
					if tainted(e) {
						tn = true
					}
					bc = CatS(cs, bc, UnitFor(cs, x.toTerm(st, e, el)))
				}
			} else {
				bc = x.content(st, s)
			}
		case Scalar:
			bc = s.T
		}
		ac := x.content(st, a)
		st.Heap[o] = Scalar{T: CatS(ac.Sort, ac, bc)}
	}
	if tn {
		st.taint(o)
	}
	r := SliceV{Nil: False, Obj: o, Off: I(0), Len: Add(a.Len, bl)}
	if !(bl.IsInt() && bl.Int.Sign() > 0) {
		r.Nil = And(a.Nil, Eq(bl, I(0)))
	}
	// possible in-place growth: the new slice may share a's array
	inPlace := !(a.Nil == True) && !(a.Cap != nil && a.Cap == a.Len)
	if a.Len.IsInt() && a.Len.Int.Sign() == 0 && a.Cap == nil && a.Nil == True {
		inPlace = false
	}
	if inPlace {
		// if a does not extend to the end of its backing content, what lies
		// behind it may be overwritten
		c := x.objSeq(st, a.Obj)
		end := Add(a.Off, a.Len)
		if Len(c) != end {
			x.overwriteTail(st, a, end, bl, b)
		}
		// an earlier append to the same slice may now be overwritten
		for _, k := range a.Obj.kids {
			if _, ok := st.Heap[k]; ok && k.derivedLen == end {
				if !x.dryKid(st, k) {
					f := Fresh("clobbered", contentSort(k.Type))
					st.assume(Eq(Len(f), Len(x.objSeq(st, k))))
					st.assume(Eq(Extract(f, I(0), end), Extract(x.objSeq(st, k), I(0), end)))
					st.setHeap(k, Scalar{T: f})
				}
			}
		}
		o.parent = a.Obj
		o.derivedLen = end
		a.Obj.kids = append(a.Obj.kids, o)
	}
	return r
}

func (x *Exec) dryKid(st *State, k *Object) bool { return false }

// overwriteTail: append to a[:n] where the backing array continues behind n
// overwrites the following elements when capacity allows (it does: the content
// behind is within the array).
func (x *Exec) overwriteTail(st *State, a SliceV, end, n *Term, b Val) {
	c := x.objSeq(st, a.Obj)
	f := Fresh("overwritten", c.Sort)
	st.assume(Eq(Len(f), Len(c)))
	st.assume(Eq(Extract(f, I(0), end), Extract(c, I(0), end)))
	st.setHeap(a.Obj, Scalar{T: f})
	x.clobberParents(st, a.Obj)
}

// elems returns the individually known elements of a slice, if any.
func (x *Exec) elems(st *State, s SliceV) ([]Val, bool) {
	if s.Len.IsInt() && s.Len.Int.Sign() == 0 {
		return nil, true
	}
	c, ok := st.Heap[s.Obj].(ArrV)
	if !ok || !s.Off.IsInt() || !s.Len.IsInt() {
		return nil, false
	}
	o, n := s.Off.Int.Int64(), s.Len.Int.Int64()
	if o < 0 || o+n > int64(len(c.E)) {
		return nil, false
	}
	return c.E[o : o+n], true
}

var _ = sync.Mutex{}
