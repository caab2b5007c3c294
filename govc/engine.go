package main

// Loading of the real packages, contract registry, unit verification.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	th       *Theory
	models   map[string]Model
	modulars map[string]*Spec
	traceSSA bool
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	pdoms    map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	mu       sync.Mutex
	trivials map[string]int
	Rep      func(a ...*Term) *Term
	runesOf  func(a ...*Term) *Term
	funcs    map[string]*ssa.Function
	errs     []string
}

func NewEngine() *Engine {
	e := &Engine{pkgs: map[string]*ssa.Package{}, th: NewTheory(), models: map[string]Model{}, modulars: map[string]*Spec{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, pdoms: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, trivials: map[string]int{}}
	e.traceSSA = os.Getenv("GOVC_SSA") != ""
	initTheory(e)
	initModels(e)
	for _, f := range moreModels {
		f(e)
	}
	return e
}

// Load type-checks and builds the packages matching patterns in dir.
// build lists the package path prefixes whose bodies are executed.
func (e *Engine) Load(dir string, overlay map[string][]byte, build []string, patterns ...string) error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Overlay: overlay, Env: os.Environ(),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	e.prog = prog
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		e.pkgs[path] = p
		for _, b := range build {
			if path == b || strings.HasSuffix(b, "/...") && strings.HasPrefix(path, strings.TrimSuffix(b, "...")) {
				p.Build()
			}
		}
	}
	return nil
}

func (e *Engine) loopAt(b *ssa.BasicBlock) *Loop {
	e.mu.Lock()
	defer e.mu.Unlock()
	fn := b.Parent()
	m, ok := e.loops[fn]
	if !ok {
		m = loopsOf(fn)
		e.loops[fn] = m
	}
	return m[b]
}

func (e *Engine) trivial(x *Exec, kind string) { x.trivial++ }

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

func (e *Engine) model(name string) Model {
	if m := e.models[name]; m != nil {
		return m
	}
	if s := stripInst(name); s != name {
		return e.models[s]
	}
	return nil
}

func (e *Engine) modular(fn *ssa.Function, name string) *Spec {
	if s := e.modulars[name]; s != nil {
		return s
	}
	if s := stripInst(name); s != name {
		return e.modulars[s]
	}
	return nil
}

// globalStores returns the values stored to g anywhere in its package.
func globalStores(g *ssa.Global) (vals []ssa.Value, ok bool) {
	ok = true
	eachFunc(g.Pkg, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, isS := in.(*ssa.Store); isS && s.Addr == g {
					vals = append(vals, s.Val)
				}
			}
		}
	})
	return
}

// eachFunc visits every function of a package.
func eachFunc(p *ssa.Package, f func(fn *ssa.Function)) {
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		f(fn)
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			scan(m)
		case *ssa.Type:
			if n, isN := m.Type().(*types.Named); isN {
				for i := 0; i < n.NumMethods(); i++ {
					if f := p.Prog.FuncValue(n.Method(i)); f != nil {
						scan(f)
					}
				}
			}
		}
	}
}

func (e *Engine) globalConst(x *Exec, st *State, g *ssa.Global) Val {
	vals, _ := globalStores(g)
	if len(vals) != 1 {
		if len(vals) == 0 && g.Object() != nil && !g.Object().Exported() {
			t := g.Type().(*types.Pointer).Elem()
			switch t.Underlying().(type) {
			case *types.Basic:
				return x.zero(st, t)
			}
		}
		return nil
	}
	switch v := vals[0].(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			if s, ok := v.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				r := x.newSlice(st, g.Name(), s.Elem(), S(constant.StringVal(c.Value)))
				r.Obj.Global = true
				return r
			}
		}
	case *ssa.Call:
		if f, ok := v.Call.Value.(*ssa.Function); ok && f.String() == "regexp.MustCompile" {
			if c, ok := v.Call.Args[0].(*ssa.Const); ok {
				return Scalar{T: regexRef(constant.StringVal(c.Value))}
			}
		}
	case *ssa.MakeMap:
		if r := e.literalMap(x, st, g, v); r != nil {
			return r
		}
	case *ssa.Slice:
		// composite literal of a slice: constants stored into a fresh array
		if r := e.literalSlice(x, st, v); r != nil {
			return r
		}
	}
	return nil
}

// literalMap: an unexported map filled with constants and only read after.
func (e *Engine) literalMap(x *Exec, st *State, g *ssa.Global, v *ssa.MakeMap) Val {
	if g.Object() == nil || g.Object().Exported() || !onlyLookedUp(g) {
		return nil
	}
	type kv struct{ k, v *ssa.Const }
	var l []kv
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := r.Key.(*ssa.Const)
			c, ok2 := r.Value.(*ssa.Const)
			if !ok1 || !ok2 || r.Map != v {
				return nil
			}
			l = append(l, kv{k, c})
		case *ssa.Store:
			if r.Addr != g {
				return nil
			}
		default:
			return nil
		}
	}
	m := x.makeMap(st, v.Type()).(MapV)
	for _, p := range l {
		x.mapUpdate(st, m, v.Type(), x.constVal(st, p.k), x.constVal(st, p.v))
	}
	m.Obj.Global = true
	return m
}

// onlyLookedUp: every use of the map in g is a lookup or a length.
func onlyLookedUp(g *ssa.Global) bool {
	ok := true
	eachFunc(g.Pkg, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						ok = ok && in.Addr == g
					case *ssa.UnOp:
						for _, r := range *in.Referrers() {
							if l, is := r.(*ssa.Lookup); !is || l.X != in {
								ok = false
							}
						}
					default:
						ok = false
					}
				}
			}
		}
	})
	return ok
}

func (e *Engine) literalSlice(x *Exec, st *State, v *ssa.Slice) Val {
	al, ok := v.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	av := ArrV{}
	for i := int64(0); i < arr.Len(); i++ {
		av.E = append(av.E, x.zero(st, arr.Elem()))
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			s, ok := rr.(*ssa.Store)
			if !ok {
				return nil
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok {
				return nil
			}
			av.E[k.Int64()] = x.constVal(st, c)
		}
	}
	o := newObject("lit", arr.Elem(), true)
	o.Global = true
	st.Heap[o] = av
	if isByte(arr.Elem()) {
		st.Heap[o] = Scalar{T: x.toTerm(st, av, arr)}
	}
	return SliceV{Nil: False, Obj: o, Off: I(0), Len: I(arr.Len())}
}

// ---- specs

type Spec struct {
	ID           string
	Props        []string
	Fn           func(e *Engine) *ssa.Function
	Key          string // contract key for callers (modular use)
	Setup        func(c *Ctx)
	Post         func(c *Ctx)
	Inv          func(lc *LoopCtx)
	InvRounds    int
	OwnInv       bool // only the invariants of Inv are tried
	NoMemo       bool // the same loop is met with different slices: do not remember which invariants failed
	Unroll       int
	Models       map[string]Model
	DynCall      func(x *Exec, st *State, fn *Term, call *Call) ([]*State, bool)
	DriverArgs   map[*Term]bool
	NoWriteOwner map[string]bool
	Apply        func(x *Exec, st *State, call *Call) []*State
	Lemma        func(e *Engine) []*Obl // pure lemma obligations instead of a function
	base         *Spec
	Note         string
	Merge        bool // join branches where they meet
	Optional     bool // a helper: its callers do not depend on its existence
}

func (s *Spec) Base() *Spec {
	if s.base != nil {
		return s.base
	}
	return s
}

func (s *Spec) apply(x *Exec, st *State, call *Call) []*State { return s.Apply(x, st, call) }

// Ctx is what a contract sees.
type Ctx struct {
	X    *Exec
	E    *Engine
	St0  *State // entry snapshot
	St   *State
	Args []Val
	Ret  []Val
	Fn   *ssa.Function
	V    map[string]any
	spec *Spec
}

func (c *Ctx) Ensure(name string, t *Term) { c.X.oblige(c.St, "ensures", name, t) }

// EnsureP: a postcondition that belongs to one property only.
func (c *Ctx) EnsureP(prop, name string, t *Term) {
	n := len(c.X.obls)
	c.X.oblige(c.St, "ensures", name, t)
	for _, o := range c.X.obls[n:] {
		o.Prop = prop
	}
}
func (c *Ctx) Assume(t *Term) { c.St.assume(t) }

// Ref: content of a pointer argument (by value) at exit.
func (c *Ctx) Deref(st *State, p Val) Val {
	switch p := p.(type) {
	case PtrV:
		v, _ := c.X.getPath(st, st.Heap[p.Obj], objContainer(p.Obj), p.Path)
		return v
	}
	panic(fmt.Sprintf("deref %T", p))
}

type UnitResult struct {
	ID      string
	Func    string
	Props   []string
	Obls    []*Obl
	Trivial int
	Loops   int
	Invs    map[string]int
	InvObls int
	Paths   int
	Returns int
	Err     string
	Notes   []string
	Inlined []string
	Specs   []string
	Models  []string
	Wall    time.Duration
	Vacuous bool
}

func (e *Engine) newExec(sp *Spec) *Exec {
	return &Exec{prog: e.prog, th: e.th, cur: sp, eng: e, notes: map[string]bool{}, inlined: map[string]bool{}, usedSpecs: map[string]bool{},
		usedModels: map[string]bool{}, invs: map[string]int{}, dropped: map[string]bool{}, globals: map[*ssa.Global]*Object{}, inits: map[*ssa.Global]Val{}}
}

func newState() *State {
	return &State{Heap: map[*Object]Val{}, H: map[string]*Term{}, Ghost: map[string]*Term{}, GObj: map[string]map[*Object]bool{},
		memo: map[*Term]*Object{}, Res: map[*Object]bool{}}
}

// retryUntil: failed units are tried again with a larger solver budget before
// this moment, so that a loaded machine does not turn into an alarm.
var retryUntil time.Time

// Verify generates and discharges the obligations of one unit.
func (e *Engine) Verify(base *Spec) *UnitResult {
	res := e.verify(base)
	undecided := res.Err != "" && !strings.HasPrefix(res.Err, "outside")
	for _, o := range failed(res) {
		if o.Res.Status != "sat" || o.Res.TimedOut || res.Loops > 0 {
			undecided = true
		}
	}
	if !undecided || stopped() || !time.Now().Before(retryUntil) {
		return res
	}
	forgetUndecided()
	sq, s1, s2 := stageQ, stage1, stage2
	stageQ, stage1, stage2 = 4*sq, 3*s1, 2*s2
	r2 := e.verify(base)
	stageQ, stage1, stage2 = sq, s1, s2
	r2.Wall += res.Wall
	if r2.Err == "" && len(failed(r2)) <= len(failed(res)) {
		return r2
	}
	return res
}

func (e *Engine) verify(base *Spec) (res *UnitResult) {
	start := time.Now()
	cp := *base
	sp := &cp
	sp.base = base
	sp.DriverArgs = map[*Term]bool{}
	sp.NoWriteOwner = map[string]bool{"driver": true}
	for k, v := range base.NoWriteOwner {
		sp.NoWriteOwner[k] = v
	}
	res = &UnitResult{ID: base.ID, Props: base.Props}
	x := e.newExec(sp)
	var covers []*Obl
	func() {
		defer func() {
			if r := recover(); r != nil {
				if b, ok := r.(bailout); ok {
					res.Err = "outside the supported subset: " + b.msg
					return
				}
				res.Err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", base.ID, r, debug.Stack())
				}
			}
		}()
		if base.Lemma != nil {
			x.obls = base.Lemma(e)
			return
		}
		fn := base.Fn(e)
		if fn == nil {
			res.Err = "function under contract not found"
			return
		}
		res.Func = fn.String()
		if len(fn.Blocks) == 0 {
			res.Err = "function has no body: " + fn.String()
			return
		}
		st := newState()
		c := &Ctx{X: x, E: e, St: st, Fn: fn, V: map[string]any{}, spec: sp}
		if base.Setup != nil {
			base.Setup(c)
		}
		for i := len(c.Args); i < len(fn.Params); i++ {
			p := fn.Params[i]
			c.Args = append(c.Args, c.fresh(p.Name(), p.Type()))
		}
		c.St0 = st.clone()
		x.finish = func(st *State, ret []Val) {
			res.Returns++
			k := *c
			k.St = st
			k.Ret = ret
			covers = append(covers, &Obl{PC: append([]*Term(nil), st.PC...)})
			if base.Post != nil {
				base.Post(&k)
			}
		}
		x.pushFrame(st, fn, c.Args, nil, nil)
		x.run([]*State{st})
	}()
	res.Obls = x.obls
	res.Trivial = x.trivial
	res.Loops = x.loopsN
	res.Invs = x.invs
	res.InvObls = x.invObls
	res.Paths = x.paths + 1
	res.Notes = sortedKeys(x.notes)
	res.Inlined = sortedKeys(x.inlined)
	res.Specs = sortedKeys(x.usedSpecs)
	res.Models = sortedKeys(x.usedModels)
	// discharge
	parallel(len(x.obls), func(i int) {
		o := x.obls[i]
		r := e.th.Check(append(append([]*Term(nil), o.PC...), Not(o.Goal)), o.Exclude, false, true)
		o.Res = r
		o.OK = r.Status == "unsat"
		if o.OK {
			backendCount(r.Solver)
		}
	})
	if base.Lemma == nil && res.Err == "" {
		// vacuity: some return path must be satisfiable (or at least not refuted)
		ok := false
		for _, cv := range covers {
			if r := e.th.Check(cv.PC, nil, true, false); r.Status != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			res.Vacuous = true
			res.Err = "no feasible return path (vacuous contract)"
		}
	}
	res.Wall = time.Since(start)
	return res
}

func (c *Ctx) fresh(name string, t types.Type) Val {
	st := c.St
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, isS := u.Elem().Underlying().(*types.Struct); isS && !isBuilder(u.Elem()) && !isOpaqueStruct(u.Elem()) {
			// by default: a valid, unshared pointer
		}
		o := newObject(name, u.Elem(), false)
		o.Extern = true
		st.Heap[o] = c.X.fresh(st, name, u.Elem())
		return PtrV{Obj: o}
	}
	return c.X.fresh(st, name, t)
}

func (e *Engine) Func(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	if f := p.Func(name); f != nil {
		return f
	}
	return nil
}

// Method finds a declared method "T.M" or "*T.M" of a package type.
func (e *Engine) Method(pkg, typ, name string, ptr bool) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	tn, ok := p.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	return e.prog.LookupMethod(t, p.Pkg, name)
}

func failed(r *UnitResult) (out []*Obl) {
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return
}
