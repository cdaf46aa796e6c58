package main

// Abstract interpretation of SSA functions over canonical value graphs.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Effect struct {
	op    string
	args  []*V
	guard *V
	pos   string
	fn    string
	res   *V
	body  []*Effect // of a loop
	loop  *V
}

type State struct {
	mem  map[int]*V
	over map[*V]*V
	regs map[ssa.Value]*V
	eff  []*Effect
}

func newState() *State {
	return &State{mem: map[int]*V{}, over: map[*V]*V{}, regs: map[ssa.Value]*V{}}
}
func (s *State) clone() *State {
	n := &State{mem: make(map[int]*V, len(s.mem)), over: make(map[*V]*V, len(s.over)), regs: make(map[ssa.Value]*V, len(s.regs)), eff: s.eff[:len(s.eff):len(s.eff)]}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.over {
		n.over[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

type Edge struct {
	from, to *ssa.BasicBlock
	guard    *V
	st       *State
	phis     []*V
}

type retRec struct {
	guard *V
	st    *State
	vals  []*V
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*V
	rets     []*retRec
	defers   []*deferRec
	loops    map[*ssa.BasicBlock]*Loop
	rpo      []*ssa.BasicBlock
	exitCond map[*ssa.BasicBlock]*V // last condition of exit branches
}

type deferRec struct {
	guard *V
	call  *ssa.CallCommon
	fnV   *V
	args  []*V
	pos   token.Pos
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type Interp struct {
	fewRounds bool // a loop of a few rounds at most is unrolled
	p         *Program
	opaque    func(fn *ssa.Function) bool
	nobj      int
	missorts  bool
	glob      map[*ssa.Global]int
	gname     map[int]*ssa.Global
	symG      map[*ssa.Global]bool
	objType   map[int]types.Type
	symObj    map[*V]int
	init      map[int]*V // initial contents of lazily created objects
	base      *State
	stack     []*ssa.Function
	steps     int
	maxStep   int
	ctx       []*V // guards of the enclosing loop bodies
	depth     int  // loop nesting
	trace     map[*ssa.Function]int
	loopsSeen []*LoopInfo
	facts     []*V
	unknown   map[string]int // unmodelled operations met
	callDepth int
	reads     map[*ssa.Global]bool
	writes    []globWrite
	initPhase bool
	env       []envRead
	initial   map[int]*V // values of the symbolic globals after initialisation
	cfg       config
	appRuns   []appRun
	watched   *V
	embedded  []embeddedFile
	onceDepth int
}

type globWrite struct {
	g   *ssa.Global
	fn  string
	pos string
}

func newInterp(p *Program) *Interp {
	in := &Interp{p: p, glob: map[*ssa.Global]int{}, gname: map[int]*ssa.Global{}, symG: map[*ssa.Global]bool{}, initial: map[int]*V{}, objType: map[int]types.Type{},
		symObj: map[*V]int{}, init: map[int]*V{}, maxStep: 4000000, trace: map[*ssa.Function]int{}, unknown: map[string]int{}, reads: map[*ssa.Global]bool{}}
	in.base = newState()
	in.nobj = 100
	return in
}

func fail(format string, a ...any) { panic(undecided{fmt.Sprintf(format, a...)}) }

func (in *Interp) newObj(t types.Type) int {
	in.nobj++
	in.objType[in.nobj] = t
	return in.nobj
}

// ---------------------------------------------------------------- globals

func (in *Interp) globalObj(g *ssa.Global) int {
	if o, ok := in.glob[g]; ok {
		return o
	}
	o := in.newObj(g.Type().Underlying().(*types.Pointer).Elem())
	in.glob[g] = o
	in.gname[o] = g
	return o
}

// initGlobals evaluates the package initialisers and decides which globals
// are constant: never written outside initialisation, nor addressable by users.
func (in *Interp) initGlobals(pkgs ...*ssa.Package) {
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := in.globalObj(g)
				in.base.mem[o] = zeroOf(in.objType[o])
			}
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		in.initPhase = true
		guard, _, st := in.callFunc(f, nil, nil, True, in.base, token.NoPos)
		in.initPhase = false
		if guard != True {
			fail("initialisation of %s does not complete", p.Pkg.Path())
		}
		st.eff = nil
		in.base = st
	}
	// symbolic globals: written by functions other than init
	for _, fn := range in.p.ownFuncs() {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, w := range globalStores(fn) {
			in.symG[w] = true
		}
	}
	for _, p := range pkgs {
		if p == nil || p != in.p.root {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && token.IsExported(g.Name()) {
				if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
					in.symG[g] = true
				}
			}
		}
	}
	for g := range in.symG {
		if o, ok := in.glob[g]; ok {
			in.initial[o] = in.base.mem[o]
			in.base.mem[o] = symOf(mkOpaque("global:"+g.Name(), in.objType[o]), in.objType[o])
		}
	}
}

// globalStores lists the globals a function may store to (directly through
// their address or parts of it, or through a map held in them).
func globalStores(fn *ssa.Function) []*ssa.Global {
	var out []*ssa.Global
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if g := addrRoot(i.Addr); g != nil {
					out = append(out, g)
				}
			case *ssa.MapUpdate:
				if g := valRoot(i.Map); g != nil {
					out = append(out, g)
				}
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") && len(c.Args) > 0 {
					if g := valRoot(c.Args[0]); g != nil {
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}
func addrRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
			return valRoot(x.X)
		default:
			return nil
		}
	}
}
func valRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return addrRoot(x.X)
			}
			return nil
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FieldAddr, *ssa.Global:
			return addrRoot(v)
		default:
			return nil
		}
	}
}

// ---------------------------------------------------------------- memory

func (in *Interp) content(st *State, obj int) *V {
	if v, ok := st.mem[obj]; ok {
		return v
	}
	if v, ok := in.base.mem[obj]; ok {
		return v
	}
	if v, ok := in.init[obj]; ok {
		return v
	}
	return Undef
}

func (in *Interp) resolve(st *State, seq *V) *V {
	for i := 0; i < 10000; i++ {
		n, ok := st.over[seq]
		if !ok {
			return seq
		}
		seq = n
	}
	fail("cyclic slice store")
	return nil
}

// elemType of a sequence base term
func elemTypeOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func baseLen(b *V) *V {
	switch b.op {
	case "seqstore", "sorted", "missorted":
		return seqLen(b.args[0])
	case "makeseq":
		return b.args[0]
	case "strbytes":
		return StrLen(b.args[0])
	case "subseq":
		// slicing within bounds
		hi := b.args[2]
		if hi == Int(-1) {
			hi = seqLen(b.args[0])
		}
		return ISub(hi, b.args[1])
	}
	return mkInt(vAtom(mkOpaque("len", nil, b), big0, nil))
}

func seqLen(s *V) *V {
	return lift("seqlen", func(x []*V) *V {
		s := x[0]
		if s.k == KNil {
			return Int(0)
		}
		if s.k != KSeq {
			return Undef
		}
		n := Int(0)
		for _, sg := range s.segs {
			l := Int(1)
			if sg.el == nil {
				l = baseLen(sg.base)
			}
			n = IAdd(n, ite(sg.g, l, Int(0)))
		}
		return n
	}, s)
}

func baseElem(b, idx *V) *V {
	et := elemTypeOf(b.typ)
	switch b.op {
	case "seqstore":
		s, i, v := b.args[0], b.args[1], b.args[2]
		return ite(ICmp("==", i, idx), v, seqElem(s, idx))
	case "makeseq":
		return zeroOf(et)
	case "subseq":
		return seqElem(b.args[0], IAdd(idx, b.args[1]))
	}
	if et == nil {
		return mkOpaque("elem", nil, b, idx)
	}
	if bt, ok := et.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return mkInt(vAtom(mkOpaque("elem", et, b, idx), typeLo(bt), nil))
	}
	return symOf(mkOpaque("elem", et, b, idx), et)
}

func seqElem(s, idx *V) *V {
	return lift("seqelem", func(x []*V) *V {
		s, idx := x[0], x[1]
		if s.k != KSeq {
			return Undef
		}
		pos := Int(0)
		var res *V = Undef
		type cv struct{ c, v *V }
		var cs []cv
		for n, sg := range s.segs {
			if sg.el != nil {
				cs = append(cs, cv{And(sg.g, ICmp("==", idx, pos)), sg.el})
				pos = IAdd(pos, ite(sg.g, Int(1), Int(0)))
				continue
			}
			if n == 0 && len(s.segs) == 1 && sg.g == True {
				return baseElem(sg.base, idx)
			}
			l := baseLen(sg.base)
			end := IAdd(pos, l)
			off := ISub(idx, pos)
			c := And(sg.g, And(ICmp(">=", idx, pos), ICmp("<", idx, end)))
			if c != False {
				b := sg.base
				cs = append(cs, cv{c, lift(fmt.Sprintf("baseelem%d", b.id), func(y []*V) *V { return baseElem(b, y[0]) }, off)})
			}
			pos = ite(sg.g, end, pos)
		}
		for i := len(cs) - 1; i >= 0; i-- {
			if res == Undef {
				// out of range panics: the last possibility is the default
				res = cs[i].v
				if cs[i].c == False {
					res = Undef
				}
				continue
			}
			res = ite(cs[i].c, cs[i].v, res)
		}
		return res
	}, s, idx)
}

func seqSet(s, idx, val *V) *V {
	return lift("seqset", func(x []*V) *V {
		s, idx := x[0], x[1]
		if s.k != KSeq {
			return Undef
		}
		plain := true
		for _, sg := range s.segs {
			if sg.el == nil || sg.g != True {
				plain = false
			}
		}
		if plain {
			segs := append([]Seg{}, s.segs...)
			for i := range segs {
				segs[i].el = ite(ICmp("==", idx, Int(int64(i))), val, segs[i].el)
			}
			return mkSeq(segs)
		}
		var typ types.Type
		for _, sg := range s.segs {
			if sg.base != nil {
				typ = sg.base.typ
			}
		}
		if len(s.segs) == 1 && s.segs[0].el != nil {
			// zero or one element
			if idx == Int(0) {
				return mkSeq([]Seg{{g: s.segs[0].g, el: val}})
			}
		}
		return mkSeq([]Seg{{g: True, base: mkOpaque("seqstore", typ, s, idx, val)}})
	}, s, idx)
}

func getPath(in *Interp, st *State, c *V, path []PathEl) *V {
	for _, e := range path {
		if e.seq != nil {
			// element of a slice stored in the content
			fail("nested sequence path")
		}
		c = lift(fmt.Sprintf("get%d", e.field), func(x []*V) *V {
			if x[0].k != KStruct || e.field >= len(x[0].args) {
				return Undef
			}
			return x[0].args[e.field]
		}, c)
	}
	return c
}

func setPath(c *V, path []PathEl, v *V) *V {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if c.k == KNode {
		return mapLeaves(c, func(l *V) *V { return setPath(l, path, v) })
	}
	if c.k != KStruct || e.field >= len(c.args) {
		fail("store into an unknown object")
	}
	fs := append([]*V{}, c.args...)
	fs[e.field] = setPath(fs[e.field], path[1:], v)
	return mkStruct(c.typ, fs)
}

func (in *Interp) load(st *State, ptr *V) *V {
	return mapLeaves(ptr, func(p *V) *V {
		if p.k == KUndef || p.k == KNil {
			return Undef
		}
		if p.k == KOpaque {
			p = in.symPtr(p)
		}
		if p.k != KPtr {
			fail("load through %s", p)
		}
		if len(p.path) > 0 && p.path[0].seq != nil {
			s := in.resolve(st, p.path[0].seq)
			return getPath(in, st, seqElem(s, p.path[0].idx), p.path[1:])
		}
		if g := in.gname[p.obj]; g != nil {
			in.reads[g] = true
		}
		return getPath(in, st, in.content(st, p.obj), p.path)
	})
}

// symPtr gives an opaque pointer its object.
func (in *Interp) symPtr(t *V) *V {
	if t.typ == nil {
		fail("untyped pointer %s", t)
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		fail("not a pointer: %s", t)
	}
	o, ok := in.symObj[t]
	if !ok {
		o = in.newObj(pt.Elem())
		in.symObj[t] = o
		in.init[o] = symOf(mkOpaque("*", pt.Elem(), t), pt.Elem())
	}
	return mkPtr(o, nil)
}

func (in *Interp) store(st *State, ptr, val *V, guard *V, pos string, fn string) {
	for _, lc := range leafConds(ptr) {
		p := lc.leaf
		if p.k == KUndef || p.k == KNil {
			continue
		}
		if ptr.k == KNode && guard != True {
			if And(guard, lc.cond) == False {
				continue
			}
			if And(guard, Not(lc.cond)) == False {
				lc.cond = True
			}
		}
		if p.k == KOpaque {
			p = in.symPtr(p)
		}
		if p.k != KPtr {
			fail("store through %s", p)
		}
		if len(p.path) > 0 && p.path[0].seq != nil {
			key := p.path[0].seq
			s := in.resolve(st, key)
			nv := val
			if len(p.path) > 1 {
				nv = setPath(seqElem(s, p.path[0].idx), p.path[1:], val)
			}
			ns := ite(lc.cond, seqSet(s, p.path[0].idx, nv), s)
			if ns != s {
				// the most recent value of the slice
				k := key
				for {
					n, ok := st.over[k]
					if !ok {
						break
					}
					k = n
				}
				if ns == key {
					// back to the original contents
					delete(st.over, key)
				} else {
					st.over[key] = ns
				}
			}
			continue
		}
		if g := in.gname[p.obj]; g != nil && !in.initPhase {
			in.writes = append(in.writes, globWrite{g, fn, pos})
		}
		old := in.content(st, p.obj)
		nv := setPath(old, p.path, val)
		st.mem[p.obj] = ite(lc.cond, nv, old)
	}
}

// ---------------------------------------------------------------- merging

func (in *Interp) mergeStates(gs []*V, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	res := sts[len(sts)-1].clone()
	for i := len(sts) - 2; i >= 0; i-- {
		g, s := gs[i], sts[i]
		for o, v := range s.mem {
			if w, ok := res.mem[o]; ok {
				if v != w {
					res.mem[o] = ite(g, in.resolveSlices(s, v), in.resolveSlices(res, w))
				}
			} else {
				w := in.content(res, o)
				if w == Undef {
					res.mem[o] = v
				} else {
					res.mem[o] = ite(g, v, w)
				}
			}
		}
		for o, w := range res.mem {
			if _, ok := s.mem[o]; !ok {
				v := in.content(s, o)
				if v != Undef && v != w {
					res.mem[o] = ite(g, in.resolveSlices(s, v), in.resolveSlices(res, w))
				}
			}
		}
		for r, v := range s.regs {
			if w, ok := res.regs[r]; ok {
				if v != w {
					res.regs[r] = ite(g, in.resolveSlices(s, v), in.resolveSlices(res, w))
				}
			} else {
				res.regs[r] = v
			}
		}
		for k := range s.over {
			v, w := in.resolve(s, k), in.resolve(res, k)
			if v != w {
				m := ite(g, v, w)
				if m == k {
					delete(res.over, k)
				} else {
					res.over[k] = m
				}
			}
		}
		for k := range res.over {
			if _, ok := s.over[k]; !ok {
				w := in.resolve(res, k)
				if w != k {
					res.over[k] = ite(g, k, w)
				}
			}
		}
		// effects: common prefix, then both tails (their guards are disjoint)
		n := 0
		for n < len(s.eff) && n < len(res.eff) && s.eff[n] == res.eff[n] {
			n++
		}
		eff := append([]*Effect{}, s.eff...)
		eff = append(eff, res.eff[n:]...)
		res.eff = eff
	}
	return res
}

// mergeAt merges values of several states; slices that differ are replaced by
// their current contents.
func (in *Interp) mergeAt(gs []*V, vs []*V, sts []*State) *V {
	same := true
	for _, v := range vs {
		same = same && v == vs[0]
	}
	if same {
		return vs[0]
	}
	rs := make([]*V, len(vs))
	for i, v := range vs {
		rs[i] = in.resolveSlices(sts[i], v)
	}
	return mergeVals(gs, rs)
}

// resolveSlices replaces slices by their current contents.
func (in *Interp) resolveSlices(st *State, v *V) *V {
	if len(st.over) == 0 {
		return v
	}
	switch v.k {
	case KSeq:
		return in.resolve(st, v)
	case KStruct:
		fs := make([]*V, len(v.args))
		for i, a := range v.args {
			fs[i] = in.resolveSlices(st, a)
		}
		return mkStruct(v.typ, fs)
	case KNode:
		return mapLeaves(v, func(l *V) *V {
			if l.k == KNode {
				return l
			}
			return in.resolveSlices(st, l)
		})
	}
	return v
}

func mergeVals(gs []*V, vs []*V) *V {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = ite(gs[i], vs[i], r)
	}
	return r
}

// ---------------------------------------------------------------- control flow

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				rec(s)
			}
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function, rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		num[b] = i
	}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if _, ok := num[p]; ok {
							work = append(work, p)
						}
					}
				}
			} else if num[s] <= num[b] {
				fail("irreducible control flow in %s", fn)
			}
		}
	}
	return loops
}

func (in *Interp) tick() {
	in.steps++
	if in.steps > in.maxStep {
		fail("analysis budget exhausted")
	}
}

// recLimit is the number of nested activations of one function that are
// followed; deeper ones are uninterpreted.
var recLimit = 16

// callFunc evaluates a function body.
// switches are the values of the exported settings of the package.
func (in *Interp) switches(st *State) []*V {
	var gs []*ssa.Global
	for g := range in.symG {
		if g.Pkg == in.p.root {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	var out []*V
	for _, g := range gs {
		if o, ok := in.glob[g]; ok {
			out = append(out, in.canon(st, in.load(st, mkPtr(o, nil))))
		}
	}
	return out
}

// linked finds the function of the repository a rule names by a stand-in:
// x_f is the unexported f of the package, utils_f that of the years program,
// cli_f that of the command line program.
func (in *Interp) linked(fn *ssa.Function) (*ssa.Function, bool) {
	pre, name, ok := strings.Cut(fn.Name(), "_")
	var pkg *ssa.Package
	switch {
	case !ok:
		return nil, false
	case pre == "x":
		pkg = in.p.root
	case pre == "utils":
		pkg = in.p.utils
	case pre == "cli":
		pkg = in.p.cli
	default:
		return nil, false
	}
	if pkg == nil {
		fail("the package of %s is missing", name)
	}
	t := pkg.Func(name)
	if t == nil {
		fail("there is no function %s", name)
	}
	if !types.Identical(stripNames(t.Signature), stripNames(fn.Signature)) {
		fail("the signature of %s has changed", name)
	}
	return t, true
}

func (in *Interp) callFunc(fn *ssa.Function, args, binds []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	if fn.Pkg != nil && fn.Pkg == in.p.spec {
		if r, ok := in.ruleIntrinsic(fn, args); ok {
			return guard, r, st
		}
		if t, ok := in.linked(fn); ok {
			if in.opaque != nil && in.opaque(t) {
				return in.callStatic(t, args, nil, guard, st, pos)
			}
			fn = t
		}
	}
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	for _, f := range in.stack {
		if f == fn {
			in.callDepth++
		}
	}
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	if len(in.stack) > 60 {
		fail("recursion through %s", fn)
	}
	if n >= recLimit {
		return guard, in.opaqueCall("rec:"+fn.String(), args, fn.Signature.Results(), guard, st, pos, true), st
	}
	in.stack = append(in.stack, fn)
	in.trace[fn]++
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]*V{}, exitCond: map[*ssa.BasicBlock]*V{}}
	fr.rpo = rpoOf(fn)
	fr.loops = findLoops(fn, fr.rpo)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	entry := &Edge{to: fn.Blocks[0], guard: guard, st: st.clone()}
	saved := entry.st.regs
	entry.st.regs = map[ssa.Value]*V{}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		region[b] = true
	}
	in.execRegion(fr, region, nil, []*Edge{entry})
	if len(fr.rets) == 0 {
		// never returns normally
		s := st.clone()
		return False, nil, s
	}
	var gs []*V
	var sts []*State
	rg := False
	for _, r := range fr.rets {
		gs = append(gs, r.guard)
		sts = append(sts, r.st)
		rg = Or(rg, r.guard)
	}
	res := in.mergeStates(gs, sts)
	res.regs = saved
	// effects of paths that never return are kept in deadEffects
	nres := fn.Signature.Results().Len()
	vals := make([]*V, nres)
	for i := range vals {
		var vs []*V
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		vals[i] = in.mergeAt(gs, vs, sts)
	}
	return rg, vals, res
}

func (in *Interp) execRegion(fr *Frame, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, entry []*Edge) (exits, back []*Edge) {
	pending := map[*ssa.BasicBlock][]*Edge{}
	pending[entry[0].to] = entry
	start := entry[0].to
	emit := func(es ...*Edge) {
		for _, e := range es {
			if e.guard == False {
				continue
			}
			switch {
			case header != nil && e.to == header:
				back = append(back, e)
			case !region[e.to]:
				exits = append(exits, e)
			default:
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range fr.rpo {
		if !region[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && b != header {
			emit(in.runLoop(fr, l, es)...)
			continue
		}
		_ = start
		guard, st, phis := in.joinEdges(fr, b, es)
		if guard == False {
			continue
		}
		in.setPhis(fr, b, phis)
		emit(in.execBlock(fr, b, guard, st)...)
	}
	return
}

func (in *Interp) joinEdges(fr *Frame, b *ssa.BasicBlock, es []*Edge) (*V, *State, []*V) {
	var gs []*V
	var sts []*State
	g := False
	for _, e := range es {
		gs = append(gs, e.guard)
		sts = append(sts, e.st)
		g = Or(g, e.guard)
	}
	st := in.mergeStates(gs, sts)
	var phis []*V
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		var vs []*V
		for _, e := range es {
			vs = append(vs, e.phis[n])
		}
		phis = append(phis, in.mergeAt(gs, vs, sts))
		n++
	}
	return g, st, phis
}

func (in *Interp) setPhis(fr *Frame, b *ssa.BasicBlock, phis []*V) {
	for n, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[p] = phis[n]
	}
}

func (in *Interp) edge(fr *Frame, st *State, from, to *ssa.BasicBlock, guard *V) *Edge {
	e := &Edge{from: from, to: to, guard: guard, st: st}
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, in.val(fr, st, p.Edges[k]))
	}
	return e
}

func (in *Interp) val(fr *Frame, st *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return in.globalPtr(x)
	case *ssa.Function:
		return mkFunc(x, nil)
	case *ssa.Builtin:
		return mkOpaque("builtin:"+x.Name(), nil)
	}
	if r, ok := st.regs[v]; ok {
		return r
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return Undef
}

func (in *Interp) globalPtr(g *ssa.Global) *V {
	if !in.p.own[g.Pkg.Pkg] && g.Pkg != in.p.spec {
		o := in.globalObj(g)
		if _, ok := in.init[o]; !ok {
			in.init[o] = externGlobal(g)
		}
		return mkPtr(o, nil)
	}
	return mkPtr(in.globalObj(g), nil)
}

func externGlobal(g *ssa.Global) *V {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	switch name {
	case "time.UTC":
		return utcLoc
	case "time.Local":
		return localLoc
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return mkOpaque("error:"+name, t)
	}
	return symOf(mkOpaque("extern:"+name, t), t)
}

func constVal(c *ssa.Const) *V {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		fail("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			fail("constant %s", c)
		}
		return mkBigInt(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return FConst(f)
	case b.Info()&types.IsString != 0:
		return Str(constant.StringVal(c.Value))
	}
	fail("constant %s", c)
	return nil
}

func (in *Interp) addEffect(st *State, guard *V, op string, pos token.Pos, res *V, args ...*V) *Effect {
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	e := &Effect{op: op, args: args, guard: guard, pos: in.p.pos(pos), fn: fn, res: res}
	st.eff = append(st.eff, e)
	return e
}

func (in *Interp) execBlock(fr *Frame, b *ssa.BasicBlock, guard *V, st *State) []*Edge {
	for _, instr := range b.Instrs {
		in.tick()
		switch i := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []*Edge{in.edge(fr, st, b, b.Succs[0], guard)}
		case *ssa.If:
			c := in.val(fr, st, i.Cond)
			fr.exitCond[b] = c
			if c == Undef {
				fail("undefined condition in %s (%s)", fr.fn, in.p.pos(i.Cond.Pos()))
			}
			gt, gf := And(guard, c), And(guard, Not(c))
			var es []*Edge
			if gt != False {
				es = append(es, in.edge(fr, st.clone(), b, b.Succs[0], gt))
			}
			if gf != False {
				es = append(es, in.edge(fr, st.clone(), b, b.Succs[1], gf))
			}
			return es
		case *ssa.Return:
			r := &retRec{guard: guard, st: st}
			for _, v := range i.Results {
				r.vals = append(r.vals, in.val(fr, st, v))
			}
			fr.rets = append(fr.rets, r)
			return nil
		case *ssa.Panic:
			in.dead(in.addEffect(st, guard, "panic", i.Pos(), nil, in.val(fr, st, i.X)), st)
			return nil
		case *ssa.RunDefers:
			g, s := guard, st
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				dg := And(g, d.guard)
				if dg == False {
					continue
				}
				_, _, ns := in.invoke(fr, d.call, d.fnV, d.args, dg, s.clone(), d.pos)
				if dg == g {
					s = ns
				} else {
					s = in.mergeStates([]*V{dg, True}, []*State{ns, s})
				}
			}
			st = s
		case *ssa.Defer:
			f, args := in.callArgs(fr, st, &i.Call)
			fr.defers = append(fr.defers, &deferRec{guard, &i.Call, f, args, i.Pos()})
		case *ssa.Go:
			fail("goroutine started in %s", fr.fn)
		case *ssa.Store:
			in.store(st, in.val(fr, st, i.Addr), in.val(fr, st, i.Val), guard, in.p.pos(i.Pos()), fr.fn.String())
		case *ssa.MapUpdate:
			in.mapUpdate(fr, st, guard, i)
		case *ssa.Call:
			f, args := in.callArgs(fr, st, &i.Call)
			g, vals, ns := in.invoke(fr, &i.Call, f, args, guard, st, i.Pos())
			if g == False {
				return nil
			}
			guard, st = g, ns
			var v *V
			switch len(vals) {
			case 0:
				v = mkTuple()
			case 1:
				v = vals[0]
			default:
				v = mkTuple(vals...)
			}
			in.setReg(fr, st, i, v)
		case *ssa.Send, *ssa.Select:
			fail("channel operation in %s", fr.fn)
		case ssa.Value:
			v := in.evalInstr(fr, st, guard, i)
			in.setReg(fr, st, i, v)
		default:
			fail("instruction %T in %s", instr, fr.fn)
		}
	}
	return nil
}

func (in *Interp) setReg(fr *Frame, st *State, r ssa.Value, v *V) {
	fr.env[r] = v
	delete(st.regs, r)
}

// deadEffects collects what happened on paths that end the program.
var deadEffects []deadRec

type deadRec struct {
	e   *Effect
	eff []*Effect
	ctx []*V
}

func (in *Interp) dead(e *Effect, st *State) {
	deadEffects = append(deadEffects, deadRec{e, st.eff, append([]*V{}, in.ctx...)})
}

func (in *Interp) callArgs(fr *Frame, st *State, c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	f := in.val(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, in.val(fr, st, a))
	}
	return f, args
}

// ---------------------------------------------------------------- instructions

func (in *Interp) evalInstr(fr *Frame, st *State, guard *V, instr ssa.Value) *V {
	switch i := instr.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(t)
		st.mem[o] = zeroOf(t)
		return mkPtr(o, nil)
	case *ssa.FieldAddr:
		p := in.val(fr, st, i.X)
		return mapLeaves(p, func(p *V) *V { return in.ptrField(p, i.Field) })
	case *ssa.Field:
		return getField(in.val(fr, st, i.X), i.Field)
	case *ssa.IndexAddr:
		x, idx := in.val(fr, st, i.X), in.val(fr, st, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			return in.arrayAddr(x, idx, i.X.Type().Underlying().(*types.Pointer).Elem())
		}
		return lift("seqaddr", func(a []*V) *V {
			if a[0].k == KUndef || a[0].k == KNil {
				return Undef
			}
			return mkPtr(-1, []PathEl{{seq: a[0], idx: a[1]}})
		}, x, idx)
	case *ssa.Index:
		x, idx := in.val(fr, st, i.X), in.val(fr, st, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Array); ok {
			return indexStruct(x, idx)
		}
		return strIndex(x, idx)
	case *ssa.UnOp:
		x := in.val(fr, st, i.X)
		switch i.Op {
		case token.MUL:
			if x.k == KNode {
				return under(guard, in.load(st, x))
			}
			return in.load(st, x)
		case token.NOT:
			return Not(x)
		case token.SUB:
			if isFloat(i.Type()) {
				return FNeg(x)
			}
			return in.wrap(ISub(Int(0), x), i.Type(), guard, i.Pos())
		case token.XOR:
			return ISub(Int(-1), x)
		}
		fail("operator %s in %s", i.Op, fr.fn)
	case *ssa.BinOp:
		return in.binop(i, in.val(fr, st, i.X), in.val(fr, st, i.Y), guard, st)
	case *ssa.ChangeType:
		return retype(in.val(fr, st, i.X), i.Type())
	case *ssa.ChangeInterface:
		return in.val(fr, st, i.X)
	case *ssa.Convert:
		return in.convert(in.val(fr, st, i.X), i.X.Type(), i.Type(), guard, i.Pos())
	case *ssa.MultiConvert:
		return in.convert(in.val(fr, st, i.X), i.X.Type(), i.Type(), guard, i.Pos())
	case *ssa.MakeInterface:
		x := in.val(fr, st, i.X)
		if x == Undef {
			return Undef
		}
		return mkIface(i.X.Type(), x)
	case *ssa.MakeClosure:
		var b []*V
		for _, v := range i.Bindings {
			b = append(b, in.val(fr, st, v))
		}
		return mkFunc(i.Fn.(*ssa.Function), b)
	case *ssa.MakeMap:
		o := in.newObj(i.Type())
		st.mem[o] = mkMap("empty")
		return mkMapRef(o)
	case *ssa.MakeSlice:
		n := in.val(fr, st, i.Len)
		if n.isIntConst() && n.intVal() <= 4096 {
			et := elemTypeOf(i.Type())
			var segs []Seg
			for k := int64(0); k < n.intVal(); k++ {
				segs = append(segs, Seg{g: True, el: zeroOf(et)})
			}
			s := mkSeq(segs)
			if n.intVal() == 0 {
				return s
			}
			return in.uniqueSeq(st, s)
		}
		return in.uniqueSeq(st, mkSeq([]Seg{{g: True, base: mkOpaque("makeseq", i.Type(), n)}}))
	case *ssa.Slice:
		return in.slice(fr, st, i)
	case *ssa.Extract:
		t := in.val(fr, st, i.Tuple)
		return lift(fmt.Sprintf("ext%d", i.Index), func(x []*V) *V {
			if x[0].k == KTuple && i.Index < len(x[0].args) {
				return x[0].args[i.Index]
			}
			return Undef
		}, t)
	case *ssa.Lookup:
		return in.lookup(fr, st, i)
	case *ssa.TypeAssert:
		return in.typeAssert(in.val(fr, st, i.X), i, guard, st)
	case *ssa.Range:
		o := in.newObj(types.Typ[types.Int])
		st.mem[o] = mkStruct(nil, []*V{Int(0), in.val(fr, st, i.X)})
		return mkPtr(o, nil)
	case *ssa.Next:
		return in.next(fr, st, i)
	case *ssa.SliceToArrayPointer:
		fail("slice to array conversion")
	}
	fail("instruction %T in %s", instr, fr.fn)
	return nil
}

// uniqueSeq gives a fresh backing array its own identity.
func (in *Interp) uniqueSeq(st *State, s *V) *V {
	o := in.newObj(nil)
	t := mkOpaque(fmt.Sprintf("backing%d", o), nil)
	var typ types.Type
	if len(s.segs) > 0 && s.segs[0].base != nil {
		typ = s.segs[0].base.typ
	}
	u := mkSeq([]Seg{{g: True, base: mkOpaque("fresh", typ, t)}})
	st.over[u] = s
	return u
}

func (in *Interp) ptrField(p *V, f int) *V {
	switch p.k {
	case KPtr:
		return mkPtr(p.obj, append(append([]PathEl{}, p.path...), PathEl{field: f}))
	case KOpaque:
		return in.ptrField(in.symPtr(p), f)
	case KNil, KUndef:
		return Undef
	}
	fail("field of %s", p)
	return nil
}

func (in *Interp) arrayAddr(x, idx *V, arr types.Type) *V {
	n := arr.Underlying().(*types.Array).Len()
	return lift("arraddr", func(a []*V) *V {
		p, ix := a[0], a[1]
		if p.k == KOpaque {
			p = in.symPtr(p)
		}
		if p.k != KPtr {
			return Undef
		}
		at := func(k int) *V {
			return mkPtr(p.obj, append(append([]PathEl{}, p.path...), PathEl{field: k}))
		}
		if ix.isIntConst() {
			return at(int(ix.intVal()))
		}
		if n > 256 {
			fail("large array indexed")
		}
		r := at(int(n - 1))
		for k := int(n) - 2; k >= 0; k-- {
			r = ite(ICmp("<=", ix, Int(int64(k))), at(k), r)
		}
		return r
	}, x, idx)
}

func indexStruct(x, idx *V) *V {
	return lift("idxstruct", func(a []*V) *V {
		s, ix := a[0], a[1]
		if s.k != KStruct {
			return Undef
		}
		if ix.isIntConst() {
			k := ix.intVal()
			if k < 0 || k >= int64(len(s.args)) {
				return Undef
			}
			return s.args[k]
		}
		if len(s.args) == 0 {
			return Undef
		}
		r := s.args[len(s.args)-1]
		for k := len(s.args) - 2; k >= 0; k-- {
			r = ite(ICmp("<=", ix, Int(int64(k))), s.args[k], r)
		}
		return r
	}, x, idx)
}

func strIndex(x, idx *V) *V {
	return lift("strindex", func(a []*V) *V {
		if a[0].isStrConst() && a[1].isIntConst() {
			k := a[1].intVal()
			if k >= 0 && k < int64(len(a[0].s)) {
				return Int(int64(a[0].s[k]))
			}
			return Undef
		}
		return mkInt(vAtom(mkOpaque("strindex", types.Typ[types.Byte], a...), big0, bi(255)))
	}, x, idx)
}

func getField(x *V, f int) *V {
	return lift(fmt.Sprintf("get%d", f), func(a []*V) *V {
		if a[0].k == KStruct && f < len(a[0].args) {
			return a[0].args[f]
		}
		return Undef
	}, x)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func retype(v *V, t types.Type) *V {
	return mapLeaves(v, func(v *V) *V {
		if v.k == KStruct && v.typ != nil {
			return mkStruct(t, v.args)
		}
		return v
	})
}

var bitsOf = map[types.BasicKind]int{types.Int8: -7, types.Int16: -15, types.Int32: -31, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}

// wrap notes a range obligation for 64 bit Duration arithmetic and truncates
// narrow types.
func (in *Interp) wrap(v *V, t types.Type, guard *V, pos token.Pos) *V {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	if k, ok := bitsOf[b.Kind()]; ok {
		var lo, hi *big.Int
		if k > 0 {
			lo, hi = big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(k)), big1)
		} else {
			hi = new(big.Int).Sub(new(big.Int).Lsh(big1, uint(-k)), big1)
			lo = new(big.Int).Neg(new(big.Int).Add(hi, big1))
		}
		l, h, any := intBounds(v, True)
		if any && l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return v
		}
		// wrap modulo 2^bits
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
		return lift("wrap"+b.Name(), func(x []*V) *V {
			if x[0].k != KInt {
				return Undef
			}
			p := x[0].poly
			q := pFdiv(pSub(p, pConst(lo)), m)
			return mkInt(pSub(p, pScale(q, m)))
		}, v)
	}
	return v
}

// wrap64: a 64-bit product whose values, under the guard, are bounded but leave
// the type wraps around.  An unbounded product is taken as ideal.
func (in *Interp) wrap64(v *V, guard *V) *V {
	if lo, hi, any := intBounds(v, True); !any || lo == nil || hi == nil || (lo.Cmp(minInt64) >= 0 && hi.Cmp(maxInt64) <= 0) {
		return v
	}
	g := guard
	for _, c := range in.ctx {
		g = And(g, c)
	}
	lo, hi, any := intBounds(v, g)
	if !any || lo == nil || hi == nil || (lo.Cmp(minInt64) >= 0 && hi.Cmp(maxInt64) <= 0) {
		return v
	}
	w := lift("wrap64", func(x []*V) *V {
		if x[0].k != KInt {
			return Undef
		}
		p := x[0].poly
		q := pFdiv(pSub(p, pConst(minInt64)), two64)
		return mkInt(pSub(p, pScale(q, two64)))
	}, v)
	return ite(And(ICmp("<=", v, mkBigInt(maxInt64)), ICmp(">=", v, mkBigInt(minInt64))), v, w)
}

var (
	two64    = new(big.Int).Lsh(big1, 64)
	maxInt64 = new(big.Int).Sub(new(big.Int).Lsh(big1, 63), big1)
	minInt64 = new(big.Int).Neg(new(big.Int).Lsh(big1, 63))
)

func (in *Interp) binop(i *ssa.BinOp, x, y *V, guard *V, st *State) *V {
	t := i.X.Type()
	if x == Undef || y == Undef {
		return Undef
	}
	switch i.Op {
	case token.EQL, token.NEQ:
		e := in.equal(x, y, t, st)
		if i.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	switch {
	case isFloat(t):
		switch i.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return toF32(FBin(i.Op.String(), x, y), t, guard)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return FCmp(i.Op.String(), x, y)
		}
	case isInteger(t):
		var r *V
		switch i.Op {
		case token.ADD:
			r = IAdd(x, y)
		case token.SUB:
			r = ISub(x, y)
		case token.MUL:
			r = IMul(x, y)
			if b, ok := i.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int64 || b.Kind() == types.Int) {
				r = in.wrap64(r, guard)
			}
		case token.QUO:
			r = IQuo(x, y)
		case token.REM:
			r = IRem(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ICmp(i.Op.String(), x, y)
		case token.SHL:
			if y.isIntConst() && y.intVal() >= 0 && y.intVal() < 62 {
				r = IMul(x, mkBigInt(new(big.Int).Lsh(big1, uint(y.intVal()))))
			}
		case token.SHR:
			if y.isIntConst() && y.intVal() >= 0 && y.intVal() < 62 {
				r = IFdiv(x, 1<<uint(y.intVal()))
			}
		case token.AND:
			if y.isIntConst() && y.intVal() >= 0 && (y.intVal()+1)&y.intVal() == 0 {
				r = IMod(x, y.intVal()+1)
			}
		}
		if r == nil {
			r = lift("iop"+i.Op.String(), func(a []*V) *V {
				if a[0].isIntConst() && a[1].isIntConst() {
					p, q := a[0].poly.c, a[1].poly.c
					switch i.Op {
					case token.AND:
						return mkBigInt(new(big.Int).And(p, q))
					case token.OR:
						return mkBigInt(new(big.Int).Or(p, q))
					case token.XOR:
						return mkBigInt(new(big.Int).Xor(p, q))
					case token.AND_NOT:
						return mkBigInt(new(big.Int).AndNot(p, q))
					}
				}
				return mkInt(vAtom(mkOpaque("iop"+i.Op.String(), types.Typ[types.Int], a...), nil, nil))
			}, x, y)
		}
		return in.wrap(r, i.Type(), guard, i.Pos())
	case isString(t):
		switch i.Op {
		case token.ADD:
			return SConcat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			op := i.Op.String()
			if op == ">" || op == "<=" {
				x, y = y, x
			}
			r := lift("strless", func(a []*V) *V {
				if a[0].isStrConst() && a[1].isStrConst() {
					return Bool(a[0].s < a[1].s)
				}
				return boolTerm("strless", a...)
			}, x, y)
			if op == "<=" || op == ">=" {
				return Not(r)
			}
			return r
		}
	case isBool(t):
		switch i.Op {
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		}
	}
	fail("operator %s on %s", i.Op, t)
	return nil
}

func isNilV(v *V) *V {
	return mapLeaves(v, func(v *V) *V {
		switch v.k {
		case KNil:
			return True
		case KIface, KPtr, KFunc, KMapRef:
			return False
		case KSeq:
			return ICmp("==", seqLen(v), Int(0))
		case KOpaque:
			if strings.HasPrefix(v.op, "error:") || strings.HasPrefix(v.op, "loc:") || strings.HasPrefix(v.op, "nonnil:") || v.op == "exitErr" {
				return False
			}
			return boolTerm("isnil", v)
		case KUndef:
			return Undef
		case KMap:
			return boolTerm("isnil", v)
		}
		fail("nil test of %s", v)
		return nil
	})
}

func (in *Interp) equal(x, y *V, t types.Type, st *State) *V {
	if x == y && x.k != KFlt {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return ICmp("==", x, y)
		case u.Info()&types.IsFloat != 0:
			return FCmp("==", x, y)
		case u.Info()&types.IsString != 0:
			return SEq(x, y)
		case u.Info()&types.IsBoolean != 0:
			return Or(And(x, y), And(Not(x), Not(y)))
		}
	case *types.Struct:
		if isTime(t) {
			return And(ICmp("==", timeNanos(x), timeNanos(y)), lift("loceq", func(a []*V) *V {
				if a[0] == a[1] {
					return True
				}
				return boolTerm("loceq", a...)
			}, timeLoc(x), timeLoc(y)))
		}
		r := True
		for k := 0; k < u.NumFields(); k++ {
			r = And(r, in.equal(getField(x, k), getField(y, k), u.Field(k).Type(), st))
		}
		return r
	case *types.Array:
		r := True
		for k := 0; k < int(u.Len()); k++ {
			r = And(r, in.equal(indexStruct(x, Int(int64(k))), indexStruct(y, Int(int64(k))), u.Elem(), st))
		}
		return r
	}
	if x.k == KNil {
		x, y = y, x
	}
	if y.k == KNil || (y.k == KSeq && len(y.segs) == 0) {
		if x.k == KSeq {
			x = in.resolve(st, x)
		}
		return isNilV(x)
	}
	return lift("refeq", func(a []*V) *V {
		if a[0] == a[1] {
			return True
		}
		if a[0].k == KNil {
			return isNilV(a[1])
		}
		if a[1].k == KNil {
			return isNilV(a[0])
		}
		if a[0].k == KPtr && a[1].k == KPtr {
			return False
		}
		if a[0].k == KIface && a[1].k == KIface {
			if !types.Identical(a[0].typ, a[1].typ) {
				return False
			}
			return in.equal(a[0].args[0], a[1].args[0], a[0].typ, st)
		}
		if a[0].id > a[1].id {
			a = []*V{a[1], a[0]}
		}
		return boolTerm("refeq", a...)
	}, x, y)
}

func (in *Interp) convert(x *V, from, to types.Type, guard *V, pos token.Pos) *V {
	switch {
	case isInteger(from) && isInteger(to):
		return in.wrap(x, to, guard, pos)
	case isInteger(from) && isFloat(to):
		return toF32(I2F(x), to, guard)
	case isFloat(from) && isInteger(to):
		return in.wrap(ITrunc(x), to, guard, pos)
	case isFloat(from) && isFloat(to):
		return toF32(x, to, guard)
	case isInteger(from) && isString(to):
		return lift("runestr", func(a []*V) *V {
			if a[0].isIntConst() {
				return Str(string(rune(a[0].intVal())))
			}
			return mkStrTerm("runestr", a[0])
		}, x)
	case isString(from) && isString(to):
		return x
	case isString(to):
		return bytesToStr(x)
	case isString(from):
		return strToBytes(x, to)
	}
	return retype(x, to)
}

func bytesToStr(x *V) *V {
	return lift("bytestr", func(a []*V) *V {
		s := a[0]
		if s.k == KSeq && len(s.segs) == 0 {
			return Str("")
		}
		if s.k == KSeq && len(s.segs) == 1 && s.segs[0].base != nil && s.segs[0].g == True {
			b := s.segs[0].base
			if b.op == "strbytes" {
				return b.args[0]
			}
			return mkStrTerm("bytes", b)
		}
		if s.k == KSeq {
			if t := seqText(s); t != nil {
				return t
			}
		}
		return mkStrTerm("bytes", s)
	}, x)
}

// seqText is the text of a sequence made of whole texts under conditions.
func seqText(s *V) *V {
	r := Str("")
	for _, g := range s.segs {
		if g.base == nil || g.base.k != KOpaque {
			return nil
		}
		t := mkStrTerm("bytes", g.base)
		if g.base.op == "strbytes" {
			t = g.base.args[0]
		}
		r = SConcat(r, ite(g.g, t, Str("")))
	}
	return r
}
func strToBytes(x *V, t types.Type) *V {
	return lift("strbytes", func(a []*V) *V {
		if a[0].isStrConst() && a[0].s == "" {
			return mkSeq(nil)
		}
		if a[0].k == KStr && a[0].op == "bytes" && a[0].args[0].k == KOpaque {
			return mkSeq([]Seg{{g: True, base: a[0].args[0]}})
		}
		return mkSeq([]Seg{{g: True, base: mkOpaque("strbytes", t, a[0])}})
	}, x)
}

func (in *Interp) slice(fr *Frame, st *State, i *ssa.Slice) *V {
	x := in.val(fr, st, i.X)
	var lo, hi *V
	if i.Low != nil {
		lo = in.val(fr, st, i.Low)
	}
	if i.High != nil {
		hi = in.val(fr, st, i.High)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		arr := in.load(st, x)
		n := u.Elem().Underlying().(*types.Array).Len()
		a, b := int64(0), n
		if lo != nil {
			if !lo.isIntConst() {
				fail("array slice with unknown bounds")
			}
			a = lo.intVal()
		}
		if hi != nil {
			if !hi.isIntConst() {
				fail("array slice with unknown bounds")
			}
			b = hi.intVal()
		}
		return lift(fmt.Sprintf("arrslice%d:%d", a, b), func(v []*V) *V {
			if v[0].k != KStruct {
				return Undef
			}
			var segs []Seg
			for _, e := range v[0].args[a:b] {
				segs = append(segs, Seg{g: True, el: e})
			}
			return mkSeq(segs)
		}, arr)
	case *types.Basic: // string
		if lo == nil {
			lo = Int(0)
		}
		args := []*V{x, lo}
		if hi != nil {
			args = append(args, hi)
		}
		return lift("substr", func(a []*V) *V {
			c := true
			for k, v := range a {
				if k == 0 {
					c = c && v.isStrConst()
				} else {
					c = c && v.isIntConst()
				}
			}
			if c {
				l, h := a[1].intVal(), int64(len(a[0].s))
				if len(a) > 2 {
					h = a[2].intVal()
				}
				if 0 <= l && l <= h && h <= int64(len(a[0].s)) {
					return Str(a[0].s[l:h])
				}
				return Undef
			}
			if len(a) == 2 && a[1] == Int(0) {
				return a[0]
			}
			return mkStrTerm("substr", a...)
		}, args...)
	case *types.Slice:
		if lo == nil && hi == nil {
			return x
		}
		s := in.resolve(st, x)
		if hi != nil && hi == seqLen(s) {
			hi = nil
		}
		if lo != nil && lo == Int(0) {
			lo = nil
		}
		if lo == nil && hi == nil {
			return x
		}
		if hi != nil && hi == Int(0) {
			return mkSeq(nil)
		}
		plain := s.k == KSeq
		if plain {
			for _, sg := range s.segs {
				if sg.g != True || sg.el == nil {
					plain = false
				}
			}
		}
		if plain && (lo == nil || lo.isIntConst()) && (hi == nil || hi.isIntConst()) {
			a, b := int64(0), int64(len(s.segs))
			if lo != nil {
				a = lo.intVal()
			}
			if hi != nil {
				b = hi.intVal()
			}
			if 0 <= a && a <= b && b <= int64(len(s.segs)) {
				return mkSeq(append([]Seg{}, s.segs[a:b]...))
			}
			return Undef
		}
		args := []*V{s, Int(0), Int(-1)}
		if lo != nil {
			args[1] = lo
		}
		if hi != nil {
			args[2] = hi
		}
		return mkSeq([]Seg{{g: True, base: mkOpaque("subseq", i.Type(), args...)}})
	}
	fail("slice of %s", i.X.Type())
	return nil
}

// ---------------------------------------------------------------- maps

func (in *Interp) mapOf(st *State, m *V) *V {
	return mapLeaves(m, func(m *V) *V {
		switch m.k {
		case KMapRef:
			return in.content(st, m.obj)
		case KMap:
			return m
		case KNil:
			return mkMap("empty")
		case KOpaque:
			return mkMap("sym", m)
		}
		return Undef
	})
}

func keyEq(a, b *V) *V {
	switch a.k {
	case KInt:
		return ICmp("==", a, b)
	case KStr:
		return SEq(a, b)
	case KBool:
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a == b {
		return True
	}
	if b.k == KNode || a.k == KNode {
		return lift("keyeq", func(x []*V) *V { return keyEq(x[0], x[1]) }, a, b)
	}
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = And(r, keyEq(a.args[i], b.args[i]))
		}
		return r
	}
	return boolTerm("keyeq", a, b)
}

func mapGet(m, k *V, t *types.Map) (v, ok *V) {
	if m.k == KNode {
		v = mapLeaves(m, func(l *V) *V { x, _ := mapGet(l, k, t); return x })
		ok = mapLeaves(m, func(l *V) *V { _, y := mapGet(l, k, t); return y })
		return
	}
	if m.k != KMap {
		return Undef, Undef
	}
	// collect the store chain
	var ks, vs []*V
	cur := m
	for cur.op == "store" {
		ks = append(ks, cur.args[1])
		vs = append(vs, cur.args[2])
		cur = cur.args[0]
		if cur.k != KMap {
			v, ok = mapGet(cur, k, t)
			for i := len(ks) - 1; i >= 0; i-- {
				c := keyEqN(k, ks[i])
				v, ok = ite(c, vs[i], v), Or(c, ok)
			}
			return
		}
	}
	switch cur.op {
	case "empty":
		v, ok = zeroOf(t.Elem()), False
	default:
		at := mkOpaque("mapget", t.Elem(), cur, k)
		v = symOf(at, t.Elem())
		ok = boolTerm("haskey", cur, k)
		// a missing key reads as the zero value
		v = ite(ok, v, zeroOf(t.Elem()))
	}
	for i := len(ks) - 1; i >= 0; i-- {
		c := keyEqN(k, ks[i])
		v, ok = ite(c, vs[i], v), Or(c, ok)
	}
	return
}

func keyEqN(a, b *V) *V {
	if a.k == KNode || b.k == KNode {
		return lift("keyeq", func(x []*V) *V { return keyEq(x[0], x[1]) }, a, b)
	}
	return keyEq(a, b)
}

func (in *Interp) lookup(fr *Frame, st *State, i *ssa.Lookup) *V {
	x, k := in.val(fr, st, i.X), in.val(fr, st, i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		return strIndex(x, k)
	}
	if i.X.Type() != nil {
		if ld, ok := i.X.(*ssa.UnOp); ok {
			_ = ld
		}
	}
	v, found := mapGet(in.mapOf(st, x), k, mt)
	if i.CommaOk {
		return mkTuple(v, found)
	}
	return v
}

func (in *Interp) mapUpdate(fr *Frame, st *State, guard *V, i *ssa.MapUpdate) {
	m, k, v := in.val(fr, st, i.Map), in.val(fr, st, i.Key), in.val(fr, st, i.Value)
	for _, lc := range leafConds(m) {
		switch lc.leaf.k {
		case KMapRef:
			if g := in.mapGlobal(lc.leaf.obj); g != nil && !in.initPhase {
				in.writes = append(in.writes, globWrite{g, fr.fn.String(), in.p.pos(i.Pos())})
			}
			old := in.content(st, lc.leaf.obj)
			st.mem[lc.leaf.obj] = ite(lc.cond, mapStore(old, k, v), old)
		case KNil:
			in.addEffect(st, guard, "panic", i.Pos(), nil, Str("assignment to entry in nil map"))
		default:
			fail("update of map %s", lc.leaf)
		}
	}
}

func (in *Interp) mapGlobal(obj int) *ssa.Global {
	for g, o := range in.glob {
		if c, ok := in.base.mem[o]; ok && c.k == KMapRef && c.obj == obj {
			return g
		}
	}
	return nil
}

func mapStore(m, k, v *V) *V {
	if m.k == KNode {
		return mapLeaves(m, func(l *V) *V { return mapStore(l, k, v) })
	}
	if m.k != KMap {
		return Undef
	}
	// replace an equal constant key
	if m.op == "store" {
		c := keyEqN(m.args[1], k)
		if c == True {
			return mkMap("store", m.args[0], k, v)
		}
		// keep constant keys sorted so that the order of insertion does not matter
		if c == False && keyLess(k, m.args[1]) {
			return mkMap("store", mapStore(m.args[0], k, v), m.args[1], m.args[2])
		}
		if c == False {
			// the key may be deeper
			if in, ok := mapReplace(m, k, v); ok {
				return in
			}
		}
	}
	return mkMap("store", m, k, v)
}

func mapReplace(m, k, v *V) (*V, bool) {
	if m.k != KMap || m.op != "store" {
		return nil, false
	}
	c := keyEqN(m.args[1], k)
	if c == True {
		return mkMap("store", m.args[0], k, v), true
	}
	if c != False {
		return nil, false
	}
	if in, ok := mapReplace(m.args[0], k, v); ok {
		return mkMap("store", in, m.args[1], m.args[2]), true
	}
	return nil, false
}

func keyLess(a, b *V) bool {
	if a.isStrConst() && b.isStrConst() {
		return a.s < b.s
	}
	if a.isIntConst() && b.isIntConst() {
		return a.poly.c.Cmp(b.poly.c) < 0
	}
	return false
}

func mapLen(m *V) *V {
	return mapLeaves(m, func(m *V) *V {
		n := int64(0)
		cur := m
		for cur.k == KMap && cur.op == "store" {
			if !cur.args[1].isStrConst() && !cur.args[1].isIntConst() {
				return mkInt(vAtom(mkOpaque("maplen", nil, m), big0, nil))
			}
			n++
			cur = cur.args[0]
		}
		if cur.k == KMap && cur.op == "empty" {
			return Int(n)
		}
		return mkInt(vAtom(mkOpaque("maplen", nil, m), big0, nil))
	})
}

func (in *Interp) next(fr *Frame, st *State, i *ssa.Next) *V {
	it := in.val(fr, st, i.Iter)
	c := in.load(st, it)
	pos, x := getField(c, 0), getField(c, 1)
	tt := i.Type().(*types.Tuple)
	in.store(st, it, mkStruct(nil, []*V{IAdd(pos, Int(1)), x}), True, "", "")
	if i.IsString {
		n := StrLen(x)
		ok := ICmp("<", pos, n)
		k := symOf(mkOpaque("runepos", types.Typ[types.Int], x, pos), types.Typ[types.Int])
		r := symOf(mkOpaque("runeat", types.Typ[types.Int32], x, pos), types.Typ[types.Int32])
		return mkTuple(ok, k, r)
	}
	m := in.mapOf(st, x)
	ok := ICmp("<", pos, mapLen(m))
	kt := tt.At(1).Type()
	var k *V = Undef
	if mt := mapTypeOf(i.Iter); mt != nil {
		kt = mt.Key()
		k = symOf(mkOpaque("mapkey", kt, m, pos), kt)
		v, _ := mapGet(mkMap("sym", mkOpaque("mapvals", mt, m)), k, mt)
		_ = v
		val := symOf(mkOpaque("mapval", mt.Elem(), m, pos), mt.Elem())
		return mkTuple(ok, k, val)
	}
	return mkTuple(ok, k, Undef)
}

func mapTypeOf(iter ssa.Value) *types.Map {
	if r, ok := iter.(*ssa.Range); ok {
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			return m
		}
	}
	return nil
}

func (in *Interp) typeAssert(x *V, i *ssa.TypeAssert, guard *V, st *State) *V {
	toIface := types.IsInterface(i.AssertedType)
	val := mapLeaves(x, func(x *V) *V {
		switch x.k {
		case KIface:
			if toIface {
				if types.AssertableTo(i.AssertedType.Underlying().(*types.Interface), x.typ) && types.Implements(x.typ, i.AssertedType.Underlying().(*types.Interface)) {
					return mkTuple(x, True)
				}
				return mkTuple(zeroOf(i.AssertedType), False)
			}
			if types.Identical(x.typ, i.AssertedType) {
				return mkTuple(x.args[0], True)
			}
			return mkTuple(zeroOf(i.AssertedType), False)
		case KNil:
			return mkTuple(zeroOf(i.AssertedType), False)
		case KOpaque:
			name := types.TypeString(i.AssertedType, nil)
			ok := boolTerm("is:"+name, x)
			if toIface {
				return mkTuple(x, ok)
			}
			return mkTuple(ite(ok, symOf(mkOpaque("as:"+name, i.AssertedType, x), i.AssertedType), zeroOf(i.AssertedType)), ok)
		}
		return Undef
	})
	if i.CommaOk {
		return val
	}
	ok := getTuple(val, 1)
	if Implies(guard, ok) {
		return getTuple(val, 0)
	}
	in.addEffect(st, And(guard, Not(ok)), "panic", i.Pos(), nil, Str("type assertion"))
	return getTuple(val, 0)
}

func getTuple(v *V, k int) *V {
	return lift(fmt.Sprintf("ext%d", k), func(x []*V) *V {
		if x[0].k == KTuple && k < len(x[0].args) {
			return x[0].args[k]
		}
		return Undef
	}, v)
}

// ---------------------------------------------------------------- calls

func (in *Interp) invoke(fr *Frame, c *ssa.CallCommon, f *V, args []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	if c.IsInvoke() {
		return in.dynCall(c, f, args, guard, st, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v := in.builtin(b.Name(), c, args, guard, st, pos)
		return guard, []*V{v}, st
	}
	return in.callV(f, args, c.Signature(), guard, st, pos)
}

// callV calls a function value.
func (in *Interp) callV(f *V, args []*V, sig *types.Signature, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	switch f.k {
	case KFunc:
		return in.callStatic(f.fn, args, f.args, guard, st, pos)
	case KNode:
		var gs []*V
		var sts []*State
		var valss [][]*V
		for _, lc := range leafConds(f) {
			g := And(guard, lc.cond)
			if g == False {
				continue
			}
			rg, vals, ns := in.callV(lc.leaf, args, sig, g, st.clone(), pos)
			if rg == False {
				continue
			}
			gs, sts, valss = append(gs, rg), append(sts, ns), append(valss, vals)
		}
		if len(gs) == 0 {
			return False, nil, st
		}
		rg := False
		for _, g := range gs {
			rg = Or(rg, g)
		}
		n := sig.Results().Len()
		vals := make([]*V, n)
		for i := range vals {
			var vs []*V
			for _, v := range valss {
				vs = append(vs, v[i])
			}
			vals[i] = in.mergeAt(gs, vs, sts)
		}
		return rg, vals, in.mergeStates(gs, sts)
	case KOpaque:
		return guard, in.opaqueCall("call:"+f.op, append([]*V{f}, args...), sig.Results(), guard, st, pos, true), st
	}
	fail("call of %s", f)
	return nil, nil, nil
}

func (in *Interp) callStatic(fn *ssa.Function, args, binds []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	if in.opaque != nil && in.opaque(fn) {
		if in.cfg.opaque[fnKey(fn)] == 'w' {
			// the receiver is overwritten with a function of the other arguments
			t := mkOpaque("fn:"+fnKey(fn), nil, in.canonAll(st, args[1:])...)
			in.havocArg(st, args[0], t, 0)
			return guard, in.opaqueCall("fn:"+fnKey(fn), args[1:], fn.Signature.Results(), guard, st, pos, false), st
		}
		if in.cfg.opaque[fnKey(fn)] == 's' {
			args = nil
		}
		if in.cfg.opaque[fnKey(fn)] == 'g' { // a function of the switches too
			args = append(append([]*V{}, args...), in.switches(st)...)
		}
		return guard, in.opaqueCall("fn:"+fnKey(fn), args, fn.Signature.Results(), guard, st, pos, false), st
	}
	if fn.Pkg == nil && fn.Origin() != nil && fn.Blocks == nil {
		return in.extern(fn.Origin(), args, guard, st, pos)
	}
	if fn.Pkg != nil && fn.Pkg == in.p.spec && len(args) == 1 {
		if n, ok := strings.CutPrefix(fn.Name(), "only"); ok {
			return guard, []*V{filterSeq(in.canon(st, args[0]), n, true)}, st
		}
		if n, ok := strings.CutPrefix(fn.Name(), "except"); ok {
			return guard, []*V{filterSeq(in.canon(st, args[0]), n, false)}, st
		}
	}
	own := fn.Pkg != nil && (in.p.own[fn.Pkg.Pkg] || fn.Pkg == in.p.spec)
	if fn.Pkg == nil && fn.Blocks != nil {
		own = true // synthetic wrapper
	}
	if own && fn.Blocks != nil {
		if fn.Name() == "init" && fn.Synthetic != "" && in.initPhase && len(in.stack) > 0 && fn.Pkg != in.stack[0].Pkg {
			return guard, nil, st
		}
		return in.callFunc(fn, args, binds, guard, st, pos)
	}
	return in.extern(fn, args, guard, st, pos)
}

// fnKey names a function independently of pointer or value receivers.
func fnKey(fn *ssa.Function) string {
	s := fn.RelString(fn.Package().Pkg)
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
}

// opaqueCall is an uninterpreted call: its results, and the new contents of
// what its pointer arguments point to, are functions of its arguments.
func (in *Interp) opaqueCall(op string, args []*V, res *types.Tuple, guard *V, st *State, pos token.Pos, writes bool) []*V {
	cargs := make([]*V, len(args))
	for i, a := range args {
		cargs[i] = in.canon(st, a)
	}
	t := mkOpaque(op, nil, cargs...)
	if op == in.cfg.watch {
		in.watched = iteRaw(guard, mkTuple(cargs...), in.watched)
	}
	if writes {
		for i, a := range args {
			in.havocArg(st, a, mkOpaque(fmt.Sprintf("out%d", i), nil, t), 0)
		}
	}
	n := res.Len()
	vals := make([]*V, n)
	for i := 0; i < n; i++ {
		rt := res.At(i).Type()
		x := mkOpaque(t.op, rt, t.args...)
		if n > 1 {
			x = mkOpaque(fmt.Sprintf("%s#%d", op, i), rt, cargs...)
		}
		vals[i] = liftTerm(x, func(x *V) *V {
			if r, ok := in.cfg.res[op]; ok && n == 1 {
				if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
					fSymBounds[x.id] = rInt(r[0], r[1])
				} else if ok && b.Info()&types.IsInteger != 0 {
					return mkInt(vAtom(x, r[0], r[1]))
				}
			}
			return symOf(x, rt)
		})
	}
	return vals
}

// splitPtrArgs makes a call once for every object a pointer argument may
// point to.
func (in *Interp) splitPtrArgs(args []*V, guard *V, st *State, call func([]*V, *V, *State) (*V, []*V, *State)) (*V, []*V, *State) {
	for i, a := range args {
		if a.k != KNode {
			continue
		}
		ptr := false
		for _, lc := range leafConds(a) {
			ptr = ptr || lc.leaf.k == KPtr
		}
		if !ptr {
			continue
		}
		var gs []*V
		var sts []*State
		var valss [][]*V
		for _, lc := range leafConds(a) {
			g := And(guard, lc.cond)
			if g == False || lc.leaf.k == KUndef {
				continue
			}
			as := append([]*V{}, args...)
			as[i] = lc.leaf
			rg, vals, ns := in.splitPtrArgs(as, g, st.clone(), call)
			if rg == False {
				continue
			}
			gs, sts, valss = append(gs, rg), append(sts, ns), append(valss, vals)
		}
		if len(gs) == 0 {
			return False, nil, st
		}
		rg := False
		for _, g := range gs {
			rg = Or(rg, g)
		}
		vals := make([]*V, len(valss[0]))
		for k := range vals {
			var vs []*V
			for _, v := range valss {
				vs = append(vs, v[k])
			}
			vals[k] = in.mergeAt(gs, vs, sts)
		}
		return rg, vals, in.mergeStates(gs, sts)
	}
	return call(args, guard, st)
}

// havocArg replaces what an argument gives access to.
func (in *Interp) havocArg(st *State, a, t *V, depth int) {
	switch a.k {
	case KPtr:
		if len(a.path) > 0 && a.path[0].seq != nil {
			old := in.load(st, a)
			in.store(st, a, liftTerm(mkOpaque("new", nil, t), func(t *V) *V { return symLike(t, old) }), True, "", "")
			return
		}
		typ := in.objType[a.obj]
		old := in.load(st, a)
		if len(a.path) == 0 && typ != nil {
			in.store(st, a, liftTerm(mkOpaque("new", typ, t), func(t *V) *V { return symOf(t, typ) }), True, "", "")
			return
		}
		in.store(st, a, liftTerm(mkOpaque("new", nil, t), func(t *V) *V { return symLike(t, old) }), True, "", "")
	case KIface:
		in.havocArg(st, a.args[0], t, depth+1)
	}
}

// symLike makes a symbolic value of the shape of another.
func symLike(t, v *V) *V {
	switch v.k {
	case KStruct:
		fs := make([]*V, len(v.args))
		for i, a := range v.args {
			fs[i] = symLike(mkOpaque(fmt.Sprintf(".%d", i), nil, t), a)
		}
		return mkStruct(v.typ, fs)
	case KInt:
		return mkInt(vAtom(t, nil, nil))
	case KStr:
		return mkStrTerm("sval", t)
	case KBool:
		return boolOf(t)
	case KFlt:
		return fvalOf(t)
	case KTime:
		return mkTime(vAtom(mkOpaque("nanos", nil, t), nil, nil), symLoc(t))
	case KSeq:
		return mkSeq([]Seg{{g: True, base: t}})
	case KNode:
		for _, lc := range leafConds(v) {
			if lc.leaf.k != KUndef {
				return symLike(t, lc.leaf)
			}
		}
	}
	return t
}

func (in *Interp) dynCall(c *ssa.CallCommon, recv *V, args []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	if recv.k == KNode {
		var gs []*V
		var sts []*State
		var valss [][]*V
		for _, lc := range leafConds(recv) {
			g := And(guard, lc.cond)
			if g == False || lc.leaf.k == KUndef {
				continue
			}
			rg, vals, ns := in.dynCall(c, lc.leaf, args, g, st.clone(), pos)
			if rg == False {
				continue
			}
			gs, sts, valss = append(gs, rg), append(sts, ns), append(valss, vals)
		}
		if len(gs) == 0 {
			return False, nil, st
		}
		rg := False
		for _, g := range gs {
			rg = Or(rg, g)
		}
		vals := make([]*V, c.Signature().Results().Len())
		for i := range vals {
			var vs []*V
			for _, v := range valss {
				vs = append(vs, v[i])
			}
			vals[i] = in.mergeAt(gs, vs, sts)
		}
		return rg, vals, in.mergeStates(gs, sts)
	}
	switch recv.k {
	case KIface:
		ms := in.p.prog.MethodSets.MethodSet(recv.typ)
		sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			fail("no method %s", c.Method)
		}
		fn := in.p.prog.MethodValue(sel)
		if fn == nil {
			fail("abstract method %s", c.Method)
		}
		return in.callStatic(fn, append([]*V{recv.args[0]}, args...), nil, guard, st, pos)
	case KNil:
		in.dead(in.addEffect(st, guard, "panic", pos, nil, Str("nil interface")), st)
		return False, nil, st
	case KOpaque:
		if c.Method.Name() == "Error" && len(args) == 0 {
			return guard, []*V{mkStrTerm("sval", mkOpaque("errtext", types.Typ[types.String], recv))}, st
		}
		if r, ok := in.ifaceModel(c, recv, args, guard, st, pos); ok {
			return guard, r, st
		}
		return in.splitPtrArgs(args, guard, st, func(args []*V, guard *V, st *State) (*V, []*V, *State) {
			return guard, in.opaqueCall("invoke:"+c.Method.Name(), append([]*V{recv}, args...), c.Signature().Results(), guard, st, pos, true), st
		})
	case KUndef:
		fail("method %s of an undefined value", c.Method.Name())
	}
	fail("method %s of %s", c.Method.Name(), recv)
	return nil, nil, nil
}

func (in *Interp) builtin(name string, c *ssa.CallCommon, args []*V, guard *V, st *State, pos token.Pos) *V {
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return StrLen(args[0])
		case *types.Slice:
			return seqLen(in.resolveAll(st, args[0]))
		case *types.Map:
			return mapLen(in.mapOf(st, args[0]))
		case *types.Array:
			return Int(u.Len())
		case *types.Pointer:
			return Int(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		a := in.resolveAll(st, args[0])
		if len(args) == 1 {
			return a
		}
		b := args[1]
		if isString(c.Args[1].Type()) {
			b = strToBytes(b, c.Args[0].Type())
		}
		return seqConcat(a, in.resolveAll(st, b))
	case "copy":
		dst := args[0]
		src := args[1]
		if isString(c.Args[1].Type()) {
			src = strToBytes(src, c.Args[0].Type())
		}
		s := in.resolveAll(st, src)
		d := in.resolveAll(st, dst)
		n := seqLen(d)
		if n == seqLen(s) {
			if dst != s {
				st.over[dst] = s
			}
			return n
		}
		fail("copy between slices of unknown lengths")
	case "delete":
		for _, lc := range leafConds(args[0]) {
			if lc.leaf.k != KMapRef {
				continue
			}
			old := in.content(st, lc.leaf.obj)
			st.mem[lc.leaf.obj] = ite(lc.cond, mkMap("delete", old, args[1]), old)
		}
		return mkTuple()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var cnd *V
			if isFloat(c.Args[0].Type()) {
				cnd = FCmp("<=", r, a)
			} else if isInteger(c.Args[0].Type()) {
				cnd = ICmp("<=", r, a)
			} else {
				fail("min/max on %s", c.Args[0].Type())
			}
			if name == "max" {
				cnd = Not(cnd)
			}
			r = ite(cnd, r, a)
		}
		return r
	case "print", "println":
		in.addEffect(st, guard, "stderr", pos, nil, args...)
		return mkTuple()
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return mkNil(nil)
	case "ssa:deferstack":
		return mkNil(nil)
	}
	fail("builtin %s", name)
	return nil
}

func (in *Interp) resolveAll(st *State, s *V) *V {
	return mapLeaves(s, func(s *V) *V {
		if s.k == KNil {
			return mkSeq(nil)
		}
		return in.resolve(st, s)
	})
}

// ---------------------------------------------------------------- canonical form

// canon is the deep canonical form of a value: pointers are replaced by what
// they point to, guarded lists by a length and guarded positions, interface
// values by a tag and the value of each type.
func (in *Interp) canon(st *State, v *V) *V {
	return in.canonD(st, v, 0)
}

func (in *Interp) canonD(st *State, v *V, depth int) *V {
	if depth > 40 {
		fail("value too deep")
	}
	switch v.k {
	case KStruct:
		fs := make([]*V, len(v.args))
		for i, a := range v.args {
			fs[i] = in.canonD(st, a, depth+1)
		}
		return mkStruct(v.typ, fs)
	case KTuple:
		fs := make([]*V, len(v.args))
		for i, a := range v.args {
			fs[i] = in.canonD(st, a, depth+1)
		}
		return mkTuple(fs...)
	case KSeq:
		return in.canonSeq(st, in.resolve(st, v), depth)
	case KPtr:
		if len(v.path) == 0 || v.path[0].seq == nil {
			if g := in.gname[v.obj]; g != nil && !in.p.own[g.Pkg.Pkg] {
				return mkOpaque("extern:"+g.Pkg.Pkg.Path()+"."+g.Name(), nil)
			}
		}
		for t, o := range in.symObj {
			if o == v.obj && len(v.path) == 0 {
				if in.content(st, o) == in.init[o] {
					return t
				}
			}
		}
		return mkOpaque("ptr", nil, in.canonD(st, in.load(st, v), depth+1))
	case KMapRef:
		return in.canonD(st, in.content(st, v.obj), depth+1)
	case KMap:
		args := make([]*V, len(v.args))
		for i, a := range v.args {
			if v.op == "sym" {
				args[i] = a
			} else {
				args[i] = in.canonD(st, a, depth+1)
			}
		}
		return mkMap(v.op, args...)
	case KFunc:
		args := make([]*V, len(v.args))
		for i, a := range v.args {
			args[i] = in.canonD(st, a, depth+1)
		}
		return mkFunc(v.fn, args)
	case KIface, KNode:
		if v.k == KNode {
			hasI, other := false, false
			for _, lc := range leafConds(v) {
				if lc.leaf.k == KIface {
					hasI = true
				} else if lc.leaf.k == KPtr || lc.leaf.k == KSeq || lc.leaf.k == KStruct || lc.leaf.k == KMapRef || lc.leaf.k == KMap {
					other = true
				}
			}
			if !hasI && !other {
				return v
			}
			if !hasI {
				return mapLeaves(v, func(l *V) *V { return in.canonD(st, l, depth+1) })
			}
		}
		byT := map[string]*V{}
		conds := map[string]*V{}
		var rest *V = Undef
		for _, lc := range leafConds(v) {
			if lc.leaf.k == KUndef {
				continue
			}
			if lc.leaf.k == KIface {
				n := types.TypeString(lc.leaf.typ, nil)
				c := in.canonD(st, lc.leaf.args[0], depth+1)
				if o, ok := byT[n]; ok {
					byT[n] = iteDeep(lc.cond, c, o)
					conds[n] = Or(conds[n], lc.cond)
				} else {
					byT[n] = iteDeep(lc.cond, c, undefLike(c))
					conds[n] = lc.cond
				}
				continue
			}
			rest = iteRaw(lc.cond, in.canonD(st, lc.leaf, depth+1), rest)
		}
		var names []string
		for n := range byT {
			names = append(names, n)
		}
		sort.Strings(names)
		args := []*V{rest}
		for _, n := range names {
			args = append(args, Str(n), conds[n], byT[n])
		}
		return mkOpaque("iface", nil, args...)
	}
	return v
}

// iteDeep merges canonical values, leaving undefined what is guarded out.
func iteDeep(c, a, b *V) *V {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.k == KStruct && (b.k == KStruct && len(a.args) == len(b.args) || b.k == KUndef) {
		fs := make([]*V, len(a.args))
		for i := range fs {
			if b.k == KUndef {
				fs[i] = iteDeep(c, a.args[i], Undef)
			} else {
				fs[i] = iteDeep(c, a.args[i], b.args[i])
			}
		}
		return mkStruct(a.typ, fs)
	}
	if b.k == KStruct && a.k == KUndef {
		return iteDeep(Not(c), b, a)
	}
	return iteRaw(c, a, b)
}

// under simplifies the list structure of a value that only matters when g holds.
func under(g, v *V) *V {
	if g == True {
		return v
	}
	switch v.k {
	case KStruct, KTuple:
		fs := make([]*V, len(v.args))
		for i, a := range v.args {
			fs[i] = under(g, a)
		}
		if v.k == KTuple {
			return mkTuple(fs...)
		}
		return mkStruct(v.typ, fs)
	case KIface:
		return mkIface(v.typ, under(g, v.args[0]))
	case KSeq:
		var out []Seg
		for _, s := range v.segs {
			if And(g, s.g) == False {
				continue
			}
			if s.g != True && And(g, Not(s.g)) == False {
				s.g = True
			}
			if s.el != nil {
				s.el = under(g, s.el)
			}
			out = append(out, s)
		}
		return mkSeq(out)
	case KNode:
		hit := false
		for _, lc := range leafConds(v) {
			switch lc.leaf.k {
			case KStruct, KTuple, KIface, KSeq, KPtr:
				hit = true
			}
		}
		if hit {
			if r := onlyUnder(g, v); r.k != KNode && r != Undef {
				return under(g, r)
			}
		}
	}
	return v
}

func undefLike(v *V) *V {
	if v.k == KStruct {
		fs := make([]*V, len(v.args))
		for i := range fs {
			fs[i] = undefLike(v.args[i])
		}
		return mkStruct(v.typ, fs)
	}
	return Undef
}

func (in *Interp) canonSeq(st *State, s *V, depth int) *V {
	if s.k != KSeq {
		return mapLeaves(s, func(l *V) *V {
			if l.k == KSeq {
				return in.canonSeq(st, l, depth)
			}
			return l
		})
	}
	if len(s.segs) == 1 && s.segs[0].g == True && s.segs[0].base != nil {
		return s.segs[0].base
	}
	n := Int(0)
	type el struct{ g, pos, v *V }
	var els []el
	max := 0
	for _, sg := range s.segs {
		var v *V
		if sg.el != nil {
			v = in.canonD(st, under(sg.g, sg.el), depth+1)
		} else {
			v = mkOpaque("splice", nil, sg.base)
		}
		els = append(els, el{sg.g, n, v})
		n = IAdd(n, ite(sg.g, Int(1), Int(0)))
		max++
	}
	args := []*V{n}
	for p := 0; p < max; p++ {
		var r *V
		for i := len(els) - 1; i >= 0; i-- {
			c := And(els[i].g, ICmp("==", els[i].pos, Int(int64(p))))
			if c == False {
				continue
			}
			v := els[i].v
			if r == nil {
				r = iteDeep(c, v, undefLike(v))
			} else {
				r = in.iteCanon(c, v, r)
			}
		}
		if r == nil {
			break
		}
		args = append(args, r)
	}
	return mkList(args)
}

// mkList drops trailing elements that never exist.
func mkList(args []*V) *V {
	for len(args) > 1 && allUndef(args[len(args)-1]) {
		args = args[:len(args)-1]
	}
	return mkOpaque("list", nil, args...)
}

func allUndef(v *V) bool {
	switch v.k {
	case KUndef:
		return true
	case KStruct, KTuple:
		for _, a := range v.args {
			if !allUndef(a) {
				return false
			}
		}
		return true
	case KNode:
		for _, k := range v.kids {
			if !allUndef(k) {
				return false
			}
		}
		return true
	}
	return v.k == KOpaque && v.op == "iface" && len(v.args) == 1 && v.args[0] == Undef
}

// iteCanon merges canonical elements of possibly different interface types.
func (in *Interp) iteCanon(c, a, b *V) *V {
	if a.k == KOpaque && b.k == KOpaque && a.op == "iface" && b.op == "iface" {
		conds := map[string]*V{}
		vals := map[string]*V{}
		for i := 1; i+2 < len(b.args); i += 3 {
			conds[b.args[i].s] = And(Not(c), b.args[i+1])
			vals[b.args[i].s] = b.args[i+2]
		}
		for i := 1; i+2 < len(a.args); i += 3 {
			n := a.args[i].s
			ca := And(c, a.args[i+1])
			if o, ok := vals[n]; ok {
				conds[n] = Or(conds[n], ca)
				vals[n] = iteDeep(ca, a.args[i+2], o)
			} else {
				conds[n] = ca
				vals[n] = iteDeep(ca, a.args[i+2], undefLike(a.args[i+2]))
			}
		}
		// types only in b keep their value under the new condition
		for n := range vals {
			vals[n] = iteDeep(conds[n], vals[n], undefLike(vals[n]))
		}
		rest := iteRaw(c, a.args[0], b.args[0])
		var names []string
		for n := range vals {
			if conds[n] != False {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		args := []*V{rest}
		for _, n := range names {
			args = append(args, Str(n), conds[n], vals[n])
		}
		return mkOpaque("iface", nil, args...)
	}
	return iteDeep(c, a, b)
}

var debug = os.Getenv("SVDEBUG") != ""

// filterSeq keeps the elements of a sequence of interfaces whose dynamic type
// has the given name (or drops them).
// reclose maps the lists that loops build to a function that rebuilds them
// with a transformed loop body.
var reclose = map[*V]func(func(*V) *V) *V{}

func filterSeq(v *V, name string, keep bool) *V {
	return mapLeaves(v, func(v *V) *V {
		if v.k == KUndef {
			return v
		}
		if v.k == KOpaque && v.op == "collect" {
			v = seqOfTerm(v)
		}
		if v.k != KSeq {
			fail("filter of %s", clip(v.String(), 900))
		}
		var out []Seg
		for _, s := range v.segs {
			if s.el != nil {
				hit := mapLeaves(s.el, func(x *V) *V {
					if x.k == KUndef {
						return x
					}
					n, ok := x.typ.(*types.Named)
					if x.k != KIface || !ok {
						fail("filter of element %s", clip(x.String(), 200))
					}
					return Bool((n.Obj().Name() == name) == keep)
				})
				out = append(out, Seg{g: And(s.g, hit), el: s.el})
				continue
			}
			re := reclose[s.base]
			if re == nil {
				fail("filter of %s", clip(s.base.String(), 200))
			}
			b := re(func(body *V) *V { return filterSeq(body, name, keep) })
			for _, x := range seqOfTerm(b).segs {
				out = append(out, Seg{g: And(s.g, x.g), el: x.el, base: x.base})
			}
		}
		if r := mkSeq(out); len(out) != 1 || out[0].base == nil || out[0].g != True {
			return r
		}
		return out[0].base
	})
}
