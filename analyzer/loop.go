package main

// Loops: constant unrolling, or a summary of one generic iteration with
// invariants, induction variables, accumulators and trip counts solved.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type slot struct {
	ent  *entity
	leaf int
	typ  types.Type
	comp byte // 'n' nanos, 'l' location, 's' scalar
	term *V   // the symbol
	sym  *V   // its scalar value
	init *V
	hyp  *V
	step *V
	mode byte // 'i' invariant, 's' symbol, 'k' induction
	acc  *V   // accumulated part (sequence, string or integer)
}

type entity struct {
	kind  byte // 'p' phi, 'm' memory, 'o' slice overlay
	phi   int
	obj   int
	key   *V
	init  *V
	typ   types.Type
	slots []*slot
}

type LoopInfo struct {
	fn       *ssa.Function
	pos      string
	k        *V // counter symbol
	kInt     *V
	cont     *V
	n        *V // trip count, if solved
	slots    []*slot
	g0       *V
	exits    int
	level    int
	ctx      []*V
	kfinal   *V
	unrolled int
}

var symSerial int

func flattenV(v *V, typ types.Type) (leaves []*V, typs []types.Type, comps []byte) {
	if typ != nil && isTime(typ) || typ == nil && isTimeV(v) {
		return []*V{timeNanos(v), timeLoc(v)}, []types.Type{nil, nil}, []byte{'n', 'l'}
	}
	if v.k == KStruct {
		var st *types.Struct
		var et types.Type
		if typ != nil {
			switch u := typ.Underlying().(type) {
			case *types.Struct:
				st = u
			case *types.Array:
				et = u.Elem()
			}
		}
		for i, a := range v.args {
			t := et
			if st != nil {
				t = st.Field(i).Type()
			}
			l, ts, cs := flattenV(a, t)
			leaves, typs, comps = append(leaves, l...), append(typs, ts...), append(comps, cs...)
		}
		return
	}
	return []*V{v}, []types.Type{typ}, []byte{'s'}
}

func isTimeV(v *V) bool {
	if v.k == KTime {
		return true
	}
	if v.k == KNode {
		for _, lc := range leafConds(v) {
			if lc.leaf.k == KTime {
				return true
			}
		}
	}
	return false
}

func unflattenV(shape *V, typ types.Type, leaves []*V, n *int) *V {
	if typ != nil && isTime(typ) || typ == nil && isTimeV(shape) {
		a, b := leaves[*n], leaves[*n+1]
		*n += 2
		return mkTimeV(a, b)
	}
	if shape.k == KStruct {
		var st *types.Struct
		var et types.Type
		if typ != nil {
			switch u := typ.Underlying().(type) {
			case *types.Struct:
				st = u
			case *types.Array:
				et = u.Elem()
			}
		}
		fs := make([]*V, len(shape.args))
		for i := range fs {
			t := et
			if st != nil {
				t = st.Field(i).Type()
			}
			fs[i] = unflattenV(shape.args[i], t, leaves, n)
		}
		return mkStruct(shape.typ, fs)
	}
	r := leaves[*n]
	*n++
	return r
}

func (e *entity) value() *V {
	ls := make([]*V, len(e.slots))
	for i, s := range e.slots {
		ls[i] = s.hyp
	}
	n := 0
	return unflattenV(e.init, e.typ, ls, &n)
}

func symFor(t *V, typ types.Type, comp byte, like *V) *V {
	switch comp {
	case 'n':
		return mkInt(vAtom(t, nil, nil))
	case 'l':
		return t
	}
	if like != nil {
		l := like
		if l.k == KNode {
			for _, lc := range leafConds(l) {
				if lc.leaf.k != KUndef {
					l = lc.leaf
					break
				}
			}
		}
		if l.k == KMap {
			return mkMap("sym", t)
		}
		if typ == nil {
			return symLike(t, l)
		}
	}
	if typ == nil {
		return t
	}
	if _, ok := typ.Underlying().(*types.Struct); ok {
		fail("loop variable of unexpanded struct type %s", typ)
	}
	return symOf(t, typ)
}

func (in *Interp) runLoop(fr *Frame, l *Loop, es []*Edge) []*Edge {
	g0, s0, phis0 := in.joinEdges(fr, l.header, es)
	if g0 == False {
		return nil
	}
	if ex, ok := in.tryUnroll(fr, l, g0, s0, phis0, false); ok {
		return ex
	}
	sn := in.snap(fr)
	ex := in.summarise(fr, l, g0, s0, phis0)
	li := in.loopsSeen[len(in.loopsSeen)-1]
	ok := len(in.loopsSeen) > sn.loops && li.fn == fr.fn && li.unrolled == 0 && g0 != False
	if ok && li.n == nil {
		// no closed form: follow the iterations when bounds limit their number
		kept := append([]*LoopInfo{}, in.loopsSeen[sn.loops:]...)
		in.restore(fr, sn)
		if ex, ok := in.tryUnroll(fr, l, g0, s0, phis0, true); ok {
			return ex
		}
		in.restore(fr, sn)
		_ = kept
		return in.summarise(fr, l, g0, s0, phis0)
	} else if ok && li.n != nil && !li.n.isIntConst() {
		// a few rounds at most
		if _, hi, any := intBounds(li.n, g0); any && hi != nil && hi.Cmp(bi(3)) <= 0 {
			in.restore(fr, sn)
			in.fewRounds = true
			ex, ok := in.tryUnroll(fr, l, g0, s0, phis0, false)
			in.fewRounds = false
			if ok {
				return ex
			}
			in.restore(fr, sn)
			return in.summarise(fr, l, g0, s0, phis0)
		}
	}
	return ex
}

// boundedGuard: the condition only tests integers that have bounds.
func boundedGuard(g *V) bool {
	if g.k != KNode {
		return true
	}
	if g.disc.poly == nil || g.disc.kind == 'f' {
		return false
	}
	lo, hi := g.disc.poly.bounds()
	if lo == nil || hi == nil {
		return false
	}
	for _, k := range g.kids {
		if !boundedGuard(k) {
			return false
		}
	}
	return true
}

type snapshot struct{ dead, writes, defers, loops, facts, rets int }

func (in *Interp) snap(fr *Frame) snapshot {
	return snapshot{len(deadEffects), len(in.writes), len(fr.defers), len(in.loopsSeen), len(in.facts), len(fr.rets)}
}
func (in *Interp) restore(fr *Frame, s snapshot) {
	deadEffects = deadEffects[:s.dead]
	in.writes = in.writes[:s.writes]
	fr.defers = fr.defers[:s.defers]
	in.loopsSeen = in.loopsSeen[:s.loops]
	in.facts = in.facts[:s.facts]
	fr.rets = fr.rets[:s.rets]
}

func loopRegs(l *Loop) []ssa.Value {
	var out []ssa.Value
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok && v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						out = append(out, v)
						break
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (in *Interp) tryUnroll(fr *Frame, l *Loop, g0 *V, s0 *State, phis0 []*V, bounded bool) ([]*Edge, bool) {
	sn := in.snap(fr)
	regs := loopRegs(l)
	var all []*Edge
	g, st, phis := g0, s0.clone(), phis0
	limit := 40
	few := in.fewRounds
	in.fewRounds = false
	if few {
		limit = 5
	}
	if bounded {
		limit = 100
	}
	t0 := time.Now()
	for it := 0; it < limit; it++ {
		for b := range l.blocks {
			delete(fr.exitCond, b)
		}
		exits, back := in.execRegion(fr, l.blocks, l.header, []*Edge{{to: l.header, guard: g, st: st, phis: phis}})
		for _, e := range exits {
			for _, r := range regs {
				if v, ok := fr.env[r]; ok {
					if _, has := e.st.regs[r]; !has {
						e.st.regs[r] = v
					}
				}
			}
		}
		all = append(all, exits...)
		if len(back) == 0 {
			for _, r := range regs {
				delete(fr.env, r)
			}
			in.loopsSeen = append(in.loopsSeen, &LoopInfo{fn: fr.fn, pos: in.p.pos(headPos(l)), unrolled: it + 1, n: Int(int64(it)), g0: g0, ctx: append([]*V{}, in.ctx...)})
			return all, true
		}
		constExit, openExit := false, false
		for b := range l.blocks {
			for _, s := range b.Succs {
				if !l.blocks[s] {
					if c, ok := fr.exitCond[b]; ok && (c == True || c == False) {
						constExit = true
					} else if ok {
						openExit = true
					}
				}
			}
		}
		if !bounded && !few && (!constExit || openExit && time.Since(t0) > 8*time.Second) {
			in.restore(fr, sn)
			return nil, false
		}
		if bounded {
			ok := time.Since(t0) < 10*time.Second
			var bs []*Edge
			for _, e := range back {
				if feasiblePart(e.guard) == False {
					continue
				}
				ok = ok && boundedGuard(e.guard)
				bs = append(bs, e)
			}
			if !ok {
				in.restore(fr, sn)
				return nil, false
			}
			if back = bs; len(back) == 0 {
				for _, r := range regs {
					delete(fr.env, r)
				}
				in.loopsSeen = append(in.loopsSeen, &LoopInfo{fn: fr.fn, pos: in.p.pos(headPos(l)), unrolled: it + 1, n: Int(int64(it)), g0: g0, ctx: append([]*V{}, in.ctx...)})
				return all, true
			}
		}
		g, st, phis = in.joinEdges(fr, l.header, back)
		for i, p := range phis {
			phis[i] = in.resolveAllIfSeq(st, p)
		}
		if g == False {
			break
		}
	}
	in.restore(fr, sn)
	return nil, false
}

func (in *Interp) resolveAllIfSeq(st *State, v *V) *V {
	if v.k == KSeq {
		return in.resolve(st, v)
	}
	return v
}

func (in *Interp) summarise(fr *Frame, l *Loop, g0 *V, s0 *State, phis0 []*V) []*Edge {
	sn := in.snap(fr)
	symSerial++
	id := symSerial
	nsym := 0
	newSym := func(typ types.Type, comp byte, like *V) (*V, *V) {
		nsym++
		t := mkOpaque(fmt.Sprintf("sym:T%d.%d", id, nsym), typ)
		return t, symFor(t, typ, comp, like)
	}
	kTerm := mkOpaque(fmt.Sprintf("sym:T%d.k", id), types.Typ[types.Int])
	kInt := mkInt(vAtom(kTerm, big0, nil))
	var ents []*entity
	byObj := map[int]*entity{}
	byKey := map[*V]*entity{}
	mkEnt := func(e *entity) *entity {
		ls, ts, cs := flattenV(e.init, e.typ)
		for i := range ls {
			e.slots = append(e.slots, &slot{ent: e, leaf: i, typ: ts[i], comp: cs[i], init: ls[i], hyp: ls[i], mode: 'i'})
		}
		ents = append(ents, e)
		return e
	}
	n := 0
	for _, i := range l.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e := mkEnt(&entity{kind: 'p', phi: n, init: in.resolveAllIfSeq(s0, phis0[n]), typ: p.Type()})
		for _, s := range e.slots {
			s.term, s.sym = newSym(s.typ, s.comp, s.init)
			s.hyp, s.mode = s.sym, 's'
		}
		n++
	}
	promote := func(s *slot) {
		if s.term == nil {
			s.term, s.sym = newSym(s.typ, s.comp, s.init)
		}
		s.hyp, s.mode = s.sym, 's'
	}
	var exits, back []*Edge
	var bg *V
	var bst *State
	var bphis []*V
	run := func() {
		in.restore(fr, sn)
		hs := s0.clone()
		phis := make([]*V, len(phis0))
		for _, e := range ents {
			switch e.kind {
			case 'p':
				phis[e.phi] = e.value()
			case 'm':
				hs.mem[e.obj] = e.value()
			case 'o':
				v := e.value()
				if v == e.key {
					delete(hs.over, e.key)
				} else {
					hs.over[e.key] = v
				}
			}
		}
		in.ctx = append(in.ctx, g0)
		in.depth++
		exits, back = in.execRegion(fr, l.blocks, l.header, []*Edge{{to: l.header, guard: True, st: hs, phis: phis}})
		in.depth--
		in.ctx = in.ctx[:len(in.ctx)-1]
		if len(back) > 0 {
			for _, e := range back {
				for i, p := range e.phis {
					e.phis[i] = in.resolveAllIfSeq(e.st, p)
				}
			}
			bg, bst, bphis = in.joinEdges(fr, l.header, back)
			// slices that changed in place and are still reachable only as loop variables
		}
		// the values an iteration hands to the next
		for _, e := range ents {
			var v *V
			if len(back) == 0 {
				continue
			}
			switch e.kind {
			case 'p':
				v = bphis[e.phi]
			case 'm':
				v = in.content(bst, e.obj)
			case 'o':
				v = in.resolve(bst, e.key)
			}
			ls, _, _ := flattenV(v, e.typ)
			if len(ls) != len(e.slots) {
				fail("loop variable changes shape in %s", fr.fn)
			}
			for i, s := range e.slots {
				s.step = ls[i]
			}
		}
	}
	for round := 0; ; round++ {
		if round > 60 {
			fail("loop summary does not stabilise in %s", fr.fn)
		}
		run()
		if len(back) == 0 {
			break
		}
		changed := false
		hdr := func(o int) (*V, bool) {
			if v, ok := s0.mem[o]; ok {
				return v, true
			}
			if v, ok := in.base.mem[o]; ok {
				return v, true
			}
			if v, ok := in.init[o]; ok {
				return v, true
			}
			return nil, false
		}
		var objs []int
		for o := range bst.mem {
			objs = append(objs, o)
		}
		sort.Ints(objs)
		for _, o := range objs {
			if byObj[o] != nil {
				continue
			}
			h, ok := hdr(o)
			if ok && h != bst.mem[o] {
				e := &entity{kind: 'm', obj: o, init: h, typ: in.objType[o]}
				if h.k != KStruct && in.objType[o] != nil {
					if _, ok := in.objType[o].Underlying().(*types.Map); ok {
						e.typ = nil
					}
				}
				byObj[o] = mkEnt(e)
				changed = true
			}
		}
		var keys []*V
		for k := range bst.over {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, k := range keys {
			if byKey[k] != nil || ownSym(k, id) {
				continue
			}
			h := in.resolve(s0, k)
			if h != in.resolve(bst, k) {
				if _, ok := s0.over[k]; !ok && freshIn(k, s0) {
					continue // allocated in the body
				}
				byKey[k] = mkEnt(&entity{kind: 'o', key: k, init: h})
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, e := range ents {
			for _, s := range e.slots {
				if s.mode == 'i' && s.step != s.hyp {
					promote(s)
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// solve
		for _, e := range ents {
			for _, s := range e.slots {
				if s.mode != 's' {
					continue
				}
				if s.step == s.sym || s.step == s.init && !mentionsOne(s.step, s.term) && !ownSym(s.step, id) {
					s.hyp, s.mode = s.init, 'i'
					changed = true
					continue
				}
				if isIntV(s.step) && isIntV(s.init) && isIntV(s.sym) {
					d := onlyUnder(bg, ISub(s.step, s.sym))
					if d != nil && !ownSym(d, id) {
						s.hyp, s.mode = IAdd(s.init, IMul(d, kInt)), 'k'
						changed = true
						continue
					}
				}
			}
		}
		if changed {
			// induction hypotheses must be confirmed: step == next value
			continue
		}
		// confirm induction variables
		ok := true
		for _, e := range ents {
			for _, s := range e.slots {
				if s.mode == 'k' {
					next := substK(s.hyp, kTerm, IAdd(kInt, Int(1)))
					if onlyUnder(bg, ISub(s.step, next)) != Int(0) {
						promote(s)
						s.mode = 'x' // general
						ok = false
					}
				}
			}
		}
		if ok {
			break
		}
	}
	var gen []*slot
	for _, e := range ents {
		for _, s := range e.slots {
			if s.mode == 's' || s.mode == 'x' {
				gen = append(gen, s)
			}
		}
	}
	if len(back) == 0 {
		// the body never repeats
		for _, e := range exits {
			e.guard = And(g0, e.guard)
		}
		in.snapshotRegs(fr, l, exits)
		return exits
	}
	// slots that always carry the same value
	if mergeEqual(gen, bg) {
		var rest []*slot
		for _, s := range gen {
			if s.mode != 'e' {
				rest = append(rest, s)
			}
		}
		gen = rest
		run()
		bgSlots(gen)
	}
	li := &LoopInfo{fn: fr.fn, pos: in.p.pos(headPos(l)), k: kTerm, kInt: kInt, cont: bg, slots: gen, g0: g0, exits: len(exits), ctx: append([]*V{}, in.ctx...)}
	in.loopsSeen = append(in.loopsSeen, li)
	return in.closeLoop(fr, l, li, id, gen, ents, bg, bst, exits, g0, s0)
}

func bgSlots([]*slot) {}

func headPos(l *Loop) (p token.Pos) {
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() && (p == 0 || i.Pos() < p) {
				p = i.Pos()
			}
		}
	}
	return
}

func freshIn(k *V, s0 *State) bool {
	if k.k == KSeq && len(k.segs) == 1 && k.segs[0].base != nil && k.segs[0].base.op == "fresh" {
		return true
	}
	return false
}

func isIntV(v *V) bool {
	if v.k == KInt {
		return true
	}
	if v.k == KNode {
		for _, lc := range leafConds(v) {
			if lc.leaf.k != KInt && lc.leaf.k != KUndef {
				return false
			}
		}
		return true
	}
	return false
}

// ownSym: does v mention a symbol of this loop other than its counter?
func ownSym(v *V, id int) bool {
	p := fmt.Sprintf("sym:T%d.", id)
	for _, x := range freeSyms(v) {
		if strings.HasPrefix(x.op, p) {
			return true
		}
	}
	return false
}

// onlyUnder gives the value of v where the guard holds, if it simplifies.
func onlyUnder(g, v *V) *V {
	if v.k != KNode {
		return v
	}
	r := dropUndef(iteRaw(g, v, Undef))
	return r
}

// dropUndef removes undefined branches where one defined value is left.
func dropUndef(v *V) *V {
	if v.k != KNode {
		return v
	}
	kids := make([]*V, len(v.kids))
	var def *V
	same := true
	for i, k := range v.kids {
		kids[i] = dropUndef(k)
		if kids[i].k == KUndef {
			continue
		}
		if def == nil {
			def = kids[i]
		} else if def != kids[i] {
			same = false
		}
	}
	if def == nil {
		return Undef
	}
	if same {
		return def
	}
	// fill undefined regions from a neighbour
	for i := range kids {
		if kids[i].k == KUndef {
			if i > 0 && kids[i-1].k != KUndef {
				kids[i] = kids[i-1]
			} else {
				for j := i + 1; j < len(kids); j++ {
					if kids[j].k != KUndef {
						kids[i] = kids[j]
						break
					}
				}
			}
		}
	}
	return mkNode(v.disc, v.cuts, v.keys, kids)
}

func substK(v, k, to *V) *V {
	s := newSubst()
	s.m[k] = to
	return s.val(v)
}

// mergeEqual finds loop variables that always equal another one.
func mergeEqual(gen []*slot, bg *V) bool {
	any := false
	for i, a := range gen {
		if a.mode == 'e' {
			continue
		}
		for _, b := range gen[i+1:] {
			if b.mode == 'e' || a.init != b.init || a.comp != b.comp || a.sym.k != b.sym.k {
				continue
			}
			s := newSubst()
			s.m[b.term] = a.sym
			if s.val(a.step) == s.val(b.step) {
				b.hyp, b.mode = a.sym, 'e'
				any = true
			}
		}
	}
	return any
}

func (in *Interp) snapshotRegs(fr *Frame, l *Loop, exits []*Edge) {
	regs := loopRegs(l)
	for _, e := range exits {
		for _, r := range regs {
			if v, ok := fr.env[r]; ok {
				if _, has := e.st.regs[r]; !has {
					e.st.regs[r] = v
				}
			}
		}
	}
	for _, r := range regs {
		delete(fr.env, r)
	}
}

// ---------------------------------------------------------------- closing

// bound symbols of closed loop terms: "bnd:<level>.<i>"
var levelMemo = map[*V]int{}

func levelOf(v *V) int {
	if r, ok := levelMemo[v]; ok {
		return r
	}
	l := 0
	up := func(n int) {
		if n > l {
			l = n
		}
	}
	if v.k == KOpaque && strings.HasPrefix(v.op, "bnd:") {
		fmt.Sscanf(v.op, "bnd:%d.", &l)
	}
	for _, a := range v.args {
		up(levelOf(a))
	}
	for _, a := range v.kids {
		up(levelOf(a))
	}
	if v.poly != nil {
		up(polyLevel(v.poly))
	}
	if v.loc != nil {
		up(levelOf(v.loc))
	}
	if v.disc != nil {
		if v.disc.poly != nil {
			up(polyLevel(v.disc.poly))
		} else {
			up(levelOf(v.disc.v))
		}
	}
	for _, s := range v.segs {
		up(levelOf(s.g))
		if s.el != nil {
			up(levelOf(s.el))
		} else {
			up(levelOf(s.base))
		}
	}
	levelMemo[v] = l
	return l
}
func polyLevel(p *Poly) int {
	l := 0
	for _, t := range p.ms {
		for _, a := range t.as {
			n := 0
			if a.fp != nil {
				n = polyLevel(a.fp)
			} else {
				n = levelOf(a.v)
			}
			if n > l {
				l = n
			}
		}
	}
	return l
}

type closer struct {
	in   *Interp
	li   *LoopInfo
	id   int
	gen  []*slot
	bst  *State
	memo map[string][]*V
}

// term closes the loop for some roots: the arguments are the trip condition
// and the initial values and steps of the variables the roots depend on,
// followed by the roots, all in canonical bound symbols.
func (c *closer) term(roots ...*V) []*V     { return c.close(false, roots...) }
func (c *closer) termBody(roots ...*V) []*V { return c.close(true, roots...) }

// restrictTo leaves a value undefined where the condition does not hold.
func restrictTo(c, v *V) *V {
	switch {
	case v.k == KStruct || v.k == KTuple:
		fs := make([]*V, len(v.args))
		for i, x := range v.args {
			fs[i] = restrictTo(c, x)
		}
		if v.k == KTuple {
			return mkTuple(fs...)
		}
		return mkStruct(v.typ, fs)
	case v.k == KOpaque && (v.op == "list" || v.op == "splice" || v.op == "iface"):
		fs := make([]*V, len(v.args))
		for i, x := range v.args {
			fs[i] = restrictTo(c, x)
		}
		if v.op == "list" {
			return mkList(fs)
		}
		return mkOpaque(v.op, v.typ, fs...)
	case v.k == KStr && v.op == "concat":
		return v
	case v.k == KSeq || v == Undef:
		return v
	}
	return iteRaw(c, v, Undef)
}

// close builds the term; roots that only matter in complete iterations
// (kinds) are left undefined elsewhere.
func (c *closer) close(kinds bool, roots ...*V) []*V {
	bySym := map[*V]*slot{}
	for _, s := range c.gen {
		bySym[s.term] = s
	}
	need := map[*slot]bool{}
	var work []*V
	if c.li.n == nil {
		work = append(work, c.li.cont)
	}
	work = append(work, roots...)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, x := range freeSyms(v) {
			if s, ok := bySym[x]; ok && !need[s] {
				need[s] = true
				work = append(work, c.step(s))
			}
		}
	}
	var vars []*slot
	for _, s := range c.gen {
		if need[s] {
			vars = append(vars, s)
		}
	}
	sort.SliceStable(vars, func(i, j int) bool {
		a, b := vars[i], vars[j]
		if a.comp != b.comp {
			return a.comp < b.comp
		}
		if a.sym.k != b.sym.k {
			return a.sym.k < b.sym.k
		}
		return a.init.id < b.init.id
	})
	var body []*V
	if c.li.n == nil {
		body = append(body, c.li.cont)
	} else {
		body = append(body, c.li.n)
	}
	for _, s := range vars {
		body = append(body, c.step(s))
	}
	body = append(body, roots...)
	lvl := 0
	for _, b := range body {
		if n := levelOf(b); n > lvl {
			lvl = n
		}
	}
	lvl++
	sb := newSubst()
	sb.m[c.li.k] = mkInt(vAtom(mkOpaque(fmt.Sprintf("bnd:%d.k", lvl), nil), big0, nil))
	for i, s := range vars {
		t := mkOpaque(fmt.Sprintf("bnd:%d.%d", lvl, i), s.typ)
		like := s.sym
		sb.m[s.term] = symFor(t, s.typ, s.comp, like)
	}
	var out []*V
	kind := "while"
	if c.li.n != nil {
		kind = "count"
	}
	out = append(out, Str(kind), Int(int64(len(vars))))
	for i, b := range body {
		if c.li.n != nil && i == 0 {
			out = append(out, b)
			continue
		}
		if i > len(vars) && kinds {
			b = restrictTo(c.running(), b)
		}
		out = append(out, sb.val(b))
	}
	for _, s := range vars {
		out = append(out, c.in.canon(c.bst, s.init))
	}
	return out
}

// step is the next value of a variable, undefined when the loop does not go on.
func (c *closer) step(s *slot) *V {
	return restrictTo(c.running(), c.in.canon(c.bst, s.step))
}

// running is the condition under which an iteration is complete.
func (c *closer) running() *V {
	if c.li.n != nil {
		return ICmp("<", c.li.kInt, c.li.n)
	}
	return c.li.cont
}

func (in *Interp) closeLoop(fr *Frame, l *Loop, li *LoopInfo, id int, gen []*slot, ents []*entity, bg *V, bst *State, exits []*Edge, g0 *V, s0 *State) []*Edge {
	c := &closer{in: in, li: li, id: id, gen: gen, bst: bst}
	if !mentionsGen(bg, gen) && len(exits) > 0 {
		li.n = solveTrip(bg, li.k, g0)
		if os.Getenv("SV_TRIP") != "" {
			fmt.Println("TRIP", fr.fn, "bg", bg, "g0", g0, "n", li.n)
		}
		if li.n != nil {
			// paths that never leave the loop
			never := And(g0, mapLeaves(li.n, func(x *V) *V { return Bool(x == Undef) }))
			if never == g0 {
				return nil
			}
			if never != False {
				g0 = And(g0, Not(never))
				li.g0 = g0
				li.n = dropUndef(li.n)
			}
		}
		if debug && li.n == nil {
			fmt.Println("trip count not solved:", fr.fn, bg)
		}
	}
	// accumulators
	for _, s := range gen {
		s.acc = nil
		others := false
		for _, o := range gen {
			if o != s && mentionsOne(o.step, s.term) {
				others = true
			}
		}
		if others || mentionsOne(bg, s.term) {
			continue
		}
		s.acc = accOf(s)
	}
	fin := newSubst()
	var kfin *V
	getK := func() *V {
		if kfin == nil {
			if li.n != nil {
				kfin = li.n
			} else {
				kfin = mkInt(vAtom(mkOpaque("kexit", nil, c.term()...), big0, nil))
			}
		}
		return kfin
	}
	used := map[*V]bool{}
	note := func(v *V) {
		for _, x := range freeSyms(v) {
			used[x] = true
		}
	}
	in.snapshotRegs(fr, l, exits)
	for _, e := range exits {
		note(e.guard)
		for _, v := range e.st.mem {
			note(v)
		}
		for k, v := range e.st.over {
			note(k)
			note(v)
		}
		for _, v := range e.st.regs {
			note(v)
		}
		for _, v := range e.phis {
			note(v)
		}
		for _, ef := range e.st.eff {
			for _, a := range ef.args {
				note(a)
			}
			note(ef.guard)
			if ef.res != nil {
				note(ef.res)
			}
		}
	}
	if used[li.k] {
		fin.m[li.k] = getK()
	}
	for _, s := range gen {
		if !used[s.term] {
			continue
		}
		fin.m[s.term] = c.final(s)
	}
	li.kfinal = kfin
	// effects of the complete iterations
	n0 := len(s0.eff)
	var loopEff *Effect
	if len(bst.eff) > n0 {
		loopEff = &Effect{op: "loop", guard: g0, body: bst.eff[n0:], fn: fr.fn.String(), pos: li.pos, loop: mkTuple(c.term()...)}
		for _, e := range bst.eff[n0:] {
			loopEff.args = append(loopEff.args, e.res)
			loopEff.args = loopEff.args[:0]
		}
	}
	for i, e := range exits {
		ns := newState()
		for o, v := range e.st.mem {
			ns.mem[o] = fin.val(v)
		}
		for k, v := range e.st.over {
			nk := fin.val(k)
			nv := fin.val(v)
			if nk != nv {
				ns.over[nk] = nv
			}
		}
		for r, v := range e.st.regs {
			ns.regs[r] = fin.val(v)
		}
		ns.eff = append([]*Effect{}, s0.eff...)
		if loopEff != nil {
			ns.eff = append(ns.eff, loopEff)
		}
		for _, ef := range e.st.eff[min(n0, len(e.st.eff)):] {
			ne := *ef
			ne.args = fin.list(ef.args)
			ne.guard = And(g0, fin.val(ef.guard))
			if ef.res != nil {
				ne.res = fin.val(ef.res)
			}
			ns.eff = append(ns.eff, &ne)
		}
		e.st = ns
		e.phis = fin.list(e.phis)
		e.guard = fin.val(e.guard)
		_ = i
	}
	// exactly one exit is taken
	taken := False
	for i, e := range exits {
		if i == len(exits)-1 {
			if len(exits) == 1 {
				in.facts = append(in.facts, Or(Not(g0), e.guard))
			}
			e.guard = And(g0, Not(taken))
			continue
		}
		g := And(e.guard, Not(taken))
		taken = Or(taken, e.guard)
		e.guard = And(g0, g)
	}
	return exits
}

func mentionsGen(v *V, gen []*slot) bool {
	m := map[*V]bool{}
	for _, s := range gen {
		m[s.term] = true
	}
	return mentions(v, m)
}

// accOf recognises s' = s ++ part, s' = s + part.
func accOf(s *slot) *V {
	switch {
	case s.sym.k == KSeq:
		st := s.step
		if st.k != KSeq || len(st.segs) == 0 || st.segs[0].base != s.term || st.segs[0].g != True {
			return nil
		}
		rest := mkSeq(append([]Seg{}, st.segs[1:]...))
		if mentionsOne(rest, s.term) {
			return nil
		}
		return rest
	case s.sym.k == KStr:
		bad := false
		rest := mapLeaves(s.step, func(l *V) *V {
			if l == s.sym {
				return Str("")
			}
			if l.k == KStr && l.op == "concat" && l.args[0] == s.sym {
				r := l.args[1]
				for _, a := range l.args[2:] {
					r = SConcat(r, a)
				}
				return r
			}
			if l.k == KUndef {
				return l
			}
			bad = true
			return l
		})
		if bad || mentionsOne(rest, s.term) {
			return nil
		}
		return rest
	case isIntV(s.sym) && isIntV(s.step):
		d := ISub(s.step, s.sym)
		if mentionsOne(d, s.term) {
			return nil
		}
		return d
	}
	return nil
}

func (c *closer) final(s *slot) *V {
	if s.acc != nil {
		switch {
		case s.sym.k == KSeq:
			if len(s.acc.segs) == 0 {
				return s.init
			}
			body := c.in.canon(c.bst, s.acc)
			typ := s.typ
			if typ == nil {
				typ = s.term.typ
			}
			t := mkOpaque("collect", typ, c.termBody(body)...)
			reclose[t] = func(f func(*V) *V) *V {
				a := f(s.acc)
				if a.k == KSeq && len(a.segs) == 0 {
					return a
				}
				return mkOpaque("collect", typ, c.termBody(c.in.canon(c.bst, a))...)
			}
			return seqConcat(s.init, mkSeq([]Seg{{g: True, base: t}}))
		case s.sym.k == KStr:
			return SConcat(s.init, mkStrTerm("collect", c.termBody(s.acc)...))
		default:
			if c.li.n != nil && !mentionsGen(s.acc, c.gen) {
				return IAdd(s.init, sumV(c.li.n, s.acc, c.li.k))
			}
			return IAdd(s.init, mkInt(vAtom(mkOpaque("sum", nil, c.termBody(s.acc)...), nil, nil)))
		}
	}
	args := c.term(s.sym)
	t := mkOpaque("final", s.typ, args...)
	return symFor(t, s.typ, s.comp, s.sym)
}

// sumV is the sum of d(k) for k in 0..n-1.
func sumV(n, d, k *V) *V {
	return splitInv([]*V{n, d}, k, newEnv(), func(x []*V, e *Env) *V {
		n, d := x[0], x[1]
		if n == Int(0) || d == Int(0) {
			return Int(0)
		}
		if n.k == KInt {
			// the counter runs from 0 to n-1
			ka := pAtomOf(k)
			ne := e.clone()
			ne.in[pAtom(ka).id] = irange{big0, nil}
			if q := pSub(pAtom(ka), n.poly); !q.isConst() {
				pr, sc := q.primitive() // q = sc*pr + c <= -1
				lim := new(big.Int).Sub(bi(-1), q.c)
				r := ne.in[pr.id]
				if sc.Sign() > 0 {
					r.hi = bmin(r.hi, floorDiv(lim, sc))
				} else {
					r.lo = bmax(r.lo, ceilDiv(new(big.Int).Neg(lim), new(big.Int).Neg(sc)))
				}
				ne.in[pr.id] = r
			}
			d = prune(d, ne)
		}
		if !mentionsOne(d, k) && d.k == KInt {
			return IMul(n, d)
		}
		// overall sign and direction are normalised
		sign := int64(1)
		if leadSign(d) < 0 {
			d = ISub(Int(0), d)
			sign = -1
		}
		if g := contentOf(d); g != nil && g.Cmp(big1) > 0 {
			d = mapLeaves(d, func(l *V) *V {
				if l.k != KInt {
					return l
				}
				m := map[string]*Mono{}
				for _, t := range l.poly.ms {
					m[t.key] = &Mono{t.as, new(big.Int).Quo(t.c, g), t.key}
				}
				return mkInt(mkPoly(new(big.Int).Quo(l.poly.c, g), m))
			})
			return IMul(mkInt(pScale(pConst(g), bi(sign))), sumV(n, d, k))
		}
		if kDir(d, k) < 0 {
			kv := mkInt(vAtom(k, big0, nil))
			d = substK(d, k, ISub(ISub(n, Int(1)), kv))
			if d.k == KInt && !mentionsOne(d, k) {
				return IMul(Int(sign), IMul(n, d))
			}
		}
		lvl := levelOf(d) + 1
		body := substK(d, k, mkInt(vAtom(mkOpaque(fmt.Sprintf("bnd:%d.k", lvl), nil), big0, nil)))
		return IMul(Int(sign), mkInt(vAtom(mkOpaque("sumn", nil, n, body), nil, nil)))
	})
}

// prune drops the regions of a diagram that an environment excludes.
func prune(v *V, e *Env) *V {
	if v.k != KNode {
		return v
	}
	kids := make([]*V, len(v.kids))
	var some *V
	for j, k := range v.kids {
		ne, ok := v.enter(j, e)
		if !ok {
			kids[j] = some
			continue
		}
		kids[j] = prune(k, ne)
		if some == nil {
			for i := 0; i < j; i++ {
				kids[i] = kids[j]
			}
		}
		some = kids[j]
	}
	if some == nil {
		return v
	}
	return mkNode(v.disc, v.cuts, v.keys, kids)
}

// contentOf is the common factor of all leaves.
func contentOf(d *V) *big.Int {
	g := bi(0)
	for _, lc := range leafConds(d) {
		if lc.leaf.k == KUndef {
			continue
		}
		if lc.leaf.k != KInt {
			return nil
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(lc.leaf.poly.c))
		for _, t := range lc.leaf.poly.ms {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		}
	}
	return g
}

func leadSign(d *V) int {
	r := 0
	for _, lc := range leafConds(d) {
		if lc.leaf.k == KInt {
			s := lc.leaf.poly.c.Sign()
			if s == 0 && len(lc.leaf.poly.ms) > 0 {
				s = lc.leaf.poly.ms[0].c.Sign()
			}
			if s != 0 {
				return s
			}
		}
	}
	return r
}

// kDir is the sign of the counter in the first polynomial that mentions it.
func kDir(d, k *V) int {
	ka := pAtomOf(k)
	best, dir := 1<<62, 0
	var poly func(p *Poly)
	seenP := map[int]bool{}
	poly = func(p *Poly) {
		if seenP[p.id] {
			return
		}
		seenP[p.id] = true
		for _, t := range p.ms {
			for _, a := range t.as {
				if a == ka && len(t.as) == 1 {
					if p.id < best {
						best, dir = p.id, t.c.Sign()
					}
				}
				if a.fp != nil {
					poly(a.fp)
				}
			}
		}
	}
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.poly != nil {
			poly(v.poly)
		}
		if v.disc != nil && v.disc.poly != nil {
			poly(v.disc.poly)
		}
		for _, x := range v.kids {
			rec(x)
		}
		for _, x := range v.args {
			rec(x)
		}
	}
	rec(d)
	return dir
}

func pAtomOf(k *V) *Atom {
	return vAtom(k, big0, nil).ms[0].as[0]
}

// discsOf lists the discriminants of diagrams in order.
func discsOf(vs ...*V) []*Disc {
	set := map[*Disc]bool{}
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if v.k != KNode || seen[v] {
			return
		}
		seen[v] = true
		set[v.disc] = true
		for _, k := range v.kids {
			rec(k)
		}
	}
	for _, v := range vs {
		rec(v)
	}
	var out []*Disc
	for d := range set {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func discMentions(d *Disc, k *V) bool {
	if d.poly != nil {
		for _, x := range polyFree(d.poly) {
			if x == k {
				return true
			}
		}
		return false
	}
	return mentionsOne(d.v, k)
}

// splitInv splits on the discriminants that do not mention k.
func splitInv(vs []*V, k *V, env *Env, f func([]*V, *Env) *V) *V {
	var d *Disc
	for _, x := range discsOf(vs...) {
		if !discMentions(x, k) {
			d = x
			break
		}
	}
	if d == nil {
		return f(vs, env)
	}
	// the partition: all cuts used on d anywhere in the diagrams
	var nodes []*V
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if v.k != KNode || seen[v] {
			return
		}
		seen[v] = true
		if v.disc == d {
			nodes = append(nodes, v)
		}
		for _, x := range v.kids {
			rec(x)
		}
	}
	for _, v := range vs {
		rec(v)
	}
	cuts, keys, n := mergeParts(d, nodes)
	kids := make([]*V, n)
	for j := 0; j < n; j++ {
		ne, ok := envRegion(env, d, cuts, keys, j)
		xs := make([]*V, len(vs))
		for i, v := range vs {
			xs[i] = cofactor(v, d, cuts, keys, j)
		}
		if !ok {
			kids[j] = nil
			continue
		}
		kids[j] = splitInv(xs, k, ne, f)
	}
	var some *V
	for _, x := range kids {
		if x != nil {
			some = x
		}
	}
	if some == nil {
		return Undef
	}
	for j := range kids {
		if kids[j] == nil {
			kids[j] = some
		}
	}
	return mkNode(d, cuts, keys, kids)
}

func envRegion(env *Env, d *Disc, cuts []Cut, keys []string, j int) (*Env, bool) {
	ne := env.clone()
	switch d.kind {
	case 'i':
		var lo, hi *big.Int
		if j > 0 {
			lo = new(big.Int).Add(cuts[j-1].v.Num(), big1)
		}
		if j < len(cuts) {
			hi = cuts[j].v.Num()
		}
		pl, ph := env.polyBounds(d.poly)
		lo, hi = bmax(lo, pl), bmin(hi, ph)
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			return nil, false
		}
		ne.in[d.poly.id] = irange{lo, hi}
	}
	return ne, true
}

func cofactor(v *V, d *Disc, cuts []Cut, keys []string, j int) *V {
	memo := map[*V]*V{}
	var rec func(v *V) *V
	rec = func(v *V) *V {
		if v.k != KNode {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		var r *V
		if v.disc == d {
			r = rec(pick(v, d, cuts, keys, j))
		} else {
			kids := make([]*V, len(v.kids))
			for i, x := range v.kids {
				kids[i] = rec(x)
			}
			r = mkNode(v.disc, v.cuts, v.keys, kids)
		}
		memo[v] = r
		return r
	}
	return rec(v)
}

// solveTrip finds the number of iterations from the continue condition.
func solveTrip(cg, k, g0 *V) *V {
	bad := false
	n := splitInv([]*V{iteRaw(g0, cg, False)}, k, newEnv(), func(x []*V, e *Env) *V {
		r := tripLeaf(x[0], k, e)
		if r == nil {
			bad = true
			return Int(0)
		}
		return r
	})
	if bad {
		return nil
	}
	return n
}

func tripLeaf(cg, k *V, e *Env) *V {
	if cg == False {
		return Int(0)
	}
	if cg == True {
		return Undef // goes on for ever
	}
	if cg.k != KNode || cg.disc.kind != 'i' {
		return nil
	}
	p := cg.disc.poly
	ka := pAtomOf(k)
	a := big0
	q := map[string]*Mono{}
	for i := range p.ms {
		t := p.ms[i]
		if len(t.as) == 1 && t.as[0] == ka {
			a = t.c
			continue
		}
		q[t.key] = &p.ms[i]
	}
	if a.Sign() == 0 {
		return nil
	}
	qp := mkPoly(p.c, q)
	for _, x := range polyFree(qp) {
		if x == k {
			return nil
		}
	}
	// a conjunction: the first of its parts to fail ends the loop
	rest := -1
	for j, kid := range cg.kids {
		if kid != True && kid != False {
			if rest >= 0 {
				return nil
			}
			rest = j
		}
	}
	if rest >= 0 {
		kids := append([]*V{}, cg.kids...)
		for _, kid := range kids {
			if kid == True {
				return nil
			}
		}
		kids[rest] = True
		n1 := tripLeaf(mkNode(cg.disc, cg.cuts, cg.keys, kids), k, e)
		n2 := splitInv([]*V{cg.kids[rest]}, k, e, func(x []*V, e *Env) *V {
			if r := tripLeaf(x[0], k, e); r != nil {
				return r
			}
			return Undef
		})
		if n1 == nil || n2 == nil {
			return nil
		}
		for _, n := range []*V{n1, n2} {
			for _, lc := range leafConds(n) {
				if lc.leaf.k != KInt {
					return nil
				}
			}
		}
		return ite(ICmp("<=", n1, n2), n1, n2)
	}
	ab := new(big.Int).Abs(a)
	atLeast0 := func(n *Poly) *V {
		lo, _ := e.polyBounds(n)
		if lo != nil && lo.Sign() >= 0 {
			return mkInt(n)
		}
		return ite(leZero(n), Int(0), mkInt(n))
	}
	// number of steps of size |a| to get from q to at most hi (going down)
	down := func(q *Poly, hi *big.Int) *V { // q - |a|k <= hi
		// k >= (q-hi)/|a|
		n := pAdd(pFdiv(pSub(pSub(q, pConst(hi)), pInt(1)), ab), pInt(1))
		return atLeast0(n)
	}
	neg := pScale(qp, bi(-1))
	switch {
	case len(cg.kids) == 2 && cg.kids[0] == True: // p <= c goes on
		c := cg.cuts[0].v.Num()
		if a.Sign() > 0 {
			// ends when -p <= -(c+1)
			return down(neg, new(big.Int).Neg(new(big.Int).Add(c, big1)))
		}
		// p decreases: ends only if it never starts
		lo, _ := e.polyBounds(qp)
		if lo != nil && lo.Cmp(c) > 0 {
			return Int(0)
		}
		return iteRaw(leZero(pSub(qp, pConst(c))), Undef, Int(0))
	case len(cg.kids) == 2: // p > c goes on
		c := cg.cuts[0].v.Num()
		if a.Sign() < 0 {
			return down(qp, c)
		}
		_, hi := e.polyBounds(qp)
		if hi != nil && hi.Cmp(c) <= 0 {
			return Int(0)
		}
		return iteRaw(leZero(pSub(qp, pConst(c))), Int(0), Undef)
	case len(cg.kids) == 3 && cg.kids[0] == True && cg.kids[2] == True:
		lo := new(big.Int).Add(cg.cuts[0].v.Num(), big1)
		hi := cg.cuts[1].v.Num()
		// q is the way to go down to hi, which must not jump over lo
		goDown := func(q *Poly, lo, hi *big.Int) *V {
			n := down(q, hi)
			if new(big.Int).Add(new(big.Int).Sub(hi, lo), big1).Cmp(ab) < 0 {
				at := ISub(mkInt(q), IMul(mkBigInt(ab), n))
				n = iteRaw(ICmp("<", at, mkBigInt(lo)), Undef, n)
			}
			ql, _ := e.polyBounds(q)
			if ql == nil || ql.Cmp(lo) < 0 {
				n = iteRaw(ICmp("<", mkInt(q), mkBigInt(lo)), Undef, n)
			}
			return n
		}
		if a.Sign() < 0 {
			return goDown(qp, lo, hi)
		}
		return goDown(neg, new(big.Int).Neg(hi), new(big.Int).Neg(lo))
	}
	return nil
}
