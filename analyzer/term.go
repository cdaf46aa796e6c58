package main

// Canonical value graphs: hash-consed terms with reduced ordered decision
// diagrams over interval partitions for case distinctions.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KInt Kind = iota
	KFlt
	KStr
	KBool
	KTime
	KStruct
	KPtr
	KSeq
	KIface
	KOpaque
	KTuple
	KFunc
	KNil
	KMapRef
	KMap
	KUndef
	KNode
)

type PathEl struct {
	field int // struct field or constant array index
	seq   *V  // element pointer into a symbolic sequence
	idx   *V
}

type Seg struct {
	g    *V // guard
	el   *V // single element, or nil
	base *V // spliced symbolic sequence (KOpaque)
}

// V is an immutable, hash-consed abstract value.
type V struct {
	id   int
	k    Kind
	poly *Poly
	loc  *V
	op   string
	args []*V
	fc   float64
	s    string
	b    bool
	typ  types.Type
	obj  int
	path []PathEl
	segs []Seg
	den  *big.Int // floats: the value is poly/den
	disc *Disc
	cuts []Cut
	keys []string
	kids []*V
	fn   *ssa.Function
}

// Disc is what a decision node decides on.
type Disc struct {
	id   int
	kind byte // 'i' integer polynomial, 'f' polynomial over the reals, 's' string/enum term, 'b' boolean term
	poly *Poly
	v    *V
	lo   *big.Int
	hi   *big.Int
}

// Cut separates x <= v (after) or x < v (!after) from the rest.
type Cut struct {
	v     *big.Rat
	after bool
}

func cutCmp(a, b Cut) int {
	c := a.v.Cmp(b.v)
	if c != 0 {
		return c
	}
	if a.after == b.after {
		return 0
	}
	if !a.after {
		return -1
	}
	return 1
}

var (
	vTab    = map[string]*V{}
	vCount  int
	atomTab = map[string]*Atom{}
	polyTab = map[string]*Poly{}
	discTab = map[string]*Disc{}
	typeIDs = map[string]int{}

	True, False, Undef *V
)

func intern(key string, v *V) *V {
	if o, ok := vTab[key]; ok {
		return o
	}
	vCount++
	v.id = vCount
	vTab[key] = v
	return v
}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	s := types.TypeString(t, nil)
	if id, ok := typeIDs[s]; ok {
		return id
	}
	id := len(typeIDs) + 1
	typeIDs[s] = id
	return id
}

func init() {
	True = intern("b:t", &V{k: KBool, b: true})
	False = intern("b:f", &V{k: KBool, b: false})
	Undef = intern("undef", &V{k: KUndef})
}

// ---------------------------------------------------------------- polynomials

type Atom struct {
	id     int
	v      *V    // wrapped term, or nil
	fp     *Poly // floor(fp / fm)
	fm     *big.Int
	lo, hi *big.Int
}

type Mono struct {
	as  []*Atom
	c   *big.Int
	key string
}

type Poly struct {
	id int
	c  *big.Int
	ms []Mono
}

func bi(n int64) *big.Int { return big.NewInt(n) }

var big0, big1 = bi(0), bi(1)

func monoKey(as []*Atom) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(fmt.Sprintf("%08d.", a.id))
	}
	return sb.String()
}

func mkPoly(c *big.Int, m map[string]*Mono) *Poly {
	keys := make([]string, 0, len(m))
	for k, t := range m {
		if t.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var sb strings.Builder
	sb.WriteString(c.String())
	ms := make([]Mono, 0, len(keys))
	for _, k := range keys {
		t := m[k]
		ms = append(ms, Mono{t.as, t.c, k})
		sb.WriteString("|" + k + "*" + t.c.String())
	}
	key := sb.String()
	if p, ok := polyTab[key]; ok {
		return p
	}
	p := &Poly{id: len(polyTab) + 1, c: c, ms: ms}
	polyTab[key] = p
	return p
}

func pConst(c *big.Int) *Poly { return mkPoly(c, nil) }
func pInt(n int64) *Poly      { return pConst(bi(n)) }
func pAtom(a *Atom) *Poly {
	k := monoKey([]*Atom{a})
	return mkPoly(big0, map[string]*Mono{k: {[]*Atom{a}, big1, k}})
}
func (p *Poly) isConst() bool { return len(p.ms) == 0 }

func pLin(a *Poly, ka *big.Int, b *Poly, kb *big.Int) *Poly {
	c := new(big.Int).Add(new(big.Int).Mul(a.c, ka), new(big.Int).Mul(b.c, kb))
	m := map[string]*Mono{}
	for _, t := range a.ms {
		m[t.key] = &Mono{t.as, new(big.Int).Mul(t.c, ka), t.key}
	}
	for _, t := range b.ms {
		d := new(big.Int).Mul(t.c, kb)
		if o, ok := m[t.key]; ok {
			o.c = new(big.Int).Add(o.c, d)
		} else {
			m[t.key] = &Mono{t.as, d, t.key}
		}
	}
	return mkPoly(c, m)
}
func pAdd(a, b *Poly) *Poly { return pLin(a, big1, b, big1) }
func pSub(a, b *Poly) *Poly { return pLin(a, big1, b, bi(-1)) }
func pScale(a *Poly, k *big.Int) *Poly {
	return pLin(a, k, pInt(0), big0)
}
func pMul(a, b *Poly) *Poly {
	if a.isConst() {
		return pScale(b, a.c)
	}
	if b.isConst() {
		return pScale(a, b.c)
	}
	m := map[string]*Mono{}
	add := func(as []*Atom, c *big.Int) {
		k := monoKey(as)
		if o, ok := m[k]; ok {
			o.c = new(big.Int).Add(o.c, c)
		} else {
			m[k] = &Mono{as, c, k}
		}
	}
	aa := append([]Mono{{nil, a.c, ""}}, a.ms...)
	bb := append([]Mono{{nil, b.c, ""}}, b.ms...)
	c := big0
	for _, x := range aa {
		for _, y := range bb {
			d := new(big.Int).Mul(x.c, y.c)
			if d.Sign() == 0 {
				continue
			}
			as := append(append([]*Atom{}, x.as...), y.as...)
			if len(as) == 0 {
				c = d
				continue
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			add(as, d)
		}
	}
	return mkPoly(c, m)
}

func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, m, r) // Euclidean; m > 0 => floor
	return q
}
func ceilDiv(a, m *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), m))
}

// pFdiv is floor(p/m) for a constant m > 0, in canonical form.
func pFdiv(p *Poly, m *big.Int) *Poly {
	if m.Sign() <= 0 {
		panic("pFdiv")
	}
	if m.Cmp(big1) == 0 {
		return p
	}
	// p = m*q + r with coefficients of r in [0, m)
	q := map[string]*Mono{}
	r := map[string]*Mono{}
	for _, t := range p.ms {
		f := floorDiv(t.c, m)
		q[t.key] = &Mono{t.as, f, t.key}
		r[t.key] = &Mono{t.as, new(big.Int).Sub(t.c, new(big.Int).Mul(f, m)), t.key}
	}
	fc := floorDiv(p.c, m)
	qp := mkPoly(fc, q)
	rp := mkPoly(new(big.Int).Sub(p.c, new(big.Int).Mul(fc, m)), r)
	if rp.isConst() {
		return qp
	}
	// common factor of coefficients and m
	g := new(big.Int).Set(m)
	for _, t := range rp.ms {
		g.GCD(nil, nil, g, t.c)
	}
	mm := m
	if g.Cmp(big1) > 0 {
		mm = new(big.Int).Div(m, g)
		d := map[string]*Mono{}
		for _, t := range rp.ms {
			d[t.key] = &Mono{t.as, new(big.Int).Div(t.c, g), t.key}
		}
		rp = mkPoly(floorDiv(rp.c, g), d)
		return pAdd(qp, pFdiv(rp, mm))
	}
	// of r and m-r the one with the smaller leading coefficient
	if l := rp.ms[0].c; new(big.Int).Lsh(l, 1).Cmp(mm) > 0 {
		// floor(r/m) = -floor((-r+m-1)/m)
		n := pAdd(pScale(rp, bi(-1)), pConst(new(big.Int).Sub(mm, big1)))
		return pSub(qp, pFdiv(n, mm))
	}
	// nested division: floor((floor(x/k)+c)/m) = floor((x+c*k)/(k*m))
	if len(rp.ms) == 1 && len(rp.ms[0].as) == 1 && rp.ms[0].c.Cmp(big1) == 0 && rp.ms[0].as[0].fp != nil {
		a := rp.ms[0].as[0]
		return pAdd(qp, pFdiv(pAdd(a.fp, pConst(new(big.Int).Mul(rp.c, a.fm))), new(big.Int).Mul(a.fm, m)))
	}
	// floor((floor(x)+c)/m) = floor((x+c)/m) for a real x with a common factor
	if len(rp.ms) == 1 && len(rp.ms[0].as) == 1 && rp.ms[0].c.Cmp(big1) == 0 {
		if fa := floorArg(rp.ms[0].as[0]); fa != nil {
			g := new(big.Int).Set(m)
			g.GCD(nil, nil, g, new(big.Int).Abs(rp.c))
			for _, t := range fa.ms {
				g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
			}
			if g.Cmp(big1) > 0 {
				n := pAdd(floorOf(pQuo(fa, g)), pConst(new(big.Int).Quo(rp.c, g)))
				return pAdd(qp, pFdiv(n, new(big.Int).Quo(m, g)))
			}
		}
	}
	lo, hi := rp.bounds()
	if lo != nil && hi != nil {
		fl, fh := floorDiv(lo, m), floorDiv(hi, m)
		if fl.Cmp(fh) == 0 {
			return pAdd(qp, pConst(fl))
		}
	}
	key := fmt.Sprintf("d:%d/%s", rp.id, m)
	a, ok := atomTab[key]
	if !ok {
		a = &Atom{id: len(atomTab) + 1, fp: rp, fm: m}
		if lo != nil {
			a.lo = floorDiv(lo, m)
		}
		if hi != nil {
			a.hi = floorDiv(hi, m)
		}
		atomTab[key] = a
	}
	return pAdd(qp, pAtom(a))
}

// vAtom wraps an integer valued term.
func vAtom(v *V, lo, hi *big.Int) *Poly {
	key := fmt.Sprintf("v:%d", v.id)
	a, ok := atomTab[key]
	if !ok {
		a = &Atom{id: len(atomTab) + 1, v: v, lo: lo, hi: hi}
		atomTab[key] = a
	}
	return pAtom(a)
}

func bmax(a, b *big.Int) *big.Int { // for lower bounds; nil = -inf
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func bmin(a, b *big.Int) *big.Int { // for upper bounds; nil = +inf
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

type bnd struct{ lo, hi *big.Int }

var polyBounds = map[int]bnd{}

func (p *Poly) bounds() (*big.Int, *big.Int) {
	if b, ok := polyBounds[p.id]; ok {
		return b.lo, b.hi
	}
	lo, hi := p.boundsWith(func(a *Atom) (*big.Int, *big.Int) { return a.lo, a.hi }, 6, nil)
	polyBounds[p.id] = bnd{lo, hi}
	return lo, hi
}

func mulBnd(alo, ahi, blo, bhi *big.Int) (*big.Int, *big.Int) {
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		// handle constant sign cases only
		if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
			return new(big.Int).Mul(alo, blo), nil
		}
		return nil, nil
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{alo, ahi} {
		for _, y := range []*big.Int{blo, bhi} {
			z := new(big.Int).Mul(x, y)
			if lo == nil || z.Cmp(lo) < 0 {
				lo = z
			}
			if hi == nil || z.Cmp(hi) > 0 {
				hi = z
			}
		}
	}
	return lo, hi
}

func scaleBnd(lo, hi, c *big.Int) (*big.Int, *big.Int) {
	if c.Sign() < 0 {
		lo, hi = hi, lo
	}
	var l, h *big.Int
	if lo != nil {
		l = new(big.Int).Mul(lo, c)
	}
	if hi != nil {
		h = new(big.Int).Mul(hi, c)
	}
	return l, h
}
func addBnd(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (p *Poly) boundsWith(ab func(*Atom) (*big.Int, *big.Int), depth int, env *Env) (*big.Int, *big.Int) {
	lo, hi := p.c, p.c
	for _, t := range p.ms {
		l, h := ab(t.as[0])
		for _, a := range t.as[1:] {
			l2, h2 := ab(a)
			l, h = mulBnd(l, h, l2, h2)
		}
		l, h = scaleBnd(l, h, t.c)
		lo, hi = addBnd(lo, l), addBnd(hi, h)
	}
	if depth <= 0 {
		return lo, hi
	}
	// floors replaced by their linear bounds
	if rb := relaxBounds(p, env); rb.lo != nil || rb.hi != nil {
		if rb.lo != nil {
			l := ceilDiv(rb.lo.Num(), rb.lo.Denom())
			if rb.lo.IsInt() && rb.loOpen {
				l = new(big.Int).Add(l, big1)
			}
			lo = bmax(lo, l)
		}
		if rb.hi != nil {
			h := floorDiv(rb.hi.Num(), rb.hi.Denom())
			if rb.hi.IsInt() && rb.hiOpen {
				h = new(big.Int).Sub(h, big1)
			}
			hi = bmin(hi, h)
		}
	}
	// k*(r mod m) patterns: r - m*floor(r/m) in [0, m-1]
	for _, t := range p.ms {
		if len(t.as) != 1 || t.as[0].fp == nil {
			continue
		}
		a := t.as[0]
		q, r := new(big.Int).QuoRem(t.c, a.fm, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		k := new(big.Int).Neg(q)
		mod := pSub(a.fp, pScale(pAtom(a), a.fm))
		rest := pSub(p, pScale(mod, k))
		if len(rest.ms) >= len(p.ms) {
			continue
		}
		l, h := rest.boundsWith(ab, depth-1, env)
		ml, mh := scaleBnd(big0, new(big.Int).Sub(a.fm, big1), k)
		lo, hi = bmax(lo, addBnd(l, ml)), bmin(hi, addBnd(h, mh))
	}
	// c*(floor(r1/m) - floor(r2/m)) with r1-r2 constant
	for i, t := range p.ms {
		if len(t.as) != 1 || t.as[0].fp == nil {
			continue
		}
		for _, u := range p.ms[i+1:] {
			if len(u.as) != 1 || u.as[0].fp == nil || u.as[0].fm.Cmp(t.as[0].fm) != 0 {
				continue
			}
			if new(big.Int).Add(t.c, u.c).Sign() != 0 {
				continue
			}
			d := pSub(t.as[0].fp, u.as[0].fp)
			dl, dh := d.bounds()
			if dl == nil || dh == nil {
				continue
			}
			rest := pSub(p, pSub(pScale(pAtom(t.as[0]), t.c), pScale(pAtom(u.as[0]), t.c)))
			l, h := rest.boundsWith(ab, depth-1, env)
			fl, fh := floorDiv(dl, t.as[0].fm), ceilDiv(dh, t.as[0].fm)
			dl, dh = scaleBnd(fl, fh, t.c)
			lo, hi = bmax(lo, addBnd(l, dl)), bmin(hi, addBnd(h, dh))
		}
	}
	return lo, hi
}

// ---------------------------------------------------------------- constructors

func mkInt(p *Poly) *V       { return intern(fmt.Sprintf("i:%d", p.id), &V{k: KInt, poly: p}) }
func Int(n int64) *V         { return mkInt(pInt(n)) }
func mkBigInt(n *big.Int) *V { return mkInt(pConst(n)) }
func Str(s string) *V        { return intern("s:"+s, &V{k: KStr, op: "const", s: s}) }
func Bool(b bool) *V {
	if b {
		return True
	}
	return False
}
func (v *V) isIntConst() bool { return v.k == KInt && v.poly.isConst() }
func (v *V) intVal() int64    { return v.poly.c.Int64() }
func (v *V) isStrConst() bool { return v.k == KStr && v.op == "const" }

func ids(vs []*V) string {
	var sb strings.Builder
	for _, a := range vs {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func mkOpaque(op string, typ types.Type, args ...*V) *V {
	return intern(fmt.Sprintf("o:%s:%d:%s", op, typeID(typ), ids(args)), &V{k: KOpaque, op: op, typ: typ, args: args})
}
func mkStrTerm(op string, args ...*V) *V {
	return intern(fmt.Sprintf("st:%s:%s", op, ids(args)), &V{k: KStr, op: op, args: args})
}
func mkTime(nanos *Poly, loc *V) *V {
	return intern(fmt.Sprintf("t:%d:%d", nanos.id, loc.id), &V{k: KTime, poly: nanos, loc: loc})
}
func mkStruct(typ types.Type, fields []*V) *V {
	return intern(fmt.Sprintf("S:%d:%s", typeID(typ), ids(fields)), &V{k: KStruct, typ: typ, args: fields})
}
func mkTuple(vs ...*V) *V {
	return intern("T:"+ids(vs), &V{k: KTuple, args: vs})
}
func mkNil(t types.Type) *V { return intern("nil", &V{k: KNil}) }
func mkIface(dyn types.Type, v *V) *V {
	return intern(fmt.Sprintf("I:%d:%d", typeID(dyn), v.id), &V{k: KIface, typ: dyn, args: []*V{v}})
}
func mkFunc(fn *ssa.Function, bind []*V) *V {
	return intern(fmt.Sprintf("F:%p:%s", fn, ids(bind)), &V{k: KFunc, fn: fn, args: bind})
}
func mkMapRef(obj int) *V { return intern(fmt.Sprintf("MR:%d", obj), &V{k: KMapRef, obj: obj}) }
func mkMap(op string, args ...*V) *V {
	return intern("M:"+op+":"+ids(args), &V{k: KMap, op: op, args: args})
}
func mkPtr(obj int, path []PathEl) *V {
	var sb strings.Builder
	for _, e := range path {
		if e.seq != nil {
			fmt.Fprintf(&sb, "[%d@%d]", e.seq.id, e.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", e.field)
		}
	}
	return intern(fmt.Sprintf("P:%d%s", obj, sb.String()), &V{k: KPtr, obj: obj, path: path})
}
func mkSeq(segs []Seg) *V {
	var out []Seg
	for _, s := range segs {
		if s.g == False {
			continue
		}
		if s.base != nil && s.g.k == KNode {
			s.g = unlessEmpty(s.base, s.g)
		}
		out = append(out, s)
	}
	var sb strings.Builder
	for _, s := range out {
		if s.el != nil {
			fmt.Fprintf(&sb, "%d?e%d;", s.g.id, s.el.id)
		} else {
			fmt.Fprintf(&sb, "%d?b%d;", s.g.id, s.base.id)
		}
	}
	return intern("Q:"+sb.String(), &V{k: KSeq, segs: out})
}

// unlessEmpty drops from the condition under which a list is part of another
// that it has elements: without any it makes no difference.
func unlessEmpty(base, g *V) *V {
	n := baseLen(base)
	if n.k != KInt || len(n.poly.ms) != 1 || n.poly.c.Sign() != 0 {
		return g
	}
	tests := func(g *V) int {
		c := 0
		for _, d := range discsOf(g) {
			if d.poly == n.poly {
				c++
			}
		}
		return c
	}
	if tests(g) == 0 {
		return g
	}
	if h := Or(g, leZero(n.poly)); tests(h) == 0 {
		return h
	}
	return g
}

// ---------------------------------------------------------------- decision nodes

func getDisc(kind byte, p *Poly, v *V) *Disc {
	var key string
	if kind == 'i' || kind == 'f' {
		key = fmt.Sprintf("%c%d", kind, p.id)
	} else {
		key = fmt.Sprintf("%c%d", kind, v.id)
	}
	if d, ok := discTab[key]; ok {
		return d
	}
	d := &Disc{id: len(discTab) + 1, kind: kind, poly: p, v: v}
	if kind == 'i' {
		d.lo, d.hi = p.bounds()
	}
	discTab[key] = d
	return d
}

func ratOf(n *big.Int) *big.Rat { return new(big.Rat).SetInt(n) }

// rawNode builds a node whose kids only use later discs.
func rawNode(d *Disc, cuts []Cut, keys []string, kids []*V) *V {
	if d.kind == 'i' || d.kind == 'f' {
		// drop regions outside the range of the discriminant (integers)
		if d.kind == 'i' {
			for len(cuts) > 0 && d.lo != nil && cuts[0].v.Cmp(ratOf(d.lo)) < 0 {
				cuts, kids = cuts[1:], kids[1:]
			}
			for len(cuts) > 0 && d.hi != nil && cuts[len(cuts)-1].v.Cmp(ratOf(d.hi)) >= 0 {
				cuts, kids = cuts[:len(cuts)-1], kids[:len(kids)-1]
			}
		}
		var nc []Cut
		nk := []*V{kids[0]}
		for i, c := range cuts {
			if kids[i+1] == nk[len(nk)-1] {
				continue
			}
			nc = append(nc, c)
			nk = append(nk, kids[i+1])
		}
		if len(nk) == 1 {
			return nk[0]
		}
		if v := pushInto(d, nc, nil, nk); v != nil {
			return v
		}
		var sb strings.Builder
		for _, c := range nc {
			fmt.Fprintf(&sb, "%s%v,", c.v.RatString(), c.after)
		}
		return intern(fmt.Sprintf("N:%d:%s:%s", d.id, sb.String(), ids(nk)), &V{k: KNode, disc: d, cuts: nc, kids: nk})
	}
	// enum: keys sorted, last kid is the default
	if names := oneOf(d); names != nil {
		ks := make([]*V, len(names))
		for i, n := range names {
			ks[i] = kids[len(kids)-1]
			for j, k := range keys {
				if k == n {
					ks[i] = kids[j]
				}
			}
		}
		keys, kids = names[1:], append(ks[1:], ks[0])
	}
	def := kids[len(kids)-1]
	var nkeys []string
	var nk []*V
	for i, k := range keys {
		if kids[i] != def {
			nkeys = append(nkeys, k)
			nk = append(nk, kids[i])
		}
	}
	if len(nk) == 0 {
		return def
	}
	nk = append(nk, def)
	if v := pushInto(d, nil, nkeys, nk); v != nil {
		return v
	}
	return intern(fmt.Sprintf("N:%d:%q:%s", d.id, nkeys, ids(nk)), &V{k: KNode, disc: d, keys: nkeys, kids: nk})
}

// oneOf lists the values a text can have: the property of an uposatha's phase
// holds wherever the result of NextUposatha is used.
func oneOf(d *Disc) []string {
	v := d.v
	if v == nil || v.op != "sval" || len(v.args) != 1 || v.args[0].op != ".Phase" {
		return nil
	}
	if x := v.args[0].args[0]; x.op == "fn:UposathaMoon.NextUposatha" {
		return []string{"full", "new"}
	}
	return nil
}

// pushInto keeps aggregates above decisions.
func pushInto(d *Disc, cuts []Cut, keys []string, kids []*V) *V {
	var first *V
	for _, k := range kids {
		if k.k == KUndef {
			continue
		}
		if first == nil {
			first = k
			continue
		}
		if k.k != first.k {
			return nil
		}
	}
	if first == nil {
		return nil
	}
	switch first.k {
	case KStruct, KTuple:
		for _, k := range kids {
			if k.k != KUndef && (len(k.args) != len(first.args) || (first.k == KStruct && typeID(k.typ) != typeID(first.typ))) {
				return nil
			}
		}
		fs := make([]*V, len(first.args))
		for i := range fs {
			ks := make([]*V, len(kids))
			for j, k := range kids {
				if k.k == KUndef {
					ks[j] = Undef
				} else {
					ks[j] = k.args[i]
				}
			}
			fs[i] = mkNode(d, cuts, keys, ks)
		}
		if first.k == KTuple {
			return mkTuple(fs...)
		}
		return mkStruct(first.typ, fs)
	case KSeq:
		for _, k := range kids {
			if k.k == KUndef {
				return nil
			}
		}
		res := kids[len(kids)-1]
		for i := len(kids) - 2; i >= 0; i-- {
			bk := make([]*V, len(kids))
			for j := range bk {
				bk[j] = Bool(j == i)
			}
			res = iteSeq(rawNode(d, cuts, keys, bk), kids[i], res)
		}
		return res
	}
	return nil
}

// region selects kid of v (a node on d) for region j of the partition.
func pick(v *V, d *Disc, cuts []Cut, keys []string, j int) *V {
	if v.k != KNode || v.disc != d {
		return v
	}
	if d.kind == 'i' || d.kind == 'f' {
		if j == 0 {
			return v.kids[0]
		}
		lim := cuts[j-1]
		n := sort.Search(len(v.cuts), func(i int) bool { return cutCmp(v.cuts[i], lim) > 0 })
		return v.kids[n]
	}
	if j < len(keys) {
		for i, k := range v.keys {
			if k == keys[j] {
				return v.kids[i]
			}
		}
	}
	return v.kids[len(v.kids)-1]
}

func mergeParts(d *Disc, vs []*V) ([]Cut, []string, int) {
	if d.kind == 'i' || d.kind == 'f' {
		var cuts []Cut
		for _, v := range vs {
			if v.k == KNode && v.disc == d {
				cuts = append(cuts, v.cuts...)
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cutCmp(cuts[i], cuts[j]) < 0 })
		var out []Cut
		for _, c := range cuts {
			if len(out) == 0 || cutCmp(out[len(out)-1], c) != 0 {
				out = append(out, c)
			}
		}
		return out, nil, len(out) + 1
	}
	set := map[string]bool{}
	for _, v := range vs {
		if v.k == KNode && v.disc == d {
			for _, k := range v.keys {
				set[k] = true
			}
		}
	}
	var keys []string
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return nil, keys, len(keys) + 1
}

func minDisc(vs []*V) *Disc {
	var d *Disc
	for _, v := range vs {
		if v.k == KNode && (d == nil || v.disc.id < d.id) {
			d = v.disc
		}
	}
	return d
}

var nodeMemo = map[string]*V{}

// mkNode builds a node, restoring the variable order where kids use earlier discs.
func mkNode(d *Disc, cuts []Cut, keys []string, kids []*V) *V {
	// strip nested decisions on d itself: the partition must refine those of
	// all the kids
	vs := append(append([]*V{}, kids...), &V{k: KNode, disc: d, cuts: cuts, keys: keys})
	if c2, k2, n := mergeParts(d, vs); len(c2) != len(cuts) || len(k2) != len(keys) {
		all := make([]*V, n)
		for j := 0; j < n; j++ {
			// the part that contains part j
			oi := 0
			if d.kind == 'i' || d.kind == 'f' {
				if j > 0 {
					lim := c2[j-1]
					oi = sort.Search(len(cuts), func(x int) bool { return cutCmp(cuts[x], lim) > 0 })
				}
			} else {
				oi = len(keys)
				if j < len(k2) {
					for x, kk := range keys {
						if kk == k2[j] {
							oi = x
						}
					}
				}
			}
			all[j] = pick(kids[oi], d, c2, k2, j)
		}
		return mkNode(d, c2, k2, all)
	}
	nk := make([]*V, len(kids))
	for i, k := range kids {
		nk[i] = pick(k, d, cuts, keys, i)
	}
	kids = nk
	e := minDisc(kids)
	if e == nil || e.id > d.id {
		return rawNode(d, cuts, keys, kids)
	}
	var mk strings.Builder
	fmt.Fprintf(&mk, "%d|", d.id)
	for _, c := range cuts {
		fmt.Fprintf(&mk, "%s%v,", c.v.RatString(), c.after)
	}
	fmt.Fprintf(&mk, "%q|%s", keys, ids(kids))
	if r, ok := nodeMemo[mk.String()]; ok {
		return r
	}
	ec, ek, n := mergeParts(e, kids)
	out := make([]*V, n)
	for j := 0; j < n; j++ {
		ks := make([]*V, len(kids))
		for i, k := range kids {
			ks[i] = pick(k, e, ec, ek, j)
		}
		out[j] = mkNode(d, cuts, keys, ks)
	}
	r := mkNode(e, ec, ek, out)
	nodeMemo[mk.String()] = r
	return r
}

var liftMemo = map[string]*V{}
var liftCount int
var deadline time.Time
var walkCount int

// lift applies a leaf operation under the decisions of its arguments.
func lift(name string, f func([]*V) *V, args ...*V) *V {
	return liftG(name, f, args)
}
func liftG(name string, f func([]*V) *V, args []*V) *V {
	key := name + ":" + ids(args)
	if v, ok := liftMemo[key]; ok {
		return v
	}
	liftCount++
	if liftCount > 6000000 {
		panic(undecided{"value graph too large"})
	}
	if liftCount&1023 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecided{"time limit"})
	}
	d := minDisc(args)
	var r *V
	if d == nil {
		r = nil
		for _, a := range args {
			if a.k == KUndef {
				r = Undef
			}
		}
		if r == nil {
			r = f(args)
		}
	} else {
		cuts, keys, n := mergeParts(d, args)
		kids := make([]*V, n)
		for j := 0; j < n; j++ {
			as := make([]*V, len(args))
			for i, a := range args {
				as[i] = pick(a, d, cuts, keys, j)
			}
			kids[j] = liftG(name, f, as)
		}
		r = mkNode(d, cuts, keys, kids)
	}
	liftMemo[key] = r
	return r
}

type undecided struct{ msg string }

// ite is the conditional on a boolean value.
func ite(c, a, b *V) *V {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if c.k == KUndef {
		return Undef
	}
	if a.k == KUndef {
		return b
	}
	if b.k == KUndef {
		return a
	}
	if (a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) && typeID(a.typ) == typeID(b.typ)) || (a.k == KTuple && b.k == KTuple && len(a.args) == len(b.args)) {
		fs := make([]*V, len(a.args))
		for i := range fs {
			fs[i] = ite(c, a.args[i], b.args[i])
		}
		if a.k == KTuple {
			return mkTuple(fs...)
		}
		return mkStruct(a.typ, fs)
	}
	if a.k == KSeq && b.k == KSeq {
		return iteSeq(c, a, b)
	}
	return iteRaw(c, a, b)
}

// iteU is ite that keeps Undef leaves (used for guards of values).
func iteU(c, a, b *V) *V { return iteRaw(c, a, b) }

func iteRaw(c, a, b *V) *V {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	key := fmt.Sprintf("ite:%d,%d,%d", c.id, a.id, b.id)
	if v, ok := liftMemo[key]; ok {
		return v
	}
	args := []*V{c, a, b}
	d := minDisc(args)
	cuts, keys, n := mergeParts(d, args)
	kids := make([]*V, n)
	for j := 0; j < n; j++ {
		kids[j] = iteRaw(pick(c, d, cuts, keys, j), pick(a, d, cuts, keys, j), pick(b, d, cuts, keys, j))
	}
	r := mkNode(d, cuts, keys, kids)
	liftMemo[key] = r
	return r
}

func iteSeq(c, a, b *V) *V {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	n := 0
	for n < len(a.segs) && n < len(b.segs) && a.segs[n] == b.segs[n] {
		n++
	}
	segs := append([]Seg{}, a.segs[:n]...)
	// same element under different guards at the same position
	ra, rb := a.segs[n:], b.segs[n:]
	for len(ra) > 0 && len(rb) > 0 && ra[0].el == rb[0].el && ra[0].base == rb[0].base {
		segs = append(segs, Seg{g: ite(c, ra[0].g, rb[0].g), el: ra[0].el, base: ra[0].base})
		ra, rb = ra[1:], rb[1:]
	}
	for _, s := range ra {
		segs = append(segs, Seg{g: And(c, s.g), el: s.el, base: s.base})
	}
	nc := Not(c)
	for _, s := range rb {
		segs = append(segs, Seg{g: And(nc, s.g), el: s.el, base: s.base})
	}
	return mkSeq(segs)
}

func Not(a *V) *V {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	return lift("not", func(x []*V) *V { return Bool(!x[0].b) }, a)
}
func And(a, b *V) *V {
	if a == False || b == False {
		return False
	}
	if a == True {
		return b
	}
	if b == True || a == b {
		return a
	}
	return iteRaw(a, b, False)
}
func Or(a, b *V) *V {
	if a == True || b == True {
		return True
	}
	if a == False {
		return b
	}
	if b == False || a == b {
		return a
	}
	return iteRaw(a, True, b)
}
func Implies(a, b *V) bool { return And(a, Not(b)) == False }

// boolTerm is an uninterpreted truth value.
func boolTerm(op string, args ...*V) *V {
	t := mkOpaque(op, types.Typ[types.Bool], args...)
	return boolOf(t)
}
func boolOf(t *V) *V {
	d := getDisc('b', nil, t)
	return mkNode(d, nil, []string{"true"}, []*V{True, False})
}

// ---------------------------------------------------------------- integers

// leZero is the truth value of p <= 0.
func leZero(p *Poly) *V {
	lo, hi := p.bounds()
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	if r := relFloors(p); r != nil {
		return r
	}
	g := big0
	for _, t := range p.ms {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	neg := p.ms[0].c.Sign() < 0
	q := map[string]*Mono{}
	for _, t := range p.ms {
		c := new(big.Int).Div(new(big.Int).Abs(t.c), g)
		if (t.c.Sign() < 0) != neg {
			c.Neg(c)
		}
		q[t.key] = &Mono{t.as, c, t.key}
	}
	qp := mkPoly(big0, q)
	d := getDisc('i', qp, nil)
	if !neg {
		// g*q + c <= 0  <=>  q <= floor(-c/g)
		cut := floorDiv(new(big.Int).Neg(p.c), g)
		return mkNode(d, []Cut{{ratOf(cut), true}}, nil, []*V{True, False})
	}
	// -g*q + c <= 0  <=>  q >= ceil(c/g)
	cut := new(big.Int).Sub(ceilDiv(p.c, g), big1)
	return mkNode(d, []Cut{{ratOf(cut), true}}, nil, []*V{False, True})
}

// relFloors decides p <= 0 for a p with two floors of the same quotient up to
// a constant: the second is the first plus 0 or 1 depending on the remainder.
func relFloors(p *Poly) *V {
	for i, t := range p.ms {
		if len(t.as) != 1 || t.as[0].fp == nil {
			continue
		}
		a := t.as[0]
		for _, u := range p.ms[i+1:] {
			if len(u.as) != 1 || u.as[0].fp == nil || u.as[0].fm.Cmp(a.fm) != 0 {
				continue
			}
			b := u.as[0]
			df := pSub(b.fp, a.fp)
			if !df.isConst() {
				continue
			}
			x, y, d := a, b, df.c
			if d.Sign() < 0 {
				x, y, d = b, a, new(big.Int).Neg(d)
			}
			// floor(y) = floor(x) + k + (rem(x) + d >= (k+1)*m)
			m := x.fm
			k := floorDiv(d, m)
			rest := pSub(p, pScale(pAtom(y), coefOf(p, y)))
			lowV := pAdd(rest, pScale(pAdd(pAtom(x), pConst(k)), coefOf(p, y)))
			highV := pAdd(lowV, pConst(coefOf(p, y)))
			rem := pSub(x.fp, pScale(pAtom(x), m))
			lim := new(big.Int).Sub(new(big.Int).Mul(new(big.Int).Add(k, big1), m), d)
			return ite(leZero(pSub(pConst(lim), rem)), leZero(highV), leZero(lowV))
		}
	}
	return nil
}
func coefOf(p *Poly, a *Atom) *big.Int {
	for _, t := range p.ms {
		if len(t.as) == 1 && t.as[0] == a {
			return t.c
		}
	}
	return big0
}

func eqZero(p *Poly) *V {
	if p.isConst() {
		return Bool(p.c.Sign() == 0)
	}
	g := big0
	for _, t := range p.ms {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if new(big.Int).Mod(new(big.Int).Abs(p.c), g).Sign() != 0 {
		return False
	}
	return And(leZero(p), leZero(pScale(p, bi(-1))))
}

func lint(name string, f func(a, b *Poly) *V, a, b *V) *V {
	return lift(name, func(x []*V) *V {
		if x[0].k != KInt || x[1].k != KInt {
			return mkOpaque(name, types.Typ[types.Int], x...)
		}
		return f(x[0].poly, x[1].poly)
	}, a, b)
}
func IAdd(a, b *V) *V {
	return lint("iadd", func(p, q *Poly) *V { return mkInt(pAdd(p, q)) }, a, b)
}
func ISub(a, b *V) *V {
	return lint("isub", func(p, q *Poly) *V { return mkInt(pSub(p, q)) }, a, b)
}
func IMul(a, b *V) *V {
	return lint("imul", func(p, q *Poly) *V { return mkInt(pMul(p, q)) }, a, b)
}
func IFdiv(a *V, m int64) *V {
	return lift(fmt.Sprintf("ifdiv%d", m), func(x []*V) *V { return mkInt(pFdiv(x[0].poly, bi(m))) }, a)
}
func IMod(a *V, m int64) *V { return ISub(a, IMul(Int(m), IFdiv(a, m))) }

// quo is Go's truncated division.
func IQuo(a, b *V) *V {
	return lint("iquo", func(p, q *Poly) *V {
		if !q.isConst() || q.c.Sign() == 0 {
			return mkInt(vAtom(mkOpaque("quo", types.Typ[types.Int], mkInt(p), mkInt(q)), nil, nil))
		}
		m := new(big.Int).Abs(q.c)
		s := bi(int64(q.c.Sign()))
		if p.isConst() {
			return mkInt(pConst(new(big.Int).Quo(p.c, q.c)))
		}
		lo, hi := p.bounds()
		pos := func() *V { return mkInt(pScale(pFdiv(p, m), s)) }
		neg := func() *V {
			return mkInt(pScale(pFdiv(pScale(p, bi(-1)), m), new(big.Int).Neg(s)))
		}
		if lo != nil && lo.Sign() >= 0 {
			return pos()
		}
		if hi != nil && hi.Sign() <= 0 {
			return neg()
		}
		return ite(leZero(pScale(p, bi(-1))), pos(), neg())
	}, a, b)
}
func IRem(a, b *V) *V {
	return lift("irem", func(x []*V) *V {
		return ISub(x[0], IMul(x[1], IQuo(x[0], x[1])))
	}, a, b)
}

// ICmp compares integers.
func ICmp(op string, a, b *V) *V {
	return lift("icmp"+op, func(x []*V) *V {
		if x[0].k != KInt || x[1].k != KInt {
			return boolTerm("cmp"+op, x...)
		}
		p := pSub(x[0].poly, x[1].poly)
		switch op {
		case "==":
			return eqZero(p)
		case "!=":
			return Not(eqZero(p))
		case "<=":
			return leZero(p)
		case ">":
			return Not(leZero(p))
		case "<":
			return leZero(pAdd(p, pInt(1)))
		case ">=":
			return Not(leZero(pAdd(p, pInt(1))))
		}
		panic("icmp " + op)
	}, a, b)
}

// ---------------------------------------------------------------- environments of a diagram path

type irange struct{ lo, hi *big.Int }

// Env is what a path through a diagram says about its discriminants.
type Env struct {
	in  map[int]irange // disc poly id -> range
	fl  map[int]rbnd   // disc poly id -> range
	en  map[*Disc]string
	not map[*Disc]map[string]bool
}

func newEnv() *Env {
	return &Env{in: map[int]irange{}, fl: map[int]rbnd{}, en: map[*Disc]string{}, not: map[*Disc]map[string]bool{}}
}
func (e *Env) clone() *Env {
	n := newEnv()
	for k, v := range e.in {
		n.in[k] = v
	}
	for k, v := range e.fl {
		n.fl[k] = v
	}
	for k, v := range e.en {
		n.en[k] = v
	}
	for k, v := range e.not {
		m := map[string]bool{}
		for a := range v {
			m[a] = true
		}
		n.not[k] = m
	}
	return n
}

func (e *Env) polyBounds(p *Poly) (*big.Int, *big.Int) {
	lo, hi := p.bounds()
	if e == nil || len(e.in) == 0 || p.isConst() {
		return lo, hi
	}
	// direct discriminant
	g := big0
	for _, t := range p.ms {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	s := g
	if p.ms[0].c.Sign() < 0 {
		s = new(big.Int).Neg(g)
	}
	q := map[string]*Mono{}
	for _, t := range p.ms {
		q[t.key] = &Mono{t.as, new(big.Int).Quo(t.c, s), t.key}
	}
	qp := mkPoly(big0, q)
	if r, ok := e.in[qp.id]; ok {
		l, h := scaleBnd(r.lo, r.hi, s)
		lo = bmax(lo, addBnd(l, p.c))
		hi = bmin(hi, addBnd(h, p.c))
	}
	l, h := p.boundsWith(func(a *Atom) (*big.Int, *big.Int) {
		al, ah := a.lo, a.hi
		if r, ok := e.in[pAtom(a).id]; ok {
			al, ah = bmax(al, r.lo), bmin(ah, r.hi)
		}
		if a.fp != nil {
			fl, fh := e.polyBounds(a.fp)
			if fl != nil {
				al = bmax(al, floorDiv(fl, a.fm))
			}
			if fh != nil {
				ah = bmin(ah, floorDiv(fh, a.fm))
			}
		}
		if n := rounds(a); n != nil {
			if _, h := e.polyBounds(n.poly); h != nil && h.Sign() <= 0 {
				return big0, big0
			}
		}
		return al, ah
	}, 3, e)
	return bmax(lo, l), bmin(hi, h)
}

// rounds is the number of rounds of a loop that adds up a number or makes a
// list of which a is the length.
func rounds(a *Atom) *V {
	v := a.v
	if v == nil || v.op == "len" && len(v.args) == 1 && len(v.args[0].args) == 0 && v.args[0].k == KOpaque {
		return nil
	}
	if v.op == "len" && len(v.args) == 1 {
		v = v.args[0]
	}
	var n *V
	switch {
	case v.op == "sumn" && len(v.args) == 2:
		n = v.args[0]
	case (v.op == "sum" || v.op == "collect") && len(v.args) > 2 && v.args[0].k == KStr && v.args[0].s == "count":
		n = v.args[2]
	}
	if n == nil || n.k != KInt {
		return nil
	}
	return n
}

// spread carries a range known of floor(p/m) over to p itself.
func (e *Env) spread(p *Poly, lo, hi *big.Int, depth int) {
	if len(p.ms) != 1 || len(p.ms[0].as) != 1 || p.ms[0].as[0].fp == nil || p.c.Sign() != 0 || p.ms[0].c.Cmp(big1) != 0 || depth > 4 {
		return
	}
	a := p.ms[0].as[0]
	if len(a.fp.ms) == 0 {
		return
	}
	if lo != nil {
		lo = new(big.Int).Mul(lo, a.fm)
	}
	if hi != nil {
		hi = new(big.Int).Add(new(big.Int).Mul(hi, a.fm), new(big.Int).Sub(a.fm, big1))
	}
	// fp = s*q + c
	g := big0
	for _, t := range a.fp.ms {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if a.fp.ms[0].c.Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	ms := map[string]*Mono{}
	for _, t := range a.fp.ms {
		ms[t.key] = &Mono{t.as, new(big.Int).Quo(t.c, g), t.key}
	}
	q := mkPoly(big0, ms)
	if lo != nil {
		lo = new(big.Int).Sub(lo, a.fp.c)
	}
	if hi != nil {
		hi = new(big.Int).Sub(hi, a.fp.c)
	}
	if g.Sign() < 0 {
		lo, hi = hi, lo
	}
	if lo != nil {
		lo = new(big.Int).Neg(floorDiv(new(big.Int).Neg(lo), new(big.Int).Abs(g)))
		if g.Sign() < 0 {
			lo = nil
		}
	}
	if hi != nil {
		if g.Sign() < 0 {
			hi = nil
		} else {
			hi = floorDiv(hi, g)
		}
	}
	if r, ok := e.in[q.id]; ok {
		lo, hi = bmax(lo, r.lo), bmin(hi, r.hi)
	}
	if lo == nil && hi == nil {
		return
	}
	e.in[q.id] = irange{lo, hi}
	e.spread(q, lo, hi, depth+1)
}

// enter is the environment of region j of a diagram, if it is consistent.
func (v *V) enter(j int, e *Env) (*Env, bool) {
	d := v.disc
	ne := e.clone()
	switch d.kind {
	case 'i':
		var lo, hi *big.Int
		if j > 0 {
			lo = new(big.Int).Add(new(big.Int).Set(v.cuts[j-1].v.Num()), big1)
		}
		if j < len(v.cuts) {
			hi = v.cuts[j].v.Num()
		}
		pl, ph := e.polyBounds(d.poly)
		lo, hi = bmax(lo, pl), bmin(hi, ph)
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			return nil, false
		}
		ne.in[d.poly.id] = irange{lo, hi}
		ne.spread(d.poly, lo, hi, 0)
	case 'f':
		var r rbnd
		if j > 0 {
			r.lo, r.loOpen = v.cuts[j-1].v, v.cuts[j-1].after
		}
		if j < len(v.cuts) {
			r.hi, r.hiOpen = v.cuts[j].v, !v.cuts[j].after
		}
		r = rMeet(r, d.poly.rbounds(e))
		if r.empty() {
			return nil, false
		}
		ne.fl[d.poly.id] = r
	default:
		if k, ok := e.en[d]; ok {
			at := len(v.keys)
			for i, x := range v.keys {
				if x == k {
					at = i
				}
			}
			if at != j {
				return nil, false
			}
		} else if j < len(v.keys) {
			if e.not[d][v.keys[j]] {
				return nil, false
			}
			ne.en[d] = v.keys[j]
		} else {
			m := ne.not[d]
			if m == nil {
				m = map[string]bool{}
			}
			for _, k := range v.keys {
				m[k] = true
			}
			ne.not[d] = m
		}
	}
	return ne, true
}

// walk visits the leaves of v with the environment of their path; it skips
// regions whose range is empty.
func walk(v *V, e *Env, visit func(leaf *V, e *Env)) {
	if walkCount++; walkCount&8191 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecided{"time limit"})
	}
	if v.k != KNode {
		visit(v, e)
		return
	}
	for j, k := range v.kids {
		if ne, ok := v.enter(j, e); ok {
			walk(k, ne, visit)
		}
	}
}

// intBounds is the range of an integer value under a guard.
func intBounds(v, guard *V) (lo, hi *big.Int, any bool) {
	x := iteU(guard, v, Undef)
	loInf, hiInf := false, false
	walk(x, newEnv(), func(leaf *V, e *Env) {
		if leaf.k == KUndef {
			return
		}
		var l, h *big.Int
		if leaf.k == KInt {
			l, h = e.polyBounds(leaf.poly)
		}
		any = true
		if l == nil {
			loInf = true
		} else if lo == nil || l.Cmp(lo) < 0 {
			lo = l
		}
		if h == nil {
			hiInf = true
		} else if hi == nil || h.Cmp(hi) > 0 {
			hi = h
		}
	})
	if loInf {
		lo = nil
	}
	if hiInf {
		hi = nil
	}
	return
}

// ---------------------------------------------------------------- strings

func SConcat(a, b *V) *V {
	return lift("concat", func(x []*V) *V {
		var parts []*V
		for _, v := range x {
			if v.k == KStr && v.op == "concat" {
				parts = append(parts, v.args...)
			} else {
				parts = append(parts, v)
			}
		}
		var out []*V
		for _, p := range parts {
			if p.isStrConst() {
				if p.s == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].isStrConst() {
					out[n-1] = Str(out[n-1].s + p.s)
					continue
				}
			}
			out = append(out, p)
		}
		if len(out) == 0 {
			return Str("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return mkStrTerm("concat", out...)
	}, a, b)
}

func SEq(a, b *V) *V {
	return lift("seq", func(x []*V) *V {
		l, r := x[0], x[1]
		if l == r {
			return True
		}
		if l.isStrConst() && r.isStrConst() {
			return Bool(l.s == r.s)
		}
		if l.isStrConst() {
			l, r = r, l
		}
		if r.isStrConst() {
			if strNonEmpty(l) && r.s == "" {
				return False
			}
			d := getDisc('s', nil, l)
			return mkNode(d, nil, []string{r.s}, []*V{True, False})
		}
		if l.id > r.id {
			l, r = r, l
		}
		return boolTerm("streq", l, r)
	}, a, b)
}

// strNonEmpty: a term that cannot be the empty string.
func strNonEmpty(v *V) bool {
	if v.isStrConst() {
		return v.s != ""
	}
	if v.op == "itoa" || v.op == "given" {
		return true
	}
	if v.op == "concat" {
		for _, a := range v.args {
			if strNonEmpty(a) {
				return true
			}
		}
	}
	return false
}

// Itoa is the decimal text of an integer.
func Itoa(a *V) *V {
	return lift("itoa", func(x []*V) *V {
		if x[0].isIntConst() {
			return Str(x[0].poly.c.String())
		}
		return mkStrTerm("itoa", x[0])
	}, a)
}

// StrLen is the length of a string.
func StrLen(a *V) *V {
	return lift("strlen", func(x []*V) *V {
		if x[0].isStrConst() {
			return Int(int64(len(x[0].s)))
		}
		lo := big0
		if strNonEmpty(x[0]) {
			lo = big1
		}
		p := vAtom(mkOpaque("strlen", types.Typ[types.Int], x[0]), lo, nil)
		// decide emptiness through the string itself so that len(s) > 0 and
		// s != "" are the same test
		e := SEq(x[0], Str(""))
		return ite(e, Int(0), mkInt(pAdd(pInt(0), posPart(p, x[0]))))
	}, a)
}

func posPart(p *Poly, s *V) *Poly {
	return vAtom(mkOpaque("strlen+", types.Typ[types.Int], s), big1, nil)
}

// ---------------------------------------------------------------- printing

var symNames = map[int]string{}

func (p *Poly) String() string {
	var sb strings.Builder
	for i, t := range p.ms {
		c := t.c
		if i > 0 {
			if c.Sign() < 0 {
				sb.WriteString(" - ")
				c = new(big.Int).Neg(c)
			} else {
				sb.WriteString(" + ")
			}
		} else if c.Cmp(bi(-1)) == 0 {
			sb.WriteString("-")
			c = big1
		}
		if c.Cmp(big1) != 0 {
			sb.WriteString(c.String() + "*")
		}
		for j, a := range t.as {
			if j > 0 {
				sb.WriteString("*")
			}
			if a.fp != nil {
				fmt.Fprintf(&sb, "floor((%s)/%s)", a.fp, a.fm)
			} else {
				sb.WriteString(a.v.String())
			}
		}
	}
	if p.c.Sign() != 0 || len(p.ms) == 0 {
		if len(p.ms) > 0 && p.c.Sign() > 0 {
			sb.WriteString(" + ")
		}
		sb.WriteString(p.c.String())
	}
	return sb.String()
}

func (d *Disc) String() string {
	if d.poly != nil {
		return d.poly.String()
	}
	return d.v.String()
}

// strLeft bounds the size of what is printed, shared by nested calls.
var strLeft, strDepth = 0, 0

func (v *V) String() string {
	if strDepth == 0 {
		strLeft = 600
	}
	strDepth++
	defer func() { strDepth-- }()
	return v.str(6)
}
func (v *V) str(depth int) string {
	if v == nil {
		return "<nil>"
	}
	strLeft--
	if depth < 0 || strLeft < 0 || strDepth > 7 {
		return "…"
	}
	list := func(vs []*V) string {
		var ss []string
		for _, a := range vs {
			ss = append(ss, a.str(depth-1))
		}
		return strings.Join(ss, ", ")
	}
	switch v.k {
	case KInt:
		return v.poly.String()
	case KBool:
		return fmt.Sprint(v.b)
	case KStr:
		if v.op == "const" {
			return strconv.Quote(v.s)
		}
		return v.op + "(" + list(v.args) + ")"
	case KFlt:
		if v.op == "rat" {
			if v.den.Cmp(big1) == 0 {
				return v.poly.String()
			}
			if v.poly.isConst() {
				f, _ := fConstVal(v)
				return fmt.Sprint(f)
			}
			return "(" + v.poly.String() + ")/" + v.den.String()
		}
		if v.op == "fval" {
			return v.args[0].str(depth - 1)
		}
		return v.op + "(" + list(v.args) + ")"
	case KTime:
		return "time(" + v.poly.String() + " ns, " + v.loc.str(depth-1) + ")"
	case KStruct:
		return typeShort(v.typ) + "{" + list(v.args) + "}"
	case KTuple:
		return "(" + list(v.args) + ")"
	case KNil:
		return "nil"
	case KUndef:
		return "undef"
	case KIface:
		return "iface " + v.args[0].str(depth-1)
	case KFunc:
		return "func " + v.fn.Name()
	case KPtr:
		return fmt.Sprintf("&obj%d%v", v.obj, len(v.path))
	case KMapRef:
		return fmt.Sprintf("map%d", v.obj)
	case KMap:
		return v.op + "(" + list(v.args) + ")"
	case KSeq:
		var ss []string
		for _, s := range v.segs {
			t := ""
			if s.g != True {
				t = "if " + s.g.str(depth-1) + ": "
			}
			if s.el != nil {
				t += s.el.str(depth - 1)
			} else {
				t += s.base.str(depth-1) + "..."
			}
			ss = append(ss, t)
		}
		return "[" + strings.Join(ss, "; ") + "]"
	case KOpaque:
		if v.op == "sym" || strings.HasPrefix(v.op, "sym:") {
			return strings.TrimPrefix(v.op, "sym:")
		}
		return v.op + "(" + list(v.args) + ")"
	case KNode:
		if len(v.kids) == 2 && v.kids[0].k == KBool && v.kids[1].k == KBool && v.disc.kind == 'b' {
			if v.kids[0] == True {
				return v.disc.v.str(depth - 1)
			}
			return "!" + v.disc.v.str(depth-1)
		}
		var ss []string
		for j, k := range v.kids {
			ss = append(ss, v.region(j)+": "+k.str(depth-1))
		}
		return "{" + v.disc.String() + " | " + strings.Join(ss, "; ") + "}"
	}
	return "?"
}

func (v *V) region(j int) string {
	if v.disc.kind == 'i' || v.disc.kind == 'f' {
		cs := func(c Cut) string {
			if v.disc.kind == 'i' {
				return c.v.RatString()
			}
			f, _ := c.v.Float64()
			return fmt.Sprint(f)
		}
		switch {
		case j == 0:
			if v.cuts[0].after {
				return "<=" + cs(v.cuts[0])
			}
			return "<" + cs(v.cuts[0])
		case j == len(v.cuts):
			if v.cuts[j-1].after {
				return ">" + cs(v.cuts[j-1])
			}
			return ">=" + cs(v.cuts[j-1])
		}
		return ".." + cs(v.cuts[j])
	}
	if j < len(v.keys) {
		return strconv.Quote(v.keys[j])
	}
	return "else"
}

func typeShort(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

// firstDiff describes a cell in which two values differ.
func firstDiff(a, b *V) string {
	if a == b {
		return ""
	}
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
		st, _ := a.typ.Underlying().(*types.Struct)
		for i := range a.args {
			if a.args[i] != b.args[i] {
				n := fmt.Sprint(i)
				if st != nil {
					n = st.Field(i).Name()
				}
				return "field " + n + ": " + firstDiff(a.args[i], b.args[i])
			}
		}
	}
	var conds []string
	for {
		d := minDisc([]*V{a, b})
		if d == nil {
			break
		}
		cuts, keys, n := mergeParts(d, []*V{a, b})
		found := false
		for j := 0; j < n; j++ {
			x, y := pick(a, d, cuts, keys, j), pick(b, d, cuts, keys, j)
			if x != y {
				tmp := &V{k: KNode, disc: d, cuts: cuts, keys: keys}
				tmp.kids = make([]*V, n)
				ds := d.String()
				if len(ds) > 160 {
					ds = ds[:160] + "…"
				}
				conds = append(conds, ds+" "+tmp.region(j))
				a, b = x, y
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	sa, sb := a.String(), b.String()
	if len(sa) > 400 {
		sa = sa[:400] + "…"
	}
	if len(sb) > 400 {
		sb = sb[:400] + "…"
	}
	w := ""
	if len(conds) > 0 {
		if len(conds) > 8 {
			conds = append(conds[:8], "…")
		}
		w = " when " + strings.Join(conds, " and ")
	}
	return fmt.Sprintf("code gives %s, rule gives %s%s", sa, sb, w)
}
