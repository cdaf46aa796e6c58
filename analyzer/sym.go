package main

// Symbolic values by type, zero values, substitution, free symbols.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

var (
	utcLoc   *V
	localLoc *V
	dayNanos = new(big.Int).Mul(bi(86400), bi(1000000000))
	zeroTime *big.Int
)

func init() {
	utcLoc = mkOpaque("loc:UTC", nil)
	localLoc = mkOpaque("loc:Local", nil)
	zeroTime = new(big.Int).Mul(bi(-62135596800), bi(1000000000))
}

// how symbolic times get their location
var symLocMode = "any" // "any": own symbol; "same": one shared symbol; "utc"

// ranges assumed of fields, by name
var symFields map[string][2]*big.Int

func symLoc(t *V) *V {
	switch symLocMode {
	case "utc":
		return utcLoc
	case "same":
		return mkOpaque("loc:shared", nil)
	}
	return mkOpaque("loc", nil, t)
}

// symOf expands an opaque term into a value of its type.
func symOf(t *V, typ types.Type) *V {
	if isTime(typ) {
		return mkTime(vAtom(mkOpaque("nanos", nil, t), nil, nil), symLoc(t))
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolOf(t)
		case u.Info()&types.IsInteger != 0:
			if r, ok := symFields[t.op]; ok {
				return mkInt(vAtom(t, r[0], r[1]))
			}
			return mkInt(vAtom(t, typeLo(u), nil))
		case u.Info()&types.IsFloat != 0:
			return fvalOf(t)
		case u.Info()&types.IsString != 0:
			return mkStrTerm("sval", t)
		}
		return t
	case *types.Struct:
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = symOf(mkOpaque("."+u.Field(i).Name(), u.Field(i).Type(), t), u.Field(i).Type())
		}
		return mkStruct(typ, fs)
	case *types.Array:
		if u.Len() <= 64 {
			fs := make([]*V, u.Len())
			for i := range fs {
				fs[i] = symOf(mkOpaque("at", u.Elem(), t, Int(int64(i))), u.Elem())
			}
			return mkStruct(typ, fs)
		}
		return t
	case *types.Slice:
		return mkSeq([]Seg{{g: True, base: t}})
	case *types.Tuple:
		fs := make([]*V, u.Len())
		for i := range fs {
			fs[i] = symOf(mkOpaque(fmt.Sprintf("#%d", i), u.At(i).Type(), t), u.At(i).Type())
		}
		return mkTuple(fs...)
	}
	return t
}

func typeLo(b *types.Basic) *big.Int {
	if b.Info()&types.IsUnsigned != 0 {
		return big0
	}
	return nil
}

func zeroOf(typ types.Type) *V {
	if isTime(typ) {
		return mkTime(pConst(zeroTime), utcLoc)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return I2F(Int(0))
		case u.Info()&types.IsString != 0:
			return Str("")
		}
		return mkNil(typ)
	case *types.Struct:
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(typ, fs)
	case *types.Array:
		if u.Len() > 100000 {
			panic(undecided{"array too large"})
		}
		fs := make([]*V, u.Len())
		for i := range fs {
			fs[i] = zeroOf(u.Elem())
		}
		return mkStruct(typ, fs)
	case *types.Slice:
		return mkSeq(nil)
	case *types.Tuple:
		fs := make([]*V, u.Len())
		for i := range fs {
			fs[i] = zeroOf(u.At(i).Type())
		}
		return mkTuple(fs...)
	}
	return mkNil(typ)
}

// mapLeaves rebuilds a diagram with f applied to its leaves.
func mapLeaves(v *V, f func(*V) *V) *V {
	memo := map[*V]*V{}
	var rec func(v *V) *V
	rec = func(v *V) *V {
		if v.k != KNode {
			return f(v)
		}
		if r, ok := memo[v]; ok {
			return r
		}
		kids := make([]*V, len(v.kids))
		for i, k := range v.kids {
			kids[i] = rec(k)
		}
		r := mkNode(v.disc, v.cuts, v.keys, kids)
		memo[v] = r
		return r
	}
	return rec(v)
}

// leafConds lists the leaves of a diagram with the condition of each.
type leafCond struct {
	leaf, cond *V
}

func leafConds(v *V) []leafCond {
	if v.k != KNode {
		return []leafCond{{v, True}}
	}
	var order []*V
	seen := map[*V]bool{}
	vis := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if vis[v] {
			return
		}
		vis[v] = true
		if v.k != KNode {
			if !seen[v] {
				seen[v] = true
				order = append(order, v)
			}
			return
		}
		for _, k := range v.kids {
			rec(k)
		}
	}
	rec(v)
	var out []leafCond
	for _, l := range order {
		l := l
		out = append(out, leafCond{l, mapLeaves(v, func(x *V) *V { return Bool(x == l) })})
	}
	return out
}

// ---------------------------------------------------------------- free symbols

// Symbols bound by loops are opaque terms with op "sym:T..." (temporary),
// "sym:B..." (canonical) or "sym:K..." (counters).
func isSym(t *V) bool { return t.k == KOpaque && strings.HasPrefix(t.op, "sym:") }

type symSet map[*V]bool

var freeMemo = map[*V][]*V{}

func freeSyms(v *V) []*V {
	if r, ok := freeMemo[v]; ok {
		return r
	}
	set := symSet{}
	add := func(xs []*V) {
		for _, x := range xs {
			set[x] = true
		}
	}
	if isSym(v) {
		set[v] = true
	}
	for _, a := range v.args {
		if a != nil {
			add(freeSyms(a))
		}
	}
	for _, a := range v.kids {
		add(freeSyms(a))
	}
	if v.poly != nil {
		add(polyFree(v.poly))
	}
	if v.loc != nil {
		add(freeSyms(v.loc))
	}
	if v.disc != nil {
		if v.disc.poly != nil {
			add(polyFree(v.disc.poly))
		} else {
			add(freeSyms(v.disc.v))
		}
	}
	for _, s := range v.segs {
		add(freeSyms(s.g))
		if s.el != nil {
			add(freeSyms(s.el))
		} else {
			add(freeSyms(s.base))
		}
	}
	for _, p := range v.path {
		if p.seq != nil {
			add(freeSyms(p.seq))
			add(freeSyms(p.idx))
		}
	}
	r := make([]*V, 0, len(set))
	for x := range set {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	freeMemo[v] = r
	return r
}

var polyFreeMemo = map[int][]*V{}

func polyFree(p *Poly) []*V {
	if r, ok := polyFreeMemo[p.id]; ok {
		return r
	}
	set := symSet{}
	for _, t := range p.ms {
		for _, a := range t.as {
			var xs []*V
			if a.fp != nil {
				xs = polyFree(a.fp)
			} else {
				xs = freeSyms(a.v)
			}
			for _, x := range xs {
				set[x] = true
			}
		}
	}
	r := make([]*V, 0, len(set))
	for x := range set {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	polyFreeMemo[p.id] = r
	return r
}

func mentions(v *V, syms map[*V]bool) bool {
	for _, x := range freeSyms(v) {
		if syms[x] {
			return true
		}
	}
	return false
}
func mentionsOne(v, s *V) bool {
	for _, x := range freeSyms(v) {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- substitution

type Subst struct {
	m    map[*V]*V // symbol term -> scalar value
	memo map[*V]*V
	pm   map[int]*V
	keep map[*V]bool
}

func newSubst() *Subst {
	return &Subst{m: map[*V]*V{}, memo: map[*V]*V{}, pm: map[int]*V{}}
}

func (s *Subst) hit(v *V) bool {
	for _, x := range freeSyms(v) {
		if _, ok := s.m[x]; ok {
			return true
		}
	}
	return false
}
func (s *Subst) hitPoly(p *Poly) bool {
	for _, x := range polyFree(p) {
		if _, ok := s.m[x]; ok {
			return true
		}
	}
	return false
}

func (s *Subst) poly(p *Poly) *V {
	if !s.hitPoly(p) {
		return mkInt(p)
	}
	if r, ok := s.pm[p.id]; ok {
		return r
	}
	res := mkInt(pConst(p.c))
	for _, t := range p.ms {
		m := mkInt(pConst(t.c))
		for _, a := range t.as {
			m = IMul(m, s.atom(a))
		}
		res = IAdd(res, m)
	}
	s.pm[p.id] = res
	return res
}

// fpoly is the float value of a polynomial.
func (s *Subst) fpoly(p *Poly) *V {
	if !s.hitPoly(p) {
		return mkRat(p, big1)
	}
	res := mkRat(pConst(p.c), big1)
	for _, t := range p.ms {
		m := mkRat(pConst(t.c), big1)
		for _, a := range t.as {
			if isFAtom(a) {
				if s.hit(a.v) {
					m = FBin("*", m, s.val(a.v))
				} else {
					m = FBin("*", m, mkRat(pAtom(a), big1))
				}
			} else {
				m = FBin("*", m, I2F(s.atom(a)))
			}
		}
		res = FBin("+", res, m)
	}
	return res
}

func (s *Subst) atom(a *Atom) *V {
	if a.fp != nil {
		in := s.poly(a.fp)
		fm := a.fm
		return lift("ifdivB"+fm.String(), func(x []*V) *V { return mkInt(pFdiv(x[0].poly, fm)) }, in)
	}
	if r, ok := s.m[a.v]; ok {
		return r
	}
	if !s.hit(a.v) {
		return mkInt(pAtom(a))
	}
	args := s.list(a.v.args)
	switch a.v.op {
	case "ifloor":
		return IFloor(args[0])
	case "quo":
		return IQuo(args[0], args[1])
	case "strlen+":
		return StrLen(args[0])
	}
	return rebuildInt(a.v.op, a.v.typ, a.lo, a.hi, args)
}

func (s *Subst) list(vs []*V) []*V {
	out := make([]*V, len(vs))
	for i, v := range vs {
		out[i] = s.val(v)
	}
	return out
}

func (s *Subst) val(v *V) *V {
	if !s.hit(v) {
		return v
	}
	if r, ok := s.memo[v]; ok {
		return r
	}
	r := s.val1(v)
	s.memo[v] = r
	return r
}

func (s *Subst) val1(v *V) *V {
	switch v.k {
	case KInt:
		return s.poly(v.poly)
	case KFlt:
		switch v.op {
		case "rat":
			return FBin("/", s.fpoly(v.poly), mkRat(pConst(v.den), big1))
		case "fval":
			if r, ok := s.m[v.args[0]]; ok {
				return r
			}
			return retermFlt(s.val(v.args[0]))
		case "/":
			return FBin(v.op, s.val(v.args[0]), s.val(v.args[1]))
		}
		if strings.HasPrefix(v.op, "call:") {
			return FCall(v.op[5:], s.list(v.args)...)
		}
		return lift("f"+v.op, func(x []*V) *V { return mkF(v.op, x...) }, s.list(v.args)...)
	case KStr:
		switch v.op {
		case "concat":
			r := s.val(v.args[0])
			for _, a := range v.args[1:] {
				r = SConcat(r, s.val(a))
			}
			return r
		case "itoa":
			return Itoa(s.val(v.args[0]))
		case "sval":
			if r, ok := s.m[v.args[0]]; ok {
				return r
			}
			return retermStr(s.val(v.args[0]))
		}
		op := v.op
		return lift("st"+op, func(x []*V) *V { return mkStrTerm(op, x...) }, s.list(v.args)...)
	case KTime:
		return mkTimeV(s.poly(v.poly), s.val(v.loc))
	case KStruct:
		return mkStruct(v.typ, s.list(v.args))
	case KTuple:
		return mkTuple(s.list(v.args)...)
	case KIface:
		return mkIface(v.typ, s.val(v.args[0]))
	case KFunc:
		return mkFunc(v.fn, s.list(v.args))
	case KMap:
		if v.op == "sym" {
			if r, ok := s.m[v.args[0]]; ok {
				return r
			}
		}
		return mkMap(v.op, s.list(v.args)...)
	case KPtr:
		path := append([]PathEl{}, v.path...)
		for i, p := range path {
			if p.seq != nil {
				path[i].seq, path[i].idx = s.val(p.seq), s.val(p.idx)
			}
		}
		return mkPtr(v.obj, path)
	case KSeq:
		res := mkSeq(nil)
		for _, sg := range v.segs {
			g := s.val(sg.g)
			if sg.el != nil {
				res = seqConcat(res, mkSeq([]Seg{{g: g, el: s.val(sg.el)}}))
				continue
			}
			var b *V
			if r, ok := s.m[sg.base]; ok {
				b = r
			} else {
				b = seqOfTerm(s.val(sg.base))
			}
			res = seqConcat(res, ite(g, b, mkSeq(nil)))
		}
		return res
	case KOpaque:
		if r, ok := s.m[v]; ok {
			return r
		}
		args := s.list(v.args)
		op, typ := v.op, v.typ
		return mkOpaque(op, typ, args...)
	case KNode:
		d := v.disc
		kids := s.list(v.kids)
		switch d.kind {
		case 'i':
			x := s.poly(d.poly)
			res := kids[len(kids)-1]
			for j := len(v.cuts) - 1; j >= 0; j-- {
				res = ite2(ICmp("<=", x, mkBigInt(v.cuts[j].v.Num())), kids[j], res)
			}
			return res
		case 'f':
			x := s.fpoly(d.poly)
			res := kids[len(kids)-1]
			for j := len(v.cuts) - 1; j >= 0; j-- {
				op := "<"
				if v.cuts[j].after {
					op = "<="
				}
				res = ite2(FCmp(op, x, fRat(v.cuts[j].v)), kids[j], res)
			}
			return res
		case 's':
			x := s.val(d.v)
			res := kids[len(kids)-1]
			for j := len(v.keys) - 1; j >= 0; j-- {
				res = ite2(SEq(x, Str(v.keys[j])), kids[j], res)
			}
			return res
		default:
			var c *V
			if r, ok := s.m[d.v]; ok {
				c = r
			} else {
				c = rebuildBool(d.v.op, s.list(d.v.args))
			}
			return ite2(c, kids[0], kids[1])
		}
	}
	return v
}

// ite2 keeps Undef leaves.
func ite2(c, a, b *V) *V {
	if a.k == KSeq && b.k == KSeq {
		return iteSeq(c, a, b)
	}
	return iteRaw(c, a, b)
}

// liftSmall lifts a constructor over scalar diagrams among its arguments.
func rebuildInt(op string, typ types.Type, lo, hi *big.Int, args []*V) *V {
	switch op {
	case "kexit", "sum", "sumn": // binders
		return mkInt(vAtom(mkOpaque(op, typ, args...), lo, hi))
	}
	return lift("ri:"+op, func(x []*V) *V {
		if op == "time.Year" || op == "time.Month" || op == "time.Day" || op == "time.YearDay" || op == "time.ISOYear" || op == "time.ISOWeek" {
			return timePart(op, x[0], x[1])
		}
		return liftTerm(mkOpaque(op, typ, x...), func(t *V) *V { return mkInt(vAtom(t, lo, hi)) })
	}, args...)
}
func rebuildBool(op string, args []*V) *V {
	if op == "streq" {
		return SEq(args[0], args[1])
	}
	return lift("rb:"+op, func(x []*V) *V {
		return liftTerm(mkOpaque(op, types.Typ[types.Bool], x...), boolOf)
	}, args...)
}

// a float or string read from a rebuilt opaque term
func retermFlt(t *V) *V {
	if t.k == KFlt {
		return t
	}
	return mapLeaves(t, func(t *V) *V {
		if t.k == KFlt || t.k == KUndef {
			return t
		}
		return liftTerm(t, func(t *V) *V {
			return fvalOf(t)
		})
	})
}
func retermStr(t *V) *V {
	return mapLeaves(t, func(t *V) *V {
		if t.k == KStr || t.k == KUndef {
			return t
		}
		return liftTerm(t, func(t *V) *V { return mkStrTerm("sval", t) })
	})
}
func seqOfTerm(t *V) *V {
	if t.k == KSeq {
		return t
	}
	return mkSeq([]Seg{{g: True, base: t}})
}

func seqConcat(a, b *V) *V {
	if a.k == KSeq && b.k == KSeq {
		return mkSeq(append(append([]Seg{}, a.segs...), b.segs...))
	}
	return lift("seqconcat", func(x []*V) *V {
		if x[0].k != KSeq || x[1].k != KSeq {
			panic(undecided{"concatenation of non-sequences"})
		}
		return mkSeq(append(append([]Seg{}, x[0].segs...), x[1].segs...))
	}, a, b)
}

func mkTimeV(n, loc *V) *V {
	return lift("mktime", func(x []*V) *V {
		if x[0].k != KInt {
			return Undef
		}
		return mkTime(x[0].poly, x[1])
	}, n, loc)
}
func timeNanos(t *V) *V {
	return lift("nanos", func(x []*V) *V {
		if x[0].k != KTime {
			return Undef
		}
		return mkInt(x[0].poly)
	}, t)
}
func timeLoc(t *V) *V {
	return lift("loc", func(x []*V) *V {
		if x[0].k != KTime {
			return Undef
		}
		return x[0].loc
	}, t)
}

// ---------------------------------------------------------------- lifting out of opaque calls

func transparent(v *V) bool {
	if v.k == KStruct || v.k == KTuple || v.k == KTime {
		return true
	}
	if v.k != KOpaque {
		return false
	}
	switch v.op {
	case "new", "ptr", "at", "nanos":
		return true
	}
	return strings.HasPrefix(v.op, "fn:") || strings.HasPrefix(v.op, ".") || strings.HasPrefix(v.op, "#")
}

// innerDisc is the first discriminant of a case distinction among the
// arguments of an opaque call.
func innerDisc(v *V) *Disc {
	var best *Disc
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.k == KNode {
			if best == nil || v.disc.id < best.id {
				best = v.disc
			}
			return
		}
		if !transparent(v) {
			return
		}
		for _, a := range v.args {
			rec(a)
		}
	}
	rec(v)
	return best
}

func innerNodes(v *V, d *Disc) []*V {
	var out []*V
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.k == KNode && v.disc == d {
			out = append(out, v)
			return
		}
		if v.k != KNode && transparent(v) {
			for _, a := range v.args {
				rec(a)
			}
		}
	}
	rec(v)
	return out
}

func innerPick(v *V, d *Disc, cuts []Cut, keys []string, j int) *V {
	if v.k == KNode {
		return pick(v, d, cuts, keys, j)
	}
	if !transparent(v) || v.k == KTime {
		return v
	}
	args := make([]*V, len(v.args))
	ch := false
	for i, a := range v.args {
		args[i] = innerPick(a, d, cuts, keys, j)
		ch = ch || args[i] != a
	}
	if !ch {
		return v
	}
	switch v.k {
	case KStruct:
		return mkStruct(v.typ, args)
	case KTuple:
		return mkTuple(args...)
	}
	return mkOpaque(v.op, v.typ, args...)
}

// liftTerm applies f to an opaque term under the case distinctions of its
// arguments, so that f(x) for x = {c: a, b} is the same as {c: f(a), f(b)}.
func liftTerm(t *V, f func(*V) *V) *V { return liftTermN(t, f, 0) }
func liftTermN(t *V, f func(*V) *V, depth int) *V {
	d := innerDisc(t)
	if d == nil || depth > 12 {
		return f(t)
	}
	cuts, keys, n := mergeParts(d, innerNodes(t, d))
	kids := make([]*V, n)
	for j := range kids {
		kids[j] = liftTermN(innerPick(t, d, cuts, keys, j), f, depth+1)
	}
	return mkNode(d, cuts, keys, kids)
}
