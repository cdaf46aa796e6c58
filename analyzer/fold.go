package main

// Constant folding of value graphs. Two graphs that differ in their canonical
// form may still describe the same function, where a condition can never hold
// or a computation is written in another way. A mismatch that cannot be
// settled on the graphs themselves is confirmed by folding both graphs at
// constants: where they fold to different constants, the difference is real.
// Folding only ever confirms a mismatch; that two graphs agree is decided on
// the graphs alone.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

type folder struct {
	env   map[string]*V // values of symbols, by the operation that names them
	memo  map[*V]*V
	fuel  *int
	bound map[int]bool
	call  func(op string, args []*V, typ types.Type) *V
	round uint64
	up    *folder // the surroundings of the loop
	level int
	free  func(t *V) *V // the value of a symbol or part of an argument
}

func newFolder() *folder {
	n := 400000
	return &folder{env: map[string]*V{}, memo: map[*V]*V{}, fuel: &n, bound: map[int]bool{}}
}

// scope is a folder for the rounds of a loop.
func (f *folder) scope(level int) *folder {
	g := &folder{env: map[string]*V{}, memo: map[*V]*V{}, fuel: f.fuel, bound: map[int]bool{level: true}, call: f.call, free: f.free, round: f.round, up: f, level: level}
	for k, v := range f.env {
		g.env[k] = v
	}
	for k := range f.bound {
		g.bound[k] = true
	}
	return g
}

func (f *folder) poly(p *Poly) *big.Int {
	r := new(big.Int).Set(p.c)
	for _, m := range p.ms {
		t := new(big.Int).Set(m.c)
		for _, a := range m.as {
			var x *big.Int
			if a.fp != nil {
				y := f.poly(a.fp)
				if y == nil {
					return nil
				}
				x = floorDiv(y, a.fm)
			} else {
				v := f.intTerm(a.v)
				if v == nil || v.k != KInt || !v.poly.isConst() {
					return nil
				}
				x = v.poly.c
			}
			t.Mul(t, x)
		}
		r.Add(r, t)
	}
	return r
}

// fpoly folds a polynomial over the reals, exactly.
func (f *folder) fpoly(p *Poly) *V {
	res := mkRat(pConst(p.c), big1)
	for _, m := range p.ms {
		t := mkRat(pConst(m.c), big1)
		for _, a := range m.as {
			var x *V
			if isFAtom(a) {
				x = f.val(a.v)
			} else if n := f.poly(pAtom(a)); n != nil {
				x = mkRat(pConst(n), big1)
			}
			if x == nil || x.k != KFlt || x.op != "rat" || !isLiteral(x) {
				return nil
			}
			t = FBin("*", t, x)
		}
		res = FBin("+", res, t)
	}
	return res
}

func (f *folder) ints(vs []*V) []int64 {
	var r []int64
	for _, v := range vs {
		x := f.val(v)
		if x == nil || !x.isIntConst() || !x.poly.c.IsInt64() {
			return nil
		}
		r = append(r, x.poly.c.Int64())
	}
	return r
}

// intTerm folds an opaque term that stands for a number.
func (f *folder) intTerm(t *V) *V {
	if f.up != nil && boundLevels(t)&(1<<uint(f.level&63)) == 0 {
		return f.up.intTerm(t)
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.intTerm1(t)
	f.memo[t] = r
	return r
}

func (f *folder) intTerm1(t *V) *V {
	if t.k == KFlt {
		return nil
	}
	switch t.op {
	case "time.Year", "time.Month", "time.Day", "time.YearDay", "time.ISOYear", "time.ISOWeek":
		n, loc := f.val(t.args[0]), f.val(t.args[1])
		if n == nil || loc == nil || !isUTC(loc) || !n.isIntConst() || !n.poly.c.IsInt64() || n.intVal() > 4e6 || n.intVal() < -8e5 {
			return nil
		}
		return timePart(t.op, n, utcLoc)
	case "time.Weekday", "time.Hour", "time.Minute":
		n, loc := f.val(t.args[0]), f.val(t.args[1])
		if n == nil || loc == nil || !isUTC(loc) || !n.isIntConst() {
			return nil
		}
		d := goTime(n.poly)
		switch t.op {
		case "time.Weekday":
			return Int(int64(d.Weekday()))
		case "time.Hour":
			return Int(int64(d.Hour()))
		}
		return Int(int64(d.Minute()))
	case "daystart":
		n, loc := f.val(t.args[0]), f.val(t.args[1])
		if n == nil || loc == nil || !isUTC(loc) || !n.isIntConst() {
			return nil
		}
		return mkInt(pScale(pFdiv(n.poly, dayNanos), dayNanos))
	case "dateday":
		x := f.ints(t.args)
		if x == nil || x[0] < 1 || x[0] > 9999 || x[1] < -120 || x[1] > 120 {
			return nil
		}
		return Int(time.Date(int(x[0]), time.Month(x[1]), 1, 0, 0, 0, 0, time.UTC).Unix()/86400 - 1)
	case "adddate":
		n, loc := f.val(t.args[0]), f.val(t.args[1])
		x := f.ints(t.args[2:])
		if n == nil || loc == nil || !isUTC(loc) || !n.isIntConst() || x == nil {
			return nil
		}
		return mkInt(nanosOf(goTime(n.poly).AddDate(int(x[0]), int(x[1]), int(x[2]))))
	case "nanos":
		d := f.val(t.args[0])
		if d == nil || d.k != KTime || !d.poly.isConst() {
			return nil
		}
		return mkInt(d.poly)
	case "strlen", "strlen+":
		s := f.val(t.args[0])
		if s == nil || !s.isStrConst() {
			return nil
		}
		return Int(int64(len(s.s)))
	case "quo":
		x := f.ints(t.args)
		if x == nil || x[1] == 0 {
			return nil
		}
		return Int(x[0] / x[1])
	case "ifloor":
		x := f.val(t.args[0])
		if x == nil || x.k != KFlt {
			return nil
		}
		if r := IFloor(x); r.isIntConst() {
			return r
		}
		return nil
	case "len":
		if x := t.args[0]; x.k == KOpaque && f.free != nil && paramRooted(x) && x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Slice); ok {
				return Int(f.length(x))
			}
		}
		s := f.val(t.args[0])
		if s == nil || s.k != KSeq {
			return nil
		}
		return Int(int64(len(s.segs)))
	}
	return f.opaque(t)
}

// opaque folds a symbol, a part of a value, the result of a function or a loop.
func (f *folder) opaque(t *V) *V {
	if v, ok := f.env[t.op]; ok && len(t.args) == 0 {
		return v
	}
	if f.free != nil {
		if n := f.settle(t); n != nil && paramRooted(n) {
			// An element past the end of a list has a value like any other:
			// the tests of the length come before or after those of the
			// elements in a graph, and decide the result either way.
			return f.freeTerm(n)
		}
	}
	switch {
	case t.op == "loc:shared":
		return utcLoc
	case strings.HasPrefix(t.op, "loc:") && len(t.args) == 0:
		return t
	case t.op == "loc":
		d := f.val(t.args[0])
		if d == nil || d.k != KTime {
			return nil
		}
		return d.loc
	case strings.HasPrefix(t.op, "fn:"):
		if f.call == nil {
			return nil
		}
		args := make([]*V, len(t.args))
		for i, a := range t.args {
			if args[i] = f.val(a); args[i] == nil {
				return nil
			}
		}
		return f.call(t.op, args, t.typ)
	case strings.HasPrefix(t.op, ".") && len(t.args) == 1:
		x := f.val(t.args[0])
		if x != nil && x.k == KStruct && x.typ != nil {
			if st, ok := x.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == t.op[1:] && i < len(x.args) {
						return x.args[i]
					}
				}
			}
		}
	case isLoopTerm(t):
		return f.loop(t)
	case t.op == "list":
		n := f.ints(t.args[:1])
		if n == nil || n[0] < 0 || n[0] >= int64(len(t.args)) {
			return nil
		}
		var out []Seg
		for _, a := range t.args[1 : 1+n[0]] {
			x := f.val(a)
			if x == nil {
				return nil
			}
			if x.k == KSeq && a.k == KOpaque && a.op == "splice" {
				out = append(out, x.segs...)
			} else {
				out = append(out, Seg{g: True, el: x})
			}
		}
		return mkSeq(out)
	case t.op == "splice":
		return f.val(t.args[0])
	case t.op == "iface":
		for i := 1; i+2 < len(t.args); i += 3 {
			c := f.val(t.args[i+1])
			if c == nil || c.k != KBool {
				return nil
			}
			if c.b {
				x := f.val(t.args[i+2])
				if x == nil {
					return nil
				}
				return mkTuple(t.args[i], x)
			}
		}
		return f.val(t.args[0])
	case t.op == "ptr":
		x := f.val(t.args[0])
		if x == nil {
			return nil
		}
		return mkOpaque("ptr", nil, x)
	case t.op == "elem" && len(t.args) == 2 && !sortedElement(t):
		s, n := f.val(t.args[0]), f.ints(t.args[1:])
		if s != nil && s.k == KSeq && n != nil && n[0] >= 0 && n[0] < int64(len(s.segs)) {
			return s.segs[n[0]].el
		}
		return nil
	case t.op == "seqstore" && len(t.args) == 3:
		s, n := f.val(t.args[0]), f.ints(t.args[1:2])
		x := f.val(t.args[2])
		if s == nil || s.k != KSeq || n == nil || x == nil || n[0] < 0 || n[0] >= int64(len(s.segs)) {
			return nil
		}
		out := append([]Seg{}, s.segs...)
		out[n[0]] = Seg{g: True, el: x}
		return mkSeq(out)
	case t.op == "subseq" && len(t.args) == 3:
		s, n := f.val(t.args[0]), f.ints(t.args[1:])
		if s == nil || s.k != KSeq || n == nil {
			return nil
		}
		if n[1] < 0 {
			n[1] = int64(len(s.segs))
		}
		if n[0] < 0 || n[0] > n[1] || n[1] > int64(len(s.segs)) {
			return nil
		}
		return mkSeq(append([]Seg{}, s.segs[n[0]:n[1]]...))
	case t.op == "isnil" && len(t.args) == 1:
		x := f.val(t.args[0])
		if x == nil {
			return nil
		}
		return Bool(x.k == KNil)
	}
	if f.free != nil {
		return f.freeTerm(t)
	}
	return nil
}

// settle folds the positions in a part of an argument.
func (f *folder) settle(t *V) *V {
	switch {
	case strings.HasPrefix(t.op, ".") && len(t.args) == 1:
		x := f.settle(t.args[0])
		if x == nil || x == t.args[0] {
			if x != nil {
				return t
			}
			return nil
		}
		return mkOpaque(t.op, t.typ, x)
	case t.op == "elem" && len(t.args) == 2:
		l := t.args[0]
		if l.k == KSeq && len(l.segs) == 1 && l.segs[0].g == True && l.segs[0].base != nil {
			l = l.segs[0].base
		}
		x := f.settle(l)
		if x == nil {
			return nil
		}
		n := f.val(t.args[1])
		if n == nil || !n.isIntConst() {
			return nil
		}
		return mkOpaque("elem", t.typ, x, n)
	case strings.HasPrefix(t.op, "param:") && len(t.args) == 0:
		return t
	}
	return nil
}

// freeTerm gives arguments and their parts their values: lists have a length
// and elements, which are arguments of their own.
func (f *folder) freeTerm(t *V) *V {
	if !paramRooted(t) || t.typ == nil {
		return nil
	}
	st, ok := t.typ.Underlying().(*types.Slice)
	if !ok {
		return f.free(t)
	}
	n := f.length(t)
	var out []Seg
	for i := int64(0); i < n; i++ {
		x := f.val(symOf(mkOpaque("elem", st.Elem(), t, Int(i)), st.Elem()))
		if x == nil {
			return nil
		}
		out = append(out, Seg{g: True, el: x})
	}
	return mkSeq(out)
}

// length is the number of elements of a list among the arguments.
func (f *folder) length(t *V) int64 {
	deep := false
	subterms(t, func(x *V) { deep = deep || x.op == "elem" })
	n := mix(leafName(t)+"#", f.round)
	if deep {
		return int64(n % 2)
	}
	return int64(n % 4)
}

var boundMemo = map[*V]uint64{}

// boundLevels are the levels of the bound symbols a term mentions.
func boundLevels(v *V) uint64 {
	if m, ok := boundMemo[v]; ok {
		return m
	}
	var m uint64
	if v.k == KOpaque && strings.HasPrefix(v.op, "bnd:") {
		var n uint
		fmt.Sscanf(v.op, "bnd:%d.", &n)
		m |= 1 << (n & 63)
	}
	var poly func(p *Poly)
	poly = func(p *Poly) {
		for _, t := range p.ms {
			for _, a := range t.as {
				if a.fp != nil {
					poly(a.fp)
				} else {
					m |= boundLevels(a.v)
				}
			}
		}
	}
	for _, a := range v.args {
		if a != nil {
			m |= boundLevels(a)
		}
	}
	for _, a := range v.kids {
		m |= boundLevels(a)
	}
	if v.poly != nil {
		poly(v.poly)
	}
	if v.loc != nil {
		m |= boundLevels(v.loc)
	}
	if v.disc != nil {
		if v.disc.poly != nil {
			poly(v.disc.poly)
		} else {
			m |= boundLevels(v.disc.v)
		}
	}
	for _, s := range v.segs {
		m |= boundLevels(s.g)
		if s.el != nil {
			m |= boundLevels(s.el)
		} else {
			m |= boundLevels(s.base)
		}
	}
	boundMemo[v] = m
	return m
}

func isLoopTerm(t *V) bool {
	switch t.op {
	case "collect", "final", "sum", "kexit":
		return len(t.args) >= 3 && t.args[0].isStrConst() && (t.args[0].s == "while" || t.args[0].s == "count")
	}
	return false
}

// loop folds a loop term round by round.
func (f *folder) loop(t *V) *V {
	nv := int(t.args[1].intVal())
	if len(t.args) < 3+2*nv {
		return nil
	}
	steps := t.args[3 : 3+nv]
	roots := t.args[3+nv : len(t.args)-nv]
	inits := t.args[len(t.args)-nv:]
	if t.op != "kexit" && len(roots) != 1 {
		return nil
	}
	// the level of the symbols of this loop
	lvl := 0
	for i, a := range t.args[2 : len(t.args)-nv] {
		if i == 0 && t.args[0].s == "count" {
			continue
		}
		seen := map[int]bool{}
		subterms(a, func(x *V) {
			n := 0
			if strings.HasPrefix(x.op, "bnd:") {
				fmt.Sscanf(x.op, "bnd:%d.", &n)
			}
			seen[n] = true
		})
		for n := range seen {
			if !f.bound[n] && n > lvl {
				lvl = n
			}
		}
	}
	vals := make([]*V, nv)
	for i, x := range inits {
		if vals[i] = f.val(x); vals[i] == nil {
			return nil
		}
	}
	n := int64(-1)
	if t.args[0].s == "count" {
		x := f.val(t.args[2])
		if x == nil || !x.isIntConst() || !x.poly.c.IsInt64() {
			return nil
		}
		n = x.intVal()
	}
	var seq []Seg
	str := Str("")
	sum := big.NewInt(0)
	for k := int64(0); ; k++ {
		if *f.fuel -= 20; *f.fuel < 0 {
			return nil
		}
		g := f.scope(lvl)
		g.env[fmt.Sprintf("bnd:%d.k", lvl)] = Int(k)
		for i, x := range vals {
			g.env[fmt.Sprintf("bnd:%d.%d", lvl, i)] = x
		}
		if n >= 0 {
			if k >= n {
				if t.op == "final" {
					return g.val(roots[0])
				}
				break
			}
		} else {
			c := g.val(t.args[2])
			if c == nil || c.k != KBool {
				return nil
			}
			if !c.b {
				switch t.op {
				case "final":
					return g.val(roots[0])
				case "kexit":
					return Int(k)
				}
				break
			}
		}
		if t.op != "final" && t.op != "kexit" {
			r := g.val(roots[0])
			if r == nil {
				return nil
			}
			switch {
			case t.op == "sum" && r.isIntConst():
				sum.Add(sum, r.poly.c)
			case r.k == KSeq:
				seq = append(seq, r.segs...)
			case r.isStrConst():
				str = SConcat(str, r)
			default:
				return nil
			}
		}
		next := make([]*V, nv)
		for i, x := range steps {
			if next[i] = g.val(x); next[i] == nil {
				return nil
			}
		}
		vals = next
	}
	switch {
	case t.op == "sum":
		return mkBigInt(sum)
	case t.op == "collect" && t.k == KStr:
		return str
	case t.op == "collect":
		return mkSeq(seq)
	}
	return nil
}

// val folds a value; nil where it is not a constant.
func (f *folder) val(v *V) *V {
	if isLiteral(v) && v.k != KTime {
		return v
	}
	if f.up != nil && boundLevels(v)&(1<<uint(f.level&63)) == 0 {
		return f.up.val(v)
	}
	if r, ok := f.memo[v]; ok {
		return r
	}
	if *f.fuel--; *f.fuel < 0 {
		return nil
	}
	r := f.val1(v)
	f.memo[v] = r
	if r == nil && debugFold && *f.fuel > 0 {
		fmt.Println("FOLD: nil", clip(v.String(), 300))
	}
	return r
}

var debugFold = os.Getenv("SV_FOLD") != ""

func (f *folder) list(vs []*V) []*V {
	out := make([]*V, len(vs))
	for i, v := range vs {
		if out[i] = f.val(v); out[i] == nil {
			return nil
		}
	}
	return out
}

func (f *folder) val1(v *V) *V {
	switch v.k {
	case KInt:
		if n := f.poly(v.poly); n != nil {
			return mkBigInt(n)
		}
	case KFlt:
		switch v.op {
		case "rat":
			if x := f.fpoly(v.poly); x != nil {
				return FBin("/", x, mkRat(pConst(v.den), big1))
			}
		case "fval":
			if x := f.val(v.args[0]); x != nil && x.k == KFlt {
				return x
			}
		case "/":
			if x := f.list(v.args); x != nil {
				if r := FBin("/", x[0], x[1]); isLiteral(r) {
					return r
				}
			}
		}
	case KStr:
		switch v.op {
		case "concat":
			x := f.list(v.args)
			if x == nil {
				return nil
			}
			r := x[0]
			for _, y := range x[1:] {
				r = SConcat(r, y)
			}
			return r
		case "itoa":
			if x := f.val(v.args[0]); x != nil && x.isIntConst() {
				return Itoa(x)
			}
		case "sval":
			if x := f.val(v.args[0]); x != nil && x.k == KStr {
				return x
			}
		case "collect":
			if isLoopTerm(v) {
				return f.loop(v)
			}
		default:
			if strings.HasPrefix(v.op, "fmt:%") && len(v.args) == 1 {
				if x := f.val(v.args[0]); x != nil && x.isIntConst() && strings.HasSuffix(v.op, "d") {
					return Str(fmt.Sprintf(v.op[4:], x.poly.c))
				}
			}
			for _, p := range []string{"dateformat:", "timeformat:"} {
				l, ok := strings.CutPrefix(v.op, p)
				if !ok || len(v.args) != 2 {
					continue
				}
				x, loc := f.val(v.args[0]), f.val(v.args[1])
				if x == nil || loc == nil || !isUTC(loc) || !x.isIntConst() {
					return nil
				}
				n := x.poly
				if p == "dateformat:" {
					n = pScale(n, dayNanos)
				}
				return Str(goTime(n).Format(l))
			}
		}
	case KTime:
		n, loc := f.poly(v.poly), f.val(v.loc)
		if n != nil && loc != nil {
			return mkTime(pConst(n), loc)
		}
	case KStruct:
		if x := f.list(v.args); x != nil {
			return mkStruct(v.typ, x)
		}
	case KTuple:
		if x := f.list(v.args); x != nil {
			return mkTuple(x...)
		}
	case KIface:
		if x := f.val(v.args[0]); x != nil {
			return mkIface(v.typ, x)
		}
	case KSeq:
		var out []Seg
		for _, s := range v.segs {
			g := f.val(s.g)
			if g == nil || g.k != KBool {
				return nil
			}
			if !g.b {
				continue
			}
			if s.el != nil {
				x := f.val(s.el)
				if x == nil {
					return nil
				}
				out = append(out, Seg{g: True, el: x})
				continue
			}
			x := f.val(s.base)
			if x == nil || x.k != KSeq {
				return nil
			}
			out = append(out, x.segs...)
		}
		return mkSeq(out)
	case KOpaque:
		return f.opaque(v)
	case KNode:
		j := f.branch(v)
		if j < 0 {
			return nil
		}
		return f.val(v.kids[j])
	}
	return nil
}

// branch is the kid of a node constants lead to.
func (f *folder) branch(v *V) int {
	d := v.disc
	switch d.kind {
	case 'i':
		n := f.poly(d.poly)
		if n == nil {
			return -1
		}
		x := ratOf(n)
		for j, c := range v.cuts {
			if x.Cmp(c.v) <= 0 {
				return j
			}
		}
		return len(v.kids) - 1
	case 'f':
		x := f.fpoly(d.poly)
		if x == nil || !isLiteral(x) {
			return -1
		}
		r := new(big.Rat).SetFrac(x.poly.c, x.den)
		for j, c := range v.cuts {
			if n := r.Cmp(c.v); n < 0 || n == 0 && c.after {
				return j
			}
		}
		return len(v.kids) - 1
	case 's':
		x := f.val(d.v)
		if x == nil || !x.isStrConst() {
			return -1
		}
		for j, k := range v.keys {
			if x.s == k {
				return j
			}
		}
		return len(v.kids) - 1
	}
	var x *V
	switch d.v.op {
	case "streq", "strless":
		a := f.list(d.v.args)
		if a == nil || !a[0].isStrConst() || !a[1].isStrConst() {
			return -1
		}
		x = Bool(a[0].s == a[1].s)
		if d.v.op == "strless" {
			x = Bool(a[0].s < a[1].s)
		}
	default:
		x = f.opaque(d.v)
	}
	if x == nil || x.k != KBool {
		return -1
	}
	if x.b {
		return 0
	}
	return 1
}

// ---------------------------------------------------------------- the lunar calendar

// years of the common era with a second eighth month, and with an added day
var (
	adhikamasa = yearSet("1896 1899 1901 1904 1907 1909 1912 1915 1918 1920 1923 1926 1928 1931 1934 1937 1939 1942 1945 1947 1950 1953 1956 1958 1961 1964 1966 1969 1972 1975 1977 1980 1983 1985 1988 1991 1993 1996 1999 2002 2004 2007 2010 2012 2015 2018 2021 2023 2026 2029 2031 2034 2037 2040 2042 2045 2048 2050 2053 2056 2059 2061 2064 2067 2069 2072 2075 2078 2080 2083 2086 2088 2091 2094 2097 2099 2102 2105")
	adhikavara = yearSet("1897 1902 1906 1911 1917 1922 1927 1932 1938 1943 1948 1954 1959 1963 1968 1973 1978 1984 1989 1994 2000 2005 2009 2016 2020 2025 2030 2035 2041 2046 2051 2057 2062 2066 2071 2076 2082 2087 2092 2098 2103")
)

func yearSet(s string) map[int]bool {
	m := map[int]bool{}
	for _, w := range strings.Fields(s) {
		var y int
		fmt.Sscan(w, &y)
		m[y] = true
	}
	return m
}

const firstLunarYear, lastLunarYear = 1897, 2104

// kattikaBefore is the full moon of the twelfth month before a year.
func kattikaBefore(y int) (time.Time, bool) {
	d := time.Date(2015, 11, 25, 0, 0, 0, 0, time.UTC)
	if y < firstLunarYear || y > lastLunarYear {
		return d, false
	}
	long := func(y int) int {
		switch {
		case adhikamasa[y]:
			return 384
		case adhikavara[y]:
			return 355
		}
		return 354
	}
	for n := 2016; n < y; n++ {
		d = d.AddDate(0, 0, long(n))
	}
	for n := 2016; n > y; n-- {
		d = d.AddDate(0, 0, -long(n-1))
	}
	return d, true
}

// structured reads and writes the fields of a folded struct by name.
type structured struct {
	st *types.Struct
	v  []*V
}

func asStruct(v *V) *structured {
	if v == nil || v.k != KStruct || v.typ == nil {
		return nil
	}
	st, ok := v.typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(v.args) {
		return nil
	}
	return &structured{st, append([]*V{}, v.args...)}
}
func (s *structured) at(n string) int {
	for i := 0; i < s.st.NumFields(); i++ {
		if s.st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}
func (s *structured) get(n string) *V {
	if i := s.at(n); i >= 0 {
		return s.v[i]
	}
	return Undef
}
func (s *structured) num(n string) int {
	if v := s.get(n); v.isIntConst() && v.poly.c.IsInt64() {
		return int(v.intVal())
	}
	return -1 << 20
}
func (s *structured) set(n string, v *V) {
	if i := s.at(n); i >= 0 {
		s.v[i] = v
	}
}

// lunarCalendar gives the results of the functions of the lunar calendar at
// constants in the years the tables cover.
func lunarCalendar(op string, args []*V, typ types.Type) *V {
	switch op {
	case "fn:CalculatePreviousKattika":
		if len(args) != 1 || !args[0].isIntConst() {
			return nil
		}
		d, ok := kattikaBefore(int(args[0].intVal()))
		if !ok {
			return nil
		}
		return mkTime(nanosOf(d), utcLoc)
	case "fn:UposathaMoon.NextUposatha":
		if len(args) != 1 {
			return nil
		}
		m := asStruct(args[0])
		if m == nil {
			return nil
		}
		return nextMoon(args[0].typ, m)
	}
	return nil
}

func nextMoon(typ types.Type, m *structured) *V {
	date := m.get("Date")
	if date.k != KTime || !date.poly.isConst() || !isUTC(date.loc) {
		return nil
	}
	y := goTime(date.poly).Year()
	if y < firstLunarYear || y > lastLunarYear {
		return nil
	}
	n := &structured{m.st, nil}
	for i := 0; i < m.st.NumFields(); i++ {
		n.v = append(n.v, zeroOf(m.st.Field(i).Type()))
	}
	month := m.num("LunarMonth")
	days := 15
	if m.get("Phase") == Str("new") {
		n.set("Phase", Str("full"))
		n.set("S_Number", Int(int64(m.num("S_Number")+1)))
		for _, f := range []string{"S_Total", "M_Days", "LunarMonth", "LunarSeason", "LunarYear"} {
			n.set(f, m.get(f))
		}
		names := map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
		if adhikamasa[y] {
			names = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
		}
		n.set("Event", Str(names[month]))
	} else {
		n.set("Phase", Str("new"))
		last := month == 12
		switch {
		case month == 13:
			month = 9
		case month == 8 && adhikamasa[y]:
			month = 13
		case month == 12:
			month = 1
		default:
			month++
		}
		mdays := 29 + month%2
		if month == 8 && adhikavara[y] {
			mdays = 30
			n.set("HasAdhikavara", True)
		}
		days = mdays - 15
		total := 8
		if adhikamasa[y] && (month >= 5 && month <= 8 || month == 13) {
			total = 10
		}
		n.set("LunarMonth", Int(int64(month)))
		n.set("M_Days", Int(int64(mdays)))
		n.set("S_Total", Int(int64(total)))
		n.set("LunarSeason", m.get("LunarSeason"))
		n.set("LunarYear", m.get("LunarYear"))
		if m.num("S_Number") < m.num("S_Total") {
			n.set("S_Number", Int(int64(m.num("S_Number")+1)))
		} else {
			n.set("S_Number", Int(1))
			if last {
				n.set("LunarSeason", Int(1))
				n.set("LunarYear", Int(int64(m.num("LunarYear")+1)))
			} else {
				n.set("LunarSeason", Int(int64(m.num("LunarSeason")+1)))
			}
		}
	}
	n.set("U_Days", Int(int64(days)))
	n.set("Date", mkTime(nanosOf(goTime(date.poly).AddDate(0, 0, days)), utcLoc))
	return mkStruct(typ, n.v)
}

// ---------------------------------------------------------------- confirming

// paramRooted holds for the arguments and their parts.
func paramRooted(t *V) bool {
	for {
		if strings.HasPrefix(t.op, ".") && len(t.args) == 1 {
			t = t.args[0]
		} else if t.op == "elem" && len(t.args) == 2 && t.args[1].isIntConst() {
			if t = t.args[0]; t.k == KSeq {
				if len(t.segs) != 1 || t.segs[0].g != True || t.segs[0].base == nil {
					return false
				}
				t = t.segs[0].base
			}
		} else {
			break
		}
	}
	return strings.HasPrefix(t.op, "param:") && len(t.args) == 0 || sortedElement(t)
}

// sortedElement holds for the two elements a sort compares.
func sortedElement(t *V) bool {
	for strings.HasPrefix(t.op, ".") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t.op == "elem" && len(t.args) == 2 && t.args[0].op == "sortarg"
}

func leafName(t *V) string {
	if t.op == "elem" && len(t.args) == 2 {
		if sortedElement(t) {
			return t.args[1].String()
		}
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	}
	if len(t.args) == 1 {
		return leafName(t.args[0]) + t.op
	}
	return t.op
}

func mix(s string, n uint64) uint64 {
	h := n*0x9e3779b97f4a7c15 + 0x2545f4914f6cdd1d
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

// constants to fold at: those the graphs compare with and their neighbours,
// the ends of ranges, and dates at the turns of days, months and years.
type pools struct {
	ints  []*big.Int
	strs  []string
	times []*big.Int
}

func poolsOf(vs ...*V) *pools {
	p := &pools{}
	seenI, seenS := map[string]bool{}, map[string]bool{}
	addI := func(n *big.Int) {
		for _, d := range []int64{0, 1, -1} {
			x := new(big.Int).Add(n, bi(d))
			if k := x.String(); !seenI[k] && len(p.ints) < 200 {
				seenI[k] = true
				p.ints = append(p.ints, x)
			}
		}
	}
	addS := func(s string) {
		if !seenS[s] && len(p.strs) < 100 {
			seenS[s] = true
			p.strs = append(p.strs, s)
		}
	}
	for _, v := range vs {
		subterms(v, func(x *V) {
			if x.k == KNode {
				for _, c := range x.cuts {
					if c.v.IsInt() {
						addI(c.v.Num())
						if x.disc.poly != nil {
							addI(new(big.Int).Sub(c.v.Num(), x.disc.poly.c))
						}
					}
				}
				for _, k := range x.keys {
					addS(k)
				}
			}
			if x.isStrConst() {
				addS(x.s)
			}
			if x.isIntConst() {
				addI(x.poly.c)
			}
		})
	}
	addI(big0)
	for _, n := range []int64{10, 100, 1900, 2000, 2016} {
		addI(bi(n))
	}
	addS("")
	addS("some text")
	for _, y := range []int{1899, 1999, 2000, 2003, 2004, 2015, 2016, 2037} {
		for _, md := range [][2]int{{1, 1}, {1, 2}, {1, 15}, {2, 28}, {3, 1}, {3, 16}, {4, 30}, {6, 1}, {7, 17}, {9, 30}, {10, 1}, {11, 25}, {12, 17}, {12, 30}, {12, 31}} {
			for _, s := range []int{0, 1, 5*3600 + 1800, 12 * 3600, 86399} {
				p.times = append(p.times, nanosOf(time.Date(y, time.Month(md[0]), md[1], 0, 0, s, 0, time.UTC)).c)
			}
		}
	}
	return p
}

// distances in seconds of dates near each other
var nearby = []int64{0, 0, 1, -1, 3600, -3600, 43200, -43200, 86399, -86399, 86400, -86400, 129600, -129600, 172800, -172800, 7 * 86400, 8 * 86400}

func (p *pools) pick(t *V, lo, hi *big.Int, n0 uint64) *V {
	h := mix(leafName(t), n0)
	if isTime(t.typ) {
		n := pConst(p.times[h%uint64(len(p.times))])
		if h>>20&3 != 0 { // dates near each other
			m := mix("near", n0)
			n = pConst(p.times[m%uint64(len(p.times))])
			n = pAdd(n, pScale(pInt(nearby[h>>24%uint64(len(nearby))]), bi(1e9)))
		}
		if sortedElement(t) { // whole days
			n = pScale(pFdiv(n, dayNanos), dayNanos)
		}
		return mkTime(n, utcLoc)
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	if !ok {
		switch t.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			// some value, the same wherever it is read
			return mkOpaque("token:"+leafName(t), t.typ)
		}
		return nil
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(h&1 == 0)
	case b.Info()&types.IsString != 0:
		return Str(p.strs[h%uint64(len(p.strs))])
	case b.Info()&types.IsInteger != 0:
		in := func(x *big.Int) bool {
			return (lo == nil || x.Cmp(lo) >= 0) && (hi == nil || x.Cmp(hi) <= 0)
		}
		if lo != nil && hi != nil && h%3 == 0 {
			w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
			return mkBigInt(new(big.Int).Add(lo, new(big.Int).Mod(new(big.Int).SetUint64(h>>3), w)))
		}
		for i := uint64(0); i < 40; i++ {
			if x := p.ints[mix("", h+i)%uint64(len(p.ints))]; in(x) {
				return mkBigInt(x)
			}
		}
		if lo != nil {
			return mkBigInt(lo)
		}
	}
	return nil
}

// confirmTime is what is left of the time for confirming mismatches.
var confirmTime = 40 * time.Second

// confirm looks for constants at which two values fold to different constants;
// it describes them, or gives up with "".
func confirm(a, b *V) string {
	start := time.Now()
	deadline := start.Add(6 * time.Second)
	if confirmTime <= 0 {
		return ""
	}
	defer func() { confirmTime -= time.Since(start) }()
	// what the graphs depend on
	leaves := map[*V]bool{}
	bounds := map[*V][2]*big.Int{}
	ok, lunar := true, false
	for _, v := range []*V{a, b} {
		subtermsIf(v, func(x *V) bool {
			if x.poly != nil {
				polyAtoms(x.poly, func(at *Atom) {
					if at.v != nil && paramRooted(at.v) {
						bounds[at.v] = [2]*big.Int{at.lo, at.hi}
					}
				})
			}
			if x.disc != nil && x.disc.poly != nil {
				polyAtoms(x.disc.poly, func(at *Atom) {
					if at.v != nil && paramRooted(at.v) {
						bounds[at.v] = [2]*big.Int{at.lo, at.hi}
					}
				})
			}
			if paramRooted(x) {
				leaves[x] = true
				return false
			}
			switch x.op {
			case "fn:CalculatePreviousKattika", "fn:UposathaMoon.NextUposatha":
				lunar = true
				return true
			}
			for _, p := range []string{"fn:", "global:", "before:", "invoke:", "extern:", "env:", "reader:", "file"} {
				if strings.HasPrefix(x.op, p) {
					ok = false
				}
			}
			return true
		})
	}
	if debugFold {
		fmt.Println("FOLD: foldable", ok, len(leaves))
	}
	if !ok {
		return ""
	}
	ps := poolsOf(a, b)
	for n := uint64(0); n < 3000 && time.Now().Before(deadline); n++ {
		f := newFolder()
		f.call, f.round = lunarCalendar, n
		used := map[string]string{}
		f.free = func(t *V) *V {
			if t.typ == nil || !paramRooted(t) {
				return nil
			}
			lo, hi := bounds[t][0], bounds[t][1]
			if lunar && lo != nil && lo.Cmp(bi(firstLunarYear)) < 0 {
				lo = bi(firstLunarYear + 2)
			}
			if lunar && hi != nil && hi.Cmp(bi(lastLunarYear)) > 0 {
				hi = bi(lastLunarYear - 2)
			}
			var v *V
			if lunar && len(leaves) == 1 && lo != nil && hi != nil {
				// every year the tables cover
				x := new(big.Int).Add(lo, new(big.Int).SetUint64(n))
				if x.Cmp(hi) > 0 {
					return nil
				}
				v = mkBigInt(x)
			} else {
				v = ps.pick(t, lo, hi, n)
			}
			if v != nil {
				used[leafName(t)] = v.String()
			}
			return v
		}
		x := f.val(a)
		if debugFold && n < 3 {
			fmt.Println("FOLD:", clip(fmt.Sprint(x), 2000), "FOR", f.val(b) == x, *f.fuel)
		}
		if x == nil {
			continue
		}
		y := f.val(b)
		if y == nil || x == y {
			continue
		}
		at := ""
		for _, k := range sortedKeys(used) {
			at += " " + strings.TrimPrefix(k, "param:") + "=" + clip(used[k], 60)
		}
		return "at" + at + " the graphs fold to " + clip(foldedDiff(x, y), dclip)
	}
	return ""
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func polyAtoms(p *Poly, visit func(*Atom)) {
	for _, m := range p.ms {
		for _, a := range m.as {
			if a.fp != nil {
				polyAtoms(a.fp, visit)
			} else {
				visit(a)
			}
		}
	}
}

// foldedDiff describes where two constants differ.
func foldedDiff(x, y *V) string {
	if x.k == KSeq && y.k == KSeq {
		for i := 0; i < len(x.segs) || i < len(y.segs); i++ {
			switch {
			case i >= len(x.segs):
				return fmt.Sprintf("element %d: missing in the code, %s in the rule", i, dated(y.segs[i].el))
			case i >= len(y.segs):
				return fmt.Sprintf("element %d: %s in the code, missing in the rule", i, dated(x.segs[i].el))
			case x.segs[i].el != y.segs[i].el:
				return fmt.Sprintf("element %d: ", i) + foldedDiff(x.segs[i].el, y.segs[i].el)
			}
		}
	}
	if x.k == y.k && (x.k == KTuple || x.k == KStruct || x.k == KOpaque && x.op == y.op) && len(x.args) == len(y.args) {
		n, at := 0, 0
		for i := range x.args {
			if x.args[i] != y.args[i] {
				n++
				at = i
			}
		}
		if n == 1 {
			if s := asStruct(x); s != nil {
				return s.st.Field(at).Name() + ": " + foldedDiff(x.args[at], y.args[at])
			}
			return foldedDiff(x.args[at], y.args[at])
		}
	}
	return fmt.Sprintf("%s in the code, %s in the rule", dated(x), dated(y))
}

var nanosText = regexp.MustCompile(`time\((-?\d+) ns, loc:UTC\(\)\)`)

// dated writes a constant with its dates in readable form.
func dated(v *V) string {
	return nanosText.ReplaceAllStringFunc(v.String(), func(t string) string {
		n, ok := new(big.Int).SetString(nanosText.FindStringSubmatch(t)[1], 10)
		if !ok {
			return t
		}
		return goTime(pConst(n)).Format(time.RFC3339Nano)
	})
}
