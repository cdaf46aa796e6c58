package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// finding is a place where two terms differ.
type finding struct {
	path    []string
	x, y    *V
	certain bool
}

// differ looks for differences between the value of the code and that of the
// rule that no path condition rules out.
type differ struct {
	budget  int
	fam     [2]map[string]bool // operations used anywhere on either side
	shared  map[*V]bool        // terms that occur on both sides
	famMemo map[*V]map[string]bool
	inMemo  map[*V]map[string]bool
	bndMemo map[*V]map[*V]bool
}

var debugDiff = os.Getenv("SV_DIFF") != ""

// wholeFam holds the operations of all results of the obligation at hand.
var (
	wholeFam   [2]map[string]bool
	wholeTerms [2][]*V
)

func wholeResults(w [2][]*V) {
	wholeTerms = w
	for i := range w {
		wholeFam[i] = map[string]bool{}
		for _, v := range w[i] {
			families(v, wholeFam[i])
		}
	}
}

func newDiffer(a, b *V) *differ {
	d := &differ{budget: 6000, famMemo: map[*V]map[string]bool{}, bndMemo: map[*V]map[*V]bool{}, inMemo: map[*V]map[string]bool{}}
	d.shared = map[*V]bool{}
	one := map[*V]bool{}
	for i, v := range []*V{a, b} {
		d.fam[i] = map[string]bool{}
		for f := range wholeFam[i] {
			d.fam[i][f] = true
		}
		families(v, d.fam[i])
		for _, w := range append([]*V{v}, wholeTerms[i]...) {
			subterms(w, func(x *V) {
				if i == 0 {
					one[x] = true
				} else if one[x] {
					d.shared[x] = true
				}
			})
		}
	}
	return d
}

// families are the operations of the parts of a term that do not occur on
// both sides.
func (df *differ) families(v *V) map[string]bool {
	if m, ok := df.famMemo[v]; ok {
		return m
	}
	m := map[string]bool{}
	subtermsIf(v, func(x *V) bool {
		if df.shared[x] && x.k != KNode {
			return false
		}
		if f := uncertainOp(x.op); f != "" {
			m[f] = true
		}
		return true
	})
	df.famMemo[v] = m
	return m
}

// structural operations only take values apart or read them; computing ones
// may reach the same value in another way.
func structuralOp(f string) bool {
	for _, p := range []string{"fn:", "path:", "env:", "pure:", "extern:"} {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	switch f {
	case "itoa", "elem", "len", "collect", "final", "sum", "sumn", "kexit", "time.Year", "time.Month", "time.Day", "seqstore", "splice", "maplen", "mapget", "haskey", "keyeq":
		return true
	}
	return false
}

// agree tells whether the operations of two terms leave no room for saying
// the same thing differently.
func (df *differ) agree(dv, fx, fy map[string]bool) bool {
	for f := range dv {
		if fx[f] == fy[f] {
			continue
		}
		if structuralOp(f) && df.fam[0][f] && df.fam[1][f] {
			continue
		}
		return false
	}
	return true
}

// sameWords tells whether a condition leaves no room for saying the same thing
// in other operations.
func (df *differ) sameWords(d *Disc, a, b *V) bool {
	dv, fa, fb := df.families(discValue(d)), df.families(a), df.families(b)
	return df.agree(dv, fa, fb) || df.agree(dateFree(dv), fa, fb) && df.plainDates(discValue(d))
}

func discValue(d *Disc) *V {
	if d.poly != nil {
		return mkInt(d.poly)
	}
	return d.v
}

func isBinder(v *V) bool {
	return v.k == KOpaque && (v.op == "collect" || v.op == "final" || v.op == "sum" || v.op == "kexit")
}

// diff finds a difference between a and b on the paths e allows; e0 is the
// part of e that does not speak of bound symbols.
func (df *differ) diff(a, b *V, e, e0 *Env, path []string) *finding {
	if a == b {
		return nil
	}
	df.budget--
	if df.budget < 0 {
		return &finding{path, a, b, false}
	}
	step := func(s string) []string { return append(path[:len(path):len(path)], s) }
	// diagrams: find a region where they differ
	if a.k == KNode || b.k == KNode {
		d := minDisc([]*V{a, b})
		if d == nil {
			return df.leaf(a, b, e, path)
		}
		cuts, keys, m := mergeParts(d, []*V{a, b})
		tmp := &V{k: KNode, disc: d, cuts: cuts, keys: keys, kids: make([]*V, m)}
		// a discriminant that only one side tests and that involves
		// uncertain operations makes the difference uncertain
		ok := df.sameWords(d, a, b) && df.sameLoops(discValue(d), a, b) || yearlessTests(a, b) || stopsEarly(d, a, b)
		closed := levelOf(discValue(d)) == 0
		var best *finding
		for round := 0; round < 2; round++ {
			for j := 0; j < m; j++ {
				p, q := pick(a, d, cuts, keys, j), pick(b, d, cuts, keys, j)
				if p == q || (p.k == KUndef || q.k == KUndef) != (round == 1) {
					continue
				}
				ne, in := tmp.enter(j, e)
				if !in {
					continue
				}
				ne0 := e0
				if closed {
					if ne0, in = tmp.enter(j, e0); !in {
						continue
					}
				}
				f := df.diff(p, q, ne, ne0, step("when "+clip(d.String(), 140)+" "+tmp.region(j)))
				if f == nil {
					continue
				}
				if !ok {
					if debugDiff && f.certain {
						fmt.Println("DIFF: uncertain condition", clip(d.String(), 200), df.sameWords(d, a, b), df.sameLoops(discValue(d), a, b), df.families(discValue(d)))
					}
					f.certain = false
				}
				if best == nil || f.certain {
					best = f
				}
				if f.certain || df.budget < 0 {
					return best
				}
			}
		}
		return best
	}
	if a.op == "list" && b.op == "list" && a.args[0] != b.args[0] {
		f := df.lists(a, b, e, e0, path)
		if f == nil || !f.certain || len(a.args) != len(b.args) {
			return f
		}
		// cutting the lists down must not make a difference more certain
		if g := df.parts(a, b, e, e0, path); g == nil || !g.certain {
			return g
		}
		return f
	}
	return df.parts(a, b, e, e0, path)
}

// lists compares two lists of different lengths case by case.
func (df *differ) lists(a, b *V, e, e0 *Env, path []string) *finding {
	x, y := pruneList(a, e), pruneList(b, e)
	if x == y {
		return nil
	}
	if d := minDisc([]*V{x.args[0], y.args[0]}); d != nil {
		cuts, keys, m := mergeParts(d, []*V{x.args[0], y.args[0]})
		p := &V{k: KNode, disc: d, cuts: cuts, keys: keys, kids: make([]*V, m)}
		q := &V{k: KNode, disc: d, cuts: cuts, keys: keys, kids: make([]*V, m)}
		for j := 0; j < m; j++ {
			p.kids[j], q.kids[j] = x, y
			if ne, in := p.enter(j, e); in {
				p.kids[j], q.kids[j] = pruneList(x, ne), pruneList(y, ne)
			}
		}
		return df.diff(p, q, e, e0, path)
	}
	if x != a || y != b {
		return df.diff(x, y, e, e0, path)
	}
	return df.parts(x, y, e, e0, path)
}

// parts compares two terms part by part.
func (df *differ) parts(a, b *V, e, e0 *Env, path []string) *finding {
	step := func(s string) []string { return append(path[:len(path):len(path)], s) }
	if a.k == b.k && a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 && (a.k == KStruct || a.k == KTuple || a.k == KOpaque || a.k == KStr || a.k == KFlt || a.k == KMap || a.k == KIface && types.Identical(a.typ, b.typ)) {
		bind := isBinder(a)
		if bind && (a.args[0] != b.args[0] || a.args[1] != b.args[1]) {
			return df.leaf(a, b, e, path)
		}
		nvars := big0
		if bind {
			nvars = a.args[1].poly.c
			e = e0
		}
		if bind && a.args[0].s == "count" && a.args[2] != b.args[2] {
			if f := df.trips(a, b, e, e0, path); f != nil {
				return f
			}
		}
		if a.op == "sorted" && a.args[0] == b.args[0] {
			if w := confirm(a.args[1], b.args[1]); w != "" {
				return &finding{step("order of two elements: " + w), a.args[1], b.args[1], true}
			}
		}
		var best *finding
		var all []*finding
		var at []int
		for i := range a.args {
			if a.args[i] == b.args[i] {
				continue
			}
			nm := fmt.Sprintf("%s[%d]", a.op, i)
			if a.k == KStruct && a.typ != nil {
				if st, ok := a.typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
					nm = "." + st.Field(i).Name()
				}
			}
			f := df.diff(a.args[i], b.args[i], e, e0, step(nm))
			if f == nil {
				continue
			}
			all, at = append(all, f), append(at, i)
			if best == nil || f.certain && !best.certain {
				best = f
			}
			if df.budget < 0 || f.certain && nvars.Sign() == 0 {
				return best
			}
		}
		// the variables of a loop may be kept differently: a change of the
		// way they are kept shows in where they start or in the condition
		if len(all) > 1 && nvars.Sign() > 0 {
			nv := int(nvars.Int64())
			for k, f := range all {
				if f.x == best.x && f.y == best.y {
					continue
				}
				if !f.certain || at[k] == 2 || at[k] >= len(a.args)-nv {
					if debugDiff && best.certain {
						fmt.Println("DIFF: several parts of a loop differ", at, f.certain, f.path)
					}
					best.certain = false
				}
			}
		}
		return best
	}
	if a.k == KSeq && b.k == KSeq {
		if a, b = squeeze(a, e), squeeze(b, e); a == b {
			return nil
		}
	}
	if a.k == KSeq && b.k == KSeq && len(a.segs) == len(b.segs) {
		var best *finding
		for i := range a.segs {
			sa, sb := a.segs[i], b.segs[i]
			if sa == sb {
				continue
			}
			p := step(fmt.Sprintf("part %d", i))
			var fs []*finding
			fs = append(fs, df.diff(sa.g, sb.g, e, e0, p))
			switch {
			case sa.el != nil && sb.el != nil:
				fs = append(fs, df.diff(sa.el, sb.el, e, e0, p))
			case sa.base != nil && sb.base != nil:
				fs = append(fs, df.diff(sa.base, sb.base, e, e0, p))
			default:
				fs = append(fs, &finding{p, a, b, false})
			}
			for _, f := range fs {
				if f != nil && (best == nil || f.certain && !best.certain) {
					best = f
				}
			}
			if best != nil && best.certain {
				return best
			}
		}
		return best
	}
	if a.k == KTime && b.k == KTime && a.loc == b.loc {
		return df.diff(mkInt(a.poly), mkInt(b.poly), e, e0, path)
	}
	// polynomials that differ in one atom
	if (a.k == KInt && b.k == KInt || a.k == KFlt && b.k == KFlt && a.den != nil && b.den != nil && a.den.Cmp(b.den) == 0) && a.poly != nil && b.poly != nil {
		if p, q := oneFloor(pSub(a.poly, b.poly)); p != nil {
			return df.diff(p, q, e, e0, step("in floor"))
		}
		if p, q := oneAtom(pSub(a.poly, b.poly)); p != nil {
			return df.diff(p, q, e, e0, step("in "+p.op))
		}
		if a.k == KInt {
			lo, hi := e.polyBounds(pSub(a.poly, b.poly))
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return nil
			}
		}
	}
	return df.leaf(a, b, e, path)
}

// trips compares two loops that run different numbers of times on the rounds
// both make; it finds nothing if they differ in more than that number.
func (df *differ) trips(a, b *V, e, e0 *Env, path []string) *finding {
	na, nb := a.args[2], b.args[2]
	f := df.diff(na, nb, e, e0, append(path[:len(path):len(path)], "rounds of "+a.op))
	if f == nil || !f.certain {
		return nil
	}
	nv := int(a.args[1].poly.c.Int64())
	if len(a.args)-nv < 3 {
		return nil
	}
	lvl := 0
	for _, t := range [][]*V{a.args, b.args} {
		for _, x := range t[3 : len(t)-nv] {
			if n := levelOf(x); n > lvl {
				lvl = n
			}
		}
	}
	k := mkInt(vAtom(mkOpaque(fmt.Sprintf("bnd:%d.k", lvl), nil), big0, nil))
	in := And(ICmp("<", k, na), ICmp("<", k, nb))
	same, some := true, false
	walk(in, e, func(l *V, e1 *Env) {
		if l != True || !same {
			return
		}
		some = true
		for i := 3; i < len(a.args); i++ {
			if a.args[i] != b.args[i] && df.diff(a.args[i], b.args[i], e1, e0, path) != nil {
				same = false
			}
		}
	})
	if !same || !some {
		return nil
	}
	// the rounds only one of them makes do something
	acts := false
	for _, t := range []*V{a, b} {
		walk(And(ICmp("<", k, t.args[2]), Not(in)), e, func(l *V, e1 *Env) {
			if l != True || acts {
				return
			}
			for _, x := range t.args[3 : len(t.args)-nv] {
				if x.k == KSeq && len(squeeze(x, e1).segs) == 0 {
					continue
				}
				acts = true
			}
		})
	}
	if !acts {
		return nil
	}
	return f
}

// binders are the loop terms inside v.
func (df *differ) binders(v *V) map[*V]bool {
	if m, ok := df.bndMemo[v]; ok {
		return m
	}
	m := map[*V]bool{}
	subterms(v, func(x *V) {
		if isBinder(x) {
			m[x] = true
		}
	})
	df.bndMemo[v] = m
	return m
}

// sameLoops: a loop term of a condition that occurs on one side only must
// certainly differ from one of the other side.
func (df *differ) sameLoops(d, a, b *V) bool {
	ba, bb := df.binders(a), df.binders(b)
	for t := range df.binders(d) {
		if df.shared[t] || ba[t] && bb[t] {
			continue
		}
		other := bb
		if !ba[t] {
			other = ba
		}
		found := false
		for u := range other {
			if u.op != t.op || len(u.args) != len(t.args) {
				continue
			}
			if df.shared[u] || ba[u] && bb[u] {
				continue
			}
			x, y := t, u
			if !ba[t] {
				x, y = u, t
			}
			if f := df.diff(x, y, newEnv(), newEnv(), nil); f != nil && f.certain {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// squeeze drops the parts of a list that the path rules out.
func squeeze(v *V, e *Env) *V {
	var out []Seg
	for _, s := range v.segs {
		yes, no := false, false
		walk(s.g, e, func(l *V, _ *Env) {
			if l == True {
				yes = true
			} else {
				no = true
			}
		})
		if !yes {
			continue
		}
		if !no {
			s.g = True
		}
		if s.base != nil && len(e.in) > 0 {
			if n := seqLen(mkSeq([]Seg{{g: True, base: s.base}})); n.k == KInt {
				if _, hi := e.polyBounds(n.poly); hi != nil && hi.Sign() <= 0 {
					continue
				}
			}
		}
		out = append(out, s)
	}
	return mkSeq(out)
}

// pruneList drops from a canonical list what the path rules out.
func pruneList(l *V, e *Env) *V {
	args := make([]*V, len(l.args))
	for i, x := range l.args {
		args[i] = pruneParts(prune(x, e), e)
	}
	if args[0] == Int(int64(len(args)-1)) {
		out := args[:1:1]
		for _, x := range args[1:] {
			if x.op == "splice" && len(e.in) > 0 {
				if n := seqLen(mkSeq([]Seg{{g: True, base: x.args[0]}})); n.k == KInt {
					if _, hi := e.polyBounds(n.poly); hi != nil && hi.Sign() <= 0 {
						continue
					}
				}
			}
			out = append(out, x)
		}
		args = out
		args[0] = Int(int64(len(args) - 1))
	}
	return mkList(args)
}

// pruneParts drops what the path rules out of the parts of a structure.
func pruneParts(v *V, e *Env) *V {
	if v.k != KStruct && v.k != KTuple || len(v.args) == 0 {
		return v
	}
	fs := make([]*V, len(v.args))
	for i, x := range v.args {
		fs[i] = pruneParts(prune(x, e), e)
	}
	if v.k == KTuple {
		return mkTuple(fs...)
	}
	return mkStruct(v.typ, fs)
}

// leaf judges a difference that cannot be narrowed further.
func (df *differ) leaf(a, b *V, e *Env, path []string) *finding {
	f := df.leaf1(a, b, e, path)
	if f != nil && f.certain && unknownOps(a) != unknownOps(b) {
		f.certain = false
	}
	if f != nil && !f.certain && (cutShort(a, b) || cutShort(b, a) || textCut(a, b) || textCut(b, a)) {
		f.certain = true
	}
	if f != nil && !f.certain && (madeAnew(a) && repeatable(b) || madeAnew(b) && repeatable(a)) {
		f.certain = true
	}
	return f
}

// cutShort tells whether x is the list y with elements cut away in some case
// that depends on the length of the list alone.
func cutShort(x, y *V) bool {
	bare := func(v *V) *V {
		for v.op == "splice" && len(v.args) == 1 || v.k == KSeq && len(v.segs) == 1 && v.segs[0].g == True && v.segs[0].base != nil {
			if v.k == KSeq {
				v = v.segs[0].base
			} else {
				v = v.args[0]
			}
		}
		return v
	}
	y = bare(y)
	if x.op == "list" && len(x.args) == 2 && x.args[0] == Int(1) {
		x = x.args[1]
	}
	if y.k != KOpaque {
		return false
	}
	onLength, cut := true, false
	walk(x, newEnv(), func(l *V, e *Env) {
		l = bare(l)
		if l.op != "subseq" || len(l.args) != 3 || bare(l.args[0]) != y {
			return
		}
		if lo := l.args[1]; lo.isIntConst() && lo != Int(0) {
			cut = true
		}
		if hi := l.args[2]; hi.isIntConst() && hi != Int(-1) {
			if _, up := e.polyBounds(seqLen(mkSeq([]Seg{{g: True, base: y}})).poly); up == nil || up.Cmp(hi.poly.c) > 0 {
				cut = true
			}
		}
	})
	// sorting keeps the length
	src := y
	for src.op == "sorted" && len(src.args) > 0 {
		src = bare(src.args[0])
	}
	for _, d := range discsOf(x) {
		p := soleAtom(discValue(d))
		if d.poly == nil || p == nil || p.op != "len" || bare(p.args[0]) != y && bare(p.args[0]) != src {
			if debugDiff {
				fmt.Println("DIFF: cut on", clip(discValue(d).String(), 300))
			}
			onLength = false
		}
	}
	return cut && onLength
}

// textCut tells whether x is the text y without its first or last bytes.
func textCut(x, y *V) bool {
	var src, n, lo, hi *V
	switch {
	case x.op == "substr" && len(x.args) >= 2:
		src, lo = x.args[0], x.args[1]
		n = StrLen(src)
		if len(x.args) > 2 {
			hi = x.args[2]
		}
	case x.op == "bytes" && len(x.args) == 1:
		s := x.args[0]
		if s.k == KSeq && len(s.segs) == 1 && s.segs[0].g == True && s.segs[0].base != nil {
			s = s.segs[0].base
		}
		if s.op != "subseq" || len(s.args) != 3 {
			return false
		}
		src, lo, hi = s.args[0], s.args[1], s.args[2]
		if hi == Int(-1) {
			hi = nil
		}
		n = seqLen(src)
		if src.k == KSeq && len(src.segs) == 1 && src.segs[0].g == True && src.segs[0].base != nil {
			src = src.segs[0].base
		}
		if src.op == "strbytes" {
			src = src.args[0]
		}
	}
	if src == nil || src != y {
		return false
	}
	if lo.isIntConst() && lo.poly.c.Sign() > 0 {
		return true
	}
	if hi != nil {
		if d := ISub(hi, n); d.isIntConst() && d.poly.c.Sign() < 0 {
			return true
		}
	}
	return false
}

// madeAnew holds for identifiers drawn when they are needed.
func madeAnew(v *V) bool { return v.op == "uuid4" || v.op == "uuidstr" && madeAnew(v.args[0]) }

// repeatable holds for values that constants and arguments alone determine.
func repeatable(v *V) bool {
	ok := true
	subterms(v, func(x *V) {
		switch {
		case x.op == "uuid4" || x.op == "uuid1" || x.op == "uuid4:init":
			ok = false
		case strings.HasPrefix(x.op, "extern:github.com/satori/go.uuid.N") && len(x.args) == 0: // Nil, the name spaces
		case isLoopTerm(x):
		default:
			for _, p := range []string{"extern:", "env:", "fn:", "call:", "global:", "before:", "invoke:", "pure:", "reader:", "file", "rec:", "new", "fresh"} {
				if strings.HasPrefix(x.op, p) {
					ok = false
				}
			}
		}
	})
	return ok
}

// unknownOps names the functions of unknown effect a value is made with.
func unknownOps(v *V) string {
	m := map[string]bool{}
	subterms(v, func(x *V) {
		if strings.HasPrefix(x.op, "extern:") {
			m[x.op] = true
		}
	})
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (df *differ) leaf1(a, b *V, e *Env, path []string) *finding {
	f := &finding{path, a, b, false}
	for _, w := range [][2]*V{{a, b}, {b, a}} {
		if w[0].isStrConst() && w[1].k == KStr {
			if k, ok := e.en[getDisc('s', nil, w[1])]; ok && k == w[0].s {
				return nil
			}
		}
	}
	if a.k == KFlt && b.k == KFlt && a.op == "rat" && b.op == "rat" {
		if d := FBin("-", a, b); d.k == KFlt && d.op == "rat" {
			if r := d.poly.rbounds(e); r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
				return nil
			}
		}
	}
	if (a.k == KUndef) != (b.k == KUndef) {
		return f
	}
	if x, y := unloop(a, e), unloop(b, e); x != a || y != b {
		return df.diff(x, y, e, e, path)
	}
	if isLiteral(a) && isLiteral(b) {
		f.certain = true
		return f
	}
	fa, fb := df.families(a), df.families(b)
	if df.agree(fa, fa, fb) && df.agree(fb, fa, fb) {
		f.certain = true
		return f
	}
	// dates put together directly from constants and date parts
	if df.agree(dateFree(fa), fa, fb) && df.agree(dateFree(fb), fa, fb) && df.plainDates(a) && df.plainDates(b) {
		f.certain = true
		return f
	}
	// a term without the operation its counterpart applies to the same
	for _, w := range [][2]*V{{a, b}, {b, a}} {
		if w[0].op == "sorted" && w[1].op == "missorted" {
			f.certain = true
			return f
		}
		if w[0].op == "sorted" && len(w[0].args) > 0 {
			o := w[0].args[0]
			if o == w[1] || o.k == KSeq && len(o.segs) == 1 && o.segs[0].base == w[1] && o.segs[0].g == True {
				f.certain = true
			}
		}
	}
	// a date read in parts that do not tell the year
	for _, w := range [][2]*V{{a, b}, {b, a}} {
		if yearless(w[0]) && !yearless(w[1]) && df.sameFn(a, b) {
			f.certain = true
			return f
		}
		// a text changed by a function that leaves few texts alone
		switch w[0].op {
		case "call:strings.TrimSpace", "call:strings.ToLower", "call:strings.ToUpper", "call:strings.Title":
			if len(w[0].args) == 1 && w[0].args[0] == w[1] && w[1].op == "sval" && strings.HasPrefix(w[1].args[0].op, ".") {
				f.certain = true
				return f
			}
		case "call:strings.TrimSuffix", "call:strings.TrimPrefix", "call:strings.Trim", "call:strings.TrimRight", "call:strings.TrimLeft", "call:strings.ReplaceAll":
			// a given text may well have what is taken away
			if w[0].args[0] == w[1] && w[1].op == "sval" && strings.HasPrefix(w[1].args[0].op, ".") && w[0].args[1].isStrConst() && w[0].args[1].s != "" && (len(w[0].args) < 3 || w[0].args[2].isStrConst() && w[0].args[2] != w[0].args[1]) {
				f.certain = true
				return f
			}
		}
	}
	for _, w := range [][2]*V{{a, b}, {b, a}} {
		// a number padded to a width it need not have
		if n := padWidth(w[0]); n > 0 && w[1].op == "itoa" && w[0].args[0] == w[1].args[0] && w[0].args[0].k == KInt {
			if lo, hi := e.polyBounds(w[0].args[0].poly); !widthReached(lo, hi, n) {
				f.certain = true
				return f
			}
		}
		// a text used as a format
		if w[0].op == "sprintf" && len(w[0].args) == 1 && w[0].args[0] == w[1] {
			f.certain = true
			return f
		}
		// what was read, changed as if it were a path
		if x, y := plainText(w[0]), plainText(w[1]); strings.HasPrefix(x.op, "path:") && len(x.args) == 1 && plainText(x.args[0]) == y {
			read := false
			subterms(y, func(x *V) {
				if strings.HasPrefix(x.op, "reader:") || strings.HasPrefix(x.op, "readall") {
					read = true
				}
			})
			if read {
				f.certain = true
				return f
			}
		}
	}
	// the year of the week for the year of the date
	for _, w := range [][2]*V{{a, b}, {b, a}} {
		if x, y := soleAtom(w[0]), soleAtom(w[1]); x != nil && y != nil && x.op == "time.ISOYear" && y.op == "time.Year" {
			f.certain = true
			return f
		}
	}
	// a text that shows a formatting mistake
	if a.k == KStr && b.k == KStr && misformatted(a) != misformatted(b) {
		f.certain = true
		return f
	}
	// a term that reads other things than its counterpart
	ia, ib := df.inputs(a), df.inputs(b)
	for _, w := range [][2]map[string]bool{{ia, ib}, {ib, ia}} {
		for i := range w[0] {
			if !w[1][i] {
				f.certain = true
			}
		}
	}
	return f
}

// plainText takes away conversions between bytes and text.
func plainText(v *V) *V {
	for (v.op == "strbytes" || v.op == "bytes") && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

// padWidth is the width to which a number is padded, 0 if the term is another.
func padWidth(v *V) int {
	w, ok := strings.CutPrefix(v.op, "fmt:%")
	if !ok || len(v.args) != 1 {
		return 0
	}
	w, ok = strings.CutSuffix(w, "d")
	n, err := strconv.Atoi(w)
	if !ok || err != nil || n < 1 || n > 18 {
		return 0
	}
	return n
}

// widthReached tells whether every number in the range has at least n characters.
func widthReached(lo, hi *big.Int, n int) bool {
	top := new(big.Int).Exp(bi(10), bi(int64(n-1)), nil)
	if lo != nil && lo.Cmp(top) >= 0 {
		return true
	}
	neg := bi(0)
	if n > 1 {
		neg = new(big.Int).Exp(bi(10), bi(int64(n-2)), nil)
	}
	return n == 1 || hi != nil && hi.Cmp(neg.Neg(neg)) <= 0 && n > 2
}

// misformatted tells whether a text holds the mark package fmt leaves.
func misformatted(v *V) bool {
	bad := false
	subterms(v, func(x *V) {
		if x.isStrConst() && strings.Contains(x.s, "%!") {
			bad = true
		}
	})
	return bad
}

// lostInputs names an input of the rule that the code, which otherwise says
// what it says in the words of the rule and decides on nothing the rule does
// not decide on, does not read.
func lostInputs() string {
	df := &differ{inMemo: map[*V]map[string]bool{}}
	var in, ops, on [2]map[string]bool
	for i := range wholeTerms {
		in[i], ops[i], on[i] = map[string]bool{}, map[string]bool{}, map[string]bool{}
		for _, v := range wholeTerms[i] {
			for n := range df.inputs(v) {
				in[i][n] = true
			}
			subterms(v, func(x *V) {
				if x.k == KNode {
					subterms(discValue(x.disc), func(y *V) {
						if !isLiteral(y) && !strings.HasPrefix(y.op, "loc:") {
							on[i][fmt.Sprint(y.k, y.op)] = true
						}
					})
				} else if !isLiteral(x) && !strings.HasPrefix(x.op, "loc:") {
					ops[i][fmt.Sprint(x.k, x.op)] = true
				}
			})
		}
	}
	for i := 0; i < 3; i++ {
		for n := range [][2]map[string]bool{in, ops, on}[i][0] {
			if ![][2]map[string]bool{in, ops, on}[i][1][n] {
				return ""
			}
		}
	}
	lost := ""
	for n := range in[1] {
		if !in[0][n] && (lost == "" || n < lost) {
			lost = n
		}
	}
	return lost
}

// isLiteral holds for constants.
func isLiteral(v *V) bool {
	switch v.k {
	case KInt:
		return v.poly.isConst()
	case KFlt:
		return v.op == "rat" && v.poly.isConst()
	case KStr:
		return v.op == "const"
	case KBool, KNil:
		return true
	case KStruct, KTuple:
		for _, a := range v.args {
			if !isLiteral(a) {
				return false
			}
		}
		return true
	case KTime:
		return v.poly.isConst()
	}
	return false
}

// unloop is the value of a loop that the path keeps from running.
func unloop(v *V, e *Env) *V {
	if !isBinder(v) || v.op != "collect" && v.op != "final" || v.args[0].s != "count" {
		return v
	}
	idle := true
	walk(v.args[2], e, func(n *V, e *Env) {
		if n.k != KInt {
			idle = false
			return
		}
		if _, hi := e.polyBounds(n.poly); hi == nil || hi.Sign() > 0 {
			idle = false
		}
	})
	if !idle {
		return v
	}
	if v.op == "collect" {
		return mkSeq(nil)
	}
	return v
}

// inputs are the parts of the arguments, the package variables and the results
// of other functions a value reads.
func (df *differ) inputs(v *V) map[string]bool {
	if m, ok := df.inMemo[v]; ok {
		return m
	}
	m := map[string]bool{}
	subterms(v, func(x *V) {
		for _, p := range []string{"param:", ".", "fn:", "global:", "invoke:"} {
			if strings.HasPrefix(x.op, p) {
				m[x.op] = true
			}
		}
	})
	df.inMemo[v] = m
	return m
}

// dateFree leaves out the operations plainDates looks at.
func dateFree(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for f := range m {
		switch f {
		case "time.Date", "dateday", "adddate", "daystart", "time.Year", "time.Month", "time.Day":
		default:
			r[f] = true
		}
	}
	return r
}

// plainDates holds if the dates in v are made from constants and parts of
// other dates in one step, in an order that is not that of a date.
func (df *differ) plainDates(v *V) bool {
	ok := true
	simple := func(x *V) bool {
		if x.isIntConst() {
			return true
		}
		p := soleAtom(x)
		return p != nil && (p.op == "time.Year" || p.op == "time.Month" || p.op == "time.Day")
	}
	subtermsIf(v, func(x *V) bool {
		if df.shared[x] && x.k != KNode {
			return false
		}
		switch x.op {
		case "time.Year", "time.Month", "time.Day":
			ok = false
		case "time.Date", "dateday":
			n := len(x.args)
			if x.op == "time.Date" {
				n-- // the location
			}
			for _, a := range x.args[:n] {
				if !simple(a) {
					ok = false
				}
			}
			if y := soleAtom(x.args[0]); ok && x.op == "dateday" && y != nil && y.op == "time.Year" {
				// the day of the same date added later
				subterms(v, func(d *V) {
					if d.op == "time.Day" && d.args[0] == y.args[0] {
						ok = false
					}
				})
			}
			return false
		case "adddate":
			for _, a := range x.args[2:] {
				if !a.isIntConst() {
					ok = false
				}
			}
			if x.args[2] == Int(0) && x.args[3] == Int(0) {
				ok = false
			}
			return false
		}
		return true
	})
	return ok
}

// oneFloor splits c*floor(p/m) - c*floor(q/m) into p and q.
func oneFloor(d *Poly) (*V, *V) {
	if len(d.ms) != 2 || d.c.Sign() != 0 || new(big.Int).Add(d.ms[0].c, d.ms[1].c).Sign() != 0 {
		return nil, nil
	}
	x, y := d.ms[0], d.ms[1]
	if len(x.as) != 1 || len(y.as) != 1 || x.as[0].fp == nil || y.as[0].fp == nil || x.as[0].fm.Cmp(y.as[0].fm) != 0 {
		return nil, nil
	}
	return mkInt(x.as[0].fp), mkInt(y.as[0].fp)
}

// yearless holds for terms that read dates only in parts which do not tell the
// year.
func yearless(v *V) bool {
	part, whole := false, false
	subtermsIf(v, func(x *V) bool {
		switch x.op {
		case "time.YearDay", "time.ISOWeek", "time.Month", "time.Day", "time.Weekday", "time.Hour":
			part = true
			return false
		case "nanos", "time.Year", "dateday", "time.Date", "adddate", "daystart":
			whole = true
		}
		return true
	})
	return part && !whole
}

// stopsEarly tells whether a condition is that a loop over a list stops at an
// element for its texts, which no order of the elements justifies, where the
// other value goes on.
func stopsEarly(d *Disc, a, b *V) bool {
	if d.poly == nil || len(d.poly.ms) != 2 {
		return false
	}
	var exit, list *V
	for _, m := range d.poly.ms {
		if len(m.as) == 1 && m.as[0].v != nil {
			switch v := m.as[0].v; v.op {
			case "kexit":
				exit = v
			case "len":
				list = v
			}
		}
	}
	if exit == nil || list == nil || len(exit.args) != 3 {
		return false
	}
	for _, v := range []*V{a, b} {
		stops := false
		subterms(v, func(x *V) {
			if x.op == "kexit" {
				stops = true
			}
		})
		if !stops {
			ok, n := true, 0
			subterms(exit.args[2], func(x *V) {
				if x.k == KNode {
					switch y := discValue(x.disc); {
					case y.k == KStr:
						n++
					case y.k == KInt:
						// the end of the list, and whether an element has any
						subterms(y, func(z *V) {
							if z.op != "" && z.op != "len" && z.op != "elem" && !strings.HasPrefix(z.op, ".") && !strings.HasPrefix(z.op, "param:") && !strings.HasPrefix(z.op, "bnd:") {
								ok = false
							}
						})
					default:
						ok = false
					}
				}
			})
			return ok && n > 0
		}
	}
	return false
}

// yearlessTests tells whether one of two values decides, where the other does
// on dates as a whole, on nothing but parts of dates that do not tell the year.
func yearlessTests(a, b *V) bool {
	var on [2]map[*V]bool
	for i, v := range []*V{a, b} {
		on[i] = map[*V]bool{}
		subtermsIf(v, func(x *V) bool {
			if x.k == KNode {
				on[i][discValue(x.disc)] = true
			}
			return true
		})
	}
	for i := range on {
		part, whole, other := 0, 0, 0
		for x := range on[i] {
			if !on[1-i][x] {
				part++
				if !yearless(x) {
					other++
				}
			}
		}
		for x := range on[1-i] {
			if !on[i][x] && !yearless(x) {
				subterms(x, func(y *V) {
					if y.op == "nanos" {
						whole++
					}
				})
			}
		}
		if part > 0 && other == 0 && whole > 0 {
			return true
		}
	}
	return false
}

// sameFn: the results of the same functions are read on both sides.
func (df *differ) sameFn(a, b *V) bool {
	ia, ib := df.inputs(a), df.inputs(b)
	for i := range ia {
		if strings.HasPrefix(i, "fn:") && !ib[i] {
			return false
		}
	}
	return true
}
