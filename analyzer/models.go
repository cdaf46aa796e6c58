package main

// Models of library functions.

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"io"
	"math"
	"math/big"
	"path"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- time

const (
	minYear = 600
	maxYear = 10500
)

func goTime(p *Poly) time.Time {
	ns := new(big.Int).Set(p.c)
	s, n := new(big.Int).DivMod(ns, bi(1000000000), new(big.Int))
	return time.Unix(s.Int64(), n.Int64()).UTC()
}

func isUTC(loc *V) bool { return loc == utcLoc }

func nanosOf(t time.Time) *Poly {
	s := new(big.Int).Mul(bi(t.Unix()), bi(1000000000))
	return pConst(s.Add(s, bi(int64(t.Nanosecond()))))
}

// civil gives the argument terms that identify the civil day of a time.
func civilArgs(nanos *Poly, loc *V) []*V {
	if isUTC(loc) {
		return []*V{mkInt(pFdiv(nanos, dayNanos)), loc}
	}
	return []*V{mkInt(nanos), loc}
}

// timePart is a calendar field of a time. n may be nanos (from a time) or the
// already normalised argument (when rebuilt by a substitution).
func timePart(op string, n, loc *V) *V {
	if n.k != KInt {
		return Undef
	}
	if isUTC(loc) && n.poly.isConst() {
		t := time.Unix(0, 0).UTC().AddDate(0, 0, int(n.poly.c.Int64()))
		switch op {
		case "time.Year":
			return Int(int64(t.Year()))
		case "time.Month":
			return Int(int64(t.Month()))
		case "time.Day":
			return Int(int64(t.Day()))
		case "time.YearDay":
			return Int(int64(t.YearDay()))
		case "time.ISOYear":
			y, _ := t.ISOWeek()
			return Int(int64(y))
		case "time.ISOWeek":
			_, w := t.ISOWeek()
			return Int(int64(w))
		}
	}
	var lo, hi int64
	switch op {
	case "time.Year", "time.ISOYear":
		lo, hi = minYear, maxYear
	case "time.ISOWeek":
		lo, hi = 1, 53
	case "time.Month":
		lo, hi = 1, 12
	case "time.Day":
		lo, hi = 1, 31
	case "time.YearDay":
		lo, hi = 1, 366
	}
	return mkInt(vAtom(mkOpaque(op, types.Typ[types.Int], n, loc), bi(lo), bi(hi)))
}

func timeField(op string, t *V) *V {
	return lift("tf:"+op, func(x []*V) *V {
		if x[0].k != KTime {
			return Undef
		}
		a := civilArgs(x[0].poly, x[0].loc)
		return timePart(op, a[0], a[1])
	}, t)
}

func clockField(op string, t *V) *V {
	return lift("tc:"+op, func(x []*V) *V {
		if x[0].k != KTime {
			return Undef
		}
		p, loc := x[0].poly, x[0].loc
		var div, mod int64
		switch op {
		case "Hour":
			div, mod = 3600e9, 24
		case "Minute":
			div, mod = 60e9, 60
		case "Second":
			div, mod = 1e9, 60
		case "Nanosecond":
			div, mod = 1, 1e9
		}
		if isUTC(loc) || op == "Nanosecond" || op == "Second" {
			return IMod(mkInt(pFdiv(p, bi(div))), mod)
		}
		return mkInt(vAtom(mkOpaque("time."+op, types.Typ[types.Int], mkInt(p), loc), big0, bi(mod-1)))
	}, t)
}

// dateOf models time.Date.
func dateOf(args []*V) *V {
	return lift("time.Date", func(x []*V) *V {
		for i := 0; i < 7; i++ {
			if x[i].k != KInt {
				return Undef
			}
		}
		loc := x[7]
		allc := true
		for i := 0; i < 7; i++ {
			if !x[i].isIntConst() {
				allc = false
			}
		}
		// offset of the clock fields (constant wall clock arithmetic, exact in UTC)
		clock := IAdd(IAdd(IMul(x[3], Int(3600e9)), IMul(x[4], Int(60e9))), IAdd(IMul(x[5], Int(1e9)), x[6]))
		if allc && isUTC(loc) {
			t := time.Date(int(x[0].intVal()), time.Month(x[1].intVal()), int(x[2].intVal()), 0, 0, 0, 0, time.UTC)
			return mkTime(pAdd(nanosOf(t), clock.poly), loc)
		}
		// the date of another time
		if y := soleAtom(x[0]); y != nil && y.op == "time.Year" {
			m := soleAtom(x[1])
			d, off := atomPlusConst(x[2])
			if m != nil && d != nil && m.op == "time.Month" && d.op == "time.Day" && m.args[0] == y.args[0] && m.args[1] == y.args[1] && d.args[0] == y.args[0] && d.args[1] == y.args[1] {
				tl := y.args[1]
				if isUTC(tl) && isUTC(loc) {
					return mkTime(pAdd(pScale(pAdd(y.args[0].poly, pConst(off)), dayNanos), clock.poly), loc)
				}
				if tl == loc && off.Sign() == 0 && clock == Int(0) {
					return mkTime(vAtom(mkOpaque("daystart", nil, y.args[0], loc), nil, nil), loc)
				}
			}
		}
		if isUTC(loc) {
			base := mkInt(vAtom(mkOpaque("dateday", nil, x[0], x[1]), nil, nil))
			return mkTime(pAdd(pScale(pAdd(base.poly, x[2].poly), dayNanos), clock.poly), loc)
		}
		return mkTime(vAtom(mkOpaque("time.Date", nil, x...), nil, nil), loc)
	}, args...)
}

// soleAtom gives the opaque term of a polynomial that is a single variable.
func soleAtom(v *V) *V {
	a, c := atomPlusConst(v)
	if a == nil || c.Sign() != 0 {
		return nil
	}
	return a
}
func atomPlusConst(v *V) (*V, *big.Int) {
	if v.k != KInt || len(v.poly.ms) != 1 {
		return nil, nil
	}
	m := v.poly.ms[0]
	if len(m.as) != 1 || m.c.Cmp(big1) != 0 || m.as[0].v == nil {
		return nil, nil
	}
	return m.as[0].v, v.poly.c
}

func timeAdd(t, d *V) *V { return mkTimeV(IAdd(timeNanos(t), d), timeLoc(t)) }

func addDate(t, y, m, d *V) *V {
	return lift("adddate", func(x []*V) *V {
		t, y, m, d := x[0], x[1], x[2], x[3]
		if t.k != KTime {
			return Undef
		}
		if isUTC(t.loc) {
			if y == Int(0) && m == Int(0) {
				return mkTime(pAdd(t.poly, pScale(d.poly, dayNanos)), t.loc)
			}
			if t.poly.isConst() && y.isIntConst() && m.isIntConst() && d.isIntConst() {
				return mkTime(nanosOf(goTime(t.poly).AddDate(int(y.intVal()), int(m.intVal()), int(d.intVal()))), t.loc)
			}
		}
		if y == Int(0) && m == Int(0) && d == Int(0) {
			return t
		}
		return mkTime(vAtom(mkOpaque("adddate", nil, mkInt(t.poly), t.loc, y, m, d), nil, nil), t.loc)
	}, t, y, m, d)
}

func dateOnlyLayout(l string) bool {
	a := time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
	b := time.Date(2001, 2, 3, 23, 59, 58, 999, time.UTC)
	return a.Format(l) == b.Format(l) && !strings.Contains(l, ".") && !strings.Contains(l, ",")
}

func timeFormat(t, layout *V) *V {
	return lift("timeformat", func(x []*V) *V {
		t, l := x[0], x[1]
		if t.k != KTime || l.k != KStr {
			return Undef
		}
		if l.isStrConst() {
			if isUTC(t.loc) && t.poly.isConst() {
				return Str(goTime(t.poly).Format(l.s))
			}
			if dateOnlyLayout(l.s) {
				a := civilArgs(t.poly, t.loc)
				return mkStrTerm("dateformat:"+l.s, a...)
			}
			return mkStrTerm("timeformat:"+l.s, mkInt(t.poly), t.loc)
		}
		return mkStrTerm("timeformat", l, mkInt(t.poly), t.loc)
	}, t, layout)
}

// zoneLayout: the layout reads a time zone.
func zoneLayout(l string) bool {
	return strings.Contains(l, "Z07") || strings.Contains(l, "-07") || strings.Contains(l, "MST")
}

func timeParse(layout, s *V, in *Interp) []*V {
	tt := in.timeType()
	et := types.Universe.Lookup("error").Type()
	r := lift("timeparse", func(x []*V) *V {
		l, s := x[0], x[1]
		if l.isStrConst() && s.isStrConst() {
			t, err := time.Parse(l.s, s.s)
			if err != nil {
				return mkTuple(zeroOf(tt), mkOpaque("error:parse", et, l, s))
			}
			if t.Location() != time.UTC {
				return mkTuple(mkTime(nanosOf(t), mkOpaque("loc:parsed", nil, l, s)), mkNil(et))
			}
			return mkTuple(mkTime(nanosOf(t), utcLoc), mkNil(et))
		}
		loc := utcLoc
		if !l.isStrConst() || zoneLayout(l.s) {
			loc = mkOpaque("loc:parsed", nil, l, s)
		}
		return mkTuple(mkTime(vAtom(mkOpaque("time.Parse", nil, l, s), nil, nil), loc), mkOpaque("parseErr", et, l, s))
	}, layout, s)
	return []*V{getTuple(r, 0), getTuple(r, 1)}
}

func (in *Interp) timeType() types.Type {
	for _, p := range in.p.prog.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Type("Time").Type()
		}
	}
	fail("package time not loaded")
	return nil
}

// ---------------------------------------------------------------- strings

// strFn folds a pure string function on constants and is opaque otherwise.
func strFn(name string, fold func(a []string) string, args ...*V) *V {
	return lift("sf:"+name, func(x []*V) *V {
		var c []string
		for _, a := range x {
			if a.k == KUndef {
				return Undef
			}
			if !a.isStrConst() {
				return mkStrTerm("call:"+name, x...)
			}
			c = append(c, a.s)
		}
		return Str(fold(c))
	}, args...)
}
func strPred(name string, fold func(a []string) bool, args ...*V) *V {
	return lift("sp:"+name, func(x []*V) *V {
		var c []string
		for _, a := range x {
			if a.k == KUndef {
				return Undef
			}
			if !a.isStrConst() {
				return boolTerm("call:"+name, x...)
			}
			c = append(c, a.s)
		}
		return Bool(fold(c))
	}, args...)
}
func strInt(name string, fold func(a []string) int, args ...*V) *V {
	return lift("si:"+name, func(x []*V) *V {
		var c []string
		for _, a := range x {
			if a.k == KUndef {
				return Undef
			}
			if !a.isStrConst() {
				return mkInt(vAtom(mkOpaque("call:"+name, types.Typ[types.Int], x...), bi(-1), nil))
			}
			c = append(c, a.s)
		}
		return Int(int64(fold(c)))
	}, args...)
}

// pathFn cleans a path made of constants and decimal numbers.
func pathFn(name string, fold func(string) string, s *V) *V {
	return lift("pf:"+name, func(x []*V) *V {
		s := x[0]
		if s.isStrConst() {
			return Str(fold(s.s))
		}
		if s.k == KStr && (s.op == "concat" || s.op == "itoa") {
			parts := []*V{s}
			if s.op == "concat" {
				parts = s.args
			}
			var sb strings.Builder
			ok := true
			var nums []*V
			for _, p := range parts {
				switch {
				case p.isStrConst():
					sb.WriteString(p.s)
				case p.op == "itoa":
					fmt.Fprintf(&sb, "\x01%d\x02", len(nums))
					nums = append(nums, p)
				default:
					ok = false
				}
			}
			if ok {
				res := Str("")
				t := fold(sb.String())
				for {
					i := strings.IndexByte(t, 1)
					if i < 0 {
						break
					}
					j := strings.IndexByte(t, 2)
					n, _ := strconv.Atoi(t[i+1 : j])
					res = SConcat(SConcat(res, Str(t[:i])), nums[n])
					t = t[j+1:]
				}
				return SConcat(res, Str(t))
			}
		}
		if s.k == KStr && s.op == "path:"+name {
			return s
		}
		if s.k == KUndef {
			return Undef
		}
		return mkStrTerm("path:"+name, s)
	}, s)
}

func (in *Interp) plainList(st *State, s *V) ([]*V, bool) {
	s = in.resolveAll(st, s)
	if s.k != KSeq {
		return nil, false
	}
	var out []*V
	for _, sg := range s.segs {
		if sg.g != True {
			return nil, false
		}
		if sg.el == nil {
			if sg.base.op == "strbytes" {
				return nil, false
			}
			return nil, false
		}
		out = append(out, sg.el)
	}
	return out, true
}

// sprint formats one operand like %v (or %s, %d).
func (in *Interp) fmtOperand(verb string, a *V, guard *V, st *State, pos token.Pos) *V {
	return mapLeaves(a, func(a *V) *V {
		if a.k == KNil {
			return Str("<nil>")
		}
		if a.k == KUndef {
			return Undef
		}
		if a.k != KIface {
			if a.k == KOpaque {
				return mkStrTerm("fmt:"+verb, a)
			}
			fail("format operand %s", a)
		}
		t, v := a.typ, a.args[0]
		if strings.ContainsAny(verb, "vs") && !strings.Contains(verb, "#") {
			ms := in.p.prog.MethodSets.MethodSet(t)
			for _, m := range []string{"Error", "String"} {
				if sel := ms.Lookup(nil, m); sel != nil {
					sig := sel.Type().(*types.Signature)
					if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
						fn := in.p.prog.MethodValue(sel)
						_, vals, _ := in.callStatic(fn, []*V{v}, nil, guard, st.clone(), pos)
						if len(vals) == 1 {
							return padStr(verb, vals[0])
						}
					}
				}
			}
		}
		last := verb[len(verb)-1]
		switch {
		case isInteger(t) && (last == 'd' || last == 'v'):
			if len(verb) == 2 {
				return Itoa(v)
			}
			return lift("fmtint"+verb, func(x []*V) *V {
				if x[0].isIntConst() {
					return Str(fmt.Sprintf(verb, x[0].intVal()))
				}
				if x[0].k == KUndef {
					return Undef
				}
				if t := mkStrTerm("fmt:"+verb, x[0]); x[0].k == KInt {
					if n := padWidth(t); n > 0 {
						if lo, hi := x[0].poly.bounds(); widthReached(lo, hi, n) {
							return Itoa(x[0])
						}
					}
				}
				return mkStrTerm("fmt:"+verb, x[0])
			}, v)
		case isString(t) && (last == 's' || last == 'v') && !strings.Contains(verb, "#"):
			return padStr(verb, v)
		case isString(t) && last == 'q' && len(verb) == 2:
			return strFn("quote", func(a []string) string { return strconv.Quote(a[0]) }, v)
		case isBool(t) && (last == 't' || last == 'v'):
			return ite(v, Str("true"), Str("false"))
		}
		return mkStrTerm("fmt:"+verb, in.canon(st, a))
	})
}

func padStr(verb string, v *V) *V {
	if len(verb) == 2 {
		return v
	}
	return strFn("fmt:"+verb, func(a []string) string { return fmt.Sprintf(verb[:len(verb)-1]+"s", a[0]) }, v)
}

func (in *Interp) sprintf(format *V, list *V, guard *V, st *State, pos token.Pos) *V {
	ops, ok := in.plainList(st, list)
	if !ok {
		fail("format operands of unknown number")
	}
	return lift2(format, func(f *V) *V {
		if !f.isStrConst() {
			if len(ops) == 0 && percentFree(f) {
				return f
			}
			cs := []*V{f}
			for _, o := range ops {
				cs = append(cs, in.canon(st, o))
			}
			return mkStrTerm("sprintf", cs...)
		}
		s := f.s
		res := Str("")
		n := 0
		for len(s) > 0 {
			i := strings.IndexByte(s, '%')
			if i < 0 {
				res = SConcat(res, Str(s))
				break
			}
			res = SConcat(res, Str(s[:i]))
			j := i + 1
			for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
				j++
			}
			if j >= len(s) {
				res = SConcat(res, Str("%!(NOVERB)"))
				s = ""
				break
			}
			if s[j] == '*' || s[j] == '[' {
				fail("format %q", f.s)
			}
			r := []rune(s[j:])[0]
			verb := s[i:j] + string(r)
			s = s[j+len(string(r)):]
			if r == '%' {
				res = SConcat(res, Str("%"))
				continue
			}
			if n >= len(ops) {
				res = SConcat(res, Str("%!"+string(r)+"(MISSING)"))
				continue
			}
			res = SConcat(res, in.fmtOperand(verb, ops[n], guard, st, pos))
			n++
		}
		if n < len(ops) {
			var cs []*V
			for _, o := range ops[n:] {
				cs = append(cs, in.canon(st, o))
			}
			res = SConcat(res, SConcat(Str("%!(EXTRA "), mkStrTerm("fmtextra", cs...)))
		}
		return res
	})
}

// percentFree: a text that cannot hold a format verb.
func percentFree(v *V) bool {
	switch {
	case v.isStrConst():
		return !strings.Contains(v.s, "%")
	case v.op == "itoa" || strings.HasPrefix(v.op, "dateformat:") && !strings.Contains(v.op, "%"):
		return true
	case v.op == "concat":
		for _, a := range v.args {
			if !percentFree(a) {
				return false
			}
		}
		return true
	}
	return false
}

func lift2(v *V, f func(*V) *V) *V {
	if v.k != KNode {
		return f(v)
	}
	var gs, vs []*V
	for _, lc := range leafConds(v) {
		if lc.leaf.k == KUndef {
			continue
		}
		gs = append(gs, lc.cond)
		vs = append(vs, f(lc.leaf))
	}
	if len(vs) == 0 {
		return Undef
	}
	return mergeVals(gs, vs)
}

func (in *Interp) sprint(list *V, ln bool, guard *V, st *State, pos token.Pos) *V {
	ops, ok := in.plainList(st, list)
	if !ok {
		fail("print operands of unknown number")
	}
	res := Str("")
	prevStr := true
	for i, o := range ops {
		isS := o.k == KIface && isString(o.typ) && types.Identical(o.typ, types.Typ[types.String])
		if o.k == KNode {
			fail("print operand of several types")
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			res = SConcat(res, Str(" "))
		}
		res = SConcat(res, in.fmtOperand("%v", o, guard, st, pos))
		prevStr = isS
	}
	if ln {
		res = SConcat(res, Str("\n"))
	}
	return res
}

// ---------------------------------------------------------------- buffers, writers

func bufField(typ types.Type) int {
	s := typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return i
			}
		}
	}
	return -1
}

func (in *Interp) ptrType(p *V) types.Type {
	if p.k == KOpaque && p.typ != nil {
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
	}
	if p.k != KPtr {
		return nil
	}
	t := in.objType[p.obj]
	for _, e := range p.path {
		if e.seq != nil {
			return nil
		}
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(e.field).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (in *Interp) bufGet(st *State, ptr *V, typ types.Type) *V {
	c := in.load(st, ptr)
	return bytesToStr(getField(c, bufField(typ)))
}
func (in *Interp) bufSet(st *State, ptr *V, typ types.Type, s *V, guard *V) {
	f := bufField(typ)
	ft := typ.Underlying().(*types.Struct).Field(f).Type()
	in.store(st, mapLeaves(ptr, func(p *V) *V { return in.ptrField(p, f) }), strToBytes(s, ft), guard, "", "")
}

func (in *Interp) errV(op string, args ...*V) *V {
	return mkOpaque(op, types.Universe.Lookup("error").Type(), args...)
}

// jsonErr is the outcome of encoding a value; a command encodes what it writes
// once, so that there it does not matter what is encoded.
func (in *Interp) jsonErr(c *V) *V {
	if in.cfg.flags != nil {
		return in.errV("jsonErr")
	}
	return in.errV("jsonErr", c)
}

var fileSerial int

// writeTo writes a string to a writer: returns the error value.
func (in *Interp) writeTo(w, s *V, guard *V, st *State, pos token.Pos) *V {
	if w.k == KNode {
		var gs, vs []*V
		var sts []*State
		for _, lc := range leafConds(w) {
			g := And(guard, lc.cond)
			if g == False || lc.leaf.k == KUndef {
				continue
			}
			ns := st.clone()
			e := in.writeTo(lc.leaf, s, g, ns, pos)
			gs, vs, sts = append(gs, lc.cond), append(vs, e), append(sts, ns)
		}
		if len(vs) == 0 {
			return Undef
		}
		m := in.mergeStates(gs, sts)
		*st = *m
		return mergeVals(gs, vs)
	}
	var t types.Type
	ptr := w
	if w.k == KIface {
		t, ptr = w.typ, w.args[0]
	} else if w.k == KOpaque && w.typ != nil {
		t = w.typ
	}
	if t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			e := pt.Elem()
			switch {
			case isNamed(e, "bytes", "Buffer") || isNamed(e, "strings", "Builder"):
				in.bufSet(st, ptr, e, SConcat(in.bufGet(st, ptr, e), s), guard)
				return mkNil(nil)
			case isNamed(e, "os", "File"):
				return in.fileWrite(ptr, s, guard, st, pos)
			case isNamed(e, "bufio", "Writer"):
				c := in.load(st, ptr)
				f := bufField(e)
				old := bytesToStr(getField(c, f))
				ft := e.Underlying().(*types.Struct).Field(f).Type()
				in.store(st, mapLeaves(ptr, func(p *V) *V { return in.ptrField(p, f) }), strToBytes(SConcat(old, s), ft), guard, "", "")
				return mkNil(nil)
			}
		}
	}
	in.unknown["write to "+w.String()]++
	in.addEffect(st, guard, "write", pos, nil, in.canon(st, w), s)
	return in.errV("writeErr", in.canon(st, w), s)
}

func (in *Interp) fileWrite(f, s *V, guard *V, st *State, pos token.Pos) *V {
	name := f
	op := "filewrite"
	if f.k == KOpaque {
		switch {
		case strings.HasSuffix(f.op, "os.Stdout"):
			op = "stdout"
		case strings.HasSuffix(f.op, "os.Stderr"):
			op = "stderr"
		}
	} else {
		f = in.canon(st, f)
		name = f
		if f.k == KOpaque && strings.HasSuffix(f.op, "os.Stdout") {
			op = "stdout"
		} else if f.k == KOpaque && strings.HasSuffix(f.op, "os.Stderr") {
			op = "stderr"
		}
	}
	if op != "filewrite" {
		in.addEffect(st, guard, op, pos, nil, s)
		return mkNil(nil) // assumed not to fail
	}
	in.addEffect(st, guard, op, pos, nil, name, s)
	return writeErr(in, name)
}

func (in *Interp) openFile(name, flag, perm *V, guard *V, st *State, pos token.Pos, ft types.Type) []*V {
	in.addEffect(st, guard, "open", pos, nil, name, flag, perm)
	return []*V{mkOpaque("file", ft, name, flag), in.errV("openErr", name)}
}

// writeErr is the outcome of writing to a file: one for all writes to it.
func writeErr(in *Interp, f *V) *V {
	if f.k == KOpaque && f.op == "file" {
		return in.errV("writeErr", f.args[0])
	}
	return in.errV("writeErr", f)
}

// ---------------------------------------------------------------- extern

var constIgnore = map[string]bool{}

func (in *Interp) exit(st *State, guard, code *V, pos token.Pos) {
	in.dead(in.addEffect(st, guard, "exit", pos, nil, IMod(code, 256)), st)
}

func (in *Interp) envRead(what string, pos token.Pos) {
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].String()
	}
	in.env = append(in.env, envRead{what, fn, in.p.pos(pos), in.initPhase})
}

type envRead struct {
	what, fn, pos string
	init          bool
}

// purePkgs have functions that only compute from their arguments.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true, "errors": true, "math/bits": true, "html": true, "net/url": true, "cmp": true}

func (in *Interp) extern(fn *ssa.Function, args []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.String()
	one := func(v *V) (*V, []*V, *State) { return guard, []*V{v}, st }
	two := func(a, b *V) (*V, []*V, *State) { return guard, []*V{a, b}, st }
	none := func() (*V, []*V, *State) { return guard, nil, st }
	nilErr := mkNil(types.Universe.Lookup("error").Type())
	for _, a := range args {
		if a == nil {
			fail("missing argument of %s", name)
		}
	}
	switch name {
	// ---- math
	case "math.Floor":
		return one(FFloor(args[0]))
	case "math.Ceil":
		return one(FCeil(args[0]))
	case "math.Trunc":
		return one(I2F(ITrunc(args[0])))
	case "math.Abs":
		return one(FAbs(args[0]))
	case "math.Round":
		h := FConst(0.5)
		return one(ite(FCmp(">=", args[0], I2F(Int(0))), FFloor(FBin("+", args[0], h)), FNeg(FFloor(FBin("+", FNeg(args[0]), h)))))
	case "math.Mod":
		return one(FMod(args[0], args[1]))
	case "math.Min":
		return one(ite(FCmp("<=", args[0], args[1]), args[0], args[1]))
	case "math.Max":
		return one(ite(FCmp("<=", args[0], args[1]), args[1], args[0]))
	case "math.Modf":
		i := I2F(ITrunc(args[0]))
		return two(i, FBin("-", args[0], i))
	case "math.Pow":
		if e, ok := fConstVal(args[1]); ok && e == math.Trunc(e) && e >= 0 && e <= 16 {
			r := I2F(Int(1))
			for k := 0; k < int(e); k++ {
				r = FBin("*", r, args[0])
			}
			return one(r)
		}
		return one(FCall("math.Pow", args...))
	case "math.IsNaN":
		return one(False)
	case "math.IsInf":
		return one(False)

	// ---- time
	case "time.Now":
		in.envRead("time.Now", pos)
		return one(mkTime(vAtom(mkOpaque("env:now", nil), nil, nil), utcLoc))
	case "time.Date":
		return one(dateOf(args))
	case "time.Parse":
		r := timeParse(args[0], args[1], in)
		return two(r[0], r[1])
	case "time.ParseInLocation":
		if args[2] == utcLoc {
			r := timeParse(args[0], args[1], in)
			return two(r[0], r[1])
		}
		if args[2].k != KNode && args[0].isStrConst() && !zoneLayout(args[0].s) {
			// the wall clock of the text in another zone: the same error
			r := timeParse(args[0], args[1], in)
			loc := args[2]
			t := lift("parsein", func(x []*V) *V {
				if x[0].k != KTime {
					return Undef
				}
				return mkTime(vAtom(mkOpaque("time.ParseIn", nil, args[0], args[1], loc), nil, nil), loc)
			}, r[0])
			return two(ite(in.equal(r[1], mkNil(types.Universe.Lookup("error").Type()), types.Universe.Lookup("error").Type(), st), t, r[0]), r[1])
		}
	case "time.Unix":
		return one(mkTimeV(IAdd(IMul(args[0], Int(1e9)), args[1]), localLoc))
	case "time.UnixMilli":
		return one(mkTimeV(IMul(args[0], Int(1e6)), localLoc))
	case "time.Since", "time.Until":
		in.envRead(name, pos)
	case "(time.Time).Add":
		return one(timeAdd(args[0], args[1]))
	case "(time.Time).AddDate":
		return one(addDate(args[0], args[1], args[2], args[3]))
	case "(time.Time).Sub":
		return one(ISub(timeNanos(args[0]), timeNanos(args[1])))
	case "(time.Time).Before":
		return one(ICmp("<", timeNanos(args[0]), timeNanos(args[1])))
	case "(time.Time).After":
		return one(ICmp(">", timeNanos(args[0]), timeNanos(args[1])))
	case "(time.Time).Equal":
		return one(ICmp("==", timeNanos(args[0]), timeNanos(args[1])))
	case "(time.Time).Compare":
		a, b := timeNanos(args[0]), timeNanos(args[1])
		return one(ite(ICmp("<", a, b), Int(-1), ite(ICmp(">", a, b), Int(1), Int(0))))
	case "(time.Time).UTC":
		return one(mkTimeV(timeNanos(args[0]), utcLoc))
	case "(time.Time).Local":
		in.envRead(name, pos)
		return one(mkTimeV(timeNanos(args[0]), localLoc))
	case "(time.Time).In":
		return one(mkTimeV(timeNanos(args[0]), args[1]))
	case "(time.Time).Location":
		return one(timeLoc(args[0]))
	case "(time.Time).IsZero":
		return one(ICmp("==", timeNanos(args[0]), mkBigInt(zeroTime)))
	case "(time.Time).Unix":
		return one(IFdiv(timeNanos(args[0]), 1e9))
	case "(time.Time).UnixNano":
		return one(timeNanos(args[0]))
	case "(time.Time).UnixMilli":
		return one(IFdiv(timeNanos(args[0]), 1e6))
	case "(time.Time).Year", "(time.Time).Month", "(time.Time).Day", "(time.Time).YearDay":
		return one(timeField("time."+fn.Name(), args[0]))
	case "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).Nanosecond":
		return one(clockField(fn.Name(), args[0]))
	case "(time.Time).Date":
		return guard, []*V{timeField("time.Year", args[0]), timeField("time.Month", args[0]), timeField("time.Day", args[0])}, st
	case "(time.Time).ISOWeek":
		return guard, []*V{timeField("time.ISOYear", args[0]), timeField("time.ISOWeek", args[0])}, st
	case "(time.Time).Clock":
		return guard, []*V{clockField("Hour", args[0]), clockField("Minute", args[0]), clockField("Second", args[0])}, st
	case "(time.Time).Weekday":
		return one(lift("weekday", func(x []*V) *V {
			if x[0].k != KTime {
				return Undef
			}
			if isUTC(x[0].loc) {
				return IMod(IAdd(mkInt(pFdiv(x[0].poly, dayNanos)), Int(4)), 7)
			}
			return mkInt(vAtom(mkOpaque("time.Weekday", nil, mkInt(x[0].poly), x[0].loc), big0, bi(6)))
		}, args[0]))
	case "(time.Time).Format":
		return one(timeFormat(args[0], args[1]))
	case "(time.Time).String":
		return one(timeFormat(args[0], Str("2006-01-02 15:04:05.999999999 -0700 MST")))
	case "(time.Time).Truncate":
		r := lift("truncate", func(x []*V) *V {
			if x[0].k != KTime || !x[1].isIntConst() || x[1].intVal() <= 0 {
				return Undef
			}
			// since the zero time: a whole number of days before the epoch
			d := x[1].poly.c
			off := new(big.Int).Mod(zeroTime, d)
			p := pSub(x[0].poly, pConst(off))
			return mkTime(pAdd(pScale(pFdiv(p, d), d), pConst(off)), x[0].loc)
		}, args[0], args[1])
		if r != Undef {
			return one(r)
		}
	case "(*time.Location).String":
		return one(mapLeaves(args[0], func(l *V) *V {
			if l == utcLoc {
				return Str("UTC")
			}
			return mkStrTerm("locname", l)
		}))
	case "(time.Duration).Hours":
		return one(FBin("/", I2F(args[0]), FConst(3600e9)))
	case "(time.Duration).Minutes":
		return one(FBin("/", I2F(args[0]), FConst(60e9)))
	case "(time.Duration).Seconds":
		return one(FBin("/", I2F(args[0]), FConst(1e9)))
	case "(time.Duration).Abs":
		return one(ite(ICmp(">=", args[0], Int(0)), args[0], ISub(Int(0), args[0])))
	case "(time.Duration).Nanoseconds":
		return one(args[0])

	// ---- strconv
	case "strconv.Itoa":
		return one(Itoa(args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1] == Int(10) {
			return one(Itoa(args[0]))
		}
	case "strconv.Quote":
		return one(strFn("quote", func(a []string) string { return strconv.Quote(a[0]) }, args[0]))
	case "strconv.FormatBool":
		return one(ite(args[0], Str("true"), Str("false")))
	case "strconv.Atoi":
		if args[0].isStrConst() {
			n, err := strconv.Atoi(args[0].s)
			if err != nil {
				return two(Int(0), in.errV("error:atoi", args[0]))
			}
			return two(Int(int64(n)), nilErr)
		}
		if args[0].k == KStr && args[0].op == "itoa" {
			return two(args[0].args[0], nilErr)
		}

	// ---- fmt
	case "fmt.Sprintf":
		return one(in.sprintf(args[0], args[1], guard, st, pos))
	case "fmt.Sprint":
		return one(in.sprint(args[0], false, guard, st, pos))
	case "fmt.Sprintln":
		return one(in.sprint(args[0], true, guard, st, pos))
	case "fmt.Printf", "fmt.Print", "fmt.Println":
		var s *V
		switch fn.Name() {
		case "Printf":
			s = in.sprintf(args[0], args[1], guard, st, pos)
		default:
			s = in.sprint(args[0], fn.Name() == "Println", guard, st, pos)
		}
		in.addEffect(st, guard, "stdout", pos, nil, s)
		return two(StrLen(s), mkNil(nil))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		var s *V
		switch fn.Name() {
		case "Fprintf":
			s = in.sprintf(args[1], args[2], guard, st, pos)
		default:
			s = in.sprint(args[1], fn.Name() == "Fprintln", guard, st, pos)
		}
		e := in.writeTo(in.canonWriter(st, args[0]), s, guard, st, pos)
		return two(StrLen(s), e)
	case "fmt.Errorf":
		return one(in.errV("error:new", in.sprintf(args[0], args[1], guard, st, pos)))
	case "errors.New":
		return one(in.errV("error:new", args[0]))
	case "errors.Is":
		return one(in.equal(args[0], args[1], types.Universe.Lookup("error").Type(), st))

	// ---- strings
	case "strings.Title":
		return one(strFn("strings.Title", func(a []string) string { return strings.Title(a[0]) }, args[0]))
	case "strings.ToUpper":
		return one(strFn(name, func(a []string) string { return strings.ToUpper(a[0]) }, args[0]))
	case "strings.ToLower":
		return one(strFn(name, func(a []string) string { return strings.ToLower(a[0]) }, args[0]))
	case "strings.ToTitle":
		return one(strFn(name, func(a []string) string { return strings.ToTitle(a[0]) }, args[0]))
	case "strings.TrimSpace":
		return one(strFn(name, func(a []string) string { return strings.TrimSpace(a[0]) }, args[0]))
	case "strings.Trim":
		return one(strFn(name, func(a []string) string { return strings.Trim(a[0], a[1]) }, args...))
	case "strings.TrimPrefix":
		return one(strFn(name, func(a []string) string { return strings.TrimPrefix(a[0], a[1]) }, args...))
	case "strings.TrimSuffix":
		return one(strFn(name, func(a []string) string { return strings.TrimSuffix(a[0], a[1]) }, args...))
	case "strings.TrimRight":
		return one(strFn(name, func(a []string) string { return strings.TrimRight(a[0], a[1]) }, args...))
	case "strings.TrimLeft":
		return one(strFn(name, func(a []string) string { return strings.TrimLeft(a[0], a[1]) }, args...))
	case "strings.ReplaceAll":
		return one(strFn(name, func(a []string) string { return strings.ReplaceAll(a[0], a[1], a[2]) }, args...))
	case "strings.HasPrefix":
		return one(strPred(name, func(a []string) bool { return strings.HasPrefix(a[0], a[1]) }, args...))
	case "strings.HasSuffix":
		return one(strPred(name, func(a []string) bool { return strings.HasSuffix(a[0], a[1]) }, args...))
	case "strings.Contains":
		return one(strPred(name, func(a []string) bool { return strings.Contains(a[0], a[1]) }, args...))
	case "strings.EqualFold":
		return one(strPred(name, func(a []string) bool { return strings.EqualFold(a[0], a[1]) }, args...))
	case "strings.Index":
		return one(strInt(name, func(a []string) int { return strings.Index(a[0], a[1]) }, args...))
	case "strings.Compare":
		return one(strInt(name, func(a []string) int { return strings.Compare(a[0], a[1]) }, args...))
	case "strings.Repeat":
		if args[1].isIntConst() && args[1].intVal() >= 0 && args[1].intVal() < 1000 {
			r := Str("")
			for k := int64(0); k < args[1].intVal(); k++ {
				r = SConcat(r, args[0])
			}
			return one(r)
		}
	case "strings.Join":
		if l, ok := in.plainList(st, args[0]); ok {
			r := Str("")
			for i, e := range l {
				if i > 0 {
					r = SConcat(r, args[1])
				}
				r = SConcat(r, e)
			}
			return one(r)
		}
		return one(mkStrTerm("call:strings.Join", in.canon(st, args[0]), args[1]))
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		s := args[0]
		if s.k != KStr && !strings.HasSuffix(name, "String") && name != "strings.NewReader" {
			s = bytesToStr(in.resolveAll(st, s))
		}
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(pt)
		z := zeroOf(pt)
		st.mem[o] = z
		p := mkPtr(o, nil)
		if f := bufField(pt); f >= 0 {
			in.bufSet(st, p, pt, s, guard)
		} else {
			st.mem[o] = setPath(z, []PathEl{{field: 0}}, s)
		}
		return one(p)
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*os.File).WriteString", "(*os.File).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		s := args[1]
		if fn.Name() == "Write" {
			s = bytesToStr(in.resolveAll(st, s))
		}
		recv := args[0]
		e := in.writeTo(mapLeaves(recv, func(p *V) *V {
			if p.k == KUndef || p.k == KNil {
				return Undef
			}
			return mkIface(fn.Signature.Recv().Type(), p)
		}), s, guard, st, pos)
		return two(StrLen(s), e)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		s := lift("runestr", func(a []*V) *V {
			if a[0].isIntConst() {
				return Str(string(rune(a[0].intVal())))
			}
			return mkStrTerm("runestr", a[0])
		}, args[1])
		e := in.writeTo(mkIface(fn.Signature.Recv().Type(), args[0]), s, guard, st, pos)
		if fn.Name() == "WriteRune" {
			return two(StrLen(s), e)
		}
		return one(e)
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return one(in.bufGet(st, args[0], fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()))
	case "(*bytes.Buffer).Bytes":
		return one(strToBytes(in.bufGet(st, args[0], fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()), fn.Signature.Results().At(0).Type()))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return one(StrLen(in.bufGet(st, args[0], fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())))
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		in.bufSet(st, args[0], fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem(), Str(""), guard)
		return none()
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return none()
	case "(*bytes.Buffer).WriteTo":
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		s := in.bufGet(st, args[0], pt)
		e := in.writeTo(in.canonWriter(st, args[1]), s, guard, st, pos)
		return two(StrLen(s), e)
	case "bytes.Equal":
		return one(SEq(bytesToStr(in.resolveAll(st, args[0])), bytesToStr(in.resolveAll(st, args[1]))))

	// ---- paths
	case "path.Clean":
		return one(pathFn("clean", path.Clean, args[0]))
	case "path/filepath.Clean":
		return one(pathFn("clean", path.Clean, args[0]))
	case "path.Base", "path/filepath.Base":
		return one(pathFn("base", path.Base, args[0]))
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return one(args[0])
	case "path.Join", "path/filepath.Join":
		if l, ok := in.plainList(st, args[0]); ok {
			r := Str("")
			for _, e := range l {
				if e.isStrConst() && e.s == "" {
					continue
				}
				if r != Str("") {
					r = SConcat(r, Str("/"))
				}
				r = SConcat(r, e)
			}
			if r == Str("") {
				return one(r)
			}
			return one(pathFn("clean", path.Clean, r))
		}

	// ---- files and process
	case "os.Exit":
		in.exit(st, guard, args[0], pos)
		return False, nil, st
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf":
		in.addEffect(st, guard, "stderr", pos, nil)
		in.exit(st, guard, Int(1), pos)
		return False, nil, st
	case "log.Panic", "log.Panicf", "log.Panicln":
		in.dead(in.addEffect(st, guard, "panic", pos, nil, Str("log.Panic")), st)
		return False, nil, st
	case "runtime.Goexit":
		in.dead(in.addEffect(st, guard, "panic", pos, nil, Str("goexit")), st)
		return False, nil, st
	case "log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput":
		in.addEffect(st, guard, "stderr", pos, nil)
		return none()
	case "os.OpenFile":
		r := in.openFile(args[0], args[1], args[2], guard, st, pos, fn.Signature.Results().At(0).Type())
		return two(r[0], r[1])
	case "os.Create":
		r := in.openFile(args[0], Int(2|0x40|0x200), Int(0666), guard, st, pos, fn.Signature.Results().At(0).Type())
		return two(r[0], r[1])
	case "os.Open":
		in.envRead(name, pos)
		ft := fn.Signature.Results().At(0).Type()
		return two(lift("openfile", func(x []*V) *V { return mkOpaque("file", ft, x[0], Int(0)) }, args[0]),
			lift("openerr", func(x []*V) *V { return in.errV("openErr", x[0], Int(0)) }, args[0]))
	case "os.WriteFile", "io/ioutil.WriteFile":
		s := bytesToStr(in.resolveAll(st, args[1]))
		r := in.openFile(args[0], Int(1|0x40|0x200), args[2], guard, st, pos, nil)
		ok := isNilV(r[1])
		we := in.fileWrite(r[0], s, And(guard, ok), st, pos)
		return one(ite(ok, we, r[1]))
	case "os.ReadFile", "io/ioutil.ReadFile":
		in.envRead(name, pos)
		s := in.opaqueCall("os.ReadFile", args, fn.Signature.Results(), guard, st, pos, false)
		return two(s[0], s[1])
	case "(*os.File).Close", "(*os.File).Sync":
		in.addEffect(st, guard, "file"+strings.ToLower(fn.Name()), pos, nil, in.canon(st, args[0]))
		return one(mkNil(nil)) // assumed not to fail
	case "io.WriteString":
		return two(StrLen(args[1]), in.writeTo(in.canonWriter(st, args[0]), args[1], guard, st, pos))
	case "bufio.NewWriter":
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(pt)
		z := zeroOf(pt)
		s := pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "wr" {
				z = setPath(z, []PathEl{{field: i}}, args[0])
			}
		}
		st.mem[o] = z
		return one(mkPtr(o, nil))
	case "(*bufio.Writer).Flush":
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		s := pt.Underlying().(*types.Struct)
		c := in.load(st, args[0])
		var w *V
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "wr" {
				w = getField(c, i)
			}
		}
		text := in.bufGet(st, args[0], pt)
		in.bufSet(st, args[0], pt, Str(""), guard)
		if text == Str("") {
			return one(nilErr)
		}
		return one(in.writeTo(w, text, guard, st, pos))
	case "os.Getenv", "os.LookupEnv", "os.Getwd", "os.Hostname", "os.Getpid", "os.Stat", "os.ReadDir", "math/rand.Int", "math/rand.Intn", "math/rand.Float64", "time.LoadLocation", "os.Environ", "math/rand/v2.IntN", "runtime.NumCPU", "runtime.NumGoroutine":
		in.envRead(name, pos)
		return guard, in.opaqueCall("env:"+name, args, fn.Signature.Results(), guard, st, pos, false), st
	case "os.IsNotExist":
		return one(lift("isnotexist", func(x []*V) *V {
			if x[0].k == KNil {
				return False
			}
			if x[0].k == KOpaque && x[0].op == "error:os.ErrNotExist" {
				return True
			}
			return boolTerm("isnotexist", x[0])
		}, args[0]))

	// ---- sync
	case "(*sync.Once).Do":
		return in.onceDo(args, guard, st, pos)
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return none()

	// ---- sorting
	case "sort.Sort", "sort.Stable":
		in.sortIface(args[0], guard, st, pos)
		return none()
	case "sort.Slice", "sort.SliceStable":
		x := args[0]
		if x.k != KIface {
			fail("sort of %s", x)
		}
		in.sortSeq(x.args[0], x.typ, guard, st, pos, func(s2 *State, seq, i, j *V) *V {
			_, v, _ := in.callV(args[1], []*V{i, j}, fn.Signature.Params().At(1).Type().Underlying().(*types.Signature), True, s2, pos)
			return v[0]
		})
		return none()
	case "slices.SortFunc", "slices.SortStableFunc":
		sl := args[0]
		in.sortSeq(sl, nil, guard, st, pos, func(s2 *State, seq, i, j *V) *V {
			sig := sigOfFunc(args[1])
			_, v, _ := in.callV(args[1], []*V{seqElem(seq, i), seqElem(seq, j)}, sig, True, s2, pos)
			return ICmp("<", v[0], Int(0))
		})
		return none()
	case "slices.Contains", "slices.Index":
		if l, ok := in.plainList(st, args[0]); ok {
			found := False
			idx := Int(-1)
			for k := len(l) - 1; k >= 0; k-- {
				e := keyEqN(l[k], args[1])
				found = Or(found, e)
				idx = ite(e, Int(int64(k)), idx)
			}
			if fn.Name() == "Index" {
				return one(idx)
			}
			return one(found)
		}
	case "slices.Reverse":
		if l, ok := in.plainList(st, args[0]); ok {
			var segs []Seg
			for k := len(l) - 1; k >= 0; k-- {
				segs = append(segs, Seg{g: True, el: l[k]})
			}
			st.over[args[0]] = mkSeq(segs)
			return none()
		}
	case "cmp.Compare":
		if args[0].k == KInt || args[0].k == KNode {
			return one(ite(ICmp("<", args[0], args[1]), Int(-1), ite(ICmp(">", args[0], args[1]), Int(1), Int(0))))
		}

	// ---- encoding
	case "encoding/json.Marshal":
		c := in.canon(st, args[0])
		return two(strToBytes(mkStrTerm("json", c), fn.Signature.Results().At(0).Type()), in.jsonErr(c))
	case "encoding/json.MarshalIndent":
		c := in.canon(st, args[0])
		t := mkStrTerm("json", c) // white space does not matter
		return two(strToBytes(t, fn.Signature.Results().At(0).Type()), in.jsonErr(c))
	case "encoding/json.Unmarshal":
		data := bytesToStr(in.resolveAll(st, args[0]))
		ptr := args[1]
		if ptr.k != KIface {
			fail("unmarshal into %s", ptr)
		}
		p := ptr.args[0]
		t := ptr.typ.Underlying().(*types.Pointer).Elem()
		old := in.canon(st, in.load(st, p))
		ta := []*V{data}
		if old != in.canon(st, zeroOf(t)) {
			ta = append(ta, old)
		}
		nv := symOf(mkOpaque("unmarshal:"+types.TypeString(t, nil), t, ta...), t)
		in.store(st, p, nv, guard, in.p.pos(pos), "")
		return one(in.errV("unmarshalErr:"+types.TypeString(t, nil), data))
	case "encoding/json.NewEncoder":
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(pt)
		st.mem[o] = setPath(zeroOf(pt), []PathEl{{field: 0}}, args[0])
		return one(mkPtr(o, nil))
	case "(*encoding/json.Encoder).Encode":
		w := getField(in.load(st, args[0]), 0)
		c := in.canon(st, args[1])
		je := in.jsonErr(c)
		ok := isNilV(je)
		we := in.writeTo(w, SConcat(mkStrTerm("json", c), Str("\n")), And(guard, ok), st, pos)
		return one(ite(ok, we, je))
	case "encoding/base64.NewDecoder", "compress/gzip.NewReader", "io/ioutil.ReadAll", "io.ReadAll", "(*encoding/base64.Encoding).DecodeString":
		return in.decoders(name, fn, args, guard, st, pos)

	// ---- libraries of the hidden files
	case "github.com/satori/go.uuid.NewV4":
		in.envRead("uuid.NewV4", pos)
		op := "uuid4"
		if in.initPhase {
			op = "uuid4:init"
		}
		return one(mkOpaque(op, fn.Signature.Results().At(0).Type()))
	case "github.com/satori/go.uuid.NewV1":
		in.envRead("uuid.NewV1", pos)
		return one(mkOpaque("uuid1", fn.Signature.Results().At(0).Type()))
	case "(github.com/satori/go.uuid.UUID).String":
		return one(mkStrTerm("uuidstr", args[0]))
	case "(*github.com/codegangsta/cli.Context).String":
		return one(lift("flag", func(x []*V) *V {
			if g, ok := in.cfg.flags[x[0].s]; ok && x[0].isStrConst() {
				if g {
					return mkStrTerm("given", x[0])
				}
				return Str("")
			}
			return mkStrTerm("flag", x[0])
		}, args[1]))
	case "(*github.com/codegangsta/cli.Context).IsSet":
		if g, ok := in.cfg.flags[args[1].s]; ok && args[1].isStrConst() {
			return one(Bool(g))
		}
		return one(boolTerm("flagset", args[1]))
	case "(*github.com/soh335/ical.VCalendar).Encode":
		// only the entries matter here
		c := in.load(st, args[0])
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < pt.NumFields(); i++ {
			if pt.Field(i).Name() == "VComponent" {
				c = in.canon(st, getField(c, i))
			}
		}
		return one(in.writeTo(in.canonWriter(st, args[1]), mkStrTerm("ical", c), guard, st, pos))
	case "github.com/codegangsta/cli.NewExitError", "github.com/codegangsta/cli.Exit":
		return one(mkOpaque("exitErr", fn.Signature.Results().At(0).Type(), args[1]))
	case "github.com/codegangsta/cli.HandleExitCoder":
		if code, ok := exitErrCode(args[0]); ok {
			in.exit(st, guard, code, pos)
			return False, nil, st
		}
		return none()
	case "github.com/codegangsta/cli.NewApp":
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(pt)
		st.mem[o] = zeroOf(pt)
		return one(mkPtr(o, nil))
	case "(*github.com/codegangsta/cli.App).Run", "(*github.com/codegangsta/cli.App).RunAndExitOnError":
		in.addEffect(st, guard, "apprun", pos, nil, in.canon(st, in.load(st, args[0])))
		in.appRuns = append(in.appRuns, appRun{in.load(st, args[0]), st.clone()})
		if fn.Signature.Results().Len() == 1 {
			return one(in.errV("runErr"))
		}
		return none()
	}
	pp := ""
	if fn.Pkg != nil {
		pp = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pp = fn.Object().Pkg().Path()
	}
	if pp == "math" {
		return one(FCall(name, args...))
	}
	if purePkgs[pp] && fn.Signature.Recv() == nil {
		return guard, in.opaqueCall("pure:"+name, args, fn.Signature.Results(), guard, st, pos, false), st
	}
	if r := fn.Signature.Recv(); r != nil && pp == "time" {
		if _, ok := r.Type().Underlying().(*types.Pointer); !ok {
			return guard, in.opaqueCall("pure:"+name, args, fn.Signature.Results(), guard, st, pos, false), st
		}
	}
	in.unknown[name]++
	if debug {
		fmt.Println("unmodelled:", name)
	}
	in.addEffect(st, guard, "extern:"+name, pos, nil, in.canonAll(st, args)...)
	return guard, in.opaqueCall("extern:"+name, args, fn.Signature.Results(), guard, st, pos, true), st
}

type appRun struct {
	app *V
	st  *State
}

func (in *Interp) canonAll(st *State, vs []*V) []*V {
	out := make([]*V, len(vs))
	for i, v := range vs {
		out[i] = in.canon(st, v)
	}
	return out
}

// canonWriter keeps writers as they are (buffers are objects).
func (in *Interp) canonWriter(st *State, w *V) *V { return w }

func sigOfFunc(f *V) *types.Signature {
	if f.k == KFunc {
		return f.fn.Signature
	}
	if f.k == KOpaque && f.typ != nil {
		if s, ok := f.typ.Underlying().(*types.Signature); ok {
			return s
		}
	}
	fail("call of %s", f)
	return nil
}

func (in *Interp) ifaceModel(c interface{ Signature() *types.Signature }, recv *V, args []*V, guard *V, st *State, pos token.Pos) ([]*V, bool) {
	return nil, false
}

// onceDo runs a function unless the Once has been used.
func (in *Interp) onceDo(args []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	o := args[0]
	c := in.load(st, o)
	path, leaf := firstInt(c)
	if leaf == nil {
		fail("sync.Once of unknown layout")
	}
	used := ICmp("!=", leaf, Int(0))
	run := And(guard, Not(used))
	ns := st.clone()
	ptr := mapLeaves(o, func(p *V) *V {
		if p.k == KUndef {
			return p
		}
		for _, f := range path {
			p = in.ptrField(p, f)
		}
		return p
	})
	in.store(ns, ptr, Int(1), guard, "", "sync.Once")
	if run == False {
		return guard, nil, st
	}
	in.onceDepth++
	g, _, ns := in.callV(args[1], nil, sigOfFuncAny(args[1]), run, ns, pos)
	in.onceDepth--
	if g == False {
		// the function never returns
		return And(guard, used), nil, st
	}
	if used == False {
		return g, nil, ns
	}
	skip := And(guard, used)
	return Or(skip, g), nil, in.mergeStates([]*V{g, skip}, []*State{ns, st})
}

func sigOfFuncAny(f *V) *types.Signature {
	if f.k == KNode {
		for _, lc := range leafConds(f) {
			if lc.leaf.k == KFunc {
				return lc.leaf.fn.Signature
			}
		}
	}
	return sigOfFunc(f)
}

func firstInt(c *V) ([]int, *V) {
	if c.k == KNode {
		var p []int
		for _, lc := range leafConds(c) {
			if lc.leaf.k == KStruct {
				p, _ = firstInt(lc.leaf)
				break
			}
		}
		if p == nil {
			if isIntV(c) {
				return []int{}, c
			}
			return nil, nil
		}
		v := c
		for _, f := range p {
			v = getField(v, f)
		}
		return p, v
	}
	if isIntV(c) {
		return []int{}, c
	}
	if c.k == KStruct {
		for i, a := range c.args {
			if p, v := firstInt(a); v != nil {
				return append([]int{i}, p...), v
			}
		}
	}
	return nil, nil
}

// ---------------------------------------------------------------- sorting

func (in *Interp) sortIface(x *V, guard *V, st *State, pos token.Pos) {
	if x.k != KIface {
		fail("sort of %s", x)
	}
	ms := in.p.prog.MethodSets.MethodSet(x.typ)
	sel := ms.Lookup(nil, "Less")
	if sel == nil {
		fail("sort without Less")
	}
	less := in.p.prog.MethodValue(sel)
	method := func(name string) *ssa.Function {
		s := ms.Lookup(nil, name)
		if s == nil {
			fail("sort without %s", name)
		}
		return in.p.prog.MethodValue(s)
	}
	if _, ok := x.typ.Underlying().(*types.Slice); !ok {
		fail("sort of a %s", x.typ)
	}
	in.missorts = false
	in.sortSeq(x.args[0], x.typ, guard, st, pos, func(s2 *State, seq, i, j *V) *V {
		// Len counts the elements
		_, n, _ := in.callStatic(method("Len"), []*V{seq}, nil, True, s2.clone(), pos)
		if n[0] != seqLen(seq) {
			if n[0].k != KInt || !ISub(n[0], seqLen(seq)).isIntConst() {
				fail("the length of what is sorted")
			}
			in.missorts = true
		}
		// Swap exchanges two elements and leaves the others
		one := mkInt(vAtom(mkOpaque("sort:d", types.Typ[types.Int]), big1, nil))
		a := i
		b := IAdd(a, one)
		c := IAdd(b, one)
		for _, w := range [][2]*V{{a, b}, {b, a}} {
			_, _, s3 := in.callStatic(method("Swap"), []*V{seq, w[0], w[1]}, nil, True, s2.clone(), pos)
			if s3 == nil {
				fail("exchanging sorted elements")
			}
			now := in.resolve(s3, seq)
			for _, e := range [][2]*V{{a, b}, {b, a}, {c, c}} {
				at := func(k *V) *V { return in.canon(s2, seqElem(seq, k)) }
				got := in.canon(s3, seqElem(now, e[0]))
				if got == at(e[1]) {
					continue
				}
				mixed := got.k == KStruct
				for f := 0; mixed && f < len(got.args); f++ {
					mixed = false
					for _, k := range []*V{a, b, c} {
						if x := at(k); x.k == KStruct && f < len(x.args) && x.args[f] == got.args[f] {
							mixed = true
						}
					}
				}
				if got != at(a) && got != at(b) && got != at(c) && !mixed {
					fail("exchanging sorted elements")
				}
				in.missorts = true
			}
		}
		_, v, _ := in.callStatic(less, []*V{seq, i, j}, nil, True, s2, pos)
		return v[0]
	})
	in.missorts = false
}

func (in *Interp) sortSeq(s *V, typ types.Type, guard *V, st *State, pos token.Pos, less func(*State, *V, *V, *V) *V) {
	for _, lc := range leafConds(s) {
		l := lc.leaf
		if l.k == KNil || l.k == KUndef || l.k == KSeq && len(l.segs) == 0 {
			continue
		}
		if l.k != KSeq {
			fail("sort of %s", l)
		}
		cur := in.resolve(st, l)
		if len(cur.segs) == 0 {
			continue
		}
		et := typ
		for _, sg := range cur.segs {
			if sg.base != nil && sg.base.typ != nil {
				et = sg.base.typ
			}
		}
		if et == nil {
			fail("sort of untyped sequence")
		}
		et = types.NewSlice(elemTypeOf(et))
		base := mkOpaque("sortarg", et)
		seq := mkSeq([]Seg{{g: True, base: base}})
		i := mkInt(vAtom(mkOpaque("sort:i", types.Typ[types.Int]), big0, nil))
		j := mkInt(vAtom(mkOpaque("sort:j", types.Typ[types.Int]), big0, nil))
		s2 := st.clone()
		s2.over[l] = seq
		lt := less(s2, seq, i, j)
		op := "sorted"
		if in.missorts {
			op = "missorted"
		}
		ns := mkSeq([]Seg{{g: True, base: mkOpaque(op, et, cur, lt)}})
		if lc.cond == True && guard != False {
			st.over[l] = ns
		} else {
			st.over[l] = ite(lc.cond, ns, cur)
		}
	}
}

// ---------------------------------------------------------------- decoding

// readers are opaque terms "reader"(content) in a struct-less form.
func (in *Interp) decoders(name string, fn *ssa.Function, args []*V, guard *V, st *State, pos token.Pos) (*V, []*V, *State) {
	et := types.Universe.Lookup("error").Type()
	switch name {
	case "encoding/base64.NewDecoder":
		enc := in.canon(st, args[0])
		src := in.readerText(st, args[1])
		t := lift("b64", func(x []*V) *V { return mkOpaque("reader:base64", nil, x...) }, enc, src)
		return guard, []*V{t}, st
	case "compress/gzip.NewReader":
		src := in.readerText(st, args[0])
		t := lift("gz", func(x []*V) *V {
			if x[0].k == KUndef {
				return Undef
			}
			if x[0].isStrConst() {
				zr, err := gzip.NewReader(strings.NewReader(x[0].s))
				if err != nil {
					return mkTuple(mkNil(nil), mkOpaque("error:gzip", et))
				}
				b, err := io.ReadAll(zr)
				if err != nil {
					return mkTuple(mkOpaque("reader:bad", nil, Str(string(b))), mkNil(et))
				}
				return mkTuple(mkOpaque("reader:text", nil, Str(string(b))), mkNil(et))
			}
			return mkTuple(mkOpaque("reader:gzip", fn.Signature.Results().At(0).Type(), x[0]), mkOpaque("gzipErr", et, x[0]))
		}, src)
		return guard, []*V{getTuple(t, 0), getTuple(t, 1)}, st
	case "io/ioutil.ReadAll", "io.ReadAll":
		r := mapLeaves(args[0], func(r *V) *V {
			if r.k == KIface && r.args[0].k != KPtr {
				return r.args[0]
			}
			return r
		})
		bt := fn.Signature.Results().At(0).Type()
		t := lift("readall", func(x []*V) *V {
			r := x[0]
			if r.k == KUndef || r.k == KNil {
				return Undef
			}
			if r.k == KOpaque {
				switch r.op {
				case "reader:text":
					return mkTuple(strToBytes(r.args[0], bt), mkNil(et))
				case "reader:bad":
					return mkTuple(strToBytes(r.args[0], bt), mkOpaque("error:read", et))
				}
				return mkTuple(symOf(mkOpaque("readall", bt, r), bt), mkOpaque("readErr", et, r))
			}
			if r.k == KPtr || r.k == KIface {
				if p := in.readerText(st, x[0]); p != nil {
					return mkTuple(strToBytes(p, bt), mkNil(et))
				}
			}
			fail("read of %s", r)
			return nil
		}, r)
		return guard, []*V{getTuple(t, 0), getTuple(t, 1)}, st
	case "(*encoding/base64.Encoding).DecodeString":
		enc := in.canon(st, args[0])
		bt := fn.Signature.Results().At(0).Type()
		t := lift("b64s", func(x []*V) *V {
			if x[1].isStrConst() && strings.HasSuffix(x[0].op, "base64.StdEncoding") {
				b, err := base64.StdEncoding.DecodeString(x[1].s)
				if err != nil {
					return mkTuple(mkSeq(nil), mkOpaque("error:base64", et))
				}
				return mkTuple(strToBytes(Str(string(b)), bt), mkNil(et))
			}
			return mkTuple(symOf(mkOpaque("b64decode", bt, x...), bt), mkOpaque("b64Err", et, x...))
		}, enc, args[1])
		return guard, []*V{getTuple(t, 0), getTuple(t, 1)}, st
	}
	return guard, nil, st
}

// readField is the embedded field a structure's Read method comes from.
func readField(t types.Type) int {
	o, path, _ := types.LookupFieldOrMethod(t, true, nil, "Read")
	if _, ok := o.(*types.Func); ok && len(path) > 1 {
		return path[0]
	}
	return -1
}

// readerText is what a reader would yield.
func (in *Interp) readerText(st *State, r *V) *V {
	return mapLeaves(r, func(r *V) *V {
		t := r.typ
		if r.k == KIface {
			r = r.args[0]
		}
		switch r.k {
		case KUndef:
			return Undef
		case KOpaque:
			switch r.op {
			case "reader:text":
				return r.args[0]
			case "reader:base64":
				if r.args[1].isStrConst() && strings.HasSuffix(r.args[0].op, "base64.StdEncoding") {
					b, err := io.ReadAll(base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(r.args[1].s)))
					if err != nil {
						return mkStrTerm("badbase64", r.args[1])
					}
					return Str(string(b))
				}
				return mkStrTerm("base64", r.args...)
			}
			return mkStrTerm("readertext", r)
		case KPtr:
			if t != nil {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					if f := bufField(pt.Elem()); f >= 0 {
						return in.bufGet(st, r, pt.Elem())
					}
					c := in.load(st, r)
					if c.k == KStruct && len(c.args) > 0 && c.args[0].k == KStr {
						return c.args[0]
					}
					if i := readField(t); i >= 0 && c.k == KStruct {
						f := c.args[i]
						if f.k == KPtr || f.k == KNode {
							ft := pt.Elem().Underlying().(*types.Struct).Field(i).Type()
							return in.readerText(st, mapLeaves(f, func(p *V) *V { return mkIface(ft, p) }))
						}
					}
				}
			}
		}
		fail("reader %s", r)
		return nil
	})
}

// exitErrCode is the status an error made by the command line library carries.
func exitErrCode(e *V) (*V, bool) {
	if e.k == KIface {
		e = e.args[0]
	}
	if e.k == KOpaque && e.op == "exitErr" {
		return IMod(e.args[0], 256), true
	}
	return nil, false
}
