package main

// Float values: polynomials with rational coefficients over integer atoms and
// irreducible float terms. Arithmetic is that of the real numbers; decimal
// constants stand for the decimal written.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
)

// a float value is poly/den in lowest terms
func mkRat(p *Poly, d *big.Int) *V {
	if d.Sign() < 0 {
		p, d = pScale(p, bi(-1)), new(big.Int).Neg(d)
	}
	g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(p.c), d)
	for _, t := range p.ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(big1) > 0 {
		p = pQuo(p, g)
		d = new(big.Int).Quo(d, g)
	}
	return intern(fmt.Sprintf("f:%d/%s", p.id, d), &V{k: KFlt, op: "rat", poly: p, den: d})
}

// pQuo divides all coefficients by a common factor.
func pQuo(p *Poly, g *big.Int) *Poly {
	m := map[string]*Mono{}
	for _, t := range p.ms {
		m[t.key] = &Mono{t.as, new(big.Int).Quo(t.c, g), t.key}
	}
	return mkPoly(new(big.Int).Quo(p.c, g), m)
}

func mkF(op string, args ...*V) *V {
	raw := intern("fr:"+op+":"+ids(args), &V{k: KFlt, op: op, args: args})
	return mkRat(vAtom(raw, nil, nil), big1)
}
func fvalOf(t *V) *V { return mkF("fval", t) }

func FConst(f float64) *V {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return mkF("fconst" + strconv.FormatFloat(f, 'g', -1, 64))
	}
	if r := simpleRat(f); r != nil {
		return fRat(r)
	}
	if r := simpleRat(f / math.Pi); r != nil {
		return FBin("*", fRat(r), mkF("pi"))
	}
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	if !ok {
		return mkF("fconst" + strconv.FormatFloat(f, 'x', -1, 64))
	}
	return fRat(r)
}

// simpleRat is the fraction with a small denominator that f stands for, if
// there is one (f = 2.0/60 is 1/30).
func simpleRat(f float64) *big.Rat {
	if f == 0 {
		return new(big.Rat)
	}
	x := new(big.Rat)
	x.SetFloat64(f)
	neg := x.Sign() < 0
	x.Abs(x)
	tol := new(big.Rat).Mul(x, big.NewRat(1, 1<<51))
	// continued fraction
	h0, h1 := bi(0), bi(1)
	k0, k1 := bi(1), bi(0)
	y := new(big.Rat).Set(x)
	for i := 0; i < 40; i++ {
		a := floorDiv(y.Num(), y.Denom())
		h0, h1 = h1, new(big.Int).Add(new(big.Int).Mul(a, h1), h0)
		k0, k1 = k1, new(big.Int).Add(new(big.Int).Mul(a, k1), k0)
		if k1.Cmp(bi(100000)) > 0 {
			return nil
		}
		r := new(big.Rat).SetFrac(h1, k1)
		d := new(big.Rat).Sub(r, x)
		d.Abs(d)
		if d.Cmp(tol) <= 0 && (r.Sign() != 0) {
			if neg {
				r.Neg(r)
			}
			return r
		}
		y.Sub(y, ratOf(a))
		if y.Sign() == 0 {
			return nil
		}
		y.Inv(y)
	}
	return nil
}

func fRat(r *big.Rat) *V {
	return mkRat(pConst(new(big.Int).Set(r.Num())), new(big.Int).Set(r.Denom()))
}

func I2F(a *V) *V {
	return lift("i2f", func(x []*V) *V {
		if x[0].k != KInt {
			return mkF("i2f", x[0])
		}
		return mkRat(x[0].poly, big1)
	}, a)
}

func isFAtom(a *Atom) bool { return a.v != nil && a.v.k == KFlt }

var hasFloatMemo = map[int]bool{}

func hasFloat(p *Poly) bool {
	if r, ok := hasFloatMemo[p.id]; ok {
		return r
	}
	r := false
	for _, t := range p.ms {
		for _, a := range t.as {
			r = r || isFAtom(a)
		}
	}
	hasFloatMemo[p.id] = r
	return r
}

func fIsInt(v *V) bool {
	return v.k == KFlt && v.op == "rat" && v.den.Cmp(big1) == 0 && !hasFloat(v.poly)
}
func fConstRat(v *V) (*big.Rat, bool) {
	if v.k == KFlt && v.op == "rat" && v.poly.isConst() {
		return new(big.Rat).SetFrac(v.poly.c, v.den), true
	}
	return nil, false
}
func fConstVal(v *V) (float64, bool) {
	if r, ok := fConstRat(v); ok {
		f, _ := r.Float64()
		return f, true
	}
	return 0, false
}

func FBin(op string, a, b *V) *V {
	return lift("fbin"+op, func(x []*V) *V {
		l, r := x[0], x[1]
		if l.k != KFlt || r.k != KFlt {
			return mkF("bad"+op, l, r)
		}
		switch op {
		case "+":
			return mkRat(pLin(l.poly, r.den, r.poly, l.den), new(big.Int).Mul(l.den, r.den))
		case "-":
			return mkRat(pLin(l.poly, r.den, r.poly, new(big.Int).Neg(l.den)), new(big.Int).Mul(l.den, r.den))
		case "*":
			if len(l.poly.ms)*len(r.poly.ms) > 4000 {
				panic(undecided{"product too large"})
			}
			return mkRat(pMul(l.poly, r.poly), new(big.Int).Mul(l.den, r.den))
		case "/":
			if r.poly.isConst() && r.poly.c.Sign() != 0 {
				return mkRat(pScale(l.poly, r.den), new(big.Int).Mul(l.den, r.poly.c))
			}
			if l.poly.isConst() && l.poly.c.Sign() == 0 {
				return l
			}
			if l == r {
				return I2F(Int(1))
			}
			return mkF("/", l, r)
		}
		panic("fbin " + op)
	}, a, b)
}
func FNeg(a *V) *V {
	return lift("fneg", func(x []*V) *V {
		if x[0].k != KFlt {
			return mkF("fneg", x[0])
		}
		return mkRat(pScale(x[0].poly, bi(-1)), x[0].den)
	}, a)
}

// IFloor is the integer floor of a float term: integer parts and division by
// an integer are taken out.
func IFloor(a *V) *V {
	return lift("ifloor", func(x []*V) *V {
		v := x[0]
		if v.k != KFlt {
			return mkInt(vAtom(mkOpaque("ifloor", nil, v), nil, nil))
		}
		if !hasFloat(v.poly) {
			return mkInt(pFdiv(v.poly, v.den))
		}
		// floor(P/D) = floor(floor(P)/D); the integer part of P is exact
		return mkInt(pFdiv(floorOf(v.poly), v.den))
	}, a)
}

// floorOf is floor(p) for a polynomial with integer coefficients.
func floorOf(p *Poly) *Poly {
	ip, fp := map[string]*Mono{}, map[string]*Mono{}
	for i := range p.ms {
		t := p.ms[i]
		isF := false
		for _, a := range t.as {
			isF = isF || isFAtom(a)
		}
		if isF {
			fp[t.key] = &Mono{t.as, t.c, t.key}
		} else {
			ip[t.key] = &Mono{t.as, t.c, t.key}
		}
	}
	ipart := mkPoly(p.c, ip)
	if len(fp) == 0 {
		return ipart
	}
	fpart := mkPoly(big0, fp)
	b := fpart.rbounds(nil)
	var lo, hi *big.Int
	if b.lo != nil {
		lo = floorDiv(b.lo.Num(), b.lo.Denom())
	}
	if b.hi != nil {
		hi = floorDiv(b.hi.Num(), b.hi.Denom())
		if b.hi.IsInt() && b.hiOpen {
			hi = new(big.Int).Sub(hi, big1)
		}
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return pAdd(ipart, pConst(lo))
	}
	return pAdd(ipart, vAtom(mkOpaque("ifloor", nil, mkRat(fpart, big1)), lo, hi))
}

// floorArg is the argument of a floor atom, if a is one.
func floorArg(a *Atom) *Poly {
	if a.v != nil && a.v.k == KOpaque && a.v.op == "ifloor" && a.v.args[0].k == KFlt && a.v.args[0].op == "rat" {
		return a.v.args[0].poly
	}
	return nil
}

// ITrunc is Go's float to int conversion.
func ITrunc(a *V) *V {
	return lift("itrunc", func(x []*V) *V {
		v := x[0]
		if v.k != KFlt {
			return IFloor(v)
		}
		if fIsInt(v) {
			return mkInt(v.poly)
		}
		b := v.rbounds(nil)
		if b.lo != nil && b.lo.Sign() >= 0 {
			return IFloor(v)
		}
		neg := ISub(Int(0), IFloor(FNeg(v)))
		if b.hi != nil && b.hi.Sign() <= 0 {
			return neg
		}
		return ite(FCmp(">=", v, I2F(Int(0))), IFloor(v), neg)
	}, a)
}
func FFloor(a *V) *V { return I2F(IFloor(a)) }
func FCeil(a *V) *V  { return FNeg(FFloor(FNeg(a))) }
func FAbs(a *V) *V {
	return lift("fabs", func(x []*V) *V {
		return ite(FCmp(">=", x[0], I2F(Int(0))), x[0], FNeg(x[0]))
	}, a)
}

// FMod is math.Mod with a constant divisor.
func FMod(a, b *V) *V {
	return lift("fmod", func(x []*V) *V {
		c, ok := fConstRat(x[1])
		if !ok || c.Sign() == 0 || x[0].k != KFlt {
			return mkF("call:math.Mod", x...)
		}
		m := fRat(new(big.Rat).Abs(c))
		return FBin("-", x[0], FBin("*", m, I2F(ITrunc(FBin("/", x[0], m)))))
	}, a, b)
}

func FCall(name string, args ...*V) *V {
	return lift("fcall"+name, func(x []*V) *V {
		if (name == "math.Sin" || name == "math.Cos") && x[0].k == KFlt {
			if p := x[0].poly; len(p.ms) > 0 && p.ms[0].c.Sign() < 0 {
				r := mkF("call:"+name, FNeg(x[0]))
				if name == "math.Sin" {
					return FNeg(r)
				}
				return r
			}
		}
		return mkF("call:"+name, x...)
	}, args...)
}

// FCmp compares floats (finite values).
func FCmp(op string, a, b *V) *V {
	return lift("fcmp"+op, func(x []*V) *V {
		l, r := x[0], x[1]
		if l.k != KFlt || r.k != KFlt {
			return boolTerm("fcmp"+op, x...)
		}
		switch op {
		case "==":
			return And(FCmp("<=", l, r), FCmp(">=", l, r))
		case "!=":
			return Not(FCmp("==", l, r))
		case ">":
			return Not(FCmp("<=", l, r))
		case ">=":
			return Not(FCmp("<", l, r))
		}
		p := pLin(l.poly, r.den, r.poly, new(big.Int).Neg(l.den)) // sign of l-r
		if !hasFloat(p) {
			return ICmp(op, mkInt(p), Int(0))
		}
		b := p.rbounds(nil)
		if op == "<=" {
			if b.hi != nil && b.hi.Sign() <= 0 {
				return True
			}
			if b.lo != nil && (b.lo.Sign() > 0 || b.lo.Sign() == 0 && b.loOpen) {
				return False
			}
		} else {
			if b.hi != nil && (b.hi.Sign() < 0 || b.hi.Sign() == 0 && b.hiOpen) {
				return True
			}
			if b.lo != nil && b.lo.Sign() >= 0 {
				return False
			}
		}
		q, s := p.primitive()
		cut := new(big.Rat).SetFrac(new(big.Int).Neg(p.c), s) // p = s*q + c
		d := getDisc('f', q, nil)
		if s.Sign() > 0 {
			return mkNode(d, []Cut{{cut, op == "<="}}, nil, []*V{True, False})
		}
		// s*q + c <= 0  <=>  q >= cut
		return mkNode(d, []Cut{{cut, op != "<="}}, nil, []*V{False, True})
	}, a, b)
}

// primitive is q, s with p = s*q + const, q without constant, coprime
// coefficients and a positive first one.
func (p *Poly) primitive() (*Poly, *big.Int) {
	g := big0
	for _, t := range p.ms {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	s := g
	if p.ms[0].c.Sign() < 0 {
		s = new(big.Int).Neg(g)
	}
	q := map[string]*Mono{}
	for _, t := range p.ms {
		q[t.key] = &Mono{t.as, new(big.Int).Quo(t.c, s), t.key}
	}
	return mkPoly(big0, q), s
}

// ---------------------------------------------------------------- ranges

type rbnd struct {
	lo, hi         *big.Rat // nil: unbounded
	loOpen, hiOpen bool
}

func rMeet(a, b rbnd) rbnd {
	if b.lo != nil && (a.lo == nil || b.lo.Cmp(a.lo) > 0 || b.lo.Cmp(a.lo) == 0 && b.loOpen) {
		a.lo, a.loOpen = b.lo, b.loOpen
	}
	if b.hi != nil && (a.hi == nil || b.hi.Cmp(a.hi) < 0 || b.hi.Cmp(a.hi) == 0 && b.hiOpen) {
		a.hi, a.hiOpen = b.hi, b.hiOpen
	}
	return a
}
func (b rbnd) empty() bool {
	if b.lo == nil || b.hi == nil {
		return false
	}
	c := b.lo.Cmp(b.hi)
	return c > 0 || c == 0 && (b.loOpen || b.hiOpen)
}
func rScale(a rbnd, c *big.Rat) rbnd {
	var r rbnd
	mul := func(x *big.Rat) *big.Rat {
		if x == nil {
			return nil
		}
		return new(big.Rat).Mul(x, c)
	}
	switch c.Sign() {
	case 0:
		z := new(big.Rat)
		return rbnd{z, z, false, false}
	case 1:
		r = rbnd{mul(a.lo), mul(a.hi), a.loOpen, a.hiOpen}
	default:
		r = rbnd{mul(a.hi), mul(a.lo), a.hiOpen, a.loOpen}
	}
	return r
}
func rAdd(a, b rbnd) rbnd {
	var r rbnd
	if a.lo != nil && b.lo != nil {
		r.lo, r.loOpen = new(big.Rat).Add(a.lo, b.lo), a.loOpen || b.loOpen
	}
	if a.hi != nil && b.hi != nil {
		r.hi, r.hiOpen = new(big.Rat).Add(a.hi, b.hi), a.hiOpen || b.hiOpen
	}
	return r
}
func rMul(a, b rbnd) rbnd {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var r rbnd
		type end struct {
			v *big.Rat
			o bool
		}
		for _, x := range []end{{a.lo, a.loOpen}, {a.hi, a.hiOpen}} {
			for _, y := range []end{{b.lo, b.loOpen}, {b.hi, b.hiOpen}} {
				p := new(big.Rat).Mul(x.v, y.v)
				o := x.o && y.v.Sign() != 0 || y.o && x.v.Sign() != 0
				if r.lo == nil || p.Cmp(r.lo) < 0 || p.Cmp(r.lo) == 0 && !o {
					r.lo, r.loOpen = p, o
				}
				if r.hi == nil || p.Cmp(r.hi) > 0 || p.Cmp(r.hi) == 0 && !o {
					r.hi, r.hiOpen = p, o
				}
			}
		}
		return r
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		return rbnd{lo: new(big.Rat).Mul(a.lo, b.lo)}
	}
	return rbnd{}
}
func rInt(lo, hi *big.Int) rbnd {
	var r rbnd
	if lo != nil {
		r.lo = ratOf(lo)
	}
	if hi != nil {
		r.hi = ratOf(hi)
	}
	return r
}

func (v *V) rbounds(env *Env) rbnd {
	if v.k != KFlt || v.op != "rat" {
		return rbnd{}
	}
	return rScale(v.poly.rbounds(env), new(big.Rat).SetFrac(big1, v.den))
}

var fSymBounds = map[int]rbnd{}

// fAtomBounds is the range of an irreducible float term.
func fAtomBounds(v *V, env *Env) rbnd {
	one := new(big.Rat).SetInt64(1)
	switch v.op {
	case "fval":
		return fSymBounds[v.args[0].id]
	case "call:math.Sin", "call:math.Cos":
		return rbnd{new(big.Rat).Neg(one), one, false, false}
	case "pi":
		return rbnd{big.NewRat(3141592653, 1000000000), big.NewRat(3141592654, 1000000000), true, true}
	case "call:math.Sqrt", "call:math.Abs":
		return rbnd{lo: new(big.Rat)}
	case "/":
		a, b := v.args[0].rbounds(env), v.args[1].rbounds(env)
		if b.lo != nil && b.lo.Sign() > 0 || b.hi != nil && b.hi.Sign() < 0 {
			inv := rbnd{loOpen: b.hiOpen, hiOpen: b.loOpen}
			if b.hi != nil && b.hi.Sign() != 0 {
				inv.lo = new(big.Rat).Inv(b.hi)
			} else if b.lo != nil && b.lo.Sign() > 0 {
				inv.lo, inv.loOpen = new(big.Rat), true
			}
			if b.lo != nil && b.lo.Sign() != 0 {
				inv.hi = new(big.Rat).Inv(b.lo)
			} else if b.hi != nil && b.hi.Sign() < 0 {
				inv.hi, inv.hiOpen = new(big.Rat), true
			}
			return rMul(a, inv)
		}
	}
	return rbnd{}
}

var rbMemo = map[int]rbnd{}

// rbounds is the range of a polynomial over the reals.
func (p *Poly) rbounds(env *Env) rbnd {
	if env == nil {
		if r, ok := rbMemo[p.id]; ok {
			return r
		}
	}
	r := p.rsimple(env)
	if p.isConst() {
		return r
	}
	r = rMeet(r, p.rdirect(env))
	r = rMeet(r, relaxBounds(p, env))
	if env == nil {
		rbMemo[p.id] = r
	}
	return r
}

// rdirect is what the environment says about p itself.
func (p *Poly) rdirect(env *Env) rbnd {
	if env == nil || p.isConst() {
		return rbnd{}
	}
	q, s := p.primitive()
	var r rbnd
	if b, ok := env.fl[q.id]; ok {
		r = rMeet(r, b)
	}
	if b, ok := env.in[q.id]; ok {
		r = rMeet(r, rInt(b.lo, b.hi))
	}
	r = rScale(r, ratOf(s))
	c := ratOf(p.c)
	return rAdd(r, rbnd{c, c, false, false})
}

func atomBounds(a *Atom, env *Env) rbnd {
	var r rbnd
	if isFAtom(a) {
		r = fAtomBounds(a.v, env)
	} else {
		r = rInt(a.lo, a.hi)
	}
	if env != nil {
		r = rMeet(r, pAtom(a).rdirect(env))
		if a.fp != nil {
			b := a.fp.rbounds(env)
			r = rMeet(r, rFloor(rScale(b, new(big.Rat).SetFrac(big1, a.fm))))
		} else if fa := floorArg(a); fa != nil {
			r = rMeet(r, rFloor(fa.rbounds(env)))
		}
	}
	return r
}

func rFloor(b rbnd) rbnd {
	var r rbnd
	if b.lo != nil {
		r.lo = ratOf(floorDiv(b.lo.Num(), b.lo.Denom()))
	}
	if b.hi != nil {
		h := floorDiv(b.hi.Num(), b.hi.Denom())
		if b.hi.IsInt() && b.hiOpen {
			h = new(big.Int).Sub(h, big1)
		}
		r.hi = ratOf(h)
	}
	return r
}

func (p *Poly) rsimple(env *Env) rbnd {
	c := ratOf(p.c)
	r := rbnd{c, c, false, false}
	for _, t := range p.ms {
		r = rAdd(r, rScale(monoBounds(t.as, env), ratOf(t.c)))
	}
	return r
}
func monoBounds(as []*Atom, env *Env) rbnd {
	b := atomBounds(as[0], env)
	for i, a := range as[1:] {
		b2 := rMul(b, atomBounds(a, env))
		if a == as[i] && len(as) == 2 {
			z := new(big.Rat)
			b2 = rMeet(b2, rbnd{lo: z})
		}
		b = b2
	}
	return b
}

type rmono struct {
	as []*Atom
	c  *big.Rat
}

// relaxBounds bounds p by replacing every floor with its linear bounds.
func relaxBounds(p *Poly, env *Env) rbnd {
	any := false
	for _, t := range p.ms {
		if len(t.as) == 1 && (t.as[0].fp != nil || floorArg(t.as[0]) != nil) {
			any = true
		}
	}
	if !any {
		return rbnd{}
	}
	up, uo := relax(p, env, true)
	lo, lo_ := relax(p, env, false)
	return rbnd{lo, up, lo_, uo}
}

func relax(p *Poly, env *Env, up bool) (*big.Rat, bool) {
	c := ratOf(p.c)
	ms := map[string]*rmono{}
	add := func(key string, as []*Atom, k *big.Rat) {
		if m, ok := ms[key]; ok {
			m.c = new(big.Rat).Add(m.c, k)
			if m.c.Sign() == 0 {
				delete(ms, key)
			}
			return
		}
		ms[key] = &rmono{as, k}
	}
	for _, t := range p.ms {
		add(t.key, t.as, ratOf(t.c))
	}
	open := false
	var best *big.Rat
	bestOpen := false
	eval := func() {
		keys := make([]string, 0, len(ms))
		for k := range ms {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r := rbnd{c, c, open, open}
		for _, k := range keys {
			m := ms[k]
			r = rAdd(r, rScale(monoBounds(m.as, env), m.c))
		}
		v, o := r.lo, r.loOpen
		if up {
			v, o = r.hi, r.hiOpen
		}
		if env != nil && len(ms) > 0 {
			// what the path says about this very form
			if d, ok := ratDirect(ms, c, env); ok {
				x, xo := d.lo, d.loOpen
				if up {
					x, xo = d.hi, d.hiOpen
				}
				if x != nil && (v == nil || (up && x.Cmp(v) < 0) || (!up && x.Cmp(v) > 0)) {
					v, o = x, xo || open
				}
			}
		}
		if v == nil {
			return
		}
		if best == nil || up && v.Cmp(best) < 0 || !up && v.Cmp(best) > 0 || v.Cmp(best) == 0 && o {
			best, bestOpen = v, o
		}
	}
	for n := 0; n < 200; n++ {
		var sel *rmono
		var key string
		for k, m := range ms {
			if len(m.as) != 1 {
				continue
			}
			a := m.as[0]
			if a.fp == nil && floorArg(a) == nil {
				continue
			}
			if sel == nil || a.id > sel.as[0].id {
				sel, key = m, k
			}
		}
		if sel == nil {
			break
		}
		delete(ms, key)
		a := sel.as[0]
		arg, m := a.fp, a.fm
		off := new(big.Rat)
		takeUpper := (sel.c.Sign() > 0) == up
		if arg == nil {
			arg, m = floorArg(a), big1
			if !takeUpper { // floor(t) > t-1
				off.SetInt64(-1)
				open = true
			}
		} else if !takeUpper { // floor(q/m) >= (q-m+1)/m
			off.SetFrac(new(big.Int).Sub(big1, m), m)
		}
		f := new(big.Rat).Mul(sel.c, new(big.Rat).SetFrac(big1, m))
		c = new(big.Rat).Add(c, new(big.Rat).Mul(sel.c, off))
		c.Add(c, new(big.Rat).Mul(f, ratOf(arg.c)))
		for _, t := range arg.ms {
			add(t.key, t.as, new(big.Rat).Mul(f, ratOf(t.c)))
		}
		eval()
	}
	return best, bestOpen
}

// ratDirect looks a rational form up in the environment.
func ratDirect(ms map[string]*rmono, c *big.Rat, env *Env) (rbnd, bool) {
	if len(env.in) == 0 && len(env.fl) == 0 {
		return rbnd{}, false
	}
	den := big.NewInt(1)
	for _, m := range ms {
		d := m.c.Denom()
		g := new(big.Int).GCD(nil, nil, den, d)
		den = new(big.Int).Mul(den, new(big.Int).Quo(d, g))
	}
	pm := map[string]*Mono{}
	for k, m := range ms {
		n := new(big.Rat).Mul(m.c, ratOf(den))
		pm[k] = &Mono{m.as, new(big.Int).Set(n.Num()), k}
	}
	p := mkPoly(big0, pm)
	if p.isConst() {
		return rbnd{}, false
	}
	d := p.rdirect(env)
	if d.lo == nil && d.hi == nil {
		return d, false
	}
	return rAdd(rScale(d, new(big.Rat).SetFrac(big1, den)), rbnd{c, c, false, false}), true
}

// fltBounds is the range of a float value under a guard.
func fltBounds(v, guard *V) rbnd {
	x := iteU(guard, v, Undef)
	var r rbnd
	first := true
	walk(x, newEnv(), func(leaf *V, e *Env) {
		if leaf.k == KUndef {
			return
		}
		b := leaf.rbounds(e)
		if first {
			r, first = b, false
			return
		}
		if r.lo != nil && (b.lo == nil || b.lo.Cmp(r.lo) < 0) {
			r.lo, r.loOpen = b.lo, b.loOpen
		}
		if r.hi != nil && (b.hi == nil || b.hi.Cmp(r.hi) > 0) {
			r.hi, r.hiOpen = b.hi, b.hiOpen
		}
	})
	return r
}

// toF32 rounds a value of a 32 bit type; whole numbers below 2^24 stay as they
// are.
func toF32(v *V, t types.Type, guard *V) *V {
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Float32 {
		return v
	}
	whole := true
	walk(v, newEnv(), func(l *V, _ *Env) {
		if l.k != KUndef && (l.k != KFlt || l.op != "rat" || l.den.Cmp(big1) != 0 || hasFloat(l.poly)) {
			whole = false
		}
	})
	if whole {
		r := fltBounds(v, guard)
		if m := new(big.Rat).SetInt64(1 << 24); r.lo != nil && r.hi != nil && r.hi.Cmp(m) <= 0 && r.lo.Cmp(new(big.Rat).Neg(m)) >= 0 {
			return v
		}
	}
	return FCall("float32", v)
}
