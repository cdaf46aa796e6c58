package main

// The canonical values of the analyzer against direct evaluation, on random
// expressions (tests the analyzer, not the repository).

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"
)

type gen struct {
	r    *rand.Rand
	syms []*V
	text string
}

// evaluation: a value together with the function that computes it.
type ev struct {
	v *V
	f func([]int64) *big.Rat // ints and floats
}
type bv struct {
	v *V
	f func([]int64) bool
}

func floorRat(r *big.Rat) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Div(r.Num(), r.Denom())) // Euclidean with positive divisor
}
func truncRat(r *big.Rat) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Quo(r.Num(), r.Denom()))
}

func (g *gen) int(d int) ev {
	if d == 0 || g.r.Intn(6) == 0 {
		if g.r.Intn(3) == 0 {
			c := int64(g.r.Intn(41) - 20)
			return ev{Int(c), func([]int64) *big.Rat { return big.NewRat(c, 1) }}
		}
		i := g.r.Intn(len(g.syms))
		return ev{g.syms[i], func(x []int64) *big.Rat { return big.NewRat(x[i], 1) }}
	}
	a := g.int(d - 1)
	switch g.r.Intn(9) {
	case 0:
		b := g.int(d - 1)
		return ev{IAdd(a.v, b.v), func(x []int64) *big.Rat { return new(big.Rat).Add(a.f(x), b.f(x)) }}
	case 1:
		b := g.int(d - 1)
		return ev{ISub(a.v, b.v), func(x []int64) *big.Rat { return new(big.Rat).Sub(a.f(x), b.f(x)) }}
	case 2:
		c := int64(g.r.Intn(9) - 4)
		return ev{IMul(a.v, Int(c)), func(x []int64) *big.Rat { return new(big.Rat).Mul(a.f(x), big.NewRat(c, 1)) }}
	case 3:
		c := int64(g.r.Intn(9) + 1)
		return ev{IQuo(a.v, Int(c)), func(x []int64) *big.Rat { return truncRat(new(big.Rat).Quo(a.f(x), big.NewRat(c, 1))) }}
	case 4:
		c := int64(g.r.Intn(9) + 1)
		return ev{IRem(a.v, Int(c)), func(x []int64) *big.Rat {
			v := a.f(x).Num()
			return new(big.Rat).SetInt(new(big.Int).Rem(v, bi(c)))
		}}
	case 5:
		c := int64(g.r.Intn(9) + 1)
		return ev{IFdiv(a.v, c), func(x []int64) *big.Rat { return floorRat(new(big.Rat).Quo(a.f(x), big.NewRat(c, 1))) }}
	case 6:
		f := g.flt(d - 1)
		return ev{IFloor(f.v), func(x []int64) *big.Rat { return floorRat(f.f(x)) }}
	case 7:
		f := g.flt(d - 1)
		return ev{ITrunc(f.v), func(x []int64) *big.Rat { return truncRat(f.f(x)) }}
	}
	c, b := g.bool(d-1), g.int(d-1)
	return ev{ite(c.v, a.v, b.v), func(x []int64) *big.Rat {
		if c.f(x) {
			return a.f(x)
		}
		return b.f(x)
	}}
}

func (g *gen) flt(d int) ev {
	if d <= 0 || g.r.Intn(4) == 0 {
		a := g.int(d)
		return ev{I2F(a.v), a.f}
	}
	a := g.flt(d - 1)
	switch g.r.Intn(7) {
	case 0:
		b := g.flt(d - 1)
		return ev{FBin("+", a.v, b.v), func(x []int64) *big.Rat { return new(big.Rat).Add(a.f(x), b.f(x)) }}
	case 1:
		b := g.flt(d - 1)
		return ev{FBin("-", a.v, b.v), func(x []int64) *big.Rat { return new(big.Rat).Sub(a.f(x), b.f(x)) }}
	case 2:
		c := big.NewRat(int64(g.r.Intn(9)-4), 2)
		return ev{FBin("*", a.v, fRat(c)), func(x []int64) *big.Rat { return new(big.Rat).Mul(a.f(x), c) }}
	case 3:
		c := big.NewRat(int64(g.r.Intn(9)+1), 1)
		return ev{FBin("/", a.v, fRat(c)), func(x []int64) *big.Rat { return new(big.Rat).Quo(a.f(x), c) }}
	case 4:
		return ev{FAbs(a.v), func(x []int64) *big.Rat { return new(big.Rat).Abs(a.f(x)) }}
	case 5:
		return ev{FFloor(a.v), func(x []int64) *big.Rat { return floorRat(a.f(x)) }}
	}
	c, b := g.bool(d-1), g.flt(d-1)
	return ev{ite(c.v, a.v, b.v), func(x []int64) *big.Rat {
		if c.f(x) {
			return a.f(x)
		}
		return b.f(x)
	}}
}

func (g *gen) bool(d int) bv {
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[g.r.Intn(6)]
	cmp := func(a, b *big.Rat) bool {
		c := a.Cmp(b)
		switch op {
		case "==":
			return c == 0
		case "!=":
			return c != 0
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		}
		return c >= 0
	}
	if d > 0 {
		switch g.r.Intn(6) {
		case 0:
			a, b := g.bool(d-1), g.bool(d-1)
			return bv{And(a.v, b.v), func(x []int64) bool { return a.f(x) && b.f(x) }}
		case 1:
			a, b := g.bool(d-1), g.bool(d-1)
			return bv{Or(a.v, b.v), func(x []int64) bool { return a.f(x) || b.f(x) }}
		case 2:
			a := g.bool(d - 1)
			return bv{Not(a.v), func(x []int64) bool { return !a.f(x) }}
		case 3:
			a, b := g.flt(d-1), g.flt(d-1)
			return bv{FCmp(op, a.v, b.v), func(x []int64) bool { return cmp(a.f(x), b.f(x)) }}
		}
	}
	a, b := g.int(d), g.int(d)
	return bv{ICmp(op, a.v, b.v), func(x []int64) bool { return cmp(a.f(x), b.f(x)) }}
}

// eval evaluates a canonical value.
func (g *gen) eval(v *V, x []int64) *big.Rat {
	switch v.k {
	case KNode:
		var p *big.Rat
		if v.disc.kind != 'i' && v.disc.kind != 'f' {
			panic("disc " + v.disc.String())
		}
		p = g.poly(v.disc.poly, x)
		for i, c := range v.cuts {
			if n := p.Cmp(c.v); n < 0 || n == 0 && c.after {
				return g.eval(v.kids[i], x)
			}
		}
		return g.eval(v.kids[len(v.kids)-1], x)
	case KInt:
		return g.poly(v.poly, x)
	case KBool:
		if v == True {
			return big.NewRat(1, 1)
		}
		return new(big.Rat)
	case KFlt:
		if v.op == "rat" {
			return new(big.Rat).Quo(g.poly(v.poly, x), new(big.Rat).SetInt(v.den))
		}
	}
	panic("eval " + v.String())
}
func (g *gen) poly(p *Poly, x []int64) *big.Rat {
	r := new(big.Rat).SetInt(p.c)
	for _, m := range p.ms {
		t := new(big.Rat).SetInt(m.c)
		for _, a := range m.as {
			var w *big.Rat
			if a.fp != nil {
				w = floorRat(new(big.Rat).Quo(g.poly(a.fp, x), new(big.Rat).SetInt(a.fm)))
			} else {
				w = nil
				for i, s := range g.syms {
					if pAtomOf(s) == a || s.poly.ms[0].as[0] == a {
						w = big.NewRat(x[i], 1)
					}
				}
				if w == nil {
					panic(unknownAtom{fmt.Sprint(a.v)})
				}
			}
			t.Mul(t, w)
		}
		r.Add(r, t)
	}
	return r
}

type unknownAtom struct{ s string }

func TestCanonical(t *testing.T) {
	bad, odd := 0, 0
	for seed := int64(0); seed < 1500 && bad < 5; seed++ {
		g := &gen{r: rand.New(rand.NewSource(seed))}
		rng := [][2]int64{{-30, 30}, {0, 50}, {-7, 12}}
		for i := 0; i < 2; i++ {
			r := rng[g.r.Intn(3)]
			g.syms = append(g.syms, mkInt(vAtom(mkOpaque(fmt.Sprintf("param:t%d_%d_%d", i, r[0]+100, r[1]), nil), bi(r[0]), bi(r[1]))))
		}
		var e ev
		switch g.r.Intn(3) {
		case 0:
			e = g.int(4)
		case 1:
			e = g.flt(4)
		default:
			b := g.bool(4)
			e = ev{b.v, func(x []int64) *big.Rat {
				if b.f(x) {
					return big.NewRat(1, 1)
				}
				return new(big.Rat)
			}}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unknownAtom); !ok {
						t.Errorf("seed %d: %v", seed, r)
						bad++
					}
					odd++
				}
			}()
			lo0, hi0 := g.syms[0].poly.bounds()
			lo1, hi1 := g.syms[1].poly.bounds()
			for n := 0; n < 60; n++ {
				x := []int64{lo0.Int64() + g.r.Int63n(hi0.Int64()-lo0.Int64()+1), lo1.Int64() + g.r.Int63n(hi1.Int64()-lo1.Int64()+1)}
				if got, want := g.eval(e.v, x), e.f(x); got.Cmp(want) != 0 {
					t.Errorf("seed %d at %v: %v, want %v: %s", seed, x, got, want, clip(e.v.String(), 300))
					bad++
					return
				}
				if e.v.k == KInt || e.v.k == KNode {
					if l, h, any := intBounds(e.v, True); any && e.v.k == KInt {
						w := e.f(x)
						if l != nil && w.Cmp(new(big.Rat).SetInt(l)) < 0 || h != nil && w.Cmp(new(big.Rat).SetInt(h)) > 0 {
							t.Errorf("seed %d at %v: %v outside %v..%v", seed, x, w, l, h)
							bad++
							return
						}
					}
				}
			}
		}()
	}
	t.Log("not evaluated:", odd)
}
