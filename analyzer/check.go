package main

// Obligations: pairs of functions of the rules (package spec) that must agree,
// one driving the code of the repository, one stating the property; or a
// predicate that must be true.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	prop, name      string
	code, rule, pre *ssa.Function
	check           bool
	ranges          map[string][2]*big.Int
	enums           map[string][]*V
	alts            []config
	doc             string
	others          []*ssa.Function // code of the same property that takes the same arguments
	partial         bool            // the rule says nothing where it does not return
}

type config struct {
	opaque  map[string]byte // 'o' pure, 'w' receiver overwritten, 's' the same for all arguments
	loc     string
	fields  map[string][2]*big.Int
	flags   map[string]bool        // whether the flags of the command line are given
	table   bool                   // an abstract table of embedded files
	initial bool                   // package variables hold their initial values
	watch   string                 // opaque call whose arguments are recorded
	res     map[string][2]*big.Int // ranges of results of opaque functions
	history *history               // what the program did before
}

// history is an earlier call of the same function, after which the call under
// examination finds the package variables as they were left.
type history struct {
	what   string
	call   bool
	fn     *ssa.Function        // the function called, nil for the same
	args   func(args []*V) []*V // the arguments of the earlier call
	pre    func(args []*V) *V   // where the two calls are compared
	before bool                 // the settings may have been others
}

type Result struct {
	prop    string
	name    string
	status  string // "ok", "violation", "undecided"
	detail  string
	pos     string
	cases   int
	funcs   map[string]bool
	loops   []string
	unknown map[string]int
	steps   int
	config  string
	sites   int
}

// collectObligs reads the rules.
func collectObligs(p *Program) []*Oblig {
	docs := map[string]string{}
	for _, f := range p.syntax["verif/spec"] {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				for _, c := range fd.Doc.List {
					docs[fd.Name.Name] += strings.TrimPrefix(c.Text, "//") + "\n"
				}
			}
		}
	}
	var out []*Oblig
	var names []string
	for n := range p.spec.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := p.spec.Members[n].(*ssa.Function)
		if !ok {
			continue
		}
		i := strings.LastIndex(n, "__")
		if i < 0 {
			continue
		}
		base, kind := n[:i], n[i+2:]
		if kind != "code" && kind != "check" {
			continue
		}
		o := &Oblig{prop: strings.SplitN(base, "_", 2)[0], name: base, code: fn, check: kind == "check", ranges: map[string][2]*big.Int{}, enums: map[string][]*V{}}
		if kind == "code" {
			o.rule = p.spec.Func(base + "__rule")
			if o.rule == nil {
				continue // dropped, see Program.dropped
			}
			if !types.Identical(stripNames(o.rule.Signature), stripNames(fn.Signature)) {
				panic("signatures of " + base + " differ")
			}
		}
		o.pre = p.spec.Func(base + "__pre")
		cfg := config{opaque: map[string]byte{}, loc: "any"}
		given := false
		for _, line := range strings.Split(docs[n], "\n") {
			w := strings.Fields(line)
			if len(w) < 2 || w[0] != "vf" {
				if strings.TrimSpace(line) != "" {
					o.doc += strings.TrimSpace(line) + " "
				}
				continue
			}
			switch w[1] {
			case "range":
				lo, _ := new(big.Int).SetString(w[3], 10)
				hi, _ := new(big.Int).SetString(w[4], 10)
				o.ranges[w[2]] = [2]*big.Int{lo, hi}
			case "enum":
				for _, x := range w[3:] {
					if a, b, ok := strings.Cut(x, ".."); ok {
						l, _ := strconv.Atoi(a)
						h, _ := strconv.Atoi(b)
						for k := l; k <= h; k++ {
							o.enums[w[2]] = append(o.enums[w[2]], Int(int64(k)))
						}
					} else if strings.HasPrefix(x, `"`) {
						s, _ := strconv.Unquote(x)
						o.enums[w[2]] = append(o.enums[w[2]], Str(s))
					} else if x == "true" || x == "false" {
						o.enums[w[2]] = append(o.enums[w[2]], Bool(x == "true"))
					} else {
						k, _ := strconv.Atoi(x)
						o.enums[w[2]] = append(o.enums[w[2]], Int(int64(k)))
					}
				}
			case "loc":
				cfg.loc = w[2]
			case "opaque":
				for _, x := range w[2:] {
					if n, r, ok := strings.Cut(x, "="); ok {
						a, b, _ := strings.Cut(r, "..")
						lo, _ := new(big.Int).SetString(a, 10)
						hi, _ := new(big.Int).SetString(b, 10)
						if cfg.res == nil {
							cfg.res = map[string][2]*big.Int{}
						}
						cfg.res["fn:"+n] = [2]*big.Int{lo, hi}
						x = n
					}
					if strings.HasSuffix(x, "!") {
						cfg.opaque[strings.TrimSuffix(x, "!")] = 'w'
					} else {
						cfg.opaque[x] = 'o'
					}
				}
			case "field": // the range of a field of unknown values
				lo, _ := new(big.Int).SetString(w[3], 10)
				hi, _ := new(big.Int).SetString(w[4], 10)
				if cfg.fields == nil {
					cfg.fields = map[string][2]*big.Int{}
				}
				cfg.fields["."+w[2]] = [2]*big.Int{lo, hi}
			case "table":
				cfg.table = true
			case "initial":
				cfg.initial = true
			case "where": // the rule only says something where it returns
				o.partial = true
			case "same": // opaque, and the same for all arguments
				for _, x := range w[2:] {
					cfg.opaque[x] = 's'
				}
			case "alt": // the settings up to here are one configuration, what follows is for the next
				o.alts = append(o.alts, cfg)
				cfg = config{opaque: map[string]byte{}, loc: cfg.loc}
			default:
				panic("directive " + line)
			}
			given = true
		}
		_ = given
		o.alts = append(o.alts, cfg)
		out = append(out, o)
	}
	for _, o := range out {
		for _, x := range out {
			if x != o && x.prop == o.prop && types.Identical(stripNames(x.code.Signature).Params(), stripNames(o.code.Signature).Params()) && len(o.others) < 3 {
				o.others = append(o.others, x.code)
			}
		}
	}
	return out
}

func stripNames(s *types.Signature) *types.Signature {
	f := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, f(s.Params()), f(s.Results()), s.Variadic())
}

// params makes the symbolic arguments, one set per combination of the
// enumerated values.
func (o *Oblig) params() [][]*V {
	sets := [][]*V{{}}
	sig := o.code.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		var vals []*V
		if e, ok := o.enums[p.Name()]; ok {
			vals = e
		} else {
			vals = []*V{o.sym(p.Name(), mkOpaque("param:"+o.name+"."+p.Name(), p.Type()), p.Type())}
		}
		// enumerated fields
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Struct); ok {
			for k := 0; k < pt.NumFields(); k++ {
				if e, ok := o.enums[p.Name()+"."+pt.Field(k).Name()]; ok {
					var nv []*V
					for _, v := range vals {
						for _, x := range e {
							fs := append([]*V{}, v.args...)
							fs[k] = x
							nv = append(nv, mkStruct(v.typ, fs))
						}
					}
					vals = nv
				}
			}
		}
		var ns [][]*V
		for _, s := range sets {
			for _, v := range vals {
				ns = append(ns, append(append([]*V{}, s...), v))
			}
		}
		sets = ns
	}
	return sets
}

func (o *Oblig) sym(name string, t *V, typ types.Type) *V {
	if r, ok := o.ranges[name]; ok && isTime(typ) {
		return mkTime(vAtom(mkOpaque("nanos", nil, t), r[0], r[1]), symLoc(t))
	}
	if isTime(typ) {
		return symOf(t, typ)
	}
	if r, ok := o.ranges[name]; ok {
		return mkInt(vAtom(t, r[0], r[1]))
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		fs := make([]*V, s.NumFields())
		for i := range fs {
			fs[i] = o.sym(name+"."+s.Field(i).Name(), mkOpaque("."+s.Field(i).Name(), s.Field(i).Type(), t), s.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	return symOf(t, typ)
}

var baseInterp *Interp

// obligTime is the time limit of one obligation under one configuration.
var obligTime = 60 * time.Second

func (in *Interp) fork() *Interp {
	n := *in
	n.glob = map[*ssa.Global]int{}
	for k, v := range in.glob {
		n.glob[k] = v
	}
	n.gname = map[int]*ssa.Global{}
	for k, v := range in.gname {
		n.gname[k] = v
	}
	n.objType = map[int]types.Type{}
	for k, v := range in.objType {
		n.objType[k] = v
	}
	n.symObj = map[*V]int{}
	for k, v := range in.symObj {
		n.symObj[k] = v
	}
	n.init = map[int]*V{}
	for k, v := range in.init {
		n.init[k] = v
	}
	n.trace = map[*ssa.Function]int{}
	n.unknown = map[string]int{}
	n.reads = map[*ssa.Global]bool{}
	n.loopsSeen, n.facts, n.writes, n.env, n.appRuns, n.ctx, n.stack = nil, nil, nil, nil, nil, nil, nil
	n.steps = 0
	return &n
}

func setupInterp(p *Program) {
	baseInterp = newInterp(p)
	baseInterp.initGlobals(p.root, p.cli, p.utils, p.spec)
}

func newRun(p *Program, cfg config) *Interp {
	in := baseInterp.fork()
	// the results of operations may depend on the switches of a run
	liftMemo = map[string]*V{}
	symLocMode, symFields = cfg.loc, cfg.fields
	in.cfg = cfg
	if cfg.initial {
		in.base = in.base.clone()
		for o, v := range in.initial {
			in.base.mem[o] = v
		}
	}
	if cfg.table {
		in.abstractTable()
	}
	in.opaque = func(fn *ssa.Function) bool {
		if fn.Package() == nil || !p.own[fn.Package().Pkg] {
			return false
		}
		_, ok := cfg.opaque[fnKey(fn)]
		return ok
	}
	return in
}

type outcome struct {
	guard *V
	vals  []*V
	eff   []*Effect
	dead  []deadRec
}

func (in *Interp) runFn(fn *ssa.Function, args []*V) outcome {
	d0 := len(deadEffects)
	st := in.base.clone()
	g, vals, ns := in.callFunc(fn, args, nil, True, st, token.NoPos)
	out := outcome{guard: g, eff: ns.eff, dead: append([]deadRec{}, deadEffects[d0:]...)}
	for _, v := range vals {
		out.vals = append(out.vals, in.canon(ns, v))
	}
	return out
}

// try runs f, turning an undecided panic into a message.
func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				msg = u.msg
				if msg == "" {
					msg = "undecided"
				}
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

// uncertain operations: differently written code may use them to the same end.
func uncertainOp(op string) string {
	switch op {
	case "call:math.Sin", "call:math.Cos", "call:math.Tan", "call:math.Sqrt", "call:float32":
		return ""
	}
	for _, p := range []string{"extern:", "call:", "pure:", "fmt:", "fn:", "invoke:", "out", "dateformat:", "timeformat:", "path:", "env:", "rec:"} {
		if strings.HasPrefix(op, p) {
			if p == "dateformat:" || p == "timeformat:" {
				return p
			}
			return op
		}
	}
	switch op {
	case "sprintf", "collect", "final", "sum", "sumn", "kexit", "seqstore", "subseq", "strindex", "substr", "runestr", "runeat", "bytes", "sorted", "strlen", "strlen+", "time.Date", "dateday", "adddate", "daystart", "maplen", "mapget", "haskey", "splice", "streq", "strless", "keyeq", "timeformat", "time.Year", "time.Month", "time.Day", "time.Hour", "time.Weekday", "time.YearDay", "time.ISOYear", "time.ISOWeek", "quote", "fmtextra", "elem", "len", "makeseq", "json", "jsonindent", "error:new", "itoa":
		return op
	}
	if strings.HasPrefix(op, "iop") {
		return op
	}
	return ""
}

// subterms visits every term inside v once.
func subterms(v *V, visit func(*V)) {
	subtermsIf(v, func(v *V) bool { visit(v); return true })
}

// subtermsIf goes on below a term only where visit says so.
func subtermsIf(v *V, visit func(*V) bool) {
	seen := map[*V]bool{}
	seenP := map[*Poly]bool{}
	var rec func(v *V)
	var poly func(p *Poly)
	poly = func(p *Poly) {
		if p == nil || seenP[p] {
			return
		}
		seenP[p] = true
		for _, t := range p.ms {
			for _, a := range t.as {
				if a.fp != nil {
					poly(a.fp)
				} else {
					rec(a.v)
				}
			}
		}
	}
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !visit(v) {
			return
		}
		poly(v.poly)
		rec(v.loc)
		for _, a := range v.args {
			rec(a)
		}
		for _, a := range v.kids {
			rec(a)
		}
		if v.disc != nil {
			poly(v.disc.poly)
			rec(v.disc.v)
		}
		for _, s := range v.segs {
			rec(s.g)
			rec(s.el)
			rec(s.base)
		}
	}
	rec(v)
}

func families(v *V, m map[string]bool) {
	subterms(v, func(v *V) {
		if v.op != "" {
			if f := uncertainOp(v.op); f != "" {
				m[f] = true
			}
		}
	})
}

// oneAtom splits c*A - c*B into A and B when they are terms of the same kind.
func oneAtom(d *Poly) (*V, *V) {
	if len(d.ms) != 2 || d.c.Sign() != 0 || new(big.Int).Add(d.ms[0].c, d.ms[1].c).Sign() != 0 {
		return nil, nil
	}
	x, y := d.ms[0], d.ms[1]
	if len(x.as) != len(y.as) {
		return nil, nil
	}
	var p, q *Atom
	for i := range x.as {
		if x.as[i] != y.as[i] {
			if p != nil {
				return nil, nil
			}
			p, q = x.as[i], y.as[i]
		}
	}
	if p == nil || p.v == nil || q.v == nil || p.v.op != q.v.op || p.v.k != q.v.k || len(p.v.args) != len(q.v.args) {
		return nil, nil
	}
	return p.v, q.v
}

func clip(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// decideIn discharges one obligation in one configuration.
func (o *Oblig) decideIn(p *Program, cfg config) (r *Result) {
	if msg := try(func() { r = o.decideCfg(p, cfg) }); msg != "" {
		r = &Result{prop: o.prop, name: o.name, status: "undecided", detail: msg, funcs: map[string]bool{}, unknown: map[string]int{}}
	}
	return r
}

// decide discharges one obligation.
func (o *Oblig) decide(p *Program) *Result {
	var last *Result
	var viol *Result
	for i, cfg := range o.alts {
		liftCount = 0
		deadline = time.Now().Add(obligTime)
		r := o.decideIn(p, cfg)
		r.config = fmt.Sprintf("configuration %d of %d", i+1, len(o.alts))
		if r.status == "ok" {
			return r
		}
		if r.status == "violation" {
			viol = r
		}
		last = r
	}
	// a configuration that keeps the named functions whole on both sides may
	// find a difference where another cannot tell
	if viol != nil {
		return viol
	}
	// dates in UTC are a special case in which more can be told
	for _, cfg := range o.alts {
		if cfg.loc == "utc" {
			continue
		}
		cfg.loc = "utc"
		liftCount = 0
		deadline = time.Now().Add(obligTime)
		if r := o.decideIn(p, cfg); r.status == "violation" {
			r.config = "dates in UTC"
			r.detail = "[dates in UTC] " + r.detail
			return r
		}
	}
	// where the package keeps a state of its own, runs from the beginning
	if baseInterp.stateful() {
		end := time.Now().Add(obligTime / 3)
		for _, h := range o.histories() {
			for _, cfg := range o.alts {
				cfg.initial, cfg.history = true, h
				liftCount = 0
				if deadline = end; time.Now().After(end) {
					return last
				}
				r := o.decideIn(p, cfg)
				if os.Getenv("SV_HIST") != "" {
					fmt.Println("HIST", o.name, h.what, r.status, clip(r.detail, 300))
				}
				if r.status == "violation" {
					r.config = h.what
					r.detail = "[" + h.what + "] " + r.detail
					return r
				}
			}
		}
	}
	return last
}

// stateful tells whether functions of the program store to variables of it
// that are not settings.
func (in *Interp) stateful() bool {
	for g := range in.symG {
		if !in.setting(g) {
			return true
		}
	}
	return false
}

// setting: an exported variable of a basic type, set by the users of the package.
func (in *Interp) setting(g *ssa.Global) bool {
	_, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
	return ok && token.IsExported(g.Name())
}

// histories are the earlier calls that are considered: none, one of the same
// function with the same arguments, with slightly different numbers, with quite
// different ones, and one of another function the property speaks of.
func (o *Oblig) histories() []*history {
	hs := []*history{{what: "in the first call"}}
	sig := o.code.Signature
	same := func(args []*V) []*V { return args }
	hs = append(hs,
		&history{what: "after a call with the same arguments and other settings", call: true, args: same, before: true},
		&history{what: "after a call with the same arguments", call: true, args: same})
	for _, x := range o.others {
		hs = append(hs, &history{what: "after a call of " + x.Name(), call: true, fn: x, args: same})
	}
	kind := func(i int) types.Type {
		p := sig.Params().At(i)
		if o.enums[p.Name()] != nil {
			return nil
		}
		return p.Type()
	}
	ints, vary := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		if t := kind(i); t != nil {
			ints = ints || isInteger(t)
			vary = vary || isInteger(t) || isString(t) || isTime(t)
		}
	}
	if ints {
		for _, c := range []int64{-2, -1, 1, 2} {
			c := c
			hs = append(hs, &history{what: fmt.Sprintf("after a call with numbers changed by %d", c), call: true, args: func(args []*V) []*V {
				var out []*V
				for i, a := range args {
					if t := kind(i); t != nil && isInteger(t) {
						a = IAdd(a, Int(c))
					}
					out = append(out, a)
				}
				return out
			}})
		}
	}
	if !vary {
		return hs
	}
	varies := func(i int) bool {
		t := kind(i)
		return t != nil && (isInteger(t) || !ints && (isString(t) || isTime(t)))
	}
	prior := func(args []*V) []*V {
		var out []*V
		for i, a := range args {
			if varies(i) {
				p := sig.Params().At(i)
				a = o.sym(p.Name(), mkOpaque("param:"+o.name+".before."+p.Name(), p.Type()), p.Type())
			}
			out = append(out, a)
		}
		return out
	}
	return append(hs, &history{what: "after a call with quite other arguments", call: true, args: prior, pre: func(args []*V) *V {
		r := True
		for i, a := range prior(args) {
			if !varies(i) {
				continue
			}
			switch t := kind(i); {
			case isInteger(t):
				r = And(r, Or(ICmp(">", ISub(a, args[i]), Int(20)), ICmp("<", ISub(a, args[i]), Int(-20))))
			case isString(t):
				r = And(r, Not(SEq(a, args[i])))
			default:
				d := ISub(timeNanos(a), timeNanos(args[i]))
				y := mkBigInt(new(big.Int).Mul(bi(500), dayNanos))
				r = And(r, Or(ICmp(">", d, y), ICmp("<", d, ISub(Int(0), y))))
			}
		}
		return r
	}})
}

// recall puts the program in the state an earlier call leaves.
func (in *Interp) recall(h *history, fn *ssa.Function, args []*V) {
	for g := range in.symG {
		o, ok := in.glob[g]
		if !ok || !in.setting(g) {
			continue
		}
		in.base.mem[o] = symOf(mkOpaque("global:"+g.Name(), in.objType[o]), in.objType[o])
		if h.before {
			in.base.mem[o] = symOf(mkOpaque("before:"+g.Name(), in.objType[o]), in.objType[o])
		}
	}
	if !h.call {
		return
	}
	if h.fn != nil {
		fn = h.fn
	}
	st := in.base.clone()
	_, _, ns := in.callFunc(fn, h.args(args), nil, True, st, token.NoPos)
	ns.eff = nil
	for g := range in.symG {
		if o, ok := in.glob[g]; ok && in.setting(g) {
			ns.mem[o] = symOf(mkOpaque("global:"+g.Name(), in.objType[o]), in.objType[o])
		}
	}
	in.base = ns
}

func (o *Oblig) decideCfg(p *Program, cfg config) *Result {
	r := &Result{prop: o.prop, name: o.name, status: "ok", funcs: map[string]bool{}, unknown: map[string]int{}}
	r.pos = p.pos(o.code.Pos())
	symLocMode, symFields = cfg.loc, cfg.fields
	for _, args := range o.params() {
		r.cases++
		var in *Interp
		if m := try(func() { in = newRun(p, cfg) }); m != "" {
			r.status, r.detail = "undecided", m
			return r
		}
		var code, rule outcome
		pre := True
		msg := try(func() {
			if o.pre != nil {
				pin := newRun(p, cfg)
				po := pin.runFn(o.pre, args)
				pre = And(po.guard, po.vals[0])
			}
			if pre == False {
				return
			}
			if cfg.history != nil {
				d0 := len(deadEffects)
				in.recall(cfg.history, o.code, args)
				deadEffects = deadEffects[:d0]
				if cfg.history.pre != nil {
					pre = And(pre, cfg.history.pre(args))
				}
			}
			code = in.runFn(o.code, args)
		})
		for f, n := range in.trace {
			if f.Pkg != nil && p.own[f.Pkg.Pkg] {
				r.funcs[f.String()] = true
				_ = n
			}
		}
		for k, n := range in.unknown {
			r.unknown[k] += n
		}
		for _, l := range in.loopsSeen {
			s := l.pos
			switch {
			case l.unrolled > 0:
				s += fmt.Sprintf(" unrolled %d times", l.unrolled)
			case l.n != nil:
				s += " trip count " + clip(l.n.String(), 200)
			default:
				s += " general recurrence"
			}
			r.loops = append(r.loops, s)
		}
		r.steps += in.steps
		if msg != "" {
			r.status, r.detail = "undecided", caseName(o, args)+msg
			return r
		}
		if pre == False {
			continue
		}
		if o.check {
			v := And(code.guard, code.vals[0])
			bad := feasiblePart(And(pre, Not(v)))
			if bad != False {
				fam := map[string]bool{}
				families(bad, fam)
				r.detail = caseName(o, args) + "fails " + clip(describeCond(bad), 900)
				if onlyNeutral(fam) {
					r.status = "violation"
				} else {
					r.status = "undecided"
				}
				return r
			}
			continue
		}
		rin := newRun(p, cfg)
		if cfg.history != nil {
			rin.recall(&history{}, nil, nil)
		}
		if m := try(func() { rule = rin.runFn(o.rule, args) }); m != "" {
			r.status, r.detail = "undecided", caseName(o, args)+"rule: "+m
			return r
		}
		wholeResults([2][]*V{append([]*V{code.guard}, code.vals...), append([]*V{rule.guard}, rule.vals...)})
		cmp := func(what string, a, b *V) bool {
			if pre != True {
				a, b = iteRaw(pre, a, Undef), iteRaw(pre, b, Undef)
			}
			if a == b {
				return true
			}
			same, certain, d := compareV(a, b)
			if same {
				return true
			}
			d = caseName(o, args) + what + ": " + d
			if !certain {
				if w := confirm(a, b); w != "" {
					certain, d = true, caseName(o, args)+what+": "+w+"; "+d
				}
			}
			if certain {
				r.status = "violation"
			} else {
				r.status = "undecided"
			}
			r.detail = d
			return false
		}
		both := code.guard
		if o.partial {
			if !cmp("returns normally", And(code.guard, rule.guard), rule.guard) {
				return r
			}
			both = rule.guard
		} else if !cmp("returns normally", code.guard, rule.guard) {
			return r
		}
		for i := range code.vals {
			n := o.code.Signature.Results().At(i).Name()
			if n == "" {
				n = fmt.Sprintf("result %d", i)
			}
			a, b := code.vals[i], rule.vals[i]
			if both != True {
				a, b = iteRaw(both, a, Undef), iteRaw(both, b, Undef)
			}
			if !cmp(n, a, b) {
				return r
			}
		}
		if m := effDiff(code.eff, rule.eff); m != "" {
			r.status, r.detail = "undecided", caseName(o, args)+m
			return r
		}
	}
	return r
}

// compareV compares two canonical values; if they differ, it tells whether
// that is certain and describes one difference.
func compareV(a, b *V) (same, certain bool, detail string) {
	if a == b {
		return true, false, ""
	}
	var path string
	var x, y *V
	found, seen := 0, 0
	df := newDiffer(a, b)
	apart(a, b, func(p, q *V) bool {
		f := df.diff(p, q, newEnv(), newEnv(), nil)
		seen++
		if f == nil {
			return seen >= 200
		}
		if found == 0 || f.certain {
			path, x, y, certain = strings.Join(f.path, "; "), f.x, f.y, f.certain
		}
		found++
		return f.certain || seen >= 60
	})
	if found == 0 && seen >= 200 {
		return false, false, "too many paths to compare"
	}
	if found == 0 {
		return true, false, ""
	}
	if !certain {
		if lost := lostInputs(); lost != "" {
			return false, true, fmt.Sprintf("the result no longer depends on %s; %s: code gives %s, property requires %s", lost, path, clip(x.String(), dclip), clip(y.String(), dclip))
		}
	}
	return false, certain, fmt.Sprintf("%s: code gives %s, property requires %s", path, clip(x.String(), dclip), clip(y.String(), dclip))
}

// feasiblePart keeps of a condition one path whose ranges are consistent.
func feasiblePart(c *V) *V {
	r := False
	walkPath(c, newEnv(), True, func(leaf *V, path *V) bool {
		if leaf == True {
			r = path
			return true
		}
		return false
	})
	return r
}

// walkPath is walk with the path condition; it stops when visit says so.
func walkPath(v *V, e *Env, path *V, visit func(leaf, path *V) bool) bool {
	if v.k != KNode {
		return visit(v, path)
	}
	for j := range v.kids {
		ne, ok := v.enter(j, e)
		if !ok {
			continue
		}
		sel := make([]*V, len(v.kids))
		for i := range sel {
			sel[i] = Bool(i == j)
		}
		if walkPath(v.kids[j], ne, And(path, mkNode(v.disc, v.cuts, v.keys, sel)), visit) {
			return true
		}
	}
	return false
}

// apart narrows two values to the consistent paths on which they differ and
// visits them until told to stop.
func apart(a, b *V, visit func(a, b *V) bool) {
	walkPath(Not(sameV(a, b)), newEnv(), True, func(leaf, path *V) bool {
		return leaf == True && visit(iteDeepU(path, a), iteDeepU(path, b))
	})
}

func iteDeepU(c, a *V) *V {
	if a.k == KStruct || a.k == KTuple {
		fs := make([]*V, len(a.args))
		for i, x := range a.args {
			fs[i] = iteDeepU(c, x)
		}
		if a.k == KTuple {
			return mkTuple(fs...)
		}
		return mkStruct(a.typ, fs)
	}
	return iteRaw(c, a, Undef)
}

// sameV is the condition under which two values are the same.
func sameV(a, b *V) *V {
	if a == b {
		return True
	}
	if (a.k == KStruct || a.k == KTuple) && a.k == b.k && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = And(r, sameV(a.args[i], b.args[i]))
			if r == False {
				break
			}
		}
		return r
	}
	d := minDisc([]*V{a, b})
	if d == nil {
		switch {
		case a.k == KInt && b.k == KInt:
			return ICmp("==", a, b)
		case a.k == KTime && b.k == KTime:
			if a.loc != b.loc {
				return False
			}
			return ICmp("==", mkInt(a.poly), mkInt(b.poly))
		case a.k == KOpaque && b.k == KOpaque && !isBinder(a) && a.op == b.op && len(a.args) == len(b.args) && typeID(a.typ) == typeID(b.typ):
			r := True
			for i := range a.args {
				r = And(r, sameV(a.args[i], b.args[i]))
			}
			return r
		}
		return False
	}
	key := fmt.Sprintf("same:%d,%d", a.id, b.id)
	if v, ok := liftMemo[key]; ok {
		return v
	}
	cuts, keys, n := mergeParts(d, []*V{a, b})
	kids := make([]*V, n)
	for j := range kids {
		kids[j] = sameV(pick(a, d, cuts, keys, j), pick(b, d, cuts, keys, j))
	}
	r := mkNode(d, cuts, keys, kids)
	liftMemo[key] = r
	return r
}

func effDiff(a, b []*Effect) string {
	x, y := effOps(a), effOps(b)
	if strings.Join(x, ",") != strings.Join(y, ",") {
		return fmt.Sprintf("side effects differ: %v, rule %v", x, y)
	}
	return ""
}

// effOps lists the effects other than text on the standard streams.
func effOps(es []*Effect) []string {
	var r []string
	for _, e := range es {
		switch e.op {
		case "stderr", "stdout":
		case "loop":
			if in := effOps(e.body); len(in) > 0 {
				r = append(r, "loop("+strings.Join(in, ",")+")")
			}
		default:
			r = append(r, e.op)
		}
	}
	return r
}

func onlyNeutral(m map[string]bool) bool {
	for f := range m {
		if !strings.HasPrefix(f, "fn:") && f != "itoa" && f != "elem" && f != "len" {
			return false
		}
	}
	return true
}

func caseName(o *Oblig, args []*V) string {
	var s []string
	sig := o.code.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if _, ok := o.enums[p.Name()]; ok {
			s = append(s, p.Name()+"="+args[i].String())
		}
		if st, ok := p.Type().Underlying().(*types.Struct); ok && args[i].k == KStruct {
			for k := 0; k < st.NumFields(); k++ {
				if _, ok := o.enums[p.Name()+"."+st.Field(k).Name()]; ok {
					s = append(s, p.Name()+"."+st.Field(k).Name()+"="+args[i].args[k].String())
				}
			}
		}
	}
	if len(s) == 0 {
		return ""
	}
	return "[" + strings.Join(s, " ") + "] "
}

// describeCond gives one region where a condition holds.
func describeCond(c *V) string {
	var conds []string
	for c.k == KNode {
		for j, k := range c.kids {
			if k != False {
				conds = append(conds, clip(c.disc.String(), 160)+" "+c.region(j))
				c = k
				break
			}
		}
	}
	if len(conds) == 0 {
		return "always"
	}
	return "when " + strings.Join(conds, " and ")
}

var dclip = 500

func init() {
	if os.Getenv("SV_CLIP") != "" {
		dclip, _ = strconv.Atoi(os.Getenv("SV_CLIP"))
	}
}
