package main

// The commands of the command line program: what reaches standard output and
// the output file, and when the program ends with an error status.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ending is one way a command ends.
type ending struct {
	guard *V
	code  *V // exit status
	eff   []*Effect
}

// commandRun is the abstract result of a command.
type commandRun struct {
	status *V // 0 or 1
	stdout *V
	files  *V
	calls  *V // arguments of the watched call
}

func (in *Interp) endings(g *V, vals []*V, st *State, deads []deadRec, runErrFails bool) []ending {
	var out []ending
	for _, d := range deads {
		if len(d.ctx) > 0 {
			fail("the program may end inside a loop (%s)", d.e.pos)
		}
		code := Int(2)
		if d.e.op == "exit" {
			code = d.e.args[0]
		}
		out = append(out, ending{d.e.guard, code, d.eff})
	}
	if g == False {
		return out
	}
	code := Int(0)
	if n := len(vals); n > 0 {
		code = mapLeaves(vals[n-1], func(e *V) *V {
			if c, ok := exitErrCode(e); ok {
				return c
			}
			switch e.k {
			case KNil:
				return Int(0)
			case KUndef:
				return Undef
			}
			if !runErrFails {
				return Int(0)
			}
			return mapLeaves(isNilV(e), func(b *V) *V {
				if b == True {
					return Int(0)
				}
				return Int(1)
			})
		})
	}
	return append(out, ending{g, code, st.eff})
}

// summary merges the endings of a command.
func summary(es []ending) *commandRun {
	r := &commandRun{status: Undef, stdout: Undef, files: Undef}
	for _, e := range es {
		bad := mapLeaves(e.code, func(c *V) *V {
			if c.k != KInt {
				return Undef
			}
			return mapLeaves(ICmp("==", c, Int(0)), func(z *V) *V {
				if z == True {
					return Int(0)
				}
				return Int(1)
			})
		})
		r.status = iteRaw(e.guard, bad, r.status)
		out, files := delivered(e.eff)
		good := And(e.guard, ICmp("==", bad, Int(0)))
		r.stdout = iteRaw(good, out, r.stdout)
		r.files = iteRaw(good, files, r.files)
	}
	return r
}

// delivered is the text on standard output and what was done to files, newest
// first: (name, how opened, text, rest).
func delivered(eff []*Effect) (out, files *V) {
	out, files = Str(""), mkOpaque("nofile", nil)
	for _, e := range eff {
		switch e.op {
		case "stdout":
			out = iteRaw(e.guard, SConcat(out, e.args[0]), out)
		case "open":
			how := mapLeaves(e.args[1], func(f *V) *V {
				if !f.isIntConst() {
					return Str("unknown")
				}
				k := f.intVal()
				switch {
				case k&3 == 0:
					return Str("read")
				case k&0x80 != 0:
					return Str("only when new")
				case k&0x200 == 0 && k&0x400 != 0:
					return Str("append")
				case k&0x200 == 0:
					return Str("overwrite in place")
				case k&0x40 == 0:
					return Str("only when existing")
				}
				return Str("replace")
			})
			files = iteRaw(e.guard, liftTerm4(e.args[0], how, Str(""), files), files)
		case "filewrite":
			s := e.args[1]
			files = iteRaw(e.guard, mapLeaves(files, func(f *V) *V {
				if f.k == KOpaque && f.op == "written" && (e.args[0].k != KOpaque || e.args[0].op != "file" || e.args[0].args[0] == f.args[0]) {
					return liftTerm4(f.args[0], f.args[1], SConcat(f.args[2], s), f.args[3])
				}
				return mkOpaque("extern:write", nil, f, e.args[0], s)
			}), files)
		case "loop":
			o, f := delivered(e.body)
			if o != Str("") {
				out = SConcat(out, mkStrTerm("extern:loop", e.loop, o))
			}
			if f.k != KOpaque || f.op != "nofile" {
				files = mkOpaque("extern:loop", nil, e.loop, f, files)
			}
		case "stderr", "fileclose", "filesync", "apprun", "panic", "exit":
		default:
			files = mkOpaque("extern:effect", nil, Str(e.op), files)
		}
	}
	return trimNL(out), mapLeaves(files, func(f *V) *V {
		if f.k == KOpaque && f.op == "written" {
			return liftTerm4(f.args[0], f.args[1], trimNL(f.args[2]), f.args[3])
		}
		return f
	})
}

func liftTerm4(a, b, c, d *V) *V { return mkOpaque("written", nil, a, b, c, d) }

// trimNL drops line ends after the text, which say nothing.
func trimNL(s *V) *V {
	return mapLeaves(s, func(s *V) *V {
		if s.isStrConst() {
			return Str(strings.TrimRight(s.s, "\n"))
		}
		if s.k == KStr && s.op == "concat" {
			n := len(s.args)
			if l := s.args[n-1]; l.isStrConst() {
				if t := strings.TrimRight(l.s, "\n"); t != l.s {
					r := Str("")
					for _, a := range s.args[:n-1] {
						r = SConcat(r, a)
					}
					return SConcat(r, Str(t))
				}
			}
		}
		return s
	})
}

// command finds a command of the program by name, as registered by main.
type command struct {
	fn    *ssa.Function
	binds []*V
	st    *State
	flags []*V
	fails bool // main ends with an error status when the command returns an error
}

func (in *Interp) command(name string) *command {
	if in.p.cli == nil {
		fail("the command line program cannot be analysed")
	}
	m := in.p.cli.Func("main")
	if m == nil {
		fail("no main function")
	}
	in.appRuns = nil
	d0 := len(deadEffects)
	g, _, _ := in.callFunc(m, nil, nil, True, in.base.clone(), token.NoPos)
	fails := false
	for _, d := range deadEffects[d0:] {
		if d.e.op != "exit" || d.e.args[0] != Int(0) {
			fails = true
		}
	}
	_ = g
	if len(in.appRuns) == 0 {
		fail("!main does not run the application")
	}
	if len(in.appRuns) != 1 {
		fail("main runs the application %d times", len(in.appRuns))
	}
	ar := in.appRuns[0]
	app := ar.app
	if app.k != KStruct {
		fail("application %s", app)
	}
	as := app.typ.Underlying().(*types.Struct)
	for i := 0; i < as.NumFields(); i++ {
		if as.Field(i).Name() != "Commands" {
			continue
		}
		cs := in.resolveAll(ar.st, app.args[i])
		if cs.k == KNil {
			fail("!the application has no commands")
		}
		if cs.k != KSeq {
			fail("commands %s", cs)
		}
		known := true
		for _, s := range cs.segs {
			if s.el == nil || s.g != True || s.el.k != KStruct {
				known = false
				continue
			}
			c := &command{st: ar.st, fails: fails}
			ct := s.el.typ.Underlying().(*types.Struct)
			hit := false
			for k := 0; k < ct.NumFields(); k++ {
				v := s.el.args[k]
				switch ct.Field(k).Name() {
				case "Name":
					hit = v == Str(name)
					if !v.isStrConst() {
						known = false
					}
				case "Aliases", "ShortName":
					if v.k != KNil && v != Str("") && !(v.k == KSeq && len(v.segs) == 0) {
						known = false
					}
				case "Action":
					if v.k == KIface {
						v = v.args[0]
					}
					if v.k == KFunc {
						c.fn, c.binds = v.fn, v.args
					}
				case "Flags":
					f := in.resolveAll(ar.st, v)
					if f.k == KSeq {
						for _, s := range f.segs {
							c.flags = append(c.flags, s.el)
						}
					}
				}
			}
			if hit {
				if c.fn == nil {
					fail("the action of %s", name)
				}
				return c
			}
		}
		if known {
			fail("!the application has no command %s", name)
		}
	}
	fail("there is no command %s", name)
	return nil
}

func cmdConfig() config {
	return config{loc: "utc", watch: "fn:GetCalDays", opaque: map[string]byte{"GetCalDays": 'o', "UposathaMoon.IcalEvent": 'o', "HalfMoon.IcalEvent": 'o', "MajorEvent.IcalEvent": 'o', "Event.IcalEvent": 'o', "AstroMoon.IcalEvent": 'o', "icalEvent": 'o'}}
}

func (in *Interp) runCommand(fn *ssa.Function, binds []*V, st *State, fails bool) *commandRun {
	in.watched = Undef
	d0 := len(deadEffects)
	st = st.clone()
	st.eff = nil
	var args []*V
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		args = append(args, symOf(mkOpaque(fmt.Sprintf("param:command.%d", i), fn.Signature.Params().At(i).Type()), fn.Signature.Params().At(i).Type()))
	}
	g, vals, ns := in.callFunc(fn, args, binds, True, st, token.NoPos)
	r := summary(in.endings(g, vals, ns, append([]deadRec{}, deadEffects[d0:]...), fails))
	r.calls = in.watched
	return r
}

// commandTask compares a registered command with a rule, once for each choice
// of flags given on the command line.
func commandTask(prop, name, cmd, rule, what, text string) *task {
	return &task{prop, name, text, func(p *Program) *Result {
		r := &Result{prop: prop, name: name, status: "ok", funcs: map[string]bool{}, unknown: map[string]int{}}
		for k := 0; k < 8; k++ {
			flags := map[string]bool{"from": k&1 != 0, "to": k&2 != 0, "output": k&4 != 0}
			r.cases++
			commandCase(p, r, flags, cmd, rule, what)
			if r.status != "ok" {
				var gs []string
				for _, n := range []string{"from", "to", "output"} {
					if flags[n] {
						gs = append(gs, "--"+n)
					}
				}
				r.detail = fmt.Sprintf("[given: %s] %s", strings.Join(gs, " "), r.detail)
				break
			}
		}
		return r
	}}
}

func commandCase(p *Program, r *Result, flags map[string]bool, cmd, rule, what string) {
	cfg := cmdConfig()
	cfg.flags = flags
	deadline = time.Now().Add(obligTime)
	in := newRun(p, cfg)
	var a, b *commandRun
	var c *command
	msg := try(func() {
		c = in.command(cmd)
		r.pos = p.pos(c.fn.Pos())
		a = in.runCommand(c.fn, c.binds, c.st, c.fails)
	})
	for f := range in.trace {
		if f.Pkg != nil && p.own[f.Pkg.Pkg] {
			r.funcs[f.String()] = true
		}
	}
	for k, n := range in.unknown {
		r.unknown[k] += n
	}
	r.steps += in.steps
	if msg != "" {
		r.refuse(msg)
		return
	}
	rf := p.spec.Func(rule)
	if rf == nil {
		r.status, r.detail = "undecided", "the rule does not type-check against this tree"
		return
	}
	rin := newRun(p, cfg)
	if msg := try(func() { b = rin.runCommand(rf, nil, rin.base, true) }); msg != "" {
		r.status, r.detail = "undecided", "rule: "+msg
		return
	}
	type pair struct {
		what string
		x, y *V
	}
	var ps []pair
	good := ICmp("==", b.status, Int(0))
	when := func(v *V) *V { return iteRaw(good, v, Undef) }
	switch what {
	case "content":
		ps = []pair{{"standard output", when(a.stdout), when(b.stdout)}, {"output file", when(contents(a.files)), when(contents(b.files))}}
	case "status":
		ps = []pair{{"exit status", a.status, b.status}}
	case "mode":
		ps = []pair{{"how the output file is opened", when(modes(a.files)), when(modes(b.files))}}
	case "dates":
		ps = []pair{{"requested range", when(a.calls), when(b.calls)}}
	}
	var w [2][]*V
	for _, q := range ps {
		w[0], w[1] = append(w[0], q.x), append(w[1], q.y)
	}
	wholeResults(w)
	for _, q := range ps {
		same, certain, d := compareV(q.x, q.y)
		if same {
			continue
		}
		r.detail = q.what + ": " + d
		r.status = "undecided"
		if certain {
			r.status = "violation"
		}
		return
	}
}

// yearsTask checks what the years program writes.
func yearsTask() *task {
	return &task{"C37", "C37_file", "the years program writes the table of 1970-2041, made with the exceptions off, to years.csv", func(p *Program) *Result {
		r := &Result{prop: "C37", name: "C37_file", status: "ok", funcs: map[string]bool{}, cases: 1}
		cfg := config{loc: "utc", opaque: map[string]byte{"yearsCsv": 'g'}}
		deadline = time.Now().Add(obligTime)
		in := newRun(p, cfg)
		var a, b *commandRun
		msg := try(func() {
			if p.utils == nil || p.utils.Func("main") == nil {
				fail("the years program cannot be analysed")
			}
			r.pos = p.pos(p.utils.Func("main").Pos())
			a = in.runCommand(p.utils.Func("main"), nil, in.base, false)
			in2 := newRun(p, cfg)
			b = in2.runCommand(p.spec.Func("rule_years"), nil, in2.base, false)
		})
		for f := range in.trace {
			if f.Pkg != nil && p.own[f.Pkg.Pkg] {
				r.funcs[f.String()] = true
			}
		}
		r.steps = in.steps
		if msg != "" {
			r.status, r.detail = "undecided", msg
			return r
		}
		good := And(ICmp("==", b.status, Int(0)), ICmp("==", a.status, Int(0)))
		x, y := iteRaw(good, a.files, Undef), iteRaw(good, b.files, Undef)
		wholeResults([2][]*V{{x}, {y}})
		same, certain, d := compareV(x, y)
		if !same {
			r.status, r.detail = "undecided", d
			if certain {
				r.status = "violation"
			}
		}
		return r
	}}
}

// refuse records why a program could not be analysed; "!" marks that it does
// not do what it has to.
func (r *Result) refuse(msg string) {
	r.status, r.detail = "undecided", msg
	if strings.HasPrefix(msg, "!") {
		r.status, r.detail = "violation", msg[1:]
	}
}

func contents(f *V) *V {
	return mapLeaves(f, func(f *V) *V {
		if f.k == KOpaque && f.op == "written" {
			return mkOpaque("written", nil, f.args[0], f.args[2], contents(f.args[3]))
		}
		return f
	})
}
func modes(f *V) *V {
	return mapLeaves(f, func(f *V) *V {
		if f.k == KOpaque && f.op == "written" {
			return mkOpaque("opened", nil, f.args[1], modes(f.args[3]))
		}
		return f
	})
}

// flagsTask checks that a command takes the flags it reads.
func flagsTask(prop, name, cmd string) *task {
	return &task{prop, name, "the command " + cmd + " declares the flags from, to and output, empty by default", func(p *Program) *Result {
		r := &Result{prop: prop, name: name, status: "ok", funcs: map[string]bool{}, cases: 1}
		in := newRun(p, cmdConfig())
		var c *command
		if msg := try(func() { c = in.command(cmd) }); msg != "" {
			r.refuse(msg)
			return r
		}
		r.pos = p.pos(c.fn.Pos())
		for _, want := range []string{"from", "to", "output"} {
			found := false
			for _, f := range c.flags {
				if f != nil && f.k == KIface {
					f = f.args[0]
				}
				if f == nil || f.k != KStruct {
					r.status, r.detail = "undecided", "flags of "+cmd
					return r
				}
				st := f.typ.Underlying().(*types.Struct)
				named, value := false, Str("")
				for i := 0; i < st.NumFields(); i++ {
					switch st.Field(i).Name() {
					case "Name":
						if f.args[i].isStrConst() {
							for _, n := range strings.Split(f.args[i].s, ",") {
								named = named || strings.TrimSpace(n) == want
							}
						}
					case "Value":
						value = f.args[i]
					}
				}
				if named {
					found = true
					if !isNamed(f.typ, "github.com/codegangsta/cli", "StringFlag") || value != Str("") {
						r.status, r.detail = "violation", "flag "+want+" of "+cmd+" has a default or is not a string"
					}
				}
			}
			if !found {
				r.status, r.detail = "violation", "the command "+cmd+" does not declare the flag "+want
			}
			r.sites++
		}
		return r
	}}
}
