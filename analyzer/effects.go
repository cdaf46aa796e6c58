package main

// Hidden state (C35): what the functions of the package write, and which
// sources besides their arguments they read, decided on the SSA form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type effects struct {
	p     *Program
	funcs []*ssa.Function // of the root package
	// values that hold, or point into, memory reachable from package variables
	shared map[ssa.Value]*ssa.Global
	ret    map[*ssa.Function]map[int]*ssa.Global
	cells  map[*ssa.Global]bool // package variables ever written after initialisation
	once   map[*ssa.Function]bool
	sites  int
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func newEffects(p *Program) *effects {
	e := &effects{p: p, shared: map[ssa.Value]*ssa.Global{}, ret: map[*ssa.Function]map[int]*ssa.Global{}, cells: map[*ssa.Global]bool{}, once: map[*ssa.Function]bool{}}
	for _, f := range p.ownFuncs() {
		if f.Pkg == p.root && !isInit(f) {
			e.funcs = append(e.funcs, f)
		}
	}
	e.findOnce()
	e.propagate()
	return e
}

// findOnce finds the functions that run only through sync.Once.Do.
func (e *effects) findOnce() {
	isDo := func(c *ssa.CallCommon) bool {
		s := c.StaticCallee()
		return s != nil && s.String() == "(*sync.Once).Do"
	}
	uses, dos := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	for _, f := range e.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var fnOf func(v ssa.Value) *ssa.Function
				fnOf = func(v ssa.Value) *ssa.Function {
					switch v := v.(type) {
					case *ssa.Function:
						return v
					case *ssa.MakeClosure:
						return v.Fn.(*ssa.Function)
					}
					return nil
				}
				if c, ok := i.(ssa.CallInstruction); ok && isDo(c.Common()) {
					if g := fnOf(c.Common().Args[1]); g != nil {
						dos[g]++
						uses[g]++
						continue
					}
				}
				for _, op := range i.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						uses[g]++
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						uses[mc.Fn.(*ssa.Function)]++
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					uses[mc.Fn.(*ssa.Function)]-- // the operand of the closure itself
				}
			}
		}
	}
	for g, n := range dos {
		if n == uses[g] {
			e.once[g] = true
		}
	}
}

// pointerlike says whether a value of the type gives access to shared memory.
func pointerlike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		if isTime(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if pointerlike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerlike(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (e *effects) propagate() {
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value, g *ssa.Global) {
			if g != nil && e.shared[v] == nil && pointerlike(v.Type()) {
				e.shared[v] = g
				ch = true
			}
		}
		of := func(v ssa.Value) *ssa.Global {
			if g, ok := v.(*ssa.Global); ok && g.Pkg == e.p.root {
				return g
			}
			return e.shared[v]
		}
		for _, f := range e.funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch i := i.(type) {
					case *ssa.UnOp:
						mark(i, of(i.X))
					case *ssa.FieldAddr:
						mark(i, of(i.X))
					case *ssa.Field:
						mark(i, of(i.X))
					case *ssa.IndexAddr:
						mark(i, of(i.X))
					case *ssa.Index:
						mark(i, of(i.X))
					case *ssa.Lookup:
						mark(i, of(i.X))
					case *ssa.Extract:
						if c, ok := i.Tuple.(*ssa.Call); ok {
							for _, g := range e.callees(&c.Call) {
								mark(i, e.ret[g][i.Index])
							}
						} else {
							mark(i, of(i.Tuple))
						}
					case *ssa.Slice:
						mark(i, of(i.X))
					case *ssa.Phi:
						for _, x := range i.Edges {
							mark(i, of(x))
						}
					case *ssa.ChangeType:
						mark(i, of(i.X))
					case *ssa.MakeInterface:
						mark(i, of(i.X))
					case *ssa.ChangeInterface:
						mark(i, of(i.X))
					case *ssa.TypeAssert:
						mark(i, of(i.X))
					case *ssa.Range:
						if g := of(i.X); g != nil && e.shared[i] == nil {
							e.shared[i] = g
							ch = true
						}
					case *ssa.Next:
						if g := of(i.Iter); g != nil && e.shared[i] == nil {
							e.shared[i] = g
							ch = true
						}
					case *ssa.MakeClosure:
						fn := i.Fn.(*ssa.Function)
						for k, x := range i.Bindings {
							mark(fn.FreeVars[k], of(x))
							// a cell of a local variable that holds a shared value
							if e.shared[x] != nil {
								mark(fn.FreeVars[k], e.shared[x])
							}
						}
					case *ssa.Store:
						// a local cell that holds a shared pointer
						if g := of(i.Val); g != nil {
							if a, ok := i.Addr.(*ssa.Alloc); ok {
								e.markCell(a, g, mark)
							}
							if fv, ok := i.Addr.(*ssa.FreeVar); ok {
								e.markCell(fv, g, mark)
							}
						}
					case *ssa.Return:
						for k, x := range i.Results {
							if g := of(x); g != nil && pointerlike(x.Type()) {
								if e.ret[f] == nil {
									e.ret[f] = map[int]*ssa.Global{}
								}
								if e.ret[f][k] == nil {
									e.ret[f][k] = g
									ch = true
								}
							}
						}
					}
					if c, ok := i.(ssa.CallInstruction); ok {
						for _, callee := range e.callees(c.Common()) {
							args := c.Common().Args
							if c.Common().IsInvoke() {
								args = append([]ssa.Value{c.Common().Value}, args...)
							}
							for k, x := range args {
								if k < len(callee.Params) {
									mark(callee.Params[k], of(x))
								}
							}
							if v, ok := i.(*ssa.Call); ok && callee.Signature.Results().Len() == 1 {
								mark(v, e.ret[callee][0])
							}
						}
					}
				}
			}
		}
	}
}

// markCell marks what is read from a local cell holding a shared pointer. The
// cell itself is private to the call: storing into it is no shared write.
func (e *effects) markCell(cell ssa.Value, g *ssa.Global, mark func(ssa.Value, *ssa.Global)) {
	if cell.Referrers() == nil {
		return
	}
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op == token.MUL {
				mark(r, g)
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for k, b := range r.Bindings {
				if b == cell {
					e.markCell(fn.FreeVars[k], g, mark)
				}
			}
		}
	}
}

// callees are the functions of the package a call may go to.
func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if s := c.StaticCallee(); s != nil {
		if s.String() == "(*sync.Once).Do" {
			switch v := c.Args[1].(type) {
			case *ssa.Function:
				return []*ssa.Function{v}
			case *ssa.MakeClosure:
				return []*ssa.Function{v.Fn.(*ssa.Function)}
			}
			return nil
		}
		if s.Pkg == e.p.root {
			return []*ssa.Function{s}
		}
		// a wrapper of a method of the package
		if s.Pkg == nil && s.Synthetic != "" {
			if o, ok := s.Object().(*types.Func); ok {
				if f := e.p.prog.FuncValue(o); f != nil && f.Pkg == e.p.root {
					return []*ssa.Function{f}
				}
			}
		}
		return nil
	}
	var out []*ssa.Function
	for _, f := range e.funcs {
		if c.IsInvoke() {
			if f.Signature.Recv() != nil && f.Name() == c.Method.Name() {
				if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && (types.Implements(f.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(f.Signature.Recv().Type()), it)) {
					out = append(out, f)
				}
			}
		} else if sg, ok := c.Value.Type().Underlying().(*types.Signature); ok {
			if types.Identical(stripNames(f.Signature), stripNames(sg)) && (f.Signature.Recv() == nil) && (f.Parent() != nil || e.taken(f)) {
				out = append(out, f)
			}
		}
	}
	return out
}

func (e *effects) taken(f *ssa.Function) bool {
	if f.Referrers() == nil {
		return true // package level functions keep no referrers
	}
	return len(*f.Referrers()) > 0
}

// write is a store to shared memory.
type sharedWrite struct {
	g    *ssa.Global
	fn   *ssa.Function
	pos  token.Pos
	how  string
	once bool
}

func (e *effects) writes() (ws []sharedWrite, doubts []string) {
	of := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok && g.Pkg == e.p.root {
			return g
		}
		return e.shared[v]
	}
	for _, f := range e.funcs {
		add := func(g *ssa.Global, pos token.Pos, how string, addr ssa.Value) {
			if g != nil {
				ws = append(ws, sharedWrite{g, f, pos, how, e.inOnce(f) && e.ofEntry(addr)})
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					e.sites++
					add(of(i.Addr), i.Pos(), "assignment", i.Addr)
				case *ssa.MapUpdate:
					e.sites++
					add(of(i.Map), i.Pos(), "map update", i.Map)
				case *ssa.Send:
					add(of(i.Chan), i.Pos(), "send", i.Chan)
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						e.sites++
						add(of(cc.Args[0]), c.Pos(), bi.Name(), cc.Args[0])
					}
					continue
				}
				if len(e.callees(cc)) > 0 {
					continue
				}
				callee := cc.StaticCallee()
				name := ""
				if callee != nil {
					name = callee.String()
				} else if cc.IsInvoke() {
					name = cc.Method.FullName()
				}
				for k, x := range cc.Args {
					g := of(x)
					if g == nil {
						continue
					}
					e.sites++
					switch argUse(name, k) {
					case "writes":
						add(g, c.Pos(), "call of "+name, x)
					case "":
						doubts = append(doubts, fmt.Sprintf("%s: %s is passed to %s", e.p.pos(c.Pos()), g.Name(), name))
					}
				}
			}
		}
	}
	return
}

// inOnce says whether a function runs only within a once-only function.
func (e *effects) inOnce(f *ssa.Function) bool { return e.inOnceD(f, 0) }
func (e *effects) inOnceD(f *ssa.Function, d int) bool {
	if e.once[f] {
		return true
	}
	if d > 5 || token.IsExported(f.Name()) {
		return false
	}
	n := 0
	for _, g := range e.funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					for _, k := range e.callees(c.Common()) {
						if k == f {
							n++
							if !e.inOnceD(g, d+1) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return n > 0
}

// ofEntry says whether an address lies in an entry of the embedded table.
func (e *effects) ofEntry(v ssa.Value) bool {
	_, t := e.p.embeddedTable()
	for d := 0; d < 20 && t != nil; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if types.Identical(x.X.Type().Underlying().(*types.Pointer).Elem(), t) {
				return true
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// argUse is what a library function does with memory reachable from an argument.
func argUse(name string, k int) string {
	for _, w := range []string{"sort.", "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode", "sync/atomic.", "(*sync/atomic", "(*sync.Map).Store", "(*sync.Map).Delete", "(*sync.Map).LoadOrStore", "io.ReadFull", "fmt.Sscan", "fmt.Fscan", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "slices.Sort", "slices.Reverse", "maps.Copy", "maps.DeleteFunc", "math/rand", "(*math/rand"} {
		if strings.HasPrefix(name, w) {
			if name == "encoding/json.Unmarshal" && k == 0 {
				return "reads"
			}
			if strings.HasPrefix(name, "sort.Search") || strings.HasSuffix(name, "AreSorted") || strings.HasPrefix(name, "sort.Is") || strings.HasPrefix(name, "slices.IsSorted") || strings.Contains(name, "atomic") && strings.Contains(name, "Load") {
				return "reads"
			}
			return "writes"
		}
	}
	for _, r := range []string{"fmt.", "strings.", "strconv.", "bytes.New", "bytes.Equal", "bytes.Compare", "encoding/base64.", "(*encoding/base64.Encoding)", "compress/gzip.", "encoding/json.Marshal", "encoding/json.Valid", "path.", "path/filepath.", "errors.", "log.", "io.ReadAll", "io/ioutil.ReadAll", "(time.Time)", "time.", "math.", "(*sync.Once).Do", "(*sync.Mutex)", "(*sync.RWMutex)", "os.", "append", "len", "unicode", "reflect.DeepEqual", "(net/http.FileSystem).Open", "(error).Error", "github.com/soh335/ical", "slices.", "maps.", "(*log.Logger)", "net/http."} {
		if strings.HasPrefix(name, r) {
			return "reads"
		}
	}
	return ""
}

// ---------------------------------------------------------------- sources

// ctxFn is a function with the known constant arguments.
type ctxFn struct {
	f    *ssa.Function
	args string
}

type reach struct {
	e     *effects
	seen  map[ctxFn]bool
	calls []srcUse
	globs map[*ssa.Global]string
	funcs map[string]bool
	maps  []string
	doubt []string
}
type srcUse struct {
	what string
	fn   *ssa.Function
	pos  token.Pos
	path []*ssa.Function
}

// sources of values other than the arguments.
func sourceOf(name string) string {
	for _, s := range [][2]string{
		{"time.Now", "clock"}, {"time.Since", "clock"}, {"time.Until", "clock"}, {"time.After", "clock"}, {"time.Tick", "clock"}, {"time.NewTimer", "clock"}, {"time.NewTicker", "clock"},
		{"time.LoadLocation", "time zone data"}, {"(time.Time).Local", "local time zone"},
		{"os.Getenv", "environment"}, {"os.LookupEnv", "environment"}, {"os.Environ", "environment"}, {"os.ExpandEnv", "environment"}, {"os.Hostname", "environment"}, {"os.Getwd", "environment"}, {"os.Getpid", "environment"}, {"os.User", "environment"}, {"os.Executable", "environment"},
		{"os.Open", "file"}, {"os.Stat", "file"}, {"os.Lstat", "file"}, {"os.ReadFile", "file"}, {"os.ReadDir", "file"}, {"io/ioutil.ReadFile", "file"}, {"io/ioutil.ReadDir", "file"}, {"os.Create", "file"}, {"os.WriteFile", "file"}, {"io/ioutil.WriteFile", "file"}, {"os.Remove", "file"}, {"os.Mkdir", "file"}, {"path/filepath.Glob", "file"}, {"path/filepath.Walk", "file"}, {"path/filepath.Abs", "environment"}, {"os.Setenv", "environment"},
		{"math/rand", "random source"}, {"(*math/rand", "random source"}, {"crypto/rand", "random source"}, {"github.com/satori/go.uuid.New", "random source"},
		{"runtime.", "run time"}, {"net.", "network"}, {"net/http.Get", "network"}, {"net/http.Post", "network"}, {"(*net/http.Client)", "network"}, {"os/user.", "environment"}, {"os/exec.", "environment"}, {"plugin.", "environment"}, {"syscall.", "environment"},
	} {
		if strings.HasPrefix(name, s[0]) {
			if s[0] == "time.After" && name != "time.After" && name != "time.AfterFunc" {
				continue
			}
			return s[1]
		}
	}
	return ""
}

// utcOnly says whether a time in the local zone is only used in ways that do
// not show the zone.
func utcOnly(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			c := r.Call.StaticCallee()
			if c == nil {
				return false
			}
			switch c.String() {
			case "(time.Time).UTC", "(time.Time).In", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).Sub", "(time.Time).Before", "(time.Time).After", "(time.Time).Equal", "(time.Time).IsZero":
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *reach) visit(f *ssa.Function, consts map[int]constant.Value, path []*ssa.Function) {
	var ks []string
	for k, v := range consts {
		ks = append(ks, fmt.Sprintf("%d=%s", k, v))
	}
	sort.Strings(ks)
	key := ctxFn{f, strings.Join(ks, ",")}
	if r.seen[key] || len(path) > 60 {
		return
	}
	r.seen[key] = true
	r.funcs[f.String()] = true
	path = append(append([]*ssa.Function{}, path...), f)
	val := map[ssa.Value]constant.Value{}
	for k, v := range consts {
		if k < len(f.Params) {
			val[f.Params[k]] = v
		}
	}
	cv := func(v ssa.Value) constant.Value {
		if c, ok := v.(*ssa.Const); ok {
			return c.Value
		}
		return val[v]
	}
	// reachable blocks under the known constants
	if len(f.Blocks) == 0 {
		return
	}
	live := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if live[b] {
			continue
		}
		live[b] = true
		succs := b.Succs
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if g, ok := i.X.(*ssa.Global); ok {
						if c := r.e.constGlobal(g); c != nil {
							val[i] = c
						}
					}
				} else if i.Op == token.NOT {
					if c := cv(i.X); c != nil {
						val[i] = constant.UnaryOp(token.NOT, c, 0)
					}
				}
			case *ssa.If:
				if c := cv(i.Cond); c != nil && c.Kind() == constant.Bool {
					if constant.BoolVal(c) {
						succs = b.Succs[:1]
					} else {
						succs = b.Succs[1:]
					}
				}
			}
		}
		work = append(work, succs...)
	}
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if g.Pkg == r.e.p.root {
						if _, ok := r.globs[g]; !ok {
							r.globs[g] = r.e.p.pos(i.Pos())
						}
					} else if g.String() == "time.Local" {
						r.calls = append(r.calls, srcUse{"local time zone (time.Local)", f, i.Pos(), path})
					} else if g.String() == "os.Args" || g.String() == "os.Stdin" {
						r.calls = append(r.calls, srcUse{"environment (" + g.String() + ")", f, i.Pos(), path})
					}
				}
				if mc, ok := (*op).(*ssa.Function); ok && mc.Pkg == r.e.p.root {
					if c, isCall := i.(ssa.CallInstruction); !isCall || c.Common().StaticCallee() != mc {
						r.visit(mc, nil, path) // a function value: may be called
					}
				}
			}
			switch i := i.(type) {
			case *ssa.MakeClosure:
				r.visit(i.Fn.(*ssa.Function), nil, path)
			case *ssa.Range:
				if _, ok := i.X.Type().Underlying().(*types.Map); ok {
					if ordered(f, i) {
						r.maps = append(r.maps, fmt.Sprintf("%s: %s collects what it finds in the random order of a map", r.e.p.pos(i.Pos()), f.Name()))
					} else {
						r.doubt = append(r.doubt, fmt.Sprintf("%s: %s goes through a map in random order", r.e.p.pos(i.Pos()), f.Name()))
					}
				}
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				r.doubt = append(r.doubt, fmt.Sprintf("%s: %s uses goroutines or channels", r.e.p.pos(i.Pos()), f.Name()))
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if s := cc.StaticCallee(); s != nil {
				name := s.String()
				if w := sourceOf(name); w != "" {
					r.calls = append(r.calls, srcUse{w + " (" + name + ")", f, c.Pos(), path})
				} else if name == "time.Unix" || name == "time.UnixMilli" || name == "time.UnixMicro" {
					if v, ok := i.(*ssa.Call); ok && !utcOnly(v) {
						r.calls = append(r.calls, srcUse{"local time zone (" + name + ")", f, c.Pos(), path})
					}
				}
			}
			for _, g := range r.e.callees(cc) {
				k := map[int]constant.Value{}
				if cc.StaticCallee() == g {
					for n, a := range cc.Args {
						if v := cv(a); v != nil && v.Kind() == constant.Bool {
							k[n] = v
						}
					}
				}
				r.visit(g, k, path)
			}
		}
	}
}

// constGlobal is the value of an unexported flag that is never assigned.
func (e *effects) constGlobal(g *ssa.Global) constant.Value {
	if g.Pkg != e.p.root || token.IsExported(g.Name()) || e.cells[g] {
		return nil
	}
	o, ok := baseInterp.glob[g]
	if !ok {
		return nil
	}
	switch baseInterp.base.mem[o] {
	case True:
		return constant.MakeBool(true)
	case False:
		return constant.MakeBool(false)
	}
	return nil
}

// ordered says whether what a loop over a map finds is collected in a list
// that is not sorted afterwards.
func ordered(f *ssa.Function, rg *ssa.Range) bool {
	// values derived from the iteration
	from := map[ssa.Value]bool{}
	var flow func(v ssa.Value)
	flow = func(v ssa.Value) {
		if from[v] || v.Referrers() == nil {
			return
		}
		from[v] = true
		for _, r := range *v.Referrers() {
			if x, ok := r.(ssa.Value); ok {
				flow(x)
			}
			if s, ok := r.(*ssa.Store); ok && s.Val == v {
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					flow(ia.X)
				}
			}
		}
	}
	flow(rg)
	appends, sorts := false, false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				for _, a := range c.Common().Args[1:] {
					if from[a] {
						appends = true
					}
				}
			}
			if s := c.Common().StaticCallee(); s != nil && (strings.HasPrefix(s.String(), "sort.") || strings.HasPrefix(s.String(), "slices.Sort")) {
				sorts = true
			}
		}
	}
	return appends && !sorts
}

// fileAPI says whether a function belongs to the access of embedded files,
// which can be asked to read local files instead.
func (e *effects) fileAPI(f *ssa.Function) bool {
	g, t := e.p.embeddedTable()
	if g == nil {
		return false
	}
	file := e.p.fset.Position(g.Pos()).Filename
	_ = t
	return e.p.fset.Position(f.Pos()).Filename == file
}

func effectTasks() []*task {
	mkP := func(prop, name, text string, f func(e *effects, r *Result) (viol, doubt []string)) *task {
		return &task{prop, name, text, func(p *Program) *Result {
			r := &Result{prop: prop, name: name, status: "ok", funcs: map[string]bool{}, cases: 1}
			var viol, doubt []string
			if msg := try(func() { viol, doubt = f(newEffects(p), r) }); msg != "" {
				doubt = append(doubt, msg)
			}
			sort.Strings(viol)
			sort.Strings(doubt)
			if len(viol) > 0 {
				r.status, r.detail = "violation", strings.Join(uniq(viol), "; ")
				if at, _, ok := strings.Cut(viol[0], ": "); ok {
					r.pos = at
				}
			} else if len(doubt) > 0 {
				r.status, r.detail = "undecided", strings.Join(uniq(doubt), "; ")
			}
			return r
		}}
	}
	mk := func(name, text string, f func(e *effects, r *Result) (viol, doubt []string)) *task {
		return mkP("C35", name, text, f)
	}
	return []*task{
		mkP("C33", "C33_table", "the table of embedded files and its entries are not modified, except by the once-only decoding", func(e *effects, r *Result) (viol, doubt []string) {
			tab, _ := e.p.embeddedTable()
			if tab == nil {
				return nil, []string{"there is no table of embedded files"}
			}
			ws, doubts := e.writes()
			for _, f := range e.funcs {
				r.funcs[f.String()] = true
			}
			r.sites, r.cases = e.sites, len(e.funcs)
			for _, w := range ws {
				if !w.once && w.g == tab {
					viol = append(viol, fmt.Sprintf("%s: %s changes the table of embedded files (%s)", e.p.pos(w.pos), w.fn.Name(), w.how))
				}
			}
			return viol, doubts
		}),
		mkP("C34", "C34_tables", "the lookup tables keep their contents", func(e *effects, r *Result) (viol, doubt []string) {
			tabs := e.filledMaps()
			ws, _ := e.writes()
			for _, f := range e.funcs {
				r.funcs[f.String()] = true
			}
			r.sites, r.cases = e.sites, len(tabs)
			for _, w := range ws {
				if tabs[w.g] && (w.how == "map update" || w.how == "delete" || w.how == "clear") {
					viol = append(viol, fmt.Sprintf("%s: %s changes the table %s (%s)", e.p.pos(w.pos), w.fn.Name(), w.g.Name(), w.how))
				}
			}
			return viol, nil
		}),
		mk("C35_writes", "no function stores to memory reachable from package variables, except once-only decoding into the entry of an embedded file", func(e *effects, r *Result) (viol, doubt []string) {
			ws, doubts := e.writes()
			for _, f := range e.funcs {
				r.funcs[f.String()] = true
			}
			r.sites, r.cases = e.sites, len(e.funcs)
			for _, w := range ws {
				if !w.once {
					viol = append(viol, fmt.Sprintf("%s: %s changes the package variable %s (%s)", e.p.pos(w.pos), w.fn.Name(), w.g.Name(), w.how))
				}
			}
			return viol, doubts
		}),
		mk("C35_sources", "the calendar functions reach no clock, environment, random source, local time zone, file or order of a map, except for the stamp and identifier of iCalendar entries", func(e *effects, r *Result) (viol, doubt []string) {
			ws, _ := e.writes()
			for _, w := range ws {
				e.cells[w.g] = e.cells[w.g] || !w.once
			}
			rc := &reach{e: e, seen: map[ctxFn]bool{}, globs: map[*ssa.Global]string{}, funcs: map[string]bool{}}
			for _, f := range e.funcs {
				if f.Parent() == nil && (token.IsExported(f.Name())) && !e.fileAPI(f) {
					rc.visit(f, nil, nil)
				}
			}
			r.funcs = rc.funcs
			r.cases = len(rc.seen)
			for _, c := range rc.calls {
				if (strings.HasPrefix(c.what, "clock (time.Now") || strings.HasPrefix(c.what, "random source (github.com/satori/go.uuid")) && forEntry(c.path) {
					continue
				}
				var ps []string
				for _, f := range c.path {
					ps = append(ps, f.Name())
				}
				viol = append(viol, fmt.Sprintf("%s: %s reads the %s [%s]", e.p.pos(c.pos), c.fn.Name(), c.what, strings.Join(ps, " > ")))
			}
			viol = append(viol, rc.maps...)
			doubt = append(doubt, rc.doubt...)
			for g, at := range rc.globs {
				if token.IsExported(g.Name()) {
					if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok && g.Name() != "UseExceptions" {
						viol = append(viol, fmt.Sprintf("%s: results depend on the package variable %s", at, g.Name()))
					}
				}
				if e.cells[g] {
					viol = append(viol, fmt.Sprintf("%s: results depend on the package variable %s, which functions of the package change", at, g.Name()))
				}
			}
			r.sites = len(rc.globs)
			return
		}),
	}
}

// filledMaps are the package variables holding maps between names and numbers
// that are given entries when the package is initialised.
func (e *effects) filledMaps() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	init := e.p.root.Func("init")
	for _, b := range init.Blocks {
		vals := map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.MapUpdate); ok {
				vals[u.Map] = true
			}
		}
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || !vals[s.Val] {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			m, ok2 := s.Val.Type().Underlying().(*types.Map)
			if !ok || !ok2 {
				continue
			}
			_, k := m.Key().Underlying().(*types.Basic)
			_, v := m.Elem().Underlying().(*types.Basic)
			if k && v {
				out[g] = true
			}
		}
	}
	return out
}

// forEntry says whether a call happens while making an iCalendar entry.
func forEntry(path []*ssa.Function) bool {
	for _, f := range path {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if strings.HasSuffix(res.At(i).Type().String(), "github.com/soh335/ical.VEvent") {
				return true
			}
		}
	}
	return false
}
