package main

// The embedded data files: constants of the program compared with the files of
// the repository (C32).

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dataMoon struct {
	Timestamp   *int64     `json:"timestamp"`
	DateTimeISO *time.Time `json:"dateTimeISO"`
	Code        *int       `json:"code"`
	Name        *string    `json:"name"`
}
type dataResp struct {
	Success *bool
	Error   *struct {
		Code string `json:"code"`
	}
	Response []dataMoon
}

var phaseOfCode = []string{"new moon", "first quarter", "full moon", "last quarter"}

// tableEntries are the keys of the table of embedded files, with the local
// path and size recorded for each.
func (in *Interp) tableEntries() (keys []string, local map[string]string, size map[string]*V) {
	g, t := in.p.embeddedTable()
	if g == nil {
		fail("there is no table of embedded files")
	}
	m := in.base.mem[in.globalObj(g)]
	if m == nil || m.k != KMapRef {
		fail("the table of embedded files is %s", m)
	}
	c := in.base.mem[m.obj]
	st := t.Underlying().(*types.Struct)
	local, size = map[string]string{}, map[string]*V{}
	for c.k == KMap && c.op == "store" {
		k, v := c.args[1], c.args[2]
		if !k.isStrConst() || v.k != KPtr {
			fail("the table of embedded files has the entry %s: %s", k, v)
		}
		o := in.load(in.base, v)
		if d := fieldNum(st, "isDir"); d >= 0 && getField(o, d) == True {
			c = c.args[0]
			continue
		}
		keys = append(keys, k.s)
		if l := getField(o, fieldNum(st, "local")); l.isStrConst() {
			local[k.s] = l.s
		} else {
			fail("local path of %s", k.s)
		}
		size[k.s] = getField(o, fieldNum(st, "size"))
		c = c.args[0]
	}
	if c.k != KMap || c.op != "empty" {
		fail("the table of embedded files is %s", c)
	}
	sort.Strings(keys)
	return
}

// constText is the content of a constant sequence of bytes.
func constText(v *V) (string, bool) {
	t := v
	if v.k == KSeq {
		t = bytesToStr(v)
	}
	if t.k == KOpaque && t.op == "strbytes" {
		t = t.args[0]
	}
	if t.isStrConst() {
		return t.s, true
	}
	return "", false
}

type dataSet struct {
	files []string // below data/astro
	text  map[string]string
}

func dataFiles(repo string) *dataSet {
	d := &dataSet{text: map[string]string{}}
	ents, err := os.ReadDir(filepath.Join(repo, "data", "astro"))
	if err != nil {
		fail("data/astro: %v", err)
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasPrefix(e.Name(), ".") || strings.HasSuffix(e.Name(), "~") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(repo, "data", "astro", e.Name()))
		if err != nil {
			fail("%v", err)
		}
		d.files = append(d.files, e.Name())
		d.text[e.Name()] = string(b)
	}
	return d
}

type problems struct {
	list []string
	n    int
}

func (p *problems) add(format string, a ...any) {
	p.n++
	if len(p.list) < 5 {
		p.list = append(p.list, fmt.Sprintf(format, a...))
	}
}

func dataTask(name, text string, f func(in *Interp, r *Result, bad *problems)) *task {
	return &task{name[:3], name, text, func(p *Program) *Result {
		r := &Result{prop: name[:3], name: name, status: "ok", funcs: map[string]bool{}}
		deadline = time.Now().Add(5 * obligTime)
		in := newRun(p, config{loc: "any"})
		in.maxStep = 40000000
		if g, _ := p.embeddedTable(); g != nil {
			r.pos = p.pos(g.Pos())
		}
		bad := &problems{}
		msg := try(func() { f(in, r, bad) })
		for fn := range in.trace {
			if fn.Pkg != nil && p.own[fn.Pkg.Pkg] {
				r.funcs[fn.String()] = true
			}
		}
		r.steps = in.steps
		if bad.n > 0 {
			r.status = "violation"
			r.detail = fmt.Sprintf("%d problems: %s", bad.n, strings.Join(bad.list, "; "))
		} else if msg != "" {
			r.status, r.detail = "undecided", msg
		}
		return r
	}}
}

// served is what the program returns for an embedded file, as a constant.
func (in *Interp) served(name string) (string, bool, string) {
	f := in.p.spec.Func("servedContent")
	if f == nil {
		fail("the rule does not type-check against this tree")
	}
	o := in.runFn(f, []*V{Str(name)})
	if o.guard != True || len(o.vals) != 3 {
		return "", false, "may not return"
	}
	if o.vals[1] == False {
		return "", false, "an error is returned"
	}
	t, ok := constText(o.vals[0])
	if o.vals[1] != True || !ok {
		fail("content of %s: %s", name, clip(fmt.Sprint(o.vals[:2]), 300))
	}
	size := o.vals[2]
	if !size.isIntConst() {
		fail("size of %s", name)
	}
	if size.intVal() != int64(len(t)) {
		return t, true, fmt.Sprintf("the recorded size is %d, the content has %d bytes", size.intVal(), len(t))
	}
	return t, true, ""
}

func dataTasks() []*task {
	return []*task{
		dataTask("C32_entries", "the embedded table has exactly one entry per data file, under its path", func(in *Interp, r *Result, bad *problems) {
			d := dataFiles(in.p.repo)
			keys, local, _ := in.tableEntries()
			r.cases = len(d.files)
			have := map[string]bool{}
			for _, k := range keys {
				have[k] = true
				r.sites++
				n := strings.TrimPrefix(k, "/data/astro/")
				if _, ok := d.text[n]; !ok || n == k {
					bad.add("%s is embedded and is not a data file", k)
				}
				if "/"+strings.TrimPrefix(local[k], "/") != k {
					bad.add("the local path of %s is %s", k, local[k])
				}
			}
			for _, n := range d.files {
				if !have["/data/astro/"+n] {
					bad.add("data/astro/%s is not embedded", n)
				}
			}
		}),
		dataTask("C32_content", "every embedded copy decompresses, with the recorded size, to the bytes of the data file", func(in *Interp, r *Result, bad *problems) {
			d := dataFiles(in.p.repo)
			keys, _, _ := in.tableEntries()
			for _, k := range keys {
				want, ok := d.text[strings.TrimPrefix(k, "/data/astro/")]
				if !ok {
					continue
				}
				r.cases++
				got, ok, msg := in.served(k)
				switch {
				case !ok:
					bad.add("%s: %s", k, msg)
				case got != want:
					bad.add("%s: the embedded copy has %d bytes and differs from the data file (%d bytes) at byte %d", k, len(got), len(want), firstByte(got, want))
				case msg != "":
					bad.add("%s: %s", k, msg)
				}
			}
		}),
		dataTask("C32_moons", "the data files decode as responses with ordered, consistent moons of their year", func(in *Interp, r *Result, bad *problems) {
			d := dataFiles(in.p.repo)
			for _, n := range d.files {
				r.cases++
				checkMoons(n, d.text[n], bad)
			}
		}),
		dataTask("C31_decoding", "decoded into the program's own types the moons keep the values of the data files", decodingTask),
		dataTask("C32_decoding", "decoded into the program's own types the data files keep their values", decodingTask),
	}
}

func decodingTask(in *Interp, r *Result, bad *problems) {
	t := in.p.decodedType()
	if t == nil {
		fail("no type the data files are decoded into")
	}
	r.funcs[types.TypeString(t, nil)] = true
	rt := reflectType(t, 0)
	d := dataFiles(in.p.repo)
	for _, n := range d.files {
		r.cases++
		compareDecoded(n, d.text[n], rt, bad)
	}
}

func firstByte(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

func checkMoons(n, text string, bad *problems) {
	var year int
	if k, err := fmt.Sscanf(n, "astro-%d.json", &year); k != 1 || err != nil {
		bad.add("%s is not named astro-<year>.json", n)
		return
	}
	var resp dataResp
	if err := json.Unmarshal([]byte(text), &resp); err != nil {
		bad.add("%s: %v", n, err)
		return
	}
	if resp.Success == nil {
		bad.add("%s does not say whether it was successful", n)
	}
	var prev *dataMoon
	for i := range resp.Response {
		m := &resp.Response[i]
		if m.Timestamp == nil || m.DateTimeISO == nil || m.Code == nil || m.Name == nil {
			bad.add("%s: moon %d is not complete", n, i)
			continue
		}
		if m.DateTimeISO.UTC().Year() != year {
			bad.add("%s: moon %d is in %d", n, i, m.DateTimeISO.UTC().Year())
		}
		if m.DateTimeISO.Unix() != *m.Timestamp || m.DateTimeISO.Nanosecond() != 0 {
			bad.add("%s: moon %d has the timestamp %d and the time %s", n, i, *m.Timestamp, m.DateTimeISO)
		}
		if *m.Code < 0 || *m.Code > 3 || phaseOfCode[*m.Code] != *m.Name {
			bad.add("%s: moon %d has code %d and is a %s", n, i, *m.Code, *m.Name)
		}
		if prev != nil {
			if *prev.Timestamp >= *m.Timestamp {
				bad.add("%s: moon %d is not after moon %d", n, i, i-1)
			}
			if *m.Code != (*prev.Code+1)%4 {
				bad.add("%s: moon %d has code %d after %d", n, i, *m.Code, *prev.Code)
			}
		}
		prev = m
	}
}

// decodedType is the type that the package's function reading astronomical
// moons decodes into.
func (p *Program) decodedType() types.Type {
	var found []types.Type
	for _, f := range p.ownFuncs() {
		if f.Pkg != p.root {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				callee := c.Call.StaticCallee()
				if callee == nil {
					continue
				}
				var arg ssa.Value
				switch callee.String() {
				case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
					arg = c.Call.Args[1]
				}
				if mi, ok := arg.(*ssa.MakeInterface); ok {
					if pt, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
						found = append(found, pt.Elem())
					}
				}
			}
		}
	}
	for _, t := range found[min(1, len(found)):] {
		if !types.Identical(t, found[0]) {
			fail("the package decodes into several types")
		}
	}
	if len(found) == 0 {
		return nil
	}
	return found[0]
}

// reflectType builds a type that encoding/json treats as it treats t.
func reflectType(t types.Type, depth int) reflect.Type {
	if depth > 8 {
		fail("type %s is recursive", t)
	}
	if isTime(t) {
		return reflect.TypeOf(time.Time{})
	}
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
			if ms.Lookup(n.Obj().Pkg(), m) != nil {
				fail("%s decodes itself", t)
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := map[types.BasicKind]any{types.Bool: false, types.String: "", types.Int: int(0), types.Int8: int8(0), types.Int16: int16(0), types.Int32: int32(0), types.Int64: int64(0),
			types.Uint: uint(0), types.Uint8: uint8(0), types.Uint16: uint16(0), types.Uint32: uint32(0), types.Uint64: uint64(0), types.Float32: float32(0), types.Float64: float64(0)}
		if z, ok := k[u.Kind()]; ok {
			return reflect.TypeOf(z)
		}
	case *types.Pointer:
		return reflect.PointerTo(reflectType(u.Elem(), depth+1))
	case *types.Slice:
		return reflect.SliceOf(reflectType(u.Elem(), depth+1))
	case *types.Interface:
		if u.Empty() {
			return reflect.TypeOf((*any)(nil)).Elem()
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				fail("%s is embedded", f.Name())
			}
			if !f.Exported() {
				continue // not decoded
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: reflectType(f.Type(), depth+1), Tag: reflect.StructTag(u.Tag(i))})
		}
		return reflect.StructOf(fs)
	}
	fail("type %s", t)
	return nil
}

func compareDecoded(n, text string, rt reflect.Type, bad *problems) {
	var want dataResp
	if json.Unmarshal([]byte(text), &want) != nil {
		return // reported by the check of the data
	}
	v := reflect.New(rt)
	if err := json.Unmarshal([]byte(text), v.Interface()); err != nil {
		bad.add("%s: %v", n, err)
		return
	}
	field := func(v reflect.Value, name string) reflect.Value {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || !v.FieldByName(name).IsValid() {
			fail("the decoded type has no field %s", name)
		}
		f := v.FieldByName(name)
		for f.Kind() == reflect.Pointer && !f.IsNil() {
			f = f.Elem()
		}
		return f
	}
	isInt := func(v reflect.Value, k int64) bool {
		return v.IsValid() && (v.CanInt() && v.Int() == k || v.CanUint() && k >= 0 && v.Uint() == uint64(k))
	}
	s := field(v, "Success")
	if s.Kind() != reflect.Bool || want.Success == nil || s.Bool() != *want.Success {
		bad.add("%s: success is decoded as %v", n, s)
	}
	code := ""
	if want.Error != nil {
		code = want.Error.Code
	}
	e := field(v, "Error")
	got := ""
	if e.Kind() == reflect.Struct {
		got = field(e, "Code").String()
	}
	if got != code {
		bad.add("%s: the error code %q is decoded as %q", n, code, got)
	}
	rs := field(v, "Response")
	if rs.Kind() != reflect.Slice || rs.Len() != len(want.Response) {
		bad.add("%s: the moons are not decoded", n)
		return
	}
	for i, w := range want.Response {
		m := rs.Index(i)
		t, ok := field(m, "DateTimeISO").Interface().(time.Time)
		if !ok {
			fail("the time is not a time.Time")
		}
		if w.DateTimeISO != nil && !t.Equal(*w.DateTimeISO) {
			bad.add("%s: the time of moon %d, %s, is decoded as %s", n, i, w.DateTimeISO, t)
		}
		if w.Code != nil && !isInt(field(m, "Code"), int64(*w.Code)) {
			bad.add("%s: the code of moon %d, %d, is decoded as %v", n, i, *w.Code, field(m, "Code"))
		}
		if w.Timestamp != nil && m.FieldByName("Timestamp").IsValid() && !isInt(field(m, "Timestamp"), *w.Timestamp) {
			bad.add("%s: the timestamp of moon %d, %d, is decoded as %v", n, i, *w.Timestamp, field(m, "Timestamp"))
		}
		if w.Name != nil && m.FieldByName("Name").IsValid() && field(m, "Name").String() != *w.Name {
			bad.add("%s: the name of moon %d, %s, is decoded as %s", n, i, *w.Name, field(m, "Name"))
		}
	}
}
