package main

// Reading tables out of the sources.

import (
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// listedDates finds the table of listed dates of the years program: a map from
// year to a struct with the fields Asalha, Source and Comments.
func (in *Interp) listedDates(year *V) []*V {
	var lit *ast.CompositeLit
	info := in.p.utilsInfo
	if info == nil {
		fail("the years program cannot be analysed")
	}
	fields := []string{"Asalha", "Source", "Comments"}
	var st *types.Struct
	for _, f := range in.p.syntax[repoImport+"/utils"] {
		ast.Inspect(f, func(n ast.Node) bool {
			c, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			m, ok := info.TypeOf(c).Underlying().(*types.Map)
			if !ok {
				return true
			}
			s, ok := m.Elem().Underlying().(*types.Struct)
			if !ok || fieldNum(s, "Asalha") < 0 || fieldNum(s, "Source") < 0 || fieldNum(s, "Comments") < 0 {
				return true
			}
			if lit != nil {
				fail("two tables of listed dates")
			}
			lit, st = c, s
			return true
		})
	}
	if lit == nil {
		fail("there is no table of listed dates")
	}
	res := []*V{Str(""), Str(""), Str(""), False}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			fail("table of listed dates")
		}
		k := info.Types[kv.Key].Value
		row, ok := kv.Value.(*ast.CompositeLit)
		if k == nil || !ok {
			fail("table of listed dates")
		}
		y, ok := constant.Int64Val(constant.ToInt(k))
		if !ok {
			fail("table of listed dates")
		}
		vals := map[string]string{}
		for i, x := range row.Elts {
			n := ""
			if i < st.NumFields() {
				n = st.Field(i).Name()
			}
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				n = kv.Key.(*ast.Ident).Name
				x = kv.Value
			}
			v := info.Types[x].Value
			if v == nil || v.Kind() != constant.String {
				fail("table of listed dates")
			}
			vals[n] = constant.StringVal(v)
		}
		c := ICmp("==", year, mkInt(pConst(big.NewInt(y))))
		for i, f := range fields {
			res[i] = ite(c, Str(vals[f]), res[i])
		}
		res[3] = ite(c, True, res[3])
	}
	return res
}

func fieldNum(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// ruleIntrinsic evaluates the functions of the rules that read tables.
func (in *Interp) ruleIntrinsic(fn *ssa.Function, args []*V) ([]*V, bool) {
	if fn.Name() == "Listed" {
		return in.listedDates(args[0]), true
	}
	if fn.Name() == "Embedded" {
		return in.embeddedLookup(args[0]), true
	}
	return nil, false
}

// embedded replaces the table of embedded files by one with two files of
// unknown content, for rules about reading any file.
type embeddedFile struct {
	key, compressed, local *V
}

func (in *Interp) abstractTable() {
	g, t := in.p.embeddedTable()
	if g == nil {
		fail("there is no table of embedded files")
	}
	in.base = in.base.clone()
	m := mkMap("empty")
	in.embedded = nil
	s := t.Underlying().(*types.Struct)
	for _, k := range []string{"/data/astro/one.json", "/data/astro/two.json"} {
		o := in.newObj(t)
		v := zeroOf(t)
		f := embeddedFile{key: Str(k)}
		for i := 0; i < s.NumFields(); i++ {
			var x *V
			if s.Field(i).Name() != "size" {
				x = symOf(mkOpaque("."+s.Field(i).Name(), s.Field(i).Type(), mkOpaque("embedded", nil, Str(k))), s.Field(i).Type())
			}
			switch s.Field(i).Name() {
			case "compressed":
				f.compressed = x
			case "local":
				f.local = x
			case "size":
				x = mkInt(vAtom(mkOpaque(".size", s.Field(i).Type(), mkOpaque("embedded", nil, Str(k))), big.NewInt(1), nil))
			case "modtime":
			default: // not part of the literal
				continue
			}
			v = setPath(v, []PathEl{{field: i}}, x)
		}
		if f.compressed == nil || f.local == nil {
			fail("the table of embedded files has another layout")
		}
		in.base.mem[o] = v
		m = mapStore(m, Str(k), mkPtr(o, nil))
		in.embedded = append(in.embedded, f)
	}
	old := in.base.mem[in.globalObj(g)]
	if old.k != KMapRef {
		fail("the table of embedded files is %s", old)
	}
	in.base.mem[old.obj] = m
}

// embeddedTable finds the package variable that maps names to embedded files.
func (p *Program) embeddedTable() (*ssa.Global, types.Type) {
	if p.root == nil {
		return nil, nil
	}
	for _, m := range p.root.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok {
			continue
		}
		pt, ok := mt.Elem().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if ok && fieldNum(s, "compressed") >= 0 && fieldNum(s, "local") >= 0 && fieldNum(s, "size") >= 0 {
			return g, pt.Elem()
		}
	}
	return nil, nil
}

func (in *Interp) embeddedLookup(name *V) []*V {
	res := []*V{Str(""), Str(""), False}
	for _, f := range in.embedded {
		c := SEq(name, f.key)
		res[0] = ite(c, f.compressed, res[0])
		res[1] = ite(c, f.local, res[1])
		res[2] = ite(c, True, res[2])
	}
	return res
}
