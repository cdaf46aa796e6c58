package main

// Loading: every Go file of the repository is parsed and type-checked, the
// third-party imports against small stubs, the standard library from source
// (declarations only), and lowered to SSA.

import (
	"embed"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed stubs/*.go.txt
var stubFS embed.FS

//go:embed spec/*.go.txt
var specFS embed.FS

const repoImport = "github.com/splendidmoons/suriya-go"

type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	root    *ssa.Package
	cli     *ssa.Package
	utils   *ssa.Package
	spec    *ssa.Package
	repo    string
	files   int
	funcs   int
	loadErr []string
	dropped []string                // rules that do not type-check
	subErr  []string                // packages of the repository that do not type-check
	own     map[*types.Package]bool // packages of the repository
	syntax  map[string][]*ast.File

	utilsInfo *types.Info
}

type loader struct {
	fset   *token.FileSet
	ctx    build.Context
	pkgs   map[string]*types.Package
	errs   []string
	errPos []token.Pos
}

var stubImports = map[string]string{
	"github.com/soh335/ical":          "ical",
	"github.com/satori/go.uuid":       "uuid",
	"github.com/codegangsta/cli":      "cli",
	"github.com/urfave/cli":           "cli",
	"github.com/davecgh/go-spew/spew": "spew",
}

func (l *loader) Import(path string) (*types.Package, error) {
	return l.ImportFrom(path, "", 0)
}

func (l *loader) ImportFrom(path, dir string, _ types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := l.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return p, nil
	}
	l.pkgs[path] = nil
	var files []*ast.File
	if stub, ok := stubImports[path]; ok {
		src, err := stubFS.ReadFile("stubs/" + stub + ".go.txt")
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(l.fset, "stub/"+stub+".go", src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	} else {
		d := filepath.Join(l.ctx.GOROOT, "src", filepath.FromSlash(path))
		if _, err := os.Stat(d); err != nil {
			d = filepath.Join(l.ctx.GOROOT, "src", "vendor", filepath.FromSlash(path))
			if _, err := os.Stat(d); err != nil {
				delete(l.pkgs, path)
				return nil, fmt.Errorf("cannot find package %q", path)
			}
		}
		bp, err := l.ctx.ImportDir(d, 0)
		if err != nil {
			delete(l.pkgs, path)
			return nil, err
		}
		for _, n := range bp.GoFiles {
			f, err := parser.ParseFile(l.fset, filepath.Join(d, n), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
	}
	conf := types.Config{Importer: l, IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {},
		Sizes: types.SizesFor("gc", "amd64")}
	p, _ := conf.Check(path, l.fset, files, nil)
	if p == nil {
		return nil, fmt.Errorf("cannot check %s", path)
	}
	p.MarkComplete()
	l.pkgs[path] = p
	return p, nil
}

type unit struct {
	path, dir string
	files     []*ast.File
	pkg       *types.Package
	info      *types.Info
}

func (l *loader) parseDir(path, dir string) (*unit, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	u := &unit{path: path, dir: dir}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := l.ctx.MatchFile(dir, n); err != nil || !ok {
			if err != nil {
				l.errs = append(l.errs, err.Error())
			}
			continue
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			l.errs = append(l.errs, err.Error())
			continue
		}
		u.files = append(u.files, f)
	}
	return u, nil
}

func (l *loader) check(u *unit) {
	u.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
		// an unused import or variable does not change what the code means
		if te, ok := err.(types.Error); ok && (te.Soft || strings.Contains(te.Msg, "imported and not used")) {
			return
		}
		l.errs = append(l.errs, err.Error())
		if te, ok := err.(types.Error); ok {
			l.errPos = append(l.errPos, te.Pos)
		} else {
			l.errPos = append(l.errPos, token.NoPos)
		}
	}}
	u.pkg, _ = conf.Check(u.path, l.fset, u.files, u.info)
	if u.pkg != nil {
		l.pkgs[u.path] = u.pkg
	}
}

func load(repo string) *Program {
	ctx := build.Default
	ctx.CgoEnabled = false
	ctx.GOOS, ctx.GOARCH = "linux", "amd64"
	if ctx.GOROOT == "" {
		ctx.GOROOT = runtime.GOROOT()
	}
	if r := os.Getenv("GOROOT"); r != "" {
		ctx.GOROOT = r
	}
	l := &loader{fset: token.NewFileSet(), ctx: ctx, pkgs: map[string]*types.Package{}}
	p := &Program{fset: l.fset, repo: repo, own: map[*types.Package]bool{}, syntax: map[string][]*ast.File{}}

	var units []*unit
	root, err := l.parseDir(repoImport, repo)
	if err != nil {
		p.loadErr = append(p.loadErr, err.Error())
		return p
	}
	units = append(units, root)
	// other packages of the repository, importing the root one
	var subs []*unit
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() || path == repo {
			return nil
		}
		b := filepath.Base(path)
		if strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "data" || b == "vendor" {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(repo, path)
		u, err := l.parseDir(repoImport+"/"+filepath.ToSlash(rel), path)
		if err == nil && len(u.files) > 0 {
			subs = append(subs, u)
		}
		return nil
	})
	// helper packages first: order by dependency on each other
	byPath := map[string]*unit{root.path: root}
	for _, u := range subs {
		byPath[u.path] = u
	}
	var order []*unit
	seen := map[*unit]bool{}
	var visit func(u *unit)
	visit = func(u *unit) {
		if seen[u] {
			return
		}
		seen[u] = true
		for _, f := range u.files {
			for _, im := range f.Imports {
				if d, ok := byPath[strings.Trim(im.Path.Value, `"`)]; ok {
					visit(d)
				}
			}
		}
		order = append(order, u)
	}
	visit(root)
	for _, u := range subs {
		visit(u)
	}
	units = order
	var good []*unit
	for _, u := range units {
		n := len(l.errs)
		l.check(u)
		p.files += len(u.files)
		p.syntax[u.path] = u.files
		if u != root && (len(l.errs) > n || u.pkg == nil) {
			p.subErr = append(p.subErr, l.errs[n:]...)
			l.errs = l.errs[:n]
			continue
		}
		good = append(good, u)
	}
	units = good
	p.loadErr = append(p.loadErr, l.errs...)
	if root.pkg == nil || len(p.loadErr) > 0 {
		return p
	}
	// the rules; those that do not type-check against the current sources are
	// left out and reported as undecided
	drop := map[string]bool{}
	var sp *unit
	for try := 0; ; try++ {
		sp = &unit{path: "verif/spec"}
		ents, _ := specFS.ReadDir("spec")
		for _, e := range ents {
			src, _ := specFS.ReadFile("spec/" + e.Name())
			f, err := parser.ParseFile(l.fset, "spec/"+strings.TrimSuffix(e.Name(), ".txt"), src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				p.loadErr = append(p.loadErr, "spec: "+err.Error())
				return p
			}
			var ds []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && drop[fd.Name.Name] {
					continue
				}
				ds = append(ds, d)
			}
			f.Decls = ds
			sp.files = append(sp.files, f)
		}
		delete(l.pkgs, sp.path)
		n := len(l.errs)
		l.errPos = nil
		l.check(sp)
		bad := l.errs[n:]
		l.errs = l.errs[:n]
		if len(bad) == 0 {
			break
		}
		progress := false
		for i, pos := range l.errPos {
			for _, f := range sp.files {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && d.Pos() <= pos && pos < d.End() && !drop[fd.Name.Name] {
						drop[fd.Name.Name] = true
						p.dropped = append(p.dropped, fd.Name.Name+": "+bad[i])
						progress = true
					}
				}
			}
		}
		if !progress || try > 30 {
			p.loadErr = append(p.loadErr, bad...)
			return p
		}
	}
	p.syntax["verif/spec"] = sp.files

	p.prog = ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	done := map[*types.Package]bool{}
	isUnit := map[*types.Package]*unit{}
	for _, u := range append(units, sp) {
		isUnit[u.pkg] = u
	}
	var create func(pkgs []*types.Package)
	create = func(pkgs []*types.Package) {
		for _, q := range pkgs {
			if done[q] {
				continue
			}
			done[q] = true
			create(q.Imports())
			if u, ok := isUnit[q]; ok {
				p.prog.CreatePackage(q, u.files, u.info, true)
			} else {
				p.prog.CreatePackage(q, nil, nil, true)
			}
		}
	}
	for _, u := range append(units, sp) {
		create([]*types.Package{u.pkg})
	}
	for _, u := range append(units, sp) {
		sp := p.prog.Package(u.pkg)
		sp.Build()
		switch u.path {
		case repoImport:
			p.root = sp
		case repoImport + "/suriya":
			p.cli = sp
		case repoImport + "/utils":
			p.utils = sp
			p.utilsInfo = u.info
		case "verif/spec":
			p.spec = sp
		}
		if u.path != "verif/spec" {
			p.own[u.pkg] = true
		}
	}
	return p
}

// position of an SSA construct, relative to the repository
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.repo, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// functions of the repository, sorted
func (p *Program) ownFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range p.prog.AllPackages() {
		if !p.own[pkg.Pkg] {
			continue
		}
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := p.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == pkg && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
