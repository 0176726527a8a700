// Command instrument writes instrumented copies of jargon's current source files and a go build overlay that puts
// them in place of the originals. /repo itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	simdir = flag.String("sim", ".", "the sim module")
	out    = flag.String("out", "", "output directory")
	doY    = flag.Bool("y", true, "insert yield points")
	doMaps = flag.Bool("maps", true, "rewrite map ranges and go statements")
	doSync = flag.Bool("sync", true, "replace package sync")
	doChan = flag.Bool("chan", true, "rewrite channel operations")
)

const module = "github.com/clipperhouse/jargon"

type pkg struct {
	ImportPath, Dir, Name, Export  string
	GoFiles, CgoFiles              []string
	TestGoFiles, XTestGoFiles      []string
	Error                          *struct{ Err string }
	Standard                       bool
	IgnoredGoFiles, InvalidGoFiles []string
	ForTest                        string
	DepsErrors                     []*struct{ Err string }
	Module                         *struct{ GoVersion string }
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", args...)
	os.Exit(2)
}

func goList(args ...string) []*pkg {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = *simdir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		fatal("go list %v: %v\n%s", args, err, stderr.String())
	}
	var ps []*pkg
	dec := json.NewDecoder(&stdout)
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

// goMinor is the minor language version of the module under test
var goMinor = 14

var nextSite = 16
var sites []site

func main() {
	flag.Parse()
	if *out == "" {
		fatal("-out is required")
	}
	all := goList("-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,TestGoFiles,XTestGoFiles,Standard,Error,Module", module+"/...")
	exports := map[string]string{}
	var targets []*pkg
	for _, p := range all {
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			if p.Error != nil {
				fatal("%s: %s", p.ImportPath, p.Error.Err)
			}
			if p.Module != nil {
				fmt.Sscanf(p.Module.GoVersion, "1.%d", &goMinor)
			}
			targets = append(targets, p)
		}
	}
	sort.Slice(targets, func(i, j int) bool { return targets[i].ImportPath < targets[j].ImportPath })

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})

	overlay := map[string]string{}
	if err := os.MkdirAll(*out, 0777); err != nil {
		fatal("%v", err)
	}
	for _, p := range targets {
		instrument(fset, imp, p, overlay)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0666); err != nil {
		fatal("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0666); err != nil {
		fatal("%v", err)
	}
}

var seams = map[string]map[string]string{
	"os":                     set("simos", "Stdin Stdout Stderr Exit Open Create OpenFile ReadFile WriteFile CreateTemp Rename Remove RemoveAll Truncate Stat Lstat SameFile Link MkdirTemp Mkdir MkdirAll Chmod Symlink Chtimes Chown Getwd File"),
	"path/filepath":          set("simos", "Abs EvalSymlinks"),
	"net":                    {"Listen": "verifhttp.Listen"},
	"io/ioutil":              set("simos", "ReadFile WriteFile TempFile TempDir"),
	"fmt":                    set("simos", "Print Println Printf"),
	"log":                    set("simos", "Fatal Fatalf Fatalln"),
	"github.com/spf13/afero": {"NewOsFs": "verifos.NewFs", "OsFs": "verifos.OsFs"},
	"net/http":               {"ListenAndServe": "verifhttp.ListenAndServe", "ListenAndServeTLS": "verifhttp.ListenAndServeTLS", "Serve": "verifhttp.Serve", "ServeTLS": "verifhttp.ServeTLS", "Transport": "verifhttp.Transport"},
}

var keepUsed = map[string]string{
	"os": "Getpid", "io/ioutil": "Discard", "fmt": "Sprint", "log": "Print", "github.com/spf13/afero": "NewMemMapFs", "net/http": "NotFound", "io": "EOF", "time": "Now", "path/filepath": "Clean", "net": "ParseIP",
}

func set(_ string, names string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(names) {
		m[n] = "verifos." + n
	}
	return m
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkg, overlay map[string]string) {
	if len(p.CgoFiles) > 0 {
		fatal("%s uses cgo", p.ImportPath)
	}
	isMain := p.Name == "main"
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info) // errors are the compiler's business

	for i, af := range files {
		name := p.GoFiles[i]
		res := rewrite(fset, af, srcs[i], info, isMain, p.ImportPath+"/"+name)
		dst := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"__"+name)
		if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(dst, res, 0666); err != nil {
			fatal("%v", err)
		}
		overlay[filepath.Join(p.Dir, name)] = dst
	}
	if isMain {
		shim := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"__zz_verif_shim.go")
		if err := os.WriteFile(shim, []byte("package verifmain\n\n// VerifMain is main\nfunc VerifMain() { main() }\n"), 0666); err != nil {
			fatal("%v", err)
		}
		overlay[filepath.Join(p.Dir, "zz_verif_shim.go")] = shim
		for _, f := range append(append([]string{}, p.TestGoFiles...), p.XTestGoFiles...) {
			overlay[filepath.Join(p.Dir, f)] = ""
		}
	}
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, isMain bool, label string) []byte {
	var edits []edit
	base := fset.File(f.Pos()).Base()
	off := func(p token.Pos) int { return int(p) - base }
	add := func(start, end token.Pos, text string) {
		edits = append(edits, edit{off(start), off(end), text, len(edits)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	// Imports
	imports := `; import verifrt "verif.local/sim/simrt"`
	if isMain {
		imports += `; import verifos "verif.local/sim/simos"; import verifhttp "verif.local/sim/simhttp"`
		add(f.Name.Pos(), f.Name.End(), "verifmain")
	}
	tail := "\nvar _ = verifrt.Y\n"
	if isMain {
		tail += "var _ = verifos.Exit\nvar _ = verifhttp.ListenAndServe\n"
	}
	if *doChan {
		imports += `; import verifio "verif.local/sim/simio"`
		tail += "var _ = verifio.Pipe\n"
	}
	add(f.Name.End(), f.Name.End(), imports)

	if *doSync {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				if im.Name == nil {
					add(im.Path.Pos(), im.Path.End(), `sync "verif.local/sim/simsync"`)
				} else if im.Name.Name != "." && im.Name.Name != "_" {
					add(im.Path.Pos(), im.Path.End(), `"verif.local/sim/simsync"`)
				}
			}
		}
	}

	curFunc := ""
	y := func(pos token.Pos) {
		if !*doY {
			return
		}
		id := nextSite
		nextSite++
		sites = append(sites, site{id, label, fset.Position(pos).Line, curFunc})
		add(pos, pos, fmt.Sprintf("verifrt.Y(%d);", id))
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			y(s.Pos())
		}
	}

	ch := chanRewriter{info: info, text: text, add: add}
	usedSeam := map[string]string{} // import path -> local name
	ast.Inspect(f, func(n ast.Node) bool {
		if *doChan && n != nil {
			ch.visit(n)
		}
		switch n := n.(type) {
		case *ast.FuncDecl:
			curFunc = n.Name.Name
			if n.Body != nil && len(n.Body.List) == 0 && *doY {
				y(n.Body.Rbrace)
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Rbrace)
			}
			if *doMaps {
				if hdr, pre, ok := mapRange(n, info, text); ok {
					add(n.For, n.Body.Lbrace+1, hdr+"{"+pre)
				}
			}
		case *ast.GoStmt:
			if *doMaps && n.Call.Ellipsis == token.NoPos {
				if id, ok := n.Call.Fun.(*ast.Ident); ok {
					if _, b := info.Uses[id].(*types.Builtin); b {
						break
					}
				}
				add(n.Go, n.Go+2, "verifrt.GoCall(")
				sep := ""
				if len(n.Call.Args) > 0 {
					sep = ","
				}
				add(n.Call.Lparen, n.Call.Lparen+1, sep)
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			path := pn.Imported().Path()
			if path == "io" && strings.HasPrefix(n.Sel.Name, "Pipe") && *doChan {
				add(n.Pos(), n.End(), "verifio."+n.Sel.Name)
				usedSeam[path] = id.Name
			}
			if path == "time" && n.Sel.Name == "Sleep" && *doChan {
				add(n.Pos(), n.End(), "verifrt.Sleep")
				usedSeam[path] = id.Name
			}
			if !isMain {
				break
			}
			if r, ok := seams[path][n.Sel.Name]; ok {
				add(n.Pos(), n.End(), r)
				usedSeam[path] = id.Name
			}
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !isMain || !ok {
				break
			}
			switch sel.Sel.Name {
			case "ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS":
			default:
				ok = false
			}
			t := info.Types[sel.X].Type
			if t == nil || !ok {
				break
			}
			if strings.TrimPrefix(t.String(), "*") == "net/http.Server" {
				amp := "&"
				if strings.HasPrefix(t.String(), "*") {
					amp = ""
				}
				add(n.Pos(), n.Pos(), "verifhttp.ServerServe("+amp)
				sep := ""
				if len(n.Args) > 0 {
					sep = ", "
				}
				add(sel.X.End(), n.Lparen+1, sep)
			}
		}
		return true
	})
	var paths []string
	for p := range usedSeam {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		tail += fmt.Sprintf("var _ = %s.%s\n", usedSeam[p], keepUsed[p])
	}

	if ch.used && goMinor < 18 {
		// the replacements are generic functions
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if c.Pos() < f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
					fatal("%s: channel operations in a file with a build constraint", label)
				}
			}
		}
		edits = append(edits, edit{0, 0, "//go:build go1.21\n\n", -1})
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].start != edits[j].start {
			return edits[i].start < edits[j].start
		}
		// insertions before replacements
		a, b := edits[i].end == edits[i].start, edits[j].end == edits[j].start
		if a != b {
			return a
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.start < pos {
			continue // inside a replaced range
		}
		b.Write(src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return b.Bytes()
}

// mapRange gives the replacement for the header of a range over a map, if it can be replaced
func mapRange(n *ast.RangeStmt, info *types.Info, text func(ast.Node) string) (hdr, pre string, ok bool) {
	tv, found := info.Types[n.X]
	if !found || tv.Type == nil {
		return
	}
	m, isMap := tv.Type.Underlying().(*types.Map)
	if !isMap || n.Key == nil {
		return
	}
	basic, isBasic := m.Key().(*types.Basic)
	if !isBasic {
		return
	}
	simple := true
	root := ""
	ast.Inspect(n.X, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			if root == "" {
				root = x.Name
			}
		case *ast.SelectorExpr, nil:
		default:
			simple = false
		}
		return true
	})
	if !simple {
		return
	}
	captured := false
	ast.Inspect(n.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			captured = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				captured = true
			}
		}
		return true
	})
	if captured && n.Tok == token.DEFINE {
		return
	}
	key, val := "_", "_"
	if id, isID := n.Key.(*ast.Ident); isID {
		key = id.Name
	} else {
		return
	}
	if n.Value != nil {
		id, isID := n.Value.(*ast.Ident)
		if !isID {
			return
		}
		val = id.Name
	}
	if key == root || val == root {
		return
	}
	x := text(n.X)
	hdr = fmt.Sprintf("for _, verifkey := range verifrt.MapKeys(%s).([]%s) ", x, basic.Name())
	op := n.Tok.String()
	pre = fmt.Sprintf("if _, verifok := %s[verifkey]; !verifok { continue };", x)
	if key != "_" {
		pre += fmt.Sprintf("%s %s verifkey;", key, op)
	}
	if val != "_" {
		pre += fmt.Sprintf("%s %s %s[verifkey];", val, op, x)
	}
	return hdr, pre, true
}
