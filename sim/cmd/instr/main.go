// Command instr writes a build overlay for the library: every non-test Go file gets a call of
// rt.Y before each statement, "go" statements and package sync are routed to the simulation's
// scheduler. Insertions are textual, on existing lines, so line numbers stay those of the source.
//
// usage: instr REPO OUTDIR   (writes OUTDIR/overlay.json, OUTDIR/sites.txt, OUTDIR/files/...)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	end  int // replaced range [off,end)
	text string
	ord  int
}

var sites []string
var channels []string
var flags = map[string]bool{}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr REPO OUTDIR")
		os.Exit(2)
	}
	repo, out := os.Args[1], os.Args[2]
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			ctx := build.Default
			if ok, err := ctx.MatchFile(filepath.Dir(p), n); err == nil && ok {
				files = append(files, p)
			}
		}
		return nil
	})
	must(err)
	sort.Strings(files)
	replace := map[string]string{}
	for _, f := range files {
		src, err := os.ReadFile(f)
		must(err)
		res, ok := instrument(f, src, repo)
		if !ok {
			continue
		}
		rel, _ := filepath.Rel(repo, f)
		dst := filepath.Join(out, "files", strings.ReplaceAll(rel, "/", "__"))
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, res, 0o644))
		replace[f] = dst
	}
	if len(channels) > 0 {
		// the scheduler does not own channels: fall back to whole operations as scheduling units
		replace = map[string]string{}
		fmt.Fprintln(os.Stderr, "instr: channel operations found, statement-level scheduling disabled:", channels[0])
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	must(os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")), 0o644))
	fl := fmt.Sprintf("coarse=%v\nsites=%d\n", len(channels) > 0, len(sites))
	for k := range flags {
		fl += k + "=true\n"
	}
	must(os.WriteFile(filepath.Join(out, "flags.txt"), []byte(fl), 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(path string, src []byte, repo string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		// leave it to the compiler to complain
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []ins
	ord := 0
	add := func(o, e int, t string) { edits = append(edits, ins{o, e, t, ord}); ord++ }
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "C" {
			return nil, false
		}
		if p == "sync" {
			add(off(im.Path.Pos()), off(im.Path.End()), `"verif.local/sim/vsync"`)
		}
	}
	rel, _ := filepath.Rel(repo, path)
	point := func(p token.Pos) {
		pos := fset.Position(p)
		add(pos.Offset, pos.Offset, fmt.Sprintf("vsimrt.Y(%d);", len(sites)))
		sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			point(s.Pos())
		}
	}
	loopBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			point(b.Lbrace + 1)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			loopBody(x.Body)
		case *ast.RangeStmt:
			loopBody(x.Body)
		case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			channels = append(channels, fset.Position(n.Pos()).String())
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				channels = append(channels, fset.Position(n.Pos()).String())
			}
		case *ast.GoStmt:
			goStmt(x, off, add)
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				for _, s := range x.Specs {
					for _, nm := range s.(*ast.ValueSpec).Names {
						if nm.Name == "IsLittleEndian" && f.Name.Name == "endianness" {
							flags["endian"] = true
						}
					}
				}
			}
		}
		return true
	})
	add(off(f.Name.End()), off(f.Name.End()), `;import vsimrt "verif.local/sim/rt"`)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].ord < edits[j].ord
	})
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	out = append(out, "\nvar _ = vsimrt.Y\n"...)
	return out, true
}

// go f(a, b)  ->  { fn, a0, a1 := f, a, b; vsimrt.Go(func() { fn(a0, a1) }) }
func goStmt(x *ast.GoStmt, off func(token.Pos) int, add func(int, int, string)) {
	c := x.Call
	_, lit := c.Fun.(*ast.FuncLit)
	if len(c.Args) == 0 && lit {
		add(off(x.Go), off(c.Fun.Pos()), "vsimrt.Go(")
		add(off(c.Lparen), off(c.Rparen)+1, ")")
		return
	}
	if len(c.Args) == 0 {
		add(off(x.Go), off(c.Fun.Pos()), "vsimrt.Go(")
		add(off(c.Lparen), off(c.Rparen)+1, ")")
		return
	}
	// vsimrt.Go(func() { f(args) }) with identifiers rebound first
	pre := "{"
	for _, a := range c.Args {
		if id, ok := a.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
			pre += id.Name + ":=" + id.Name + ";_=" + id.Name + ";"
		}
	}
	add(off(x.Go), off(c.Fun.Pos()), pre+"vsimrt.Go(func(){")
	add(off(c.Rparen)+1, off(c.Rparen)+1, "})}")
}
