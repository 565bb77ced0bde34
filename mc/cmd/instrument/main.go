// instrument writes instrumented copies of the Go sources of a module and an overlay file for "go build -overlay".
// A call of verifhook.Point(n) goes before every statement; imports of "sync" go to a shim that knows the scheduler.
// The sources themselves are not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	Dir, ImportPath, Name string
	GoFiles               []string
	CgoFiles              []string
}

type ins struct {
	off  int
	text string
	del  int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	hooks := flag.String("hooks", "", "directory with the hook packages")
	points := flag.Bool("points", true, "put points into the sources (without: only the hook packages, so that the harness' own points remain)")
	shim := flag.Bool("shim", true, "replace sync by the shim")
	flag.Parse()
	cmd := exec.Command("go", "list", "-json=Dir,ImportPath,Name,GoFiles,CgoFiles", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	dec := json.NewDecoder(strings.NewReader(string(b)))
	replace := map[string]string{}
	var pos []string
	goStmts, chanOps := 0, 0
	var mpath string
	{
		c := exec.Command("go", "list", "-m")
		c.Dir = *repo
		o, err := c.Output()
		check(err)
		mpath = strings.TrimSpace(string(o))
	}
	check(os.MkdirAll(*out, 0755))
	if a, err := filepath.Abs(*out); err == nil {
		*out = a
	}
	for dec.More() {
		var p pkg
		check(dec.Decode(&p))
		if p.Name == "main" {
			continue
		}
		var vars []string
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			check(err)
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			check(err)
			if !*points {
				continue
			}
			rel, _ := filepath.Rel(*repo, path)
			for _, d := range file.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, sp := range g.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								vars = append(vars, "&"+n.Name)
							}
						}
					}
				}
			}
			var edits []ins
			point := func(at token.Pos) {
				ps := fset.PositionFor(at, false)
				edits = append(edits, ins{off: ps.Offset, text: fmt.Sprintf("verifhook.Point(%d);", len(pos))})
				pos = append(pos, fmt.Sprintf("%s:%d", rel, ps.Line))
			}
			list := func(l []ast.Stmt) {
				for _, s := range l {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					point(s.Pos())
				}
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					if n.Doc != nil {
						for _, c := range n.Doc.List {
							if strings.HasPrefix(c.Text, "//go:") {
								return false
							}
						}
					}
				case *ast.BlockStmt:
					if len(n.List) == 0 {
						point(n.Lbrace + 1)
					}
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					chanOps++
					list(n.Body)
				case *ast.GoStmt:
					goStmts++
				case *ast.SendStmt:
					chanOps++
				case *ast.ChanType:
					chanOps++
				}
				return true
			})
			// switch and select bodies are blocks of clauses: no points directly inside
			edits = dropClausePoints(file, fset, edits)
			if len(edits) > 0 {
				end := fset.PositionFor(file.Name.End(), false).Offset
				edits = append(edits, ins{off: end, text: fmt.Sprintf("; import verifhook %q", mpath+"/verifhook")})
			}
			for _, im := range file.Imports {
				if *shim && im.Path.Value == `"sync"` {
					o := fset.PositionFor(im.Path.Pos(), false).Offset
					name := ""
					if im.Name == nil {
						name = "sync "
					}
					edits = append(edits, ins{off: o, del: len(im.Path.Value), text: fmt.Sprintf("%s%q", name, mpath+"/verifhook/vsync")})
				}
			}
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var o strings.Builder
			at := 0
			for _, e := range edits {
				o.Write(src[at:e.off])
				o.WriteString(e.text)
				at = e.off + e.del
			}
			o.Write(src[at:])
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			writeIfChanged(dst, []byte(o.String()))
			replace[path] = dst
		}
		if len(vars) > 0 {
			rel, _ := filepath.Rel(*repo, p.Dir)
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__")+"__zz_verifhook_vars.go")
			writeIfChanged(dst, []byte(fmt.Sprintf("package %s\n\nimport verifhook %q\n\nfunc init() { verifhook.Vars = append(verifhook.Vars, %s) }\n", p.Name, mpath+"/verifhook", strings.Join(vars, ", "))))
			replace[filepath.Join(p.Dir, "zz_verifhook_vars.go")] = dst
		}
	}
	tbl := filepath.Join(*out, "verifhook_table.go")
	writeIfChanged(tbl, []byte(fmt.Sprintf("package verifhook\n\nconst GoStmts = %d\nconst ChanOps = %d\n\nvar Pos = %#v\n", goStmts, chanOps, pos)))
	replace[filepath.Join(*repo, "verifhook", "table.go")] = tbl
	for _, d := range []string{"verifhook", "verifhook/vsync"} {
		fs, err := filepath.Glob(filepath.Join(*hooks, d, "*.go.txt"))
		check(err)
		for _, f := range fs {
			src, err := os.ReadFile(f)
			check(err)
			dst := filepath.Join(*out, strings.ReplaceAll(d, "/", "_")+"_"+strings.TrimSuffix(filepath.Base(f), ".txt"))
			writeIfChanged(dst, []byte(strings.ReplaceAll(string(src), "MODULE", mpath)))
			replace[filepath.Join(*repo, d, strings.TrimSuffix(filepath.Base(f), ".txt"))] = dst
		}
	}
	j, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(err)
	writeIfChanged(filepath.Join(*out, "overlay.json"), j)
	fmt.Printf("%d points, %d go statements, %d channel operations\n", len(pos), goStmts, chanOps)
}

// The block of a switch or select statement holds clauses, which are not statements to put a call before.
func dropClausePoints(file *ast.File, fset *token.FileSet, edits []ins) []ins {
	bad := map[int]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		var body *ast.BlockStmt
		switch n := n.(type) {
		case *ast.SwitchStmt:
			body = n.Body
		case *ast.TypeSwitchStmt:
			body = n.Body
		case *ast.SelectStmt:
			body = n.Body
		}
		if body != nil {
			if len(body.List) == 0 {
				bad[fset.PositionFor(body.Lbrace+1, false).Offset] = true
			}
			for _, s := range body.List {
				bad[fset.PositionFor(s.Pos(), false).Offset] = true
			}
		}
		return true
	})
	var out []ins
	for _, e := range edits {
		if !bad[e.off] {
			out = append(out, e)
		}
	}
	return out
}

func writeIfChanged(p string, b []byte) {
	if o, err := os.ReadFile(p); err == nil && string(o) == string(b) {
		return
	}
	check(os.WriteFile(p, b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}
