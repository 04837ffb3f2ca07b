// instr REPO OUTDIR PKG...   writes copies of the Go files of the given
// packages with a call of verifYield() before every statement, and an overlay
// file for go build.  The files of REPO are not touched.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield")}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, yieldStmt(), s)
	}
	return out
}

const helper = `package %s

import (
	"runtime"
	"sync/atomic"
	"time"
)

var verifOn uint32
var verifCtr uint64

// VerifYield turns the scheduling points on or off.
func VerifYield(on bool, seed uint64) {
	atomic.StoreUint64(&verifCtr, seed)
	if on {
		atomic.StoreUint32(&verifOn, 1)
	} else {
		atomic.StoreUint32(&verifOn, 0)
	}
}

// VerifSleep turns scheduling points at which (virtual) time passes on or off.
func VerifSleep(on bool, seed uint64) {
	VerifYield(on, seed)
	if on {
		atomic.StoreUint32(&verifOn, 2)
	}
}

func verifYield() {
	on := atomic.LoadUint32(&verifOn)
	if on == 0 {
		return
	}
	h := atomic.AddUint64(&verifCtr, 0x9e3779b97f4a7c15)
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	if on == 2 {
		if h&7 == 0 {
			time.Sleep(time.Duration(h>>8%%400)*time.Millisecond + 137*time.Microsecond)
		}
		return
	}
	if h&3 == 0 {
		runtime.Gosched()
	}
	if h&0x3f0 == 0 {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	n := 0
	for _, pkg := range os.Args[3:] {
		dir := filepath.Join(repo, pkg)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		name := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, 0) // comments are dropped
			check(err)
			name = file.Name.Name
			cgo := false
			for _, im := range file.Imports {
				if im.Path.Value == `"C"` {
					cgo = true
				}
			}
			if cgo {
				continue
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.SwitchStmt: // the body lists clauses
						for _, c := range x.Body.List {
							cc := c.(*ast.CaseClause)
							cc.Body = weave(cc.Body)
						}
					case *ast.TypeSwitchStmt:
						for _, c := range x.Body.List {
							cc := c.(*ast.CaseClause)
							cc.Body = weave(cc.Body)
						}
					case *ast.SelectStmt:
						for _, c := range x.Body.List {
							cc := c.(*ast.CommClause)
							cc.Body = weave(cc.Body)
						}
					case *ast.BlockStmt:
						for _, s := range x.List {
							switch s.(type) {
							case *ast.CaseClause, *ast.CommClause:
								return true
							}
						}
						x.List = weave(x.List)
					}
					return true
				})
			}
			var buf bytes.Buffer
			check(printer.Fprint(&buf, token.NewFileSet(), file))
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
			n++
			check(os.WriteFile(dst, buf.Bytes(), 0644))
			overlay[f] = dst
		}
		dst := filepath.Join(out, fmt.Sprintf("%d_yield.go", n))
		n++
		check(os.WriteFile(dst, []byte(fmt.Sprintf(helper, name)), 0644))
		overlay[filepath.Join(dir, "zz_verif_yield.go")] = dst
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": overlay})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
