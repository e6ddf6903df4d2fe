// Command instr writes instrumented copies of selected packages of /repo and
// the overlay file that makes the go command use them.
//
//	instr -repo /repo -out DIR [-mode full|nogo|sync] dir=opts ...
//
// dir is relative to the repository, opts any of
//
//	L  package sync is replaced by vsync
//	G  go statements become vsync.Go
//	S  a scheduling point before every statement
//	M  package go-bip39 is replaced by memo39 (same results, faster)
//	K  scrypt (also inside snacl) is replaced by itself with a tiny work factor
//	U  the unblinding of outputs is remembered (memoconf)
//	E  a scheduling point at the entry of exported functions and methods
//
// The source text is edited in place (nothing is reprinted), so comments and
// line numbers survive and any code the parser accepts can be handled.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vsyncPath = "github.com/tdex-network/tdex-daemon/verif/vsync"

const verifPath = "github.com/tdex-network/tdex-daemon/verif/"

var substitutes = map[string]struct{ option, name, path string }{
	"github.com/vulpemventures/go-bip39":                 {"M", "bip39", verifPath + "memo39"},
	"github.com/vulpemventures/go-elements/confidential": {"U", "confidential", verifPath + "memoconf"},
	"golang.org/x/crypto/scrypt":                         {"K", "scrypt", verifPath + "cheap/scrypt"},
	"github.com/btcsuite/btcwallet/snacl":                {"K", "snacl", verifPath + "cheap/snacl"},
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type editor struct {
	src   []byte
	edits []edit
}

func (e *editor) insert(pos int, text string) { e.replace(pos, pos, text) }
func (e *editor) replace(pos, end int, text string) {
	e.edits = append(e.edits, edit{pos, end, text, len(e.edits)})
}
func (e *editor) apply() []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		if e.edits[i].pos != e.edits[j].pos {
			return e.edits[i].pos < e.edits[j].pos
		}
		// pure insertions come before replacements at the same position
		zi, zj := e.edits[i].end == e.edits[i].pos, e.edits[j].end == e.edits[j].pos
		if zi != zj {
			return zi
		}
		return e.edits[i].seq < e.edits[j].seq
	})
	var out []byte
	at := 0
	for _, d := range e.edits {
		if d.pos < at {
			continue // overlapping (inside a replaced argument): drop
		}
		out = append(out, e.src[at:d.pos]...)
		out = append(out, d.text...)
		at = d.end
	}
	return append(out, e.src[at:]...)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mode := flag.String("mode", "full", "")
	flag.Parse()
	replace := map[string]string{}
	for _, a := range flag.Args() {
		p := strings.SplitN(a, "=", 2)
		dir, opts := p[0], p[1]
		switch *mode {
		case "nogo":
			opts = strings.ReplaceAll(opts, "G", "")
		case "sync":
			opts = strings.NewReplacer("G", "", "S", "").Replace(opts)
		case "none":
			opts = ""
		}
		if opts == "" {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			res, err := instrument(f, dir, src, opts)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err) // left as it is: the compiler will complain if it matters
				continue
			}
			if res == nil {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(dir, "/", "_")+"__"+filepath.Base(f))
			if old, err := os.ReadFile(dst); err != nil || string(old) != string(res) {
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			}
			replace[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func instrument(path, dir string, src []byte, opts string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	e := &editor{src: src}
	used := false
	has := func(o string) bool { return strings.Contains(opts, o) }
	base := filepath.Base(path)
	pkg := dir
	site := func(p token.Pos) string { return fmt.Sprintf("%s:%d", base, fset.Position(p).Line) }

	if has("L") {
		for _, im := range f.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			if name == "_" || name == "." {
				continue
			}
			start := im.Path.Pos()
			if im.Name != nil {
				start = im.Name.Pos()
			}
			e.replace(off(start), off(im.Path.End()), name+` "`+vsyncPath+`"`)
			used = true
		}
	}
	for _, im := range f.Imports {
		sub, ok := substitutes[strings.Trim(im.Path.Value, `"`)]
		if !ok || !has(sub.option) {
			continue
		}
		name, start := sub.name, im.Path.Pos()
		if im.Name != nil {
			name, start = im.Name.Name, im.Name.Pos()
		}
		if name == "_" || name == "." {
			continue
		}
		e.replace(off(start), off(im.Path.End()), name+` "`+sub.path+`"`)
		used = true
	}
	local := false
	stmts := func(list []ast.Stmt) {
		if !has("S") {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			e.insert(off(s.Pos()), fmt.Sprintf("vsync__.Y('S',%q,%q);", pkg, site(s.Pos())))
			local = true
		}
	}
	ngo := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && has("E") && x.Name.IsExported() {
				e.insert(off(x.Body.Lbrace)+1, fmt.Sprintf("vsync__.Y('E',%q,%q);", pkg, x.Name.Name))
				local = true
			}
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses only, which stmts skips
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.GoStmt:
			if !has("G") {
				return true
			}
			ngo++
			call := x.Call
			pre := ""
			names := []string{}
			for i, a := range call.Args {
				txt := string(src[off(a.Pos()):off(a.End())])
				inline := false
				switch y := a.(type) {
				case *ast.BasicLit:
					inline = true
				case *ast.Ident:
					inline = y.Name == "nil" || y.Name == "true" || y.Name == "false"
				}
				if inline {
					names = append(names, txt)
					continue
				}
				nm := fmt.Sprintf("go%d_%d__", ngo, i)
				pre += nm + " := " + txt + "; "
				names = append(names, nm)
			}
			e.replace(off(x.Go), off(call.Fun.Pos()),
				fmt.Sprintf("{ %svsync__.Go(%q, func() { ", pre, site(x.Go)))
			tail := ""
			if call.Ellipsis.IsValid() {
				tail = "..."
			}
			e.replace(off(call.Lparen)+1, off(call.Rparen)+1, strings.Join(names, ", ")+tail+") }) }")
			local = true
		}
		return true
	})
	if local {
		e.insert(off(f.Name.End()), `; import vsync__ "`+vsyncPath+`"`)
		used = true
	}
	if !used {
		return nil, nil
	}
	return e.apply(), nil
}
