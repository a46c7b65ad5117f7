// Command prep writes the overlay with which the checks are built:
//
//   - math/rand's package-level functions ask a hook first, so that the
//     explorer, not chance, answers every random draw;
//   - with -instr, every statement of /repo's packages is preceded by a
//     scheduling point, so that the explorer decides every context switch.
//
// Nothing is written to /repo or GOROOT: the go command reads the replaced
// files through -overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "prep:", err)
		os.Exit(2)
	}
}

func main() {
	out := flag.String("out", "", "directory for the replaced files")
	goroot := flag.String("goroot", runtime.GOROOT(), "GOROOT")
	repo := flag.String("repo", "/repo", "source tree")
	instr := flag.Bool("instr", false, "insert scheduling points")
	flag.Parse()
	replace := map[string]string{}

	src := filepath.Join(*goroot, "src/math/rand/rand.go")
	b, err := os.ReadFile(src)
	die(err)
	p := filepath.Join(*out, "rand.go")
	die(os.WriteFile(p, []byte(patchRand(string(b))), 0o644))
	replace[src] = p

	if *instr {
		n := 0
		die(filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() {
				if strings.HasPrefix(info.Name(), ".") && path != *repo {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			text, ok := instrument(path, b)
			if !ok {
				return nil
			}
			n++
			dst := filepath.Join(*out, fmt.Sprintf("instr_%03d_%s", n, filepath.Base(path)))
			replace[path] = dst
			return os.WriteFile(dst, text, 0o644)
		}))
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

var fnRe = regexp.MustCompile(`(?m)^func (Int63|Uint32|Uint64|Int31|Int|Int63n|Int31n|Intn|Float64|Float32|Perm|NormFloat64|ExpFloat64)\((n int(?:64|32)?)?\) (\S+) \{ return globalRand\(\)\.\w+\((?:n)?\) \}`)

func patchRand(s string) string {
	count := 0
	s = fnRe.ReplaceAllStringFunc(s, func(m string) string {
		count++
		g := fnRe.FindStringSubmatch(m)
		name, arg, ret := g[1], g[2], g[3]
		n := "0"
		call := "globalRand()." + name + "()"
		if arg != "" {
			n = "int64(n)"
			call = "globalRand()." + name + "(n)"
		}
		conv := "return " + ret + "(v)"
		if name == "Perm" {
			conv = "return verifPerm(n, v)"
		}
		return fmt.Sprintf("func %s(%s) %s { if VerifHook != nil { if v, ok := VerifHook(%q, %s); ok { %s } }; return %s }",
			name, arg, ret, name, n, conv, call)
	})
	if count < 8 {
		fmt.Fprintf(os.Stderr, "prep: only %d functions of math/rand patched\n", count)
		os.Exit(2)
	}
	return s + `

// VerifHook answers a draw of the global source when it returns true.
var VerifHook func(kind string, n int64) (float64, bool)

func verifPerm(n int, v float64) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	k := int(v)
	out := make([]int, 0, n)
	for len(left) > 0 {
		j := k % len(left)
		k /= len(left)
		out = append(out, left[j])
		left = append(left[:j], left[j+1:]...)
	}
	return out
}
`
}

// instrument inserts a call to the scheduler before every statement of every
// function body. Only text is inserted, so line numbers and everything else
// stay as they are.
func instrument(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{fset.Position(s.Pos()).Offset, "verifsched.Y(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			skip := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					skip = true
				}
			}
			if !skip {
				add(n.List)
			}
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(list) == 0 {
		return nil, false
	}
	list = append(list, ins{fset.Position(f.Name.End()).Offset, "; import verifsched \"verif/mc/sched\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	last := 0
	for _, i := range list {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	out = append(out, src[last:]...)
	return out, true
}
