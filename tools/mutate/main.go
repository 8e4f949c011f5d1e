// mutate plants small random changes in /repo's sources by means of overlays
// and reports those that the repository's tests and all checks let pass.  It
// is used to find gaps in the checks, by hand; no check depends on it.
//
//	mutate -seed 1 -n 100 -out /tmp/mutants.jsonl [FILE...]
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type mutant struct {
	File     string
	Line     int
	Kind     string
	from, to int
	text     string
	Old, New string
	Result   string
	Props    string
	Secs     float64
}

func sites(file string) (res []mutant) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(kind string, a, b token.Pos, text string) {
		o := string(src[off(a):off(b)])
		res = append(res, mutant{File: file, Line: fset.Position(a).Line, Kind: kind, from: off(a), to: off(b), text: text, Old: cut(o), New: cut(text)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			add("never", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			add("always", n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
			}
		case *ast.ExprStmt:
			add("drop", n.Pos(), n.End(), "")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				add("drop", n.Pos(), n.End(), "")
			}
		case *ast.IncDecStmt:
			add("drop", n.Pos(), n.End(), "")
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				add("branch", n.Pos(), n.End(), "break")
			}
			if n.Label == nil && n.Tok == token.BREAK {
				add("branch", n.Pos(), n.End(), "")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT && len(n.Value) < 4 {
				add("int", n.Pos(), n.End(), "("+n.Value+"+1)")
				if n.Value != "0" {
					add("int", n.Pos(), n.End(), "("+n.Value+"-1)")
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add("bool", n.Pos(), n.End(), "false")
			}
			if n.Name == "false" {
				add("bool", n.Pos(), n.End(), "true")
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				if t := text(n.Results[0]); t == "err" || strings.HasPrefix(t, "fmt.Errorf") {
					add("return", n.Pos(), n.End(), "return nil")
				}
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				a, b := n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End()
				add("case", a, b, "")
			}
		case *ast.KeyValueExpr:
			// a field of a literal that is left out
			if id, ok := n.Key.(*ast.Ident); ok && ast.IsExported(id.Name) {
				add("field", n.Value.Pos(), n.Value.End(), "*new(=)")
				res = res[:len(res)-1]
			}
		}
		return true
	})
	return
}

func cut(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func run(dir string, env []string, limit time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = time.Second
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	out := flag.String("out", "/tmp/mutants.jsonl", "")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "must be what mc/go.mod refers to")
	max := flag.Int("max", 10, "properties checked, most likely ones first")
	only := flag.String("props", "", "")
	flag.Parse()
	files := flag.Args()
	if len(files) == 0 {
		filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
			if d.IsDir() && (d.Name() == ".git" || strings.HasSuffix(d.Name(), "fakes") || d.Name() == "examples" || d.Name() == "cmd" || d.Name() == "build") {
				return filepath.SkipDir
			}
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, "_windows.go") && !strings.HasSuffix(p, "_darwin.go") {
				files = append(files, p)
			}
			return nil
		})
	}
	var all []mutant
	for _, f := range files {
		all = append(all, sites(f)...)
	}
	r := rand.New(rand.NewSource(*seed))
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	fmt.Println(len(all), "sites")
	if *n > len(all) {
		*n = len(all)
	}
	o, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	tmp, _ := os.MkdirTemp("/tmp", "mutate")
	defer os.RemoveAll(tmp)
	mc := filepath.Join(tmp, "mc")
	kf, _ := os.ReadFile(filepath.Join(*verif, "known_findings.txt"))
	os.WriteFile(filepath.Join(tmp, "known_findings.txt"), kf, 0644)
	src, _ := filepath.Glob(filepath.Join(*verif, "mc/c*.go"))
	var props []string
	for _, s := range src {
		b, _ := os.ReadFile(s)
		for _, m := range regexp.MustCompile(`ID:\s+"(C\d+)"`).FindAllStringSubmatch(string(b), -1) {
			props = append(props, m[1])
		}
	}
	if *only != "" {
		props = strings.Split(*only, ",")
	}
	env := []string{"GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "VERIF_DIR=" + tmp}
	kills := map[string]int{}
	prior := map[string][]string{
		"set.go":       {"C01", "C02", "C03", "C23", "C24", "C12"},
		"value.go":     {"C05", "C04", "C06", "C09"},
		"flag.go":      {"C04", "C07", "C09", "C15", "C17"},
		"arg.go":       {"C02", "C03", "C09", "C15", "C17"},
		"option.go":    {"C09", "C12", "C10", "C04", "C15"},
		"command.go":   {"C11", "C10", "C08", "C15", "C16"},
		"context.go":   {"C24", "C10", "C13", "C08", "C15", "C16"},
		"action.go":    {"C08", "C12", "C07", "C15", "C13", "C09"},
		"usage.go":     {"C17"},
		"templates.go": {"C17"},
		"synopsis":     {"C17"},
		"completion":   {"C16"},
		"file.go":      {"C18"},
		"lookup.go":    {"C24", "C09", "C05"},
		"filter.go":    {"C13"},
		"error.go":     {"C23", "C12", "C11"},
		"app.go":       {"C23", "C10", "C17", "C15"},
		"cli.go":       {"C06", "C23"},
		"support":      {"C06", "C17", "C04"},
		"value/":       {"C05"},
		"expr/":        {"C19"},
		"provider/":    {"C20"},
		"structure/":   {"C21"},
		"template/":    {"C22"},
	}
	counts := map[string]int{}
	for _, m := range all[:*n] {
		start := time.Now()
		b, err := os.ReadFile(m.File)
		if err != nil {
			panic(err)
		}
		text := string(b[:m.from]) + m.text + string(b[m.to:])
		mf := filepath.Join(tmp, "m.go")
		os.WriteFile(mf, []byte(text), 0644)
		ov := filepath.Join(tmp, "ov.json")
		os.WriteFile(ov, []byte(fmt.Sprintf(`{"Replace":{%q:%q}}`, m.File, mf)), 0644)
		done := func(res, props string) {
			m.Result, m.Props, m.Secs = res, props, time.Since(start).Seconds()
			counts[res]++
			j, _ := json.Marshal(m)
			o.Write(append(j, '\n'))
		}
		if _, err := run(*repo, env, time.Minute, "go", "build", "-overlay", ov, "./..."); err != nil {
			done("build", "")
			continue
		}
		if s, err := run(*repo, env, time.Minute, "go", "test", "-vet=off", "-overlay", ov, "./..."); err != nil {
			if strings.Contains(s, "[build failed]") {
				done("build", "")
			} else {
				done("tests", "")
			}
			continue
		}
		if s, err := run(filepath.Join(*verif, "mc"), env, 3*time.Minute, "go", "build", "-overlay", ov, "-buildvcs=false", "-o", mc, "."); err != nil {
			done("mcbuild", cut(s))
			continue
		}
		dir := filepath.Base(filepath.Dir(m.File)) + "/"
		sort.SliceStable(props, func(i, j int) bool {
			a, b := kills[m.File+props[i]]*100+kills[dir+props[i]]*10+kills[props[i]], kills[m.File+props[j]]*100+kills[dir+props[j]]*10+kills[props[j]]
			return a > b
		})
		for k, ps := range prior {
			if strings.Contains(m.File, k) {
				var first, rest []string
				for _, p := range props {
					if strings.Contains(strings.Join(ps, " "), p) {
						first = append(first, p)
					} else {
						rest = append(rest, p)
					}
				}
				props = append(first, rest...)
			}
		}
		killed := ""
		for i, p := range props {
			if i >= *max {
				break
			}
			s, err := run(tmp, env, 5*time.Minute, mc, "-prop", p, "-tier", "quick")
			if err != nil {
				killed = p
				if !strings.Contains(s, "VIOLATION") {
					killed += "?"
				}
				kills[p]++
				kills[dir+p]++
				kills[m.File+p]++
				break
			}
		}
		if killed != "" {
			done("killed", killed)
		} else {
			done("SURVIVED", "")
			fmt.Printf("SURVIVED %s:%d %s %q -> %q\n", m.File, m.Line, m.Kind, m.Old, m.New)
		}
	}
	fmt.Println(counts)
}
