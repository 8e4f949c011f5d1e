package main

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Paths, patterns, filters, Walk and FindTarget.

func fieldKind(f string) string {
	switch {
	case strings.HasPrefix(f, "<-"):
		return "expr"
	case strings.HasPrefix(f, "<"):
		return "arg"
	case strings.HasPrefix(f, "-"):
		return "flag"
	}
	return "command"
}

// mMatch says whether the pattern describes the end of the path
func mMatch(pattern, path []string) bool {
	if len(pattern) > len(path) {
		return false
	}
	tail := path[len(path)-len(pattern):]
	for i, p := range pattern {
		ok := p == tail[i]
		switch p {
		case "*":
			ok = fieldKind(tail[i]) == "command"
		case "-":
			ok = fieldKind(tail[i]) == "flag"
		case "<>":
			ok = fieldKind(tail[i]) == "arg"
		case "<->":
			ok = fieldKind(tail[i]) == "expr"
		default:
			if fieldKind(p) == "flag" {
				ok = ok || "-"+p == tail[i]
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// tree of commands for Walk: children of node i; node 0 is the root
type walkTree [][]int

func walkTrees(n int, fn func(walkTree)) {
	parent := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			tr := make(walkTree, n)
			for j := 1; j < n; j++ {
				tr[parent[j]] = append(tr[parent[j]], j)
			}
			fn(tr)
			return
		}
		for p := 0; p < i; p++ {
			parent[i] = p
			rec(i + 1)
		}
	}
	rec(1)
}

var errWalk = errors.New("walk stopped")

func (tr walkTree) path(i int) string {
	if i == 0 {
		return "app"
	}
	for p := range tr {
		for _, c := range tr[p] {
			if c == i {
				return tr.path(p) + fmt.Sprintf(" c%d", i)
			}
		}
	}
	return "?"
}

func (tr walkTree) model(start int, ret []int) (ev []string, err error) {
	var rec func(i int) error
	rec = func(i int) error {
		ev = append(ev, tr.path(i))
		switch ret[i] {
		case 1:
			return nil
		case 2:
			return errWalk
		}
		for _, c := range tr[i] {
			if err := rec(c); err != nil {
				return err
			}
		}
		return nil
	}
	err = rec(start)
	return
}

func (tr walkTree) run(t *T, start int, ret []int, timing int) {
	want, wantErr := tr.model(start, ret)
	want = clone(want)
	index := map[string]int{}
	for i := range tr {
		index[tr.path(i)] = i
	}
	var got []string
	var gotErr error
	walk := func(c *cli.Context) error {
		gotErr = c.Walk(func(c *cli.Context) error {
			p := c.Path().String()
			i, ok := index[p]
			if !ok {
				return nil // a command that was added by default
			}
			got = append(got, p)
			if c.Command().Name != c.Name() {
				t.Failf("command is %s in the context of %s", c.Command().Name, p)
			}
			switch ret[i] {
			case 1:
				return cli.ErrSkipCommand
			case 2:
				return errWalk
			}
			return nil
		})
		return nil
	}
	var mk func(i int) *cli.Command
	mk = func(i int) *cli.Command {
		cmd := &cli.Command{Name: fmt.Sprintf("c%d", i), Action: func() {}}
		for _, c := range tr[i] {
			cmd.Subcommands = append(cmd.Subcommands, mk(c))
		}
		if i == start {
			switch timing {
			case 0:
				cmd.Before = walk
			case 1:
				cmd.Action = walk
			case 2:
				cmd.After = walk
			}
		}
		return cmd
	}
	root := mk(0)
	app := &cli.App{Name: "app", Before: root.Before, After: root.After, Action: root.Action, Commands: root.Subcommands}
	line := strings.Fields(tr.path(start))[1:]
	r := runApp(app, line...)
	t.Step(len(got))
	t.State("%v %v", got, gotErr)
	t.Eq("run", errText(r.Error), "")
	t.Eq("visited", strings.Join(got, ", "), strings.Join(want, ", "))
	t.Eq("error", errText(gotErr), errText(wantErr))
}

// pathApp has a target of each kind at each level
func pathApp(each func(*cli.Context) error) *cli.App {
	all := func() any { return each }
	opts := func(fs ...*cli.Flag) []*cli.Flag {
		for _, f := range fs {
			f.Value = new(bool)
			if each != nil {
				f.Uses, f.Before, f.Action, f.After = all(), all(), all(), all()
			}
		}
		return fs
	}
	args := func(as ...*cli.Arg) []*cli.Arg {
		for _, a := range as {
			if each != nil {
				a.Uses, a.Before, a.Action, a.After = all(), all(), all(), all()
			}
		}
		return as
	}
	leaf := &cli.Command{Name: "leaf", Flags: opts(&cli.Flag{Name: "f"}, &cli.Flag{Name: "deep", Aliases: []string{"d"}}), Args: args(&cli.Arg{Name: "a"}, &cli.Arg{Name: "b"})}
	sub := &cli.Command{Name: "sub", Aliases: []string{"al"}, Flags: opts(&cli.Flag{Name: "long"}), Subcommands: []*cli.Command{leaf}}
	app := &cli.App{Name: "app", Flags: opts(&cli.Flag{Name: "f"}, &cli.Flag{Name: "long"}, &cli.Flag{Name: "n", Options: cli.NonPersistent}), Commands: []*cli.Command{sub}}
	if each != nil {
		for _, c := range []*cli.Command{leaf, sub} {
			c.Uses, c.Before, c.Action, c.After = all(), all(), all(), all()
		}
		app.Uses, app.Before, app.Action, app.After = all(), all(), all(), all()
	} else {
		leaf.Action, sub.Action, app.Action = func() {}, func() {}, func() {}
	}
	return app
}

// mFind resolves a path from the command at the level; result is the path of
// what it means, empty if it does not exist
func mFind(level int, path []string) (string, bool) {
	names := []string{"app", "sub", "leaf"}
	flags := [][]string{{"-f", "--long", "-n"}, {"--long"}, {"-f", "--deep"}}
	if len(path) == 0 {
		return strings.Join(names[:level+1], " "), true
	}
	if path[0] != names[level] && path[0] != "*" {
		return "", false
	}
	cur := level
	opt := ""
	for _, p := range path[1:] {
		if opt != "" {
			return "", false
		}
		switch fieldKind(p) {
		case "command":
			if p == "al" {
				p = "sub"
			}
			if cur == 2 || names[cur+1] != p {
				return "", false
			}
			cur++
		case "arg":
			if cur != 2 || p != "<a>" && p != "<b>" {
				return "", false
			}
			opt = p
		case "flag":
			if p == "-d" {
				p = "--deep"
			}
			for l := cur; l >= 0 && opt == ""; l-- {
				for _, f := range flags[l] {
					if f == p {
						opt = fmt.Sprint(l, p)
					}
				}
			}
			if opt == "" {
				return "", false
			}
		default:
			return "", false
		}
	}
	return strings.TrimSpace(strings.Join(names[:cur+1], " ") + " " + opt), true
}

// targets by the names used in mFind
func pathTargets(app *cli.App, root *cli.Context) map[string]any {
	sub := app.Commands[0]
	for _, c := range app.Commands {
		if c.Name == "sub" {
			sub = c
		}
	}
	leaf := sub.Subcommands[0]
	res := map[string]any{"app": root.Target(), "app sub": sub, "app sub leaf": leaf, "<a>": leaf.Args[0], "<b>": leaf.Args[1]}
	for l, fs := range [][]*cli.Flag{app.Flags, sub.Flags, leaf.Flags} {
		for _, f := range fs {
			n := "--" + f.Name
			if len(f.Name) == 1 {
				n = "-" + f.Name
			}
			if k := fmt.Sprint(l, n); res[k] == nil {
				res[k] = f
			}
		}
	}
	return res
}

func c13Find(t *T, level int, path []string) {
	want, ok := mFind(level, path)
	line := []string{"sub", "leaf"}[:level]
	app := pathApp(nil)
	check := func(c *cli.Context) error {
		root := c
		for root.Parent() != nil {
			root = root.Parent()
		}
		target := pathTargets(app, root)
		res, found := c.FindTarget(cli.ContextPath(path))
		t.Step(1)
		t.State("%v %v", found, path)
		if found != ok {
			t.Failf("FindTarget(%q) in %s gives %v, want %v (%s)", path, c.Path(), found, ok, want)
			return nil
		}
		if !ok {
			return nil
		}
		exp := target[want]
		if i := strings.LastIndex(want, " "); exp == nil {
			exp = target[want[i+1:]]
		}
		if got := res.Target(); got != exp {
			t.Failf("FindTarget(%q) in %s gives the target of %s, want %s", path, c.Path(), res.Path(), want)
		}
		return nil
	}
	switch level {
	case 0:
		app.Action = check
	case 1:
		app.Commands[0].Action = check
	case 2:
		app.Commands[0].Subcommands[0].Action = check
	}
	r := runApp(app, line...)
	t.Eq("run", errText(r.Error), "")
}

// each context that occurs can be found by its path
func c13RoundTrip(t *T, line []string) {
	n := 0
	app := pathApp(func(c *cli.Context) error {
		n++
		root := c
		for root.Parent() != nil {
			root = root.Parent()
		}
		p := c.Path()
		t.State("%s %v", p, c.Timing())
		res, ok := root.FindTarget(p)
		if !ok {
			t.Failf("%s not found by its own path at %v", p, c.Timing())
			return nil
		}
		if res.Target() != c.Target() {
			t.Failf("the path %s finds another target at %v", p, c.Timing())
		}
		if !reflect.DeepEqual(res.Path(), p) {
			t.Failf("path %s finds %s", p, res.Path())
		}
		if !p.Match(p.String()) {
			t.Failf("path %s does not match itself", p)
		}
		last := p.Last()
		kinds := []bool{p.IsCommand(), p.IsFlag(), p.IsArg()}
		want := []bool{c.IsCommand(), c.IsFlag(), c.IsArg()}
		t.Eq("kind of "+last, fmt.Sprint(kinds), fmt.Sprint(want))
		return nil
	})
	r := runApp(app, line...)
	t.Step(n)
	t.Eq("run", errText(r.Error), "")
	if n == 0 {
		t.Failf("nothing ran")
	}
}

// mFilter is the meaning of the modes
func mFilter(m cli.FilterModes, kind string, seen, root bool) bool {
	// the three kinds together mean any of them; one of them alone means that one
	if m&cli.Anything != cli.Anything {
		for bit, k := range map[cli.FilterModes]string{cli.AnyFlag: "flag", cli.AnyArg: "arg", cli.AnyCommand: "command"} {
			if m&bit != 0 && kind != k {
				return false
			}
		}
	}
	if m&cli.Seen != 0 && !seen {
		return false
	}
	if m&cli.RootCommand != 0 && !root {
		return false
	}
	if m&cli.HasValue != 0 && kind == "command" {
		return false
	}
	return true
}

func c13Filter(t *T, name string, filter cli.ContextFilter, pred func(c *cli.Context, seen bool) bool, line []string) {
	// occurrences known from the line
	used := map[string]bool{}
	lvl := []string{"app"}
	for _, l := range line {
		switch {
		case l == "sub" || l == "leaf":
			lvl = append(lvl, l)
		case strings.HasPrefix(l, "-"):
			used[l] = true
		default:
			used["<a>"] = true
		}
	}
	n := 0
	app := pathApp(func(c *cli.Context) error {
		n++
		seen := false
		if c.Timing() != cli.InitialTiming && !c.IsCommand() {
			seen = used[c.Name()]
			// -f and --long are defined twice; a use further down is not known before
			if use := flagLevel(line, c.Name()); use >= 0 {
				at := len(c.Path()) - 2
				owner := func(level int) int {
					switch {
					case c.Name() == "-f" && level == 2:
						return 2
					case c.Name() == "--long" && level >= 1:
						return 1
					case c.Name() == "--deep":
						return 2
					}
					return 0
				}
				seen = owner(use) == owner(at) && (use <= at || c.Timing() == cli.AfterTiming)
			}
		}
		want := pred(c, seen)
		got := false
		if err := c.Do(cli.IfMatch(filter, cli.ActionFunc(func(*cli.Context) error { got = true; return nil }))); err != nil {
			t.Failf("IfMatch fails with %v", err)
		}
		t.State("%s %v %v %v", c.Path(), c.Timing(), got, name)
		if got != want {
			t.Failf("IfMatch(%s) at %s in %v is %v, want %v", name, c.Path(), c.Timing(), got, want)
		}
		if filter != nil {
			got = false
			err := c.Do(cli.Assert(filter, cli.ActionFunc(func(*cli.Context) error { got = true; return nil })))
			if got != want || (err == nil) != want {
				t.Failf("Assert(%s) at %s in %v: ran=%v err=%v, want %v", name, c.Path(), c.Timing(), got, err, want)
			}
		}
		return nil
	})
	r := runApp(app, line...)
	t.Step(n)
	t.Eq("run", errText(r.Error), "")
}

// level of the command on whose line the flag is
func flagLevel(line []string, flag string) int {
	l := 0
	for _, tok := range line {
		if tok == "sub" || tok == "leaf" {
			l++
		}
		if tok == flag {
			return l
		}
	}
	return -1
}

func init() {
	register(&Prop{
		ID: "C13",
		Bound: "every path of up to 4 names over 8 against every pattern of up to 3 (thorough: 4) elements over 15; Walk over every tree of up to 5 (thorough: 6) commands " +
			"from each command and timing with every assignment of none, skip and error results to the commands; FindTarget of every path up to 4 names over 14 from each of 3 commands, " +
			"and of the path of every context of a run; IfMatch and Assert of all 64 combinations of filter modes, all timings and patterns at every pipeline of every target for 12 command lines",
		Assumptions: []string{"value targets (expressions) occur in patterns only"},
		Run: func(x *X) {
			fields := []string{"app", "sub", "f", "flag", "-f", "--flag", "<arg>", "<-expr>"}
			pats := []string{"*", "app", "sub", "f", "flag", "-", "-f", "-flag", "--flag", "<>", "<arg>", "arg", "<->", "<-expr>", "other"}
			np := 3
			if x.Thorough {
				np = 4
			}
			words(pats, 0, np, func(pat []string) {
				p := clone(pat)
				x.Case(func() string { return "match|" + q(p) }, func(t *T) {
					text := strings.Join(p, " ")
					words(fields, 1, 4, func(path []string) {
						t.Step(1)
						got, want := cli.ContextPath(path).Match(text), mMatch(p, path)
						if got != want {
							t.Failf("%q matches %q: %v, want %v", path, text, got, want)
						}
						if got {
							t.State("%v", path)
						}
					})
					text = "  " + strings.Join(p, "   ") + " "
					if len(p) > 0 && cli.ContextPath(fields[:2]).Match(text) != mMatch(p, fields[:2]) {
						t.Failf("blanks matter in %q", text)
					}
				})
			})
			nt := 5
			if x.Thorough {
				nt = 6
			}
			for n := 1; n <= nt; n++ {
				walkTrees(n, func(tr walkTree) {
					for start := 0; start < n; start++ {
						if n == nt && start > 1 {
							continue
						}
						for timing := 0; timing < 3; timing++ {
							if n > 4 && timing != 1 {
								continue
							}
							words([]int{0, 1, 2}, n, n, func(ret []int) {
								r := clone(ret)
								x.Case(func() string { return fmt.Sprintf("walk|%v start=%d timing=%d results=%v", tr, start, timing, r) }, func(t *T) { tr.run(t, start, r, timing) })
							})
						}
					}
				})
			}
			segs := []string{"app", "sub", "al", "leaf", "nope", "*", "-f", "--long", "-n", "--deep", "-d", "-q", "<a>", "<c>"}
			for level := 0; level < 3; level++ {
				words(segs, 0, 4, func(path []string) {
					if slices.Contains(path[min(1, len(path)):], "*") {
						return
					}
					p := clone(path)
					x.Case(func() string { return fmt.Sprintf("find|%d %q", level, p) }, func(t *T) { c13Find(t, level, p) })
				})
			}
			lines := [][]string{{}, {"-f"}, {"-n"}, {"--long", "sub"}, {"sub"}, {"sub", "--long"}, {"-f", "sub"}, {"sub", "-f"}, {"sub", "leaf"}, {"sub", "leaf", "-f"}, {"-f", "sub", "leaf", "v"}, {"sub", "leaf", "--deep", "v"}}
			for _, l := range lines {
				x.Case(func() string { return "roundtrip|" + q(l) }, func(t *T) { c13RoundTrip(t, l) })
			}
			for _, l := range lines {
				for m := cli.FilterModes(0); m < 64; m++ {
					x.Case(func() string { return fmt.Sprintf("filter|%d %q", m, l) }, func(t *T) {
						c13Filter(t, fmt.Sprint(int(m)), m, func(c *cli.Context, seen bool) bool {
							return mFilter(m, fieldKind(c.Name()), seen, len(c.Path()) == 1)
						}, l)
					})
				}
				for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming} {
					x.Case(func() string { return fmt.Sprintf("filter|%v %q", tm, l) }, func(t *T) {
						c13Filter(t, tm.String(), tm, func(c *cli.Context, _ bool) bool { return c.Timing() == tm }, l)
					})
				}
				for _, pat := range []string{"", "*", "-", "<>", "sub *", "leaf <>", "sub -", "app -f", "-long", "app *", "* * *"} {
					x.Case(func() string { return fmt.Sprintf("filter|pattern %q %q", pat, l) }, func(t *T) {
						c13Filter(t, pat, cli.PatternFilter(pat), func(c *cli.Context, _ bool) bool {
							return mMatch(strings.Fields(pat), c.Path())
						}, l)
					})
				}
				x.Case(func() string { return fmt.Sprintf("filter|nil %q", l) }, func(t *T) {
					c13Filter(t, "nil", nil, func(*cli.Context, bool) bool { return true }, l)
				})
			}
		},
	})
}
