package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Shell completion: what is offered is what the app accepts.

type cmpFlag struct {
	names  []string
	values []string // nil: does not take a value
	hidden bool
	local  bool // not persistent
}

type cmpCmd struct {
	name    string
	aliases []string
	hidden  bool
	flags   []*cmpFlag
	subs    []*cmpCmd
	args    []string // names of args
	parent  *cmpCmd
}

var cmpHelp = map[string]string{
	"sub": "help of sub", "par": "two\nlines\r\nof help", "--glob": "a\nb", "--verbose": "be verbose",
}

// cmpTree is the app.  Variants: 1 flags are required, 2 root has no flags of
// its own besides the hidden one, 4 the sub-command redefines a flag.
func cmpTree(variant int) *cmpCmd {
	glob := &cmpFlag{names: []string{"-g", "--glob"}, values: []string{"x", "y", "yy"}}
	verbose := &cmpFlag{names: []string{"--verbose"}}
	secret := &cmpFlag{names: []string{"--secret"}, hidden: true}
	own := &cmpFlag{names: []string{"--own"}, values: []string{"o"}, local: true}
	local := &cmpFlag{names: []string{"-l", "--local"}, values: []string{"a", "b"}}
	deep := &cmpFlag{names: []string{"--deep"}}
	root := &cmpCmd{name: "app"}
	if variant&2 == 0 {
		root.flags = []*cmpFlag{glob, verbose, secret, own}
	} else {
		root.flags = []*cmpFlag{secret}
	}
	sub := &cmpCmd{name: "sub", aliases: []string{"su", "t"}, flags: []*cmpFlag{local}, args: []string{"x"}}
	if variant&4 != 0 {
		sub.flags = append(sub.flags, &cmpFlag{names: []string{"-g", "--glob"}, values: []string{"r", "s"}})
	}
	grand := &cmpCmd{name: "grand", flags: []*cmpFlag{deep}, args: []string{"x"}}
	dark := &cmpCmd{name: "dark", hidden: true}
	par := &cmpCmd{name: "par", subs: []*cmpCmd{grand, dark}, flags: []*cmpFlag{{names: []string{"--mid"}}}}
	hid := &cmpCmd{name: "hid", aliases: []string{"ha"}, hidden: true, flags: []*cmpFlag{local}}
	root.subs = []*cmpCmd{sub, par, hid}
	var link func(c *cmpCmd)
	link = func(c *cmpCmd) {
		for _, s := range c.subs {
			s.parent = c
			link(s)
		}
	}
	link(root)
	return root
}

var cmpArgValues = []string{"p", "pp", "q"}

func cmpBuild(c *cmpCmd, variant int, ran *[]string) *cli.Command {
	res := &cli.Command{Name: c.name, Aliases: c.aliases, HelpText: cmpHelp[c.name]}
	if c.hidden {
		res.Options |= cli.Hidden
	}
	res.Action = func() { *ran = append(*ran, "action of "+c.name) }
	for _, f := range c.flags {
		fl := &cli.Flag{Name: strings.TrimLeft(f.names[len(f.names)-1], "-")}
		fl.HelpText = cmpHelp["--"+fl.Name]
		if len(f.names) > 1 {
			fl.Aliases = []string{strings.TrimLeft(f.names[0], "-")}
		}
		if f.values == nil {
			fl.Value = new(bool)
		} else {
			fl.Value = new(string)
			fl.Completion = cli.CompletionValues(f.values...)
		}
		if f.hidden {
			fl.Options |= cli.Hidden
		}
		if f.local {
			fl.Options |= cli.NonPersistent
		}
		if variant&8 != 0 && f.values == nil {
			fl.Options |= cli.No
		}
		if variant&1 != 0 && !f.hidden {
			fl.Options |= cli.Required
		}
		res.Flags = append(res.Flags, fl)
	}
	for _, a := range c.args {
		res.Args = append(res.Args, &cli.Arg{Name: a, Value: new(string), NArg: 1, Completion: cli.CompletionValues(cmpArgValues...)})
	}
	for _, s := range c.subs {
		res.Subcommands = append(res.Subcommands, cmpBuild(s, variant, ran))
	}
	return res
}

func cmpApp(variant int, ran *[]string) *cli.App {
	c := cmpBuild(cmpTree(variant), variant, ran)
	return &cli.App{Name: "app", Flags: c.Flags, Commands: c.Subcommands, Action: c.Action}
}

// cmpLine is where the cursor stands, given the words before it
type cmpLine struct {
	cmd     *cmpCmd
	await   *cmpFlag
	taken   int
	bad     bool // the words are no line the app accepts a continuation of
	unclear bool // the model does not say
	dash    bool // after --
}

func (c *cmpCmd) scope() (res []*cmpFlag) {
	res = append(res, c.flags...)
	for p := c.parent; p != nil; p = p.parent {
		for _, f := range p.flags {
			redefined := slices.ContainsFunc(res, func(g *cmpFlag) bool { return g.names[len(g.names)-1] == f.names[len(f.names)-1] })
			if !f.local && !redefined {
				res = append(res, f)
			}
		}
	}
	return
}

func (c *cmpCmd) flag(name string) *cmpFlag {
	for _, f := range c.scope() {
		if slices.Contains(f.names, name) {
			return f
		}
	}
	return nil
}

func cmpWalk(root *cmpCmd, ws []string) (l cmpLine) {
	l.cmd = root
	for _, w := range ws {
		dashed := strings.HasPrefix(w, "-")
		switch {
		case l.await != nil && dashed:
			l.unclear = true
			l.await = nil
		case l.await != nil:
			l.await = nil
		case l.dash && dashed:
			l.unclear = true
		case w == "--":
			l.dash = true
		case dashed && strings.HasPrefix(w, "--"):
			name, _, hasValue := strings.Cut(w, "=")
			f := l.cmd.flag(name)
			if f == nil || hasValue && f.values == nil {
				l.bad = true
			} else if f.values != nil && !hasValue {
				l.await = f
			}
		case dashed:
			f := l.cmd.flag(w[:2])
			if f == nil {
				l.bad = true
			} else if len(w) == 2 {
				l.await = f
			}
		case len(l.cmd.subs) > 0:
			i := slices.IndexFunc(l.cmd.subs, func(s *cmpCmd) bool { return s.name == w || slices.Contains(s.aliases, w) })
			if i < 0 {
				l.bad = true
				return
			}
			l.cmd, l.dash, l.taken = l.cmd.subs[i], false, 0
		default:
			l.taken++
			if l.taken > len(l.cmd.args) {
				l.bad = true
			}
		}
		if l.bad || l.unclear {
			return
		}
	}
	return
}

func withPrefix(list []string, p string) (res []string) {
	for _, s := range list {
		if strings.HasPrefix(s, p) {
			res = append(res, s)
		}
	}
	return
}

var cmpDefaults = []string{"-h", "--help", "--version"}

func cmpCheck(t *T, variant int, ws []string, inc string) {
	root := cmpTree(variant)
	var ran []string
	ctx, err := cmpApp(variant, &ran).Initialize(context.Background())
	if err != nil {
		t.Fatalf("initialize: %v", err)
	}
	args := append([]string{"app"}, ws...)
	items := cli.FromContext(ctx).Complete(args, inc)
	l := cmpWalk(root, ws)
	state := fmt.Sprint(l.cmd.name, l.await != nil, l.taken, l.bad, l.unclear, l.dash)
	t.State(variant, state, inc)
	t.Step(len(ws) + 1)

	got := map[string]cli.CompletionItem{}
	var list []string
	for _, it := range items {
		if _, dup := got[it.Value]; dup {
			t.Failf("%q is offered twice", it.Value)
		}
		got[it.Value] = it
		list = append(list, it.Value)
		if it.Type == cli.CompletionTypeToken && !strings.HasPrefix(it.Value, inc) {
			t.Failf("candidate %q does not continue %q", it.Value, inc)
		}
		// hidden names are never given away
		for _, h := range []string{"--secret", "hid", "ha", "dark"} {
			if it.Value == h {
				t.Failf("%s is hidden but offered", h)
			}
		}
		if it.PreventSpaceAfter != strings.HasSuffix(it.Value, "=") {
			t.Failf("candidate %q has PreventSpaceAfter %v", it.Value, it.PreventSpaceAfter)
		}
	}
	if len(ran) > 0 {
		t.Failf("completion ran %v", ran)
	}
	slices.Sort(list)

	cmpEnv(t, variant, ws, inc, items)

	if l.bad || l.unclear {
		return
	}

	// Whatever is offered is accepted there
	for _, v := range list {
		if l.await != nil && strings.HasPrefix(v, "-") {
			continue
		}
		full := append(clone(ws), v)
		if strings.HasSuffix(v, "=") {
			full[len(full)-1] += "x"
		}
		var ran2 []string
		r := runApp(cmpApp(variant&^1, &ran2), full...)
		t.Step(1)
		var pe *cli.ParseError
		if errors.As(r.Error, &pe) && (pe.Code == cli.UnknownOption || pe.Code == cli.CommandNotFound) {
			t.Failf("%q is offered but %q fails: %v", v, full, r.Error)
		}
	}
	if l.dash && strings.HasPrefix(inc, "-") {
		t.Eq("flags after --", list, []string(nil))
		return
	}

	switch {
	case l.await != nil:
		if strings.HasPrefix(inc, "-") {
			return
		}
		t.Eq("values after the flag", list, sortedClone(withPrefix(l.await.values, inc)))

	case strings.HasPrefix(inc, "-") && strings.Contains(inc, "="):
		name, v, _ := strings.Cut(inc, "=")
		f := l.cmd.flag(name)
		if f == nil || f.hidden || f.values == nil {
			return
		}
		var want []string
		for _, s := range withPrefix(f.values, v) {
			want = append(want, name+"="+s)
		}
		t.Eq("values in the token", list, sortedClone(want))

	case strings.HasPrefix(inc, "-"):
		if f := l.cmd.flag(inc); f != nil && !f.hidden && f.values != nil {
			var want []string
			for _, s := range f.values {
				if len(inc) == 2 {
					want = append(want, inc+s)
				} else {
					want = append(want, inc+"="+s)
				}
			}
			t.Eq("values of the flag", list, sortedClone(want))
			return
		}
		matching := 0
		allowed := clone(cmpDefaults)
		type match struct {
			f     *cmpFlag
			names []string
		}
		var ms []match
		for _, f := range l.cmd.scope() {
			if f.hidden {
				continue
			}
			if names := withPrefix(f.names, inc); len(names) > 0 {
				matching++
				ms = append(ms, match{f, names})
				allowed = append(allowed, names...)
			}
		}
		for _, d := range cmpDefaults[1:] {
			if _, ok := got[d]; ok {
				matching++
			}
		}
		for _, m := range ms {
			n := 0
			for _, name := range m.names {
				if _, ok := got[name]; ok {
					n++
				} else if it, ok := got[name+"="]; ok && m.f.values != nil && matching == 1 && it.PreventSpaceAfter {
					n++
				}
			}
			if matching == 1 && n == 0 || matching > 1 && n != len(m.names) {
				t.Failf("flag %v begins with %q but candidates are %q", m.names, inc, list)
			}
		}
		for v, it := range got {
			name := strings.TrimSuffix(v, "=")
			if !slices.Contains(allowed, name) {
				t.Failf("%q is offered, which is no flag of %s", v, l.cmd.name)
			}
			if f := l.cmd.flag(name); f != nil {
				t.Eq("help of "+v, it.HelpText, cmpHelp[f.names[len(f.names)-1]])
			}
		}

	case len(l.cmd.subs) > 0:
		var names []string
		for _, s := range l.cmd.subs {
			if s.hidden {
				continue
			}
			for _, n := range append([]string{s.name}, s.aliases...) {
				names = append(names, n)
				if it, ok := got[n]; ok {
					t.Eq("help of "+n, it.HelpText, cmpHelp[s.name])
				}
			}
		}
		if l.cmd == root {
			names = append(names, "help", "h", "version")
		}
		t.Eq("sub-commands", list, sortedClone(withPrefix(names, inc)))

	case l.taken < len(l.cmd.args):
		t.Eq("values of the arg", list, sortedClone(withPrefix(cmpArgValues, inc)))
	}
}

func sortedClone(l []string) []string {
	l = clone(l)
	slices.Sort(l)
	return l
}

// cmpRecords decodes the response to the zsh script, which reads four lines each
func cmpRecords(t *T, out string) (res [][4]string) {
	if out == "" {
		return nil
	}
	if !strings.HasSuffix(out, "\n") {
		t.Failf("response does not end a line: %q", out)
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines)%4 != 0 {
		t.Failf("response has %d lines: %q", len(lines), out)
		return
	}
	for i := 0; i < len(lines); i += 4 {
		res = append(res, [4]string(lines[i:i+4]))
		if !slices.Contains([]string{"plain", "file", "dir"}, lines[i]) {
			t.Failf("record type %q in %q", lines[i], out)
		}
	}
	return
}

func cmpRequest(t *T, variant int, line, cword string) [][4]string {
	var ran []string
	for k, v := range map[string]string{"_JOE_APP_COMPLETE": "zsh", "COMP_WORDS": line, "COMP_CWORD": cword} {
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	r := runApp(cmpApp(variant, &ran))
	if len(ran) > 0 {
		t.Failf("the request ran %v", ran)
	}
	var ec cli.ExitCoder
	if !errors.As(r.Error, &ec) || ec.ExitCode() != 0 {
		t.Failf("the request ended with %v", r.Error)
	}
	t.Eq("stderr", r.Err, "")
	return cmpRecords(t, r.Out)
}

// cmpEnv makes the same request in the way the shell script does
func cmpEnv(t *T, variant int, ws []string, inc string, items []cli.CompletionItem) {
	line := strings.Join(append(append([]string{"app"}, ws...), inc), " ")
	recs := cmpRequest(t, variant, line, fmt.Sprint(len(ws)+1))
	if len(recs) != len(items) {
		t.Failf("response has %d records, want %d", len(recs), len(items))
		return
	}
	types := map[cli.CompletionType]string{cli.CompletionTypeFile: "file", cli.CompletionTypeDirectory: "dir", cli.CompletionTypeToken: "plain"}
	for i, it := range items {
		r := recs[i]
		t.Eq("record type", r[0], types[it.Type])
		t.Eq("record value", r[1], it.Value)
		want := strings.Join(strings.Fields(it.HelpText), " ")
		if want == "" {
			want = "_"
		}
		t.Eq("record description", strings.Join(strings.Fields(r[2]), " "), want)
		if (r[3] != "") != it.PreventSpaceAfter {
			t.Failf("record of %q has no_space %q, PreventSpaceAfter %v", it.Value, r[3], it.PreventSpaceAfter)
		}
	}
}

// cmpKinds: the completion of files and of functions, for flags and args
func cmpKinds(t *T, kind string, arg bool, required bool, ws []string, inc string) {
	var calls []cli.CompletionRequest
	var comp cli.Completion
	var value any = new(string)
	switch kind {
	case "file":
		comp = cli.FileCompletion
	case "dir":
		comp = cli.DirectoryCompletion
	case "File":
		value = new(cli.File)
	case "FileSet":
		value = new(cli.FileSet)
	case "func":
		comp = cli.CompletionFunc(func(c *cli.Context) []cli.CompletionItem {
			calls = append(calls, *c.CompletionRequest())
			return []cli.CompletionItem{{Value: "v1", HelpText: "h\n1"}, {Value: "v2", PreventSpaceAfter: true}}
		})
	}
	mk := func() *cli.App {
		app := &cli.App{Name: "app", Action: func() { t.Failf("action ran") }}
		var opts cli.Option
		if required {
			opts = cli.Required
		}
		if arg {
			n := any(1)
			if kind == "FileSet" {
				n = nil
			}
			app.Args = []*cli.Arg{{Name: "o", Value: value, Completion: comp, NArg: n, Options: opts}}
		} else {
			app.Flags = []*cli.Flag{{Name: "opt", Aliases: []string{"o"}, Value: value, Completion: comp, Options: opts}}
		}
		return app
	}
	ctx, err := mk().Initialize(context.Background())
	if err != nil {
		t.Fatalf("initialize: %v", err)
	}
	args := append([]string{"app"}, ws...)
	items := cli.FromContext(ctx).Complete(args, inc)
	t.State(kind, arg, ws, inc)
	wantType := cli.CompletionTypeFile
	switch kind {
	case "dir":
		wantType = cli.CompletionTypeDirectory
	case "func":
		wantType = cli.CompletionTypeToken
	}
	if kind == "func" {
		for _, c := range calls {
			t.Eq("request args", c.Args, args)
			t.Eq("request incomplete", c.Incomplete, inc)
		}
		t.Eq("calls", len(calls), 1)
		t.Eq("items", len(items), 2)
	} else {
		t.Eq("items", len(items), 1)
	}
	for _, it := range items {
		if it.Type != wantType {
			t.Failf("item %+v, want type %v", it, wantType)
		}
	}
	if cli.FromContext(ctx).CompletionRequest() != nil {
		t.Failf("the request remains after it was served")
	}
	calls = nil
	func() {
		for k, v := range map[string]string{"_JOE_APP_COMPLETE": "zsh", "COMP_WORDS": strings.Join(append(args, inc), " "), "COMP_CWORD": fmt.Sprint(len(args))} {
			os.Setenv(k, v)
			defer os.Unsetenv(k)
		}
		r := runApp(mk())
		var ec cli.ExitCoder
		if !errors.As(r.Error, &ec) || ec.ExitCode() != 0 {
			t.Failf("the request ended with %v", r.Error)
		}
		t.Eq("records", len(cmpRecords(t, r.Out)), len(items))
	}()
}

// cmpValues: what continues the incomplete token is offered, whatever it is
func cmpValues(t *T, how string, values []string, inc string) {
	comp := cli.CompletionValues(values...)
	app := &cli.App{Name: "app", Action: func() { t.Failf("action ran") }}
	args := []string{"app"}
	prefix := ""
	switch how {
	case "arg":
		app.Args = []*cli.Arg{{Name: "o", Value: new(string), Completion: comp, NArg: 1}}
	case "second":
		app.Args = []*cli.Arg{{Name: "n", NArg: 1}, {Name: "o", Value: new(string), Completion: comp, NArg: 1}}
		args = append(args, "first")
	case "uses":
		app.Args = []*cli.Arg{{Name: "o", Value: new(string), NArg: 1, Uses: comp.(cli.Action)}}
	case "=", "run-in", "next":
		app.Flags = []*cli.Flag{{Name: "opt", Aliases: []string{"o"}, Value: new(string), Completion: comp}}
		switch how {
		case "=":
			prefix = "--opt="
		case "run-in":
			prefix = "-o"
		default:
			args = append(args, "--opt")
		}
	}
	ctx, err := app.Initialize(context.Background())
	if err != nil {
		t.Fatalf("initialize: %v", err)
	}
	items := cli.FromContext(ctx).Complete(args, prefix+inc)
	t.Step(1)
	var got, want []string
	for _, it := range items {
		got = append(got, it.Value)
	}
	for _, v := range values {
		if strings.HasPrefix(v, inc) {
			want = append(want, prefix+v)
		}
	}
	t.Eq("values", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
	t.State(how, inc, got)
}

// cmpName: whatever the app is called, the script and the app agree on variables
func cmpName(t *T, name string) {
	app := func() *cli.App {
		return &cli.App{Name: name, Flags: []*cli.Flag{{Name: "qq", Value: new(bool)}}, Action: func() {}}
	}
	r := runApp(app(), "--zsh-completion")
	var ec cli.ExitCoder
	if r.Error != nil && (!errors.As(r.Error, &ec) || ec.ExitCode() != 0) {
		t.Fatalf("script: %v", r.Error)
	}
	i := strings.Index(r.Out, "=zsh ")
	if i < 0 {
		t.Fatalf("script without the variable: %q", r.Out)
	}
	v := r.Out[:i]
	v = v[strings.LastIndexAny(v, " \n\t")+1:]
	for _, c := range v {
		if c != '_' && (c < '0' || c > '9') && (c < 'A' || c > 'Z') && (c < 'a' || c > 'z') {
			t.Failf("%q is no variable name", v)
		}
	}
	for k, e := range map[string]string{v: "zsh", "COMP_WORDS": "app --q", "COMP_CWORD": "1"} {
		os.Setenv(k, e)
		defer os.Unsetenv(k)
	}
	r = runApp(app())
	recs := cmpRecords(t, r.Out)
	if len(recs) != 1 || recs[0][1] != "--qq" {
		t.Failf("with %s=zsh the app responds %q, error %v", v, r.Out, r.Error)
	}
	t.State(name, v)
}

func init() {
	register(&Prop{
		ID: "C16",
		Bound: "16 variants (half of them for lines of a word only, in quick) of a 3-level app (values, bool, mirrored, hidden, local, redefined and required flags, aliases, hidden commands); every line of up to 2 (thorough: 3) complete words of 17 followed by each of 30 incomplete tokens, " +
			"requested by Complete and by the environment as the zsh script does; every candidate is then run; every word index -2..6 and malformed index for 12 lines; file, directory and function completions on flags and args; every set of up to 3 of 11 values against 16 incomplete tokens as an arg and as a flag in 3 ways; 8 names of the app",
		Assumptions: []string{"the zsh script itself is not run (no zsh here); what is checked is the response it reads, four lines a record"},
		Run: func(x *X) {
			vocab := []string{"sub", "t", "par", "grand", "hid", "p", "--glob", "--glob=x", "-g", "-gx", "--verbose", "--local", "-la", "--bad", "--", "--own", "--deep"}
			incs := []string{"", "s", "su", "t", "p", "pa", "h", "g", "d", "zz", "-", "--", "--g", "--glob", "--glob=", "--glob=y", "-g", "-gx", "--l", "--local", "--local=", "-l", "--v", "--verbose", "--d", "--o", "--own=", "--secret", "--m", "x"}
			n := 2
			if x.Thorough {
				n = 3
			}
			words(vocab, 0, n, func(w []string) {
				ws := clone(w)
				for variant := 0; variant < 16; variant++ {
					if variant >= 8 && len(ws) > 1 && !x.Thorough {
						break
					}
					for _, inc := range incs {
						x.Case(func() string { return fmt.Sprintf("line|%d %q %q", variant, ws, inc) }, func(t *T) { cmpCheck(t, variant, ws, inc) })
					}
				}
			})
			for _, line := range []string{"", "app", "app ", "app sub", "app sub --l", "app 'sub", "app \"sub --l", "app sub\\", "app par grand", "app --bad", "app --glob", "app hid x"} {
				for _, cword := range []string{"-2", "-1", "0", "1", "2", "3", "4", "5", "6", "", "x", "99999999999999999999", "-9223372036854775808", "1.5"} {
					for variant := 0; variant < 4; variant++ {
						x.Case(func() string { return fmt.Sprintf("index|%d %q %q", variant, line, cword) }, func(t *T) {
							recs := cmpRequest(t, variant, line, cword)
							t.State(variant, line, cword, len(recs))
						})
					}
				}
			}
			for _, kind := range []string{"file", "dir", "File", "FileSet", "func"} {
				for _, req := range []bool{false, true} {
					for _, inc := range []string{"", "a", "v"} {
						x.Case(func() string { return fmt.Sprintf("kinds|arg %s %v %q", kind, req, inc) }, func(t *T) { cmpKinds(t, kind, true, req, nil, inc) })
						if kind == "FileSet" {
							continue // as a flag it takes any number of values, which is not claimed
						}
						for _, f := range []string{"--opt", "-o"} {
							x.Case(func() string { return fmt.Sprintf("kinds|flag %s %v %s %q", kind, req, f, inc) }, func(t *T) { cmpKinds(t, kind, false, req, []string{f}, inc) })
						}
					}
					for _, inc := range []string{"--opt=", "--opt=v", "--opt"} {
						x.Case(func() string { return fmt.Sprintf("kinds|token %s %v %q", kind, req, inc) }, func(t *T) { cmpKinds(t, kind, false, req, nil, inc) })
					}
				}
			}
			subsetsUpTo([]string{"x", "xy", "X", " x", " ", "x y", "é", "--z", "-o", "a=b", "*"}, 3, func(s []string) {
				if len(s) == 0 {
					return
				}
				vs := clone(s)
				for _, how := range []string{"arg", "second", "uses", "=", "run-in", "next"} {
					for _, inc := range []string{"", "x", "xy", "X", " ", " x", "x ", "\t", "é", "\xc3", "a", "a=", "y", "*", "[", "."} {
						if how == "run-in" && inc != "" {
							continue // what continues a value there isn't claimed to be offered
						}
						x.Case(func() string { return fmt.Sprintf("values|%s %q %q", how, vs, inc) }, func(t *T) { cmpValues(t, how, vs, inc) })
					}
				}
			})
			for _, name := range []string{"app", "my-app", "a.b", "x_y", "App2", "a-b-c", "./tool", "7z"} {
				x.Case(func() string { return "name|" + name }, func(t *T) { cmpName(t, name) })
			}
		},
	})
}
