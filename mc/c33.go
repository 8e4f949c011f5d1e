package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Templates: an app has one set of templates and functions, which any action
// can add to and replace, and which is used for the help screen, the version
// and what is executed by actions.

// tmpPart is a part of a template of the model
type tmpPart struct {
	kind string // text, call (template), exec (Execute), func, data
	arg  string
}

type tmpState struct {
	tpl  map[string][]tmpPart
	fn   map[string]string
	fail bool
}

func (s *tmpState) run(name string, data string) (string, bool) {
	parts, ok := s.tpl[name]
	if !ok {
		return "", false
	}
	var b strings.Builder
	for _, p := range parts {
		switch p.kind {
		case "text":
			b.WriteString(p.arg)
		case "call", "exec":
			r, ok := s.run(p.arg, data)
			if !ok {
				return "", false
			}
			b.WriteString(r)
		case "func":
			v := s.fn[p.arg]
			if v == "!" {
				return "", false
			}
			b.WriteString(v)
		case "data":
			b.WriteString(data)
		}
	}
	return b.String(), true
}

// tmpOp is an operation; the model is nil if the operation is an execution
type tmpOp struct {
	name  string
	act   func(c *cli.Context, data string) error
	model func(s *tmpState) bool
	exec  string
}

var errTplFunc = errors.New("function fails")

func tmpOps() []tmpOp {
	reg := func(id, name, text string, defs map[string][]tmpPart, need string) tmpOp {
		return tmpOp{id, func(c *cli.Context, _ string) error { return c.Do(cli.RegisterTemplate(name, text)) }, func(s *tmpState) bool {
			if need == "!" {
				return false
			}
			if _, ok := s.fn[need]; need != "" && !ok {
				return false
			}
			for k, v := range defs {
				s.tpl[k] = v
			}
			return true
		}, ""}
	}
	fn := func(id, name, value string, v any) tmpOp {
		return tmpOp{id, func(c *cli.Context, _ string) error { return c.Do(cli.RegisterTemplateFunc(name, v)) }, func(s *tmpState) bool { s.fn[name] = value; return true }, ""}
	}
	exec := func(name string) tmpOp {
		return tmpOp{"exec " + name, func(c *cli.Context, data string) error {
			return c.Do(cli.ExecuteTemplate(name, func(*cli.Context) any { return map[string]any{"x": data} }))
		}, nil, name}
	}
	text := func(s string) []tmpPart { return []tmpPart{{"text", s}} }
	type defs = map[string][]tmpPart
	return []tmpOp{
		reg("A text", "A", "a1", defs{"A": text("a1")}, ""),
		reg("A calls B", "A", `<{{template "B" .}}>`, defs{"A": {{"text", "<"}, {"call", "B"}, {"text", ">"}}}, ""),
		reg("A executes B", "A", `({{Execute "B" .}})`, defs{"A": {{"text", "("}, {"exec", "B"}, {"text", ")"}}}, ""),
		reg("A uses F", "A", `{{F}}`, defs{"A": {{"func", "F"}}}, "F"),
		reg("A bad", "A", `x{{`, nil, "!"),
		reg("B text", "B", "b1", defs{"B": text("b1")}, ""),
		reg("B data", "B", "{{.x}}", defs{"B": {{"data", ""}}}, ""),
		reg("B pads", "B", `{{Trim " q "}}`, defs{"B": {{"func", "Trim"}}}, ""),
		reg("B half", "B", `b{{F}}`, defs{"B": {{"text", "b"}, {"func", "F"}}}, "F"),
		reg("define B", "", `{{define "B"}}b2{{end}}`, defs{"B": text("b2")}, ""),
		reg("define both", "", `{{define "A"}}a2{{end}} {{define "B"}}b3{{end}}`, defs{"A": text("a2"), "B": text("b3")}, ""),
		reg("define empty", "", `{{define "B"}}{{end}}`, defs{"B": nil}, ""),
		reg("define bad", "", `{{define "A"}}a3{{end}}{{define "B"}}{{`, nil, "!"),
		reg("C defines B", "C", `c{{template "B" .}}{{define "B"}}b4{{end}}`, defs{"C": {{"text", "c"}, {"call", "B"}}, "B": text("b4")}, ""),
		fn("F is f1", "F", "f1", func() string { return "f1" }),
		fn("F is f2", "F", "f2", func() (string, error) { return "f2", nil }),
		fn("F fails", "F", "!", func() (string, error) { return "", errTplFunc }),
		fn("Trim", "Trim", "T", func(string) string { return "T" }),
		exec("A"),
		exec("B"),
		exec("C"),
	}
}

var tmpSites = []string{"app uses", "flag uses", "sub uses", "app before", "flag before", "sub before", "flag action", "sub action", "sub after", "app after"}

// tmpHistory runs the operations at the sites and compares the outcome of each
func tmpHistory(t *T, ops []tmpOp, sites []int, how int) {
	st := &tmpState{tpl: map[string][]tmpPart{}, fn: map[string]string{"Trim": "q"}}
	var out bytes.Buffer
	ran := 0
	at := map[string][]func(*cli.Context){}
	for i, op := range ops {
		data := fmt.Sprintf("d%d", i)
		f := func(c *cli.Context) {
			ran++
			from := out.Len()
			err := op.act(c, data)
			got := out.String()[from:]
			label := fmt.Sprintf("%d %s at %s", i, op.name, c.Path())
			if op.model != nil {
				t.Eq(label+" succeeds", err == nil, op.model(st))
				t.Eq(label+" output", got, "")
				return
			}
			want, ok := st.run(op.exec, data)
			t.Eq(label+" succeeds", err == nil, ok)
			if ok {
				t.Eq(label+" output", got, want)
			}
			_, known := st.tpl[op.exec]
			t.Eq(label+" is known", c.Template(op.exec) != nil, known)
			if known {
				// bound templates give the same text, or that of the error
				var s string
				calls := 0
				if how&1 == 0 {
					s = fmt.Sprint(c.Template(op.exec).Bind(map[string]any{"x": data}))
				} else {
					b := c.Template(op.exec).BindFunc(func() any { calls++; return map[string]any{"x": data} })
					t.Eq(label+" lazy", calls, 0)
					s = b.String()
					t.Eq(label+" calls", calls, 1)
				}
				if ok {
					t.Eq(label+" bound", s, want)
				} else if s == "" {
					t.Failf("%s: bound template hides its error", label)
				}
			}
		}
		s := tmpSites[sites[i]]
		at[s] = append(at[s], f)
	}
	act := func(s string) cli.Action {
		var p cli.ActionPipeline
		for _, f := range at[s] {
			p = append(p, cli.ActionOf(f))
		}
		if p == nil {
			return nil
		}
		return p
	}
	app := &cli.App{
		Name: "app", Uses: act("app uses"), Before: act("app before"), After: act("app after"),
		Flags: []*cli.Flag{{Name: "f", Value: new(bool), Uses: act("flag uses"), Before: act("flag before"), Action: act("flag action")}},
		Commands: []*cli.Command{{
			Name: "sub", Uses: act("sub uses"), Before: act("sub before"), After: act("sub after"), Action: act("sub action"),
		}},
		Stdout: &out, Stderr: &out, Stdin: strings.NewReader(""),
	}
	err := app.RunContext(context.Background(), []string{"app", "-f", "sub"})
	t.Eq("error", errText(err), "")
	t.Eq("operations", ran, len(ops))
	var fin []string
	for _, n := range []string{"A", "B", "C"} {
		r, ok := st.run(n, "d")
		fin = append(fin, fmt.Sprint(r, ok))
	}
	t.State(fin)
}

// tmpParts are the parts of the help screen, which each give way to a marker
var tmpParts = []string{"Help", "Usage", "Flags", "Flag", "FlagListing", "InlineFlagListing", "Subcommands", "SubcommandListing", "PersistentFlags", "ExtendedDescription"}

// tmpHelp replaces parts of the help screen
func tmpHelp(t *T, parts []string, form int, site int, line []string, rich bool) {
	texts := map[string]string{}
	for _, p := range parts {
		texts[p] = " [" + p + "] "
	}
	var reg cli.ActionPipeline
	if form == 0 {
		for _, p := range parts {
			reg = append(reg, cli.RegisterTemplate(p, texts[p]))
		}
	} else {
		var all string
		for _, p := range parts {
			all += fmt.Sprintf(`{{define %q}}`, p)
			if form == 1 {
				all += texts[p]
			} else {
				texts[p] = ""
			}
			all += "{{end}}\n"
		}
		reg = append(reg, cli.RegisterTemplate("", all))
	}
	mk := func(with bool) *cli.App {
		sub := &cli.Command{Name: "sub", HelpText: "subhelp", Action: func() {}, Flags: []*cli.Flag{{Name: "loc", HelpText: "lochelp", Description: "locdesc"}}}
		app := &cli.App{Name: "app", HelpText: "apphelp", Flags: []*cli.Flag{{Name: "fa", HelpText: "fahelp"}, {Name: "fb", HelpText: "fbhelp", Description: "fbdesc"}}, Action: func() {}}
		if rich {
			app.Commands = []*cli.Command{sub, {Name: "other", HelpText: "otherhelp", Category: "Cat"}}
			app.Flags[0].Category = "Cat"
			app.Flags = append(app.Flags, &cli.Flag{Name: "fc", Category: "None"})
		}
		if with {
			switch site {
			case 0:
				app.Uses = reg
			case 1:
				app.Before = reg
			case 2:
				app.Flags[0].Uses = reg
			case 3:
				app.Flags[1].Before = reg
			}
		}
		return app
	}
	base := runApp(mk(false), line...)
	r := runApp(mk(true), line...)
	t.Eq("error", errText(r.Error), errText(base.Error))

	// Model: the words of the screen in the parts that make it up
	onSub := slices.Contains(line, "sub")
	use := func(p string, f func() string) string {
		if slices.Contains(parts, p) {
			return " " + texts[p] + " "
		}
		if f == nil {
			return ""
		}
		return f()
	}
	type flag struct{ name, help, cat, desc string }
	builtin := []flag{{"-h, --help", "Display this help screen then exit", "", ""}, {"--version", "Print the build version then exit", "", ""}}
	rootFlags := []flag{{"--fa=STRING", "fahelp", "", ""}, {"--fb=STRING", "fbhelp", "", "fbdesc"}}
	if rich {
		rootFlags[0].cat = "Cat"
		rootFlags = append(rootFlags, flag{"--fc=STRING", "", "None", ""})
	}
	rootFlags = append(rootFlags, builtin...)
	listing := func(fs []flag) string {
		return use("FlagListing", func() (s string) {
			for _, f := range fs {
				s += use("Flag", func() string { return " " + f.name + " " + f.help + " " })
			}
			return
		})
	}
	flags := func(fs []flag) string {
		return use("Flags", func() (s string) {
			var cats []string
			for _, f := range fs {
				if !slices.Contains(cats, f.cat) {
					cats = append(cats, f.cat)
				}
			}
			sort.Strings(cats)
			if len(cats) < 2 {
				return listing(fs)
			}
			for _, c := range cats {
				var in []flag
				doc := false
				for _, f := range fs {
					if f.cat == c {
						in = append(in, f)
						doc = doc || f.help != ""
					}
				}
				if c != "" {
					s += " " + c + ": "
				}
				if doc {
					s += listing(in)
				} else {
					s += use("InlineFlagListing", func() (s string) {
						for i, f := range in {
							if i > 0 {
								s += ", "
							}
							s += strings.TrimSuffix(f.name, "=STRING")
						}
						return
					})
				}
			}
			return
		})
	}
	own := rootFlags
	if onSub {
		own = []flag{{"--loc=STRING", "lochelp", "", "locdesc"}}
	}
	subs := func() string {
		return use("Subcommands", func() string {
			if onSub || !rich {
				return ""
			}
			list := func(names ...string) string {
				return use("SubcommandListing", func() string { return " " + strings.Join(names, " ") + " " })
			}
			return " Sub-commands: " + list("sub subhelp", "help, h Display help for a command", "version Print the build version then exit") + " Cat: " + list("other otherhelp")
		})
	}
	pers := func() string {
		return use("PersistentFlags", func() string {
			if !onSub {
				return ""
			}
			return " Global options (specify before any sub-commands) " + flags(rootFlags)
		})
	}
	ext := func() string {
		return use("ExtendedDescription", func() (s string) {
			for _, f := range own {
				s += " " + f.desc + " "
			}
			return
		})
	}
	want := use("Help", func() string {
		return use("Usage", func() string {
			head, rest, _ := strings.Cut(base.Err, "\n\n")
			_ = rest
			help := "apphelp"
			if onSub {
				help = "subhelp"
			}
			return head + " " + help + " " + flags(own) + subs() + pers() + ext()
		})
	})
	t.Eq("words of the screen", strings.Join(strings.Fields(r.Err), " "), strings.Join(strings.Fields(want), " "))
	t.State(want)
}

// tmpData shows what templates are given
const tmpDump = `{{define "F"}}<{{.Name}}|{{.HelpText}}|{{.ManualText}}|{{with .Description}}{{.}}{{end}}|{{with .Data}}{{with .k}}{{.}}{{end}}{{end}}>{{end -}}
{{define "FL"}}{{range .}}{{template "F" .}}{{end}}{{end -}}
{{define "C"}}{{.Name}}|{{.Names | Join ","}}|{{.HelpText}}|{{.ManualText}}|{{with .Description}}{{.}}{{end}}|{{with .Data}}{{with .k}}{{.}}{{end}}{{end}}|flags {{template "FL" .VisibleFlags}}|args {{template "FL" .VisibleArgs}}{{end -}}
{{with .SelectedCommand}}{{template "C" .}}
lineage {{.Lineage}}
{{range .VisibleCommands}}sub {{template "C" .}}
{{end}}{{range .CommandsByCategory}}category {{.Category}}:{{range .VisibleCommands}} {{.Name}}{{end}}
{{end}}{{range .FlagsByCategory}}flags {{.Category}}:{{if .Undocumented}}(undocumented){{end}}{{range .VisibleFlags}} {{.Name}}{{end}}
{{end}}global {{template "FL" .Persistent.VisibleFlags}}
{{range .Persistent.FlagsByCategory}}global {{.Category}}:{{if .Undocumented}}(undocumented){{end}}{{range .VisibleFlags}} {{.Name}}{{end}}
{{end}}{{end}}app {{.App.Name}} {{.App.Version}} {{.App.Author}} {{.App.Copyright}} {{.App.Comment}} {{.App.License}}
debug {{.Debug}}
`

type tmpNode struct {
	name, help, manual, desc, data, cat string
	aliases                             []string
	hidden                              bool
	flags, args                         []*tmpNode
	subs                                []*tmpNode
	up                                  *tmpNode
}

func (n *tmpNode) item() string {
	return fmt.Sprintf("<%s|%s|%s|%s|%s>", n.name, n.help, n.manual, n.desc, n.data)
}

func tmpItems(l []*tmpNode) (s string) {
	for _, n := range l {
		if !n.hidden {
			s += n.item()
		}
	}
	return
}

func (n *tmpNode) command() string {
	return fmt.Sprintf("%s|%s|%s|%s|%s|%s|flags %s|args %s", n.name, strings.Join(append([]string{n.name}, n.aliases...), ","), n.help, n.manual, n.desc, n.data, tmpItems(n.flags), tmpItems(n.args))
}

func tmpCats(head string, l []*tmpNode, flags bool) (s string) {
	m := map[string][]*tmpNode{}
	for _, n := range l {
		m[n.cat] = append(m[n.cat], n)
	}
	if flags && len(m) == 1 && m[""] != nil {
		return ""
	}
	for _, k := range sortedKeys(m) {
		un := flags
		names := ""
		for _, n := range m[k] {
			if n.help != "" {
				un = false
			}
			if !n.hidden {
				names += " " + n.name
			}
		}
		if !flags && names == "" {
			continue
		}
		s += head + " " + k + ":"
		if un {
			s += "(undocumented)"
		}
		s += names + "\n"
	}
	return
}

// tmpTree has commands whose attributes are there according to the bits; how
// says where they are set
func tmpTree(bits int) *tmpNode {
	on := func(i int, s string) string {
		if bits>>i&1 != 0 {
			return s
		}
		return ""
	}
	attrs := func(n *tmpNode) *tmpNode {
		n.help, n.manual, n.desc, n.data = on(0, n.name+"help"), on(1, n.name+"manual"), on(2, n.name+"desc"), on(3, n.name+"data")
		return n
	}
	root := attrs(&tmpNode{name: "app"})
	sub := attrs(&tmpNode{name: "sub", aliases: []string{"s"}, cat: on(4, "Cat")})
	leaf := attrs(&tmpNode{name: "leaf", up: sub})
	sub.subs, sub.up = []*tmpNode{leaf}, root
	hid := attrs(&tmpNode{name: "hid", hidden: true, up: root, cat: on(4, "Hid")})
	root.subs = []*tmpNode{sub, hid}
	root.flags = []*tmpNode{attrs(&tmpNode{name: "fa"}), attrs(&tmpNode{name: "fb", cat: on(5, "Cat")}), attrs(&tmpNode{name: "fh", hidden: true, cat: on(6, "Hid")})}
	sub.flags = []*tmpNode{attrs(&tmpNode{name: "fs", cat: on(5, "Cat")})}
	leaf.args = []*tmpNode{attrs(&tmpNode{name: "arg"}), attrs(&tmpNode{name: "arh", hidden: true})}
	return root
}

func (n *tmpNode) attrActions() cli.ActionPipeline {
	var p cli.ActionPipeline
	if n.help != "" {
		p = append(p, cli.HelpText(n.help))
	}
	if n.manual != "" {
		p = append(p, cli.ManualText(n.manual))
	}
	if n.desc != "" {
		p = append(p, cli.Description(n.desc))
	}
	if n.data != "" {
		p = append(p, cli.Data("k", n.data))
	}
	if n.cat != "" {
		p = append(p, cli.Category(n.cat))
	}
	if n.hidden {
		p = append(p, cli.Hidden)
	}
	return p
}

func (n *tmpNode) build(how int) *cli.Command {
	data := func(n *tmpNode) map[string]any {
		if n.data == "" {
			return nil
		}
		return map[string]any{"k": n.data}
	}
	desc := func(n *tmpNode) any {
		if n.desc == "" {
			return nil
		}
		return n.desc
	}
	opts := func(n *tmpNode) cli.Option {
		if n.hidden {
			return cli.Hidden
		}
		return 0
	}
	c := &cli.Command{Name: n.name, Aliases: n.aliases, Action: func() {}}
	switch how {
	case 0:
		c.HelpText, c.ManualText, c.Description, c.Data, c.Category, c.Options = n.help, n.manual, desc(n), data(n), n.cat, opts(n)
	case 1:
		c.Uses = n.attrActions()
	}
	for _, f := range n.flags {
		fl := &cli.Flag{Name: f.name}
		switch how {
		case 0:
			fl.HelpText, fl.ManualText, fl.Description, fl.Data, fl.Category, fl.Options = f.help, f.manual, desc(f), data(f), f.cat, opts(f)
		case 1:
			fl.Uses = f.attrActions()
		case 2:
			c.Uses = cli.Pipeline(c.Uses, cli.Customize("-"+f.name, f.attrActions()))
		}
		c.Flags = append(c.Flags, fl)
	}
	for _, f := range n.args {
		a := &cli.Arg{Name: f.name, NArg: 0}
		switch how {
		case 0:
			a.HelpText, a.ManualText, a.Description, a.Data, a.Category, a.Options = f.help, f.manual, desc(f), data(f), f.cat, opts(f)
		case 1:
			a.Uses = f.attrActions()
		case 2:
			c.Uses = cli.Pipeline(c.Uses, cli.Customize("<"+f.name+">", f.attrActions()))
		}
		c.Args = append(c.Args, a)
	}
	for _, s := range n.subs {
		sub := s.build(how)
		if how == 2 {
			c.Uses = cli.Pipeline(c.Uses, cli.Customize(s.name, s.attrActions()))
		}
		c.Subcommands = append(c.Subcommands, sub)
	}
	if how == 2 && n.up == nil {
		c.Uses = cli.Pipeline(c.Uses, n.attrActions())
	}
	return c
}

func tmpData(t *T, bits, how int, line []string, debug bool) {
	root := tmpTree(bits)
	c := root.build(how)
	var app *cli.App
	if bits>>7&1 != 0 {
		app = cli.NewApp(c)
	} else {
		app = &cli.App{Name: c.Name, HelpText: c.HelpText, ManualText: c.ManualText, Description: c.Description, Data: c.Data, Options: c.Options,
			Flags: c.Flags, Args: c.Args, Commands: c.Subcommands, Uses: c.Uses, Action: c.Action}
	}
	app.Version, app.Author, app.Copyright, app.Comment, app.License = "1.2", "author", "copyright", "comment", "license"
	app.Before = nil
	c.Before = nil
	reg := cli.RegisterTemplate("Help", tmpDump)
	app.Uses, c.Uses = cli.Pipeline(app.Uses, reg), cli.Pipeline(c.Uses, reg)
	if debug {
		os.Setenv("CLI_DEBUG_TEMPLATES", "1")
		defer os.Unsetenv("CLI_DEBUG_TEMPLATES")
	}
	r := runApp(app, line...)
	var ec cli.ExitCoder
	if r.Error != nil && !(errors.As(r.Error, &ec) && ec.ExitCode() == 0) {
		t.Failf("error %v", r.Error)
	}

	// model
	n := root
	var path []string
	for _, w := range line {
		for _, s := range n.subs {
			if w == s.name || slices.Contains(s.aliases, w) {
				path = append(path, n.name)
				n = s
			}
		}
	}
	help := &tmpNode{name: "help", help: "Display this help screen then exit", aliases: []string{"h"}}
	version := &tmpNode{name: "version", help: "Print the build version then exit"}
	root.flags = append(root.flags, help, version, &tmpNode{name: "zsh-completion", help: "x", hidden: true})
	root.subs = append(root.subs, &tmpNode{name: "help", aliases: []string{"h"}, help: "Display help for a command", args: []*tmpNode{{name: "command"}}}, &tmpNode{name: "version", help: "Print the build version then exit"})
	for _, m := range []*tmpNode{root, root.subs[0]} {
		m.args = append(m.args, &tmpNode{name: "command"})
	}
	var global []*tmpNode
	for u := n.up; u != nil; u = u.up {
		global = append(clone(u.flags), global...)
	}
	want := n.command() + "\nlineage " + strings.Join(path, " ") + "\n"
	for _, s := range n.subs {
		if !s.hidden {
			want += "sub " + s.command() + "\n"
		}
	}
	want += tmpCats("category", n.subs, false)
	want += tmpCats("flags", n.flags, true)
	want += "global " + tmpItems(global) + "\n"
	var gv []*tmpNode
	for _, g := range global {
		if !g.hidden {
			gv = append(gv, g)
		}
	}
	want += tmpCats("global", gv, true)
	want += fmt.Sprintf("app app 1.2 author copyright comment license\ndebug %v\n", debug)
	t.Eq("data", strings.Split(r.Err, "\n"), strings.Split(want, "\n"))
	t.State(want)
}

// tmpVersion replaces the other templates of the app
func tmpVersion(t *T, name, flag string, site int, text string, want string, sub bool) {
	reg := cli.RegisterTemplate(name, text)
	app := &cli.App{Name: "app", Version: "3", License: "terms", Flags: []*cli.Flag{{Name: "license", Uses: cli.PrintLicense()}, {Name: "f"}}, Action: func() {},
		Commands: []*cli.Command{{Name: "sub", Action: func() {}, Flags: []*cli.Flag{{Name: "terms", Uses: cli.PrintLicense()}, {Name: "ver", Uses: cli.PrintVersion()}}},
			{Name: "license", Uses: cli.PrintLicense()}}}
	if text == "" {
		reg = nil
	}
	switch site {
	case 0:
		app.Uses = reg
	case 1:
		app.Before = reg
	case 2:
		app.Flags[1].Uses = reg
	case 3:
		app.Commands[0].Uses = reg
	}
	line := []string{flag}
	if sub {
		line = []string{"sub", flag}
	}
	r := runApp(app, line...)
	var ec cli.ExitCoder
	if r.Error != nil && !(errors.As(r.Error, &ec) && ec.ExitCode() == 0) {
		t.Failf("error %v", r.Error)
	}
	got := r.Out + r.Err
	if text == "" {
		got = strings.TrimSpace(got) // wrapped text ends with a line break of its own
	}
	t.Eq("output", got, want)
	t.State(want)
}

func init() {
	register(&Prop{
		ID:    "C33",
		Bound: "every sequence of up to 4 of 20 operations (registering templates, nested and empty ones, ones with errors, functions; executing) in the pipelines of an app, a flag and a sub-command, 9 distributions (for 4 operations, 2 in quick); every choice of up to 2 (thorough 4) of the 10 parts of the help screen x 3 forms x 4 pipelines x 3 commands; data of commands with 8 attributes on or off x 3 ways to set them x 6 commands x debug; the version and license by 6 options in 4 pipelines",
		Assumptions: []string{
			"registering text that is empty for a template that exists is not claimed (text/template keeps the previous one), in contrast to nested definitions that are empty",
			"what a template obtained before it was replaced renders is not claimed; nor what is written before a template fails",
		},
		Run: func(x *X) {
			ops := tmpOps()
			spread := [][]int{
				{0, 0, 0, 0}, {3, 3, 3, 3}, {7, 7, 7, 7}, {0, 1, 2, 3}, {1, 4, 6, 9}, {2, 5, 7, 8}, {0, 3, 7, 9}, {1, 3, 5, 7}, {2, 4, 8, 9},
			}
			words(ops, 1, 4, func(w []tmpOp) {
				l := clone(w)
				last := false
				for _, o := range l {
					last = o.model == nil
				}
				if !last {
					return // without an execution at the end, its last steps show nothing
				}
				for i, sites := range spread {
					if len(l) == 4 && i%4 != 2 && !x.Thorough {
						continue
					}
					if x.Stop() {
						break
					}
					x.Case(func() string {
						var n []string
						for _, o := range l {
							n = append(n, o.name)
						}
						return fmt.Sprintf("history|%q %d", n, i)
					}, func(t *T) { tmpHistory(t, l, sites, i) })
				}
			})
			n := 2
			if x.Thorough {
				n = 4
			}
			lines := [][]string{{"--help"}, {"sub", "--help"}, {"help", "sub"}}
			subsetsUpTo(tmpParts, n, func(s []string) {
				l := clone(s)
				for form := range 3 {
					for site := range 4 {
						for i, line := range lines {
							for _, rich := range []bool{true, false} {
								if !rich && i > 0 {
									continue
								}
								x.Case(func() string { return fmt.Sprintf("help|%v %d %d %v %v", l, form, site, line, rich) }, func(t *T) { tmpHelp(t, l, form, site, line, rich) })
							}
						}
					}
				}
			})
			for bits := range 256 {
				for how := range 3 {
					for _, line := range [][]string{{"--help"}, {"sub", "--help"}, {"help", "s"}, {"help", "sub", "leaf"}, {"sub", "leaf", "--help"}, {"help", "hid"}} {
						for _, debug := range []bool{false, true} {
							x.Case(func() string { return fmt.Sprintf("data|%d %d %v %v", bits, how, line, debug) }, func(t *T) { tmpData(t, bits, how, line, debug) })
						}
					}
				}
			}
			for site := range 4 {
				for _, v := range []struct {
					name, flag, text, want string
					sub                    bool
				}{
					{"Version", "--version", "", "app, version 3", false},
					{"Version", "version", "", "app, version 3", false},
					{"Version", "--ver", "", "app, version 3", true},
					{"License", "--license", "", "terms", false},
					{"License", "license", "", "terms", false},
					{"License", "--terms", "", "terms", true},
					{"Version", "--version", "{{.App.Name}}-{{.App.Version}}-{{.Command.Name}}", "app-3-app", false},
					{"Version", "version", "{{.App.Name}}-{{.App.Version}}-{{.Command.Name}}", "app-3-version", false},
					{"Version", "--ver", "{{.App.Name}}-{{.App.Version}}-{{.Command.Name}}", "app-3-sub", true},
					{"License", "--license", "<{{.App.License}}>{{.Command.Name}}", "<terms>app", false},
					{"License", "license", "<{{.App.License}}>{{.Command.Name}}", "<terms>license", false},
					{"License", "--terms", "<{{.App.License}}>{{.Command.Name}}", "<terms>sub", true},
				} {
					x.Case(func() string { return fmt.Sprintf("other|%d %v", site, v) }, func(t *T) { tmpVersion(t, v.name, v.flag, site, v.text, v.want, v.sub) })
				}
			}
		},
	})
}
