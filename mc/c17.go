package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// The help screen: a complete model of the words on it.

type hlpFlag struct {
	name     string
	aliases  []string
	hidden   bool
	category string
	help     string
	rendered string // help without braces
	usage    string
	holder   string // placeholder shown
	boolean  bool
	required bool
	exits    bool
	desc     string
	value    func() any
	mirror   int // 1: No in Options, 2: first action in Uses, 3: last one
}

func (f *hlpFlag) build() *cli.Flag {
	res := &cli.Flag{Name: f.name, Aliases: clone(f.aliases), Category: f.category, HelpText: f.help, UsageText: f.usage}
	if f.desc != "" {
		res.Description = f.desc
	}
	switch {
	case f.value != nil:
		res.Value = f.value()
	case f.boolean:
		res.Value = new(bool)
	}
	if f.hidden {
		res.Options |= cli.Hidden
	}
	if f.required {
		res.Options |= cli.Required
	}
	if f.exits {
		res.Options |= cli.Exits
		res.Action = func() {}
	}
	switch f.mirror {
	case 1:
		res.Options |= cli.No
	case 2, 3:
		// The attributes are set by actions before or after it
		acts := cli.ActionPipeline{cli.HelpText(f.help), cli.Category(f.category), cli.UsageText(f.usage), res.Options}
		for _, a := range f.aliases {
			acts = append(acts, cli.Alias(a))
		}
		if f.mirror == 2 {
			acts = append(cli.ActionPipeline{cli.No}, acts...)
		} else {
			acts = append(acts, cli.No)
		}
		res.HelpText, res.Category, res.UsageText, res.Options, res.Aliases = "", "", "", 0, nil
		res.Uses = acts
	}
	return res
}

func dashed(n string) string {
	if len(n) == 1 {
		return "-" + n
	}
	return "--" + n
}

// names splits into short and long names in order
func (f *hlpFlag) split() (short, long []string) {
	for _, n := range append([]string{f.name}, f.aliases...) {
		if len(n) == 1 {
			short = append(short, n)
		} else {
			long = append(long, n)
		}
	}
	return
}

func (f *hlpFlag) sep() string {
	_, long := f.split()
	switch {
	case f.holder == "":
		return ""
	case len(long) == 0:
		return " "
	}
	return "="
}

func (f *hlpFlag) primary() string {
	short, long := f.split()
	if len(long) > 0 {
		return "--" + long[0]
	}
	return "-" + short[0]
}

// main is the name in the synopsis of the command
func (f *hlpFlag) main() string {
	if f.mirror != 0 {
		return "--[no-]" + strings.TrimLeft(f.primary(), "-")
	}
	return f.primary()
}

// synopsis is at most one short and one long name, and the placeholder
func (f *hlpFlag) synopsis() string {
	short, long := f.split()
	var names []string
	if len(short) > 0 {
		names = append(names, "-"+short[0])
	}
	if len(long) > 0 {
		names = append(names, "--"+long[0])
	}
	return strings.Join(names, ", ") + f.sep() + f.holder
}

type hlpArg struct {
	name   string
	narg   any
	hidden bool
	desc   string
	usage  string
}

func (a *hlpArg) optional() bool { return a.narg == nil || a.narg == 0 }
func (a *hlpArg) text() string {
	s := a.usage
	if s == "" {
		s = "<" + a.name + ">"
	}
	if n, ok := a.narg.(int); ok && (n < 0 || n > 1) {
		s += "..."
	}
	return s
}

type hlpCmd struct {
	name     string
	aliases  []string
	hidden   bool
	category string
	help     string
	desc     string
	usage    string
	flags    []*hlpFlag
	args     []*hlpArg
	subs     []*hlpCmd
	sortF    bool
	sortC    bool
	rtl      bool
	parent   *hlpCmd
}

func (c *hlpCmd) link() *hlpCmd {
	for _, s := range c.subs {
		s.parent = c
		s.link()
	}
	return c
}

func (c *hlpCmd) build(t *T, events *[]string) *cli.Command {
	res := &cli.Command{Name: c.name, Aliases: clone(c.aliases), Category: c.category, HelpText: c.help, UsageText: c.usage,
		Action: func() { *events = append(*events, "action of "+c.name) }}
	if c.desc != "" {
		res.Description = c.desc
	}
	if c.hidden {
		res.Options |= cli.Hidden
	}
	if c.sortF {
		res.Options |= cli.SortedFlags
	}
	if c.sortC {
		res.Options |= cli.SortedCommands
	}
	if c.rtl {
		res.Options |= cli.RightToLeft
	}
	for _, f := range c.flags {
		res.Flags = append(res.Flags, f.build())
	}
	for _, a := range c.args {
		arg := &cli.Arg{Name: a.name, NArg: a.narg, UsageText: a.usage}
		if a.narg != nil && a.narg != 1 && a.narg != 0 {
			arg.Value = cli.List()
		}
		if a.hidden {
			arg.Options |= cli.Hidden
		}
		if a.desc != "" {
			arg.Description = a.desc
		}
		res.Args = append(res.Args, arg)
	}
	for _, s := range c.subs {
		res.Subcommands = append(res.Subcommands, s.build(t, events))
	}
	return res
}

func (c *hlpCmd) app(t *T, events *[]string) *cli.App {
	r := c.build(t, events)
	return &cli.App{Name: r.Name, HelpText: r.HelpText, UsageText: r.UsageText, Description: r.Description, Options: r.Options,
		Flags: r.Flags, Args: r.Args, Commands: r.Subcommands, Action: r.Action, Version: "1"}
}

// with is the command together with what the library adds
func (c *hlpCmd) with() (flags []*hlpFlag, args []*hlpArg, subs []*hlpCmd) {
	flags, args, subs = clone(c.flags), clone(c.args), clone(c.subs)
	if c.parent == nil {
		flags = append(flags,
			&hlpFlag{name: "help", aliases: []string{"h"}, boolean: true, exits: true, help: "Display this help screen then exit", rendered: "Display this help screen then exit"},
			&hlpFlag{name: "version", boolean: true, exits: true, help: "Print the build version then exit", rendered: "Print the build version then exit"},
			&hlpFlag{name: "zsh-completion", boolean: true, exits: true, hidden: true})
		if len(subs) > 0 {
			subs = append(subs, &hlpCmd{name: "help", aliases: []string{"h"}, help: "Display help for a command"}, &hlpCmd{name: "version", help: "Print the build version then exit"})
		}
	}
	if len(c.subs) > 0 {
		args = append(args, &hlpArg{name: "command", narg: -1, usage: "<command> [<args>]"})
	}
	if c.sortF {
		sort.Slice(flags, func(i, j int) bool { return flags[i].name < flags[j].name })
	}
	if c.sortC {
		sort.Slice(subs, func(i, j int) bool { return subs[i].name < subs[j].name })
	}
	return
}

func (c *hlpCmd) synopsis() string {
	if c.usage != "" {
		return c.usage
	}
	flags, args, _ := c.with()
	var b strings.Builder
	b.WriteString(c.name)
	var exits, req, opt, others, reqOthers []string
	for _, f := range flags {
		switch {
		case f.hidden:
		case f.exits:
			exits = append(exits, f.main()+f.sep()+f.holder)
		case f.boolean && len(f.name) == 1 && f.required:
			req = append(req, f.name)
		case f.boolean && len(f.name) == 1:
			opt = append(opt, f.name)
		case f.required:
			reqOthers = append(reqOthers, " "+f.main()+f.sep()+f.holder)
		default:
			others = append(others, " ["+f.main()+f.sep()+f.holder+"]")
		}
	}
	if len(exits) > 0 {
		b.WriteString(" {" + strings.Join(exits, " | ") + "}")
	}
	sort.Strings(req)
	sort.Strings(opt)
	if len(req) > 0 {
		b.WriteString(" -" + strings.Join(req, ""))
	}
	if len(opt) > 0 {
		b.WriteString(" [-" + strings.Join(opt, "") + "]")
	}
	b.WriteString(strings.Join(others, "") + strings.Join(reqOthers, ""))
	var ra, oa []*hlpArg
	for _, a := range args {
		if a.hidden {
			continue
		}
		if a.optional() || c.rtl && len(oa) > 0 {
			oa = append(oa, a)
		} else {
			ra = append(ra, a)
		}
	}
	for _, a := range ra {
		b.WriteString(" " + a.text())
	}
	for i, a := range oa {
		b.WriteString(" ")
		if c.rtl && i == 0 {
			b.WriteString(strings.Repeat("[", len(oa)))
		} else if !c.rtl {
			b.WriteString("[")
		}
		b.WriteString(a.text() + "]")
	}
	return b.String()
}

func hlpFlags(flags []*hlpFlag) (res []string) {
	cats := map[string][]*hlpFlag{}
	for _, f := range flags {
		cats[f.category] = append(cats[f.category], f)
	}
	for _, k := range sortedKeys(cats) {
		var visible []*hlpFlag
		documented := len(cats) == 1 && k == ""
		for _, f := range cats[k] {
			documented = documented || f.help != ""
			if !f.hidden {
				visible = append(visible, f)
			}
		}
		if k != "" && len(visible) > 0 {
			res = append(res, k+":")
		}
		var names []string
		for _, f := range visible {
			if documented {
				res = append(res, f.synopsis(), f.rendered)
			} else {
				names = append(names, f.primary())
			}
		}
		res = append(res, strings.Join(names, ", "))
	}
	return
}

func (c *hlpCmd) screen() []string {
	var path []string
	var anc []*hlpCmd
	for p := c.parent; p != nil; p = p.parent {
		path = append([]string{p.name}, path...)
		anc = append([]*hlpCmd{p}, anc...)
	}
	flags, args, subs := c.with()
	res := append([]string{"usage:"}, path...)
	res = append(res, c.synopsis())
	if c.desc != "" {
		res = append(res, c.desc)
	} else {
		res = append(res, c.help)
	}
	res = append(res, hlpFlags(flags)...)
	cats := map[string][]*hlpCmd{}
	for _, s := range subs {
		if !s.hidden {
			cats[s.category] = append(cats[s.category], s)
		}
	}
	if len(cats) > 0 {
		res = append(res, "Sub-commands:")
		for _, k := range sortedKeys(cats) {
			if k != "" {
				res = append(res, k+":")
			}
			for _, s := range cats[k] {
				res = append(res, strings.Join(append([]string{s.name}, s.aliases...), ", "), s.help)
			}
		}
	}
	var persistent []*hlpFlag
	for _, p := range anc {
		fs, _, _ := p.with()
		for _, f := range fs {
			if !f.hidden {
				persistent = append(persistent, f)
			}
		}
	}
	if len(persistent) > 0 {
		res = append(res, "Global options (specify before any sub-commands)")
		res = append(res, hlpFlags(persistent)...)
	}
	for _, a := range args {
		if !a.hidden {
			res = append(res, a.desc)
		}
	}
	for _, f := range flags {
		if !f.hidden {
			res = append(res, f.desc)
		}
	}
	return strings.Fields(strings.Join(res, " "))
}

// hlpCheck shows the help of every command in every way there is.
func hlpCheck(t *T, root *hlpCmd) {
	root.link()
	required, nested := false, false
	var cmds []*hlpCmd
	var visit func(c *hlpCmd)
	visit = func(c *hlpCmd) {
		cmds = append(cmds, c)
		for _, f := range c.flags {
			required = required || f.required
		}
		nested = nested || c.parent != nil && len(c.subs) > 0
		for _, s := range c.subs {
			visit(s)
		}
	}
	visit(root)
	for _, c := range cmds {
		want := c.screen()
		var path []string
		for p := c; p.parent != nil; p = p.parent {
			path = append([]string{p.name}, path...)
		}
		if len(root.args) > 0 && len(path) > 0 {
			continue // the names would be taken as args of the app
		}
		lines := [][]string{append([]string{"--help"}, path...)}
		sorted := false
		for p := c; p.parent != nil; p = p.parent {
			sorted = sorted || p.sortF || p.sortC
		}
		ancestorRequired := false // its check comes before the sub-command
		for p := c.parent; p != nil; p = p.parent {
			ancestorRequired = ancestorRequired || slices.ContainsFunc(p.flags, func(f *hlpFlag) bool { return f.required })
		}
		if !ancestorRequired {
			lines = append(lines, append(clone(path), "--help"), append(clone(path), "-h"))
		}
		if len(root.subs) > 0 && !required {
			lines = append(lines, append([]string{"help"}, path...), append([]string{"h"}, path...))
		}
		if len(c.args) > 0 && !ancestorRequired && c.args[0].narg != 0 && !c.args[0].hidden {
			lines = append(lines, append(clone(path), "v", "--help"))
		}
		for i, line := range lines {
			var events []string
			app := root.app(t, &events)
			r := runApp(app, line...)
			t.Step(1)
			var ec cli.ExitCoder
			if r.Error != nil && (!errors.As(r.Error, &ec) || ec.ExitCode() != 0) {
				t.Failf("%q: %v", line, r.Error)
				continue
			}
			t.Eq(q(line)+" stdout", r.Out, "")
			if len(events) > 0 {
				t.Failf("%q: ran %v", line, events)
			}
			got := strings.Fields(r.Err)
			if !slices.Equal(got, want) {
				if unsorted := sorted && line[len(line)-1] != "--help" && line[len(line)-1] != "-h"; unsorted {
					a, b := clone(got), clone(want)
					for _, l := range [][]string{a, b} {
						for i, w := range l {
							l[i] = strings.Trim(w, "[]{},")
						}
						sort.Strings(l)
					}
					if slices.Equal(a, b) {
						t.Known("help-unsorted", "%q", line)
						continue
					}
				}
				k := 0
				for k < len(got) && k < len(want) && got[k] == want[k] {
					k++
				}
				t.Failf("%q: the screen differs from word %d: %q, model %q\n%s", line, k, from(got, k), from(want, k), r.Err)
			}
			// The same app shows the same again
			if i == 0 && !nested {
				r2 := runApp(app, line...)
				if r2.Err != r.Err {
					t.Failf("%q: shown again\n%s\nafter\n%s", line, r2.Err, r.Err)
				}
			}
		}
		t.State(strings.Join(want, " "))
	}
	if len(root.subs) > 0 && !required && len(root.args) == 0 {
		for _, line := range [][]string{{"help", "nope"}, {"--help", "nope"}, {"help", root.subs[0].name, "nope", "nope2"}} {
			var events []string
			r := runApp(root.app(t, &events), line...)
			var pe *cli.ParseError
			if !errors.As(r.Error, &pe) || pe.Code != cli.CommandNotFound {
				t.Failf("%q: error %v, want command not found", line, r.Error)
			}
			t.Eq(q(line)+" stderr", r.Err, "")
		}
	}
	// Synopsis as a string
	var events []string
	app := root.app(t, &events)
	if ctx, err := app.Initialize(context.Background()); err == nil {
		if !root.sortF {
			t.Eq("Synopsis", cli.FromContext(ctx).Command().Synopsis(), root.synopsis())
		}
		for _, f := range root.flags {
			fl, _ := cli.FromContext(ctx).LookupFlag(f.name)
			t.Eq("Synopsis of "+f.name, fl.Synopsis(), strings.Replace(f.synopsis(), f.primary(), f.main(), 1))
		}
	} else {
		t.Failf("initialize: %v", err)
	}
}

func from(l []string, k int) []string {
	if k > 2 {
		k -= 2
	}
	return l[k:min(len(l), k+8)]
}

// placeholders of a help text: {X}, {1:X}
type hlpPart struct {
	text   string
	isHold bool
	pos    int
	hasPos bool
}

func hlpPlaceholders(t *T, parts []hlpPart) {
	var src, plain strings.Builder
	type hold struct {
		name string
		pos  int
	}
	var hs []hold
	for _, p := range parts {
		if !p.isHold {
			src.WriteString(p.text)
			plain.WriteString(p.text)
			continue
		}
		if p.hasPos {
			fmt.Fprintf(&src, "{%d:%s}", p.pos, p.text)
		} else {
			src.WriteString("{" + p.text + "}")
		}
		plain.WriteString(p.text)
		h := hold{p.text, p.pos}
		if !p.hasPos {
			h.pos = -1
		}
		if !slices.ContainsFunc(hs, func(x hold) bool { return x.name == h.name }) {
			hs = append(hs, h)
		}
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].pos < hs[j].pos })
	var names []string
	for _, h := range hs {
		names = append(names, h.name)
	}
	holder := strings.Join(names, " ")
	if holder == "" {
		holder = "STRING"
	}
	f := &hlpFlag{name: "ff", aliases: []string{"x"}, help: src.String(), rendered: plain.String(), holder: holder}
	hlpCheck(t, &hlpCmd{name: "app", flags: []*hlpFlag{f}})
}

func init() {
	register(&Prop{
		ID: "C17",
		Bound: "every word of the help screen and synopsis, for apps with up to 3 (thorough: 4) of 17 flags on the app, and up to 2 of them on a sub-command; up to 3 (4) of 8 args in every order, both directions; up to 3 (4) of 9 sub-commands with categories; sorted or not; " +
			"shown by --help, -h, --help before the names, the help command, with an arg, and twice; every help text of up to 4 (5) parts with placeholders; flags with a mirror in 64 combinations of attributes, set before or after it",
		Assumptions: []string{"the words and their order are compared, not the white space between them"},
		Run: func(x *X) {
			flags := []*hlpFlag{
				{name: "plain", aliases: []string{"p", "pl", "q"}, holder: "STRING", help: "plain help", rendered: "plain help"},
				{name: "s", boolean: true, help: "short bool", rendered: "short bool"},
				{name: "b", boolean: true},
				{name: "num", required: true, holder: "NUMBER", value: func() any { return cli.Int() }},
				{name: "secret", hidden: true, holder: "STRING", help: "secret help", desc: "secretdesc"},
				{name: "file", aliases: []string{"f"}, category: "Aa", help: "the {FILE}s", rendered: "the FILEs", holder: "FILE"},
				{name: "ina", category: "Aa", holder: "STRING"},
				{name: "hidb", category: "Bb", hidden: true, holder: "STRING"},
				{name: "usage", usage: "<U=V>", help: "of {X}", rendered: "of X", holder: "<U=V>"},
				{name: "inb", aliases: []string{"n"}, category: "Bb", holder: "STRING"},
				{name: "r", boolean: true, required: true},
				{name: "m", holder: "B A", help: "{1:A} to {0:B} or {1:A}", rendered: "A to B or A"},
				{name: "go", exits: true, boolean: true, desc: "godesc"},
				{name: "o", aliases: []string{"out", "long2"}, holder: "DURATION", value: func() any { return cli.Duration() }},
				{name: "aa", category: "Aa", boolean: true},
				{name: "zz", holder: "VALUES", value: func() any { return cli.List() }, desc: "zzdesc"},
				{name: "k", aliases: []string{"kk"}, required: true, boolean: true, help: "k"},
			}
			flags[16].rendered = "k"
			n := 3
			if x.Thorough {
				n = 4
			}
			copyF := func(l []*hlpFlag) (res []*hlpFlag) {
				for _, f := range l {
					g := *f
					res = append(res, &g)
				}
				return
			}
			names := func(l []*hlpFlag) (res []string) {
				for _, f := range l {
					res = append(res, f.name)
				}
				return
			}
			subsetsUpTo(flags, n, func(s []*hlpFlag) {
				l := clone(s)
				for v := 0; v < 4; v++ {
					x.Case(func() string { return fmt.Sprintf("flags|%v %d", names(l), v) }, func(t *T) {
						root := &hlpCmd{name: "app", flags: copyF(l), sortF: v&1 != 0}
						if v&2 != 0 {
							root.desc, root.help = "the description", "the help"
							slices.Reverse(root.flags)
						}
						hlpCheck(t, root)
					})
				}
			})
			for m := 1; m <= 3; m++ {
				for v := range 64 {
					f := &hlpFlag{name: "color", boolean: true, mirror: m}
					if v&1 != 0 {
						f.hidden = true
					}
					if v&2 != 0 {
						f.required = true
					}
					if v&4 != 0 {
						f.exits = true
					}
					if v&8 != 0 {
						f.aliases = []string{"k", "colour"}
					}
					if v&16 != 0 {
						f.help, f.rendered, f.category = "colors the output", "colors the output", "Cat"
					}
					if v&32 != 0 {
						f.usage, f.boolean, f.holder = "W", false, "W"
						f.value = func() any { return cli.String() }
					}
					x.Case(func() string { return fmt.Sprintf("mirror|%d %d", m, v) }, func(t *T) {
						for _, extra := range []*hlpFlag{nil, {name: "b", boolean: true}, {name: "file", holder: "STRING", category: "Cat", help: "f", rendered: "f"}} {
							root := &hlpCmd{name: "app", flags: []*hlpFlag{f}}
							if extra != nil {
								root.flags = append(root.flags, extra)
							}
							hlpCheck(t, root)
						}
					})
				}
			}
			subsetsUpTo(flags, 2, func(s []*hlpFlag) {
				l := clone(s)
				subsetsUpTo(flags, n-2, func(s2 []*hlpFlag) {
					l2 := clone(s2)
					for v := 0; v < 4; v++ {
						x.Case(func() string { return fmt.Sprintf("sub|%v %v %d", names(l), names(l2), v) }, func(t *T) {
							sub := &hlpCmd{name: "sub", aliases: []string{"su"}, flags: copyF(l), help: "help of sub", sortF: v&1 != 0}
							for _, f := range sub.flags {
								if v&2 != 0 {
									f.name = "v" + f.name
									f.aliases = nil
									if f.holder != "" || !f.boolean {
										continue
									}
								}
							}
							root := &hlpCmd{name: "app", flags: copyF(l2), subs: []*hlpCmd{sub}}
							if v&2 != 0 {
								sub.subs = []*hlpCmd{{name: "grand", desc: "granddesc", flags: []*hlpFlag{{name: "deep", boolean: true, category: "Aa"}}, args: []*hlpArg{{name: "g", narg: 1}}}}
							}
							hlpCheck(t, root)
						})
					}
				})
			})
			args := []*hlpArg{
				{name: "one", narg: 1}, {name: "opt"}, {name: "opt2", desc: "opt2desc"}, {name: "two", narg: 2}, {name: "zero", narg: 0},
				{name: "all", narg: -2}, {name: "hid", hidden: true, desc: "hiddesc"}, {name: "use", usage: "[USE]", narg: 1},
			}
			words(args, 1, n, func(w []*hlpArg) {
				for i := range w {
					if slices.Contains(w[:i], w[i]) {
						return
					}
				}
				l := clone(w)
				for v := 0; v < 4; v++ {
					x.Case(func() string {
						s := ""
						for _, a := range l {
							s += a.name + " "
						}
						return fmt.Sprintf("args|%s%d", s, v)
					}, func(t *T) {
						root := &hlpCmd{name: "app", args: l, rtl: v&1 != 0, flags: []*hlpFlag{{name: "s", boolean: true}}}
						if v&2 != 0 {
							root = &hlpCmd{name: "app", subs: []*hlpCmd{{name: "sub", args: l, rtl: v&1 != 0}}}
						}
						hlpCheck(t, root)
					})
				}
			})
			cmds := []hlpCmd{
				{name: "one", help: "help one"}, {name: "two", aliases: []string{"t", "tw"}, help: "help two"}, {name: "hid", hidden: true, help: "hidhelp"},
				{name: "ca", category: "Aa", help: "help ca"}, {name: "cb", category: "Bb"}, {name: "ha", category: "Aa", hidden: true}, {name: "hc", category: "Cc", hidden: true, help: "hchelp"},
				{name: "usg", usage: "usg <its own>", help: "help usg"}, {name: "abc", aliases: []string{"z"}, desc: "abcdesc", help: "help abc"},
			}
			idx := make([]int, len(cmds))
			for i := range idx {
				idx[i] = i
			}
			subsetsUpTo(idx, n, func(s []int) {
				l := clone(s)
				if len(l) == 0 {
					return
				}
				for v := 0; v < 8; v++ {
					x.Case(func() string { return fmt.Sprintf("commands|%v %d", l, v) }, func(t *T) {
						var list []*hlpCmd
						for _, i := range l {
							c := cmds[i]
							list = append(list, &c)
						}
						if v&2 != 0 {
							slices.Reverse(list)
						}
						root := &hlpCmd{name: "app", subs: list, sortC: v&1 != 0}
						if v&4 != 0 {
							root = &hlpCmd{name: "app", subs: []*hlpCmd{{name: "par", subs: list, sortC: v&1 != 0}}}
						}
						hlpCheck(t, root)
					})
				}
			})
			parts := []hlpPart{{text: "a "}, {text: " of\nb"}, {text: "X", isHold: true}, {text: "Y", isHold: true}, {text: "Z", isHold: true, pos: 0, hasPos: true}, {text: "W", isHold: true, pos: 2, hasPos: true}, {text: "V", isHold: true, pos: 1, hasPos: true}, {text: "X", isHold: true, pos: 1, hasPos: true}, {text: "two words", isHold: true}}
			words(parts, 0, n+1, func(w []hlpPart) {
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("placeholders|%v", l) }, func(t *T) { hlpPlaceholders(t, l) })
			})
		},
	})
}

// subsetsUpTo enumerates the subsets with at most n items
func subsetsUpTo[A any](items []A, n int, fn func([]A)) {
	var rec func(i int, cur []A)
	rec = func(i int, cur []A) {
		fn(cur)
		if len(cur) == n {
			return
		}
		for ; i < len(items); i++ {
			rec(i+1, append(clone(cur), items[i]))
		}
	}
	rec(0, nil)
}
