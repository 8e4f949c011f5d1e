package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Initializers that add, remove and rename flags, args and commands.

type mutOp struct {
	site string // app, a, b, p, s: whose Uses does it
	op   string
}

// mutItem is a flag, arg or command of the model
type mutItem struct {
	kind  string // flag, arg, cmd
	name  string
	site  string // the ops it does
	inits int
	auto  bool // made by the library
}

type mutModel struct {
	ops   []mutOp
	items map[string][]*mutItem // by kind
	hooks map[string]int        // how often customization with the pattern ran
	n     int
	gone  []string // flags which were removed
}

var mutPatterns = []string{"-a", "-r_a", "-b", "-r_b", "<p>", "<r_p>", "s", "r_s", "-n1", "<n1>", "n1"}

func (m *mutModel) patName(it *mutItem) string {
	switch {
	case it.kind == "flag" && len(it.name) == 1:
		return "-" + it.name
	case it.kind == "flag":
		return "--" + it.name
	case it.kind == "arg":
		return "<" + it.name + ">"
	}
	return it.name
}

func (m *mutModel) hook(it *mutItem) {
	for _, p := range mutPatterns {
		if n := m.patName(it); n == p || strings.HasPrefix(p, "-") && n == "-"+p {
			m.hooks[p]++
		}
	}
}

func (m *mutModel) add(kind string) {
	m.n++
	m.items[kind] = append(m.items[kind], &mutItem{kind: kind, name: fmt.Sprintf("n%d", m.n)})
}

func (m *mutModel) remove(kind string, index int) {
	if index < 0 {
		index += len(m.items[kind])
	}
	if index < 0 || index >= len(m.items[kind]) {
		return
	}
	if kind == "flag" {
		m.gone = append(m.gone, m.items[kind][index].name)
	}
	m.items[kind] = slices.Delete(slices.Clone(m.items[kind]), index, index+1)
}

// initialize runs what the site does on behalf of the item
func (m *mutModel) initialize(it *mutItem, site string) {
	if it != nil {
		it.inits++
		m.hook(it)
	}
	before := ""
	if it != nil {
		before = it.name
	}
	for _, o := range m.ops {
		if o.site != site {
			continue
		}
		kind := map[byte]string{'f': "flag", 'p': "arg", 'c': "cmd"}
		switch {
		case o.op == "ren":
			if it != nil {
				it.name = "r_" + it.name
			}
		case o.op[0] == '+':
			m.add(kind[o.op[1]])
		case o.op[0] == '-':
			k := kind[o.op[1]]
			switch arg := o.op[2:]; arg {
			case "0":
				m.remove(k, 0)
			case "$":
				m.remove(k, -1)
			case "self":
				if i := slices.Index(m.items[it.kind], it); i >= 0 {
					m.remove(it.kind, i)
				}
			default:
				if i := slices.IndexFunc(m.items[k], func(it *mutItem) bool { return it.name == arg }); i >= 0 {
					m.remove(k, i)
				}
			}
		}
	}
	if it != nil && it.name != before {
		m.hook(it)
	}
}

func mutRun(ops []mutOp) *mutModel {
	m := &mutModel{ops: ops, items: map[string][]*mutItem{}, hooks: map[string]int{}}
	for _, n := range []string{"a", "b"} {
		m.items["flag"] = append(m.items["flag"], &mutItem{kind: "flag", name: n, site: n})
	}
	m.items["arg"] = append(m.items["arg"], &mutItem{kind: "arg", name: "p", site: "p"})
	for _, n := range []string{"s", "t"} {
		m.items["cmd"] = append(m.items["cmd"], &mutItem{kind: "cmd", name: n, site: n})
	}
	m.initialize(nil, "app")
	auto := func(kind, name string) {
		m.items[kind] = append(m.items[kind], &mutItem{kind: kind, name: name, auto: true})
	}
	cmds := len(m.items["cmd"]) > 0
	for _, n := range []string{"help", "version"} {
		if cmds {
			auto("cmd", n)
		}
		auto("flag", n)
	}
	auto("flag", "zsh-completion")
	if cmds {
		auto("arg", "command")
	}
	done := map[*mutItem]bool{}
	pass := func(kind string) (any bool) {
		for _, it := range slices.Clone(m.items[kind]) {
			if done[it] || !slices.Contains(m.items[kind], it) {
				continue
			}
			done[it], any = true, true
			m.initialize(it, it.site)
		}
		return
	}
	for again := true; again; {
		f := pass("flag")
		a := pass("arg")
		again = f || a
	}
	for pass("cmd") {
	}
	return m
}

func mutNames(items []*mutItem) string {
	var s []string
	for _, it := range items {
		s = append(s, it.name)
	}
	return strings.Join(s, " ")
}

func mutCheck(t *T, ops []mutOp) {
	m := mutRun(ops)
	inits := map[any]int{}
	hooks := map[string]int{}
	created := 0
	app := &cli.App{Name: "app"}
	count := func(k any) func(*cli.Context) { return func(*cli.Context) { inits[k]++ } }
	uses := func(site string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) error {
			owner := c
			if site == "s" || site == "t" {
				owner = c.Parent()
			}
			for _, o := range ops {
				if o.site != site {
					continue
				}
				var err error
				name := func() string { created++; return fmt.Sprintf("n%d", created) }
				switch o.op {
				case "ren":
					err = c.SetName("r_" + strings.Trim(c.Name(), "-<>"))
				case "+f":
					f := &cli.Flag{Name: name(), Value: new(bool)}
					f.Uses = count(f)
					err = owner.AddFlag(f)
				case "+p":
					a := &cli.Arg{Name: name(), Value: cli.List(), NArg: 0}
					a.Uses = count(a)
					err = owner.AddArg(a)
				case "+c":
					s := &cli.Command{Name: name(), Action: func() {}}
					s.Uses = count(s)
					err = owner.AddCommand(s)
				default:
					var arg any
					switch o.op[2:] {
					case "0":
						arg = 0
					case "$":
						arg = -1
					case "self":
						arg = c.Target()
					default:
						arg = o.op[2:]
						if o.op[1] == 'p' {
							arg = "<" + o.op[2:] + ">"
						}
					}
					switch {
					case o.op[1] == 'f' || o.op[2:] == "self" && c.IsFlag():
						err = owner.RemoveFlag(arg)
					case o.op[1] == 'p' || o.op[2:] == "self" && c.IsArg():
						err = owner.RemoveArg(arg)
					default:
						err = owner.RemoveCommand(arg)
					}
				}
				if err != nil {
					t.Failf("%s in %s: %v", o.op, o.site, err)
				}
			}
			return nil
		})
	}
	flag := func(n string) *cli.Flag {
		f := &cli.Flag{Name: n, Value: new(bool)}
		f.Uses = cli.Pipeline(count(f), uses(n))
		return f
	}
	app.Flags = []*cli.Flag{flag("a"), flag("b")}
	p := &cli.Arg{Name: "p"}
	p.Uses = cli.Pipeline(count(p), uses("p"))
	app.Args = []*cli.Arg{p}
	for _, n := range []string{"s", "t"} {
		c := &cli.Command{Name: n, Action: func() {}}
		c.Uses = cli.Pipeline(count(c), uses(n))
		app.Commands = append(app.Commands, c)
	}
	for _, pat := range mutPatterns {
		app.Use(cli.Customize(pat, cli.ActionOf(func() { hooks[pat]++ })))
	}
	app.Use(uses("app"))
	ran := false
	app.Action = func(c *cli.Context) {
		ran = true
		for _, f := range m.items["flag"] {
			if !f.auto && !c.Seen(f.name) {
				t.Failf("flag %s was used but is not seen", f.name)
			}
		}
		for _, n := range m.gone {
			if _, ok := c.LookupFlag(n); ok && !slices.ContainsFunc(m.items["flag"], func(it *mutItem) bool { return it.name == n }) {
				t.Failf("flag %s was removed but is found", n)
			}
		}
	}
	check := func(c *cli.Context) {
		root := c.Command()
		var flags, args, cmds []string
		var item []any
		for _, f := range root.Flags {
			flags, item = append(flags, f.Name), append(item, f)
		}
		for _, a := range root.Args {
			args, item = append(args, a.Name), append(item, a)
		}
		for _, s := range root.Subcommands {
			cmds, item = append(cmds, s.Name), append(item, s)
		}
		t.Eq("flags", strings.Join(flags, " "), mutNames(m.items["flag"]))
		t.Eq("args", strings.Join(args, " "), mutNames(m.items["arg"]))
		t.Eq("commands", strings.Join(cmds, " "), mutNames(m.items["cmd"]))
		all := slices.Concat(m.items["flag"], m.items["arg"], m.items["cmd"])
		for i := range item {
			if i < len(all) && !all[i].auto && inits[item[i]] != 1 {
				t.Failf("%s %s was initialized %d times", all[i].kind, all[i].name, inits[item[i]])
			}
		}
		for k, n := range inits {
			if n > 1 {
				t.Failf("%T was initialized %d times", k, n)
			}
		}
		for _, pat := range mutPatterns {
			if hooks[pat] != m.hooks[pat] {
				t.Failf("customization of %s ran %d times, want %d", pat, hooks[pat], m.hooks[pat])
			}
		}
		t.State("%v %v %v", flags, args, cmds)
	}
	app.Before = check
	var line []string
	for _, f := range m.items["flag"] {
		if !f.auto {
			line = append(line, m.patName(f))
		}
	}
	t.Step(len(ops))
	r := runApp(app, line...)
	if r.Error != nil || !ran {
		t.Failf("%q: %v, action ran: %v", line, r.Error, ran)
	}
}

// names within one command must be valid and different
func mutNamesCheck(t *T, kinds, names []string, level int) {
	cmd := &cli.Command{Name: "sub", Action: func() {}}
	wrong := ""
	seen := map[string]bool{}
	for i, k := range kinds {
		n := names[i]
		if k == "flag" {
			cmd.Flags = append(cmd.Flags, &cli.Flag{Name: n, Value: new(bool)})
			if n == "" || strings.ContainsAny(n, " /") {
				wrong = "name"
			}
		} else {
			cmd.Args = append(cmd.Args, &cli.Arg{Name: n})
			if n == "" {
				continue
			}
		}
		if seen[n] && wrong == "" {
			wrong = "duplicate"
		}
		seen[n] = true
	}
	var app *cli.App
	var line []string
	if level == 0 {
		app = &cli.App{Name: "app", Flags: cmd.Flags, Args: cmd.Args, Action: func() {}}
	} else {
		app = &cli.App{Name: "app", Commands: []*cli.Command{{Name: "mid", Subcommands: []*cli.Command{cmd}}}}
	}
	r := runApp(app, line...)
	t.State("%v %v", kinds, wrong)
	if (r.Error != nil) != (wrong != "") {
		t.Failf("%v %q: error %v, want %q", kinds, names, r.Error, wrong)
		return
	}
	if wrong == "duplicate" && !strings.Contains(r.Error.Error(), "duplicate name used") {
		t.Failf("%v %q: error %v, want %q", kinds, names, r.Error, wrong)
	}
	if wrong == "" {
		// args without name get names by their position
		args := cmd.Args
		if level == 0 {
			args = app.Args
		}
		for i, a := range args {
			want := fmt.Sprintf("_%d", i+1)
			j := 0
			for k := range kinds {
				if kinds[k] == "arg" {
					if j == i && names[k] != "" {
						want = names[k]
					}
					j++
				}
			}
			if i < len(cmd.Args) {
				t.Eq("name of arg", a.Name, want)
			}
		}
	}
}

// nothing can be changed later
func mutLate(t *T, timing int, target string, op string) {
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "f", Aliases: []string{"al"}, Value: new(bool)}}, Args: []*cli.Arg{{Name: "p"}}}
	ran := false
	act := func(c *cli.Context) error {
		ran = true
		var err error
		switch op {
		case "AddFlag":
			err = c.AddFlag(&cli.Flag{Name: "new"})
		case "AddFlags":
			err = c.Do(cli.AddFlags(&cli.Flag{Name: "new"}))
		case "AddArg":
			err = c.AddArg(&cli.Arg{Name: "new"})
		case "AddArgs":
			err = c.Do(cli.AddArgs(&cli.Arg{Name: "new"}))
		case "AddCommand":
			err = c.AddCommand(&cli.Command{Name: "new"})
		case "AddCommands":
			err = c.Do(cli.AddCommands(&cli.Command{Name: "new"}))
		case "RemoveFlag":
			err = c.RemoveFlag("f")
		case "RemoveArg":
			err = c.RemoveArg("p")
		case "RemoveCommand":
			err = c.RemoveCommand("s")
		case "AddAlias":
			err = c.AddAlias("new")
		case "RemoveAlias":
			err = c.RemoveAlias("al")
		case "Customize":
			err = c.Customize("-", cli.HelpText("new"))
		}
		if !errors.Is(err, cli.ErrTimingTooLate) {
			t.Failf("%s in %s at %v: error %v", op, c.Path(), c.Timing(), err)
		}
		return nil
	}
	set := func(b, a, z *any) {
		switch timing {
		case 0:
			*b = act
		case 1:
			*a = act
		case 2:
			*z = act
		}
	}
	switch target {
	case "flag":
		f := app.Flags[0]
		set(&f.Before, &f.Action, &f.After)
	case "arg":
		a := app.Args[0]
		set(&a.Before, &a.Action, &a.After)
	case "app":
		set(&app.Before, &app.Action, &app.After)
	}
	if app.Action == nil {
		app.Action = func() {}
	}
	r := runApp(app, "-f", "v")
	t.Eq("run", errText(r.Error), "")
	if !ran {
		t.Failf("nothing ran")
	}
	t.Eq("flags", fmt.Sprint(app.Flags[0].Name, app.Flags[0].Aliases, app.Flags[0].HelpText), "f[al]")
	t.State("%s %s %d", op, target, timing)
}

func init() {
	register(&Prop{
		ID: "C15",
		Bound: "an app with 2 flags, an arg and 2 commands where the initializers of the app and of each of these do every sequence of up to 3 (thorough: 4) operations in total, out of: add a flag, arg, command, " +
			"remove one by name, index, negative index or itself, rename itself; with customizations of 11 old and new names; every choice of names for up to 4 (thorough: 5) options of both kinds; every operation at every later pipeline; " +
			"two commands made with one slice of 0..3 flags, args or commands with room for 0..2 more, each with up to 2 changes",
		Assumptions: []string{"an initializer changes the command its target belongs to; one of a command changes the sub-commands of its parent"},
		Run: func(x *X) {
			var ops []mutOp
			for _, site := range []string{"app", "a", "b", "p", "s"} {
				list := []string{"+f", "+p", "+c", "-fa", "-fb", "-f$", "-pp", "-p0", "-ct", "-cs", "-c$", "-fnone"}
				if site != "app" {
					list = append(list, "ren", "-?self")
				}
				for _, o := range list {
					if site == "s" && o[1] != 'c' && o[0] != 'r' && o[1] != '?' {
						continue
					}
					ops = append(ops, mutOp{site, o})
				}
			}
			n := 3
			if x.Thorough {
				n = 4
			}
			order := map[string]int{"app": 0, "a": 1, "b": 2, "p": 3, "s": 4}
			words(ops, 0, n, func(w []mutOp) {
				for i := 1; i < len(w); i++ {
					// operations of different sites do not depend on the order they are listed in
					if order[w[i].site] < order[w[i-1].site] {
						return
					}
				}
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("ops|%v", l) }, func(t *T) { mutCheck(t, l) })
			})
			nn := 4
			if x.Thorough {
				nn = 5
			}
			words([]string{"flag", "arg"}, 1, nn, func(kinds []string) {
				words([]string{"x", "y", "", "a b", "no-x_1"}, len(kinds), len(kinds), func(names []string) {
					k, l := clone(kinds), clone(names)
					for level := 0; level < 2; level++ {
						x.Case(func() string { return fmt.Sprintf("names|%v %q %d", k, l, level) }, func(t *T) { mutNamesCheck(t, k, l, level) })
					}
				})
			})
			for _, kind := range []string{"flag", "arg", "cmd"} {
				changes := []string{"add", "remove first", "remove last"}
				if kind != "arg" {
					changes = append(changes, "sort")
				}
				words(changes, 0, 2, func(one []string) {
					words(changes, 0, 2, func(two []string) {
						for n := 0; n < 4; n++ {
							for spare := 0; spare < 3; spare++ {
								o, w, n, spare := clone(one), clone(two), n, spare
								x.Case(func() string { return fmt.Sprintf("shared|%s %d+%d %q %q", kind, n, spare, o, w) }, func(t *T) { mutShared(t, kind, n, spare, o, w) })
							}
						}
					})
				})
			}
			for timing := 0; timing < 3; timing++ {
				for _, target := range []string{"app", "flag", "arg"} {
					for _, op := range []string{"AddFlag", "AddFlags", "AddArg", "AddArgs", "AddCommand", "AddCommands", "RemoveFlag", "RemoveArg", "RemoveCommand", "AddAlias", "RemoveAlias", "Customize"} {
						if op == "Customize" && target != "app" {
							continue
						}
						x.Case(func() string { return fmt.Sprintf("late|%d %s %s", timing, target, op) }, func(t *T) { mutLate(t, timing, target, op) })
					}
				}
			}
		},
	})
}

// mutShared has two commands made with one slice; what one does to its own
// flags, args or commands isn't seen by the other
func mutShared(t *T, kind string, n, spare int, one, two []string) {
	base := []string{"kc", "ka", "kd", "kb"}[:n]
	want := map[string][]string{}
	changes := map[string][]string{"one": one, "two": two}
	for cmd, l := range changes {
		res, sorted := clone(base), false
		for i, o := range l {
			switch {
			case o == "add":
				res = append(res, fmt.Sprintf("k%s%d", cmd, i))
			case o == "sort":
				sorted = true
			case len(res) == 0:
			case o == "remove first":
				res = res[1:]
			default:
				res = res[:len(res)-1]
			}
		}
		if sorted {
			slices.Sort(res)
		}
		want[cmd] = res
	}
	for _, run := range []string{"one", "two"} {
		flags := make([]*cli.Flag, n+spare)
		args := make([]*cli.Arg, n+spare)
		cmds := make([]*cli.Command, n+spare)
		for i, name := range base {
			flags[i] = &cli.Flag{Name: name, Value: new(bool)}
			args[i] = &cli.Arg{Name: name, Value: new(string)}
			cmds[i] = &cli.Command{Name: name, Action: func() {}}
		}
		var given [3]any = [3]any{clone(flags), clone(args), clone(cmds)}
		ran := false
		command := func(cmd string) *cli.Command {
			// what is there before each change; other things may be added by the library
			ours := clone(base)
			res := &cli.Command{Name: cmd}
			res.Uses = cli.ActionOf(func(c *cli.Context) error {
				var errs []error
				for i, o := range changes[cmd] {
					switch o {
					case "add":
						name := fmt.Sprintf("k%s%d", cmd, i)
						ours = append(ours, name)
						switch kind {
						case "flag":
							errs = append(errs, c.AddFlag(&cli.Flag{Name: name, Value: new(bool)}))
						case "arg":
							errs = append(errs, c.AddArg(&cli.Arg{Name: name, Value: new(string)}))
						default:
							errs = append(errs, c.AddCommand(&cli.Command{Name: name, Action: func() {}}))
						}
					case "sort":
						if kind == "flag" {
							errs = append(errs, c.Do(cli.SortedFlags))
						} else {
							errs = append(errs, c.Do(cli.SortedCommands))
						}
					default:
						if len(ours) == 0 {
							continue
						}
						at := 0
						if o == "remove last" {
							at = len(ours) - 1
						}
						switch kind {
						case "flag":
							errs = append(errs, c.RemoveFlag(ours[at]))
						case "arg":
							errs = append(errs, c.RemoveArg(ours[at]))
						default:
							errs = append(errs, c.RemoveCommand(ours[at]))
						}
						ours = slices.Delete(ours, at, at+1)
					}
				}
				return errors.Join(errs...)
			})
			switch kind {
			case "flag":
				res.Flags = flags[:n]
			case "arg":
				res.Args = args[:n]
			default:
				res.Subcommands = cmds[:n]
			}
			res.Action = func(c *cli.Context) {
				ran = true
				t.Eq("command", c.Name(), run)
				for i, name := range want[run] {
					switch {
					case kind == "flag" && !c.Seen(name):
						t.Failf("flag %s was used but is not seen", name)
					case kind == "arg":
						t.Eq("arg "+name, c.String(name), fmt.Sprint("v", i))
					}
				}
			}
			return res
		}
		app := &cli.App{Name: "app", Commands: []*cli.Command{command("one"), command("two")}}
		line := []string{run}
		for i, name := range want[run] {
			switch kind {
			case "flag":
				line = append(line, "--"+name)
			case "arg":
				line = append(line, fmt.Sprint("v", i))
			}
		}
		r := runApp(app, line...)
		if r.Error != nil || !ran {
			t.Failf("%q: %v, action ran: %v", line, r.Error, ran)
		}
		for _, c := range app.Commands {
			var got []string
			for _, f := range c.Flags {
				got = append(got, f.Name)
			}
			for _, a := range c.Args {
				got = append(got, a.Name)
			}
			for _, s := range c.Subcommands {
				got = append(got, s.Name)
			}
			got = slices.DeleteFunc(got, func(s string) bool { return s == "" || s[0] != 'k' })
			w := want[c.Name]
			if c.Name != run && slices.Contains(changes[c.Name], "sort") {
				got, w = slices.Sorted(slices.Values(got)), slices.Sorted(slices.Values(w))
			}
			t.Eq(kind+"s of "+c.Name, strings.Join(got, " "), strings.Join(w, " "))
		}
		if !slices.Equal(flags, given[0].([]*cli.Flag)) || !slices.Equal(args, given[1].([]*cli.Arg)) || !slices.Equal(cmds, given[2].([]*cli.Command)) {
			t.Failf("%s: the slice which both commands were made with changed", run)
		}
		t.Step(len(one) + len(two))
	}
	t.State(kind, want)
}
