package main

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// C36: a value of a flag, arg or command has its own pipelines, which run
// along with those of its owner.

// pipVal is a value that is provided to an initializer
type pipVal struct {
	name string
	with string // u, b, a, z: what its action does at each timing
	args []*pipArg
}

// pipArg is an arg that the value has
type pipArg struct {
	name    string
	with    string // u, b, a, z registered by Uses, B, A, Z as fields
	trigger bool
	vals    []*pipVal
}

type pipOpt struct {
	name string // "f" or "<a>"
	used bool
	own  bool // the (first) value provides the others by its own Initializer
	vals []*pipVal
}

type pipCmd struct {
	name string
	opts []*pipOpt
	vals []*pipVal
	next *pipCmd
}

type pipHook struct {
	on      string // path of the command or option that has it
	timing  cli.Timing
	pattern string
}

type pipTree struct {
	root  *pipCmd
	hooks []pipHook
}

func (v *pipVal) String() string {
	return fmt.Sprintf("%s(%s)%v", v.name, v.with, v.args)
}

func (a *pipArg) String() string {
	s := fmt.Sprintf("<%s>(%s)", a.name, a.with)
	if a.trigger {
		s += "!"
	}
	if len(a.vals) > 0 {
		s += fmt.Sprint(a.vals)
	}
	return s
}

func (o *pipOpt) String() string {
	s := o.name
	if o.used {
		s += "!"
	}
	if o.own {
		s += "own"
	}
	return s + fmt.Sprint(o.vals)
}

func (c *pipCmd) String() string {
	s := fmt.Sprintf("%s%v%v", c.name, c.opts, c.vals)
	if c.next != nil {
		s += " / " + c.next.String()
	}
	return s
}

func (p *pipTree) String() string {
	s := p.root.String()
	for _, h := range p.hooks {
		s += fmt.Sprintf(" H%s:%v:%s", h.on, h.timing, h.pattern)
	}
	return s
}

func pipMatch(pat, path string) bool {
	ps, fs := strings.Fields(pat), strings.Fields(path)
	if len(ps) > len(fs) {
		return false
	}
	fs = fs[len(fs)-len(ps):]
	for i := range ps {
		opt := strings.HasPrefix(fs[i], "-")
		arg := strings.HasPrefix(fs[i], "<") && !strings.HasPrefix(fs[i], "<-")
		val := strings.HasPrefix(fs[i], "<-")
		if ps[i] != fs[i] && !(ps[i] == "*" && !opt && !arg && !val) && !(ps[i] == "-" && opt) && !(ps[i] == "<>" && arg) {
			return false
		}
	}
	return true
}

const pipOwner = "ubBaAzZ"

func (p *pipTree) model() (events []string) {
	emit := func(e, path string) { events = append(events, e+" "+path) }
	step := func(with, l, path string) {
		for _, r := range l {
			if strings.ContainsRune(with, r) {
				emit(string(r), path)
			}
		}
	}
	// hooks of the ancestors of what is at path, or also of itself
	hook := func(t cli.Timing, path string, owner string) {
		for i, h := range p.hooks {
			if h.on == owner && h.timing == t && pipMatch(h.pattern, path) {
				emit(fmt.Sprint("h", i), path)
			}
		}
	}
	ancestors := func(path string) (res []string) {
		fs := strings.Fields(path)
		for i := 1; i < len(fs); i++ {
			res = append(res, strings.Join(fs[:i], " "))
		}
		return
	}
	down := func(t cli.Timing, path string) {
		for _, a := range ancestors(path) {
			hook(t, path, a)
		}
	}
	up := func(t cli.Timing, path string) {
		as := ancestors(path)
		for i := range as {
			hook(t, path, as[len(as)-1-i])
		}
	}
	var val func(t cli.Timing, v *pipVal, path string)
	vals := func(t cli.Timing, vs []*pipVal, path string) {
		for _, v := range vs {
			val(t, v, path+" <-"+v.name+">")
		}
	}
	arg := func(t cli.Timing, a *pipArg, path string) {
		switch t {
		case cli.InitialTiming:
			down(t, path)
			step(a.with, "u", path)
			vals(t, a.vals, path)
		case cli.BeforeTiming:
			step(a.with, "bB", path)
			vals(t, a.vals, path)
			up(t, path)
		case cli.ActionTiming:
			if a.trigger {
				step(a.with, "aA", path)
				vals(t, a.vals, path)
			}
		case cli.AfterTiming:
			down(t, path)
			step(a.with, "zZ", path)
			vals(t, a.vals, path)
		}
	}
	args := func(t cli.Timing, as []*pipArg, path string) {
		for _, a := range as {
			arg(t, a, path+" <"+a.name+">")
		}
	}
	val = func(t cli.Timing, v *pipVal, path string) {
		switch t {
		case cli.InitialTiming:
			down(t, path)
			step(v.with, "u", path)
			args(t, v.args, path)
		case cli.BeforeTiming:
			step(v.with, "b", path)
			args(t, v.args, path)
			up(t, path)
		case cli.ActionTiming:
			args(t, v.args, path)
			step(v.with, "a", path)
		case cli.AfterTiming:
			down(t, path)
			step(v.with, "z", path)
			args(t, v.args, path)
		}
	}
	opts := func(t cli.Timing, c *pipCmd, path string) {
		for pass := 0; pass < 2; pass++ {
			for _, o := range c.opts {
				isArg := o.name[0] == '<'
				if isArg != (pass == 1) {
					continue
				}
				po := path + " -" + o.name
				if isArg {
					po = path + " " + o.name
				}
				arg(t, &pipArg{name: o.name, with: pipOwner, trigger: o.used, vals: o.vals}, po)
			}
		}
	}
	var initialize func(c *pipCmd, path string)
	initialize = func(c *pipCmd, path string) {
		down(cli.InitialTiming, path)
		step(pipOwner, "u", path)
		opts(cli.InitialTiming, c, path)
		if c.next != nil {
			initialize(c.next, path+" "+c.next.name)
		}
		vals(cli.InitialTiming, c.vals, path)
	}
	initialize(p.root, p.root.name)
	var run func(c *pipCmd, path string)
	run = func(c *pipCmd, path string) {
		hook(cli.BeforeTiming, path, path)
		step(pipOwner, "bB", path)
		opts(cli.BeforeTiming, c, path)
		vals(cli.BeforeTiming, c.vals, path)
		up(cli.BeforeTiming, path)
		opts(cli.ActionTiming, c, path)
		if c.next != nil {
			run(c.next, path+" "+c.next.name)
		}
		vals(cli.ActionTiming, c.vals, path)
		if c.next == nil {
			step(pipOwner, "aA", path)
		}
		down(cli.AfterTiming, path)
		hook(cli.AfterTiming, path, path)
		step(pipOwner, "zZ", path)
		opts(cli.AfterTiming, c, path)
		vals(cli.AfterTiming, c.vals, path)
	}
	run(p.root, p.root.name)
	return
}

// pipValue is the value itself, it can be that of the option
type pipValue struct {
	spec *pipVal
	args []*cli.Arg
	init cli.Action
	text string
}

func (v *pipValue) Set(s string) error      { v.text = s; return nil }
func (v *pipValue) String() string          { return v.text }
func (v *pipValue) LocalArgs() []*cli.Arg   { return v.args }
func (v *pipValue) Initializer() cli.Action { return v.init }
func (v *pipValue) SetLocalArgs(a []*cli.Arg) error {
	v.args = a
	return nil
}

func (p *pipTree) exec(t *T, fail int) (events []string, err error) {
	values := map[string]*pipValue{}
	log := func(e string, timing cli.Timing) cli.Action {
		return cli.ActionOf(func(c *cli.Context) error {
			path := c.Path().String()
			for _, s := range []string{"help", "version", "zsh-completion"} {
				if strings.Contains(path, s) {
					return nil
				}
			}
			if c.Path().Last() == "<command>" {
				return nil
			}
			events = append(events, e+" "+path)
			if len(events) == fail {
				return errInjected
			}
			if c.Timing() != timing {
				t.Failf("%s of %s runs at %v, want %v", e, path, c.Timing(), timing)
			}
			if v, ok := values[path]; ok {
				if c.Target() != v {
					t.Failf("target of %s is %v", path, c.Target())
				}
				if got, ok := c.LookupValueTarget(""); !ok || got != v {
					t.Failf("value target of %s is %v, %v", path, got, ok)
				}
				if !c.HasValue() || c.IsCommand() {
					t.Failf("%s: HasValue %v, IsCommand %v", path, c.HasValue(), c.IsCommand())
				}
				if c.Name() != "<-"+v.spec.name+">" {
					t.Failf("name of %s is %s", path, c.Name())
				}
				for _, n := range []string{v.spec.name, "<-" + v.spec.name + ">"} {
					if got, ok := c.Parent().LookupValueTarget(n); !ok || got != v {
						t.Failf("value target %s of the parent of %s is %v, %v", n, path, got, ok)
					}
				}
				if got, ok := c.Parent().LookupValueTarget("other"); ok {
					t.Failf("value target other of the parent of %s is %v", path, got)
				}
				if fmt.Sprint(c.LocalArgs()) != fmt.Sprint(v.args) {
					t.Failf("args of %s: %v", path, c.LocalArgs())
				}
			}
			return nil
		})
	}
	pipe := func(with string) cli.Action {
		var as []any
		for _, l := range with {
			switch l {
			case 'u':
				as = append(as, log("u", cli.InitialTiming))
			case 'b':
				as = append(as, cli.Before(log("b", cli.BeforeTiming)))
			case 'a':
				as = append(as, cli.At(cli.ActionTiming, log("a", cli.ActionTiming)))
			case 'z':
				as = append(as, cli.After(log("z", cli.AfterTiming)))
			}
		}
		return cli.Pipeline(as...)
	}
	field := func(with, l string, timing cli.Timing) any {
		if !strings.Contains(with, l) {
			return nil
		}
		return log(l, timing)
	}
	hooks := func(path string) cli.Action {
		var as []any
		for i, h := range p.hooks {
			if h.on == path {
				l := log(fmt.Sprint("h", i), h.timing)
				switch h.timing {
				case cli.BeforeTiming:
					as = append(as, cli.HookBefore(h.pattern, l))
				case cli.AfterTiming:
					as = append(as, cli.HookAfter(h.pattern, l))
				default:
					as = append(as, cli.Customize(h.pattern, l))
				}
			}
		}
		return cli.Pipeline(as...)
	}
	var value func(v *pipVal, path string) *pipValue
	provide := func(vs []*pipVal, path string) (cli.Action, []*pipValue) {
		var as []any
		var res []*pipValue
		for _, v := range vs {
			w := value(v, path+" <-"+v.name+">")
			as = append(as, cli.ProvideValueInitializer(w, v.name, pipe(v.with)))
			res = append(res, w)
		}
		return cli.Pipeline(as...), res
	}
	value = func(v *pipVal, path string) *pipValue {
		res := &pipValue{spec: v}
		values[path] = res
		for _, a := range v.args {
			pa := path + " <" + a.name + ">"
			given, _ := provide(a.vals, pa)
			arg := &cli.Arg{Name: a.name, Uses: cli.Pipeline(hooks(pa), pipe(a.with), given), Before: field(a.with, "B", cli.BeforeTiming),
				Action: field(a.with, "A", cli.ActionTiming), After: field(a.with, "Z", cli.AfterTiming)}
			if a.trigger {
				arg.Options = cli.Trigger
			}
			res.args = append(res.args, arg)
		}
		return res
	}
	var line []string
	var build func(c *pipCmd, path string) *cli.Command
	build = func(c *pipCmd, path string) *cli.Command {
		given, _ := provide(c.vals, path)
		cmd := &cli.Command{Name: c.name, Uses: cli.Pipeline(hooks(path), pipe("ubaz"), given), Before: field("B", "B", cli.BeforeTiming),
			Action: field("A", "A", cli.ActionTiming), After: field("Z", "Z", cli.AfterTiming)}
		for _, o := range c.opts {
			po := path + " -" + o.name
			if o.name[0] == '<' {
				po = path + " " + o.name
			}
			given, vs := provide(o.vals, po)
			var val any = new(string)
			uses := cli.Pipeline(hooks(po), pipe("ubaz"), given)
			if o.own {
				vs[0].init = given
				val = vs[0]
				uses = cli.Pipeline(hooks(po), pipe("ubaz"))
			}
			if o.name[0] == '<' {
				if o.used {
					line = append(line, "x")
				}
				cmd.Args = append(cmd.Args, &cli.Arg{Name: strings.Trim(o.name, "<>"), Value: val, Uses: uses, Before: field("B", "B", cli.BeforeTiming),
					Action: field("A", "A", cli.ActionTiming), After: field("Z", "Z", cli.AfterTiming)})
			} else {
				if o.used {
					line = append(line, "-"+o.name, "x")
				}
				cmd.Flags = append(cmd.Flags, &cli.Flag{Name: o.name, Value: val, Uses: uses, Before: field("B", "B", cli.BeforeTiming),
					Action: field("A", "A", cli.ActionTiming), After: field("Z", "Z", cli.AfterTiming)})
			}
		}
		if c.next != nil {
			line = append(line, c.next.name)
			cmd.Subcommands = append(cmd.Subcommands, build(c.next, path+" "+c.next.name))
		}
		return cmd
	}
	cmd := build(p.root, p.root.name)
	app := &cli.App{Name: cmd.Name, Flags: cmd.Flags, Args: cmd.Args, Commands: cmd.Subcommands, Uses: cmd.Uses, Before: cmd.Before, Action: cmd.Action, After: cmd.After}
	r := runApp(app, line...)
	return events, r.Error
}

func pipSame(t *T, what string, got, want []string) bool {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			lo := max(0, i-3)
			t.Failf("%s, from event %d:\n  implementation %s\n  model          %s", what, lo+1, strings.Join(got[min(lo, len(got)):min(i+4, len(got))], ", "), strings.Join(want[min(lo, len(want)):min(i+4, len(want))], ", "))
			return false
		}
	}
	return true
}

func (p *pipTree) check(t *T) {
	want := p.model()
	got, err := p.exec(t, 0)
	if err != nil {
		t.Failf("run fails with %v", err)
	}
	if !pipSame(t, "order of events", got, want) {
		return
	}
	for i := 1; i <= len(want); i++ {
		if len(p.hooks) > 1 && want[i-1][0] != 'h' {
			continue // as with one
		}
		got, err := p.exec(t, i)
		t.Step(1)
		if !errors.Is(err, errInjected) {
			t.Failf("error from event %d (%s): Run returns %v", i, want[i-1], err)
		}
		if !pipSame(t, fmt.Sprintf("error from event %d (%s)", i, want[i-1]), got, want[:i]) {
			return
		}
	}
	t.State(strings.Join(want, ","))
}

// Values that have a method for what actions set

type pipSets struct {
	calls []string
	data  map[string]any
	args  []*cli.Arg
}

func (v *pipSets) add(f string, a any) { v.calls = append(v.calls, fmt.Sprintf("%s %v", f, a)) }

type (
	pipNothing    struct{ *pipSets }
	pipDesc       struct{ *pipSets }
	pipDescAny    struct{ *pipSets }
	pipHelp       struct{ *pipSets }
	pipUsage      struct{ *pipSets }
	pipManual     struct{ *pipSets }
	pipCategory   struct{ *pipSets }
	pipDefault    struct{ *pipSets }
	pipCompletion struct{ *pipSets }
	pipName       struct{ *pipSets }
	pipData       struct{ *pipSets }
	pipHidden     struct{ *pipSets }
	pipAliases    struct{ *pipSets }
	pipArgs       struct{ *pipSets }
	pipArgsErr    struct{ *pipSets }
)

func (v pipDesc) SetDescription(s string)            { v.add("Description", s) }
func (v pipDescAny) SetDescription(s any)            { v.add("Description", s) }
func (v pipHelp) SetHelpText(s string)               { v.add("HelpText", s) }
func (v pipUsage) SetUsageText(s string)             { v.add("UsageText", s) }
func (v pipManual) SetManualText(s string)           { v.add("ManualText", s) }
func (v pipCategory) SetCategory(s string)           { v.add("Category", s) }
func (v pipDefault) SetDefaultText(s string)         { v.add("DefaultText", s) }
func (v pipCompletion) SetCompletion(cli.Completion) { v.add("Completion", "") }
func (v pipName) SetName(s string)                   { v.add("Name", s) }
func (v pipData) SetData(n string, a any)            { v.add("Data", n+"="+fmt.Sprint(a)); v.data[n] = a }
func (v pipData) LookupData(n string) (any, bool)    { a, ok := v.data[n]; return a, ok }
func (v pipHidden) SetHidden(b bool)                 { v.add("Hidden", b) }
func (v pipAliases) SetAliases(a []string)           { v.add("Aliases", a) }
func (v pipArgs) LocalArgs() []*cli.Arg              { return v.args }
func (v pipArgs) SetLocalArgs(a []*cli.Arg)          { v.pipSets.args = a }
func (v pipArgsErr) LocalArgs() []*cli.Arg           { return v.args }
func (v pipArgsErr) SetLocalArgs([]*cli.Arg) error   { return errFault }

func pipValues() map[string]func(*pipSets) any {
	return map[string]func(*pipSets) any{
		"":            func(s *pipSets) any { return pipNothing{s} },
		"nil":         func(s *pipSets) any { return nil },
		"Description": func(s *pipSets) any { return pipDesc{s} }, "DescriptionAny": func(s *pipSets) any { return pipDescAny{s} },
		"HelpText": func(s *pipSets) any { return pipHelp{s} }, "UsageText": func(s *pipSets) any { return pipUsage{s} },
		"ManualText": func(s *pipSets) any { return pipManual{s} }, "Category": func(s *pipSets) any { return pipCategory{s} },
		"DefaultText": func(s *pipSets) any { return pipDefault{s} }, "Completion": func(s *pipSets) any { return pipCompletion{s} },
		"Name": func(s *pipSets) any { return pipName{s} }, "Data": func(s *pipSets) any { return pipData{s} },
		"Hidden": func(s *pipSets) any { return pipHidden{s} }, "Aliases": func(s *pipSets) any { return pipAliases{s} },
		"Args": func(s *pipSets) any { return pipArgs{s} }, "ArgsErr": func(s *pipSets) any { return pipArgsErr{s} },
	}
}

type pipSet struct {
	name string // what of the value it uses, and the form
	want string
	act  cli.Action
	err  error
}

func pipActions() []pipSet {
	comp := cli.CompletionValues("a")
	var res []pipSet
	add := func(of, want string, acts ...cli.Action) {
		for i, a := range acts {
			res = append(res, pipSet{fmt.Sprintf("%s %d", of, i), want, a, nil})
		}
	}
	set := func(fn func(c *cli.Context) error) cli.Action { return cli.ActionOf(fn) }
	add("Description", "Description d", cli.Description("d"), set(func(c *cli.Context) error { return c.SetDescription("d") }), cli.Prototype{Description: "d"})
	add("Description", "Description 7", cli.Description(7), cli.Prototype{Description: 7})
	add("HelpText", "HelpText h", cli.HelpText("h"), set(func(c *cli.Context) error { return c.SetHelpText("h") }), cli.Prototype{HelpText: "h"})
	add("UsageText", "UsageText u", cli.UsageText("u"), set(func(c *cli.Context) error { return c.SetUsageText("u") }), cli.Prototype{UsageText: "u"})
	add("ManualText", "ManualText m", cli.ManualText("m"), set(func(c *cli.Context) error { return c.SetManualText("m") }), cli.Prototype{ManualText: "m"})
	add("Category", "Category c", cli.Category("c"), set(func(c *cli.Context) error { return c.SetCategory("c") }), cli.Prototype{Category: "c"})
	add("DefaultText", "DefaultText t", cli.Prototype{DefaultText: "t"})
	add("Completion", "Completion ", comp.(cli.Action), cli.SetCompletion(comp))
	add("Name", "Name n", cli.Named("n"), set(func(c *cli.Context) error { return c.SetName("n") }))
	add("Data", "Data k=5", cli.Data("k", 5), set(func(c *cli.Context) error { return c.SetData("k", 5) }), cli.Prototype{Data: map[string]any{"k": 5}})
	add("Aliases", "Aliases [x y]", cli.Prototype{Aliases: []string{"x", "y"}})
	add("Args", "", cli.AddArg(&cli.Arg{Name: "more"}), cli.AddArgs(&cli.Arg{Name: "more"}), set(func(c *cli.Context) error { return c.AddArg(&cli.Arg{Name: "more"}) }))
	add("Remove", "", cli.RemoveArg("z"), cli.RemoveArg(0), cli.RemoveArg("<z>"))
	return res
}

// pipSetCase: what an action sets gets to the value that has a method for it,
// and is ignored by others, wherever the value is provided.
func pipSetCase(t *T, kind string, s pipSet, where string, hidden int) {
	sets := &pipSets{data: map[string]any{}, args: []*cli.Arg{{Name: "y"}, {Name: "z"}}}
	if strings.HasSuffix(s.name, "0") && strings.HasPrefix(s.name, "Remove") {
		sets.args = []*cli.Arg{{Name: "z"}, {Name: "y"}}
	}
	v := pipValues()[kind](sets)
	of, form, _ := strings.Cut(s.name, " ")
	if of == "Remove" && form == "1" {
		sets.args = []*cli.Arg{{Name: "z"}, {Name: "y"}}
	}
	hide := []cli.Action{nil, cli.Hidden, cli.Visible, cli.Pipeline(cli.Hidden, cli.Visible)}[hidden]
	name := "v"
	wantHidden := hidden == 1
	if hidden == 2 {
		name = "_v"
	}
	if where == "_" {
		name, where = "_v", "flag"
		wantHidden = hidden < 2
	}
	var seen []any
	provide := cli.ProvideValueInitializer(v, name, cli.Pipeline(hide, s.act), cli.ActionOf(func(c *cli.Context) {
		d, ok := c.LookupData("k")
		seen = []any{c.Target(), d, ok}
	}))
	app := &cli.App{Name: "app", Action: func() {}}
	switch where {
	case "flag":
		app.Flags = []*cli.Flag{{Name: "f", Uses: provide}}
	case "arg":
		app.Args = []*cli.Arg{{Name: "a", Uses: provide}}
	case "app":
		app.Uses = provide
	case "command":
		app.Commands = []*cli.Command{{Name: "sub", Uses: provide}}
	}
	_, err := app.Initialize(context.Background())
	t.Step(1)
	isArgs := of == "Args" || of == "Remove"
	if isArgs && kind == "ArgsErr" {
		if !errors.Is(err, errFault) {
			t.Failf("error %v", err)
		}
		return
	}
	if err != nil {
		t.Fatalf("initialize: %v", err)
	}
	var want []string
	if of == strings.TrimSuffix(kind, "Any") && !isArgs {
		want = append(want, s.want)
	}
	if kind == "Hidden" {
		want = append(want, fmt.Sprint("Hidden ", wantHidden))
	}
	t.Eq("calls", fmt.Sprint(sets.calls), fmt.Sprint(want))
	if len(seen) == 0 {
		t.Failf("the action did not run")
		return
	}
	t.Eq("target", seen[0], v)
	if kind == "Data" && of == "Data" {
		t.Eq("data", fmt.Sprint(seen[1:]...), "5 true")
	}
	wantArgs := []string{"y", "z"}
	if kind == "Args" && of == "Args" {
		wantArgs = append(wantArgs, "more")
	}
	if kind == "Args" && of == "Remove" {
		wantArgs = []string{"y"}
	} else if of == "Remove" && (form == "0" || form == "1") {
		wantArgs = []string{"z", "y"}
	}
	var gotArgs []string
	for _, a := range sets.args {
		gotArgs = append(gotArgs, a.Name)
	}
	if kind != "nil" {
		t.Eq("args", fmt.Sprint(gotArgs), fmt.Sprint(wantArgs))
	}
	if kind != "Args" && kind != "ArgsErr" && isArgs {
		return // these are about the command
	}
	// the owner is not what the actions are about
	other := func(a ...any) {
		for _, x := range a {
			if s := fmt.Sprint(x); s != "" && s != "<nil>" && s != "[]" && s != "map[]" {
				t.Failf("the owner has %v", a)
				return
			}
		}
	}
	drop := func(d map[string]any) map[string]any {
		d = maps.Clone(d)
		maps.DeleteFunc(d, func(k string, v any) bool { return strings.HasPrefix(k, "_") })
		return d
	}
	switch where {
	case "flag":
		f := app.Flags[slices.IndexFunc(app.Flags, func(f *cli.Flag) bool { return f.Name == "f" })]
		other(f.HelpText, f.UsageText, f.ManualText, f.Category, f.DefaultText, f.Description, f.Aliases, f.Completion, drop(f.Data))
	case "arg":
		f := app.Args[0]
		t.Eq("name of the owner", f.Name, "a")
		other(f.HelpText, f.UsageText, f.ManualText, f.Category, f.DefaultText, f.Description, f.Completion, drop(f.Data))
	case "command":
		f := app.Commands[slices.IndexFunc(app.Commands, func(f *cli.Command) bool { return f.Name == "sub" })]
		other(f.HelpText, f.UsageText, f.ManualText, f.Category, f.Description, f.Aliases, f.Completion, f.Args, f.Data["k"])
	case "app":
		other(app.HelpText, app.ManualText, app.Description)
	}
	t.State(kind, s.name, where)
}

// pipNested: a value can't have values of its own, and the names of values
// are those of their owner
func pipNames(t *T, names []string, ask string) {
	vals := make([]*pipSets, len(names))
	app := &cli.App{Name: "app"}
	var as []any
	for i, n := range names {
		vals[i] = &pipSets{calls: []string{n}}
		as = append(as, cli.ProvideValueInitializer(pipNothing{vals[i]}, n))
	}
	find := func(kind string, c *cli.Context) {
		t.Step(1)
		got, ok := c.LookupValueTarget(ask)
		want := slices.Index(names, strings.TrimSuffix(strings.TrimPrefix(ask, "<-"), ">"))
		if kind == "other" {
			want = -1
		}
		if want < 0 {
			if ok || got != nil {
				t.Failf("%s: %q is %v, %v", kind, ask, got, ok)
			}
			return
		}
		if !ok || got != (pipNothing{vals[want]}) {
			t.Failf("%s: %q is %v, %v, want number %d", kind, ask, got, ok, want)
		}
	}
	given := func(kind string) cli.Action {
		return cli.Pipeline(cli.Pipeline(as...), func(c *cli.Context) { find(kind, c) }, cli.Before(cli.ActionOf(func(c *cli.Context) { find(kind, c) })),
			cli.At(cli.ActionTiming, cli.ActionOf(func(c *cli.Context) { find(kind, c) })), cli.After(cli.ActionOf(func(c *cli.Context) { find(kind, c) })))
	}
	app.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Uses: given("flag")}, {Name: "g", Value: new(bool), Action: func(c *cli.Context) { find("other", c) }}}
	app.Args = []*cli.Arg{{Name: "a", Uses: given("arg")}}
	app.Uses = given("app")
	r := runApp(app, "-f", "-g", "x")
	if r.Error != nil {
		t.Failf("error %v", r.Error)
	}
	// within a value there can't be another one
	app = &cli.App{Name: "app", Uses: cli.ProvideValueInitializer(1, "v", cli.ProvideValueInitializer(2, "w"))}
	_, err := app.Initialize(context.Background())
	var ie *cli.InternalError
	if !errors.As(err, &ie) || ie.Path.String() != "app <-v>" || ie.Timing != cli.InitialTiming {
		t.Failf("a value within a value: %v", err)
	}
	t.State(names, ask)
}

func init() {
	register(&Prop{
		ID: "C36",
		Bound: "apps and sub-commands with up to 2 options (used or not) and up to 2 values on any of them, each with every subset of 4 timings, up to 2 args of its own (run or not, with values of their own), provided by Uses or by the value's own Initializer; hooks of each owner at 3 timings with 9 patterns; " +
			"for each, the run without failure and one run for every event with that event failing; 32 actions that set something against 16 kinds of values in 5 places, hidden and visible; every sequence of up to 3 of 4 names of values",
		Assumptions: []string{"what the action of a value of a command does when a sub-command was used is only compared in its place after it"},
		Run: func(x *X) {
			one := func(g string, p *pipTree) {
				x.Case(func() string { return g + "|" + p.String() }, p.check)
			}
			var withs []string
			subsets([]byte("ubaz"), func(s []byte) { withs = append(withs, string(s)) })
			full := "ubBaAzZ"
			// args of a value
			argSets := func(with string) [][]*pipArg {
				return [][]*pipArg{
					nil,
					{{name: "z", with: with, trigger: true}},
					{{name: "z", with: with}},
					{{name: "z", with: with, trigger: true}, {name: "y", with: with, trigger: true}},
					{{name: "z", with: with, trigger: true, vals: []*pipVal{{name: "n", with: "ubaz"}}}},
					{{name: "z", with: with, vals: []*pipVal{{name: "n", with: "ubaz"}, {name: "m", with: "ubaz", args: []*pipArg{{name: "d", with: "uBAZ", trigger: true}}}}}},
				}
			}
			valSets := func() (res [][]*pipVal) {
				for _, w := range withs {
					res = append(res, []*pipVal{{name: "v", with: w}})
				}
				for _, as := range argSets(full) {
					res = append(res, []*pipVal{{name: "v", with: "ubaz", args: as}}, []*pipVal{{name: "v", with: "ubaz", args: as}, {name: "w", with: "ubaz"}}, []*pipVal{{name: "w", with: "bz"}, {name: "v", with: "ua", args: as}})
				}
				return
			}()
			for _, vs := range valSets {
				for _, own := range []bool{false, true} {
					for _, used := range []bool{false, true} {
						for _, name := range []string{"f", "<a>"} {
							one("option", &pipTree{root: &pipCmd{name: "app", opts: []*pipOpt{{name, used, own, vs}}}})
							one("option", &pipTree{root: &pipCmd{name: "app", next: &pipCmd{name: "sub", opts: []*pipOpt{{name, used, own, vs}}}}})
						}
						if own {
							continue
						}
						some := []*pipVal{{name: "v", with: "ubaz"}}
						one("command", &pipTree{root: &pipCmd{name: "app", vals: vs, opts: []*pipOpt{{"f", used, false, some}, {"<a>", used, false, nil}}}})
						one("command", &pipTree{root: &pipCmd{name: "app", vals: vs, opts: []*pipOpt{{"f", used, false, nil}}, next: &pipCmd{name: "sub", vals: some}}})
						one("command", &pipTree{root: &pipCmd{name: "app", vals: some, opts: []*pipOpt{{"f", used, false, nil}}, next: &pipCmd{name: "sub", vals: vs, opts: []*pipOpt{{"<a>", used, false, some}}}}})
					}
				}
			}
			// values everywhere
			for i, vs := range valSets {
				for j, ws := range valSets {
					if !x.Thorough && (i < 15 || j < 15) {
						continue // each subset of timings, once is enough
					}
					for used := 0; used < 4; used++ {
						one("pairs", &pipTree{root: &pipCmd{name: "app", vals: vs, opts: []*pipOpt{{"f", used&1 != 0, false, ws}, {"<a>", used&2 != 0, false, vs}}}})
						one("pairs", &pipTree{root: &pipCmd{name: "app", vals: vs, opts: []*pipOpt{{"f", used&1 != 0, false, ws}},
							next: &pipCmd{name: "sub", vals: ws, opts: []*pipOpt{{"<a>", used&2 != 0, true, vs}}}}})
					}
				}
			}
			// hooks
			tree := func(hs ...pipHook) *pipTree {
				v := func() []*pipVal {
					return []*pipVal{{name: "v", with: "ubaz", args: []*pipArg{{name: "z", with: full, trigger: true, vals: []*pipVal{{name: "n", with: "ub"}}}}}, {name: "w", with: "ubaz"}}
				}
				return &pipTree{root: &pipCmd{name: "app", vals: v(), opts: []*pipOpt{{"f", true, false, v()}}, next: &pipCmd{name: "sub", vals: v(), opts: []*pipOpt{{"<a>", true, false, v()}}}}, hooks: hs}
			}
			var hs []pipHook
			for _, on := range []string{"app", "app -f", "app sub", "app sub <a>", "app <-v> <z>", "app sub <a> <-v> <z>"} {
				for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.AfterTiming} {
					for _, pat := range []string{"<-v>", "<z>", "<-v> <z>", "<>", "-f <-v>", "app <-v>", "* <-w>", "<a> <-v> <z>", "<-n>"} {
						hs = append(hs, pipHook{on, tm, pat})
					}
				}
			}
			for i, h := range hs {
				one("hook", tree(h))
				for j, g := range hs {
					if h.timing == g.timing && (x.Thorough || (i+j)%7 == 0) {
						one("hooks", tree(h, g))
					}
				}
			}
			kinds := sortedKeys(pipValues())
			for i, s := range pipActions() {
				for _, kind := range kinds {
					for _, where := range []string{"flag", "arg", "app", "command", "_"} {
						for h := 0; h < 4; h++ {
							x.Case(func() string { return fmt.Sprintf("set|%s %q %s %d", s.name, kind, where, h) }, func(t *T) { pipSetCase(t, kind, pipActions()[i], where, h) })
						}
					}
				}
			}
			words([]string{"v", "w", "a b", "_x"}, 0, 3, func(w []string) {
				l := clone(w)
				for _, ask := range []string{"v", "<-v>", "w", "a b", "<-_x>", "_x", "f", "a", "app", "<v>"} {
					x.Case(func() string { return fmt.Sprintf("names|%q %q", l, ask) }, func(t *T) { pipNames(t, l, ask) })
				}
			})
		},
	})
}
