package main

import (
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
)

// Accessory flags against flags which are declared outright

// accBox is a value with an accessory of every kind of attribute
type accBox struct {
	text string
	acc  []string
}

func (b *accBox) Set(s string) error { b.text = s; return nil }
func (b *accBox) String() string     { return b.text }

func (b *accBox) setAcc(n int) error {
	if n > 99 {
		return fmt.Errorf("too large")
	}
	b.acc = append(b.acc, fmt.Sprint(n))
	return nil
}

func (b *accBox) Flag() cli.Prototype {
	return cli.Prototype{
		Name: "acc", Aliases: []string{"c"}, Category: "Proto", HelpText: "help of acc", UsageText: "N", EnvVars: []string{"JOE_ACC"},
		Data:  map[string]any{"k": "v"},
		Setup: cli.Setup{Uses: cli.Bind(b.setAcc)},
	}
}

// accConfig is how the accessory is made
type accConfig struct {
	arg, sub bool
	value    int    // 0: file set, 1: name-value, 2: accBox, 3: provider
	name     string // the argument
	category string // of the owner
	late     bool   // whether the category is set from the pipeline
	opt      int    // which options there are
	zero     bool   // Accessory0
	two      bool   // there is another owner
}

func (c accConfig) options() []cli.Action {
	switch c.opt {
	case 1:
		return []cli.Action{cli.Description("described"), cli.HelpText("other help")}
	case 2:
		return []cli.Action{cli.Category("Opt"), cli.Hidden}
	case 3:
		return []cli.Action{cli.Named("renamed"), nil, cli.Alias("R")}
	}
	return nil
}

// owner makes the value, the prototype of its accessory and how it is seen
func (c accConfig) owner() (value any, proto cli.Prototype, see func() string, make func() cli.Action) {
	opts := c.options()
	switch c.value {
	case 0:
		v := new(cli.FileSet)
		value, proto = v, v.RecursiveFlag()
		see = func() string { return fmt.Sprint(v.Files, v.Recursive) }
		make = func() cli.Action { return cli.Accessory(c.name, (*cli.FileSet).RecursiveFlag, opts...) }
	case 1:
		v := new(cli.NameValue)
		value, proto = v, v.AllowFileReferencesFlag()
		see = func() string { return fmt.Sprint(v.Name, "=", v.Value, v.AllowFileReference) }
		make = func() cli.Action { return cli.Accessory(c.name, (*cli.NameValue).AllowFileReferencesFlag, opts...) }
	case 2:
		v := new(accBox)
		value, proto = v, v.Flag()
		see = func() string { return fmt.Sprint(v.text, v.acc) }
		make = func() cli.Action { return cli.Accessory(c.name, (*accBox).Flag, opts...) }
	case 3:
		v := new(provider.Value)
		value, proto = v, v.ArgumentFlag()
		see = func() string { return fmt.Sprint(v.Name, v.Args) }
		make = func() cli.Action { return cli.Accessory(c.name, (*provider.Value).ArgumentFlag, opts...) }
	}
	if c.zero {
		p := proto
		make = func() cli.Action { return cli.Accessory0(c.name, append([]cli.Action{p}, opts...)...) }
	}
	return
}

// accName is the name of the flag
func (c accConfig) accName(dep string) string {
	own := []string{"recursive", "allow-files", "acc", "arg"}[c.value]
	if c.opt == 3 {
		return "renamed"
	}
	switch c.name {
	case "":
		return own
	case "-":
		if c.zero {
			return dep + "-" // the prototype comes later
		}
		return dep + "-" + own
	}
	return c.name
}

func (c accConfig) build(twin bool, names []string) (app *cli.App, see func() string) {
	var sees []func() string
	cmd := &cli.Command{Name: "sub", Flags: []*cli.Flag{{Name: "before", Value: new(bool)}}}
	for i, name := range names {
		value, proto, own, mk := c.owner()
		sees = append(sees, own)
		var uses []cli.Action
		category := c.category
		if c.late {
			uses, category = append(uses, cli.Category(c.category)), ""
		}
		if !twin {
			uses = append(uses, mk())
		} else {
			p := proto
			p.Name = ""
			if c.opt == 3 {
				p.Aliases = append(clone(p.Aliases), "R")
			}
			f := &cli.Flag{Name: c.accName(name), Category: p.Category, Data: map[string]any{"DependentFlag": name}}
			if f.Category == "" || c.zero && c.category != "" {
				// a prototype among the options comes after the category of the owner
				f.Category = c.category
			}
			f.Uses = cli.Pipeline(p)
			for _, o := range c.options() {
				if o != nil && c.opt != 3 {
					f.Uses = cli.Pipeline(f.Uses, o)
				}
			}
			uses = append(uses, cli.AddFlag(f))
		}
		if c.arg {
			a := &cli.Arg{Name: name, Value: value, NArg: 1, Category: category, Uses: cli.ActionPipeline(uses)}
			if i == 1 {
				a.NArg = 0
			}
			cmd.Args = append(cmd.Args, a)
		} else {
			cmd.Flags = append(cmd.Flags, &cli.Flag{Name: name, Value: value, Category: category, Uses: cli.ActionPipeline(uses)})
		}
	}
	cmd.Flags = append(cmd.Flags, &cli.Flag{Name: "after", Value: new(bool)})
	values := func() string {
		var res []string
		for _, s := range sees {
			res = append(res, s())
		}
		return strings.Join(res, " ")
	}
	var seen string
	cmd.Action = func(ctx *cli.Context) {
		var flags []string
		for _, f := range ctx.Command().Flags {
			if f.Name == "help" || f.Name == "version" || strings.HasPrefix(f.Name, "zsh") {
				continue
			}
			flags = append(flags, fmt.Sprintf("%s %q [%s] %q %q %q %v env=%q", f.Name, f.Aliases, f.Category, f.HelpText, f.Description, f.UsageText, f.Data, f.EnvVars))
		}
		seen = strings.Join(flags, "\n")
	}
	all := func() string { return values() + "\n" + seen }
	if c.sub {
		return &cli.App{Name: "app", FS: newMemFS(map[string]string{"f": "here", "v": "text"}), Commands: []*cli.Command{cmd}}, all
	}
	return &cli.App{Name: "app", FS: newMemFS(map[string]string{"f": "here", "v": "text"}), Flags: cmd.Flags, Args: cmd.Args, Action: cmd.Action}, all
}

func (c accConfig) run(t *T, line []string) {
	names := []string{"own"}
	if c.two {
		names = append(names, "other-one")
	}
	if c.sub {
		line = append([]string{"sub"}, line...)
	}
	app, see := c.build(false, names)
	got := runApp(app, line...)
	twin, seeTwin := c.build(true, names)
	want := runApp(twin, line...)
	t.Eq("error", errText(got.Error), errText(want.Error))
	t.Eq("output", got.Out, want.Out)
	t.Eq("error output", got.Err, want.Err)
	t.Eq("found", see(), seeTwin())
	t.State(see() + errText(got.Error))
}

func init() {
	register(&Prop{
		ID:    "C39",
		Bound: "accessories of 4 types of values (file set, name-value, provider, one with every attribute) of a flag or an arg of the app or of a sub-command x 4 names (of the prototype, derived, given) x category (none, set, set in the pipeline before) x 4 lists of further actions (description, category and options, name and alias) x Accessory or Accessory0 x one owner or two; lines of up to 2 (thorough 3) of 10 tokens, help included",
		Assumptions: []string{
			"a flag that is declared outright does what C04, C17, C26 and C37 say",
			"the name - isn't used with a prototype given to Accessory0, which comes after the name is derived",
		},
		Run: func(x *X) {
			n := 2
			if x.Thorough {
				n = 3
			}
			for bits := range 32 {
				for value := range 4 {
					for _, name := range []string{"", "-", "x", "my-acc"} {
						for _, category := range []string{"", "Cat"} {
							for opt := range 4 {
								c := accConfig{arg: bits&1 != 0, sub: bits&2 != 0, late: bits&4 != 0, zero: bits&8 != 0, two: bits&16 != 0, value: value, name: name, category: category, opt: opt}
								if c.late && category == "" || c.two && (name != "-" || opt == 3 || value == 2 || c.zero) || c.zero && name == "-" {
									continue
								}
								tokens := []string{"--" + c.accName("own"), "--" + c.accName("own") + "=false", "--" + c.accName("own") + "=7", "-c", "--help", "-R", "v=@f", "f", "--own=f", "--own=v=@f"}
								if c.two {
									tokens = append(tokens, "--"+c.accName("other-one"))
								}
								words(tokens, 0, n, func(w []string) {
									if x.Stop() {
										return
									}
									l := clone(w)
									x.Case(func() string { return fmt.Sprintf("accessory|%+v %q", c, l) }, func(t *T) { c.run(t, l) })
								})
							}
						}
					}
				}
			}
		},
	})
}
