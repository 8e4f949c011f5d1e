package main

import (
	"errors"
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Which command runs, and with what.

// reg is one registered handler of commands that are not found
type reg struct {
	kind string // none, decline, two, leaf, skip, fail, reset, implicit
}

type dispCase struct {
	regs      [2][]string // of app and of "one"
	intercept string      // handler given to ExecuteSubcommand on an own arg of "one"
	actions   bool        // app and "one" have their own action
	skip      bool        // "two" has SkipFlagParsing
}

func (dc *dispCase) String() string {
	return fmt.Sprintf("app:%v one:%v intercept=%s actions=%v skip=%v", dc.regs[0], dc.regs[1], dc.intercept, dc.actions, dc.skip)
}

// mCmd is a command of the model
type mCmd struct {
	name    string
	aliases []string
	subs    []*mCmd
	parent  *mCmd
	flag    string // own bool flag
	skip    bool
	level   int
}

func (m *mCmd) find(n string) *mCmd {
	for _, s := range m.subs {
		if s.name == n {
			return s
		}
		for _, a := range s.aliases {
			if a == n {
				return s
			}
		}
	}
	return nil
}

func (m *mCmd) path() string {
	if m.parent == nil {
		return m.name
	}
	return m.parent.path() + " " + m.name
}

type dispErr struct {
	code string // "notfound <name>", "flag <name>", "extra", "fail <text>"
	text string
}

type dispModel struct {
	dc  *dispCase
	ev  []string
	out string // help of this path is shown
}

var errHandler = errors.New("handler failed")

func notFoundText(n string) string { return fmt.Sprintf("%q is not a command", n) }

// handlers in effect for a command, newest first
func (d *dispModel) handlers(m *mCmd) []string {
	for ; m != nil; m = m.parent {
		if m.level > 1 || m.name == "two" {
			continue
		}
		var own []string
		set := false
		for _, r := range d.dc.regs[m.level] {
			set = true
			if r == "reset" {
				own = nil
				continue
			}
			own = append([]string{r}, own...)
		}
		if set {
			return own
		}
	}
	return nil
}

// run executes the command with its tokens (without its name); as is the name it was called by
func (d *dispModel) run(m *mCmd, as string, toks []string) *dispErr {
	var rest []string
	flags := map[string]bool{}
	known := func(f string) bool {
		for x := m; x != nil; x = x.parent {
			if x.flag == f {
				return true
			}
		}
		return false
	}
	for i := 0; i < len(toks); i++ {
		tok := toks[i]
		if strings.HasPrefix(tok, "-") && !m.skip && (len(m.subs) == 0 || len(rest) == 0) {
			if !known(tok) {
				return &dispErr{code: "flag " + tok}
			}
			flags[tok] = true
			continue
		}
		rest = append(rest, tok)
	}
	d.ev = append(d.ev, "before "+m.path())
	ran := false
	if len(m.subs) > 0 && len(rest) > 0 {
		err := d.dispatch(m, rest, &ran)
		if err != nil {
			return err
		}
	}
	if !ran {
		if len(m.subs) == 0 {
			d.ev = append(d.ev, fmt.Sprintf("run %s args=%q rest=%q", m.path(), append([]string{as}, toks...), rest))
		} else if d.dc.actions {
			d.ev = append(d.ev, fmt.Sprintf("run %s args=%q", m.path(), append([]string{as}, toks...)))
		} else {
			d.ev = append(d.ev, "help")
			d.out = m.path()
		}
	}
	d.ev = append(d.ev, "after "+m.path())
	return nil
}

func (d *dispModel) dispatch(m *mCmd, rest []string, ran *bool) *dispErr {
	if s := m.find(rest[0]); s != nil {
		*ran = true
		return d.run(s, rest[0], rest[1:])
	}
	hs := d.handlers(m)
	if m.level == 1 && d.dc.intercept != "none" {
		hs = []string{d.dc.intercept}
	}
	prev := notFoundText(rest[0])
	for i, h := range hs {
		d.ev = append(d.ev, fmt.Sprintf("handler %s on %s: %s", h, m.path(), prev))
		var res *mCmd
		switch h {
		case "decline":
			continue
		case "two", "leaf":
			res = m.find(h)
			if res == nil {
				continue
			}
			*ran = true
			return d.run(res, rest[0], rest[1:])
		case "skip":
			return nil
		case "fail":
			if i == len(hs)-1 {
				return &dispErr{code: "fail", text: errHandler.Error()}
			}
			prev = errHandler.Error()
		case "implicit":
			d.ev = d.ev[:len(d.ev)-1] // it is not ours
			s := m.find("two")
			if s == nil {
				if i == len(hs)-1 {
					return &dispErr{code: "notfound", text: notFoundText("two")}
				}
				prev = notFoundText("two")
				continue
			}
			*ran = true
			if err := d.run(s, "two", rest); err != nil {
				if i == len(hs)-1 {
					return err
				}
				prev = "(failed)"
				continue
			}
			return nil
		}
	}
	return &dispErr{code: "notfound", text: notFoundText(rest[0])}
}

func (dc *dispCase) run(t *T, toks []string) {
	app := &mCmd{name: "app", flag: "--vv"}
	one := &mCmd{name: "one", aliases: []string{"o", "uno"}, parent: app, flag: "--ff", level: 1}
	two := &mCmd{name: "two", aliases: []string{"t"}, parent: app, flag: "--gg", level: 1, skip: dc.skip}
	leaf := &mCmd{name: "leaf", aliases: []string{"o"}, parent: one, flag: "--hh", level: 2}
	app.subs = []*mCmd{one, two}
	one.subs = []*mCmd{leaf}
	d := &dispModel{dc: dc}
	wantErr := d.run(app, "app", toks)

	var got []string
	handler := func(h string) func(*cli.Context, error) (*cli.Command, error) {
		return func(c *cli.Context, err error) (*cli.Command, error) {
			text := errText(err)
			if err != nil && !errors.Is(err, errHandler) && text != notFoundText("two") {
				var pe *cli.ParseError
				if !errors.As(err, &pe) {
					text = "(failed)"
				} else if pe.Code != cli.CommandNotFound {
					text = "(failed)"
				}
			}
			got = append(got, fmt.Sprintf("handler %s on %s: %s", h, c.Command().Name, text))
			switch h {
			case "two", "leaf":
				cmd, _ := c.Command().Command(h)
				return cmd, nil
			case "skip":
				return nil, cli.ErrSkipCommand
			case "fail":
				return nil, errHandler
			}
			return nil, nil
		}
	}
	uses := func(rs []string) cli.Action {
		var as []any
		for _, r := range rs {
			switch r {
			case "reset":
				as = append(as, cli.HandleCommandNotFound(nil))
			case "implicit":
				as = append(as, cli.ImplicitCommand("two"))
			default:
				as = append(as, cli.HandleCommandNotFound(handler(r)))
			}
		}
		return cli.Pipeline(as...)
	}
	var build func(m *mCmd) *cli.Command
	build = func(m *mCmd) *cli.Command {
		c := &cli.Command{Name: m.name, Aliases: m.aliases, Flags: []*cli.Flag{{Name: m.flag[2:], Value: new(bool)}}}
		c.Before = cli.ActionOf(func() { got = append(got, "before "+m.path()) })
		c.After = cli.ActionOf(func() { got = append(got, "after "+m.path()) })
		for _, s := range m.subs {
			c.Subcommands = append(c.Subcommands, build(s))
		}
		if len(m.subs) == 0 {
			c.Args = []*cli.Arg{{Name: "rest", Value: &[]string{}, NArg: cli.TakeExceptForFlags, Options: cli.DisableSplitting}}
			if m.skip {
				c.Options = cli.SkipFlagParsing
			}
			c.Action = func(c *cli.Context) {
				got = append(got, fmt.Sprintf("run %s args=%q rest=%q", c.Path(), c.Args(), c.List("rest")))
			}
		} else {
			if dc.actions {
				c.Action = func(c *cli.Context) {
					got = append(got, fmt.Sprintf("run %s args=%q", c.Path(), c.Args()))
				}
			}
			if m.level == 1 && dc.intercept != "none" {
				c.Args = []*cli.Arg{{Name: "mine", Uses: cli.ExecuteSubcommand(handler(dc.intercept))}}
			}
			c.Uses = uses(dc.regs[m.level])
		}
		return c
	}
	root := build(app)
	a := &cli.App{Name: "app", Flags: root.Flags, Commands: root.Subcommands, Uses: root.Uses, Before: root.Before, Action: root.Action, After: root.After}
	r := runApp(a, toks...)
	for i, e := range d.ev {
		// handlers report the name of the command only
		if strings.HasPrefix(e, "handler ") {
			f := strings.SplitN(e, ":", 2)
			w := strings.Fields(f[0])
			d.ev[i] = fmt.Sprintf("handler %s on %s:%s", w[1], w[len(w)-1], f[1])
		}
		if e == "help" {
			d.ev[i] = ""
		}
	}
	var want []string
	for _, e := range d.ev {
		if e != "" {
			want = append(want, e)
		}
	}
	t.Eq("events", strings.Join(got, "; "), strings.Join(want, "; "))
	if d.out != "" && wantErr == nil {
		all := r.Out + r.Err
		if !strings.Contains(all, "usage: "+d.out+" ") {
			t.Failf("help of %q is expected: %q", d.out, all)
		}
	} else if r.Out != "" {
		t.Failf("prints %q", r.Out)
	}
	if wantErr == nil {
		if r.Error != nil {
			t.Failf("fails with %v", r.Error)
		}
	} else {
		var pe *cli.ParseError
		switch {
		case r.Error == nil:
			t.Failf("succeeds, should fail: %+v", wantErr)
		case strings.HasPrefix(wantErr.code, "flag"):
			if !errors.As(r.Error, &pe) || pe.Code != cli.UnknownOption || pe.Name != wantErr.code[5:] {
				t.Failf("fails with %v, want unknown %s", r.Error, wantErr.code)
			}
		case wantErr.code == "notfound":
			if !errors.As(r.Error, &pe) || pe.Code != cli.CommandNotFound || r.Error.Error() != wantErr.text {
				t.Failf("fails with %v, want %v", r.Error, wantErr.text)
			}
		default:
			if r.Error.Error() != wantErr.text {
				t.Failf("fails with %v, want %v", r.Error, wantErr.text)
			}
		}
	}
	t.State(want, wantErr != nil)
	t.Step(len(want))
}

func init() {
	register(&Prop{
		ID: "C11",
		Bound: "an app with sub-commands of two levels with aliases and flags; every list of up to 2 handlers of commands not found (declining, substituting, skipping, failing, resetting, implicit command) on the app and on a sub-command, or one given to ExecuteSubcommand; " +
			"with and without own actions; every command line of up to 3 (thorough: 4) tokens over names, aliases, unknown names, flags of each level and the empty string",
		Run: func(x *X) {
			max := 3
			if x.Thorough {
				max = 4
			}
			kinds := []string{"decline", "two", "leaf", "skip", "fail", "reset", "implicit"}
			var lists [][]string
			words(kinds, 0, 2, func(w []string) { lists = append(lists, clone(w)) })
			toks := []string{"one", "o", "uno", "two", "t", "leaf", "zz", "", "--vv", "--ff", "--gg", "--nn"}
			for _, dc := range func() (cs []dispCase) {
				for _, l := range lists {
					cs = append(cs, dispCase{regs: [2][]string{l, nil}, intercept: "none", actions: true})
					if len(l) == 0 {
						continue
					}
					cs = append(cs, dispCase{regs: [2][]string{nil, l}, intercept: "none", actions: true})
				}
				for _, a := range kinds {
					for _, b := range kinds {
						cs = append(cs, dispCase{regs: [2][]string{{a}, {b}}, intercept: "none", actions: true})
					}
				}
				for _, h := range []string{"decline", "leaf", "skip", "fail"} {
					for _, a := range []string{"decline", "leaf"} {
						cs = append(cs, dispCase{regs: [2][]string{{a}, nil}, intercept: h, actions: true})
					}
				}
				for _, l := range [][]string{nil, {"skip"}, {"implicit"}, {"decline"}} {
					cs = append(cs, dispCase{regs: [2][]string{l, nil}, intercept: "none"}, dispCase{regs: [2][]string{l, nil}, intercept: "none", skip: true})
				}
				return
			}() {
				ts := toks
				n := max
				if !x.Thorough && len(dc.regs[0])+len(dc.regs[1]) == 2 {
					ts = []string{"one", "o", "two", "leaf", "zz", "--vv", "--gg", "--nn"}
				}
				words(ts, 0, n, func(w []string) {
					w = clone(w)
					x.Case(func() string { return dc.String() + "|" + q(w) }, func(t *T) { dc.run(t, w) })
				})
			}
		},
	})
}
