package main

import (
	"errors"
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Order in which the pipelines of an app, its commands and its options run,
// and where an error stops them.

type pOpt struct {
	name string // flag "f" or argument "<a>"
	used bool
	with string // which pipelines it has
}

func (o pOpt) arg() bool { return strings.HasPrefix(o.name, "<") }

type pCmd struct {
	name string
	opts []pOpt
	with string
	next *pCmd // sub-command used on the command line
	side bool  // has another sub-command, not used
}

type pHook struct {
	owner   int // depth of the command that registers it
	timing  cli.Timing
	pattern string
}

type pipeCase struct {
	root  *pCmd
	hooks []pHook
}

func (c *pCmd) String() string {
	s := c.name + "(" + c.with + ")"
	for _, o := range c.opts {
		u := ""
		if o.used {
			u = "!"
		}
		s += " " + o.name + u + "(" + o.with + ")"
	}
	if c.side {
		s += " +side"
	}
	if c.next != nil {
		s += " / " + c.next.String()
	}
	return s
}

func (p *pipeCase) String() string {
	s := p.root.String()
	for _, h := range p.hooks {
		s += fmt.Sprintf(" H%d%v%q", h.owner, h.timing, h.pattern)
	}
	return s
}

// letters of `with`: u runs in Uses, v b a z deferred from Uses at validator,
// before, action, after timing; B A Z fields of the target (two actions each)
func (p *pipeCase) model() (events []string) {
	var chain []*pCmd
	for c := p.root; c != nil; c = c.next {
		chain = append(chain, c)
	}
	path := func(d int, o *pOpt) string {
		var s []string
		for i := 0; i <= d; i++ {
			s = append(s, chain[i].name)
		}
		if o != nil {
			if o.arg() {
				s = append(s, o.name)
			} else {
				s = append(s, "-"+o.name)
			}
		}
		return strings.Join(s, " ")
	}
	emit := func(e, p string) { events = append(events, e+" "+p) }
	has := func(with string, l rune) bool { return strings.ContainsRune(with, l) }

	matches := func(pat, path string) bool {
		ps, fs := strings.Fields(pat), strings.Fields(path)
		if len(ps) > len(fs) {
			return false
		}
		fs = fs[len(fs)-len(ps):]
		for i := range ps {
			cmd := !strings.HasPrefix(fs[i], "-") && !strings.HasPrefix(fs[i], "<")
			ok := ps[i] == fs[i] || ps[i] == "*" && cmd || ps[i] == "-" && strings.HasPrefix(fs[i], "-") || ps[i] == "<>" && strings.HasPrefix(fs[i], "<")
			if !ok {
				return false
			}
		}
		return true
	}
	hooks := func(owner int, t cli.Timing, path string) {
		for i, h := range p.hooks {
			if h.owner == owner && h.timing == t && (h.pattern == "" || matches(h.pattern, path)) {
				emit(fmt.Sprintf("h%d", i), path)
			}
		}
	}
	field := func(with string, l rune, path string) {
		if has(with, l) {
			emit(string(l)+"1", path)
			emit(string(l)+"2", path)
		}
	}
	deferred := func(with string, l rune, path string) {
		if has(with, l) {
			emit(string(l), path)
		}
	}

	// initialization: a command, its options, then its sub-commands
	var initialize func(d int)
	initialize = func(d int) {
		c := chain[d]
		pa := path(d, nil)
		// hooks are there once the command that registers them has started
		for a := 0; a < d; a++ {
			hooks(a, cli.InitialTiming, pa)
		}
		deferred(c.with, 'u', pa)
		for pass := 0; pass < 2; pass++ {
			for i := range c.opts {
				o := &c.opts[i]
				if o.arg() != (pass == 1) {
					continue
				}
				po := path(d, o)
				for a := 0; a <= d; a++ {
					hooks(a, cli.InitialTiming, po)
				}
				deferred(o.with, 'u', po)
			}
		}
		if c.next != nil {
			initialize(d + 1)
		}
	}
	initialize(0)

	before := func(d int) {
		c := chain[d]
		pa := path(d, nil)
		hooks(d, cli.BeforeTiming, pa)
		deferred(c.with, 'v', pa)
		deferred(c.with, 'b', pa)
		field(c.with, 'B', pa)
		for pass := 0; pass < 2; pass++ {
			for i := range c.opts {
				o := &c.opts[i]
				if o.arg() != (pass == 1) {
					continue
				}
				po := path(d, o)
				deferred(o.with, 'v', po)
				deferred(o.with, 'b', po)
				field(o.with, 'B', po)
				for a := d; a >= 0; a-- {
					hooks(a, cli.BeforeTiming, po)
				}
			}
		}
		for a := d - 1; a >= 0; a-- {
			hooks(a, cli.BeforeTiming, pa)
		}
	}
	var run func(d int)
	run = func(d int) {
		c := chain[d]
		pa := path(d, nil)
		before(d)
		for pass := 0; pass < 2; pass++ {
			for i := range c.opts {
				o := &c.opts[i]
				if o.arg() != (pass == 1) || !o.used {
					continue
				}
				po := path(d, o)
				deferred(o.with, 'a', po)
				field(o.with, 'A', po)
			}
		}
		if c.next != nil {
			run(d + 1)
		} else {
			deferred(c.with, 'a', pa)
			field(c.with, 'A', pa)
		}
		for a := 0; a < d; a++ {
			hooks(a, cli.AfterTiming, pa)
		}
		hooks(d, cli.AfterTiming, pa)
		deferred(c.with, 'z', pa)
		field(c.with, 'Z', pa)
		for pass := 0; pass < 2; pass++ {
			for i := range c.opts {
				o := &c.opts[i]
				if o.arg() != (pass == 1) {
					continue
				}
				po := path(d, o)
				for a := 0; a <= d; a++ {
					hooks(a, cli.AfterTiming, po)
				}
				deferred(o.with, 'z', po)
				field(o.with, 'Z', po)
			}
		}
	}
	run(0)
	return
}

var errInjected = errors.New("injected")

// exec runs the case on the library; the fail-th event (from 1) returns an
// error.
func (p *pipeCase) exec(fail int) (events []string, err error) {
	log := func(e string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) error {
			switch c.Path().Last() {
			case "", "--help", "--version", "--zsh-completion", "help", "version", "<command>", "side":
				return nil // not part of the case
			}
			if strings.Contains(c.Path().String(), " side ") || len(c.Path()) > 1 && c.Path()[1] == "help" || len(c.Path()) > 1 && c.Path()[1] == "version" {
				return nil
			}
			events = append(events, e+" "+c.Path().String())
			if len(events) == fail {
				return errInjected
			}
			return nil
		})
	}
	uses := func(with string) cli.Action {
		var as []any
		for _, l := range with {
			switch l {
			case 'u':
				as = append(as, log("u"))
			case 'v':
				as = append(as, cli.At(cli.ValidatorTiming, log("v")))
			case 'b':
				as = append(as, cli.Before(log("b")))
			case 'a':
				as = append(as, cli.At(cli.ActionTiming, log("a")))
			case 'z':
				as = append(as, cli.After(log("z")))
			}
		}
		return cli.Pipeline(as...)
	}
	field := func(with, l string) any {
		if !strings.Contains(with, l) {
			return nil
		}
		return cli.Pipeline(log(l+"1"), log(l+"2"))
	}
	var line []string
	var build func(c *pCmd, depth int) (flags []*cli.Flag, args []*cli.Arg, subs []*cli.Command, use any)
	build = func(c *pCmd, depth int) (flags []*cli.Flag, args []*cli.Arg, subs []*cli.Command, use any) {
		hooks := []any{}
		for i, h := range p.hooks {
			if h.owner != depth {
				continue
			}
			l := log(fmt.Sprintf("h%d", i))
			switch {
			case h.pattern == "":
				hooks = append(hooks, cli.Hook(h.timing, l))
			case h.timing == cli.BeforeTiming:
				hooks = append(hooks, cli.HookBefore(h.pattern, l))
			case h.timing == cli.AfterTiming:
				hooks = append(hooks, cli.HookAfter(h.pattern, l))
			default:
				hooks = append(hooks, cli.Hook(h.timing, cli.IfMatch(cli.PatternFilter(h.pattern), l)))
			}
		}
		// hooks are registered first, so they apply to everything below
		use = cli.Pipeline(cli.Pipeline(hooks...), uses(c.with))
		for _, o := range c.opts {
			if o.arg() {
				args = append(args, &cli.Arg{Name: strings.Trim(o.name, "<>"), Uses: uses(o.with), Before: field(o.with, "B"), Action: field(o.with, "A"), After: field(o.with, "Z")})
				if o.used {
					line = append(line, "val")
				}
			} else {
				flags = append(flags, &cli.Flag{Name: o.name, Value: new(bool), Uses: uses(o.with), Before: field(o.with, "B"), Action: field(o.with, "A"), After: field(o.with, "Z")})
				if o.used {
					// reversed, as the order on the command line plays no role
					line = append(line[:len(line):len(line)], "-"+o.name)
				}
			}
		}
		if c.next != nil {
			line = append(line, c.next.name)
			f, a, s, u := build(c.next, depth+1)
			w := c.next.with
			subs = append(subs, &cli.Command{Name: c.next.name, Flags: f, Args: a, Subcommands: s, Uses: u,
				Before: field(w, "B"), Action: field(w, "A"), After: field(w, "Z")})
		}
		if c.side {
			bad := func(c *cli.Context) { events = append(events, "side "+c.Path().String()) }
			subs = append(subs, &cli.Command{Name: "side", Before: bad, Action: bad, After: bad,
				Flags: []*cli.Flag{{Name: "f", Value: new(bool), Before: bad, Action: bad, After: bad}}})
		}
		return
	}
	f, a, s, u := build(p.root, 0)
	w := p.root.with
	app := &cli.App{Name: p.root.name, Flags: f, Args: a, Commands: s, Uses: u, Before: field(w, "B"), Action: field(w, "A"), After: field(w, "Z")}
	r := runApp(app, line...)
	return events, r.Error
}

func (p *pipeCase) check(t *T) {
	want := p.model()
	got, err := p.exec(0)
	if err != nil {
		t.Failf("run fails with %v", err)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("order of events:\n  implementation %s\n  model          %s", strings.Join(got, ", "), strings.Join(want, ", "))
		return
	}
	// an error in any one of them ends the run there and is what Run returns
	for i := 1; i <= len(want); i++ {
		got, err := p.exec(i)
		if !errors.Is(err, errInjected) {
			t.Failf("error from event %d (%s): Run returns %v", i, want[i-1], err)
		}
		if fmt.Sprint(got) != fmt.Sprint(want[:i]) {
			t.Failf("error from event %d (%s):\n  implementation %s\n  model          %s", i, want[i-1], strings.Join(got, ", "), strings.Join(want[:i], ", "))
		}
		t.Step(1)
	}
	t.State(strings.Join(want, ","))
}

func init() {
	register(&Prop{
		ID: "C08",
		Bound: "apps of up to 3 levels of commands with up to 2 options each (used or not), every subset of the pipelines on one target and all of them on all targets; " +
			"hooks at every timing and 9 patterns registered at every level, alone and in pairs; chains of 4 to 6 (thorough: 7) commands with a hook at every level; for each, the run without failure and one run for every event with that event failing",
		Run: func(x *X) {
			withs := []string{"", "uvbazBAZ"}
			var subsetsOfWith []string
			subsets([]byte("uvbazBAZ"), func(s []byte) { subsetsOfWith = append(subsetsOfWith, string(s)) })
			one := func(g string, p *pipeCase) {
				x.Case(func() string { return g + "|" + p.String() }, p.check)
			}
			optSets := [][]pOpt{
				{}, {{"f", false, ""}}, {{"f", true, ""}}, {{"<a>", true, ""}}, {{"<a>", false, ""}},
				{{"f", true, ""}, {"g", true, ""}}, {{"<a>", true, ""}, {"f", true, ""}}, {{"f", false, ""}, {"<a>", true, ""}, {"g", true, ""}},
			}
			fill := func(os []pOpt, w string) (res []pOpt) {
				for _, o := range os {
					o.with = w
					res = append(res, o)
				}
				return
			}
			noArgs := func(os []pOpt) bool {
				for _, o := range os {
					if o.arg() {
						return false
					}
				}
				return true
			}
			all := withs[1]
			// one level
			for _, os := range optSets {
				for _, w := range subsetsOfWith {
					one("one", &pipeCase{root: &pCmd{name: "app", opts: fill(os, all), with: w}})
					one("one", &pipeCase{root: &pCmd{name: "app", opts: fill(os, w), with: all}})
				}
			}
			// two and three levels
			for _, o1 := range optSets {
				if !noArgs(o1) {
					continue
				}
				for _, o2 := range optSets {
					// flags of the same name would hide each other; rename
					r2 := clone(o2)
					for i := range r2 {
						if !r2[i].arg() {
							r2[i].name = map[string]string{"f": "h", "g": "i"}[r2[i].name]
						}
					}
					for _, side := range []bool{false, true} {
						for _, w1 := range withs {
							for _, w2 := range withs {
								one("two", &pipeCase{root: &pCmd{name: "app", opts: fill(o1, w1), with: w1, side: side,
									next: &pCmd{name: "sub", opts: fill(r2, w2), with: w2, side: side && noArgs(r2)}}})
							}
						}
					}
					if !noArgs(o2) {
						continue
					}
					for _, o3 := range optSets {
						r3 := clone(o3)
						for i := range r3 {
							if !r3[i].arg() {
								r3[i].name = map[string]string{"f": "j", "g": "k"}[r3[i].name]
							}
						}
						if len(o1) > 1 || len(o2) > 1 {
							if !x.Thorough {
								continue
							}
						}
						one("three", &pipeCase{root: &pCmd{name: "app", opts: fill(o1, all), with: all,
							next: &pCmd{name: "sub", opts: fill(r2, all), with: all,
								next: &pCmd{name: "leaf", opts: fill(r3, all), with: all}}}})
					}
				}
			}
			// hooks
			var hs []pHook
			for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.AfterTiming} {
				for _, pat := range []string{"", "*", "-", "<>", "-f", "sub", "sub -h", "<a>", "app * -"} {
					for owner := 0; owner < 2; owner++ {
						if pat == "" && tm == cli.InitialTiming {
							continue
						}
						hs = append(hs, pHook{owner, tm, pat})
					}
				}
			}
			tree := func() *pCmd {
				return &pCmd{name: "app", with: "uBAZ", opts: []pOpt{{"f", true, "uBAZ"}},
					next: &pCmd{name: "sub", with: "uBAZ", opts: []pOpt{{"h", false, "uBAZ"}, {"<a>", true, "uBAZ"}}}}
			}
			for i, h := range hs {
				one("hook", &pipeCase{root: tree(), hooks: []pHook{h}})
				one("hook1", &pipeCase{root: &pCmd{name: "app", with: "uBAZ", opts: []pOpt{{"f", true, "uBAZ"}}}, hooks: []pHook{{0, h.timing, h.pattern}}})
				for j, h2 := range hs {
					if !x.Thorough && (i+j)%3 != 0 && h.timing != h2.timing {
						continue
					}
					one("hooks", &pipeCase{root: tree(), hooks: []pHook{h, h2}})
				}
			}
			// hooks and pipelines in long chains of commands
			names := []string{"app", "sub", "c2", "c3", "c4", "c5", "c6"}
			most := 6
			if x.Thorough {
				most = 7
			}
			for n := 4; n <= most; n++ {
				chain := func() *pCmd {
					var c *pCmd
					for i := n - 1; i >= 0; i-- {
						c = &pCmd{name: names[i], with: "uBAZ", next: c}
						if i == n-1 {
							c.opts = []pOpt{{"f", true, "uBAZ"}, {"<a>", true, "BAZ"}}
						} else if i == 1 {
							c.opts = []pOpt{{"h", i%2 == 0, "BAZ"}}
						}
					}
					return c
				}
				one("long", &pipeCase{root: chain()})
				for owner := 0; owner < n; owner++ {
					for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.AfterTiming} {
						for _, pat := range []string{"", "*", "-", "<>", "c3", "c2 c3", "app sub c2 c3"} {
							if pat == "" && tm == cli.InitialTiming {
								continue
							}
							one("long", &pipeCase{root: chain(), hooks: []pHook{{owner, tm, pat}}})
						}
					}
				}
			}
		},
	})
}
