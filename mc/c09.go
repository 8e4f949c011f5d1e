package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// When and how often the action of an option runs, and what it sees.

// copyVal is a user-defined value with the conventions Reset and Copy.
type copyVal struct{ items []string }

func (v *copyVal) Set(s string) error { v.items = append(v.items, s); return nil }
func (v *copyVal) String() string     { return "<" + strings.Join(v.items, "+") + ">" }
func (v *copyVal) Reset()             { v.items = nil }
func (v *copyVal) Copy() *copyVal     { return &copyVal{clone(v.items)} }

type occKind struct {
	name  string
	texts []string
	init  []string // occurrences the initial value amounts to
	mk    func(init bool) any
	// fold of occurrences of a flag, or tokens of an argument
	fold func(occs []string, merge, arg bool) string
	show func(v any) string
}

func occKinds() []occKind {
	join := func(occs []string) map[string]string {
		m := map[string]string{}
		for _, o := range occs {
			for _, p := range strings.Split(o, ",") {
				k, v, _ := strings.Cut(p, "=")
				m[k] = v
			}
		}
		return m
	}
	zeroOr := func(z string) func([]string, bool, bool) string {
		return func(occs []string, merge, arg bool) string {
			if len(occs) == 0 {
				return z
			}
			return occs[len(occs)-1]
		}
	}
	return []occKind{
		{"string", []string{"x", "y", ""}, []string{"init"}, func(i bool) any {
			s := new(string)
			if i {
				*s = "init"
			}
			return s
		}, func(occs []string, merge, arg bool) string {
			if len(occs) == 0 {
				return ""
			}
			if !merge && !arg {
				return occs[len(occs)-1]
			}
			s := ""
			for _, o := range occs {
				if s != "" {
					s += " "
				}
				s += o
			}
			return s
		}, func(v any) string { return v.(string) }},
		{"int", []string{"1", "-2", "0"}, []string{"7"}, func(i bool) any {
			s := new(int)
			if i {
				*s = 7
			}
			return s
		}, zeroOr("0"), func(v any) string { return fmt.Sprint(v) }},
		{"bool", []string{"true", "false"}, []string{"true"}, func(i bool) any { b := i; return &b },
			zeroOr("false"), func(v any) string { return fmt.Sprint(v) }},
		{"list", []string{"x", "y,z", "w"}, []string{"init"}, func(i bool) any {
			s := new([]string)
			if i {
				*s = []string{"init"}
			}
			return s
		}, func(occs []string, merge, arg bool) string {
			return q(strings.Split(strings.Join(occs, ","), ","))
		}, func(v any) string { return q(v.([]string)) }},
		{"map", []string{"a=1", "b=2,a=3", "b=4"}, []string{"i=0"}, func(i bool) any {
			m := map[string]string{}
			if i {
				m["i"] = "0"
			}
			return &m
		}, func(occs []string, merge, arg bool) string { return fmt.Sprint(join(occs)) },
			func(v any) string { return fmt.Sprint(v.(map[string]string)) }},
		{"namevalues", []string{"a=1", "b=2", "a=3"}, []string{"i=0"}, func(i bool) any {
			if i {
				return &[]*cli.NameValue{{Name: "i", Value: "0"}}
			}
			return &[]*cli.NameValue{}
		}, func(occs []string, merge, arg bool) string { return strings.Join(occs, ";") },
			func(v any) string {
				var s []string
				for _, n := range v.([]*cli.NameValue) {
					s = append(s, n.Name+"="+n.Value)
				}
				return strings.Join(s, ";")
			}},
		{"custom", []string{"x", "y"}, []string{"init"}, func(i bool) any {
			if i {
				return &copyVal{[]string{"init"}}
			}
			return &copyVal{}
		}, func(occs []string, merge, arg bool) string { return "<" + strings.Join(occs, "+") + ">" },
			func(v any) string { return v.(*copyVal).String() }},
	}
}

type eachCase struct {
	k           occKind
	occs        []string
	arg         bool
	init, merge bool
	fail        int // call that fails, from 1; 0 for none
	via         int // 0 field Action, 1 At(ActionTiming) in Uses, 2 Bind-like two actions, 3 At(ActionTiming) in Action, 4 At(ActionTiming) in Before, 5 Context.Action
	place       int // 0 app, 1 sub-command, 2 persistent flag used in the sub-command
}

func (e eachCase) String() string {
	return fmt.Sprintf("%s %q arg=%v init=%v merge=%v fail=%d via=%d place=%d", e.k.name, e.occs, e.arg, e.init, e.merge, e.fail, e.via, e.place)
}

func (e eachCase) run(t *T, each bool) {
	var got []string
	calls := 0
	act := func(c *cli.Context) error {
		calls++
		late := errors.Is(c.Before(cli.ActionOf(func() {})), cli.ErrTimingTooLate)
		got = append(got, fmt.Sprintf("%v %v %v ", c.Timing() == cli.ActionTiming, c.IsAction(), late)+fmt.Sprintf("%s named=%s raw=%q occ=%q n=%d,%d seen=%v", e.k.show(c.Value("")), e.k.show(c.Value("aa")), c.Raw(""), c.RawOccurrences(""), c.Occurrences(""), c.Occurrences("aa"), c.Seen("")))
		if calls == e.fail {
			return errInjected
		}
		return nil
	}
	final := "not run"
	end := func(c *cli.Context) {
		final = fmt.Sprintf("%s n=%d", e.k.show(c.Value("aa")), c.Occurrences("aa"))
	}
	var uses, before, action any
	switch e.via {
	case 3:
		action = cli.At(cli.ActionTiming, cli.ActionOf(act))
	case 4:
		before = cli.At(cli.ActionTiming, cli.ActionOf(act))
	case 5:
		action = func(c *cli.Context) error { return c.Action(cli.ActionOf(act)) }
	case 0:
		action = act
	case 1:
		uses = cli.At(cli.ActionTiming, cli.ActionOf(act))
	case 2:
		uses = cli.Action(cli.Setup{Action: act})
	}
	var opts cli.Option
	if each {
		opts |= cli.EachOccurrence
	}
	if e.merge {
		opts |= cli.Merge
	}
	var line []string
	var flags []*cli.Flag
	var args []*cli.Arg
	for _, o := range e.occs {
		if e.arg {
			line = append(line, o)
		} else {
			line = append(line, "--aa="+o)
		}
	}
	if e.arg {
		args = []*cli.Arg{{Name: "aa", Value: e.k.mk(e.init), NArg: cli.TakeUntilNextFlag, Options: opts, Uses: uses, Before: before, Action: action}}
		if len(line) > 0 {
			line = append([]string{"--"}, line...)
		}
	} else {
		flags = []*cli.Flag{{Name: "aa", Value: e.k.mk(e.init), Options: opts, Uses: uses, Before: before, Action: action}}
	}
	app := &cli.App{Action: end, Flags: flags, Args: args}
	switch e.place {
	case 1:
		app = &cli.App{Commands: []*cli.Command{{Name: "sub", Action: end, Flags: flags, Args: args}}}
		line = append([]string{"sub"}, line...)
	case 2:
		app = &cli.App{Flags: flags, Commands: []*cli.Command{{Name: "sub", Action: end}}}
		line = append([]string{"sub"}, line...)
	}
	r := runApp(app, line...)

	// model
	folds := e.occs
	if e.init && e.merge {
		folds = append(clone(e.k.init), folds...)
	}
	winning := ""
	switch {
	case len(e.occs) == 0 && e.init:
		winning = e.k.fold(e.k.init, true, e.arg)
	case len(e.occs) == 0 && e.k.name == "list":
		winning = q(nil)
	default:
		winning = e.k.fold(folds, e.merge, e.arg)
	}
	raw := func(os []string) (s []string) {
		for _, o := range os {
			if e.arg {
				s = append(s, "<aa>", o)
			} else {
				s = append(s, "--aa", o)
			}
		}
		return
	}
	var want []string
	n := len(e.occs)
	failed := false
	if each {
		for i, o := range e.occs {
			mine := []string{o}
			if e.merge {
				mine = e.occs[:i+1]
			}
			want = append(want, "true true true "+fmt.Sprintf("%s named=%s raw=%q occ=%q n=%d,%d seen=true", e.k.fold(mine, e.merge, e.arg), winning, raw(e.occs[i:i+1]), []string{o}, n, n))
			if i+1 == e.fail {
				failed = true
				break
			}
		}
	} else if n > 0 {
		rw := raw(e.occs)
		if e.arg {
			rw = e.occs // an argument sees its tokens without its name
		}
		want = append(want, "true true true "+fmt.Sprintf("%s named=%s raw=%q occ=%q n=%d,%d seen=true", winning, winning, rw, e.occs, n, n))
		failed = e.fail == 1
	}
	t.Eq("calls", strings.Join(got, "\n"), strings.Join(want, "\n"))
	if failed {
		if !errors.Is(r.Error, errInjected) {
			t.Failf("error of the action: Run returns %v", r.Error)
		}
		t.Eq("after the error", final, "not run")
	} else {
		if r.Error != nil {
			t.Failf("fails with %v", r.Error)
		}
		t.Eq("command", final, fmt.Sprintf("%s n=%d", winning, n))
	}
	t.State(e.k.name, each, e.merge, e.arg, len(want), winning)
}

// --- the mirror flag of No

type noCase struct {
	pre, post []string
	init      bool
	place     int    // 0: flag and tokens in the app; 1: in the sub-command; 2: persistent flag, post in the sub-command
	env       string // "", "true", "false"
	extra     bool   // ImpliedAction
}

func (n noCase) String() string {
	return fmt.Sprintf("%q sub %q init=%v place=%d env=%q implied=%v", n.pre, n.post, n.init, n.place, n.env, n.extra)
}

func (n noCase) run(t *T) {
	os.Unsetenv("MC_NO")
	if n.env != "" {
		os.Setenv("MC_NO", n.env)
		defer os.Unsetenv("MC_NO")
	}
	v := n.init
	var got []string
	var opts = cli.No
	if n.extra {
		opts |= cli.ImpliedAction
	}
	f := &cli.Flag{Name: "flag", Aliases: []string{"f"}, Value: &v, Options: opts, EnvVars: []string{"MC_NO"},
		Before: func(c *cli.Context) { got = append(got, "before") },
		Action: func(c *cli.Context) { got = append(got, fmt.Sprint("action ", c.Bool(""), c.Bool("flag"), v)) },
		After:  func(c *cli.Context) { got = append(got, "after") },
	}
	end := func(c *cli.Context) {
		got = append(got, fmt.Sprint("end ", c.Bool("flag"), c.Bool('f'), v, c.Seen("flag"), c.Occurrences("flag")))
	}
	var app *cli.App
	var line []string
	switch n.place {
	case 0:
		app = &cli.App{Flags: []*cli.Flag{f}, Action: end}
		line = n.pre
	case 1:
		app = &cli.App{Commands: []*cli.Command{{Name: "sub", Flags: []*cli.Flag{f}, Action: end}}}
		line = append([]string{"sub"}, n.pre...)
	case 2:
		app = &cli.App{Flags: []*cli.Flag{f}, Commands: []*cli.Command{{Name: "sub", Action: end}}}
		line = append(append(clone(n.pre), "sub"), n.post...)
	}
	r := runApp(app, line...)
	if r.Error != nil {
		t.Fatalf("fails with %v", r.Error)
	}

	// model
	scan := func(ts []string) (yes int, no bool, val bool) {
		for _, tk := range ts {
			switch tk {
			case "--no-flag":
				no = true
			case "--flag=false":
				yes++
				val = false
			default:
				yes++
				val = true
			}
		}
		return
	}
	want := []string{"before"}
	val := n.init
	yes, no, x := scan(n.pre)
	implied := false
	if yes > 0 {
		val = x
	} else if n.env != "" {
		val = n.env == "true"
		implied = n.extra
	}
	if no {
		val = false
	}
	if yes > 0 || no || implied {
		want = append(want, fmt.Sprint("action ", val, val, val))
	}
	total := yes
	if n.place == 2 {
		y2, no2, x2 := scan(n.post)
		total += y2
		if y2 > 0 {
			val = x2
			want = append(want, fmt.Sprint("action ", val, val, val))
		} else if no2 {
			val = false
			want = append(want, fmt.Sprint("action ", val, val, val))
		}
	}
	want = append(want, fmt.Sprint("end ", val, val, val, total > 0, total), "after")
	t.Eq("events", strings.Join(got, "; "), strings.Join(want, "; "))
	t.State(want)
}

// --- Exits

func exitsRun(t *T, defs, used []string, failing string, kind int, place int) {
	var got []string
	errBoom := errors.New("boom")
	act := func(name string) any {
		return func(c *cli.Context) error {
			got = append(got, name)
			if name == failing {
				switch kind {
				case 1:
					return errBoom
				case 2:
					return cli.Exit("bye", 3)
				}
			}
			return nil
		}
	}
	var flags []*cli.Flag
	var args []*cli.Arg
	var line []string
	for _, d := range defs {
		var o cli.Option
		if strings.HasPrefix(d, "e") {
			o = cli.Exits
		}
		var a, u any = act(d), nil
		if strings.HasSuffix(d, "2") {
			a, u = nil, cli.At(cli.ActionTiming, cli.ActionOf(act(d)))
		}
		flags = append(flags, &cli.Flag{Name: d, Value: new(bool), Options: o, Action: a, Uses: u})
	}
	for _, u := range used {
		line = append(line, "--"+u)
	}
	app := &cli.App{Flags: flags, Args: args, Action: act("app")}
	want := "app"
	switch place {
	case 1:
		app.Commands = []*cli.Command{{Name: "sub", Action: act("app")}}
		line = append(line, "sub")
	case 2:
		app.Commands = []*cli.Command{{Name: "sub", Action: act("app")}}
		line = append([]string{"sub"}, line...)
	}
	r := runApp(app, line...)
	// model: flags in definition order
	var seq []string
	code, msg := -1, ""
	for _, d := range append(clone(defs), want) {
		isUsed := d == want
		for _, u := range used {
			isUsed = isUsed || u == d
		}
		if !isUsed {
			continue
		}
		seq = append(seq, d)
		if d == failing && kind == 1 {
			code, msg = -2, "boom"
			break
		}
		if d == failing && kind == 2 {
			code, msg = 3, "bye"
			break
		}
		if strings.HasPrefix(d, "e") {
			code = 0
			break
		}
	}
	t.Eq("actions run", q(got), q(seq))
	switch {
	case code == -1:
		if r.Error != nil {
			t.Failf("Run returns %v, want nil", r.Error)
		}
	case code == -2:
		if !errors.Is(r.Error, errBoom) {
			t.Failf("Run returns %v, want boom", r.Error)
		}
	default:
		var ec cli.ExitCoder
		if !errors.As(r.Error, &ec) || ec.ExitCode() != code || msg != "" && ec.Error() != msg {
			t.Failf("Run returns %v, want exit code %d %q", r.Error, code, msg)
		}
	}
	t.State(seq, code)
}

// --- what triggers an action

type trigCase struct {
	opts    []string // "trigger", "implied", "cmdimplied", "beforeTrigger", "appTrigger", "beforeSet"
	seen    int
	env     bool
	arg     bool
	sub     bool
	otherOn bool // another flag triggers it by its context
}

func (c trigCase) String() string {
	return fmt.Sprintf("%v seen=%d env=%v arg=%v sub=%v other=%v", c.opts, c.seen, c.env, c.arg, c.sub, c.otherOn)
}

func (tc trigCase) run(t *T) {
	os.Unsetenv("MC_TR")
	if tc.env {
		os.Setenv("MC_TR", "e")
		defer os.Unsetenv("MC_TR")
	}
	has := map[string]bool{}
	for _, o := range tc.opts {
		has[o] = true
	}
	var got []string
	act := func(c *cli.Context) { got = append(got, "o="+c.String("")) }
	var opts cli.Option
	var cmdOpts cli.Option
	var before []any
	var appBefore any
	if has["trigger"] {
		opts |= cli.Trigger
	}
	if has["implied"] {
		opts |= cli.ImpliedAction
	}
	if has["cmdimplied"] {
		cmdOpts |= cli.ImpliedAction
	}
	if has["beforeTrigger"] {
		before = append(before, (*cli.Context).Trigger)
	}
	if has["beforeSet"] {
		before = append(before, func(c *cli.Context) error {
			if c.Seen("") {
				return nil
			}
			return c.SetValue("b")
		})
	}
	if has["appTrigger"] {
		appBefore = func(c *cli.Context) error { return c.ContextOf("o").Trigger() }
	}
	other := &cli.Flag{Name: "other", Value: new(bool), Before: func(c *cli.Context) error {
		if c.Seen("") {
			return c.ContextOf("o").Trigger()
		}
		return nil
	}}
	flags := []*cli.Flag{other}
	var args []*cli.Arg
	var line []string
	for i := 0; i < tc.seen; i++ {
		if tc.arg {
			line = append(line, "c")
		} else {
			line = append(line, "-o", "c")
		}
	}
	if tc.otherOn {
		line = append([]string{"--other"}, line...)
	}
	if tc.arg {
		args = []*cli.Arg{{Name: "o", Value: new(string), NArg: 0, EnvVars: []string{"MC_TR"}, Options: opts, Before: cli.Pipeline(before...), Action: act}}
	} else {
		flags = append(flags, &cli.Flag{Name: "o", Value: new(string), EnvVars: []string{"MC_TR"}, Options: opts, Before: cli.Pipeline(before...), Action: act})
	}
	end := func() { got = append(got, "end") }
	app := &cli.App{Flags: flags, Args: args, Before: appBefore, Action: end, Options: cmdOpts}
	if tc.sub {
		app = &cli.App{Commands: []*cli.Command{{Name: "sub", Flags: flags, Args: args, Before: appBefore, Action: end, Options: cmdOpts}}}
		line = append([]string{"sub"}, line...)
	}
	r := runApp(app, line...)
	if r.Error != nil {
		t.Fatalf("fails with %v", r.Error)
	}
	val := ""
	switch {
	case tc.seen > 0:
		val = "c"
	case has["beforeSet"]:
		val = "b"
	case tc.env:
		val = "e"
	}
	var want []string
	if tc.seen > 0 || has["trigger"] || has["beforeTrigger"] || has["appTrigger"] || tc.otherOn ||
		tc.env && (has["implied"] || has["cmdimplied"]) {
		want = append(want, "o="+val)
	}
	want = append(want, "end")
	t.Eq("events", q(got), q(want))
	t.State(want, tc.opts)
}

// --- Recover

type recPanic struct {
	name string
	fn   func() error
	text string // "" when it doesn't panic
	err  error
}

func recPanics() []recPanic {
	return []recPanic{
		{"text", func() error { panic("boom") }, "boom", nil},
		{"percent", func() error { panic("100%d %s %!") }, "100%d %s %!", nil},
		{"error", func() error { panic(errInjected) }, "injected", nil},
		{"int", func() error { panic(42) }, "42", nil},
		{"runtime", func() error { var m []int; return fmt.Errorf("%d", m[len(m)]) }, "runtime error: index out of range [0] with length 0", nil},
		{"returns", func() error { return errInjected }, "", errInjected},
		{"ok", func() error { return nil }, "", nil},
	}
}

func recoverRun(t *T, p recPanic, where string, sub bool) {
	var got []string
	rec := cli.Recover(cli.ActionOf(func(*cli.Context) error {
		got = append(got, "it")
		return p.fn()
	}))
	at := func(w, before string) any {
		var a any
		if w == where {
			a = rec
		}
		if strings.HasSuffix(w, "Uses") {
			return a
		}
		return cli.Pipeline(func() { got = append(got, w+before) }, a, func() { got = append(got, w+">") })
	}
	app := &cli.App{Uses: at("app.Uses", ""), Before: at("app.Before", ""), Action: at("app.Action", ""), After: at("app.After", ""),
		Flags: []*cli.Flag{{Name: "flag", Value: new(bool), Uses: at("flag.Uses", ""), Before: at("flag.Before", ""), Action: at("flag.Action", ""), After: at("flag.After", "")}}}
	line := []string{"--flag"}
	if sub {
		app.Commands = []*cli.Command{{Name: "sub", Before: at("sub.Before", ""), Action: at("sub.Action", ""), After: at("sub.After", "")}}
		line = append(line, "sub")
	} else {
		app.Args = []*cli.Arg{{Name: "a", Value: new(string), Before: at("arg.Before", ""), Action: at("arg.Action", ""), After: at("arg.After", "")}}
		line = append(line, "x")
	}
	r := runApp(app, line...)
	var seq []string
	if sub {
		seq = []string{"app.Uses", "flag.Uses", "app.Before", "flag.Before", "flag.Action", "sub.Before", "sub.Action", "sub.After", "app.After", "flag.After"}
	} else {
		seq = []string{"app.Uses", "flag.Uses", "app.Before", "flag.Before", "arg.Before", "flag.Action", "arg.Action", "app.Action", "app.After", "flag.After", "arg.After"}
	}
	owner, _, _ := strings.Cut(where, ".")
	var want []string
	failed := false
	pending := false
	for i, s := range seq {
		uses := strings.HasSuffix(s, "Uses")
		if !uses {
			want = append(want, s)
		}
		if s == where {
			want = append(want, "it")
			if p.err != nil {
				failed = true
				break
			}
			pending = p.text != ""
		}
		if !uses {
			want = append(want, s+">")
		}
		// what was recovered is reported once the After pipelines of its
		// target (or a command below) are done
		o, _, _ := strings.Cut(s, ".")
		next := ""
		if i+1 < len(seq) {
			next, _, _ = strings.Cut(seq[i+1], ".")
		}
		_ = next
		if pending && strings.HasSuffix(s, "After") {
			if o == owner && o != "app" && o != "sub" || o == "sub" && (owner == "sub" || owner == "app") {
				break
			}
		}
	}
	t.Eq("events", q(got), q(want))
	if failed {
		if !errors.Is(r.Error, errInjected) {
			t.Failf("Run returns %v, want injected", r.Error)
		}
		return
	}
	if !pending {
		if r.Error != nil {
			t.Failf("Run returns %v", r.Error)
		}
		return
	}
	var ie *cli.InternalError
	if !errors.As(r.Error, &ie) || ie.Err == nil || ie.Err.Error() != p.text {
		t.Failf("Run returns %v, want an internal error with text %q", r.Error, p.text)
	}
	if !strings.Contains(r.Err, "goroutine") {
		t.Failf("the stack is not printed: %q", r.Err)
	}
	t.State(where, sub, p.name)
}

func init() {
	register(&Prop{
		ID: "C09",
		Bound: "EachOccurrence on and off for 7 value types as flag and argument, all sequences of up to 3 (thorough: 4) occurrences, with initial value, Merge, each call failing, 6 ways to give the action and 3 placements; " +
			"all lines of up to 3 (thorough: 4) of a flag and its mirror flag, split over a command and its sub-command; every order and use of exiting and other flags with each action failing; " +
			"every combination of triggers; a panic of 5 kinds recovered in each of 12 pipelines",
		Run: func(x *X) {
			max := 3
			if x.Thorough {
				max = 4
			}
			for _, k := range occKinds() {
				for _, arg := range []bool{false, true} {
					words(k.texts, 0, max, func(occs []string) {
						occs = clone(occs)
						for m := 0; m < 4; m++ {
							for via := 0; via < 6; via++ {
								for place := 0; place < 3; place++ {
									if place == 2 && arg {
										continue
									}
									for fail := 0; fail <= len(occs); fail++ {
										if fail > 0 && (via+place)%3 != 0 && !x.Thorough {
											continue
										}
										e := eachCase{k, occs, arg, m&1 == 1, m&2 == 2, fail, via, place}
										x.Case(func() string { return "each|" + e.String() }, func(t *T) { e.run(t, true) })
										if fail <= 1 {
											x.Case(func() string { return "once|" + e.String() }, func(t *T) { e.run(t, false) })
										}
									}
								}
							}
						}
					})
				}
			}
			toks := []string{"--flag", "--no-flag", "--flag=false", "-f"}
			words(toks, 0, max, func(line []string) {
				line = clone(line)
				for _, init := range []bool{false, true} {
					for _, env := range []string{"", "true", "false"} {
						for _, implied := range []bool{false, true} {
							for place := 0; place < 2; place++ {
								n := noCase{pre: line, init: init, place: place, env: env, extra: implied}
								x.Case(func() string { return "no|" + n.String() }, n.run)
							}
							for cut := 0; cut <= len(line); cut++ {
								n := noCase{pre: line[:cut], post: line[cut:], init: init, place: 2, env: env, extra: implied}
								both := 0
								for _, tk := range n.post {
									if tk == "--no-flag" {
										both |= 1
									} else {
										both |= 2
									}
								}
								if both == 3 {
									continue // which one wins in a sub-command is not specified
								}
								x.Case(func() string { return "no|" + n.String() }, n.run)
							}
						}
					}
				}
			})
			perms([]string{"e", "f", "e2", "g2"}, func(defs []string) {
				defs = clone(defs)
				subsets(defs, func(used []string) {
					used = clone(used)
					fs := append(clone(used), "app", "")
					for _, rev := range []bool{false, true} {
						u := clone(used)
						if rev {
							if len(u) < 2 {
								continue
							}
							for i, j := 0, len(u)-1; i < j; i, j = i+1, j-1 {
								u[i], u[j] = u[j], u[i]
							}
						}
						for _, failing := range fs {
							for kind := 1; kind <= 2; kind++ {
								for place := 0; place < 3; place++ {
									x.Case(func() string {
										return fmt.Sprintf("exits|%v used %v, %s fails %d, place %d", defs, u, failing, kind, place)
									}, func(t *T) { exitsRun(t, defs, u, failing, kind, place) })
								}
							}
						}
					}
				})
			})
			subsets([]string{"trigger", "implied", "cmdimplied", "beforeTrigger", "appTrigger", "beforeSet"}, func(os []string) {
				os = clone(os)
				for seen := 0; seen < 3; seen++ {
					for m := 0; m < 16; m++ {
						c := trigCase{os, seen, m&1 == 1, m&2 == 2, m&4 == 4, m&8 == 8}
						if c.arg && seen > 1 || c.env && strings.Contains(fmt.Sprint(os), "beforeSet") {
							continue
						}
						x.Case(func() string { return "trigger|" + c.String() }, c.run)
					}
				}
			})
			for _, p := range recPanics() {
				for _, sub := range []bool{false, true} {
					for _, where := range []string{"app.Uses", "app.Before", "app.Action", "app.After", "flag.Uses", "flag.Before", "flag.Action", "flag.After", "sub.Before", "sub.Action", "sub.After", "arg.Before", "arg.Action", "arg.After"} {
						if sub && (strings.HasPrefix(where, "arg") || where == "app.Action") || !sub && strings.HasPrefix(where, "sub") {
							continue
						}
						x.Case(func() string { return fmt.Sprintf("recover|%s in %s, sub=%v", p.name, where, sub) }, func(t *T) { recoverRun(t, p, where, sub) })
					}
				}
			}
		},
	})
}
