package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Constraints on options: Required, Mutex, Enum, ValidatorFunc.

type consCase struct {
	mutexX   []string // names that x excludes
	mutexL   []string // names that l (of the sub-command) excludes
	yy       string   // validators of yy in order: E (Enum), V (ValidatorFunc)
	file     string   // the same for the arg
	required []string
	nested   bool
}

func (cc *consCase) String() string {
	return fmt.Sprintf("x!%v l!%v yy:%s file:%s required=%v nested=%v", cc.mutexX, cc.mutexL, cc.yy, cc.file, cc.required, cc.nested)
}

var consEnum = []string{"a", "b%d", ""}

const consExpected = "expected `a', `b%d', or `'"

func consValidators(s string) cli.Action {
	var as []any
	for _, c := range s {
		switch c {
		case 'E':
			as = append(as, cli.Enum(consEnum...))
		case 'V':
			as = append(as, cli.ValidatorFunc(func(raw []string) error {
				if len(raw) > 1 {
					return fmt.Errorf("%d%% too many", len(raw))
				}
				return nil
			}))
		}
	}
	return cli.Pipeline(as...)
}

// consErr is what the model expects of the error
type consErr struct {
	code cli.ErrorCode
	name string
	text string
}

func consTake(name string) string {
	if len(name) == 1 {
		return "-" + name
	}
	if name == "file" {
		return "<file>"
	}
	return "--" + name
}

func consMutexText(name string, seen []string) string {
	names := make([]string, len(seen))
	for i := range seen {
		names[i] = "-" + seen[i]
		if len(seen[i]) > 1 {
			names[i] = "--" + seen[i]
		}
	}
	switch len(names) {
	case 1:
		return fmt.Sprintf("either %s or %s can be used, but not both", name, names[0])
	case 2:
		return fmt.Sprintf("can't use %s together with %s or %s", name, names[0], names[1])
	}
	y := len(names) - 1
	return fmt.Sprintf("can't use %s together with %s, or %s", name, strings.Join(names[:y], ", "), names[y])
}

// model gives the expected error (nil: none) and actions
func (cc *consCase) model(toks []string) (ev []string, err *consErr) {
	raw := map[string][]string{}
	here := map[string]bool{}
	nearest := map[string][]string{}
	value := func(name, kinds string) *consErr {
		for _, c := range kinds {
			switch c {
			case 'E':
				for _, o := range raw[name] {
					if !slices.Contains(consEnum, o) {
						return &consErr{cli.InvalidArgument, consTake(name), fmt.Sprintf("unrecognized value %q for %s, %s", o, consTake(name), consExpected)}
					}
				}
			case 'V':
				// the occurrences on the line of the nearest command
				n := len(nearest[name])
				if n > 1 {
					return &consErr{cli.InvalidArgument, consTake(name), fmt.Sprintf("%d%% too many", n)}
				}
			}
		}
		return nil
	}
	mutex := func(name string, excl []string) *consErr {
		var also []string
		for _, e := range excl {
			if len(raw[e]) > 0 {
				also = append(also, e)
			}
		}
		if len(raw[name]) > 0 && len(also) > 0 {
			return &consErr{0, "", consMutexText(consTake(name), also)}
		}
		return nil
	}
	needed := func(name string) *consErr {
		if slices.Contains(cc.required, name) && len(raw[name]) == 0 && !here["ex"] {
			return &consErr{cli.ExpectedRequiredOption, consTake(name), consTake(name) + " is required and must be specified"}
		}
		return nil
	}
	first := func(es ...*consErr) *consErr {
		for _, e := range es {
			if e != nil {
				return e
			}
		}
		return nil
	}
	use := func(line []string) {
		here = map[string]bool{}
		for _, tok := range line {
			n, v, _ := strings.Cut(strings.TrimLeft(tok, "-"), "=")
			if !strings.HasPrefix(tok, "-") {
				n, v = "file", tok
			}
			raw[n] = append(raw[n], v)
			if !here[n] {
				nearest[n] = nil
			}
			nearest[n] = append(nearest[n], v)
			here[n] = true
		}
	}
	act := func(names ...string) bool {
		for _, n := range names {
			if here[n] {
				ev = append(ev, n)
				if n == "ex" {
					return false
				}
			}
		}
		return true
	}
	root, sub, isSub := toks, []string(nil), false
	if i := slices.Index(toks, "s"); cc.nested && i >= 0 {
		root, sub, isSub = toks[:i], toks[i+1:], true
	}
	use(root)
	e := first(mutex("x", cc.mutexX), needed("x"), value("yy", cc.yy), needed("yy"), needed("z"))
	if !cc.nested {
		e = first(e, value("file", cc.file), needed("file"))
	}
	if e != nil {
		return nil, e
	}
	if !act("x", "yy", "z", "ex", "file") {
		return ev, nil
	}
	if !isSub {
		return append(ev, "app"), nil
	}
	use(sub)
	e = first(mutex("x", cc.mutexX), value("yy", cc.yy), mutex("l", cc.mutexL), needed("l"))
	if e != nil {
		return ev, e
	}
	if !act("x", "yy", "z", "ex", "l") {
		return ev, nil
	}
	return append(ev, "sub"), nil
}

func (cc *consCase) app(ev *[]string) *cli.App {
	act := func(n string) func() { return func() { *ev = append(*ev, n) } }
	opt := func(n string) (o cli.Option) {
		if slices.Contains(cc.required, n) {
			return cli.Required
		}
		return 0
	}
	mutex := func(names []string) cli.Action {
		if names == nil {
			return nil
		}
		return cli.Mutex(names...)
	}
	app := &cli.App{
		Name: "app",
		Flags: []*cli.Flag{
			{Name: "x", Value: new(bool), Uses: mutex(cc.mutexX), Options: opt("x"), Action: act("x")},
			{Name: "yy", Value: cli.List(), Uses: consValidators(cc.yy), Options: opt("yy"), Action: act("yy")},
			{Name: "z", Value: new(bool), Options: opt("z"), Action: act("z")},
			{Name: "ex", Value: new(bool), Options: cli.Exits, Action: act("ex")},
		},
		Action: act("app"),
	}
	if cc.nested {
		app.Commands = []*cli.Command{{
			Name: "s",
			Flags: []*cli.Flag{
				{Name: "l", Value: new(bool), Uses: mutex(cc.mutexL), Options: opt("l"), Action: act("l")},
			},
			Action: act("sub"),
		}}
	} else {
		app.Args = []*cli.Arg{
			{Name: "file", Value: cli.List(), NArg: cli.TakeExceptForFlags, Uses: consValidators(cc.file), Options: opt("file"), Action: act("file")},
		}
	}
	return app
}

func (cc *consCase) run(t *T, toks []string) {
	want, wantErr := cc.model(toks)
	var got []string
	r := runApp(cc.app(&got), toks...)
	t.Step(1)
	t.State("%v %v %v", got, errText(r.Error), cc)
	t.Eq("actions", strings.Join(got, " "), strings.Join(want, " "))
	if wantErr == nil {
		var ec cli.ExitCoder
		exited := errors.As(r.Error, &ec) && ec.ExitCode() == 0
		if exits := len(want) > 0 && want[len(want)-1] == "ex"; exits && !exited {
			t.Failf("error is %v, want exit with status 0", r.Error)
		} else if !exits && r.Error != nil {
			t.Failf("failed with %q, but nothing is wrong", r.Error)
		}
		return
	}
	if r.Error == nil {
		t.Failf("no error, want %q", wantErr.text)
		return
	}
	if wantErr.code == cli.ExpectedRequiredOption {
		// only that it says which one
		if !strings.Contains(r.Error.Error(), wantErr.name) {
			t.Failf("error %q does not name %s", r.Error, wantErr.name)
		}
	} else {
		t.Eq("error text", r.Error.Error(), wantErr.text)
	}
	if wantErr.code != 0 {
		var pe *cli.ParseError
		if !errors.As(r.Error, &pe) {
			t.Failf("error is a %T", r.Error)
			return
		}
		t.Eq("code", fmt.Sprint(pe.Code), fmt.Sprint(wantErr.code))
		t.Eq("name", pe.Name, wantErr.name)
	}
}

// consMirror: a flag with the option No is there if its mirror is, by each name in its synopsis
func consMirror(t *T, names []string, required, sub bool, line []string) {
	mk := func() (*cli.App, *cli.Flag, *[]string) {
		f := &cli.Flag{Name: names[0], Aliases: clone(names[1:]), Value: new(bool), Options: cli.No}
		if required {
			f.Options |= cli.Required
		}
		got := []string{}
		act := func(c *cli.Context) { got = append(got, fmt.Sprint(c.Bool(names[0]))) }
		if sub {
			return &cli.App{Commands: []*cli.Command{{Name: "sub", Flags: []*cli.Flag{f}, Action: act}}}, f, &got
		}
		return &cli.App{Flags: []*cli.Flag{f}, Action: act}, f, &got
	}
	app, f, got := mk()
	var args []string
	if sub {
		args = append(args, "sub")
	}
	r := runApp(app, append(args, line...)...)
	_, long, ok := strings.Cut(f.Synopsis(), "--[no-]")
	if !ok || long == "" {
		t.Failf("synopsis %q", f.Synopsis())
		return
	}
	known := map[string]bool{"--" + long: true, "--no-" + long: false, "--no-" + names[0]: false}
	for _, n := range names {
		known[dashed(n)], known["--"+n] = true, true
	}
	want, bad := "false", false
	for _, w := range line {
		v, ok := known[w]
		bad = bad || !ok
		if v && want != "no" {
			want = "true"
		} else if !v {
			want = "no"
		}
	}
	if want == "no" {
		want = "false"
	}
	if bad {
		t.Eq("fails for an unknown name", r.Error != nil, true)
		return
	}
	if required && len(line) == 0 {
		t.Eq("fails for the required flag", r.Error != nil, true)
		t.Eq("actions", len(*got), 0)
		return
	}
	t.Eq("error", errText(r.Error), "")
	t.Eq("value", *got, []string{want})
	t.State(names, required, line)
}

func init() {
	register(&Prop{
		ID: "C12",
		Bound: "apps with flags x (Mutex over every subset and order of yy, z, file), yy (no, one or both of Enum and a validator, in both orders), z, an exiting flag, an arg with the same validators, " +
			"and every choice of up to two required options; every command line up to 3 (thorough: 4) tokens of 8 " +
			"(used, twice used, valid, invalid, empty and % values); and apps with a sub-command with a local flag l excluding every subset of x, yy, with lines up to 4 (thorough: 5) tokens of 7 over both lines; flags with a mirror by 5 choices of names, required or not, on lines of up to 2 of 7 tokens",
		Assumptions: []string{"options with the features are list and bool flags and list arguments"},
		Run: func(x *X) {
			for _, names := range [][]string{{"color"}, {"c"}, {"c", "color"}, {"color", "c"}, {"color", "colour"}} {
				for v := range 4 {
					words([]string{"--color", "-c", "--no-color", "--no-c", "--colour", "--no-colour", "--c"}, 0, 2, func(w []string) {
						l := clone(w)
						x.Case(func() string { return fmt.Sprintf("mirror|%v %v %v %v", names, v&1 != 0, v&2 != 0, l) }, func(t *T) {
							consMirror(t, names, v&1 != 0, v&2 != 0, l)
						})
					})
				}
			}
			validators := []string{"", "E", "V", "EV", "VE"}
			n := 3
			if x.Thorough {
				n = 4
			}
			mutexes := func(names []string, fn func([]string)) {
				subsets(names, func(s []string) { perms(s, func(p []string) { fn(clone(p)) }) })
			}
			toks := []string{"-x", "--yy=a", "--yy=c%d", "--yy=", "-z", "--ex", "b%d", "g"}
			mutexes([]string{"yy", "z", "file"}, func(mx []string) {
				for _, yy := range validators {
					for _, file := range validators {
						if yy != file && yy != "" && file != "" {
							continue
						}
						subsets([]string{"x", "yy", "z", "file"}, func(req []string) {
							if len(req) > 2 {
								return
							}
							if len(mx) > 1 && (len(req) > 1 || yy != file) || !x.Thorough && len(mx) > 0 && len(req) > 0 && yy != "" {
								return
							}
							cc := &consCase{mutexX: mx, yy: yy, file: file, required: clone(req)}
							words(toks, 0, n, func(line []string) {
								l := clone(line)
								x.Case(func() string { return "flat|" + cc.String() + "|" + q(l) }, func(t *T) { cc.run(t, l) })
							})
						})
					}
				}
			})
			toks = []string{"-x", "--yy=a", "--yy=c%d", "-z", "--ex", "-l", "s"}
			mutexes([]string{"yy", "z"}, func(mx []string) {
				mutexes([]string{"x", "yy"}, func(ml []string) {
					for _, yy := range validators {
						for _, req := range [][]string{nil, {"l"}} {
							if (len(mx)+len(ml) > 1 || !x.Thorough && len(mx)+len(ml) > 0) && yy != "" && (yy != "EV" || !x.Thorough) {
								continue
							}
							cc := &consCase{mutexX: mx, mutexL: ml, yy: yy, required: req, nested: true}
							words(toks, 1, n+1, func(line []string) {
								i := slices.Index(line, "s")
								if i < 0 || slices.Index(line, "-l") >= 0 && slices.Index(line, "-l") < i || slices.Contains(line[i+1:], "s") {
									return
								}
								l := clone(line)
								x.Case(func() string { return "nested|" + cc.String() + "|" + q(l) }, func(t *T) { cc.run(t, l) })
							})
						}
					}
				})
			})
		},
	})
}
