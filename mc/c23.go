package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Errors: their code, name, message and the status the process exits with.

// Exit

var (
	exitPlain = errors.New("plain")
	exitInner = cli.Exit("inner", 7)
	exitParse = &cli.ParseError{Code: cli.MissingArgument, Name: "n"}
)

var errCodeText = map[cli.ErrorCode]string{
	cli.UnexpectedArgument: "unexpected argument", cli.CommandNotFound: "is not a command", cli.UnknownOption: "unknown option",
	cli.MissingArgument: "missing parameter", cli.InvalidArgument: "parameter not valid", cli.ExpectedArgument: "expected argument",
	cli.UnknownExpr: "unknown expression", cli.ArgsMustPrecedeExprs: "arguments must precede expressions",
	cli.FlagUsedAfterArgs: "flag used after arguments", cli.ExpectedRequiredOption: "is required and must be specified",
}

func exitModel(args []any) (msg string, code int, same error) {
	code = 1
	if len(args) == 1 {
		switch a := args[0].(type) {
		case cli.ErrorCode:
			return errCodeText[a], 2, nil
		case cli.ExitCoder:
			return "", 0, a
		case nil:
			args = nil
		}
	}
	if len(args) > 0 {
		switch l := args[len(args)-1].(type) {
		case int:
			code = l
			args = args[:len(args)-1]
		case cli.ErrorCode:
			return errCodeText[l] + ": " + sprint(args[:len(args)-1]), 2, nil
		}
	}
	msg = sprint(args)
	if msg == "" {
		msg = fmt.Sprintf("exited with status %d", code)
	}
	return
}

// sprint is the documented joining of operands: spaces are added between
// operands when neither is a string
func sprint(args []any) string {
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(string)
			_, s2 := args[i-1].(string)
			if !s1 && !s2 {
				b.WriteString(" ")
			}
		}
		fmt.Fprintf(&b, "%v", a)
	}
	return b.String()
}

func exitCase(t *T, args []any) {
	err := cli.Exit(args...)
	msg, code, same := exitModel(args)
	if same != nil {
		if err != same {
			t.Failf("Exit gives %v, not the error given", err)
		}
		return
	}
	t.Eq("message", err.Error(), msg)
	t.Eq("status", err.ExitCode(), code)
	t.State(fmt.Sprint(err.Error(), code))
}

// runs that fail

type runFault struct {
	place string
	err   int
}

var runPlaces = []string{"none", "uses", "before", "action", "after", "flag", "flag-uses", "arg", "validator", "subaction", "subbefore", "subafter", "opt-initializer", "completed"}

func runErr(n int) error {
	switch n {
	case 0:
		return exitPlain
	case 1:
		return cli.Exit("with status", 3)
	case 2:
		return cli.Exit("fine", 0)
	case 3:
		return cli.Exit(42)
	case 4:
		return cli.Exit(cli.MissingArgument)
	case 5:
		return &cli.ParseError{Code: cli.UnknownExpr, Name: "x", Err: errors.New("100% wrong")}
	case 6:
		return cli.Exit("")
	case 7:
		return cli.Exit(255)
	case 8:
		return exitCodeErr{5}
	case 9:
		return cli.Exit(0)
	}
	return nil
}

type exitCodeErr struct{ n int }

func (e exitCodeErr) Error() string { return "" }
func (e exitCodeErr) ExitCode() int { return e.n }

func (f runFault) app(err error, done *[]string) (*cli.App, []string) {
	at := func(p string) cli.Action {
		return cli.ActionOf(func() error {
			*done = append(*done, p)
			if f.place == p {
				return err
			}
			return nil
		})
	}
	app := &cli.App{
		Name: "app", Uses: at("uses"), Before: at("before"), Action: at("action"), After: at("after"),
		Flags: []*cli.Flag{{Name: "flag", Uses: at("flag-uses"), Action: at("flag")}, {Name: "val"}},
		Args:  []*cli.Arg{{Name: "arg", NArg: 1, Action: at("arg")}},
	}
	if f.place == "validator" {
		app.Flags[1].Uses = cli.ValidatorFunc(func([]string) error { return err })
	}
	if f.place == "opt-initializer" {
		app.Flags[1].Uses = cli.ActionOf(func() error { return err })
	}
	line := []string{"--flag", "v", "--val", "w", "a"}
	if strings.HasPrefix(f.place, "sub") {
		app.Args = nil
		app.Commands = []*cli.Command{{Name: "sub", Before: at("subbefore"), Action: at("subaction"), After: at("subafter")}}
		line = []string{"--flag", "v", "sub"}
	}
	return app, line
}

func (f runFault) expect(err error) error {
	if f.place == "none" || f.place == "completed" {
		return nil
	}
	return err
}

func runFaultCase(t *T, f runFault) {
	err := runErr(f.err)
	want := f.expect(err)
	var done []string
	app, line := f.app(err, &done)
	r := runApp(app, line...)
	t.Eq("panic", r.Panic, nil)
	checkSame := func(what string, got error) {
		if want == nil {
			t.Eq(what, got, nil)
			return
		}
		if f.place == "validator" {
			// wrapped so that the name of the flag is known, unless it is an error of parsing
			if got == nil || !errors.Is(got, err) {
				t.Failf("%s: %v is not %v", what, got, err)
			}
			return
		}
		if got != err {
			t.Failf("%s: %T %v is not the error returned, %v", what, got, got, err)
		}
	}
	checkSame("RunContext", r.Error)

	// Run gives the error to the exit handler
	var calls []string
	cli.ExitHandler = func(c *cli.Context, msg string, status int) {
		if c == nil || c.App() == nil {
			t.Failf("the exit handler has no app")
		}
		calls = append(calls, fmt.Sprintf("%q %d", msg, status))
	}
	defer func() { cli.ExitHandler = nil }()
	app, line = f.app(err, &done)
	var out bytes.Buffer
	app.Stdout, app.Stderr = &out, &out
	app.Run(append([]string{"app"}, line...))
	var exp []string
	if want != nil {
		status := 1
		switch f.err {
		case 1:
			status = 3
		case 2, 9:
			status = 0
		case 3:
			status = 42
		case 4, 5:
			status = 2
		case 7:
			status = 255
		case 8:
			status = 5
		}
		if f.place == "validator" {
			status = 2
		}
		exp = append(exp, fmt.Sprintf("%q %d", r.Error.Error(), status))
	}
	t.Eq("exit handler", fmt.Sprint(calls), fmt.Sprint(exp))
	t.Eq("output", out.String(), "")
	t.Eq("current app after the run", cli.CurrentApp() == nil, true)
	t.State(fmt.Sprint(calls))
}

// the default handler, in a process of its own

func exitDemo(spec string) {
	var f runFault
	var where string
	if _, err := fmt.Sscanf(spec, "%s %s %d", &where, &f.place, &f.err); err != nil {
		panic(err)
	}
	var done []string
	app, line := f.app(runErr(f.err), &done)
	var buf bytes.Buffer
	if where == "buf" {
		app.Stderr = &buf
	}
	app.Run(append([]string{"app"}, line...))
	fmt.Println("still running")
}

func exitProcess(t *T, f runFault, where string) {
	exe, err := os.Executable()
	if err != nil {
		t.Fatalf("%v", err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(scrubEnv(os.Environ()), fmt.Sprintf("MC_EXIT_DEMO=%s %s %d", where, f.place, f.err))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	runErr2 := cmd.Run()
	status := cmd.ProcessState.ExitCode()
	_ = runErr2
	e := runErr(f.err)
	if f.expect(e) == nil {
		t.Eq("status", status, 0)
		t.Eq("stdout", out.String(), "still running\n")
		t.Eq("stderr", errb.String(), "")
		return
	}
	want := 1
	var c cli.ExitCoder
	if errors.As(e, &c) {
		want = c.ExitCode()
	}
	if f.place == "validator" {
		want = 2
	}
	text := e.Error()
	if text != "" && want != 0 {
		text += "\n"
	} else {
		text = ""
	}
	if where == "buf" {
		text = ""
	}
	t.Eq("status", status, want)
	t.Eq("stdout", out.String(), "")
	t.Eq("stderr", errb.String(), text)
}

// errors of command lines, in all places

type lineFault struct {
	toks   []string
	last   bool // nothing may follow
	argCmd int  // 0 any command, 1 those without sub-commands, 2 those with
	code   cli.ErrorCode
	name   string
	value  string
	left   []string // Remaining before what follows, nil when nothing is left
	msg    string
}

func lineFaults() (res []lineFault) {
	bad := func(name, text, msg string, types ...string) {
		for _, v := range []lineFault{
			{toks: []string{"--" + name, text}, name: "--" + name},
			{toks: []string{"--" + name + "=" + text}, name: "--" + name},
		} {
			if v.toks[0] == "--"+name && (text == "" || text[0] == '-') {
				continue // a flag of its own
			}
			v.code, v.value, v.msg = cli.InvalidArgument, text, msg
			res = append(res, v)
		}
	}
	for _, k := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bigint", "bigfloat"} {
		if k == "bigint" || k == "bigfloat" {
			bad(k, "x", "")
			continue
		}
		bad(k, "x", "not a valid number: x")
		bad(k, "", "empty string is not a valid number")
	}
	bad("int", "9223372036854775808", "value out of range: 9223372036854775808")
	bad("int8", "128", "value out of range: 128")
	bad("uint16", "65536", "value out of range: 65536")
	bad("uint64", "18446744073709551616", "value out of range: 18446744073709551616")
	bad("float64", "1e999", "value out of range: 1e999")
	bad("float32", "100%s", "not a valid number: 100%s")
	bad("duration", "5 moons", "")
	bad("url", "%zz", "")
	bad("ip", "1.2.3", "")
	bad("regexp", "(", "")
	res = append(res,
		lineFault{toks: []string{"--bool=maybe"}, code: cli.InvalidArgument, name: "--bool", value: "maybe", msg: `invalid value for bool "maybe"`},
		lineFault{toks: []string{"-i", "x"}, code: cli.InvalidArgument, name: "--int", value: "x", msg: "not a valid number: x"},
		lineFault{toks: []string{"-ix"}, code: cli.InvalidArgument, name: "--int", value: "x", msg: "not a valid number: x"},
		lineFault{toks: []string{"-bix"}, code: cli.InvalidArgument, name: "--int", value: "x", msg: "not a valid number: x"},
		lineFault{toks: []string{"--enum", "z"}, code: cli.InvalidArgument, name: "--enum", msg: "unrecognized value \"z\" for --enum, expected `a', `b', or `c'"},
		lineFault{toks: []string{"--enum2", "z"}, code: cli.InvalidArgument, name: "--enum2", msg: "unrecognized value \"z\" for --enum2, expected `a' or `b'"},
		lineFault{toks: []string{"--valid", "z"}, code: cli.InvalidArgument, name: "--valid", msg: "not 100%"},
		lineFault{toks: []string{"--zz"}, code: cli.UnknownOption, name: "--zz", left: []string{"--zz"}, msg: "unknown option: --zz"},
		lineFault{toks: []string{"--zz=v"}, code: cli.UnknownOption, name: "--zz", left: []string{"--zz=v"}, msg: "unknown option: --zz"},
		lineFault{toks: []string{"-z"}, code: cli.UnknownOption, name: "-z", left: []string{"-z"}, msg: "unknown option: -z"},
		lineFault{toks: []string{"-bzi"}, code: cli.UnknownOption, name: "-z", left: []string{"-zi"}, msg: "unknown option: -z"},
		lineFault{toks: []string{"-b=x"}, code: cli.InvalidArgument, name: "-b", value: "=x", left: []string{"-b=x"}, msg: "option -b does not take a value"},
		lineFault{toks: []string{"--int"}, last: true, code: cli.ExpectedArgument, name: "--int", left: []string{"--int"}, msg: "expected argument for --int"},
		lineFault{toks: []string{"-i"}, last: true, code: cli.ExpectedArgument, name: "--int", left: []string{"-i"}, msg: "expected argument for --int"},
		lineFault{toks: []string{"zz"}, argCmd: 2, code: cli.CommandNotFound, name: "zz", left: []string{}, msg: `"zz" is not a command`},
		lineFault{toks: []string{"zz"}, argCmd: 1, code: cli.UnexpectedArgument, value: "zz", left: []string{"zz"}, msg: `unexpected argument "zz"`},
	)
	return
}

func errFlags() []*cli.Flag {
	var flags []*cli.Flag
	for _, k := range scalarKinds() {
		f := &cli.Flag{Name: k.name, Value: k.impl()}
		if k.name == "int" {
			f.Aliases = []string{"i"}
		}
		if k.name == "bool" {
			f.Aliases = []string{"b"}
		}
		flags = append(flags, f)
	}
	for name, v := range map[string]any{"duration": cli.Duration(), "url": cli.URL(), "ip": cli.IP(), "regexp": cli.Regexp(), "bigint": cli.BigInt(), "bigfloat": cli.BigFloat()} {
		if !slices.ContainsFunc(flags, func(f *cli.Flag) bool { return f.Name == name }) {
			flags = append(flags, &cli.Flag{Name: name, Value: v})
		}
	}
	flags = append(flags,
		&cli.Flag{Name: "string"},
		&cli.Flag{Name: "enum", Uses: cli.Enum("a", "b", "c")},
		&cli.Flag{Name: "enum2", Uses: cli.Enum("a", "b")},
		&cli.Flag{Name: "valid", Uses: cli.ValidatorFunc(func(s []string) error {
			if len(s) > 0 {
				return errors.New("not 100%")
			}
			return nil
		})})
	return flags
}

func lineFaultCase(t *T, path []string, pre, post []string, f lineFault) {
	leaf := &cli.Command{Name: "leaf", Flags: errFlags()}
	sub := &cli.Command{Name: "sub", Flags: errFlags(), Subcommands: []*cli.Command{leaf}}
	app := &cli.App{Name: "app", Flags: errFlags(), Commands: []*cli.Command{sub}}
	ran := false
	act := cli.ActionOf(func(*cli.Context) error { ran = true; return nil })
	app.Action, sub.Action, leaf.Action = act, act, act
	line := slices.Concat(path, pre, f.toks, post)
	r := runApp(app, line...)
	t.Eq("action ran", ran, false)
	p, ok := r.Error.(*cli.ParseError)
	if !ok {
		t.Fatalf("%T %v is not a ParseError", r.Error, r.Error)
	}
	t.Eq("code", p.Code, f.code)
	t.Eq("name", p.Name, f.name)
	t.Eq("value", p.Value, f.value)
	var left []string
	if len(f.left) > 0 {
		left = append(clone(f.left), post...)
	}
	t.Eq("remaining", fmt.Sprintf("%q", p.Remaining), fmt.Sprintf("%q", left))
	if f.msg != "" {
		t.Eq("message", p.Error(), f.msg)
	}
	t.Eq("status", p.ExitCode(), 2)
	t.State(p.Error() + p.Name)
}

// several values are wrong: one of them is reported, always the same
func severalWrong(t *T, names []string, enum bool) {
	var line []string
	for _, n := range names {
		line = append(line, "--"+n, "bad-"+n)
	}
	first := ""
	for i := range 12 {
		app := &cli.App{}
		for _, n := range []string{"d", "b", "c", "a", "e"} {
			app.Flags = append(app.Flags, &cli.Flag{Name: "f" + n, Value: new(int)})
		}
		r := runApp(app, line...)
		p, ok := r.Error.(*cli.ParseError)
		if !ok {
			t.Fatalf("error %v", r.Error)
		}
		if !slices.Contains(names, strings.TrimPrefix(p.Name, "--")) || p.Value != "bad-"+strings.TrimPrefix(p.Name, "--") {
			t.Failf("error %v is about %q", p, p.Name)
		}
		if i > 0 && p.Error() != first {
			t.Failf("reported %q and then %q", first, p.Error())
		}
		first = p.Error()
	}
}

// parse errors made by the user
func parseErrCase(t *T, code cli.ErrorCode, inner error, name, value string) {
	p := &cli.ParseError{Code: code, Err: inner, Name: name, Value: value}
	t.Eq("status", p.ExitCode(), 2)
	text, ok := errCodeText[code]
	if !ok {
		text = "unknown error"
	}
	t.Eq("text of the code", code.String(), text)
	if inner != nil {
		text = inner.Error()
	}
	t.Eq("text", p.Error(), text)
	t.Eq("inner", errors.Unwrap(p), inner)
	if inner != nil && !errors.Is(fmt.Errorf("w: %w", p), inner) {
		t.Failf("the inner error is not found")
	}
}

// too late: errors of the library's use
func internalErr(t *T, depth int, timing string, act string) {
	var inner cli.Action
	want := "too late"
	switch act {
	case "addflag":
		inner = cli.AddFlag(&cli.Flag{Name: "z"})
	case "addarg":
		inner = cli.AddArg(&cli.Arg{Name: "z"})
	case "addcommand":
		inner = cli.AddCommand(&cli.Command{Name: "z"})
	case "uses":
		inner = cli.Setup{Uses: func() {}}
	case "before":
		inner = cli.Before(cli.ActionOf(func() {}))
	case "initializer":
		inner = cli.At(cli.InitialTiming, cli.ActionOf(func() {}))
	}
	_ = want
	var got error
	var ctxErr string
	do := cli.ActionOf(func(c *cli.Context) error {
		got = c.Do(inner)
		ctxErr = fmt.Sprintf("%q (%v)", c.Path().String(), c.Timing().Describe())
		return got
	})
	leaf := &cli.Command{Name: "leaf"}
	sub := &cli.Command{Name: "sub", Subcommands: []*cli.Command{leaf}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	set := func(uses, before, action, after *any) {
		*map[string]*any{"uses": uses, "before": before, "action": action, "after": after}[timing] = do
	}
	line := []string{}
	switch depth {
	case 0:
		set(&app.Uses, &app.Before, &app.Action, &app.After)
	case 1:
		set(&sub.Uses, &sub.Before, &sub.Action, &sub.After)
		line = []string{"sub"}
	case 2:
		set(&leaf.Uses, &leaf.Before, &leaf.Action, &leaf.After)
		line = []string{"sub", "leaf"}
	}
	r := runApp(app, line...)
	late := timing != "uses"
	if act == "before" {
		late = timing == "action" || timing == "after"
	}
	if !late {
		t.Eq("error", r.Error, nil)
		return
	}
	if r.Error == nil {
		t.Fatalf("accepted too late")
	}
	if r.Error != got {
		t.Failf("RunContext gives %v, Do gave %v", r.Error, got)
	}
	if !errors.Is(r.Error, cli.ErrTimingTooLate) {
		t.Failf("%v is not ErrTimingTooLate", r.Error)
	}
	var ie *cli.InternalError
	if !errors.As(r.Error, &ie) {
		t.Fatalf("%T is not an InternalError", r.Error)
	}
	t.Eq("where", fmt.Sprintf("%q (%v)", ie.Path.String(), ie.Timing.Describe()), ctxErr)
	t.Eq("path", ie.Path.String(), strings.Join([]string{"app", "app sub", "app sub leaf"}[depth:depth+1], ""))
	t.Eq("text", ie.Error(), "internal error, at "+ctxErr+": "+cli.ErrTimingTooLate.Error())
}

// an app within the action of another
func nestedRun(t *T, depth, failAt int) {
	var apps []*cli.App
	var log []string
	note := func(what string, i int) {
		cur := -1
		for j, a := range apps {
			if cli.CurrentApp() == a {
				cur = j
			}
		}
		log = append(log, fmt.Sprintf("%s%d:%d", what, i, cur))
	}
	for i := range depth {
		apps = append(apps, &cli.App{
			Name: fmt.Sprint("app", i),
			Uses: cli.ActionOf(func() { note("uses", i) }),
			Action: cli.ActionOf(func() error {
				note("action", i)
				var err error
				if i+1 < depth {
					err = apps[i+1].RunContext(context.Background(), []string{"x"})
				}
				note("done", i)
				if i == failAt {
					return exitPlain
				}
				return err
			}),
			After: cli.ActionOf(func() { note("after", i) }),
		})
	}
	err := apps[0].RunContext(context.Background(), []string{"x"})
	t.Eq("error", err != nil, failAt < depth)
	for _, l := range log {
		a, b, _ := strings.Cut(l, ":")
		if a[len(a)-1:] != b {
			t.Failf("in %s the current app is %s", a, b)
		}
	}
	t.Eq("current app at the end", cli.CurrentApp() == nil, true)
	t.State(fmt.Sprint(log))
}

func init() {
	if s := os.Getenv("MC_EXIT_DEMO"); s != "" {
		exitDemo(s)
		os.Exit(0)
	}
	register(&Prop{
		ID: "C23",
		Bound: "all lists of up to 3 (4 when thorough) of 17 operands to Exit; 10 errors in 14 places of a run, with an exit handler and with the default one in a process of its own; 60 wrong fragments of command lines in 3 commands with all valid text of up to 2 (3) fragments before and 1 after; all sets of wrong flags in all orders; all codes of parse errors; " +
			"late actions in 3 commands and 4 timings; nested apps up to 4 deep",
		Assumptions: []string{"the message is not compared for values parsed by other packages"},
		Run: func(x *X) {
			ops := []any{"", "m", "a%sb", " ", 0, 1, 3, -1, cli.UnknownOption, cli.ExpectedRequiredOption, cli.UnexpectedArgument, exitInner, exitPlain, exitParse, nil, 2.5, true}
			depth := 3
			if x.Thorough {
				depth = 4
			}
			words(ops, 0, depth, func(w []any) {
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("exit|%#v", l) }, func(t *T) { exitCase(t, l) })
			})
			for _, p := range runPlaces {
				for e := range 10 {
					f := runFault{p, e}
					x.CaseS(fmt.Sprintf("run|%+v", f), func(t *T) { runFaultCase(t, f) })
					for _, where := range []string{"std", "buf"} {
						x.CaseS(fmt.Sprintf("process|%+v %s", f, where), func(t *T) { exitProcess(t, f, where) })
					}
				}
			}
			frag := [][]string{{"--int", "3"}, {"-b"}, {"--string", "zz"}, {"--bool=false"}, {"--enum", "a"}}
			for _, f := range lineFaults() {
				for _, path := range [][]string{nil, {"sub"}, {"sub", "leaf"}} {
					if f.argCmd == 1 && len(path) != 2 || f.argCmd == 2 && len(path) == 2 {
						continue
					}
					words(frag, 0, depth-1, func(pre [][]string) {
						l := slices.Concat(pre...)
						for _, post := range [][]string{nil, {"-b"}, {"--int", "4"}, {"--zz"}, {"--int", "y"}, {"tail"}} {
							if f.last && post != nil {
								continue
							}
							if slices.Contains(post, "tail") && !strings.Contains("unknown option", errCodeText[f.code]) {
								continue // an error of its own
							}
							if (slices.Contains(post, "--zz") || slices.Contains(post, "y")) && (f.code == cli.InvalidArgument && f.left == nil || f.code == cli.CommandNotFound) {
								continue // errors of parsing go first
							}
							x.Case(func() string { return fmt.Sprintf("line|%q %q %q %q", path, l, f.toks, post) }, func(t *T) {
								lineFaultCase(t, path, l, post, f)
							})
						}
					})
				}
			}
			perms([]string{"fa", "fb", "fc", "fd", "fe"}, func(p []string) {
				for n := 2; n <= len(p); n++ {
					l := clone(p[:n])
					x.Case(func() string { return fmt.Sprintf("several|%v %v", p, l) }, func(t *T) { severalWrong(t, l, false) })
				}
			})
			for code := -1; code < 12; code++ {
				for _, inner := range []error{nil, exitPlain, exitInner, errors.New("100%s")} {
					for _, name := range []string{"", "--n"} {
						for _, value := range []string{"", "v"} {
							x.Case(func() string { return fmt.Sprintf("parse-error|%d %v %q %q", code, inner, name, value) }, func(t *T) {
								parseErrCase(t, cli.ErrorCode(code), inner, name, value)
							})
						}
					}
				}
			}
			for depth := range 3 {
				for _, timing := range []string{"uses", "before", "action", "after"} {
					for _, act := range []string{"addflag", "addarg", "addcommand", "uses", "before", "initializer"} {
						x.CaseS(fmt.Sprintf("late|%d %s %s", depth, timing, act), func(t *T) { internalErr(t, depth, timing, act) })
					}
				}
			}
			for depth := 1; depth <= 4; depth++ {
				for fail := range 5 {
					x.CaseS(fmt.Sprintf("nested|%d %d", depth, fail), func(t *T) { nestedRun(t, depth, fail) })
				}
			}
		},
	})
}
