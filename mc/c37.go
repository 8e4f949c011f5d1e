package main

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
)

// Functions bound to flags and args in the main package, and setup functions

type fbKey struct{}

// fbHolder is what a function is called with by BindContext
type fbHolder struct{ log func(string) }

// fbBox is a value that is set indirectly
type fbBox struct {
	name string
	own  []string
	set  []string
}

func (b *fbBox) Set(s string) error { b.own = append(b.own, s); return nil }
func (b *fbBox) String() string     { return strings.Join(b.own, ",") }

var errBound = errors.New("bound function")

// fbType is a type that functions take
type fbType struct {
	name  string
	texts []string
	value func() any // what is to be the value of the flag
	bind  func(form string, log func(string), res func() error, constant bool) cli.Action
	zero  string
}

func fbT[T any](name string, value func() any, constant T, texts ...string) fbType {
	return fbType{name, texts, value, func(form string, log func(string), res func() error, c bool) cli.Action {
		var opt []T
		if c {
			opt = []T{constant}
		}
		switch form {
		case "context":
			return cli.BindContext(func(c context.Context) *fbHolder { return c.Value(fbKey{}).(*fbHolder) }, func(h *fbHolder, v T) error {
				h.log("call " + bndShow(v))
				return res()
			}, opt...)
		case "indirect":
			return cli.BindIndirect("box", func(b *fbBox, v T) error {
				b.set = append(b.set, bndShow(v))
				log(b.name + "call " + bndShow(v))
				return res()
			}, opt...)
		}
		return cli.Bind(func(v T) error { log("call " + bndShow(v)); return res() }, opt...)
	}, bndShow(constant)}
}

func fbTypes() []fbType {
	num := []string{"3", "300", "-1", "x", "70000"}
	return []fbType{
		fbT("bool", func() any { return new(bool) }, false, "true", "false", "x"),
		fbT("string", func() any { return new(string) }, "konst", "a", "", "@x"),
		fbT("[]string", func() any { return new([]string) }, []string{"k", "l"}, "a", "a,b", ""),
		fbT("int", func() any { return new(int) }, 42, num...),
		fbT("int8", func() any { return new(int8) }, int8(42), num...),
		fbT("int16", func() any { return new(int16) }, int16(42), num...),
		fbT("int32", func() any { return new(int32) }, int32(42), num...),
		fbT("int64", func() any { return new(int64) }, int64(42), num...),
		fbT("uint", func() any { return new(uint) }, uint(42), num...),
		fbT("uint8", func() any { return new(uint8) }, uint8(42), num...),
		fbT("uint16", func() any { return new(uint16) }, uint16(42), num...),
		fbT("uint32", func() any { return new(uint32) }, uint32(42), num...),
		fbT("uint64", func() any { return new(uint64) }, uint64(42), num...),
		fbT("float32", func() any { return new(float32) }, float32(4.5), "1.5", "1e99", "x"),
		fbT("float64", func() any { return new(float64) }, 4.5, "1.5", "1e99", "x"),
		fbT("duration", func() any { return new(time.Duration) }, time.Minute, "3s", "x"),
		fbT("file", func() any { return new(cli.File) }, &cli.File{Name: "k"}, "a.txt", ""),
		fbT("fileset", func() any { return new(cli.FileSet) }, &cli.FileSet{Files: []string{"k"}}, "a.txt", ""),
		fbT("map", func() any { return new(map[string]string) }, map[string]string{"k": "l"}, "a=b", "a=b,c=d", "x"),
		fbT("pair", func() any { return new(cli.NameValue) }, &cli.NameValue{Name: "k", Value: "l"}, "a=b", "a="),
		fbT("pairs", func() any { return new([]*cli.NameValue) }, []*cli.NameValue{{Name: "k", Value: "l"}}, "a=b", "a="),
		fbT("url", func() any { return new(*url.URL) }, &url.URL{Host: "k"}, "http://a/b", ":"),
		fbT("regexp", func() any { return new(*regexp.Regexp) }, regexp.MustCompile("k"), "a.b", "["),
		fbT("ip", func() any { return new(net.IP) }, net.IPv4(1, 2, 3, 4), "127.0.0.1", "x"),
		fbT("bigint", func() any { return new(*big.Int) }, big.NewInt(42), "12345678901234567890123", "x"),
		fbT("bigfloat", func() any { return new(*big.Float) }, big.NewFloat(4.5), "1.5", "x"),
		fbT("bytes", func() any { return new([]byte) }, []byte("k"), "ab", ""),
		fbT[*color.Mode]("mode", func() any { return new(color.Mode) }, new(color.Mode), "auto", "x"),
		fbT[*exec.ArgList]("arglist", func() any { return new(exec.ArgList) }, &exec.ArgList{}, ";"),
	}
}

var (
	fbForms = []string{"bind", "context", "indirect"}
	fbSites = []string{"flag", "arg", "sub flag", "persistent", "sub arg"}
	// how the value is given
	fbGiven = []string{"absent", "once", "twice", "each", "env", "implied env", "empty env", "implicit", "implied"}
)

// fbApp is an app with an option at the site, and the command line
func fbApp(site, given string, texts [2]string, mark func(string) cli.Action) (app *cli.App, opt *fbOption, line []string) {
	box := &cli.Flag{Name: "box", Value: new(fbBox)}
	app = &cli.App{Name: "app", Flags: []*cli.Flag{box}, Before: mark("before"), Action: mark("action"), After: mark("after")}
	sub := &cli.Command{Name: "sub", Before: mark("sub before"), Action: mark("sub action"), After: mark("sub after")}
	opt = &fbOption{}
	switch site {
	case "flag", "persistent":
		opt.flag = &cli.Flag{Name: "opt"}
		app.Flags = append(app.Flags, opt.flag)
	case "arg":
		opt.arg = &cli.Arg{Name: "opt"}
		app.Args = append(app.Args, opt.arg)
	case "sub flag":
		opt.flag = &cli.Flag{Name: "opt"}
		sub.Flags = append(sub.Flags, opt.flag)
	case "sub arg":
		opt.arg = &cli.Arg{Name: "opt"}
		sub.Args = append(sub.Args, opt.arg)
	}
	if site != "flag" && site != "arg" {
		app.Commands = append(app.Commands, sub)
		line = append(line, "sub")
	}
	n := map[string]int{"once": 1, "twice": 2, "each": 2}[given]
	for i := range n {
		if opt.flag != nil {
			line = append(line, "--opt="+texts[i])
		} else {
			line = append(line, texts[i])
		}
	}
	switch given {
	case "each":
		opt.options(cli.EachOccurrence)
	case "env", "empty env":
		opt.env("FB_ENV")
	case "implied env":
		opt.env("FB_ENV")
		opt.options(cli.ImpliedAction)
	case "implied":
		opt.options(cli.ImpliedAction)
	}
	return
}

// fbOption is a flag or arg
type fbOption struct {
	flag *cli.Flag
	arg  *cli.Arg
}

func (o *fbOption) options(v cli.Option) {
	if o.flag != nil {
		o.flag.Options |= v
	} else {
		o.arg.Options |= v
	}
}

func (o *fbOption) env(v string) {
	if o.flag != nil {
		o.flag.EnvVars = []string{v}
	} else {
		o.arg.EnvVars = []string{v}
	}
}

func (o *fbOption) value(v any) {
	if o.flag != nil {
		o.flag.Value = v
	} else {
		o.arg.Value = v
	}
}

// pipeline adds to one of the pipelines
func (o *fbOption) pipeline(at string, a cli.Action) {
	set := func(uses, before, action, after *any) {
		switch at {
		case "uses":
			*uses = a
		case "before":
			*before = a
		case "action":
			*action = a
		case "after":
			*after = a
		}
	}
	var u, b, c, d any
	set(&u, &b, &c, &d)
	as := func(x any) cli.Action {
		if x == nil {
			return nil
		}
		return x.(cli.Action)
	}
	if o.flag != nil {
		f := o.flag
		f.Uses, f.Before, f.Action, f.After = cli.Pipeline(f.Uses, as(u)), cli.Pipeline(f.Before, as(b)), cli.Pipeline(f.Action, as(c)), cli.Pipeline(f.After, as(d))
	} else {
		f := o.arg
		f.Uses, f.Before, f.Action, f.After = cli.Pipeline(f.Uses, as(u)), cli.Pipeline(f.Before, as(b)), cli.Pipeline(f.Action, as(c)), cli.Pipeline(f.After, as(d))
	}
}

// fbCall compares a bound function with an action that reads the value.
// v says whether a value is set, where in the option the function is bound, whether a constant
// is bound, and whether the function fails.
func fbCall(t *T, ty fbType, site, form, given string, texts [2]string, at string, preset, constant, fails bool) {
	run := func(control bool) (events []string, app *cli.App, err error, box *fbBox) {
		log := func(s string) { events = append(events, s) }
		mark := func(s string) cli.Action { return cli.ActionOf(func() { log(s) }) }
		app, opt, line := fbApp(site, given, texts, mark)
		box = app.Flags[0].Value.(*fbBox)
		if strings.HasSuffix(given, "env") {
			os.Setenv("FB_ENV", texts[0])
			defer os.Unsetenv("FB_ENV")
		}
		if given == "empty env" {
			os.Setenv("FB_ENV", "")
			defer os.Unsetenv("FB_ENV")
		}
		res := func() error {
			if fails {
				return errBound
			}
			return nil
		}
		flagVal := ty.value()
		if constant {
			flagVal = new(bool)
		}
		if control || preset {
			opt.value(flagVal)
		}
		if given == "implicit" || given == "implied" {
			opt.pipeline("uses", cli.ImplicitValue(func(*cli.Context) (string, bool) { return texts[0], true }))
		}
		var a cli.Action
		if control {
			a = cli.At(cli.ActionTiming, cli.ActionOf(func(c *cli.Context) error {
				if constant {
					log("call " + ty.zero)
				} else {
					log("call " + bndShow(c.Value("")))
				}
				return res()
			}))
		} else {
			a = ty.bind(form, log, res, constant)
		}
		opt.pipeline(at, a)
		opt.pipeline("before", mark("opt before"))
		opt.pipeline("action", mark("opt action"))
		opt.pipeline("after", mark("opt after"))
		app.Stdin = strings.NewReader("")
		var out strings.Builder
		app.Stdout, app.Stderr = &out, &out
		ctx := context.WithValue(context.Background(), fbKey{}, &fbHolder{log: log})
		err = app.RunContext(ctx, append([]string{"app"}, line...))
		return
	}
	want, _, wantErr, _ := run(true)
	got, _, err, box := run(false)
	t.Eq("error", errText(err), errText(wantErr))
	t.Eq("events", got, want)
	t.Eq("is the error of the function", errors.Is(err, errBound), errors.Is(wantErr, errBound))

	// how often
	calls := 0
	for _, e := range got {
		if strings.HasPrefix(e, "call ") {
			calls++
		}
	}
	most := 1
	switch given {
	case "absent", "empty env", "env", "implicit": // only ImpliedAction acts on an implicit value
		most = 0
	case "each":
		most = 2
	}
	if calls > most {
		t.Failf("called %d times", calls)
	}
	if fails && (calls > 1 || errors.Is(err, errBound) != (calls == 1)) {
		t.Failf("called %d times with error %v", calls, err)
	}
	if given == "implied env" && texts[0] == "" {
		most = 0 // as though it isn't set
	}
	if strings.HasPrefix(given, "implied") && most > 0 && err == nil && calls == 0 {
		// text that isn't accepted is left out
		v := ty.value()
		if constant {
			v = new(bool)
		}
		if r := runApp(&cli.App{Name: "app", Flags: []*cli.Flag{{Name: "opt", Value: v}}}, "--opt="+texts[0]); r.Error == nil {
			t.Failf("not called though the text is accepted")
		}
		most = 0
	}
	if err == nil && calls != most {
		t.Failf("called %d times, want %d", calls, most)
	}
	var own []string
	if form == "indirect" {
		for _, e := range want {
			if s, ok := strings.CutPrefix(e, "call "); ok {
				own = append(own, s)
			}
		}
	}
	t.Eq("what is set indirectly", box.set, own)
	t.Eq("the other option", len(box.own), 0)
	t.State(strings.Join(got, ","))
}

// fbShare uses the same action at several places
func fbShare(t *T, typ, form string, constant bool, targets []string, twice bool) {
	type call struct{ who, v string }
	var got []call
	var at string
	log := func(s string) { got = append(got, call{at, s}) }
	var ty fbType
	for _, i := range fbTypes() {
		if i.name == typ {
			ty = i
		}
	}
	a := ty.bind(form, log, func() error { return nil }, constant)
	var want []call
	text := map[string]string{"f": "1", "g": "2", "h": "3", "x": "4", "y": "5"}
	show := func(name string) string {
		if constant {
			return "call " + ty.zero
		}
		s := text[name]
		two := twice && (name == "f" || name == "h")
		switch typ {
		case "[]string":
			if two {
				return "call []string [" + s + " " + s + "0]"
			}
			return "call []string [" + s + "]"
		case "fileset":
			if two {
				return fmt.Sprintf("call fileset %q false", []string{s, s + "0"})
			}
			return fmt.Sprintf("call fileset %q false", []string{s})
		case "file":
			if two {
				s += "0"
			}
			return "call file " + s
		default:
			if two {
				s += "0"
			}
		}
		return "call " + typ + " " + s
	}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "box", Value: &fbBox{name: "app "}}}}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{{Name: "box", Value: &fbBox{name: "sub "}}}}
	sub.Before = cli.ContextValue(fbKey{}, &fbHolder{log: func(s string) { log("sub " + s) }})
	app.Commands = []*cli.Command{sub}
	var line, subline []string
	for _, tg := range targets {
		// what is known of the caller
		uses := cli.Pipeline(cli.At(cli.ActionTiming, cli.ActionOf(func() { at = tg })), a)
		s := text[tg]
		flag := func() (l []string) {
			if constant {
				return []string{"--" + tg}
			}
			l = []string{"--" + tg + "=" + s}
			if twice && (tg == "f" || tg == "h") {
				l = append(l, "--"+tg+"="+s+"0")
			}
			return
		}
		switch tg {
		case "f", "g":
			app.Flags = append(app.Flags, &cli.Flag{Name: tg, Uses: uses})
			line = append(line, flag()...)
		case "h":
			sub.Flags = append(sub.Flags, &cli.Flag{Name: tg, Uses: uses})
			subline = append(subline, flag()...)
		case "x", "y":
			sub.Args = append(sub.Args, &cli.Arg{Name: tg, NArg: 1, Uses: uses})
			if constant {
				s = "true"
			}
			subline = append(subline, s)
		}
		owner := ""
		if form != "bind" {
			// what the sub-command has in scope is its own
			owner = "app "
			if tg != "f" && tg != "g" {
				owner = "sub "
			}
		}
		want = append(want, call{tg, owner + show(tg)})
	}
	app.Stdin = strings.NewReader("")
	var out strings.Builder
	app.Stdout, app.Stderr = &out, &out
	ctx := context.WithValue(context.Background(), fbKey{}, &fbHolder{log: func(s string) { log("app " + s) }})
	err := app.RunContext(ctx, append(append(append([]string{"app"}, line...), "sub"), subline...))
	t.Eq("error", errText(err), "")
	multi := func(c []call) map[call]int {
		m := map[call]int{}
		for _, i := range c {
			m[i]++
		}
		return m
	}
	t.Eq("calls", multi(got), multi(want))
	t.State(fmt.Sprint(want))
}

// fbIndirect has several flags that set values of others
func fbIndirect(t *T, toks []string, mode int) {
	a, b, c := new(fbBox), new(fbBox), new(fbBox)
	add := func(v string) func(*fbBox, string) error {
		return func(x *fbBox, s string) error { x.set = append(x.set, v+s); return nil }
	}
	fa := &cli.Flag{Name: "alpha", Aliases: []string{"a"}, Value: a}
	fc := &cli.Flag{Name: "gamma", Value: c}
	ab := &cli.Arg{Name: "beta", Value: b, NArg: -2}
	names := map[string]any{"a": "alpha", "b": "beta", "c": "gamma"}
	switch mode {
	case 1: // other names
		names["a"], names["b"] = "a", "<beta>"
	case 2: // the option itself
		names["a"], names["c"] = fa, fc
	case 3: // position
		names["b"] = 0
	}
	sub := &cli.Command{Name: "sub", Args: []*cli.Arg{ab}, Flags: []*cli.Flag{fc}}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{
		{Name: "pa", Uses: cli.BindIndirect(names["a"], add("pa"))},
		fa,
		{Name: "ka", Uses: cli.BindIndirect(names["a"], func(x *fbBox, n int) error { x.set = append(x.set, fmt.Sprint("ka", n)); return nil }, 7)},
	}, Commands: []*cli.Command{sub}}
	sub.Flags = append(sub.Flags,
		&cli.Flag{Name: "sa", Uses: cli.BindIndirect(names["a"], add("sa"))},
		&cli.Flag{Name: "sb", Uses: cli.BindIndirect(names["b"], add("sb"))},
		&cli.Flag{Name: "sc", Uses: cli.BindIndirect(names["c"], add("sc"))},
		&cli.Flag{Name: "kb", Uses: cli.BindIndirect(names["b"], func(x *fbBox, n []string) error { x.set = append(x.set, "kb"+strings.Join(n, "")); return nil }, []string{"1", "2"})},
	)
	own := map[*fbBox][]string{}
	set := map[string]string{}
	count := map[string]int{}
	pre, post, last := []string{}, []string{}, []string{}
	for i, tk := range toks {
		v := fmt.Sprint("v", i)
		switch tk {
		case "pa":
			pre = append(pre, "--pa", v)
		case "ka":
			pre = append(pre, "--ka")
			v = ""
		case "a":
			pre = append(pre, "--alpha", v)
			own[a] = append(own[a], v)
		case "c":
			post = append(post, "--gamma", v)
			own[c] = append(own[c], v)
		case "x":
			last = append(last, v)
			own[b] = append(own[b], v)
		case "kb":
			post = append(post, "--kb")
			v = ""
		default:
			post = append(post, "--"+tk, v)
		}
		if tk != "a" && tk != "c" && tk != "x" {
			set[tk] = v
			count[tk]++
		}
	}
	r := runApp(app, append(append(append(pre, "sub"), post...), last...)...)
	t.Eq("error", errText(r.Error), "")
	want := map[*fbBox]map[string]int{a: {}, b: {}, c: {}}
	for tk := range count {
		x := map[string]*fbBox{"a": a, "b": b, "c": c}[tk[1:]]
		s := tk + set[tk]
		switch tk {
		case "ka":
			s = "ka7"
		case "kb":
			s = "kb12"
		}
		want[x][s]++
	}
	for n, x := range map[string]*fbBox{"alpha": a, "beta": b, "gamma": c} {
		t.Eq("set of "+n, bndMulti(x.set), want[x])
		t.Eq("texts of "+n, fmt.Sprint(x.own), fmt.Sprint(own[x]))
	}
	t.State(fmt.Sprint(a.set, b.set, c.set))
}

// fbSetup runs a setup function from a pipeline of some target
func fbSetup(t *T, which, target, stage string, prevent string, nested int) {
	var got []string
	var a cli.Action
	switch which {
	case "flag":
		a = cli.FlagSetup(func(f *cli.Flag) { got = append(got, "flag "+f.Name) })
	case "arg":
		a = cli.ArgSetup(func(f *cli.Arg) { got = append(got, "arg "+f.Name) })
	case "command":
		a = cli.CommandSetup(func(f *cli.Command) { got = append(got, "command "+f.Name) })
	}
	switch nested {
	case 1:
		a = cli.Pipeline(func() {}, cli.Pipeline(a))
	case 2:
		b := a
		a = cli.ActionOf(func(c *cli.Context) error { return c.Do(b) })
	case 3:
		a = cli.Setup{Uses: a}
	}
	flag := &cli.Flag{Name: "f", Value: new(bool)}
	arg := &cli.Arg{Name: "x", NArg: 1}
	sflag := &cli.Flag{Name: "g", Value: new(bool)}
	sarg := &cli.Arg{Name: "y", NArg: 1}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{sflag}, Args: []*cli.Arg{sarg}}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{flag}, Commands: []*cli.Command{sub}}
	line := []string{"-f", "sub", "-g", "Y"}
	if target == "arg" {
		app.Commands = nil
		app.Args = []*cli.Arg{arg}
		line = []string{"-f", "X"}
	}
	on := func(tg string, at string, a cli.Action) {
		switch tg {
		case "app":
			switch at {
			case "uses":
				app.Uses = cli.Pipeline(app.Uses, a)
			case "before":
				app.Before = a
			case "action":
				app.Action = a
			case "after":
				app.After = a
			}
		case "sub":
			switch at {
			case "uses":
				sub.Uses = cli.Pipeline(sub.Uses, a)
			case "before":
				sub.Before = a
			case "action":
				sub.Action = a
			case "after":
				sub.After = a
			}
		case "flag":
			(&fbOption{flag: flag}).pipeline(at, a)
		case "sub flag":
			(&fbOption{flag: sflag}).pipeline(at, a)
		case "arg":
			(&fbOption{arg: arg}).pipeline(at, a)
		case "sub arg":
			(&fbOption{arg: sarg}).pipeline(at, a)
		}
	}
	parent := map[string]string{"flag": "app", "arg": "app", "sub": "app", "sub flag": "sub", "sub arg": "sub"}
	var prevented bool
	switch {
	case prevent == "none":
	case prevent == "sibling":
		app.Flags = append(app.Flags, &cli.Flag{Name: "other", Value: new(bool), Options: cli.PreventSetup})
	case strings.HasSuffix(prevent, " action"):
		tg := strings.TrimSuffix(prevent, " action")
		on(tg, "uses", cli.ActionOf((*cli.Context).PreventSetup))
		for p := target; p != ""; p = parent[p] {
			prevented = prevented || p == tg
		}
	default: // option
		switch prevent {
		case "app":
			app.Options |= cli.PreventSetup
		case "sub":
			sub.Options |= cli.PreventSetup
		case "flag":
			flag.Options |= cli.PreventSetup
		case "sub flag":
			sflag.Options |= cli.PreventSetup
		case "arg":
			arg.Options |= cli.PreventSetup
		case "sub arg":
			sarg.Options |= cli.PreventSetup
		}
		for p := target; p != ""; p = parent[p] {
			prevented = prevented || p == prevent
		}
	}
	on(target, stage, a)
	r := runApp(app, line...)
	var want []string
	if stage == "uses" && !prevented {
		kind := strings.TrimPrefix(target, "sub ")
		if kind == "app" || kind == "sub" {
			kind = "command"
		}
		switch {
		case which == "command":
			n := "app"
			if strings.HasPrefix(target, "sub") {
				n = "sub"
			}
			want = []string{"command " + n}
		case which == kind:
			n := map[string]string{"flag": "f", "arg": "x", "sub flag": "g", "sub arg": "y"}[target]
			want = []string{which + " " + n}
		}
	}
	t.Eq("error", errText(r.Error), "")
	t.Eq("set up", got, want)
	t.State(fmt.Sprint(target, stage, prevented, got))
}

func init() {
	register(&Prop{
		ID:    "C37",
		Bound: "Bind, BindContext and BindIndirect of functions over 29 types x 5 places (flags and args of the app and of a subcommand, a flag of the app given after the subcommand) x 9 ways to be given or absent (command line once, twice, per occurrence; environment or other implicit value, with and without ImpliedAction) x texts it does and does not accept x Uses, Before or Action x with and without a value of its own or a constant x failing function; one action shared by every subset of 5 flags and args x 6 types; command lines of up to 4 (thorough 5) over flags that set 3 other values in 4 ways to name them; FlagSetup, ArgSetup and CommandSetup from 4 pipelines of 6 targets x 14 ways to prevent setup x 4 forms",
		Assumptions: []string{
			"the value a flag obtains from text is what C05 says; the pipeline an action in a pipeline runs in is what C08 says",
			"only from Uses does a bound function determine the type of the value, as a value is made for the flag before the others run",
			"EachOccurrence is for the types of the library and those with Copy; naming an option that does not exist, or whose value has another type, is misuse",
		},
		Run: func(x *X) {
			for _, ty := range fbTypes() {
				for _, site := range fbSites {
					for _, form := range fbForms {
						for _, given := range fbGiven {
							if given == "each" && (ty.name == "file" || ty.name == "fileset" || ty.name == "mode" || ty.name == "arglist") {
								continue // can't be copied
							}
							for v := range 16 {
								preset, constant, fails, uses := v&1 != 0, v&2 != 0, v&4 != 0, v&8 == 0
								ats := []string{"uses"}
								if !uses {
									ats = []string{"before", "action"}
									if !preset {
										continue
									}
								}
								texts := ty.texts
								if constant {
									texts = []string{"true"}
								}
								for i, s := range texts {
									if given == "absent" && i > 0 {
										break
									}
									if strings.HasSuffix(site, "arg") && strings.HasPrefix(s, "-") {
										continue // looks like a flag
									}
									others := []string{s}
									if given == "twice" || given == "each" {
										others = texts
									}
									for _, o := range others {
										if strings.HasSuffix(site, "arg") && strings.HasPrefix(o, "-") {
											continue
										}
										for _, at := range ats {
											x.Case(func() string {
												return fmt.Sprintf("call|%s %s %s %s %q %q %s %v %v %v", ty.name, site, form, given, s, o, at, preset, constant, fails)
											}, func(t *T) { fbCall(t, ty, site, form, given, [2]string{s, o}, at, preset, constant, fails) })
										}
									}
								}
							}
						}
					}
				}
			}
			for _, ty := range []string{"string", "[]string", "int", "uint8", "file", "fileset"} {
				for _, form := range fbForms {
					subsets([]string{"f", "g", "h", "x", "y"}, func(s []string) {
						perms(s, func(p []string) {
							l := clone(p)
							for v := range 3 {
								x.Case(func() string { return fmt.Sprintf("share|%s %s %v %d", ty, form, l, v) }, func(t *T) { fbShare(t, ty, form, v == 2, l, v == 1) })
							}
						})
					})
				}
			}
			n := 4
			if x.Thorough {
				n = 5
			}
			words([]string{"pa", "ka", "a", "sa", "sb", "sc", "kb", "c", "x"}, 0, n, func(w []string) {
				l := clone(w)
				for m := range 4 {
					x.Case(func() string { return fmt.Sprintf("indirect|%v %d", l, m) }, func(t *T) { fbIndirect(t, l, m) })
				}
			})
			targets := []string{"app", "sub", "flag", "arg", "sub flag", "sub arg"}
			for _, which := range []string{"flag", "arg", "command"} {
				for _, tg := range targets {
					for _, stage := range []string{"uses", "before", "action", "after"} {
						for _, p := range append([]string{"none", "sibling"}, targets...) {
							for _, act := range []string{"", " action"} {
								if act != "" && (p == "none" || p == "sibling") {
									continue
								}
								for nested := range 4 {
									if nested == 3 && stage != "uses" {
										continue
									}
									x.Case(func() string { return fmt.Sprintf("setup|%s %s %s %s%s %d", which, tg, stage, p, act, nested) },
										func(t *T) { fbSetup(t, which, tg, stage, p+act, nested) })
								}
							}
						}
					}
				}
			}
		},
	})
}
