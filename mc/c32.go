package main

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Binders: a function that is bound gets the values of the flags and args
// that its binders stand for, once, in the action timing.

// bndShow is the value in a way that can be compared
func bndShow(v any) string {
	switch v := v.(type) {
	case *cli.File:
		if v == nil {
			return "nil file"
		}
		return "file " + v.Name
	case *cli.FileSet:
		if v == nil {
			return "nil fileset"
		}
		return fmt.Sprintf("fileset %q %v", v.Files, v.Recursive)
	case *cli.NameValue:
		return fmt.Sprintf("pair %q=%q", v.Name, v.Value)
	case []*cli.NameValue:
		s := "pairs"
		for _, i := range v {
			s += fmt.Sprintf(" %q=%q", i.Name, i.Value)
		}
		return s
	}
	return fmt.Sprintf("%T %v", v, v)
}

// bndType is a type with the ways to obtain its binder
type bndType struct {
	name  string
	texts []string
	value func() any // the value that is implied
	// wire gives the app, where site is where the binder is used, and way is how
	// it was obtained
	call func(way string, got func(any), name ...any) cli.Action
	act  func(way string, got func(any), name ...any) cli.Action
	eval func(way string, got func(any), name ...any) expr.Evaluator
}

func bndT[T any](name string, typed func(...any) bind.Binder[T], value func() any, texts ...string) bndType {
	binder := func(way string, name []any) bind.Binder[T] {
		switch way {
		case "typed":
			if typed != nil {
				return typed(name...)
			}
		case "for":
			return bind.For[T](name...)
		case "exact":
			if len(name) == 0 {
				return bind.Exact[T]()
			}
		}
		return bind.Value[T](name...)
	}
	return bndType{name, texts, value,
		func(way string, got func(any), name ...any) cli.Action {
			return bind.Call(func(v T) error { got(v); return nil }, binder(way, name))
		},
		func(way string, got func(any), name ...any) cli.Action {
			return bind.Action(func(v T) cli.Action { return cli.ActionOf(func() { got(v) }) }, binder(way, name))
		},
		func(way string, got func(any), name ...any) expr.Evaluator {
			return bind.Evaluator(func(v T) expr.Evaluator {
				return expr.EvaluatorFunc(func(_ *cli.Context, _ any, y func(any) error) error { got(v); return nil })
			}, binder(way, name))
		}}
}

func bndTypes() []bndType {
	num := []string{"3", "300", "-1", "x", "70000"}
	return []bndType{
		bndT("bool", bind.Bool, func() any { return new(bool) }, "true", "false", "x"),
		bndT("string", bind.String, func() any { return new(string) }, "a", "", "@x"),
		bndT("[]string", bind.List, func() any { return new([]string) }, "a", "a,b", ""),
		bndT("int", bind.Int, func() any { return new(int) }, num...),
		bndT("int8", bind.Int8, func() any { return new(int8) }, num...),
		bndT("int16", bind.Int16, func() any { return new(int16) }, num...),
		bndT("int32", bind.Int32, func() any { return new(int32) }, num...),
		bndT("int64", bind.Int64, func() any { return new(int64) }, num...),
		bndT("uint", bind.Uint, func() any { return new(uint) }, num...),
		bndT("uint8", bind.Uint8, func() any { return new(uint8) }, num...),
		bndT("uint16", bind.Uint16, func() any { return new(uint16) }, num...),
		bndT("uint32", bind.Uint32, func() any { return new(uint32) }, num...),
		bndT("uint64", bind.Uint64, func() any { return new(uint64) }, num...),
		bndT("float32", bind.Float32, func() any { return new(float32) }, "1.5", "1e99", "x"),
		bndT("float64", bind.Float64, func() any { return new(float64) }, "1.5", "1e99", "x"),
		bndT("duration", bind.Duration, func() any { return new(time.Duration) }, "3s", "x"),
		bndT("file", bind.File, func() any { return new(cli.File) }, "a.txt", ""),
		bndT("fileset", bind.FileSet, func() any { return new(cli.FileSet) }, "a.txt", ""),
		bndT("map", bind.Map, func() any { return new(map[string]string) }, "a=b", "a=b,c=d", "x"),
		bndT("pair", bind.NameValue, func() any { return new(cli.NameValue) }, "a=b", "a="),
		bndT("pairs", bind.NameValues, func() any { return new([]*cli.NameValue) }, "a=b", "a="),
		bndT("url", bind.URL, func() any { return new(*url.URL) }, "http://a/b", ":"),
		bndT("regexp", bind.Regexp, func() any { return new(*regexp.Regexp) }, "a.b", "["),
		bndT("ip", bind.IP, func() any { return new(net.IP) }, "127.0.0.1", "x"),
		bndT("bigint", bind.BigInt, func() any { return new(*big.Int) }, "12345678901234567890123", "x"),
		bndT("bigfloat", bind.BigFloat, func() any { return new(*big.Float) }, "1.5", "x"),
		bndT("bytes", bind.Bytes, func() any { return new([]byte) }, "ab", ""),
		bndT[*color.Mode]("mode", nil, func() any { return new(color.Mode) }, "auto", "x"),
		bndT[*exec.ArgList]("arglist", nil, func() any { return new(exec.ArgList) }, ";"),
	}
}

// bndSites are where a binder is used: the target it is added to, and the
// name it is given, if any
var bndSites = []string{
	"flag", "arg", "app index", "app flag", "app arg", "app alias", "app target", "sub index", "sub flag", "sub persistent", "flag other", "flag later", "arg flag",
	"expr", "expr arg", "expr flag",
}

func bndSetup(t *T, ty bndType, site, way, form, text string, preset, uses bool) {
	var got []string
	get := func(v any) { got = append(got, bndShow(v)) }
	mk := func(name ...any) cli.Action {
		if form == "act" {
			return ty.act(way, get, name...)
		}
		return ty.call(way, get, name...)
	}
	flag := &cli.Flag{Name: "value", Aliases: []string{"v"}}
	arg := &cli.Arg{Name: "value", NArg: 1}
	var val any = ty.value()
	if preset {
		flag.Value, arg.Value = val, ty.value()
	}
	app := &cli.App{Name: "app"}
	set := func(u, a *any, act cli.Action) {
		if uses {
			*u = act
		} else {
			*a = act
		}
	}
	args := []string{"--value=" + text}
	token := []string{text}
	target := any(flag)
	switch site {
	case "flag":
		set(&flag.Uses, &flag.Action, mk())
		app.Flags = []*cli.Flag{flag}
	case "arg":
		set(&arg.Uses, &arg.Action, mk())
		app.Args = []*cli.Arg{arg}
		args, target = token, arg
	case "app index":
		set(&app.Uses, &app.Action, mk())
		app.Args = []*cli.Arg{arg, {Name: "second", NArg: 1}}
		app.Flags = []*cli.Flag{{Name: "other", Value: new(int)}}
		args, target = append(token, "two"), arg
	case "app flag":
		set(&app.Uses, &app.Action, mk("value"))
		app.Flags = []*cli.Flag{flag, {Name: "other"}}
	case "app alias":
		set(&app.Uses, &app.Action, mk('v'))
		app.Flags = []*cli.Flag{flag, {Name: "other"}}
	case "app target":
		set(&app.Uses, &app.Action, mk(flag))
		app.Flags = []*cli.Flag{flag, {Name: "other"}}
	case "app arg":
		set(&app.Uses, &app.Action, mk("value"))
		app.Args = []*cli.Arg{{Name: "first", NArg: 1}, arg}
		args, target = append([]string{"one"}, token...), arg
	case "sub index", "sub flag":
		sub := &cli.Command{Name: "sub"}
		app.Args, app.Commands = nil, []*cli.Command{sub}
		app.Flags = []*cli.Flag{{Name: "other", Value: new(bool)}}
		if site == "sub index" {
			set(&sub.Uses, &sub.Action, mk())
			sub.Args = []*cli.Arg{arg}
			args, target = append([]string{"sub"}, token...), arg
		} else {
			set(&sub.Uses, &sub.Action, mk("value"))
			sub.Flags = []*cli.Flag{flag}
			args = append([]string{"sub"}, args...)
		}
	case "sub persistent":
		sub := &cli.Command{Name: "sub"}
		set(&sub.Uses, &sub.Action, mk("value"))
		app.Commands = []*cli.Command{sub}
		app.Flags = []*cli.Flag{flag}
		args = append(args, "sub")
	case "flag other", "flag later":
		f := &cli.Flag{Name: "other", Value: new(bool)}
		set(&f.Uses, &f.Action, mk("value"))
		app.Flags = []*cli.Flag{flag, f}
		if site == "flag later" {
			app.Flags = []*cli.Flag{f, flag}
		}
		args = append(args, "--other")
	case "arg flag":
		a := &cli.Arg{Name: "other", NArg: 1}
		set(&a.Uses, &a.Action, mk("value"))
		app.Args = []*cli.Arg{a}
		app.Flags = []*cli.Flag{flag}
		args = append(args, "o")
	case "expr", "expr arg", "expr flag":
		files := &cli.Arg{Name: "files", NArg: 1}
		name := []any{}
		e := &expr.Expr{Name: "op"}
		switch site {
		case "expr":
			e.Args = []*cli.Arg{arg}
			target = arg
		case "expr arg":
			name = append(name, "value")
			e.Args = []*cli.Arg{{Name: "before", NArg: 1}, arg}
			target = arg
		case "expr flag":
			name = append(name, "value")
			app.Flags = []*cli.Flag{flag}
		}
		e.Evaluate = ty.eval(way, get, name...)
		app.Args = []*cli.Arg{files, {Name: "e", Value: &expr.Expression{Exprs: []*expr.Expr{e}}}}
		app.Action = func(c *cli.Context) error {
			if s, ok := c.Value("files").(string); !ok || s != "files" {
				t.Failf("another arg was affected: %v", c.Value("files"))
			}
			return c.Value("e").(*expr.Expression).Evaluate(c, 1)
		}
		args = nil
		if site == "expr flag" {
			args = []string{"--value=" + text}
		}
		args = append(args, "files", "-op")
		if site == "expr arg" {
			args = append(args, "b")
		}
		if site != "expr flag" {
			args = append(args, text)
		}
	}

	// The twin has the value, and its action obtains it
	var want []string
	var twin *cli.App
	name := "value"
	tv := ty.value()
	twinAct := func(c *cli.Context) { want = append(want, bndShow(c.Value(name))) }
	if target == any(flag) {
		twin = &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "value", Value: tv}}, Action: twinAct}
	} else {
		twin = &cli.App{Name: "app", Args: []*cli.Arg{{Name: "value", NArg: 1, Value: tv}}, Action: twinAct}
	}
	twinArgs := []string{"--value=" + text}
	if target == any(arg) {
		twinArgs = []string{text}
	}
	wr := runApp(twin, twinArgs...)
	r := runApp(app, args...)
	if wr.Error != nil {
		t.Eq("fails", r.Error != nil, true)
		t.Eq("not called", got, []string(nil))
		return
	}
	if !t.Eq("error", errText(r.Error), "") {
		return
	}
	t.Eq("called with", got, want)
	impl := flag.Value
	if target == any(arg) {
		impl = arg.Value
	}
	t.Eq("type of the value", fmt.Sprintf("%T", impl), fmt.Sprintf("%T", tv))
	t.State(strings.Join(got, " "))
}

// bndArg is a kind of binder in a slot of functions with several
type bndArg struct {
	name string
	mk   func(slot int, log func(string, ...any)) bind.Binder[string]
	want func(slot int, target string) string // value; "!" fails; "?" is not used
}

var errBind = errors.New("binder fails")

func bndArgs() []bndArg {
	implied := func(slot int, target string) string {
		switch target {
		case "flag":
			return "F"
		case "arg":
			return "A0"
		case "expr":
			return fmt.Sprintf("E%d", slot)
		}
		return fmt.Sprintf("A%d", slot)
	}
	fixed := func(s string) func(int, string) string { return func(int, string) string { return s } }
	return []bndArg{
		{"unnamed", func(int, func(string, ...any)) bind.Binder[string] { return bind.String() }, implied},
		{"value", func(int, func(string, ...any)) bind.Binder[string] { return bind.Value[string]() }, implied},
		{"flag", func(int, func(string, ...any)) bind.Binder[string] { return bind.String("g") }, fixed("G")},
		{"arg", func(int, func(string, ...any)) bind.Binder[string] { return bind.For[string]("a1") }, fixed("A1")},
		{"exact", func(int, func(string, ...any)) bind.Binder[string] { return bind.Exact("X") }, fixed("X")},
		{"context", func(int, func(string, ...any)) bind.Binder[string] {
			return bind.FromContext(func(c context.Context) string { return cli.FromContext(c).App().Name })
		}, fixed("app")},
		{"func", func(slot int, log func(string, ...any)) bind.Binder[string] {
			return bind.Func[string](func(c *cli.Context) (string, error) { log("bind%d", slot); return "D" + c.String("g"), nil })
		}, fixed("DG")},
		{"key", func(int, func(string, ...any)) bind.Binder[string] { return bind.ContextValue[string](bndKey{}) }, fixed("K")},
		{"fails", func(slot int, log func(string, ...any)) bind.Binder[string] {
			return bind.Func[string](func(*cli.Context) (string, error) { log("bind%d", slot); return "", errBind })
		}, fixed("!")},
	}
}

type bndKey struct{}

var bndTargets = []string{"app", "sub", "flag", "arg", "expr"}

// bndMany has functions of up to three binders
func bndMany(t *T, form string, target string, uses bool, slots []bndArg, shared bool, fnFails bool) {
	var events []string
	log := func(f string, a ...any) { events = append(events, fmt.Sprintf(f, a...)) }
	errFn := errors.New("function fails")
	res := func() error {
		if fnFails {
			return errFn
		}
		return nil
	}
	var bs []bind.Binder[string]
	for i, s := range slots {
		if shared && i > 0 && s.name == slots[0].name {
			bs = append(bs, bs[0])
			continue
		}
		bs = append(bs, s.mk(i, log))
	}
	call := func(v ...string) error { log("call %q", v); return res() }
	act := func(v ...string) cli.Action {
		log("make %q", v)
		return cli.ActionOf(func() error { log("run"); return res() })
	}
	ev := func(v ...string) expr.Evaluator {
		log("make %q", v)
		return expr.EvaluatorFunc(func(_ *cli.Context, in any, y func(any) error) error {
			log("eval %v", in)
			if err := res(); err != nil {
				return err
			}
			return y(in)
		})
	}
	var a cli.Action
	var e expr.Evaluator
	switch len(bs) {
	case 1:
		switch form {
		case "call":
			a = bind.Call(func(x string) error { return call(x) }, bs[0])
		case "act":
			a = bind.Action(func(x string) cli.Action { return act(x) }, bs[0])
		case "eval":
			e = bind.Evaluator(func(x string) expr.Evaluator { return ev(x) }, bs[0])
		}
	case 2:
		switch form {
		case "call":
			a = bind.Call2(func(x, y string) error { return call(x, y) }, bs[0], bs[1])
		case "act":
			a = bind.Action2(func(x, y string) cli.Action { return act(x, y) }, bs[0], bs[1])
		case "eval":
			e = bind.Evaluator2(func(x, y string) expr.Evaluator { return ev(x, y) }, bs[0], bs[1])
		}
	case 3:
		switch form {
		case "call":
			a = bind.Call3(func(x, y, z string) error { return call(x, y, z) }, bs[0], bs[1], bs[2])
		case "act":
			a = bind.Action3(func(x, y, z string) cli.Action { return act(x, y, z) }, bs[0], bs[1], bs[2])
		case "eval":
			e = bind.Evaluator3(func(x, y, z string) expr.Evaluator { return ev(x, y, z) }, bs[0], bs[1], bs[2])
		}
	}
	mark := func(name string) cli.Action { return cli.ActionOf(func() { log("%s", name) }) }
	flag := &cli.Flag{Name: "f", Value: new(string)}
	g := &cli.Flag{Name: "g"}
	arg := &cli.Arg{Name: "a0", Value: new(string), NArg: 1}
	rest := []*cli.Arg{{Name: "a1", NArg: 1}, {Name: "a2", NArg: 1}}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{flag, g}, Args: append([]*cli.Arg{arg}, rest...), Before: mark("before"), Action: mark("action")}
	args := []string{"-f", "F", "-g", "G", "A0", "A1", "A2"}
	at := "action"
	switch target {
	case "app":
		if uses {
			app.Uses = a
		} else {
			app.Action = cli.Pipeline(a, mark("action"))
		}
	case "flag":
		flag.Before = mark("flag before")
		if uses {
			flag.Uses = a
		} else {
			flag.Action = a
		}
	case "arg":
		if uses {
			arg.Uses = a
		} else {
			arg.Action = a
		}
	case "sub":
		sub := &cli.Command{Name: "sub", Args: app.Args, Action: mark("action"), Before: mark("before")}
		app.Args, app.Action, app.Before = nil, nil, nil
		app.Commands = []*cli.Command{sub}
		if uses {
			sub.Uses = a
		} else {
			sub.Action = cli.Pipeline(a, mark("action"))
		}
		args = []string{"-f", "F", "-g", "G", "sub", "A0", "A1", "A2"}
	case "expr":
		at = "eval"
		app.Args = append(app.Args, &cli.Arg{Name: "e", Value: &expr.Expression{Exprs: []*expr.Expr{{Name: "op", Args: []*cli.Arg{{Name: "x", NArg: 1}, {Name: "y", NArg: 1}, {Name: "z", NArg: 1}}, Evaluate: e}}}})
		app.Action = func(c *cli.Context) error {
			log("action")
			return c.Value("e").(*expr.Expression).Evaluate(c, "item")
		}
		args = append(args, "-op", "E0", "E1", "E2")
	}
	app.Stdin = strings.NewReader("")
	var out strings.Builder
	app.Stdout, app.Stderr = &out, &out
	ctx := context.WithValue(context.Background(), bndKey{}, "K")
	var panicked any
	var err error
	func() {
		defer func() { panicked = recover() }()
		err = app.RunContext(ctx, append([]string{"app"}, args...))
	}()
	if panicked != nil {
		t.Failf("panics: %v", panicked)
		return
	}

	// model
	var mid []string
	var vals []string
	var wantErr error
	for i, s := range slots {
		v := s.want(i, target)
		if s.name == "func" || s.name == "fails" {
			k := i
			if shared && s.name == slots[0].name {
				k = 0
			}
			mid = append(mid, fmt.Sprintf("bind%d", k))
		}
		if v == "!" {
			wantErr = errBind
			break
		}
		vals = append(vals, v)
	}
	if wantErr == nil {
		switch form {
		case "call":
			mid = append(mid, fmt.Sprintf("call %q", vals))
		case "act":
			mid = append(mid, fmt.Sprintf("make %q", vals), "run")
		case "eval":
			mid = append(mid, fmt.Sprintf("make %q", vals), "eval item")
		}
		if fnFails {
			wantErr = errFn
		}
	}
	var want []string
	if target == "flag" {
		want = append(want, "flag before")
	}
	want = append(want, "before")
	if at == "eval" {
		want = append(want, "action")
	}
	want = append(want, mid...)
	if at != "eval" && wantErr == nil {
		want = append(want, "action")
	}
	got := events
	if target == "flag" { // the order of before pipelines is not what this is about
		got, want = bndSorted(got), bndSorted(want)
	}
	if (target == "app" || target == "sub") && uses {
		// whether it is before or after the action of the command
		got, want = bndWithout(got, "action"), bndWithout(want, "action")
	}
	t.Eq("error", errors.Is(err, wantErr) && (err == nil) == (wantErr == nil), true)
	t.Eq("events", got, want)
	t.State(strings.Join(events, ","))
}

func bndWithout(s []string, x string) (res []string) {
	for _, i := range s {
		if i != x {
			res = append(res, i)
		}
	}
	return
}

func bndSorted(s []string) []string {
	var a, b []string
	for _, i := range s {
		if strings.HasSuffix(i, "before") {
			a = append(a, i)
		} else {
			b = append(b, i)
		}
	}
	if len(a) == 2 && a[0] > a[1] {
		a[0], a[1] = a[1], a[0]
	}
	return append(a, b...)
}

// bndShare uses the same action at several targets
func bndShare(t *T, slots int, targets []string) {
	var got []string
	call := func(v ...string) error { got = append(got, strings.Join(v, "+")); return nil }
	var a cli.Action
	switch slots {
	case 1:
		a = bind.Call(func(x string) error { return call(x) }, bind.String())
	case 2:
		a = bind.Call2(func(x, y string) error { return call(x, y) }, bind.String(), bind.Value[string]())
	case 3:
		b := bind.String()
		a = bind.Call2(func(x, y string) error { return call(x, y) }, b, b)
	}
	sub := &cli.Command{Name: "sub", Args: []*cli.Arg{{Name: "s0", NArg: 1}, {Name: "s1", NArg: 1}}}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "f"}, {Name: "g"}}, Commands: []*cli.Command{sub}}
	flat := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "f"}}, Args: []*cli.Arg{{Name: "a0", NArg: 1}, {Name: "a1", NArg: 1}}}
	one := func(s string) string {
		if slots > 1 {
			return s + "+" + s
		}
		return s
	}
	two := func(a, b string) string {
		if slots > 1 {
			return a + "+" + b
		}
		return a
	}
	var first, second []string // what runs in the first app and the second
	for _, tg := range targets {
		switch tg {
		case "f":
			app.Flags[0].Uses = cli.Pipeline(app.Flags[0].Uses, a)
			first = append(first, one("F"))
		case "g":
			app.Flags[1].Action = a
			first = append(first, one("G"))
		case "sub":
			sub.Uses = a
			first = append(first, two("S0", "S1"))
		case "s1":
			sub.Args[1].Uses = a
			first = append(first, one("S1"))
		case "app":
			flat.Uses = a
			second = append(second, two("A0", "A1"))
		case "a1":
			flat.Args[1].Action = a
			second = append(second, one("A1"))
		}
	}
	r := runApp(app, "-f", "F", "-g", "G", "sub", "S0", "S1")
	t.Eq("error", errText(r.Error), "")
	t.Eq("values in the first app", bndMulti(got), bndMulti(first))
	got = nil
	r = runApp(flat, "-f", "F", "A0", "A1")
	t.Eq("error", errText(r.Error), "")
	t.Eq("values in the second app", bndMulti(got), bndMulti(second))
	t.State(fmt.Sprint(first, second))
}

// bndMulti is a multiset
func bndMulti(s []string) map[string]int {
	m := map[string]int{}
	for _, i := range s {
		m[i]++
	}
	return m
}

// bndOps uses the operators of an expression several times, each time with its own arguments
func bndOps(t *T, ops []string, named, mixed bool, items int) {
	var e *expr.Expression
	ev := func(a ...string) expr.Evaluator {
		return expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
			return yield(v.(string) + "(" + strings.Join(a, ",") + ")")
		})
	}
	b := func(name string) bind.Binder[string] {
		if named {
			return bind.String(name)
		}
		return bind.String()
	}
	if mixed {
		b = func(name string) bind.Binder[string] {
			if named {
				return bind.Value[string](name)
			}
			return bind.Value[string]()
		}
	}
	one := bind.Evaluator(func(x string) expr.Evaluator { return ev(x) }, b("x"))
	arg := func(n ...string) (res []*cli.Arg) {
		for _, i := range n {
			res = append(res, &cli.Arg{Name: i, NArg: 1})
		}
		return
	}
	e = &expr.Expression{Exprs: []*expr.Expr{
		{Name: "one", Args: arg("x"), Evaluate: one},
		{Name: "same", Args: arg("x"), Evaluate: one},
		{Name: "two", Args: arg("x", "y"), Evaluate: bind.Evaluator2(func(x, y string) expr.Evaluator { return ev(x, y) }, b("x"), b("y"))},
		{Name: "three", Args: arg("x", "y", "z"), Evaluate: bind.Evaluator3(func(x, y, z string) expr.Evaluator { return ev(x, y, z) }, b("x"), b("y"), b("z"))},
	}}
	var got []string
	e.Exprs = append(e.Exprs, &expr.Expr{Name: "show", Evaluate: expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
		got = append(got, v.(string))
		return yield(v)
	})})
	line := []string{"p"}
	var suffix string
	var want []string
	for i, op := range ops {
		line = append(line, "-"+op)
		n := map[string]int{"one": 1, "same": 1, "two": 2, "three": 3}[op]
		var vals []string
		for j := range n {
			vals = append(vals, fmt.Sprintf("v%d%d", i, j))
		}
		line = append(line, vals...)
		suffix += "(" + strings.Join(vals, ",") + ")"
	}
	line = append(line, "-show")
	var in []any
	for i := range items {
		in = append(in, fmt.Sprint("i", i))
		want = append(want, fmt.Sprint("i", i)+suffix)
	}
	app := &cli.App{Name: "app",
		Args: []*cli.Arg{{Name: "p", NArg: 1}, {Name: "e", Value: e}},
		Action: func(c *cli.Context) error {
			return c.Value("e").(*expr.Expression).Evaluate(c, in...)
		},
	}
	r := runApp(app, line...)
	t.Eq("error", errText(r.Error), "")
	t.Eq("values", got, want)
	t.State(strings.Join(got, " "))
}

// bndRedirect has flags that set others
func bndRedirect(t *T, toks []string, uses bool, order int) {
	proto := &cli.Flag{Name: "proto"}
	num := &cli.Flag{Name: "num", Value: new(int)}
	files := &cli.Arg{Name: "files", Value: new(cli.FileSet), NArg: cli.TakeExceptForFlags}
	mk := func(name string, a cli.Action, value any) *cli.Flag {
		f := &cli.Flag{Name: name}
		if uses {
			f.Uses = a
		} else {
			f.Action, f.Value = a, value
		}
		return f
	}
	flags := []*cli.Flag{
		proto, num,
		mk("tls", bind.Redirect("proto", "tls1.2"), new(bool)),
		mk("named", bind.Redirect[string]("proto"), new(string)),
		mk("seven", bind.Redirect("num", 7), new(bool)),
		mk("number", bind.Redirect[int]("num"), new(int)),
		mk("recursive", bind.Indirect("files", (*cli.FileSet).SetRecursive), new(bool)),
		mk("deep", bind.Indirect("files", (*cli.FileSet).SetRecursive, true), new(bool)),
		mk("flat", bind.Indirect("files", (*cli.FileSet).SetRecursive, false), new(bool)),
	}
	if order&1 != 0 {
		for i, j := 0, len(flags)-1; i < j; i, j = i+1, j-1 {
			flags[i], flags[j] = flags[j], flags[i]
		}
	}
	var got string
	app := &cli.App{Name: "app", Flags: flags, Args: []*cli.Arg{files}, Action: func(c *cli.Context) {
		got = fmt.Sprintf("%q %d %q %v", c.String("proto"), c.Int("num"), c.FileSet("files").Files, c.FileSet("files").Recursive)
	}}
	r := runApp(app, toks...)
	// model: what other flags set comes after what the flag has itself
	str, n, rec := "", 0, false
	var list []string
	ok := true
	for _, tk := range toks {
		name, v, _ := strings.Cut(tk, "=")
		switch name {
		case "--proto":
			str = v
		case "--num":
			n = 9
		case "x":
			list = append(list, tk)
		}
	}
	for _, tk := range toks {
		name, v, _ := strings.Cut(tk, "=")
		switch name {
		case "--tls":
			str = "tls1.2"
		case "--named":
			str = v
		case "--seven":
			n = 7
		case "--number":
			if v == "bad" {
				ok = false
			} else {
				n = 8
			}
		case "--recursive":
			rec = v != "false"
		case "--deep":
			rec = true
		case "--flat":
			rec = false
		}
	}
	if !ok {
		t.Eq("fails", r.Error != nil, true)
		return
	}
	t.Eq("error", errText(r.Error), "")
	t.Eq("values", got, fmt.Sprintf("%q %d %q %v", str, n, list, rec))
	t.State(got)
}

func init() {
	register(&Prop{
		ID:    "C32",
		Bound: "every binder of the package and bind.For/Value/Exact for the other value types of the library (29 types) x 16 places (flag, arg, command or subcommand by index, name, alias or target, expression) x Call/Action/Evaluator x Uses or Action x texts it does and does not accept; functions of 1..3 binders over 9 kinds of binder (unnamed, by name, constant, context, function, failing) x 5 targets x shared or separate binders x failing functions; one action at every ordered subset of 6 targets in 2 apps; expressions of up to 4 (thorough 6) uses of 4 operators with 1..3 bound arguments, over 1 and 2 items; command lines up to length 3 (thorough 4) over flags that redirect to another flag or arg",
		Assumptions: []string{
			"the value a binder provides is compared with what an app without binders obtains for the same text with a flag or arg of that type",
			"when several flags that redirect to the same target occur, which of them takes effect is not claimed; nor is whether a call in the Uses pipeline of a command comes before its Action",
		},
		Run: func(x *X) {
			for _, ty := range bndTypes() {
				for _, site := range bndSites {
					for _, way := range []string{"typed", "for", "value", "exact"} {
						for _, form := range []string{"call", "act"} {
							for _, text := range ty.texts {
								for v := range 4 {
									preset, uses := v&1 == 0, v&2 == 0
									if strings.HasPrefix(site, "expr") && (form == "act" || !uses) {
										continue
									}
									if !preset && !uses {
										continue // only in the Uses pipeline can it set up the value
									}
									x.Case(func() string {
										return fmt.Sprintf("type|%s %s %s %s %q %v %v", ty.name, site, way, form, text, preset, uses)
									}, func(t *T) { bndSetup(t, ty, site, way, form, text, preset, uses) })
								}
							}
						}
					}
				}
			}
			words(bndArgs(), 1, 3, func(w []bndArg) {
				l := clone(w)
				for _, target := range bndTargets {
					for _, form := range []string{"call", "act", "eval"} {
						if (form == "eval") != (target == "expr") {
							continue
						}
						for v := range 8 {
							uses, shared, fails := v&1 == 0, v&2 != 0, v&4 != 0
							if !uses && form == "eval" {
								continue
							}
							if shared && (len(l) < 2 || l[0].name != l[1].name && (len(l) < 3 || l[0].name != l[2].name)) {
								continue
							}
							x.Case(func() string {
								var n []string
								for _, s := range l {
									n = append(n, s.name)
								}
								return fmt.Sprintf("many|%s %s %v %v %v %v", form, target, n, uses, shared, fails)
							}, func(t *T) { bndMany(t, form, target, uses, l, shared, fails) })
						}
					}
				}
			})
			subsets([]string{"f", "g", "sub", "s1", "app", "a1"}, func(s []string) {
				perms(s, func(p []string) {
					l := clone(p)
					for slots := 1; slots <= 3; slots++ {
						x.Case(func() string { return fmt.Sprintf("share|%d %v", slots, l) }, func(t *T) { bndShare(t, slots, l) })
					}
				})
			})
			n := 4
			if x.Thorough {
				n = 6
			}
			words([]string{"one", "same", "two", "three"}, 1, n, func(w []string) {
				l := clone(w)
				for v := range 4 {
					for items := 1; items <= 2; items++ {
						x.Case(func() string { return fmt.Sprintf("ops|%v %d %d", l, v, items) }, func(t *T) { bndOps(t, l, v&1 == 0, v&2 == 0, items) })
					}
				}
			})
			depth := 3
			if x.Thorough {
				depth = 4
			}
			words([]string{"--proto=p", "--tls", "--named=n", "--num=9", "--seven", "--number=8", "--number=bad", "--recursive", "--recursive=false", "--deep", "--flat", "x"}, 0, depth, func(w []string) {
				l := clone(w)
				kinds := map[string]string{}
				for _, tk := range l {
					name, _, _ := strings.Cut(tk, "=")
					k := map[string]string{"--tls": "proto", "--named": "proto", "--seven": "num", "--number": "num", "--recursive": "rec", "--deep": "rec", "--flat": "rec"}[name]
					if o := kinds[k]; k != "" && o != "" && o != name {
						return // which one takes effect
					}
					kinds[k] = name
				}
				for v := range 4 {
					x.Case(func() string { return fmt.Sprintf("redirect|%v %d", l, v) }, func(t *T) { bndRedirect(t, l, v&1 == 0, v>>1) })
				}
			})
		},
	})
}
