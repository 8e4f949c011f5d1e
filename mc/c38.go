package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// The parser and what it produces used without an app, with bindings of the
// library and with those that a user writes

// lowTokens are the pieces of command lines
var lowTokens = []string{
	"-a", "--alpha=u", "-av", "-b", "--bool=false", "-ba", "-l", "--list=1,2", "-n", "-n7", "-t", "-tbad", "--opt", "-o9", "-p", "--parent=q", "-u", "--", "z", "-",
}

// lowCore are those of the longest lines
var lowCore = []string{"-av", "-b", "--list=1,2", "-l", "-n", "-t", "-tbad", "--opt", "-o9", "-p", "--parent=q", "--", "z"}

var errLowTransform, errLowState = errors.New("low transform"), errors.New("low state")

func lowTransform(v []string) (any, error) {
	if len(v) > 1 && v[1] == "bad" {
		return nil, errLowTransform
	}
	return strings.ToUpper(strings.Join(v, "+")), nil
}

// lowParts makes the flags and args, and those of the parent
func lowParts(list bool) (flags []*cli.Flag, args []*cli.Arg, parent []*cli.Flag) {
	flags = []*cli.Flag{
		{Name: "alpha", Aliases: []string{"a"}, Value: new(string)},
		{Name: "bool", Aliases: []string{"b"}, Value: new(bool)},
		{Name: "list", Aliases: []string{"l"}, Value: new([]string)},
		{Name: "num", Aliases: []string{"n"}, Value: new(int)},
		{Name: "trans", Aliases: []string{"t"}, Value: new(string), Uses: cli.Transform(lowTransform)},
		{Name: "opt", Aliases: []string{"o"}, Value: new(int), Uses: cli.OptionalValue(5)},
	}
	args = []*cli.Arg{{Name: "x", Value: new(string), NArg: 1}}
	if list {
		args = append(args, &cli.Arg{Name: "y", Value: new([]string), NArg: cli.TakeUntilNextFlag})
	} else {
		args = append(args, &cli.Arg{Name: "y", Value: new(int), NArg: 0, Uses: cli.Transform(lowTransform)})
		args[1].Value = new(string)
	}
	parent = []*cli.Flag{{Name: "parent", Aliases: []string{"p"}, Value: new(string)}}
	return
}

var lowNames = []string{"alpha", "bool", "list", "num", "trans", "opt", "parent", "x", "y"}

// lowApp runs the app, and provides what it finds
func lowApp(line []string, list bool, opts cli.Option) (seen []string, ran bool, err error) {
	flags, args, parent := lowParts(list)
	sub := &cli.Command{Name: "sub", Flags: flags, Args: args, Options: opts}
	sub.Action = func(c *cli.Context) {
		ran = true
		for _, n := range lowNames {
			seen = append(seen, fmt.Sprintf("%s=%v raw=%q occ=%q", n, c.Value(n), c.Raw(n), c.RawOccurrences(n)))
		}
	}
	app := &cli.App{Name: "app", Flags: parent, Commands: []*cli.Command{sub}}
	r := runApp(app, append([]string{"sub"}, line...)...)
	return seen, ran, r.Error
}

// lowFlags has the flags of a parent
type lowFlags []*cli.Flag

func (f lowFlags) Flags() []*cli.Flag { return f }

// lowInit initializes the parts so that transforms and such are set up
func lowInit(flags []*cli.Flag, args []*cli.Arg) {
	app := &cli.App{Name: "app", Flags: clone(flags), Args: clone(args)}
	if _, err := app.Initialize(context.Background()); err != nil {
		panic(err)
	}
}

// lowRun parses and applies, and finds the same as the app
func lowRun(t *T, line []string, list bool, mode int) {
	var opts cli.Option
	f := cli.RawSkipProgramName
	if mode&1 != 0 {
		opts |= cli.RightToLeft
		f |= cli.RawRTL
	}
	if mode&2 != 0 {
		opts |= cli.DisallowFlagsAfterArgs
		f |= cli.RawDisallowFlagsAfterArgs
	}
	want, ran, appErr := lowApp(line, list, opts)

	flags, args, parent := lowParts(list)
	lowInit(append(clone(flags), parent...), args)
	b := cli.NewBinding(flags, args, lowFlags(parent))
	full := append([]string{"sub"}, line...)
	before := clone(full)
	m, err := cli.RawParse(full, b, f)
	t.Eq("arguments", full, before)
	var pe *cli.ParseError
	t.Eq("error is a ParseError", err == nil || errors.As(err, &pe), true)
	lowMap(t, m)
	parseErr := err
	if err == nil {
		err = m.ApplyTo(b)
	}
	t.Eq("fails", err != nil, appErr != nil)
	if err != nil && appErr != nil {
		t.Eq("transform failed", errors.Is(err, errLowTransform), errors.Is(appErr, errLowTransform))
		t.Eq("error", err.Error(), appErr.Error())
	}
	if err == nil && ran {
		var got []string
		for _, n := range lowNames {
			var v any
			for _, f := range append(clone(flags), parent...) {
				if f.Name == n {
					v = f.Value
				}
			}
			for _, a := range args {
				if a.Name == n {
					v = a.Value
				}
			}
			got = append(got, fmt.Sprintf("%s=%v raw=%q occ=%q", n, lowDeref(v), m.Raw(n), m.RawOccurrences(n)))
		}
		t.Eq("found", got, want)
	}
	t.State(fmt.Sprint(m.BindingNames(), err))

	// The same without the name of the program
	flags, args, parent = lowParts(list)
	lowInit(append(clone(flags), parent...), args)
	m3, err3 := cli.RawParse(line, cli.NewBinding(flags, args, lowFlags(parent)), f&^cli.RawSkipProgramName)
	t.Eq("error without the name", errText(err3), errText(parseErr))
	t.Eq("line", fmt.Sprintf("%q", m3[""]), fmt.Sprintf("%q", [][]string{line}))
	delete(m3, "")
	named := lowSorted(m)
	t.Eq("map without the name", fmt.Sprint(lowSorted(m3)), fmt.Sprint(named[1:]))

	// The same with a binding that is written by the user
	flags, args, parent = lowParts(list)
	lowInit(append(clone(flags), parent...), args)
	o := &lowOwn{t: t, b: cli.NewBinding(flags, args, lowFlags(parent)), states: map[string]*lowState{}, list: list}
	m2, err2 := cli.RawParse(full, o, f)
	t.Eq("error with another binding", errText(err2), errText(parseErr))
	if err2 == nil {
		t.Eq("map with another binding", fmt.Sprint(lowSorted(m2)), fmt.Sprint(lowSorted(m)))
		for fail := -1; fail < 3; fail++ {
			lowApply(t, o, m2, fail)
		}
	}
}

func lowSorted(m cli.BindingMap) (res []string) {
	for _, k := range sortedKeys(m) {
		res = append(res, fmt.Sprintf("%s:%q", k, m[k]))
	}
	return
}

func lowDeref(v any) any {
	switch v := v.(type) {
	case *string:
		return *v
	case *bool:
		return *v
	case *int:
		return *v
	case *[]string:
		return *v
	}
	return v
}

// lowMap checks the accessors of the map
func lowMap(t *T, m cli.BindingMap) {
	names := m.BindingNames()
	slices.Sort(names)
	var want []string
	for _, k := range sortedKeys(m) {
		if k != "" {
			want = append(want, k)
		}
	}
	t.Eq("names", strings.Join(names, " "), strings.Join(want, " "))
	for _, n := range append(want, "nope") {
		var raw, occ []string
		for _, b := range m[n] {
			raw = append(raw, b...)
			occ = append(occ, b[1:]...)
		}
		t.Eq("raw of "+n, q(m.Raw(n)), q(raw))
		t.Eq("occurrences of "+n, q(m.RawOccurrences(n)), q(occ))
		t.Eq("bindings of "+n, fmt.Sprintf("%q", m.Bindings(n)), fmt.Sprintf("%q", m[n]))
	}
}

// lowOwn is a binding
type lowOwn struct {
	t      *T
	states map[string]*lowState
	b      cli.Binding // counts the values
	list   bool
	hidden string
}

type lowState struct {
	name string
	log  []string
	fail int // when to fail, counted over the occurrences of this one
}

func (s *lowState) got(v string) error {
	s.log = append(s.log, v)
	if len(s.log)-1 == s.fail {
		return errLowState
	}
	return nil
}
func (s *lowState) SetOccurrence(v ...string) error { return s.got(fmt.Sprintf("%q", v)) }
func (s *lowState) SetOccurrenceData(v any) error   { return s.got(fmt.Sprintf("data %v", v)) }

func (o *lowOwn) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	if name == o.hidden && name != "" {
		return nil, nil, nil, false
	}
	s := o.states[name]
	if s == nil {
		s = &lowState{name: name, fail: -1}
	}
	_, counter, _, ok := o.b.LookupOption(name)
	if !ok {
		return nil, nil, nil, false
	}
	o.states[name] = s
	if name == "trans" || name == "y" && !o.list {
		return lowTransform, counter, s, true
	}
	return nil, counter, s, true
}

func (o *lowOwn) ResolveAlias(name string) (string, bool) {
	for _, n := range lowNames {
		if n == name || n[:1] == name && len(n) > 1 {
			return n, true
		}
	}
	return "", false
}
func (o *lowOwn) PositionalArgNames() []string   { return []string{"x", "y"} }
func (o *lowOwn) BehaviorFlags(name string) bool { return o.b.BehaviorFlags(name) }
func (o *lowOwn) Reset()                         {}

// lowApply applies the map to a binding where the states fail at some occurrence, or none
func lowApply(t *T, o *lowOwn, m cli.BindingMap, fail int) {
	for _, hidden := range []string{"", "alpha"} {
		o.hidden = hidden
		o.states = map[string]*lowState{}
		for _, n := range lowNames {
			o.states[n] = &lowState{name: n, fail: fail}
		}
		err := m.ApplyTo(o)
		o.hidden = ""

		failing := map[string]error{}
		model := map[string][]string{}
		for _, n := range m.BindingNames() {
			if n == hidden {
				continue
			}
			transform, _, _, _ := o.LookupOption(n)
			for i, b := range m[n] {
				if transform != nil {
					d, err := transform(b)
					if err != nil {
						failing[n] = err
						break
					}
					model[n] = append(model[n], fmt.Sprintf("data %v", d))
				} else {
					model[n] = append(model[n], fmt.Sprintf("%q", b[1:]))
				}
				if i == fail {
					failing[n] = errLowState
					break
				}
			}
		}
		t.Eq("apply fails", err != nil, len(failing) > 0)
		got := map[string][]string{}
		var failed []string
		for n, s := range o.states {
			if len(s.log) > 0 {
				got[n] = s.log
			}
		}
		if len(failing) == 0 {
			t.Eq("applied", fmt.Sprint(got), fmt.Sprint(model))
			continue
		}
		// those before the first that fails are complete
		for n := range got {
			if fmt.Sprint(got[n]) != fmt.Sprint(model[n]) {
				t.Failf("%s: got %v, want %v", n, got[n], model[n])
			}
		}
		matched := false
		for n, e := range failing {
			if errors.Is(err, e) && fmt.Sprint(got[n]) == fmt.Sprint(model[n]) {
				matched = true
			}
			if _, ok := got[n]; ok {
				failed = append(failed, n)
			}
		}
		t.Eq("is the error of one that fails", matched, true)
		withLog := 0
		for _, n := range failed {
			if failing[n] == errLowState {
				withLog++
			}
		}
		if withLog > 1 {
			t.Failf("goes on after the failure: %v", failed)
		}
	}
}

func init() {
	register(&Prop{
		ID:    "C38",
		Bound: "all lines of up to 3 of 20 tokens (thorough: of 4 of 13 tokens) over 7 flags of 5 types (with transform, optional value and a flag of the parent) and 2 args in 2 shapes x right-to-left x flags after args; RawParse and ApplyTo with the binding of the library against the app, and with a binding written by the user, whose options fail at any occurrence up to the third or never, with an option it does not know",
		Assumptions: []string{
			"what the app makes of the line is what C01 to C05 say",
			"which of several failing options is reported isn't claimed",
		},
		Run: func(x *X) {
			lines := func(tokens []string, lo, hi int) {
				words(tokens, lo, hi, func(w []string) {
					if x.Stop() {
						return
					}
					l := clone(w)
					for v := range 8 {
						x.Case(func() string { return fmt.Sprintf("low|%q %d", l, v) }, func(t *T) { lowRun(t, l, v&4 != 0, v&3) })
					}
				})
			}
			lines(lowTokens, 0, 3)
			if x.Thorough {
				lines(lowCore, 4, 4)
			}
		},
	})
}
