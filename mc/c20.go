package main

import (
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"github.com/mitchellh/mapstructure"
)

// Providers: values naming a provider and its arguments, registries that
// validate, list and create them.

type provConfig struct {
	reg      int // 0 none, 1 Map, 2 Details, 3 unknown allowed, 4 no providers, 5 of another name
	place    int // 0 app, 1 flag, 2 parent command
	argFlag  int // 0 SetArgument, 1 accessory, 2 SetArgument before the flag
	kind     int // 0 new, 1 args given, 2 structure, 3 name and args given
	disabled bool
}

var provKnown = map[string]map[string]string{"csv": {"a": "1", "b": "2"}, "json": nil, "x y": {"a": "0"}}

func (c provConfig) registry() *provider.Registry {
	r := &provider.Registry{Name: "prov"}
	switch c.reg {
	case 0:
		return nil
	case 1, 3, 5:
		m := provider.Map{}
		maps.Copy(m, provKnown)
		r.Providers = m
		r.AllowUnknown = c.reg == 3
		if c.reg == 5 {
			r.Name = "other"
		}
	case 2:
		d := provider.Details{}
		for k, v := range provKnown {
			d[k] = provider.Detail{Defaults: v, HelpText: "help of " + k, Value: k}
		}
		r.Providers = d
	}
	return r
}

type provState struct {
	name string
	args map[string]string
	errs []string // first error
}

type provOcc struct {
	arg  bool
	text string
}

func (c provConfig) model(line []provOcc) (st provState) {
	st.args = map[string]string{}
	preset := c.kind == 3
	if preset {
		st.name = "csv"
		st.args["a"] = "init"
	}
	raw := map[string]string{}
	seen, named := false, false
	set := func(text string) {
		pieces := []string{text}
		if !c.disabled || !seen { // the option acts when the flag is set
			pieces = splitEsc(text, ',', -1)
		}
		for _, p := range pieces {
			m := map[string]string{}
			mapInto(m, []string{p})
			maps.Copy(raw, m)
			for k, v := range m {
				if c.kind != 2 || k == "a" || k == "b" {
					st.args[k] = v
				}
			}
		}
	}
	for _, o := range line {
		if o.arg {
			continue
		}
		seen = true
		text := o.text
		if !named {
			named = true
			n, rest, more := strings.Cut(text, ",")
			st.name = n
			if !more {
				continue
			}
			text = rest
		}
		set(text)
	}
	validate := func() string {
		if c.reg == 0 || c.reg == 3 || c.reg == 5 {
			return ""
		}
		def, ok := provKnown[st.name]
		if !ok || c.reg == 4 {
			return fmt.Sprintf("unknown %q prov", st.name)
		}
		for _, k := range sortedKeys(raw) {
			if _, ok := def[k]; !ok {
				return fmt.Sprintf("unknown argument %q for %q prov", k, st.name)
			}
		}
		return ""
	}
	fail := func(s string) bool {
		if s != "" {
			st.errs = append(st.errs, s)
		}
		return s != ""
	}
	own := func() bool { return seen && fail(validate()) }
	args := func() bool {
		for _, o := range line {
			if !o.arg {
				continue
			}
			set(o.text)
			if st.name != "" && fail(validate()) {
				return true
			}
		}
		return false
	}
	if c.argFlag == 2 {
		_ = args() || own()
	} else {
		_ = own() || args()
	}
	return
}

func (c provConfig) run(t *T, line []provOcc) {
	type opts struct{ A, B string }
	v := new(provider.Value)
	m := map[string]string{}
	s := &opts{}
	switch c.kind {
	case 1:
		v.Args = &m
	case 2:
		v.Args = structure.Of(s)
	case 3:
		m["a"] = "init"
		v.Name, v.Args = "csv", &m
	}
	reg := c.registry()
	f := &cli.Flag{Name: "prov", Value: v}
	if c.disabled {
		f.Options = cli.DisableSplitting
	}
	if c.kind == 3 {
		f.Options |= cli.Merge
	}
	flags := []*cli.Flag{f}
	var uses []cli.Action
	switch c.argFlag {
	case 0:
		flags = append(flags, &cli.Flag{Uses: provider.SetArgument("prov")})
	case 1:
		uses = append(uses, cli.Accessory("-", (*provider.Value).ArgumentFlag))
	case 2:
		flags = []*cli.Flag{{Uses: provider.SetArgument("prov")}, f}
	}
	if reg != nil && c.place == 1 {
		uses = append(uses, reg)
	}
	f.Uses = cli.Pipeline(actions(uses)...)
	ran := false
	act := func(ctx *cli.Context) {
		ran = true
		got := provider.Services(ctx).Registry("prov")
		want := reg
		if c.reg == 5 {
			want = nil
		}
		if got != want {
			t.Failf("the services give another registry: %v", got)
		}
		if x, ok := ctx.Value("prov").(*provider.Value); !ok || x != v {
			t.Failf("the flag has value %v", ctx.Value("prov"))
		}
	}
	app := &cli.App{Name: "app"}
	var args []string
	if c.place == 2 {
		app.Commands = []*cli.Command{{Name: "sub", Flags: flags, Action: act}}
		args = append(args, "sub")
	} else {
		app.Flags, app.Action = flags, act
	}
	if reg != nil && c.place != 1 {
		app.Uses = reg
	}
	for _, o := range line {
		if o.arg {
			args = append(args, "--prov-arg", o.text)
		} else {
			args = append(args, "--prov", o.text)
		}
	}
	want := c.model(line)
	t.State(want)
	t.Step(len(line))
	res := runApp(app, args...)
	if len(want.errs) > 0 {
		if res.Error == nil || res.Error.Error() != want.errs[0] {
			t.Failf("gives %v, model %v", res.Error, want.errs[0])
		}
		if ran {
			t.Failf("the action runs although %s", want.errs[0])
		}
		return
	}
	if res.Error != nil || !ran {
		t.Fatalf("gives %v, action run %v", res.Error, ran)
	}
	t.Eq("name", v.Name, want.name)
	if c.kind == 2 {
		t.Eq("args", fmt.Sprint(*s), fmt.Sprint(opts{want.args["a"], want.args["b"]}))
		return
	}
	got := map[string]string{}
	if p, ok := v.Args.(*map[string]string); ok {
		got = *p
	} else if v.Args != nil || len(want.args) > 0 {
		t.Fatalf("args are %T", v.Args)
	}
	t.Eq("args", got, want.args)
	var text []string
	for _, k := range sortedKeys(want.args) {
		text = append(text, k+"="+want.args[k])
	}
	slices.Sort(text)
	t.Eq("text", v.String(), strings.Join(append([]string{want.name}, text...), ","))
}

func actions(a []cli.Action) []any {
	var res []any
	for _, x := range a {
		res = append(res, x)
	}
	return res
}

// listing
func provList(t *T, names []string, details, template bool, place int) {
	var lk provider.Lookup
	var want string
	all := map[string]provider.Detail{
		"csv": {Defaults: map[string]string{"comma": "a", "useCRLF": "true", "%s": "b"}, HelpText: "Use %d"}, "json": {HelpText: "js"}, "yaml": {Defaults: map[string]string{"z": ""}}, "": {}}
	m, d := provider.Map{}, provider.Details{}
	for _, n := range names {
		m[n] = all[n].Defaults
		d[n] = all[n]
	}
	lk = m
	if details {
		lk = d
	}
	for _, n := range sortedKeys(m) {
		var p []string
		for _, k := range sortedKeys(m[n]) {
			p = append(p, k+"="+m[n][k])
		}
		want += n + "\t" + strings.Join(p, ", ") + "\n"
		if template {
			i := strings.LastIndex(strings.TrimSuffix(want, "\n"), "\n")
			want = want[:i+1] + n + " "
			if details {
				want += d[n].HelpText
			}
			want += "\n"
		}
	}
	reg := &provider.Registry{Name: "prov", Providers: lk}
	if len(names) == 0 && details {
		reg.Providers = nil
	}
	got := reg.ProviderNames()
	slices.Sort(got)
	t.Eq("names", append([]string{}, got...), append([]string{}, sortedKeys(m)...))
	for _, n := range []string{"csv", "json", "yaml", "", "other"} {
		x, ok := reg.LookupProvider(n)
		if ok != slices.Contains(names, n) || ok && fmt.Sprint(x.Defaults) != fmt.Sprint(all[n].Defaults) {
			t.Failf("LookupProvider(%q) gives %v %v", n, x, ok)
		}
	}
	ran := false
	app := &cli.App{Name: "app", Action: func() { ran = true }}
	lf := &cli.Flag{Uses: provider.ListProviders("prov")}
	var uses []cli.Action
	if template {
		uses = append(uses, cli.RegisterTemplate("Providers", "{{ range .Providers -}}\n{{ .Name }} {{ .HelpText }}\n{{ end }}"))
	}
	args := []string{"--list-prov"}
	switch place {
	case 0:
		app.Flags = []*cli.Flag{lf}
		uses = append(uses, reg)
	case 1:
		app.Flags = []*cli.Flag{{Name: "prov", Value: new(provider.Value), Uses: reg}, lf}
	case 2:
		app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{lf}, Action: func() { ran = true }}}
		uses = append(uses, reg)
		args = []string{"sub", "--list-prov"}
	}
	app.Uses = cli.Pipeline(actions(uses)...)
	res := runApp(app, args...)
	if res.Error == nil || res.Error.Error() != "exited with status 0" || ran {
		t.Failf("listing gives %v, action run %v", res.Error, ran)
	}
	t.State(want)
	t.Eq("listing", res.Out, want)
}

type provOpts struct {
	A string
	B int
}

// creating providers
func provNew(t *T, kind int, defaults, opts map[string]string, lookup string) {
	merged := map[string]string{}
	maps.Copy(merged, defaults)
	maps.Copy(merged, opts)
	before := fmt.Sprint(defaults, opts)
	det := provider.Detail{Defaults: defaults}
	var want any = fmt.Sprint(merged)
	var werr error
	o := provOpts{A: merged["a"]}
	bad := false
	if b, ok := merged["b"]; ok {
		if _, err := fmt.Sscan(b, &o.B); err != nil {
			bad = true
		}
	}
	conv := true
	switch kind {
	case 0:
		det.Factory = func(m map[string]string) (any, error) { return fmt.Sprint(m), nil }
		conv = false
	case 1:
		det.Factory = provider.Factory(func(m map[string]string) string { return fmt.Sprint(m) })
		conv = false
	case 2:
		det.Factory = provider.Factory(func(x provOpts) (provOpts, error) { return x, nil })
		want = o
	case 3:
		det.Factory = provider.Factory(func(x *provOpts) any { return *x })
		want = o
	case 4:
		det.Factory = provider.Factory(func(x provOpts) (any, error) { return nil, errFault })
		want, werr = nil, errFault
	case 5:
		det.Value = "the value"
		want, conv = "the value", false
	case 6: // both: the factory is used
		det.Value = "the value"
		det.Factory = func(m map[string]string) (any, error) { return fmt.Sprint(m), nil }
		conv = false
	case 7:
		det.Factory = provider.Factory(func(x any) (any, error) { return fmt.Sprint(x), nil })
		conv = false
	case 8:
		det.Factory = provider.Factory(func(x provOpts) (any, error) { return x, nil }, func(c *mapstructure.DecoderConfig) { c.WeaklyTypedInput = true }, structure.ErrorUnused)
		want = o
		if _, ok := merged["z"]; ok {
			bad = true
		}
	case 9: // neither
		conv, bad = true, true
	}
	reg := &provider.Registry{Name: "prov", Providers: provider.Details{"p": det, "": {Value: 1}}}
	got, err := reg.New(lookup, opts)
	t.State(kind, fmt.Sprint(got), err)
	if lookup != "p" {
		if err == nil || got != nil || !strings.Contains(err.Error(), lookup) {
			t.Failf("a provider that does not exist gives %v, %v", got, err)
		}
		return
	}
	if now := fmt.Sprint(defaults, opts); now != before {
		t.Failf("defaults and options changed from %s to %s", before, now)
	}
	if conv && bad {
		if err == nil {
			t.Failf("gives %v without error", got)
		}
		return
	}
	if !errors.Is(err, werr) || (err != nil) != (werr != nil) {
		t.Fatalf("gives error %v, model %v", err, werr)
	}
	t.Eq("provider", fmt.Sprint(got), fmt.Sprint(want))
}

// provSequence: what a factory does with its options, and the options given
// to one provider, don't show in the next one.
func provSequence(t *T, defaults map[string]string, seq []map[string]string, own int) {
	var last map[string]string
	fac := func(m map[string]string) (any, error) {
		last = maps.Clone(m)
		switch own {
		case 1:
			m["w"] = "9"
		case 2:
			clear(m)
		case 3:
			m["a"] = "changed"
		}
		return "ok", nil
	}
	reg := &provider.Registry{Name: "prov", Providers: provider.Details{"p": {Factory: fac, Defaults: maps.Clone(defaults)}}}
	for _, opts := range seq {
		want := map[string]string{}
		maps.Copy(want, defaults)
		maps.Copy(want, opts)
		last = nil
		given := maps.Clone(opts)
		if _, err := reg.New("p", given); err != nil {
			t.Failf("New: %v", err)
		}
		t.Step(1)
		t.Eq("options", fmt.Sprint(last), fmt.Sprint(want))
		t.Eq("given options", fmt.Sprint(given), fmt.Sprint(opts))
		d, ok := reg.LookupProvider("p")
		if !ok {
			t.Failf("not found")
		}
		t.Eq("defaults", fmt.Sprint(d.Defaults), fmt.Sprint(defaults))
	}
	t.State(fmt.Sprint(last))
}

func init() {
	register(&Prop{
		ID: "C20",
		Bound: "a provider flag with new, given, structured and preset values, with and without DisableSplitting, with an argument flag (SetArgument after or before it, accessory), registries (none, Map, Details, unknown allowed, empty, other name) used on the app, the flag and the parent of the command: all lines of up to 2 occurrences over 13 texts (3 for the main configurations, for all when thorough); " +
			"listings of every subset of 4 providers with default and custom templates in 3 places; New for 10 kinds of factories and values with every combination of 4 defaults and 4 options, and sequences of up to 3 of it with factories that change what they are given",
		Run: func(x *X) {
			var toks []provOcc
			for _, s := range []string{"csv", "json", "bad", "csv,a=1", "csv,z=1,y=2", "x y,a=1\\,2,a", "a=3", ""} {
				toks = append(toks, provOcc{false, s})
			}
			for _, s := range []string{"a=1", "b=2,a=7", "z=1", "a=x,y", "b=%d"} {
				toks = append(toks, provOcc{true, s})
			}
			for reg := 0; reg <= 5; reg++ {
				for place := 0; place <= 2; place++ {
					for argFlag := 0; argFlag <= 2; argFlag++ {
						for kind := 0; kind <= 3; kind++ {
							for _, dis := range []bool{false, true} {
								c := provConfig{reg, place, argFlag, kind, dis}
								depth := 2
								if x.Thorough || place == 0 && argFlag < 2 && (reg == 1 || kind == 0) && !dis {
									depth = 3
								}
								words(toks, 0, depth, func(w []provOcc) {
									if x.Stop() {
										return
									}
									l := clone(w)
									x.Case(func() string { return fmt.Sprintf("line|%+v %+v", c, l) }, func(t *T) { c.run(t, l) })
								})
							}
						}
					}
				}
			}
			subsets([]string{"csv", "json", "yaml", ""}, func(s []string) {
				l := clone(s)
				for place := 0; place <= 2; place++ {
					for v := 0; v < 4; v++ {
						x.Case(func() string { return fmt.Sprintf("list|%q %d %d", l, place, v) }, func(t *T) { provList(t, l, v&1 != 0, v&2 != 0, place) })
					}
				}
			})
			maps3 := []map[string]string{nil, {}, {"a": "2", "b": "3"}}
			for own := 0; own < 4; own++ {
				for i, d := range []map[string]string{nil, {}, {"a": "1"}, {"a": "1", "c": "4"}} {
					words([]int{0, 1, 2}, 1, 3, func(w []int) {
						l := clone(w)
						x.Case(func() string { return fmt.Sprintf("sequence|%d %d %v", own, i, l) }, func(t *T) {
							var seq []map[string]string
							for _, k := range l {
								seq = append(seq, maps3[k])
							}
							provSequence(t, d, seq, own)
						})
					})
				}
			}
			maps4 := []map[string]string{nil, {"a": "1"}, {"a": "2", "b": "3"}, {"b": "bad", "z": "1"}}
			for kind := 0; kind <= 9; kind++ {
				for i, d := range maps4 {
					for j, o := range maps4 {
						for _, lk := range []string{"p", "P", "other"} {
							x.Case(func() string { return fmt.Sprintf("new|%d %d %d %s", kind, i, j, lk) }, func(t *T) {
								provNew(t, kind, maps.Clone(d), maps.Clone(o), lk)
							})
						}
					}
				}
			}
		},
	})
}
