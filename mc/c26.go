package main

import (
	"context"
	"fmt"
	"maps"
	"os"
	"reflect"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Attributes of flags, args, commands, apps and expressions which are set by
// prototypes and actions.

type atComp string

func (a atComp) Complete(context.Context) []cli.CompletionItem {
	return []cli.CompletionItem{{Value: string(a)}}
}

// where an attribute is given
const (
	atNone = iota
	atTarget
	atProto
	atBoth
)

type atAttr struct {
	name  string
	kinds string // f a c p(app) e
	merge bool
}

var atAttrs = []atAttr{
	{"Category", "face", false},
	{"HelpText", "facpe", false},
	{"ManualText", "facpe", false},
	{"UsageText", "facpe", false},
	{"Description", "facpe", false},
	{"DefaultText", "fa", false},
	{"Name", "facp", false},
	{"FilePath", "fa", false},
	{"Value", "fa", false},
	{"NArg", "a", false},
	{"Completion", "fac", false},
	{"Aliases", "fce", true},
	{"EnvVars", "fa", true},
	{"Data", "facpe", true},
	{"Options", "facpe", true},
}

func atFor(kind byte) (res []atAttr) {
	for _, a := range atAttrs {
		if strings.IndexByte(a.kinds, kind) >= 0 {
			res = append(res, a)
		}
	}
	return
}

// atValue is what who (t, p or second prototype) gives for the attribute
func atValue(name, who string) any {
	switch name {
	case "Name":
		return "name" + who
	case "Value":
		return new([]string)
	case "NArg":
		return map[string]int{"t": 1, "p": 2, "q": 3}[who]
	case "Completion":
		return atComp("comp" + who)
	case "Aliases":
		return append(make([]string, 0, 4), "alias"+who, "b"+who)
	case "EnvVars":
		return append(make([]string, 0, 4), "JOE_MC_"+strings.ToUpper(who))
	case "Data":
		return map[string]any{"d" + who: who}
	case "Options":
		return map[string]cli.Option{"t": cli.DisableSplitting, "p": cli.Hidden, "q": cli.Hidden}[who]
	}
	return strings.ToLower(name) + " of " + who
}

func atSet(obj any, name string, v any) {
	f := reflect.ValueOf(obj).Elem().FieldByName(name)
	f.Set(reflect.ValueOf(v))
}

func atGet(obj any, name string) any {
	return reflect.ValueOf(obj).Elem().FieldByName(name).Interface()
}

func atIsZero(v any) bool {
	rv := reflect.ValueOf(v)
	return !rv.IsValid() || rv.IsZero() || (rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice) && rv.Len() == 0
}

// a run with a target of some kind, which has uses
type atRun struct {
	kind   byte
	target any // pointer to struct with the attributes
	files  *memFS
	wrap   func(*cli.App) // last changes
	env    map[string]string

	got  map[string]any // getters of the context
	res  runResult
	rans int
	vals []string
	hid  bool
	comp []string
}

func atNew(kind byte) *atRun {
	r := &atRun{kind: kind}
	switch kind {
	case 'f':
		r.target = &cli.Flag{Name: "plain"}
	case 'a':
		r.target = &cli.Arg{Name: "plain"}
	case 'c':
		r.target = &cli.Command{Name: "plain"}
	case 'p':
		r.target = &cli.App{Name: "plain"}
	case 'e':
		r.target = &expr.Expr{Name: "plain"}
	}
	return r
}

func (r *atRun) run(uses cli.Action, line ...string) {
	r.got = map[string]any{}
	see := cli.ActionOf(func(c *cli.Context) {
		r.rans++
		r.got["Category"], r.got["HelpText"], r.got["ManualText"] = c.Category(), c.HelpText(), c.ManualText()
		r.got["UsageText"], r.got["Description"], r.got["Data"] = c.UsageText(), c.Description(), c.Data()
		r.got["Aliases"], r.got["Completion"] = c.Aliases(), any(c.Completion())
		if _, ok := r.got["Completion"].(atComp); !ok {
			delete(r.got, "Completion") // the default
		}
		r.got["Name"] = strings.Trim(c.Name(), "-<>")
	})
	values := cli.ActionOf(func(c *cli.Context) { r.vals = c.Raw("")[1:] })
	if uses != nil {
		atSet(r.target, "Uses", uses)
	}
	atSet(r.target, "Before", see)
	app := &cli.App{Name: "app", Action: func() {}}
	switch o := r.target.(type) {
	case *cli.Flag:
		o.Action = values
		app.Flags = []*cli.Flag{o}
	case *cli.Arg:
		o.Action = values
		app.Args = []*cli.Arg{o}
	case *cli.Command:
		o.Action = func() {}
		app.Commands = []*cli.Command{o}
	case *cli.App:
		o.Action = func() {}
		app = o
	case *expr.Expr:
		app.Args = []*cli.Arg{{Name: "e", NArg: -1, Value: &expr.Expression{Exprs: []*expr.Expr{o}}}}
	}
	if r.files != nil {
		app.FS = r.files
	}
	if r.wrap != nil {
		r.wrap(app)
	}
	for k, v := range r.env {
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	r.res = runApp(app, line...)
	switch o := r.target.(type) {
	case *cli.Flag:
		root, _ := app.Command("")
		r.hid = !slices.Contains(root.VisibleFlags(), o)
	case *cli.Arg:
		root, _ := app.Command("")
		r.hid = !slices.Contains(root.VisibleArgs(), o)
	case *cli.Command:
		root, _ := app.Command("")
		r.hid = !slices.Contains(root.VisibleSubcommands(), o)
	case *expr.Expr:
		v := app.Args[0].Value.(*expr.Expression)
		r.hid = !slices.Contains(v.VisibleExprs(), o)
	}
}

// atCheck compares the attributes after the run; want has those given, by
// source in order
func (r *atRun) check(t *T, want map[string][]string, given map[string]map[string]any) {
	for _, m := range r.differ(want, given) {
		t.Failf("%s", m)
	}
}

func (r *atRun) differ(want map[string][]string, given map[string]map[string]any) (res []string) {
	fail := func(f string, a ...any) { res = append(res, fmt.Sprintf(f, a...)) }
	for _, a := range atFor(r.kind) {
		who := want[a.name]
		get := func(who string) any { return given[who][a.name] }
		switch a.name {
		case "Options":
			if r.kind == 'p' {
				continue
			}
			if w := slices.ContainsFunc(who, func(s string) bool { return s != "t" }); r.hid != w {
				fail("hidden: implementation %v, expected %v", r.hid, w)
			}
			if r.kind != 'e' {
				var w cli.Option
				for _, s := range who {
					w |= get(s).(cli.Option)
				}
				if g := atGet(r.target, "Options").(cli.Option) & (cli.Hidden | cli.DisableSplitting); g != w {
					fail("options: implementation %v, expected %v", g, w)
				}
			}
			continue
		case "Value":
			if len(who) == 0 {
				continue // something is made
			}
			if atGet(r.target, "Value") != get(who[0]) {
				fail("value is not the one of %s", who[0])
			}
			continue
		}
		var w any
		switch {
		case len(who) == 0 && a.name == "Name":
			w = "plain"
		case len(who) == 0:
		case a.name == "Data":
			m := map[string]any{}
			for _, s := range who {
				maps.Copy(m, map[string]any{"d" + s: s})
			}
			w = m
		case a.merge:
			var l []string
			for _, s := range who {
				l = append(l, atValue(a.name, s).([]string)...)
			}
			slices.Sort(l)
			w = l
		default:
			w = get(who[0])
		}
		norm := func(v any) any {
			if l, ok := v.([]string); ok {
				l = clone(l)
				slices.Sort(l)
				v = l
			}
			if m, ok := v.(map[string]any); ok {
				m = maps.Clone(m)
				maps.DeleteFunc(m, func(k string, _ any) bool { return strings.HasPrefix(k, "__") })
				v = m
			}
			return v
		}
		eq := func(label string, g any) {
			g = norm(g)
			if atIsZero(g) && atIsZero(w) {
				return
			}
			if !reflect.DeepEqual(g, w) {
				fail("%s %s: implementation %#v, expected %#v", label, a.name, g, w)
			}
		}
		if r.kind != 'p' {
			eq("field", atGet(r.target, a.name))
		}
		if _, ok := r.got[a.name]; ok && r.kind != 'e' && r.rans > 0 && !(r.kind == 'p' && a.name == "Name") {
			eq("context", r.got[a.name])
		}
	}
	return
}

// give sets the attributes of each source, and tells them
func atGive(names []string, who string, obj any, given map[string]map[string]any) {
	if given[who] == nil {
		given[who] = map[string]any{}
	}
	for _, n := range names {
		v := atValue(n, who)
		given[who][n] = v
		atSet(obj, n, v)
	}
}

func atPrototype(t *T, kind byte, states []int) {
	attrs := atFor(kind)
	var target, proto []string
	want := map[string][]string{}
	for i, a := range attrs {
		if states[i]&atTarget != 0 {
			target = append(target, a.name)
			want[a.name] = append(want[a.name], "t")
		}
		if states[i]&atProto != 0 {
			proto = append(proto, a.name)
			want[a.name] = append(want[a.name], "p")
		}
		if a.name == "Name" && states[i] != atNone {
			continue
		}
	}
	given := map[string]map[string]any{}
	r := atNew(kind)
	if n := len(want["Name"]); n > 0 && kind != 'e' {
		atSet(r.target, "Name", "")
	}
	p := cli.Prototype{}
	atGive(target, "t", r.target, given)
	atGive(proto, "p", &p, given)
	var line []string
	if kind == 'c' {
		line = []string{"plain"}
		if n := want["Name"]; len(n) > 0 {
			line = []string{"name" + n[0]}
		}
	}
	if n := want["NArg"]; kind == 'a' && len(n) > 0 {
		line = []string{"v", "w", "x"}[:atValue("NArg", n[0]).(int)]
	}
	r.run(p, line...)
	t.Eq("error", r.res.Error, error(nil))
	if kind != 'e' {
		t.Eq("before runs", r.rans, 1)
	}
	r.check(t, want, given)
	t.State(string(kind), states)
	for n, v := range given["p"] {
		if a := atGet(&p, n); !reflect.DeepEqual(a, v) && n != "Value" {
			t.Failf("prototype changed: %s is %v", n, a)
		}
	}
	for _, s := range given {
		if l, ok := s["EnvVars"].([]string); ok && !slices.Equal(l[:cap(l)][1:], []string{"", "", ""}) {
			t.Failf("storage of env vars changed: %q", l[:cap(l)])
		}
		if l, ok := s["Aliases"].([]string); ok && !slices.Equal(l[:cap(l)][2:], []string{"", ""}) {
			t.Failf("storage of aliases changed: %q", l[:cap(l)])
		}
	}
}

// what the attributes that have an effect do
func atEffects(t *T, kind byte, name, alias, env, file, value, narg int) {
	mk := func() (*atRun, cli.Prototype, map[string]map[string]any) {
		given := map[string]map[string]any{}
		r, p := atNew(kind), cli.Prototype{}
		if name != atNone {
			atSet(r.target, "Name", "")
		}
		for n, st := range map[string]int{"Name": name, "Aliases": alias, "EnvVars": env, "FilePath": file, "Value": value, "NArg": narg} {
			if !slices.ContainsFunc(atFor(kind), func(a atAttr) bool { return a.name == n }) {
				continue
			}
			if st&atTarget != 0 {
				atGive([]string{n}, "t", r.target, given)
			}
			if st&atProto != 0 {
				atGive([]string{n}, "p", &p, given)
			}
		}
		r.files = newMemFS(map[string]string{"filepath of t": "ft", "filepath of p": "fp"})
		return r, p, given
	}
	names := []string{"plain", "namet", "namep", "namep"}
	count := []int{1, 1, 2, 1}[narg]
	if kind == 'f' {
		count = 1
	}
	where := func(r *atRun, given map[string]map[string]any) []string {
		switch value {
		case atTarget, atBoth:
			return *given["t"]["Value"].(*[]string)
		case atProto:
			return *given["p"]["Value"].(*[]string)
		}
		switch v := atGet(r.target, "Value").(type) {
		case *string:
			return []string{*v}
		case *[]string:
			return *v
		}
		return nil
	}
	if name == atBoth {
		names[atBoth] = "namet"
	}
	// by name and alias
	var lines [][]string
	var works []bool
	for _, n := range []string{"plain", "namet", "namep", "aliast", "aliasp", "bt", "bp"} {
		ok := n == names[name]
		if strings.HasPrefix(n, "alias") || n[0] == 'b' {
			ok = n[len(n)-1] == 't' && alias&atTarget != 0 || n[len(n)-1] == 'p' && alias&atProto != 0
		}
		line := []string{"--" + n, "v"}
		if len(n) == 2 {
			line[0] = "--" + n
		}
		switch kind {
		case 'c':
			line = []string{n}
		case 'a':
			if n != names[name] {
				continue
			}
			line = []string{"v", "w", "x"}[:count]
		}
		lines = append(lines, line)
		works = append(works, ok)
	}
	for i, line := range lines {
		r, p, given := mk()
		r.run(p, line...)
		t.Eq(fmt.Sprintf("%q accepted", line), r.res.Error == nil, works[i])
		if works[i] && kind != 'c' {
			w := []string{"v", "w", "x"}[:count]
			if g := where(r, given); !slices.Equal(g, w) {
				t.Failf("%q: value %q, expected %q", line, g, w)
			}
		}
	}
	if kind == 'c' {
		return
	}
	// from the environment and files
	subsets([]string{"t", "p"}, func(vars []string) {
		r, p, given := mk()
		r.env = map[string]string{}
		w := ""
		for _, v := range vars {
			r.env["JOE_MC_"+strings.ToUpper(v)] = "env" + v
			if w == "" && (v == "t" && env&atTarget != 0 || v == "p" && env&atProto != 0) {
				w = "env" + v
			}
		}
		if w == "" {
			w = []string{"", "ft", "fp", "ft"}[file]
		}
		r.run(p)
		if narg != atNone && kind == 'a' {
			return // required
		}
		t.Eq("error", r.res.Error, error(nil))
		g := strings.Join(where(r, given), ",")
		if env == atBoth && len(vars) == 2 && (g == "envt" || g == "envp") {
			return
		}
		t.Eq(fmt.Sprintf("value with %v", vars), g, w)
	})
	t.State(string(kind), name, alias, env, file, value, narg)
}

// several prototypes in order
func atTwo(t *T, kind byte, attr atAttr, in []bool, rest bool, form int) {
	given := map[string]map[string]any{}
	r := atNew(kind)
	ps := []*cli.Prototype{{}, {}}
	want := map[string][]string{}
	for i, who := range []string{"t", "p", "q"} {
		obj := r.target
		if i > 0 {
			obj = ps[i-1]
		}
		for _, a := range atFor(kind) {
			if a.name == "Name" {
				continue
			}
			if a == attr && in[i] || a != attr && rest {
				if kind == 'e' && !a.merge && len(want[a.name]) > 0 {
					continue // not decided
				}
				atGive([]string{a.name}, who, obj, given)
				want[a.name] = append(want[a.name], who)
			}
		}
	}
	var a cli.Action
	switch form {
	case 0:
		a = cli.Pipeline(*ps[0], *ps[1])
	case 1:
		a = cli.Pipeline(ps[0], func() {}, cli.Pipeline(ps[1]))
	case 2:
		a = cli.Setup{Uses: cli.Pipeline(*ps[0], *ps[1])}
	case 3:
		a = ps[0].Use(*ps[1])
	case 4:
		a = cli.ActionOf(func(c *cli.Context) error { return c.Do(cli.Pipeline(*ps[0], *ps[1])) })
	case 5, 6:
		// Asking for the value makes one if there is none, which isn't one that was given
		touch := cli.ActionOf(func(c *cli.Context) { c.Value("") })
		a = cli.Pipeline(touch, *ps[0], *ps[1])
		if form == 6 {
			a = cli.Pipeline(*ps[0], touch, *ps[1])
		}
	}
	var line []string
	if kind == 'c' {
		line = []string{"plain"}
	}
	if kind == 'a' && len(want["NArg"]) > 0 {
		line = []string{"v", "w", "x"}[:atValue("NArg", want["NArg"][0]).(int)]
	}
	r.run(a, line...)
	t.Eq("error", r.res.Error, error(nil))
	r.check(t, want, given)
	t.State(string(kind), attr.name, in, rest)
}

// setup prevented
func atPrevent(t *T, kind byte, where string, pos int, names []string) {
	given := map[string]map[string]any{}
	r := atNew(kind)
	p := cli.Prototype{}
	var parts []string
	part := func(s string) cli.Action { return cli.ActionOf(func() { parts = append(parts, s) }) }
	p.Setup = cli.Setup{Uses: part("U"), Before: part("B"), Action: part("A"), After: part("Z")}
	atGive(names, "p", &p, given)
	prevented := true
	var uses cli.Action = p
	switch where {
	case "option":
		atSet(r.target, "Options", cli.PreventSetup)
	case "action":
		uses = cli.Pipeline(cli.PreventSetup, p)
	case "late":
		uses = cli.Pipeline(p, cli.PreventSetup)
		prevented = false
	case "app option":
		r.wrap = func(a *cli.App) { a.Options |= cli.PreventSetup }
	case "app action":
		r.wrap = func(a *cli.App) { a.Uses = cli.Pipeline(a.Uses, cli.PreventSetup) }
		if kind == 'p' {
			prevented = false
		}
	case "sibling":
		r.wrap = func(a *cli.App) {
			a.Flags = append(a.Flags, &cli.Flag{Name: "other", Value: new(bool), Options: cli.PreventSetup})
			a.Commands = append(a.Commands, &cli.Command{Name: "other", Options: cli.PreventSetup})
		}
		prevented = false
	case "none":
		prevented = false
	}
	want := map[string][]string{}
	if !prevented {
		for _, n := range names {
			want[n] = []string{"p"}
		}
	}
	if slices.Contains(names, "Name") && kind != 'e' && !prevented {
		atSet(r.target, "Name", "")
	}
	var line []string
	switch kind {
	case 'c':
		line = []string{"plain"}
		if len(want["Name"]) > 0 {
			line = []string{"namep"}
		}
	case 'a':
		line = []string{"v"}
		if len(want["NArg"]) > 0 {
			line = []string{"v", "w"}
		}
	case 'f':
		line = []string{"--plain", "v"}
		if len(want["Name"]) > 0 {
			line = []string{"--namep", "v"}
		}
	}
	if where == "sibling" && kind != 'c' && kind != 'p' && kind != 'f' {
		r.wrap = func(a *cli.App) {
			a.Flags = append(a.Flags, &cli.Flag{Name: "other", Value: new(bool), Options: cli.PreventSetup})
		}
	}
	r.run(uses, line...)
	t.State(string(kind), where, names)
	ran := strings.Join(parts, "")
	all := "UBAZ"
	if kind == 'e' {
		all, ran = "", strings.Trim(ran, "UBAZ") // it is not evaluated
	}
	if prevented {
		diff := r.differ(want, given)
		if r.res.Error == nil && len(diff) == 0 && ran == "" && (kind != 'e' || len(parts) == 0) {
			return
		}
		for _, n := range names {
			if kind != 'c' && kind != 'p' || strings.HasSuffix(n, "Text") || n == "Category" || n == "Description" {
				if n != "Name" {
					want[n] = []string{"p"}
				}
			}
		}
		if kind == 'a' && len(want["NArg"]) > 0 && strings.HasPrefix(errText(r.res.Error), "expected 2 arguments") {
			r.res.Error, ran = nil, all
		}
		if r.res.Error == nil && len(r.differ(want, given)) == 0 && ran == all {
			t.Known("prototype-prevented", "%c %v", kind, names)
			return
		}
		t.Failf("setup was prevented: %v, parts %q, %s", r.res.Error, ran, strings.Join(diff, "\n"))
		return
	}
	t.Eq("error", r.res.Error, error(nil))
	r.check(t, want, given)
	t.Eq("parts of setup", ran, all)
}

// targets which share the storage of what they are given
func atShare(t *T, kind byte, ops []string) {
	mkNames := func(s string) []string { return append(make([]string, 0, 8), s+"1", s+"2") }
	own, pAliases, pEnv := mkNames("own"), mkNames("proto"), mkNames("JOE_MC_X")
	pData := map[string]any{"p": 1}
	proto := cli.Prototype{Aliases: pAliases, EnvVars: pEnv, Data: pData}
	var uses [2]cli.ActionPipeline
	wantAliases := [2][]string{clone(own), clone(own)}
	wantEnv := [2][]string{}
	wantData := [2]map[string]any{{}, {}}
	for n, op := range ops {
		i := op[len(op)-1] - '0'
		var a cli.Action
		switch op[:len(op)-1] {
		case "proto":
			a = proto
			wantAliases[i] = append(wantAliases[i], pAliases...)
			wantEnv[i] = append(wantEnv[i], pEnv...)
			wantData[i]["p"] = 1
		case "alias":
			s := fmt.Sprintf("new%d", n)
			a = cli.Alias(s)
			wantAliases[i] = append(wantAliases[i], s)
		case "aliases":
			s := fmt.Sprintf("more%d", n)
			a = cli.Alias(append(make([]string, 0, 4), s)...)
			wantAliases[i] = append(wantAliases[i], s)
		case "remove":
			a = cli.RemoveAlias("own1")
			wantAliases[i] = slices.DeleteFunc(wantAliases[i], func(s string) bool { return s == "own1" })
		case "removep":
			a = cli.RemoveAlias("proto1")
			wantAliases[i] = slices.DeleteFunc(wantAliases[i], func(s string) bool { return s == "proto1" })
		case "data":
			a = cli.Data("p", 10+n)
			wantData[i]["p"] = 10 + n
		case "nodata":
			a = cli.Data("p", nil)
			delete(wantData[i], "p")
		}
		uses[i] = append(uses[i], a)
	}
	app := &cli.App{Name: "app", Action: func() {}}
	var objs [2]any
	for i := range 2 {
		name := fmt.Sprintf("x%d", i)
		if kind == 'f' {
			f := &cli.Flag{Name: name, Aliases: own, Uses: uses[i]}
			app.Flags = append(app.Flags, f)
			objs[i] = f
		} else {
			c := &cli.Command{Name: name, Aliases: own, Uses: uses[i], Action: func() {}}
			app.Commands = append(app.Commands, c)
			objs[i] = c
		}
	}
	r := runApp(app)
	if kind == 'f' {
		t.Eq("error", r.Error, error(nil))
	}
	for i, o := range objs {
		t.Eq(fmt.Sprintf("aliases of %d", i), fmt.Sprint(atGet(o, "Aliases")), fmt.Sprint(wantAliases[i]))
		d, _ := atGet(o, "Data").(map[string]any)
		t.Eq(fmt.Sprintf("data of %d", i), fmt.Sprint(len(d), d["p"]), fmt.Sprint(len(wantData[i]), wantData[i]["p"]))
		if kind == 'f' {
			t.Eq(fmt.Sprintf("env of %d", i), fmt.Sprint(atGet(o, "EnvVars")), fmt.Sprint(wantEnv[i]))
		}
	}
	t.Eq("own aliases", fmt.Sprint(own), "[own1 own2]")
	t.Eq("aliases of the prototype", fmt.Sprint(pAliases), "[proto1 proto2]")
	t.Eq("data of the prototype", fmt.Sprint(pData), "map[p:1]")
	t.State(string(kind), wantAliases, wantData)
}

// actions which set attributes
func atActions(t *T, kind byte, initial bool, ops []string, form int) {
	r := atNew(kind)
	want := map[string]any{}
	names := []string{"Category", "HelpText", "ManualText", "UsageText", "Description"}
	for _, a := range atFor(kind) {
		if slices.Contains(names, a.name) || a.name == "Aliases" || a.name == "Data" {
			if initial {
				want[a.name] = atValue(a.name, "t")
				atSet(r.target, a.name, want[a.name])
			}
		}
	}
	data := map[string]any{}
	if initial {
		data["dt"] = "t"
	}
	var aliases []string
	if initial && (kind == 'f' || kind == 'c' || kind == 'e') {
		aliases = []string{"aliast", "bt"}
	}
	name := "plain"
	var p cli.ActionPipeline
	for n, op := range ops {
		v := fmt.Sprint(op, n)
		var a cli.Action
		var m func(*cli.Context) error
		switch op {
		case "Category":
			a, m = cli.Category(v), func(c *cli.Context) error { return c.SetCategory(v) }
			want[op] = v
		case "HelpText":
			a, m = cli.HelpText(v), func(c *cli.Context) error { return c.SetHelpText(v) }
			want[op] = v
		case "ManualText":
			a, m = cli.ManualText(v), func(c *cli.Context) error { return c.SetManualText(v) }
			want[op] = v
		case "UsageText":
			a, m = cli.UsageText(v), func(c *cli.Context) error { return c.SetUsageText(v) }
			want[op] = v
		case "Description":
			a, m = cli.Description(v), func(c *cli.Context) error { return c.SetDescription(v) }
			want[op] = v
		case "Named":
			v := strings.ToLower(v)
			a, m = cli.Named(v), func(c *cli.Context) error { return c.SetName(v) }
			name = v
		case "Data":
			a, m = cli.Data("k", v), func(c *cli.Context) error { return c.SetData("k", v) }
			data["k"] = v
		case "NoData":
			a, m = cli.Data("dt", nil), func(c *cli.Context) error { return c.SetData("dt", nil) }
			delete(data, "dt")
		case "NoDataK":
			a, m = cli.Data("k", nil), func(c *cli.Context) error { return c.SetData("k", nil) }
			delete(data, "k")
		case "Alias":
			a, m = cli.Alias(v, v+"x"), func(c *cli.Context) error { return c.AddAlias(v, v+"x") }
			if kind == 'f' || kind == 'c' {
				aliases = append(aliases, v, v+"x")
			}
		case "RemoveAlias":
			a, m = cli.RemoveAlias("bt"), func(c *cli.Context) error { return c.RemoveAlias("bt") }
			if kind == 'f' || kind == 'c' {
				aliases = slices.DeleteFunc(aliases, func(s string) bool { return s == "bt" })
			}
		}
		if form == 1 {
			a = cli.ActionOf(m)
		}
		p = append(p, a)
	}
	var line []string
	switch kind {
	case 'c':
		line = []string{name}
	case 'f':
		line = []string{"--" + name, "v"}
	case 'e':
		line = []string{"--", "-" + name}
	}
	var uses cli.Action = p
	if form == 2 {
		uses = nil
		pattern := map[byte]string{'f': "--plain", 'a': "<plain>", 'c': "plain", 'p': "", 'e': ""}[kind]
		r.wrap = func(a *cli.App) { a.Uses = cli.Customize(pattern, p) }
	}
	r.run(uses, line...)
	t.Eq("error", r.res.Error, error(nil))
	if kind != 'e' {
		t.Eq("runs", r.rans, 1)
	}
	for _, a := range atFor(kind) {
		var w any
		switch {
		case slices.Contains(names, a.name):
			w = want[a.name]
		case a.name == "Name":
			w = name
		case a.name == "Data":
			w = data
		case a.name == "Aliases":
			w = aliases
		default:
			continue
		}
		eq := func(label string, g any) {
			if m, ok := g.(map[string]any); ok {
				m = maps.Clone(m)
				maps.DeleteFunc(m, func(k string, _ any) bool { return strings.HasPrefix(k, "__") })
				g = m
			}
			if atIsZero(g) && atIsZero(w) {
				return
			}
			if !reflect.DeepEqual(g, w) {
				t.Failf("%s %s: implementation %#v, expected %#v", label, a.name, g, w)
			}
		}
		if kind != 'p' {
			eq("field", atGet(r.target, a.name))
		}
		if g, ok := r.got[a.name]; ok && kind != 'e' {
			eq("context", g)
		}
	}
	if kind == 'e' {
		t.Eq("name of operator", atGet(r.target, "Name"), any(name))
	}
	t.State(string(kind), initial, ops)
}

func init() {
	register(&Prop{
		ID: "C26",
		Bound: "for flag, arg, command, app and expression: all assignments of their 7-14 attributes to nobody, the target, the prototype or both with up to 2 (thorough: 3) differing from the others; " +
			"effects of names, aliases, environment, files, values and counts in all combinations; three sources of each attribute in 7 forms; 7 ways to prevent setup; up to 3 (4) operations on two targets sharing storage; " +
			"up to 2 (3) of 11 attribute actions in 3 forms",
		Assumptions: []string{"which of two values of the same data name or the order of environment variables is not compared"},
		Run: func(x *X) {
			deviate := 2
			if x.Thorough {
				deviate = 3
			}
			for _, kind := range []byte("facpe") {
				attrs := atFor(kind)
				n := len(attrs)
				seen := map[string]bool{}
				for base := range 4 {
					st := make([]int, n)
					for i := range st {
						st[i] = base
					}
					var rec func(from, left int)
					rec = func(from, left int) {
						s := clone(st)
						for i, a := range attrs {
							if kind == 'e' && !a.merge && s[i] == atBoth {
								s[i] = atTarget
							}
						}
						if kk := fmt.Sprint(s); !seen[kk] {
							seen[kk] = true
							x.Case(func() string { return fmt.Sprintf("proto|%c %v", kind, s) }, func(t *T) { atPrototype(t, kind, s) })
						}
						if left == 0 {
							return
						}
						for i := from; i < n; i++ {
							for v := range 4 {
								if v != base {
									st[i] = v
									rec(i+1, left-1)
								}
							}
							st[i] = base
						}
					}
					rec(0, deviate)
				}
				for _, a := range attrs {
					if a.name == "Name" {
						continue
					}
					for m := range 8 {
						for _, rest := range []bool{false, true} {
							for form := range 7 {
								in := []bool{m&1 > 0, m&2 > 0, m&4 > 0}
								x.Case(func() string { return fmt.Sprintf("two|%c %s %v %v %d", kind, a.name, in, rest, form) }, func(t *T) { atTwo(t, kind, a, in, rest, form) })
							}
						}
					}
				}
				var names []string
				for _, a := range attrs {
					names = append(names, a.name)
				}
				for _, where := range []string{"option", "action", "late", "app option", "app action", "sibling", "none"} {
					for i := range names {
						for j := i; j < len(names); j++ {
							l := slices.Compact([]string{names[i], names[j]})
							x.Case(func() string { return fmt.Sprintf("prevent|%c %s %v", kind, where, l) }, func(t *T) { atPrevent(t, kind, where, 0, l) })
						}
					}
					x.Case(func() string { return fmt.Sprintf("prevent|%c %s all", kind, where) }, func(t *T) { atPrevent(t, kind, where, 0, names) })
				}
			}
			for _, kind := range []byte("fac") {
				words([]int{0, 1, 2, 3}, 6, 6, func(w []int) {
					if kind != 'a' && w[5] != 0 || kind == 'a' && w[1] != 0 || kind == 'c' && (w[2] != 0 || w[3] != 0 || w[4] != 0) {
						return
					}
					s := clone(w)
					x.Case(func() string { return fmt.Sprintf("effect|%c %v", kind, s) }, func(t *T) { atEffects(t, kind, s[0], s[1], s[2], s[3], s[4], s[5]) })
				})
			}
			n := 3
			if x.Thorough {
				n = 4
			}
			var ops []string
			for _, o := range []string{"proto", "alias", "aliases", "remove", "removep", "data", "nodata"} {
				ops = append(ops, o+"0", o+"1")
			}
			for _, kind := range []byte("fc") {
				words(ops, 1, n, func(w []string) {
					l := clone(w)
					x.Case(func() string { return fmt.Sprintf("share|%c %v", kind, l) }, func(t *T) { atShare(t, kind, l) })
				})
			}
			acts := []string{"Category", "HelpText", "ManualText", "UsageText", "Description", "Named", "Data", "NoData", "NoDataK", "Alias", "RemoveAlias"}
			for _, kind := range []byte("facpe") {
				for _, initial := range []bool{false, true} {
					for form := range 3 {
						if kind == 'e' && form == 2 {
							continue
						}
						words(acts, 1, n-1, func(w []string) {
							l := clone(w)
							x.Case(func() string { return fmt.Sprintf("action|%c %v %v %d", kind, initial, l, form) }, func(t *T) { atActions(t, kind, initial, l, form) })
						})
					}
				}
			}
		},
	})
}
