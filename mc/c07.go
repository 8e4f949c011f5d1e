package main

import (
	"fmt"
	"os"
	"strings"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
)

// Where the value of an option comes from when the command line doesn't say.

type impKind struct {
	name    string
	text    [5]string // text given by: command line, implying flag, implicit value, environment, file
	initial string
	mk      func(dflt bool) any
	show    func(c *cli.Context) string
	// want: the value after the texts, given the initial value and whether to merge
	want func(initial string, texts []string, merge bool) string
}

func lastOf(initial string, texts []string, _ bool) string {
	if len(texts) > 0 {
		return texts[len(texts)-1]
	}
	return initial
}

func impKinds() []impKind {
	return []impKind{
		{"string", [5]string{"cl", "imp", "iv", "env", "file"}, "d",
			func(d bool) any {
				s := new(string)
				if d {
					*s = "d"
				}
				return s
			},
			func(c *cli.Context) string { return c.String("o") },
			func(i string, ts []string, m bool) string {
				if !m && len(ts) < 2 {
					return lastOf(i, ts, m)
				}
				// several tokens of one argument are joined
				if i != "" && m {
					ts = append([]string{i}, ts...)
				}
				return strings.Join(ts, " ")
			}},
		{"int", [5]string{"1", "2", "3", "4", "5"}, "7",
			func(d bool) any {
				s := new(int)
				if d {
					*s = 7
				}
				return s
			},
			func(c *cli.Context) string { return fmt.Sprint(c.Int("o")) },
			func(i string, ts []string, m bool) string {
				if i == "" {
					i = "0"
				}
				return lastOf(i, ts, m)
			}},
		{"bool", [5]string{"true", "TRUE", "on", "1", "t"}, "true",
			func(d bool) any {
				s := new(bool)
				*s = d
				return s
			},
			func(c *cli.Context) string { return fmt.Sprint(c.Bool("o")) },
			func(i string, ts []string, m bool) string { return fmt.Sprint(i != "" || len(ts) > 0) }},
		{"list", [5]string{"c,l", "i,mp", "iv", "e,nv", "fi,le"}, "d1,d2",
			func(d bool) any {
				s := new([]string)
				if d {
					*s = []string{"d1", "d2"}
				}
				return s
			},
			func(c *cli.Context) string { return fmt.Sprintf("%q", c.List("o")) },
			func(i string, ts []string, m bool) string {
				var res []string
				if i != "" && (m || len(ts) == 0) {
					res = []string{"d1", "d2"}
				}
				for _, t := range ts {
					res = append(res, strings.Split(t, ",")...)
				}
				return fmt.Sprintf("%q", res)
			}},
		{"map", [5]string{"a=1,b=2", "a=3", "c=4", "a=5,d=6", "e=7"}, "a=0,z=9",
			func(d bool) any {
				s := new(map[string]string)
				if d {
					*s = map[string]string{"a": "0", "z": "9"}
				}
				return s
			},
			func(c *cli.Context) string { return fmt.Sprint(c.Map("o")) },
			func(i string, ts []string, m bool) string {
				res := map[string]string{}
				if i != "" && (m || len(ts) == 0) {
					res["a"], res["z"] = "0", "9"
				}
				for _, t := range ts {
					for _, p := range strings.Split(t, ",") {
						k, v, _ := strings.Cut(p, "=")
						res[k] = v
					}
				}
				return fmt.Sprint(res)
			}},
		{"pair", [5]string{"a=1", "b=2", "c=3", "d=4", "e=5"}, "z=9",
			func(d bool) any {
				s := new(cli.NameValue)
				if d {
					s.Name, s.Value = "z", "9"
				}
				return s
			},
			func(c *cli.Context) string { n := c.NameValue("o"); return n.Name + "=" + n.Value },
			func(i string, ts []string, m bool) string {
				if i == "" {
					i = "="
				}
				return lastOf(i, ts, false)
			}},
	}
}

type impCase struct {
	kind    impKind
	isArg   bool
	initial bool
	merge   bool
	cl      int    // occurrences on the command line
	implies int    // 0 no such flag, 1 flag not used, 2 used
	ivs     string // implicit value actions: each - (gives nothing) or + (gives a value)
	envs    string // environment: each u (unset), e (empty), s (set), n (set, name derived from the option)
	file    string // "", missing, present, dir
	action  int    // 0, 1: ImpliedAction on option, 2: on command, 3: Trigger on option
	where   string // app, sub (in a sub-command), pers (defined by app, sub-command used)
}

func (ic impCase) String() string {
	return fmt.Sprintf("%s arg=%v init=%v merge=%v cl=%d implies=%d iv=%s env=%s file=%s act=%d %s",
		ic.kind.name, ic.isArg, ic.initial, ic.merge, ic.cl, ic.implies, ic.ivs, ic.envs, ic.file, ic.action, ic.where)
}

// source of the value: the texts, and whether it is implied
func (ic impCase) model() (texts []string, implied bool) {
	tx := ic.kind.text
	if ic.cl > 0 {
		if ic.kind.name == "string" && !ic.isArg && !ic.merge {
			return []string{tx[0]}, false
		}
		for range ic.cl {
			texts = append(texts, tx[0])
		}
		return texts, false
	}
	if strings.Contains(ic.ivs, "+") {
		return []string{tx[2]}, true
	}
	if strings.ContainsAny(ic.envs, "sn") {
		return []string{tx[3]}, true
	}
	if ic.file == "present" {
		return []string{tx[4]}, true
	}
	if ic.implies == 2 {
		return []string{tx[1]}, true
	}
	return nil, false
}

func (ic impCase) run(t *T) {
	const longName = "long-name"
	var uses []any
	given := false
	for _, r := range ic.ivs {
		give := r == '+'
		txt := ic.kind.text[2]
		if given {
			txt = "9" // a second one must not replace the first
		}
		given = given || give
		uses = append(uses, cli.ImplicitValue(func(*cli.Context) (string, bool) { return txt, give }))
	}
	var envVars []string
	first := true
	for i, r := range ic.envs {
		n := fmt.Sprintf("MC_IMP_%d", i)
		val := ic.kind.text[3]
		if !first {
			val = "9"
		}
		v := n
		if r == 'n' {
			v = "MCX{}"
			n = "MCX_LONG_NAME"
			if ic.isArg {
				n = "MCX_O"
			}
		}
		os.Unsetenv(n)
		switch r {
		case 'e':
			os.Setenv(n, "")
		case 's', 'n':
			os.Setenv(n, val)
			first = false
		}
		defer os.Unsetenv(n)
		envVars = append(envVars, v)
	}
	fsys := fstest.MapFS{"present": &fstest.MapFile{Data: []byte(ic.kind.text[4])}, "dir/x": &fstest.MapFile{}}
	var opts cli.Option
	if ic.merge {
		opts |= cli.Merge
	}
	var appOpts cli.Option
	switch ic.action {
	case 1:
		opts |= cli.ImpliedAction
	case 2:
		appOpts = cli.ImpliedAction
	case 3:
		opts |= cli.Trigger
	}
	var log []string
	var seen, implied, beforeVal string
	optAction := func(c *cli.Context) { log = append(log, "option") }
	before := func(c *cli.Context) { beforeVal = ic.kind.show(c); implied = fmt.Sprint(c.ImplicitlySet()) }
	flag := &cli.Flag{Name: "o", Aliases: []string{longName}, Value: ic.kind.mk(ic.initial), Options: opts, Uses: cli.Pipeline(uses...),
		EnvVars: envVars, FilePath: ic.file, Action: optAction, Before: before}
	arg := &cli.Arg{Name: "o", Value: ic.kind.mk(ic.initial), Options: opts, Uses: cli.Pipeline(uses...),
		EnvVars: envVars, FilePath: ic.file, Action: optAction, Before: before, NArg: cli.TakeUntilNextFlag}
	if ic.kind.name != "list" && ic.kind.name != "string" && ic.kind.name != "map" {
		arg.NArg = nil
	}
	val := ""
	action := func(c *cli.Context) {
		log = append(log, "action")
		val = ic.kind.show(c)
		seen = fmt.Sprint(c.Seen("o"), c.Occurrences("o"))
	}
	var flags []*cli.Flag
	if ic.implies > 0 {
		name := "o"
		if ic.isArg {
			name = ""
		}
		if name != "" {
			flags = append(flags, &cli.Flag{Name: "imply", Aliases: []string{"i"}, Value: new(bool), Uses: cli.Implies("-o", ic.kind.text[1])})
		}
	}
	var args []*cli.Arg
	if ic.isArg {
		args = append(args, arg)
	} else {
		flags = append(flags, flag)
	}
	app := &cli.App{Name: "app", FS: fsys, Flags: flags, Args: args, Action: action, Options: appOpts}
	var line []string
	if ic.implies == 2 {
		line = append(line, "-i")
	}
	for range ic.cl {
		if ic.isArg {
			line = append(line, ic.kind.text[0])
		} else {
			line = append(line, "--long-name="+ic.kind.text[0])
		}
	}
	switch ic.where {
	case "sub":
		app = &cli.App{Name: "app", FS: fsys, Commands: []*cli.Command{{Name: "sub", Flags: flags, Args: args, Action: action, Options: appOpts}}}
		line = append([]string{"sub"}, line...)
	case "pers":
		app.Action = nil
		app.Commands = []*cli.Command{{Name: "sub", Action: action}}
		line = append(line, "sub")
	}
	r := runApp(app, line...)
	if r.Error != nil {
		t.Failf("run fails with %v", r.Error)
		return
	}
	texts, imp := ic.model()
	finallyImplied := imp
	init := ""
	if ic.initial {
		init = ic.kind.initial
	}
	// several values of one argument occur once each
	t.Eq("value", val, ic.kind.want(init, texts, ic.merge))
	if own := ic; imp {
		// another flag implies its value only after this option's own pipeline
		own.implies = 0
		texts, imp = own.model()
	}
	t.Eq("value seen by Before", beforeVal, ic.kind.want(init, texts, ic.merge))
	t.Eq("ImplicitlySet in Before", implied, fmt.Sprint(imp))
	t.Eq("seen and occurrences", seen, fmt.Sprint(ic.cl > 0, ic.cl))
	runs := "action"
	if ic.cl > 0 || finallyImplied && (ic.action == 1 || ic.action == 2) || ic.action == 3 {
		runs = "option action"
	}
	t.Eq("actions run", strings.Join(log, " "), runs)
	t.State(val, seen, implied, runs)
}

func init() {
	register(&Prop{
		ID: "C07",
		Bound: "options of 6 value types as flag and as argument; every combination of initial value, merge, 0 to 2 occurrences on the command line, a flag that implies it (absent, unused, used), " +
			"up to 2 implicit value actions that give a value or not, up to 2 environment variables (unset, empty, set, named after the option), a file (none, missing, a directory, present), " +
			"implied-action settings, and placement in the app, in a sub-command, or as persistent flag; every choice of up to 3 (thorough: 4) environment variables; every text of up to 3 (thorough: 5) characters of 6 in a variable and a file; " +
			"the sources as actions: all sequences of up to 3 (4) of 14 of them, followed by the variables and the file of the option, as flag, arg, in a sub-command and as persistent flag, used or not",
		Run: func(x *X) {
			files := []string{"", "missing", "dir", "present"}
			ivs := []string{"", "-", "+", "-+", "++"}
			envs := []string{"", "u", "s", "n", "us", "es", "ss", "un", "ns"}
			for _, k := range impKinds() {
				for _, isArg := range []bool{false, true} {
					for _, initial := range []bool{false, true} {
						for _, merge := range []bool{false, true} {
							for cl := 0; cl <= 2; cl++ {
								// (a name-value argument can't be left out)
								if k.name == "pair" && (merge || isArg && cl == 0) {
									continue
								}
								if isArg && cl == 2 && k.name != "list" && k.name != "string" && k.name != "map" {
									continue
								}
								for implies := 0; implies <= 2; implies++ {
									if isArg && implies > 0 {
										continue
									}
									for _, iv := range ivs {
										for _, env := range envs {
											for _, file := range files {
												for act := 0; act <= 3; act++ {
													for _, where := range []string{"app", "sub", "pers"} {
														if !x.Thorough && (where != "app" && act != 0 || act > 0 && merge) {
															continue
														}
														if where == "pers" && (isArg || act == 2) {
															continue
														}
														ic := impCase{k, isArg, initial, merge, cl, implies, iv, env, file, act, where}
														x.Case(func() string { return "source|" + ic.String() }, ic.run)
													}
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
			depth := 3
			if x.Thorough {
				depth = 4
			}
			words([]rune("uesn"), 3, depth, func(envs []rune) {
				e := string(envs)
				if strings.Count(e, "n") > 1 {
					return // they would be the same variable
				}
				for _, k := range impKinds() {
					for m := 0; m < 8; m++ {
						ic := impCase{kind: k, isArg: m&1 != 0, cl: m >> 1 & 1, envs: e, file: []string{"", "present"}[m>>2&1], where: "app"}
						if k.name == "pair" && ic.isArg && ic.cl == 0 {
							continue
						}
						x.Case(func() string { return "order|" + ic.String() }, ic.run)
					}
				}
			})
			impActions(x)
			depth = 3
			if x.Thorough {
				depth = 5
			}
			words([]string{"a", " ", "\n", ",", "\\", "é"}, 1, depth, func(w []string) {
				text := strings.Join(w, "")
				x.Case(func() string { return fmt.Sprintf("text|%q", text) }, func(t *T) { impText(t, text) })
			})
		},
	})
}

// impText checks that the text of a variable or of a file is the value as it is
func impText(t *T, text string) {
	os.Setenv("MC_IMP_0", text)
	defer os.Unsetenv("MC_IMP_0")
	fsys := fstest.MapFS{"f": &fstest.MapFile{Data: []byte(text)}}
	var a, b, c, d string
	rec := new(plainValue)
	var list []string
	app := &cli.App{Name: "app", FS: fsys, Action: func() {},
		Flags: []*cli.Flag{
			{Name: "a", Value: &a, EnvVars: []string{"MC_IMP_0"}},
			{Name: "b", Value: &b, FilePath: "f"},
			{Name: "c", Value: &c, Uses: cli.ImplicitValue(func(*cli.Context) (string, bool) { return text, true })},
			{Name: "r", Value: rec, FilePath: "f"},
			{Name: "l", Value: &list, FilePath: "f", Options: cli.DisableSplitting},
		},
		Args: []*cli.Arg{{Name: "d", Value: &d, FilePath: "f"}}}
	r := runApp(app)
	t.Eq("error", errText(r.Error), "")
	t.Eq("from the environment", a, text)
	t.Eq("from a file", b, text)
	t.Eq("implicit", c, text)
	t.Eq("arg from a file", d, text)
	t.Eq("value from a file", q(rec.s), q([]string{text}))
	t.Eq("list from a file", q(list), q([]string{text}))
	t.State("text", text)
}

// impSources are actions that may give a value, with the value that they give.  The
// file system of the app has "present", the other one has "other" and "both"; "both" is
// different in the one of the app.
var impSources = []struct {
	name string
	mk   func(log *[]string) cli.Action
	want string
}{
	{"value-no", func(*[]string) cli.Action {
		return cli.ImplicitValue(func(*cli.Context) (string, bool) { return "bad", false })
	}, ""},
	{"value", func(*[]string) cli.Action {
		return cli.ImplicitValue(func(*cli.Context) (string, bool) { return "value", true })
	}, "value"},
	{"env-unset", func(*[]string) cli.Action { return cli.FromEnv("MC_IMP_U") }, ""},
	{"env-none", func(*[]string) cli.Action { return cli.FromEnv() }, ""},
	{"env", func(*[]string) cli.Action { return cli.FromEnv("MC_IMP_U", "MC_IMP_E", "MC_IMP_0", "MC_IMP_1") }, "env0"},
	{"env-name", func(*[]string) cli.Action { return cli.FromEnv("MC_IMP{}") }, "envname"},
	{"file", func(*[]string) cli.Action { return cli.FromFilePath(nil, "present") }, "text"},
	{"file-missing", func(*[]string) cli.Action { return cli.FromFilePath(nil, "other") }, ""},
	{"file-blank", func(*[]string) cli.Action { return cli.FromFilePath(nil, "") }, ""},
	{"file-other", func(*[]string) cli.Action { return cli.FromFilePath(impOther, "both") }, "otherboth"},
	{"file-other-missing", func(*[]string) cli.Action { return cli.FromFilePath(impOther, "present") }, ""},
	{"log", func(log *[]string) cli.Action {
		return cli.Implicitly(cli.ActionOf(func(c *cli.Context) { *log = append(*log, fmt.Sprint("log ", c.ImplicitlySet())) }))
	}, ""},
	{"set", func(*[]string) cli.Action {
		return cli.Implicitly(cli.ActionOf(func(c *cli.Context) error {
			if c.ImplicitlySet() {
				return nil
			}
			return c.SetValue("set")
		}))
	}, "set"},
	{"fail", func(*[]string) cli.Action { return cli.Implicitly(cli.ActionOf(func() error { return errImp })) }, ""},
}

var errImp = fmt.Errorf("implicit action fails")

var impOther = fstest.MapFS{"other": &fstest.MapFile{Data: []byte("other")}, "both": &fstest.MapFile{Data: []byte("otherboth")}}

// impActions gives values by actions
func impActions(x *X) {
	depth := 3
	if x.Thorough {
		depth = 4
	}
	var nums []int
	for i := range impSources {
		nums = append(nums, i)
	}
	words(nums, 0, depth, func(w []int) {
		if x.Stop() {
			return
		}
		w = clone(w)
		for place := range 4 { // flag, arg, flag of a sub-command, persistent flag
			for fields := range 4 {
				for cl := range 2 {
					x.Case(func() string {
						var names []string
						for _, i := range w {
							names = append(names, impSources[i].name)
						}
						return fmt.Sprintf("actions|%v place=%d fields=%d cl=%d", names, place, fields, cl)
					}, func(t *T) { impAction(t, w, place, fields, cl) })
				}
			}
		}
	})
}

func impAction(t *T, w []int, place, fields, cl int) {
	for n, v := range map[string]string{"MC_IMP_0": "env0", "MC_IMP_1": "env1", "MC_IMP_E": "", "MC_IMP_OP": "envname"} {
		os.Setenv(n, v)
		defer os.Unsetenv(n)
	}
	os.Unsetenv("MC_IMP_U")
	var log []string
	var uses []cli.Action
	var wantLog []string
	want, fails := "", false
	for _, i := range w {
		s := impSources[i]
		uses = append(uses, s.mk(&log))
		if fails {
			continue
		}
		switch {
		case s.name == "log":
			wantLog = append(wantLog, fmt.Sprint("log ", want != ""))
		case s.name == "fail":
			fails = true
		case want == "":
			want = s.want
		}
	}
	var envs []string
	var path string
	if fields&1 != 0 {
		envs = []string{"MC_IMP_1"}
		if want == "" {
			want = "env1"
		}
	}
	if fields&2 != 0 {
		path = "both"
		if want == "" {
			want = "appboth"
		}
	}
	if cl > 0 {
		want, wantLog, fails = "cl", nil, false
	}
	fsys := fstest.MapFS{"present": &fstest.MapFile{Data: []byte("text")}, "both": &fstest.MapFile{Data: []byte("appboth")}}
	var got string
	ran := false
	act := func(c *cli.Context) { got, ran = c.String("op"), true }
	app := &cli.App{Name: "app", FS: fsys}
	f := &cli.Flag{Name: "op", Value: new(string), EnvVars: envs, FilePath: path, Uses: cli.ActionPipeline(uses)}
	line := []string{"--op=cl"}[:cl]
	switch place {
	case 0:
		app.Flags, app.Action = []*cli.Flag{f}, act
	case 1:
		app.Args, app.Action = []*cli.Arg{{Name: "op", Value: new(string), EnvVars: envs, FilePath: path, Uses: cli.ActionPipeline(uses)}}, act
		line = []string{"cl"}[:cl]
	case 2:
		app.Commands = []*cli.Command{{Name: "sub", Flags: []*cli.Flag{f}, Action: act}}
		line = append([]string{"sub"}, line...)
	case 3:
		app.Flags, app.Commands = []*cli.Flag{f}, []*cli.Command{{Name: "sub", Action: act}}
		line = append(clone(line), "sub")
	}
	r := runApp(app, line...)
	if fails {
		t.Eq("error of the implicit action", r.Error, errImp)
		t.Eq("action after the failure", ran, false)
	} else {
		t.Eq("error", r.Error, nil)
		t.Eq("value", got, want)
	}
	t.Eq("implicit actions", fmt.Sprint(log), fmt.Sprint(wantLog))
	t.State("actions", got, fails)
}
