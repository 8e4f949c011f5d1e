package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"github.com/Carbonfrost/joe-cli/extensions/table"
	"github.com/Carbonfrost/joe-cli/extensions/template"
)

// Independence of runs: apps which share nothing but the process.  Each
// scenario has an outcome when it is the only thing a process does.  It has
// that outcome after any sequence of other scenarios, and when another one
// runs at the same time, in all schedules.

type ind struct {
	yield  func() // the points where the scheduler may switch
	events []string
	color  bool
}

func (d *ind) log(f string, a ...any) {
	d.events = append(d.events, fmt.Sprintf(f, a...))
	d.yield()
}

func (d *ind) act(name string) cli.Action {
	return cli.ActionFunc(func(c *cli.Context) error {
		d.log("%s %s", name, c.Path())
		return nil
	})
}

// indWriter yields before some of its writes
type indWriter struct {
	d   *ind
	n   int
	buf bytes.Buffer
}

func (w *indWriter) Write(b []byte) (int, error) {
	w.n++
	if w.n&(w.n-1) == 0 {
		w.d.yield()
	}
	return w.buf.Write(b)
}

type indString struct {
	d *ind
	s string
}

func (s indString) String() string {
	s.d.log("description")
	return s.s
}

type indValue struct {
	d *ind
	s []string
}

func (v *indValue) Set(arg string) error {
	v.d.log("set %s", arg)
	if arg == "bad" {
		return errors.New("bad value")
	}
	v.s = append(v.s, arg)
	return nil
}

func (v *indValue) String() string { return strings.Join(v.s, "/") }

type indScenario struct {
	name  string
	env   map[string]string
	args  []string
	app   func(*ind) *cli.App
	alone bool // its environment affects others, so not at the same time as others
}

type indOutcome struct {
	Error, Out, Err string
	Events          []string
}

func (s *indScenario) run(yield func()) (res indOutcome) {
	d := &ind{yield: yield}
	app := s.app(d)
	out, errb := &indWriter{d: d}, &indWriter{d: d}
	app.Name = s.name
	var o, e io.Writer = out, errb
	if d.color {
		wo, we := cli.NewWriter(out), cli.NewWriter(errb)
		wo.SetColorCapable(true)
		we.SetColorCapable(true)
		o, e = wo, we
	}
	app.Stdout, app.Stderr = o, e
	app.Stdin = strings.NewReader("standard input")
	defer func() {
		if p := recover(); p != nil {
			res.Error = fmt.Sprintf("panic: %v", p)
		}
	}()
	err := app.RunContext(context.Background(), append([]string{s.name}, s.args...))
	d.yield()
	res = indOutcome{errText(err), out.buf.String(), errb.buf.String(), d.events}
	return
}

// things that apps commonly have in a variable
var (
	indPipeline = cli.Pipeline(
		cli.HelpText("shared help"),
		cli.Alias("shared", "sh"),
		cli.Category("Shared"),
		cli.Data("shared", 1),
	)
	indProto = cli.Prototype{
		Name: "proto", Aliases: []string{"p", "pp"}, HelpText: "shared {PROTO}", Category: "Shared", UsageText: "U",
		Data: map[string]any{"a": 1}, EnvVars: []string{"IND_PROTO"}, Options: cli.Hidden,
	}
	indSetup = cli.Setup{Uses: cli.Pipeline(cli.Data("s", 2), cli.HookBefore("*", cli.ActionOf(func(c *cli.Context) {
		fmt.Fprintf(c.Stdout, "hook %s\n", c.Name())
	}))), Before: func(c *cli.Context) { fmt.Fprintf(c.Stdout, "before %s\n", c.Name()) }}
	indFormat    = &table.Format{Border: true, CenterSeparator: "+", ColumnSeparator: "|", RowSeparator: "-", AutoWrapText: true, TopLeftSeparator: "+", TopCenterSeparator: "+", TopRightSeparator: "+", CenterLeftSeparator: "+", CenterRightSeparator: "+", BottomLeftSeparator: "+", BottomCenterSeparator: "+", BottomRightSeparator: "+"}
	indEvaluator = expr.EvaluatorFunc(func(c *cli.Context, v any, y func(any) error) error { return y(v) })
)

const indLong = "text that is long enough to be wrapped when the terminal is narrow, at least when the columns are about twenty wide"

func indHelpApp(d *ind) *cli.App {
	return &cli.App{
		HelpText: "help of {APP}",
		Flags: []*cli.Flag{
			{Name: "one", Aliases: []string{"o"}, HelpText: "the first {ONE} of all", Value: new(string)},
			{Name: "two", HelpText: "the second", Value: new(bool), Category: "Cat"},
		},
		Args: []*cli.Arg{{Name: "rest", NArg: -2, Value: cli.List(), Description: indString{d, "the rest"}}},
		Commands: []*cli.Command{
			{Name: "sub", Aliases: []string{"s", "su"}, HelpText: "a command", Description: indString{d, "described " + indLong},
				Flags: []*cli.Flag{{Name: "three", HelpText: "{THIRD} one", Value: new(int), Description: indString{d, "three"}}}},
		},
		Description: indString{d, "description of the app"},
	}
}

const indTables = `{{ Table %s }}{{ Headers "Left" "Right" }}{{ Row }}{{ Cell "a" }}{{ Cell .Text }}{{ Point }}{{ Row }}{{ Cell "b" }}{{ Cell "c" }}{{ EndTable }}`

func indTableApp(format string, data any) func(d *ind) *cli.App {
	return func(d *ind) *cli.App {
		return &cli.App{
			Uses: cli.Pipeline(
				table.Options{Features: table.TemplateFuncs},
				cli.RegisterTemplateFunc("Point", func() string { d.log("point"); return "" }),
				cli.RegisterTemplate("T", fmt.Sprintf(indTables, format)),
			),
			Action: cli.Pipeline(d.act("run"), cli.ExecuteTemplate("T", func(*cli.Context) any {
				return map[string]any{"Text": indLong, "F": data}
			})),
		}
	}
}

func indScenarios() []*indScenario {
	var res []*indScenario
	add := func(name string, args string, app func(d *ind) *cli.App) *indScenario {
		s := &indScenario{name: name, args: strings.Fields(args), app: app}
		res = append(res, s)
		return s
	}
	withColor := func(f func(d *ind) *cli.App) func(d *ind) *cli.App {
		return func(d *ind) *cli.App {
			d.color = true
			a := f(d)
			a.Uses = cli.Pipeline(color.Options{}, a.Uses)
			return a
		}
	}
	add("colorhelp", "--help", withColor(indHelpApp))
	add("plainhelp", "--help", indHelpApp)
	add("subhelp", "help sub", indHelpApp)
	add("colorsub", "help sub", withColor(indHelpApp))
	add("nocolor", "--color=never --help", withColor(indHelpApp))
	add("tablehelp", "--help", func(d *ind) *cli.App {
		a := indHelpApp(d)
		a.Uses = table.Options{}
		return a
	})
	add("overridden", "--help", func(d *ind) *cli.App {
		a := indHelpApp(d)
		a.Uses = cli.Pipeline(
			cli.RegisterTemplateFunc("Point", func() string { d.log("point"); return "." }),
			cli.RegisterTemplateFunc("Join", func(s string, l []string) string { return fmt.Sprint(s, l) }),
			cli.RegisterTemplateFunc("Wrap", func(any, any) string { return "wrapped" }),
			cli.Before(cli.RegisterTemplate("SubcommandListing", `{{ range . }}[{{ .Name }}]{{ Point }}{{ end }}`)),
		)
		return a
	})
	add("parseerror", "sub --unknown", indHelpApp)
	add("valueerror", "--v a --v bad --v c", func(d *ind) *cli.App {
		return &cli.App{Flags: []*cli.Flag{{Name: "v", Value: &indValue{d: d}}}, Action: d.act("run")}
	})
	add("values", "--v a --list x --list y -m k=v --v b -i 3 --env rest", func(d *ind) *cli.App {
		return &cli.App{
			Flags: []*cli.Flag{
				{Name: "v", Value: &indValue{d: d}, Uses: cli.Accessory("v-x", func(*indValue) cli.Prototype { return cli.Prototype{Value: new(bool)} })},
				{Name: "list", Value: cli.List()},
				{Name: "m", Value: cli.Map()},
				{Name: "i", Value: new(int8), Before: d.act("i")},
				{Name: "env", Value: new(bool), EnvVars: []string{"IND_UNSET"}},
			},
			Args: []*cli.Arg{{Name: "r", Value: new(string), Action: d.act("r")}},
			Action: func(c *cli.Context) error {
				d.log("%v %v %v %v %v", c.Value("v"), c.List("list"), c.Map("m"), c.Int8("i"), c.String("r"))
				fmt.Fprintln(c.Stdout, c.Value("v"), c.Bool("env"))
				return nil
			},
			After: d.act("after"),
		}
	})
	add("expr", "-- -n 1 -op x -n 2", func(d *ind) *cli.App {
		e := &expr.Expression{Exprs: []*expr.Expr{
			{Name: "n", Args: []*cli.Arg{{Name: "i", Value: new(int)}}, Evaluate: func(c *cli.Context, v any, y func(any) error) error {
				d.log("n %v %d", v, c.Int("i"))
				return y(v.(int) + c.Int("i"))
			}},
			{Name: "op", Args: []*cli.Arg{{Name: "s", Value: new(string)}}, Uses: indPipeline, Evaluate: indEvaluator},
		}}
		return &cli.App{
			Flags: []*cli.Flag{{Name: "b", Value: new(bool)}},
			Args:  []*cli.Arg{{Name: "e", Value: e}},
			Action: func(c *cli.Context) error {
				return expr.FromContext(c, "e").Evaluate(c, 1, 2)
			},
		}
	})
	add("zshrequest", "", indHelpApp).env = map[string]string{"_JOE_ZSHREQUEST_COMPLETE": "zsh", "COMP_WORDS": "zshrequest --", "COMP_CWORD": "1"}
	add("zshscript", "--zsh-completion", indHelpApp)
	add("templates", "", func(d *ind) *cli.App {
		return &cli.App{
			Uses: cli.Pipeline(
				cli.RegisterTemplateFunc("Bold", func(s string) string { d.log("bold"); return "<b>" + s + "</b>" }),
				cli.RegisterTemplate("Inner", `{{ define "Nested" }}nested {{ . | Bold }}{{ end }}inner {{ template "Nested" . }}`),
				cli.RegisterTemplate("T", `{{ Execute "Inner" "data" | Trim }} {{ Execute "Nested" "x" }}{{ "y" | Underline | SpaceBefore }}`),
			),
			Action: cli.ExecuteTemplate("T", nil),
		}
	})
	add("templates2", "", func(d *ind) *cli.App {
		return &cli.App{
			Uses:   cli.RegisterTemplate("T", `{{ Execute "Version" . }}{{ "z" | Bold }}{{ Join "," .Command.Names }}`),
			Action: cli.Pipeline(d.act("run"), cli.ExecuteTemplate("T", nil)),
		}
	})
	add("noexecute", "", func(d *ind) *cli.App {
		return &cli.App{
			Uses:   cli.RegisterTemplate("T", `{{ Execute "Nested" . }}`),
			Action: cli.Pipeline(d.act("run"), cli.ExecuteTemplate("T", nil)),
		}
	})
	add("table", "", indTableApp("", nil))
	add("tableplain", "", indTableApp(`"Unformatted"`, nil))
	add("tableporcelain", "", indTableApp(`"Porcelain"`, nil))
	add("tableformat", "", indTableApp(".F", indFormat))
	for _, f := range []string{"", `"Unformatted"`, ".F"} {
		s := add("narrow"+strings.Trim(f, `"`), "", indTableApp(f, indFormat))
		s.name = strings.ReplaceAll(s.name, ".", "")
		s.env = map[string]string{"COLUMNS": "30"}
		s.alone = true
	}
	s := add("narrowhelp", "help sub", indHelpApp)
	s.env, s.alone = map[string]string{"COLUMNS": "30"}, true
	add("provider", "--p csv,a=1", func(d *ind) *cli.App {
		reg := &provider.Registry{Name: "p", Providers: provider.Details{
			"csv":  {HelpText: "comma", Defaults: map[string]string{"a": "2"}, Factory: provider.Factory(func(o struct{ A int }) any { d.log("made %d", o.A); return o.A })},
			"json": {HelpText: "object", Defaults: map[string]string{"b": "c"}},
		}}
		return &cli.App{
			Uses: reg,
			Flags: []*cli.Flag{
				{Name: "p", Value: new(provider.Value)},
				{Name: "list", Uses: provider.ListProviders("p")},
			},
			Action: func(c *cli.Context) error {
				v, err := provider.Services(c).Registry("p").New("csv", map[string]string{"a": "3"})
				d.log("%v %v %v", v, err, c.Value("p"))
				return nil
			},
		}
	})
	add("providers", "--list", func(d *ind) *cli.App {
		return &cli.App{
			Uses:  &provider.Registry{Name: "p", Providers: provider.Details{"a": {HelpText: "x"}, "b": {Defaults: map[string]string{"b": "c"}}}},
			Flags: []*cli.Flag{{Name: "list", Uses: provider.ListProviders("p")}},
		}
	})
	add("generate", "--dry-run", func(d *ind) *cli.App {
		return &cli.App{
			FS: newMemFS(nil),
			Uses: template.New(template.Data("N", "v"), template.Dir("d", template.File("f", template.Contents("c")),
				template.File("g", template.Template(indTemplate{d}, "M", 1))), template.File("h", template.Touch())),
		}
	})
	add("generate2", "", func(d *ind) *cli.App {
		m := newMemFS(nil)
		return &cli.App{
			FS: m,
			Uses: template.New(template.Data("N", "w"), template.Dir("d", template.File("f", template.Contents("c")),
				template.File("g", template.Template(indTemplate{d}, "M", 1))), template.File("h", template.Touch())),
			After: func() { d.log("%s", m.dump()) },
		}
	})
	add("structure", "--s a=1,bc=x", func(d *ind) *cli.App {
		var s struct {
			A  int
			Bc string
		}
		return &cli.App{
			Flags:  []*cli.Flag{{Name: "s", Value: structure.Of(&s), Uses: cli.Before(d.act("s"))}},
			Action: func() { d.log("%+v", s) },
		}
	})
	add("bind", "--i 4 word", func(d *ind) *cli.App {
		return &cli.App{
			Flags:  []*cli.Flag{{Name: "i", Value: new(int)}},
			Args:   []*cli.Arg{{Name: "w", Value: new(string)}},
			Action: bind.Call2(func(i int, s string) error { d.log("%d %s", i, s); return nil }, bind.Int("i"), bind.String("w")),
		}
	})
	add("files", "--f-recursive d e", func(d *ind) *cli.App {
		return &cli.App{
			FS:   fstest.MapFS{"d/a": &fstest.MapFile{}, "d/b/c": &fstest.MapFile{}, "e": &fstest.MapFile{}},
			Args: []*cli.Arg{{Name: "f", NArg: -2, Value: new(cli.FileSet), Uses: cli.Accessory("-", (*cli.FileSet).RecursiveFlag)}},
			Action: func(c *cli.Context) error {
				return c.FileSet("f").Do(func(f *cli.File, err error) error {
					d.log("%s %v", f.Name, err)
					return nil
				})
			},
		}
	})
	add("hooks", "sub -f 2", func(d *ind) *cli.App {
		return &cli.App{
			Uses: cli.Pipeline(
				cli.HookBefore("*", d.act("hook")),
				cli.Customize("-f", cli.Pipeline(cli.Alias("ff"), d.act("customized"))),
				cli.HookAfter("sub", d.act("hookafter")),
				indSetup,
			),
			Commands: []*cli.Command{{Name: "sub", Flags: []*cli.Flag{{Name: "f", Value: new(int), Action: d.act("f")}}, Action: d.act("run"), Before: d.act("b"), After: d.act("a")}},
		}
	})
	add("shared", "--help", func(d *ind) *cli.App {
		return &cli.App{
			Uses: indSetup,
			Flags: []*cli.Flag{
				{Name: "a", Value: new(bool), Uses: indPipeline, Aliases: []string{"aa"}},
				{Uses: cli.Pipeline(indProto, cli.Visible, cli.Data("b", d.yield != nil)), Value: new(int)},
			},
			Action: d.act("run"),
		}
	})
	add("shared2", "--p 3 --sh", func(d *ind) *cli.App {
		return &cli.App{
			Uses: cli.Pipeline(indPipeline, indSetup),
			Flags: []*cli.Flag{
				{Name: "b", Value: new(bool), Uses: cli.Pipeline(indPipeline, cli.Alias("bb"), cli.HelpText("other"))},
				{Uses: cli.Pipeline(&indProto, cli.Alias("ppp"), cli.FromEnv("IND_OTHER"), cli.Data("c", 1)), Value: new(int)},
			},
			Action: func(c *cli.Context) error {
				for _, f := range c.Flags() {
					d.log("%s %v %v %v %q %q", f.Name, f.Aliases, f.EnvVars, f.Data, f.HelpText, f.Category)
				}
				d.log("%v %v", c.Command().Data["s"], c.Command().Data["shared"])
				return nil
			},
		}
	})
	add("version", "--version", func(d *ind) *cli.App { return &cli.App{Version: "1.2", Before: d.act("before")} })
	add("license", "--license", func(d *ind) *cli.App {
		return &cli.App{License: "license " + indLong, Flags: []*cli.Flag{{Name: "license", Uses: cli.PrintLicense()}}}
	})
	add("notfound", "wat", func(d *ind) *cli.App {
		return &cli.App{
			Commands: []*cli.Command{{Name: "sub"}},
			Uses: cli.HandleCommandNotFound(func(c *cli.Context, err error) (*cli.Command, error) {
				d.log("not found %v", err)
				return &cli.Command{Name: "made", Action: d.act("made")}, nil
			}),
		}
	})
	add("nested", "x", func(d *ind) *cli.App {
		return &cli.App{
			Args: []*cli.Arg{{Name: "x", Value: new(string)}},
			Action: func(c *cli.Context) error {
				d.log("outer")
				app := &cli.App{Name: "inner", Stdout: c.Stdout, Stderr: c.Stderr, Uses: cli.RegisterTemplateFunc("Bold", strings.ToUpper),
					Commands: []*cli.Command{{Name: "sub"}}}
				err := app.RunContext(context.Background(), []string{"inner", "--help"})
				d.log("%v %s", err, c.String("x"))
				return c.Do(cli.DisplayHelpScreen())
			},
		}
	})
	add("failing", "", func(d *ind) *cli.App {
		return &cli.App{Before: d.act("before"), Action: func() error { d.log("fail"); return cli.Exit("message", 4) }, After: d.act("after")}
	})
	add("panicking", "", func(d *ind) *cli.App {
		return &cli.App{Uses: color.Options{}, Before: d.act("before"), Action: func() { d.log("panic"); panic("at the disco") }}
	})
	return res
}

// indTemplate is a template that takes a while
type indTemplate struct{ d *ind }

func (i indTemplate) Execute(w io.Writer, data any) error {
	i.d.log("template %v", data)
	_, err := fmt.Fprint(w, "generated")
	return err
}

var (
	indMu   sync.Mutex
	indSolo = map[string]string{}
)

func (o indOutcome) text() string {
	b, _ := json.MarshalIndent(o, "", " ")
	return string(b)
}

// solo is what the scenario does in a process of its own
func (s *indScenario) solo() string {
	indMu.Lock()
	defer indMu.Unlock()
	if r, ok := indSolo[s.name]; ok {
		return r
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(scrubEnv(os.Environ()), "MC_SOLO="+s.name)
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("%s: %v", s.name, err))
	}
	indSolo[s.name] = string(out)
	return string(out)
}

func (s *indScenario) setenv() func() {
	for k, v := range s.env {
		os.Setenv(k, v)
	}
	return func() {
		for k := range s.env {
			os.Unsetenv(k)
		}
	}
}

func (s *indScenario) here() string {
	defer s.setenv()()
	return s.run(func() {}).text()
}

func indSeq(t *T, seq []*indScenario) {
	for i, s := range seq {
		if !t.Eq(fmt.Sprintf("outcome of run %d", i), s.here(), s.solo()) {
			return
		}
	}
	t.State(seq[len(seq)-1].name)
}

// indRun runs the two with the switches of the plan: the number of steps to
// the next switch, each.  After the last one, the running one finishes first.
// It returns the number of steps after the last switch which the running one
// took before it finished or -1 if a switch was not reached.
func indRun(a, b *indScenario, plan []int) (res [2]string, rest int) {
	type proc struct {
		resume chan bool
		done   bool
	}
	var (
		ps    [2]*proc
		pause = make(chan int) // the one that has paused or finished
	)
	for i, s := range []*indScenario{a, b} {
		p := &proc{resume: make(chan bool)}
		ps[i] = p
		go func() {
			<-p.resume
			res[i] = s.run(func() {
				pause <- i
				<-p.resume
			}).text()
			p.done = true
			pause <- i
		}()
	}
	// step resumes one until its next point
	step := func(i int) bool {
		ps[i].resume <- true
		<-pause
		return !ps[i].done
	}
	cur := 0
	rest = -1
	ok := true
	for _, n := range plan {
		for ; n > 0 && ok; n-- {
			ok = step(cur)
		}
		if !ok {
			break
		}
		cur = 1 - cur
	}
	if ok {
		rest = 0
	}
	for _, c := range []int{cur, 1 - cur} {
		for !ps[c].done {
			step(c)
			if ok && c == cur {
				rest++
			}
		}
	}
	return
}

// indCo explores all schedules of a pair with up to max switches in advance
// of the end of one
func indCo(t *T, a, b *indScenario, max int) {
	defer a.setenv()()
	defer b.setenv()()
	wa, wb := a.solo(), b.solo()
	var rec func(plan []int)
	rec = func(plan []int) {
		res, rest := indRun(a, b, plan)
		t.Step(1)
		if rest < 0 {
			return
		}
		if !t.Eq(fmt.Sprintf("outcome of the first, switched after %v steps", plan), res[0], wa) ||
			!t.Eq(fmt.Sprintf("outcome of the second, switched after %v steps", plan), res[1], wb) {
			return
		}
		t.State(fmt.Sprint(plan))
		if len(plan) == max {
			return
		}
		for n := 1; n < rest; n++ {
			rec(append(plan[:len(plan):len(plan)], n))
		}
	}
	rec(nil)
}

// Handing over in a way the race detector does not know about, so that the
// scheduler of the harness orders nothing of what the two do.

//go:norace
//go:noinline
func indGet(p *int) int { return *p }

//go:norace
//go:noinline
func indPut(p *int, v int) { *p = v }

//go:norace
func indAdd(p *int, n int) int {
	*p += n
	return *p
}

//go:norace
func indAwait(p *int, v int) {
	for indGet(p) != v {
		runtime.Gosched()
	}
}

// indRaces runs all schedules of a pair with up to max switches in a process
// with the race detector, which ends that process when any two accesses to the
// same memory are not ordered by what the apps do themselves.
func indRaces(a, b *indScenario, max int) (runs int) {
	defer a.setenv()()
	defer b.setenv()()
	run := func(plan []int) (rest int) {
		var (
			wg    sync.WaitGroup
			turn  = new(int)
			left  = new(int) // index of the next switch in the plan
			steps = new(int)
			done  = [2]*int{new(int), new(int)}
			tail  = new(int)
		)
		hand := func(i int) {
			if indGet(done[1-i]) == 0 {
				indPut(turn, 1-i)
				indAwait(turn, i)
			}
		}
		for i, s := range []*indScenario{a, b} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				indAwait(turn, i)
				s.run(func() {
					k := indGet(left)
					if k >= len(plan) {
						if k == len(plan) {
							indAdd(tail, 1)
						}
						return
					}
					if indAdd(steps, 1) >= plan[k] {
						indPut(steps, 0)
						indAdd(left, 1)
						hand(i)
					}
				})
				indPut(done[i], 1)
				if indGet(left) == len(plan) {
					indAdd(left, 1)
					indPut(tail, -1-indGet(tail)) // steps of the one that ended first
				} else if indGet(left) < len(plan) {
					indPut(left, len(plan)+2) // ended before the switches
				}
				indPut(turn, 1-i)
			}()
		}
		wg.Wait()
		if *left != len(plan)+1 {
			return -1
		}
		return -1 - *tail
	}
	var rec func(plan []int)
	rec = func(plan []int) {
		rest := run(plan)
		runs++
		if rest < 0 || len(plan) == max {
			return
		}
		for n := 1; n < rest; n++ {
			rec(append(plan[:len(plan):len(plan)], n))
		}
	}
	rec(nil)
	return
}

// indRaceCase has the other process do so
func indRaceCase(t *T, a, b *indScenario, max int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe + "-race")
	cmd.Env = append(scrubEnv(os.Environ()), fmt.Sprintf("MC_RACE=%s,%s,%d", a.name, b.name, max), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 66 {
		var fns []string
		for _, l := range strings.Split(errb.String(), "\n") {
			if strings.HasPrefix(l, "  ") && strings.Contains(l, "joe-cli") && !strings.HasPrefix(l, "   ") && len(fns) < 4 {
				fns = append(fns, strings.TrimSpace(l))
			}
		}
		t.Failf("both access the same memory without anything that orders them, as in %s", strings.Join(fns, ", "))
		return
	}
	if err != nil {
		panic(fmt.Sprintf("%s %s: %v %s", a.name, b.name, err, errb.String()))
	}
	var n int
	fmt.Sscan(string(out), &n)
	t.Step(n)
	t.State(fmt.Sprintf("%s %s", a.name, b.name))
}

func init() {
	if s := os.Getenv("MC_RACE"); s != "" {
		var p [2]*indScenario
		f := strings.Split(s, ",")
		for _, sc := range indScenarios() {
			for i := range p {
				if sc.name == f[i] {
					p[i] = sc
				}
			}
		}
		max, _ := strconv.Atoi(f[2])
		fmt.Println(indRaces(p[0], p[1], max))
		os.Exit(0)
	}
	if s := os.Getenv("MC_SOLO"); s != "" {
		for _, sc := range indScenarios() {
			if sc.name == s {
				fmt.Print(sc.here())
				os.Exit(0)
			}
		}
		os.Exit(3)
	}
	register(&Prop{
		ID:          "C30",
		Bound:       "39 scenarios that use the library and its extensions in different ways: all sequences of up to 2 (3 when thorough) in one process; all pairs at the same time in all schedules with up to 2 (3) switches between them at their actions, values, hooks, descriptions and writes; all pairs in all schedules with up to 1 (2) switches under the race detector",
		Assumptions: []string{"code between two points of an app runs without a switch; what could happen there is covered by the race detector, which finds accesses that nothing orders", "actions, prototypes, setups and formats may be shared by apps as package variables; targets may not"},
		Run: func(x *X) {
			all := indScenarios()
			depth, max := 2, 2
			if x.Thorough {
				depth, max = 3, 3
			}
			words(all, 1, depth, func(w []*indScenario) {
				seq := clone(w)
				x.Case(func() string {
					var n []string
					for _, s := range seq {
						n = append(n, s.name)
					}
					return "seq|" + strings.Join(n, " ")
				}, func(t *T) { indSeq(t, seq) })
			})
			for _, a := range all {
				for _, b := range all {
					if a.alone || b.alone || a == b && a.env != nil {
						continue
					}
					x.Case(func() string { return "co|" + a.name + " " + b.name }, func(t *T) { indCo(t, a, b, max) })
					if os.Getenv("MC_NORACE") != "" {
						continue
					}
					x.Case(func() string { return "race|" + a.name + " " + b.name }, func(t *T) { indRaceCase(t, a, b, max-1) })
				}
			}
		},
	})
}
