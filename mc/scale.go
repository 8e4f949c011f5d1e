package main

import (
	"bytes"
	"context"
	"fmt"
	"slices"
	"strings"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/template"
)

// Properties whose other cases are small are checked along one dimension with
// every size up to some number, and with those next to powers of two.

type sizeCase struct {
	what string
	fn   func(t *T, n int)
}

func sizeList(thorough bool) (res []int) {
	top := 36
	if thorough {
		top = 140
	}
	for i := range top {
		res = append(res, i)
	}
	more := []int{63, 64, 65, 99, 100, 101, 127, 128, 129}
	if thorough {
		more = []int{199, 200, 255, 256, 257, 300, 511, 512, 513}
	}
	return append(res, more...)
}

func (p *Prop) run(x *X) {
	p.Run(x)
	for _, n := range sizeList(x.Thorough) {
		for _, s := range sizes[p.ID] {
			if x.Stop() {
				return
			}
			x.Case(func() string { return fmt.Sprintf("size|%s %d", s.what, n) }, func(t *T) {
				s.fn(t, n)
				t.State(s.what, n)
			})
		}
	}
}

func (p *Prop) bound() string {
	if len(sizes[p.ID]) == 0 {
		return p.Bound
	}
	var names []string
	for _, s := range sizes[p.ID] {
		names = append(names, s.what)
	}
	return p.Bound + "; with up to 129 (thorough 513) of: " + strings.Join(names, ", ")
}

// named gives n names
func named(prefix string, n int) (res []string) {
	for i := range n {
		res = append(res, fmt.Sprintf("%s%d", prefix, i))
	}
	return
}

// around are the first, the middle and the last places of n
func around(n int) []int {
	res := []int{0, 1, n / 3, n / 2, n - 2, n - 1}
	res = slices.DeleteFunc(res, func(i int) bool { return i < 0 || i >= n })
	slices.Sort(res)
	return slices.Compact(res)
}

var sizes = map[string][]sizeCase{
	"C01": {
		{"short flags in a token", func(t *T, n int) {
			var a, b int
			var v string
			count := func(p *int) cli.Action { return cli.ActionOf(func() { *p++ }) }
			app := &cli.App{Name: "app", Flags: []*cli.Flag{
				{Name: "a", Value: new(bool), Options: cli.EachOccurrence, Action: count(&a)},
				{Name: "b", Value: new(bool), Options: cli.EachOccurrence, Action: count(&b)},
				{Name: "v", Value: &v},
			}}
			r := runApp(app, "-"+strings.Repeat("ab", n)+"avx")
			t.Eq("error", r.Error, nil)
			t.Eq("found", fmt.Sprint(a, b, v), fmt.Sprint(n+1, n, "x"))
		}},
		{"characters of a value", func(t *T, n int) {
			text := strings.Repeat("v=- ", n) + "."
			for _, line := range [][]string{{"-v" + text}, {"-v", text}, {"--value=" + text}, {"--value", text}, {text}} {
				var v, a string
				app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "value", Aliases: []string{"v"}, Value: &v}}, Args: []*cli.Arg{{Name: "a", Value: &a}}}
				r := runApp(app, line...)
				t.Eq("error", r.Error, nil)
				t.Eq("value", v+a, text)
			}
		}},
		{"flags", func(t *T, n int) {
			names := named("flag", n)
			for _, form := range []string{"--%s=%s", "--%s %s"} {
				vals := make([]string, n)
				var flags []*cli.Flag
				var line []string
				for i, name := range names {
					flags = append(flags, &cli.Flag{Name: name, Value: &vals[i]})
					line = append(line, strings.Fields(fmt.Sprintf(form, name, "v"+name))...)
				}
				r := runApp(&cli.App{Name: "app", Flags: flags}, line...)
				t.Eq("error", r.Error, nil)
				for i, name := range names {
					t.Eq(name, vals[i], "v"+name)
				}
			}
		}},
	},
	"C02": {
		{"args", func(t *T, n int) {
			for _, given := range []int{n - 1, n, n + 1} {
				if given < 0 {
					continue
				}
				vals := make([]string, n)
				var args []*cli.Arg
				for i, name := range named("a", n) {
					args = append(args, &cli.Arg{Name: name, NArg: 1, Value: &vals[i]})
				}
				r := runApp(&cli.App{Name: "app", Args: args, Action: func() {}}, named("v", given)...)
				t.Eq(fmt.Sprintf("fails with %d", given), r.Error != nil, given != n)
				if given == n {
					t.Eq("values", q(vals), q(named("v", n)))
				}
			}
		}},
		{"values of an arg", func(t *T, n int) {
			for _, narg := range []int{n, cli.TakeUntilNextFlag, cli.TakeRemaining} {
				if narg == 0 {
					continue
				}
				for _, given := range []int{n - 1, n, n + 1} {
					if given < 0 {
						continue
					}
					var list []string
					var rest string
					app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "list", NArg: narg, Value: &list}, {Name: "rest", NArg: 0, Value: &rest}}, Action: func() {}}
					r := runApp(app, named("v", given)...)
					t.Eq(fmt.Sprintf("fails with %d of %d", given, narg), r.Error != nil, narg > 0 && given < n)
					if r.Error == nil {
						all := append(clone(list), rest)
						want := append(named("v", given), "")[:max(given, 0)+1]
						if narg > 0 && given > n {
							want = named("v", given)
						}
						t.Eq("values", q(all), q(want))
					}
				}
			}
		}},
	},
	"C03": {
		{"args", func(t *T, n int) {
			for _, k := range append(around(n), n) {
				vals := make([]string, n)
				var args []*cli.Arg
				for i, name := range named("a", n) {
					args = append(args, &cli.Arg{Name: name, NArg: 0, Value: &vals[i]})
				}
				r := runApp(&cli.App{Name: "app", Args: args, Options: cli.RightToLeft}, named("v", k)...)
				t.Eq("error", r.Error, nil)
				t.Eq(fmt.Sprintf("values of %d", k), q(vals), q(append(make([]string, n-k), named("v", k)...)))
			}
		}},
	},
	"C04": {
		{"occurrences", func(t *T, n int) {
			var list []string
			m := map[string]string{}
			var last string
			var line, want []string
			wantM := map[string]string{}
			for i := range n {
				line = append(line, fmt.Sprintf("--list=a%d,b%d", i, i), fmt.Sprintf("--map=k%d=v%d,x=%d", i, i, i), fmt.Sprintf("--last=%d", i), "-q")
				want = append(want, fmt.Sprintf("a%d", i), fmt.Sprintf("b%d", i))
				wantM[fmt.Sprintf("k%d", i)], wantM["x"] = fmt.Sprintf("v%d", i), fmt.Sprint(i)
			}
			var raw, occ []string
			count := 0
			app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "list", Value: &list}, {Name: "map", Value: &m}, {Name: "last", Value: &last}, {Name: "q", Value: new(bool)}},
				Action: func(c *cli.Context) { raw, occ, count = c.Raw("last"), c.RawOccurrences("last"), c.Occurrences("q") }}
			r := runApp(app, line...)
			t.Eq("error", r.Error, nil)
			t.Eq("list", q(list), q(want))
			t.Eq("map", fmt.Sprint(m), fmt.Sprint(wantM))
			t.Eq("count", count, n)
			var wr, wo []string
			for i := range n {
				wr, wo = append(wr, "--last", fmt.Sprint(i)), append(wo, fmt.Sprint(i))
			}
			t.Eq("raw", q(raw), q(wr))
			t.Eq("occurrences", q(occ), q(wo))
			if n > 0 {
				t.Eq("last", last, fmt.Sprint(n-1))
			}
		}},
	},
	"C06": {
		{"pieces", func(t *T, n int) {
			items := named("it em", n)
			if n > 0 {
				t.Eq("list", q(cli.SplitList(strings.Join(items, ","), ",", -1)), q(items))
				t.Eq("escaped", q(cli.SplitList(strings.Join(items, "\\,"), ",", -1)), q([]string{strings.Join(items, ",")}))
			}
			var pairs []string
			want := map[string]string{}
			for _, i := range items {
				pairs = append(pairs, i+"=v"+i)
				want[i] = "v" + i
			}
			t.Eq("map", fmt.Sprint(cli.SplitMap(strings.Join(pairs, ","))), fmt.Sprint(want))
			back, err := cli.Split(cli.Join(items))
			t.Eq("error of Split", err, nil)
			t.Eq("joined and split", q(back), q(items))
			one := strings.Repeat("a'\" $", n)
			back, err = cli.Split(cli.Quote(one))
			t.Eq("error of Split", err, nil)
			t.Eq("quoted", q(back), q([]string{one}))
		}},
	},
	"C08": {
		{"actions", func(t *T, n int) {
			for _, fail := range append([]int{-1}, around(4*n)...) {
				var log []int
				step := func(i int) cli.Action {
					return cli.ActionOf(func() error {
						log = append(log, i)
						if i == fail {
							return errFault
						}
						return nil
					})
				}
				part := func(k int) cli.Action {
					var p cli.ActionPipeline
					for i := range n {
						p = append(p, step(k*n+i))
					}
					return p
				}
				r := runApp(&cli.App{Name: "app", Uses: part(0), Before: part(1), Action: part(2), After: part(3)})
				count := 4 * n
				if fail >= 0 {
					count = fail + 1
				}
				want := make([]int, count)
				for i := range want {
					want[i] = i
				}
				t.Eq("failed", r.Error != nil, fail >= 0)
				t.Eq(fmt.Sprintf("order when %d fails", fail), fmt.Sprint(log), fmt.Sprint(want))
			}
		}},
		{"hooks", func(t *T, n int) {
			var log, want []string
			app := &cli.App{Name: "app", Commands: []*cli.Command{{Name: "sub", Action: cli.ActionOf(func() { log = append(log, "action") })}}}
			var uses cli.ActionPipeline
			for i := range n {
				uses = append(uses, cli.HookBefore("sub", cli.ActionOf(func() { log = append(log, fmt.Sprint("before", i)) })))
				want = append(want, fmt.Sprint("before", i))
			}
			app.Uses = uses
			t.Eq("error", runApp(app, "sub").Error, nil)
			t.Eq("order", q(log), q(append(want, "action")))
		}},
	},
	"C09": {
		{"occurrences", func(t *T, n int) {
			var each []string
			once := 0
			var line []string
			for i := range n {
				line = append(line, fmt.Sprintf("--each=%d", i), "--once=x")
			}
			app := &cli.App{Name: "app", Flags: []*cli.Flag{
				{Name: "each", Value: new(int), Options: cli.EachOccurrence, Action: func(c *cli.Context) { each = append(each, fmt.Sprint(c.Int(""))) }},
				{Name: "once", Value: new(string), Action: func() { once++ }},
			}}
			t.Eq("error", runApp(app, line...).Error, nil)
			var want []string
			for i := range n {
				want = append(want, fmt.Sprint(i))
			}
			t.Eq("each", q(each), q(want))
			t.Eq("once", once, min(n, 1))
		}},
	},
	"C10": {
		{"commands on the path", func(t *T, n int) {
			if n > 40 {
				return
			}
			for _, at := range around(n + 1) {
				for _, given := range append(around(n+1), at) {
					if given < at {
						continue
					}
					var v string
					var seen []string
					see := func(c *cli.Context) { seen = append(seen, c.String("pers")) }
					cmds := make([]*cli.Command, n+1)
					for i := range cmds {
						cmds[i] = &cli.Command{Name: fmt.Sprintf("c%d", i), Action: see}
						if i > 0 {
							cmds[i-1].Subcommands = []*cli.Command{cmds[i]}
						}
					}
					cmds[at].Flags = []*cli.Flag{{Name: "pers", Aliases: []string{"p"}, Value: &v}}
					app := &cli.App{Name: "c0", Flags: cmds[0].Flags, Commands: cmds[0].Subcommands, Action: see}
					var line []string
					for i := range cmds {
						if i > 0 {
							line = append(line, cmds[i].Name)
						}
						if i == given {
							line = append(line, "-p", "val")
						}
					}
					r := runApp(app, line...)
					t.Eq(fmt.Sprintf("error for %d given at %d", at, given), r.Error, nil)
					t.Eq("seen", q(seen), q([]string{"val"}))
				}
			}
		}},
	},
	"C11": {
		{"commands", func(t *T, n int) {
			var ran string
			make := func() *cli.App {
				app := &cli.App{Name: "app"}
				for _, c := range named("cmd", n) {
					app.Commands = append(app.Commands, &cli.Command{Name: c, Aliases: []string{"x" + c, "y" + c}, Args: cli.Args("a", new(string)), Action: func(ctx *cli.Context) { ran += c + ctx.String("a") }})
				}
				return app
			}
			for _, i := range around(n) {
				for _, pre := range []string{"", "x", "y"} {
					ran = ""
					t.Eq("error", runApp(make(), fmt.Sprintf("%scmd%d", pre, i), "v").Error, nil)
					t.Eq("ran", ran, fmt.Sprintf("cmd%dv", i))
				}
			}
			ran = ""
			t.Eq("fails", runApp(make(), fmt.Sprintf("cmd%d", n), "v").Error != nil, true)
			t.Eq("ran", ran, "")
		}},
	},
	"C13": {
		{"names of a path", func(t *T, n int) {
			names := append([]string{"app"}, named("c", n)...)
			p := cli.ContextPath(names)
			text := strings.Join(names, " ")
			t.Eq("text", p.String(), text)
			t.Eq("matches itself", p.Match(text), true)
			t.Eq("matches the last", p.Match(names[n]), true)
			t.Eq("matches another", p.Match("x "+text), false)
			if n > 0 {
				t.Eq("matches the parent", p.Match(strings.Join(names[:n], " ")), false)
			}
		}},
		{"commands around targets whose paths are kept", func(t *T, n int) {
			if n > 24 {
				return
			}
			got, want := map[string]cli.ContextPath{}, map[string]string{}
			see := func(stage, path string) cli.Action {
				return cli.ActionOf(func(c *cli.Context) {
					got[stage+" "+path], want[stage+" "+path] = c.Path(), path
				})
			}
			var next *cli.Command
			var line []string
			for i := n; i >= 0; i-- {
				at := "app"
				for j := range i {
					at += fmt.Sprint(" c", j+1)
				}
				cmd := &cli.Command{Name: fmt.Sprint("c", i), Uses: see("init", at), Before: see("before", at)}
				for _, f := range []string{"x", "y", "long"} {
					name := at + " -" + f
					if f == "long" {
						name = at + " --" + f
					}
					cmd.Flags = append(cmd.Flags, &cli.Flag{Name: f, Value: new(bool), Uses: see("init", name), Before: see("before", name), After: see("after", name), Options: cli.NonPersistent})
				}
				if next == nil {
					for _, a := range []string{"p", "q"} {
						name := at + " <" + a + ">"
						cmd.Args = append(cmd.Args, &cli.Arg{Name: a, Value: new(string), Uses: see("init", name), Before: see("before", name)})
					}
					cmd.Action = see("action", at)
				} else {
					cmd.Subcommands = []*cli.Command{next, {Name: "other", Uses: see("init", at+" other")}}
				}
				next = cmd
				if i > 0 {
					line = append([]string{cmd.Name}, line...)
				}
			}
			app := &cli.App{Name: "app", Uses: next.Uses, Before: next.Before, Flags: next.Flags, Args: next.Args, Commands: next.Subcommands, Action: next.Action}
			t.Eq("error", runApp(app, line...).Error, nil)
			t.Eq("number of paths", len(got) >= 2*(n+1), true)
			for _, k := range sortedKeys(got) {
				t.Eq("path of "+k, got[k].String(), want[k])
			}
		}},
	},
	"C15": {
		{"flags", func(t *T, n int) {
			for _, gone := range around(n) {
				vals := make([]string, n)
				var uses cli.ActionPipeline
				for i, name := range named("flag", n) {
					uses = append(uses, cli.AddFlag(&cli.Flag{Name: name, Value: &vals[i]}))
				}
				name := fmt.Sprint("flag", gone)
				uses = append(uses, cli.RemoveFlag(name))
				build := func() *cli.App { return &cli.App{Name: "app", Uses: uses, Action: func() {}} }
				var line, want []string
				for i, f := range named("flag", n) {
					if i == gone {
						want = append(want, "")
						continue
					}
					line, want = append(line, "--"+f, f), append(want, f)
				}
				t.Eq("error", runApp(build(), line...).Error, nil)
				t.Eq("values", q(vals), q(want))
				t.Eq("the removed one fails", runApp(build(), "--"+name, "v").Error != nil, true)
			}
		}},
	},
	"C16": {
		{"candidates", func(t *T, n int) {
			values := named("val", n)
			for _, inc := range []string{"", "val", "val1", "x"} {
				app := &cli.App{Name: "app"}
				for _, c := range named("val", n) {
					app.Commands = append(app.Commands, &cli.Command{Name: c, Action: func() {}})
				}
				app.Flags = []*cli.Flag{{Name: "f", Value: new(string), Completion: cli.CompletionValues(values...)}}
				ctx, err := app.Initialize(context.Background())
				t.Eq("error", err, nil)
				var want []string
				for _, v := range values {
					if strings.HasPrefix(v, inc) {
						want = append(want, v)
					}
				}
				get := func(args []string) (res []string) {
					for _, i := range cli.FromContext(ctx).Complete(args, inc) {
						if strings.HasPrefix(i.Value, "val") || inc != "" {
							res = append(res, i.Value)
						}
					}
					return
				}
				t.Eq("values", q(get([]string{"app", "-f"})), q(want))
				cmds := get([]string{"app"})
				slices.Sort(cmds)
				slices.Sort(want)
				t.Eq("commands", q(cmds), q(want))
			}
		}},
	},
	"C17": {
		{"flags, args and commands", func(t *T, n int) {
			app := &cli.App{Name: "app"}
			for _, name := range named("flag", n) {
				app.Flags = append(app.Flags, &cli.Flag{Name: name, Value: new(string), HelpText: "is" + name + "."})
			}
			for _, name := range named("cmd", n) {
				app.Commands = append(app.Commands, &cli.Command{Name: name, HelpText: "is" + name + ".", Action: func() {}})
			}
			r := runApp(app, "--help")
			last := -1
			for _, kind := range []string{"flag", "cmd"} {
				for _, name := range named(kind, n) {
					t.Eq("times that "+name+" is described", strings.Count(r.Err+r.Out, "is"+name+"."), 1)
				}
			}
			for _, name := range named("flag", n) {
				at := strings.Index(r.Err+r.Out, "is"+name+".")
				t.Eq("order of "+name, at > last, true)
				last = at
			}
		}},
		{"characters of a name", func(t *T, n int) {
			name := "na" + strings.Repeat("ame", n)
			app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: name, Value: new(bool), HelpText: "help of it"}, {Name: "b", Value: new(bool), HelpText: "other"}}}
			r := runApp(app, "--help")
			text := r.Err + r.Out
			t.Eq("name", strings.Contains(text, "--"+name), true)
			t.Eq("help", strings.Contains(text, "help of it") && strings.Contains(text, "other"), true)
		}},
	},
	"C19": {
		{"operators", func(t *T, n int) {
			for _, stop := range append([]int{-1}, around(n)...) {
				var log []string
				e := &expr.Expression{}
				var line []string
				for i, name := range named("op", n) {
					e.Exprs = append(e.Exprs, &expr.Expr{Name: name, Evaluate: expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
						log = append(log, fmt.Sprintf("%s %v", name, v))
						if i == stop {
							return nil
						}
						return yield(v.(int) + 1)
					})})
					line = append(line, "-"+name)
				}
				app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "e", Value: e}}, Action: func(c *cli.Context) error { return e.Evaluate(c, 0) }}
				r := runApp(app, append([]string{"--"}, line...)...)
				t.Eq("error", r.Error, nil)
				var want []string
				for i := range n {
					want = append(want, fmt.Sprintf("op%d %d", i, i))
					if i == stop {
						break
					}
				}
				t.Eq(fmt.Sprintf("operators run, %d stops", stop), q(log), q(want))
			}
		}},
	},
	"C20": {
		{"arguments", func(t *T, n int) {
			v := new(provider.Value)
			var pairs []string
			want := map[string]string{}
			for _, a := range named("arg", n) {
				pairs = append(pairs, a+"=v"+a)
				want[a] = "v" + a
			}
			r := runApp(&cli.App{Name: "app", Flags: []*cli.Flag{{Name: "p", Value: v}}, Action: func() {}}, "-p", strings.Join(append([]string{"prov"}, pairs...), ","))
			t.Eq("error", r.Error, nil)
			t.Eq("name", v.Name, "prov")
			args, _ := v.Args.(*map[string]string)
			if n > 0 && args != nil {
				t.Eq("arguments", fmt.Sprint(*args), fmt.Sprint(want))
			}
		}},
	},
	"C22": {
		{"files and directories", func(t *T, n int) {
			m := newMemFS(nil)
			var gens []template.Generator
			deep := template.File("bottom", template.Contents("end"))
			path := "bottom"
			for i := range min(n, 60) {
				deep = template.Dir(fmt.Sprint("d", i), deep, template.File("f", template.Contents(fmt.Sprint(i))))
				path = fmt.Sprint("d", i, "/") + path
			}
			for _, f := range named("file", n) {
				gens = append(gens, template.File(f, template.Contents(f)))
			}
			r := runApp(&cli.App{FS: m, Action: template.New(append(gens, deep)...)})
			t.Eq("error", r.Error, nil)
			for _, f := range named("file", n) {
				if e := m.files[f]; e == nil || string(e.data) != f {
					t.Failf("file %s: %v", f, e)
				}
			}
			if e := m.files[path]; e == nil || string(e.data) != "end" {
				t.Failf("file %s: %v", path, e)
			}
			t.Eq("lines of the report", strings.Count(r.Out, "\n"), n+1+min(n, 60))
		}},
	},
	"C25": {
		{"actions in and around each other", func(t *T, n int) {
			var log, want []int
			step := func(i int) cli.Action { return cli.ActionOf(func() { log = append(log, i) }) }
			var flat []any
			var nested, pipe cli.Action
			for i := range n {
				flat = append(flat, step(i))
				nested = cli.Pipeline(nested, step(i))
				pipe = cli.ActionOf(pipe)
				pipe = cli.ActionPipeline{pipe, cli.Pipeline(step(i))}
				want = append(want, i)
			}
			for _, a := range []cli.Action{cli.Pipeline(flat...), nested, pipe} {
				log = nil
				t.Eq("error", runApp(&cli.App{Name: "app", Action: a}).Error, nil)
				t.Eq("order", fmt.Sprint(log), fmt.Sprint(want))
			}
		}},
	},
	"C28": {
		{"rows and columns", func(t *T, n int) {
			for _, size := range [][2]int{{n, 2}, {2, min(n, 60)}} {
				c := tblCase{headers: named("h", size[1])}
				for r := range size[0] {
					c.rows = append(c.rows, named(fmt.Sprint("r", r, "c"), size[1]))
				}
				for _, f := range []string{"Porcelain", "Unformatted", "ascii", "default"} {
					if size[0] > 0 && size[1] > 0 {
						c.format = f
						tblRun(t, c)
					}
				}
			}
		}},
	},
	"C34": {
		{"values and commands", func(t *T, n int) {
			if n > 60 {
				return
			}
			type key int
			var got []string
			var cmd *cli.Command
			for i := n; i >= 1; i-- {
				next := cmd
				cmd = &cli.Command{Name: fmt.Sprint("c", i), Before: cli.ContextValue(key(i), i)}
				if next != nil {
					cmd.Subcommands = []*cli.Command{next}
				} else {
					cmd.Action = func(c *cli.Context) {
						for j := range n + 2 {
							got = append(got, fmt.Sprint(c.Context().Value(key(j))))
						}
					}
				}
			}
			app := &cli.App{Name: "app", Before: cli.ContextValue(key(0), 0)}
			var line, want []string
			if cmd != nil {
				app.Commands = []*cli.Command{cmd}
			} else {
				return
			}
			for i := range n {
				line = append(line, fmt.Sprint("c", i+1))
			}
			for i := range n + 1 {
				want = append(want, fmt.Sprint(i))
			}
			t.Eq("error", runApp(app, line...).Error, nil)
			t.Eq("values", q(got), q(append(want, "<nil>")))
		}},
	},
	"C18": {
		{"files", func(t *T, n int) {
			names := named("file", n)
			for _, rec := range []bool{false, true} {
				m := fstest.MapFS{"d/other/deep": &fstest.MapFile{}}
				for _, f := range names {
					m["d/"+f] = &fstest.MapFile{Data: []byte(f)}
				}
				set := &cli.FileSet{Recursive: rec}
				var seen []string
				var line []string
				for _, f := range names {
					line = append(line, "d/"+f)
				}
				if rec {
					line = []string{"d"}
				}
				app := &cli.App{Name: "app", FS: m, Args: []*cli.Arg{{Name: "files", NArg: cli.TakeUntilNextFlag, Value: set}}, Action: func() error {
					return set.Do(func(f *cli.File, err error) error {
						if err != nil {
							return err
						}
						if strings.HasPrefix(f.Name, "d/file") {
							seen = append(seen, f.Name)
						}
						return nil
					})
				}}
				r := runApp(app, line...)
				t.Eq("error", r.Error, nil)
				var want []string
				for _, f := range names {
					want = append(want, "d/"+f)
				}
				slices.Sort(want)
				slices.Sort(seen)
				t.Eq(fmt.Sprint("files, recursive ", rec), q(seen), q(want))
			}
		}},
	},
	"C29": {
		{"writes", func(t *T, n int) {
			var plain, colored bytes.Buffer
			want := ""
			for _, b := range []*bytes.Buffer{&plain, &colored} {
				want = ""
				w := cli.NewWriter(b)
				w.SetColorCapable(b == &colored)
				for i := range n {
					w.SetForeground(cli.Red)
					fmt.Fprint(w, "x", i)
					w.Reset()
					fmt.Fprint(w, " ")
					want += fmt.Sprint("x", i, " ")
				}
			}
			t.Eq("plain", plain.String(), want)
			if n > 0 {
				t.Eq("colored", strings.Count(colored.String(), "\x1b[")%2 == 0 && strings.Count(colored.String(), "\x1b[") >= n, true)
			}
		}},
	},
}
