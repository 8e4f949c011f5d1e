package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Expressions: parsing operators and their args, and running values through
// the pipeline.

type xOp struct {
	name    string
	aliases []string
	args    []mArg
	yields  int  // how many values are yielded
	bare    bool // no evaluator
}

// xUse is one operator on the line
type xUse struct {
	op   *xOp
	vals map[string][]string
}

type xErr struct {
	code cli.ErrorCode
	text string // Name or Value of the error
	any  bool   // text is not compared
}

// xParse splits the tokens into uses of operators.
func xParse(ops []*xOp, toks []string) (res []*xUse, err *xErr) {
	for len(toks) > 0 {
		tok := toks[0]
		toks = toks[1:]
		var op *xOp
		for _, o := range ops {
			if slices.Contains(append([]string{o.name}, o.aliases...), strings.TrimPrefix(tok, "-")) && strings.HasPrefix(tok, "-") {
				op = o
			}
		}
		if op == nil {
			return nil, &xErr{code: cli.UnknownExpr, text: tok}
		}
		u := &xUse{op: op, vals: map[string][]string{}}
		res = append(res, u)
		p := &posState{args: op.args}
		inArgs, literal := false, false
	args:
		for len(toks) > 0 {
			t := toks[0]
			if !looksLikeFlag(t) || inArgs || literal {
				if t == "--" && !(p.i < len(p.args) && p.args[p.i].narg == nRemaining) {
					if p.unmet() != nil {
						return nil, &xErr{code: cli.ExpectedArgument, any: true}
					}
					p.advance()
					literal, inArgs = true, false
					toks = toks[1:]
					continue
				}
				switch p.step(t, !literal) {
				case accepted:
					n := p.args[p.i].name
					u.vals[n] = append(u.vals[n], t)
					inArgs = true
					toks = toks[1:]
					continue
				default:
					if literal || !looksLikeFlag(t) {
						return nil, &xErr{code: cli.ArgsMustPrecedeExprs, text: t}
					}
				}
			}
			if t == "--" {
				literal = true
				toks = toks[1:]
				continue
			}
			break args
		}
		if p.finish() != nil {
			return nil, &xErr{code: cli.ExpectedArgument, any: true}
		}
	}
	return res, nil
}

// show gives the args in effect for a use
func (u *xUse) show() string {
	var s []string
	for _, a := range u.op.args {
		v, ok := u.vals[a.name]
		switch {
		case a.narg == 0 || a.narg == 1:
			if !ok {
				v = []string{"init"}
			}
			s = append(s, fmt.Sprintf("%s=%q", a.name, v[0]))
		default:
			s = append(s, fmt.Sprintf("%s=%q", a.name, v))
		}
	}
	return u.op.name + "(" + strings.Join(s, " ") + ")"
}

// xRun is one app with an expression.
type xRun struct {
	ops    []*xOp
	fault  int // the event that fails, -1 none
	events []string
}

var errFault = errors.New("fault %d of the test")

func (r *xRun) log(s string) error {
	r.events = append(r.events, s)
	if len(r.events)-1 == r.fault {
		return errFault
	}
	return nil
}

func (r *xRun) build() *expr.Expression {
	e := &expr.Expression{}
	for _, o := range r.ops {
		x := &expr.Expr{Name: o.name, Aliases: clone(o.aliases)}
		var read []func(c *cli.Context) string
		for _, a := range o.args {
			if a.narg == 0 || a.narg == 1 {
				p := new(string)
				*p = "init"
				x.Args = append(x.Args, &cli.Arg{Name: a.name, NArg: a.narg, Value: p})
				read = append(read, func(c *cli.Context) string {
					if c != nil && c.String(a.name) != *p {
						return fmt.Sprintf("%s: context %q pointer %q", a.name, c.String(a.name), *p)
					}
					return fmt.Sprintf("%s=%q", a.name, *p)
				})
			} else {
				p := new([]string)
				x.Args = append(x.Args, &cli.Arg{Name: a.name, NArg: a.narg, Value: p, Options: cli.DisableSplitting})
				read = append(read, func(c *cli.Context) string {
					if c != nil && fmt.Sprint(c.List(a.name)) != fmt.Sprint(*p) {
						return fmt.Sprintf("%s: context %q pointer %q", a.name, c.List(a.name), *p)
					}
					return fmt.Sprintf("%s=%q", a.name, *p)
				})
			}
		}
		show := func(c *cli.Context) string {
			var s []string
			for _, f := range read {
				s = append(s, f(c))
			}
			return o.name + "(" + strings.Join(s, " ") + ")"
		}
		if !o.bare {
			x.Evaluate = func(c *cli.Context, v any, yield func(any) error) error {
				if err := r.log(fmt.Sprintf("%v: %s", v, show(c))); err != nil {
					return err
				}
				for i := 0; i < o.yields; i++ {
					if err := yield(fmt.Sprintf("%v%s%d", v, o.name, i)); err != nil {
						return err
					}
					if err := r.log(fmt.Sprintf("%v: %s again", v, show(c))); err != nil {
						return err
					}
				}
				return nil
			}
		}
		e.Exprs = append(e.Exprs, x)
	}
	return e
}

// model of the run: the events of the values going through the uses
func (r *xRun) model(uses []*xUse, items []string) (events []string, err error) {
	n := 0
	log := func(s string) error {
		events = append(events, s)
		n++
		if n-1 == r.fault {
			return errFault
		}
		return nil
	}
	var rec func(i int, v string) error
	rec = func(i int, v string) error {
		if i >= len(uses) {
			return nil
		}
		u := uses[i]
		if u.op.bare {
			return rec(i+1, v)
		}
		if err := log(v + ": " + u.show()); err != nil {
			return err
		}
		for k := 0; k < u.op.yields; k++ {
			if err := rec(i+1, fmt.Sprintf("%v%s%d", v, u.op.name, k)); err != nil {
				return err
			}
			if err := log(v + ": " + u.show() + " again"); err != nil {
				return err
			}
		}
		return nil
	}
	for _, v := range items {
		if err := rec(0, v); err != nil {
			return events, err
		}
	}
	return events, nil
}

func xApp(e *expr.Expression, act any) *cli.App {
	return &cli.App{Name: "app", Args: []*cli.Arg{{Name: "pre", NArg: 1}, {Name: "expression", Value: e}}, Action: act}
}

func xBindings(t *T, e *expr.Expression, uses []*xUse) {
	var got, want []string
	for _, u := range uses {
		want = append(want, u.op.name)
	}
	for b := range e.Bindings() {
		got = append(got, b.Expr().Name)
	}
	t.Eq("operators of Bindings", got, want)
	for stop := 0; stop <= len(uses); stop++ {
		n := 0
		err := e.Walk(func(b expr.Binding) error {
			if b.Expr().Name != want[n] {
				t.Failf("Walk visits %s at %d of %q", b.Expr().Name, n, want)
			}
			n++
			if n == stop {
				return errFault
			}
			return nil
		})
		if (stop > 0) != (err == errFault) || (stop > 0 && n != stop) || (stop == 0 && n != len(uses)) {
			t.Failf("Walk with an error at %d visits %d, gives %v", stop, n, err)
		}
		n = 0
		for range e.Bindings() {
			n++
			if n == stop {
				break
			}
		}
		if stop > 0 && n != stop {
			t.Failf("Bindings left at %d visits %d", stop, n)
		}
	}
}

func xCase(t *T, ops []*xOp, toks, items []string, fault int) (count int) {
	r := &xRun{ops: ops, fault: fault}
	e := r.build()
	opts := toks
	if len(opts) > 0 && opts[0] == "--" { // ends the argument before the expression
		opts = opts[1:]
	}
	uses, werr := xParse(ops, opts)
	ran := false
	app := xApp(e, func(c *cli.Context) error {
		ran = true
		got := expr.FromContext(c, "expression")
		if got != e {
			t.Failf("FromContext gives another expression")
		}
		if werr != nil {
			return nil
		}
		if fault < 0 {
			xBindings(t, e, uses)
		}
		var in []any
		for _, i := range items {
			in = append(in, i)
		}
		err := e.Evaluate(c, in...)
		if err == nil && fault < 0 { // again
			n := len(r.events)
			if err = e.Evaluate(c, in...); err == nil {
				t.Eq("events of the second evaluation", r.events[n:], r.events[:n])
				r.events = r.events[:n]
			}
		}
		return err
	})
	res := runApp(app, append([]string{"p"}, toks...)...)
	if werr != nil {
		t.State("error", werr.code)
		var pe *cli.ParseError
		if ran {
			t.Failf("the action runs although the expression has an error (%v)", werr.code)
		}
		if !errors.As(res.Error, &pe) {
			t.Fatalf("gives %v, model %v %q", res.Error, werr.code, werr.text)
		}
		if pe.Code != werr.code || (!werr.any && pe.Name != werr.text && pe.Value != werr.text) {
			t.Failf("gives %v (%v), model %v %q", res.Error, pe.Code, werr.code, werr.text)
		}
		return
	}
	events, err := r.model(uses, items)
	t.State(strings.Join(events, ";"))
	t.Step(len(events))
	if !ran {
		t.Fatalf("not run: %v", res.Error)
	}
	t.Eq("error of the run", res.Error, err)
	t.Eq("events", r.events, events)
	return len(events)
}

// lookup that is only consulted for bindings made by NewBinding
func xCustom(t *T, before, after int, toks []string, ops []*xOp) {
	r := &xRun{ops: ops, fault: -1}
	e := r.build()
	uses, _ := xParse(ops, toks)
	var want []string
	for i := before; i > 0; i-- {
		want = append(want, fmt.Sprint("pre", i))
	}
	for _, u := range uses {
		want = append(want, u.show())
	}
	for i := 1; i <= after; i++ {
		want = append(want, fmt.Sprint("post", i))
	}
	var got []string
	app := xApp(e, func(c *cli.Context) error {
		mk := func(name string) expr.Binding {
			ev := expr.EvaluatorOf(func(v any) {
				got = append(got, name)
			})
			if strings.HasPrefix(name, "pre") {
				x := &expr.Expr{Name: name}
				b := expr.NewBinding(ev, x, cli.LookupValues{"k": name})
				if b.Expr() != x || b.String("k") != name {
					t.Failf("the binding has expr %v and value %q", b.Expr(), b.String("k"))
				}
				return b
			}
			b := expr.NewBinding(ev)
			if b.Expr() != nil || b.String("k") != "" {
				t.Failf("the binding has expr %v and value %q", b.Expr(), b.String("k"))
			}
			return b
		}
		for i := 1; i <= before; i++ {
			e.Prepend(mk(fmt.Sprint("pre", i)))
		}
		for i := 1; i <= after; i++ {
			e.Append(mk(fmt.Sprint("post", i)))
		}
		var seq []string
		for b := range e.Bindings() {
			if x := b.Expr(); x != nil {
				seq = append(seq, x.Name)
			} else {
				seq = append(seq, "-")
			}
		}
		var wseq []string
		for _, w := range want {
			w, _, _ = strings.Cut(w, "(")
			if strings.HasPrefix(w, "post") {
				w = "-"
			}
			wseq = append(wseq, w)
		}
		t.Eq("operators of Bindings", seq, wseq)
		return e.Evaluate(c, "v")
	})
	for _, x := range e.Exprs {
		x.Evaluate = func(c *cli.Context, v any) {
			for _, u := range uses {
				if u.op.name == x.Name {
					got = append(got, u.show())
					break
				}
			}
		}
	}
	if res := runApp(app, append([]string{"p"}, toks...)...); res.Error != nil {
		t.Fatalf("gives %v", res.Error)
	}
	t.Eq("evaluations", got, want)
}

// xSignatures: the functions that can be evaluators.  mode: 0 lets the value
// through, 1 filters it, 2 fails
func xSignatures(mode int) map[string]any {
	ferr := func() error {
		if mode == 2 {
			return errFault
		}
		return nil
	}
	yield := func(v any, y func(any) error) error {
		switch mode {
		case 0:
			return y(v)
		case 2:
			return errFault
		}
		return nil
	}
	res := map[string]any{}
	res["func(*cli.Context, any, func(any) error) error"] = func(c *cli.Context, v any, y func(any) error) error { return yield(v, y) }
	res["func(context.Context, any, func(any) error) error"] = func(c context.Context, v any, y func(any) error) error { return yield(v, y) }
	res["func(any, func(any) error) error"] = func(v any, y func(any) error) error { return yield(v, y) }
	res["EvaluatorFunc"] = expr.EvaluatorFunc(func(c *cli.Context, v any, y func(any) error) error { return yield(v, y) })
	if mode != 1 {
		res["func(*cli.Context, any) error"] = func(c *cli.Context, v any) error { return ferr() }
		res["func(context.Context, any) error"] = func(c context.Context, v any) error { return ferr() }
		res["func(any) error"] = func(v any) error { return ferr() }
	}
	if mode != 2 {
		res["func(*cli.Context, any) bool"] = func(c *cli.Context, v any) bool { return mode == 0 }
		res["func(context.Context, any) bool"] = func(c context.Context, v any) bool { return mode == 0 }
		res["func(any) bool"] = func(v any) bool { return mode == 0 }
		res["Predicate"] = expr.Predicate(func(v any) bool { return mode == 0 })
		res["bool"] = mode == 0
		res["Invariant"] = expr.Invariant(mode == 0)
	}
	switch mode {
	case 0:
		res["func(*cli.Context, any)"] = func(c *cli.Context, v any) {}
		res["func(context.Context, any)"] = func(c context.Context, v any) {}
		res["func(any)"] = func(v any) {}
		res["nil"] = nil
		res["AlwaysTrue"] = expr.AlwaysTrue
	case 1:
		res["AlwaysFalse"] = expr.AlwaysFalse
	case 2:
		res["error"] = errFault
		res["Error"] = expr.Error(errFault)
	}
	return res
}

func xSignature(t *T, ev any, mode int, yerr error, direct bool) {
	var seen []any
	y := func(v any) error {
		seen = append(seen, v)
		return yerr
	}
	var err error
	if direct {
		e := expr.EvaluatorOf(ev)
		app := &cli.App{Name: "app", Action: func(c *cli.Context) error { return e.Evaluate(c, "v", y) }}
		err = runApp(app).Error
	} else {
		e := &expr.Expression{Exprs: []*expr.Expr{{Name: "s", Evaluate: ev}, {Name: "t", Evaluate: func(v any) error { return y(v) }}}}
		if ee, ok := ev.(expr.Evaluator); ok && mode == 0 {
			e.Exprs[0].Evaluate = nil
			e.Exprs[0].Uses = expr.SetEvaluator(ee)
		}
		err = runApp(xApp(e, func(c *cli.Context) error { return e.Evaluate(c, "v") }), "p", "-s", "-t").Error
	}
	want := yerr
	wseen := []any{"v"}
	if mode != 0 {
		want, wseen = nil, nil
		if mode == 2 {
			want = errFault
		}
	}
	t.Eq("error", err, want)
	t.Eq("values let through", seen, wseen)
}

// help screen

type xHelp struct {
	name     string
	aliases  []string
	category string
	help     string
	rendered string
	args     string // as shown
	nargs    []int
	hidden   bool
}

func xHelpCase(t *T, ops []*xHelp, sorted bool, via int) {
	e := &expr.Expression{}
	arg := &cli.Arg{Name: "expression", Value: e}
	var add []*expr.Expr
	for _, o := range ops {
		x := &expr.Expr{Name: o.name, Aliases: clone(o.aliases), Category: o.category, HelpText: o.help}
		for i, n := range o.nargs {
			var v any = new(string)
			if n != 0 && n != 1 {
				v = new([]string)
			}
			x.Args = append(x.Args, &cli.Arg{Name: fmt.Sprintf("arg%d", i), NArg: n, Value: v})
		}
		if o.hidden {
			x.Options = cli.Hidden
		}
		add = append(add, x)
	}
	switch via {
	case 0:
		e.Exprs = add
	case 1:
		arg.Uses = expr.AddExprs(add...)
	case 2:
		var p []cli.Action
		for _, x := range add {
			p = append(p, expr.AddExpr(x))
		}
		arg.Uses = cli.Pipeline(cli.ActionOf(func(c *cli.Context) error {
			for _, a := range p {
				if err := c.Do(a); err != nil {
					return err
				}
			}
			return nil
		}))
	}
	app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "pre", NArg: 1}, arg}}
	if sorted {
		switch via {
		case 0:
			app.Options = cli.SortedExprs
		case 1:
			app.Options = cli.Sorted
		case 2:
			arg.Options = cli.SortedExprs
		}
	}
	var vis []*xHelp
	for _, o := range ops {
		if !o.hidden {
			vis = append(vis, o)
		}
	}
	if sorted {
		sort.SliceStable(vis, func(i, j int) bool { return vis[i].name < vis[j].name })
	}
	var cats []string
	for _, o := range vis {
		if !slices.Contains(cats, o.category) {
			cats = append(cats, o.category)
		}
	}
	sort.Strings(cats)
	w := ""
	if len(vis) > 0 {
		w = "Expressions:\n"
		for _, c := range cats {
			if c != "" {
				w += c + ":\n"
			}
			doc := len(cats) == 1 && c == ""
			for _, o := range vis {
				doc = doc || o.category == c && o.help != ""
			}
			var names []string
			for _, o := range vis {
				if o.category != c {
					continue
				}
				names = append(names, o.name)
				if doc {
					w += o.line() + "\n"
				}
			}
			if !doc {
				w += strings.Join(names, ", ") + "\n"
			}
		}
	}
	res := runApp(app, "--help")
	if res.Error == nil || res.Error.Error() != "exited with status 0" {
		t.Fatalf("help gives %v", res.Error)
	}
	_, got, _ := strings.Cut(res.Err, "Print the build version then exit")
	norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	t.State(norm(w))
	t.Eq("operators of the help screen", norm(got), norm(w))

	// the operators are accepted, whether hidden or not
	for _, o := range ops {
		e := &expr.Expression{Exprs: []*expr.Expr{{Name: o.name, Aliases: clone(o.aliases)}}}
		if o.hidden {
			e.Exprs[0].Options = cli.Hidden
		}
		for _, n := range append([]string{o.name}, o.aliases...) {
			if r := runApp(xApp(e, nil), "p", "-"+n); r.Error != nil {
				t.Failf("-%s gives %v", n, r.Error)
			}
		}
	}
}

func (o *xHelp) line() string {
	s := ""
	short, long := "", ""
	for _, n := range append([]string{o.name}, o.aliases...) {
		switch {
		case len(n) == 1 && short == "":
			short = n
		case len(n) > 1 && long == "":
			long = n
		}
	}
	switch {
	case short == "":
		s = "-" + long
	case long == "":
		s = "-" + short
	default:
		s = "-" + short + ", -" + long
	}
	if o.args != "" {
		s += " " + o.args
	}
	return s + " " + o.rendered
}

func xNames(t *T, names []string) {
	e := &expr.Expression{}
	bad := false
	for i, n := range names {
		e.Exprs = append(e.Exprs, &expr.Expr{Name: n})
		if n == "" || slices.Contains(names[:i], n) {
			bad = true
		}
		for _, c := range n {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("@#+._*:-", c)) {
				bad = true
			}
		}
	}
	app := xApp(e, nil)
	_, err := app.Initialize(context.Background())
	if (err != nil) != bad {
		t.Failf("initializing with operators %q gives %v", names, err)
	}
	if err != nil && !strings.Contains(err.Error(), "errors initializing expression") {
		t.Failf("initializing with operators %q gives %v", names, err)
	}
	if !bad {
		for _, n := range names {
			if r := runApp(xApp(e, nil), "p", "-"+n); r.Error != nil {
				t.Failf("-%s gives %v", n, r.Error)
			}
		}
	}
}

// hooks of the operators
func xHooks(t *T, toks []string, fault int) (count int) {
	var events []string
	hook := func(n string) func() error {
		return func() error {
			events = append(events, n)
			if len(events)-1 == fault {
				return errFault
			}
			return nil
		}
	}
	e := &expr.Expression{}
	for _, n := range []string{"a", "b"} {
		e.Exprs = append(e.Exprs, &expr.Expr{Name: n, Uses: actionFn(hook("uses " + n)), Before: hook("before " + n), After: hook("after " + n),
			Evaluate: func(v any) error { return hook("eval " + n)() }})
	}
	res := runApp(xApp(e, func(c *cli.Context) error { return e.Evaluate(c, 1) }), append([]string{"p"}, toks...)...)
	want := []string{"uses a", "uses b", "before a", "before b"}
	for _, k := range toks {
		want = append(want, "eval "+k[1:])
	}
	want = append(want, "after a", "after b")
	count = len(want)
	var werr error
	if fault >= 0 {
		werr = errFault
		want = want[:fault+1]
	}
	t.Eq("events", events, want)
	if (res.Error != nil) != (werr != nil) || werr != nil && !errors.Is(res.Error, errFault) {
		t.Failf("gives %v, model %v", res.Error, werr)
	}
	return
}

func init() {
	register(&Prop{
		ID: "C19",
		Bound: "two operators (one with an alias) with every layout of up to 2 args over the counts 0,1,2,-2,-1 for the first and 0..1 args for the second: all lines of up to 4 tokens (5 when thorough) over the operators, the alias, values, -, --, an unknown operator, an operator with two dashes, a value without dash, the blank token; " +
			"pipelines of up to 4 (5 when thorough) operators that yield 0, 1 or 2 values or have no evaluator, over 0..2 items, with an error injected at each event, evaluated twice; bindings prepended and appended (0..2 each); " +
			"each signature of evaluators that lets through, filters or fails, with failing and succeeding yield; all names of up to 2 characters over a set of representatives, pairs of names; hooks with an error at each; subsets of up to 3 (4 when thorough) operators on the help screen; two expressions made with one slice of 0..3 operators with room for 0..3 more, each with up to 2 of: add an operator, add two, sort",
		Assumptions: []string{"the expression is the last argument and follows a required one (so that operators are not looked up as flags of the command)"},
		Run: func(x *X) {
			depth, n := 4, 3
			if x.Thorough {
				depth, n = 5, 4
			}
			toks := []string{"-a", "-b", "-alt", "x", "-", "--", "-z", "--a", "a", ""}
			one := func(la, lb []mArg) {
				ops := []*xOp{{name: "a", aliases: []string{"alt"}, args: la, yields: 1}, {name: "b", args: lb, yields: 1}}
				words(toks, 0, depth, func(w []string) {
					if x.Stop() {
						return
					}
					x.Case(func() string { return fmt.Sprintf("parse|%v %v %q", la, lb, w) }, func(t *T) {
						xCase(t, ops, clone(w), []string{"1"}, -1)
					})
				})
			}
			argLayouts([]int{0, 1, 2, -2, -1}, 0, 2, func(la []mArg) {
				argLayouts([]int{0, 1}, 0, 1, func(lb []mArg) {
					d := depth
					if len(la) == 2 && (!x.Thorough || len(lb) == 1) {
						depth--
					}
					one(la, lb)
					depth = d
				})
			})
			use := []string{"-a v", "-a w", "-b", "-b v w", "-c", "-c x", "-d"}
			for ya := 0; ya <= 2; ya++ {
				for yb := 0; yb <= 2; yb++ {
					ops := []*xOp{{name: "a", args: []mArg{{name: "x0", narg: 1}}, yields: ya}, {name: "b", args: []mArg{{name: "x0", narg: -2}}, yields: yb},
						{name: "c", args: []mArg{{name: "x0", narg: 0}, {name: "x1", narg: 0}}, yields: 1}, {name: "d", bare: true}}
					words(use, 0, depth-1, func(w []string) {
						if x.Stop() {
							return
						}
						l := clone(w)
						for n, items := range [][]string{nil, {"1"}, {"1", "2"}} {
							x.Case(func() string { return fmt.Sprintf("pipeline|%d%d %d %q", ya, yb, n, l) }, func(t *T) {
								tk := strings.Fields(strings.Join(l, " "))
								c := xCase(t, ops, tk, items, -1)
								for i := 0; i < c; i++ {
									xCase(t, ops, tk, items, i)
								}
							})
						}
					})
				}
			}
			cops := []*xOp{{name: "a", args: []mArg{{name: "x0", narg: 1}}, yields: 1}, {name: "b", yields: 1}}
			words([]string{"-a v", "-b"}, 0, 2, func(w []string) {
				l := clone(w)
				for b := 0; b <= 2; b++ {
					for a := 0; a <= 2; a++ {
						x.Case(func() string { return fmt.Sprintf("bindings|%d %d %q", b, a, l) }, func(t *T) {
							xCustom(t, b, a, strings.Fields(strings.Join(l, " ")), cops)
						})
					}
				}
			})
			for mode := 0; mode <= 2; mode++ {
				sigs := xSignatures(mode)
				for _, k := range sortedKeys(sigs) {
					for _, yerr := range []error{nil, errors.New("yield %s failed")} {
						for _, direct := range []bool{false, true} {
							x.Case(func() string { return fmt.Sprintf("signature|%d %s %v %v", mode, k, yerr, direct) }, func(t *T) {
								t.State(mode, k)
								xSignature(t, sigs[k], mode, yerr, direct)
							})
						}
					}
				}
			}
			x.CaseS("signature|Error(nil)", func(t *T) {
				var e expr.Evaluator = expr.Error(nil)
				if err := e.Evaluate(context.Background(), 1, func(any) error { return nil }); err == nil || !strings.Contains(err.Error(), "int") {
					t.Failf("gives %v", err)
				}
			})
			chars := []string{"a", "Z", "0", "@", "#", "+", ".", "_", "*", ":", "-", " ", "&", "=", "/", "é", "\n"}
			words(chars, 0, 2, func(w []string) {
				name := strings.Join(w, "")
				x.Case(func() string { return fmt.Sprintf("names|%q", name) }, func(t *T) { xNames(t, []string{name}) })
			})
			words([]string{"a", "b", "", "ab", "a b"}, 2, 3, func(w []string) {
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("names|%q", l) }, func(t *T) { xNames(t, l) })
			})
			words([]string{"-a", "-b"}, 0, 3, func(w []string) {
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("hooks|%q", l) }, func(t *T) {
					n := xHooks(t, l, -1)
					for i := 0; i < n; i++ {
						xHooks(t, l, i)
					}
				})
			})
			helps := []*xHelp{
				{name: "name", aliases: []string{"n"}, help: "by {PATTERN}", rendered: "by PATTERN", args: "PATTERN", nargs: []int{1}},
				{name: "b"},
				{name: "q", aliases: []string{"quick", "r", "rapid"}},
				{name: "size", help: "by size", rendered: "by size", args: "ARG0 ARG1", nargs: []int{1, 1}},
				{name: "hid", help: "hidden help", hidden: true},
				{name: "cat", category: "Tests", help: "in {X} or {Y}", rendered: "in X or Y", args: "X Y", nargs: []int{1, 1}},
				{name: "act", category: "Actions"},
				{name: "bct", category: "Actions", args: "ARG0", nargs: []int{1}},
				{name: "hct", category: "Actions", hidden: true, help: "hct help"},
				{name: "hz", category: "Zz", hidden: true},
			}
			idx := make([]int, len(helps))
			for i := range idx {
				idx[i] = i
			}
			subsetsUpTo(idx, n, func(s []int) {
				l := clone(s)
				for v := 0; v < 12; v++ {
					x.Case(func() string { return fmt.Sprintf("help|%v %d", l, v) }, func(t *T) {
						var ops []*xHelp
						for _, i := range l {
							ops = append(ops, helps[i])
						}
						if v&2 != 0 {
							slices.Reverse(ops)
						}
						xHelpCase(t, ops, v&1 != 0, v/4)
					})
				}
			})
			changes := []string{"add", "adds", "sort"}
			words(changes, 0, 2, func(one []string) {
				words(changes, 0, 2, func(two []string) {
					for n := 0; n < 4; n++ {
						for spare := 0; spare < 4; spare++ {
							o, w := clone(one), clone(two)
							x.Case(func() string { return fmt.Sprintf("shared|%d+%d %q %q", n, spare, o, w) }, func(t *T) { xShared(t, n, spare, o, w) })
						}
					}
				})
			})
			x.CaseS("rtl|-o x", func(t *T) {
				l, r := new(string), new(string)
				e := &expr.Expression{Exprs: []*expr.Expr{{Name: "o", Options: cli.RightToLeft, Args: []*cli.Arg{{Name: "l", Value: l}, {Name: "r", Value: r, NArg: 1}}}}}
				res := runApp(xApp(e, nil), "p", "-o", "x")
				if res.Error == nil && *l == "" && *r == "x" {
					return
				}
				t.Known("rtl-operator", "l=%q r=%q %v", *l, *r, res.Error)
			})
		},
	})
}

// xShared has two expressions made with one slice of operators; neither sees
// the operators added to the other
func xShared(t *T, n, spare int, one, two []string) {
	base := []string{"kc", "ka", "kb"}[:n]
	changes := map[string][]string{"one": one, "two": two}
	for _, run := range []string{"one", "two"} {
		var evaluated []string
		operator := func(name string) *expr.Expr {
			return &expr.Expr{Name: name, Evaluate: func(_ *cli.Context, _ any) bool { evaluated = append(evaluated, name); return true }}
		}
		shared := make([]*expr.Expr, n+spare)
		for i, name := range base {
			shared[i] = operator(name)
		}
		given, ran := clone(shared), false
		want := map[string][]string{}
		exprs := map[string]*expr.Expression{}
		command := func(cmd string) *cli.Command {
			names := clone(base)
			var uses []cli.Action
			for i, o := range changes[cmd] {
				a, b := fmt.Sprintf("k%s%da", cmd, i), fmt.Sprintf("k%s%db", cmd, i)
				switch o {
				case "sort":
					uses = append(uses, cli.SortedExprs)
				case "add":
					uses = append(uses, expr.AddExpr(operator(a)))
					names = append(names, a)
				default:
					uses = append(uses, expr.AddExprs(operator(a), operator(b)))
					names = append(names, a, b)
				}
			}
			want[cmd] = names
			e := &expr.Expression{Exprs: shared[:n]}
			exprs[cmd] = e
			return &cli.Command{
				Name: cmd,
				Args: []*cli.Arg{{Name: "r", Value: new(string), NArg: 1}, {Name: "e", Value: e, Uses: cli.ActionPipeline(uses)}},
				Action: func(c *cli.Context) error {
					ran = true
					return expr.FromContext(c, "e").Evaluate(c, 1)
				},
			}
		}
		app := &cli.App{Name: "app", Commands: []*cli.Command{command("one"), command("two")}}
		line := []string{run, "v"}
		for _, name := range want[run] {
			line = append(line, "-"+name)
		}
		r := runApp(app, line...)
		if r.Error != nil || !ran {
			t.Failf("%q: %v, action ran: %v", line, r.Error, ran)
		}
		t.Eq("evaluated", evaluated, want[run])
		for cmd, e := range exprs {
			var got []string
			for _, o := range e.Exprs {
				if o == nil {
					t.Failf("%q: %s has a nil operator", line, cmd)
					continue
				}
				got = append(got, o.Name)
			}
			w := want[cmd]
			if slices.Contains(changes[cmd], "sort") {
				if cmd == run && !slices.IsSorted(got) {
					t.Failf("operators of %s are not sorted: %q", cmd, got)
				}
				w = slices.Sorted(slices.Values(w))
				slices.Sort(got)
			}
			t.Eq("operators of "+cmd, strings.Join(got, " "), strings.Join(w, " "))
		}
		if !slices.Equal(shared, given) {
			t.Failf("%s: the slice which both expressions were made with changed", run)
		}
		t.Step(len(one) + len(two))
	}
	t.State(n, spare, one, two)
}
