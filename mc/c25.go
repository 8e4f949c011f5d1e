package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Composing actions: terms over the combinators, evaluated by the library and
// by a recursive model.

type acTerm struct {
	op   string
	at   cli.Timing
	kids []*acTerm
	id   string
}

func (t *acTerm) String() string {
	s := t.op
	if t.op == "at" || t.op == "iftime" {
		s += ":" + t.at.String()
	}
	if len(t.kids) > 0 {
		var k []string
		for _, c := range t.kids {
			if c == nil {
				k = append(k, "-")
			} else {
				k = append(k, c.String())
			}
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

// number gives each node of a tree that is shared nowhere a name
func (t *acTerm) number(id string) *acTerm {
	c := *t
	c.id = id
	c.kids = nil
	for i, k := range t.kids {
		if k != nil {
			k = k.number(id + string(rune('1'+i)))
		}
		c.kids = append(c.kids, k)
	}
	return &c
}

// plain leaves out the conditions which are none
func (t *acTerm) plain() *acTerm {
	if t == nil {
		return nil
	}
	if t.op == "ifany" {
		return t.kids[0].plain()
	}
	c := *t
	c.kids = nil
	for _, k := range t.kids {
		c.kids = append(c.kids, k.plain())
	}
	return &c
}

type acErr string

func (e acErr) Error() string { return string(e) }

// what is logged by the library and by the model
type acLog struct{ events []string }

func (l *acLog) add(id string, tm cli.Timing) { l.events = append(l.events, id+"@"+tm.String()) }

var acLeaves = []string{"run", "fail", "panic", "skip", "pass", "twice", "swallow", "after", "next", "none", "lead"}

func acMiddleware(op string) bool {
	return slices.Contains([]string{"skip", "pass", "twice", "swallow", "after", "next", "none", "lead"}, op)
}

// build makes the action of the library
func (t *acTerm) build(l *acLog) cli.Action {
	kid := func(i int) cli.Action { return t.kids[i].build(l) }
	log := func(c *cli.Context, s string) { l.add(t.id+s, c.Timing()) }
	switch t.op {
	case "run":
		return cli.ActionOf(func(c *cli.Context) { log(c, "") })
	case "fail":
		return cli.ActionOf(func(c *cli.Context) error { log(c, ""); return acErr(t.id) })
	case "panic":
		return cli.ActionOf(func(c *cli.Context) { log(c, ""); panic(acErr(t.id)) })
	case "skip":
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error { log(c, ""); return nil })
	case "pass":
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error {
			log(c, "<")
			err := cli.Do(c, next)
			log(c, ">")
			return err
		})
	case "twice":
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error {
			log(c, "")
			if err := cli.Do(c, next); err != nil {
				return err
			}
			return cli.Do(c, next)
		})
	case "swallow":
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error { cli.Do(c, next); log(c, ""); return nil })
	case "after":
		return cli.ActionOf(func(c *cli.Context, next cli.Action) error {
			if err := cli.Do(c, next); err != nil {
				return err
			}
			log(c, "")
			return acErr(t.id)
		})
	case "next":
		return cli.ActionOf(func(next cli.Action) cli.Action { return next })
	case "none":
		return cli.ActionOf(func(next cli.Action) cli.Action { return nil })
	case "lead":
		return cli.ActionOf(func(next cli.Action) cli.Action {
			return cli.Pipeline(func(c *cli.Context) { log(c, "") }, next)
		})
	case "suppress":
		return cli.SuppressError(kid(0))
	case "recover":
		return cli.Recover(kid(0))
	case "if":
		return cli.IfMatch(acFilter(true), kid(0))
	case "ifnot":
		return cli.IfMatch(acFilter(false), kid(0))
	case "ifany":
		return cli.IfMatch(nil, kid(0))
	case "iftime":
		return cli.IfMatch(t.at, kid(0))
	case "assert":
		return cli.Assert(acFilter(true), kid(0))
	case "assertnot":
		return cli.Assert(acFilter(false), kid(0))
	case "at":
		return cli.At(t.at, kid(0))
	case "pipe", "lit":
		var as []any
		var p cli.ActionPipeline
		for i := range t.kids {
			as = append(as, kid(i))
			p = append(p, as[i].(cli.Action))
		}
		if t.op == "lit" {
			return p
		}
		return cli.Pipeline(as...)
	case "setup", "optsetup":
		s := cli.Setup{Optional: t.op == "optsetup"}
		for i, dest := range []*any{&s.Uses, &s.Before, &s.Action, &s.After} {
			if t.kids[i] != nil {
				*dest = kid(i)
			}
		}
		return s
	}
	panic(t.op)
}

func acFilter(v bool) cli.ContextFilter {
	return cli.ContextFilterFunc(func(*cli.Context) bool { return v })
}

// model

type acModel struct {
	l         acLog
	now       cli.Timing
	before    [3][]*acTerm // validators, before, implicit
	action    []*acTerm
	after     []*acTerm
	recovered string
}

var (
	errAcLate   = errors.New("too late")
	errAcAssert = errors.New("assert")
)

// flat is what the pipeline runs
func (t *acTerm) flat() (res []*acTerm) {
	if t.op != "pipe" && t.op != "lit" {
		return []*acTerm{t}
	}
	for _, k := range t.kids {
		res = append(res, k.flat()...)
	}
	return
}

func (m *acModel) list(ts []*acTerm) error {
	if len(ts) == 0 {
		return nil
	}
	if acMiddleware(ts[0].op) {
		return m.middleware(ts[0], func() error { return m.list(ts[1:]) })
	}
	if err := m.eval(ts[0]); err != nil {
		return err
	}
	return m.list(ts[1:])
}

func (m *acModel) middleware(t *acTerm, next func() error) error {
	log := func(s string) { m.l.add(t.id+s, m.now) }
	switch t.op {
	case "skip":
		log("")
		return nil
	case "pass":
		log("<")
		err := next()
		log(">")
		return err
	case "twice":
		log("")
		if err := next(); err != nil {
			return err
		}
		return next()
	case "swallow":
		next()
		log("")
		return nil
	case "after":
		if err := next(); err != nil {
			return err
		}
		log("")
		return acErr(t.id)
	case "next":
		return next()
	case "lead":
		log("")
		return next()
	}
	return nil
}

func (m *acModel) eval(t *acTerm) error {
	if acMiddleware(t.op) {
		return m.middleware(t, func() error { return nil })
	}
	switch t.op {
	case "run":
		m.l.add(t.id, m.now)
	case "fail":
		m.l.add(t.id, m.now)
		return acErr(t.id)
	case "panic":
		m.l.add(t.id, m.now)
		panic(acErr(t.id))
	case "suppress":
		m.eval(t.kids[0])
	case "recover":
		return func() error {
			defer func() {
				if r := recover(); r != nil {
					m.recovered = string(r.(acErr))
				}
			}()
			return m.eval(t.kids[0])
		}()
	case "if", "assert":
		return m.eval(t.kids[0])
	case "iftime":
		if t.at == m.now {
			return m.eval(t.kids[0])
		}
	case "assertnot":
		return errAcAssert
	case "at":
		return m.at(t.at, t.kids[0], false)
	case "pipe":
		return m.list(t.flat())
	case "lit":
		return m.list(t.kids)
	case "setup", "optsetup":
		for i, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming} {
			if t.kids[i] != nil {
				if err := m.at(tm, t.kids[i], t.op == "optsetup"); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (m *acModel) at(tm cli.Timing, t *acTerm, optional bool) error {
	order := 1
	switch tm {
	case cli.ValidatorTiming:
		tm, order = cli.BeforeTiming, 0
	case cli.ImplicitValueTiming:
		tm, order = cli.BeforeTiming, 2
	}
	switch {
	case tm == m.now:
		return m.eval(t)
	case tm < m.now:
		if optional {
			return nil
		}
		return errAcLate
	}
	switch tm {
	case cli.BeforeTiming:
		m.before[order] = append(m.before[order], t.flat()...)
	case cli.ActionTiming:
		if acMiddleware(t.op) {
			// middleware from earlier wraps what is there already
			m.action = append([]*acTerm{t}, m.action...)
		} else {
			m.action = append(m.action, t.flat()...)
		}
	case cli.AfterTiming:
		m.after = append(m.after, t.flat()...)
	}
	return nil
}

// run is one run of an app where the target has these actions
func (m *acModel) run(fields [4]*acTerm) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panicked = nil, true
		}
	}()
	m.now = cli.InitialTiming
	if err = m.eval(fields[0]); err != nil {
		return
	}
	m.now = cli.BeforeTiming
	if err = m.list(slices.Concat(m.before[:]...)); err != nil {
		return
	}
	if err = m.eval(fields[1]); err != nil {
		return
	}
	m.now = cli.ActionTiming
	if err = m.list(slices.Concat(m.action, fields[2].flat())); err != nil {
		return
	}
	m.now = cli.AfterTiming
	if err = m.list(m.after); err != nil {
		return
	}
	if err = m.eval(fields[3]); err != nil {
		return
	}
	if m.recovered != "" {
		err = acErr(m.recovered)
	}
	return
}

func acCheck(t *T, target string, field int, term *acTerm) {
	term = term.number("x")
	var fields [4]*acTerm
	for i := range fields {
		fields[i] = &acTerm{op: "run", id: "UBAZ"[i : i+1]}
	}
	fields[field] = term
	m := &acModel{}
	modelFields := fields
	modelFields[field] = term.plain()
	want, wantPanic := m.run(modelFields)

	var l acLog
	u, b, a, z := fields[0].build(&l), fields[1].build(&l), fields[2].build(&l), fields[3].build(&l)
	app := &cli.App{Name: "app", Action: func() {}}
	var line []string
	switch target {
	case "app":
		app = &cli.App{Name: "app", Uses: u, Before: b, Action: a, After: z}
	case "sub":
		app.Commands = []*cli.Command{{Name: "sub", Uses: u, Before: b, Action: a, After: z}}
		line = []string{"sub"}
	case "flag":
		app.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Uses: u, Before: b, Action: a, After: z}}
		line = []string{"--f"}
	case "arg":
		app.Args = []*cli.Arg{{Name: "f", Uses: u, Before: b, Action: a, After: z}}
		line = []string{"v"}
	}
	var r runResult
	panicked := true
	func() {
		defer func() {
			if panicked {
				if p, ok := recover().(acErr); !ok {
					panic(p)
				}
			}
		}()
		r = runApp(app, line...)
		panicked = false
	}()
	t.State(strings.Join(m.l.events, " "))
	t.Step(len(l.events))
	if g, w := strings.Join(l.events, " "), strings.Join(m.l.events, " "); g != w {
		t.Failf("events:\n  implementation %s\n  model          %s", g, w)
	}
	if panicked != wantPanic {
		t.Failf("panic: implementation %v, model %v", panicked, wantPanic)
	}
	if panicked || wantPanic {
		return
	}
	var ok bool
	switch {
	case want == nil:
		ok = r.Error == nil
	case want == errAcLate:
		ok = errors.Is(r.Error, cli.ErrTimingTooLate)
	case want == errAcAssert:
		ok = r.Error != nil && strings.Contains(r.Error.Error(), "does not meet requirements")
	case m.recovered != "" && want == acErr(m.recovered):
		var ie *cli.InternalError
		ok = errors.Is(r.Error, want) || errors.As(r.Error, &ie) && ie.Err.Error() == m.recovered && strings.Contains(r.Err, "goroutine")
	default:
		ok = errors.Is(r.Error, want)
	}
	if !ok {
		t.Failf("error: implementation %v, model %v", r.Error, want)
	}
}

// terms by their number of nodes
func acTerms(size int) [][]*acTerm {
	res := make([][]*acTerm, size+1)
	for _, l := range acLeaves {
		res[1] = append(res[1], &acTerm{op: l})
	}
	unary := []acTerm{{op: "suppress"}, {op: "recover"}, {op: "if"}, {op: "ifnot"}, {op: "ifany"}, {op: "iftime", at: cli.BeforeTiming}, {op: "iftime", at: cli.ActionTiming}, {op: "assert"}, {op: "assertnot"}}
	for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming, cli.ValidatorTiming, cli.ImplicitValueTiming} {
		unary = append(unary, acTerm{op: "at", at: tm})
	}
	for n := 2; n <= size; n++ {
		for _, u := range unary {
			for _, k := range res[n-1] {
				c := u
				c.kids = []*acTerm{k}
				res[n] = append(res[n], &c)
			}
		}
		for _, op := range []string{"pipe", "lit"} {
			var rec func(left int, kids []*acTerm)
			rec = func(left int, kids []*acTerm) {
				if left == 0 {
					if len(kids) > 1 {
						res[n] = append(res[n], &acTerm{op: op, kids: clone(kids)})
					}
					return
				}
				for s := 1; s <= left; s++ {
					if s == n-1 {
						continue
					}
					for _, k := range res[s] {
						rec(left-s, append(clone(kids), k))
					}
				}
			}
			rec(n-1, nil)
		}
	}
	return res
}

// the forms of functions
func acForm(t *T, form string, fails bool, timing int) {
	var n int
	var gotCtx, gotNext bool
	var err error
	if fails {
		err = errFault
	}
	see := func(c context.Context) {
		n++
		gotCtx = cli.FromContext(c) != nil && cli.FromContext(c).App() != nil
	}
	var item any
	ctx, canFail, next := true, true, false
	switch form {
	case "nil":
		item, ctx, canFail = nil, false, false
	case "func()":
		item, ctx, canFail = func() { n++ }, false, false
	case "func() error":
		item, ctx = func() error { n++; return err }, false
	case "func(*Context)":
		item, canFail = func(c *cli.Context) { see(c) }, false
	case "func(*Context) error":
		item = func(c *cli.Context) error { see(c); return err }
	case "func(context.Context)":
		item, canFail = func(c context.Context) { see(c) }, false
	case "func(context.Context) error":
		item = func(c context.Context) error { see(c); return err }
	case "func(*Context, Action) error":
		next = true
		item = func(c *cli.Context, a cli.Action) error {
			see(c)
			gotNext = a != nil
			if err != nil {
				return err
			}
			return cli.Do(c, a)
		}
	case "func(Action) Action":
		ctx, canFail, next = false, false, true
		item = func(a cli.Action) cli.Action { n++; gotNext = a != nil; return a }
	case "ActionFunc":
		item = cli.ActionFunc(func(c *cli.Context) error { see(c); return err })
	case "Action":
		item = acAction{func(c context.Context) error { see(c); return err }}
	case "legacy":
		item = acLegacy{func(c *cli.Context) error { see(c); return err }}
	case "pipeline":
		item = cli.ActionPipeline{cli.ActionOf(func(c *cli.Context) error { see(c); return err })}
	case "nil ActionFunc":
		item, ctx, canFail = cli.ActionFunc(nil), false, false
	case "nil pipeline":
		item, ctx, canFail = cli.ActionPipeline(nil), false, false
	}
	rest := 0
	p := cli.Pipeline(item, func() { rest++ })
	app := &cli.App{Name: "app"}
	*[]*any{&app.Uses, &app.Before, &app.Action, &app.After}[timing] = p
	r := runApp(app)
	failed := canFail && fails
	t.Eq("error", r.Error, map[bool]error{true: errFault}[failed])
	want := 1
	if strings.HasPrefix(form, "nil") {
		want = 0
	}
	t.Eq("runs", n, want)
	t.Eq("context", gotCtx, ctx)
	t.Eq("next", gotNext, next)
	t.Eq("the rest runs", rest == 1, !failed)
	t.State(form, failed)

	// alone it does the same
	n = 0
	app = &cli.App{Name: "app"}
	*[]*any{&app.Uses, &app.Before, &app.Action, &app.After}[timing] = item
	r = runApp(app)
	t.Eq("runs alone", n, want)
	t.Eq("error alone", r.Error, map[bool]error{true: errFault}[failed])
}

type acAction struct{ f func(context.Context) error }

func (a acAction) Execute(c context.Context) error { return a.f(c) }

type acLegacy struct{ f func(*cli.Context) error }

func (a acLegacy) Execute(c *cli.Context) error { return a.f(c) }

// pipelines made from one another
func acDerive(t *T, ops []string) {
	type pipe struct {
		p    cli.ActionPipeline
		want string
	}
	var got strings.Builder
	mark := func(r rune) cli.Action { return cli.ActionOf(func() { got.WriteRune(r) }) }
	all := []pipe{{cli.Pipeline(mark('a'), mark('b')), "ab"}}
	setups := []cli.Setup{{Uses: cli.Pipeline(mark('s'))}}
	setupWant := []string{"s"}
	name := 'c'
	for _, op := range ops {
		from := int(op[1] - '0')
		if from >= len(all) {
			return
		}
		f := all[from]
		a, b := name, name+1
		name += 2
		switch op[0] {
		case '+':
			all = append(all, pipe{f.p.Append(mark(a)), f.want + string(a)})
		case '*':
			all = append(all, pipe{f.p.Append(mark(a), mark(b)), f.want + string(a) + string(b)})
		case '^':
			all = append(all, pipe{f.p.Prepend(mark(a)), string(a) + f.want})
		case 'p':
			all = append(all, pipe{cli.Pipeline(f.p, mark(a)), f.want + string(a)})
		case 'r':
			list := append(make([]cli.Action, 0, 8), mark(a))
			all = append(all, pipe{f.p.Prepend(list...), string(a) + f.want})
			list = append(list, mark('!'))
			_ = list
		case 's':
			if from >= len(setups) {
				return
			}
			setups = append(setups, setups[from].Use(mark(a)))
			setupWant = append(setupWant, setupWant[from]+string(a))
			all = append(all, pipe{cli.Pipeline(f.p), f.want})
		}
	}
	for i, p := range all {
		got.Reset()
		cli.Do(context.Background(), p.p)
		t.Eq(fmt.Sprintf("pipeline %d", i), got.String(), p.want)
	}
	for i, s := range setups {
		got.Reset()
		runApp(&cli.App{Uses: s, Action: func() {}})
		t.Eq(fmt.Sprintf("setup %d", i), got.String(), setupWant[i])
	}
	t.State(strings.Join(ops, " "))
}

func init() {
	register(&Prop{
		ID: "C25",
		Bound: "all terms of up to 4 (thorough: 5) nodes over 11 actions (plain, failing, panicking, 8 kinds of middleware), 15 wrappers (suppress, recover, conditions, assertions, 6 timings) and pipelines of both kinds; " +
			"pipelines of 4 terms of 13; setups with every subset of parts; in each pipeline of a command, sub-command, flag and argument; 15 forms of functions; up to 3 (5) pipelines derived from one another",
		Assumptions: []string{"the order of the pipelines of several targets is decided by C08"},
		Run: func(x *X) {
			one := func(g, target string, field int, term *acTerm) {
				x.Case(func() string { return fmt.Sprintf("%s|%s %s %v", g, target, "UBAZ"[field:field+1], term) }, func(t *T) { acCheck(t, target, field, term) })
			}
			forms := []string{"nil", "func()", "func() error", "func(*Context)", "func(*Context) error", "func(context.Context)", "func(context.Context) error", "func(*Context, Action) error", "func(Action) Action", "ActionFunc", "Action", "legacy", "pipeline", "nil ActionFunc", "nil pipeline"}
			for _, f := range forms {
				for timing := range 4 {
					for _, fails := range []bool{false, true} {
						x.Case(func() string { return fmt.Sprintf("form|%s %d %v", f, timing, fails) }, func(t *T) { acForm(t, f, fails, timing) })
					}
				}
			}
			depth := 3
			if x.Thorough {
				depth = 5
			}
			var ops []string
			for _, o := range "+*^prs" {
				for i := range depth {
					ops = append(ops, fmt.Sprintf("%c%d", o, i))
				}
			}
			words(ops, 1, depth, func(w []string) {
				for i, o := range w {
					if int(o[1]-'0') > i {
						return
					}
				}
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("derive|%v", l) }, func(t *T) { acDerive(t, l) })
			})
			n := 4
			if x.Thorough {
				n = 5
			}
			targets := []string{"app", "sub", "flag", "arg"}
			for _, size := range acTerms(n) {
				for _, term := range size {
					if x.Stop() {
						return
					}
					for field := range 4 {
						for _, tg := range targets {
							if (tg == "sub" || tg == "arg") && !x.Thorough && size[0].kids != nil && size[0].kids[0].kids != nil {
								continue
							}
							one("term", tg, field, term)
						}
					}
				}
			}
			lf := func(op string) *acTerm { return &acTerm{op: op} }
			un := func(op string, at cli.Timing, k *acTerm) *acTerm {
				return &acTerm{op: op, at: at, kids: []*acTerm{k}}
			}
			bi := func(op string, a, b *acTerm) *acTerm { return &acTerm{op: op, kids: []*acTerm{a, b}} }
			items := []*acTerm{lf("run"), lf("fail"), lf("pass"), lf("twice"), lf("swallow"), un("suppress", 0, lf("fail")),
				bi("pipe", lf("run"), lf("pass")), bi("lit", lf("pass"), lf("run")), un("at", cli.ActionTiming, lf("pass")), un("at", cli.ActionTiming, lf("run")), un("at", cli.AfterTiming, lf("run")),
				un("at", cli.BeforeTiming, un("at", cli.ActionTiming, lf("twice"))), un("recover", 0, lf("panic"))}
			words(items, 4, 4, func(w []*acTerm) {
				for _, op := range []string{"pipe", "lit"} {
					term := &acTerm{op: op, kids: clone(w)}
					for field := range 4 {
						if !x.Thorough && (op == "lit" || field == 1) {
							continue
						}
						one("list", []string{"app", "flag"}[field%2], field, term)
					}
				}
			})
			parts := []*acTerm{nil, lf("run"), lf("fail"), lf("pass"), un("at", cli.AfterTiming, lf("run")), bi("pipe", lf("pass"), lf("run"))}
			words(parts, 4, 4, func(w []*acTerm) {
				for _, op := range []string{"setup", "optsetup"} {
					term := &acTerm{op: op, kids: clone(w)}
					for field := range 4 {
						for _, tg := range targets {
							one("setup", tg, field, term)
						}
					}
				}
			})
		},
	})
}
