package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"strings"
	"syscall"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// C34: what is set on a context reaches the rest of the element which sets it
// and everything which runs below it, and nothing else.
//
// The oracle is a walk over a tree of commands which keeps the context as a
// small value (two keys, the value given to Run, the deadline) and says what
// each step of each pipeline has to find.

type cxKey string

// ctxState is the model's context.
type ctxState struct {
	k1, k2, base string
	deadline     int // hours, 0 is none
}

func (s ctxState) String() string {
	return fmt.Sprintf("k1=%s k2=%s base=%s deadline=%d", s.k1, s.k2, s.base, s.deadline)
}

// ctxSetter is one place which changes the context.
type ctxSetter struct {
	node string // "", "a", "ax", "ay", "b"
	at   string // uses, ubefore, before, uaction, action, uafter, after
	kind string // value, other, set, timeout
	val  int
}

func (s ctxSetter) String() string {
	return fmt.Sprintf("%s:%s:%s%d", map[string]string{"": "app"}[s.node]+s.node, s.at, s.kind, s.val)
}

func (s ctxSetter) apply(st ctxState) ctxState {
	v := fmt.Sprint("v", s.val)
	switch s.kind {
	case "value":
		st.k1 = v
	case "other":
		st.k2 = v
	case "set":
		st = ctxState{k1: v}
	case "timeout":
		if st.deadline == 0 || s.val < st.deadline {
			st.deadline = s.val
		}
	}
	return st
}

func (s ctxSetter) action() cli.Action {
	v := fmt.Sprint("v", s.val)
	switch s.kind {
	case "value":
		return cli.ContextValue(cxKey("k1"), v)
	case "other":
		return cli.ContextValue(cxKey("k2"), v)
	case "set":
		return cli.SetContext(context.WithValue(context.Background(), cxKey("k1"), v))
	default:
		return cli.Timeout(time.Duration(s.val)*time.Hour + 30*time.Minute)
	}
}

// ctxNodes lists the commands in the order they are initialized.
var ctxNodes = []string{"", "a", "ax", "ay", "b"}

func ctxParent(n string) string { return n[:max(0, len(n)-1)] }

func ctxChildren(n string) (res []string) {
	for _, c := range ctxNodes {
		if c != n && ctxParent(c) == n {
			res = append(res, c)
		}
	}
	return
}

// ctxObserve reads the context using the public accessors.
func ctxObserve(c *cli.Context) string {
	str := func(k string) string {
		v, _ := c.Value(cxKey(k)).(string)
		w, _ := c.Context().Value(cxKey(k)).(string)
		if v != w {
			return v + "/" + w
		}
		return v
	}
	st := ctxState{k1: str("k1"), k2: str("k2"), base: str("base")}
	d1, ok := c.Deadline()
	if d2, ok2 := c.Context().Deadline(); ok != ok2 || !d1.Equal(d2) {
		return "deadlines differ"
	}
	if ok {
		st.deadline = int(time.Until(d1).Hours())
	}
	return st.String()
}

// ctxApp builds the tree; every step is reported to step.
func ctxApp(setters []ctxSetter, step func(c *cli.Context, node, at string) error) *cli.App {
	obs := func(node, at string) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) error { return step(c, node, at) })
	}
	pick := func(node, at string) (res cli.ActionPipeline) {
		for _, s := range setters {
			if s.node == node && s.at == at {
				res = append(res, s.action())
			}
		}
		return
	}
	each := func(p cli.ActionPipeline, t cli.Timing) (res cli.ActionPipeline) {
		for _, a := range p {
			res = append(res, cli.At(t, a))
		}
		return
	}
	var build func(n string) *cli.Command
	build = func(n string) *cli.Command {
		res := &cli.Command{
			Uses: cli.Pipeline(pick(n, "uses"),
				each(pick(n, "ubefore"), cli.BeforeTiming),
				each(pick(n, "uaction"), cli.ActionTiming),
				each(pick(n, "uafter"), cli.AfterTiming),
				obs(n, "uses")),
			Before: cli.Pipeline(pick(n, "before"), obs(n, "before")),
			Action: cli.Pipeline(pick(n, "action"), obs(n, "action")),
			After:  cli.Pipeline(pick(n, "after"), obs(n, "after")),
			Flags: []*cli.Flag{{
				Name:   "f",
				Value:  cli.Bool(),
				Uses:   obs(n, "flag uses"),
				Before: obs(n, "flag before"),
				Action: obs(n, "flag action"),
				After:  obs(n, "flag after"),
			}},
		}
		if n != "" {
			res.Name = n[len(n)-1:]
		}
		for _, c := range ctxChildren(n) {
			res.Subcommands = append(res.Subcommands, build(c))
		}
		return res
	}
	r := build("")
	return &cli.App{
		Name: "app", Uses: r.Uses, Before: r.Before, Action: r.Action, After: r.After,
		Flags: r.Flags, Commands: r.Subcommands,
	}
}

// ctxModel says what each step finds.
func ctxModel(setters []ctxSetter, leaf string, flags bool) (trace []string) {
	upd := func(st ctxState, n, at string) ctxState {
		for _, s := range setters {
			if s.node == n && s.at == at {
				st = s.apply(st)
			}
		}
		return st
	}
	see := func(n, at string, st ctxState) {
		trace = append(trace, fmt.Sprintf("%s %s: %s", n, at, st))
	}
	// A timeout is deferred to Before
	initial := func(st ctxState, n string) ctxState {
		for _, s := range setters {
			if s.node == n && s.at == "uses" && s.kind != "timeout" {
				st = s.apply(st)
			}
		}
		return st
	}
	// Anything in Uses which has a later timing is deferred in the order given
	before := func(st ctxState, n string) ctxState {
		for _, s := range setters {
			if s.node == n && s.at == "uses" && s.kind == "timeout" {
				st = s.apply(st)
			}
		}
		return upd(upd(st, n, "ubefore"), n, "before")
	}
	base := ctxState{base: "b"}

	var initialize func(n string, st ctxState)
	initialize = func(n string, st ctxState) {
		st = initial(st, n)
		see(n, "uses", st)
		see(n, "flag uses", st)
		for _, c := range ctxChildren(n) {
			initialize(c, st)
		}
	}
	initialize("", base)

	var run func(n string, st ctxState)
	run = func(n string, st ctxState) {
		st = initial(st, n)
		st = before(st, n)
		see(n, "before", st)
		see(n, "flag before", st)
		if flags {
			see(n, "flag action", st)
		}
		if n != leaf {
			run(leaf[:len(n)+1], st)
		} else {
			st = upd(upd(st, n, "uaction"), n, "action")
			see(n, "action", st)
		}
		st = upd(upd(st, n, "uafter"), n, "after")
		see(n, "after", st)
		see(n, "flag after", st)
	}
	run("", base)
	return
}

// ctxLine is the command line which runs the leaf.
func ctxLine(leaf string, flags bool) (args []string) {
	if flags {
		args = append(args, "-f")
	}
	for _, c := range leaf {
		args = append(args, string(c))
		if flags {
			args = append(args, "-f")
		}
	}
	return
}

// ctxValues runs each leaf and compares what every step finds.

func ctxValues(x *X, setters []ctxSetter) {
	var names []string
	for _, s := range setters {
		names = append(names, s.String())
	}
	key := strings.Join(names, " ")
	for _, leaf := range ctxNodes {
		for _, flags := range []bool{false, true} {
			if flags && len(setters) > 1 {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("values|%s|run %q flags=%v", key, leaf, flags) }, func(t *T) {
				var trace []string
				var captured context.Context
				app := ctxApp(setters, func(c *cli.Context, node, at string) error {
					trace = append(trace, fmt.Sprintf("%s %s: %s", node, at, ctxObserve(c)))
					if node == leaf && at == "action" {
						captured = c.Context()
						if err := c.Err(); err != nil {
							t.Failf("the context is %v when the action runs", err)
						}
					}
					return nil
				})
				app.Stdout, app.Stderr = new(strings.Builder), new(strings.Builder)
				ctx := context.WithValue(context.Background(), cxKey("base"), "b")
				err := app.RunContext(ctx, append([]string{"app"}, ctxLine(leaf, flags)...))
				t.Step(1)
				if err != nil {
					t.Failf("run: %v", err)
					return
				}
				want := ctxModel(setters, leaf, flags)
				t.Step(len(trace))
				for i := range max(len(want), len(trace)) {
					g, w := "nothing", "nothing"
					if i < len(trace) {
						g = trace[i]
					}
					if i < len(want) {
						w = want[i]
					}
					if g != w {
						t.Failf("step %d: found\n\t%s\nexpected\n\t%s", i, g, w)
						return
					}
				}
				// What was started for a timeout is released by the end
				if captured != nil {
					timeout := false
					for _, s := range setters {
						timeout = timeout || s.kind == "timeout"
					}
					if _, has := captured.Deadline(); has && timeout {
						if !errors.Is(captured.Err(), context.Canceled) {
							t.Failf("the context with a timeout is not cancelled after the run: %v", captured.Err())
						}
					} else if captured.Err() != nil {
						t.Failf("the context is %v after the run", captured.Err())
					}
				}
				t.State(strings.Join(trace, "\n"))
			})
		}
	}
}

func ctxSetters() (res []ctxSetter) {
	for _, n := range ctxNodes {
		for _, at := range []string{"uses", "ubefore", "before", "uaction", "action", "uafter", "after"} {
			for _, k := range []string{"value", "other", "set", "timeout"} {
				if k == "timeout" && at != "uses" && at != "ubefore" && at != "before" {
					continue
				}
				res = append(res, ctxSetter{n, at, k, 0})
			}
		}
	}
	return
}

// ctxSteps are the steps at which something can happen to the context given to Run.
func ctxCancel(x *X) {
	for _, leaf := range ctxNodes {
		model := ctxModel(nil, leaf, true)
		for i := range model {
			for _, kind := range []string{"none", "value", "timeout"} {
				for _, n := range ctxNodes {
					if kind == "none" && n != "" {
						continue
					}
					var setters []ctxSetter
					if kind != "none" {
						setters = []ctxSetter{{n, "uses", kind, 5}}
					}
					x.Case(func() string {
						return fmt.Sprintf("cancel|%s %q|run %q|cancelled at %d", kind, n, leaf, i)
					}, func(t *T) {
						ctx, cancel := context.WithCancelCause(context.WithValue(context.Background(), cxKey("base"), "b"))
						defer cancel(nil)
						step := 0
						cause := errors.New("stopped")
						app := ctxApp(setters, func(c *cli.Context, node, at string) error {
							where := fmt.Sprintf("step %d (%q %s)", step, node, at)
							if step == i {
								cancel(cause)
							}
							ended := at == "after" || at == "flag after"
							closed := false
							select {
							case <-c.Done():
								closed = true
							default:
							}
							if step >= i {
								if !errors.Is(c.Err(), context.Canceled) || !closed {
									t.Failf("%s: not cancelled: err %v, done %v", where, c.Err(), closed)
								}
								if !ended && context.Cause(c.Context()) != cause {
									t.Failf("%s: cause is %v", where, context.Cause(c.Context()))
								}
							} else if !ended && (c.Err() != nil || closed) {
								t.Failf("%s: cancelled early: err %v, done %v", where, c.Err(), closed)
							}
							step++
							return nil
						})
						app.Stdout, app.Stderr = new(strings.Builder), new(strings.Builder)
						err := app.RunContext(ctx, append([]string{"app"}, ctxLine(leaf, true)...))
						t.Step(step)
						t.Eq("error", errText(err), "")
						t.Eq("steps", step, len(model))
					})
				}
			}
		}
	}
}

// ctxSignals has each command handle a signal, which is then sent at a step.
func ctxSignals(x *X) {
	sigs := []os.Signal{syscall.SIGUSR1, syscall.SIGUSR2}
	wait := 20 * time.Second
	for _, leaf := range ctxNodes {
		for _, host := range ctxNodes {
			for _, at := range []string{"uses", "before"} {
				for _, handled := range [][]os.Signal{sigs[:1], sigs[1:], sigs} {
					for _, sent := range sigs {
						for _, when := range []string{"before", "flag action", "action"} {
							for _, also := range []string{"", "deadline", "cancel", "timeout", "timeout after", "value"} {
								x.Case(func() string {
									return fmt.Sprintf("signal|%q %s handles %v|run %q|%v sent at %s %s", host, at, handled, leaf, sent, when, also)
								}, func(t *T) {
									// The test process isn't ended by either
									own := make(chan os.Signal, 8)
									signal.Notify(own, sigs...)
									defer signal.Stop(own)

									onPath := strings.HasPrefix(leaf, host)
									var handles bool
									for _, h := range handled {
										handles = handles || h == sent
									}
									var captured context.Context
									sentAlready := false
									app := ctxApp(nil, func(c *cli.Context, node, step string) error {
										if node != leaf || step != when {
											return nil
										}
										sentAlready = true
										if c.Err() != nil {
											t.Failf("cancelled early: %v", c.Err())
										}
										captured = c.Context()
										syscall.Kill(os.Getpid(), sent.(syscall.Signal))
										<-own // it was delivered
										if onPath && handles {
											select {
											case <-c.Done():
												t.Eq("error", c.Err(), context.Canceled)
											case <-time.After(wait):
												t.Failf("the signal is not handled")
												wait = 300 * time.Millisecond // the others which fail need not take as long
											}
										}
										return nil
									})
									app.Stdout, app.Stderr = new(strings.Builder), new(strings.Builder)
									act := cli.HandleSignal(handled...)
									// what else there is for the context doesn't matter
									ctx := context.Background()
									stop := func() {}
									defer func() { stop() }()
									switch also {
									case "deadline":
										ctx, stop = context.WithTimeout(ctx, time.Hour)
									case "cancel":
										ctx, stop = context.WithCancel(ctx)
									case "timeout":
										act = cli.Pipeline(cli.Timeout(time.Hour), act)
									case "timeout after":
										act = cli.Pipeline(act, cli.Timeout(time.Hour))
									case "value":
										act = cli.Pipeline(cli.ContextValue(cxKey("also"), "v"), act)
									}
									ctxAttach(app, host, at, act)
									err := app.RunContext(ctx, append([]string{"app"}, ctxLine(leaf, true)...))
									if onPath && also == "value" && captured != nil {
										t.Eq("value", captured.Value(cxKey("also")), "v")
									}
									t.Step(1)
									t.Eq("run", errText(err), "")
									if !sentAlready {
										t.Failf("the step was not reached")
										return
									}
									if onPath {
										if captured.Err() == nil {
											t.Failf("the handler is not released after the run")
										}
									} else if captured.Err() != nil {
										t.Failf("a command which isn't used handles the signal: %v", captured.Err())
									}
									t.State("%v %v %v %v", onPath, handles, when, also)
								})
							}
						}
					}
				}
			}
		}
	}
}

// ctxAttach adds an action in front of the pipeline of a command.
func ctxAttach(app *cli.App, host, at string, act cli.Action) {
	if host == "" {
		if at == "uses" {
			app.Uses = cli.Pipeline(act, app.Uses)
		} else {
			app.Before = cli.Pipeline(act, app.Before)
		}
		return
	}
	cmds := app.Commands
	for i := range host {
		for _, c := range cmds {
			if c.Name != host[i:i+1] {
				continue
			}
			if i == len(host)-1 {
				if at == "uses" {
					c.Uses = cli.Pipeline(act, c.Uses)
				} else {
					c.Before = cli.Pipeline(act, c.Before)
				}
				return
			}
			cmds = c.Subcommands
			break
		}
	}
	panic("no command " + host)
}

// ctxTimeouts lets short timeouts expire: which of several ends the context.
func ctxExpire(x *X) {
	const short, long = 15 * time.Millisecond, time.Hour
	for _, leaf := range ctxNodes {
		for n := range ctxNodes {
			for m := range ctxNodes {
				for _, ds := range [][2]time.Duration{{short, long}, {long, short}, {long, long}} {
					x.Case(func() string {
						return fmt.Sprintf("expire|%q %v, %q %v|run %q", ctxNodes[n], ds[0], ctxNodes[m], ds[1], leaf)
					}, func(t *T) {
						expires := ds[0] == short && strings.HasPrefix(leaf, ctxNodes[n]) ||
							ds[1] == short && strings.HasPrefix(leaf, ctxNodes[m])
						app := ctxApp(nil, func(c *cli.Context, node, step string) error {
							if node != leaf || step != "action" {
								return nil
							}
							if expires {
								select {
								case <-c.Done():
									t.Eq("error", c.Err(), context.DeadlineExceeded)
								case <-time.After(20 * time.Second):
									t.Failf("the timeout does not end the context")
								}
								return c.Err()
							}
							time.Sleep(2 * short)
							t.Eq("error", c.Err(), nil)
							return nil
						})
						app.Stdout, app.Stderr = new(strings.Builder), new(strings.Builder)
						ctxAttach(app, ctxNodes[n], "uses", cli.Timeout(ds[0]))
						ctxAttach(app, ctxNodes[m], "uses", cli.Timeout(ds[1]))
						err := app.RunContext(context.Background(), append([]string{"app"}, ctxLine(leaf, false)...))
						t.Step(1)
						want := error(nil)
						if expires {
							want = context.DeadlineExceeded
						}
						if !errors.Is(err, want) {
							t.Failf("run: %v, expected %v", err, want)
						}
					})
				}
			}
		}
	}
}

// ctxCurrent nests runs of apps: the current app is the innermost one which runs.
func ctxCurrent(x *X) {
	for depth := 1; depth <= 3; depth++ {
		for _, at := range []string{"uses", "before", "action", "after", "flag before", "flag action"} {
			for _, fails := range []string{"", "error", "panic"} {
				for _, outer := range []bool{false, true} {
					for _, leaf := range []string{"", "ax", "b"} {
						x.Case(func() string {
							return fmt.Sprintf("current|depth %d at %s|inner ends with %q|outer %v|run %q", depth, at, fails, outer, leaf)
						}, func(t *T) {
							prev := cli.CurrentApp()
							defer cli.SetCurrentApp(prev)
							var root *cli.App
							if outer {
								root = &cli.App{Name: "outer"}
							}
							cli.SetCurrentApp(root)
							steps := 0
							var run func(d int) error
							run = func(d int) error {
								var app *cli.App
								nested := false
								app = ctxApp(nil, func(c *cli.Context, node, step string) error {
									steps++
									if cli.CurrentApp() != app {
										t.Failf("depth %d, %q %s: another app is current", d, node, step)
									}
									if c.App() != app {
										t.Failf("depth %d, %q %s: App is another", d, node, step)
									}
									if step != at || node != leaf || nested {
										return nil
									}
									nested = true
									if d < depth {
										func() {
											defer func() { recover() }()
											run(d + 1)
										}()
										if cli.CurrentApp() != app {
											t.Failf("depth %d, %q %s: the app is not current again", d, node, step)
										}
										return nil
									}
									switch fails {
									case "error":
										return errors.New("fails")
									case "panic":
										panic("fails")
									}
									return nil
								})
								app.Stdout, app.Stderr = new(strings.Builder), new(strings.Builder)
								return app.RunContext(context.Background(), append([]string{"app"}, ctxLine(leaf, true)...))
							}
							func() {
								defer func() { recover() }()
								run(1)
							}()
							t.Step(steps)
							if cli.CurrentApp() != root {
								t.Failf("the current app is not restored after the run")
							}
						})
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C34",
		Bound: "a tree of five commands (an app, two commands, two subcommands of the first), each with a flag, run at each of its five leaves. values: every one or two (thorough: three of the kinds value and timeout) changes to the context out of ContextValue with two keys, SetContext and Timeout × 7 places (Uses, Before, Action and After as deferred by Uses, and the Before, Action and After fields) × 5 commands in both orders; the values, the deadline and the error observed at each step of each pipeline. " +
			"cancel: the context given to Run is cancelled at each of the steps, with a value or timeout added at each command. signal: HandleSignal for each non-empty subset of two signals at each command and place, each signal sent at three steps, alone or with a deadline or cancellation of the context given to Run, a timeout or a value. expire: every pair of short and long timeouts at pairs of commands. current: up to three nested runs at six steps which succeed, fail or panic.",
		Assumptions: []string{
			"values which flags and args set on their own contexts are not judged",
			"whether a timeout is already released when the After actions of the same command run is not judged, only that it is after the run",
		},
		Run: func(x *X) {
			all := ctxSetters()
			ctxValues(x, nil)
			for i := range all {
				s := all[i]
				s.val = 2
				ctxValues(x, []ctxSetter{s})
			}
			for i := range all {
				for j := range all {
					if x.Stop() {
						return
					}
					a, b := all[i], all[j]
					if a.kind == "other" || b.kind == "other" && a.kind == "timeout" {
						continue // symmetric to value
					}
					a.val, b.val = 2, 3
					if i > j && (a.kind != "timeout" && a.kind != b.kind) && (a.node != b.node || a.at != b.at) {
						continue // places which differ don't depend on the order
					}
					ctxValues(x, []ctxSetter{a, b})
				}
			}
			ctxCancel(x)
			ctxSignals(x)
			ctxExpire(x)
			ctxCurrent(x)
			if x.Thorough {
				var sub []ctxSetter
				for _, s := range all {
					if s.at != "uafter" && s.at != "after" && (s.kind == "value" || s.kind == "timeout") {
						sub = append(sub, s)
					}
				}
				for i := range sub {
					for j := range sub {
						for k := range sub {
							if x.Stop() {
								return
							}
							a, b, c := sub[i], sub[j], sub[k]
							a.val, b.val, c.val = 3, 2, 4
							ctxValues(x, []ctxSetter{a, b, c})
						}
					}
				}
			}
		},
	})
}
