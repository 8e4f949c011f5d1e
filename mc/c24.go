package main

import (
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// What a context answers about flags, arguments and commands by any kind of name.

type lookCase struct {
	depth  int
	uses   map[[2]int]int // flag of level i used n times on the line of level j
	args   int            // tokens for the two optional arguments of the last level
	shadow bool           // the last level redefines flag0
}

func (lc lookCase) String() string {
	s := fmt.Sprintf("depth=%d args=%d shadow=%v", lc.depth, lc.args, lc.shadow)
	for i := 0; i < 3; i++ {
		for j := i; j < 3; j++ {
			if n := lc.uses[[2]int{i, j}]; n > 0 {
				s += fmt.Sprintf(" flag%d@%d*%d", i, j, n)
			}
		}
	}
	return s
}

type lookOcc struct{ tok, val string }

func (lc lookCase) run(t *T) {
	cmdNames := []string{"app", "sub", "leaf"}[:lc.depth]
	last := lc.depth - 1
	letters := []string{"a", "b", "c"}
	// lines and occurrences; shadowing flag is number 3
	occs := map[[2]int][]lookOcc{}
	lines := make([][]string, lc.depth)
	k := 0
	for j := 0; j < lc.depth; j++ {
		for i := 0; i <= j; i++ {
			for n := 0; n < lc.uses[[2]int{i, j}]; n++ {
				v := fmt.Sprintf("v%d%d%d", i, j, n)
				forms := [][]string{{fmt.Sprintf("--flag%d", i), v}, {"-" + letters[i], v}, {fmt.Sprintf("--al%d=%s", i, v)}, {"-" + letters[i] + v}}
				toks := []string{fmt.Sprintf("--flag%d", i), "-" + letters[i], fmt.Sprintf("--al%d", i), "-" + letters[i]}
				f := k % 4
				k++
				id := i
				if lc.shadow && i == 0 && j == last {
					f, id = 0, 3
				}
				lines[j] = append(lines[j], forms[f]...)
				occs[[2]int{id, j}] = append(occs[[2]int{id, j}], lookOcc{toks[f], v})
			}
		}
	}
	argVals := []string{"p", "q"}[:lc.args]
	lines[last] = append(lines[last], argVals...)
	whole := make([][]string, lc.depth) // tokens of each command from its name on
	var tail []string
	for j := last; j >= 0; j-- {
		tail = append(append([]string{cmdNames[j]}, lines[j]...), tail...)
		whole[j] = tail
	}

	flags := make([]*cli.Flag, 4)
	args := make([]*cli.Arg, 2)
	id := func(level int, i int) int { // the flag named flag{i} seen from level
		if i == 0 && lc.shadow && level == last {
			return 3
		}
		return i
	}
	fold := func(f, parsed int) string {
		v := "init"
		for j := 0; j <= parsed; j++ {
			for _, o := range occs[[2]int{f, j}] {
				v = o.val
			}
		}
		return v
	}
	count := func(f, parsed int) (n int) {
		for j := 0; j <= parsed; j++ {
			n += len(occs[[2]int{f, j}])
		}
		return
	}
	raw := func(f, level int) (r, o []string) {
		for j := level; j >= 0; j-- {
			for _, x := range occs[[2]int{f, j}] {
				r = append(r, x.tok, x.val)
				o = append(o, x.val)
			}
			if len(r) > 0 {
				return
			}
			if f == 3 && j == last {
				f = 0 // the name means the redefined flag further up
			}
		}
		return
	}
	seenCtx := 0
	// check compares everything the context says; self is the option, or -1
	// for the command, 10 and 11 for arguments
	check := func(what string, c *cli.Context, level, parsed, self int) {
		seenCtx++
		type ans struct {
			val      any
			raw, occ []string
			seen     bool
			n        int
			flag     *cli.Flag
			arg      *cli.Arg
			ctx      string
		}
		ask := func(name any, rawOnly ...bool) (a ans) {
			a.val = c.Value(name)
			a.raw = c.Raw(name)
			a.occ = c.RawOccurrences(name)
			a.seen = c.Seen(name)
			a.n = c.Occurrences(name)
			switch name.(type) {
			case string, rune, *cli.Flag:
				a.flag, _ = c.LookupFlag(name)
			}
			switch name.(type) {
			case string, rune, *cli.Arg, int:
				a.arg, _ = c.LookupArg(name)
			}
			if name != nil {
				if x := c.ContextOf(name); x != nil {
					a.ctx = x.Path().String()
				}
			}
			return
		}
		cmp := func(name any, want ans) {
			got := ask(name)
			if fmt.Sprint(got.val) != fmt.Sprint(want.val) || q(got.raw) != q(want.raw) || q(got.occ) != q(want.occ) || got.seen != want.seen || got.n != want.n ||
				got.flag != want.flag || got.arg != want.arg || got.ctx != want.ctx {
				t.Failf("%s: asked for %T %v: implementation %+v, model %+v", what, name, name, got, want)
			}
			t.Step(1)
		}
		path := strings.Join(cmdNames[:level+1], " ")
		none := ans{n: -1}
		for i := 0; i < lc.depth; i++ {
			f := id(level, i)
			names := []any{fmt.Sprintf("flag%d", i), fmt.Sprintf("--flag%d", i)}
			if f == i && !(i == 0 && lc.shadow && level == last) {
				names = append(names, fmt.Sprintf("al%d", i), letters[i], "-"+letters[i], []rune(letters[i])[0], fmt.Sprintf("--al%d", i))
			}
			if i > level {
				for _, n := range names {
					cmp(n, none)
				}
				continue
			}
			want := ans{val: fold(f, parsed), seen: count(f, parsed) > 0, n: count(f, parsed), flag: flags[f], ctx: fmt.Sprintf("%s --flag%d", path, i)}
			want.raw, want.occ = raw(f, level)
			for _, n := range names {
				cmp(n, want)
			}
			cmp(flags[f], want)
		}
		for i := range args {
			name := []string{"argA", "argB"}[i]
			if level != last {
				cmp(name, none)
				continue
			}
			want := ans{val: "", n: 0, arg: args[i], ctx: path + " <" + name + ">"}
			if i < lc.args && parsed == last {
				want.val, want.n, want.seen = argVals[i], 1, true
				want.raw, want.occ = []string{"<" + name + ">", argVals[i]}, []string{argVals[i]}
				if self == 10+i {
					want.raw = want.occ
				}
			}
			for _, n := range []any{name, "<" + name + ">", i, i - 2, args[i]} {
				cmp(n, want)
			}
		}
		if level == last {
			for _, n := range []any{2, -3, 99} {
				cmp(n, none)
			}
			if c.IsCommand() {
				wv := []any{"", ""}
				for i, v := range argVals {
					wv[i] = v
				}
				t.Eq(what+" Values", fmt.Sprint(c.Values()), fmt.Sprint(wv))
				t.Eq(what+" NValue", c.NValue(), 2)
			}
		}
		for _, n := range []any{"nope", "--nope", "<nope>", 'z'} {
			cmp(n, none)
		}
		// the current target
		var cur ans
		wantPath := path
		switch {
		case self < 0:
			cur = ans{raw: whole[level], occ: whole[level][1:], n: -1, ctx: path}
		case self >= 10:
			cur = ans{val: argVals[self-10], raw: argVals[self-10 : self-9], occ: argVals[self-10 : self-9], seen: true, n: 1, arg: args[self-10]}
			wantPath += " <" + args[self-10].Name + ">"
			cur.ctx = wantPath
		default:
			cur = ans{val: fold(self, parsed), seen: count(self, parsed) > 0, n: count(self, parsed), flag: flags[self]}
			cur.raw, cur.occ = raw(self, level)
			if count(self, last) == 0 {
				cur.raw, cur.occ = nil, nil
			}
			wantPath += " --" + flags[self].Name
			cur.ctx = wantPath
		}
		cmp("", cur)
		t.Eq(what+" Args", q(c.Args()), q(cur.raw))
		nilAns := cur
		nilAns.flag, nilAns.arg, nilAns.ctx = nil, nil, ""
		cmp(nil, nilAns)
		t.Eq(what+" Path", c.Path().String(), wantPath)
		t.Eq(what+" Name", c.Name(), strings.Fields(wantPath)[len(strings.Fields(wantPath))-1])
		t.Eq(what+" kind", fmt.Sprint(c.IsCommand(), c.IsFlag(), c.IsArg(), c.HasValue()), fmt.Sprint(self < 0, self >= 0 && self < 10, self >= 10, self >= 0))
		t.Eq(what+" Command", c.Command().Name, cmdNames[level])
		t.Eq(what+" Root", c.Root().Name(), "app")
		if (c.Flag() != nil) != (self >= 0 && self < 10) || c.Flag() != nil && c.Flag() != flags[self] {
			t.Failf("%s: Flag() is %v", what, c.Flag())
		}
		if (c.Arg() != nil) != (self >= 10) || c.Arg() != nil && c.Arg() != args[self-10] {
			t.Failf("%s: Arg() is %v", what, c.Arg())
		}
		if c.App() == nil || c.App().Name != "app" {
			t.Failf("%s: App() is %v", what, c.App())
		}
		var lineage []string
		for _, a := range c.Lineage() {
			lineage = append(lineage, a.Name())
		}
		var wantLineage []string
		for _, n := range strings.Fields(wantPath) {
			wantLineage = append([]string{n}, wantLineage...)
		}
		t.Eq(what+" Lineage", q(lineage), q(wantLineage))
		// lists of flags
		pick := func(fs []*cli.Flag) (s []string) {
			for _, f := range fs {
				for i, g := range flags {
					if f == g {
						s = append(s, fmt.Sprint(i))
					}
				}
			}
			return
		}
		var local, persistent []string
		if self < 0 {
			for i := 0; i < level; i++ {
				persistent = append(persistent, fmt.Sprint(i))
			}
			local = []string{fmt.Sprint(level)}
			if lc.shadow && level == last {
				local = append(local, "3")
			}
		}
		t.Eq(what+" LocalFlags", q(pick(c.LocalFlags())), q(local))
		t.Eq(what+" PersistentFlags", q(pick(c.PersistentFlags())), q(persistent))
		t.Eq(what+" Flags", q(pick(c.Flags())), q(append(persistent, local...)))
		// sub-commands
		for i, n := range append([]string{"nope"}, cmdNames...) {
			cmd, ok := c.LookupCommand(n)
			want := self < 0 && i == level+2
			if ok != want || ok && cmd.Name != n {
				t.Failf("%s: LookupCommand(%q) = %v, %v", what, n, cmd, ok)
			}
		}
		if self < 0 {
			if cmd, ok := c.LookupCommand(""); !ok || cmd != c.Command() {
				t.Failf("%s: LookupCommand of the empty name is %v, %v", what, cmd, ok)
			}
		}
		t.State(lc.depth, what, level, parsed, self, c.Value("flag0"))
	}

	deepest := 0
	obs := func(what string, level int, self int, parsed func() int) cli.ActionFunc {
		return func(c *cli.Context) error {
			p := parsed()
			l := level
			if level < 0 {
				// the action of a flag runs in the command that used it
				l = len(c.Path()) - 2
			}
			check(what, c, l, p, self)
			return nil
		}
	}
	now := func() int { return deepest }
	mkFlag := func(n int, name string, level int, aliases ...string) *cli.Flag {
		s := "init"
		f := &cli.Flag{Name: name, Aliases: aliases, Value: &s, Before: obs(fmt.Sprintf("before of flag %d", n), level, n, now), Action: obs(fmt.Sprintf("action of flag %d", n), -1, n, now),
			After: obs(fmt.Sprintf("after of flag %d", n), level, n, now)}
		flags[n] = f
		return f
	}
	for i := 0; i < lc.depth; i++ {
		mkFlag(i, fmt.Sprintf("flag%d", i), i, letters[i], fmt.Sprintf("al%d", i))
	}
	for i, n := range []string{"argA", "argB"} {
		args[i] = &cli.Arg{Name: n, Value: new(string), Action: obs("action of "+n, last, 10+i, now)}
	}
	var build func(level int) *cli.Command
	build = func(level int) *cli.Command {
		cmd := &cli.Command{Name: cmdNames[level], Flags: []*cli.Flag{flags[level]},
			Before: cli.Pipeline(func() { deepest = level }, obs("before", level, -1, now)),
			Action: obs("action", level, -1, now), After: obs("after", level, -1, now)}
		if level == last {
			cmd.Args = args
			if lc.shadow {
				cmd.Flags = append(cmd.Flags, mkFlag(3, "flag0", level))
			}
		} else {
			cmd.Subcommands = []*cli.Command{build(level + 1)}
		}
		return cmd
	}
	root := build(0)
	app := &cli.App{Name: "app", Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Before: root.Before, Action: root.Action, After: root.After}
	r := runApp(app, whole[0][1:]...)
	if r.Error != nil {
		t.Failf("fails with %v", r.Error)
	}
	if seenCtx < 2*lc.depth+1 {
		t.Failf("only %d contexts were observed", seenCtx)
	}
}

// --- values of a context.Context

type ctxKey string

func ctxValueRun(t *T, depth int, setAt []int, how int) {
	names := []string{"app", "sub", "leaf"}[:depth]
	has := map[int]bool{}
	for _, s := range setAt {
		has[s] = true
	}
	got := map[string]any{}
	var build func(l int) *cli.Command
	build = func(l int) *cli.Command {
		see := func(what string) cli.Action {
			return cli.ActionOf(func(c *cli.Context) { got[fmt.Sprint(what, l)] = c.Value(ctxKey("k")) })
		}
		var set, uses any
		if has[l] {
			v := fmt.Sprint("from", l)
			switch how {
			case 0:
				set = func(c *cli.Context) error { return c.SetContextValue(ctxKey("k"), v) }
			case 1:
				set = cli.ContextValue(ctxKey("k"), v)
			case 2:
				uses = cli.Before(cli.ContextValue(ctxKey("k"), v))
			}
		}
		cmd := &cli.Command{Name: names[l], Uses: uses, Before: cli.Pipeline(set, see("before")), Action: see("action"), After: see("after"),
			Flags: []*cli.Flag{{Name: "f" + fmt.Sprint(l), Value: new(bool), Before: see("flagbefore"), Action: see("flag")}}}
		if l+1 < depth {
			cmd.Subcommands = []*cli.Command{build(l + 1)}
		}
		return cmd
	}
	root := build(0)
	app := &cli.App{Name: "app", Uses: root.Uses, Flags: root.Flags, Commands: root.Subcommands, Before: root.Before, Action: root.Action, After: root.After}
	var line []string
	for l := range names {
		if l > 0 {
			line = append(line, names[l])
		}
		line = append(line, "--f"+fmt.Sprint(l))
	}
	r := runApp(app, line...)
	if r.Error != nil {
		t.Failf("fails with %v", r.Error)
	}
	for l := range names {
		var want any
		for j := 0; j <= l; j++ {
			if has[j] {
				want = fmt.Sprint("from", j)
			}
		}
		whats := []string{"before", "flagbefore", "flag", "after"}
		if l == depth-1 {
			whats = append(whats, "action")
		}
		for _, w := range whats {
			t.Eq(fmt.Sprint(w, " of level ", l), fmt.Sprint(got[fmt.Sprint(w, l)]), fmt.Sprint(want))
		}
	}
	t.State(depth, setAt, how)
}

// --- lookups over maps and functions

func lookupMapRun(t *T, typ int, ptr bool, fn bool) {
	u, _ := url.Parse("http://x/")
	vals := []any{true, int(-1), int8(-8), int16(-16), int32(-32), int64(-64), uint(1), uint8(8), uint16(16), uint32(32), uint64(64), float32(1.5), float64(2.5),
		"s", []string{"a", "b"}, map[string]string{"k": "v"}, 3 * time.Second, u, regexp.MustCompile("r"), net.ParseIP("127.0.0.1"), big.NewInt(9), big.NewFloat(9.5), []byte{1, 2}, []*cli.NameValue{{Name: "n", Value: "v"}}}
	if typ >= len(vals) {
		return
	}
	v := vals[typ]
	stored := v
	if ptr {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		stored = p.Interface()
	}
	var l cli.Lookup = cli.LookupValues{"a": stored}
	if fn {
		l = cli.LookupFunc(func(n string) (any, bool) {
			if n == "a" {
				return stored, true
			}
			return nil, false
		})
	}
	get := func(name any) any {
		switch v.(type) {
		case bool:
			return l.Bool(name)
		case int:
			return l.Int(name)
		case int8:
			return l.Int8(name)
		case int16:
			return l.Int16(name)
		case int32:
			return l.Int32(name)
		case int64:
			return l.Int64(name)
		case uint:
			return l.Uint(name)
		case uint8:
			return l.Uint8(name)
		case uint16:
			return l.Uint16(name)
		case uint32:
			return l.Uint32(name)
		case uint64:
			return l.Uint64(name)
		case float32:
			return l.Float32(name)
		case float64:
			return l.Float64(name)
		case string:
			return l.String(name)
		case []string:
			return l.List(name)
		case map[string]string:
			return l.Map(name)
		case time.Duration:
			return l.Duration(name)
		case *url.URL:
			return l.URL(name)
		case *regexp.Regexp:
			return l.Regexp(name)
		case net.IP:
			return l.IP(name)
		case *big.Int:
			return l.BigInt(name)
		case *big.Float:
			return l.BigFloat(name)
		case []byte:
			return l.Bytes(name)
		case []*cli.NameValue:
			return l.NameValues(name)
		}
		return nil
	}
	for _, n := range []any{"a", 'a', &cli.Flag{Name: "a"}, &cli.Arg{Name: "a"}} {
		if g := get(n); !reflect.DeepEqual(g, v) {
			t.Failf("typed accessor of %T by %T gives %#v, want %#v", v, n, g, v)
		}
		if g := l.Value(n); !reflect.DeepEqual(g, v) {
			t.Failf("Value of %T by %T gives %#v, want %#v", v, n, g, v)
		}
		if g, ok := l.Interface(n); !ok || !reflect.DeepEqual(g, stored) {
			t.Failf("Interface of %T by %T gives %#v, want %#v", v, n, g, stored)
		}
	}
	if g := l.Value("b"); g != nil {
		t.Failf("Value of a missing name is %v", g)
	}
	for _, n := range []any{"b", 'b', "", &cli.Flag{Name: "b"}, &cli.Arg{Name: "b"}} {
		lookZero(t, fmt.Sprintf("%T", l), l, n)
	}
	if g, ok := l.Interface("b"); ok || g != nil {
		t.Failf("Interface of a missing name is %v, %v", g, ok)
	}
	t.State(typ, ptr, fn)
}

// lookZero asks every typed accessor for a name which does not exist
func lookZero(t *T, what string, l cli.Lookup, name any) {
	v := reflect.ValueOf(l)
	iface := reflect.TypeOf((*cli.Lookup)(nil)).Elem()
	for i := range iface.NumMethod() {
		m := iface.Method(i)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Failf("%s: %s(%#v) panics: %v", what, m.Name, name, r)
				}
			}()
			in := reflect.ValueOf(&name).Elem()
			for _, o := range v.MethodByName(m.Name).Call([]reflect.Value{in}) {
				if !o.IsZero() {
					t.Failf("%s: %s(%#v) gives %v", what, m.Name, name, o)
				}
			}
			t.Step(1)
		}()
	}
}

// lookTargets asks in every context there is, including those of expression
// operators and their args, and the initial timing in which nothing was parsed.
func lookTargets(t *T, target string, line []string) {
	flag := &cli.Flag{Name: "long", Aliases: []string{"l"}, Value: new(bool)}
	sflag := &cli.Flag{Name: "sf", Value: new(string)}
	arg := &cli.Arg{Name: "first", Value: new(string)}
	oarg := &cli.Arg{Name: "oparg", Value: new(string)}
	op := &expr.Expr{Name: "op", Args: []*cli.Arg{oarg}, Evaluate: func(any) bool { return true }}
	sub := &cli.Command{Name: "sub", Flags: []*cli.Flag{sflag}, Args: []*cli.Arg{arg, {Name: "ex", Value: &expr.Expression{Exprs: []*expr.Expr{op}}}}}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{flag}, Commands: []*cli.Command{sub}}
	inSub := target != "app" && target != "flag"
	var saw []string
	look := cli.ActionOf(func(c *cli.Context) error {
		what := fmt.Sprintf("%s at %v", target, c.Timing())
		saw = append(saw, fmt.Sprint(c.Timing()))
		ask := func(name any, fn func()) {
			defer func() {
				if r := recover(); r != nil {
					t.Failf("%s: asked for %#v: panics: %v", what, name, r)
				}
			}()
			fn()
			t.Step(1)
		}
		for _, n := range []any{"nope", "--nope", "<nope>", 'z', &cli.Flag{Name: "nope"}, &cli.Arg{Name: "nope"}} {
			lookZero(t, what, c, n)
			ask(n, func() {
				if v := c.Value(n); v != nil {
					t.Failf("%s: Value(%v) is %v", what, n, v)
				}
				t.Eq(what+" raw", q(c.Raw(n))+q(c.RawOccurrences(n)), q(nil)+q(nil))
			})
		}
		type opt struct {
			names []any
			ptr   any
			there bool
			seen  bool
		}
		opts := []opt{
			{[]any{"long", "--long", "l", "-l", 'l', flag}, flag, true, slices.Contains(line, "--long")},
			{[]any{"sf", "--sf", sflag}, sflag, inSub, slices.Contains(line, "--sf")},
			{[]any{"first", "<first>", arg}, arg, inSub, slices.Contains(line, "v")},
		}
		for _, o := range opts {
			for _, n := range o.names {
				ask(n, func() {
					c.Value(n)
					raw, occ := c.Raw(n), c.RawOccurrences(n)
					if c.IsInitializing() && len(raw)+len(occ) > 0 {
						t.Failf("%s: raw text of %v is %v, %v", what, n, raw, occ)
					}
					seen := o.seen && !c.IsInitializing()
					if _, ptr := n.(string); o.there || !ptr {
						if c.IsAction() || c.IsInitializing() {
							t.Eq(fmt.Sprintf("%s seen %v", what, n), c.Seen(n), seen && o.there)
						} else {
							c.Seen(n)
						}
					} else {
						t.Eq(fmt.Sprintf("%s seen %v", what, n), c.Seen(n), false)
						t.Eq(fmt.Sprintf("%s occurrences %v", what, n), c.Occurrences(n), -1)
					}
					var got any
					var ok bool
					switch o.ptr.(type) {
					case *cli.Flag:
						got, ok = c.LookupFlag(n)
					case *cli.Arg:
						got, ok = c.LookupArg(n)
					}
					_, text := n.(string)
					if want := o.there || !text && n != 'l'; ok != want || ok && got != o.ptr {
						t.Failf("%s: lookup of %v gives %v, %v", what, n, got, ok)
					}
				})
			}
		}
		for _, n := range []any{"", nil, 0, 1, -1, 5, -5, "op", "oparg", "<-op>", "ex", "sub", "app"} {
			ask(n, func() {
				c.Value(n)
				if _, ok := n.(int); !ok {
					c.Raw(n)
					c.RawOccurrences(n)
				}
				c.Seen(n)
				c.Occurrences(n)
			})
		}
		if c.IsInitializing() {
			t.Eq(what+" current raw", q(c.Raw(""))+q(c.RawOccurrences("")), q(nil)+q(nil))
		}
		ask("context", func() {
			c.Args()
			c.Values()
			c.NValue()
			c.Arg()
			c.Flag()
			c.Command()
			c.LocalArgs()
			c.Flags()
			c.LocalFlags()
			c.PersistentFlags()
			c.Target()
			c.Occurrences("")
			c.ImplicitlySet()
			c.CompletionRequest()
		})
		return nil
	})
	all := func(f ...*any) {
		for _, p := range f {
			*p = look
		}
	}
	switch target {
	case "app":
		all(&app.Uses, &app.Before, &app.Action, &app.After)
	case "flag":
		all(&flag.Uses, &flag.Before, &flag.Action, &flag.After)
	case "sub":
		all(&sub.Uses, &sub.Before, &sub.Action, &sub.After)
	case "sub flag":
		all(&sflag.Uses, &sflag.Before, &sflag.Action, &sflag.After)
	case "arg":
		all(&arg.Uses, &arg.Before, &arg.Action, &arg.After)
	case "operator":
		all(&op.Uses, &op.Before, &op.After)
	case "operator arg":
		all(&oarg.Uses, &oarg.Before, &oarg.After)
	}
	r := runApp(app, line...)
	t.Eq("error", errText(r.Error), "")
	if len(saw) == 0 {
		t.Failf("nothing was observed")
	}
	t.State("%s %v %v", target, line, saw)
}

func init() {
	register(&Prop{
		ID: "C24",
		Bound: "chains of up to 3 commands, each with a flag of two aliases, two arguments and a redefined flag; every distribution of up to 1 (thorough: 2) uses of each flag over the lines of the commands and every number of argument tokens; " +
			"at every Before, action and After of commands, flags and arguments, every form of name (long, alias, letter, rune, decorated, pointer, index, empty, nil, unknown) asked of every lookup; context values set at every subset of levels in 3 ways; typed lookups of 24 types, and all 28 accessors for missing names; every lookup in the contexts of 7 kinds of targets (with expression operators and their args) at all timings, including the initial one",
		Run: func(x *X) {
			max := 1
			if x.Thorough {
				max = 2
			}
			for depth := 1; depth <= 3; depth++ {
				var pairs [][2]int
				for i := 0; i < depth; i++ {
					for j := i; j < depth; j++ {
						pairs = append(pairs, [2]int{i, j})
					}
				}
				var counts []int
				for n := 0; n <= max; n++ {
					counts = append(counts, n)
				}
				if depth < 3 {
					counts = []int{0, 1, 2}
				}
				words(counts, len(pairs), len(pairs), func(ns []int) {
					uses := map[[2]int]int{}
					for i, p := range pairs {
						uses[p] = ns[i]
					}
					for args := 0; args <= 2; args++ {
						for _, shadow := range []bool{false, true} {
							if shadow && depth == 1 {
								continue
							}
							lc := lookCase{depth, uses, args, shadow}
							x.Case(func() string { return "names|" + lc.String() }, lc.run)
						}
					}
				})
				levels := []int{0, 1, 2}[:depth]
				subsets(levels, func(s []int) {
					s = clone(s)
					for how := 0; how < 3; how++ {
						x.Case(func() string { return fmt.Sprintf("context|depth %d set at %v by %d", depth, s, how) }, func(t *T) { ctxValueRun(t, depth, s, how) })
					}
				})
			}
			for _, target := range []string{"app", "flag", "sub", "sub flag", "arg", "operator", "operator arg"} {
				for _, line := range [][]string{{}, {"--long"}, {"sub"}, {"sub", "--sf", "s"}, {"--long", "sub", "v"}, {"sub", "--sf", "s", "v", "-op", "o"}, {"--long", "sub", "v", "-op", "o", "-op", "p"}} {
					x.Case(func() string { return fmt.Sprintf("targets|%s %q", target, line) }, func(t *T) { lookTargets(t, target, line) })
				}
			}
			for typ := 0; typ < 24; typ++ {
				for m := 0; m < 4; m++ {
					x.Case(func() string { return fmt.Sprintf("typed|%d %d", typ, m) }, func(t *T) { lookupMapRun(t, typ, m&1 == 1, m&2 == 2) })
				}
			}
		},
	})
}
