package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Reference grammar of the command line.

const (
	kNone = 'n' // takes no value
	kReq  = 'r' // takes exactly one value, whatever it looks like
	kOpt  = 'o' // value optional
	kList = 'l' // takes tokens up to the next flag
	kPair = 'v' // name and value: "k=v" or two tokens
	kCust = 'c' // what its own counter says
)

type mFlag struct {
	name    string
	aliases []string
	kind    rune
	cnt     *mCount
}

// mCount is a counter that the user provides.  The tokens "end" and "bad" end
// it and are errors to it.
type mCount struct {
	min, max int
	flags    rune // what becomes of flags: 'e' ends, 'x' is an error, 'a' takes them
}

var (
	errCountBad = errors.New("bad value for the counter")
	errCountFew = errors.New("too few for the counter")
)

// take says what becomes of one more token after n: nil, end or an error.
func (m *mCount) take(n int, tok string, mayBeFlag bool) error {
	switch {
	case n >= m.max || tok == "end":
		return cli.EndOfArguments
	case tok == "bad":
		return errCountBad
	case mayBeFlag && looksLikeFlag(tok) && m.flags == 'e':
		return cli.EndOfArguments
	case mayBeFlag && looksLikeFlag(tok) && m.flags == 'x':
		return errCountBad
	}
	return nil
}

func (m *mCount) done(n int) *mErr {
	if n < m.min {
		return &mErr{cause: errCountFew}
	}
	return nil
}

// userCounter is the counter as the user writes it.
type userCounter struct {
	*mCount
	n int
}

func (u *userCounter) Take(arg string, possibleFlag bool) error {
	err := u.take(u.n, arg, possibleFlag)
	if err == nil {
		u.n++
	}
	return err
}

func (u *userCounter) Done() error {
	if u.done(u.n) != nil {
		return errCountFew
	}
	return nil
}

// userValue is a value which provides its counter.
type userValue struct {
	vals []string
	cnt  *mCount
}

func (u *userValue) Set(s string) error         { u.vals = append(u.vals, s); return nil }
func (u *userValue) String() string             { return strings.Join(u.vals, " ") }
func (u *userValue) NewCounter() cli.ArgCounter { return &userCounter{mCount: u.cnt} }

const (
	nTakeOne    = 0
	nRemaining  = -1
	nUntilFlag  = -2
	nInterspers = -3
	nMatch      = -9 // at most one value, which starts with x
	nCustom     = -8 // as its counter, given as NArg, says
	nCustomVal  = -7 // as the counter of its value says
)

type mArg struct {
	name string
	narg int // >=1 exact count, or one of the above
	cnt  *mCount
}

type mErr struct {
	code  cli.ErrorCode
	names []string // acceptable names in the error, nil if not compared
	rest  []string // Remaining, if compared
	cause error    // the error of the user's counter, which is all that is compared
}

type mBind map[string][][]string

func (m mBind) add(name string, occ ...string) { m[name] = append(m[name], occ) }

type mMode struct{ rtl, disallow bool }

func optName(s string) string {
	if len(s) == 1 {
		return "-" + s
	}
	return "--" + s
}

func looksLikeFlag(s string) bool { return strings.HasPrefix(s, "-") && s != "-" }

type grammar struct {
	flags []mFlag
	args  []mArg
	mode  mMode
}

func (g *grammar) resolve(s string) (mFlag, bool) {
	for _, f := range g.flags {
		if f.name == s {
			return f, true
		}
	}
	if s == "" {
		return mFlag{}, false
	}
	// later definitions win among aliases
	for i := len(g.flags) - 1; i >= 0; i-- {
		for _, a := range g.flags[i].aliases {
			if a == s {
				return g.flags[i], true
			}
		}
	}
	return mFlag{}, false
}

// positional state
type posState struct {
	args  []mArg
	i     int
	taken int
	err   *mErr
}

type offer int

const (
	accepted offer = iota
	refused        // cannot be a value because it looks like a flag
	overflow       // no argument left to take it
	failed         // error of the user's counter
)

func (p *posState) step(tok string, mayBeFlag bool) offer {
	for {
		if p.i >= len(p.args) {
			return overflow
		}
		fl := mayBeFlag && looksLikeFlag(tok)
		switch n := p.args[p.i].narg; {
		case p.args[p.i].cnt != nil:
			err := p.args[p.i].cnt.take(p.taken, tok, mayBeFlag)
			if err == nil {
				p.taken++
				return accepted
			}
			if err != cli.EndOfArguments {
				p.err = &mErr{cause: err}
				return failed
			}
			if p.err = p.unmet(); p.err != nil {
				return failed
			}
		case n >= 1:
			if p.taken < n {
				if fl {
					return refused
				}
				p.taken++
				return accepted
			}
		case n == nTakeOne:
			if p.taken < 1 {
				if fl {
					return refused
				}
				p.taken++
				return accepted
			}
		case n == nMatch:
			if p.taken < 1 {
				if strings.HasPrefix(tok, "x") {
					p.taken++
					return accepted
				}
				if fl {
					return refused
				}
			}
		case n == nUntilFlag:
			if !fl {
				p.taken++
				return accepted
			}
		case n == nInterspers:
			if fl {
				return refused
			}
			p.taken++
			return accepted
		default:
			p.taken++
			return accepted
		}
		p.advance()
	}
}

func (p *posState) advance() { p.i++; p.taken = 0 }

func (p *posState) unmet() *mErr {
	if p.i < len(p.args) && p.args[p.i].cnt != nil {
		return p.args[p.i].cnt.done(p.taken)
	}
	if p.i < len(p.args) && p.args[p.i].narg >= 1 && p.taken < p.args[p.i].narg {
		return &mErr{code: cli.ExpectedArgument, names: []string{"", "<" + p.args[p.i].name + ">"}}
	}
	return nil
}

func (p *posState) finish() *mErr {
	for {
		if e := p.unmet(); e != nil {
			return e
		}
		if p.i >= len(p.args)-1 {
			return nil
		}
		p.advance()
	}
}

// takeValues takes the separate-token values of a flag.
func takeValues(f mFlag, rest []string) (vals []string, err *mErr) {
	switch f.kind {
	case kReq:
		if len(rest) == 0 {
			return nil, &mErr{code: cli.ExpectedArgument}
		}
		return rest[:1], nil
	case kOpt:
		if len(rest) > 0 && !looksLikeFlag(rest[0]) {
			return rest[:1], nil
		}
	case kList:
		n := 0
		for n < len(rest) && !looksLikeFlag(rest[n]) {
			n++
		}
		return rest[:n], nil
	case kCust:
		n := 0
		for n < len(rest) {
			if err := f.cnt.take(n, rest[n], true); err != nil {
				if err == cli.EndOfArguments || strings.HasPrefix(rest[n], "-") {
					break
				}
				return nil, &mErr{cause: err}
			}
			n++
		}
		return rest[:n], f.cnt.done(n)
	case kPair:
		switch {
		case len(rest) == 0:
			return nil, &mErr{code: cli.InvalidArgument}
		case strings.Contains(rest[0], "=") || len(rest) == 1:
			return rest[:1], nil
		default:
			return rest[:2], nil
		}
	}
	return nil, nil
}

func occ(label string, vals []string) []string {
	if len(vals) == 0 {
		return []string{label, ""}
	}
	return append([]string{label}, vals...)
}

func (g *grammar) positionalCount(toks []string) int {
	h := &grammar{flags: g.flags, mode: mMode{disallow: g.mode.disallow}}
	for range toks {
		h.args = append(h.args, mArg{name: "\x00", narg: nInterspers})
	}
	b, err := h.parse(toks)
	if err != nil {
		return len(toks)
	}
	return len(b["\x00"])
}

func (g *grammar) parse(toks []string) (mBind, *mErr) {
	b := mBind{}
	p := &posState{args: g.args}
	if g.mode.rtl {
		avail := g.positionalCount(toks)
		start := len(g.args)
		for start > 0 && avail > 0 {
			start--
			if n := g.args[start].narg; n >= 1 {
				avail -= n
			} else {
				avail--
			}
		}
		if len(toks) == 0 {
			start = 0
		}
		for p.i < start {
			if e := p.unmet(); e != nil {
				return b, e
			}
			p.advance()
		}
	}
	onlyArgs, afterArg := false, false
	inArgs := false // the previous token was an argument
	for len(toks) > 0 {
		tok := toks[0]
		rest := toks[1:]

		if inArgs || onlyArgs || !looksLikeFlag(tok) {
			if inArgs {
				afterArg = true
			}
			remaining := p.i < len(p.args) && p.args[p.i].narg == nRemaining
			if tok == "--" && !remaining {
				if e := p.unmet(); e != nil {
					return b, e
				}
				p.advance()
				onlyArgs, inArgs = true, false
				toks = rest
				continue
			}
			switch o := p.step(tok, !onlyArgs); o {
			case accepted:
				n := p.args[p.i].name
				b.add(n, "<"+n+">", tok)
				inArgs = true
				toks = rest
				continue
			default:
				if onlyArgs || !looksLikeFlag(tok) {
					if o == failed {
						return b, p.err
					}
					return b, &mErr{code: cli.UnexpectedArgument, rest: clone(toks)}
				}
				inArgs = false
			}
		}

		if tok == "--" {
			onlyArgs = true
			toks = rest
			continue
		}
		if strings.HasPrefix(tok, "--") {
			name, val, hasVal := strings.Cut(tok[2:], "=")
			f, ok := g.resolve(name)
			if !ok {
				left := optName(name)
				if hasVal {
					left += "=" + val
				}
				return b, &mErr{code: cli.UnknownOption, names: []string{optName(name)}, rest: append([]string{left}, rest...)}
			}
			if g.mode.disallow && afterArg {
				return b, &mErr{code: cli.FlagUsedAfterArgs, names: []string{optName(name)}}
			}
			if hasVal {
				b.add(f.name, "--"+name, val)
				toks = rest
				continue
			}
			vals, err := takeValues(f, rest)
			if err != nil {
				err.names = []string{optName(name)}
				return b, err
			}
			b.add(f.name, occ(optName(name), vals)...)
			toks = rest[len(vals):]
			continue
		}

		if g.mode.disallow && afterArg {
			return b, &mErr{code: cli.FlagUsedAfterArgs, names: []string{"-" + string([]rune(tok)[1])}}
		}
		group := []rune(tok[1:])
		for i, c := range group {
			label := "-" + string(c)
			f, ok := g.resolve(string(c))
			if !ok {
				return b, &mErr{code: cli.UnknownOption, names: []string{label, string(c)},
					rest: append([]string{"-" + string(group[i:])}, rest...)}
			}
			if attached := string(group[i+1:]); attached != "" {
				if f.kind == kCust {
					err := f.cnt.take(0, attached, false)
					if err == nil {
						if e := f.cnt.done(1); e != nil {
							return b, e
						}
						b.add(f.name, label, attached)
						break
					}
					if err != cli.EndOfArguments {
						return b, &mErr{cause: err}
					}
				} else if f.kind != kNone {
					b.add(f.name, label, attached)
					break
				}
				if attached[0] == '=' {
					return b, &mErr{code: cli.InvalidArgument, names: []string{label}}
				}
				b.add(f.name, label, "")
				continue
			}
			if f.kind == kOpt {
				b.add(f.name, label, "")
				continue
			}
			vals, err := takeValues(f, rest)
			if err != nil {
				err.names = []string{label, optName(f.name)}
				return b, err
			}
			b.add(f.name, occ(label, vals)...)
			rest = rest[len(vals):]
		}
		toks = rest
	}
	return b, p.finish()
}

// binding of the implementation for the same grammar

func (g *grammar) build() (flags []*cli.Flag, args []*cli.Arg) {
	for _, f := range g.flags {
		x := &cli.Flag{Name: f.name, Aliases: f.aliases}
		switch f.kind {
		case kNone:
			x.Value = cli.Bool()
		case kReq:
			x.Value = cli.String()
		case kOpt:
			x.Value, x.Uses = cli.String(), cli.OptionalValue("dflt")
		case kList:
			x.Value = cli.List()
		case kPair:
			x.Value = new(cli.NameValue)
		case kCust:
			x.Value = &userValue{cnt: f.cnt}
		}
		flags = append(flags, x)
	}
	for _, a := range g.args {
		x := &cli.Arg{Name: a.name, NArg: a.narg, Value: cli.List()}
		if a.narg == nMatch {
			x.NArg = cli.OptionalArg(func(s string) bool { return strings.HasPrefix(s, "x") })
		}
		switch a.narg {
		case nCustom:
			x.NArg = &userCounter{mCount: a.cnt}
		case nCustomVal:
			x.NArg, x.Value = nil, &userValue{cnt: a.cnt}
		}
		args = append(args, x)
	}
	return
}

// stateful is whether a binding serves one parse only
func (g *grammar) stateful() bool {
	for _, a := range g.args {
		if a.narg == nMatch || a.cnt != nil {
			return true
		}
	}
	return false
}

func (g *grammar) options() (o cli.Option) {
	if g.mode.rtl {
		o |= cli.RightToLeft
	}
	if g.mode.disallow {
		o |= cli.DisallowFlagsAfterArgs
	}
	return
}

func (g *grammar) raw() (f cli.RawParseFlag) {
	f = cli.RawSkipProgramName
	if g.mode.rtl {
		f |= cli.RawRTL
	}
	if g.mode.disallow {
		f |= cli.RawDisallowFlagsAfterArgs
	}
	return
}

func (g *grammar) binding() cli.Binding {
	flags, args := g.build()
	app := &cli.App{Name: "app", Flags: clone(flags), Args: clone(args), Stdout: io.Discard, Stderr: io.Discard}
	if _, err := app.Initialize(context.Background()); err != nil {
		panic(err)
	}
	return cli.NewBinding(flags, args, nil)
}

func (m *mCount) String() string { return fmt.Sprintf("%d..%d%c", m.min, m.max, m.flags) }

func (g *grammar) String() string {
	var sb strings.Builder
	for _, f := range g.flags {
		fmt.Fprintf(&sb, "%s%v%c,", f.name, f.aliases, f.kind)
		if f.cnt != nil {
			fmt.Fprintf(&sb, "%v,", f.cnt)
		}
	}
	for _, a := range g.args {
		fmt.Fprintf(&sb, "<%s>%d,", a.name, a.narg)
		if a.cnt != nil {
			fmt.Fprintf(&sb, "%v,", a.cnt)
		}
	}
	if g.mode.rtl {
		sb.WriteString("rtl")
	}
	if g.mode.disallow {
		sb.WriteString("disallow")
	}
	return sb.String()
}

func checkErr(t *T, what string, err error, want *mErr) bool {
	if want == nil {
		if err != nil {
			t.Failf("%s: implementation fails with %v, model accepts", what, err)
		}
		return err == nil
	}
	if err == nil {
		t.Failf("%s: implementation accepts, model fails with %v %q", what, want.code, want.names)
		return false
	}
	if want.cause != nil {
		if !errors.Is(err, want.cause) {
			t.Failf("%s: implementation fails with %v, model with %v", what, err, want.cause)
		}
		return false
	}
	pe, ok := err.(*cli.ParseError)
	if !ok {
		t.Failf("%s: implementation fails with %T %v, model with %v", what, err, err, want.code)
		return false
	}
	if pe.Code != want.code {
		t.Failf("%s: implementation error %v (%v), model %v", what, pe.Code, err, want.code)
	}
	if want.names != nil {
		found := false
		for _, n := range want.names {
			found = found || n == pe.Name
		}
		if !found {
			t.Failf("%s: error is about %q, model %q", what, pe.Name, want.names)
		}
	}
	if want.rest != nil && fmt.Sprint(want.rest) != fmt.Sprint(pe.Remaining) {
		t.Failf("%s: error leaves %q, model %q", what, pe.Remaining, want.rest)
	}
	return false
}

func compareBind(t *T, got func(string) [][]string, names []string, want mBind) {
	for _, n := range names {
		if g, w := fmt.Sprintf("%q", got(n)), fmt.Sprintf("%q", want[n]); g != w {
			t.Failf("occurrences of %s: implementation %s, model %s", n, g, w)
		}
	}
}

func (g *grammar) names() (res []string) {
	for _, f := range g.flags {
		res = append(res, f.name)
	}
	for _, a := range g.args {
		res = append(res, a.name)
	}
	return
}

// rawCase compares the low-level parser with the model on one token list.
func (g *grammar) rawCase(t *T, b cli.Binding, toks []string) {
	if b == nil || g.stateful() {
		b = g.binding()
	}
	want, werr := g.parse(clone(toks))
	in := append([]string{"app"}, toks...)
	keep := clone(in)
	got, err := cli.RawParse(in, b, g.raw())
	if fmt.Sprint(in) != fmt.Sprint(keep) {
		t.Failf("the parser changed its input %q to %q", keep, in)
	}
	if checkErr(t, "parse", err, werr) {
		compareBind(t, got.Bindings, g.names(), want)
		for n := range got {
			if n != "" && want[n] == nil {
				t.Failf("occurrences of %s, which the model does not bind: %q", n, got[n])
			}
		}
	}
	t.State(fmt.Sprint(want), werr)
	t.Step(len(toks))
}

// appCase compares a whole run of an app with the model.
func (g *grammar) appCase(t *T, toks []string) {
	want, werr := g.parse(clone(toks))
	flags, args := g.build()
	ran := 0
	app := &cli.App{Name: "app", Flags: flags, Args: args, Options: g.options(),
		Action: func(c *cli.Context) {
			ran++
			compareBind(t, c.BindingLookup().Bindings, g.names(), want)
			for _, n := range g.names() {
				var raw, vals []string
				for _, o := range want[n] {
					raw = append(raw, o...)
					vals = append(vals, o[1:]...)
				}
				if x, y := q(c.Raw(n)), q(raw); x != y {
					t.Failf("Raw(%s): implementation %s, model %s", n, x, y)
				}
				if x, y := q(c.RawOccurrences(n)), q(vals); x != y {
					t.Failf("RawOccurrences(%s): implementation %s, model %s", n, x, y)
				}
				if x, y := c.Seen(n), len(want[n]) > 0; x != y {
					t.Failf("Seen(%s): implementation %v, model %v", n, x, y)
				}
				if x, y := c.Occurrences(n), len(want[n]); x != y {
					t.Failf("Occurrences(%s): implementation %v, model %v", n, x, y)
				}
			}
		}}
	r := runApp(app, toks...)
	checkErr(t, "run", r.Error, werr)
	if wantRan := werr == nil; (ran == 1) != wantRan || ran > 1 {
		t.Failf("the action ran %d times, model error %v", ran, werr)
	}
	t.State("app", fmt.Sprint(want), werr)
	t.Step(len(toks))
}
