package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"
	"syscall"
	"unsafe"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Color: control codes are written when and only when color is in use, they
// are those of the style that is named, and they do not affect the text.

var sgrStyles = map[string]int{"Bold": 1, "Faint": 2, "Italic": 3, "Underline": 4, "Blink": 5, "Reverse": 7, "Conceal": 8, "Strikethrough": 9}
var sgrColors = map[string]int{"Default": 39, "Black": 30, "Red": 31, "Green": 32, "Yellow": 33, "Blue": 34, "Magenta": 35, "Cyan": 36, "Gray": 37,
	"DarkGray": 90, "BrightRed": 91, "BrightGreen": 92, "BrightYellow": 93, "BrightBlue": 94, "BrightMagenta": 95, "BrightCyan": 96, "White": 97}
var sgrEmoji = map[string]string{"Tada": "🎉", "Fire": "🔥", "Sparkles": "✨", "Exclamation": "❗", "Bulb": "💡", "X": "❌", "HeavyCheckMark": "✔️", "Warning": "⚠️", "Play": "▶"}

func sgr(n int) string { return fmt.Sprintf("\x1b[%dm", n) }

// colTerm is a term of a template with its text and the text with codes
type colTerm struct {
	expr        string
	plain, text string
	fails       bool
}

func (t colTerm) want(enabled bool) string {
	if enabled {
		return t.text
	}
	return t.plain
}

// colFuncs are the functions that apply to text
func colFuncs() (res []string) {
	for _, n := range sortedKeys(sgrStyles) {
		res = append(res, n, fmt.Sprintf("Style %q", n))
	}
	for _, n := range sortedKeys(sgrColors) {
		if n != "Default" {
			res = append(res, n)
		}
		res = append(res, fmt.Sprintf("Color %q", n), fmt.Sprintf("Background %q", n))
	}
	return append(res, `Style "Bold Underline"`, `Style " Italic  Reverse Faint"`, `Style ""`)
}

// colCodes are what a function writes before and after text
func colCodes(f string) (on, off string) {
	name, arg, ok := strings.Cut(f, " ")
	if !ok {
		if n, ok := sgrStyles[name]; ok {
			return sgr(n), sgr(0)
		}
		return sgr(sgrColors[name]), sgr(39)
	}
	arg = strings.Trim(arg, `"`)
	switch name {
	case "Color":
		return sgr(sgrColors[arg]), sgr(39)
	case "Background":
		return sgr(sgrColors[arg] + 10), sgr(49)
	}
	for _, s := range strings.Fields(arg) {
		on += sgr(sgrStyles[s])
	}
	if on == "" {
		return "", ""
	}
	return on, sgr(0)
}

func (t colTerm) apply(f string) colTerm {
	on, off := colCodes(f)
	res := colTerm{expr: fmt.Sprintf("(%s | %s)", t.expr, f), plain: t.plain}
	if t.text != "" {
		res.text = on + t.text + off
	}
	return res
}

func colTemplates(t *T, terms []colTerm, colors bool) {
	var tpl, want strings.Builder
	for _, m := range terms {
		fmt.Fprintf(&tpl, "{{ %s }}", m.expr)
		want.WriteString(m.want(colors))
	}
	app := &cli.App{
		Uses:   cli.Pipeline(color.Options{}, cli.RegisterTemplate("T", tpl.String())),
		Action: cli.Pipeline(cli.SetColor(colors), cli.ExecuteTemplate("T", func(*cli.Context) any { return map[string]any{"L": []string{"a", "b"}} })),
	}
	r := runApp(app)
	fails := slices.ContainsFunc(terms, func(m colTerm) bool { return m.fails })
	t.Eq("fails", r.Error != nil, fails)
	if !fails {
		t.Eq(tpl.String(), r.Out, want.String())
	}
	t.State(r.Out)
}

// terminal

type pty struct{ master, slave *os.File }

func openPty() (p pty, err error) {
	p.master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var unlock, n int32
	for _, c := range []struct {
		req uintptr
		v   *int32
	}{{syscall.TIOCSPTLCK, &unlock}, {syscall.TIOCGPTN, &n}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, p.master.Fd(), c.req, uintptr(unsafe.Pointer(c.v))); e != 0 {
			p.master.Close()
			return p, e
		}
	}
	p.slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		p.master.Close()
	}
	return
}

// colOut is where output goes
type colOut struct {
	kind string // buffer, file, terminal, preset
	env  string // "", NO_COLOR=, TERM=dumb
	std  bool   // it is also the standard output
}

func (o colOut) detect() bool { return o.kind == "terminal" && o.env == "" }

func (o colOut) initial() bool { return o.detect() || o.kind == "preset" }

var errNoTerminal = fmt.Errorf("no terminals here")

// run runs the app with its output there and returns what was written
func (o colOut) run(app *cli.App, args ...string) (res string, err error) {
	if k, v, ok := strings.Cut(o.env, "="); ok {
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	app.Name = "app"
	app.Stdin = strings.NewReader("")
	run := func() error { return app.RunContext(context.Background(), append([]string{"app"}, args...)) }
	std := func(f *os.File) func() {
		prev := os.Stdout
		if o.std {
			os.Stdout = f
		}
		return func() { os.Stdout = prev }
	}
	switch o.kind {
	case "buffer", "preset":
		var b bytes.Buffer
		app.Stdout, app.Stderr = &b, &b
		if o.kind == "preset" {
			w := cli.NewWriter(&b)
			w.SetColorCapable(true)
			app.Stdout, app.Stderr = w, w
		}
		err = run()
		return b.String(), err
	case "file":
		f, e := os.CreateTemp("", "color")
		if e != nil {
			return "", e
		}
		defer os.Remove(f.Name())
		defer f.Close()
		defer std(f)()
		app.Stdout, app.Stderr = f, f
		err = run()
		b, _ := os.ReadFile(f.Name())
		return string(b), err
	}
	p, e := openPty()
	if e != nil {
		return "", errNoTerminal
	}
	defer p.master.Close()
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(p.master)
		done <- string(b)
	}()
	restore := std(p.slave)
	app.Stdout, app.Stderr = p.slave, p.slave
	err = run()
	restore()
	p.slave.Close()
	return strings.ReplaceAll(<-done, "\r\n", "\n"), err
}

var colModes = map[string]string{"auto": "auto", "AUTO": "auto", "always": "on", "true": "on", "on": "on", "": "on", "never": "off", "Never": "off", "false": "off", "off": "off"}

// colAfter is whether color is in use after the flags
func colAfter(f color.Feature, toks []string, o colOut) (enabled, ok bool) {
	if f == 0 {
		f = color.AllFeatures
	}
	mode, both, flag, no := f&color.ModeFeature != 0, f&color.FlagFeature != 0 && f&color.NoFlagFeature != 0, f&color.FlagFeature != 0, f&color.NoFlagFeature != 0
	var col string
	var nope bool
	for _, t := range toks {
		name, v, hasv := strings.Cut(t, "=")
		switch {
		case name == "--color" && mode:
			if !hasv {
				v = "always"
			}
			m, ok := colModes[v]
			if !ok {
				return false, false
			}
			col = m
		case name == "--color" && (flag || both):
			switch v {
			case "true", "on", "":
				col = "on"
			case "false", "off":
				col = "off"
			default:
				return false, false
			}
		case name == "--no-color" && both && !mode && !hasv:
			col = "off"
		case name == "--no-color" && no && !hasv:
			nope = true
		default:
			return false, false
		}
	}
	enabled = o.initial()
	switch col {
	case "on":
		enabled = true
	case "off":
		enabled = false
	case "auto":
		enabled = o.detect()
	}
	return enabled && !nope, true
}

const colText = "plain \x01bold \x02red\x03 \n"

func colExpect(enabled bool) string {
	m := []string{"", "", ""}
	e := ""
	if enabled {
		m = []string{sgr(1), sgr(0) + sgr(31), sgr(39)}
		e = "🔥"
	}
	return strings.NewReplacer("\x01", m[0], "\x02", m[1], "\x03", m[2]).Replace(colText) + e
}

func colMode(t *T, f color.Feature, toks []string, o colOut, where string) {
	act := func(c *cli.Context) error {
		w := c.Stdout
		w.WriteString("plain ")
		w.Bold("bold ")
		b := c.NewBuffer()
		b.SetForeground(cli.Red)
		b.WriteString("red")
		b.SetForeground(cli.Default)
		w.WriteString(b.String() + " \n")
		if f == 0 || f&color.TemplateFuncs != 0 {
			return c.Do(cli.ExecuteTemplate("T", nil))
		}
		return nil
	}
	app := &cli.App{Uses: cli.Pipeline(color.Options{Features: f}), Action: act}
	if f == 0 || f&color.TemplateFuncs != 0 {
		app.Uses = cli.Pipeline(app.Uses, cli.RegisterTemplate("T", `{{ Emoji "Fire" }}`))
	}
	args := clone(toks)
	if where == "sub" {
		app.Action = nil
		app.Commands = []*cli.Command{{Name: "sub", Action: act}}
		args = append(args, "sub")
	}
	if where == "early" { // something has used the functions before
		app.Before = cli.Pipeline(func(c *cli.Context) {
			_ = c.NewBuffer()
		}, cli.RegisterTemplate("Early", `{{ if Emoji "Fire" }}{{ end }}{{ if Bold "x" }}{{ end }}`), cli.ExecuteTemplate("Early", nil))
	}
	out, err := o.run(app, args...)
	if err == errNoTerminal {
		return
	}
	enabled, ok := colAfter(f, toks, o)
	if !ok {
		t.Eq("fails", err != nil, true)
		return
	}
	want := colExpect(enabled)
	if f != 0 && f&color.TemplateFuncs == 0 {
		want = strings.TrimSuffix(want, "🔥")
	}
	t.Eq("error", err, nil)
	t.Eq("output", out, want)
	t.State(out)
}

// colSet sets color from actions
func colSet(t *T, acts []string, o colOut) {
	enabled := o.initial()
	mk := func(s string) cli.Action {
		switch s {
		case "on":
			return cli.SetColor(true)
		case "off":
			return cli.SetColor(false)
		case "auto":
			return cli.AutodetectColor()
		case "Always":
			return color.SetMode(color.Always)
		case "Never":
			return color.SetMode(color.Never)
		case "Auto":
			return color.SetMode(color.Auto)
		}
		return nil
	}
	for _, a := range acts {
		switch strings.ToLower(a) {
		case "on", "always":
			enabled = true
		case "off", "never":
			enabled = false
		case "auto":
			enabled = o.detect()
		}
	}
	var got []bool
	app := &cli.App{
		Uses:   mk(acts[0]),
		Before: mk(acts[1]),
		Commands: []*cli.Command{{Name: "sub", Before: mk(acts[2]), Action: cli.Pipeline(mk(acts[3]), func(c *cli.Context) {
			got = append(got, c.Stdout.ColorCapable(), c.Stderr.ColorCapable(), c.NewBuffer().ColorCapable())
			c.Stdout.Underline("x")
		})}},
	}
	out, err := o.run(app, "sub")
	if err == errNoTerminal {
		return
	}
	want := "x"
	if enabled {
		want = sgr(4) + "x" + sgr(0)
	}
	t.Eq("error", err, nil)
	t.Eq("output", out, want)
	t.Eq("capable", got, []bool{enabled, enabled, enabled})
	t.State(out)
}

// colWriter is operations on writers and on writers of writers
func colWriter(t *T, ops []string) {
	var buf bytes.Buffer
	ws := []cli.Writer{cli.NewWriter(&buf)}
	caps := []bool{false}
	var want strings.Builder
	code := func(n int) {
		if caps[len(caps)-1] {
			want.WriteString(sgr(n))
		}
	}
	for _, op := range ops {
		w := ws[len(ws)-1]
		switch op {
		case "on", "off":
			w.SetColorCapable(op == "on")
			caps[len(caps)-1] = op == "on"
		case "reset":
			w.ResetColorCapable()
			caps[len(caps)-1] = len(caps) > 1 && caps[len(caps)-2]
		case "wrap":
			ws = append(ws, cli.NewWriter(w))
			caps = append(caps, caps[len(caps)-1])
		case "write":
			w.Write([]byte("a"))
			w.WriteString("b")
			want.WriteString("ab")
		case "bold":
			w.Bold("c", 1)
			code(1)
			want.WriteString("c1")
			code(0)
		case "underline":
			w.Underline("d ")
			code(4)
			want.WriteString("d ")
			code(0)
		case "styled":
			w.Styled(cli.Faint, "e")
			code(2)
			want.WriteString("e")
			code(0)
		case "empty":
			// still leaves nothing of the style
			for i, f := range []func() (int, error){
				func() (int, error) { return w.Styled(cli.Italic) },
				func() (int, error) { return w.Styled(cli.Blink, "", "") },
				func() (int, error) { return w.Bold("") },
			} {
				n, err := f()
				t.Eq("written", []any{n, err}, []any{0, nil})
				code([]int{3, 5, 1}[i])
				code(0)
			}
		case "codes":
			w.SetForeground(cli.Cyan)
			w.SetBackground(cli.White)
			w.SetStyle(cli.Conceal)
			w.ClearStyle(cli.Italic)
			w.Reset()
			for _, n := range []int{36, 107, 8, 23, 0} {
				code(n)
			}
		}
		if !t.Eq("capable", ws[len(ws)-1].ColorCapable(), caps[len(caps)-1]) {
			return
		}
	}
	t.Eq("text", buf.String(), want.String())
	t.State(buf.String())
}

// colScreen is the help screen, which has the same text whether or not color
// is used, and codes as the flags say
func colScreen(t *T, args []string, o colOut, cfg int) {
	build := func() *cli.App {
		app := &cli.App{
			Uses:     color.Options{},
			HelpText: "an app",
			Flags:    []*cli.Flag{{Name: "verbose", Aliases: []string{"v"}, HelpText: "a {THING} to say"}, {Name: "b", Value: new(bool), Category: "Cat"}},
		}
		if cfg&1 != 0 {
			app.Commands = []*cli.Command{{Name: "sub", Aliases: []string{"s"}, HelpText: "sub {COMMAND}", Flags: []*cli.Flag{{Name: "x", HelpText: "the {X}"}}}}
		}
		if cfg&2 != 0 {
			app.Args = []*cli.Arg{{Name: "e", Value: &expr.Expression{Exprs: []*expr.Expr{{Name: "op", HelpText: "operator with {OPERAND}", Args: cli.Args("a", new(int))}}}, Uses: cli.ActionOf(func(c *cli.Context) error { return nil })}}
		}
		if cfg&4 != 0 {
			app.Description = "a description"
		}
		return app
	}
	out, err := o.run(build(), args...)
	if err == errNoTerminal {
		return
	}
	plain, _ := colOut{kind: "buffer"}.run(build(), slices.DeleteFunc(clone(args), func(s string) bool { return strings.Contains(s, "color") })...)
	full, _ := colOut{kind: "preset"}.run(build(), slices.DeleteFunc(clone(args), func(s string) bool { return strings.Contains(s, "color") })...)
	enabled, _ := colAfter(0, slices.DeleteFunc(clone(args), func(s string) bool { return !strings.Contains(s, "color") }), o)
	if enabled {
		t.Eq("screen with color", out, full)
	} else {
		t.Eq("screen without color", out, plain)
	}
	t.Eq("text of the screen", wrapEscapes.ReplaceAllString(full, ""), plain)
	if strings.Contains(plain, "\x1b") {
		t.Failf("the plain screen has codes: %q", plain)
	}
	for _, s := range []string{sgr(1) + "app", sgr(4) + "THING" + sgr(0) + " to say"} {
		if !strings.Contains(full, s) && len(args) > 0 && !slices.Contains(args, "sub") {
			t.Failf("the screen with color has no %q: %q", s, full)
		}
	}
	if cfg&2 != 0 && !slices.Contains(args, "sub") && !strings.Contains(full, "operator with "+sgr(4)+"OPERAND"+sgr(0)) {
		t.Failf("expressions have no color: %q", full)
	}
	t.State(out)
}

func init() {
	register(&Prop{
		ID:          "C29",
		Bound:       "all functions of color and style, and all compositions of two, over 3 values; sequences of up to 3 (4 when thorough) terms; 17 sets of features x lines of up to 2 (3) out of 10 flags x buffers, files, terminals and writers x 4 environments; all 4-tuples of actions that set color at 4 places; all sequences of up to 5 (6) operations on writers; help screens of 6 apps with 6 sets of flags",
		Assumptions: []string{"which of --color and --no-color takes effect when they contradict each other is fixed only where --no-color is a flag on its own", "where no terminal can be opened, those cases are left out"},
		Run: func(x *X) {
			leaf := []colTerm{{expr: `"x y"`, plain: "x y", text: "x y"}, {expr: `""`}, {expr: `7`, plain: "7", text: "7"}}
			fs := colFuncs()
			var terms []colTerm
			for _, l := range leaf {
				for _, f := range fs {
					m := l.apply(f)
					terms = append(terms, m)
					for _, g := range fs {
						if x.Thorough || l.plain != "7" {
							terms = append(terms, m.apply(g))
						}
					}
				}
			}
			for _, f := range fs {
				on, _ := colCodes(f)
				terms = append(terms, colTerm{expr: f, text: on})
				terms = append(terms, colTerm{expr: fmt.Sprintf(`(%s "a" 1 2 "b")`, f), plain: "a1 2b", text: func() string { on, off := colCodes(f); return on + "a1 2b" + off }()})
			}
			terms = append(terms,
				colTerm{expr: "ResetColor", text: sgr(39)}, colTerm{expr: "Reset", text: sgr(0)},
				colTerm{expr: `(BoldFirst .L | Join "+")`, plain: "a+b", text: sgr(1) + "a" + sgr(0) + "+b"},
				colTerm{expr: `Color "Rot"`, fails: true}, colTerm{expr: `Background "Rot"`, fails: true}, colTerm{expr: `Style "Bold Rot"`, fails: true}, colTerm{expr: `Style "Rot"`, fails: true}, colTerm{expr: `Style "Red"`, fails: true}, colTerm{expr: `Color "Bold"`, fails: true})
			for _, n := range sortedKeys(sgrEmoji) {
				terms = append(terms, colTerm{expr: fmt.Sprintf("Emoji %q", n), text: sgrEmoji[n]})
			}
			for _, m := range terms {
				for _, c := range []bool{false, true} {
					x.Case(func() string { return fmt.Sprintf("template|%s %v", m.expr, c) }, func(t *T) { colTemplates(t, []colTerm{m}, c) })
				}
			}
			seq := []colTerm{leaf[0], leaf[0].apply("Bold"), leaf[0].apply(`Background "Red"`).apply("Underline"), leaf[2].apply("Red"), leaf[1].apply("Blue"), {expr: "Red", text: sgr(31)}, {expr: "Reset", text: sgr(0)}, {expr: `Emoji "X"`, text: sgrEmoji["X"]}, {expr: `Color "Rot"`, fails: true}}
			n := 3
			if x.Thorough {
				n = 4
			}
			words(seq, 2, n, func(w []colTerm) {
				l := clone(w)
				for _, c := range []bool{false, true} {
					x.Case(func() string {
						var s []string
						for _, m := range l {
							s = append(s, m.expr)
						}
						return fmt.Sprintf("templates|%s %v", strings.Join(s, " "), c)
					}, func(t *T) { colTemplates(t, l, c) })
				}
			})

			var outs []colOut
			for _, k := range []string{"buffer", "preset", "file", "terminal"} {
				for _, e := range []string{"", "NO_COLOR=", "NO_COLOR=1", "TERM=dumb"} {
					for _, std := range []bool{false, true} {
						if std && (k == "buffer" || k == "preset") {
							continue
						}
						outs = append(outs, colOut{kind: k, env: e, std: std})
					}
				}
			}
			toks := []string{"--color", "--no-color", "--color=auto", "--color=always", "--color=Never", "--color=true", "--color=false", "--color=bogus", "--color=", "--color=off"}
			var feats []color.Feature
			subsets([]color.Feature{color.FlagFeature, color.NoFlagFeature, color.ModeFeature, color.TemplateFuncs}, func(s []color.Feature) {
				var f color.Feature
				for _, i := range s {
					f |= i
				}
				feats = append(feats, f)
			})
			feats = append(feats, color.AllFeatures)
			depth := 2
			if x.Thorough {
				depth = 3
			}
			for _, f := range feats {
				words(toks, 0, depth, func(w []string) {
					l := clone(w)
					for _, o := range outs {
						if len(l) == depth && o.kind != "preset" && (o.kind != "terminal" || o.env == "TERM=dumb" || o.std) {
							continue
						}
						for _, where := range []string{"app", "sub", "early"} {
							if f&(color.FlagFeature|color.NoFlagFeature|color.ModeFeature) == color.FlagFeature|color.NoFlagFeature && slices.Contains(l, "--no-color") && slices.ContainsFunc(l, func(s string) bool { return strings.HasPrefix(s, "--color") }) {
								continue // which one takes effect
							}
							if where == "sub" && len(l) > 0 && l[len(l)-1] == "--color" && (f&color.ModeFeature != 0 || f == 0) {
								continue // the name of the command is the optional value
							}
							if where == "early" && (f != 0 && f&color.TemplateFuncs == 0 || f == 0 && len(l) == 0) {
								continue
							}
							x.Case(func() string { return fmt.Sprintf("flags|%d %v %+v %s", f, l, o, where) }, func(t *T) { colMode(t, f, l, o, where) })
						}
					}
				})
			}
			words([]string{"", "on", "off", "auto", "Always", "Never", "Auto"}, 4, 4, func(w []string) {
				l := clone(w)
				for _, o := range outs {
					if o.kind == "preset" || o.kind == "terminal" && o.env == "" && !o.std && !slices.Contains(l, "Auto") {
						x.Case(func() string { return fmt.Sprintf("set|%q %+v", l, o) }, func(t *T) { colSet(t, l, o) })
					}
				}
			})
			n = 5
			if x.Thorough {
				n = 6
			}
			words([]string{"on", "off", "reset", "wrap", "write", "bold", "underline", "styled", "empty", "codes"}, 1, n, func(w []string) {
				l := clone(w)
				x.Case(func() string { return "writer|" + strings.Join(l, " ") }, func(t *T) { colWriter(t, l) })
			})
			for _, o := range outs {
				for cfg := range 8 {
					for _, flag := range [][]string{nil, {"--color"}, {"--no-color"}, {"--color=never"}, {"--color=auto"}, {"--color=always", "--no-color"}} {
						for _, tail := range [][]string{{"--help"}, {"help"}, {"help", "sub"}, {"sub", "--help"}} {
							if len(tail) == 2 && cfg&1 == 0 || tail[0] == "help" && cfg&1 == 0 {
								continue
							}
							if cfg&2 != 0 && tail[0] != "--help" {
								continue // whether it is a command or part of the expression
							}
							if slices.Equal(flag, []string{"--color"}) && tail[0] != "--help" {
								continue // the name of the command is the optional value
							}
							args := slices.Concat(flag, tail)
							x.Case(func() string { return fmt.Sprintf("screen|%v %+v %d", args, o, cfg) }, func(t *T) { colScreen(t, args, o, cfg) })
						}
					}
				}
			}
		},
	})
}
