package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
)

// Wrapping text: the words of the text come out in order, with the space
// that was between them or a line break.

// wrapModel is the text wrapped.  A line of the text starts on a line of its
// own with its indentation.  The next word goes on the line if the space
// before it ends before the limit.
func wrapModel(text, indent string, limit int) string {
	if limit == 0 {
		return text + "\n"
	}
	var out strings.Builder
	for i, line := range strings.Split(text, "\n") {
		if i > 0 {
			out.WriteString("\n")
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		rest := strings.TrimLeftFunc(line, unicode.IsSpace)
		lead := line[:len(line)-len(rest)]
		if i > 0 {
			lead = indent + lead
		}
		out.WriteString(lead)
		col := utf8.RuneCountInString(lead)
		space := ""
		for rest != "" {
			n := strings.IndexFunc(rest, unicode.IsSpace)
			if n < 0 {
				n = len(rest)
			}
			word := rest[:n]
			rest = rest[n:]
			if col+len(space) >= limit && space != "" {
				out.WriteString("\n" + indent)
				col, space = len(indent), ""
			}
			out.WriteString(space + word)
			col += len(space) + utf8.RuneCountInString(word)
			n = strings.IndexFunc(rest, func(r rune) bool { return !unicode.IsSpace(r) })
			if n < 0 {
				break
			}
			space = rest[:n]
			rest = rest[n:]
		}
	}
	return out.String() + "\n"
}

var (
	wrapEscapes = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")
	wrapSpaces  = regexp.MustCompile(`\s+`)
)

func wrapCheck(t *T, what, got, text, indent string, limit int) bool {
	ok := t.Eq(what, wrapEscapes.ReplaceAllString(got, ""), wrapModel(wrapEscapes.ReplaceAllString(text, ""), indent, limit))
	return ok && t.Eq(what+", without space", wrapSpaces.ReplaceAllString(got, ""), wrapSpaces.ReplaceAllString(text, ""))
}

var wrapLimits = []int{0, 1, 3, 4, 6, 9, 13}

func wrapCase(t *T, text string) {
	for _, limit := range wrapLimits {
		for _, indent := range []string{"", "  ", "     "} {
			var b bytes.Buffer
			cli.Wrap(&b, text, indent, limit)
			t.Step(1)
			t.State(b.String())
			if !wrapCheck(t, fmt.Sprintf("Wrap(%q, %q, %d)", text, indent, limit), b.String(), text, indent, limit) {
				return
			}
		}
	}
}

type wrapStringer struct{ s string }

func (w wrapStringer) String() string { return w.s }

// wrapScreen is text on the help screen, in a terminal of some width
func wrapScreen(t *T, text string, columns int, where string) {
	width := 80
	if columns > 12 && columns < 80 {
		width = columns
	}
	os.Setenv("COLUMNS", fmt.Sprint(columns))
	defer os.Unsetenv("COLUMNS")
	switch where {
	case "Wrap", "HangingIndent":
		for n := 0; n < 12; n++ {
			app := &cli.App{
				Uses:   cli.RegisterTemplate("T", fmt.Sprintf(`{{ . | %s %d }}`, where, n)),
				Action: cli.ExecuteTemplate("T", func(*cli.Context) any { return text }),
			}
			r := runApp(app)
			want := wrapModel(text, strings.Repeat(" ", n), width)
			if where == "HangingIndent" {
				want = strings.TrimSpace(want)
			}
			t.Eq("error", r.Error, nil)
			t.Eq(fmt.Sprint(where, " ", n), r.Out, want)
			t.State(r.Out)
		}
		return
	}
	app := &cli.App{}
	cmd := &cli.Command{Name: "c"}
	for _, x := range strings.Fields(where) {
		switch x {
		case "help":
			app.HelpText, cmd.HelpText = text, text
		case "text":
			app.Description, cmd.Description = text, text
		case "stringer":
			app.Description, cmd.Description = wrapStringer{text}, wrapStringer{text}
		case "buffer":
			app.Description, cmd.Description = bytes.NewBufferString(text), bytes.NewBufferString(text)
		case "template":
			bound := func(c *cli.Context) error {
				d := c.Template("D").Bind(map[string]string{"T": text})
				return c.Do(cli.Description(d))
			}
			app.Uses = cli.Pipeline(app.Uses, cli.RegisterTemplate("D", "{{ .T }}"), bound)
			cmd.Uses = cli.Pipeline(cmd.Uses, bound)
		case "colors":
			app.Uses = cli.Pipeline(app.Uses, color.Options{Features: color.TemplateFuncs})
		}
	}
	app.Commands = []*cli.Command{cmd}
	for _, args := range [][]string{{"--help"}, {"help", "c"}, {"c", "--help"}} {
		app.Commands[0].Args = nil
		app := *app
		c := *cmd
		app.Commands = []*cli.Command{&c}
		r := runApp(&app, args...)
		_, after, ok := strings.Cut(r.Err, "\n\n")
		for !strings.HasPrefix(r.Err, "usage: ") || !ok {
			t.Failf("%v: not a help screen: %q %v", args, r.Err, r.Error)
			return
		}
		want := wrapModel(text, "    ", width)
		if text == "" {
			want = ""
		}
		if !strings.HasPrefix(after, want) || !strings.Contains(after[len(want):], "--help") {
			t.Failf("%v: the screen has %q where %q is expected", args, after, want)
		}
		t.State(after)
	}
}

func init() {
	register(&Prop{
		ID:          "C31",
		Bound:       "Wrap against a reference for all texts of up to 6 (8 when thorough) tokens out of 7 at limits of 0 to 13 with 3 indents, and of 6 (7) out of 7 longer tokens; 7 texts at 73 values of COLUMNS in templates and on help screens",
		Assumptions: []string{"a word that starts before the limit is not broken", "tabs on help screens are left out as they align columns there"},
		Run: func(x *X) {
			toks := []string{"a", "bcd", "é", " ", "\n", "\x1b[1m", "\t"}
			depth := 6
			if x.Thorough {
				depth = 8
			}
			words(toks, 0, 3, func(pre []string) {
				text := strings.Join(pre, "")
				if len(pre) < 3 {
					x.Case(func() string { return fmt.Sprintf("text|%q", text) }, func(t *T) { wrapCase(t, text) })
					return
				}
				x.Case(func() string { return fmt.Sprintf("text|%q…", text) }, func(t *T) {
					words(toks, 0, depth-3, func(post []string) {
						wrapCase(t, text+strings.Join(post, ""))
					})
				})
			})
			long := []string{"word", "longerword", "  ", " ", "\n", "averyverylongwordthatfillsaline", "\n    "}
			n := 6
			if x.Thorough {
				n = 7
			}
			words(long, n, n, func(w []string) {
				text := strings.Join(w, "")
				x.Case(func() string { return fmt.Sprintf("long|%q", text) }, func(t *T) { wrapCase(t, text) })
			})
			texts := []string{"a", "one two", strings.Repeat("word ", 20) + "end", strings.Repeat("longer words ", 9) + "\n\n" + strings.Repeat("x", 70) + " y z\n    indented " + strings.Repeat("w ", 40) + "e",
				strings.Repeat("é ", 50), strings.Repeat("a b  c\td ", 15), strings.Repeat("x", 100) + " " + strings.Repeat("y", 100)}
			for _, text := range texts {
				for columns := 10; columns <= 82; columns++ {
					for _, where := range []string{"Wrap", "HangingIndent", "help", "text", "stringer", "buffer", "template", "help stringer", "text colors", "stringer colors"} {
						if strings.Contains(text, "\t") && where != "Wrap" && where != "HangingIndent" {
							continue // tabs align the columns of the help screen
						}
						if strings.Contains(where, "Wrap") || x.Thorough || columns%7 == 0 {
							x.Case(func() string { return fmt.Sprintf("screen|%s %d %.20q", where, columns, text) }, func(t *T) { wrapScreen(t, text, columns, where) })
						}
					}
				}
			}
		},
	})
}
