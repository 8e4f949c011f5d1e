package main

import (
	"fmt"
	"os"
	"regexp"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/table"
)

// Tables: what is put into the cells by the template functions can be read
// back from the text.

type tblCase struct {
	format  string // default, Unformatted, Porcelain, or one of tblFormats
	headers []string
	rows    [][]string
	footers []string
	order   int // of Headers and Footers and rows
}

func (c tblCase) String() string {
	return fmt.Sprintf("%s %q %q %q %d", c.format, c.headers, c.rows, c.footers, c.order)
}

// tblFormats are formats with borders, with other marks at each place
var tblFormats = map[string]*table.Format{
	"marks":      {Border: true, HeaderLine: true, RowLine: true, CenterSeparator: "5", ColumnSeparator: "|", RowSeparator: "-", TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3", CenterLeftSeparator: "4", CenterRightSeparator: "6", BottomLeftSeparator: "7", BottomCenterSeparator: "8", BottomRightSeparator: "9", ColWidth: 40},
	"ascii":      {Border: true, HeaderLine: true, CenterSeparator: "+", ColumnSeparator: "|", RowSeparator: "-", TopLeftSeparator: "+", TopCenterSeparator: "+", TopRightSeparator: "+", CenterLeftSeparator: "+", CenterRightSeparator: "+", BottomLeftSeparator: "+", BottomCenterSeparator: "+", BottomRightSeparator: "+", AutoWrapText: true},
	"pipes":      {Border: true, HeaderLine: true, CenterSeparator: "|", ColumnSeparator: "|", RowSeparator: "-", TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3", CenterLeftSeparator: "4", CenterRightSeparator: "6", BottomLeftSeparator: "7", BottomCenterSeparator: "8", BottomRightSeparator: "9"},
	"nocenter":   {Border: true, HeaderLine: true, RowLine: true, CenterSeparator: "", ColumnSeparator: "|", RowSeparator: "-", TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3", CenterLeftSeparator: "4", CenterRightSeparator: "6", BottomLeftSeparator: "7", BottomCenterSeparator: "8", BottomRightSeparator: "9"},
	"right":      {Border: true, HeaderLine: true, Alignment: table.AlignRight, HeaderAlignment: table.AlignRight, CenterSeparator: "5", ColumnSeparator: "!", RowSeparator: "=", TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3", CenterLeftSeparator: "4", CenterRightSeparator: "6", BottomLeftSeparator: "7", BottomCenterSeparator: "8", BottomRightSeparator: "9"},
	"centered":   {Border: true, HeaderLine: false, RowLine: true, Alignment: table.AlignCenter, HeaderAlignment: table.AlignLeft, CenterSeparator: "5", ColumnSeparator: "!", RowSeparator: "=", TopLeftSeparator: "1", TopCenterSeparator: "2", TopRightSeparator: "3", CenterLeftSeparator: "4", CenterRightSeparator: "6", BottomLeftSeparator: "7", BottomCenterSeparator: "8", BottomRightSeparator: "9"},
	"default":    {Border: true, HeaderLine: true, RowLine: true, CenterSeparator: "┼", ColumnSeparator: "│", RowSeparator: "─", TopLeftSeparator: "┌", TopCenterSeparator: "┬", TopRightSeparator: "┐", CenterLeftSeparator: "├", CenterRightSeparator: "┤", BottomLeftSeparator: "└", BottomCenterSeparator: "┴", BottomRightSeparator: "┘", AutoWrapText: true},
	"borderless": {HeaderLine: true, RowLine: true, CenterSeparator: "+", ColumnSeparator: "|", RowSeparator: "-"},
}

func (c tblCase) columns() int {
	n := max(len(c.headers), len(c.footers))
	for _, r := range c.rows {
		n = max(n, len(r))
	}
	return n
}

// template is a template that makes the table
func (c tblCase) template() string {
	var b strings.Builder
	list := func(name string, items []string) {
		if items != nil {
			fmt.Fprintf(&b, "{{ %s", name)
			for _, i := range items {
				fmt.Fprintf(&b, " %q", i)
			}
			b.WriteString(" }}")
		}
	}
	switch c.format {
	case "default":
		b.WriteString("{{ Table }}")
	case "Unformatted", "Porcelain":
		fmt.Fprintf(&b, "{{ Table %q }}", c.format)
	default:
		b.WriteString("{{ Table .F }}")
	}
	h, f := func() { list("Headers", c.headers) }, func() { list("Footers", c.footers) }
	if c.order&4 != 0 {
		// titles are given by several calls, some of them between the rows
		var pieces []func()
		for i := range max(len(c.headers), len(c.footers)) {
			for _, x := range []struct {
				name string
				l    []string
			}{{"Headers", c.headers}, {"Footers", c.footers}} {
				if i < len(x.l) {
					pieces = append(pieces, func() { list(x.name, x.l[i:i+1]) })
				}
			}
		}
		next := func(bit int) {
			if len(pieces) > 0 && c.order>>bit&1 == 1 {
				pieces[0]()
				pieces = pieces[1:]
			}
		}
		for _, r := range c.rows {
			next(0)
			b.WriteString("{{ Row }}")
			for _, cell := range r {
				next(1)
				fmt.Fprintf(&b, "{{ Cell %q }}", cell)
			}
		}
		for len(pieces) > 0 {
			next(2)
		}
		b.WriteString("{{ EndTable }}")
		return b.String()
	}
	if c.order&1 == 0 {
		h()
	}
	if c.order&2 != 0 {
		f()
	}
	for _, r := range c.rows {
		b.WriteString("{{ Row }}")
		for _, cell := range r {
			fmt.Fprintf(&b, "{{ Cell %q }}", cell)
		}
	}
	if c.order&2 == 0 {
		f()
	}
	if c.order&1 == 1 {
		h()
	}
	b.WriteString("{{ EndTable }}")
	return b.String()
}

var tblNumber = regexp.MustCompile(`^-?(?:\d{1,3}(?:,\d{3})*|\d+)(?:\.\d+)?%?$`)

func tblWidth(s string) int {
	return utf8.RuneCountInString(wrapEscapes.ReplaceAllString(s, ""))
}

func tblPad(s string, width int, align table.Alignment, header bool) string {
	gap := strings.Repeat(" ", max(0, width-tblWidth(s)))
	switch {
	case align == table.AlignRight, align == table.AlignDefault && !header && tblNumber.MatchString(strings.TrimSpace(s)):
		return gap + s
	case align == table.AlignCenter, align == table.AlignDefault && header:
		return gap[:len(gap)/2] + s + gap[len(gap)/2:]
	}
	return s + gap
}

// model is the text of a table all cells of which have one line
func (c tblCase) model() string {
	n := c.columns()
	all := append(clone(c.rows), c.headers, c.footers)
	if c.format == "Porcelain" {
		var b strings.Builder
		if c.headers != nil {
			b.WriteString(strings.Join(c.headers, "\t") + "\n")
		}
		for _, r := range c.rows {
			b.WriteString(strings.Join(r, "\t") + "\n")
		}
		if c.footers != nil {
			b.WriteString(strings.Join(c.footers, "\t") + "\n")
		}
		return b.String()
	}
	width := make([]int, n)
	for _, r := range all {
		for i, s := range r {
			width[i] = max(width[i], tblWidth(s))
		}
	}
	if n == 0 {
		return ""
	}
	f := tblFormats[c.format]
	if c.format == "Unformatted" {
		f = &table.Format{}
	}
	var lines []string
	rule := func(l, m, r string) {
		if !f.Border {
			l, r = f.RowSeparator, f.RowSeparator
			m = f.CenterSeparator
		}
		var parts []string
		for _, w := range width {
			parts = append(parts, strings.Repeat(f.RowSeparator, w+2))
		}
		lines = append(lines, l+strings.Join(parts, m)+r)
	}
	center := func() { rule(f.CenterLeftSeparator, f.CenterSeparator, f.CenterRightSeparator) }
	row := func(r []string, align table.Alignment, header bool) {
		var parts []string
		for i, w := range width {
			s := ""
			if i < len(r) {
				s = r[i]
			}
			parts = append(parts, " "+tblPad(s, w, align, header)+" ")
		}
		edge := " "
		if f.Border {
			edge = f.ColumnSeparator
		}
		lines = append(lines, edge+strings.Join(parts, f.ColumnSeparator)+edge)
	}
	if f.Border {
		rule(f.TopLeftSeparator, f.TopCenterSeparator, f.TopRightSeparator)
	}
	if c.headers != nil {
		row(c.headers, f.HeaderAlignment, true)
		if f.HeaderLine {
			center()
		}
	}
	for _, r := range c.rows {
		row(r, f.Alignment, false)
		if f.RowLine {
			center()
		}
	}
	if c.footers != nil {
		if f.Border && !f.RowLine || !f.Border {
			center()
		}
		row(c.footers, table.AlignDefault, true)
		center()
	}
	if f.Border {
		if len(lines) > 1 && (c.footers != nil || len(c.rows) > 0 && f.RowLine || len(c.rows) == 0 && c.headers != nil && f.HeaderLine && f.RowLine) {
			lines = lines[:len(lines)-1]
		}
		rule(f.BottomLeftSeparator, f.BottomCenterSeparator, f.BottomRightSeparator)
	}
	return strings.Join(lines, "\n") + "\n"
}

func (c tblCase) run(also string) runResult {
	app := &cli.App{
		Uses:   cli.Pipeline(table.Options{Features: table.TemplateFuncs}, cli.RegisterTemplate("T", c.template()+also)),
		Action: cli.ExecuteTemplate("T", func(*cli.Context) any { return map[string]any{"F": tblFormats[c.format]} }),
	}
	return runApp(app)
}

func tblRun(t *T, c tblCase) {
	if f := tblFormats[c.format]; f != nil && len(c.rows) == 0 && f.RowLine && !f.HeaderLine {
		return // there is no line to end it
	}
	want := c.model()
	r := c.run("")
	t.State(r.Out)
	t.Eq("error", r.Error, nil)
	if c.footers != nil && len(c.footers) < c.columns() && c.format != "Porcelain" {
		// borders next to blank footers are left out
		var got, text []string
		for _, w := range strings.FieldsFunc(r.Out, unicode.IsSpace) {
			if strings.Trim(w, "0123456789|!=-─│┌┬┐├┼┤└┴┘+") != "" {
				got = append(got, w)
			}
		}
		for _, l := range append(append([][]string{c.headers}, c.rows...), c.footers) {
			for _, w := range strings.Fields(strings.Join(l, " ")) {
				if strings.Trim(w, "0123456789|!=-─│┌┬┐├┼┤└┴┘+") != "" {
					text = append(text, w)
				}
			}
		}
		t.Eq("words", got, text)
		return
	}
	t.Eq("table", "\n"+r.Out, "\n"+want)
	// one after the other
	r = c.run(c.template())
	t.Eq("error", r.Error, nil)
	t.Eq("two tables", "\n"+r.Out, "\n"+want+want)
}

// tblBack reads back cells that can have many lines
func tblBack(t *T, c tblCase, columns int) {
	os.Setenv("COLUMNS", fmt.Sprint(columns))
	defer os.Unsetenv("COLUMNS")
	r := c.run("")
	t.Eq("error", r.Error, nil)
	t.State(r.Out)
	f := tblFormats[c.format]
	lines := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
	var (
		rows  [][]string
		cur   []string
		width = tblWidth(lines[0])
		wide  int
	)
	narrow := false // blank lines of cells are two wide
	for i := range c.columns() {
		w := 0
		for _, r := range c.rows {
			w = max(w, tblWidth(r[i]))
		}
		narrow = narrow || w < 2
	}
	for _, line := range lines {
		if !narrow {
			t.Eq("width of lines", tblWidth(line), width)
		}
		if !strings.HasPrefix(line, f.ColumnSeparator) {
			if cur != nil {
				rows = append(rows, cur)
			}
			cur = nil
			continue
		}
		cells := strings.Split(line, f.ColumnSeparator)
		if len(cells) != c.columns()+2 || cells[0] != "" || cells[len(cells)-1] != "" {
			t.Failf("the line %q has %d columns, not %d", line, len(cells)-2, c.columns())
			return
		}
		cells = cells[1 : len(cells)-1]
		if cur == nil {
			cur = make([]string, len(cells))
		}
		for i, s := range cells {
			wide = max(wide, tblWidth(strings.TrimSpace(s)))
			cur[i] = strings.Join(strings.Fields(cur[i]+" "+s), " ")
		}
	}
	if cur != nil {
		t.Failf("the table is not closed")
	}
	var want [][]string
	for _, r := range c.rows {
		var l []string
		for _, s := range r {
			l = append(l, strings.Join(strings.Fields(s), " "))
		}
		want = append(want, l)
	}
	t.Eq("cells", rows, want)
	limit := columns
	if f.ColWidth > 0 {
		limit = f.ColWidth
	}
	for _, r := range c.rows {
		for _, w := range strings.Fields(strings.Join(r, " ")) {
			limit = max(limit, tblWidth(w)) // words are not split
		}
	}
	if f.AutoWrapText && wide > limit {
		t.Failf("a line of a cell is %d wide, which is more than %d", wide, limit)
	}
}

// tblBad are calls in a wrong order
func tblBad(t *T, calls []string) {
	in, row := "", false
	wrong := false
	for _, c := range calls {
		switch {
		case strings.HasPrefix(c, "Table"):
			in, row = c, false
		case in == "":
			wrong = true
		case c == "Row":
			row = true
		case c == `Cell "x"` && !row && in != `Table "Porcelain"`:
			wrong = true
		}
	}
	app := &cli.App{
		Uses:   cli.Pipeline(table.Options{}, cli.RegisterTemplate("T", "{{ "+strings.Join(calls, " }}{{ ")+" }}")),
		Action: cli.ExecuteTemplate("T", nil),
	}
	r := runApp(app)
	t.Eq("fails", r.Error != nil, wrong)
	t.State(r.Out)
}

// tblHelp compares help screens with those without tables
func tblHelp(t *T, flags, cmds, features int, colors bool) {
	build := func(f cli.Action) *cli.App {
		app := &cli.App{HelpText: "help of the app", Uses: f}
		for i := range flags {
			app.Flags = append(app.Flags, &cli.Flag{Name: string(rune('a'+i)) + []string{"", "lpha"}[i%2], HelpText: "the {VALUE} of " + strings.Repeat("x", 5*i), Value: cli.String()})
			if i == 2 {
				app.Flags[i].Category = "Cat"
			}
		}
		for i := range cmds {
			app.Commands = append(app.Commands, &cli.Command{Name: "cmd" + strings.Repeat("c", i), Aliases: []string{string(rune('o' + i))}, HelpText: fmt.Sprint("command ", i),
				Flags: []*cli.Flag{{Name: "own", HelpText: "own flag", Value: cli.Bool()}}})
			if i == 1 {
				app.Commands[i].Category = "Group"
			}
		}
		return app
	}
	f := cli.Action(table.Options{Features: table.Feature(features)})
	plain := cli.Action(nil)
	if colors {
		f, plain = cli.Pipeline(color.Options{}, f), color.Options{}
	}
	argss := [][]string{{"--help"}}
	if cmds > 0 {
		argss = append(argss, []string{"cmd", "--help"}, []string{"help", "cmd"})
	}
	for _, args := range argss {
		a, b := runApp(build(f), args...), runApp(build(plain), args...)
		t.Eq("error", errText(a.Error), errText(b.Error))
		ws, wt := strings.Fields(a.Err), strings.Fields(b.Err)
		t.Eq("words on the help screen", ws, wt)
		t.State(a.Err)
	}
}

func init() {
	register(&Prop{
		ID: "C28",
		Bound: "10 formats (all marks distinct, with and without borders and lines, 3 alignments, Unformatted, Porcelain) x tables of up to 3 columns and 3 rows with up to 4 (6 when thorough) cells out of 6, with and without headers and footers of fitting and other lengths, in 4 orders of the functions, and in pieces given between rows and cells; " +
			"wrapped cells read back: all 2x2 tables over 6 texts at 5 widths; tables with only padding between the cells, of two rows and up to 3 columns; all sequences of up to 4 (5) calls of the functions; help screens with tables for 20 apps",
		Assumptions: []string{"how footers are laid out that have fewer cells than the columns is not fixed, only their words", "cells are read back by their words when they are wrapped"},
		Run: func(x *X) {
			cells := []string{"a", "bb 5c", "12", "", "é+|┼x", "\x1b[1mbold\x1b[0m"}
			names := sortedKeys(tblFormats)
			names = append(names, "Unformatted", "Porcelain")
			for _, format := range names {
				alpha := slices.Clone(cells)
				add := func(c tblCase) {
					x.Case(func() string { return "one|" + c.String() }, func(t *T) { tblRun(t, c) })
				}
				for cols := 0; cols <= 3; cols++ {
					for nrows := 0; nrows <= 3; nrows++ {
						if cols == 0 && nrows > 0 {
							continue
						}
						limit := 4
						if x.Thorough {
							limit = 6
						}
						if cols*nrows > limit {
							continue
						}
						for _, h := range [][]string{nil, {"First"}, {"First", "2"}, {"First", "2", "Third long"}, {"First", "2", "", "Fo"}} {
							for _, f := range [][]string{nil, {"sum"}, {"sum", "1"}, {"sum", "1", "7"}, {"sum", "1", "7", "x"}} {
								for order := range 8 {
									if order != 0 && cols*nrows > 2 || order > 3 && len(h)+len(f) < 2 || order < 4 && (h == nil && order&1 != 0 || f == nil && order&2 != 0) {
										continue
									}
									if !(len(h) == cols || h == nil || len(h) == cols-1 || len(h) == cols+1) || !(len(f) == cols || f == nil || len(f) == cols-1 || len(f) == cols+1) {
										continue
									}
									alpha := alpha
									if !x.Thorough && cols*nrows > 3 {
										alpha = []string{"a", "12", "", "é+|┼x"}
									}
									words(alpha, cols*nrows, cols*nrows, func(w []string) {
										l := clone(w)
										var rows [][]string
										for i := range nrows {
											rows = append(rows, l[i*cols:(i+1)*cols])
										}
										add(tblCase{format, h, rows, f, order})
									})
								}
							}
						}
					}
				}
			}
			long := []string{"x", strings.Repeat("word ", 20) + "end", "one\ntwo", strings.Repeat("longer, ", 3) + strings.Repeat("y", 50), "", "a  b"}
			for _, format := range []string{"default", "marks"} {
				for _, columns := range []int{13, 20, 50, 79, 80} {
					n := 4
					words(long, n, n, func(w []string) {
						l := clone(w)
						c := tblCase{format: format, rows: [][]string{l[:2], l[2:]}}
						x.Case(func() string { return fmt.Sprintf("back|%d %s", columns, c) }, func(t *T) { tblBack(t, c, columns) })
					})
				}
			}
			for _, pad := range []string{"", " ", "; ", "\t", "||"} {
				for n := 1; n <= 3; n++ {
					words([]string{"a", "bb 5c", "12", "é"}, n*2, n*2, func(w []string) {
						if n == 3 && w[0] != w[5] {
							return
						}
						l := clone(w)
						x.Case(func() string { return fmt.Sprintf("padding|%q %d %q", pad, n, l) }, func(t *T) { tblPadding(t, pad, n, l) })
					})
				}
			}
			depth := 4
			if x.Thorough {
				depth = 5
			}
			words([]string{"Table", `Table "Unformatted"`, `Table "Porcelain"`, "Row", `Cell "x"`, `Headers "h"`, `Footers "f"`, "EndTable"}, 1, depth, func(w []string) {
				l := clone(w)
				x.Case(func() string { return "calls|" + strings.Join(l, ", ") }, func(t *T) { tblBad(t, l) })
			})
			for flags := range 5 {
				for cmds := range 4 {
					for _, f := range []int{0, int(table.UseTablesInHelpTemplate | table.TemplateFuncs), int(table.TemplateFuncs)} {
						for _, colors := range []bool{false, true} {
							x.CaseS(fmt.Sprintf("help|%d %d %d %v", flags, cmds, f, colors), func(t *T) { tblHelp(t, flags, cmds, f, colors) })
						}
					}
				}
			}
		},
	})
}

// tblPadding is a table which has a padding after each cell and nothing else
func tblPadding(t *T, pad string, columns int, cells []string) {
	f := &table.Format{NoWhiteSpace: true, TablePadding: pad}
	c := tblCase{format: "padding", rows: [][]string{cells[:columns], cells[columns:]}}
	app := &cli.App{
		Uses:   cli.Pipeline(table.Options{Features: table.TemplateFuncs}, cli.RegisterTemplate("T", c.template())),
		Action: cli.ExecuteTemplate("T", func(*cli.Context) any { return map[string]any{"F": f} }),
	}
	r := runApp(app)
	t.Eq("error", r.Error, nil)
	want := ""
	for _, row := range c.rows {
		for i, s := range row {
			w := max(tblWidth(c.rows[0][i]), tblWidth(c.rows[1][i]))
			want += tblPad(s, w, table.AlignDefault, false) + pad
		}
		want += "\n"
	}
	t.Eq("table", "\n"+r.Out, "\n"+want)
	t.State(r.Out)
}
