package main

import (
	"fmt"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// shWords is the reference for POSIX shell word splitting; it fails on any
// unquoted character that a shell would interpret.
func shWords(s string) (res []string, err error) {
	var cur []byte
	in := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == ' ' || c == '\t' || c == '\n':
			if in {
				res = append(res, string(cur))
				cur, in = nil, false
			}
		case c == '\'':
			in = true
			j := strings.IndexByte(s[i+1:], '\'')
			if j < 0 {
				return nil, fmt.Errorf("unterminated '")
			}
			cur = append(cur, s[i+1:i+1+j]...)
			i += j + 1
		case c == '"':
			in = true
			i++
			for ; ; i++ {
				if i >= len(s) {
					return nil, fmt.Errorf("unterminated \"")
				}
				if s[i] == '"' {
					break
				}
				if s[i] == '$' || s[i] == '`' {
					return nil, fmt.Errorf("expansion in double quotes")
				}
				if s[i] == '\\' && i+1 < len(s) && strings.IndexByte("$`\"\\\n", s[i+1]) >= 0 {
					i++
				}
				cur = append(cur, s[i])
			}
		case c == '\\':
			in = true
			i++
			if i >= len(s) {
				return nil, fmt.Errorf("trailing backslash")
			}
			cur = append(cur, s[i])
		case strings.IndexByte("|&;<>()$`*?[]{}!", c) >= 0, (c == '#' || c == '~') && !in:
			return nil, fmt.Errorf("unquoted %q", c)
		default:
			in = true
			cur = append(cur, c)
		}
	}
	if in {
		res = append(res, string(cur))
	}
	return res, nil
}

func init() {
	register(&Prop{
		ID: "C06",
		Bound: "splitting: every string up to length 7 (8 when thorough) over {a , = \\ space ;} with limits -1..3, as a list, a map and a name-value pair, and every list of up to 3 pieces escaped and split back; " +
			"quoting: every string up to length 4 (5 when thorough) over 19 characters with a meaning to the shell, and every pair of strings up to length 2, joined and read back by the library's own splitting and by a reference of the shell's",
		Run: func(x *X) {
			depth := 7
			if x.Thorough {
				depth = 8
			}
			words([]byte(`a,=\ ;`), 0, depth, func(w []byte) {
				if x.Stop() {
					return
				}
				s := string(w)
				x.Case(func() string { return fmt.Sprintf("split|%q", s) }, func(t *T) {
					for n := -1; n <= 3; n++ {
						for _, sep := range []byte(",=;") {
							got, want := cli.SplitList(s, string(sep), n), splitEsc(s, sep, n)
							if q(got) != q(want) {
								t.Failf("split at %c, limit %d: implementation %q, model %q", sep, n, got, want)
							}
						}
					}
					if pieces := splitEsc(s, ',', -1); len(pieces) > 0 {
						if _, ok := pairEsc(pieces[0]); ok {
							want := map[string]string{}
							mapInto(want, pieces)
							t.Eq("as map", renderMap(cli.SplitMap(s)), renderMap(want))
							t.State(renderMap(want))
						}
					}
					p, _ := pairEsc(s)
					var nv cli.NameValue
					if err := nv.Set(s); err != nil {
						t.Failf("name-value: %v", err)
					}
					t.Eq("as name-value", kv{nv.Name, nv.Value}, p)
					t.State(fmt.Sprint(splitEsc(s, ',', -1)))
				})
			})
			// escaping is undone by splitting
			var pieces []string
			words([]byte("a,= "), 0, 3, func(w []byte) { pieces = append(pieces, string(w)) })
			esc := func(s, sep string) string { return strings.ReplaceAll(s, sep, `\`+sep) }
			maxp := 2
			if x.Thorough {
				maxp = 3
			}
			words(pieces, 1, maxp, func(w []string) {
				x.Case(func() string { return fmt.Sprintf("escape|%q", w) }, func(t *T) {
					w := clone(w)
					var e []string
					for _, p := range w {
						e = append(e, esc(p, ","))
					}
					joined := strings.Join(e, ",")
					if joined != strings.TrimSpace(joined) || joined == "" {
						return // surrounding space is trimmed by definition
					}
					t.Eq("split of escaped", q(cli.SplitList(joined, ",", -1)), q(w))
					l := cli.List()
					cli.Set(l, "x")
					app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "l", Value: l}}}
					runApp(app, "-l"+joined)
					t.Eq("list flag", q(*l), q(w))
					t.State(joined)
				})
			})
			// maps and pairs written with escapes come back
			var atoms []string
			words([]byte("a,="), 1, 2, func(w []byte) { atoms = append(atoms, string(w)) })
			words(atoms, 2, 2, func(w []string) {
				for _, v2 := range []string{"", "b", "b,c", "d=e"} {
					x.Case(func() string { return fmt.Sprintf("mapescape|%q %q", w, v2) }, func(t *T) {
						m := map[string]string{"k" + w[0]: w[1], "second": v2}
						var parts []string
						for k, v := range m {
							parts = append(parts, esc(esc(k, ","), "=")+"="+esc(esc(v, ","), "="))
						}
						sort.Strings(parts)
						text := strings.Join(parts, ",")
						t.Eq("map", renderMap(cli.SplitMap(text)), renderMap(m))
						dst := cli.Map()
						app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "m", Value: dst}}}
						runApp(app, "-m", text)
						t.Eq("map flag", renderMap(*dst), renderMap(m))
						t.State(text)
					})
				}
			})

			chars := []string{"a", " ", "'", "\"", "\\", "$", "`", "\n", "\t", "*", "é", "=", ",", "-", "#", "~", "&", "(", "世"}
			try := func(args []string) {
				x.Case(func() string { return fmt.Sprintf("quote|%q", args) }, func(t *T) {
					line := cli.Join(args)
					got, err := cli.Split(line)
					if err != nil || q(got) != q(args) {
						t.Failf("Split(Join(%q)) = %q, %v (line %q)", args, got, err, line)
					}
					sh, err := shWords(line)
					if err != nil || q(sh) != q(args) {
						t.Failf("a shell reads Join(%q) = %q as %q, %v", args, line, sh, err)
					}
					if len(args) == 1 {
						t.Eq("Quote", cli.Quote(args[0]), line)
						s := args[0]
						t.Eq("Quote of a pointer", cli.Quote(&s), line)
					}
					t.State(line)
				})
			}
			qd := 4
			if x.Thorough {
				qd = 5
			}
			words(chars, 0, qd, func(w []string) {
				if !x.Stop() {
					try([]string{strings.Join(w, "")})
				}
			})
			var short []string
			words(chars, 0, 2, func(w []string) { short = append(short, strings.Join(w, "")) })
			words(short, 2, 2, func(w []string) { try(clone(w)) })
			words(chars[:8], 0, 4, func(w []string) { try(clone(w)) })
			// name-value pairs print in a form a shell reads back
			words(chars, 1, 2, func(w []string) {
				x.Case(func() string { return fmt.Sprintf("pair|%q", w) }, func(t *T) {
					nv := &cli.NameValue{Name: "n", Value: strings.Join(w, "")}
					sh, err := shWords(nv.String())
					if err != nil || q(sh) != q([]string{"n=" + nv.Value}) {
						t.Failf("a shell reads %q as %q, %v", nv.String(), sh, err)
					}
				})
			})
		},
	})
}
