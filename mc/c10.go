package main

import (
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Flags of ancestors used on the lines of their descendants.

type persFlag struct {
	name    string
	aliases []string
	level   int
	local   bool // NonPersistent
}

type persCase struct {
	flags []persFlag
	desc  string
	kind  int      // 0 list, 1 string, 2 int counter like (last wins)
	names []string // of the commands
}

// deeper puts commands between the second level and the last one
func (pc persCase) deeper(between ...string) *persCase {
	pc.names = append([]string{"app", "sub"}, append(clone(between), "leaf")...)
	pc.flags = clone(pc.flags)
	for i := range pc.flags {
		if pc.flags[i].level == 2 {
			pc.flags[i].level += len(between)
		}
	}
	pc.desc = fmt.Sprintf("%d levels %s", len(pc.names), pc.desc)
	return &pc
}

func persCases() (res []persCase) {
	for m := 0; m < 16; m++ {
		for kind := 0; kind < 2; kind++ {
			pc := persCase{desc: fmt.Sprintf("redefined=%03b nonpersistent=%v kind=%d", m&7, m&8 != 0, kind), kind: kind, names: []string{"app", "sub", "leaf"}}
			pc.flags = append(pc.flags,
				persFlag{"pf", []string{"pp"}, 0, m&8 != 0},
				persFlag{"nf", []string{"k"}, 0, true},
				persFlag{"mf", nil, 1, false})
			if m&1 != 0 {
				pc.flags = append(pc.flags, persFlag{"pf", []string{"qq"}, 1, false})
			}
			if m&2 != 0 {
				pc.flags = append(pc.flags, persFlag{"pf", nil, 2, false})
			}
			if m&4 != 0 {
				pc.flags = append(pc.flags, persFlag{"nf", nil, 2, false})
			}
			pc.flags = append(pc.flags, persFlag{"lf", nil, 2, false})
			res = append(res, pc)
		}
	}
	return
}

// resolve finds the flag a name means on the line of a command, and whether it
// can be used there.
func (pc *persCase) resolve(name string, level int, lookup bool) int {
	for l := level; l >= 0; l-- {
		for i, f := range pc.flags {
			if f.level != l || f.local && l != level && !lookup {
				continue
			}
			if f.name == name {
				return i
			}
		}
	}
	for l := level; l >= 0; l-- {
		for i, f := range pc.flags {
			if f.level != l || f.local && l != level && !lookup {
				continue
			}
			for _, a := range f.aliases {
				if a == name {
					// its name must still mean the same flag
					if pc.resolve(f.name, level, lookup) == i {
						return i
					}
				}
			}
		}
	}
	return -1
}

type persUse struct{ flag, level int }

// persModel follows the grammar; err is empty, or what is wrong
func (pc *persCase) model(toks []string) (uses []persUse, level int, rest []string, err string) {
	for _, tok := range toks {
		if strings.HasPrefix(tok, "-") {
			name := strings.TrimLeft(tok, "-")
			name, _, _ = strings.Cut(name, "=")
			f := pc.resolve(name, level, false)
			if f < 0 {
				return uses, level, rest, "flag"
			}
			uses = append(uses, persUse{f, level})
			continue
		}
		if level < len(pc.names)-1 {
			if tok != pc.names[level+1] {
				return uses, level, rest, "command"
			}
			level++
			continue
		}
		rest = append(rest, tok)
	}
	return
}

func (pc *persCase) run(t *T, toks []string) {
	uses, path, rest, wrong := pc.model(toks)
	names := pc.names
	// texts are the index of the token
	line := make([]string, len(toks))
	texts := []string{}
	for i, tok := range toks {
		line[i] = tok
		if strings.HasPrefix(tok, "-") {
			line[i] = tok + "=" + fmt.Sprint(i)
			if tok == "-k" {
				line[i] = tok + fmt.Sprint(i)
			}
			texts = append(texts, fmt.Sprint(i))
		}
	}
	value := func(flag, level int) string {
		v := []string{"init"}
		set := false
		for i, u := range uses {
			if u.flag == flag && u.level <= level {
				if !set || pc.kind == 1 {
					v = nil
				}
				set = true
				v = append(v, texts[i])
			}
		}
		return strings.Join(v, " ")
	}
	count := func(flag, level int) (n int) {
		for _, u := range uses {
			if u.flag == flag && u.level <= level {
				n++
			}
		}
		return
	}
	usedAt := func(flag, level int) bool {
		for _, u := range uses {
			if u == (persUse{flag, level}) {
				return true
			}
		}
		return false
	}
	var got []string
	flags := make([]*cli.Flag, len(pc.flags))
	show := func(c *cli.Context, name any) string {
		switch v := c.Value(name).(type) {
		case []string:
			return strings.Join(v, " ")
		case string:
			return v
		default:
			return fmt.Sprintf("%T %v", v, v)
		}
	}
	note := func(what string, self int) cli.ActionFunc {
		return func(c *cli.Context) error {
			s := what + " in " + c.Path().String()
			level := len(c.Path()) - 1
			if self >= 0 {
				s += fmt.Sprintf(" own %s n=%d seen=%v", show(c, ""), c.Occurrences(""), c.Seen(""))
				level--
			}
			for _, n := range []string{"pf", "nf", "mf", "lf"} {
				if f := pc.resolve(n, level, true); f >= 0 {
					s += fmt.Sprintf(" %s=%s", n, show(c, n))
					if g, _ := c.LookupFlag(n); g != flags[f] {
						s += " but not that flag"
					}
				} else if c.Value(n) != nil {
					s += fmt.Sprintf(" %s=unexpected %v", n, c.Value(n))
				}
			}
			got = append(got, s)
			return nil
		}
	}
	note2 := func(what string, self, level, inLevel int) string {
		s := what + " in " + strings.Join(names[:level+1], " ")
		if self >= 0 {
			s += fmt.Sprintf(" --%s own %s n=%d seen=%v", pc.flags[self].name, value(self, inLevel), count(self, inLevel), count(self, inLevel) > 0)
		}
		for _, n := range []string{"pf", "nf", "mf", "lf"} {
			if f := pc.resolve(n, level, true); f >= 0 {
				s += fmt.Sprintf(" %s=%s", n, value(f, inLevel))
			}
		}
		return s
	}
	var want []string
	var expect func(l int)
	expect = func(l int) {
		last := l == path
		want = append(want, note2("before", -1, l, l))
		for i, f := range pc.flags {
			if f.level == l {
				want = append(want, note2(fmt.Sprintf("before%d", i), i, l, l))
			}
		}
		if last && wrong == "command" {
			return // the name of the sub-command is wrong
		}
		for from := 0; from <= l; from++ {
			for i, f := range pc.flags {
				if f.level == from && usedAt(i, l) {
					want = append(want, note2(fmt.Sprintf("action%d", i), i, l, l))
				}
			}
		}
		if last {
			want = append(want, note2("action", -1, l, l)+q(rest))
		} else {
			expect(l + 1)
		}
		want = append(want, note2("after", -1, l, path))
		for i, f := range pc.flags {
			if f.level == l {
				want = append(want, note2(fmt.Sprintf("after%d", i), i, l, path))
			}
		}
	}
	var build func(l int) *cli.Command
	build = func(l int) *cli.Command {
		act := note("action", -1)
		cmd := &cli.Command{Name: names[l], Before: note("before", -1), After: note("after", -1)}
		for i, f := range pc.flags {
			if f.level != l {
				continue
			}
			var v any
			if pc.kind == 0 {
				v = &[]string{"init"}
			} else {
				s := "init"
				v = &s
			}
			flags[i] = &cli.Flag{Name: f.name, Aliases: f.aliases, Value: v, Before: note(fmt.Sprintf("before%d", i), i), Action: note(fmt.Sprintf("action%d", i), i), After: note(fmt.Sprintf("after%d", i), i)}
			if f.local {
				flags[i].Options = cli.NonPersistent
			}
			cmd.Flags = append(cmd.Flags, flags[i])
		}
		if l < len(names)-1 {
			cmd.Subcommands = []*cli.Command{build(l + 1)}
			cmd.Action = cli.ActionFunc(func(c *cli.Context) error {
				err := act(c)
				got[len(got)-1] += "[]"
				return err
			})
		} else {
			cmd.Args = []*cli.Arg{{Name: "rest", Value: &[]string{}, NArg: cli.TakeExceptForFlags}}
			cmd.Action = cli.ActionFunc(func(c *cli.Context) error {
				err := act(c)
				got[len(got)-1] += q(c.List("rest"))
				return err
			})
		}
		return cmd
	}
	root := build(0)
	app := &cli.App{Name: "app", Flags: root.Flags, Commands: root.Subcommands, Before: root.Before, Action: root.Action, After: root.After}
	r := runApp(app, line...)
	if wrong != "" {
		if r.Error == nil {
			t.Failf("accepts a %s that does not exist there", wrong)
		}
		for _, g := range got {
			if strings.HasPrefix(g, "action in ") || strings.HasPrefix(g, "after") {
				t.Failf("runs %q even though it fails", g)
			}
		}
		return
	}
	if r.Error != nil {
		t.Fatalf("fails with %v", r.Error)
	}
	expect(0)
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			t.Failf("event %d: implementation %q, model %q", i, g, w)
			break
		}
		t.State(w)
	}
	t.Step(len(got))
}

func init() {
	register(&Prop{
		ID: "C10",
		Bound: "chains of 3 commands with persistent and non-persistent flags at each level and every subset of 3 redefinitions further down, as lists (and, one token shorter, strings); every command line of up to 5 (thorough: 7) tokens over 10 tokens (long names, aliases, short alias, sub-command names, argument), " +
			"not extended after the first error; chains of 5 and 6 commands with up to 2 (3) flags anywhere on the line",
		Run: func(x *X) {
			max := 5
			if x.Thorough {
				max = 7
			}
			toks := []string{"--pf", "--pp", "--qq", "-k", "--nf", "--mf", "--lf", "sub", "leaf", "x"}
			for _, pc := range persCases() {
				var rec func(line []string)
				rec = func(line []string) {
					if x.Stop() {
						return
					}
					line = clone(line)
					x.Case(func() string { return pc.desc + "|" + q(line) }, func(t *T) { pc.run(t, line) })
					if _, _, _, wrong := pc.model(line); wrong != "" || len(line) == max-pc.kind {
						return
					}
					for _, k := range toks {
						rec(append(line, k))
					}
				}
				rec(nil)
			}
			// further down: a word or none on each level
			uses := 2
			if x.Thorough {
				uses = 3
			}
			for _, between := range [][]string{{"c2", "c3"}, {"c2", "c3", "c4"}} {
				for _, c := range persCases() {
					pc := c.deeper(between...)
					var rec func(l, left int, line []string)
					rec = func(l, left int, line []string) {
						if l > 0 {
							line = append(clone(line), pc.names[l])
						}
						next := func(line []string, left int) {
							if l == len(pc.names)-1 {
								line := clone(line)
								x.Case(func() string { return pc.desc + "|" + q(line) }, func(t *T) { pc.run(t, line) })
								return
							}
							rec(l+1, left, line)
						}
						next(line, left)
						if left == 0 || x.Stop() {
							return
						}
						for _, k := range []string{"--pf", "--pp", "--qq", "-k", "--nf", "--mf", "--lf"} {
							next(append(clone(line), k), left-1)
						}
					}
					rec(0, uses, nil)
				}
			}
		},
	})
}
