package main

import (
	"fmt"

	cli "github.com/Carbonfrost/joe-cli"
)

// C35: counters which the user provides decide how many values are taken.

func cntCounters(flags string, maxes ...int) (res []*mCount) {
	for _, f := range flags {
		for _, hi := range maxes {
			for lo := 0; lo <= min(hi, 2); lo++ {
				res = append(res, &mCount{lo, hi, f})
			}
		}
	}
	return
}

// cntArgCount compares the counters which ArgCount stands for with the arity
// that is documented, by offering them every short sequence of tokens.
func cntArgCount(x *X) {
	type spec struct {
		name string
		make func() cli.ArgCounter
		arg  mArg
	}
	var specs []spec
	for n := -5; n <= 4; n++ {
		m := n
		if n < nInterspers {
			m = nRemaining
		}
		specs = append(specs, spec{fmt.Sprintf("ArgCount(%d)", n), func() cli.ArgCounter { return cli.ArgCount(n) }, mArg{narg: m}})
	}
	specs = append(specs,
		spec{"ArgCount(nil)", func() cli.ArgCounter { return cli.ArgCount(nil) }, mArg{narg: nTakeOne}},
		spec{"ArgCount(OptionalArg)", func() cli.ArgCounter {
			return cli.ArgCount(cli.OptionalArg(func(s string) bool { return s[:1] == "x" }))
		}, mArg{narg: nMatch}},
		spec{"OptionalArg(nil)", func() cli.ArgCounter { return cli.OptionalArg(nil) }, mArg{cnt: &mCount{0, 1, 'a'}}},
		spec{"NoArgs", cli.NoArgs, mArg{cnt: &mCount{0, 0, 'e'}}},
		spec{"a counter", func() cli.ArgCounter { return cli.ArgCount(&userCounter{mCount: &mCount{1, 2, 'x'}}) }, mArg{cnt: &mCount{1, 2, 'x'}}},
	)
	depth := 4
	if x.Thorough {
		depth = 6
	}
	for _, s := range specs {
		for _, maybe := range []bool{false, true} {
			words([]string{"p", "x", "-", "-a", "--"}, 0, depth, func(w []string) {
				w = clone(w)
				x.Case(func() string { return fmt.Sprintf("count|%s|possible flags %v|%q", s.name, maybe, w) }, func(t *T) {
					c := s.make()
					p := &posState{args: []mArg{s.arg}}
					for i, tok := range w {
						before := p.taken
						want := p.step(tok, maybe)
						err := c.Take(tok, maybe)
						t.Step(1)
						if (err == nil) != (want == accepted) {
							t.Failf("Take(%q) after %d: %v, model accepts %v", tok, i, err, want == accepted)
							return
						}
						if (err == cli.EndOfArguments) != (want == overflow) {
							t.Failf("Take(%q) after %d: %v, model ends %v", tok, i, err, want == overflow)
							return
						}
						if want != accepted {
							p = &posState{args: []mArg{s.arg}, taken: before}
							break
						}
					}
					unmet := p.unmet()
					if err := c.Done(); (err == nil) != (unmet == nil) {
						t.Failf("Done: %v, model unmet %v", err, unmet)
					}
					t.State(s.name, p.taken, unmet == nil)
				})
			})
		}
	}
}

func init() {
	register(&Prop{
		ID: "C35",
		Bound: "counters with minimum 0..2, maximum 0..3, that end at, refuse or take what looks like a flag, and have a token which ends them and one which is an error: as the NArg of an argument, from its value (alone; thorough: everywhere), or from the value of a flag. " +
			"layouts of one or two such arguments alone, before and after the built-in counts, and of a flag with one and list arguments, binding left to right and right to left: every token sequence over {p, end, bad, -, --, -a, -str} (with -c, -cp, -ac, --cust for the flags) up to length 3 (4 thorough) through the parser and 2 (3) through the app. " +
			"count: every value of ArgCount from -5 to 4, nil, OptionalArg and NoArgs against every sequence of up to 4 (6) tokens.",
		Assumptions: []string{
			"the name in an error of a counter is not compared",
			"a value attached with = isn't offered to a counter",
		},
		Run: func(x *X) {
			depth, runDepth := 3, 2
			if x.Thorough {
				depth, runDepth = 4, 3
			}
			cntArgCount(x)
			one := func(g *grammar, toks []string) {
				words(toks, 0, depth, func(w []string) {
					if x.Stop() {
						return
					}
					w = clone(w)
					x.Case(func() string { return fmt.Sprintf("parse|%v|%q", g, w) }, func(t *T) { g.rawCase(t, nil, w) })
					if len(w) <= runDepth {
						x.Case(func() string { return fmt.Sprintf("run|%v|%q", g, w) }, func(t *T) { g.appCase(t, w) })
					}
				})
			}
			cust := func(name string, kind int, c *mCount) mArg { return mArg{name: name, narg: kind, cnt: c} }
			toks := []string{"p", "end", "bad", "-", "--", "-a", "--str"}
			small := cntCounters("ex", 1, 2)
			for _, rtl := range []bool{false, true} {
				mode := mMode{rtl: rtl}
				for _, kind := range []int{nCustom, nCustomVal} {
					for _, c := range cntCounters("exa", 0, 1, 2, 3) {
						one(&grammar{flags: c02Flags, args: []mArg{cust("c", kind, c)}, mode: mode}, toks)
						if kind == nCustomVal && !x.Thorough {
							continue // the same counter gets there in another way
						}
						for _, n := range []int{0, 1, 2, -1, -2, -3} {
							if n == -1 && rtl {
								continue // as in C03: what follows it is left open
							}
							one(&grammar{flags: c02Flags, args: []mArg{cust("c", kind, c), {name: "x", narg: n}}, mode: mode}, toks)
							one(&grammar{flags: c02Flags, args: []mArg{{name: "x", narg: n}, cust("c", kind, c)}, mode: mode}, toks)
						}
					}
					if kind == nCustomVal && !x.Thorough {
						continue
					}
					for _, c := range small {
						for _, d := range small {
							one(&grammar{flags: c02Flags, args: []mArg{cust("c", kind, c), cust("d", nCustom, d)}, mode: mode}, toks)
						}
					}
				}
				for _, c := range cntCounters("exa", 0, 1, 2, 3) {
					fl := append(clone(c02Flags[:1]), mFlag{name: "cust", aliases: []string{"c"}, kind: kCust, cnt: c})
					for _, l := range [][]mArg{nil, {{name: "x", narg: nUntilFlag}}, {{name: "x", narg: nInterspers}}, {{name: "x", narg: 1}, {name: "y", narg: nUntilFlag}}} {
						one(&grammar{flags: fl, args: l, mode: mode}, []string{"p", "end", "bad", "-", "--", "-a", "-c", "--cust", "-cp", "-ca", "-cend"})
					}
				}
			}
		},
	})
}
