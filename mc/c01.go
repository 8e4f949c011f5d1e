package main

import (
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

var c01Flags = []mFlag{
	{name: "all", aliases: []string{"a"}, kind: kNone},
	{name: "b", aliases: nil, kind: kNone},
	{name: "str", aliases: []string{"s", "string"}, kind: kReq},
	{name: "opt", aliases: []string{"o"}, kind: kOpt},
	{name: "list", aliases: []string{"l"}, kind: kList},
	{name: "n", aliases: []string{"name"}, kind: kPair},
}

var c01Tokens = []string{
	"x", "", "-", "--", "k=v",
	"-a", "--all", "--all=on", "-ab", "-as", "-a=on", "-ba", "--a", "--b=off", "-aa",
	"-s", "--str", "--string=v", "--str=", "-sv", "-asv", "-s=v", "--s=-a=b",
	"-o", "-o5", "--opt", "--opt=5", "-bo",
	"-l", "--list=p,q", "-lp",
	"-n", "--name=k=v", "-nk=v",
	"-z", "--zz", "-az", "--zz=1", "---", "--=",
}

var c01Short = []string{
	"x", "-", "--", "k=v", "-a", "--all", "-as", "-ba", "-s", "--str", "-sv", "-o", "-o5", "--opt", "-l", "-n", "-z",
}

func init() {
	register(&Prop{
		ID: "C01",
		Bound: "flags of every value arity (none, required, optional, list, name-value; long, short and alias names) with 7 positional layouts; " +
			"all token sequences over a 40-token alphabet up to length 3 (4 when thorough) and over its 17-token core of length 4 (5 when thorough) through the parser, and up to length 2 through whole app runs, " +
			"with and without flags disallowed after arguments; every token of up to 5 characters (6 when thorough) over {- a s o l n z = v} alone and next to another one; " +
			"all lines of up to 3 (thorough 4) of 20 tokens with aliases of two and three bytes, against the same lines with aliases of one byte",
		Run: func(x *X) {
			runes(x)
			layouts := [][]mArg{
				{}, {{name: "x", narg: nTakeOne}}, {{name: "x", narg: nRemaining}}, {{name: "x", narg: nUntilFlag}}, {{name: "x", narg: nInterspers}},
				{{name: "x", narg: 1}, {name: "y", narg: nUntilFlag}}, {{name: "x", narg: nTakeOne}, {name: "y", narg: 1}},
			}
			// every shape of a single token, alone and before or after a plain one
			shape := 5
			if x.Thorough {
				shape = 6
			}
			for _, l := range [][]mArg{{}, {{name: "x", narg: nInterspers}}, {{name: "x", narg: nRemaining}}} {
				g := &grammar{flags: c01Flags, args: l}
				b := g.binding()
				words([]string{"-", "a", "s", "o", "l", "n", "z", "=", "v"}, 1, shape, func(cs []string) {
					if cs[0] != "-" {
						return
					}
					tok := strings.Join(cs, "")
					for _, w := range [][]string{{tok}, {tok, "y"}, {"y", tok}, {tok, "-a"}} {
						x.Case(func() string { return fmt.Sprintf("shape|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
					}
				})
			}
			for _, l := range layouts {
				for _, dis := range []bool{false, true} {
					g := &grammar{flags: c01Flags, args: l, mode: mMode{disallow: dis}}
					b := g.binding()
					depth := 3
					if x.Thorough {
						depth = 4
					}
					words(c01Tokens, 0, depth, func(w []string) {
						if x.Stop() {
							return
						}
						x.Case(func() string { return fmt.Sprintf("parse|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
					})
					lo, hi := 4, 4
					if x.Thorough {
						lo, hi = 5, 5
					}
					words(c01Short, lo, hi, func(w []string) {
						if x.Stop() {
							return
						}
						x.Case(func() string { return fmt.Sprintf("long|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
					})
					words(c01Tokens, 0, 2, func(w []string) {
						x.Case(func() string { return fmt.Sprintf("run|%v|%q", g, w) }, func(t *T) { g.appCase(t, w) })
					})
				}
			}
		},
	})
}

// runeNames has aliases of several bytes and those of one byte which take their place
var runeNames = strings.NewReplacer("é", "e", "ü", "u", "日", "y")

var runeTokens = []string{
	"-é", "-éV", "-ü", "-üé", "-üéV", "-éü", "-üü", "-üV", "-日", "-日V", "-ü日V", "-日é", "-é=V", "-üé=V", "-ü=V", "--é=V", "--é", "V", "--", "-",
}

// runes compares each line to the one with aliases of one byte
func runes(x *X) {
	n := 3
	if x.Thorough {
		n = 4
	}
	run := func(names, line []string) string {
		var s string
		var b bool
		var l, rest []string
		app := &cli.App{
			Name: "app",
			Flags: []*cli.Flag{
				{Name: "string", Aliases: names[:1], Value: &s},
				{Name: "bool", Aliases: names[1:2], Value: &b},
				{Name: "list", Aliases: names[2:3], Value: &l},
			},
			Args: []*cli.Arg{{Name: "rest", Value: &rest, NArg: cli.TakeUntilNextFlag}},
		}
		r := runApp(app, line...)
		// the command line and its names are the same, other than the characters
		return runeNames.Replace(fmt.Sprintf("string=%s bool=%v list=%q rest=%q fails=%v", s, b, l, rest, r.Error != nil))
	}
	words(runeTokens, 1, n, func(w []string) {
		if x.Stop() {
			return
		}
		w = clone(w)
		x.Case(func() string { return fmt.Sprintf("runes|%q", w) }, func(t *T) {
			plain := make([]string, len(w))
			for i := range w {
				plain[i] = runeNames.Replace(w[i])
			}
			t.Eq("with aliases of several bytes", run([]string{"é", "ü", "日"}, w), run([]string{"e", "u", "y"}, plain))
		})
	})
}
