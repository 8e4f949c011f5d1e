package main

import "fmt"

// every layout of up to n positional arguments over the given counts
func argLayouts(counts []int, lo, hi int, fn func([]mArg)) {
	words(counts, lo, hi, func(w []int) {
		var l []mArg
		for i, n := range w {
			l = append(l, mArg{name: fmt.Sprintf("x%d", i), narg: n})
		}
		fn(l)
	})
}

func matchCases(x *X, toks []string, depth int, rtl bool) func(l []mArg) {
	return func(l []mArg) {
		g := &grammar{flags: c02Flags, args: l, mode: mMode{rtl: rtl}}
		if !g.stateful() {
			return
		}
		words(toks, 0, depth, func(w []string) {
			x.Case(func() string { return fmt.Sprintf("match|%v|%q", g, w) }, func(t *T) { g.rawCase(t, nil, w) })
		})
	}
}

var c02Flags = []mFlag{
	{name: "all", aliases: []string{"a"}, kind: kNone},
	{name: "str", aliases: []string{"s"}, kind: kReq},
	{name: "list", aliases: []string{"l"}, kind: kList},
}

func init() {
	register(&Prop{
		ID: "C02",
		Bound: "every layout of up to 3 positional arguments with counts 0,1,2,3,-1,-2,-3 (4 arguments over 0,1,-2 when thorough), " +
			"with and without flags disallowed after arguments; all token sequences over a 7-token alphabet up to length 4 (5 when thorough), " +
			"and over plain tokens only up to length 7; layouts of up to 3 with an optional matching argument; a subset through whole app runs",
		Run: func(x *X) {
			depth, runDepth := 4, 2
			if x.Thorough {
				depth, runDepth = 5, 3
			}
			toks := []string{"p", "-", "--", "-a", "--str", "-l", "-z"}
			one := func(l []mArg) {
				for _, dis := range []bool{false, true} {
					g := &grammar{flags: c02Flags, args: l, mode: mMode{disallow: dis}}
					b := g.binding()
					words(toks, 0, depth, func(w []string) {
						if x.Stop() {
							return
						}
						x.Case(func() string { return fmt.Sprintf("parse|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
					})
					words([]string{"p", "--"}, depth+1, 7, func(w []string) {
						x.Case(func() string { return fmt.Sprintf("plain|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
					})
					words(toks[:6], 0, runDepth, func(w []string) {
						if x.Stop() {
							return
						}
						x.Case(func() string { return fmt.Sprintf("run|%v|%q", g, w) }, func(t *T) { g.appCase(t, w) })
					})
				}
			}
			argLayouts([]int{0, 1, 2, 3, -1, -2, -3}, 0, 3, one)
			argLayouts([]int{0, 1, 2, -2, -3, nMatch}, 1, 3, matchCases(x, []string{"p", "xy", "-a", "--", "-l"}, depth-1, false))
			if x.Thorough {
				argLayouts([]int{0, 1, -2}, 4, 4, one)
			}
		},
	})

	register(&Prop{
		ID: "C03",
		Bound: "commands that bind right to left: every layout of up to 4 positional arguments with counts 0,1,2,-2 (-1,-3 up to 3 arguments); " +
			"all token sequences over {value, -, --, no-value flag, required-value flag, list flag} up to length 4 (5 when thorough) and of plain values up to length 7; layouts of up to 3 with an optional matching argument",
		Run: func(x *X) {
			depth, runDepth := 4, 2
			if x.Thorough {
				depth, runDepth = 5, 3
			}
			one := func(toks []string) func(l []mArg) {
				return func(l []mArg) {
					for _, dis := range []bool{false, true} {
						g := &grammar{flags: c02Flags, args: l, mode: mMode{rtl: true, disallow: dis}}
						b := g.binding()
						words(toks, 0, depth, func(w []string) {
							if x.Stop() {
								return
							}
							x.Case(func() string { return fmt.Sprintf("parse|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
						})
						words([]string{"p"}, depth+1, 7, func(w []string) {
							x.Case(func() string { return fmt.Sprintf("plain|%v|%q", g, w) }, func(t *T) { g.rawCase(t, b, w) })
						})
						words(toks, 0, runDepth, func(w []string) {
							x.Case(func() string { return fmt.Sprintf("run|%v|%q", g, w) }, func(t *T) { g.appCase(t, w) })
						})
					}
				}
			}
			argLayouts([]int{0, 1, 2, -2}, 0, 4, one([]string{"p", "--", "-a", "--str", "-l"}))
			argLayouts([]int{0, 1, 2, -2, nMatch}, 1, 3, matchCases(x, []string{"p", "xy", "-a"}, depth, true))
			// an argument that takes everything leaves open what follows it, so flags are left out
			argLayouts([]int{0, 1, -1, -3}, 1, 3, func(l []mArg) { one([]string{"p", "-"})(l) })
		},
	})
}
