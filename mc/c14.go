package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"
)

// Textual forms, and sets of features.

const nOptions = 24

func optText(t *T, o cli.Option, names map[cli.Option]string) {
	b, err := o.MarshalText()
	if err != nil {
		t.Failf("MarshalText: %v", err)
	}
	var want []string
	for i := 0; i < nOptions; i++ {
		if f := cli.Option(1) << i; o&f != 0 {
			want = append(want, names[f])
		}
	}
	t.Eq("text", string(b), strings.Join(want, ", "))
	t.Eq("String", o.String(), string(b))
	var back cli.Option
	if err := back.UnmarshalText(b); err != nil || back != o {
		t.Failf("%q reads back as %d (%v), want %d", b, back, err, o)
	}
}

func textForm[V comparable](t *T, v V, zero V, marshal func(V) string, unmarshal func(*V, string) error) {
	text := marshal(v)
	got := zero
	if err := unmarshal(&got, text); err != nil || got != v {
		t.Failf("%v is written %q, which reads as %v (%v)", v, text, got, err)
	}
	b, err := json.Marshal(map[string]V{"k": v})
	if err != nil {
		t.Failf("json: %v", err)
		return
	}
	back := map[string]V{}
	if err := json.Unmarshal(b, &back); err != nil || back["k"] != v {
		t.Failf("%v is written %s, which reads as %v (%v)", v, b, back["k"], err)
	}
	t.State("%v", text)
}

type mcFeature int

func c14Features(t *T, ctx *cli.Context, keys []int) {
	for v := 0; v < 16; v++ {
		var first string
		for round := 0; round < 4; round++ {
			var ran []int
			m := cli.FeatureMap[mcFeature]{}
			for i := range keys {
				k := keys[(i*7+round)%len(keys)] // the order of insertion must not matter
				if len(keys)%7 == 0 {
					k = keys[(i+round)%len(keys)]
				}
				m[mcFeature(k)] = actionFn(func() error { ran = append(ran, k); return nil })
			}
			if err := ctx.Do(m.Pipeline(mcFeature(v))); err != nil {
				t.Failf("run: %v", err)
			}
			t.Step(1)
			text := fmt.Sprint(ran)
			if round == 0 {
				first = text
			} else if text != first {
				t.Failf("features %v of %d: actions %v, or else %v", keys, v, first, text)
			}
			covered := 0
			for _, k := range ran {
				if k&v != k {
					t.Failf("features %v of %d: action %d is not asked for", keys, v, k)
				}
				if k&covered != 0 {
					t.Failf("features %v of %d: action %d overlaps others in %v", keys, v, k, ran)
				}
				covered |= k
			}
			for _, k := range keys {
				if rest := v &^ covered; k&rest == k {
					t.Failf("features %v of %d: action %d is missing in %v", keys, v, k, ran)
				}
				if k == v && text != fmt.Sprint([]int{k}) {
					t.Failf("features %v of %d: action %v rather than %d", keys, v, ran, k)
				}
			}
			// a combined feature goes before its parts
			for _, k := range keys {
				if k&v != k {
					continue
				}
				for _, r := range ran {
					if r != k && k&r == r && bits.OnesCount(uint(k)) > bits.OnesCount(uint(r)) {
						// k was not used, so something at least as large must overlap it
						ok := false
						for _, r2 := range ran {
							ok = ok || r2&k != 0 && bits.OnesCount(uint(r2)) >= bits.OnesCount(uint(k))
						}
						if !ok {
							t.Failf("features %v of %d: %v instead of the combined %d", keys, v, ran, k)
						}
					}
				}
			}
			t.State("%d %s", v, text)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C14",
		Bound: "all 2^24 combinations of options (quick: those with up to 5 options, and their complements); all lists of up to 3 names with 4 ways of separating them; " +
			"all timings; all 64 combinations of filter modes; Hex and Octal of every boundary of powers of two ±1, both signs; " +
			"feature maps with every subset of the 15 nonempty combinations of 4 bits as keys, for every value, built in 4 orders",
		Assumptions: []string{"reading back starts from the zero value"},
		Run: func(x *X) {
			names := map[cli.Option]string{}
			for i := 0; i < nOptions; i++ {
				names[1<<i] = (cli.Option(1) << i).String()
			}
			x.CaseS("names", func(t *T) {
				seen := map[string]bool{"": true}
				for i := 0; i < nOptions; i++ {
					n := names[1<<i]
					if seen[n] || n != strings.ToUpper(n) || strings.ContainsAny(n, ", ") {
						t.Failf("option %d has the name %q", i, n)
					}
					seen[n] = true
				}
				t.Eq("none", cli.None.String(), "")
				t.Eq("known names", names[cli.Hidden]+names[cli.Required]+names[cli.Trigger]+names[cli.No], "HIDDENREQUIREDTRIGGERNO")
			})
			for hi := 0; hi < 1<<10; hi++ {
				x.Case(func() string { return fmt.Sprintf("option|%d*2^14", hi) }, func(t *T) {
					for lo := 0; lo < 1<<14; lo++ {
						o := cli.Option(hi<<14 | lo)
						if c := bits.OnesCount(uint(o)); !x.Thorough && c > 5 && c < nOptions-3 {
							continue
						}
						t.Step(1)
						optText(t, o, names)
					}
				})
			}
			for _, sep := range []string{",", ", ", " ,\t", ",,"} {
				for i := 0; i < nOptions; i++ {
					x.Case(func() string { return fmt.Sprintf("list|%q %d", sep, i) }, func(t *T) {
						for j := 0; j < nOptions; j++ {
							for k := 0; k < nOptions; k++ {
								var o cli.Option
								text := names[1<<i] + sep + names[1<<j] + sep + names[1<<k]
								err := o.UnmarshalText([]byte(text))
								if want := cli.Option(1<<i | 1<<j | 1<<k); err != nil || o != want {
									t.Failf("%q reads as %v (%v)", text, o, err)
								}
								t.Step(1)
							}
						}
					})
				}
			}
			for _, tm := range []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming, cli.ValidatorTiming, cli.ImplicitValueTiming} {
				x.CaseS(fmt.Sprintf("timing|%d", tm), func(t *T) {
					textForm(t, tm, 1000, func(v cli.Timing) string { return v.String() }, func(v *cli.Timing, s string) error { return v.UnmarshalText([]byte(" " + s + " ")) })
					if tm.Describe() == "" {
						t.Failf("no description")
					}
				})
			}
			singles := map[cli.FilterModes]string{}
			for i := 0; i < 6; i++ {
				singles[1<<i] = cli.FilterModes(1 << i).Describe()
			}
			for m := cli.FilterModes(0); m < 64; m++ {
				x.CaseS(fmt.Sprintf("filter|%d", m), func(t *T) {
					textForm(t, m, 0, func(v cli.FilterModes) string { return v.String() }, func(v *cli.FilterModes, s string) error { return v.UnmarshalText([]byte(s)) })
					for f, d := range singles {
						if d == "" || f&cli.Anything != 0 && m&cli.Anything == cli.Anything {
							continue
						}
						if m&f != 0 != strings.Contains(m.Describe(), d) {
							t.Failf("description %q and %q", m.Describe(), d)
						}
					}
				})
			}
			for bit := 0; bit < 63; bit++ {
				for d := -1; d <= 1; d++ {
					for _, sign := range []int{1, -1} {
						v := sign * (1<<bit + d)
						if bit == 62 && d == 1 {
							v = sign * (1<<63 - 1)
						}
						x.CaseS(fmt.Sprintf("number|%d bit=%d,%d", v, bit, d), func(t *T) {
							var h value.Hex
							if err := h.UnmarshalText([]byte(value.Hex(v).String())); err != nil || int(h) != v {
								t.Failf("%d is written %s and reads as %d (%v)", v, value.Hex(v), int(h), err)
							}
							var o value.Octal
							if err := o.UnmarshalText([]byte(value.Octal(v).String())); err != nil || int(o) != v {
								t.Failf("%d is written %s and reads as %d (%v)", v, value.Octal(v), int(o), err)
							}
						})
					}
				}
			}
			for m := 1; m < 1<<15; m++ {
				if !x.Thorough && bits.OnesCount(uint(m)) > 6 && m%5 != 0 {
					continue
				}
				x.Case(func() string { return fmt.Sprintf("features|%015b", m) }, func(t *T) {
					var keys []int
					for i := 0; i < 15; i++ {
						if m>>i&1 == 1 {
							keys = append(keys, i+1)
						}
					}
					r := runApp(&cli.App{Action: func(c *cli.Context) { c14Features(t, c, keys) }})
					t.Eq("run", errText(r.Error), "")
				})
			}
		},
	})
}
