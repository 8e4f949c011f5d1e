package main

import (
	"fmt"
	"maps"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// splitEsc is the reference for splitting at separators that are not escaped.
func splitEsc(s string, sep byte, n int) []string {
	s = strings.TrimSpace(s)
	if s == "" || n == 0 {
		return nil
	}
	var res []string
	var cur []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == sep:
			cur = append(cur, sep)
			i++
		case s[i] == sep && (n < 0 || len(res) < n-1):
			res = append(res, string(cur))
			cur = nil
		default:
			cur = append(cur, s[i])
		}
	}
	return append(res, string(cur))
}

type kv struct{ k, v string }

// pairEsc reads one name=value; ok is false when there is no =.
func pairEsc(s string) (p kv, ok bool) {
	a := splitEsc(s, '=', 2)
	for i := range a {
		a[i] = strings.ReplaceAll(a[i], `\,`, ",")
	}
	switch len(a) {
	case 0:
		return kv{"", "true"}, false
	case 1:
		return kv{a[0], "true"}, false
	}
	return kv{a[0], a[1]}, true
}

// mapInto applies pieces in order; a piece without = continues the value before it.
func mapInto(m map[string]string, pieces []string) {
	var last kv
	add := map[string]string{}
	for _, p := range pieces {
		x, ok := pairEsc(p)
		switch {
		case ok:
			last = x
		case strings.TrimSpace(p) != "":
			last.v += "," + x.k
		}
		add[last.k] = last.v
	}
	maps.Copy(m, add)
}

// mval is a model value of any of the flag types, rendered as text for comparison.
type mval interface {
	occur(first bool, vals []string) error // one occurrence with its values
	String() string
}

type semOpts struct {
	merge, nosplit bool
	arg            bool // positional: each token is an occurrence
}

type mString struct {
	o semOpts
	s string
}

func (m *mString) occur(first bool, vals []string) error {
	// flags: the last occurrence wins; arguments: tokens are joined
	if !m.o.merge && (first || !m.o.arg) {
		m.s = ""
	}
	for _, v := range vals {
		if m.s != "" {
			m.s += " "
		}
		m.s += v
	}
	return nil
}
func (m *mString) String() string { return fmt.Sprintf("%q", m.s) }

type mList struct {
	o    semOpts
	s    []string
	spl  bool
	keep bool // file sets do not split
}

func (m *mList) occur(first bool, vals []string) error {
	if first && !m.o.merge {
		m.s = nil
	}
	for _, v := range vals {
		if m.o.nosplit || m.keep {
			m.s = append(m.s, v)
		} else {
			m.s = append(m.s, splitEsc(v, ',', -1)...)
		}
	}
	return nil
}
func (m *mList) String() string { return q(m.s) }

type mMap struct {
	o semOpts
	m map[string]string
}

func (m *mMap) occur(first bool, vals []string) error {
	if first && !m.o.merge {
		m.m = map[string]string{}
	}
	for _, v := range vals {
		p := []string{v}
		if !m.o.nosplit {
			p = splitEsc(v, ',', -1)
		}
		mapInto(m.m, p)
	}
	return nil
}
func renderMap(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}
func (m *mMap) String() string { return renderMap(m.m) }

type mPairs struct {
	o semOpts
	s []kv
}

func (m *mPairs) occur(first bool, vals []string) error {
	if first && !m.o.merge {
		m.s = nil
	}
	for _, v := range vals {
		p := []string{v}
		if !m.o.nosplit {
			p = splitEsc(v, ',', -1)
		}
		for _, e := range p {
			x, ok := pairEsc(e)
			if !ok {
				return fmt.Errorf("value required")
			}
			m.s = append(m.s, x)
		}
	}
	return nil
}
func (m *mPairs) String() string { return fmt.Sprintf("%q", m.s) }

type mPair struct {
	o semOpts
	p kv
}

func (m *mPair) occur(first bool, vals []string) error {
	m.p = kv{}
	for _, v := range vals {
		if m.p.k == "" {
			m.p, _ = pairEsc(v)
		} else {
			m.p.v = v
		}
	}
	return nil
}
func (m *mPair) String() string { return fmt.Sprintf("%q", m.p) }

type mLast struct{ s string }

func (m *mLast) occur(first bool, vals []string) error { m.s = vals[len(vals)-1]; return nil }
func (m *mLast) String() string                        { return m.s }

type mHex struct {
	o semOpts
	s string
}

func (m *mHex) occur(first bool, vals []string) error {
	if first && !m.o.merge {
		m.s = ""
	}
	m.s += strings.Join(vals, "")
	return nil
}
func (m *mHex) String() string { return m.s }

// a Value that implements the documented conventions and records calls
type recValue struct {
	s       []string
	nosplit bool
	resets  int
}

func (r *recValue) Set(s string) error { r.s = append(r.s, s); return nil }
func (r *recValue) String() string     { return q(r.s) }
func (r *recValue) Reset()             { r.s = nil; r.resets++ }
func (r *recValue) DisableSplitting()  { r.nosplit = true }

// plain Value: only Set
type plainValue struct{ s []string }

func (r *plainValue) Set(s string) error { r.s = append(r.s, s); return nil }
func (r *plainValue) String() string     { return q(r.s) }

type semType struct {
	name     string
	alphabet []string
	impl     func(def bool) any
	model    func(o semOpts, def bool) mval
	render   func(c *cli.Context) string
	noArg    bool
	noFlag   bool
}

func semTypes() []semType {
	return []semType{
		{"string", []string{"a", "", "b c"},
			func(def bool) any {
				s := ""
				if def {
					s = "dflt"
				}
				return &s
			},
			func(o semOpts, def bool) mval {
				m := &mString{o: o}
				if def {
					m.s = "dflt"
				}
				return m
			},
			func(c *cli.Context) string { return fmt.Sprintf("%q", c.String("v")) }, false, false},
		{"list", []string{"a", "b,c", "", `d\,e,f`, ",", `g\h`},
			func(def bool) any {
				var s []string
				if def {
					s = []string{"d1", "d2"}
				}
				return &s
			},
			func(o semOpts, def bool) mval {
				m := &mList{o: o}
				if def {
					m.s = []string{"d1", "d2"}
				}
				return m
			},
			func(c *cli.Context) string { return q(c.List("v")) }, false, false},
		{"map", []string{"a=1", "a=2,b=3", "c=", `d=x\,y`, "a=p,q", `e=u\=v,f=w`, "b=x=y"},
			func(def bool) any {
				m := map[string]string{}
				if def {
					m["a"], m["z"] = "da", "dz"
				}
				return &m
			},
			func(o semOpts, def bool) mval {
				m := &mMap{o, map[string]string{}}
				if def {
					m.m["a"], m.m["z"] = "da", "dz"
				}
				return m
			},
			func(c *cli.Context) string { return renderMap(c.Map("v")) }, false, false},
		{"pairs", []string{"a=1", "a=2,b=3", "c=", `d=x\,y`, "b=x=y", "n"},
			func(def bool) any {
				if def {
					return cli.NameValues("d", "0")
				}
				return cli.NameValues()
			},
			func(o semOpts, def bool) mval {
				m := &mPairs{o: o}
				if def {
					m.s = []kv{{"d", "0"}}
				}
				return m
			},
			func(c *cli.Context) string {
				var s []kv
				for _, x := range c.NameValues("v") {
					s = append(s, kv{x.Name, x.Value})
				}
				return fmt.Sprintf("%q", s)
			}, false, false},
		{"pair", []string{"a=1", "b", "c=", "d=x=y", `e=x\,y`},
			func(def bool) any {
				if def {
					return &cli.NameValue{Name: "d", Value: "0"}
				}
				return &cli.NameValue{}
			},
			func(o semOpts, def bool) mval {
				m := &mPair{o: o}
				if def {
					m.p = kv{"d", "0"}
				}
				return m
			},
			func(c *cli.Context) string {
				x := c.NameValue("v")
				return fmt.Sprintf("%q", kv{x.Name, x.Value})
			}, true, false},
		{"fileset", []string{"a", "b,c", "x y"},
			func(def bool) any {
				if def {
					return &cli.FileSet{Files: []string{"d"}}
				}
				return &cli.FileSet{}
			},
			func(o semOpts, def bool) mval {
				m := &mList{o: o, keep: true}
				if def {
					m.s = []string{"d"}
				}
				return m
			},
			func(c *cli.Context) string { return q(c.FileSet("v").Files) }, false, false},
		{"int", []string{"1", "-2", "0x10"},
			func(def bool) any {
				i := 0
				if def {
					i = 9
				}
				return &i
			},
			func(o semOpts, def bool) mval {
				if def {
					return &mLast{"9"}
				}
				return &mLast{"0"}
			},
			func(c *cli.Context) string {
				if n := c.Int("v"); n == 16 {
					return "0x10"
				} else {
					return fmt.Sprint(n)
				}
			}, false, false},
		{"bool", []string{"true", "false"},
			func(def bool) any { b := def; return &b },
			func(o semOpts, def bool) mval { return &mLast{fmt.Sprint(def)} },
			func(c *cli.Context) string { return fmt.Sprint(c.Bool("v")) }, false, false},
		{"bytes", []string{"0a", "0b0c"},
			func(def bool) any {
				if def {
					return &[]byte{1, 2}
				}
				return cli.Bytes()
			},
			func(o semOpts, def bool) mval {
				if def {
					return &mHex{o, "0102"}
				}
				return &mHex{o: o}
			},
			func(c *cli.Context) string { return fmt.Sprintf("%x", c.Bytes("v")) }, false, false},
		{"value", []string{"a", "b,c", ""},
			func(def bool) any {
				if def {
					return &recValue{s: []string{"d"}}
				}
				return &recValue{}
			},
			func(o semOpts, def bool) mval {
				m := &mList{o: o, keep: true}
				if def {
					m.s = []string{"d"}
				}
				return m
			},
			func(c *cli.Context) string { return q(c.Value("v").(*recValue).s) }, false, false},
		{"plain", []string{"a", "b,c", ""},
			func(def bool) any {
				if def {
					return &plainValue{[]string{"d"}}
				}
				return &plainValue{}
			},
			func(o semOpts, def bool) mval {
				o.merge = true
				m := &mList{o: o, keep: true}
				if def {
					m.s = []string{"d"}
				}
				return m
			},
			func(c *cli.Context) string { return q(c.Value("v").(*plainValue).s) }, false, false},
	}
}

// how an occurrence is spelled on the command line
var spellings = []struct {
	name string
	make func(v string) ([]string, bool)
}{
	{"long=", func(v string) ([]string, bool) { return []string{"--v=" + v}, true }},
	{"long", func(v string) ([]string, bool) { return []string{"--v", v}, v != "" }},
	{"short", func(v string) ([]string, bool) { return []string{"-w" + v}, v != "" }},
}

func init() {
	register(&Prop{
		ID: "C04",
		Bound: "11 value types (string, list, map, name-value list, name-value, file set, int, bool, bytes, custom values with and without the reset convention), " +
			"as flag (3 spellings) and as positional argument, with and without an initial value, with every subset of {merge, no splitting}; " +
			"all sequences of up to 3 occurrences (4 when thorough) over 2 to 7 values per type; two options of a type created from the same default (with and without room behind it), all lines of up to 3 (5) occurrences of either",
		Run: func(x *X) {
			depth := 3
			if x.Thorough {
				depth = 4
			}
			for _, ty := range semTypes() {
				for m := 0; m < 16; m++ {
					o := semOpts{merge: m&1 != 0, nosplit: m&2 != 0, arg: m&4 != 0}
					def := m&8 != 0
					if (o.arg && ty.noArg) || (o.merge && ty.name == "pair") {
						continue
					}
					var opts cli.Option
					if o.merge {
						opts |= cli.Merge
					}
					if o.nosplit {
						opts |= cli.DisableSplitting
					}
					for si, sp := range spellings {
						if (o.arg || ty.name == "bool") && si > 0 {
							continue
						}
						words(ty.alphabet, 0, depth, func(w []string) {
							if x.Stop() {
								return
							}
							x.Case(func() string {
								return fmt.Sprintf("%s|%+v def=%v %s %q", ty.name, o, def, sp.name, w)
							}, func(t *T) {
								want := ty.model(o, def)
								var toks []string
								var werr error
								if o.arg {
									toks = []string{"--"}
								}
								for i, v := range w {
									if o.arg {
										toks = append(toks, v)
									} else if s, ok := sp.make(v); ok {
										if si == 1 && (ty.name == "pair" || ty.name == "list" || ty.name == "fileset") {
											// these arities take more tokens; C01 decides that
											s = []string{"--v=" + v}
										}
										toks = append(toks, s...)
									} else {
										return
									}
									if werr == nil {
										werr = want.occur(i == 0, []string{v})
									}
									t.State(ty.name, o, def, want.String())
								}
								app := &cli.App{Name: "app"}
								v := ty.impl(def)
								if o.arg {
									app.Args = []*cli.Arg{{Name: "v", Value: v, Options: opts, NArg: cli.TakeRemaining}}
								} else {
									app.Flags = []*cli.Flag{{Name: "v", Aliases: []string{"w"}, Value: v, Options: opts}}
								}
								ran := false
								app.Action = func(c *cli.Context) {
									ran = true
									t.Eq("value", ty.render(c), want.String())
									t.Eq("occurrences", c.Occurrences("v"), len(w))
									t.Eq("seen", c.Seen("v"), len(w) > 0)
									if r, ok := v.(*recValue); ok {
										wantResets := 0
										if len(w) > 0 && !o.merge {
											wantResets = 1
										}
										t.Eq("resets", r.resets, wantResets)
										t.Eq("told not to split", r.nosplit, o.nosplit && len(w) > 0)
									}
								}
								r := runApp(app, toks...)
								if (r.Error != nil) != (werr != nil) {
									t.Failf("error: implementation %v, model %v", r.Error, werr)
								}
								t.Eq("action ran", ran, werr == nil)
							})
						})
					}
				}
			}
			// one occurrence with several values
			for _, n := range []int{2, 3} {
				for _, merge := range []bool{false, true} {
					words([]string{"a", "b c", "", "d,e"}, n, n, func(w []string) {
						x.Case(func() string { return fmt.Sprintf("nargs|merge=%v %q", merge, w) }, func(t *T) {
							var opts cli.Option
							if merge {
								opts = cli.Merge
							}
							ms := &mString{o: semOpts{merge: merge, arg: true}, s: "d"}
							ml := &mList{o: semOpts{merge: merge, arg: true}, s: []string{"d"}}
							for i, v := range w {
								ms.occur(i == 0, []string{v})
								ml.occur(i == 0, []string{v})
							}
							s, l := "d", []string{"d"}
							app := &cli.App{Name: "app", Args: []*cli.Arg{
								{Name: "s", Value: &s, NArg: n, Options: opts}, {Name: "l", Value: &l, NArg: n, Options: opts}}}
							r := runApp(app, append(clone(w), w...)...)
							t.Eq("error", r.Error, nil)
							t.Eq("string", fmt.Sprintf("%q", s), ms.String())
							t.Eq("list", q(l), ml.String())
							t.State("nargs", ms.s, ml.s)
						})
					})
				}
			}
			semShared(x)
		},
	})
}

// Two options created from the same default do not affect each other, and the
// default stays as it is.
func semShared(x *X) {
	type sharing struct {
		name     string
		alphabet []string
		make     func(room int) (a, b any, dflt func() string)
	}
	lists := []string{"x", "y"}
	spare := func(room int) []string {
		return append(make([]string, 0, len(lists)+room), lists...)
	}
	kinds := []sharing{
		{"list", []string{"1", "2,3"}, func(room int) (any, any, func() string) {
			d := spare(room)
			a, b := d, d
			return &a, &b, func() string { return q(d) }
		}},
		{"fileset", []string{"1", "2"}, func(room int) (any, any, func() string) {
			d := spare(room)
			return &cli.FileSet{Files: d}, &cli.FileSet{Files: d}, func() string { return q(d) }
		}},
		{"pairs", []string{"p=1", "q=2,r=3"}, func(room int) (any, any, func() string) {
			d := append(make([]*cli.NameValue, 0, 2+room), &cli.NameValue{Name: "d", Value: "0"}, &cli.NameValue{Name: "e", Value: "1"})
			a, b := d, d
			return &a, &b, func() string { return sharedText(d) }
		}},
		{"map", []string{"a=1", "b=2,c=3"}, func(room int) (any, any, func() string) {
			d := map[string]string{"a": "da", "z": "dz"}
			a, b := d, d
			return &a, &b, func() string { return sharedText(d) }
		}},
		{"bytes", []string{"0a", "0b0c"}, func(room int) (any, any, func() string) {
			d := append(make([]byte, 0, 2+room), 1, 2)
			a, b := d, d
			return &a, &b, func() string { return sharedText(d) }
		}},
	}
	depth := 3
	if x.Thorough {
		depth = 5
	}
	for _, k := range kinds {
		for _, merge := range []bool{false, true} {
			if merge && k.name == "map" {
				continue // the map itself is what is being added to
			}
			for _, room := range []int{0, 4} {
				var line []string
				for _, f := range []string{"--a=", "--b="} {
					for _, v := range k.alphabet {
						line = append(line, f+v)
					}
				}
				words(line, 0, depth, func(w []string) {
					if x.Stop() {
						return
					}
					x.Case(func() string { return fmt.Sprintf("shared|%s merge=%v room=%d %q", k.name, merge, room, w) }, func(t *T) {
						run := func(keep func(string) bool, a, b any) {
							var opts cli.Option
							if merge {
								opts = cli.Merge
							}
							app := &cli.App{Name: "app", Action: func(*cli.Context) {}, Flags: []*cli.Flag{
								{Name: "a", Value: a, Options: opts}, {Name: "b", Value: b, Options: opts}}}
							var toks []string
							for _, s := range w {
								if keep(s) {
									toks = append(toks, s)
								}
							}
							r := runApp(app, toks...)
							t.Eq("error", r.Error, nil)
						}
						is := func(p string) func(string) bool {
							return func(s string) bool { return strings.HasPrefix(s, p) }
						}
						// each on its own, with a default of its own
						a1, _, _ := k.make(0)
						run(is("--a"), a1, new(string))
						_, b1, _ := k.make(0)
						run(is("--b"), new(string), b1)
						a, b, dflt := k.make(room)
						before := dflt()
						run(is("--"), a, b)
						t.Eq("first", sharedText(a), sharedText(a1))
						t.Eq("second", sharedText(b), sharedText(b1))
						t.Eq("default", dflt(), before)
						t.State("shared", k.name, merge, room, sharedText(a), sharedText(b))
						t.Step(len(w))
					})
				})
			}
		}
	}
}

func sharedText(v any) string {
	switch v := v.(type) {
	case *[]string:
		return q(*v)
	case *cli.FileSet:
		return q(v.Files)
	case *[]*cli.NameValue:
		return sharedText(*v)
	case []*cli.NameValue:
		var s []kv
		for _, x := range v {
			s = append(s, kv{x.Name, x.Value})
		}
		return fmt.Sprintf("%q", s)
	case *map[string]string:
		return renderMap(*v)
	case map[string]string:
		return renderMap(v)
	case *[]byte:
		return fmt.Sprintf("%x", *v)
	case []byte:
		return fmt.Sprintf("%x", v)
	}
	return fmt.Sprint(v)
}
