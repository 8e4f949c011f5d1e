package main

import (
	"fmt"
	"math"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"
)

// goInt reads an integer in Go literal syntax (sign if allowed, 0x 0o 0b 0 prefixes, underscores between digits).
func goInt(s string, signed bool) (*big.Int, bool) {
	neg := false
	if signed && s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	base := int64(10)
	prefix := false
	if len(s) >= 2 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, s, prefix = 16, s[2:], true
		case 'o', 'O':
			base, s, prefix = 8, s[2:], true
		case 'b', 'B':
			base, s, prefix = 2, s[2:], true
		default:
			base, s, prefix = 8, s[1:], true
		}
	}
	if s == "" {
		return nil, false
	}
	v := new(big.Int)
	digits := 0
	prev := byte('0') // a prefix counts as a digit for underscores
	if !prefix {
		prev = '_'
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			if prev == '_' || i == len(s)-1 {
				return nil, false
			}
			prev = c
			continue
		}
		d := int64(-1)
		switch {
		case c >= '0' && c <= '9':
			d = int64(c - '0')
		case c >= 'a' && c <= 'f':
			d = int64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int64(c-'A') + 10
		}
		if d < 0 || d >= base {
			return nil, false
		}
		v.Mul(v, big.NewInt(base))
		v.Add(v, big.NewInt(d))
		digits++
		prev = c
	}
	if digits == 0 {
		return nil, false
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

type scalarKind struct {
	name   string
	impl   func() any // initialised with a recognisable value
	init   string
	parse  func(s string) (text string, why string) // why: "", "syntax", "range", "other"
	render func(p any) string
	get    func(c *cli.Context, name string) any
	opt    string // value when the flag has an optional value that was left out
}

func intKind[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](name string, get func(c *cli.Context, n any) T) scalarKind {
	var z T
	rt := reflect.TypeOf(z)
	bits := uint(rt.Bits())
	signed := rt.Kind() >= reflect.Int && rt.Kind() <= reflect.Int64
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(big.NewInt(1), bits-1)
		lo.Neg(hi)
		hi.Sub(hi, big.NewInt(1))
	} else {
		hi.Lsh(big.NewInt(1), bits)
		hi.Sub(hi, big.NewInt(1))
	}
	return scalarKind{name, func() any { v := T(77); return &v }, "77",
		func(s string) (string, string) {
			v, ok := goInt(s, signed)
			if !ok {
				return "", "syntax"
			}
			if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
				return "", "range"
			}
			return v.String(), ""
		},
		func(p any) string { return fmt.Sprint(*p.(*T)) },
		func(c *cli.Context, n string) any { return get(c, n) },
		"1",
	}
}

func floatKind[T float32 | float64](name string, bits int, get func(c *cli.Context, n any) T) scalarKind {
	return scalarKind{name, func() any { v := T(77); return &v }, "77",
		func(s string) (string, string) {
			f, err := strconv.ParseFloat(s, bits)
			if err != nil {
				if err.(*strconv.NumError).Err == strconv.ErrRange {
					return "", "range"
				}
				return "", "syntax"
			}
			return fmt.Sprint(T(f)), ""
		},
		func(p any) string { return fmt.Sprint(*p.(*T)) },
		func(c *cli.Context, n string) any { return get(c, n) },
		"1",
	}
}

func otherErr(err error) string {
	if err != nil {
		return "other"
	}
	return ""
}

func scalarKinds() []scalarKind {
	return []scalarKind{
		intKind("int", (*cli.Context).Int), intKind("int8", (*cli.Context).Int8), intKind("int16", (*cli.Context).Int16),
		intKind("int32", (*cli.Context).Int32), intKind("int64", (*cli.Context).Int64),
		intKind("uint", (*cli.Context).Uint), intKind("uint8", (*cli.Context).Uint8), intKind("uint16", (*cli.Context).Uint16),
		intKind("uint32", (*cli.Context).Uint32), intKind("uint64", (*cli.Context).Uint64),
		floatKind("float32", 32, (*cli.Context).Float32), floatKind("float64", 64, (*cli.Context).Float64),
		{"bool", func() any { v := true; return &v }, "true",
			func(s string) (string, string) {
				for i, l := range [][]string{{"", "1", "true", "on", "t"}, {"0", "false", "off", "f"}} {
					for _, w := range l {
						if strings.EqualFold(w, s) {
							return fmt.Sprint(i == 0), ""
						}
					}
				}
				return "", "other"
			},
			func(p any) string { return fmt.Sprint(*p.(*bool)) },
			func(c *cli.Context, n string) any { return c.Bool(n) }, "true"},
		{"duration", func() any { v := 77 * time.Hour; return &v }, "77h0m0s",
			func(s string) (string, string) { d, err := time.ParseDuration(s); return d.String(), otherErr(err) },
			func(p any) string { return p.(*time.Duration).String() },
			func(c *cli.Context, n string) any { return c.Duration(n) }, "1s"},
		{"ip", func() any { v := net.IPv4(7, 7, 7, 7); return &v }, "7.7.7.7",
			func(s string) (string, string) {
				ip := net.ParseIP(s)
				if ip == nil {
					return "", "other"
				}
				return ip.String(), ""
			},
			func(p any) string { return p.(*net.IP).String() },
			func(c *cli.Context, n string) any { return c.IP(n) }, "127.0.0.1"},
		{"url", func() any { v, _ := url.Parse("http://init"); return &v }, "http://init",
			func(s string) (string, string) {
				u, err := url.Parse(s)
				if err != nil {
					return "", "other"
				}
				return u.String(), ""
			},
			func(p any) string { return (*p.(**url.URL)).String() },
			func(c *cli.Context, n string) any { return c.URL(n) }, ""},
		{"regexp", func() any { v := regexp.MustCompile("init"); return &v }, "init",
			func(s string) (string, string) {
				_, err := regexp.Compile(s)
				return s, otherErr(err)
			},
			func(p any) string { return (*p.(**regexp.Regexp)).String() },
			func(c *cli.Context, n string) any { return c.Regexp(n) }, ""},
		{"bigint", func() any { v := big.NewInt(77); return &v }, "77",
			func(s string) (string, string) {
				t := strings.TrimLeft(s, "+-")
				if len(s)-len(t) > 1 || t == "" || strings.Trim(t, "0123456789") != "" {
					return "", "other"
				}
				t = strings.TrimLeft(t, "0")
				if t == "" {
					return "0", ""
				}
				if s[0] == '-' {
					t = "-" + t
				}
				return t, ""
			},
			func(p any) string { return (*p.(**big.Int)).String() },
			func(c *cli.Context, n string) any { return c.BigInt(n) }, ""},
		{"bigfloat", func() any { v := big.NewFloat(77); return &v }, "77",
			func(s string) (string, string) {
				v, _, err := big.ParseFloat(s, 10, 53, big.ToZero)
				if err != nil {
					return "", "other"
				}
				return v.String(), ""
			},
			func(p any) string { return (*p.(**big.Float)).String() },
			func(c *cli.Context, n string) any { return c.BigFloat(n) }, ""},
		{"hexbytes", func() any { v := []byte{}; return &v }, "",
			func(s string) (string, string) {
				if len(s)%2 != 0 || strings.Trim(s, "0123456789abcdefABCDEF") != "" {
					return "", "other"
				}
				return strings.ToLower(s), ""
			},
			func(p any) string { return fmt.Sprintf("%x", *p.(*[]byte)) },
			func(c *cli.Context, n string) any { return c.Bytes(n) }, ""},
		{"Hex", func() any { v := value.Hex(77); return &v }, "0x4D",
			func(s string) (string, string) { return radix(s, "0x", 16, "0x") },
			func(p any) string { return p.(*value.Hex).String() },
			func(c *cli.Context, n string) any { return c.Value(n) }, ""},
		{"Octal", func() any { v := value.Octal(77); return &v }, "0o115",
			func(s string) (string, string) { return radix(s, "0o", 8, "0o") },
			func(p any) string { return p.(*value.Octal).String() },
			func(c *cli.Context, n string) any { return c.Value(n) }, ""},
		{"ByteLength", func() any { v := value.ByteLength(77); return &v }, "77",
			byteLen,
			func(p any) string { return fmt.Sprint(int(*p.(*value.ByteLength))) },
			func(c *cli.Context, n string) any { return c.Value(n) }, ""},
	}
}

func radix(s, prefix string, base int, out string) (string, string) {
	t := strings.TrimPrefix(s, prefix)
	neg := false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg = t[0] == '-'
		t = t[1:]
	}
	digits := "0123456789abcdef"[:base]
	if t == "" || strings.Trim(strings.ToLower(t), digits) != "" {
		return "", "syntax"
	}
	v := new(big.Int)
	for _, c := range strings.ToLower(t) {
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(strings.IndexRune(digits, c))))
	}
	if neg {
		v.Neg(v)
	}
	if !v.IsInt64() {
		return "", "range"
	}
	sign := ""
	if v.Sign() < 0 {
		sign = "-"
		v.Neg(v)
	}
	return out + sign + strings.ToUpper(v.Text(base)), ""
}

// byteLen: an integer, or a number, optional space, optional magnitude, B
func byteLen(s string) (string, string) {
	t := strings.TrimSpace(s)
	if !strings.HasSuffix(t, "B") {
		n, err := strconv.Atoi(t)
		return fmt.Sprint(n), otherErr(err)
	}
	t = strings.TrimSuffix(t, "B")
	base := int64(1000)
	if strings.HasSuffix(t, "i") {
		base = 1024
		t = strings.TrimSuffix(t, "i")
	}
	mag := 0
	if t != "" {
		if i := strings.IndexByte("KMGTPEZYRQ", t[len(t)-1]); i >= 0 {
			mag = i + 1
		} else if t[len(t)-1] == 'k' {
			mag = 1
		}
		if mag > 0 {
			t = t[:len(t)-1]
		}
	}
	if base == 1024 && mag == 0 {
		return "", "other"
	}
	num := strings.TrimRight(t, " \t\n\r\f\v")
	if num == "" || strings.Trim(num, "0123456789.") != "" {
		return "", "other"
	}
	if mag == 0 {
		n, err := strconv.Atoi(num)
		return fmt.Sprint(n), otherErr(err)
	}
	r, ok := new(big.Rat).SetString(num)
	if !ok || num == "." || strings.Count(num, ".") > 1 {
		return "", "other"
	}
	for ; mag > 0; mag-- {
		r.Mul(r, new(big.Rat).SetInt64(base))
	}
	return new(big.Int).Quo(r.Num(), r.Denom()).String(), ""
}

func checkNumError(t *T, err error, why, s string) {
	msg := errText(err)
	switch {
	case why == "range":
		t.Eq("message", msg, "value out of range: "+s)
	case why == "syntax" && s == "":
		t.Eq("message", msg, "empty string is not a valid number")
	case why == "syntax":
		// a number may be found to be too large before it is found to be malformed
		if msg != "value out of range: "+s {
			t.Eq("message", msg, "not a valid number: "+s)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C05",
		Bound: "22 scalar types; every string up to length 5 (6 when thorough) over {0 1 8 f x - _ + b .}, boundary values of every integer width ±1 in every base, and lists of texts for " +
			"booleans (every letter case), durations, addresses, URLs, patterns, byte lengths; set directly, as a flag and as an argument, and as an optional value",
		Assumptions: []string{"floating-point, duration, URL, IP and regexp syntax is Go's own"},
		Run: func(x *X) {
			kinds := scalarKinds()
			var texts []string
			for _, bits := range []uint{8, 16, 32, 64} {
				for _, sh := range []uint{bits - 1, bits} {
					for d := int64(-2); d <= 1; d++ {
						v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), sh), big.NewInt(d))
						for _, sign := range []string{"", "-", "+"} {
							texts = append(texts, sign+v.String(), sign+"0x"+v.Text(16), sign+"0o"+v.Text(8), sign+"0b"+v.Text(2), sign+"0"+v.Text(8))
						}
					}
				}
			}
			for _, w := range []string{"true", "false", "on", "off", "t", "f", "yes", "no", "1", "0", "2"} {
				subsets([]rune(w), func([]rune) {})
				for m := 0; m < 1<<len(w); m++ {
					b := []byte(w)
					for i := range b {
						if m>>i&1 == 1 {
							b[i] = strings.ToUpper(string(b[i]))[0]
						}
					}
					texts = append(texts, string(b))
				}
			}
			texts = append(texts, "0.1", "1e10", "1e400", "-1e400", "1e39", "3.4e38", "1e-50", "16777217", "9007199254740993", "NaN", "Inf", "-inf", "0x1p-2", "1_000.5", ".5", "5.", "e5", "1e", "--1", " 1", "1 ",
				"1s", "1h2m3s", "-1.5h", "1us", "1d", "300ms", "1", "1.5", "s",
				"127.0.0.1", "::1", "1.2.3", "1.2.3.4.5", "fe80::1%eth0", "256.1.1.1", "01.2.3.4",
				"http://a/b?c#d", "%zz", "a b", ":", "//x", "http://[::1", "mailto:x",
				"a+", "(", "[a", "a{2,1}", "\\d", "*",
				"0a", "0A0b", "abc", "zz", "0a ", "00ff",
				"0xff", "0XFF", "0x-5", "-0x5", "0o17", "0o8", "0O7", "18", "0x8000000000000000", "-8000000000000000", "7fffffffffffffff",
				"1B", "1kB", "1KB", "1KiB", "1kiB", "1iB", "B", "kB", "1.5kB", "1.5B", "1..5kB", ".kB", "x5kB", "5kBx", "-5kB", "5kB6kB", "5 kB", "5\tMiB", " 7 ", "2GB", "3TB", "1PiB", "0.5KiB", "1b", "1k", "10 B", "1 k B", "5mB",
				"9EB", "7EiB", "10EB", "8EiB", "1ZB", "1ZiB", "1QB")
			try := func(s string, apps bool) {
				for ki := range kinds {
					k := &kinds[ki]
					x.Case(func() string { return fmt.Sprintf("set|%s %q", k.name, s) }, func(t *T) {
						want, why := k.parse(s)
						p := k.impl()
						err := cli.Set(p, s)
						if k.name == "ByteLength" && tooBig(s) {
							n, _ := new(big.Int).SetString(want, 10)
							if n.IsInt64() {
								// as exact as floating point is
								got := int64(*p.(*value.ByteLength))
								if d := float64(got) - float64(n.Int64()); err != nil || math.Abs(d) > math.Abs(float64(got))*1e-12 {
									t.Failf("%q gives %d, %v, want %s", s, got, err, want)
								}
							} else if err == nil {
								t.Known("bytelength-overflow", "%q gives %s", s, k.render(p))
							}
							return
						}
						if (err != nil) != (why != "") {
							t.Failf("error: implementation %v, model %q", err, why)
						}
						if why != "" {
							want = k.init
							checkNumError(t, err, why, s)
						}
						t.Eq("value", k.render(p), want)
						t.State(k.name, want, why)
					})
					if !apps || k.name == "ByteLength" && tooBig(s) {
						continue
					}
					for role := 0; role < 3; role++ {
						x.Case(func() string { return fmt.Sprintf("app|%s %d %q", k.name, role, s) }, func(t *T) {
							want, why := k.parse(s)
							p := k.impl()
							app := &cli.App{Name: "app"}
							var toks []string
							switch role {
							case 0:
								app.Flags = []*cli.Flag{{Name: "v", Value: p}}
								toks = []string{"--v=" + s}
							case 1:
								app.Flags = []*cli.Flag{{Name: "v", Value: p}}
								if k.name == "bool" || s == "" {
									return
								}
								toks = []string{"-v", s}
							case 2:
								if s == "--" {
									return
								}
								app.Args = []*cli.Arg{{Name: "v", Value: p, NArg: 1}}
								toks = []string{"--", s}
							}
							ran := false
							app.Action = func(c *cli.Context) {
								ran = true
								t.Eq("value", k.render(p), want)
								if g := k.get(c, "v"); g != nil {
									if rv := reflect.ValueOf(g); rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Slice || rv.Kind() == reflect.Int {
										q := reflect.New(rv.Type())
										q.Elem().Set(rv)
										if q.Type() == reflect.TypeOf(p) {
											t.Eq("looked up", k.render(q.Interface()), want)
										}
									} else {
										t.Eq("looked up", fmt.Sprint(g), want)
									}
								}
							}
							r := runApp(app, toks...)
							t.Eq("ran", ran, why == "")
							t.Eq("failed", r.Error != nil, why != "")
							t.State("app", k.name, want, why)
						})
					}
				}
			}
			seen := map[string]bool{}
			for _, s := range texts {
				if !seen[s] {
					seen[s] = true
					try(s, true)
				}
			}
			depth := 5
			if x.Thorough {
				depth = 6
			}
			words([]byte("018fx-_+b."), 0, depth, func(w []byte) {
				if s := string(w); !x.Stop() && !seen[s] {
					try(s, len(w) <= 2)
				}
			})

			// optional values
			for ki := range kinds {
				k := &kinds[ki]
				if k.opt == "" {
					continue
				}
				for i, toks := range [][]string{{"--v"}, {"-w"}, {"-w", "2"}, {"-bw"}, {"--v="}, {"--v=0"}, {"--v", "--b"}, {"-wb"}, {"--v", "--", "2"}} {
					x.CaseS(fmt.Sprintf("optional|%s %q", k.name, toks), func(t *T) {
						p := k.impl()
						app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "rest", NArg: -2, Value: cli.List()}},
							Flags: []*cli.Flag{{Name: "v", Aliases: []string{"w"}, Value: p, Options: cli.Optional}, {Name: "b", Value: cli.Bool()}}}
						ran := false
						app.Action = func(c *cli.Context) {
							ran = true
							want := k.opt
							if i == 5 {
								want, _ = k.parse("0")
							}
							t.Eq("value", k.render(p), want)
							wantRest := []string{}
							if i == 2 || i == 8 {
								wantRest = []string{"2"}
							}
							t.Eq("rest", q(c.List("rest")), q(wantRest))
						}
						runApp(app, toks...)
						why := ""
						switch i {
						case 5:
							_, why = k.parse("0")
						case 7:
							if k.name != "bool" {
								_, why = k.parse("b")
							}
						}
						t.Eq("ran", ran, why == "")
						t.State("optional", k.name, i)
					})
				}
			}
		},
	})
}

// results that floating point cannot represent exactly
func tooBig(s string) bool {
	v, why := byteLen(s)
	if why != "" {
		return false
	}
	n, ok := new(big.Int).SetString(v, 10)
	return ok && n.CmpAbs(big.NewInt(1<<53)) > 0
}
