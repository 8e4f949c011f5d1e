package main

import (
	"fmt"
	"maps"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"github.com/mitchellh/mapstructure"
)

// Structures initialized by name-value pairs.

type strFields struct {
	Str string
	B   bool
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	Dur time.Duration
	BI  *big.Int
	BF  *big.Float
	IP  net.IP
	L   []string
	R   *regexp.Regexp
	URL *url.URL
	Val *strValue
	Txt *strText
	Net *net.IPNet
	T   time.Time
	PI  *int
	PS  *string
	IL  []int
	DL  []time.Duration
}

type strValue struct{ s string }

func (v *strValue) Set(s string) error {
	if s == "bad" {
		return errFault
	}
	v.s += "<" + s + ">"
	return nil
}
func (v *strValue) String() string { return v.s }

type strText struct{ s string }

func (v *strText) UnmarshalText(b []byte) error {
	if string(b) == "bad" {
		return errFault
	}
	v.s = "[" + string(b) + "]"
	return nil
}

// the text of a field after it was set, ok is false on error
func strModel(field, text string) (res string, ok bool) {
	bits := func(p string) int {
		n, err := strconv.Atoi(strings.TrimPrefix(field, p))
		if err != nil {
			return 64
		}
		return n
	}
	switch field {
	case "Str":
		return text, true
	case "B":
		b, err := strconv.ParseBool(text)
		return fmt.Sprint(b), err == nil
	case "I", "I8", "I16", "I32", "I64":
		n, err := strconv.ParseInt(text, 0, bits("I"))
		return fmt.Sprint(n), err == nil
	case "U", "U8", "U16", "U32", "U64":
		n, err := strconv.ParseUint(text, 0, bits("U"))
		return fmt.Sprint(n), err == nil
	case "F32":
		n, err := strconv.ParseFloat(text, 32)
		return fmt.Sprint(float32(n)), err == nil
	case "F64":
		n, err := strconv.ParseFloat(text, 64)
		return fmt.Sprint(n), err == nil
	case "Dur":
		d, err := time.ParseDuration(text)
		return fmt.Sprint(d), err == nil
	case "BI":
		n := new(big.Int)
		err := n.UnmarshalText([]byte(text))
		return fmt.Sprint(n), err == nil
	case "BF":
		n := new(big.Float)
		err := n.UnmarshalText([]byte(text))
		return fmt.Sprint(n), err == nil
	case "IP":
		ip := net.ParseIP(text)
		return fmt.Sprint(ip), ip != nil
	case "L":
		return fmt.Sprint(strings.Split(text, ",")), true
	case "R":
		r, err := regexp.Compile(text)
		return fmt.Sprint(r), err == nil
	case "URL":
		u, err := url.Parse(text)
		return fmt.Sprint(u), err == nil
	case "Val":
		return "<" + text + ">", text != "bad"
	case "Net":
		_, n, err := net.ParseCIDR(text)
		return fmt.Sprint(n), err == nil
	case "T":
		var d time.Time
		err := d.UnmarshalText([]byte(text))
		return fmt.Sprint(d), err == nil
	case "PI":
		n, err := strconv.ParseInt(text, 0, 64)
		return fmt.Sprint(n), err == nil
	case "PS":
		return text, true
	case "IL":
		var l []int64
		for _, p := range strings.Split(text, ",") {
			if p == "" {
				p = "0" // blank texts are not compared
			}
			n, err := strconv.ParseInt(p, 0, 64)
			if err != nil {
				return "", false
			}
			l = append(l, n)
		}
		return fmt.Sprint(l), true
	case "DL":
		var l []time.Duration
		for _, p := range strings.Split(text, ",") {
			n, err := time.ParseDuration(p)
			if err != nil {
				return "", false
			}
			l = append(l, n)
		}
		return fmt.Sprint(l), true
	case "Txt":
		return "&{[" + text + "]}", text != "bad"
	}
	panic(field)
}

func strNew() *strFields { return &strFields{Val: new(strValue), Txt: new(strText)} }

func strGet(s *strFields, field string) string {
	v := reflect.ValueOf(s).Elem().FieldByName(field)
	if strings.HasPrefix(field, "P") && !v.IsNil() {
		v = v.Elem()
	}
	return fmt.Sprint(v.Interface())
}

func strConvert(t *T, field, name, text string) {
	s := strNew()
	v := structure.Of(s)
	v.DisableSplitting()
	err := v.Set(name + "=" + text)
	want, ok := strModel(field, text)
	t.State(field, want, ok)
	if !ok {
		if err == nil {
			t.Failf("%s=%q is accepted, gives %s", name, text, strGet(s, field))
		}
		return
	}
	if err != nil {
		t.Fatalf("%s=%q: %v", name, text, err)
	}
	t.Eq(name, strGet(s, field), want)
	// nothing else changed
	blank := strNew()
	for _, f := range strNames {
		if f != field {
			t.Eq("field "+f+" which was not named", strGet(s, f), strGet(blank, f))
		}
	}
}

var strNames = []string{"Str", "B", "I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F32", "F64", "Dur", "BI", "BF", "IP", "L", "R", "URL", "Val", "Txt", "Net", "T", "PI", "PS", "IL", "DL"}

// sequences on a small structure
type strSmall struct {
	A string
	N int
	L []string
	B bool
}

type strConfig struct {
	unused  bool // unused names are errors
	strict  bool // options explicitly empty
	nosplit bool
	isMap   bool
	inApp   bool
	sep     bool // one flag per piece
}

func (c strConfig) model(sets []string) (m map[string]string, failed bool) {
	m = map[string]string{"A": "init", "L": "[p q]", "N": "7", "B": "false"}
	if c.isMap {
		m = map[string]string{"A": "init"}
	}
	for _, s := range sets {
		pieces := []string{s}
		if !c.nosplit {
			pieces = splitEsc(s, ',', -1)
		}
		add := map[string]string{}
		mapInto(add, pieces)
		if c.isMap {
			maps.Copy(m, add)
			continue
		}
		// exact names go first, then those that differ in case
		for _, k := range sortedKeys(add) {
			f := ""
			for _, n := range []string{"A", "N", "L", "B"} {
				if strings.EqualFold(n, k) {
					f = n
				}
			}
			if f == "" {
				if c.unused {
					return m, true
				}
				continue
			}
			val, ok := add[k], true
			if c.strict && f != "A" {
				return m, true
			}
			switch f {
			case "N":
				val, ok = strModel("I", val)
			case "B":
				val, ok = strModel("B", val)
			case "L":
				val, ok = strModel("L", val)
			}
			if !ok {
				return m, true
			}
			m[f] = val
		}
	}
	return m, false
}

func (c strConfig) run(t *T, sets []string) {
	s := &strSmall{A: "init", L: []string{"p", "q"}, N: 7}
	mp := map[string]string{"A": "init"}
	var target any = s
	if c.isMap {
		target = &mp
	}
	v := structure.Of(target)
	if c.strict {
		v.Options = []structure.DecoderOption{}
	}
	if c.unused {
		// weakly typed, and no conversions
		v.WithOptions(func(d *mapstructure.DecoderConfig) { d.WeaklyTypedInput = true }).WithOptions(structure.ErrorUnused)
	}
	if v.Value() != target {
		t.Failf("Value gives another pointer")
	}
	var err error
	if c.inApp {
		f := &cli.Flag{Name: "set", Value: v}
		if c.nosplit {
			f.Options = cli.DisableSplitting
		}
		app := &cli.App{Name: "app", Flags: []*cli.Flag{f}, Action: func(ctx *cli.Context) {
			if ctx.Value("set") != target {
				t.Failf("the value in the context is %v", ctx.Value("set"))
			}
		}}
		var args []string
		for _, x := range sets {
			if c.sep {
				args = append(args, "--set", x)
			} else {
				args = append(args, "--set="+x)
			}
		}
		err = runApp(app, args...).Error
	} else {
		if c.nosplit {
			v.DisableSplitting()
		}
		for _, x := range sets {
			if err = v.Set(x); err != nil {
				break
			}
		}
	}
	want, failed := c.model(sets)
	t.State(want, failed)
	if failed != (err != nil) {
		t.Fatalf("gives error %v, model %v", err, failed)
	}
	if failed {
		return
	}
	if c.isMap {
		t.Eq("map", mp, want)
		var text []string
		for _, k := range sortedKeys(want) {
			text = append(text, k+"="+want[k])
		}
		slices.Sort(text)
		t.Eq("text", v.String(), strings.Join(text, ","))
		return
	}
	got := map[string]string{"A": s.A, "N": fmt.Sprint(s.N), "L": fmt.Sprint(s.L), "B": fmt.Sprint(s.B)}
	t.Eq("structure", got, want)
}

// text of structures of strings, which read back
func strText2(t *T, a, b string, ptr bool) {
	type st struct{ Alpha, Beta string }
	s := &st{a, b}
	var v *structure.Value
	want := "Alpha=" + a + ",Beta=" + b
	m := map[string]string{"Alpha": a, "Beta": b}
	switch {
	case ptr:
		v = structure.Of(s)
	default:
		v = structure.Of(m)
	}
	t.Eq("text", v.String(), want)
	t.State(want)
	if !strings.ContainsAny(a+b, `,=\ `) && a != "" && b != "" {
		r := new(st)
		if err := structure.Of(r).Set(v.String()); err != nil || *r != *s {
			t.Failf("%q reads back as %+v, %v", v.String(), *r, err)
		}
	}
}

func init() {
	register(&Prop{
		ID:          "C21",
		Bound:       "29 types of fields with 64 texts each, named exactly and in other case; a structure with 4 fields and a map: all sequences of up to 3 (4 when thorough) assignments over 18 texts, called directly and as a flag, with and without splitting, with default, explicitly empty and additional decoder options; texts of structures over 8 strings",
		Assumptions: []string{"conversions of blank texts and of texts with outer spaces are not compared"},
		Run: func(x *X) {
			texts := []string{"a", "true", "false", "TRUE", "t", "F", "1", "0", "yes", "no", "0x10", "010", "0b1", "1_000", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
				"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "1.5", "inf", "nan", "5m", "1h30m", "1.1.1.1", "::1", "a b", "http://x/y?z", "%zz", "[", "a,b", "a;b", "16kb", "+3", "1e400", "3.4e39", "[a-z]+", "bad", "x=y", "256.1.1.1", "10.1.2.3/8", "10.0.0.0/33", "::1/64", "2020-01-02T03:04:05Z", "2020-01-02", "1,2", "1,,2", "0x1,2", "5m,1h", "5m,"}
			for _, f := range strNames {
				for _, s := range texts {
					for _, n := range []string{f, strings.ToLower(f), strings.ToUpper(f)} {
						x.Case(func() string { return fmt.Sprintf("convert|%s %q", n, s) }, func(t *T) { strConvert(t, f, n, s) })
						if strings.ToUpper(f) == f {
							break
						}
					}
				}
			}
			depth := 3
			if x.Thorough {
				depth = 4
			}
			toks := []string{"A=x", "a=y", "N=3", "n=bad", "L=z", `l=u\,v`, "L=r,s", "B=true", "b=0,A=w,N=0x10", "unk=1", "A", "=v", "", "A=p=q", "A=o,B=maybe", "B=1,unk=1,N=2", "A=%s", "L=a,b,c=d"}
			for v := 0; v < 40; v++ {
				c := strConfig{nosplit: v&1 != 0, inApp: v&2 != 0, sep: v&4 != 0}
				switch v / 8 {
				case 1:
					c.unused = true
				case 2:
					c.strict = true
				case 3:
					c.isMap = true
				case 4:
					c.isMap, c.strict = true, true
				}
				if c.sep && !c.inApp {
					continue
				}
				words(toks, 0, depth, func(w []string) {
					if x.Stop() {
						return
					}
					if c.unused && strings.Contains(strings.ToLower(strings.Join(w, " ")), "l=") {
						return // the conversion of lists is among the default options
					}
					if c.nosplit && slices.Contains(w, "") {
						return // nothing to assign
					}
					l := clone(w)
					x.Case(func() string { return fmt.Sprintf("sequence|%+v %q", c, l) }, func(t *T) { c.run(t, l) })
				})
			}
			strs := []string{"", "x", "a b", "a,b", "a=b", `a\b`, "%d", "é"}
			for _, a := range strs {
				for _, b := range strs {
					for _, p := range []bool{false, true} {
						x.Case(func() string { return fmt.Sprintf("text|%q %q %v", a, b, p) }, func(t *T) { strText2(t, a, b, p) })
					}
				}
			}
		},
	})
}
