package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"slices"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// Values that are transformed or refer to files.

type refFS struct {
	files map[string]string
	open  int
	total int
}

type refFile struct {
	fs     *refFS
	name   string
	text   string
	closed bool
}

var errRefRead = errors.New("read fails")

func (f *refFS) Open(name string) (fs.File, error) {
	text, ok := f.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if name != "-" { // which is left open
		f.open++
	}
	f.total++
	return &refFile{fs: f, name: name, text: text}, nil
}
func (f *refFile) Stat() (fs.FileInfo, error) { return f, nil }
func (f *refFile) Name() string               { return f.name }
func (f *refFile) Size() int64                { return int64(len(f.text)) }
func (f *refFile) Mode() fs.FileMode          { return 0 }
func (f *refFile) ModTime() time.Time         { return time.Time{} }
func (f *refFile) IsDir() bool                { return false }
func (f *refFile) Sys() any                   { return nil }

// reads two bytes at a time
func (f *refFile) Read(p []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.text == "" {
		if f.name == "broken" {
			return 0, errRefRead
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 2)], f.text)
	f.text = f.text[n:]
	return n, nil
}
func (f *refFile) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.fs.open-- // which is also reported for the one left open
	return nil
}

// a value which reads
type refReader struct {
	got  []string
	fail bool
}

func (r *refReader) Set(s string) error { r.got = append(r.got, "set:"+s); return nil }
func (r *refReader) String() string     { return strings.Join(r.got, "|") }
func (r *refReader) SetData(in io.Reader) error {
	b, err := io.ReadAll(in)
	r.got = append(r.got, "data:"+string(b))
	return err
}

// a value which is set
type refSetter struct{ got []string }

func (r *refSetter) Set(s string) error { r.got = append(r.got, "set:"+s); return nil }
func (r *refSetter) String() string     { return strings.Join(r.got, "|") }

type refConfig struct {
	how   int // 0 AllowFileReference, 1 FileReference, 2/3 the transforms, 4 string, 5 bytes, 6 reader, 7 fails
	value int
	arg   bool
	narg  int // 0 default, 1 two, 2 up to the next flag
	merge bool
}

var refValues = []string{"string", "int", "list", "map", "bytes", "fileset", "reader", "setter", "bool"}

func (c refConfig) dest() any {
	switch refValues[c.value] {
	case "int":
		return new(int)
	case "list":
		return new([]string)
	case "map":
		return new(map[string]string)
	case "bytes":
		return new([]byte)
	case "fileset":
		return new(cli.FileSet)
	case "reader":
		return new(refReader)
	case "setter":
		return new(refSetter)
	case "bool":
		return new(bool)
	}
	return new(string)
}

var errTransform = errors.New("transform fails")

func (c refConfig) action(f fs.FS) cli.Action {
	switch c.how {
	case 0:
		return cli.AllowFileReference
	case 1:
		return cli.FileReference
	case 2:
		return cli.Transform(cli.TransformOptionalFileReference(f))
	case 3:
		return cli.TransformFileReference(f)
	}
	return cli.Transform(func(raw []string) (any, error) {
		s := "<" + strings.Join(raw[1:], "+") + ">"
		switch c.how {
		case 4:
			return s, nil
		case 5:
			return []byte(s), nil
		case 6:
			return strings.NewReader(s), nil
		}
		return nil, errTransform
	})
}

// text of one occurrence
func (c refConfig) text(files map[string]string, vals []string) (string, error) {
	switch c.how {
	case 4, 5, 6:
		return "<" + strings.Join(vals, "+") + ">", nil
	case 7:
		return "", errTransform
	}
	var b strings.Builder
	var broken error
	for _, v := range vals {
		if c.how == 0 || c.how == 2 {
			n, ok := strings.CutPrefix(v, "@")
			if !ok {
				b.WriteString(v)
				continue
			}
			v = n
		}
		t, ok := files[v]
		if !ok {
			return "", fs.ErrNotExist
		}
		if v == "broken" && broken == nil {
			broken = errRefRead
		}
		b.WriteString(t)
	}
	return b.String(), broken
}

func (c refConfig) render(v any) string {
	switch v := v.(type) {
	case *string:
		return *v
	case *int:
		return fmt.Sprint(*v)
	case *[]string:
		return fmt.Sprintf("%q", *v)
	case *map[string]string:
		var b strings.Builder
		for _, k := range sortedKeys(*v) {
			fmt.Fprintf(&b, "%q=%q ", k, (*v)[k])
		}
		return b.String()
	case *[]byte:
		return fmt.Sprintf("%q", *v)
	case *cli.FileSet:
		return fmt.Sprintf("%q", v.Files)
	case *bool:
		return fmt.Sprint(*v)
	case fmt.Stringer:
		return v.String()
	}
	return ""
}

var refFiles = map[string]string{"one": "1", "two": "b,c", "kv": "k=v", "lines": "x\n# c\ny\n", "none": "", "broken": "zz", "-": "in", "9": "file nine", "@at": "at"}

func (c refConfig) run(t *T, occs [][]string, spell int) {
	f := &refFS{files: refFiles}
	dest := c.dest()
	app := &cli.App{FS: f}
	var narg any
	switch c.narg {
	case 1:
		narg = 2
	case 2:
		narg = cli.TakeUntilNextFlag
	}
	act := c.action(f)
	if c.merge {
		act = cli.Pipeline(act, cli.Merge)
	}
	var line []string
	if c.arg {
		app.Args = []*cli.Arg{{Name: "v", Value: dest, NArg: narg, Uses: act}}
		for _, o := range occs {
			line = append(line, o...)
		}
		// every token is an occurrence
		var each [][]string
		for _, o := range line {
			each = append(each, []string{o})
		}
		occs = each
	} else {
		fl := &cli.Flag{Name: "val", Aliases: []string{"v"}, Value: dest, Uses: act}
		app.Flags = []*cli.Flag{fl, {Name: "sep", Value: new(bool)}}
		for _, o := range occs {
			switch {
			case spell == 0:
				line = append(append(line, "--val"), o...)
			case spell == 1:
				line = append(line, "--val="+o[0])
			case spell == 2:
				line = append(append(line, "-v"), o...)
			case spell == 3:
				line = append(line, "-v"+o[0])
			}
		}
	}

	// the same values given in place of the references
	twin := c.dest()
	var want error
	var texts []string
	for _, o := range occs {
		s, err := c.text(refFiles, o)
		if err != nil {
			want = err
			break
		}
		texts = append(texts, s)
	}
	expect := ""
	{
		switch v := twin.(type) {
		case *refReader:
			for _, s := range texts {
				v.got = append(v.got, "data:"+s)
			}
		case *refSetter:
			for _, s := range texts {
				v.got = append(v.got, "set:"+s)
			}
		case *[]byte:
			if c.how == 4 {
				return // text for bytes is in hexadecimal
			}
			for _, s := range texts {
				*v = append(*v, s...)
			}
			if len(texts) > 0 && *v == nil {
				*v = []byte{}
			}
		case *cli.FileSet:
			for _, s := range texts {
				for _, l := range strings.Split(s, "\n") {
					l = strings.TrimSpace(l)
					if l != "" && l[0] != '#' && l[0] != ';' {
						v.Files = append(v.Files, l)
					}
				}
			}
		default:
			ta := &cli.App{FS: f}
			var tl []string
			if c.arg {
				i := 0
				next := cli.Transform(func([]string) (any, error) {
					i++
					return texts[i-1], nil
				})
				u := cli.Action(next)
				if c.merge {
					u = cli.Pipeline(next, cli.Merge)
				}
				ta.Args = []*cli.Arg{{Name: "v", Value: twin, NArg: narg, Uses: u}}
				tl = line[:len(texts)]
			} else {
				// the text is not split
				fl := &cli.Flag{Name: "val", Value: twin, Options: cli.DisableSplitting}
				if c.merge {
					fl.Options |= cli.Merge
				}
				ta.Flags = []*cli.Flag{fl}
				for _, s := range texts {
					tl = append(tl, "--val="+s)
				}
			}
			if len(texts) > 0 || want == nil {
				// an earlier text may already be rejected
				if err := runApp(ta, tl...).Error; err != nil {
					want = err
				}
			}
		}
		expect = c.render(twin)
	}
	r := runApp(app, line...)
	if (r.Error != nil) != (want != nil) {
		t.Failf("%q: error %v, model %v", line, r.Error, want)
		return
	}
	if f.open != 0 {
		t.Failf("%q: %d of %d files are left open", line, f.open, f.total)
	}
	for _, e := range []error{fs.ErrNotExist, errRefRead, errTransform} {
		if errors.Is(want, e) && !errors.Is(r.Error, e) {
			t.Failf("%q: error %v, model %v", line, r.Error, want)
		}
	}
	if want != nil {
		if _, ok := r.Error.(*cli.ParseError); !ok {
			t.Failf("%q: %T %v is not a ParseError", line, r.Error, r.Error)
		}
		t.State(want.Error())
		return
	}
	t.Eq(fmt.Sprintf("value of %q", line), c.render(dest), expect)
	t.State(expect)
}

// values of pairs
func pairRef(t *T, kind, how int, arg bool, occs []string, split bool) {
	f := &refFS{files: refFiles}
	var dest any
	switch kind {
	case 0:
		dest = &cli.NameValue{}
	case 1:
		dest = cli.NameValues()
	case 2:
		dest = cli.Map()
	case 3:
		dest = &cli.NameValue{AllowFileReference: true}
	}
	var act cli.Action
	optional := true
	switch {
	case kind == 3:
	case how == 0:
		act = cli.ValueTransform(cli.TransformOptionalFileReference(f))
	case how == 1:
		act, optional = cli.ValueTransform(cli.TransformFileReference(f)), false
	case how == 2:
		act = cli.ValueTransform(func(raw []string) (any, error) { return []byte("[" + strings.Join(raw, "|") + "]"), nil })
	}
	app := &cli.App{FS: f}
	var line []string
	two := split && (kind == 0 || kind == 3)
	for _, o := range occs {
		if !arg {
			line = append(line, "--v")
		}
		n, v, _ := strings.Cut(o, "=")
		if two {
			line = append(line, n, v)
		} else {
			line = append(line, o)
		}
	}
	if arg {
		app.Args = []*cli.Arg{{Name: "v", Value: dest, NArg: cli.TakeUntilNextFlag, Uses: act}}
	} else {
		app.Flags = []*cli.Flag{{Name: "v", Value: dest, Uses: act}}
	}
	var exp []string
	var want error
	for _, o := range occs {
		n, v, _ := strings.Cut(o, "=")
		switch {
		case kind != 3 && how == 2:
			v = "[" + n + "|" + v + "]"
		default:
			s, ref := v, true
			if optional {
				s, ref = strings.CutPrefix(v, "@")
			}
			if ref {
				text, ok := refFiles[s]
				if !ok {
					want = fs.ErrNotExist
				}
				if s == "broken" {
					want = errRefRead
				}
				v = strings.TrimSpace(text)
			}
		}
		if want != nil {
			break
		}
		exp = append(exp, fmt.Sprintf("%q=%q", n, v))
	}
	r := runApp(app, line...)
	if !errors.Is(r.Error, want) || (want == nil) != (r.Error == nil) {
		t.Fatalf("%q: error %v, model %v", line, r.Error, want)
	}
	if f.open != 0 {
		t.Failf("%q: files are left open", line)
	}
	if want != nil {
		return
	}
	var got []string
	switch d := dest.(type) {
	case *cli.NameValue:
		got = append(got, fmt.Sprintf("%q=%q", d.Name, d.Value))
		exp = exp[len(exp)-1:]
	case *[]*cli.NameValue:
		for _, nv := range *d {
			got = append(got, fmt.Sprintf("%q=%q", nv.Name, nv.Value))
		}
	case *map[string]string:
		for k, v := range *d {
			got = append(got, fmt.Sprintf("%q=%q", k, v))
		}
		slices.Sort(got)
		last := map[string]string{}
		for _, e := range exp {
			k, _, _ := strings.Cut(e, "=")
			last[k] = e
		}
		exp = nil
		for _, e := range last {
			exp = append(exp, e)
		}
		slices.Sort(exp)
	}
	t.Eq(fmt.Sprintf("pairs of %q", line), fmt.Sprint(got), fmt.Sprint(exp))
	t.State(fmt.Sprint(got))
}

type refStream struct {
	io.Reader
	io.Writer
	closed bool
}

func (s *refStream) Close() error { s.closed = true; return nil }

// the file system that is not given, and the one of the app
func refDefault(t *T, which int, text string) {
	v := ""
	in, out := &refStream{Reader: strings.NewReader(text)}, &refStream{Writer: io.Discard}
	app := &cli.App{Stdin: in, Stdout: out, Stderr: io.Discard}
	line := []string{"@-"}
	var act cli.Action
	switch which {
	case 0:
		act = cli.AllowFileReference
	case 1:
		act, line = cli.FileReference, []string{"-"}
	case 2: // not a panic
		act, line = cli.Transform(cli.TransformOptionalFileReference(nil)), []string{"@no/such/file"}
	case 3:
		act, line = cli.Transform(cli.TransformFileReference(nil)), []string{"no/such/file"}
	case 4:
		act, line = cli.Transform(cli.TransformOptionalFileReference(nil)), []string{text}
	}
	app.Args = []*cli.Arg{{Name: "v", Value: &v, Uses: act}}
	err := app.RunContext(context.Background(), append([]string{"app"}, line...))
	if in.closed || out.closed {
		t.Failf("input closed %v, output closed %v", in.closed, out.closed)
	}
	switch which {
	case 2, 3:
		if !errors.Is(err, fs.ErrNotExist) {
			t.Failf("error %v", err)
		}
	default:
		t.Eq("error", err, nil)
		t.Eq("value", v, text)
	}
}

func init() {
	register(&Prop{
		ID: "C27",
		Bound: "9 types of values x 8 transforms x flags (4 spellings), args with 3 counts, with and without Merge: all lines of up to 2 occurrences (3 when thorough; args: tokens) over 14 texts; pairs: 4 kinds x 3 transforms, all lines of up to 2 (3) over 12 pairs; default file systems; " +
			"files that do not exist or fail while being read; files read in small pieces",
		Assumptions: []string{"outer white space of the text of files is not compared for pairs"},
		Run: func(x *X) {
			depth := 2
			if x.Thorough {
				depth = 3
			}
			toks := []string{"one", "@one", "@two", "@kv", "@lines", "@none", "@broken", "@missing", "9", "two", "lines", "@@at", "@-", "k=@one"}
			for value := range refValues {
				for how := range 8 {
					for v := range 8 {
						c := refConfig{how: how, value: value, arg: v&1 != 0, merge: v&2 != 0, narg: v >> 2}
						if c.narg > 0 && !c.arg {
							continue
						}
						if c.arg && c.narg == 1 {
							c.narg = 2
						}
						if c.merge && refValues[value] == "bool" {
							continue
						}
						lo := 0
						if c.arg && c.narg == 0 {
							lo = 1
						}
						words(toks, lo, depth, func(w []string) {
							if x.Stop() {
								return
							}
							if c.arg && c.narg == 0 && len(w) > 1 && refValues[value] != "list" {
								return // takes one
							}
							if !c.arg && c.value == 8 {
								return // the value of a bool is attached
							}
							var occs [][]string
							for _, s := range w {
								occs = append(occs, []string{s})
							}
							for spell := range 4 {
								if c.arg && spell > 0 || depth == 2 && len(w) == 2 && spell > 1 {
									break
								}
								x.Case(func() string { return fmt.Sprintf("value|%s %+v %q %d", refValues[value], c, w, spell) }, func(t *T) {
									c.run(t, occs, spell)
								})
							}
						})
					}
				}
			}
			pairs := []string{"a=@one", "a=one", "b=@two", "b=@kv", "a=", "c=@none", "d=@missing", "d=@broken", "b=@lines", "e=text", "c=9", "f=k"}
			for kind := range 4 {
				for how := range 3 {
					for v := range 4 {
						arg, split := v&1 != 0, v&2 != 0
						words(pairs, 1, depth, func(w []string) {
							if kind == 3 && how > 0 || arg && (kind == 0 || kind == 3) && len(w) > 1 || arg && split {
								return
							}
							if split && kind != 0 && kind != 3 {
								return
							}
							l := clone(w)
							x.Case(func() string { return fmt.Sprintf("pairs|%d %d %v %q %v", kind, how, arg, l, split) }, func(t *T) {
								pairRef(t, kind, how, arg, l, split)
							})
						})
					}
				}
			}
			for which := range 5 {
				for _, s := range []string{"", "x", "a b"} {
					x.CaseS(fmt.Sprintf("default|%d %q", which, s), func(t *T) { refDefault(t, which, s) })
				}
			}
		},
	})
}
