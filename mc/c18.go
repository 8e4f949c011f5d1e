package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// File systems that implement one extension each

type fsLog struct {
	fs.FS
	calls *[]string
	err   error
}

func (l fsLog) add(f string, a ...any) error {
	*l.calls = append(*l.calls, fmt.Sprintf(f, a...))
	return l.err
}

func (l fsLog) file(f string, a ...any) (fs.File, error) {
	if err := l.add(f, a...); err != nil {
		return nil, err
	}
	return fsMarked{}, nil
}

type fsMarked struct{ fs.File }

type (
	fsOpen        struct{ l fsLog }
	fsStat        struct{ fsOpen }
	fsCreate      struct{ fsOpen }
	fsChmod       struct{ fsOpen }
	fsChown       struct{ fsOpen }
	fsChtimes     struct{ fsOpen }
	fsRename      struct{ fsOpen }
	fsRemove      struct{ fsOpen }
	fsRemoveAll   struct{ fsOpen }
	fsMkdir       struct{ fsOpen }
	fsMkdirAll    struct{ fsOpen }
	fsOpenFile    struct{ fsOpen }
	fsOpenContext struct{ fsOpen }
)

func (f fsOpen) Open(n string) (fs.File, error) {
	if err := f.l.add("Open %s", n); err != nil {
		return nil, err
	}
	return f.l.FS.Open(n)
}
func (f fsStat) Stat(n string) (fs.FileInfo, error)   { return nil, f.l.add("Stat %s", n) }
func (f fsCreate) Create(n string) (fs.File, error)   { return f.l.file("Create %s", n) }
func (f fsChmod) Chmod(n string, m fs.FileMode) error { return f.l.add("Chmod %s %o", n, m) }
func (f fsChown) Chown(n string, u, g int) error      { return f.l.add("Chown %s %d %d", n, u, g) }
func (f fsChtimes) Chtimes(n string, a, m time.Time) error {
	return f.l.add("Chtimes %s %d %d", n, a.Unix(), m.Unix())
}
func (f fsRename) Rename(o, n string) error                 { return f.l.add("Rename %s %s", o, n) }
func (f fsRemove) Remove(n string) error                    { return f.l.add("Remove %s", n) }
func (f fsRemoveAll) RemoveAll(n string) error              { return f.l.add("RemoveAll %s", n) }
func (f fsMkdir) Mkdir(n string, m fs.FileMode) error       { return f.l.add("Mkdir %s %o", n, m) }
func (f fsMkdirAll) MkdirAll(n string, m fs.FileMode) error { return f.l.add("MkdirAll %s %o", n, m) }
func (f fsOpenFile) OpenFile(n string, flag int, p fs.FileMode) (fs.File, error) {
	return f.l.file("OpenFile %s %d %o", n, flag, p)
}
func (f fsOpenContext) OpenContext(c context.Context, n string) (fs.File, error) {
	return f.l.file("OpenContext %s %v", n, c.Value(fsKey{}))
}

type fsKey struct{}

// fileOp is an operation of the file system
type fileOp struct {
	name   string
	want   string // the call of the extension
	onFS   func(f cli.FS, n string) (any, error)
	onFile func(f *cli.File) (any, error)
	onOS   func(n string) (any, error)
}

func fileErr(err error) (any, error) { return nil, err }

var fileTime = time.Unix(1e9, 0)

func fileOps() []fileOp {
	ctx := context.WithValue(context.Background(), fsKey{}, "ctx")
	return []fileOp{
		{"Open", "Open %s", func(f cli.FS, n string) (any, error) { return f.Open(n) }, func(f *cli.File) (any, error) { return f.Open() }, func(n string) (any, error) { return os.Open(n) }},
		{"Stat", "Stat %s", func(f cli.FS, n string) (any, error) { return f.Stat(n) }, func(f *cli.File) (any, error) { return f.Stat() }, func(n string) (any, error) { return os.Stat(n) }},
		{"Create", "Create %s", func(f cli.FS, n string) (any, error) { return f.Create(n) }, func(f *cli.File) (any, error) { return f.Create() }, func(n string) (any, error) { return os.Create(n) }},
		{"Chmod", "Chmod %s 640", func(f cli.FS, n string) (any, error) { return fileErr(f.Chmod(n, 0640)) }, func(f *cli.File) (any, error) { return fileErr(f.Chmod(0640)) }, func(n string) (any, error) { return fileErr(os.Chmod(n, 0640)) }},
		{"Chown", "Chown %s -1 -1", func(f cli.FS, n string) (any, error) { return fileErr(f.Chown(n, -1, -1)) }, func(f *cli.File) (any, error) { return fileErr(f.Chown(-1, -1)) }, func(n string) (any, error) { return fileErr(os.Chown(n, -1, -1)) }},
		{"Chtimes", "Chtimes %s 1000000000 1000000001", func(f cli.FS, n string) (any, error) {
			return fileErr(f.Chtimes(n, fileTime, fileTime.Add(time.Second)))
		},
			func(f *cli.File) (any, error) { return fileErr(f.Chtimes(fileTime, fileTime.Add(time.Second))) }, func(n string) (any, error) { return fileErr(os.Chtimes(n, fileTime, fileTime.Add(time.Second))) }},
		{"Remove", "Remove %s", func(f cli.FS, n string) (any, error) { return fileErr(f.Remove(n)) }, func(f *cli.File) (any, error) { return fileErr(f.Remove()) }, func(n string) (any, error) { return fileErr(os.Remove(n)) }},
		{"RemoveAll", "RemoveAll %s", func(f cli.FS, n string) (any, error) { return fileErr(f.RemoveAll(n)) }, func(f *cli.File) (any, error) { return fileErr(f.RemoveAll()) }, func(n string) (any, error) { return fileErr(os.RemoveAll(n)) }},
		{"Mkdir", "Mkdir %s 750", func(f cli.FS, n string) (any, error) { return fileErr(f.Mkdir(n, 0750)) }, func(f *cli.File) (any, error) { return fileErr(f.Mkdir(0750)) }, func(n string) (any, error) { return fileErr(os.Mkdir(n, 0750)) }},
		{"MkdirAll", "MkdirAll %s 700", func(f cli.FS, n string) (any, error) { return fileErr(f.MkdirAll(n, 0700)) }, func(f *cli.File) (any, error) { return fileErr(f.MkdirAll(0700)) }, func(n string) (any, error) { return fileErr(os.MkdirAll(n, 0700)) }},
		{"OpenFile", fmt.Sprintf("OpenFile %%s %d 600", os.O_RDWR|os.O_CREATE|os.O_APPEND), func(f cli.FS, n string) (any, error) { return f.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0600) },
			func(f *cli.File) (any, error) { return f.OpenFile(os.O_RDWR|os.O_CREATE|os.O_APPEND, 0600) }, func(n string) (any, error) { return os.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0600) }},
		{"OpenFileR", fmt.Sprintf("OpenFile %%s %d 0", os.O_RDONLY), func(f cli.FS, n string) (any, error) { return f.OpenFile(n, os.O_RDONLY, 0) },
			func(f *cli.File) (any, error) { return f.OpenFile(os.O_RDONLY, 0) }, func(n string) (any, error) { return os.OpenFile(n, os.O_RDONLY, 0) }},
		{"OpenContext", "OpenContext %s ctx", func(f cli.FS, n string) (any, error) { return f.OpenContext(ctx, n) }, func(f *cli.File) (any, error) { return f.OpenContext(ctx) }, func(n string) (any, error) { return os.Open(n) }},
	}
}

func fileDelegation(t *T, kind string, op fileOp, name string, fail bool, onFile bool) {
	var calls []string
	l := fsLog{FS: fstest.MapFS{"vfa": {Data: []byte("A"), Mode: 0644}}, calls: &calls}
	if fail {
		l.err = errors.New("injected")
	}
	o := fsOpen{l}
	kinds := map[string]fs.FS{"": o, "Stat": fsStat{o}, "Create": fsCreate{o}, "Chmod": fsChmod{o}, "Chown": fsChown{o}, "Chtimes": fsChtimes{o}, "Rename": fsRename{o},
		"Remove": fsRemove{o}, "RemoveAll": fsRemoveAll{o}, "Mkdir": fsMkdir{o}, "MkdirAll": fsMkdirAll{o}, "OpenFile": fsOpenFile{o}, "OpenContext": fsOpenContext{o}}
	var res any
	var err error
	if onFile {
		res, err = op.onFile(&cli.File{Name: name, FS: kinds[kind]})
	} else {
		res, err = op.onFS(cli.NewFS(kinds[kind]), name)
	}
	t.Step(1)
	base := strings.TrimSuffix(op.name, "R")
	want := ""
	switch {
	case kind == base || base == "Open":
		want = fmt.Sprintf(op.want, name)
	case base == "Create" && kind == "OpenFile":
		want = fmt.Sprintf("OpenFile %s %d 666", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	case base == "Stat", base == "OpenContext":
		want = "Open " + name
	}
	if want == "" {
		var pe *fs.PathError
		if !errors.As(err, &pe) || pe.Path != name || len(calls) > 0 {
			t.Failf("not supported: error %#v, calls %v", err, calls)
		}
		return
	}
	t.Eq("calls", fmt.Sprint(calls), fmt.Sprint([]string{want}))
	missing := strings.HasPrefix(want, "Open ") && name != "vfa"
	switch {
	case fail:
		if err == nil || err.Error() != "injected" {
			t.Failf("error %v", err)
		}
	case missing:
		if !errors.Is(err, fs.ErrNotExist) {
			t.Failf("error %v", err)
		}
	default:
		if err != nil {
			t.Failf("error %v", err)
		}
		if fi, ok := res.(fs.FileInfo); base == "Stat" && kind != "Stat" && (!ok || fi.Name() != name || fi.Size() != 1) {
			t.Failf("info %v", res)
		}
		if _, ok := res.(fsMarked); (base == "Create" || base == "OpenFile" || base == kind && base == "OpenContext") && !ok {
			t.Failf("file %v", res)
		}
	}
	t.State(calls, errText(err))
}

var fileErrors = []error{fs.ErrNotExist, fs.ErrPermission, fs.ErrExist, fs.ErrInvalid, fs.ErrClosed, io.EOF, io.ErrUnexpectedEOF, errors.ErrUnsupported, os.ErrDeadlineExceeded, context.Canceled, syscall.ENOENT, syscall.ENOTDIR, syscall.EACCES, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.EIO, errFault}

// fileExists: a file that can't be examined isn't said to be missing unless
// the error says so
func fileExists(t *T, e error, stat, path, join bool) {
	var calls []string
	want := e
	if join {
		e = errors.Join(errors.New("more"), e)
	}
	if path {
		e = &fs.PathError{Op: "stat", Path: "vfa", Err: e}
	}
	var f fs.FS = fsOpen{fsLog{calls: &calls, err: e}}
	if stat {
		f = fsStat{f.(fsOpen)}
	}
	file := &cli.File{Name: "vfa", FS: f}
	t.Step(1)
	t.Eq("exists", file.Exists(), !errors.Is(want, fs.ErrNotExist))
	if _, err := file.Stat(); !errors.Is(err, want) {
		t.Failf("Stat: %v", err)
	}
	err := file.Walk(func(p string, d fs.DirEntry, err error) error {
		if p != "vfa" || !errors.Is(err, want) {
			t.Failf("walk %s: %v", p, err)
		}
		return err
	})
	if !errors.Is(err, want) {
		t.Failf("Walk: %v", err)
	}
	t.State(want, file.Exists())
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verif-c18-")
	if err != nil {
		panic(err)
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// in runs fn with the directory being current
func inDir(dir string, fn func()) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	fn()
}

func fileTree(dir string) string {
	var res []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			res = append(res, err.Error())
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		fi, _ := d.Info()
		s := rel + " " + fi.Mode().String()
		if fi.ModTime().Before(time.Unix(1.1e9, 0)) {
			s += fmt.Sprint(fi.ModTime().Unix())
		}
		if !d.IsDir() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		res = append(res, s)
		return nil
	})
	return strings.Join(res, "\n")
}

// use does something with an opened file and describes it
func fileUse(res any, err error, dir string) string {
	out := strings.ReplaceAll(errText(err), dir, "DIR")
	switch f := res.(type) {
	case nil:
	case fs.FileInfo:
		if err == nil {
			name := f.Name()
			if name == filepath.Base(dir) {
				name = "DIR"
			}
			out += fmt.Sprint(name, f.Mode(), f.IsDir())
		}
	case fs.File:
		if err != nil {
			break
		}
		b, err := io.ReadAll(f)
		out += fmt.Sprintf("read %q %v ", b, strings.ReplaceAll(errText(err), dir, "DIR"))
		n, err := f.(io.Writer).Write([]byte("w"))
		out += fmt.Sprint("write ", n, strings.ReplaceAll(errText(err), dir, "DIR"))
		f.Close()
	}
	return out
}

type fileStep struct {
	op   fileOp
	name string
}

// fileTwin does the same in a directory through the library and in its twin through os
func fileTwin(t *T, steps []fileStep, viaSub bool) {
	tmp, done := scratch()
	defer done()
	dirs := []string{filepath.Join(tmp, "one"), filepath.Join(tmp, "two")}
	cwd := filepath.Join(tmp, "cwd")
	os.Mkdir(cwd, 0755)
	for _, d := range dirs {
		os.MkdirAll(d+"/vfd", 0755)
		os.WriteFile(d+"/vfa", []byte("A"), 0644)
		os.WriteFile(d+"/vfd/vfb", []byte("B"), 0600)
	}
	inDir(cwd, func() {
		for i, s := range steps {
			var got, want string
			real := func(d string) string {
				return strings.ReplaceAll(s.name, "ABS", d)
			}
			abs := func(d string) string {
				if filepath.IsAbs(real(d)) {
					return real(d)
				}
				return filepath.Join(d, s.name)
			}
			var f cli.FS = cli.DirFS(dirs[0])
			if viaSub {
				sub, err := fs.Sub(cli.DirFS(tmp), "one")
				if err != nil {
					t.Fatalf("sub: %v", err)
				}
				var ok bool
				if f, ok = sub.(cli.FS); !ok {
					t.Fatalf("sub: %T", sub)
				}
			}
			r, err := s.op.onFile(&cli.File{Name: real(dirs[0]), FS: f})
			got = fileUse(r, err, dirs[0])
			r, err = s.op.onOS(abs(dirs[1]))
			want = fileUse(r, err, dirs[1])
			t.Step(1)
			t.Eq(fmt.Sprintf("step %d result", i), got, want)
			t.Eq(fmt.Sprintf("step %d tree", i), fileTree(dirs[0]), fileTree(dirs[1]))
		}
		t.Eq("current directory", fileTree("."), ". "+modeOf(cwd))
	})
	t.State(fileTree(dirs[1]))
}

func modeOf(d string) string {
	fi, _ := os.Stat(d)
	return fi.Mode().String()
}

// The special file named dash

func fileDash(t *T, file bool, how string, flag int) {
	tmp, done := scratch()
	defer done()
	var in io.Reader = strings.NewReader("input")
	var buf bytes.Buffer
	var out io.Writer = &buf
	written := func() string { return buf.String() }
	if file {
		os.WriteFile(tmp+"/in", []byte("input"), 0600)
		in, _ = os.Open(tmp + "/in")
		o, _ := os.Create(tmp + "/out")
		out = o
		written = func() string { b, _ := os.ReadFile(tmp + "/out"); return string(b) }
		defer in.(*os.File).Close()
		defer o.Close()
	}
	use := func(f *cli.File) {
		var h fs.File
		var err error
		write, fail := false, false
		switch how {
		case "stat":
			fi, err := f.Stat()
			if err != nil || fi == nil {
				t.Failf("Stat: %v %v", fi, err)
			} else if fi.IsDir() {
				t.Failf("a directory")
			}
			t.Eq("exists", f.Exists(), true)
			n := 0
			err = f.Walk(func(p string, d fs.DirEntry, err error) error {
				n++
				t.Eq("walk", p, "-")
				return err
			})
			if err != nil || n != 1 {
				t.Failf("Walk: %v, %d calls", err, n)
			}
			return
		case "open":
			h, err = f.Open()
		case "opencontext":
			h, err = f.OpenContext(context.Background())
		case "create":
			h, err = f.Create()
			write = true
		case "openfile":
			h, err = f.OpenFile(flag, 0600)
			switch flag & (os.O_WRONLY | os.O_RDWR) {
			case os.O_WRONLY:
				write = true
			case os.O_RDWR:
				write = true
				fail = flag&(os.O_APPEND|os.O_CREATE) == 0
			}
		}
		if fail {
			if err == nil {
				t.Failf("no error")
			}
			return
		}
		if err != nil {
			t.Failf("error %v", err)
			return
		}
		if !write {
			b, err := io.ReadAll(h)
			if string(b) != "input" || err != nil {
				t.Failf("read %q, %v", b, err)
			}
			if how == "openfile" {
				return
			}
		}
		w, ok := h.(io.Writer)
		if !ok {
			t.Failf("not a writer: %T", h)
			return
		}
		if n, err := w.Write([]byte("he")); n != 2 || err != nil {
			t.Failf("write %d, %v", n, err)
		}
		if sw, ok := h.(io.StringWriter); ok {
			if n, err := sw.WriteString("llo"); n != 3 || err != nil {
				t.Failf("write string %d, %v", n, err)
			}
		} else {
			t.Failf("not a string writer: %T", h)
		}
		t.Eq("written", written(), "hello")
	}
	os.WriteFile(tmp+"/vfx", nil, 0600)
	base := cli.DirFS(tmp)
	t.Step(1)
	use(&cli.File{Name: "-", FS: cli.NewSysFS(base, in, out)})
}

// fileApp uses the files of an app in each place
func fileApp(t *T, where string, ownFS bool, set bool, mode string) {
	tmp, done := scratch()
	defer done()
	os.WriteFile(tmp+"/vfx", []byte("X"), 0600)
	inDir(tmp, func() {
		var out bytes.Buffer
		var got []string
		file := func(c *cli.Context, i int) *cli.File {
			if !set {
				return c.File("f")
			}
			var fs []*cli.File
			for f, err := range c.FileSet("f").All() {
				if err != nil {
					t.Failf("all: %v", err)
				}
				fs = append(fs, f)
			}
			if len(fs) != 2 {
				t.Fatalf("%d files", len(fs))
			}
			return fs[i]
		}
		act := func(c *cli.Context) error {
			for i := 0; i < 2; i++ {
				f := file(c, i)
				switch {
				case mode == "read":
					h, err := f.Open()
					if err != nil {
						return err
					}
					b, err := io.ReadAll(h)
					if err != nil {
						return err
					}
					got = append(got, f.Name+"="+string(b))
				default:
					h, err := f.Create()
					if err != nil {
						return err
					}
					if _, err := fmt.Fprint(h.(io.Writer), "new"+f.Name); err != nil {
						return err
					}
				}
				if !set {
					break
				}
			}
			return nil
		}
		val := func() any {
			if set {
				return new(cli.FileSet)
			}
			return new(cli.File)
		}
		app := &cli.App{Name: "app", Stdin: strings.NewReader("IN"), Stdout: &out, Stderr: io.Discard}
		if ownFS {
			app.FS = cli.NewSysFS(cli.DirFS(tmp), strings.NewReader("own"), &out)
		}
		line := []string{"app"}
		names := []string{"-", "vfx"}
		if !set {
			names = names[:1]
		}
		sub := &cli.Command{Name: "sub", Action: act}
		switch where {
		case "flag":
			app.Flags = []*cli.Flag{{Name: "f", Value: val()}}
			app.Action = act
			line = append(append(line, "-f"), names...)
		case "arg":
			app.Args = []*cli.Arg{{Name: "f", Value: val()}}
			app.Action = act
			line = append(line, names...)
		case "subflag":
			sub.Flags = []*cli.Flag{{Name: "f", Value: val()}}
			app.Commands = []*cli.Command{sub}
			line = append(append(line, "sub", "-f"), names...)
		case "subarg":
			sub.Args = []*cli.Arg{{Name: "f", Value: val()}}
			app.Commands = []*cli.Command{sub}
			line = append(append(line, "sub"), names...)
		case "persistent":
			app.Flags = []*cli.Flag{{Name: "f", Value: val()}}
			app.Commands = []*cli.Command{sub}
			line = append(append(line, "sub", "-f"), names...)
		case "env":
			app.Flags = []*cli.Flag{{Name: "f", Value: val(), EnvVars: []string{"VERIF_FILE"}}}
			app.Action = act
			os.Setenv("VERIF_FILE", strings.Join(names, ","))
			defer os.Unsetenv("VERIF_FILE")
			if set {
				return // one name per value
			}
		case "added":
			app.Uses = cli.AddFlag(&cli.Flag{Name: "f", Value: val()})
			app.Action = act
			line = append(append(line, "-f"), names...)
		}
		err := app.RunContext(context.Background(), line)
		t.Step(1)
		if err != nil {
			t.Failf("error %v", err)
		}
		if mode == "read" {
			in := "IN"
			if ownFS {
				in = "own"
			}
			want := []string{"-=" + in, "vfx=X"}[:len(names)]
			t.Eq("read", q(got), q(want))
		} else {
			t.Eq("written to dash", out.String(), "new-")
			if set {
				b, _ := os.ReadFile(tmp + "/vfx")
				t.Eq("written to vfx", string(b), "newvfx")
			}
		}
	})
}

// Lists of files

func fileSetText(t *T, lines []string, last bool, initial []string) {
	text := strings.Join(lines, "\n")
	if last && len(lines) > 0 {
		text += "\n"
	}
	want := clone(initial)
	for _, l := range strings.Split(text, "\n") {
		l = strings.Trim(l, " \t\r")
		if l != "" && l[0] != '#' && l[0] != ';' {
			want = append(want, l)
		}
	}
	fsx := &cli.FileSet{Files: clone(initial)}
	err := fsx.SetData(strings.NewReader(text))
	t.Step(1)
	t.Eq("error", errText(err), "")
	t.Eq("files", q(fsx.Files), q(want))
	t.State(want)
}

type fileNode struct {
	name string
	dir  bool
	kids []*fileNode
}

// fileForests enumerates forests with n nodes, names in order
func fileForests(n int, fn func([]*fileNode)) {
	if n == 0 {
		fn(nil)
		return
	}
	for k := 0; k < n; k++ {
		fileForests(k, func(kids []*fileNode) {
			fileForests(n-1-k, func(rest []*fileNode) {
				fn(append([]*fileNode{{dir: true, kids: kids}}, rest...))
				if k == 0 {
					fn(append([]*fileNode{{}}, rest...))
				}
			})
		})
	}
}

func fileWalkCase(t *T, forest []*fileNode, files []int, recursive bool, stop int, how string) {
	m := fstest.MapFS{}
	var top []string
	var under func(prefix string, l []*fileNode) [][]string
	under = func(prefix string, l []*fileNode) (res [][]string) {
		for i, n := range l {
			p := prefix + string(rune('a'+i))
			if prefix == "" {
				top = append(top, p)
			}
			if n.dir {
				m[p] = &fstest.MapFile{Mode: fs.ModeDir | 0755}
			} else {
				m[p] = &fstest.MapFile{Data: []byte(p)}
			}
			all := []string{p}
			for _, k := range under(p+"/", n.kids) {
				all = append(all, k...)
			}
			res = append(res, all)
		}
		return
	}
	lists := under("", forest)
	fset := &cli.FileSet{Recursive: recursive, FS: m}
	var want []string
	for _, i := range files {
		if i >= len(top) {
			fset.Files = append(fset.Files, "missing")
			if recursive {
				want = append(want, "missing!")
			} else {
				want = append(want, "missing")
			}
			continue
		}
		fset.Files = append(fset.Files, top[i])
		if recursive {
			want = append(want, lists[i]...)
		} else {
			want = append(want, top[i])
		}
	}
	total := len(want)
	if stop < total {
		want = want[:stop+1]
	}
	var got []string
	visit := func(f *cli.File, err error) bool {
		s := f.Name
		if err != nil {
			s += "!"
			if !errors.Is(err, fs.ErrNotExist) {
				t.Failf("%s: error %v", f.Name, err)
			}
		} else if d, ok := m[f.Name]; ok && !d.Mode.IsDir() {
			h, err := f.Open()
			if err != nil {
				t.Failf("open %s: %v", f.Name, err)
			} else {
				b, _ := io.ReadAll(h)
				t.Eq("content", string(b), f.Name)
			}
		}
		got = append(got, s)
		return len(got)-1 != stop
	}
	t.Step(1)
	switch how {
	case "do":
		injected := errors.New("injected")
		err := fset.Do(func(f *cli.File, err error) error {
			if !visit(f, err) {
				return injected
			}
			return nil
		})
		if stop < total {
			if err != injected {
				t.Failf("error %v", err)
			}
		} else if err != nil {
			t.Failf("error %v", err)
		}
	case "all":
		for f, err := range fset.All() {
			if !visit(f, err) {
				break
			}
		}
	}
	t.Eq("visited", q(got), q(want))
	exists := true
	for _, i := range files {
		exists = exists && i < len(top)
	}
	t.Eq("exists", fset.Exists(), exists)
	t.State(got)
}

// MustExist

type mustCase struct {
	value  string // string, strp, file, set, list
	where  string
	names  []string
	source string
	fs     string
}

func (c mustCase) String() string {
	return fmt.Sprintf("%s %s %q %s %s", c.value, c.where, c.names, c.source, c.fs)
}

func fileMust(t *T, m mustCase) {
	tmp, done := scratch()
	defer done()
	os.WriteFile(tmp+"/vfx", []byte("X"), 0600)
	os.Mkdir(tmp+"/vfd", 0755)
	inDir(tmp, func() {
		ran := false
		var val any
		switch m.value {
		case "string":
			val = new(string)
		case "file":
			val = new(cli.File)
		case "set":
			val = new(cli.FileSet)
		case "list":
			val = cli.List()
		}
		names := m.names
		if m.source == "initial" {
			switch v := val.(type) {
			case *string:
				*v = strings.Join(names, " ")
			case *cli.File:
				v.Name = strings.Join(names, " ")
			case *cli.FileSet:
				v.Files = clone(names)
			case *[]string:
				*v = clone(names)
			}
		}
		act := func() { ran = true }
		app := &cli.App{Name: "app"}
		switch m.fs {
		case "own":
			app.FS = cli.DirFS(tmp)
			os.Chdir("/")
		case "map":
			app.FS = fstest.MapFS{"vfx": {}, "vfd": {Mode: fs.ModeDir}}
			os.Chdir("/")
		}
		var line []string
		sub := &cli.Command{Name: "sub", Action: act}
		cmdLine := m.source == "line"
		flag := &cli.Flag{Name: "f", Value: val, Options: cli.MustExist}
		if m.source == "env" {
			flag.EnvVars = []string{"VERIF_FILE"}
			os.Setenv("VERIF_FILE", strings.Join(names, ","))
			defer os.Unsetenv("VERIF_FILE")
		}
		dashed := func() {
			if !cmdLine {
				return
			}
			for _, n := range names {
				line = append(line, "-f", n)
			}
		}
		arg := &cli.Arg{Name: "f", Value: val, Options: cli.MustExist, EnvVars: flag.EnvVars}
		switch m.where {
		case "flag":
			app.Flags = []*cli.Flag{flag}
			app.Action = act
			dashed()
		case "arg":
			app.Args = []*cli.Arg{arg}
			app.Action = act
			if cmdLine {
				line = append(line, names...)
			}
		case "subflag":
			sub.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			line = append(line, "sub")
			dashed()
		case "subarg":
			sub.Args = []*cli.Arg{arg}
			app.Commands = []*cli.Command{sub}
			line = append(line, "sub")
			if cmdLine {
				line = append(line, names...)
			}
		case "before":
			app.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			dashed()
			line = append(line, "sub")
		case "persistent":
			app.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			line = append(line, "sub")
			dashed()
		}
		r := runApp(app, line...)
		t.Step(1)
		want := slices.Contains(names, "vfmissing") || slices.Contains(names, "vfd/vfmissing")
		if want {
			if r.Error == nil {
				t.Failf("no error for a file that does not exist")
			} else if ran {
				t.Failf("the action ran")
			} else if !strings.Contains(r.Error.Error(), "vfmissing") {
				t.Failf("error %v", r.Error)
			}
		} else {
			if r.Error != nil {
				t.Failf("error %v", r.Error)
			}
			t.Eq("ran", ran, true)
		}
		t.State(errText(r.Error))
	})
}

// fileCancel opens a file with a context that ends after a number of operations
func fileCancel(t *T, reads, at int, write bool) {
	tmp, done := scratch()
	defer done()
	os.WriteFile(tmp+"/vfx", []byte("abcdef"), 0600)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	f := &cli.File{Name: "vfx", FS: cli.DirFS(tmp)}
	if at < 0 {
		cancel()
	}
	h, err := f.OpenContext(ctx)
	if err != nil {
		t.Failf("open: %v", err)
		return
	}
	defer h.Close()
	for i := 0; i < reads; i++ {
		if at == i {
			cancel()
		}
		b := make([]byte, 1)
		n, err := h.Read(b)
		t.Step(1)
		if i < at {
			if n != 1 || err != nil || b[0] != "abcdef"[i] {
				t.Failf("read %d: %d %v %q", i, n, err, b)
			}
		} else if !errors.Is(err, context.Canceled) || n != 0 {
			t.Failf("read %d after the end of the context: %d %v", i, n, err)
		}
	}
}

// fileChdir is the working directory option
func fileChdir(t *T, where, name string) {
	tmp, done := scratch()
	defer done()
	os.MkdirAll(tmp+"/vfd/vfe", 0755)
	inDir(tmp, func() {
		start, _ := os.Getwd()
		got := ""
		act := func() { got, _ = os.Getwd() }
		app := &cli.App{Name: "app", Action: act}
		flag := &cli.Flag{Name: "f", Value: new(string), Options: cli.WorkingDirectory}
		sub := &cli.Command{Name: "sub", Action: act}
		var line []string
		switch where {
		case "flag":
			app.Flags = []*cli.Flag{flag}
			line = []string{"-f", name}
		case "file":
			flag.Value = new(cli.File)
			app.Flags = []*cli.Flag{flag}
			line = []string{"-f", name}
		case "arg":
			app.Args = []*cli.Arg{{Name: "f", Value: new(string), Options: cli.WorkingDirectory}}
			line = []string{name}
		case "subflag":
			sub.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			line = []string{"sub", "-f", name}
		case "before":
			app.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			line = []string{"-f", name, "sub"}
		case "persistent":
			app.Flags = []*cli.Flag{flag}
			app.Commands = []*cli.Command{sub}
			line = []string{"sub", "-f", name}
		case "unused":
			app.Flags = []*cli.Flag{flag}
			flag.Value = func() *string { s := "vfd"; return &s }()
			name = ""
		}
		r := runApp(app, line...)
		t.Step(1)
		want := filepath.Join(start, name)
		if name == "vfmissing" {
			if r.Error == nil || got != "" {
				t.Failf("missing directory: error %v, ran in %q", r.Error, got)
			}
			return
		}
		if r.Error != nil {
			t.Failf("error %v", r.Error)
		}
		if got != want {
			t.Failf("ran in %q, want %q", got, want)
		}
	})
}

func init() {
	register(&Prop{
		ID: "C18",
		Bound: "every operation of FS and File on file systems that provide none, or any one, of the 12 extensions, also failing; 17 errors of examining a file; every sequence of up to 2 (thorough: 3) of 13 operations on 6 names in DirFS, directly and by Sub, against os; " +
			"the file - by every operation and open flag, buffers and files, in 7 places of an app for File and FileSet; every list text of up to 4 (5) lines of 9; every forest of up to 5 (6) nodes walked with every stopping point; " +
			"MustExist for every value type, place, source, and file system; contexts ending before every read",
		Assumptions: []string{"the process may write in its temporary directory; permissions are not checked as the check may run as root"},
		Run: func(x *X) {
			ops := fileOps()
			kinds := []string{"", "Stat", "Create", "Chmod", "Chown", "Chtimes", "Rename", "Remove", "RemoveAll", "Mkdir", "MkdirAll", "OpenFile", "OpenContext"}
			withRename := append(clone(ops), fileOp{"Rename", "Rename %s vfz", func(f cli.FS, n string) (any, error) { return fileErr(f.Rename(n, "vfz")) }, func(f *cli.File) (any, error) { return fileErr(f.Rename("vfz")) }, nil})
			for _, k := range kinds {
				for _, op := range withRename {
					for _, name := range []string{"vfa", "vfno", "vfd/x"} {
						for v := 0; v < 4; v++ {
							x.Case(func() string { return fmt.Sprintf("extension|%q %s %s %d", k, op.name, name, v) }, func(t *T) {
								fileDelegation(t, k, op, name, v&1 != 0, v&2 != 0)
							})
						}
					}
				}
			}
			for i := range fileErrors {
				for v := 0; v < 8; v++ {
					x.Case(func() string { return fmt.Sprintf("exists|%v %d", fileErrors[i], v) }, func(t *T) { fileExists(t, fileErrors[i], v&1 != 0, v&2 != 0, v&4 != 0) })
				}
			}
			var steps []fileStep
			for _, op := range ops {
				names := []string{"vfa", "vfd", "vfd/vfb", "./vfn/../vfa", "ABS/vfa", "vfn/vfm"}
				if op.name == "Open" || op.name == "Stat" {
					names = append(names, ".", "")
				}
				for _, n := range names {
					steps = append(steps, fileStep{op, n})
				}
			}
			steps = append(steps, fileStep{fileOp{name: "Rename", onFile: func(f *cli.File) (any, error) { return fileErr(f.Rename("vfd/vfz")) },
				onOS: func(n string) (any, error) {
					dir := n[:strings.Index(n, "/two")+4]
					return fileErr(os.Rename(n, dir+"/vfd/vfz"))
				}}, "vfa"})
			depth := 2
			if x.Thorough {
				depth = 3
			}
			words(steps, 1, depth, func(w []fileStep) {
				l := clone(w)
				for _, sub := range []bool{false, true} {
					if sub && len(w) > 1 {
						continue
					}
					x.Case(func() string {
						s := ""
						for _, e := range l {
							s += " " + e.op.name + ":" + e.name
						}
						return fmt.Sprintf("dir|%v%s", sub, s)
					}, func(t *T) { fileTwin(t, l, sub) })
				}
			})
			for _, file := range []bool{false, true} {
				for _, how := range []string{"stat", "open", "opencontext", "create"} {
					x.Case(func() string { return fmt.Sprintf("dash|%v %s", file, how) }, func(t *T) { fileDash(t, file, how, 0) })
				}
				for _, acc := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
					subsets([]int{os.O_APPEND, os.O_CREATE, os.O_TRUNC, os.O_EXCL, os.O_SYNC}, func(s []int) {
						f := acc
						for _, b := range s {
							f |= b
						}
						x.Case(func() string { return fmt.Sprintf("dash|%v openfile %x", file, f) }, func(t *T) { fileDash(t, file, "openfile", f) })
					})
				}
			}
			for _, where := range []string{"flag", "arg", "subflag", "subarg", "persistent", "env", "added"} {
				for v := 0; v < 8; v++ {
					mode := []string{"read", "write"}[v>>2]
					x.Case(func() string { return fmt.Sprintf("app|%s %d", where, v) }, func(t *T) { fileApp(t, where, v&1 != 0, v&2 != 0, mode) })
				}
			}
			n := 4
			if x.Thorough {
				n = 5
			}
			words([]string{"", "vfa", " vf b ", "# vfa", ";vfa", "  #x", "-", "vf#;", "\tvfc\r"}, 0, n, func(w []string) {
				l := clone(w)
				for v := 0; v < 3; v++ {
					x.Case(func() string { return fmt.Sprintf("text|%q %d", l, v) }, func(t *T) {
						var init []string
						if v == 2 {
							init = []string{"first"}
						}
						fileSetText(t, l, v&1 != 0, init)
					})
				}
			})
			for size := 0; size <= n+1; size++ {
				fileForests(size, func(f []*fileNode) {
					words([]int{0, 1, 9}, 0, 2, func(w []int) {
						files := clone(w)
						for v := 0; v < 4; v++ {
							for stop := 0; stop <= size+1; stop++ {
								x.Case(func() string { return fmt.Sprintf("walk|%s %v %d %d", fileForestText(f), files, v, stop) }, func(t *T) {
									fileWalkCase(t, f, files, v&1 != 0, stop, []string{"do", "all"}[v>>1])
								})
							}
						}
					})
				})
			}
			for _, value := range []string{"string", "file", "set", "list"} {
				for _, where := range []string{"flag", "arg", "subflag", "subarg", "before", "persistent"} {
					for _, source := range []string{"line", "env", "initial", "unset"} {
						for _, f := range []string{"", "own", "map"} {
							words([]string{"vfx", "vfd", "vfmissing", "-", "", "vfd/vfmissing"}, 0, 3, func(w []string) {
								m := mustCase{value, where, clone(w), source, f}
								single := value == "string" || value == "file"
								switch {
								case source == "unset" && len(w) > 0, source != "unset" && len(w) == 0:
									return
								case single && len(w) > 1, !single && where == "before":
									return
								case (source == "env" || !single) && slices.Contains(w, ""):
									return
								case slices.Contains(w, "-") && (f != "" || value == "list" || value == "string"):
									if f != "" {
										return // the name has no special meaning there
									}
								case value == "set" && source == "env" && len(w) > 1:
									return
								case where == "persistent" && source != "line":
									return
								}
								x.Case(func() string { return "must|" + m.String() }, func(t *T) { fileMust(t, m) })
							})
						}
					}
				}
			}
			for reads := 1; reads <= 4; reads++ {
				for at := -1; at <= reads; at++ {
					x.Case(func() string { return fmt.Sprintf("cancel|%d %d", reads, at) }, func(t *T) { fileCancel(t, reads, at, false) })
				}
			}
			for _, where := range []string{"flag", "file", "arg", "subflag", "before", "persistent", "unused"} {
				for _, name := range []string{"vfd", "vfd/vfe", ".", "vfmissing", ""} {
					x.Case(func() string { return fmt.Sprintf("chdir|%s %s", where, name) }, func(t *T) { fileChdir(t, where, name) })
				}
			}
		},
	})
}

func fileForestText(f []*fileNode) (s string) {
	for _, n := range f {
		if n.dir {
			s += "(" + fileForestText(n.kids) + ")"
		} else {
			s += "."
		}
	}
	return
}
