package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/format"
	"io"
	"io/fs"
	"maps"
	"path/filepath"
	"slices"
	"strings"
	tt "text/template"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/template"
)

// Generating files from templates: trees of generators on a file system that
// records, and in which any one operation can fail.

type memEntry struct {
	data []byte
	mode fs.FileMode
}

// memFS is strict: files are created within existing directories only.
type memFS struct {
	files  map[string]*memEntry
	dirs   map[string]bool
	log    []string // changes
	faultN int      // the change that fails, 0 none
	open   int      // files not closed
}

func newMemFS(files map[string]string, dirs ...string) *memFS {
	m := &memFS{files: map[string]*memEntry{}, dirs: map[string]bool{".": true, "/": true}}
	for k, v := range files {
		m.files[k] = &memEntry{[]byte(v), 0644}
		m.mkdirs(filepath.Dir(k))
	}
	for _, d := range dirs {
		m.mkdirs(d)
	}
	return m
}

func (m *memFS) mkdirs(d string) {
	for ; !m.dirs[d]; d = filepath.Dir(d) {
		m.dirs[d] = true
	}
}

var errMemFault = errors.New("injected")

func (m *memFS) change(f string, a ...any) error {
	m.log = append(m.log, fmt.Sprintf(f, a...))
	if len(m.log) == m.faultN {
		return errMemFault
	}
	return nil
}

func (m *memFS) dump() string {
	var b strings.Builder
	for _, d := range sortedKeys(m.dirs) {
		fmt.Fprintf(&b, "%s/ ", d)
	}
	for _, f := range sortedKeys(m.files) {
		fmt.Fprintf(&b, "%s=%q:%o ", f, m.files[f].data, m.files[f].mode)
	}
	return b.String()
}

// memBasic has no operation but the one that every file system has
type memBasic struct{ m *memFS }

func (b memBasic) Open(name string) (fs.File, error) { return b.m.Open(name) }

type memFile struct {
	m    *memFS
	name string
	r    *bytes.Reader
	w    bool
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f.m.Stat(f.name) }
func (f *memFile) Read(p []byte) (int, error) {
	if f.r == nil {
		return 0, fmt.Errorf("read %s: is a directory", f.name)
	}
	return f.r.Read(p)
}
func (f *memFile) Write(p []byte) (int, error) {
	if err := f.m.change("write %s", f.name); err != nil {
		return 0, err
	}
	e := f.m.files[f.name]
	e.data = append(e.data, p...)
	return len(p), nil
}
func (f *memFile) Close() error {
	f.m.open--
	if f.w {
		return f.m.change("close %s", f.name)
	}
	return nil
}

type memInfo struct {
	name string
	e    *memEntry
}

func (i memInfo) Name() string { return filepath.Base(i.name) }
func (i memInfo) Size() int64  { return 0 }
func (i memInfo) Mode() fs.FileMode {
	if i.e == nil {
		return fs.ModeDir | 0755
	}
	return i.e.mode
}
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return i.e == nil }
func (i memInfo) Sys() any           { return nil }

func memNotExist(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
}

func (m *memFS) Open(name string) (fs.File, error) {
	if e, ok := m.files[name]; ok {
		m.open++
		return &memFile{m, name, bytes.NewReader(slices.Clone(e.data)), false}, nil
	}
	if m.dirs[name] {
		m.open++
		return &memFile{m, name, nil, false}, nil
	}
	return nil, memNotExist("open", name)
}
func (m *memFS) OpenContext(_ context.Context, name string) (fs.File, error) { return m.Open(name) }
func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	if e, ok := m.files[name]; ok {
		return memInfo{name, e}, nil
	}
	if m.dirs[name] {
		return memInfo{name, nil}, nil
	}
	return nil, memNotExist("stat", name)
}
func (m *memFS) Create(name string) (fs.File, error) {
	if err := m.change("create %s", name); err != nil {
		return nil, err
	}
	if m.dirs[name] {
		return nil, fmt.Errorf("create %s: is a directory", name)
	}
	if !m.dirs[filepath.Dir(name)] {
		return nil, memNotExist("create", name)
	}
	if e, ok := m.files[name]; ok {
		e.data = nil
	} else {
		m.files[name] = &memEntry{nil, 0644}
	}
	m.open++
	return &memFile{m, name, bytes.NewReader(nil), true}, nil
}
func (m *memFS) MkdirAll(path string, _ fs.FileMode) error {
	if err := m.change("mkdirall %s", path); err != nil {
		return err
	}
	m.mkdirs(path)
	return nil
}
func (m *memFS) Chmod(name string, mode fs.FileMode) error {
	if err := m.change("chmod %s %o", name, mode); err != nil {
		return err
	}
	if e, ok := m.files[name]; ok {
		e.mode = mode
		return nil
	}
	if m.dirs[name] {
		return nil
	}
	return memNotExist("chmod", name)
}
func (m *memFS) Chtimes(name string, _, _ time.Time) error {
	if err := m.change("chtimes %s", name); err != nil {
		return err
	}
	if _, ok := m.files[name]; ok || m.dirs[name] {
		return nil
	}
	return memNotExist("chtimes", name)
}
func (m *memFS) Chown(name string, uid, gid int) error {
	return m.change("chown %s %d %d", name, uid, gid)
}
func (m *memFS) Mkdir(name string, p fs.FileMode) error { return m.change("mkdir %s %o", name, p) }
func (m *memFS) OpenFile(name string, flag int, p fs.FileMode) (fs.File, error) {
	return nil, m.change("openfile %s %d %o", name, flag, p)
}
func (m *memFS) Remove(name string) error    { return m.change("remove %s", name) }
func (m *memFS) RemoveAll(name string) error { return m.change("removeall %s", name) }
func (m *memFS) Rename(a, b string) error    { return m.change("rename %s %s", a, b) }

// a node of the tree of generators
type tplNode struct {
	kind string // file, dir, data, vars, nil, seq, root, fail
	name string
	val  string
	ops  []string
	kids []tplNode
}

func (n tplNode) String() string {
	s := n.kind
	if n.name != "" {
		s += " " + n.name
	}
	if n.val != "" {
		s += "=" + n.val
	}
	if n.ops != nil {
		s += fmt.Sprint(n.ops)
	}
	if n.kids != nil {
		s += fmt.Sprint(n.kids)
	}
	return s
}

var errTplFail = errors.New("generator fails")

var tplOps = map[string]func() template.FileGenerator{
	"hello": func() template.FileGenerator { return template.Contents("hello") },
	"bytes": func() template.FileGenerator { return template.Contents([]byte("by\x00")) },
	"reader": func() template.FileGenerator {
		return template.Contents(io.MultiReader(strings.NewReader("re"), strings.NewReader("ader")))
	},
	"json":  func() template.FileGenerator { return template.Contents(map[string]any{"k": []int{1}}) },
	"empty": func() template.FileGenerator { return template.Contents("") },
	"go":    func() template.FileGenerator { return template.Contents("package  m\n") },
	"tpl": func() template.FileGenerator {
		return template.Template(tt.Must(tt.New("").Parse("v is {{.v}}")))
	},
	"data": func() template.FileGenerator {
		return template.Template(tt.Must(tt.New("").Parse("{{.v}} {{.y}} {{.z}}")), "y", 1, "z", "two")
	},
	"badtpl": func() template.FileGenerator {
		return template.Template(tt.Must(tt.New("").Parse("some {{.v.no}}")))
	},
	"touch":  template.Touch,
	"gofmt":  template.Gofmt,
	"mode":   func() template.FileGenerator { return template.Mode(0640) },
	"exec":   func() template.FileGenerator { return template.Executable },
	"ro":     func() template.FileGenerator { return template.ReadOnly },
	"func":   func() template.FileGenerator { return template.FileGeneratorFunc(nil) },
	"failop": func() template.FileGenerator { return tplFailOp },
}

var tplFailOp = template.FileGeneratorFunc(func(context.Context, *template.OutputContext, string) error { return errTplFail })

type tplFail struct{}

func (tplFail) Generate(context.Context, *template.OutputContext) error { return errTplFail }

func (n tplNode) build() template.Generator {
	var kids []template.Generator
	for _, k := range n.kids {
		kids = append(kids, k.build())
	}
	switch n.kind {
	case "file":
		var ops []template.FileGenerator
		for _, o := range n.ops {
			ops = append(ops, tplOps[o]())
		}
		return template.File(n.name, ops...)
	case "dir":
		return template.Dir(n.name, kids...)
	case "data":
		return template.Data(n.name, n.val)
	case "vars":
		return template.Vars{n.name: n.val, "u": "U"}
	case "seq":
		return template.Sequence(kids)
	case "root":
		return template.New(kids...)
	case "fail":
		return tplFail{}
	}
	return nil
}

// model

type tplModel struct {
	files map[string]*memEntry
	vars  map[string]string
	lines []string
	dirs  []string // directories of files that were generated
	touch []string // files given a new time
	dry   bool
}

func (m *tplModel) expand(s string) string {
	for _, v := range []string{"v", "w", "u"} {
		val, ok := m.vars[v]
		if !ok {
			val = "<no value>"
		}
		s = strings.ReplaceAll(s, "{{."+v+"}}", val)
	}
	return s
}

func (m *tplModel) run(dir string, n tplNode) error {
	switch n.kind {
	case "data":
		m.vars[n.name] = n.val
	case "vars":
		m.vars[n.name] = n.val
		m.vars["u"] = "U"
	case "seq", "root", "dir":
		if n.kind == "dir" {
			dir = filepath.Join(dir, n.name)
		}
		for _, k := range n.kids {
			if err := m.run(dir, k); err != nil {
				return err
			}
		}
	case "fail":
		return errTplFail
	case "file":
		name := m.expand(n.name)
		if !strings.HasPrefix(name, "/") {
			name = filepath.Join(dir, name)
		}
		if len(n.ops) > 0 {
			m.dirs = append(m.dirs, filepath.Dir(name))
		}
		var before []byte
		e, existed := m.files[name]
		if existed {
			before = e.data
		}
		put := func(s string) {
			if e == nil {
				e = &memEntry{nil, 0644}
				m.files[name] = e
			}
			e.data = []byte(s)
		}
		for _, o := range n.ops {
			v := m.vars["v"]
			if v == "" {
				v = "<no value>"
			}
			switch o {
			case "hello":
				put("hello")
			case "bytes":
				put("by\x00")
			case "reader":
				put("reader")
			case "json":
				put("{\n    \"k\": [\n        1\n    ]\n}")
			case "empty":
				put("")
			case "go":
				put("package  m\n")
			case "tpl":
				put("v is " + v)
			case "data":
				put(v + " 1 two")
			case "badtpl":
				if m.vars["v"] != "" {
					return errors.New("template")
				}
				put("some <no value>")
			case "touch":
				if e == nil {
					put("")
				} else {
					m.touch = append(m.touch, name)
				}
			case "gofmt":
				if e == nil {
					return fs.ErrNotExist
				}
				r, err := format.Source(e.data)
				if err != nil {
					return errors.New("syntax")
				}
				put(string(r))
			case "mode", "exec", "ro":
				if e == nil {
					return fs.ErrNotExist
				}
				e.mode = map[string]fs.FileMode{"mode": 0640, "exec": 0755, "ro": 0600}[o]
			case "failop":
				return errTplFail
			}
		}
		status := "   overwrite"
		var after []byte
		if e != nil {
			after = e.data
		}
		if bytes.Equal(before, after) {
			status = "   identical"
		}
		if !existed && len(n.ops) > 0 {
			status = "      create"
		}
		l := status + "  " + name
		if m.dry {
			l += " (dry-run)"
		}
		m.lines = append(m.lines, l)
	}
	return nil
}

type tplConfig struct {
	initial int
	wd      string
	dry     int // 0 no, 1 by field, 2 by flag
}

func (c tplConfig) fs() *memFS {
	switch c.initial {
	case 1:
		return newMemFS(map[string]string{"a": "hello", "d/b": "v is 1", "p/a": "package m\n"})
	case 2:
		return newMemFS(map[string]string{"a": "x{", "p/q/a": "", "wd/a": "hello", "/abs/1": "v is 1"}, "d", "p/d")
	}
	return newMemFS(nil)
}

func (c tplConfig) execute(t *T, m *memFS, nodes []tplNode) runResult {
	var gens []template.Generator
	for _, n := range nodes {
		gens = append(gens, n.build())
	}
	root := template.New(gens...)
	root.WorkingDirectory = c.wd
	root.DryRun = c.dry == 1
	app := &cli.App{FS: m, Uses: root}
	if c.dry != 2 {
		app = &cli.App{FS: m, Action: root}
	}
	if c.dry == 1 {
		app.FS = memBasic{m}
	}
	var args []string
	if c.dry == 2 {
		args = []string{"--dry-run"}
	}
	return runApp(app, args...)
}

func (c tplConfig) run(t *T, nodes []tplNode, faults bool) {
	m := c.fs()
	mod := &tplModel{files: map[string]*memEntry{}, vars: map[string]string{}, dry: c.dry > 0}
	for k, v := range m.files {
		mod.files[k] = &memEntry{v.data, v.mode}
	}
	before := m.dump()
	wd := c.wd
	if wd == "" {
		wd = "."
	}
	var want error
	for _, n := range nodes {
		if want = mod.run(wd, n); want != nil {
			break
		}
	}
	r := c.execute(t, m, nodes)
	t.Eq("error", r.Error != nil, want != nil)
	if errors.Is(want, fs.ErrNotExist) {
		t.Eq("file does not exist", errors.Is(r.Error, fs.ErrNotExist), true)
	}
	if want == errTplFail {
		t.Eq("the error of the generator", r.Error, errTplFail)
	}
	t.Eq("files not closed", m.open, 0)
	t.Eq("report", r.Out, strings.Join(append(mod.lines, ""), "\n"))
	t.State(r.Out)
	if c.dry > 0 {
		t.Eq("changes in a dry run", len(m.log), 0)
		t.Eq("files after a dry run", m.dump(), before)
		return
	}
	exp := c.fs()
	exp.files = mod.files
	for _, d := range mod.dirs {
		exp.mkdirs(d)
	}
	t.Eq("files", m.dump(), exp.dump())
	var touched []string
	for _, l := range m.log {
		if s, ok := strings.CutPrefix(l, "chtimes "); ok {
			touched = append(touched, s)
		}
	}
	t.Eq("touched", fmt.Sprint(touched), fmt.Sprint(mod.touch))
	if !faults {
		return
	}
	for i := 1; i <= len(m.log); i++ {
		t.Step(1)
		f := c.fs()
		f.faultN = i
		fr := c.execute(t, f, nodes)
		if fr.Error != errMemFault {
			t.Failf("change %d (%s) failed, but the error is %v", i, m.log[i-1], fr.Error)
		}
		rest := f.log[i:]
		for _, l := range rest {
			if !strings.HasPrefix(l, "close ") {
				t.Failf("change after change %d (%s) failed: %s", i, m.log[i-1], l)
			}
		}
		t.Eq("files not closed after a fault", f.open, 0)
		if !strings.HasPrefix(r.Out, fr.Out) {
			t.Failf("report after change %d failed: %q", i, fr.Out)
		}
		done := 0
		for _, l := range strings.Split(fr.Out, "\n") {
			if l != "" {
				done++
			}
		}
		// the file that failed is not reported
		if done >= len(mod.lines) && want == nil {
			t.Failf("all files are reported although change %d (%s) failed", i, m.log[i-1])
		}
	}
}

// methods of the context, used by generators of users
type tplUser struct {
	fn func(c *template.OutputContext)
}

func (u tplUser) Generate(_ context.Context, c *template.OutputContext) error { u.fn(c); return nil }

func tplContext(t *T, dirs []string, name, wd string) {
	join := func(n string) string {
		n = strings.ReplaceAll(n, "{{.v}}", "1")
		if strings.HasPrefix(n, "/") {
			return n
		}
		p := wd
		for _, d := range dirs {
			p = filepath.Join(p, d)
		}
		return filepath.Join(p, n)
	}
	path := join(name)
	now := time.Now()
	type call struct {
		what string
		fn   func(c *template.OutputContext) error
		want string
	}
	calls := []call{
		{"chmod", func(c *template.OutputContext) error { return c.Chmod(name, 0611) }, fmt.Sprintf("chmod %s 611", path)},
		{"chown", func(c *template.OutputContext) error { return c.Chown(name, 3, 4) }, fmt.Sprintf("chown %s 3 4", path)},
		{"create", func(c *template.OutputContext) error { _, err := c.Create(name); return err }, "create " + path},
		{"mkdir", func(c *template.OutputContext) error { return c.Mkdir(name, 0700) }, fmt.Sprintf("mkdir %s 700", path)},
		{"mkdirall", func(c *template.OutputContext) error { return c.MkdirAll(name, 0700) }, "mkdirall " + path},
		{"openfile", func(c *template.OutputContext) error { _, err := c.OpenFile(name, 5, 0600); return err }, fmt.Sprintf("openfile %s 5 600", path)},
		{"remove", func(c *template.OutputContext) error { return c.Remove(name) }, "remove " + path},
		{"removeall", func(c *template.OutputContext) error { return c.RemoveAll(name) }, "removeall " + path},
		{"chtimes", func(c *template.OutputContext) error { return c.Chtimes(name, now, now) }, "chtimes " + path},
		{"rename", func(c *template.OutputContext) error { return c.Rename(name, "to/{{.v}}") }, fmt.Sprintf("rename %s %s", path, join("to/1"))},
	}
	for _, exists := range []bool{false, true} {
		for _, cl := range calls {
			m := newMemFS(nil)
			if exists {
				m = newMemFS(map[string]string{path: "here"})
			}
			var err error
			var file, wdir string
			var present, after bool
			var content []byte
			u := template.Generator(tplUser{func(c *template.OutputContext) {
				file, wdir, present = c.File(name), c.WorkDir(), c.Exists(name)
				if f, err := c.Open(name); err == nil {
					content, _ = io.ReadAll(f)
				}
				err = cl.fn(c)
				after = c.Exists(name)
			}})
			for i := len(dirs) - 1; i >= 0; i-- {
				u = template.Dir(dirs[i], u)
			}
			root := template.New(template.Data("v", 1), u)
			if wd != "." {
				root.WorkingDirectory = wd
			}
			r := runApp(&cli.App{FS: m, Action: root})
			if r.Error != nil {
				t.Fatalf("error %v", r.Error)
			}
			t.Eq("File", file, path)
			w := wd
			for _, d := range dirs {
				w = filepath.Join(w, d)
			}
			t.Eq("WorkDir", wdir, filepath.Clean(w))
			t.Eq("Exists", present, exists)
			if exists {
				t.Eq("contents", string(content), "here")
			}
			var log []string
			for _, l := range m.log {
				if !strings.HasPrefix(l, "mkdirall ") || cl.what == "mkdirall" {
					log = append(log, l)
				}
			}
			t.Eq(cl.what, fmt.Sprint(log), fmt.Sprint([]string{cl.want}))
			if cl.what == "create" {
				t.Eq("error of create", err, nil)
				t.Eq("exists after create", after, true)
			}
			t.State(cl.what + file)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C22",
		Bound: "one file of 5 names with all lists of up to 2 (3 when thorough) of 16 generators in 5 places (top, directories, working directory) on 3 initial file systems, real and as dry run; all sequences of up to 3 (4) of 14 generators with nested directories and sequences; contents of 16 lengths up to 64 KB (thorough: 1 MB) changed in one of up to 7 places; one run more per change of the file system with that change failing; " +
			"the file system operations of the context for 5 names in 4 directories; all sequences of up to 5 (6) of 9 ways to go to directories and back",
		Assumptions: []string{"the file system is an in-memory one that requires directories to exist", "the contents of a file which failed is not compared with a model"},
		Run: func(x *X) {
			ops := slices.Sorted(maps.Keys(tplOps))
			depth := 2
			if x.Thorough {
				depth = 3
			}
			names := []string{"a", "d/b", "{{.v}}", "d/{{.w}}/b", "/abs/{{.v}}"}
			for dry := range 3 {
				for initial := range 3 {
					for place := range 5 {
						c := tplConfig{initial: initial, dry: dry}
						if place == 4 {
							c.wd = "wd"
						}
						for _, name := range names {
							words(ops, 0, depth, func(o []string) {
								if x.Stop() || dry == 2 && len(o) > 1 {
									return
								}
								n := tplNode{kind: "file", name: name, ops: clone(o)}
								switch place {
								case 1:
									n = tplNode{kind: "dir", name: "p", kids: []tplNode{n}}
								case 2:
									n = tplNode{kind: "dir", name: "p", kids: []tplNode{{kind: "dir", name: "q", kids: []tplNode{n}}}}
								case 3:
									n = tplNode{kind: "root", kids: []tplNode{{kind: "dir", name: "d/e", kids: []tplNode{n}}}}
								}
								x.Case(func() string { return fmt.Sprintf("file|%+v %v", c, n) }, func(t *T) {
									c.run(t, []tplNode{{kind: "data", name: "v", val: "1"}, n}, len(o) < 3)
								})
							})
						}
					}
				}
			}
			f := func(name string, ops ...string) tplNode { return tplNode{kind: "file", name: name, ops: ops} }
			items := []tplNode{
				f("a", "hello"), f("a", "go", "gofmt"), f("{{.v}}", "tpl"), f("{{.u}}{{.v}}", "data", "exec"), f("a", "gofmt"), f("p/a", "touch"), f("/abs/1", "hello"),
				{kind: "data", name: "v", val: "1"}, {kind: "vars", name: "v", val: "2"}, {kind: "nil"}, {kind: "fail"},
				{kind: "dir", name: "p", kids: []tplNode{f("a", "hello"), {kind: "data", name: "v", val: "3"}, f("{{.v}}", "tpl")}},
				{kind: "dir", name: "p", kids: []tplNode{{kind: "seq", kids: []tplNode{f("a", "touch"), {kind: "nil"}}}, {kind: "dir", name: "q", kids: []tplNode{f("a")}}, f("b", "tpl", "mode")}},
				{kind: "root", kids: []tplNode{f("d/b", "tpl"), {kind: "fail"}, f("c", "hello")}},
			}
			for dry := range 2 {
				for initial := range 3 {
					c := tplConfig{initial: initial, dry: dry}
					words(items, 0, depth+1, func(w []tplNode) {
						if x.Stop() {
							return
						}
						l := clone(w)
						x.Case(func() string { return fmt.Sprintf("sequence|%+v %v", c, l) }, func(t *T) { c.run(t, l, true) })
					})
				}
			}
			for _, wd := range []string{".", "wd", "/w/x"} {
				for _, dirs := range [][]string{nil, {"p"}, {"p", "q"}, {"p/q", "..", "r"}} {
					for _, name := range []string{"a", "d/{{.v}}", "{{.v}}", "/abs/{{.v}}/a", "../a"} {
						x.Case(func() string { return fmt.Sprintf("context|%s %q %s", wd, dirs, name) }, func(t *T) { tplContext(t, dirs, name, wd) })
					}
				}
			}
			wds := 5
			if x.Thorough {
				wds = 6
			}
			words(tplMoves, 0, wds, func(w []string) {
				if x.Stop() {
					return
				}
				l := clone(w)
				x.Case(func() string { return fmt.Sprintf("workdir|%q", l) }, func(t *T) { tplWorkdir(t, l) })
			})
			// contents of many lengths, changed at one place
			sizes := []int{0, 1, 2, 63, 64, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65537}
			if x.Thorough {
				sizes = append(sizes, 131072, 1048577)
			}
			for _, size := range sizes {
				for _, at := range []int{0, 1, size / 2, size - 513, size - 2, size - 1, size} {
					for _, edit := range []string{"none", "replace", "insert", "delete", "cut"} {
						for dry := range 2 {
							if at < 0 || at > size || at == size && edit != "insert" && edit != "none" {
								continue
							}
							x.Case(func() string { return fmt.Sprintf("edit|%d %s at %d dry=%d", size, edit, at, dry) }, func(t *T) { tplEdit(t, size, at, edit, dry) })
						}
					}
				}
			}
		},
	})
}

// tplEdit generates a file whose contents differ from the present ones in one
// place.
func tplEdit(t *T, size, at int, edit string, dry int) {
	old := strings.Repeat("0123456789abcde\n", size/16+1)[:size]
	text := old
	switch edit {
	case "replace":
		text = old[:at] + "X" + old[at+1:]
	case "insert":
		text = old[:at] + "X" + old[at:]
	case "delete":
		text = old[:at] + old[at+1:]
	case "cut":
		text = old[:at]
	}
	m := newMemFS(map[string]string{"f": old})
	r := (&cli.App{FS: m, Action: &template.Root{DryRun: dry == 1, Sequence: template.Sequence{template.File("f", template.Contents(text))}}})
	res := runApp(r)
	t.Eq("error", errText(res.Error), "")
	status := "   overwrite"
	if text == old {
		status = "   identical"
	}
	want := status + "  f"
	after := text
	if dry == 1 {
		want += " (dry-run)"
		after = old
	}
	t.Eq("report", res.Out, want+"\n")
	if got := string(m.files["f"].data); got != after {
		t.Failf("the file has %d bytes, not the %d that were expected", len(got), len(after))
	}
	t.State(status, dry)
}

var tplMoves = []string{"push p", "push q/r", "push ..", "pop", "dir", "nil", "nested", "fail", "failnested"}

// tplWorkdir goes to directories and back
func tplWorkdir(t *T, moves []string) {
	m := newMemFS(nil)
	var files []string
	r := runApp(&cli.App{FS: m, Action: template.New(tplUser{func(c *template.OutputContext) {
		stack := []string{"."}
		at := func(extra string) string { return filepath.Join(append(clone(stack), extra)...) }
		var seen []string
		see := tplUser{func(c *template.OutputContext) { seen = append(seen, c.WorkDir()) }}
		bad := template.File("bad", template.FileGeneratorFunc(func(context.Context, *template.OutputContext, string) error { return errTplFail }))
		for i, mv := range moves {
			seen = nil
			var err, want error
			var inside []string
			switch mv {
			case "pop":
				err = c.PopDir()
				if len(stack) == 1 {
					t.Eq("there is a directory to pop", err != nil, true)
					err = nil
				} else {
					stack = stack[:len(stack)-1]
				}
			case "dir":
				err = c.Do(context.Background(), template.Dir("d", see), see)
				inside = []string{at("d"), at("")}
			case "nil":
				err = c.Do(context.Background(), nil, template.Dir("d", nil, see, nil), template.Sequence{nil, see})
				inside = []string{at("d"), at("")}
			case "nested":
				err = c.Do(context.Background(), template.Dir("d", see, template.Dir("e", see), see))
				inside = []string{at("d"), at("d/e"), at("d")}
			case "fail":
				err, want = c.Do(context.Background(), template.Dir("d", see, bad, see), see), errTplFail
				inside = []string{at("d")}
			case "failnested":
				err, want = c.Do(context.Background(), template.Dir("d", template.Dir("e", see, bad), see), see), errTplFail
				inside = []string{at("d/e")}
			default:
				_, dir, _ := strings.Cut(mv, " ")
				err = c.PushDir(dir)
				stack = append(stack, dir)
			}
			t.Eq(fmt.Sprintf("error of %d", i), err, want)
			t.Eq(fmt.Sprintf("directories within %d", i), fmt.Sprint(seen), fmt.Sprint(inside))
			t.Eq(fmt.Sprintf("directory after %d", i), c.WorkDir(), at(""))
			name := fmt.Sprintf("f%d", i)
			t.Eq("file", c.Do(context.Background(), template.File(name, template.Contents("x"))), nil)
			files = append(files, at(name))
		}
	}})})
	t.Eq("run", r.Error, nil)
	for _, f := range files {
		if e := m.files[f]; e == nil {
			t.Failf("no file %s", f)
		}
	}
	t.State(fmt.Sprint(files))
}
