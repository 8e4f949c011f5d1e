package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// runResult is what a user can see of one run of an app.
type runResult struct {
	Out, Err string
	Error    error
	Panic    any
}

// runApp runs the app on the given command line (without program name).
func runApp(app *cli.App, args ...string) (r runResult) {
	var out, errb bytes.Buffer
	app.Stdout = &out
	app.Stderr = &errb
	if app.Stdin == nil {
		app.Stdin = strings.NewReader("")
	}
	if app.Name == "" {
		app.Name = "app"
	}
	r.Error = app.RunContext(context.Background(), append([]string{"app"}, args...))
	r.Out, r.Err = out.String(), errb.String()
	return
}

// words enumerates all sequences over alphabet with length lo..hi, shortest
// first.
func words[A any](alphabet []A, lo, hi int, fn func([]A)) {
	for n := lo; n <= hi; n++ {
		buf := make([]A, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				fn(buf)
				return
			}
			for _, a := range alphabet {
				buf[i] = a
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// subsets enumerates all subsets of items.
func subsets[A any](items []A, fn func([]A)) {
	for m := 0; m < 1<<len(items); m++ {
		var s []A
		for i := range items {
			if m>>i&1 == 1 {
				s = append(s, items[i])
			}
		}
		fn(s)
	}
}

// perms enumerates all permutations of items.
func perms[A any](items []A, fn func([]A)) {
	var rec func(done, rest []A)
	rec = func(done, rest []A) {
		if len(rest) == 0 {
			fn(done)
			return
		}
		for i := range rest {
			r := append(append([]A{}, rest[:i]...), rest[i+1:]...)
			rec(append(append([]A{}, done...), rest[i]), r)
		}
	}
	rec(nil, items)
}

func clone[A any](a []A) []A { return append([]A(nil), a...) }

func q(args []string) string { return fmt.Sprintf("%q", args) }

func sortedKeys[V any](m map[string]V) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

var _ fs.FS

// actionFn is an action that does not need the library's context
type actionFn func() error

func (f actionFn) Execute(context.Context) error { return f() }
