//go:build go1.21

// Package ztesting stands for package testing when the test suite of the module
// is executed inside the simulator.
package ztesting

import (
	"fmt"
	"strings"
)

type failNow struct{}
type skipNow struct{}

// TB is the common part.
type TB interface {
	Error(...any)
	Errorf(string, ...any)
	Fatal(...any)
	Fatalf(string, ...any)
	Helper()
	Log(...any)
	Logf(string, ...any)
}

// T is a test in progress.
type T struct {
	name   string
	failed bool
	Out    []string
	clean  []func()
}

// B is a benchmark, never executed.
type B struct {
	T
	N int
}

func (b *B) ResetTimer()                     {}
func (b *B) ReportAllocs()                   {}
func (b *B) StopTimer()                      {}
func (b *B) StartTimer()                     {}
func (b *B) Run(n string, f func(b *B)) bool { return true }
func (t *T) Name() string                    { return t.name }
func (t *T) Helper()                         {}
func (t *T) Parallel()                       {}
func (t *T) Cleanup(f func())                { t.clean = append(t.clean, f) }
func (t *T) Log(a ...any)                    {}
func (t *T) Logf(f string, a ...any)         {}
func (t *T) Failed() bool                    { return t.failed }
func (t *T) Fail()                           { t.failed = true }
func (t *T) FailNow()                        { t.failed = true; panic(failNow{}) }
func (t *T) Error(a ...any) {
	t.failed = true
	t.Out = append(t.Out, strings.TrimSpace(fmt.Sprintln(a...)))
}
func (t *T) Errorf(f string, a ...any) { t.failed = true; t.Out = append(t.Out, fmt.Sprintf(f, a...)) }
func (t *T) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *T) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *T) Skip(a ...any)             { panic(skipNow{}) }
func (t *T) SkipNow()                  { panic(skipNow{}) }
func (t *T) Run(n string, f func(t *T)) bool {
	u := &T{name: t.name + "/" + n}
	u.Do(f)
	t.failed = t.failed || u.failed
	t.Out = append(t.Out, u.Out...)
	return !u.failed
}

// Do executes a test function.
func (t *T) Do(f func(t *T)) {
	defer func() {
		r := recover()
		switch r.(type) {
		case nil, failNow, skipNow:
		default:
			panic(r)
		}
		for i := len(t.clean) - 1; i >= 0; i-- {
			t.clean[i]()
		}
	}()
	f(t)
}

// Short is always false.
func Short() bool { return false }
