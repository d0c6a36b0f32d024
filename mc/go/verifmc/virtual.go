package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// testing/synctest only runs inside a test, so this makes the checker one.
type testDeps struct{}

var errDeps = errors.New("not a test binary")

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

func (testDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (testDeps) StartCPUProfile(w io.Writer) error           { return errDeps }
func (testDeps) StopCPUProfile()                             {}
func (testDeps) WriteProfileTo(string, io.Writer, int) error { return errDeps }
func (testDeps) ModulePath() string                          { return "" }
func (testDeps) ImportPath() string                          { return "" }
func (testDeps) StartTestLog(io.Writer)                      {}
func (testDeps) StopTestLog() error                          { return nil }
func (testDeps) SetPanicOnExit0(bool)                        {}
func (testDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return errDeps
}
func (testDeps) RunFuzzWorker(func(corpusEntry) error) error { return errDeps }
func (testDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) {
	return nil, errDeps
}
func (testDeps) CheckCorpus([]any, []reflect.Type) error { return nil }
func (testDeps) ResetCoverage()                          {}
func (testDeps) SnapshotCoverage()                       {}
func (testDeps) InitRuntimeCoverage() (mode string, tearDown func(string, string) (string, error), snapcov func() float64) {
	return
}

var testInit sync.Once

func initTesting() {
	args, stdout := os.Args, os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Args, os.Stdout, flag.CommandLine = os.Args[:1], null, flag.NewFlagSet("x", flag.ContinueOnError)
	testing.MainStart(testDeps{}, []testing.InternalTest{{Name: "init", F: func(*testing.T) {}}}, nil, nil, nil).Run()
	os.Args, os.Stdout = args, stdout
	null.Close() // the parsed flag.CommandLine stays
}

// virtual runs f in a bubble with virtual time: time only passes when every goroutine of the
// program waits, so the order of events is decided by the latencies alone.
func virtual(f func()) (problem string) {
	testInit.Do(initTesting)
	ran := false
	testing.RunTests(func(a, b string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "v", F: func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				problem = fmt.Sprint(r)
			}
		}()
		ran = true
		synctest.Test(t, func(t *testing.T) { f() })
	}}})
	if !ran {
		panic("virtual time is not available")
	}
	return
}
