// Package veriflog is "log" with the standard logger routed to the simulated process.
package veriflog

import (
	"fmt"
	"io"
	real_ "log"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return verifos.Stderr.Write(b) }

var std = real_.New(stderr{}, "", real_.LstdFlags)

func Default() *real_.Logger       { return std }
func Print(v ...any)               { std.Output(2, fmt.Sprint(v...)) }
func Println(v ...any)             { std.Output(2, fmt.Sprintln(v...)) }
func Printf(f string, v ...any)    { std.Output(2, fmt.Sprintf(f, v...)) }
func Fatal(v ...any)               { std.Output(2, fmt.Sprint(v...)); verifos.Exit(1) }
func Fatalln(v ...any)             { std.Output(2, fmt.Sprintln(v...)); verifos.Exit(1) }
func Fatalf(f string, v ...any)    { std.Output(2, fmt.Sprintf(f, v...)); verifos.Exit(1) }
func Panic(v ...any)               { s := fmt.Sprint(v...); std.Output(2, s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); std.Output(2, s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); std.Output(2, s); panic(s) }
func Output(d int, s string) error { return std.Output(d+1, s) }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func Writer() io.Writer            { return std.Writer() }
func SetFlags(f int)               { std.SetFlags(f) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Flags() int                   { return std.Flags() }
func Prefix() string               { return std.Prefix() }
