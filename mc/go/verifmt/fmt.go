// Package verifmt is "fmt" with the functions that use standard output and input routed to
// the simulated process.
package verifmt

import (
	real_ "fmt"

	"github.com/danielleontiev/neojhat/internal/verifos"
)

func Print(a ...any) (int, error)                 { return real_.Fprint(verifos.Stdout, a...) }
func Println(a ...any) (int, error)               { return real_.Fprintln(verifos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return real_.Fprintf(verifos.Stdout, format, a...) }
