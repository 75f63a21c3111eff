// Package zzflag stands in for flag in the command: it is the real flag package
// with a set of flags that can be parsed again in every run.
package zzflag

import (
	"flag"
	"io"
	"time"

	"github.com/leonelquinteros/gotext/zzverif/zzos"
)

type (
	FlagSet       = flag.FlagSet
	Flag          = flag.Flag
	Value         = flag.Value
	ErrorHandling = flag.ErrorHandling
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var ErrHelp = flag.ErrHelp

var CommandLine = newSet()

// Usage is called when the flags are wrong.
var Usage = func() {}

func newSet() *flag.FlagSet {
	fs := flag.NewFlagSet("xgotext", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Usage = func() {}
	return fs
}

// Reset gives the flags defined so far their defaults again.
func Reset() {
	fs := newSet()
	CommandLine.VisitAll(func(f *flag.Flag) {
		f.Value.Set(f.DefValue)
		fs.Var(f.Value, f.Name, f.Usage)
	})
	CommandLine = fs
}

func Parse() {
	switch err := CommandLine.Parse(zzos.Args[1:]); err {
	case nil:
	case flag.ErrHelp:
		zzos.Exit(0)
	default:
		zzos.Exit(2)
	}
}

func NewFlagSet(name string, e flag.ErrorHandling) *flag.FlagSet {
	return flag.NewFlagSet(name, flag.ContinueOnError)
}

func Args() []string                              { return CommandLine.Args() }
func Arg(i int) string                            { return CommandLine.Arg(i) }
func NArg() int                                   { return CommandLine.NArg() }
func NFlag() int                                  { return CommandLine.NFlag() }
func Parsed() bool                                { return CommandLine.Parsed() }
func PrintDefaults()                              {}
func Lookup(n string) *flag.Flag                  { return CommandLine.Lookup(n) }
func Set(n, v string) error                       { return CommandLine.Set(n, v) }
func Visit(f func(*flag.Flag))                    { CommandLine.Visit(f) }
func VisitAll(f func(*flag.Flag))                 { CommandLine.VisitAll(f) }
func Var(v flag.Value, n, u string)               { CommandLine.Var(v, n, u) }
func String(n, d, u string) *string               { return CommandLine.String(n, d, u) }
func StringVar(p *string, n, d, u string)         { CommandLine.StringVar(p, n, d, u) }
func Bool(n string, d bool, u string) *bool       { return CommandLine.Bool(n, d, u) }
func BoolVar(p *bool, n string, d bool, u string) { CommandLine.BoolVar(p, n, d, u) }
func Int(n string, d int, u string) *int          { return CommandLine.Int(n, d, u) }
func IntVar(p *int, n string, d int, u string)    { CommandLine.IntVar(p, n, d, u) }
func Duration(n string, d time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, d, u)
}
func Func(n, u string, f func(string) error)     { CommandLine.Func(n, u, f) }
func BoolFunc(n, u string, f func(string) error) { CommandLine.BoolFunc(n, u, f) }
