// Package zzlog stands in for log in the command: nothing is printed and the
// fatal functions leave through zzos.
package zzlog

import (
	"io"

	"github.com/leonelquinteros/gotext/zzverif/zzos"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{} }
func Default() *Logger                                 { return &Logger{} }

func (*Logger) Fatal(v ...interface{})            { Fatal(v...) }
func (*Logger) Fatalf(f string, v ...interface{}) { Fatalf(f, v...) }
func (*Logger) Fatalln(v ...interface{})          { Fatalln(v...) }
func (*Logger) Print(v ...interface{})            {}
func (*Logger) Printf(f string, v ...interface{}) {}
func (*Logger) Println(v ...interface{})          {}
func (*Logger) SetFlags(int)                      {}
func (*Logger) SetPrefix(string)                  {}
func (*Logger) SetOutput(io.Writer)               {}

func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func SetOutput(io.Writer)               {}
func Print(v ...interface{})            {}
func Printf(f string, v ...interface{}) {}
func Println(v ...interface{})          {}
func Fatal(v ...interface{})            { zzos.Exit(1) }
func Fatalf(f string, v ...interface{}) { zzos.Exit(1) }
func Fatalln(v ...interface{})          { zzos.Exit(1) }
func Panic(v ...interface{})            { panic("log.Panic") }
func Panicf(f string, v ...interface{}) { panic("log.Panic") }
func Panicln(v ...interface{})          { panic("log.Panic") }
