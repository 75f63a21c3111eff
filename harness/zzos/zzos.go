// Package zzos stands in for os in the command: the arguments come from the
// harness and leaving the process is reported to it.
package zzos

import "os"

// Exited is what Exit panics with.
type Exited struct{ Code int }

var Args = []string{"xgotext"}

var (
	Stdin  = os.Stdin
	Stdout = os.Stdout
	Stderr = os.Stderr
)

type (
	File     = os.File
	FileInfo = os.FileInfo
	FileMode = os.FileMode
	DirEntry = os.DirEntry
)

var (
	ErrNotExist = os.ErrNotExist
	ErrExist    = os.ErrExist
)

func Exit(code int) { panic(Exited{code}) }

func Getenv(k string) string                            { return os.Getenv(k) }
func Getwd() (string, error)                            { return os.Getwd() }
func Stat(n string) (os.FileInfo, error)                { return os.Stat(n) }
func Lstat(n string) (os.FileInfo, error)               { return os.Lstat(n) }
func MkdirAll(n string, m os.FileMode) error            { return os.MkdirAll(n, m) }
func Mkdir(n string, m os.FileMode) error               { return os.Mkdir(n, m) }
func IsNotExist(err error) bool                         { return os.IsNotExist(err) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, b []byte, m os.FileMode) error { return os.WriteFile(n, b, m) }
