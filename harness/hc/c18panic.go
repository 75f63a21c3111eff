package hc

import (
	"io/fs"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// The library calls its callers back through plural resolvers, translators and
// file systems; when such a call panics, no lock stays behind.

func caught(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func C18_Panic() {
	ops := append(catOps(), odd...)
	i := sym.Choose("op", len(ops))
	at := sym.Int("at")
	o := newObj(2, 2, "a")
	o.n = sym.Int("n")
	sym.Assume(sym.And(sym.And(o.n >= 0, o.n < 1<<32), sym.And(at >= 0, at < 1<<32)))
	o.do.SetPluralResolver(func(n int) int {
		if n == at {
			panic("resolver")
		}
		return 0
	})
	p := caught(func() { ops[i].run(o) })
	if p {
		sym.Reach("panicked")
	}
	o.probe()
	sym.Reach("done")
}

// badTr is a translator whose lookups panic.
type badTr struct{ *gotext.Po }

func (t badTr) Get(string, ...interface{}) string                        { panic("tr") }
func (t badTr) GetN(string, string, int, ...interface{}) string          { panic("tr") }
func (t badTr) GetC(string, string, ...interface{}) string               { panic("tr") }
func (t badTr) GetNC(string, string, int, string, ...interface{}) string { panic("tr") }
func (t badTr) GetDomain() *gotext.Domain                                { panic("tr") }
func (t badTr) MarshalBinary() ([]byte, error)                           { panic("tr") }

// badFS is a file system that fails badly.
type badFS struct{}

func (badFS) Open(string) (fs.File, error) { panic("fs") }

func C18_PanicLocale() {
	ops, _ := locOps()
	i := sym.Choose("op", len(ops))
	o := newLocale(putFiles(), "a", 2)
	if sym.Choose("fs", 2) == 1 {
		o.l = gotext.NewLocaleFS("aa", badFS{})
	}
	o.l.AddTranslator("d1", badTr{o.in})
	p := caught(func() { ops[i].run(o) })
	if p {
		sym.Reach("panicked")
	}
	o.in.Set("probe", "x")
	o.l.AddTranslator("probe", o.in)
	o.l.SetDomain("probe")
	sym.Assert(o.l.GetDomain() == "probe" && o.l.Get("probe") == "x", "the locale is usable afterwards")
	sym.Reach("done")
}

func C18_PanicPackage() {
	ops, _ := pkgOps()
	i := sym.Choose("op", len(ops))
	o := newPkg(putFiles(), 2)
	bad := gotext.NewLocaleFS("aa", badFS{})
	switch sym.Choose("how", 3) {
	case 0:
		bad.AddTranslator("d1", badTr{gotext.NewPo()})
		gotext.SetLocales([]*gotext.Locale{bad})
	case 1: // the domain is not loaded yet
		bad.SetDomain("d1")
		gotext.SetLocales([]*gotext.Locale{bad})
	case 2:
		bad.SetDomain("d1")
		gotext.SetLocales([]*gotext.Locale{o.l, bad})
	}
	p := caught(func() { ops[i].run(o) })
	if p {
		sym.Reach("panicked")
	}
	good := gotext.NewLocale("", "aa")
	good.AddTranslator("d9", newPo("g", "(n != 1)"))
	bad.AddTranslator("d9", newPo("g", "(n != 1)"))
	bad.SetDomain("d9")
	gotext.SetLocales([]*gotext.Locale{good})
	sym.Assert(gotext.GetDomain() == "d9" && gotext.Get("a") == "Ag", "the package is usable afterwards")
	sym.Reach("done")
}
