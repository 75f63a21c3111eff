// Package hm holds the harness of the xgotext command.
package hm

import (
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/hx"
	"github.com/leonelquinteros/gotext/zzverif/sym"
	"github.com/leonelquinteros/gotext/zzverif/zzflag"
	"github.com/leonelquinteros/gotext/zzverif/zzmain"
	"github.com/leonelquinteros/gotext/zzverif/zzos"
)

// command runs the command and gives its exit status.
func command(args []string) (code int) {
	zzos.Args = append([]string{"xgotext"}, args...)
	zzmain.ZZInit = true
	zzflag.Reset()
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(zzos.Exited)
			if !ok {
				panic(e)
			}
			code = x.Code
		}
	}()
	zzmain.Main()
	return 0
}

// flag writes a flag in one of the usual ways.
func flag(args []string, style int, name, value string) []string {
	switch style {
	case 0:
		return append(args, "-"+name, value)
	case 1:
		return append(args, "-"+name+"="+value)
	default:
		return append(args, "--"+name, value)
	}
}

const header = "import \"github.com/leonelquinteros/gotext\"\n"

var dirs = []string{"p", "p/a", "ab", "a", "a/b", ".git", ".github"}

var runs int

// project lays out a tree of packages that each call gotext twice; p imports p/a and a/b.
func project(root string) {
	runs++
	base := "example.org/m" + string(rune('a'+runs%26)) + strings.Repeat("z", runs/26) + "/"
	var pkgs [][3]string
	for _, d := range dirs {
		sym.VfsMkdir(root + "/" + d)
		imp := header
		if d == "p" {
			imp += "import _ \"" + base + "p/a\"\n"
		}
		if d == "p/a" {
			imp += "import _ \"" + base + "a/b\"\n"
		}
		pkgs = append(pkgs, [3]string{base + d, d, "package x\n" + imp + "func F() {\ngotext.Get(\"in " + d + "\")\ngotext.GetD(\"dom\", \"dom " + d + "\")\n}\n"})
	}
	hx.Prepare(root, pkgs...)
}

// holds checks that a template has the texts of the wanted directories.
func holds(file, prefix string, want func(d string) bool) {
	data, ok := sym.VfsGet(file)
	sym.Assert(ok, "every domain is written to a file of its name in the output directory")
	po := gotext.NewPo()
	po.Parse([]byte(data))
	n := len(po.GetDomain().GetTranslations())
	for _, d := range dirs {
		has := po.GetDomain().GetTranslations()[prefix+d] != nil
		sym.Observe("file", file[len(file)-8:])
		sym.Assert(has == want(d), "exactly the texts of the input are written")
		if has {
			n--
		}
	}
	_, head := po.GetDomain().GetTranslations()[""]
	if head {
		n--
	}
	sym.Assert(n == 0, "nothing else is written")
}

// C32_Directory: extraction of a directory, with every combination of the other flags.
func C32_Directory() {
	root := sym.VfsRoot()
	project(root + "/src")
	style := sym.Choose("style", 3)
	args := flag(nil, style, "in", root+"/src")
	args = flag(args, style, "out", root+"/out/pot")
	def := "default"
	switch sym.Choose("default", 3) {
	case 1:
		args = flag(args, style, "default", "main")
		def = "main"
	case 2:
		c := sym.String("name", 1)
		sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'z'))
		args = flag(args, style, "default", c)
		def = c
	}
	excluded := []string{".git"}
	switch sym.Choose("exclude", 7) {
	case 6: // only commas separate
		c := sym.String("sep", 1)
		sym.Assume(sym.And(sym.And(c[0] >= ' ', c[0] < 0x7f), sym.And(c[0] != '/', c[0] != ',')))
		excluded = []string{"a" + c + "b", "b" + c + "a"}
	case 1:
		excluded = []string{"a"}
	case 2:
		excluded = []string{"a", ".git"}
	case 3:
		excluded = []string{"p/a", "a/b", ".github"}
	case 4:
		c := sym.String("dir", 1)
		sym.Assume(sym.And(sym.And(c[0] > ' ', c[0] < 0x7f), sym.And(c[0] != '.', c[0] != ',')))
		excluded = []string{"zz", c}
	case 5:
		excluded = []string{}
	}
	if len(excluded) != 1 || excluded[0] != ".git" {
		args = flag(args, style, "exclude", strings.Join(excluded, ","))
	}
	if style == 1 {
		args = append(args, "-v")
	}
	if style == 2 { // older files are replaced
		old := "msgid \"old\"\nmsgstr \"\"\n"
		sym.VfsPut(root+"/out/pot/dom.pot", strings.Repeat(old, 100))
		sym.VfsPut(root+"/out/pot/"+def+".pot", strings.Repeat(old, 100))
	}
	code := command(args)
	sym.ObserveInt("code", code)
	sym.Assert(code == 0, "the extraction succeeds")
	want := func(d string) bool {
		for _, e := range excluded {
			if d == e || strings.HasPrefix(d, e+"/") {
				return false
			}
		}
		return true
	}
	holds(root+"/out/pot/"+def+".pot", "in ", want)
	holds(root+"/out/pot/dom.pot", "dom ", want)
	if def != "default" {
		_, ok := sym.VfsGet(root + "/out/pot/default.pot")
		sym.Assert(!ok, "the default domain has the name that was given")
	}
	sym.Reach("end")
}

// C32_Package: extraction of a package and what it imports.
func C32_Package() {
	root := sym.VfsRoot()
	project(root + "/src")
	style := sym.Choose("style", 3)
	start := []string{"p", "p/a", "a/b"}[sym.Choose("package", 3)]
	args := flag(nil, style, "out", root+"/out")
	args = flag(args, style, "pkg-tree", root+"/src/"+start)
	def := "default"
	if sym.Choose("default", 2) == 1 {
		c := sym.String("name", 1)
		sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'z'))
		args = flag(args, style, "default", c)
		def = c
	}
	if sym.Choose("exclude", 2) == 1 {
		args = flag(args, style, "exclude", "zz")
	}
	if style == 1 {
		args = append(args, "-v")
	}
	code := command(args)
	sym.ObserveInt("code", code)
	sym.Assert(code == 0, "the extraction succeeds")
	want := func(d string) bool {
		switch d {
		case "p":
			return start == "p"
		case "p/a":
			return start != "a/b"
		case "a/b":
			return true
		}
		return false
	}
	holds(root+"/out/"+def+".pot", "in ", want)
	holds(root+"/out/dom.pot", "dom ", want)
	sym.Reach("end")
}

// C32_Wrong: incomplete, contradictory or unusable flags end the command with an
// error, and nothing is written.
func C32_Wrong() {
	root := sym.VfsRoot()
	project(root + "/src")
	style := sym.Choose("style", 3)
	in, tree, out := sym.Choose("in", 3), sym.Choose("tree", 3), sym.Choose("out", 6)
	var args []string
	switch in {
	case 1:
		args = flag(args, style, "in", root+"/src")
	case 2:
		args = flag(args, style, "in", root+"/none")
	}
	switch tree {
	case 1:
		args = flag(args, style, "pkg-tree", root+"/src/p")
	case 2:
		args = flag(args, style, "pkg-tree", root+"/none")
	}
	dir := root + "/out"
	switch out {
	case 2: // a file is in the way
		sym.VfsPut(root+"/out", "old")
	case 3: // or further up
		sym.VfsPut(root+"/file", "old")
		dir = root + "/file/out"
	case 4: // the templates cannot be written
		sym.VfsMkdir(root + "/out/dom.pot")
	case 5:
		sym.VfsMkdir(root + "/out/default.pot")
	}
	if out > 0 {
		args = flag(args, style, "out", dir)
	}
	unknown := sym.Choose("unknown", 3)
	if unknown == 1 {
		args = append([]string{"-zz"}, args...)
	} else if unknown == 2 {
		args = append(args, "-default")
	}
	code := command(args)
	sym.ObserveInt("code", code)
	good := unknown == 0 && out == 1 && (in == 1 && tree == 0 || in == 0 && tree == 1)
	sym.Assert((code == 0) == good, "the command fails exactly when it has not one readable input and a usable output")
	if out != 4 { // the other template may have been written before
		_, ok := sym.VfsGet(root + "/out/default.pot")
		sym.Assert(ok == good, "files are written exactly when the command succeeds")
	}
	sym.Reach("end")
}
