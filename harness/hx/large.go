package hx

import (
	"path/filepath"
	"strconv"
	"strings"

	xg "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func sizes(all ...int) int { return all[sym.Choose("size", len(all)-1+sym.Tier())] }

// C27_Large: long texts, and many arguments after the ones of the getter.
func C27_Large() {
	k := sizes(30, 300, 5000, 70000)
	g := getters[sym.Choose("getter", len(getters))]
	x := sym.String("x", 1)
	sym.Assume(sym.And(x[0] > ' ', sym.And(x[0] < 0x7f, sym.And(x[0] != '"', x[0] != '\\'))))
	long := strings.Repeat("word ", k/5) + x
	src, val := "\""+long+"\"", long
	switch sym.Choose("form", 3) {
	case 1:
		sym.Assume(x[0] != '`')
		src = "`" + strings.Repeat("line\n", k/5) + x + "`"
		val = src[1 : len(src)-1]
	case 2:
		src = "\"" + strings.Repeat("\\n\\\"é", k/5) + x + "\""
		val = strings.Repeat("\n\"é", k/5) + x
	}
	data := &xg.DomainMap{}
	var args []string
	for i := 0; i < g.args; i++ {
		switch i {
		case g.id, g.plural:
			args = append(args, src)
		case g.dom:
			args = append(args, "\"dom\"")
		case g.cx:
			args = append(args, "\"ctx\"")
		default:
			args = append(args, "")
		}
	}
	for i := 0; i < k/10; i++ {
		args = append(args, "")
	}
	extract(data, "f.go", 7, g.name, args...)
	dom, pl, cx := "default", "", ""
	if g.dom >= 0 {
		dom = "dom"
	}
	if g.plural >= 0 {
		pl = val
	}
	if g.cx >= 0 {
		cx = "ctx"
	}
	found(data, dom, val, pl, cx, g.cx >= 0, "f.go:7")
	sym.Reach("end")
}

// C28_Large: many texts, places and contexts.
func C28_Large() {
	n := sizes(14, 40, 90, 300)
	x := sym.String("x", 1)
	sym.Assume(sym.And(x[0] >= 'a', x[0] <= 'z'))
	data := &xg.DomainMap{}
	doms := map[string]bool{"default": true, "d0": true, "d1": true}
	where := map[occ][]string{}
	var keys []occ
	for i := 0; i < n; i++ {
		o := occ{id: x + strconv.Itoa(i/2*2), dom: []string{"", "d0", "", "d1"}[i/2%4]}
		if i/2%3 == 1 {
			o.hasCtx, o.ctx = true, "c"+strconv.Itoa(i/2%9)
		}
		if i/2%5 == 2 {
			o.pl = "pl"
		}
		file, line := "f"+strconv.Itoa(i%12)+".go", 1+i%90
		o.run(data, file, line)
		if where[o] == nil {
			keys = append(keys, o)
		}
		where[o] = append(where[o], file+":"+strconv.Itoa(line))
	}
	var locs []string
	for i := 0; i < n; i++ { // one text in many places
		file, line := "g"+strconv.Itoa(i%12)+".go", 1+(i*7)%90
		occ{id: "many"}.run(data, file, line)
		locs = append(locs, file+":"+strconv.Itoa(line))
	}
	pos := saved(data, doms)
	for _, o := range keys {
		d := "default"
		if o.dom != "" {
			d = o.dom
		}
		if o.hasCtx {
			checkEntry(pos[d].GetDomain().GetCtxTranslations()[o.ctx][o.id], o.id, o.pl, where[o])
		} else {
			checkEntry(pos[d].GetDomain().GetTranslations()[o.id], o.id, o.pl, where[o])
		}
	}
	checkEntry(pos["default"].GetDomain().GetTranslations()["many"], "many", "", locs)
	sym.Reach("end")
}

// C29_Large: deep and wide trees and many excluded names.
func C29_Large() {
	n := sizes(8, 20, 60, 200)
	root := sym.VfsRoot() + "/src"
	want := map[string]bool{".": true}
	mk := func(d string, excluded bool) {
		sym.VfsMkdir(root + "/" + d)
		if !excluded {
			want[d] = true
		}
	}
	var excl []string
	d := "deep"
	mk(d, false)
	cut := sym.Choose("cut", 2) * (n / 2)
	below := false
	for i := 1; i < n; i++ {
		d += "/" + strconv.Itoa(i)
		if i == cut {
			excl, below = append(excl, d), true
		}
		mk(d, below)
	}
	mk("wide", false)
	for i := 0; i < n; i++ {
		out := i%3 == 1
		w := "wide/" + string(rune('A'+i%26)) + strconv.Itoa(i)
		if out {
			excl = append(excl, w)
		}
		mk(w, out)
		mk(w+"/x", out)
	}
	var got []string
	dir.AddParser(func(filePath, basePath string, _ *xg.DomainMap) error {
		rel, _ := filepath.Rel(root, filePath)
		got = append(got, rel)
		return nil
	})
	sym.Assert(dir.ParseDirRec(root, excl, &xg.DomainMap{}, false) == nil, "a directory tree can be walked")
	for _, g := range got {
		sym.Observe("dir", g)
		sym.Assert(want[g], "excluded directories and what is below them are not parsed, and nothing twice")
		delete(want, g)
	}
	sym.Assert(len(want) == 0, "every directory that is not excluded is parsed")
	sym.Reach("end")
}
