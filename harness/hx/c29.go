package hx

import (
	"errors"
	"path/filepath"
	"strings"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C29_Walk: every directory of the tree is parsed once, except the excluded
// ones and what lies below them.
func C29_Walk() {
	root := sym.VfsRoot()
	all := []string{".", "a", "a/b", "ab", "a/b/c", "b", "b/a", ".git", ".git/x", ".github", "vendor"}
	for _, d := range all {
		sym.VfsMkdir(root + "/src/" + d)
	}
	sym.VfsPut(root+"/src/a/README", "text")
	names := []string{"a", "a/b", "b", ".git", "vendor", "zz", "a/b/c", ".g", ""}
	var excl []string
	n := sym.Choose("excluded", 3)
	for i := 0; i < n; i++ {
		excl = append(excl, names[sym.Choose("name", len(names))])
	}
	data := &parser.DomainMap{}
	var got []string
	var bases []string
	dir.AddParser(func(filePath, basePath string, d *parser.DomainMap) error {
		rel, _ := filepath.Rel(root+"/src", filePath)
		got = append(got, rel)
		bases = append(bases, basePath)
		sym.Assert(d == data, "the parsers get the collected translations")
		return nil
	})
	err := dir.ParseDirRec(root+"/src", excl, data, false)
	sym.Assert(err == nil, "a directory tree can be walked")
	want := map[string]bool{}
	for _, d := range all {
		out := false
		for _, e := range excl {
			if e != "" && (d == e || strings.HasPrefix(d, e+"/")) {
				out = true
			}
		}
		if !out {
			want[d] = true
		}
	}
	for i, d := range got {
		sym.Observe("dir", d)
		sym.Assert(want[d], "excluded directories and what is below them are not parsed, and nothing twice")
		delete(want, d)
		b, _ := filepath.Rel(root+"/src", bases[i])
		sym.Assert(b == ".", "locations are relative to the walked directory")
	}
	sym.Assert(len(want) == 0, "every directory that is not excluded is parsed")
	sym.Reach("end")
}

// C29_Names: the excluded name is any short text.
func C29_Names() {
	root := sym.VfsRoot()
	all := []string{".", "a", "a/b", "ab", "b"}
	for _, d := range all {
		sym.VfsMkdir(root + "/src/" + d)
	}
	k := 3
	if sym.Tier() == 1 {
		k = 4
	}
	e := sym.String("exclude", sym.Choose("len", k+1))
	sym.Assume(e != ".")
	for i := 0; i < len(e); i++ {
		sym.Assume(e[i] != 0)
	}
	var got []string
	dir.AddParser(func(filePath, basePath string, d *parser.DomainMap) error {
		rel, _ := filepath.Rel(root+"/src", filePath)
		got = append(got, rel)
		return nil
	})
	err := dir.ParseDirRec(root+"/src", []string{"zz", e}, &parser.DomainMap{}, false)
	sym.Assert(err == nil, "a directory tree can be walked")
	i := 0
	for _, d := range all {
		if d == e || e != "" && strings.HasPrefix(d, e+"/") {
			continue
		}
		sym.Assert(i < len(got), "every directory that is not excluded is parsed")
		sym.Assert(got[i] == d, "excluded directories and what is below them are not parsed")
		i++
	}
	sym.Assert(i == len(got), "excluded directories and what is below them are not parsed")
	sym.Reach("end")
}

// C29_Parsers: every parser gets every directory, whatever the other ones found
// there, and the translations of all of them are kept.
func C29_Parsers() {
	root := sym.VfsRoot()
	all := []string{".", "a", "a/b", "b"}
	for _, d := range all {
		sym.VfsMkdir(root + "/src/" + d)
	}
	data := &parser.DomainMap{}
	if sym.Choose("default", 2) == 1 {
		data.Default = "main"
	}
	fails := sym.Choose("fails", 5) // the directory at which the last parser gives up
	doms := sym.Choose("domains", 3)
	var got [3][]string
	for k := 0; k < 3; k++ {
		k := k
		dir.AddParser(func(filePath, basePath string, d *parser.DomainMap) error {
			rel, _ := filepath.Rel(root+"/src", filePath)
			got[k] = append(got[k], rel)
			for i := 0; i <= doms; i++ {
				d.AddTranslation([]string{"", "x", "y"}[i], &parser.Translation{MsgID: rel + string(rune('0'+k)), SourceLocations: []string{rel + ":1"}})
			}
			if k == 2 && fails < len(all) && all[fails] == rel {
				return errors.New("gave up")
			}
			return nil
		})
	}
	err := dir.ParseDirRec(root+"/src", nil, data, false)
	sym.Assert((err != nil) == (fails < len(all)), "an error of a parser is returned, and nothing else is one")
	for k := range got {
		sym.ObserveInt("directories", len(got[k]))
		for i, d := range got[k] {
			sym.Assert(i < len(all) && all[i] == d, "every parser gets every directory once")
		}
		if err == nil {
			sym.Assert(len(got[k]) == len(all), "every parser gets every directory once")
			for i := 0; i <= doms; i++ {
				n := []string{"default", "x", "y"}[i]
				if i == 0 && data.Default != "" {
					n = data.Default
				}
				dm := data.Domains[n]
				sym.Assert(dm != nil && len(dm.Translations) == 3*len(all), "what the parsers found is kept")
			}
		}
	}
	sym.Reach("end")
}

// C29_Dirs: a directory of any name, above and below others.
func C29_Dirs() {
	root := sym.VfsRoot()
	odd := []string{"_", "_a", "testdata", ".x", "node_modules", "Vendor", "vendor", "internal", "A", "a b", "-x", "\u00e9", "a.go", "x_test", "cmd", "~", "%s", "..a", "CVS", "a*", "[a]", "?", "docs", "build"}
	name := odd[sym.Choose("name", len(odd))]
	all := []string{".", name, name + "/sub", "m", "m/" + name}
	if sym.Choose("same", 2) == 1 {
		all = append(all, name+"/"+name)
	}
	for _, d := range all {
		sym.VfsMkdir(root + "/src/" + d)
	}
	var excl []string
	if e := sym.Choose("exclude", 6); e > 0 {
		excl = []string{[]string{"a", "m/" + name, name + "/sub", "x", name[:1]}[e-1]}
		sym.Assume(excl[0] != ".") // of which only the files might be meant
	}
	count := map[string]int{}
	dir.AddParser(func(filePath, basePath string, d *parser.DomainMap) error {
		rel, _ := filepath.Rel(root+"/src", filePath)
		count[rel]++
		return nil
	})
	err := dir.ParseDirRec(root+"/src", excl, &parser.DomainMap{}, false)
	sym.Assert(err == nil, "a directory tree can be walked")
	for _, d := range all {
		want := 1
		for _, e := range excl {
			if d == e || strings.HasPrefix(d, e+"/") {
				want = 0
			}
		}
		sym.Assert(count[d] == want, "every directory is parsed once unless it is excluded, whatever its name")
		delete(count, d)
	}
	sym.Assert(len(count) == 0, "nothing else is parsed")
	sym.Reach("end")
}
