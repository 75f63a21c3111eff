package hx

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	xg "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/zzverif/sym"
	"golang.org/x/tools/go/packages"
)

// extract runs one call x.name(args) at the given line of a file.
func extract(data *xg.DomainMap, file string, line int, name string, args ...string) {
	fset := token.NewFileSet()
	f := fset.AddFile("/base/"+file, -1, 1000)
	ls := make([]int, 100)
	for i := range ls {
		ls[i] = i * 10
	}
	f.SetLines(ls)
	x := ast.NewIdent("x")
	x.NamePos = f.Pos(1)
	n := &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Lparen: f.Pos(10*(line-1) + 3)}
	for _, a := range args {
		if a == "" {
			n.Args = append(n.Args, ast.NewIdent("n"))
		} else {
			n.Args = append(n.Args, lit(a))
		}
	}
	g := &xg.GoFile{FilePath: "/base/" + file, BasePath: "/base", Data: data, FileSet: fset,
		ImportedPackages: map[string]*packages.Package{"p": {Name: "p", PkgPath: "example.org/p", TypesInfo: &types.Info{Types: map[ast.Expr]types.TypeAndValue{x: {Type: gotextType("Locale")}}}}}}
	g.InspectCallExpr(n)
}

type occ struct {
	dom, ctx, id, pl string
	hasCtx           bool
	loc              string
}

// run performs the calls described by the occurrences.
func (o occ) run(data *xg.DomainMap, file string, line int) {
	q := strconv.Quote
	switch {
	case o.dom == "" && !o.hasCtx && o.pl == "":
		extract(data, file, line, "Get", q(o.id))
	case o.dom == "" && !o.hasCtx:
		extract(data, file, line, "GetN", q(o.id), q(o.pl), "")
	case o.dom == "" && o.pl == "":
		extract(data, file, line, "GetC", q(o.id), q(o.ctx))
	case o.dom == "":
		extract(data, file, line, "GetNC", q(o.id), q(o.pl), "", q(o.ctx))
	case !o.hasCtx && o.pl == "":
		extract(data, file, line, "GetD", q(o.dom), q(o.id))
	case !o.hasCtx:
		extract(data, file, line, "GetND", q(o.dom), q(o.id), q(o.pl), "")
	case o.pl == "":
		extract(data, file, line, "GetDC", q(o.dom), q(o.id), q(o.ctx))
	default:
		extract(data, file, line, "GetNDC", q(o.dom), q(o.id), q(o.pl), "", q(o.ctx))
	}
}

// saved saves the data and parses every file that should be there.
func saved(data *xg.DomainMap, doms map[string]bool) map[string]*gotext.Po {
	out := sym.VfsRoot() + "/out/po"
	sym.Assert(data.Save(out) == nil, "the files are saved")
	pos := map[string]*gotext.Po{}
	for d := range doms {
		s, ok := sym.VfsGet(out + "/" + d + ".pot")
		sym.Assert(ok, "there is a file for every domain")
		po := gotext.NewPo()
		po.Parse([]byte(s))
		pos[d] = po
	}
	return pos
}

func checkEntry(tr *gotext.Translation, id, pl string, locs []string) {
	sym.Assert(tr != nil, "every extracted text is in the file of its domain")
	sym.Observe("id", tr.ID)
	sym.Observe("plural", tr.PluralID)
	sym.Assert(tr.ID == id && tr.PluralID == pl, "the id and the plural are those of the calls")
	for _, s := range tr.Trs {
		sym.Assert(s == "", "the texts of a template are empty")
	}
	if pl == "" {
		sym.Assert(len(tr.Trs) == 1, "a singular text has one empty translation")
	} else {
		sym.Assert(len(tr.Trs) == 2, "a plural text has two empty translations")
	}
	sort.Strings(locs)
	sym.Assert(len(tr.Refs) == len(locs), "every location is listed")
	for i := range locs {
		sym.Assert(tr.Refs[i] == locs[i], "every location is listed, in order")
	}
}

// C28_Text: whatever the texts, the file parses back to them.
func C28_Text() {
	o := occ{hasCtx: sym.Choose("ctx", 2) == 1}
	// One of the texts is arbitrary, the other ones are awkward.
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	s := sym.String("s", k)
	for i := range s {
		sym.Assume(sym.And(s[i] < 0x80, s[i] != 0))
	}
	sym.Assume(s != "zz")
	awk := "é\"\\\n\t%d"
	which := sym.Choose("which", 4)
	o.id, o.pl, o.ctx = awk, awk+"s", awk+"c"
	switch which {
	case 0:
		o.id = s
	case 1:
		o.pl = s
	case 2:
		o.ctx = s
	case 3: // all the same
		o.id, o.pl, o.ctx = s, s, s
	}
	if sym.Choose("plural", 2) == 0 {
		o.pl = ""
	}
	data := &xg.DomainMap{}
	o2 := o
	q := raw
	args := []string{q(o.id)}
	name := "Get"
	if o.pl != "" {
		name += "N"
		args = append(args, q(o.pl), "")
	}
	if o.hasCtx {
		name += "C"
		args = append(args, q(o.ctx))
	}
	extract(data, "f.go", 7, name, args...)
	extract(data, "g.go", 1, "Get", `"zz"`)
	pos := saved(data, map[string]bool{"default": true})
	po := pos["default"]
	var tr *gotext.Translation
	if o.hasCtx {
		c := po.GetDomain().GetCtxTranslations()
		sym.Assert(len(c) == 1 && len(c[o.ctx]) == 1, "the context is in the file")
		tr = c[o.ctx][o.id]
	} else {
		tr = po.GetDomain().GetTranslations()[o.id]
	}
	checkEntry(tr, o2.id, o2.pl, []string{"f.go:7"})
	sym.Assert(po.GetDomain().GetTranslations()["zz"] != nil, "the other texts are in the file")
	sym.Reach("end")
}

// raw is the interpreted literal of a text: every byte that needs it escaped.
func raw(s string) string {
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		default:
			out = append(out, c)
		}
	}
	return string(append(out, '"'))
}

// C28_Merge: any sequence of calls, with ids and contexts that may be equal.
func C28_Merge() {
	k := 3
	data := &xg.DomainMap{Default: "main"}
	var os []occ
	doms := map[string]bool{}
	near := sym.Choose("near", 2) == 1 // places that begin alike
	for i := 0; i < k; i++ {
		var o occ
		id := sym.String("id", 1)
		sym.Assume(sym.Or(id == "a", id == "\""))
		o.id = id
		if sym.Choose("plural", 2) == 1 {
			o.pl = "a"
		}
		switch sym.Choose("ctx", 2+sym.Tier()) {
		case 1:
			o.hasCtx, o.ctx = true, "c"
		case 2:
			o.hasCtx, o.ctx = true, "d"
		}
		if sym.Choose("domain", 2) == 1 {
			o.dom = "other"
		}
		file, line := []string{"z.go", "d/m.go", "a.go"}[i%3], 1+(5*i+3)%11
		if near {
			file, line = []string{"a.go", "a.go", "a.god"}[i%3], []int{12, 1, 12}[i%3]
		}
		o.loc = file + ":" + strconv.Itoa(line)
		o.run(data, file, line)
		if o.dom == "" {
			o.dom = "main"
		}
		doms[o.dom] = true
		os = append(os, o)
	}
	pos := saved(data, doms)
	n := map[string]int{}
	for i, o := range os {
		var locs []string
		pl := ""
		first := true
		for j, p := range os {
			if p.dom == o.dom && p.hasCtx == o.hasCtx && p.ctx == o.ctx && p.id == o.id {
				locs = append(locs, p.loc)
				if pl == "" {
					pl = p.pl
				}
				if j < i {
					first = false
				}
			}
		}
		if !first {
			continue
		}
		n[o.dom]++
		d := pos[o.dom].GetDomain()
		if o.hasCtx {
			checkEntry(d.GetCtxTranslations()[o.ctx][o.id], o.id, pl, locs)
		} else {
			checkEntry(d.GetTranslations()[o.id], o.id, pl, locs)
		}
	}
	for d, want := range n {
		have := 0
		for id := range pos[d].GetDomain().GetTranslations() {
			if id != "" {
				have++
			}
		}
		for _, c := range pos[d].GetDomain().GetCtxTranslations() {
			have += len(c)
		}
		sym.Assert(have == want, "a text is in the file once, and only in that of its domain")
	}
	sym.Reach("end")
}

// C28_Order: the file does not depend on the order in which texts are found.
func C28_Order() {
	var os []occ
	for i := 0; i < 3; i++ {
		c := sym.Choose("ctx", 3)
		o := occ{id: string(rune('a' + sym.Choose("id", 2))), ctx: []string{"", "c", "d"}[c], hasCtx: c > 0}
		if sym.Choose("plural", 2) == 1 {
			o.pl = "pl"
		}
		os = append(os, o)
	}
	perm := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}
	var texts []string
	for k, p := range perm {
		data := &xg.DomainMap{}
		for _, i := range p {
			os[i].run(data, "f.go", i+1)
		}
		dir := sym.VfsRoot() + "/o" + strconv.Itoa(k)
		if k == 2 { // an older file is replaced
			sym.VfsPut(dir+"/default.pot", strings.Repeat("msgid \"old\"\nmsgstr \"\"\n", 100))
		}
		sym.MapOrder(k == 1)
		sym.Assert(data.Save(dir) == nil, "the file is saved")
		sym.MapOrder(false)
		s, _ := sym.VfsGet(dir + "/default.pot")
		texts = append(texts, s)
	}
	sym.Observe("text", texts[0])
	sym.Assert(texts[0] == texts[1] && texts[0] == texts[2], "the file does not depend on the order in which texts are found")
	sym.Reach("end")
}

// C28_Header: a saved file has a header that makes plurals work.
func C28_Header() {
	data := &xg.DomainMap{}
	if sym.Choose("texts", 2) == 1 {
		extract(data, "f.go", 1, "GetN", `"one"`, `"many"`, "")
	} else {
		data.AddTranslation("", &xg.Translation{MsgID: "x", SourceLocations: []string{"f.go:1"}})
	}
	po := saved(data, map[string]bool{"default": true})["default"]
	h := po.GetDomain().Headers
	sym.Assert(h.Get("Plural-Forms") == "nplurals=2; plural=(n != 1);" && h.Get("Content-Type") == "text/plain; charset=UTF-8", "the header is that of a PO template")
	n := int(sym.Uint32("n"))
	po.SetN("one", "many", n, "x")
	po.SetN("q", "qs", 1, "q0")
	po.SetN("q", "qs", 2, "q1")
	want := "q1"
	if n == 1 {
		want = "q0"
	}
	sym.Assert(po.GetN("q", "qs", n) == want, "the header selects the Germanic plural")
	sym.Reach("end")
}

// C28_Failure: an output that cannot be written is reported, and saving again works.
func C28_Failure() {
	data := &xg.DomainMap{}
	names := []string{"a", "b", "c"}[:1+sym.Choose("domains", 3)]
	id := sym.String("id", 1)
	sym.Assume(id[0] >= ' ' && id[0] < 0x7f)
	doms := map[string]bool{}
	for i, d := range names {
		data.AddTranslation(d, &xg.Translation{MsgID: id + d, SourceLocations: []string{"f:" + strconv.Itoa(i+1)}})
		doms[d] = true
	}
	dir := sym.VfsRoot() + "/out/po"
	bad := true
	switch sym.Choose("bad", 6) {
	case 0:
		bad = false
	case 1:
		dir += "x"
		sym.VfsPut(dir, "x")
	case 2:
		dir += "x"
		sym.VfsPut(sym.VfsRoot()+"/out/pox", "x")
		dir += "/below"
	case 3:
		dir += "x"
		sym.VfsMkdir(dir + "/a.pot")
	case 4:
		dir += "x"
		sym.VfsFull(dir + "/" + names[len(names)-1] + ".pot")
	case 5:
		dir += "x"
		sym.VfsMkdir(dir)
		sym.VfsFull(dir + "/z.pot")
		bad = false
	}
	sym.MapOrder(true)
	err := data.Save(dir)
	sym.MapOrder(false)
	sym.ObserveBool("err", err != nil)
	sym.Assert((err != nil) == bad, "saving fails when, and only when, a file cannot be written")
	for d, po := range saved(data, doms) {
		tr := po.GetDomain().GetTranslations()[id+d]
		sym.Assert(tr != nil && len(tr.Refs) == 1, "after a failure everything can still be saved elsewhere")
	}
	sym.Reach("end")
}
